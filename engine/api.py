"""The interface harnesses are written against: one run symbolic (A = SymA), replays concrete (A = ConA)."""
import sys, os, math, random
from fractions import Fraction
import numpy as np

LO, HI = Fraction(1, 1024), 1024
CL = 1024
WLO, WHI = Fraction(1, 64), 64


class Knots(object):
    """A knot vector given by breaks and multiplicities; U[p]..U[n+1] is the domain."""
    def __init__(self, p, breaks, mults):
        self.p, self.breaks, self.mults = p, breaks, list(mults)
        self.U = []; self.of = []
        for i, (b, m) in enumerate(zip(breaks, mults)):
            for _ in range(m): self.U.append(b); self.of.append(i)
        self.m = len(self.U) - 1
        self.n = self.m - p - 1
        lo, hi = self.of[p], self.of[self.n+1]
        self.lo, self.hi = lo, hi
        # (span index k, break number j) for each non-empty span of the domain
        self.spans = []
        for j in range(lo, hi):
            k = max(i for i in range(len(self.of)) if self.of[i] == j)
            self.spans.append((k, j))
        self.a, self.b = breaks[lo], breaks[hi]
    def span_of_break(self, j):
        """Index k of the span that starts at break j."""
        return max(i for i in range(len(self.of)) if self.of[i] == j)


class Base(object):
    def shape(self, x): return tuple(np.shape(x))

    def ctrl(self, name): return self.real(name, -CL, CL, nice=(-2, 2))
    def weight(self, name): return self.real(name, WLO, WHI, nice=(Fraction(1, 2), 2))
    def gap(self, name): return self.real(name, LO, HI, nice=(Fraction(1, 2), 2))
    def off(self, name, lo=0): return self.real(name, lo, HI, nice=(Fraction(1, 4), 1))

    def ctrls(self, name, shape, mask=None):
        """Array of control variables."""
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            a[idx] = self.ctrl(name + ''.join('_%d' % i for i in idx))
        return self.arr(a)
    def weights(self, name, shape):
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            a[idx] = self.weight(name + ''.join('_%d' % i for i in idx))
        return self.arr(a)
    def consts(self, seed, shape, lo=-3, hi=3, den=4):
        """Array of fixed 'random' rationals (the same in every run)."""
        r = random.Random(seed)
        a = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            a[idx] = Fraction(r.randint(lo*den, hi*den), den)
        return self.arr(a)

    def _sites(self, sites):
        if isinstance(sites, dict): return dict(sites)
        return dict((s, 1) for s in sites)

    def knots(self, p, mults, name='U', sites=(), start=None, tiny=()):
        """Knots with symbolic gaps.  sites: gap numbers, or {gap number: count}; a gap with count
        parameters strictly inside is a sum of count+1 positive parts.  K.site[j] is the first
        parameter inside gap j, K.site[j, i] the i-th.  tiny: parts that are tiny (but far above rounding):
        ('a', j, i) before the i-th site of gap j, ('g', j) the (last part of) gap j."""
        T = dict(lo=Fraction(1, 2**30), hi=Fraction(1, 2**12), nice=(Fraction(1, 2**24), Fraction(1, 2**16)))
        sites = self._sites(sites)
        x = self.real(name + '0', -CL, CL, nice=(-1, 1)) if start is None else self.num(start)
        breaks = [x]
        pts = {}
        for j in range(len(mults)-1):
            y = x
            for i in range(sites.get(j, 0)):
                v = '%s_a%d_%d' % (name, j, i)
                y = y + (self.real(v, **T) if ('a', j, i) in tiny else self.real(v, LO, HI, nice=(Fraction(1, 4), 1)))
                pts[j, i] = y
                if i == 0: pts[j] = y
            x = y + (self.real('%s_g%d' % (name, j), **T) if ('g', j) in tiny else self.gap('%s_g%d' % (name, j)))
            breaks.append(x)
        K = Knots(p, breaks, mults)
        K.site = pts; K.tiny = bool(tiny)
        return K

    def cknots(self, p, mults, seed=0, name='U', gaps=None, sites=()):
        """Fixed irregular rational knots."""
        r = random.Random(seed*31 + p)
        if gaps is None: gaps = [Fraction(r.choice([1, 2, 3, 5, 6, 7]), r.choice([2, 4])) for _ in range(len(mults)-1)]
        x = Fraction(r.choice([-3, -1, 0, 1, 2]), 2)
        breaks = [x]
        for g in gaps: x = x + Fraction(g); breaks.append(x)
        K = Knots(p, [self.num(b) for b in breaks], mults)
        K.fr = breaks
        K.site = {}
        for j, n in self._sites(sites).items():
            q = (breaks[j+1]-breaks[j])/n
            for i in range(n):
                K.site[j, i] = K.breaks[j] + self.num(q*i) + self.real('%s_s%d_%d' % (name, j, i), q/1024, q*Fraction(1023, 1024), nice=(q/4, q*3/4))
                if i == 0: K.site[j] = K.site[j, 0]
        return K


class SymA(Base):
    mode = 'sym'
    def __init__(self, pkg, ctx):
        from . import npshim, sym
        self.pkg, self.ctx = pkg, ctx
        self.np = npshim.shim
        self.npshim, self.symm = npshim, sym
        self.claims = []
        self.cache = {}
    def mod(self, name): return self.pkg.module('igakit.' + name)
    def drawing(self):
        """Fresh drawing backends over stand-ins for matplotlib and mayavi."""
        from . import fakes
        from .sym import Inconclusive
        self.pkg.drawing = W = fakes.World(Inconclusive)
        for n in ('plot_mpl', 'plot_myv'): self.pkg.mods.pop('igakit.' + n, None)
        P = self.mod('plot').Plotter
        for k in P._modules: P._modules[k] = None
        return W
    @property
    def NURBS(self): return self.mod('nurbs').NURBS
    @property
    def cad(self): return self.mod('cad')
    @property
    def bsp(self): return self.pkg.igalib.bsp
    @property
    def iga(self): return self.pkg.igalib.iga

    def real(self, name, lo=None, hi=None, nice=None, strict=False):
        return self.ctx.var(name, lo, hi, strict=strict, nice=nice)
    def pos(self, name): return self.ctx.var(name, LO, HI, nice=(Fraction(1, 4), 2))
    def num(self, q): return self.symm.Sym.const(Fraction(q)) if not isinstance(q, self.symm.Sym) else q
    def arr(self, a):
        return self.npshim.lift(np.array(a, dtype=object)).copy()
    def angle(self, name, lo, hi, nice=None):
        """Symbolic angle with tan(angle/2) in [tlo, thi] given by rational half-tangents lo, hi."""
        pi = 3.141592653589793
        alo = Fraction(math.floor(2*math.atan(float(lo))*10**9)-1, 10**9)
        ahi = Fraction(math.ceil(2*math.atan(float(hi))*10**9)+1, 10**9)
        return self.symm.angle_var(name, alo, ahi, lo, hi, nice=nice)
    @property
    def PI(self): return self.symm.pi()
    def cos(self, x): return self.symm.ssincos(x)[1]
    def sin(self, x): return self.symm.ssincos(x)[0]
    def sqrt(self, x): return self.symm.ssqrt(self.symm.Sym.const(x))
    def choose(self, n): return self.ctx.choose(n)
    def decide(self, cond): return bool(cond)
    def assume(self, cond): self.ctx.require(cond)
    def nonzero(self, x):
        """Assume x is not zero (in a replay: not small)."""
        self.ctx.nonzero(x)
    def objs(self, a):
        """Plain nested object array of the values of an array."""
        return self.npshim.plain(self.npshim.lift(a)) if not isinstance(a, np.ndarray) or isinstance(a, self.npshim.SArr) else a

    # claims
    def claim_eq(self, what, got, exp, tol=None):
        S = self.npshim
        g, e = self._o(got), self._o(exp)
        if g.shape != e.shape:
            self.claims.append(('bool', '%s: shape %s, expected %s' % (what, g.shape, e.shape), False))
            return
        for idx in np.ndindex(*g.shape):
            x, y = g[idx], e[idx]
            from .fortrt import UNDEF
            if x is UNDEF:
                self.claims.append(('bool', '%s%s: unset value' % (what, list(idx)), False)); continue
            self.claims.append(('eq', '%s%s' % (what, list(idx) if idx else ''), self.num_(x), self.num_(y), tol))
    def claim_either(self, what, got, *alts):
        """Each component equals the same component of one of the alternatives."""
        g, es = self._o(got), [self._o(e) for e in alts]
        for e in es:
            if g.shape != e.shape:
                self.claims.append(('bool', '%s: shape %s, expected %s' % (what, g.shape, e.shape), False))
                return
        # the alternative is picked at a sample point, then proved
        from .runner import sample
        from . import sym
        v = None
        for k in range(30):
            try: v = sample(self.ctx, random.Random(k))
            except Exception: v = None
            if v is not None: break
        for idx in np.ndindex(*g.shape):
            pick = es[0][idx]
            for e in es:
                if v is None: break
                try: d = float(sym.sym_eval(self.num_(g[idx]), v)) - float(sym.sym_eval(self.num_(e[idx]), v))
                except (ZeroDivisionError, OverflowError): continue
                if abs(d) < 1e-9*(1+abs(float(sym.sym_eval(self.num_(e[idx]), v)))): pick = e[idx]; break
            self.claims.append(('eq', '%s%s' % (what, list(idx) if idx else ''), self.num_(g[idx]), self.num_(pick), None))
    def num_(self, x): return self.npshim.to_sym(x)
    def _o(self, x):
        S = self.npshim
        if isinstance(x, S.SArr): return S.plain(x)
        if isinstance(x, np.ndarray): return x.view(np.ndarray)
        if hasattr(x, '__array__') and not isinstance(x, self.symm.Sym): return S.plain(S.shim.asarray(x))
        return np.array(x, dtype=object)
    def claim(self, what, cond):
        if isinstance(cond, np.bool_): cond = bool(cond)
        self.claims.append(('bool', what, cond))
    def claim_le(self, what, a, b, tol=0):
        """a <= b (in a replay: up to rounding)."""
        self.claims.append(('bool', what, self.npshim.to_sym(a) <= self.npshim.to_sym(b)))
    def claim_lt(self, what, a, b):
        self.claims.append(('bool', what, self.npshim.to_sym(a) < self.npshim.to_sym(b)))
    def refused(self, what, fn, exc=Exception):
        from .sym import ModelFault, PathAbort, Inconclusive
        try: fn()
        except (ModelFault, PathAbort, Inconclusive): raise
        except exc: ok = True
        except Exception as e: ok = False; what = '%s: raised %s' % (what, type(e).__name__)
        else: ok = False; what = '%s: accepted' % what
        self.claims.append(('bool', what, ok))
        return ok
    def attempt(self, fn):
        """(True, result), or (False, None) when the call raises.  Faults are not exceptions."""
        from .sym import ModelFault, PathAbort, Inconclusive
        try: return True, fn()
        except (ModelFault, PathAbort, Inconclusive): raise
        except Exception: return False, None
    def unset_outputs(self):
        """Output arrays of kernels start unset."""
        from . import f2py
        f2py.Wrapper.unset_outputs = True
    def claim_set(self, what, *arrays):
        pass                              # the interpreter faults on unset values itself
    def same(self, a, b):
        """Elementwise identity of two value arrays, as one claim condition."""
        a, b = self._o(a), self._o(b)
        if a.shape != b.shape: return False
        return all(bool(x == y) for x, y in zip(a.reshape(-1), b.reshape(-1)))
    def key(self, x):
        """A canonical, ordered name of a value: equal values have equal keys."""
        x = self.num_(x)
        n, d, f = x.key()
        return repr((sorted(n), d, f))
    def exact_bits(self, a): return [self.num_(x) for x in self._o(a).reshape(-1)]

    # files
    def path(self, name): return '/virtual/' + name
    def fopen(self, path):
        from .vfs import VFile
        return SymReader(VFile(self.pkg.fs, path, 'rb'))
    def fput(self, path, parts):
        """Create a file from (dtype, values) parts."""
        from .vfs import VFile
        f = VFile(self.pkg.fs, path, 'wb')
        for dt, vals in parts: f.write_values(np.dtype(dt), list(vals))
    def f32(self, x): return self.npshim.f32(x)


class SymReader(object):
    def __init__(self, f): self.f = f
    def items(self, dt, n):
        r = self.f.read_values(np.dtype(dt), n)
        if len(r) != n: raise EOFError()
        return list(r)
    def line(self): return self.f.readline().decode('ascii', 'replace').rstrip('\n')
    def raw(self, n):
        return self.f.read(n)
    def eof(self): return self.f.pos >= len(self.f.cells)


class ClaimFailed(Exception): pass

class ConA(Base):
    """Concrete run on the real build."""
    mode = 'con'
    def __init__(self, values, choices, scratch, tol=1e-6):
        self.np = np
        self.values, self.choices = values, list(choices)
        self.failed = []
        self.nclaims = 0
        self.tol = tol
        self.scratch = scratch
        self.scale = 1.0
    def mod(self, name):
        import importlib
        return importlib.import_module('igakit.' + name)
    def drawing(self):
        import sys
        from . import fakes
        for n in list(sys.modules):
            if n.split('.')[0] in fakes.ROOTS or n in ('igakit.plot_mpl', 'igakit.plot_myv'): del sys.modules[n]
        W = fakes.World(AssumptionFailed)
        sys.modules.update(W.modules)
        P = self.mod('plot').Plotter
        for k in P._modules: P._modules[k] = None
        return W
    @property
    def NURBS(self): return self.mod('nurbs').NURBS
    @property
    def cad(self): return self.mod('cad')
    @property
    def bsp(self): return self.mod('igalib').bsp
    @property
    def iga(self): return self.mod('igalib').iga
    def real(self, name, lo=None, hi=None, nice=None, strict=False):
        v = self.values.get(name)
        if v is None:
            if nice: v = (float(nice[0])+float(nice[1]))/2
            elif lo is not None and hi is not None: v = (float(lo)+float(hi))/2
            else: v = 0.5
        v = float(v)
        if abs(v) > self.scale: self.scale = abs(v)
        return v
    def pos(self, name): return self.real(name, LO, HI, nice=(Fraction(1, 4), 2))
    def num(self, q): return float(q)
    def arr(self, a): return np.array(a, dtype=object).astype(float)
    def angle(self, name, lo, hi, nice=None):
        if name + '.t' in self.values: return 2*math.atan(float(self.values[name + '.t']))
        return self.real(name, 2*math.atan(float(lo)), 2*math.atan(float(hi)))
    PI = math.pi
    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)
    def sqrt(self, x): return math.sqrt(x)
    def choose(self, n): return self.choices.pop(0) if self.choices else 0
    def decide(self, cond): return bool(cond)
    def assume(self, cond):
        if not cond: raise AssumptionFailed()
    def nonzero(self, x):
        if abs(float(x)) < 1e-3: raise AssumptionFailed()
    def objs(self, a): return np.asarray(a)
    def _fail(self, what): self.failed.append(what)
    def claim_eq(self, what, got, exp, tol=None):
        self.nclaims += 1
        try: g, e = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
        except (TypeError, ValueError): self._fail('%s: not numeric' % what); return
        if g.shape != e.shape:
            self._fail('%s: shape %s, expected %s' % (what, g.shape, e.shape)); return
        if not g.size: return
        t = (tol or self.tol)
        sc = np.maximum(1.0, np.abs(e))
        bad = ~(np.abs(g-e) <= t*sc*max(1.0, math.sqrt(self.scale)))
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, np.where(np.isfinite(g), np.abs(g-e), np.inf), -1)), g.shape) if g.ndim else ()
            self._fail('%s%s: got %r, expected %r' % (what, list(map(int, i)) if i else '', float(g[i]), float(e[i])))
    def claim(self, what, cond):
        self.nclaims += 1
        if not cond: self._fail(what)
    def claim_either(self, what, got, *alts):
        fs = []
        for e in alts:
            n0 = len(self.failed); self.claim_eq(what, got, e)
            f = self.failed[n0:]; del self.failed[n0:]
            if not f: return
            fs.append(f)
        g = np.asarray(got, dtype=float)
        if any(g.shape != np.asarray(e).shape for e in alts): self._fail(fs[0][0]); return
        for idx in np.ndindex(*g.shape):
            for e in alts:
                n0 = len(self.failed); self.claim_eq(what, g[idx], np.asarray(e, dtype=float)[idx])
                f = self.failed[n0:]; del self.failed[n0:]
                if not f: break
            else: self._fail('%s%s' % (what, list(idx))); return
    def claim_le(self, what, a, b, tol=1e-9):
        self.nclaims += 1
        if not float(a) <= float(b) + 1e-9*(1+abs(float(b))): self._fail('%s: %r > %r' % (what, float(a), float(b)))
    def claim_lt(self, what, a, b):
        self.nclaims += 1
        if not float(a) < float(b): self._fail('%s: %r >= %r' % (what, float(a), float(b)))
    def refused(self, what, fn, exc=Exception):
        self.nclaims += 1
        try: fn()
        except exc: return True
        except Exception as e:
            self._fail('%s: raised %s' % (what, type(e).__name__)); return False
        self._fail('%s: accepted' % what)
        return False
    def attempt(self, fn):
        try: return True, fn()
        except Exception: return False, None
    def unset_outputs(self): pass
    def claim_set(self, what, *arrays):
        self.nclaims += 1
        for a in arrays:
            a = np.asarray(a)
            bad = ~np.isfinite(a) if a.dtype.kind == 'f' else (a == -1) if a.dtype.kind in 'iu' else np.zeros(a.shape, bool)
            if bad.any(): self._fail('%s: unset or invalid value at %s' % (what, list(map(int, np.argwhere(bad)[0])) if a.ndim else '')); return
    def key(self, x): return repr(float(x)+0.0)
    def same(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool((a == b).all())
    def path(self, name): return os.path.join(self.scratch, name)
    def fopen(self, path): return ConReader(open(path, 'rb'))
    def fput(self, path, parts):
        with open(path, 'wb') as f:
            for dt, vals in parts: f.write(np.asarray(list(vals)).astype(dt).tobytes())
    def f32(self, x): return float(np.float32(x))

class AssumptionFailed(Exception): pass

class ConReader(object):
    def __init__(self, f): self.d = f.read(); f.close(); self.pos = 0
    def items(self, dt, n):
        dt = np.dtype(dt)
        b = self.d[self.pos:self.pos+n*dt.itemsize]
        if len(b) != n*dt.itemsize: raise EOFError()
        self.pos += len(b)
        a = np.frombuffer(b, dt)
        if dt.kind == 'c': a = a.real
        return [float(x) if dt.kind in 'fc' else int(x) for x in a]
    def line(self):
        i = self.d.index(b'\n', self.pos)
        s = self.d[self.pos:i].decode('ascii', 'replace'); self.pos = i+1
        return s
    def raw(self, n):
        b = self.d[self.pos:self.pos+n]; self.pos += len(b); return b
    def eof(self): return self.pos >= len(self.d)
