"""Symbolic real numbers, path exploration and the SMT interface.

A `Sym` is an exact rational function  num / (den * prod f_i^e_i)  over the variables of the
current context: `num` is a sparse integer polynomial {packed monomial: coefficient}, the
denominator is kept factored.  A comparison yields a `SymBool`; taking its truth value makes
the context decide it: by sign analysis over the declared variable ranges, or by z3 under the
current path condition, forking the execution if both outcomes are feasible.
"""
import re
import os, random, time, math, itertools
from fractions import Fraction
from math import gcd
import z3

SH = 8                      # bits per exponent
P61 = (1 << 61) - 1
F0 = Fraction(0)
F1 = Fraction(1)


class PathAbort(Exception):
    """The current path is infeasible or was cut (never a verdict)."""

class Inconclusive(Exception):
    """The solver answered unknown, or the encoding does not support something."""

class ModelFault(Exception):
    """The code under test did something undefined (out of bounds, uninitialised...)."""
    def __init__(self, kind, msg=""):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind


# ---------------------------------------------------------------- polynomials

def padd(a, b):
    if not a: return b
    if not b: return a
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None: r[m] = c
        else:
            v += c
            if v: r[m] = v
            else: del r[m]
    return r

def pscale(a, k):
    if k == 1: return a
    if k == 0: return {}
    return {m: c*k for m, c in a.items()}

def psub(a, b):
    return padd(a, {m: -c for m, c in b.items()})

def pmul_raw(a, b):
    if not a or not b: return {}
    if len(a) > len(b): a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if m == 0:
            return pscale(b, c)
        return {m+n: c*d for n, d in b.items()}
    r = {}
    get = r.get
    for m, c in a.items():
        for n, d in b.items():
            k = m+n
            r[k] = get(k, 0) + c*d
    return {m: c for m, c in r.items() if c}

def pcontent(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1: break
    return g

def mono_vars(m):
    i = 0
    while m:
        e = m & 0xFF
        if e: yield i, e
        m >>= SH
        i += 1

_mv_cache = {}
def mvars(m):
    r = _mv_cache.get(m)
    if r is None:
        if len(_mv_cache) > 400000: _mv_cache.clear()
        r = _mv_cache[m] = tuple(mono_vars(m))
    return r

def mono_gcd(a):
    """Largest monomial dividing every term."""
    it = iter(a)
    g = next(it)
    if g == 0: return 0
    ev = dict(mvars(g))
    for m in it:
        if m == 0: return 0
        d = dict(mvars(m))
        for v in list(ev):
            e = d.get(v, 0)
            if e == 0: del ev[v]
            elif e < ev[v]: ev[v] = e
        if not ev: return 0
    r = 0
    for v, e in ev.items(): r |= e << (SH*v)
    return r

def pdivexact(a, f):
    """a / f for integer polynomials, or None if f does not divide a."""
    lf = max(f)
    cf = f[lf]
    rest = [(m, c) for m, c in f.items() if m != lf]
    lfv = mvars(lf)
    rem = dict(a)
    q = {}
    import heapq
    heap = [-m for m in rem]
    heapq.heapify(heap)
    while heap:
        m = -heapq.heappop(heap)
        while heap and -heap[0] == m: heapq.heappop(heap)
        c = rem.pop(m, 0)
        if not c: continue
        for v, e in lfv:
            if ((m >> (SH*v)) & 0xFF) < e: return None
        if c % cf: return None
        qm, qc = m - lf, c // cf
        q[qm] = qc
        for n, d in rest:
            k = n + qm
            v = rem.get(k)
            if v is None:
                rem[k] = -d*qc
                heapq.heappush(heap, -k)
            else:
                rem[k] = v - d*qc
    return q


class Factor(object):
    __slots__ = ('id', 'poly', 'sign', 'pt', 'cache', 'main', 'isvar')
    def __init__(self, id, poly):
        self.id, self.poly = id, poly
        self.sign = None        # 1, -1, 0 (unknown)
        self.isvar = len(poly) == 1
        self.pt = None
        self.cache = {}

    def point(self):
        """A random point (mod P61) on the zero locus of this factor, or False."""
        if self.pt is not None: return self.pt
        rnd = random.Random(977 + self.id)
        degs = {}
        for m in self.poly:
            for v, e in mvars(m):
                degs[v] = max(degs.get(v, 0), e)
        lin = [v for v, e in degs.items() if e == 1]
        self.pt = False
        if lin:
            v = lin[-1]
            for _ in range(5):
                base = _LazyPoint(rnd.getrandbits(60))
                a = b = 0
                for m, c in self.poly.items():
                    e = (m >> (SH*v)) & 0xFF
                    val = c
                    for w, k in mvars(m):
                        if w != v: val = val * pow(base[w], k, P61) % P61
                    if e: a += val
                    else: b += val
                a %= P61
                if a:
                    base[v] = (-b * pow(a, P61-2, P61)) % P61
                    self.pt = base
                    break
        return self.pt

    def may_divide(self, a):
        if self.isvar:
            (m, _), = self.poly.items()
            sh = m.bit_length() - 1
            for n in a:
                if not (n >> sh) & 0xFF: return False
            return True
        pt = self.point()
        if pt is False: return len(a) >= len(self.poly) and len(a) < 200
        cache = self.cache
        s = 0
        for m, c in a.items():
            x = cache.get(m)
            if x is None:
                x = 1
                for v, e in mvars(m):
                    b = pt[v]
                    if e == 1: x = x*b % P61
                    else: x = x*pow(b, e, P61) % P61
                cache[m] = x
            s += c*x
        return s % P61 == 0

    def divide(self, a):
        if self.isvar:
            (m, _), = self.poly.items()
            return {n - m: c for n, c in a.items()}
        return pdivexact(a, self.poly)


class _LazyPoint(dict):
    def __init__(self, seed):
        dict.__init__(self)
        self.seed = seed
    def __missing__(self, v):
        r = random.Random((self.seed << 20) ^ (v*7919 + 13)).getrandbits(60) | 1
        self[v] = r
        return r


# ---------------------------------------------------------------- context

class Var(object):
    __slots__ = ('name', 'lo', 'hi', 'strict', 'nice', 'kind', 'smt', 'defn', 'idx', 'cache')
    def __init__(self, idx, name, lo, hi, strict, nice, kind):
        self.idx, self.name, self.lo, self.hi, self.strict = idx, name, lo, hi, strict
        self.nice = nice; self.kind = kind; self.defn = None; self.cache = {}
        self.smt = 'x%d' % idx


def smt_frac(q):
    q = Fraction(q)
    n, d = q.numerator, q.denominator
    s = ('(- %d.0)' % -n) if n < 0 else '%d.0' % n
    if d != 1: s = '(/ %s %d.0)' % (s, d)
    return s


class Stats(object):
    def __init__(self):
        self.queries = 0; self.unsat = 0; self.sat = 0; self.unknown = 0
        self.solver_s = 0.0; self.branch_queries = 0; self.claim_queries = 0
        self.fast = 0; self.paths = 0; self.claims = 0; self.forks = 0
        self.cvc5 = 0; self.cvc5_s = 0.0
    def asdict(self): return dict(self.__dict__)
    def add(self, d):
        for k, v in d.items(): self.__dict__[k] = self.__dict__.get(k, 0) + v


SLOW = float(os.environ.get('VERIF_SLOW', 0))
_XVAR = re.compile(r'\bx(\d+)\b')

class Ctx(object):
    """One case: variables, factor table, and the exploration state of one path."""

    def __init__(self, seed=1, timeout_ms=60000):
        self.vars = []
        self.byname = {}
        self.factors = []
        self.facbykey = {}
        self.halftan = {}       # angle variable -> variable of its half-angle tangent
        self.algmask = 0
        self.algs = {}          # var idx -> poly P with var^2 = P
        self.stats = Stats()
        self.seed = seed
        self.timeout_ms = timeout_ms
        self.zero_cache = {}
        self.aux = {}           # per-case caches (sqrt, angles, f32)
        self.defs = {}          # var idx -> constraint string defining an auxiliary variable
        self.active = []
        self.dump = None        # list collecting smt2 of claim queries (thorough)
        self.reset_path([])
        self.var('PI', Fraction(314159265358979, 10**14), Fraction(314159265358980, 10**14), kind='pi')   # always variable 0

    # -- path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.choices = []
        self.pc = []            # smt strings
        self.pcc = []           # (op, poly) for python evaluation
        self.facts = {}
        self.nz = []            # primitive polynomials assumed non-zero on this path
        self.notes = []
        self.active = []        # auxiliary variables introduced on this path
        self.activeset = set()

    def use(self, i):
        if i not in self.activeset:
            self.activeset.add(i); self.active.append(i)

    # -- variables
    def var(self, name, lo=None, hi=None, strict=False, nice=None, kind='in'):
        i = self.byname.get(name)
        if i is None:
            i = len(self.vars)
            v = Var(i, name, None if lo is None else Fraction(lo),
                    None if hi is None else Fraction(hi), strict, nice, kind)
            self.vars.append(v)
            self.byname[name] = i
        return Sym({1 << (SH*i): 1}, 1, ())

    def factor(self, poly):
        """Factor object of a primitive polynomial with positive leading coefficient."""
        key = frozenset(poly.items())
        f = self.facbykey.get(key)
        if f is None:
            f = Factor(len(self.factors), poly)
            self.factors.append(f)
            self.facbykey[key] = f
            f.sign = self.poly_sign(poly) or 0
        elif not f.sign:
            pass
        return f

    # -- sign analysis over variable ranges
    def var_pow_range(self, v, e):
        """(lo, hi, positive) of x_v^e; None is infinity."""
        x = self.vars[v]
        r = x.cache.get(e)
        if r is not None: return r
        a, b = x.lo, x.hi
        if a is not None and a >= 0:
            r = (a**e, None if b is None else b**e, a > 0 or x.strict)
        elif e % 2 == 0:
            if a is None or b is None: r = (F0, None, False)
            else:
                lo = F0 if b >= 0 else b**e
                r = (lo, max(abs(a), abs(b))**e, lo > 0)
        else:
            r = (None if a is None else a**e, None if b is None else b**e, False)
        x.cache[e] = r
        return r

    def poly_range(self, poly):
        """Interval (lo, lo_strict, hi, hi_strict) with None for infinity."""
        L = H = F0
        Ls = Hs = False
        for m, c in poly.items():
            lo = hi = F1
            pos = True
            for v, e in mvars(m):
                a, b, p = self.var_pow_range(v, e)
                pos = pos and p
                if a is not None and a >= 0 and lo is not None and lo >= 0:
                    lo = lo*a
                    hi = None if (hi is None or b is None) else hi*b
                elif None in (a, b, lo, hi):
                    lo = hi = None
                else:
                    cs = (lo*a, lo*b, hi*a, hi*b)
                    lo, hi = min(cs), max(cs)
            strict = pos and lo is not None and lo >= 0
            if c > 0:
                L = None if (L is None or lo is None) else L + c*lo; Ls = Ls or strict
                H = None if (H is None or hi is None) else H + c*hi
            else:
                L = None if (L is None or hi is None) else L + c*hi
                H = None if (H is None or lo is None) else H + c*lo; Hs = Hs or strict
            if L is None and H is None: return (None, False, None, False)
        return L, Ls, H, Hs

    def poly_sign(self, poly):
        """1, -1 or None; also 2 for >=0, -2 for <=0."""
        if not poly: return None
        if len(poly) > 4000: return None
        L, Ls, H, Hs = self.poly_range(poly)
        if L is not None and (L > 0 or (L == 0 and Ls)): return 1
        if H is not None and (H < 0 or (H == 0 and Hs)): return -1
        if L is not None and L >= 0: return 2
        if H is not None and H <= 0: return -2
        return None

    # -- smt
    def poly_smt(self, poly):
        if not poly: return '0.0'
        ts = []
        vs = self.vars
        for m, c in poly.items():
            cs = '%d.0' % c if c >= 0 else '(- %d.0)' % -c
            mv = mvars(m)
            if not mv: ts.append(cs); continue
            xs = []
            for v, e in mv: xs.extend([vs[v].smt]*e)
            if c == 1:
                ts.append(xs[0] if len(xs) == 1 else '(* %s)' % ' '.join(xs))
            else:
                ts.append('(* %s %s)' % (cs, ' '.join(xs)))
        if len(ts) == 1: return ts[0]
        return '(+ %s)' % ' '.join(ts)

    def fac_smt(self, fac):
        out = []
        for fid, e in fac:
            out.extend([self.poly_smt(self.factors[fid].poly)]*e)
        return out

    def used(self, polys):
        s = set()
        for p in polys:
            for m in p:
                for v, _ in mvars(m): s.add(v)
        return s

    def decls(self):
        return '\n'.join('(declare-const %s Real)' % v.smt for v in self.vars)

    def bounds(self):
        out = []
        for v in self.vars:
            if v.lo is not None:
                out.append('(%s %s %s)' % ('>' if v.strict and v.lo == 0 else '>=', v.smt, smt_frac(v.lo)))
            if v.hi is not None:
                out.append('(<= %s %s)' % (v.smt, smt_frac(v.hi)))
        return out

    def query(self, extra, kind='branch', want_model=False, timeout_ms=None, defs=True, usepc=True, light=False):
        """check-sat of bounds & defs & pc & extra. Returns (verdict, model or None)."""
        body = (self.pc if usepc else []) + list(extra)
        if light:
            # only the path constraints over the variables of the question: enough when it is refuted
            xs = {x for c in extra for x in _XVAR.findall(c)}
            body = [c for c in self.pc if len(c) < 3000 and xs.issuperset(_XVAR.findall(c))] + list(extra)
            defs = False
        if defs and self.defs:
            # definitions of the auxiliary variables mentioned, directly or through other definitions
            todo = [int(x) for c in body for x in _XVAR.findall(c)]
            seen = set(); dd = []
            while todo:
                i = todo.pop()
                if i in seen: continue
                seen.add(i)
                if i in self.defs and i in self.active:
                    dd.append(self.defs[i])
                    todo.extend(int(x) for x in _XVAR.findall(self.defs[i]))
            body = dd + body
        cons = self.bounds() + body
        text = self.decls() + '\n' + '\n'.join('(assert %s)' % c for c in cons)
        t0 = time.time()
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', timeout_ms or self.timeout_ms)
        st = self.stats
        st.queries += 1
        if kind == 'claim': st.claim_queries += 1
        else: st.branch_queries += 1
        try:
            s.from_string(text)
            r = s.check()
        except z3.Z3Exception as e:
            r = z3.unknown
        st.solver_s += time.time() - t0
        if SLOW and time.time()-t0 > SLOW:
            import traceback
            print('SLOW %.1fs %s %s vars=%d\n%s\n%s' % (time.time()-t0, kind, r, len(self.vars), ''.join(traceback.format_stack(limit=9)[:-1]), text[-1500:]), flush=True)
        if kind == 'claim' and self.dump is not None:
            self.dump.append(('(set-logic QF_NRA)\n' + text + '\n(check-sat)\n', str(r)))
        if r == z3.unsat:
            st.unsat += 1
            return 'unsat', None
        if r == z3.sat:
            st.sat += 1
            return 'sat', (self._model(s.model()) if want_model else None)
        st.unknown += 1
        return 'unknown', None

    def _model(self, m):
        d = {}
        for decl in m.decls():
            n = decl.name()
            if n.startswith('x'):
                v = m[decl]
                try:
                    if z3.is_rational_value(v):
                        d[int(n[1:])] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                    elif z3.is_algebraic_value(v):
                        a = v.approx(30)
                        d[int(n[1:])] = Fraction(a.numerator_as_long(), a.denominator_as_long())
                except Exception:
                    pass
        for v in self.vars:
            if v.idx not in d:
                d[v.idx] = v.lo if v.lo is not None and v.lo > 0 else (
                    F1 if (v.lo is not None or v.hi is None or v.hi >= 1) else v.hi)
        return d

    # -- decisions
    def decide(self, op, poly):
        """Truth of `poly op 0` on the current path; op in '<', '<=', '==', '!='."""
        if not poly:
            return op in ('<=', '==')
        if len(poly) == 1 and 0 in poly:
            c = poly[0]
            return {'<': c < 0, '<=': c <= 0, '==': False, '!=': True}[op]
        if self.halftan and len(poly) <= 2:
            r = self.angle_poly(poly)
            if r is not None:
                if r == {}: return op in ('<=', '==')
                if r in (1, -1): return {'<': r < 0, '<=': r < 0, '==': False, '!=': True}[op]
                poly = r
                s = self.poly_sign(poly)
        s = self.poly_sign(poly)
        if s is not None:
            r = None
            if s == 1: r = (op == '!=')
            elif s == -1: r = op in ('<', '<=', '!=')
            elif s == 2 and op == '<': r = False
            elif s == -2 and op == '<=': r = True
            if r is not None:
                self.stats.fast += 1
                return r
        # canonical sign
        lead = poly[max(poly)]
        neg = lead < 0
        g = pcontent(poly)
        key_poly = {m: c//(-g if neg else g) for m, c in poly.items()} if (neg or g != 1) else poly
        key = frozenset(key_poly.items())
        signs = self.facts.get(key, frozenset((-1, 0, 1)))
        if neg: cs = frozenset(-x for x in signs)
        else: cs = signs
        sat = {'<': {-1}, '<=': {-1, 0}, '==': {0}, '!=': {-1, 1}}[op]
        if cs <= sat: return True
        if not (cs & sat): return False
        if self.nz and op in ('==', '!='):
            q = key_poly
            for f in self.nz:
                while len(q) >= len(f) and len(q) > 1:
                    r = pdivexact(q, f)
                    if r is None: break
                    q = r
            mg = mono_gcd(q) if len(q) == 1 else None
            if mg is not None and q is not key_poly and all(self.var_pow_range(v, 1)[2] for v, _ in mvars(mg)):
                self.facts[key] = frozenset((-1, 1))
                return op == '!='
        # decide
        val = None
        k = len(self.trace)
        if k < len(self.prefix):
            val = self.prefix[k]
            self.trace.append(val)
        else:
            ps = self.poly_smt(poly)
            t_s = self._opsmt(op, ps)
            f_s = '(not %s)' % t_s
            rt = rf = None
            if self.active or len(self.pc) > 8:
                rt, _ = self.query([t_s], light=True, timeout_ms=2000)
                if rt != 'unsat':
                    rt = None
                    rf, _ = self.query([f_s], light=True, timeout_ms=2000)
                    if rf != 'unsat': rf = None
            if rt is None and rf is None: rt, _ = self.query([t_s])
            if rt == 'unsat': val = False
            else:
                if rf is None: rf, _ = self.query([f_s])
                if rf == 'unsat': val = True
                else:
                    val = True
                    self.stats.forks += 1
                    self.pending.append(list(self.trace) + [False])
            self.trace.append(val)
        self.assume(op, poly, val, key, neg, cs, sat)
        return val

    def angle_poly(self, poly):
        """c*a + d*pi with a symbolic angle a: a polynomial in tan(a/2) of the same sign (or the sign itself)."""
        c = d = 0; t = None
        ip = self.byname.get('PI')
        for m, k in poly.items():
            mv = mvars(m)
            if len(mv) != 1 or mv[0][1] != 1: return None
            if mv[0][0] == ip: d = k
            elif mv[0][0] in self.halftan:
                u = self.halftan[mv[0][0]]
                if t is None: c = k; t = u
                elif type(t) is int and type(u) is int and abs(k) == abs(c):
                    # c*(a + b), c*(a - b): the half-angle tangents compare like the angles
                    return {1 << (SH*t): 1 if c > 0 else -1, 1 << (SH*u): 1 if k > 0 else -1}
                else: return None
            else: return None
        if t is None: return None
        if type(t) is not int:
            # a = acos(cs): c*(a - q*pi) has the sign of c*(cos(q*pi) - cs)
            q = Fraction(-d, c)
            sg = 1 if c > 0 else -1
            if q > 1: return -sg
            if q < 0: return sg
            co = {Fraction(0): 1, Fraction(1, 2): 0, Fraction(1): -1}.get(q)
            if co is None: return None
            e = (co - t)*sg
            if e.is_const():
                v = e.value()
                return (1 if v > 0 else -1) if v else {}
            r = SymBool.rel('<', e)
            return r.args if r.op == '<' else None
        q = Fraction(-d, c)                     # sign of c*(a - q*pi), -pi < a < pi
        sg = 1 if c > 0 else -1
        if q >= 1: return -sg
        if q <= -1: return sg
        tq = {Fraction(0): 0, Fraction(1, 2): 1, Fraction(-1, 2): -1}.get(q)
        if tq is None:
            x, v = math.tan(float(q)*math.pi/2), self.vars[t]
            if v.lo is not None and float(v.lo) > x + 1e-9*(1+abs(x)): return sg
            if v.hi is not None and float(v.hi) < x - 1e-9*(1+abs(x)): return -sg
            if (q*12).denominator != 1: return None
            co, si = _trig_const(q)
            r = SymBool.rel('<', (Sym({1 << (SH*t): 1}, 1, ()) - si/(1+co))*sg)
            return r.args if r.op == '<' else None
        p = {1 << (SH*t): sg}
        if tq: p[0] = -sg*tq
        return p

    @staticmethod
    def _opsmt(op, ps):
        if op == '!=': return '(not (= %s 0.0))' % ps
        return '(%s %s 0.0)' % ({'==': '='}.get(op, op), ps)

    def assume(self, op, poly, val, key, neg, cs, sat):
        ps = self.poly_smt(poly)
        s = self._opsmt(op, ps)
        self.pc.append(s if val else '(not %s)' % s)
        self.pcc.append((op, poly, val))
        ns = (cs & sat) if val else (cs - sat)
        if neg: ns = frozenset(-x for x in ns)
        self.facts[key] = ns

    def require(self, cond):
        """Assume a SymBool on this path (infeasible -> abort)."""
        if isinstance(cond, bool) or not isinstance(cond, SymBool):
            if not cond: raise PathAbort()
            return
        if not bool(cond): raise PathAbort()

    def nonzero(self, x):
        """Assume x != 0 without asking the solver (the path's witness shows that it can be met)."""
        x = Sym.const(x)
        if not x.num: raise PathAbort()
        if x.is_const(): return
        num = x.num
        g = pcontent(num)
        if num[max(num)] < 0: g = -g
        if g != 1: num = {m: c//g for m, c in num.items()}
        self.pc.append('(not (= %s 0.0))' % self.poly_smt(num))
        self.pcc.append(('==', num, False))
        self.facts[frozenset(num.items())] = frozenset((-1, 1))
        mg = mono_gcd(num)
        if mg: num = {m - mg: c for m, c in num.items()}
        if len(num) > 1: self.nz.append(num)

    def choose(self, n):
        """Structural nondeterminism: one of 0..n-1 (every alternative is explored)."""
        k = len(self.trace)
        if k < len(self.prefix):
            v = self.prefix[k]
        else:
            v = 0
            for i in range(n-1, 0, -1):
                self.pending.append(list(self.trace) + [i])
        self.trace.append(v)
        self.choices.append(v)
        return v


CTX = None

def set_ctx(c):
    global CTX
    CTX = c
    return c


# ---------------------------------------------------------------- rational functions

def _is_num(x):
    return isinstance(x, (int, float, Fraction)) or hasattr(x, '__index__') and not hasattr(x, '__len__')

class Sym(object):
    __slots__ = ('num', 'den', 'fac', 'nn')      # nn: known to be >= 0 (sum of squares and the like)
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, num, den=1, fac=()):
        self.num, self.den, self.fac, self.nn = num, den, fac, False

    # construction
    @staticmethod
    def const(x):
        if isinstance(x, Sym): return x
        if isinstance(x, bool): x = int(x)
        if isinstance(x, int):
            return Sym({0: x} if x else {}, 1, ())
        if isinstance(x, Fraction):
            return Sym({0: x.numerator} if x else {}, x.denominator, ())
        if hasattr(x, '__index__'):
            return Sym.const(x.__index__())
        f = float(x)
        if f != f or f in (float('inf'), float('-inf')):
            raise ModelFault('nan', 'non-finite constant')
        return Sym.const(Fraction(f))

    def is_const(self):
        return not self.num or (len(self.num) == 1 and 0 in self.num and not self.fac)

    def value(self):
        if not self.num: return F0
        return Fraction(self.num[0], self.den)

    def __repr__(self):
        if self.is_const(): return 'Sym(%s)' % self.value()
        n = ' + '.join('%d*%s' % (c, '*'.join('%s^%d' % (CTX.vars[v].name, e) for v, e in mvars(m)) or '1')
                       for m, c in list(self.num.items())[:6])
        return 'Sym((%s%s)/%d%s)' % (n, '...' if len(self.num) > 6 else '', self.den, self.fac or '')

    # arithmetic
    def __add__(self, o):
        if type(o) is not Sym:
            if not _is_num(o): return _arr_op(self, o, 'add', False)
            o = Sym.const(o)
        return _nn2(sadd(self, o), self, o)
    __radd__ = __add__
    def __sub__(self, o):
        if type(o) is not Sym:
            if not _is_num(o): return _arr_op(self, o, 'subtract', False)
            o = Sym.const(o)
        return sadd(self, sneg(o))
    def __rsub__(self, o):
        if not _is_num(o): return _arr_op(self, o, 'subtract', True)
        return sadd(Sym.const(o), sneg(self))
    def __mul__(self, o):
        if type(o) is not Sym:
            if not _is_num(o): return _arr_op(self, o, 'multiply', False)
            o = Sym.const(o)
        return _nnm(smul(self, o), self, o)
    __rmul__ = __mul__
    def __truediv__(self, o):
        if type(o) is not Sym:
            if not _is_num(o): return _arr_op(self, o, 'true_divide', False)
            o = Sym.const(o)
        return _nn2(smul(self, sinv(o)), self, o)
    def __rtruediv__(self, o):
        if not _is_num(o): return _arr_op(self, o, 'true_divide', True)
        return smul(Sym.const(o), sinv(self))
    def __neg__(self): return sneg(self)
    def __pos__(self): return self
    def __abs__(self):
        if self.is_const(): return Sym.const(abs(self.value()))
        return sneg(self) if bool(self < 0) else self
    def __pow__(self, n):
        if isinstance(n, Sym):
            if not n.is_const(): raise Inconclusive('symbolic exponent')
            n = n.value()
        if n == Fraction(1, 2): return ssqrt(self)
        if int(n) != n: raise Inconclusive('fractional exponent')
        n = int(n)
        if n < 0: return sinv(self) ** (-n)
        r = Sym.const(1)
        for _ in range(n): r = smul(r, self)
        return _mark(r) if n % 2 == 0 or _isnn(self) else r
    def __rpow__(self, o):
        return Sym.const(o) ** self
    def __mod__(self, o):
        o = Sym.const(o)
        if self.is_const() and o.is_const(): return Sym.const(self.value() % o.value())
        raise Inconclusive('symbolic modulo')
    def __floordiv__(self, o):
        o = Sym.const(o)
        if self.is_const() and o.is_const(): return Sym.const(self.value() // o.value())
        raise Inconclusive('symbolic floor division')

    def __divmod__(self, o): return self//o, self % o

    # comparisons
    def __lt__(self, o): return _cmp(self, o, '<', 'less')
    def __le__(self, o): return _cmp(self, o, '<=', 'less_equal')
    def __gt__(self, o): return _cmp(self, o, '>', 'greater')
    def __ge__(self, o): return _cmp(self, o, '>=', 'greater_equal')
    def __eq__(self, o): return _cmp(self, o, '==', 'equal')
    def __ne__(self, o): return _cmp(self, o, '!=', 'not_equal')
    def __hash__(self): return 0     # equality decides: a set or dict of values compares them all
    def __bool__(self):
        return bool(self != 0)

    # conversions
    def __float__(self):
        if self.is_const(): return float(self.value())
        raise Inconclusive('float() of a symbolic value')
    def __int__(self):
        if self.is_const(): return int(self.value())
        raise Inconclusive('int() of a symbolic value')
    def __round__(self, n=None):
        if self.is_const(): return round(self.value(), n)
        raise Inconclusive('round() of a symbolic value')

    # numpy object-loop hooks (np.sqrt on object arrays calls .sqrt() ...)
    def sqrt(self): return ssqrt(self)
    def conjugate(self): return self
    def sin(self): return ssincos(self)[0]
    def cos(self): return ssincos(self)[1]
    def tan(self):
        s, c = ssincos(self)
        return s / c
    def arccos(self): return sarccos(self)
    def arcsin(self): return pi()/2 - sarccos(self)
    def square(self): return _mark(smul(self, self))
    def fabs(self): return abs(self)
    @property
    def real(self): return self
    @property
    def imag(self): return Sym.const(0)
    def key(self):
        return (frozenset(self.num.items()), self.den, self.fac)

    # numpy scalar protocol: delegate to a 0-d array
    _NP = ('repeat', 'astype', 'ndim', 'shape', 'size', 'dtype', 'reshape', 'ravel', 'flatten',
           'min', 'max', 'sum', 'tolist', 'item', 'T', 'copy', 'clip', 'squeeze', 'itemsize',
           'tobytes', 'all', 'any', 'mean', 'prod', 'transpose', 'searchsorted', 'flat', 'view', 'nbytes')
    def __getattr__(self, name):
        if name in Sym._NP:
            from . import npshim
            return getattr(npshim.lift0(self), name)
        raise AttributeError(name)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def is_integer(self):
        if self.is_const(): return self.value().denominator == 1
        raise Inconclusive('is_integer')


def _isnn(x): return x.nn or (x.is_const() and x.value() >= 0)
def _mark(r):
    r.nn = True
    return r
def _nn2(r, a, b):
    if _isnn(a) and _isnn(b): r.nn = True
    return r
def _nnm(r, a, b):
    if a is b or (_isnn(a) and _isnn(b)) or (len(a.num) == len(b.num) and a.key() == b.key()): r.nn = True
    return r

def _arr_op(s, o, ufname, swap):
    import numpy as np
    if isinstance(o, (np.ndarray, list, tuple)):
        from . import npshim
        return npshim.binop(ufname, o, s) if swap else npshim.binop(ufname, s, o)
    return NotImplemented

def _cmp(a, o, op, ufname):
    if type(o) is not Sym:
        if not _is_num(o):
            if o is None or isinstance(o, (str, bytes)):
                return op == '!='
            return _arr_op(a, o, ufname, False)
        if isinstance(o, float) and o in (float('inf'), float('-inf')):
            pos = o > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
        o = Sym.const(o)
    if op == '>': a, o, op = o, a, '<'
    elif op == '>=': a, o, op = o, a, '<='
    d = sadd(a, sneg(o))
    return SymBool.rel(op, d)


def _mk(num, den, fac):
    if not num: return Sym({}, 1, ())
    if den != 1:
        g = den
        for c in num.values():
            g = gcd(g, c)
            if g == 1: break
        if g != 1:
            num = {m: c//g for m, c in num.items()}
            den //= g
    return Sym(num, den, fac)

def _reduce(num):
    """Rewrite alg^2 -> P."""
    mask = CTX.algmask
    if not mask: return num
    for _ in range(64):
        bad = [m for m in num if m & mask]
        if not bad: return num
        out = dict(num)
        for m in bad:
            c = out.pop(m)
            for v, e in mvars(m):
                if e >= 2 and v in CTX.algs:
                    k, r = divmod(e, 2)
                    base = m - ((2*k) << (SH*v))
                    p = {base: c}
                    for _i in range(k): p = pmul_raw(p, CTX.algs[v])
                    out = padd(out, p)
                    break
        num = out
    raise Inconclusive('algebraic reduction')

def pmul(a, b):
    r = pmul_raw(a, b)
    if CTX is not None and CTX.algmask: r = _reduce(r)
    return r

def ppow(f, e):
    r = f
    for _ in range(e-1): r = pmul(r, f)
    return r

def sneg(a):
    return Sym({m: -c for m, c in a.num.items()}, a.den, a.fac)

def sadd(a, b):
    if not a.num: return b
    if not b.num: return a
    if a.fac == b.fac:
        if a.den == b.den:
            num = padd(a.num, b.num); den = a.den
        else:
            g = gcd(a.den, b.den)
            num = padd(pscale(a.num, b.den//g), pscale(b.num, a.den//g))
            den = a.den//g*b.den
        if not num: return Sym({}, 1, ())
        fac = a.fac
        if fac: num, fac = _cancel(num, fac, [f for f, _ in fac])
        return _mk(num, den, fac)
    # lcm of factored denominators
    fa, fb = dict(a.fac), dict(b.fac)
    na, nb = a.num, b.num
    out = {}
    chk = []
    for f in set(fa) | set(fb):
        ea, eb = fa.get(f, 0), fb.get(f, 0)
        e = max(ea, eb)
        out[f] = e
        if ea == eb: chk.append(f)
        elif ea < eb: na = pmul(na, ppow(CTX.factors[f].poly, eb-ea))
        else: nb = pmul(nb, ppow(CTX.factors[f].poly, ea-eb))
    g = gcd(a.den, b.den)
    num = padd(pscale(na, b.den//g), pscale(nb, a.den//g))
    den = a.den//g*b.den
    if not num: return Sym({}, 1, ())
    fac = tuple(sorted(out.items()))
    if CTX.algmask: chk = list(out)
    if chk: num, fac = _cancel(num, fac, chk)
    return _mk(num, den, fac)

def _cancel(num, fac, which):
    d = dict(fac)
    changed = False
    for f in which:
        F = CTX.factors[f]
        while d.get(f, 0) > 0 and F.may_divide(num):
            q = F.divide(num)
            if q is None: break
            num = q
            d[f] -= 1
            changed = True
            if not d[f]: del d[f]
    if changed: fac = tuple(sorted(d.items()))
    return num, fac

def smul(a, b):
    if not a.num or not b.num: return Sym({}, 1, ())
    na, nb = a.num, b.num
    fa, fb = a.fac, b.fac
    if fb: na, fb = _cancel(na, fb, [f for f, _ in fb])
    if fa: nb, fa = _cancel(nb, fa, [f for f, _ in fa])
    num = pmul(na, nb)
    if fa and fb:
        d = dict(fa)
        for f, e in fb: d[f] = d.get(f, 0) + e
        fac = tuple(sorted(d.items()))
    else:
        fac = fa or fb
    if CTX is not None and CTX.algmask and fac and (num):
        num, fac = _cancel(num, fac, [f for f, _ in fac])
    return _mk(num, a.den*b.den, fac)

def sinv(a):
    if not a.num: raise ModelFault('divzero', 'division by zero')
    if not a.is_const():
        s = CTX.poly_sign(a.num)
        if s not in (1, -1):
            if CTX.decide('==', a.num):
                raise ModelFault('divzero', 'division by a value that may be zero')
    num = a.num
    g = pcontent(num)
    if num[max(num)] < 0: g = -g
    if g != 1: num = {m: c//g for m, c in num.items()}
    # result numerator: den * prod fac
    rn = {0: a.den}
    for f, e in a.fac: rn = pmul(rn, ppow(CTX.factors[f].poly, e))
    d = {}
    mg = mono_gcd(num)
    if mg:
        num = {m - mg: c for m, c in num.items()}
        for v, e in mvars(mg):
            F = CTX.factor({1 << (SH*v): 1})
            d[F.id] = e
    if len(num) > 1 and len(num) < 3000:
        for F in CTX.factors:
            if F.isvar or len(F.poly) > len(num): continue
            while len(num) > 1 and F.may_divide(num):
                if F.point() is False: break
                q = F.divide(num)
                if q is None: break
                num = q
                d[F.id] = d.get(F.id, 0) + 1
                if num[max(num)] < 0:
                    num = {m: -c for m, c in num.items()}; g = -g
    if not (len(num) == 1 and 0 in num):
        F = CTX.factor(num)
        d[F.id] = d.get(F.id, 0) + 1
    else:
        g *= num[0]
    if g < 0:
        rn = {m: -c for m, c in rn.items()}; g = -g
    return _mk(rn, g, tuple(sorted(d.items())))


# ---------------------------------------------------------------- booleans

class SymBool(object):
    __slots__ = ('op', 'args')
    def __init__(self, op, args):
        self.op, self.args = op, args
    @staticmethod
    def rel(op, d):
        """d op 0 as a polynomial condition (denominator factors are non-zero)."""
        if d.is_const():
            v = d.value()
            return {'<': v < 0, '<=': v <= 0, '==': v == 0, '!=': v != 0}[op]
        num = d.num
        if op in ('<', '<='):
            sgn = 1
            for f, e in d.fac:
                if e % 2:
                    F = CTX.factors[f]
                    if F.sign in (1, -1): sgn *= F.sign
                    else: num = pmul(num, F.poly)
            if sgn < 0: num = {m: -c for m, c in num.items()}
        return SymBool(op, num)
    def __bool__(self):
        if self.op == 'and': return all(bool(a) for a in self.args)
        if self.op == 'or': return any(bool(a) for a in self.args)
        if self.op == 'not': return not bool(self.args)
        return CTX.decide(self.op, self.args)
    def __and__(self, o): return SymBool('and', (self, o))
    __rand__ = __and__
    def __or__(self, o): return SymBool('or', (self, o))
    __ror__ = __or__
    def __invert__(self): return SymBool('not', self)
    def smt(self):
        if self.op == 'and': return '(and true %s)' % ' '.join(bsmt(a) for a in self.args)
        if self.op == 'or': return '(or false %s)' % ' '.join(bsmt(a) for a in self.args)
        if self.op == 'not': return '(not %s)' % bsmt(self.args)
        return CTX._opsmt(self.op, CTX.poly_smt(self.args))

def bsmt(b):
    if isinstance(b, SymBool): return b.smt()
    return 'true' if b else 'false'


# ---------------------------------------------------------------- special functions

def pi():
    if CTX is None: return Sym({1: 1}, 1, ())
    return CTX.var('PI', Fraction(314159265358979, 10**14), Fraction(314159265358980, 10**14), kind='pi')

def _isqrt_frac(q):
    n, d = q.numerator, q.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a*a == n and b*b == d: return Fraction(a, b)
    return None

def _new_alg(poly, name, lo=0, hi=None):
    """Auxiliary variable r >= 0 with r^2 = poly."""
    s = CTX.var(name, lo, hi, kind='alg')
    i = CTX.byname[name]
    if i not in CTX.algs:
        CTX.algs[i] = poly
        CTX.algmask |= 0xFE << (SH*i)
        CTX.vars[i].defn = ('sqrt', poly)
        CTX.defs[i] = '(= (* %s %s) %s)' % (CTX.vars[i].smt, CTX.vars[i].smt, CTX.poly_smt(poly))
    use_poly(poly)
    CTX.use(i)
    return s

def use_poly(poly):
    for m in poly:
        for v, _ in mvars(m):
            if v in CTX.defs: CTX.use(v)

def sminmax(vals, is_min):
    """Minimum or maximum of values; a fresh variable when the order is open."""
    vals = [Sym.const(v) for v in vals]
    keep = []
    for v in vals:
        dom = False
        for w in list(keep):
            d = v - w if is_min else w - v          # d >= 0: v is dominated
            sg = 0 if d.is_const() else CTX.poly_sign(d.num) if not any(e % 2 and CTX.factors[f].sign != 1 for f, e in d.fac) else None
            if d.is_const(): sg = 1 if d.value() >= 0 else -1
            if sg in (1, 2): dom = True; break
            if sg in (-1, -2): keep.remove(w)
        if not dom: keep.append(v)
    if len(keep) == 1: return keep[0]
    key = ('min' if is_min else 'max', tuple(sorted(repr(v.key()) for v in keep)))
    s = CTX.aux.get(key)
    if s is None:
        los, his = [], []
        for v in keep:
            L = H = None
            if not v.fac:
                L, _, H, _ = CTX.poly_range(v.num)
                L = None if L is None else Fraction(L)/v.den
                H = None if H is None else Fraction(H)/v.den
            if v.nn and (L is None or L < 0): L = Fraction(0)
            los.append(L); his.append(H)
        if is_min:
            lo = None if None in los else min(los)
            hs = [h for h in his if h is not None]; hi = min(hs) if hs else None
        else:
            hi = None if None in his else max(his)
            ls = [l for l in los if l is not None]; lo = max(ls) if ls else None
        name = '%s#%d' % (key[0], len(CTX.aux))
        if is_min and (lo is None or lo <= 0):
            # a positive lower end, if every value is positive for all values of the variables
            if all((L is not None and L > 0) or CTX.query([bsmt(_rel2('<=', v))], defs=False, usepc=False, timeout_ms=3000)[0] == 'unsat'
                   for v, L in zip(keep, los)): lo = 0
            strict = lo == 0
        else: strict = False
        s = CTX.aux[key] = CTX.var(name, lo, hi, kind='alg', strict=strict)
        i = CTX.byname[name]
        CTX.vars[i].defn = ('minmax', is_min, keep)
        le = '<=' if is_min else '>='
        CTX.defs[i] = '(and %s (or %s))' % (
            ' '.join(bsmt(_rel2('<=', s - v if is_min else v - s)) for v in keep),
            ' '.join(bsmt(_rel2('==', s - v)) for v in keep))
    for v in keep: use_poly(v.num)
    for v, _ in mvars(next(iter(s.num))): CTX.use(v)
    return s

def _rel2(op, d):
    r = SymBool.rel(op, d)
    return r

def _poly_sqrt(poly):
    """Polynomial square root or None (small cases)."""
    lm = max(poly)
    lc = poly[lm]
    if lc < 0: return None
    r = math.isqrt(lc)
    if r*r != lc: return None
    hv = 0
    for v, e in mvars(lm):
        if e % 2: return None
        hv |= (e//2) << (SH*v)
    root = {hv: r}
    rem = psub(poly, {lm: lc})
    for _ in range(60):
        if not rem: return root
        m = max(rem)
        c = rem[m]
        if c % (2*r): return None
        q = m - hv
        if q < 0: return None
        for v, e in mvars(hv):
            if ((m >> (SH*v)) & 0xFF) < e: return None
        t = {q: c//(2*r)}
        if q >= hv: return None
        rem = psub(rem, padd(pmul_raw(pscale(root, 2), t), pmul_raw(t, t)))
        root = padd(root, t)
    return None

def ssqrt(a):
    if not a.num: return a
    if a.is_const():
        v = a.value()
        if v < 0: raise ModelFault('nan', 'sqrt of a negative number')
        r = _isqrt_frac(v)
        if r is not None: return Sym.const(r)
        n = v.numerator*v.denominator
        # square-free part
        k = 1; f = 2; m = n
        while f*f <= m and f < 100000:
            while m % (f*f) == 0:
                m //= f*f; k *= f
            f += 1
        lo = math.isqrt(m*10**24)
        s = _new_alg({0: m}, 'sqrt(%d)' % m, Fraction(lo, 10**12), Fraction(lo+1, 10**12))
        return s * Fraction(k, v.denominator)
    if not a.nn and (CTX.poly_sign(a.num) not in (1, 2) or a.fac):
        if bool(SymBool.rel('<', a)): raise ModelFault('nan', 'sqrt of a negative number')
    # a = num/(den*prod f^e) : take squares out
    num = pscale(a.num, a.den)
    out = Sym.const(Fraction(1, a.den))
    for f, e in a.fac:
        F = CTX.factors[f]
        if e % 2:
            num = pmul(num, F.poly); e += 1
        fi = Sym(ppow(F.poly, e//2), 1, ())
        if F.sign == -1 or (F.sign != 1 and bool(SymBool.rel('<', Sym(F.poly, 1, ())))):
            if (e//2) % 2: fi = sneg(fi)
        out = out * sinv(fi)
    g = pcontent(num)
    # pull integer square
    k = 1
    r = math.isqrt(g)
    if r*r == g: k = r; num = {m: c//g for m, c in num.items()}
    out = out * k
    mg = mono_gcd(num)
    if mg:
        for v, e in mvars(mg):
            h = e//2
            if h:
                x = Sym({1 << (SH*v): 1}, 1, ())
                num = {m - ((2*h) << (SH*v)): c for m, c in num.items()}
                out = out * (abs(x) if h % 2 else x)**h if h == 1 else out * abs(x**h)
    rt = _poly_sqrt(num)
    if rt is not None:
        return _mark(out * abs(Sym(rt, 1, ())))
    key = ('sqrt', frozenset(num.items()))
    s = CTX.aux.get(key)
    if s is None:
        L, Ls, H, Hs = CTX.poly_range(num)
        lo = 0
        if L is not None and L > 0:
            lo = Fraction(math.isqrt(int(L*10**12)), 10**6)
        hi = None
        if H is not None and H > 0:
            hi = Fraction(math.isqrt(int(H*10**12))+1, 10**6)
        s = CTX.aux[key] = _new_alg(num, 'sqrt#%d' % len(CTX.aux), lo, hi)
    else:
        use_poly(num)
        for v, _ in mvars(next(iter(s.num))): CTX.use(v)
    return _mark(out * s)

def shypot(a, b):
    a, b = Sym.const(a), Sym.const(b)
    return ssqrt(_mark(a*a + b*b))

# angles: var index -> (cos, sin) as Sym
def angle_var(name, lo, hi, tlo, thi, nice=None):
    """A symbolic angle a in [lo,hi] (radians, as rationals) with t = tan(a/2) in [tlo, thi].
    Introduces `name` (the angle, derived from t on concretisation) and `name.t`."""
    t = CTX.var(name + '.t', tlo, thi, nice=nice)
    a = CTX.var(name, lo, hi, kind='angle')
    CTX.vars[CTX.byname[name]].defn = ('2atan', CTX.byname[name + '.t'])
    i = CTX.byname[name]
    if i not in CTX.halftan:
        CTX.halftan[i] = CTX.byname[name + '.t']
        a_, t_ = CTX.vars[i].smt, CTX.vars[CTX.byname[name + '.t']].smt
        # sin a <= a <= 2 tan(a/2) for a >= 0, odd
        CTX.defs[i] = ('(or (and (>= {t} 0.0) (<= {a} (* 2.0 {t})) (>= (* {a} (+ 1.0 (* {t} {t}))) (* 2.0 {t})))'
                       ' (and (<= {t} 0.0) (>= {a} (* 2.0 {t})) (<= (* {a} (+ 1.0 (* {t} {t}))) (* 2.0 {t}))))').format(a=a_, t=t_)
    CTX.use(i)
    one = Sym.const(1)
    d = sinv(one + t*t)
    CTX.aux[('angle', CTX.byname[name])] = ((one - t*t)*d, 2*t*d)
    return a

def _trig_const(q):
    """(cos, sin) of q*pi for rational q."""
    q = q % 2
    n = q*12
    if n.denominator != 1: raise Inconclusive('trigonometry of %s*pi' % q)
    n = int(n)
    z, h = Sym.const(0), Sym.const(Fraction(1, 2))
    one = Sym.const(1)
    def s2(): return ssqrt(Sym.const(2))/2
    def s3(): return ssqrt(Sym.const(3))/2
    def c(n):
        n %= 24
        if n > 12: n = 24 - n
        if n > 6: return sneg(c(12-n))
        if n == 0: return one
        if n == 1: return s2()*(s3() + h)
        if n == 5: return s2()*(s3() - h)
        if n == 2: return s3()
        if n == 3: return s2()
        if n == 4: return h
        if n == 6: return z
        raise Inconclusive('trigonometry of %d*pi/12' % n)
    return c(n), c(n-6)

def ssincos(x):
    """(sin, cos) of a linear combination of registered angles and rational multiples of pi."""
    x = Sym.const(x)
    if x.fac: raise Inconclusive('trigonometry of a rational function')
    C, S = Sym.const(1), Sym.const(0)
    ip = CTX.byname.get('PI')
    for m, c in x.num.items():
        q = Fraction(c, x.den)
        mv = mvars(m)
        if not mv:
            c1, s1 = _num_angle(q)
        elif len(mv) == 1 and mv[0][1] == 1 and mv[0][0] == ip:
            c1, s1 = _trig_const(q)
        elif len(mv) == 1 and mv[0][1] == 1 and ('angle', mv[0][0]) in CTX.aux:
            cb, sb = CTX.aux[('angle', mv[0][0])]
            if q.denominator != 1: raise Inconclusive('fraction of a symbolic angle')
            k = int(q)
            if k < 0: sb = sneg(sb); k = -k
            c1, s1 = Sym.const(1), Sym.const(0)
            for _ in range(k):
                c1, s1 = c1*cb - s1*sb, s1*cb + c1*sb
        else:
            raise Inconclusive('trigonometry of %r' % (x,))
        C, S = C*c1 - S*s1, S*c1 + C*s1
    return S, C

def _num_angle(q):
    if q == 0: return Sym.const(1), Sym.const(0)
    # a concrete angle in radians: treated as an opaque pair on the unit circle
    key = ('numangle', q)
    r = CTX.aux.get(key)
    if r is None:
        fl = float(q)
        nm = 'cos(%s)' % q
        t = CTX.var('tanhalf(%s)' % q, Fraction(math.tan(fl/2)) - Fraction(1, 10**9),
                    Fraction(math.tan(fl/2)) + Fraction(1, 10**9), kind='const')
        CTX.vars[CTX.byname['tanhalf(%s)' % q]].defn = ('value', math.tan(fl/2))
        d = sinv(1 + t*t)
        r = CTX.aux[key] = ((1 - t*t)*d, 2*t*d)
    return r

def sarccos(c):
    c = Sym.const(c)
    if c.is_const():
        v = c.value()
        if v == 1: return Sym.const(0)
        if v == 0: return pi()/2
        if v == -1: return pi()
    key = ('arccos', c.key())
    s = CTX.aux.get(key)
    if s is None:
        name = 'acos#%d' % len(CTX.aux)
        a = CTX.var(name, 0, Fraction(314159265358980, 10**14), kind='angle')
        CTX.vars[CTX.byname[name]].defn = ('acos', c)
        CTX.halftan[CTX.byname[name]] = c
        sn = ssqrt(1 - c*c)
        CTX.aux[('angle', CTX.byname[name])] = (c, sn)
        s = CTX.aux[key] = a
    return s

def sarctan2(y, x):
    y, x = Sym.const(y), Sym.const(x)
    if y.is_const() and x.is_const():
        yv, xv = y.value(), x.value()
        if yv == 0: return Sym.const(0) if xv >= 0 else pi()
        if xv == 0: return pi()/2 if yv > 0 else -pi()/2
        if yv == xv: return pi()/4 if yv > 0 else -3*pi()/4
        if yv == -xv: return 3*pi()/4 if yv > 0 else -pi()/4
    key = ('atan2', y.key(), x.key())
    s = CTX.aux.get(key)
    if s is not None: return s
    if bool(y == 0):
        return Sym.const(0) if bool(x >= 0) else pi()
    up = bool(y > 0)
    r = shypot(x, y)
    name = 'atan2#%d%s' % (len(CTX.aux), 'u' if up else 'd')
    P = Fraction(314159265358980, 10**14)
    a = CTX.var(name, 0 if up else -P, P if up else 0, kind='angle')
    CTX.vars[CTX.byname[name]].defn = ('atan2', y, x)
    CTX.aux[('angle', CTX.byname[name])] = (x/r, y/r)
    if up: CTX.aux[key + ('u',)] = a
    else: CTX.aux[key + ('d',)] = a
    return a


# ---------------------------------------------------------------- evaluation (concretisation)

def poly_eval(poly, val):
    s = 0
    for m, c in poly.items():
        x = c
        for v, e in mvars(m): x = x * val[v]**e
        s = s + x
    return s

def sym_eval(s, val):
    n = poly_eval(s.num, val)
    d = s.den
    for f, e in s.fac:
        d = d * poly_eval(CTX.factors[f].poly, val)**e
    return n / d if not isinstance(n, int) or not isinstance(d, int) else Fraction(n, d)

def complete_values(val):
    """Fill in derived variables (angles, sqrt, pi) from base variables, as floats."""
    val = dict(val)
    for v in CTX.vars:
        if v.kind == 'pi': val[v.idx] = math.pi
        elif v.defn is not None:
            k = v.defn[0]
            if k == 'sqrt':
                x = poly_eval(v.defn[1], val)
                if isinstance(x, (int, Fraction)):
                    q = _isqrt_frac(Fraction(x)) if x >= 0 else None
                    val[v.idx] = q if q is not None else math.sqrt(max(0.0, float(x)))
                else: val[v.idx] = math.sqrt(max(0.0, float(x)))
            elif k == '2atan': val[v.idx] = 2*math.atan(float(val[v.defn[1]]))
            elif k == 'acos': val[v.idx] = math.acos(max(-1.0, min(1.0, float(sym_eval(v.defn[1], val)))))
            elif k == 'atan2': val[v.idx] = math.atan2(float(sym_eval(v.defn[1], val)), float(sym_eval(v.defn[2], val)))
            elif k == 'value': val[v.idx] = v.defn[1]
            elif k == 'minmax': val[v.idx] = (min if v.defn[1] else max)(sym_eval(x, val) for x in v.defn[2])
    return val
