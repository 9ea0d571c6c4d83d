"""C28 Any history of map-preserving operations preserves the map."""
from .common import *

MODULES = ('nurbs', 'cad')
BOUNDS = ('curves: every sequence of 3 operations out of 25 (insertion inside a span, at a break up to the degree, at either end; refinement inside, at a break, at both ends; elevation by 1 or 2; removal of what was '
          'inserted, once or entirely; clamping of a side or both; unclamping of a side or both with full or lower continuity; reversal, remapping, slicing inside, up to or from a break; copying) from clamped, half-clamped and '
          'unclamped curves of degree 1-3 (thorough: more starting curves, sequences of 4); surfaces and volumes: every sequence of 2 of these per axis (thorough: 3), plus transposition, axis exchange, extraction and boundaries; '
          'the whole state is compared after every step: for all control points, weights and a field, at every parameter of every span')
OUTSIDE = 'irregular knots other than the fixed ones, except for one symbolic inserted value (sequences of 2); degree above 5; rounding built up along a history'
TOL = 1e-5

class Axis(object):
    """Current parameter t of the axis: original parameter a*t+b of axis src, over [lo, hi] of the original."""
    def __init__(self, src, a, b, lo, hi, p): self.src, self.a, self.b, self.lo, self.hi, self.p, self.ins = src, a, b, lo, hi, p, []
    def copy(self):
        x = Axis(self.src, self.a, self.b, self.lo, self.hi, self.p); x.ins = [list(i) for i in self.ins]
        return x
    def orig(self, t): return self.a*t+self.b
    def cur(self, u): return (u-self.b)/self.a

class State(object):
    def __init__(self, A, o, Ks, H):
        self.A, self.o, self.Ks, self.H = A, o, Ks, H
        self.ax = [Axis(i, A.num(1), A.num(0), K.a, K.b, K.p) for i, K in enumerate(Ks)]
        self.fixed = {}
        self.nsite = 0
    def copy(self):
        s = State.__new__(State)
        s.A, s.o, s.Ks, s.H, s.fixed, s.nsite = self.A, self.o.copy(), self.Ks, self.H, dict(self.fixed), self.nsite
        s.ax = [x.copy() for x in self.ax]
        return s
    # current knots
    def U(self, d): return list(self.A.objs(self.o.knots[d]))
    def eq(self, x, y):
        if self.A.mode == 'sym': return self.A.decide(x == y)
        return abs(x-y) < 1e-9
    def lt(self, x, y):
        if self.A.mode == 'sym': return self.A.decide(x < y)
        return x < y-1e-9
    def breaks(self, d):
        out = []
        for u in self.U(d):
            if out and self.eq(out[-1][0], u): out[-1][1] += 1
            else: out.append([u, 1])
        return out
    def ends(self, d):
        p = self.ax[d].p; U = self.U(d)
        return U[p], U[-p-1]
    def inner(self, d):
        a, b = self.ends(d)
        return [x for x in self.breaks(d) if self.lt(a, x[0]) and self.lt(x[0], b)]
    def dom(self, d):
        a, b = self.ends(d)
        return [a] + [x[0] for x in self.inner(d)] + [b]
    def mult(self, d, v):
        for u, m in self.breaks(d):
            if self.eq(u, v): return m
        return 0
    def note(self, d, u, n):
        """n knots inserted at the current parameter u."""
        x = self.ax[d]; w = x.orig(u)
        a, b = self.ends(d)
        if self.eq(u, a) or self.eq(u, b): return
        for i in x.ins:
            if self.eq(i[0], w): i[1] += n; break
        else: x.ins.append([w, n])
    def original(self, d, w): return any(self.eq(w, v) for v in self.Ks[self.ax[d].src].breaks)
    def trim(self, d):
        x = self.ax[d]
        x.ins = [i for i in x.ins if self.lt(x.lo, i[0]) and self.lt(i[0], x.hi) and i[1] > 0]

# operations: (state, axis) -> False when not applicable
def ins_in(s, d, last=False):
    D = s.dom(d); j = len(D)-2 if last else 0
    v = D[j]+(D[j+1]-D[j])/4
    s.o.insert(d, v); s.note(d, v, 1)
def ins_last2(s, d):
    D = s.dom(d)
    if s.ax[d].p < 2: return False
    v = D[-1]-(D[-1]-D[-2])/4
    s.o.insert(d, v, 2); s.note(d, v, 2)
def ins_site(s, d):
    """At any parameter of the second half of the last span."""
    D = s.dom(d); s.nsite += 1
    if s.nsite > 1: return False
    A = s.A
    f = A.real('q%d' % s.nsite, Fraction(1, 2), Fraction(1023, 1024), nice=(Fraction(5, 8), Fraction(7, 8)))
    v = D[-2]+(D[-1]-D[-2])*f
    s.o.insert(d, v); s.note(d, v, 1)
def ins_brk(s, d):
    I = [x for x in s.inner(d) if x[1] < s.ax[d].p]
    if not I: return False
    v, m = I[0]
    s.o.insert(d, v, s.ax[d].p-m); s.note(d, v, s.ax[d].p-m)
def ins_end(s, d, e):
    v = s.ends(d)[e]; m = min(s.mult(d, v), s.ax[d].p)
    if m == s.ax[d].p: return False
    s.o.insert(d, v, 1)
def refine(s, d, ends=False):
    D = s.dom(d); p = s.ax[d].p
    v = D[-2]+(D[-1]-D[-2])/2
    vs = [(v, 1)]
    if p > 1: vs = [(D[0]+(D[1]-D[0])/8, 2)] + (vs if len(D) > 2 else [])
    if not ends:
        I = [x for x in s.inner(d) if x[1] < p]
        if I: vs.append((I[-1][0], 1))
    else:
        vs += [(D[e], p-s.mult(d, D[e])) for e in (0, -1) if s.mult(d, D[e]) < p]
        if len(vs) < 2: return False
    seq = []
    for v, n in vs:
        k = 0
        while k < len(seq) and s.lt(seq[k], v): k += 1
        seq[k:k] = [v]*n
    s.o.refine(d, s.A.arr(seq))
    for v, n in vs: s.note(d, v, n)
def elevate(s, d, t):
    x = s.ax[d]
    if x.p+t > 5: return False
    s.o.elevate(d, t); x.p += t
    for i in x.ins:
        if not s.original(d, i[0]): i[1] += t
def remove(s, d, all_=False):
    x = s.ax[d]; s.trim(d)
    if not x.ins: return False
    # unclamping extrapolates the control net: its weights may be anything; removal then may have no tolerance left
    for w in np.asarray(s.A.objs(s.o.array))[..., 3].reshape(-1):
        s.A.assume(w > s.A.num(Fraction(1, 64)))
    i = x.ins[-1]
    u = x.cur(i[0]); m = s.mult(d, u)
    if all_ and s.original(d, i[0]): return False
    n = i[1] if all_ else 1
    if all_: s.o.remove(d, u, None)
    else: s.o.remove(d, u)
    s.A.claim('%s: removal of %d of %d' % (s.tag, n, m), s.mult(d, u) == m-n)
    i[1] -= n; s.trim(d)
def clamp(s, d, *a): s.o.clamp(d, *a)
def unclamp(s, d, side=None, low=False):
    p = s.ax[d].p
    if low and p < 2: return False
    s.o.unclamp(d, side, (p-2 if low else None))
def reverse(s, d):
    a, b = s.ends(d); x = s.ax[d]
    s.o.reverse(d); x.a, x.b = -x.a, x.a*(a+b)+x.b
def remap(s, d):
    a, b = s.ends(d); x = s.ax[d]
    s.o.remap(d, a+3, a+3+(b-a)*2)
    # t in [a+3, a+3+2(b-a)] is a+(t-a-3)/2
    h = s.A.num(Fraction(1, 2))
    x.b = x.a*(a-(a+3)*h)+x.b; x.a = x.a*h
def slice_(s, d, kind):
    D = s.dom(d); x = s.ax[d]
    if kind and len(D) < 3: return False
    if kind == 1: u, v = None, D[1]
    elif kind == 2: u, v = D[-2], None
    else: u, v = D[0]+(D[1]-D[0])/4, D[-1]-(D[-1]-D[-2])/8
    s.o = s.o.slice(d, u, v)
    u, v = x.orig(D[0] if u is None else u), x.orig(D[-1] if v is None else v)
    x.lo, x.hi = (u, v) if s.lt(u, v) else (v, u)
    s.trim(d)
def copy(s, d): s.o = s.o.copy()
def swap(s, d):
    e = (d+1) % len(s.ax)
    if e == d: return False
    s.o.swap(d, e)
    s.ax[d], s.ax[e] = s.ax[e], s.ax[d]
def transpose(s, d):
    n = len(s.ax)
    if n < 2 or d > 1: return False
    if d == 0: s.o.transpose(); s.ax = s.ax[::-1]
    else:
        r = list(range(1, n))+[0]
        s.o.transpose(r); s.ax = [s.ax[i] for i in r]
def extract(s, d, brk=False):
    if len(s.ax) < 2: return False
    D = s.dom(d); x = s.ax[d]
    v = D[1] if brk else D[0]+(D[1]-D[0])/4
    s.o = s.o.extract(d, v)
    s.fixed[x.src] = x.orig(v); del s.ax[d]
def boundary(s, d, side):
    if len(s.ax) < 2: return False
    D = s.dom(d); x = s.ax[d]
    s.o = s.o.boundary(d, side)
    s.fixed[x.src] = x.orig(D[-side]); del s.ax[d]

OPS = {'ins': ins_in, 'insl': ins_last2, 'insb': ins_brk, 'insa': lambda s, d: ins_end(s, d, 0), 'insz': lambda s, d: ins_end(s, d, 1), 'ref': refine, 'refe': lambda s, d: refine(s, d, True),
       'el': lambda s, d: elevate(s, d, 1), 'el2': lambda s, d: elevate(s, d, 2), 'rem': remove, 'rema': lambda s, d: remove(s, d, True), 'cl': clamp, 'cl0': lambda s, d: clamp(s, d, 0), 'cl1': lambda s, d: clamp(s, d, 1),
       'un': unclamp, 'un0': lambda s, d: unclamp(s, d, 0), 'un1': lambda s, d: unclamp(s, d, 1), 'unl': lambda s, d: unclamp(s, d, None, True), 'unl1': lambda s, d: unclamp(s, d, 1, True),
       'rev': reverse, 'map': remap, 'sl': lambda s, d: slice_(s, d, 0), 'sl1': lambda s, d: slice_(s, d, 1), 'sl2': lambda s, d: slice_(s, d, 2), 'copy': copy,
       'swap': swap, 'tr': transpose, 'ext': extract, 'extb': lambda s, d: extract(s, d, True), 'bnd0': lambda s, d: boundary(s, d, 0), 'bnd1': lambda s, d: boundary(s, d, 1), 'site': ins_site}
ONE = [k for k in OPS if k not in ('swap', 'tr', 'ext', 'extb', 'bnd0', 'bnd1', 'site')]
MANY = ['ins', 'insb', 'insa', 'insz', 'ref', 'el', 'rema', 'cl', 'un', 'unl1', 'rev', 'sl', 'sl2', 'swap', 'tr', 'ext', 'extb', 'bnd0', 'bnd1']

def span(s, U, p, x):
    """Span of U containing x, strictly inside."""
    for k in range(p, len(U)-p-1):
        if s.lt(U[k], x) and s.lt(x, U[k+1]): return k

def check(s, tag):
    A, o = s.A, s.o
    n = len(s.ax)
    good = o.dim == n and len(o.knots) == n
    A.claim('%s: axes' % tag, good)
    if not good: return False
    ivs = []
    for d, x in enumerate(s.ax):
        U = s.U(d); p = x.p
        ok = o.degree[d] == p and len(U) == o.shape[d]+p+1 and len(U) >= 2*p+2
        A.claim('%s: sizes of axis %d' % (tag, d), ok)
        if not ok: return False
        for i in range(len(U)-1): A.claim_le('%s: knots of axis %d in order' % (tag, d), U[i], U[i+1])
        N = len(U)-p-2
        if not all(s.lt(U[i], U[i+1]) or s.eq(U[i], U[i+1]) for i in range(len(U)-1)): return False
        A.claim_lt('%s: first span of axis %d' % (tag, d), U[p], U[p+1]); A.claim_lt('%s: last span of axis %d' % (tag, d), U[N], U[N+1])
        if not (s.lt(U[p], U[p+1]) and s.lt(U[N], U[N+1])): return False
        A.claim('%s: multiplicities of axis %d' % (tag, d), all(m <= p for _, m in s.inner(d)) and all(m <= p+1 for _, m in s.breaks(d)))
        e = [x.orig(U[p]), x.orig(U[N+1])]
        if s.lt(e[1], e[0]): e.reverse()
        A.claim_eq('%s: domain of axis %d' % (tag, d), vec(e), vec([x.lo, x.hi]))
        # intervals on which both maps are one polynomial
        K = s.Ks[x.src]
        pts = s.dom(d)
        for v in K.breaks:
            c = x.cur(v)
            if not (s.lt(pts[0], c) and s.lt(c, pts[-1])): continue
            k = 0
            while s.lt(pts[k], c): k += 1
            if not s.eq(pts[k], c): pts.insert(k, c)
        L = []
        for u, v in zip(pts, pts[1:]):
            m = (u+v)/2
            k0, k1 = span(s, K.U, K.p, x.orig(m)), span(s, U, p, m)
            if k0 is None or k1 is None: A.claim('%s: span structure of axis %d' % (tag, d), False); return False
            L.append((u, k1, k0))
        ivs.append(L)
    C = A.objs(o.array)
    nc = s.H.shape[-1]
    if C.shape[-1] != nc: A.claim('%s: components' % tag, False); return False
    import itertools
    for iv in itertools.product(*ivs):
        ts = [u+s.off[d] for d, (u, _, _) in enumerate(iv)]
        got = ref.homog_eval([s.U(d) for d in range(n)], [x.p for x in s.ax], [k for _, k, _ in iv], ts, C)
        p0, t0, k0 = [], [], []
        for i, K in enumerate(s.Ks):
            if i in s.fixed:
                t = s.fixed[i]; kk = K.spans[-1][0] if s.eq(t, K.b) else next(k for k, _ in K.spans if not s.lt(t, K.U[k]) and s.lt(t, K.U[k+1]))
            else:
                d = next(d for d, x in enumerate(s.ax) if x.src == i)
                t = s.ax[d].orig(ts[d]); kk = iv[d][2]
            t0.append(t); k0.append(kk)
        exp = ref.homog_eval([K.U for K in s.Ks], [K.p for K in s.Ks], k0, t0, s.H)
        A.claim_eq('%s: map' % tag, vec(list(got)), vec(list(exp)))
    return True

REM = ('rem', 'rema')
def history(A, Ks, first, ops, depth, sym, nf=0, removal=False):
    """removal: the histories with a removal; otherwise those without."""
    Ks = [A.cknots(p, m, gaps=g, seed=i+1, name='U%d' % i) for i, (p, m, g) in enumerate(Ks)]
    o, H = objn(A, Ks, nf=nf, sym=sym)
    s = State(A, o, Ks, H)
    State.off = [A.off('s%d' % d) for d in range(len(Ks))]
    tag = []
    for op, d in first:
        tag.append('%s%d' % (op, d)); s.tag = ' '.join(tag)
        if OPS[op](s, d) is False: return
    walk(s, tag, ops, depth, removal)

def walk(s, tag, ops, depth, removal):
    if not removal and not check(s, ' '.join(tag)): return
    if not depth: return
    for op in ops:
        if op in REM and not removal: continue
        if depth == 1 and removal is True and op not in REM: continue
        for d in range(len(s.ax)):
            if op == 'copy' and d: continue
            s1 = s.copy()
            s1.tag = ' '.join(tag+['%s%d' % (op, d)])
            if OPS[op](s1, d) is False: continue
            if op in REM or removal == 'done':
                if check(s1, s1.tag): walk(s1, tag+['%s%d' % (op, d)], ops, depth-1, 'done')
            else: walk(s1, tag+['%s%d' % (op, d)], ops, depth-1, removal)

G = [Fraction(1), Fraction(1, 2), Fraction(2), Fraction(1), Fraction(1, 2), Fraction(1), Fraction(3, 2), Fraction(1)]
START = {'lin': (1, [2, 1, 2]), 'linu': (1, [1, 1, 1, 1]), 'quad': (2, [3, 3]), 'quad1': (2, [3, 1, 3]), 'quad2': (2, [3, 2, 3]), 'quadu': (2, [1]*6), 'quadh': (2, [3, 1, 1, 1, 1]), 'quadr': (2, [1, 1, 1, 1, 3]),
         'cub1': (3, [4, 1, 4]), 'cub3': (3, [4, 3, 4]), 'cubu': (3, [1]*8), 'cubm': (3, [2, 2, 1, 2, 2])}
def cases(tier):
    th = tier == 'thorough'
    def both(nm, first, ops, depth, **kw):
        fs = {f for f, _ in first}
        if not fs & set(REM): yield Case(nm, history, first=first, ops=ops, depth=depth, **kw)
        if depth and any(f in ops for f in REM): yield Case(nm+'-removal', history, first=first, ops=ops, depth=depth, removal='done' if fs & set(REM) else True, **kw)
    def K(*ns): return [(START[n][0], START[n][1], G[i:i+len(START[n][1])-1]) for i, n in enumerate(ns)]
    for n in (START if th else ('lin', 'quad1', 'quadu', 'cub1')):
        for f in ONE:
            for c in both('%s-%s' % (n, f), [(f, 0)], ONE, 2, Ks=K(n), sym=True): yield c
    E = [f for f in ONE if f not in ('sl1', 'cl0', 'copy')]
    for n in ('lin', 'quad1', 'quadu', 'cub1') if not th else START:
        for c in both('site-%s' % n, [('site', 0)], E, 1, Ks=K(n), sym=True, nf=1): yield c
        if th:
            for f in E:
                for c in both('site-%s-%s' % (n, f), [(f, 0), ('site', 0)], E, 1, Ks=K(n), sym=True, nf=1): yield c
    for n in START:
        for c in both('field-%s' % n, [], ONE, 1 if not th else 2, Ks=K(n), sym=True, nf=1): yield c
    TWO = [('quad1', 'lin'), ('linu', 'quadh')] + ([('quad2', 'cub1'), ('quadu', 'quadu')] if th else [])
    for ns in TWO:
        for f in MANY:
            for d in (0, 1):
                for c in both('%s-%s%d' % ('-'.join(ns), f, d), [(f, d)], MANY, 2 if th else 1, Ks=K(*ns), sym=True): yield c
    THREE = [('lin', 'quad', 'lin')] + ([('quadu', 'lin', 'quadr')] if th else [])
    for ns in THREE:
        for f in MANY:
            for d in (0, 1, 2):
                for c in both('%s-%s%d' % ('-'.join(ns), f, d), [(f, d)], MANY, 1, Ks=K(*ns), sym=th): yield c
