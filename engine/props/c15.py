"""C15 Making objects compatible keeps every map and yields the coarsest common knot vectors."""
import itertools
from .common import *
from .c14 import dom

MODULES = ('nurbs', 'cad')
BOUNDS = ('2 or 3 objects of dimension 1-3, degrees 1-6, clamped and unclamped ends, up to 5 interior breaks per axis, equal, nested and disjoint breaks, equal and different domains, one field or none; '
          'curves: control points and weights symbolic, knots fixed irregular rationals or (same domain) symbolic; surfaces and volumes: fixed nets; equality of the maps at symbolic parameters of every cell of the common knot vector (curves) or of sampled cells; a knot span as short as 2^-30 beside ones of ordinary length, values close to a break but above rounding (2^-30..2^-12 away)')
OUTSIDE = 'break points of the operands that agree only up to the rounding of the reparametrization (real arithmetic is exact); degree > 6'

def common(Ks):
    """Degree, domain, interior (value, multiplicity) of the coarsest common knot vector of the (fixed) knot vectors."""
    P = max(K.p for K in Ks)
    lo, hi = min(dom(K)[0] for K in Ks), max(dom(K)[1] for K in Ks)
    m = {}
    for K in Ks:
        a, b = dom(K)
        for j in range(K.lo+1, K.hi):
            v = lo + (K.fr[j]-a)*(hi-lo)/(b-a)
            m[v] = max(m.get(v, 0), K.mults[j] + P - K.p)
    return P, lo, hi, sorted(m.items())

def param(A, Ks, P, j, name):
    """A symbolic parameter in cell j of the common breaks: value, and per object (parameter, span)."""
    _, lo, hi, inner = P
    br = [lo] + [v for v, _ in inner] + [hi]
    j = j % (len(br)-1)
    s = A.real(name, 0, 1, nice=(Fraction(1, 8), Fraction(7, 8)), strict=True)
    A.assume(s < 1)
    u = A.num(br[j]) + A.num(br[j+1]-br[j])*s
    mid = (br[j]+br[j+1])/2
    out = []
    for K in Ks:
        a, b = dom(K)
        out.append((A.num(a) + (u-A.num(lo))*((b-a)/(hi-lo)), [k for k, jj in K.spans if K.fr[jj] < a + (mid-lo)*(b-a)/(hi-lo) < K.fr[jj+1]][0]))
    return u, out, len(br)-1

def check_knots(A, K, P, U):
    """U (fixed numbers) has degree p, the domain lo, hi and exactly the interior knots."""
    p, lo, hi, inner = P
    U = list(A.objs(U))
    mid = [A.num(v) for v, s in inner for _ in range(s)]
    n = len(U) - len(mid)
    A.claim('room for the ends', n >= 2*(p+1))
    if n < 2*(p+1): return
    # unclamped ends: the domain ends lie at p and -p-1 and knots further out are not inside the domain
    A.claim_eq('domain start', U[p], A.num(lo)); A.claim_eq('domain end', U[-p-1], A.num(hi))
    inside = [u for u in U if bool(u > A.num(lo)) and bool(u < A.num(hi))]
    A.claim('number of interior knots %d, expected %d' % (len(inside), len(mid)), len(inside) == len(mid))
    if len(inside) == len(mid) and mid: A.claim_eq('interior knots', vec(inside), vec(mid))
    A.claim('sorted', all(bool(a <= b) for a, b in zip(U, U[1:])))
    A.claim('valid', bool(U[p] < U[p+1]) and bool(U[-p-2] < U[-p-1]))

def h(A, specs, axes, nf=0, form='args', cells=None, sym=True, others=0):
    """specs: per object, per axis (p, mults, gaps, start)."""
    dim = len(specs[0])
    KK = [[A.cknots(p, m, seed=3*i+d, name='U%d_%d' % (i, d), gaps=g) for d, (p, m, g, _) in enumerate(sp)] for i, sp in enumerate(specs)]
    for i, sp in enumerate(specs):
        for d, s in enumerate(sp):
            if s[3] is not None:
                K = KK[i][d]; fr = [x - K.fr[K.lo] + Fraction(s[3]) for x in K.fr]
                K2 = Knots(K.p, [A.num(x) for x in fr], K.mults); K2.fr = fr; KK[i][d] = K2
    objs, Hs = [], []
    for i, Ks in enumerate(KK):
        o, H = objn(A, Ks, name='P%d' % i, nf=nf if not isinstance(nf, (list, tuple)) else nf[i], sym=sym, seed=7+i)
        objs.append(o); Hs.append(A.objs(o.array).copy())
    kw = {} if axes is None else {'axes': axes}
    res = A.cad.compat(*objs, **kw) if form == 'args' else A.cad.compat(list(objs) if form == 'list' else tuple(objs), **kw)
    A.claim('one result per object', len(res) == len(objs))
    ax = list(range(dim)) if axes is None else sorted({list(range(dim))[a] for a in np.atleast_1d(axes)})
    for i, (r, o) in enumerate(zip(res, objs)):
        A.claim('new object', r is not o)
        A.claim_eq('object %d kept' % i, o.array, Hs[i])
        for d in range(dim): A.claim_eq('knots of object %d kept' % i, o.knots[d], vec(KK[i][d].U))
    per = []
    for d in range(dim):
        if d in ax:
            P = common([Ks[d] for Ks in KK])
            for i, r in enumerate(res):
                A.claim('degree', r.degree[d] == P[0])
                if i: A.claim_eq('same knots', r.knots[d], res[0].knots[d])
            check_knots(A, None, P, res[0].knots[d])
            per.append(P)
        else:
            for i, r in enumerate(res):
                A.claim('degree of axis %d kept' % d, r.degree[d] == KK[i][d].p)
                A.claim_eq('axis %d untouched' % d, r.knots[d], vec(KK[i][d].U))
            per.append(None)
    if any(r.array.shape[:-1] != tuple(U.size-p-1 for U, p in zip(r.knots, r.degree)) for r in res): A.claim('sizes', False); return
    # the maps
    n = 0
    while True:
        us, locs, ncell = [], [[] for _ in objs], 1
        for d in range(dim):
            if per[d] is not None:
                u, out, nc = param(A, [Ks[d] for Ks in KK], per[d], n + d*others, 't%d_%d' % (n, d))
                us.append([u]*len(objs)); ncell = max(ncell, nc)
            else:
                out = []
                for i, Ks in enumerate(KK):
                    K = Ks[d]; k, j = K.spans[(n+others) % len(K.spans)]
                    out.append((A.num(K.fr[j] + (K.fr[j+1]-K.fr[j])*Fraction(2, 5)), k))
                us.append([x for x, _ in out])
            for i in range(len(objs)): locs[i].append(out[i])
        for i, (r, Ks) in enumerate(zip(res, KK)):
            H = ref.homog_eval([K.U for K in Ks], [K.p for K in Ks], [l[1] for l in locs[i]], [l[0] for l in locs[i]], Hs[i])
            f = Hs[i].shape[-1] - 4
            got = r(*[us[d][i] for d in range(dim)], **({'fields': True} if f else {}))
            if f:
                A.claim_eq('fields of object %d, cell %d' % (i, n), got[1], vec([H[4+c]/H[3] for c in range(f)])); got = got[0]
            A.claim_eq('map of object %d, cell %d' % (i, n), got, vec([H[c]/H[3] for c in range(3)]))
        n += 1
        if n >= (ncell if cells is None else cells): break

def h_same(A, specs, names):
    """The same object given more than once: each result is an object of its own and has the map."""
    made = {}
    for k, s in zip(names, specs):
        if k not in made:
            K = A.cknots(s[0][0], s[0][1], seed=3*len(made), name='U%d' % len(made), gaps=s[0][2])
            if s[0][3] is not None:
                fr = [x - K.fr[K.lo] + Fraction(s[0][3]) for x in K.fr]
                K2 = Knots(K.p, [A.num(x) for x in fr], K.mults); K2.fr = fr; K = K2
            o, H = objn(A, [K], name='P'+k, seed=7)
            made[k] = (K, o, A.objs(o.array).copy())
    Ks, objs, Hs = zip(*[made[k] for k in names])
    res = A.cad.compat(*objs)
    P = common(Ks)
    A.claim('one result per object', len(res) == len(objs))
    A.claim('results apart', len({id(r) for r in res}) == len(res))
    for r, K, o, H in zip(res, Ks, objs, Hs):
        A.claim_eq('object kept', o.array, H)
        A.claim('degree', r.degree == (P[0],))
        A.claim_eq('same knots', r.knots[0], res[0].knots[0])
    check_knots(A, None, P, res[0].knots[0])
    n = nc = 0
    while n < max(nc, 1):
        u, out, nc = param(A, Ks, P, n, 't%d' % n)
        for i, (r, K, H) in enumerate(zip(res, Ks, Hs)):
            h = ref.homog_eval([K.U], [K.p], [out[i][1]], [out[i][0]], H)
            A.claim_eq('map of object %d, cell %d' % (i, n), r(u), vec([h[c]/h[3] for c in range(3)]))
        n += 1

def h_sym(A, p, p2, mults, m2, m3=None):
    """Symbolic breaks: both objects have (subsets of) the same breaks.  mults entries 0: break absent."""
    K = A.knots(p, [max(x, y, z, 1) for x, y, z in zip(mults, m2, m3 or m2)])
    def sub(q, m):
        K2 = Knots(q, [b for b, x in zip(K.breaks, m) if x], [x for x in m if x])
        K2.num = [j for j, x in enumerate(m) if x]; K2.m_ = m
        return K2
    Ks = [sub(p, mults), sub(p2, m2)] + ([sub(p, m3)] if m3 else [])
    objs, Hs = zip(*[objn(A, [k], name='P%d' % i, sym=i == 0) for i, k in enumerate(Ks)])
    res = A.cad.compat(*objs)
    P = max(p, p2)
    exp = []
    for j in range(len(K.breaks)):
        m = max([k.m_[j] + P - k.p for k in Ks if k.m_[j]] or [0])
        exp += [K.breaks[j]]*m
    for r, k, H in zip(res, Ks, Hs):
        A.claim('degree', r.degree[0] == P)
        A.claim_eq('knots', r.knots[0], vec(exp))
    for j in range(len(K.breaks)-1):
        t = K.breaks[j] + A.off('t%d' % j) if False else A.objs(np.array([K.breaks[j]*Fraction(3, 5)+K.breaks[j+1]*Fraction(2, 5)], dtype=object))[0]
        for i, (r, k, H) in enumerate(zip(res, Ks, Hs)):
            g = max(x for x in range(len(k.num)) if k.num[x] <= j)
            h_ = ref.homog_eval([k.U], [k.p], [k.span_of_break(g)], [t], H)
            A.claim_eq('map %d, cell %d' % (i, j), r(t), vec([h_[c]/h_[3] for c in range(3)]))

def h_ends(A, p, mults, side, i):
    """Unclamped objects over the same breaks except one outer knot that differs by a tiny amount: both are clamped."""
    K = A.knots(p, mults)
    T = A.real('d', Fraction(1, 2**30), Fraction(1, 2**12), nice=(Fraction(1, 2**24), Fraction(1, 2**16)))
    br = list(K.breaks); e = i if side == 0 else len(br)-1-i
    br[e] = br[e] - T if side == 0 else br[e] + T
    Ks = [K, Knots(p, br, mults)]
    objs, Hs = zip(*[objn(A, [k], name='P%d' % q, sym=q == 0) for q, k in enumerate(Ks)])
    res = A.cad.compat(*objs)
    exp = [K.a]*(p+1) + [b for j in range(K.lo+1, K.hi) for b in [K.breaks[j]]*K.mults[j]] + [K.b]*(p+1)
    for r in res: A.claim_eq('knots', r.knots[0], vec(exp), tol=1e-11)
    for j in range(K.lo, K.hi):
        t = K.breaks[j]*Fraction(3, 5) + K.breaks[j+1]*Fraction(2, 5)
        for q, (r, k, H) in enumerate(zip(res, Ks, Hs)):
            h_ = ref.homog_eval([k.U], [p], [k.span_of_break(j)], [t], H)
            A.claim_eq('map %d, cell %d' % (q, j), r(t), vec([h_[c]/h_[3] for c in range(3)]))

def h_tiny(A, p, p2, m, m2, side):
    """Breaks of the two objects that are close to each other, but not within rounding, are different breaks."""
    K = A.knots(p, [p+1, 1, 1, p+1], tiny=[('g', 1)])
    Ka, Kb = Knots(p, [K.breaks[0], K.breaks[1], K.breaks[3]], [p+1, m, p+1]), Knots(p2, [K.breaks[0], K.breaks[2], K.breaks[3]], [p2+1, m2, p2+1])
    P = max(p, p2)
    o1, H1 = objn(A, [Ka], name='P'); o2, H2 = objn(A, [Kb], name='Q', sym=False)
    res = A.cad.compat(*((o1, o2) if side else (o2, o1)))
    exp = [K.breaks[0]]*(P+1) + [K.breaks[1]]*(m+P-p) + [K.breaks[2]]*(m2+P-p2) + [K.breaks[3]]*(P+1)
    for r in res: A.claim_eq('knots', r.knots[0], vec(exp), tol=1e-11)
    for j in range(3):
        t = K.breaks[j]*Fraction(3, 5) + K.breaks[j+1]*Fraction(2, 5)
        for r, k, H, g in zip(res if side else res[::-1], (Ka, Kb), (H1, H2), (int(j > 0), int(j > 1))):
            h_ = ref.homog_eval([k.U], [k.p], [k.span_of_break(g)], [t], H)
            A.claim_eq('map, cell %d' % j, r(t), vec([h_[c]/h_[3] for c in range(3)]))

def h_single(A, form):
    o, H = objn(A, [A.cknots(2, [3, 1, 3])])
    res = A.cad.compat(o) if form == 'args' else A.cad.compat([o])
    A.claim('one object', len(res) == 1 and res[0] is not o)
    A.claim_eq('net', res[0].array, H)

def h_bad(A, what):
    o1, H1 = objn(A, [A.cknots(1, [2, 2])], name='P'); o2, H2 = objn(A, [A.cknots(1, [2, 2])]*2, name='Q'); o3, H3 = objn(A, [A.cknots(2, [3, 3])]*2, name='R')
    f = {'dims': lambda: A.cad.compat(o1, o2), 'kwarg': lambda: A.cad.compat(o2, o3, axis=0), 'axes': lambda: A.cad.compat(o2, o3, axes=2), 'axes-': lambda: A.cad.compat(o2, o3, axes=[0, -3])}[what]
    A.refused(what, f)
    for o, H in ((o1, H1), (o2, H2), (o3, H3)): A.claim_eq('kept', o.array, H)

def h_noaxes(A):
    o2, H2 = objn(A, [A.cknots(1, [2, 2])]*2, name='Q'); o3, H3 = objn(A, [A.cknots(2, [3, 3])]*2, name='R')
    r = A.cad.compat(o2, o3, axes=[])
    A.claim('degrees kept', r[0].degree == (1, 1) and r[1].degree == (2, 2))
    A.claim_eq('net 0', r[0].array, H2); A.claim_eq('net 1', r[1].array, H3)

# curve pieces: (p, mults, gaps, start); gaps make the domains' ratio dyadic
L = (1, [2, 2], [1], None)
S = {'l': (1, [2, 2], [1]), 'a': (2, [3, 1, 3], [1, 3]), 'a2': (2, [3, 2, 3], [1, 3]), 'A': (2, [3, 1, 3], [2, 6]), 'b': (2, [3, 1, 3], [2, 2]), 'c': (3, [4, 4], [4]), 'd': (3, [4, 2, 1, 4], [1, 1, 2]),
     'e': (1, [2, 1, 1, 2], [1, 2, 1]), 'f': (2, [3, 1, 1, 1, 3], [1, 3, 2, 2]), 'u': (2, [1]*7, [1, 1, 1, 3, 1, 1]), 'v': (2, [1]*7, [1, 2, 1, 3, 2, 1]), 'w': (1, [1]*5, [2, 1, 3, 1]), 'x': (3, [1]*8, [1, 1, 1, 4, 1, 1, 1]),
     'y': (2, [3, 1, 1, 1, 1], [1, 3, 1, 1]), 'z': (2, [1, 1, 1, 1, 3], [1, 1, 1, 3]), 'g': (4, [5, 1, 5], [2, 2]), 'h': (3, [4, 3, 4], [1, 3]), 'B': (5, [6, 2, 6], [1, 3]), 'C': (6, [7, 7], [4]), 'D': (1, [2, 1, 1, 1, 1, 1, 2], [1, 1, 2, 1, 1, 2]), 'E': (4, [1]*10, [1, 1, 2, 1, 4, 2, 1, 1, 1]), 'F': (3, [4, 1, 3, 1, 2, 4], [1, 1, 1, 4, 1]),
     'G': (5, [1, 2, 3, 1, 2, 6], [1, 2, 3, 1, 1])}

def sp(k, start=None): return S[k] + (start,)

def cases(tier):
    th = tier == 'thorough'
    PAIRS = [('l', 'l'), ('l', 'a'), ('a', 'a'), ('a', 'a2'), ('a', 'b'), ('a', 'A'), ('a', 'c'), ('a', 'd'), ('e', 'd'), ('e', 'f'), ('f', 'a'), ('d', 'g'), ('c', 'g'), ('a2', 'h'), ('u', 'u'), ('u', 'v'), ('u', 'a'), ('u', 'l'),
             ('w', 'u'), ('w', 'e'), ('x', 'c'), ('x', 'u'), ('y', 'a'), ('z', 'a'), ('y', 'z'), ('y', 'u'), ('d', 'h'), ('D', 'B'), ('C', 'D'), ('E', 'a'), ('E', 'B'), ('F', 'D'), ('F', 'E'), ('G', 'F'), ('G', 'u'), ('B', 'B'), ('D', 'D')]
    for i, (a, b) in enumerate(PAIRS):
        for j, (x, y) in enumerate([(None, None), (0, 2), (-3, Fraction(1, 2))]):
            if j == 2 and not th: continue
            if a == 'u' and b == 'v' and j == 0: pass
            yield Case('pair-%s%s-%d' % (a, b, j), h, specs=[[sp(a, x)], [sp(b, y)]], axes=None, nf=(i+j) % 2, form=['args', 'list', 'tuple'][(i+j) % 3])
            if j == 0 and a != b: yield Case('pair-%s%s-r' % (a, b), h, specs=[[sp(b)], [sp(a)]], axes=[None, 0, [0], (-1,)][i % 4], nf=0 if i % 3 else [0, 1])
    for i, t in enumerate([('l', 'a', 'c'), ('a', 'b', 'e'), ('u', 'a', 'e'), ('f', 'b', 'a2'), ('x', 'l', 'd'), ('e', 'w', 'v')]):
        yield Case('triple-' + ''.join(t), h, specs=[[sp(k)] for k in t], axes=None, form=['args', 'list'][i % 2])
    TWO = [(('l', 'a'), ('a', 'b')), (('u', 'e'), ('a', 'c')), (('a2', 'f'), ('e', 'a')), (('c', 'w'), ('c', 'w')), (('y', 'l'), ('b', 'z'))]
    for i, (s0, s1) in enumerate(TWO):
        for ax in (None, 0, 1, [-1], (0, 1)):
            yield Case('surf-%d-%s' % (i, str(ax).replace(' ', '')), h, specs=[[sp(k, 0) for k in s0], [sp(k, 1) for k in s1]], axes=ax, nf=i % 2, sym=False, cells=3 if th else 2, others=i)
    for i, (s0, s1) in enumerate([(('l', 'a', 'e'), ('a', 'b', 'l')), (('u', 'l', 'a'), ('e', 'l', 'a2'))]):
        for ax in (None, [0, 2], -1, [1]):
            yield Case('vol-%d-%s' % (i, str(ax).replace(' ', '')), h, specs=[[sp(k, 0) for k in s0], [sp(k, 1) for k in s1]], axes=ax, sym=False, cells=2 if th else 1, others=i+1)
    for i, a in enumerate([(2, 2, [3, 1, 1, 3], [3, 0, 2, 3]), (2, 2, [3, 1, 3], [3, 2, 3]), (1, 2, [2, 1, 2], [3, 0, 3]), (1, 2, [2, 0, 2], [3, 1, 3]), (2, 3, [3, 1, 0, 3], [4, 0, 1, 4]), (1, 3, [2, 1, 2], [4, 1, 4]), (1, 1, [2, 1, 0, 2], [2, 0, 1, 2], [2, 1, 1, 2]), (3, 2, [4, 0, 3, 4], [3, 1, 1, 3])]):
        yield Case('sym-%d' % i, h_sym, p=a[0], p2=a[1], mults=a[2], m2=a[3], m3=a[4] if len(a) > 4 else None)
    for p, m in ((1, [1]*4), (1, [1]*5), (2, [1]*6), (2, [1]*7), (2, [2, 1, 1, 1, 1]), (2, [1, 2, 1, 2, 1]), (3, [1]*8)):
        K = Knots(p, [0]*len(m), m)
        for side in (0, 1):
            for i in range(K.lo if side == 0 else len(m)-1-K.hi): yield Case('ends-p%d-%s-%d-%d' % (p, ''.join(map(str, m)), side, i), h_ends, p=p, mults=m, side=side, i=i)
    for i, (p, p2, m, m2) in enumerate([(1, 1, 1, 1), (2, 2, 1, 1), (2, 2, 2, 1), (3, 3, 1, 2), (1, 2, 1, 1), (2, 3, 1, 1)]):
        for side in (0, 1): yield Case('tiny-%d-%d' % (i, side), h_tiny, p=p, p2=p2, m=m, m2=m2, side=side)
    for i, t in enumerate((('a', 'a'), ('a', 'a', 'b'), ('b', 'a', 'a'), ('c', 'b', 'c'), ('d', 'd', 'a'))): yield Case('same-%d' % i, h_same, specs=[[sp(k)] for k in t], names=t)
    for f in ('args', 'list'): yield Case('single-' + f, h_single, form=f)
    for w in ('dims', 'kwarg', 'axes', 'axes-'): yield Case('refused-' + w, h_bad, what=w)
    yield Case('no-axes', h_noaxes)
