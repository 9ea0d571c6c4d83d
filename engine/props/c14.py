"""C14 Construction helpers build the objects their definition says."""
import itertools
from .common import *
from .c12 import vecs, full

MODULES = ('nurbs', 'transform', 'cad')
BOUNDS = ('lines and (bi/tri)linear patches with symbolic corner data of 2-4 components; grids of 1-3 dimensions with 1-4 elements per axis, degrees 1-4, every admissible continuity, symbolic limits, wrapped or not; '
          'extrusions, ruled surfaces/volumes, sweeps and Coons patches of symbolic curves/surfaces with fixed irregular knots (equal and different degrees, knots, domains), clamped and unclamped, at symbolic parameters')
OUTSIDE = 'Coons patches whose adjacent curves carry different weights at the shared corner (refused); fields (the helpers build objects without fields); floating-point rounding, including break points of the two operands which agree only up to rounding'

def U01(A, n): return [A.real('t%d' % d, 0, 1, nice=(Fraction(1, 8), Fraction(7, 8))) for d in range(n)]

def corners(A, o, dim, vals, homog):
    """o is the multilinear interpolation of vals (shape (2,)*dim + (d,)) over [0,1]^dim."""
    A.claim('shape', tuple(o.shape) == (2,)*dim and o.dim == dim and tuple(o.degree) == (1,)*dim)
    t = U01(A, dim)
    d = vals.shape[-1]
    tot = [A.num(0)]*d
    for i in itertools.product((0, 1), repeat=dim):
        w = A.num(1)
        for k in range(dim): w = w*(t[k] if i[k] else 1-t[k])
        for c in range(d): tot[c] = tot[c] + w*vals[i+(c,)]
    if homog: tot = [x/tot[3] for x in tot[:3]]
    A.claim_eq('multilinear', o(*t), vec((tot + [A.num(0)]*3)[:3]))
    for d_ in range(dim): A.claim_eq('knots %d' % d_, o.knots[d_], vec([A.num(x) for x in (0, 0, 1, 1)]))
    for i in itertools.product((0, 1), repeat=dim):
        v = [vals[i+(c,)] for c in range(d)]
        if homog: v = [x/v[3] for x in v[:3]]
        A.claim_eq('corner %s' % (i,), o(*[A.num(x) for x in i]), vec((v + [A.num(0)]*3)[:3]))

def h_line(A, n0, n1, form):
    p = [[A.ctrl('p%d_%d' % (i, c)) for c in range(n)] for i, n in enumerate((n0, n1))]
    V = np.empty((2, 3), dtype=object)
    for i in range(2):
        for c in range(3): V[i, c] = p[i][c] if c < len(p[i]) else A.num(0)
    f = {'list': list, 'tuple': tuple, 'array': lambda x: A.arr(vec(x)), 'scalar': lambda x: x[0]}[form]
    corners(A, A.cad.line(f(p[0]), f(p[1])), 1, V, False)

def h_linear(A, helper, dim, ncomp, form):
    if ncomp == 0:
        V = np.empty((2,)*dim+(3,), dtype=object)
        for i in itertools.product((0, 1), repeat=dim):
            for c in range(3): V[i+(c,)] = A.num(Fraction(2*i[c]-1, 2) if c < dim else 0)
        o = getattr(A.cad, helper)()
        corners(A, o, dim, V, False); return
    V = np.empty((2,)*dim+(ncomp,), dtype=object)
    for i in itertools.product((0, 1), repeat=dim):
        for c in range(ncomp): V[i+(c,)] = A.weight('w%s' % (i,)) if c == 3 else A.ctrl('p%s%d' % (i, c))
    arg = A.arr(V)
    if form == 'list': arg = [A.arr(V[0]), A.arr(V[1])]
    o = getattr(A.cad, helper)(arg)
    corners(A, o, dim, V, ncomp == 4)

def h_default_line(A):
    V = np.array([[A.num(0)]*3, [A.num(1), A.num(0), A.num(0)]], dtype=object)
    corners(A, A.cad.line(), 1, V, False)

def h_grid(A, shape, degree, cont, limits, wrap, scalar):
    """The grid's map is the identity of its parameter box."""
    dim = len(shape)
    kw = {}
    if limits == 'default': lim = [(A.num(0), A.num(1))]*dim
    else:
        lim = []
        for d in range(dim):
            a = A.real('a%d' % d, -8, 8, nice=(-2, 2)); lim.append((a, a + A.real('L%d' % d, Fraction(1, 4), 8, nice=(1, 4))))
        if limits == 'one': lim = [lim[0]]*dim; kw['limits'] = lim[0]
        else: kw['limits'] = [list(l) for l in lim]
    p = degree if degree is not None else [2]*dim
    if degree is not None: kw['degree'] = degree[0] if scalar else list(degree)
    C = cont if cont is not None else [x-1 for x in p]
    C = [c if c >= 0 else c + x for c, x in zip(C, p)]
    if cont is not None: kw['continuity'] = cont[0] if scalar else list(cont)
    if wrap is not None: kw['wrap'] = wrap[0] if scalar else list(wrap)
    w = wrap or [False]*dim
    o = A.cad.grid(shape[0] if scalar and dim == 1 else list(shape), **kw)
    A.claim('degree', tuple(o.degree) == tuple(p))
    A.claim('shape', tuple(o.shape) == tuple((N-1)*(q-c)+q+1 for N, q, c in zip(shape, p, C)))
    ts, spans = [], []
    for d in range(dim):
        a, b = lim[d]
        j = (d + 1) % shape[d]
        A.claim_eq('breaks %d' % d, o.breaks(d), vec([a + (b-a)*Fraction(i, shape[d]) for i in range(shape[d]+1)]))
        ts.append(a + (b-a)*((A.real('t%d' % d, 0, 1, nice=(Fraction(1, 8), Fraction(7, 8)), strict=True) + j)/shape[d]))
    A.claim_eq('identity map', o(*ts), vec((ts + [A.num(0)]*3)[:3]))
    A.claim_eq('weights', o.weights, np.full(o.shape, A.num(1), dtype=object))
    A.claim_eq('starts', o(*[l[0] for l in lim]), vec(([l[0] for l in lim] + [A.num(0)]*3)[:3]))
    A.claim_eq('ends', o(*[l[1] for l in lim]), vec(([l[1] for l in lim] + [A.num(0)]*3)[:3]))

def h_grid_bad(A, what):
    g = A.cad.grid
    f = {'degree0': lambda: g(3, degree=0), 'cont': lambda: g(3, degree=2, continuity=2), 'cont-': lambda: g(3, degree=2, continuity=-3), 'dim': lambda: g([2, 2, 2, 2]), 'degrees': lambda: g([2, 2], degree=[1, 2, 3]),
         'limits': lambda: g([2, 2], limits=[(0, 1)]), 'limits3': lambda: g(2, limits=(0, 1, 2)), 'wrap': lambda: g([2, 2], wrap=[True])}[what]
    A.refused(what, f)

CURVES = {'a': (2, [3, 1, 3], 3), 'b': (3, [4, 4], 5), 'c': (1, [2, 1, 2], 7), 'u': (2, [1]*7, 2), 'd': (2, [3, 2, 3], 9), 'l': (1, [2, 2], 1)}
def curve(A, key, name, gaps=None, sym=True, sites=(), start=None):
    p, m, seed = CURVES[key]
    K = A.cknots(p, m, seed=seed, name='U'+name, gaps=gaps, sites=sites)
    o, H = objn(A, [K], name=name, sym=sym, seed=seed)
    return o, H, K

def h_extrude(A, dim, spec, key, nf):
    degs, ms = ((CURVES[key][0],), (CURVES[key][1],)) if dim == 1 else ((2, 1), ([3, 3], [2, 1, 2]))
    Ks = [A.cknots(p, m, seed=d+4, name='U%d' % d, sites=(Knots(p, [0]*len(m), m).lo,)) for d, (p, m) in enumerate(zip(degs, ms))]
    o, H = objn(A, Ks, nf=nf)
    arg, v = vecs(A, spec, 'd')
    d3 = full(A, v, spec, 0, False)
    S = A.cad.extrude(o, arg) if spec[2] is None else A.cad.extrude(o, arg, spec[2])
    A.claim('dim', S.dim == dim+1)
    for d, K in enumerate(Ks): A.claim_eq('knots %d' % d, S.knots[d], vec(K.U))
    A.claim_eq('extrusion knots', S.knots[-1], vec([A.num(x) for x in (0, 0, 1, 1)]))
    t, = U01(A, 1)
    locs = [[(K.lo, 0)] for K in Ks]
    x = project(ref_points(Ks, locs, H))[0].reshape(3)
    us = [where(K, l[0])[0] for K, l in zip(Ks, locs)]
    A.claim_eq('C + v*d', S(*(us+[t])), vec([x[c] + t*d3[c] for c in range(3)]))
    A.claim_eq('object kept', o.array[..., :4], H[..., :4])

def dom(K): return K.fr[K.lo], K.fr[K.hi]

def common_at(A, Ks, j, frac, name):
    """A parameter of the common domain strictly inside a cell that is free of breaks of all the curves (cell number j)."""
    lo, hi = min(dom(K)[0] for K in Ks), max(dom(K)[1] for K in Ks)
    br = sorted({lo + (hi-lo)*(b-dom(K)[0])/(dom(K)[1]-dom(K)[0]) for K in Ks for b in K.fr[K.lo:K.hi+1]})
    j = j % (len(br)-1)
    a, b = br[j], br[j+1]
    s = A.real(name, 0, 1, nice=(Fraction(1, 8), Fraction(7, 8)), strict=True)
    A.assume(s < 1)
    u = A.num(a) + A.num(b-a)*s
    mid = (a+b)/2
    out = []
    for K in Ks:
        k0, k1 = dom(K)
        t = A.num(k0) + (u-A.num(lo))*((k1-k0)/(hi-lo))
        m = k0 + (mid-lo)*(k1-k0)/(hi-lo)
        sp = [k for k, jj in K.spans if K.fr[jj] < m < K.fr[jj+1]][0]
        out.append((t, sp))
    return u, out, (lo, hi)

def hval(K, t, k, H):
    return ref.homog_eval([K.U], [K.p], [k], [t], H)

def h_ruled(A, k1, k2, g1, g2, cell):
    o1, H1, K1 = curve(A, k1, 'P', gaps=g1); o2, H2, K2 = curve(A, k2, 'Q', gaps=g2)
    S = A.cad.ruled(o1, o2)
    u, ((t1, s1), (t2, s2)), (lo, hi) = common_at(A, [K1, K2], cell, None, 's')
    a, b = hval(K1, t1, s1, H1), hval(K2, t2, s2, H2)
    v, = U01(A, 1)
    h = [(1-v)*x + v*y for x, y in zip(a, b)]
    A.claim('dim', S.dim == 2)
    A.claim_eq('(1-v)*C1 + v*C2', S(u, v), vec([h[c]/h[3] for c in range(3)]))
    A.claim_eq('C1 at v = 0', S(u, A.num(0)), vec([a[c]/a[3] for c in range(3)]))
    A.claim_eq('C2 at v = 1', S(u, A.num(1)), vec([b[c]/b[3] for c in range(3)]))
    U = S.knots[0]; p = S.degree[0]
    A.claim_eq('domain', A.arr(vec([U[p], U[-p-1]])), vec([A.num(lo), A.num(hi)]))
    A.claim_eq('first kept', o1.array, H1); A.claim_eq('second kept', o2.array, H2)

def h_ruled2(A):
    """Ruled volume of two surfaces of different degree."""
    Ka = [A.cknots(1, [2, 1, 2], gaps=[1, 1]), A.cknots(2, [3, 3], gaps=[2])]; Kb = [A.cknots(2, [3, 3], gaps=[4]), A.cknots(1, [2, 2], gaps=[1])]
    o1, H1 = objn(A, Ka, name='P'); o2, H2 = objn(A, Kb, name='Q', sym=False)
    S = A.cad.ruled(o1, o2)
    us, T = [], []
    for d in range(2):
        u, l, _ = common_at(A, [Ka[d], Kb[d]], d, None, 's%d' % d)
        us.append(u); T.append(l)
    v, = U01(A, 1)
    h = [ref.homog_eval([K.U for K in Ks], [K.p for K in Ks], [T[d][i][1] for d in range(2)], [T[d][i][0] for d in range(2)], H) for i, (Ks, H) in enumerate(((Ka, H1), (Kb, H2)))]
    h = [(1-v)*x + v*y for x, y in zip(*h)]
    A.claim('dim', S.dim == 3)
    A.claim_eq('(1-v)*S1 + v*S2', S(*(us+[v])), vec([h[c]/h[3] for c in range(3)]))

def h_sweep(A, kind, traj, j):
    """S(u, v) = C(u) + T(v)."""
    if kind == 'surface': Ks = [A.cknots(1, [2, 2], seed=1), A.cknots(2, [3, 1, 3], seed=3, sites=(1,))]; us = None
    else:
        p, m, seed = CURVES[kind]; Ks = [A.cknots(p, m, seed=seed, name='U', sites=(Knots(p, [0]*len(m), m).lo,))]
    o, H = objn(A, Ks, name='P', sym=kind != 'surface')
    p, m, seed = CURVES[traj]
    K = Knots(p, [0]*len(m), m)
    KT = A.cknots(p, m, seed=seed, name='V', sites=(K.spans[j % len(K.spans)][1],))
    T, HT = objn(A, [KT], name='T')
    S = A.cad.sweep(o, T)
    locs = [[(sorted(K.site)[0][0] if False else K.lo, 0)] if (K.lo, 0) in K.site else ([(1, 0)] if (1, 0) in K.site else [('b', K.lo)]) for K in Ks]
    x = project(ref_points(Ks, locs, H))[0].reshape(3)
    lt = [(K.spans[j % len(K.spans)][1] if False else KT.spans[j % len(KT.spans)][1], 0)]
    y = project(ref_points([KT], [lt], HT))[0].reshape(3)
    us = [where(K, l[0])[0] for K, l in zip(Ks, locs)] + [where(KT, lt[0])[0]]
    A.claim('dim', S.dim == len(Ks)+1)
    A.claim_eq('C + T', S(*us), vec([x[c]+y[c] for c in range(3)]))
    for d, K in enumerate(Ks+[KT]): A.claim_eq('knots %d' % d, S.knots[d], vec(K.U))
    A.claim_eq('section kept', o.array, H); A.claim_eq('trajectory kept', T.array, HT)

def h_coons(A, keys, gaps, cell, side, wts):
    """Each of the four boundary curves is a boundary of the patch.  keys: C00, C01 (along v), C10, C11 (along u)."""
    names = 'ABCD'
    Ks = []
    for nm, key, g in zip(names, keys, gaps):
        p, m, seed = CURVES[key]
        Ks.append(A.cknots(p, m, seed=seed, name='U'+nm, gaps=g))
    X = {}
    W = {}
    for u in (0, 1):
        for v in (0, 1):
            X[u, v] = [A.ctrl('X%d%d_%d' % (u, v, c)) for c in range(3)]
            W[u, v] = A.num(1) if wts == 'one' else (A.num([2, 1, Fraction(1, 2), 4][2*u+v]) if wts == 'fixed' else A.weight('W%d%d' % (u, v)))
    ends = [((0, 0), (0, 1)), ((1, 0), (1, 1)), ((0, 0), (1, 0)), ((0, 1), (1, 1))]
    objs, Hs = [], []
    for i, K in enumerate(Ks):
        H = np.empty((K.n+1, 4), dtype=object)
        for r in range(K.n+1):
            if r in (0, K.n):
                e = ends[i][r == K.n]
                for c in range(3): H[r, c] = X[e][c]*W[e]
                H[r, 3] = W[e]
            else:
                for c in range(3): H[r, c] = A.ctrl('%s%d%d' % (names[i], r, c))
                H[r, 3] = A.weight('%s%dw' % (names[i], r)) if wts != 'one' else A.num(1)
        objs.append(A.NURBS([A.arr(K.U)], A.arr(H))); Hs.append(H)
    S = A.cad.coons([[objs[0], objs[1]], [objs[2], objs[3]]])
    A.claim('dim', S.dim == 2)
    fam = [0, 1] if side < 2 else [2, 3]
    other = [2, 3] if side < 2 else [0, 1]
    # parameters: the patch is over the common domains of everything it was made compatible with ([0,1] of the bilinear part included)
    unit = Knots(1, [0, 1], [2, 2]); unit.fr = [Fraction(0), Fraction(1)]
    t, l, (lo, hi) = common_at(A, [Ks[k] for k in fam] + [unit], cell, None, 's')
    olo, ohi = min([dom(Ks[k])[0] for k in other] + [Fraction(0)]), max([dom(Ks[k])[1] for k in other] + [Fraction(1)])
    i = side
    h = hval(Ks[i], l[fam.index(i)][0], l[fam.index(i)][1], Hs[i])
    fixed = A.num((olo, ohi)[side % 2])
    got = S(fixed, t) if side < 2 else S(t, fixed)
    A.claim_eq('boundary curve %d' % i, got, vec([h[c]/h[3] for c in range(3)]))
    for k, (o, H) in enumerate(zip(objs, Hs)): A.claim_eq('curve %d kept' % k, o.array, H)

def h_coons_bad(A, what):
    """Curves that do not meet are refused."""
    P = {k: [A.num(x) for x in v] for k, v in {(0, 0): (0, 0), (1, 0): (2, 0), (0, 1): (0, 1), (1, 1): (3, 2)}.items()}
    mk = lambda a, b: A.NURBS([A.arr(vec([A.num(x) for x in (0, 0, 1, 1)]))], A.arr(np.array([a, b], dtype=object)))
    Q = dict(P)
    d = A.real('d', Fraction(1, 1000), 8, nice=(Fraction(1, 2), 2))
    bad = {'00': (0, 0), '10': (1, 0), '01': (0, 1), '11': (1, 1)}[what]
    Q[bad] = [P[bad][0]+d, P[bad][1]]
    A.refused('gap at corner ' + what, lambda: A.cad.coons([[mk(P[0, 0], P[0, 1]), mk(P[1, 0], P[1, 1])], [mk(Q[0, 0], Q[1, 0]), mk(Q[0, 1], Q[1, 1])]]))

def h_dims(A, what):
    o1, _ = objn(A, [A.cknots(1, [2, 2])], sym=False); o2, _ = objn(A, [A.cknots(1, [2, 2])]*2, sym=False); o3, _ = objn(A, [A.cknots(1, [2, 2])]*3, sym=False)
    c = A.cad
    A.refused(what, {'extrude': lambda: c.extrude(o3, A.num(1)), 'ruled': lambda: c.ruled(o1, o2), 'ruled3': lambda: c.ruled(o3, o3), 'sweep': lambda: c.sweep(o3, o1), 'sweep2': lambda: c.sweep(o1, o2),
                     'coons': lambda: c.coons([[o2, o2], [o1, o1]]), 'bilinear': lambda: c.bilinear(A.arr(A.objs(A.consts(1, (2, 3, 2))))), 'trilinear': lambda: c.trilinear(A.arr(A.objs(A.consts(1, (2, 2, 3))))),
                     'linear': lambda: c.linear(A.arr(A.objs(A.consts(1, (3, 2)))))}[what])

def cases(tier):
    th = tier == 'thorough'
    for i, (a, b, f) in enumerate([(2, 2, 'tuple'), (3, 3, 'list'), (1, 1, 'scalar'), (1, 3, 'array'), (3, 2, 'array'), (2, 3, 'list')]): yield Case('line-%d' % i, h_line, n0=a, n1=b, form=f)
    yield Case('line-default', h_default_line)
    for fn, dim in (('linear', 1), ('bilinear', 2), ('trilinear', 3)):
        for nc in (0, 2, 3, 4): yield Case('%s-%d' % (fn, nc), h_linear, helper=fn, dim=dim, ncomp=nc, form='array' if nc != 3 else 'list')
    n = 0
    for E in (1, 2, 3):
        for p in (1, 2, 3, 4):
            for C in range(p):
                for wrap in (False, True):
                    if wrap and (C > (E-1)*(p-C)): continue     # the wrapped vector takes C knots from inside
                    n += 1
                    yield Case('grid1-E%dp%dC%d%s' % (E, p, C, 'w'*wrap), h_grid, shape=[E], degree=[p], cont=[C if n % 3 else C-p], limits=['default', 'one', 'each'][n % 3], wrap=[wrap] if wrap or n % 2 else None, scalar=n % 4 < 2)
    for n, (s, p, C, l, w, sc) in enumerate([([2, 3], [2, 1], [1, 0], 'each', None, False), ([1, 2], None, None, 'default', None, False), ([2, 2], [3, 3], [1, 1], 'one', [True, True], True), ([2, 3, 1], [1, 2, 2], [0, 1, 0], 'each', [False, True, False], False),
                                             ([2, 2, 2], [2, 2, 2], None, 'one', None, True), ([3, 1, 2], None, [0, 1, -1], 'default', None, False), ([4, 2], [1, 3], [0, 2], 'each', [True, False], False)]):
        yield Case('grid%d-%d' % (len(s), n), h_grid, shape=s, degree=p, cont=C, limits=l, wrap=w, scalar=sc)
    for w in ('degree0', 'cont', 'cont-', 'dim', 'degrees', 'limits', 'limits3', 'wrap'): yield Case('grid-refused-' + w, h_grid_bad, what=w)
    for i, spec in enumerate([('scalar', 1, None)] + [('scalar', 1, a) for a in (0, 1, 2, -1)] + [(f, k, None) for f in ('list', 'array') for k in (1, 2, 3)] + [('list', 2, [0, 2])]):
        yield Case('extrude-%d' % i, h_extrude, dim=1 + i % 2, spec=spec, key='abcud'[i//2 % 5], nf=int(i % 3 == 0))
    G = {1: [1], 2: [2, 2], 'w': [1, 3], 4: [4], 8: [1]*6, 'm': [2, 1, 1]}
    for i, (a, b, g1, g2) in enumerate([('l', 'l', [1], [1]), ('a', 'a', [1, 3], [1, 3]), ('a', 'l', [2, 2], [4]), ('a', 'b', [1, 3], [4]), ('a', 'd', [1, 3], [2, 2]), ('c', 'b', [2, 6], [8]), ('u', 'l', [1]*6, [3]), ('u', 'a', [1, 1, 1, 2, 1, 1], [1, 3]), ('a', 'd', [2, 2], [4, 4]), ('l', 'a', [2], [2, 6])]):
        for cell in range(3): yield Case('ruled-%s%s-%d-%d' % (a, b, i, cell), h_ruled, k1=a, k2=b, g1=g1, g2=g2, cell=cell)
    yield Case('ruled-volume', h_ruled2)
    for i, (k, t) in enumerate([('a', 'l'), ('a', 'b'), ('l', 'a'), ('u', 'd'), ('c', 'u'), ('surface', 'l'), ('surface', 'a'), ('d', 'c')]):
        for j in range(2): yield Case('sweep-%s%s-%d' % (k, t, j), h_sweep, kind=k, traj=t, j=j)
    KG = [('llll', [[1]]*4), ('lllb', [[1], [2], [1], [4]]), ('aalb', [[1, 3], [1, 3], [2], [4]]), ('abcd', [[2, 2], [4], [1, 3], [2, 2]]), ('bald', [[1], [1, 1], [2], [4, 4]])]
    for i, (k, g) in enumerate(KG):
        for side in range(4):
            for wts in ('one', 'fixed') if i != 1 else ('one', 'sym'):
                yield Case('coons-%s-%d-%s' % (k, side, wts), h_coons, keys=k, gaps=g, cell=i+side, side=side, wts=wts)
    for c in ('00', '10', '01', '11'): yield Case('coons-gap-' + c, h_coons_bad, what=c)
    for w in ('extrude', 'ruled', 'ruled3', 'sweep', 'sweep2', 'coons', 'bilinear', 'trilinear', 'linear'): yield Case('refused-' + w, h_dims, what=w)
