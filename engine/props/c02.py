"""C02 B-spline basis functions and their derivatives are correct."""
from .common import *

BOUNDS = ('degree 1..5 (values), 1..4 (derivatives of every order 0..p) with all knots of the support symbolic; clamped, unclamped and '
          'repeated interior knots; BasisData: degree 1..3, 1..4 quadrature points (10 in one case); BasisDataCol: points anywhere')
OUTSIDE = 'degree > 5; floating-point rounding'

def ders(K, k, t, nd):
    """[i][order] exact derivatives of the non-zero basis functions."""
    N = ref.span_basis(K.U, K.p, k, ref.Jet.var(t, 0, 1, nd))
    out = []
    for i in range(k-K.p, k+1):
        x = N.get(i, 0)
        out.append([(x.deriv((d,)) if isinstance(x, ref.Jet) else (x if d == 0 else 0)) for d in range(nd+1)])
    return out

def funs(A, p, mults, loc, span, sym=True):
    K = (A.knots if sym else A.cknots)(p, mults, sites=loc_sites([loc]))
    t, k = where(K, loc)
    U = A.arr(K.U)
    N = A.bsp.EvalBasisFuns(p, U, t, k) if span else A.bsp.EvalBasisFuns(p, U, t)
    e = ders(K, k, t, 0)
    A.claim_eq('basis', N, vec([x[0] for x in e]))
    n = A.objs(N)
    A.claim_eq('sum', sum(n[i] for i in range(p+1)), 1)
    if not sym or p < 3 or p == 3 and mults[0] > 1:
        for i in range(p+1): A.claim_le('basis %d non-negative' % i, 0, n[i])

def dfuns(A, p, mults, loc, d, span):
    K = A.knots(p, mults, sites=loc_sites([loc]))
    t, k = where(K, loc)
    U = A.arr(K.U)
    kw = {}
    if span: kw['span'] = k
    if d is not None: kw['d'] = d
    D = A.bsp.EvalBasisFunsDers(p, U, t, **kw)
    nd = p if d is None else d
    e = ders(K, k, t, nd)
    E = np.array([[e[i][o] for i in range(p+1)] for o in range(nd+1)], dtype=object)
    A.claim_eq('derivatives', D, E)
    D = A.objs(D)
    for o in range(nd+1):
        A.claim_eq('sum of order %d' % o, sum(D[o, i] for i in range(p+1)), 1 if o == 0 else 0)

def data(A, p, mults, d, q, sym):
    K = A.knots(p, mults) if sym else A.cknots(p, mults, seed=3)
    kw = {}
    if d is not None: kw['d'] = d
    if q is not None: kw['q'] = q
    O, J, W, X, N = A.iga.BasisData(p, A.arr(K.U), **kw)
    d = p if d is None else d
    q = p+1 if q is None else q
    x, w = A.iga.GaussLegendreRule(q)
    x, w = A.objs(x), A.objs(w)
    A.claim_eq('offsets', O, np.array([k-p for k, j in K.spans], dtype=object))
    A.claim_eq('weights', W, w)
    A.claim('shape', A.shape(N) == (len(K.spans), q, p+1, d+1))
    eJ, eX = [], []
    eN = np.empty((len(K.spans), q, p+1, d+1), dtype=object)
    for r, (k, j) in enumerate(K.spans):
        h = (K.breaks[j+1]-K.breaks[j])/2
        eJ.append(h)
        row = []
        for i in range(q):
            t = K.breaks[j] + h*(x[i]+1)
            row.append(t)
            D = ders(K, k, t, d)
            for b in range(p+1):
                for o in range(d+1): eN[r, i, b, o] = D[b][o]
        eX.append(row)
    A.claim_eq('jacobians', J, vec(eJ))
    A.claim_eq('points', X, np.array(eX, dtype=object))
    A.claim_eq('values', N, eN)

def col(A, p, mults, locs, d):
    K = A.knots(p, mults, sites=loc_sites(locs))
    pts = [where(K, l) for l in locs]
    kw = {} if d is None else dict(d=d)
    O, N = A.iga.BasisDataCol(p, A.arr(K.U), A.arr(vec([t for t, k in pts])), **kw)
    d = p if d is None else d
    A.claim_eq('offsets', O, np.array([k-p for t, k in pts], dtype=object))
    eN = np.empty((len(pts), p+1, d+1), dtype=object)
    for r, (t, k) in enumerate(pts):
        D = ders(K, k, t, d)
        for b in range(p+1):
            for o in range(d+1): eN[r, b, o] = D[b][o]
    A.claim_eq('values', N, eN)

def locations(p, mults):
    K = Knots(p, [0]*len(mults), mults)
    ls = []
    for k, j in K.spans: ls += [('b', j), (j, 0)]
    return ls + [('e',)]

S = {1: [[2, 1, 2], [1]*5], 2: [[3, 3], [3, 1, 2, 3], [1]*7], 3: [[4, 4], [4, 2, 1, 4], [1]*8, [4, 3, 4]], 4: [[5, 5], [5, 1, 5], [5, 3, 5]], 5: [[6, 6], [6, 2, 6], [1]*12]}

def cases(tier):
    n = 0
    for p in (1, 2, 3, 4, 5):
        for mults in S[p]:
            for l in locations(p, mults):
                n += 1
                nm = 'p%d-%s-%s' % (p, ''.join(map(str, mults)), ''.join(map(str, l)))
                yield Case('N-' + nm, funs, p=p, mults=mults, loc=l, span=n % 2 == 0)
                if p > 2: yield Case('C-' + nm, funs, p=p, mults=mults, loc=l, span=n % 2 == 1, sym=False)
                if p <= 3 or (p == 4 and (l[0] != 'b' or tier == 'thorough')):
                    yield Case('D-' + nm, dfuns, p=p, mults=mults, loc=l, d=[None, p, max(0, p-1), 0][n % 4], span=n % 3 == 0)
    for p, m, d, q, s in [(1, [2, 1, 2], None, None, 1), (1, [2, 2], 0, 1, 1), (2, [3, 1, 3], None, None, 1), (2, [3, 2, 3], 1, 2, 1), (2, [1]*7, None, 3, 1),
                       (3, [4, 4], None, None, 1), (3, [4, 2, 1, 4], 2, 2, 0), (3, [4, 1, 4], 1, 4, 1), (3, [4, 3, 1, 4], None, None, 0), (2, [3, 2, 1, 3], 2, 10, 0), (4, [5, 1, 5], None, 3, 0)]:
        yield Case('data-p%d-%s-d%s-q%s' % (p, ''.join(map(str, m)), d, q), data, p=p, mults=m, d=d, q=q, sym=bool(s))
    for p, m in [(1, [2, 1, 2]), (2, [3, 1, 2, 3]), (3, [4, 2, 4]), (2, [1]*7)]:
        ls = locations(p, m)
        for d in (None, 0, 1):
            yield Case('col-p%d-%s-d%s' % (p, ''.join(map(str, m)), d), col, p=p, mults=m, locs=ls, d=d)
        for nm, l in (('rev', ls[::-1]), ('mix', ls[::2][::-1] + ls[1::2] + ls[:1])):
            yield Case('col-%s-p%d-%s' % (nm, p, ''.join(map(str, m))), col, p=p, mults=m, locs=l, d=1)
