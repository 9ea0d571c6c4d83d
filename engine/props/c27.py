"""C27 Interpolation abscissae subdivide every span correctly."""
from .common import *

BOUNDS = ('degree 1..9 (every rule size), clamped, half-clamped and unclamped structures with up to 5 interior breaks of any multiplicity <= p, symbolic knots; 1-3 dimensions, one axis, all axes')
OUTSIDE = 'degree above 9 (no Gauss-Lobatto rule of that size is offered)'

def expected(A, K, nodes):
    out = []
    for j in range(K.lo, K.hi):
        a, b = K.breaks[j], K.breaks[j+1]
        out += [a+(b-a)*x for x in nodes[:-1]]
    return out + [K.breaks[K.hi]]

def nodes(A, p, lob):
    if p == 1: return [A.num(0), A.num(1)]
    if not lob: return [A.num(Fraction(k, p)) for k in range(p+1)]
    x = list(A.objs(A.iga.GaussLobattoRule(p+1)[0]))
    n = [(1+t)/2 for t in x]
    n[0], n[-1] = A.num(0), A.num(1)
    return n

def check(A, what, u, K, lob):
    A.claim_eq(what, u, vec(expected(A, K, nodes(A, K.p, lob))))
    v = list(A.objs(u))
    for i in range(len(v)-1): A.claim_lt(what+' increasing', v[i], v[i+1])

def curve(A, p, mults):
    K = A.knots(p, mults)
    o = A.NURBS([A.arr(K.U)], A.arr([[i, i*i % 5] for i in range(K.n+1)]))
    check(A, 'lagrange', o.lagrange(0), K, 0)
    check(A, 'lobatto', o.lobatto(0), K, 1)
    A.claim_eq('all axes', o.lagrange()[0], o.lagrange(0))
    A.claim_eq('all axes', o.lobatto()[0], o.lobatto(0))
    A.claim_eq('last axis', o.lobatto(-1), o.lobatto(0))
    A.claim_eq('last axis', o.lagrange(-1), o.lagrange(0))

def many(A, ps, ms):
    Ks = [A.knots(p, m, name='V%d' % i, start=i) for i, (p, m) in enumerate(zip(ps, ms))]
    o, H = objn(A, Ks, sym=False)
    la, lo = o.lagrange(), o.lobatto()
    A.claim('one array per axis', len(la) == len(Ks) and len(lo) == len(Ks))
    for i, K in enumerate(Ks):
        for x in (i, i-len(Ks)):
            check(A, 'lagrange of axis %d' % x, o.lagrange(x), K, 0)
            check(A, 'lobatto of axis %d' % x, o.lobatto(x), K, 1)
        A.claim_eq('lagrange of all, %d' % i, la[i], o.lagrange(i))
        A.claim_eq('lobatto of all, %d' % i, lo[i], o.lobatto(i))

BIG = {1: [[2, 1, 1, 1, 1, 2], [1]*6], 2: [[3, 2, 1, 1, 2, 3], [1]*8], 3: [[4, 1, 3, 2, 1, 4], [1]*10, [2, 2, 1, 3, 1, 2, 2]]}

def cases(tier):
    for p in range(1, 10):
        ms = (CLAMPED[p] + UNCLAMPED[p] + BIG[p]) if p <= 3 else [[p+1, p+1], [p+1, 1, p, p+1], [1]*(2*p+3), [p+1]+[1]*(p+1)]
        for m in ms: yield Case('curve-p%d-%s' % (p, ''.join(map(str, m))), curve, p=p, mults=m)
    for ps, ms in (((1, 2), ([2, 1, 2], [3, 2, 3])), ((3, 2), ([1]*8, [3, 3])), ((2, 4), ([3, 1, 3], [5, 5])), ((3, 1, 2), ([4, 4], [2, 1, 1, 2], [3, 1, 3])), ((2, 3, 2), ([1]*6, [4, 1, 4], [3, 3])), ((1, 1, 1), ([2, 2], [2, 1, 2], [1]*4))):
        yield Case('many-%s' % ''.join(map(str, ps)), many, ps=ps, ms=ms)
