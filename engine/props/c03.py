"""C03 Knot structure queries agree with the knot vector."""
from .common import *

BOUNDS = ('degree 1..7, clamped/unclamped structures with up to 5 interior breaks of any multiplicity <= p, all gaps symbolic, '
          'parameter anywhere (inside each gap, at each break, at the right end); a knot span as short as 2^-30 beside ones of ordinary length, values close to a break but above rounding (2^-30..2^-12 away)')
OUTSIDE = 'degree > 7; knot vectors whose first or last domain span is empty (U[p]=U[p+1]); floating-point rounding'

S = {1: [[2, 1, 1, 1, 1, 2], [1]*6], 2: [[3, 2, 1, 1, 2, 3], [1]*8, [1, 2, 1, 2, 1, 2, 1, 2]], 3: [[4, 1, 3, 2, 1, 4], [1]*10, [2, 2, 1, 3, 1, 2, 2]],
     4: [[5, 4, 2, 5], [5, 1, 1, 1, 1, 1, 5], [1]*11], 5: [[6, 1, 5, 2, 6], [1]*13], 6: [[7, 3, 1, 7], [1, 2, 4, 3, 1, 2, 4]], 7: [[8, 8], [8, 7, 1, 8]]}

def locations(p, mults):
    K = Knots(p, [0]*len(mults), mults)
    ls = []
    for k, j in K.spans: ls += [('b', j), (j, 0)]
    return ls + [('e',)]

def span(A, p, mults, loc, tiny=()):
    K = A.knots(p, mults, sites=loc_sites([loc]), tiny=tiny)
    t, k = where(K, loc)
    U = A.arr(K.U)
    j = None if loc[0] not in ('b', 'e') else (K.hi if loc[0] == 'e' else loc[1])
    m = 0 if j is None else K.mults[j]
    A.claim('FindSpan', int(A.bsp.FindSpan(p, U, t)) == k)
    A.claim('FindMult', int(A.bsp.FindMult(p, U, t)) == m)
    A.claim('FindMult given the span', int(A.bsp.FindMult(p, U, t, k)) == m)
    s, mm = A.bsp.FindSpanMult(p, U, t)
    A.claim('FindSpanMult', int(s) == k and int(mm) == m)

def queries(A, p, mults, axis, dim, tiny=()):
    Ks = [A.cknots(1, [2, 1, 2] if i % 2 else [2, 2], seed=i, name='V%d' % i) for i in range(dim)]
    Ks[axis] = K = A.knots(p, mults, tiny=tiny)
    U = A.arr(K.U)
    A.claim_eq('SpanIndex', A.bsp.SpanIndex(p, U), np.array([k for k, j in K.spans], dtype=object))
    g = []
    for i in range(K.n+1):
        s = K.U[i+1]
        for q in range(2, p+1): s = s + K.U[i+q]
        g.append(s/p)
    A.claim_eq('bsp.Greville', A.bsp.Greville(p, U), vec(g))
    A.claim_eq('iga.Greville', A.iga.Greville(p, U), vec(g))
    o, H = objn(A, Ks, sym=False)
    A.claim_eq('spans', o.spans(axis), np.array([k for k, j in K.spans], dtype=object))
    A.claim_eq('spans(negative axis)', o.spans(axis-dim), np.array([k for k, j in K.spans], dtype=object))
    br = [K.breaks[j] for j in range(K.lo, K.hi+1)]
    A.claim_eq('breaks', o.breaks(axis), vec(br))
    u, s = o.breaks(axis, mults=True)
    A.claim_eq('breaks with multiplicities', u, vec(br))
    A.claim_eq('multiplicities', s, np.array([min(K.mults[j], p) for j in range(K.lo, K.hi+1)], dtype=object))
    gv = A.objs(o.greville(axis))
    A.claim_eq('greville', gv, vec(g))
    for i in range(K.n): A.claim_le('greville %d sorted' % i, gv[i], gv[i+1])
    A.claim_le('greville from', K.U[0], gv[0]); A.claim_le('greville to', gv[K.n], K.U[-1])
    allsp, allbr, allgr = o.spans(), o.breaks(), o.greville()
    A.claim('one entry per axis', len(allsp) == dim and len(allbr) == dim and len(allgr) == dim)
    for d in range(dim):
        A.claim_eq('spans()', allsp[d], o.spans(d)); A.claim_eq('breaks()', allbr[d], o.breaks(d)); A.claim_eq('greville()', allgr[d], o.greville(d))
    A.claim('degree', o.degree == tuple(k.p for k in Ks))
    A.claim('shape', o.shape == tuple(k.n+1 for k in Ks))

def cases(tier):
    for p in S:
        for m in S[p] + CLAMPED.get(p, []) + UNCLAMPED.get(p, []):
            nm = 'p%d-%s' % (p, ''.join(map(str, m)))
            for l in locations(p, m): yield Case('span-%s-%s' % (nm, ''.join(map(str, l))), span, p=p, mults=m, loc=l)
            yield Case('queries-%s' % nm, queries, p=p, mults=m, axis=0, dim=1)
        for q, m, g in TINY:
            if q != p: continue
            nm = 'tiny-p%d-%s-%d' % (p, ''.join(map(str, m)), g)
            for l in locations(p, m):
                if l[0] in ('b', 'e') or l[0] != g: yield Case('span-%s-%s' % (nm, ''.join(map(str, l))), span, p=p, mults=m, loc=l, tiny=[('g', g)])
                else:
                    for t in (('g', g), ('a', g, 0)): yield Case('span-%s-%s-%s' % (nm, ''.join(map(str, l)), t[0]), span, p=p, mults=m, loc=l, tiny=[t])
            yield Case('queries-%s' % nm, queries, p=p, mults=m, axis=0, dim=1, tiny=[('g', g)])
        yield Case('queries-2d-p%d' % p, queries, p=p, mults=S[p][0], axis=1, dim=2)
        yield Case('queries-3d-p%d' % p, queries, p=p, mults=S[p][1], axis=p % 3, dim=3)
