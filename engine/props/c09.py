"""C09 Slices, extractions and boundaries are exact restrictions."""
from .common import *

BOUNDS = ('1-D: degree 1..3, clamped and unclamped structures with up to 3 domain spans, all knots, both parameters (any pair of places: inside spans, '
          'within rounding of a break, '
          'at breaks, at the ends, None), control points, weights and a field symbolic; 2-D/3-D along every axis with fixed knots and symbolic parameters and nets; one-axis cases with fixed irregular knots up to degree 6, many breaks and up to 3-4 fields, symbolic net and parameter; a knot span as short as 2^-30 beside ones of ordinary length, values close to a break but above rounding (2^-30..2^-12 away)')
OUTSIDE = 'degree > 3 with symbolic knots, > 6 with fixed ones; more than 3 domain spans; floating-point rounding'

def sliced(K, l0, l1):
    """Knots of the slice [l0, l1] (locations of K), clamped, interior knots kept."""
    v0, v1 = where(K, l0)[0], where(K, l1)[0]
    g0 = l0[1] if l0[0] == 'b' else l0[0]
    br, mu, par = [v0], [K.p+1], [g0]
    for j in range(K.lo+1, K.hi):
        if j <= g0 or l1[0] == 'b' and j >= l1[1] or l1[0] not in ('b', 'e') and j > l1[0]: continue
        br.append(K.breaks[j]); mu.append(K.mults[j]); par.append(j)
    br.append(v1); mu.append(K.p+1); par.append(None)
    K1 = Knots(K.p, br, mu)
    K1.parent = par
    return K1

def h_slice(A, mks, axis, l0, l1, nones, nf, typ=False):
    locs = [l for l in (l0, l1) if l[0] not in ('b', 'e')]
    Ks = [mk(loc_sites(locs) if d == axis else ()) for d, mk in enumerate(mks)]
    K = Ks[axis]
    o, H = objn(A, Ks, nf=nf)
    v0, v1 = where(K, l0)[0], where(K, l1)[0]
    s = o.slice(axis, None if nones & 1 else v0, None if nones & 2 else v1)
    K1 = sliced(K, l0, l1)
    A.claim('slice is a NURBS of the same kind', type(s) is type(o) and s is not o)
    for d, k in enumerate(Ks): A.claim_eq('knots[%d]' % d, s.knots[d], vec((K1 if d == axis else k).U), tol=1e-12)
    shape = tuple((K1 if d == axis else k).n+1 for d, k in enumerate(Ks)) + (4+nf,)
    A.claim('shape', tuple(s.array.shape) == shape)
    if tuple(s.array.shape) == shape:
        same_curve(A, 'slice', K, rows(H, axis), K1, rows(A.objs(s.array), axis))
    A.claim_eq('the original is untouched', o.array, H)

def h_extract(A, mks, axis, loc, side, nf):
    locs = [loc] if loc[0] not in ('b', 'e') else []
    Ks = [mk(loc_sites(locs) if d == axis else ()) for d, mk in enumerate(mks)]
    K = Ks[axis]
    o, H = objn(A, Ks, nf=nf)
    v, k = where(K, loc)
    x = o.extract(axis, v) if side is None else o.boundary(axis, side)
    want = vec(comb(ref.span_basis(K.U, K.p, k, v), rows(H, axis)))
    shape = tuple(k_.n+1 for d, k_ in enumerate(Ks) if d != axis) + (4+nf,)
    A.claim('dimension', x.dim == len(Ks)-1 and len(x.knots) == len(Ks)-1)
    A.claim('shape', tuple(x.array.shape) == shape)
    if tuple(x.array.shape) == shape: A.claim_eq('control net', A.objs(x.array).ravel(), want, tol=1e-11)
    for d, k_ in zip(range(len(Ks)-1), [q for e, q in enumerate(Ks) if e != axis]): A.claim_eq('knots[%d]' % d, x.knots[d], vec(k_.U))
    A.claim_eq('the original is untouched', o.array, H)

def near_zero(A, p, mults, j, what):
    """Parameters within rounding of a knot count as that knot."""
    K = knots_at_zero(A, p, mults, j)
    o, H = objn(A, [K])
    v = near(A, K, j)
    if what == 'extract':
        x = o.extract(0, v)
        A.claim_eq('control point', A.objs(x.array).ravel(), vec(comb(ref.span_basis(K.U, p, where(K, ('b', j))[1], K.breaks[j]), rows(H, 0))))
        return
    l0, l1 = (('b', j), ('e',)) if what == 'from' else (('b', K.lo), ('b', j))
    s = o.slice(0, *((v, K.b) if what == 'from' else (K.a, v)))
    K1 = sliced(K, l0, l1)
    A.claim_eq('knots', s.knots[0], vec(K1.U))
    A.claim('shape', tuple(s.array.shape) == (K1.n+1, 4))
    if tuple(s.array.shape) == (K1.n+1, 4): same_curve(A, 'slice', K, rows(H, 0), K1, rows(A.objs(s.array), 0))

def h_close(A, p, mults, j, side, what):
    """Parameters close to a break, but not within rounding of it, are not that break."""
    mk = lambda sites: A.knots(p, mults, sites=sites, tiny=[('g', j) if side else ('a', j, 0)])
    K0 = Knots(p, [0]*len(mults), mults)
    if what == 'extract': h_extract(A, [mk], 0, (j, 0), None, 1)
    else: h_slice(A, [mk], 0, *(((j, 0), ('e',)) if what == 'from' else (('b', K0.lo), (j, 0))), nones=0, nf=0)

def w1(A, p, mults, h, **kw): h(A, [mks(A, p, mults)], 0, **kw)
def wn(A, degs, mults, axis, h, **kw):
    h(A, [mkc(A, p, m, i, 'U%d' % i) for i, (p, m) in enumerate(zip(degs, mults))], axis, **kw)

def places(K):
    out = []
    for j in range(K.lo, K.hi):
        out.append(('b', j)); out.append((j, 0))
    return out + [('e',)]

def pos(l): return (10**6,) if l[0] == 'e' else (l[1], -1) if l[0] == 'b' else l

S = {1: CLAMPED[1] + UNCLAMPED[1] + [[1, 1, 1, 1, 1]], 2: CLAMPED[2] + UNCLAMPED[2] + [[3, 2, 1, 3], [2, 1, 1, 2]], 3: CLAMPED[3] + UNCLAMPED[3] + [[4, 1, 2, 4]]}
ND = [((2, 2), ([3, 1, 3], [3, 3])), ((1, 3), ([2, 1, 2], [4, 2, 4])), ((3, 2), ([4, 4], [1]*7)),
      ((2, 1, 2), ([3, 3], [2, 1, 2], [3, 1, 3])), ((1, 2, 1), ([2, 1, 2], [1]*6, [2, 2]))]

def pairs(K):
    P = places(K)
    out = [(a, b) for i, a in enumerate(P) for b in P[i+1:]]
    out += [((j, 0), (j, 1)) for j in range(K.lo, K.hi)]
    return out

def cases(tier):
    thorough = tier == 'thorough'
    for p in S:
        for m in S[p]:
            if not valid(p, m): continue
            K = Knots(p, [0]*len(m), m)
            s = ''.join(map(str, m))
            for i, (a, b) in enumerate(pairs(K)):
                nones = (a == ('b', K.lo)) * (i % 2) + 2*(b == ('e',))*(i % 2)
                yield Case('slice-p%d-%s-%d' % (p, s, i), w1, p=p, mults=m, h=h_slice, l0=a, l1=b, nones=nones, nf=i % 2)
            for i, a in enumerate(places(K)):
                yield Case('extract-p%d-%s-%d' % (p, s, i), w1, p=p, mults=m, h=h_extract, loc=a, side=None, nf=i % 2)
            for j in range(K.lo, K.hi+1):
                for w in ('extract', 'from', 'to'):
                    if (w, j) in (('from', K.hi), ('to', K.lo)): continue
                    yield Case('near-%s-p%d-%s-%d' % (w, p, s, j), near_zero, p=p, mults=m, j=j, what=w)
            for j in inner_gaps(p, m):
                for side in (0, 1):
                    for w in ('extract', 'from', 'to'): yield Case('close-%s-p%d-%s-%d-%d' % (w, p, s, j, side), h_close, p=p, mults=m, j=j, side=side, what=w)
            for side in (0, 1):
                yield Case('boundary-p%d-%s-%d' % (p, s, side), w1, p=p, mults=m, h=h_extract, loc=[('b', K.lo), ('e',)][side], side=side, nf=1)
    for p, m in BIG:
        K = Knots(p, [0]*len(m), m)
        nm = 'p%d-%s' % (p, ''.join(map(str, m)))
        for i, (a, b) in enumerate(pairs(K)):
            if i % (2 if thorough else 7) and (a, b) != (('b', K.lo), ('e',)): continue
            yield Case('big-slice-%s-%d' % (nm, i), wn, degs=(p,), mults=(m,), axis=0, h=h_slice, l0=a, l1=b, nones=0, nf=3*(i % 2))
        for i, a in enumerate(places(K)):
            if i % 2 and not thorough: continue
            yield Case('big-extract-%s-%d' % (nm, i), wn, degs=(p,), mults=(m,), axis=0, h=h_extract, loc=a, side=None, nf=3*(i % 2))
        for side in (0, 1):
            yield Case('big-boundary-%s-%d' % (nm, side), wn, degs=(p,), mults=(m,), axis=0, h=h_extract, loc=[('b', K.lo), ('e',)][side], side=side, nf=1)
    for degs, ms in ND:
        for axis in range(len(degs)):
            K = Knots(degs[axis], [0]*len(ms[axis]), ms[axis])
            nm = '%dd-%s-axis%d' % (len(degs), ''.join(map(str, degs)), axis)
            for i, (a, b) in enumerate(pairs(K)):
                if i % 3 and not thorough: continue
                yield Case('slice-%s-%d' % (nm, i), wn, degs=degs, mults=ms, axis=axis, h=h_slice, l0=a, l1=b, nones=0, nf=i % 2)
            for i, a in enumerate(places(K)):
                yield Case('extract-%s-%d' % (nm, i), wn, degs=degs, mults=ms, axis=axis, h=h_extract, loc=a, side=None, nf=i % 2)
            for side in (0, 1):
                yield Case('boundary-%s-%d' % (nm, side), wn, degs=degs, mults=ms, axis=axis, h=h_extract, loc=[('b', K.lo), ('e',)][side], side=side, nf=0)
