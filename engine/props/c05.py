"""C05 Knot refinement never changes the represented map."""
from .common import *

BOUNDS = ('1-D: degree 1..3, clamped and unclamped structures with up to 2 interior breaks, all knot gaps, control points, weights '
          'and one field symbolic; values within rounding of a knot; lists of 1..4 values in any order, inside gaps, at breaks, repeated, at the domain ends; '
          '2-D/3-D: every axis with fixed irregular rational knots, symbolic control net and values; one-axis cases with fixed irregular knots up to degree 6, many breaks and up to 3-4 fields, symbolic net and parameter; a knot span as short as 2^-30 beside ones of ordinary length, values close to a break but above rounding (2^-30..2^-12 away)')
OUTSIDE = 'degree > 3 with symbolic knots, > 6 with fixed ones; more than 4 values at once; interior multiplicity p+1; floating-point rounding'

def run(A, Ks, axis, adds, nf=0, seq=False, form='list', vals=None):
    K = Ks[axis]
    o, H = objn(A, Ks, nf=nf)
    if vals is None: vals = [value_of(K, k) for k in adds]
    arg = vals if form == 'list' else A.arr(vec(vals)) if form == 'array' else vals[0]
    if seq: o2 = o.copy()
    if not admissible(K, adds):
        A.refused('refine', lambda: o.refine(axis, arg))
        adds = []
    else:
        r = o.refine(axis, arg)
        A.claim('refine returns the object', r is o)
    K1 = with_knots(K, adds)
    A.claim('degree', o.degree == tuple(k.p for k in Ks))
    for d, k in enumerate(Ks):
        A.claim_eq('knots[%d]' % d, o.knots[d], vec((K1 if d == axis else k).U), tol=1e-12)
    shape = list(k.n+1 for k in Ks); shape[axis] = K1.n+1
    A.claim('shape', o.array.shape == tuple(shape)+(4+nf,))
    if o.array.shape == tuple(shape)+(4+nf,):
        same_curve(A, 'map', K, rows(H, axis), K1, rows(A.objs(o.array), axis))
    if seq and adds:
        for v in vals: o2.insert(axis, v, 1)
        A.claim_eq('one at a time: knots', o2.knots[axis], o.knots[axis])
        A.claim_eq('one at a time: net', o2.array, o.array)

def h1(A, p, mults, adds, nf=0, seq=False, form='list'):
    run(A, [A.knots(p, mults, sites=sites_of(adds))], 0, adds, nf, seq, form)

def hn(A, degs, mults, axis, adds, nf):
    Ks = [A.cknots(p, m, seed=i, name='U%d' % i, sites=sites_of(adds) if i == axis else ()) for i, (p, m) in enumerate(zip(degs, mults))]
    run(A, Ks, axis, adds, nf)

def h_near(A, p, mults, j, r):
    """Values within rounding of a knot (and of each other) count as that knot."""
    K = knots_at_zero(A, p, mults, j)
    run(A, [K], 0, [('b', j)]*r, vals=[near(A, K, j, 'd%d' % i) for i in range(r)])

def h_close(A, p, mults, j, where_):
    """Values close to a break or to each other, but not within rounding, are distinct knots."""
    t = {0: [('a', j, 0)], 1: [('g', j)], 2: [('a', j, 1)], 3: [('a', j, 0), ('a', j, 1)]}[where_]
    adds = [(j, 0)]*min(2, p) if where_ < 2 else [(j, 1), (j, 0)]
    if where_ == 3: adds = [(j, 0), (j, 1)]
    run(A, [A.knots(p, mults, sites=sites_of(adds), tiny=t)], 0, adds)

def lists(p, mults):
    K = Knots(p, [0]*len(mults), mults)
    lo, hi = K.lo, K.hi
    g, l = lo, hi-1
    out = [[(g, 0)], [(l, 0), (g, 0)] if g != l else [(g, 1), (g, 0)],
           [(l, 0)]*min(2, p) + [(g, 0)] if g != l else [(g, 0)]*p,
           [(l, 1), (g, 0), (l, 0)],
           [('b', lo)], [('b', hi)], [('b', hi), (g, 0), ('b', lo)],
           [(g, 0)]*(p+1)]
    for j in range(lo+1, hi):
        out.append([('b', j)])
        if p - mults[j] >= 2: out.append([('b', j)]*2)
        out.append([(l, 0), ('b', j), (g, 0)])
    for j in (lo, hi):
        r = p - mults[j]
        if r >= 2: out.append([('b', j)]*r)
    return out

def cases(tier):
    thorough = tier == 'thorough'
    for p in (1, 2, 3):
        for mults in CLAMPED[p] + UNCLAMPED[p]:
            K = Knots(p, [0]*len(mults), mults)
            for j in range(K.lo, K.hi+1):
                for r in (1, 2): yield Case('near-p%d-%s-b%d-%d' % (p, ''.join(map(str, mults)), j, r), h_near, p=p, mults=mults, j=j, r=r)
            for j in inner_gaps(p, mults):
                for w in range(4): yield Case('close-p%d-%s-%d-%d' % (p, ''.join(map(str, mults)), j, w), h_close, p=p, mults=mults, j=j, where_=w)
            for i, adds in enumerate(lists(p, mults)):
                if p == 3 and len(adds) > 2 and not thorough and mults[0] == 1: continue
                yield Case('p%d-%s-%s' % (p, ''.join(map(str, mults)), i), h1, p=p, mults=mults, adds=adds, nf=1 if p == 2 else 0,
                           seq=p < 3 and len(adds) < 3, form=('list', 'array')[i % 2])
    yield Case('scalar', h1, p=2, mults=[3, 1, 3], adds=[(0, 0)], form='scalar')
    for p, mults in BIG:
        for i, adds in enumerate(lists(p, mults)):
            if i % 2 and not thorough: continue
            yield Case('big-p%d-%s-%d' % (p, ''.join(map(str, mults)), i), hn, degs=(p,), mults=(mults,), axis=0, adds=adds, nf=i % 4)
    ND = [((2, 2), ([3, 1, 3], [3, 3])), ((1, 3), ([2, 2], [4, 2, 4])), ((3, 2), ([4, 4], [1]*7)),
          ((2, 1, 2), ([3, 3], [2, 1, 2], [3, 1, 3])), ((1, 2, 1), ([2, 1, 2], [3, 3], [2, 2]))]
    for degs, ms in ND:
        for axis in range(len(degs)):
            for i, adds in enumerate(lists(degs[axis], ms[axis])):
                if i % 2 == axis % 2 and not thorough: continue
                yield Case('%dd-%s-axis%d-%d' % (len(degs), ''.join(map(str, degs)), axis, i), hn,
                           degs=degs, mults=ms, axis=axis, adds=adds, nf=axis % 2)
