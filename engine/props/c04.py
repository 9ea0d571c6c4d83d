"""C04 Knot insertion never changes the represented map."""
from .common import *

BOUNDS = ('1-D: degree 1..3, clamped and unclamped structures with up to 2 interior breaks of any multiplicity <= p, all knot gaps, '
          'values within rounding of a knot, '
          'control points, weights and one field symbolic, inserted value anywhere in the domain; times 0..p+1 and None; '
          '2-D/3-D: every axis, fixed irregular rational knots, symbolic control net and inserted value; one-axis cases with fixed irregular knots up to degree 6, many breaks and up to 3-4 fields, symbolic net and parameter; a knot span as short as 2^-30 beside ones of ordinary length, values close to a break but above rounding (2^-30..2^-12 away)')
OUTSIDE = 'degree > 3 with symbolic knots, > 6 with fixed ones; more than 2 interior breaks; interior multiplicity p+1; floating-point rounding'

def run(A, Ks, axis, j, value, at, times, nf=0):
    K = Ks[axis]
    o, H = objn(A, Ks, nf=nf)
    p = K.p
    mult = 0 if at is None else min(K.mults[at], p)
    want = p - mult if times is None else times
    fn = lambda: o.insert(axis, value, times)
    if want + mult > p:
        A.refused('insert times=%s' % times, fn)
        want = 0
    else:
        r = fn()
        A.claim('insert returns the object', r is o)
    K1 = with_knot(K, j, value, at, want)
    A.claim('degree', o.degree == tuple(k.p for k in Ks))
    for d, k in enumerate(Ks):
        A.claim_eq('knots[%d]' % d, o.knots[d], vec((K1 if d == axis else k).U), tol=1e-12)
    shape = list(k.n+1 for k in Ks); shape[axis] = K1.n+1
    A.claim('shape', o.array.shape == tuple(shape)+(4+nf,))
    if o.array.shape == tuple(shape)+(4+nf,):
        same_curve(A, 'map', K, rows(H, axis), K1, rows(A.objs(o.array), axis))
        if len(Ks) == 1:
            for t, b in ((K.a, K.spans[0]), (K.b, K.spans[-1])):
                h = ref.homog_eval([K.U], [p], [b[0]], [t], H)
                A.claim_eq('value at an end', o(t), vec([h[c]/h[3] for c in range(3)]))

def h1(A, p, mults, j, times, nf, right=False):
    K, v, at = pick(A, mks(A, p, mults), j, right)
    run(A, [K], 0, j, v, at, times, nf)

def hn(A, degs, mults, axis, j, times, nf, right=False):
    Ks = [mkc(A, p, m, i, 'U%d' % i)(()) if i != axis else None for i, (p, m) in enumerate(zip(degs, mults))]
    Ks[axis], v, at = pick(A, mkc(A, degs[axis], mults[axis], axis, 'U%d' % axis), j, right)
    run(A, Ks, axis, j, v, at, times, nf)

def h_near(A, p, mults, j, times):
    """A value within rounding of a knot counts as that knot."""
    K = knots_at_zero(A, p, mults, j)
    run(A, [K], 0, j, near(A, K, j), j, times)

def h_close(A, p, mults, j, side, times):
    """A value close to a break, but not within rounding of it, is a new knot."""
    K = A.knots(p, mults, sites=(j,), tiny=[('g', j) if side else ('a', j, 0)])
    run(A, [K], 0, j, K.site[j], None, times)

def h_tiny(A, p, mults, g, j, times):
    """A tiny knot span."""
    K = A.knots(p, mults, sites=(j,), tiny=[('g', g)])
    run(A, [K], 0, j, K.site[j], None, times)

def cases(tier):
    thorough = tier == 'thorough'
    for p in (1, 2, 3):
        for mults in CLAMPED[p] + UNCLAMPED[p]:
            gs = inner_gaps(p, mults)
            for j in gs:
                for times in [1, None] + list(range(2, p+1)) + [0]:
                    if p == 3 and times not in (1, None) and not thorough: continue
                    yield Case('p%d-%s-gap%d-x%s' % (p, ''.join(map(str, mults)), j, times), h1, p=p, mults=mults, j=j, times=times,
                               nf=1 if p == 2 else 0)
            K = Knots(p, [0]*len(mults), mults)
            for j in range(K.lo, K.hi+1):
                yield Case('near-p%d-%s-b%d' % (p, ''.join(map(str, mults)), j), h_near, p=p, mults=mults, j=j, times=1 if min(p, K.mults[j]) < p else 0)
                yield Case('near-p%d-%s-b%d-xNone' % (p, ''.join(map(str, mults)), j), h_near, p=p, mults=mults, j=j, times=None)
                yield Case('near-p%d-%s-b%d-over' % (p, ''.join(map(str, mults)), j), h_near, p=p, mults=mults, j=j, times=p+1-min(p, K.mults[j]))
            for j in gs:
                for side in (0, 1):
                    yield Case('close-p%d-%s-%d-%d' % (p, ''.join(map(str, mults)), j, side), h_close, p=p, mults=mults, j=j, side=side, times=1 + (j+side) % p)
                if len(gs) > 1: yield Case('tiny-p%d-%s-%d' % (p, ''.join(map(str, mults)), j), h_tiny, p=p, mults=mults, g=gs[0] if j != gs[0] else gs[-1], j=j, times=1)
            yield Case('p%d-%s-right-x1' % (p, ''.join(map(str, mults))), h1, p=p, mults=mults, j=gs[-1], times=1, nf=0, right=True)
    for p, mults in BIG:
        for j in inner_gaps(p, mults)[::1 if thorough else 2]:
            for times in (1, 2, None) if p > 1 else (1,):
                yield Case('big-p%d-%s-gap%d-x%s' % (p, ''.join(map(str, mults)), j, times), hn, degs=(p,), mults=(mults,), axis=0, j=j, times=times, nf=3 if times == 1 else 0)
    ND = [((2, 2), ([3, 1, 3], [3, 3])), ((1, 3), ([2, 2], [4, 2, 4])), ((3, 2), ([4, 4], [1]*7)),
          ((2, 1, 2), ([3, 3], [2, 1, 2], [3, 1, 3])), ((1, 2, 1), ([2, 1, 2], [3, 3], [2, 2]))]
    for degs, ms in ND:
        for axis in range(len(degs)):
            gs = inner_gaps(degs[axis], ms[axis])
            for j in gs:
                for times in sorted({1, degs[axis]}):
                    yield Case('%dd-%s-axis%d-gap%d-x%d' % (len(degs), ''.join(map(str, degs)), axis, j, times), hn,
                               degs=degs, mults=ms, axis=axis, j=j, times=times, nf=axis % 2)
