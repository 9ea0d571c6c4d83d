"""C06 Degree elevation never changes the represented map."""
from .common import *

BOUNDS = ('1-D: degree 1..4 raised by 1..3, structures with up to 3 interior breaks of any multiplicity <= p, all knot gaps, control '
          'points, weights and one field symbolic; 2-D/3-D: every axis with fixed irregular rational knots, symbolic net; one-axis cases with fixed irregular knots up to degree 6, many breaks and up to 3-4 fields, symbolic net and parameter; a knot span as short as 2^-30 beside ones of ordinary length, values close to a break but above rounding (2^-30..2^-12 away)')
OUTSIDE = 'degree > 4 with symbolic knots, > 6 with fixed ones, elevation by more than 3 with symbolic knots, 7 with fixed ones; interior multiplicity p+1; floating-point rounding'

def elevated(K, t):
    mu = [m+t for m in K.mults[K.lo:K.hi+1]]
    mu[0] = mu[-1] = K.p+t+1
    K1 = Knots(K.p+t, K.breaks[K.lo:K.hi+1], mu)
    K1.parent = list(range(K.lo, K.hi+1))
    return K1

def run(A, Ks, axis, t, nf):
    K = Ks[axis]
    o, H = objn(A, Ks, nf=nf)
    r = o.elevate(axis, t)
    A.claim('elevate returns the object', r is o)
    if not t:
        A.claim_eq('untouched', o.array, H); A.claim_eq('untouched knots', o.knots[axis], vec(K.U)); return
    K1 = elevated(K, t)
    A.claim('degree', o.degree == tuple(k.p + (t if d == axis else 0) for d, k in enumerate(Ks)))
    for d, k in enumerate(Ks): A.claim_eq('knots[%d]' % d, o.knots[d], vec((K1 if d == axis else k).U), tol=1e-12)
    shape = [k.n+1 for k in Ks]; shape[axis] = K1.n+1
    A.claim('shape', o.array.shape == tuple(shape)+(4+nf,))
    if o.array.shape == tuple(shape)+(4+nf,):
        same_curve(A, 'map', K, rows(H, axis), K1, rows(A.objs(o.array), axis))

def h1(A, p, mults, t, nf, sym=True, tiny=()):
    run(A, [A.knots(p, mults, tiny=tiny) if sym else A.cknots(p, mults, seed=4)], 0, t, nf)

def hn(A, degs, mults, axis, t, nf):
    run(A, [A.cknots(p, m, seed=i, name='U%d' % i) for i, (p, m) in enumerate(zip(degs, mults))], axis, t, nf)

S = {1: [[2, 2], [2, 1, 2], [2, 1, 1, 2], [2, 1, 1, 1, 2]], 2: [[3, 3], [3, 1, 3], [3, 2, 3], [3, 1, 1, 3], [3, 1, 2, 3], [3, 2, 1, 3]],
     3: [[4, 4], [4, 1, 4], [4, 2, 4], [4, 3, 4], [4, 1, 1, 4], [4, 1, 2, 4]], 4: [[5, 5], [5, 1, 5], [5, 2, 5], [5, 4, 5]]}
SC = {2: [[3, 1, 1, 1, 3], [3, 2, 2, 3]], 3: [[4, 3, 1, 4], [4, 1, 1, 1, 4], [4, 2, 1, 3, 4]], 4: [[5, 3, 5], [5, 1, 1, 5], [5, 2, 4, 5], [5, 1, 3, 2, 5]], 5: [[6, 1, 6], [6, 3, 2, 6]]}

def cases(tier):
    for p in S:
        for m in S[p]:
            for t in ((1, 2, 3) if p < 4 else (1, 2)):
                yield Case('p%d-%s-t%d' % (p, ''.join(map(str, m)), t), h1, p=p, mults=m, t=t, nf=(p+t) % 2)
    for p in SC:
        for m in SC[p]:
            for t in (1, 2, 3):
                yield Case('c-p%d-%s-t%d' % (p, ''.join(map(str, m)), t), h1, p=p, mults=m, t=t, nf=0, sym=False)
    for p in UNCLAMPED:
        for m in UNCLAMPED[p]:
            for t in (1, 2):
                yield Case('u-p%d-%s-t%d' % (p, ''.join(map(str, m)), t), h1, p=p, mults=m, t=t, nf=0)
    for p, m, g in TINY: yield Case('tiny-p%d-%s-%d' % (p, ''.join(map(str, m)), g), h1, p=p, mults=m, t=1 + g % 2, nf=0, tiny=[('g', g)])
    yield Case('t0', h1, p=2, mults=[3, 1, 3], t=0, nf=1)
    for p, m in BIG:
        for t in (1, 2, 4):
            yield Case('big-p%d-%s-t%d' % (p, ''.join(map(str, m)), t), hn, degs=(p,), mults=(m,), axis=0, t=t, nf=t-1)
    for p, m in [(1, [2, 1, 2]), (2, [3, 1, 3]), (3, [4, 2, 4])]:
        for t in (4, 5, 6, 7): yield Case('far-p%d-%s-t%d' % (p, ''.join(map(str, m)), t), hn, degs=(p,), mults=(m,), axis=0, t=t, nf=1)
    ND = [((2, 2), ([3, 1, 3], [3, 3])), ((1, 3), ([2, 1, 2], [4, 2, 4])), ((3, 2), ([4, 4], [3, 2, 1, 3])),
          ((2, 1, 2), ([3, 3], [2, 1, 2], [3, 1, 3])), ((1, 2, 1), ([2, 1, 2], [3, 3], [2, 2]))]
    for degs, ms in ND:
        for axis in range(len(degs)):
            for t in (1, 2):
                yield Case('%dd-%s-axis%d-t%d' % (len(degs), ''.join(map(str, degs)), axis, t), hn, degs=degs, mults=ms, axis=axis, t=t, nf=(axis+t) % 2)
