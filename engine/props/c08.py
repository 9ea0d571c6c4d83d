"""C08 Clamping and unclamping keep the map on the domain."""
from .common import *

BOUNDS = ('1-D: degree 1..4, clamped, unclamped and half-clamped structures with up to 3 interior breaks of any multiplicity <= p, all knots, '
          'control points, weights and a field symbolic; each side and both; every continuity 0..p-1 and the default; 2-D/3-D on every axis with fixed knots; one-axis cases with fixed irregular knots up to degree 6, many breaks and up to 3-4 fields, symbolic net and parameter; a knot span as short as 2^-30 beside ones of ordinary length, values close to a break but above rounding (2^-30..2^-12 away)')
OUTSIDE = 'degree > 4 with symbolic knots, > 6 with fixed ones; floating-point rounding'

def clamped(K, l, r):
    """Structure after clamping."""
    br, mu, par = [], [], []
    for j in range(len(K.breaks)):
        if l and j < K.lo or r and j > K.hi: continue
        m = K.mults[j]
        if l and j == K.lo: m = K.p+1
        if r and j == K.hi: m = K.p+1
        br.append(K.breaks[j]); mu.append(m); par.append(j)
    K1 = Knots(K.p, br, mu)
    K1.parent = par
    return K1

def unclamped(A, K, C, l, r):
    """Ends of multiplicity p-C continued periodically (K: clamped ends where asked).
    Returns Knots whose breaks may coincide in value only when they are the same break."""
    p = K.p
    T = K.b - K.a
    inner = [(K.breaks[j], K.mults[j]) for j in range(K.lo+1, K.hi)]
    left, right = [], []
    if l:
        left = [(K.a, p-C)]; need = C+1; rep = 1
        while need > 0:
            for b, m in reversed([(K.a, p-C)] + inner):
                k = min(m, need)
                if k > 0: left.insert(0, (b - rep*T, k)); need -= k
            rep += 1
    else: left = [(K.breaks[j], K.mults[j]) for j in range(0, K.lo+1)]
    if r:
        right = [(K.b, p-C)]; need = C+1; rep = 1
        while need > 0:
            for b, m in inner + [(K.b, p-C)]:
                k = min(m, need)
                if k > 0: right.append((b + rep*T, k)); need -= k
            rep += 1
    else: right = [(K.breaks[j], K.mults[j]) for j in range(K.hi, len(K.breaks))]
    seq = left + inner + right
    K1 = Knots(p, [b for b, _ in seq], [m for _, m in seq])
    off = len(left)-1
    K1.parent = [K.lo + i - off for i in range(len(seq))]
    return K1

def check(A, what, o, Ks, axis, K1, H, nf):
    K = Ks[axis]
    for d, k in enumerate(Ks): A.claim_eq('%s: knots[%d]' % (what, d), o.knots[d], vec((K1 if d == axis else k).U), tol=1e-11)
    shape = [k.n+1 for k in Ks]
    A.claim('%s: shape' % what, tuple(o.array.shape) == tuple(shape)+(4+nf,) and K1.n == K.n)
    if tuple(o.array.shape) == tuple(shape)+(4+nf,): same_curve(A, what, K, rows(H, axis), K1, rows(A.objs(o.array), axis))

def ends(A, what, o, Ks, axis, K1, H, l, r):
    K = Ks[axis]
    R = rows(H, axis); Q = rows(A.objs(o.array), axis)
    k = K.spans[0][0]
    if l: A.claim_eq('%s: first control point' % what, vec(Q[0]), vec(comb(ref.span_basis(K.U, K.p, k, K.a), R)))
    k = K.spans[-1][0]
    if r: A.claim_eq('%s: last control point' % what, vec(Q[-1]), vec(comb(ref.span_basis(K.U, K.p, k, K.b), R)))

def h_clamp(A, Ks, axis, side, nf):
    o, H = objn(A, Ks, nf=nf)
    x = o.clamp(axis) if side is None else o.clamp(axis, side)
    A.claim('clamp returns the object', x is o)
    l, r = side in (None, 0), side in (None, 1)
    K1 = clamped(Ks[axis], l, r)
    check(A, 'clamp', o, Ks, axis, K1, H, nf)
    ends(A, 'clamp', o, Ks, axis, K1, H, l, r)

def h_unclamp(A, Ks, axis, side, C, nf, back):
    K = Ks[axis]
    o, H = objn(A, Ks, nf=nf)
    kw = {}
    if side is not None: kw['side'] = side
    if C is not None: kw['continuity'] = C
    x = o.unclamp(axis, **kw)
    A.claim('unclamp returns the object', x is o)
    l, r = side in (None, 0), side in (None, 1)
    K1 = unclamped(A, K, K.p-1 if C is None else C, l, r)
    check(A, 'unclamp', o, Ks, axis, K1, H, nf)
    if back:
        o.clamp(axis, side)
        A.claim_eq('clamped again: knots', o.knots[axis], vec(clamped(K, l, r).U))
        if K.lo == 0 and K.hi == len(K.breaks)-1 and K.mults[0] == K.mults[-1] == K.p+1: A.claim_eq('clamped again: net', o.array, H)
        else: same_curve(A, 'clamped again', K, rows(H, axis), clamped(K, l, r), rows(A.objs(o.array), axis))

def w1(A, p, mults, h, sym=True, tiny=(), **kw):
    h(A, [A.knots(p, mults, tiny=tiny) if sym else A.cknots(p, mults, seed=4)], 0, **kw)
def wn(A, degs, mults, axis, h, **kw):
    h(A, [A.cknots(p, m, seed=i, name='U%d' % i) for i, (p, m) in enumerate(zip(degs, mults))], axis, **kw)

UN = {1: [[1, 1, 1, 1], [2, 1, 1, 1], [1, 1, 1, 2], [1, 1, 1, 1, 1]], 2: [[1]*6, [1]*7, [2, 1, 1, 1, 1], [1, 1, 1, 1, 2], [3, 1, 1, 1, 1], [1, 1, 1, 1, 3], [2, 1, 2, 1, 2], [1, 2, 2, 1, 1], [1, 2, 1, 2, 1], [2, 2, 2]],
      3: [[1]*8, [4, 1, 1, 1, 1], [1, 1, 1, 1, 4], [2, 2, 2, 2], [1, 2, 1, 1, 1, 2], [3, 1, 3, 1], [1, 3, 1, 3], [2, 2, 1, 2, 2]]}
CL = {1: [[2, 2], [2, 1, 2], [2, 1, 1, 2]], 2: [[3, 3], [3, 1, 3], [3, 2, 3], [3, 1, 1, 3], [3, 2, 1, 3]],
      3: [[4, 4], [4, 1, 4], [4, 2, 4], [4, 3, 4], [4, 1, 1, 4], [4, 1, 2, 4]], 4: [[5, 5], [5, 1, 5], [5, 3, 5]]}

def cases(tier):
    for p in UN:
        for m in UN[p]:
            if not valid(p, m): continue
            for side in (None, 0, 1):
                yield Case('clamp-p%d-%s-%s' % (p, ''.join(map(str, m)), side), w1, p=p, mults=m, h=h_clamp, side=side, nf=len(m) % 2)
    for p in CL:
        for m in CL[p]:
            yield Case('clamp-p%d-%s' % (p, ''.join(map(str, m))), w1, p=p, mults=m, h=h_clamp, side=None, nf=1)
            for side in (None, 0, 1):
                for C in [None] + list(range(p)):
                    yield Case('unclamp-p%d-%s-%s-C%s' % (p, ''.join(map(str, m)), side, C), w1, p=p, mults=m, h=h_unclamp, side=side, C=C, nf=(p+len(m)) % 2, back=True, sym=p < 4)
    for p in (1, 2, 3):
        for m in UN[p]:
            if not valid(p, m): continue
            for side in (None, 0, 1):
                for C in ((None,) if p == 1 else (None, 0)):
                    yield Case('unclampu-p%d-%s-%s-C%s' % (p, ''.join(map(str, m)), side, C), w1, p=p, mults=m, h=h_unclamp, side=side, C=C, nf=0, back=True)
    for i, (p, m, g) in enumerate(TINY):
        for side in (None, 0, 1):
            yield Case('tiny-clamp-p%d-%s-%d-%s' % (p, ''.join(map(str, m)), g, side), w1, p=p, mults=m, h=h_clamp, side=side, nf=0, tiny=[('g', g)])
        yield Case('tiny-unclamp-p%d-%s-%d' % (p, ''.join(map(str, m)), g), w1, p=p, mults=m, h=h_unclamp, side=(None, 0, 1)[i % 3], C=None if i % 2 else p-1, nf=0, back=p < 3, tiny=[('g', g)])
    for p, m in BIG:
        for side in (None, 0, 1):
            yield Case('big-clamp-p%d-%s-%s' % (p, ''.join(map(str, m)), side), wn, degs=(p,), mults=(m,), axis=0, h=h_clamp, side=side, nf=2)
            for C in [None] + sorted({0, p//2, p-2}):
                if C is None or C >= 0: yield Case('big-unclamp-p%d-%s-%s-C%s' % (p, ''.join(map(str, m)), side, C), wn, degs=(p,), mults=(m,), axis=0, h=h_unclamp, side=side, C=C, nf=0, back=True)
    ND = [((2, 2), ([3, 1, 3], [3, 3]), ([1]*7, [1]*6)), ((1, 3), ([2, 1, 2], [4, 2, 4]), ([1]*5, [2, 2, 2, 2])),
          ((2, 1, 2), ([3, 3], [2, 1, 2], [3, 1, 3]), ([1]*6, [1]*4, [1, 1, 1, 1, 1, 2]))]
    for degs, ms, us in ND:
        for axis in range(len(degs)):
            for side in (None, 0, 1):
                yield Case('%dd-unclamp-%s-axis%d-%s' % (len(degs), ''.join(map(str, degs)), axis, side), wn, degs=degs, mults=ms, axis=axis, h=h_unclamp, side=side, C=None if axis else degs[axis]-1, nf=axis % 2, back=True)
                mm = list(ms); mm[axis] = us[axis]
                yield Case('%dd-clamp-%s-axis%d-%s' % (len(degs), ''.join(map(str, degs)), axis, side), wn, degs=degs, mults=mm, axis=axis, h=h_clamp, side=side, nf=axis % 2)
