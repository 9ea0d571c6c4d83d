"""C07 Knot removal is exact on removable knots and bounded by its tolerance."""
import random
from .common import *

BOUNDS = ('exactness: degree 1..4 (up to 6 with fixed knots and nets, many breaks), up to 2 interior breaks of any multiplicity <= p, any site, r <= p insertions and s <= r removals, all knots, control '
          'points, weights, fields symbolic; 2-D/3-D on every axis with fixed knots; tolerance: fixed base curves of degree 1..3 in which one control point '
          'moves by up to 1/4 in one coordinate (every parameter) or in two coordinates or the weight (8 parameters per span), any deviation up to 1/4 or 5; more removals asked for than are possible: fixed curves of degree 2..6, '
          'one coordinate and the fields symbolic; values within rounding of a break')
OUTSIDE = 'removal from arbitrary (not fixed) curves within the tolerance; deviations larger than 5; floating-point rounding'

def h_exact(A, degs, mults, axis, loc, r, s, nf, sym=True, dev=None):
    """Insert r times, remove s times: like inserting r-s times; nothing of the original is lost."""
    sites = loc_sites([loc])
    Ks = []
    for i, (p, m) in enumerate(zip(degs, mults)):
        st = sites if i == axis else ()
        Ks.append(A.knots(p, m, name='U%d' % i, sites=st) if sym else A.cknots(p, m, seed=i+2, name='U%d' % i, sites=st))
    K = Ks[axis]
    o, H = objn(A, Ks, nf=nf)
    v = value_of(K, loc)
    ref0 = objn(A, Ks, nf=nf)[0]
    if r > s: ref0.insert(axis, v, r-s)
    o.insert(axis, v, r)
    kw = {} if dev is None else dict(deviation=A.num(dev))
    x = o.remove(axis, v, s, **kw)
    A.claim('remove returns the object', x is o)
    K1 = with_knots(K, [loc]*(r-s))
    for d, k in enumerate(Ks): A.claim_eq('knots[%d]' % d, o.knots[d], vec((K1 if d == axis else k).U))
    A.claim_eq('control net', o.array, ref0.array)
    if r == s: A.claim_eq('original net', o.array, H)

def h_bound(A, p, base, at, times, moved, dev, wts, nf, comps, fixed_t=0, size=10, far=None):
    """Concrete curve in which knot `at` is removable, one control point moved symbolically, symbolic tolerance:
    either unchanged or moved by at most the deviation, at every parameter."""
    # the coarse curve
    K0 = A.cknots(p, base, seed=3)
    br = K0.fr
    lo, hi = at
    v = br[lo] + (br[lo+1]-br[lo])*hi
    C0 = A.consts(11+p, (K0.n+1, 3))
    N = A.NURBS
    w0 = [Fraction(x) for x in wts]
    Cw = np.empty((K0.n+1, 4+nf), dtype=object)
    rnd = random.Random(4+p)
    for i in range(K0.n+1):
        w = w0[i % len(w0)]
        pt = [Fraction(rnd.randint(-6, 6), 2)*Fraction(size, 10) for _ in range(3)] + [Fraction(rnd.randint(-6, 6), 2) for _ in range(nf)]
        if i == 0: pt = [Fraction(6*size, 10), Fraction(8*size, 10), Fraction(0)] + pt[3:]        # the largest norm, exactly
        if far is not None and i == far[0]: pt = [Fraction(60 if c == far[1] else 0) for c in range(3)] + pt[3:]
        for c in range(3): Cw[i, c] = A.num(pt[c]*w)
        Cw[i, 3] = A.num(w)
        for c in range(nf): Cw[i, 4+c] = A.num((pt[3+c]-5)*w)
    o = N([A.arr(K0.U)], A.arr(Cw[:, :4]), fields=A.arr(Cw[:, 4:]/Cw[:, 3:4]) if nf else None)
    o.insert(0, A.num(v), times)
    H = A.objs(o.array).copy()
    mv = Fraction(1, 4)*min(w0)*(1 if size == 10 or comps == (3,) else Fraction(1, 20))
    for c in comps:
        H[moved, c] = H[moved, c] + A.real('m%d' % c, -mv, mv, nice=(-mv, mv))
    K1 = with_value(A, K0, lo, v, times)
    F = None
    if nf:
        F = np.empty((H.shape[0], nf), dtype=object)
        for i in np.ndindex(*F.shape): F[i] = H[i[0], 4+i[1]]/H[i[0], 3]
    o = N([A.arr(K1.U)], A.arr(H[:, :4]), fields=A.arr(F) if nf else None)
    d = A.real('d', Fraction(1, 10**6), dev, nice=(Fraction(1, 100), dev))
    o.remove(0, A.num(v), times, d)
    k = len(K1.U) - len(A.objs(o.knots[0]))
    if k == 0:
        A.claim_eq('unchanged knots', o.knots[0], vec(K1.U))
        A.claim_eq('unchanged net', o.array, H)
        return
    K2 = with_value(A, K0, lo, v, times-k)
    A.claim_eq('knots', o.knots[0], vec(K2.U))
    A.claim('shape', o.array.shape == (K2.n+1, 4+nf))
    if o.array.shape != (K2.n+1, 4+nf): return
    Q = A.objs(o.array)
    for kk, j in K1.spans:
        k2 = K2.span_of(K1.fr[j])
        if fixed_t: ts = [A.num(K1.fr[j]+(K1.fr[j+1]-K1.fr[j])*Fraction(i, fixed_t)) for i in range(fixed_t)]
        else: ts = [A.real('t%d' % j, K1.fr[j], K1.fr[j+1], nice=(K1.fr[j], K1.fr[j+1]))]
        for i, t in enumerate(ts):
            c1 = comb(ref.span_basis(K1.U, p, kk, t), H)
            c2 = comb(ref.span_basis(K2.U, p, k2, t), Q)
            # |a/w - b/v|^2 <= d^2
            s = None
            for c in range(3):
                e = c1[c]*c2[3] - c2[c]*c1[3]
                s = e*e if s is None else s + e*e
            A.claim_le('deviation on span %d (%d)' % (j, i), s, d*d*c1[3]*c1[3]*c2[3]*c2[3])
            A.claim_lt('weight on span %d (%d)' % (j, i), 0*d, c2[3])

def h_partial(A, p, base, j, r, extra, nf):
    """r copies of a break that cannot be removed are inserted, r+extra removals asked for: the copies go, the break stays as it was."""
    K = A.cknots(p, base, seed=3)
    C = A.consts(17+p, (K.n+1, 3))
    Cw = np.empty((K.n+1, 4), dtype=object)
    F = np.empty((K.n+1, nf), dtype=object)
    for i in range(K.n+1):
        w = Fraction(1 + i % 3, 2)
        for c in range(3): Cw[i, c] = C[i, c]*A.num(w)
        Cw[i, 3] = A.num(w)
        for c in range(nf): F[i, c] = A.real('f%d_%d' % (i, c), -5, 5, nice=(-3, 3))
    i = sum(base[:j+1])-p-1
    Cw[i, 0] = Cw[i, 0] + A.real('m', Fraction(-1, 100), Fraction(1, 100), nice=(0, Fraction(1, 100)))
    o = A.NURBS([A.arr(K.U)], A.arr(Cw), fields=A.arr(F) if nf else None)
    H = A.objs(o.array).copy()
    o.insert(0, A.num(K.fr[j]), r)
    x = o.remove(0, A.num(K.fr[j]), r+extra, A.real('d', Fraction(1, 10**9), Fraction(1, 10**5), nice=(Fraction(1, 10**8), Fraction(1, 10**5))))
    A.claim('remove returns the object', x is o)
    A.claim_eq('knots', o.knots[0], vec(K.U))
    A.claim_eq('net', o.array, H)

def with_value(A, K0, lo, v, times):
    br, mu = list(K0.fr), list(K0.mults)
    if v in br: mu[br.index(v)] += times
    elif times: br.insert(lo+1, v); mu.insert(lo+1, times)
    K = Knots(K0.p, [A.num(b) for b in br], mu)
    K.fr = br
    K.span_of = lambda x: max(i for i in range(len(K.of)) if br[K.of[i]] <= x)
    return K

def h_none(A, p, mults, what):
    """Values that are not interior knots: nothing happens."""
    K = A.knots(p, mults, sites=(0,) if mults[0] > p else (p,))
    j = 0 if mults[0] > p else p
    o, H = objn(A, [K], nf=1)
    v = {'site': K.site[j], 'left': K.a, 'right': K.b}[what]
    r = o.remove(0, v, times=2)
    A.claim('remove returns the object', r is o)
    A.claim_eq('knots', o.knots[0], vec(K.U)); A.claim_eq('net', o.array, H)

def h_near(A, p, mults, j, r, s):
    """A value within rounding of a break removes that break; within rounding of an end, nothing."""
    K = knots_at_zero(A, p, mults, j)
    o, H = objn(A, [K], nf=1)
    inner = K.lo < j < K.hi
    if inner: o.insert(0, K.breaks[j], r)
    x = o.remove(0, near(A, K, j), s)
    A.claim('remove returns the object', x is o)
    K1 = with_knots(K, [('b', j)]*(r-s)) if inner else K
    ref0 = objn(A, [K], nf=1)[0]
    if inner and r > s: ref0.insert(0, K.breaks[j], r-s)
    A.claim_eq('knots', o.knots[0], vec(K1.U)); A.claim_eq('net', o.array, ref0.array)

def h_none2(A, p, mults, j, times):
    K = A.knots(p, mults)
    o, H = objn(A, [K], nf=1)
    o.remove(0, K.breaks[j], times)
    A.claim_eq('knots', o.knots[0], vec(K.U)); A.claim_eq('net', o.array, H)

B = {1: [[2, 2], [2, 1, 2]], 2: [[3, 3], [3, 1, 3], [3, 2, 3]], 3: [[4, 4], [4, 1, 4], [4, 2, 4]], 4: [[5, 5]]}

def cases(tier):
    for p in B:
        for m in B[p]:
            K = Knots(p, [0]*len(m), m)
            locs = [(j, 0) for j in range(len(m)-1)] + [('b', j) for j in range(1, len(m)-1)]
            for loc in locs:
                for r in range(1, p+1):
                    if not admissible(K, [loc]*r): continue
                    for s in range(1, r+1):
                        yield Case('exact-p%d-%s-%s-r%ds%d' % (p, ''.join(map(str, m)), ''.join(map(str, loc)), r, s), h_exact, degs=(p,), mults=(m,), axis=0,
                                   loc=loc, r=r, s=s, nf=(r+s) % 3)
    for p, m in BIG:
        K = Knots(p, [0]*len(m), m)
        locs = [(j, 0) for j in range(K.lo, K.hi)] + [('b', j) for j in range(K.lo+1, K.hi)]
        for i, loc in enumerate(locs):
            for r, s in sorted({(1, 1), (2, 1), (2, 2), (p, p-1), (p, p)}):
                if not s or not admissible(K, [loc]*r): continue
                if (i + r) % 3 and not (tier == 'thorough' or r > 2): continue
                yield Case('big-p%d-%s-%s-r%ds%d' % (p, ''.join(map(str, m)), ''.join(map(str, loc)), r, s), h_exact, degs=(p,), mults=(m,), axis=0, loc=loc, r=r, s=s, nf=(r+i) % 4, sym=False)
    for p, m in ((2, [1]*6), (2, [3, 1, 1, 1, 1])):
        j = p if m[0] == 1 else 1
        yield Case('exact-u-p%d-%s' % (p, ''.join(map(str, m))), h_exact, degs=(p,), mults=(m,), axis=0, loc=(j, 0) if m[0] == 1 else (0, 0), r=1, s=1, nf=1)
    ND = [((2, 2), ([3, 1, 3], [3, 3])), ((1, 3), ([2, 1, 2], [4, 2, 4])), ((2, 1, 2), ([3, 3], [2, 1, 2], [3, 1, 3]))]
    for degs, ms in ND:
        for axis in range(len(degs)):
            for loc in ((0, 0), ('b', 1)):
                for r, s in ((1, 1), (2, 1), (2, 2)):
                    if loc[0] == 'b' and len(ms[axis]) < 3: continue
                    if not admissible(Knots(degs[axis], [0]*len(ms[axis]), ms[axis]), [loc]*r): continue
                    yield Case('exact-%dd-%s-ax%d-%s-r%ds%d' % (len(degs), ''.join(map(str, degs)), axis, ''.join(map(str, loc)), r, s), h_exact,
                               degs=degs, mults=ms, axis=axis, loc=loc, r=r, s=s, nf=(axis+r) % 3, sym=False)
    for what in ('site', 'left', 'right'):
        yield Case('none-p2-%s' % what, h_none, p=2, mults=[3, 1, 3], what=what)
        yield Case('none-p2u-%s' % what, h_none, p=2, mults=[1]*7, what=what)
    for p in (1, 2, 3):
        for m in CLAMPED[p] + UNCLAMPED[p]:
            K = Knots(p, [0]*len(m), m)
            for j in range(K.lo, K.hi+1):
                for r, s in ((1, 1), (2, 1)):
                    if K.lo < j < K.hi and (not admissible(K, [('b', j)]*r) or m[0] == 1): continue
                    if j in (K.lo, K.hi) and r > 1: continue
                    yield Case('near-p%d-%s-b%d-r%ds%d' % (p, ''.join(map(str, m)), j, r, s), h_near, p=p, mults=m, j=j, r=r, s=s)
    yield Case('none-t0', h_none2, p=2, mults=[3, 1, 3], j=1, times=0)
    for p, base, j in [(2, [3, 1, 3], 1), (3, [4, 1, 4], 1), (3, [4, 2, 4], 1), (3, [4, 1, 1, 4], 2), (3, [4, 1, 2, 1, 4], 1), (4, [5, 1, 5], 1), (4, [5, 2, 5], 1), (3, [4, 1, 1, 1, 4], 2), (2, [1]*8, 4), (5, [6, 2, 1, 6], 1), (5, [6, 4, 6], 1), (6, [7, 1, 1, 7], 2), (4, [5, 1, 1, 1, 1, 5], 3)]:
        m = base[j]
        for r in range(0, p-m+1):
            for extra in range(1, m+1):
                yield Case('partial-p%d-%s-%d-r%d-x%d' % (p, ''.join(map(str, base)), j, r, extra), h_partial, p=p, base=base, j=j, r=r, extra=extra, nf=(r+extra) % 2)
    H = Fraction(1, 2)
    for p, base, at, times, moved in ((1, [2, 2], (0, H), 1, 1), (1, [2, 1, 2], (1, H), 1, 2), (2, [3, 3], (0, H), 1, 1), (2, [3, 3], (0, H), 1, 2),
                                      (2, [3, 1, 3], (0, H), 1, 2), (3, [4, 4], (0, H), 1, 2),
                                      (2, [3, 3], (0, H), 2, 2), (3, [4, 4], (0, H), 2, 2), (3, [4, 1, 4], (1, H), 3, 4)):
        for comp in range(3):
            yield Case('far-p%d-%s-x%d-m%d-%s' % (p, ''.join(map(str, base)), times, moved, 'xyz'[comp]), h_bound, p=p, base=base, at=at, times=times, moved=moved, dev=Fraction(5), wts=((1,), (1, 2, Fraction(1, 2)))[comp % 2],
                       nf=(comp+times) % 2, comps=(3,), budget=100, fixed_t=6, size=Fraction(1, 10), far=(max(moved-1, 0) if comp else min(moved, p), comp))
        for comps in ((0,), (1, 2), (3,)):
            for dev in (Fraction(1, 4), Fraction(5)):
                for wn, wts in (('1', (1,)), ('m', (1, 2, Fraction(1, 2))), ('e', (4, Fraction(1, 8), Fraction(1, 8)))):
                    for size in (10, Fraction(1, 10)):
                        nf = (len(wts) + times + (size == 10)) % 2
                        if comps == (1, 2) and size != 10: continue
                        if comps == (0,) and size != 10 and times > 1 and p > 2: continue
                        yield Case('bound-p%d-%s-x%d-m%d-c%s-d%s-w%s-%s-f%d' % (p, ''.join(map(str, base)), times, moved, ''.join(map(str, comps)), dev, wn,
                                                                                 'big' if size == 10 else 'small', nf), h_bound,
                                   p=p, base=base, at=at, times=times, moved=moved, dev=dev, wts=wts, nf=nf, comps=comps, budget=100, fixed_t=0 if comps == (0,) else 8, size=size)
