"""C17 Joining reproduces both pieces on consecutive domains."""
import random
from .common import *

MODULES = ('nurbs', 'cad')
BOUNDS = ('pairs of curves, surfaces and volumes meeting along the joined axis (same points, weights equal up to a factor), degrees 1-6 equal or different, clamped and unclamped at either side, up to 4 interior breaks, up to one field, different degrees and knots on the other axes; '
          'symbolic domain shift of the second piece, symbolic control points, evaluation parameters symbolic on every span (curves); halves of symbolic curves cut at a knot or inside a span join to the original map')
OUTSIDE = 'pieces whose weights along the common boundary are not proportional (no join of the same degree exists; the operation averages); pieces that do not meet; floating-point rounding'

def net(rnd, shape, nf, wts):
    H = np.empty(shape + (4+nf,), dtype=object)
    for i in np.ndindex(*shape):
        w = Fraction(rnd.choice(wts))
        for c in range(3+nf): H[i + (c if c < 3 else c+1,)] = Fraction(rnd.randint(-16, 16), 4)*w
        H[i+(3,)] = w
    return H

def make(A, H, Ks):
    nf = H.shape[-1]-4
    F = None
    if nf:
        F = np.empty(H.shape[:-1]+(nf,), dtype=object)
        for i in np.ndindex(*F.shape): F[i] = H[i[:-1]+(4+i[-1],)]/H[i[:-1]+(3,)]
    return A.NURBS([A.arr(K.U) for K in Ks], A.arr(H[..., :4]), fields=A.arr(F) if nf else None)

def shifted(A, K, d):
    K2 = Knots(K.p, [b + d for b in K.breaks], K.mults); K2.fr = K.fr
    return K2

def span_at(K, side): return K.spans[0][0] if side == 0 else K.spans[-1][0]

def evaluate(A, o, us, nf): return o(*us, **({'fields': True} if nf else {}))

def check(A, r, axis, Ks, H, t_of, nf, other, name, cells=None):
    """The joined object agrees with the piece (Ks, H) at symbolic parameters of every span of the joined axis; t_of maps piece parameters to joined ones."""
    K = Ks[axis]
    spans = K.spans if cells is None else [K.spans[i % len(K.spans)] for i in cells]
    for n, (k, j) in enumerate(spans):
        s = A.real('%s%d' % (name, n), 0, 1, nice=(Fraction(1, 8), Fraction(7, 8)))
        t = K.breaks[j] + (K.fr[j+1]-K.fr[j])*s
        us, ks, ts = [], [], []
        for d, Kd in enumerate(Ks):
            if d == axis: us.append(t_of(t)); ts.append(t); ks.append(k)
            else:
                kk, jj = Kd.spans[(n + other) % len(Kd.spans)]
                u = A.num(Kd.fr[jj]) + A.num(Kd.fr[jj+1]-Kd.fr[jj])*Fraction(2+n % 2, 5)
                us.append(u); ts.append(u); ks.append(kk)
        V = ref.homog_eval([K_.U for K_ in Ks], [K_.p for K_ in Ks], ks, ts, H)
        got = evaluate(A, r, us, nf)
        if nf:
            A.claim_eq('%s fields, span %d' % (name, j), got[1], vec([V[4+c]/V[3] for c in range(nf)])); got = got[0]
        A.claim_eq('%s, span %d' % (name, j), got, vec([V[c]/V[3] for c in range(3)]))

def h_join(A, k1, k2, dims=1, axis=0, nf=0, ratio=1, wts=(1, 2), shift='sym', seed=1, other=(), raise_other=None, symb='one', cells=None, twist=None):
    """k1, k2: structures (p, mults, gaps) along the joined axis; other: structures of the other axes."""
    rnd = random.Random(seed)
    K1 = A.cknots(k1[0], k1[1], seed=seed, name='U', gaps=k1[2]); K2 = A.cknots(k2[0], k2[1], seed=seed+1, name='V', gaps=k2[2])
    Ko = [A.cknots(p, m, seed=seed+5+i, name='W%d' % i, gaps=g) for i, (p, m, g) in enumerate(other)]
    Ks1 = list(Ko); Ks1.insert(axis, K1)
    Ks2 = list(Ko); Ks2.insert(axis, K2)
    sh = lambda Ks: tuple(K.n+1 for K in Ks)
    H1, H2 = net(rnd, sh(Ks1), nf, wts), net(rnd, sh(Ks2), nf, wts)
    if Ko:      # weights constant along the joined axis, so that the boundaries are proportional
        w = Fraction(1)
        for H in (H1, H2):
            for i in np.ndindex(*H.shape[:-1]):
                new = Fraction(1 + sum(x for d, x in enumerate(i) if d != axis) % 3, 2)
                for c in range(4+nf): H[i+(c,)] = H[i+(c,)]*new/H[i+(3,)] if c != 3 else H[i+(c,)]
                H[i+(3,)] = new
    R1, R2 = np.moveaxis(H1, axis, 0), np.moveaxis(H2, axis, 0)
    q1 = ref.span_basis([K1.fr[b] for b in K1.of], K1.p, span_at(K1, 1), K1.fr[K1.hi])
    q2 = ref.span_basis([K2.fr[b] for b in K2.of], K2.p, span_at(K2, 0), K2.fr[K2.lo])
    r = max(q2, key=lambda i: q2[i])
    for i in np.ndindex(*R1.shape[1:-1]):
        E1 = [sum(q1[k]*R1[(k,)+i+(c,)] for k in q1) for c in range(4+nf)]
        E2 = [sum(q2[k]*R2[(k,)+i+(c,)] for k in q2) for c in range(4+nf)]
        for c in range(4+nf):
            if c != 3: R2[(r,)+i+(c,)] += (E1[c]/E1[3]*E2[3] - E2[c])/q2[r]
        if not Ko:
            f = Fraction(ratio)*E1[3]/E2[3]
            H2[...] = H2*f
        else: H2[...] = H2*(Fraction(ratio) if not any(i) else 1)
    S1, S2 = np.empty(H1.shape, dtype=object), np.empty(H2.shape, dtype=object)
    for S, H in ((S1, H1), (S2, H2)):
        for i in np.ndindex(*H.shape): S[i] = A.num(H[i])
    if symb == 'one':      # one control point of each piece moves, away from the common row
        T1, T2 = np.moveaxis(S1, axis, 0), np.moveaxis(S2, axis, 0)
        z = (0,)*(len(Ks1)-1)
        if K1.n >= K1.p + 0 and q1.get(0, 0) == 0: T1[(0,)+z+(0,)] = T1[(0,)+z+(0,)] + A.real('m1', -1, 1, nice=(-1, 1))
        if q2.get(K2.n, 0) == 0: T2[(K2.n,)+z+(1,)] = T2[(K2.n,)+z+(1,)] + A.real('m2', -1, 1, nice=(-1, 1))
    d = A.num(0) if shift == 0 else A.real('shift', -8, 8, nice=(-3, 5)) if shift == 'sym' else A.num(shift)
    K2s = shifted(A, K2, d)
    Ks2[axis] = K2s
    o1, o2 = make(A, S1, Ks1), make(A, S2, Ks2)
    if raise_other is not None:
        oo = [a for a in range(len(Ks1)) if a != axis][0]
        if raise_other[1] == 'e':
            for q in [a for a in range(len(Ks1)) if a != axis]: (o2 if raise_other[0] else o1).elevate(q, 1)
        else: (o2 if raise_other[0] else o1).refine(oo, [A.num(v) for v in raise_other[2]])
    if twist is not None:       # the same degrees and sizes, other knots across
        oo = [a for a in range(len(Ks1)) if a != axis][0]
        K = Ko[0]; lo, L_ = K.fr[K.lo], K.fr[K.hi]-K.fr[K.lo]
        o1.refine(oo, [A.num(lo+L_*q) for q in twist[0]]); o2.refine(oo, [A.num(lo+L_*q) for q in twist[1]])
    B1, B2 = A.objs(o1.array).copy(), A.objs(o2.array).copy()
    J = A.cad.join(o1, o2, axis)
    A.claim('dimension', J.dim == len(Ks1))
    A.claim_eq('first kept', o1.array, B1); A.claim_eq('second kept', o2.array, B2)
    A.claim_eq('knots of second kept', o2.knots[axis], vec(K2s.U))
    A.claim('degree', J.degree[axis] == max(K1.p, K2.p))
    a1, b1 = A.num(K1.fr[K1.lo]), A.num(K1.fr[K1.hi])
    L = A.num(K2.fr[K2.hi]-K2.fr[K2.lo])
    br = J.breaks(axis)
    A.claim_eq('start', br[0], a1); A.claim_eq('end', br[-1], b1 + L)
    check(A, J, axis, Ks1, S1, lambda t: t, nf, seed, 'first', cells)
    check(A, J, axis, Ks2, S2, lambda t: t - K2s.a + b1, nf, seed, 'second', cells)

def h_lin(A, m1, m2, nf, ratio):
    """Degree 1, everything symbolic (knots, net, weights, shift)."""
    K1, K2 = A.knots(1, m1, name='U'), A.knots(1, m2, name='V')
    o1, H1 = objn(A, [K1], name='P', nf=nf)
    H2 = np.empty((K2.n+1, 4+nf), dtype=object)
    f = A.weight('f') if ratio else A.num(1)
    for i in range(K2.n+1):
        w = A.weight('w%d' % i) if i else None
        for c in range(4+nf): H2[i, c] = H1[K1.n, c]*f if i == 0 else w if c == 3 else A.ctrl('Q%d%d' % (i, c))*w if c > 3 else A.ctrl('Q%d%d' % (i, c))
    o2 = make(A, H2, [K2])
    J = A.cad.join(o1, o2, 0)
    off = K1.b - K2.a
    A.claim_eq('knots', J.knots[0], vec(list(K1.U[:-1]) + [u + off for u in K2.U[2:]]))
    for K, H, sh, nm in ((K1, H1, None, 's'), (K2, H2, off, 't')):
        for k, j in K.spans:
            t = K.breaks[j]*Fraction(1, 3) + K.breaks[j+1]*Fraction(2, 3)
            V = comb(ref.span_basis(K.U, 1, k, t), H)
            got = J(t if sh is None else t + sh, **({'fields': True} if nf else {}))
            if nf: A.claim_eq('fields', got[1], vec([V[4+c]/V[3] for c in range(nf)])); got = got[0]
            A.claim_eq('piece %s span %d' % (nm, j), got, vec([V[c]/V[3] for c in range(3)]))

def h_split(A, p, m, gaps, loc, sym, nf):
    """The two halves of a curve join to the curve."""
    K = A.cknots(p, m, seed=p, gaps=gaps, sites=loc_sites([loc]))
    o, H = objn(A, [K], nf=nf, sym=sym)
    v = value_of(K, loc)
    J = A.cad.join(o.slice(0, None, v), o.slice(0, v, None), 0)
    A.claim('degree', J.degree == (p,))
    br = J.breaks(0)
    A.claim_eq('start', br[0], K.a); A.claim_eq('end', br[-1], K.b)
    K1 = with_knots(K, [loc]) if loc[0] != 'b' else with_knots(K, [])
    for k, j in K1.spans:
        t = K1.breaks[j]*Fraction(1, 3) + K1.breaks[j+1]*Fraction(2, 3)
        V = comb(ref.span_basis(K.U, p, K.span_of_break(K1.parent[j]), t), H)
        got = J(t, **({'fields': True} if nf else {}))
        if nf: A.claim_eq('fields', got[1], vec([V[4+c]/V[3] for c in range(nf)])); got = got[0]
        A.claim_eq('span %d' % j, got, vec([V[c]/V[3] for c in range(3)]))

def h_kink(A, p1, p2, off):
    """Almost straight pieces that meet in a slight kink: it must not be smoothed away (beyond the removal tolerance)."""
    e = A.real('e', Fraction(1, 10000), 1, nice=(Fraction(1, 1000), 1))
    mk = lambda p, x0, e: A.NURBS([A.arr(vec([A.num(0)]*(p+1) + [A.num(p)]*(p+1)))], A.arr(np.array([[A.num(x0+i), e*i, A.num(off)] for i in range(p+1)], dtype=object)))
    J = A.cad.join(mk(p1, -p1, A.num(0)), mk(p2, 0, e), 0)
    for i in range(4):
        t = A.num(Fraction(p1*(2*i+1), 8))
        A.claim_eq('first', J(t), vec([t-p1, 0*t, A.num(off)]))
        t = A.num(Fraction(p2*(2*i+1), 8))
        A.claim_eq('second', J(t+p1), vec([t, t*e, A.num(off)]))

def h_bad(A, what):
    o1, _ = objn(A, [A.cknots(1, [2, 2])], name='P', sym=False); o2, _ = objn(A, [A.cknots(1, [2, 2])]*2, name='Q', sym=False); of, _ = objn(A, [A.cknots(1, [2, 2])], name='R', sym=False, nf=1)
    j = A.cad.join
    A.refused(what, {'dims': lambda: j(o1, o2, 0), 'axis': lambda: j(o1, o1, 1), 'axis-': lambda: j(o2, o2, -1), 'axis2': lambda: j(o2, o2, 2), 'fields': lambda: j(o1, of, 0)}[what])

S = {'l': (1, [2, 2], [1]), 'e': (1, [2, 1, 1, 2], [1, 2, 1]), 'a': (2, [3, 1, 3], [1, 3]), 'a2': (2, [3, 2, 3], [2, 1]), 'q': (2, [3, 3], [2]), 'b': (3, [4, 4], [3]), 'd': (3, [4, 1, 4], [1, 2]), 'g': (4, [5, 1, 5], [1, 1]), 'h': (3, [4, 3, 4], [2, 1]),
     'u': (2, [1]*7, [1, 2, 1, 3, 2, 1]), 'w': (1, [1]*5, [2, 1, 3, 1]), 'x': (3, [1]*8, [1, 2, 1, 4, 1, 2, 1]), 'y': (2, [3, 1, 1, 1, 1], [1, 3, 1, 1]), 'z': (2, [1, 1, 1, 1, 3], [1, 1, 1, 3]), 'B': (5, [6, 1, 6], [1, 3]), 'C': (6, [7, 7], [4]), 'D': (1, [2, 1, 1, 1, 1, 2], [1, 1, 2, 1, 1]), 'E': (4, [1]*10, [1, 1, 2, 1, 4, 2, 1, 1, 1]), 'F': (3, [4, 1, 3, 1, 2, 4], [1, 1, 1, 4, 1])}

def cases(tier):
    th = tier == 'thorough'
    for i, (m1, m2) in enumerate([([2, 2], [2, 2]), ([2, 1, 2], [2, 2]), ([2, 2], [2, 1, 1, 2])]):
        for ratio in (0, 1): yield Case('linear-%d-%d' % (i, ratio), h_lin, m1=m1, m2=m2, nf=i % 2, ratio=ratio)
    PAIRS = ['ll', 'le', 'la', 'al', 'aa', 'ab', 'ba', 'qq', 'bd', 'dg', 'gd', 'lg', 'gq', 'hb', 'bh', 'uu', 'ua', 'au', 'ww', 'we', 'ew', 'wx', 'xu', 'xd', 'ub', 'ya', 'yu', 'az', 'zy', 'yz', 'xg', 'gu', 'DB', 'BD', 'Ca', 'uC', 'EE', 'Ea', 'bE', 'FD', 'EF', 'FF', 'BC']
    n = 0
    for pr in PAIRS:
        for v in range(3):
            n += 1
            kw = [dict(ratio=1, shift=0, wts=(1,)), dict(ratio=1, shift='sym', wts=(1, 2, Fraction(1, 2))), dict(ratio=Fraction(3, 2), shift=Fraction(-5, 2), wts=(1, 3))][v]
            yield Case('curve-%s-%d' % (pr, v), h_join, k1=S[pr[0]], k2=S[pr[1]], nf=n % 2, seed=n, **kw)
    ND = [('al', 2, 0, ['e']), ('la', 2, 1, ['q']), ('ub', 2, 1, ['a']), ('ay', 2, 0, ['u']), ('qq', 3, 1, ['l', 'a']), ('lu', 3, 2, ['q', 'l']), ('ba', 3, 0, ['l', 'e']), ('al', 2, 1, ['q']), ('bq', 3, 2, ['l', 'l']), ('gl', 2, 1, ['u'])]
    for i, (pr, dim, ax, oth) in enumerate(ND):
        for v in range(4):
            n += 1
            ro = [None, (1, 'e'), (0, 'e'), (1, 'r', [Fraction(1, 2)])][v]
            if v == 3:
                p, m, g = S[oth[0]]; K = Knots(p, [0]*len(m), m)
                lo = sum(g[:K.lo]); ro = (i % 2, 'r', None)
            yield Case('nd-%d-%s-%d' % (i, pr, v), h_nd, k1=S[pr[0]], k2=S[pr[1]], axis=ax, other=[S[o] for o in oth], ro=ro, nf=v % 2, seed=n, ratio=[1, Fraction(1, 2)][(i+v) % 2], shift=[0, 'sym', 3][n % 3], cells=[0, 1] if th else [n])
    Q = Fraction(1, 16)
    for i, (pr, ax, oth) in enumerate([('ll', 0, ['l']), ('al', 1, ['q']), ('aa', 0, ['q', 'l']), ('lu', 1, ['l']), ('qe', 2, ['b', 'l'])]):
        for v, tw in enumerate([([4*Q], [12*Q]), ([3*Q, 8*Q], [8*Q, 9*Q])] + ([([5*Q]*2, [11*Q, 12*Q])] if oth[0] != 'l' else [])):
            n += 1
            yield Case('twist-%d-%s-%d' % (i, pr, v), h_join, k1=S[pr[0]], k2=S[pr[1]], axis=ax, other=[S[o] for o in oth], twist=tw, nf=v % 2, seed=n, ratio=1, shift=0, cells=[0, 1] if th else [n])
    for p, m, g in ((1, [2, 1, 2], [1, 2]), (2, [3, 1, 3], [1, 3]), (2, [3, 2, 3], [2, 1]), (3, [4, 1, 4], [2, 1]), (2, [1]*7, [1, 2, 1, 3, 2, 1])):
        K = Knots(p, [0]*len(m), m)
        locs = [(j, 0) for j in range(K.lo, K.hi)] + [('b', j) for j in range(K.lo+1, K.hi)]
        for l in locs: yield Case('split-p%d-%s-%s' % (p, ''.join(map(str, m)), ''.join(map(str, l))), h_split, p=p, m=m, gaps=g, loc=l, sym=p < 3 and m[0] > 1 and not (l[0] == 'b' and m[l[1]] > 1), nf=int(p == 2 and l[0] == 'b'))
    for i, (p1, p2) in enumerate([(1, 1), (2, 2), (3, 3), (1, 2), (3, 2)]): yield Case('kink-%d%d' % (p1, p2), h_kink, p1=p1, p2=p2, off=i % 2*100)
    for w in ('dims', 'axis', 'axis-', 'axis2', 'fields'): yield Case('refused-' + w, h_bad, what=w)

def h_nd(A, k1, k2, axis, other, ro, nf, seed, ratio, shift, cells):
    if ro is not None and ro[1] == 'r':
        K = A.cknots(*other[0][:2], seed=seed+5, name='W0', gaps=other[0][2])
        ro = (ro[0], 'r', [K.fr[K.lo] + (K.fr[K.lo+1]-K.fr[K.lo])*Fraction(1, 2)])
    h_join(A, k1, k2, axis=axis, nf=nf, ratio=ratio, shift=shift, seed=seed, other=other, raise_other=ro, cells=cells)
