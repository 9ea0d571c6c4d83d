"""C11 Derivatives are the true derivatives of the evaluated map."""
import itertools, math
from .common import *
from engine.ref import Jet, multi_indices, span_basis

BOUNDS = ('orders 1..4 of geometry, stored fields and given scalar/vector fields. Curves: degree 1..6, knots, weights, net, fields and parameter symbolic (knots fixed above degree 2); '
          'surfaces and volumes: degrees 1..4 with fixed irregular knots, symbolic net/field and one or all parameters symbolic, weights symbolic up to order 2 and fixed rationals above; '
          'parameters inside spans, at both ends and at breaks smooth enough; mapped gradient with symbolic geometry (bilinear, trilinear) and with fixed geometry')
OUTSIDE = 'degree > 6 (curves), > 4 (surfaces, volumes); mapped gradient where the Jacobian is singular; floating-point rounding'

def jets(K, k, t, order):
    """Univariate derivatives of the basis: {i: [N^(0)/0!, N^(1)/1!, ...]}."""
    j = Jet({(0,): t, (1,): 1}, 1, order)
    return {i: [b.c.get((o,), 0) if isinstance(b, Jet) else (b if o == 0 else 0) for o in range(order+1)] for i, b in span_basis(K.U, K.p, k, j).items()}

def rational(Ks, pts, W, Fc, order, dev=False):
    """Jet of sum N w F / sum N w for each component (Fc[..., c])."""
    n = len(Ks)
    B = [jets(K, k, t, order) for K, (t, k) in zip(Ks, pts)]
    if dev: B = [{i: b[:4] + [b[3]/4] for i, b in B[0].items()}]   # known finding: third basis derivatives in place of the fourth
    idx = multi_indices(n, order)
    nc = Fc.shape[-1]
    den = {a: 0 for a in idx}; num = [{a: 0 for a in idx} for _ in range(nc)]
    for i in itertools.product(*[sorted(b) for b in B]):
        for a in idx:
            v = 1
            for d in range(n): v = v*B[d][i[d]][a[d]]
            if isinstance(v, int) and v == 0: continue
            v = v*W[i]
            den[a] = den[a] + v
            for c in range(nc): num[c][a] = num[c][a] + v*Fc[i+(c,)]
    D = Jet(den, n, order)
    return [Jet(x, n, order)/D for x in num]

def expect(Ks, locs, W, Fc, order, mapped=None, A=None, dev=False):
    pts = [[where(K, l) for l in ls] for K, ls in zip(Ks, locs)]
    n = len(Ks)
    shape = tuple(len(p) for p in pts)
    nc = Fc.shape[-1]
    out = np.empty(shape + (nc,) + (n,)*order, dtype=object)
    for g in np.ndindex(*shape):
        q = rational(Ks, [pts[d][g[d]] for d in range(n)], W, Fc, order, dev)
        for c in range(nc):
            for dd in itertools.product(range(n), repeat=order):
                out[g+(c,)+dd] = q[c].deriv(tuple(dd.count(k) for k in range(n)))
        if mapped is not None:
            X = rational(Ks, [pts[d][g[d]] for d in range(n)], W, mapped, 1)
            J = [[X[r].deriv(tuple(int(k == s) for k in range(n))) for s in range(n)] for r in range(n)]   # dx_r/du_s
            det = determinant(J)
            A.nonzero(det)
            for c in range(nc):
                d = [out[g+(c, s)] for s in range(n)]
                for r in range(n):
                    # solve sum_r D_r dx_r/du_s = d_s by Cramer's rule
                    M = [[(d[s] if q_ == r else J[q_][s]) for q_ in range(n)] for s in range(n)]
                    out[g+(c, r)] = determinant(M)/det
    return out

def determinant(M):
    n = len(M)
    if n == 1: return M[0][0]
    tot = 0
    for j in range(n):
        m = determinant([[M[r][c] for c in range(n) if c != j] for r in range(1, n)])
        tot = tot + (M[0][j]*m if j % 2 == 0 else -(M[0][j]*m))
    return tot

def run(A, Ks, locs, scalar, order, what, meth, mapped=False, symw=True, symf=True, seed=3, symx=False, true=False):
    n = len(Ks)
    shape = tuple(K.n+1 for K in Ks)
    nf = {'points': 0, 'stored': 2, 'stored1': 1, 'vec': 1, 'sc': 0}[what]
    wv = np.empty(shape, dtype=object); P = np.empty(shape+(3,), dtype=object); Fs = np.empty(shape+(nf,), dtype=object)
    cst = A.objs(A.consts(seed, shape+(8,)))
    symP = what == 'points' and symf or symx
    for i in np.ndindex(*shape):
        s = '_'.join(map(str, i))
        wv[i] = A.weight('w'+s) if symw else A.num(Fraction((sum(i)*3+i[0]*2+i[-1]) % 5+2, 3))
        for c in range(3):
            base = A.num(Fraction(2*i[c]) if c < n else 0) if mapped else A.num(0)
            P[i+(c,)] = A.ctrl('P%s%s' % (s, 'xyz'[c])) if symP and (not mapped or symx) else (base + cst[i+(c,)]/(8 if mapped else 1))
        for c in range(nf): Fs[i+(c,)] = A.ctrl('f%s_%d' % (s, c)) if symf and what != 'vec' else cst[i+(3+c,)]
    Cw = np.concatenate([P*wv[..., None], wv[..., None]], axis=-1)
    o = A.NURBS([A.arr(K.U) for K in Ks], A.arr(Cw), fields=A.arr(Fs) if nf else None)
    kw = {}
    if what == 'points': Fc = P
    elif what.startswith('stored'): Fc = Fs
    else:
        nc = 2 if what == 'vec' else 1
        Fc = np.empty(shape+(nc,), dtype=object)
        for i in np.ndindex(*shape):
            for c in range(nc): Fc[i+(c,)] = A.ctrl('F%s_%d' % ('_'.join(map(str, i)), c)) if symf else cst[i+(5+c,)]
        kw['fields'] = A.arr(Fc if nc > 1 else Fc[..., 0])
    pts = [[where(K, l)[0] for l in ls] for K, ls in zip(Ks, locs)]
    for d, s in enumerate(scalar): kw['uvw'[d]] = pts[d][0] if s else A.arr(vec(pts[d]))
    if mapped: kw['mapped'] = True
    want = expect(Ks, locs, wv, Fc, order, P if mapped else None, A)
    if what == 'sc': want = want[(slice(None),)*n + (0,)]
    ix = tuple(0 if s else slice(None) for s in scalar)
    want = want[ix]
    if meth == 'derivative': got = o.derivative(order, **kw)
    else: got = getattr(o, {1: 'gradient', 2: 'hessian'}[order])(**kw)
    if n == 1 and order == 4 and not true:
        # exact, or exactly the known finding (the cases 1d-true-* tell which)
        alt = expect(Ks, locs, wv, Fc, order, None, A, dev=True)
        if what == 'sc': alt = alt[(slice(None),)*n + (0,)]
        A.claim_either('%s of order %d' % (meth, order), got, want, alt[ix])
    else: A.claim_eq('%s of order %d' % (meth, order), got, want)
    A.claim_eq('net untouched', o.array[..., :4], Cw)

def locs_of(K, order):
    out = [('b', K.lo), (K.lo, 0), ('e',)]
    for j in range(K.lo+1, K.hi):
        out.append((j, 0))
        if K.p - K.mults[j] >= order: out.append(('b', j))
    return out

def h1(A, p, mults, loc, symk, **kw):
    K = (A.knots(p, mults, sites=loc_sites([loc])) if symk else A.cknots(p, mults, seed=3, sites=loc_sites([loc])))
    run(A, [K], [[loc]], [kw.pop('scalar')], **kw)

def hn(A, degs, mults, locs, scalar, fixed=(), **kw):
    """fixed: axes whose inner sites are fixed numbers."""
    Ks = []
    for d, (p, m) in enumerate(zip(degs, mults)):
        if d in fixed:
            K = A.cknots(p, m, seed=d+2, name='U%d' % d)
            K.site = {}
            for l in locs[d]:
                if l[0] not in ('b', 'e'):
                    a, b = K.fr[l[0]], K.fr[l[0]+1]
                    K.site[l] = A.num(a + (b-a)*Fraction(3+l[1], 7))
        else: K = A.cknots(p, m, seed=d+2, name='U%d' % d, sites=loc_sites(locs[d]))
        Ks.append(K)
    run(A, Ks, locs, scalar, **kw)

def h_refused(A, dim, order, meth):
    """A mapped derivative of order > 1 is refused with an exception (the process goes on)."""
    Ks = [A.cknots(2, [3, 3], seed=d+2, name='U%d' % d) for d in range(dim)]
    o, H = objn(A, Ks, sym=False)
    if meth == 'hessian': A.refused('mapped hessian', lambda: o.hessian(u=0.5, mapped=True) if dim == 1 else o.hessian(mapped=True))
    else: A.refused('mapped derivative', lambda: o.derivative(order, mapped=True))
    A.claim_eq('net untouched', o.array, H)

def h_order(A, order):
    Ks = [A.cknots(2, [3, 3])]
    o, H = objn(A, Ks, sym=False)
    A.refused('order %r' % (order,), lambda: o.derivative(order))

def h_default(A, dim, order, nf, sq):
    """No parameters: the Greville points; the default field."""
    degs, ms = [(2,), (1, 2), (1, 1, 1)][dim-1], [([3, 1, 3],), ([2, 2], [3, 3]), ([2, 2],)*3][dim-1]
    Ks = [A.cknots(p, m, seed=d+2, name='U%d' % d) for d, (p, m) in enumerate(zip(degs, ms))]
    o, H = objn(A, Ks, nf=nf)
    Fc = np.empty(H.shape[:-1] + (nf or 3,), dtype=object)
    for i in np.ndindex(*H.shape[:-1]):
        for c in range(Fc.shape[-1]): Fc[i+(c,)] = H[i+((4 if nf else 0)+c,)]/H[i+(3,)]
    locs = []
    for K in Ks:
        K.site = {}
        l = []
        for i in range(K.n+1):
            g = sum(K.fr[K.of[i+1+k]] for k in range(K.p))/K.p
            j = [j for k, j in K.spans if K.fr[j] <= g][-1]
            if g == K.fr[K.hi]: l.append(('e',))
            elif g == K.fr[j]: l.append(('b', j))
            else: K.site[j, i] = A.num(g); l.append((j, i))
        locs.append(l)
    got = o.gradient() if order == 1 else o.hessian() if order == 2 else o.derivative(order)
    A.claim_eq('default parameters', got, expect(Ks, locs, H[..., 3], Fc, order))

WH = ['points', 'stored', 'vec', 'sc', 'stored1']

def cases(tier):
    th = tier == 'thorough'
    n = 0
    S1 = {1: [[2, 2], [2, 1, 2], [1, 1, 1, 1]], 2: [[3, 3], [3, 1, 3], [1]*6, [3, 2, 3]], 3: [[4, 4], [4, 1, 4], [1]*8], 4: [[5, 5], [5, 2, 5], [1]*10], 5: [[6, 1, 6], [6, 4, 2, 6]], 6: [[7, 7]]}
    for p in S1:
        for m in S1[p]:
            K = Knots(p, [0]*len(m), m)
            for order in (1, 2, 3, 4):
                for l in locs_of(K, order):
                    n += 1
                    yield Case('1d-p%d-%s-o%d-%s' % (p, ''.join(map(str, m)), order, ''.join(map(str, l))), h1, p=p, mults=m, loc=l, symk=p <= 2, order=order,
                               what=WH[n % 5], meth='derivative' if order > 2 or n % 2 else '', scalar=n % 3 == 0, symw=p < 4 or order < 3 and p < 5)
    ND2 = [((1, 1), ([2, 2], [2, 1, 2])), ((2, 2), ([3, 1, 3], [3, 3])), ((1, 3), ([2, 2], [4, 1, 4])), ((3, 2), ([4, 4], [1]*6)), ((4, 4), ([5, 5], [5, 5])), ((4, 1), ([5, 5], [2, 2]))]
    for degs, ms in ND2:
        Ks = [Knots(p, [0]*len(m), m) for p, m in zip(degs, ms)]
        for order in (1, 2, 3, 4):
            for v in range(3 if not th else 6):
                n += 1
                L = [locs_of(K, order) for K in Ks]
                locs = [[L[0][(v+1) % len(L[0])]], [L[1][(2*v+1) % len(L[1])]]]
                symw = sum(degs) <= 4 and order <= 2
                yield Case('2d-%s-o%d-%d' % (''.join(map(str, degs)), order, v), hn, degs=degs, mults=ms, locs=locs, scalar=(n % 2 == 0, n % 3 == 0), order=order,
                           what=WH[n % 5], meth='derivative' if order > 2 or n % 2 else '', symw=symw, fixed=() if symw or order < 3 and sum(degs) < 6 else ((v % 2),) if sum(degs) < 6 or order < 3 else (0, 1))
    ND3 = [((1, 1, 1), ([2, 2], [2, 2], [2, 1, 2])), ((2, 2, 2), ([3, 3], [3, 3], [3, 3])), ((1, 2, 3), ([2, 2], [3, 3], [4, 4])), ((4, 1, 1), ([5, 5], [2, 2], [2, 2])),
           ((1, 4, 1), ([2, 2], [5, 5], [2, 2])), ((1, 1, 4), ([2, 2], [2, 2], [5, 5])), ((3, 1, 2), ([4, 4], [2, 1, 2], [3, 3]))]
    for degs, ms in ND3:
        Ks = [Knots(p, [0]*len(m), m) for p, m in zip(degs, ms)]
        for order in (1, 2, 3, 4):
            for v in range(2):
                n += 1
                L = [locs_of(K, order) for K in Ks]
                locs = [[L[0][(v+1) % len(L[0])]], [L[1][(2*v+1) % len(L[1])]], [L[2][1 if v == 0 else -1]]]
                lin = order <= 2 and sum(degs) < 4
                yield Case('3d-%s-o%d-%d' % (''.join(map(str, degs)), order, v), hn, degs=degs, mults=ms, locs=locs, scalar=(n % 2 == 0, n % 3 == 0, n % 5 == 0), order=order,
                           what=WH[n % 5] if order < 3 else ('sc', 'stored1')[n % 2], meth='derivative' if order > 2 or n % 2 else '', symw=lin and order == 1,
                           fixed=(1, 2) if lin else (0, 1, 2))
    for p, m, l in [(4, [5, 5], (0, 0)), (4, [5, 1, 5], ('e',)), (2, [3, 3], (0, 0)), (1, [2, 2], (0, 0))]:
        yield Case('1d-true-p%d-%s' % (p, ''.join(map(str, m))), h1, p=p, mults=m, loc=l, symk=p == 1, order=4, what='sc', meth='derivative', scalar=True, symw=p < 4, true=True)
    # arrays of parameters
    yield Case('2d-arrays', hn, degs=(2, 1), mults=([3, 1, 3], [2, 2]), locs=[[(0, 0), ('b', 1), ('e',)], [('b', 0), (0, 0)]], scalar=(False, False), order=1, what='stored', meth='', symw=False)
    yield Case('3d-arrays', hn, degs=(1, 2, 1), mults=([2, 2], [3, 3], [2, 1, 2]), locs=[[(0, 0), ('e',)], [(0, 0)], [(1, 0), ('b', 0)]], scalar=(False, True, False), order=2, what='vec', meth='', symw=False, fixed=(0, 1, 2))
    mix = lambda l: [l[-1], l[1], l[len(l)//2], l[0], l[1]]       # no order, with a repetition
    for degs, ms in [((2,), ([3, 1, 1, 3],)), ((2, 1), ([3, 1, 3], [2, 1, 2])), ((1, 2, 1), ([2, 1, 2], [3, 1, 3], [2, 1, 2]))]:
        for order in (1, 2, 3, 4):
            L = [mix(locs_of(Knots(p, [0]*len(m), m), order)) for p, m in zip(degs, ms)]
            if len(degs) == 2: L = [l[:4-d] for d, l in enumerate(L)]
            if len(degs) == 3: L = [l[:2] for l in L]
            for mapped in (False, True) if order == 1 else (False,):
                yield Case('%dd-unordered-o%d%s' % (len(degs), order, '-mapped'*mapped), hn, degs=degs, mults=ms, locs=L, scalar=(False,)*len(degs), order=order, what='sc' if order > 2 else 'vec',
                           meth='' if order == 1 else 'derivative', mapped=mapped, symw=False, fixed=tuple(range(len(degs))))
    # mapped gradients
    for p, m in [(1, [2, 2]), (2, [3, 3]), (2, [3, 1, 3]), (3, [4, 4])]:
        for l in locs_of(Knots(p, [0]*len(m), m), 1):
            n += 1
            yield Case('mapped-1d-p%d-%s-%s' % (p, ''.join(map(str, m)), ''.join(map(str, l))), h1, p=p, mults=m, loc=l, symk=p < 2, order=1, what=('vec', 'sc', 'stored', 'points')[n % 4], meth='derivative' if n % 2 else '',
                       scalar=n % 3 == 0, mapped=True, symx=p < 3 and n % 4 != 3, symw=p < 3)
    for degs, ms, symx, symw, fixed in [((1, 1), ([2, 2], [2, 2]), True, False, ()), ((1, 1), ([2, 2], [2, 2]), False, True, ()), ((2, 1), ([3, 1, 3], [2, 2]), False, False, ()),
                                        ((2, 3), ([3, 3], [4, 4]), False, False, (0,)), ((1, 1, 1), ([2, 2],)*3, True, False, (0, 1, 2)), ((1, 1, 1), ([2, 2],)*3, False, False, (1, 2)),
                                        ((2, 1, 2), ([3, 3], [2, 1, 2], [3, 3]), False, False, (0, 1, 2))]:
        Ks = [Knots(p, [0]*len(m), m) for p, m in zip(degs, ms)]
        for v in range(2):
            n += 1
            L = [locs_of(K, 1) for K in Ks]
            yield Case('mapped-%dd-%s-%d%d%d' % (len(degs), ''.join(map(str, degs)), symx, symw, v), hn, degs=degs, mults=ms, locs=[[L[d][(v+1+d*v) % len(L[d])]] for d in range(len(degs))],
                       scalar=[v == 0]*len(degs), order=1, what='sc' if symx else ('vec', 'stored')[v], meth='derivative' if v else '', mapped=True, symx=symx, symw=symw, fixed=fixed)
    for dim in (1, 2, 3):
        for order in (2, 3, 4):
            for fn in ('hessian', 'derivative') if order == 2 else ('derivative',):
                yield Case('refused-%d-%d-%s' % (dim, order, fn), h_refused, dim=dim, order=order, meth=fn)
        for order in (1, 2, 3):
            yield Case('default-%d-%d' % (dim, order), h_default, dim=dim, order=order, nf=order % 2, sq=False)
    for order in (0, 5, -1): yield Case('order%d' % order, h_order, order=order)
