"""C10 Transposing, swapping, reversing and remapping only reparametrize."""
import itertools
from .common import *

BOUNDS = ('objects of dimension 1..3 with degrees 1..6 (knots fixed above 3), clamped and unclamped knots, all knots, control points, weights and a field symbolic; every permutation, every pair, '
          'every subset of axes (and negative axis numbers); every new domain (symbolic ends, None, equal to the old one); map compared at every parameter; a knot span as short as 2^-30 beside ones of ordinary length, values close to a break but above rounding (2^-30..2^-12 away)')
OUTSIDE = 'degree > 6; floating-point rounding (the ends of a remapped domain are compared over the reals)'

OBJ = {1: [((2,), ([3, 1, 3],)), ((3,), ([1]*8,)), ((1,), ([2, 1, 1, 2],)), ((2,), ([3, 1, 1, 1, 1],)), ((3,), ([4, 2, 1, 4],)), ((2,), ([1, 1, 1, 2, 1, 1, 1],)), ((4,), ([5, 3, 1, 1, 5],)), ((5,), ([1]*12,)), ((6,), ([7, 2, 7],))],
       2: [((2, 1), ([3, 1, 3], [2, 2])), ((1, 3), ([1]*4, [4, 4])), ((1, 1), ([2, 1, 2], [2, 2])), ((4, 1), ([5, 2, 5], [1, 1, 1, 1, 1])), ((2, 3), ([3, 1, 1, 1, 3], [1]*8))],
       3: [((1, 2, 1), ([2, 2], [3, 3], [2, 1, 1, 2])), ((2, 1, 1), ([1]*6, [2, 1, 2], [2, 2]))]}

def knots_of(A, i, small):
    degs, ms, *ty = i
    tiny = lambda d: [('g', g) for e, g in ty if e == d]
    return [A.knots(p, m, name='U%d' % d, tiny=tiny(d)) if small and max(degs) < 4 else A.cknots(p, m, seed=d+2, name='U%d' % d) for d, (p, m) in enumerate(zip(degs, ms))]

def state(A, what, o, Ks, H):
    for d, K in enumerate(Ks): A.claim_eq('%s: knots[%d]' % (what, d), o.knots[d], vec(K.U), tol=1e-11)
    A.claim('%s: number of axes' % what, len(o.knots) == len(Ks))
    A.claim_eq('%s: net' % what, o.array, H)

def perm(A, o, Ks, H, axes): return [Ks[i] for i in axes], np.transpose(H, tuple(axes)+(len(Ks),))

def h_transpose(A, obj, axes, form):
    Ks = knots_of(A, obj, True); o, H = objn(A, Ks, nf=1)
    n = len(Ks)
    x = o.transpose() if form == 'default' else o.transpose(list(axes) if form == 'list' else tuple(axes))
    A.claim('returns the object', x is o)
    K1, H1 = perm(A, o, Ks, H, axes)
    state(A, 'transpose', o, K1, H1)
    inv = [list(axes).index(i) for i in range(n)]
    o.transpose(inv)
    state(A, 'back', o, Ks, H)

def h_eval(A, obj, op):
    """The changed object at the changed parameters is the original at the parameters (fixed knots)."""
    Ks = knots_of(A, obj, False); o, H = objn(A, Ks, nf=0)
    n = len(Ks)
    src = o.copy()
    loc = [[('b', K.lo), ('e',)][i % 2] if i else (K.lo, 0) for i, K in enumerate(Ks)]
    Ks = [A.cknots(K.p, m, seed=d+2, name='U%d' % d, sites=(K.lo,)) for d, (K, m) in enumerate(zip(Ks, obj[1]))]
    locs = [[(K.hi-1, 0) if K.hi-1 == K.lo else ('b', K.hi-1), (K.lo, 0)] for K in Ks]
    val = [[where(K, l)[0] for l in ls] for K, ls in zip(Ks, locs)]
    want, _ = project(ref_points(Ks, locs, H))
    kind, arg = op
    if kind == 'transpose': o.transpose(arg); par = [val[i] for i in arg]; w = np.transpose(want, tuple(arg)+(n,))
    elif kind == 'swap':
        o.swap(*arg); ax = list(range(n)); a, b = ax[arg[0]], ax[arg[1]]; ax[a], ax[b] = ax[b], ax[a]
        par = [val[i] for i in ax]; w = np.transpose(want, tuple(ax)+(n,))
    elif kind == 'reverse':
        o.reverse(*arg); rev = [range(n)[i] for i in arg] or list(range(n))
        par = [[K.a + K.b - v for v in vs] if d in rev else vs for d, (K, vs) in enumerate(zip(Ks, val))]; w = want
    else:
        c, s = A.real('c'), A.gap('s'); o.remap(arg, c, c+s); arg = range(n)[arg]
        par = [[c + (v-K.a)*s/(K.b-K.a) for v in vs] if d == arg else vs for d, (K, vs) in enumerate(zip(Ks, val))]; w = want
    got = o(*[A.arr(v) for v in par])
    A.claim_eq('values', got, w)

def h_swap(A, obj, a, b):
    Ks = knots_of(A, obj, True); o, H = objn(A, Ks, nf=1)
    n = len(Ks)
    x = o.swap(a, b)
    A.claim('returns the object', x is o)
    ax = list(range(n)); i, j = ax[a], ax[b]
    ax[i], ax[j] = ax[j], ax[i]
    K1, H1 = perm(A, o, Ks, H, ax)
    state(A, 'swap', o, K1, H1)
    o.swap(b, a)
    state(A, 'back', o, Ks, H)

def rev(K):
    U = [K.a + K.b - u for u in reversed(K.U)]
    br = [K.a + K.b - b for b in reversed(K.breaks)]
    K1 = Knots(K.p, br, list(reversed(K.mults)))
    K1.parent = [len(br)-2-i for i in range(len(br)-1)] + [None]
    return K1

def h_reverse(A, obj, axes):
    Ks = knots_of(A, obj, True); o, H = objn(A, Ks, nf=1)
    n = len(Ks)
    x = o.reverse(*axes)
    A.claim('returns the object', x is o)
    on = [d for d in range(n) if [range(n)[i] for i in axes].count(d) % 2] if axes else range(n)
    K1 = [rev(K) if d in on else K for d, K in enumerate(Ks)]
    H1 = H
    for d in on: H1 = np.flip(H1, d)
    state(A, 'reverse', o, K1, H1)
    if n == 1 and len(on) and len(o.knots[0]) == len(K1[0].U):
        K, R = Ks[0], rows(H, 0)
        for k, j in K1[0].spans:
            t = K1[0].breaks[j] + (K1[0].breaks[j+1]-K1[0].breaks[j])*A.real('t%d' % j, 0, 1, nice=(Fraction(1, 4), Fraction(3, 4))) if getattr(K, "tiny", False) else K1[0].breaks[j] + A.off('t%d' % j)
            k0 = K.span_of_break(K1[0].parent[j])
            A.claim_eq('reversed map on span %d' % j, vec(comb(ref.span_basis(K1[0].U, K.p, k, t), rows(A.objs(o.array), 0))),
                       vec(comb(ref.span_basis(K.U, K.p, k0, K.a+K.b-t), R)))
    o.reverse(*axes)
    state(A, 'back', o, Ks, H)

def h_remap(A, obj, axis, form):
    Ks = knots_of(A, obj, True); o, H = objn(A, Ks, nf=1)
    K = Ks[axis]
    ax = range(len(Ks))[axis]
    c = d = None
    if form == 'both': c = A.real('c'); d = c + A.gap('g')
    elif form == 'start': c = K.b - A.gap('g')
    elif form == 'end': d = K.a + A.gap('g')
    elif form == 'same': c, d = K.a, K.b
    x = o.remap(axis, c, d)
    A.claim('returns the object', x is o)
    C, D = K.a if c is None else c, K.b if d is None else d
    new = lambda u: C + (u-K.a)*(D-C)/(K.b-K.a)
    K1 = Knots(K.p, [new(b) for b in K.breaks], K.mults)
    state(A, 'remap', o, [K1 if i == ax else k for i, k in enumerate(Ks)], H)
    A.claim_eq('new domain', A.arr([o.knots[axis][K.p], o.knots[axis][len(K.U)-1-K.p]]), vec([C, D]))
    if len(Ks) == 1:
        R = rows(H, 0)
        for k, j in K.spans:
            t = K.breaks[j] + ((K.breaks[j+1]-K.breaks[j])*A.real('t%d' % j, 0, 1, nice=(Fraction(1, 4), Fraction(3, 4))) if getattr(K, "tiny", False) else A.off('t%d' % j))
            A.claim_eq('remapped map on span %d' % j, vec(comb(ref.span_basis(A.objs(o.knots[0]), K.p, k, new(t)), rows(A.objs(o.array), 0))),
                       vec(comb(ref.span_basis(K.U, K.p, k, t), R)))
    o.remap(axis, K.a, K.b)
    state(A, 'back', o, Ks, H)

def cases(tier):
    for p, m, g in TINY:
        obj = ((p,), (m,), (0, g)); nm = 'tiny-p%d-%s-%d' % (p, ''.join(map(str, m)), g)
        yield Case('reverse-' + nm, h_reverse, obj=obj, axes=())
        yield Case('remap-' + nm, h_remap, obj=obj, axis=0, form=('both', 'start', 'end')[g % 3])
    for dim in OBJ:
        for i, obj in enumerate(OBJ[dim]):
            nm = '%dd%d' % (dim, i)
            for k, axes in enumerate(itertools.permutations(range(dim))):
                yield Case('transpose-%s-%s' % (nm, ''.join(map(str, axes))), h_transpose, obj=obj, axes=axes, form='list' if k % 2 else 'tuple')
                if dim > 1: yield Case('eval-transpose-%s-%s' % (nm, ''.join(map(str, axes))), h_eval, obj=obj, op=('transpose', axes))
            yield Case('transpose-%s-default' % nm, h_transpose, obj=obj, axes=tuple(reversed(range(dim))), form='default')
            for a in range(-dim, dim):
                for b in range(-dim, dim):
                    if (a < 0) != (b < 0) and (a+b) % 2: continue
                    yield Case('swap-%s-%d-%d' % (nm, a, b), h_swap, obj=obj, a=a, b=b)
                    if dim > 1 and a < b: yield Case('eval-swap-%s-%d-%d' % (nm, a, b), h_eval, obj=obj, op=('swap', (a, b)))
            for r in range(dim+1):
                for axes in itertools.combinations(range(dim), r):
                    yield Case('reverse-%s-%s' % (nm, ''.join(map(str, axes))), h_reverse, obj=obj, axes=axes)
                    yield Case('eval-reverse-%s-%s' % (nm, ''.join(map(str, axes))), h_eval, obj=obj, op=('reverse', axes))
            yield Case('reverse-%s-neg' % nm, h_reverse, obj=obj, axes=(-1,))
            for j, axes in enumerate(((0, -dim), (-1, 0, -1), (0, 0, 0))): yield Case('reverse-%s-twice%d' % (nm, j), h_reverse, obj=obj, axes=axes)
            if dim == 3: yield Case('reverse-%s-order' % nm, h_reverse, obj=obj, axes=(2, -3))
            for axis in list(range(dim)) + [-1]:
                for form in ('both', 'start', 'end', 'same', 'none'):
                    yield Case('remap-%s-%d-%s' % (nm, axis, form), h_remap, obj=obj, axis=axis, form=form)
                yield Case('eval-remap-%s-%d' % (nm, axis), h_eval, obj=obj, op=('remap', axis))
