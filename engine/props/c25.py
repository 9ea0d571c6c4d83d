"""C25 Construction and accessors are mutually consistent."""
from .common import *

MODULES = ('nurbs', 'transform')
BOUNDS = ('1-3 dimensions, degree 1-3, clamped and unclamped structures, symbolic control points, weights and fields, symbolic knots (curves); control points of 2, 3 or 4 components or none, '
          'weights (of one sign) absent, separate, or in a pair, scalar, one-component and three-component fields or none; lists, tuples, arrays, integer arrays, non-contiguous arrays; '
          'malformed input of every kind the constructor looks at; accessors of the object, its copy and its clone')
OUTSIDE = 'objects built without control points over unclamped knots; zero weights; a pair of two points given as a tuple (read as points and weights)'

def nest(a):
    return [nest(x) for x in a] if isinstance(a, np.ndarray) else a

def give(A, a, form):
    """An argument in the given form."""
    if form == 'list': return nest(a)
    if form == 'view':                      # a transposed (non-contiguous) array
        n = a.ndim
        b = A.arr(np.ascontiguousarray(np.transpose(a, list(range(n))[::-1])))
        return b.transpose(list(range(n))[::-1])
    if form == 'strided':
        b = np.empty(a.shape[:-1]+(2*a.shape[-1],), dtype=object)
        b[..., ::2] = a; b[..., 1::2] = a*3+1
        return A.arr(b)[..., ::2]
    return A.arr(a)

def check(A, o, Ks, P, W, F, what=''):
    """Everything the object tells about itself."""
    dim = len(Ks)
    shape = tuple(K.n+1 for K in Ks)
    A.claim(what+'dim', o.dim == dim)
    A.claim(what+'shape', tuple(o.shape) == shape)
    A.claim(what+'degree', tuple(o.degree) == tuple(K.p for K in Ks))
    A.claim(what+'one knot vector per axis', len(o.knots) == dim)
    for i, K in enumerate(Ks): A.claim_eq(what+'knots of axis %d' % i, o.knots[i], vec(K.U))
    A.claim_eq(what+'points', o.points, P)
    A.claim_eq(what+'weights', o.weights, W)
    H = np.concatenate([P*W[..., None], W[..., None]], axis=-1)
    A.claim_eq(what+'control', o.control, H)
    if F is None:
        A.claim(what+'no fields', o.fields is None)
        A.claim_eq(what+'array', o.array, H)
    else:
        A.claim_eq(what+'fields', o.fields, F)
        A.claim_eq(what+'array', o.array, np.concatenate([H, F*W[..., None]], axis=-1))

def data(A, shape, n, name, f):
    a = np.empty(tuple(shape)+((n,) if n else ()), dtype=object)
    for i in np.ndindex(*a.shape): a[i] = f('%s%s' % (name, '_'.join(map(str, i))))
    return a

def build(A, ps, ms, sdim, wt, fld, form, symk=False, wsign=1):
    Ks = [A.knots(p, m, name='V%d' % i) if symk else A.cknots(p, m, seed=i+1, name='V%d' % i) for i, (p, m) in enumerate(zip(ps, ms))]
    shape = tuple(K.n+1 for K in Ks)
    kform = 'list' if form in ('list', 'view') else 'array'
    knots = [give(A, vec(K.U), kform) for K in Ks]
    if form == 'list': knots = tuple(knots)
    kw = {}
    zero, one = A.num(0), A.num(1)
    X = data(A, shape, min(sdim, 3), 'P', A.ctrl)
    P = np.empty(shape+(3,), dtype=object); P[...] = zero
    P[..., :min(sdim, 3)] = X
    W = np.empty(shape, dtype=object); W[...] = one
    if sdim == 4 or wt != 'none': W = data(A, shape, 0, 'w', A.weight)*wsign
    if sdim == 4: C = np.concatenate([X*W[..., None], W[..., None]], axis=-1)
    else: C = X
    C = give(A, C, form)
    if wt == 'arg': kw['weights'] = give(A, W, form if form != 'strided' else 'array')
    if wt == 'pair': C = (C, give(A, W, form if form != 'strided' else 'array'))
    F = None
    if fld is not None:
        G = data(A, shape, fld, 'f', A.ctrl)
        F = G if fld else G[..., None]
        kw['fields'] = give(A, G, form)
    o = A.NURBS(knots, C, **kw)
    check(A, o, Ks, P, W, F)
    check(A, o.copy(), Ks, P, W, F, 'copy: ')
    check(A, o.clone(), Ks, P, W, F, 'clone: ')
    A.claim('copy is another object', o.copy() is not o and o.clone() is not o)
    # rebuilt from what it tells
    o2 = A.NURBS(o.knots, o.control, fields=o.fields)
    check(A, o2, Ks, P, W, F, 'from control: ')
    o3 = A.NURBS(o.knots, o.points, weights=o.weights, fields=o.fields)
    check(A, o3, Ks, P, W, F, 'from points: ')
    o4 = A.NURBS(o.knots, (o.points, o.weights), o.fields)
    check(A, o4, Ks, P, W, F, 'from pair: ')
    o5 = A.NURBS(o.knots, o.array[..., :4])
    check(A, o5, Ks, P, W, None, 'from part of array: ')

def bare(A, ps, ms, symk):
    """Without control points: the Greville grid."""
    Ks = [A.knots(p, m, name='V%d' % i) if symk else A.cknots(p, m, seed=i+1, name='V%d' % i) for i, (p, m) in enumerate(zip(ps, ms))]
    o = A.NURBS([A.arr(K.U) for K in Ks])
    shape = tuple(K.n+1 for K in Ks)
    P = np.empty(shape+(3,), dtype=object); P[...] = A.num(0)
    for i in np.ndindex(*shape):
        for c, K in enumerate(Ks): P[i+(c,)] = sum(K.U[i[c]+1:i[c]+K.p+1], 0*K.U[0])/K.p
    W = np.empty(shape, dtype=object); W[...] = A.num(1)
    check(A, o, Ks, P, W, None)
    F = data(A, shape, 2, 'f', A.ctrl)
    check(A, A.NURBS([A.arr(K.U) for K in Ks], fields=A.arr(F)), Ks, P, W, F, 'with fields: ')
    check(A, A.NURBS([A.arr(K.U) for K in Ks], None, A.arr(F)), Ks, P, W, F, 'with fields: ')

def integers(A):
    o = A.NURBS([[0, 0, 0, 1, 2, 2, 2]], np.array([[0, 1], [2, 3], [4, 5], [6, 7]], 'i'), fields=np.array([1, 2, 3, 4], 'i'))
    q = A.num(Fraction(1, 2))
    A.claim_eq('value of integer data', o(q), vec([A.num(Fraction(7, 4)), A.num(Fraction(11, 4)), A.num(0)]))
    o = A.NURBS([np.array([0, 0, 1, 1], 'i')], [[0, 0], [1, 0]], weights=[2, 4])
    A.claim_eq('integer weights', o.weights, vec([2, 4]))
    A.claim_eq('integer points', o.control, np.array([[0, 0, 0, 2], [4, 0, 0, 4]], dtype=object))
    o.insert(0, q)
    A.claim_eq('knots after insertion', o.knots[0], vec([0, 0, Fraction(1, 2), 1, 1]) if A.mode == 'sym' else np.array([0, 0, .5, 1, 1]))

def bad(A, dim):
    N = A.NURBS
    U = [0, 0, 1, 1]
    V = [0, 0, 0, 1, 1, 1]
    ks = [U, V, U][:dim]
    sh = (2, 3, 2)[:dim]
    z = lambda *s: A.arr(np.ones(s, dtype=object)*A.num(1))
    B = {
        'no knots': lambda: N([], z(2)), 'four axes': lambda: N([U]*4, z(2, 2, 2, 2, 3)), 'no knots, no points': lambda: N([]),
        'short knots': lambda: N([[0, 1, 1]] + ks[1:], z(*(2,)+sh[1:]+(2,))), 'knot matrix': lambda: N([[U, U]]+ks[1:], z(*sh+(2,))), 'scalar knots': lambda: N([1.0]+ks[1:], z(*sh+(2,))),
        'one component': lambda: N(ks, z(*sh+(1,))), 'five components': lambda: N(ks, z(*sh+(5,))), 'flat points': lambda: N(ks, z(4)),
        'missing axis of points': lambda: N(ks, z(*sh[1:]+(3,))) if dim > 1 else N(ks, z(3)), 'extra axis of points': lambda: N(ks, z(*sh+(2, 3))),
        'too many points': lambda: N(ks, z(*(sh[0]+1,)+sh[1:]+(3,))), 'too many points on the last axis': lambda: N(ks, z(*sh[:-1]+(sh[-1]+3,)+(3,))),
        'weights of another shape': lambda: N(ks, z(*sh+(3,)), weights=z(*sh+(1,))), 'weights of another size': lambda: N(ks, z(*sh+(2,)), weights=z(*(sh[0]+1,)+sh[1:])),
        'one weight': lambda: N(ks, z(*sh+(3,)), weights=z(1)), 'scalar weight': lambda: N(ks, z(*sh+(3,)), weights=A.num(2)),
        'weights twice': lambda: N(ks, (z(*sh+(3,)), z(*sh)), weights=z(*sh)), 'weights of homogeneous points': lambda: N(ks, z(*sh+(4,)), weights=z(*sh)),
        'pair with homogeneous points': lambda: N(ks, (z(*sh+(4,)), z(*sh))), 'weights without points': lambda: N(ks, weights=z(*sh)),
        'pair with weights of another shape': lambda: N(ks, (z(*sh+(3,)), z(*sh+(1,)))),
        'fields of another size': lambda: N(ks, z(*sh+(3,)), fields=z(*(sh[0]+1,)+sh[1:])), 'fields of another shape': lambda: N(ks, z(*sh+(3,)), fields=z(*sh[::-1]+(2, 2))),
        'fields of too many axes': lambda: N(ks, z(*sh+(3,)), fields=z(*sh+(2, 2))), 'scalar fields': lambda: N(ks, z(*sh+(3,)), fields=A.num(1)), 'one field value': lambda: N(ks, z(*sh+(3,)), fields=z(1)),
        'fields per component': lambda: N(ks, z(*sh+(3,)), fields=z(*(2,)+sh)) if dim > 1 else N(ks, z(2, 3), fields=z(3, 2)),
        'fields without points': lambda: N(ks, fields=z(*(sh[0]+1,)+sh[1:])),
    }
    for what, f in B.items(): A.refused(what, f)

STR = [((1,), ([2, 2],)), ((2,), ([3, 1, 3],)), ((3,), ([4, 4],)), ((2,), ([1]*6,)), ((3,), ([2, 2, 1, 2, 2],)), ((1,), ([1]*4,)),
       ((1, 2), ([2, 1, 2], [3, 3])), ((2, 1), ([1]*6, [2, 2])), ((3, 2), ([4, 4], [3, 3])), ((1, 1), ([2, 2], [2, 2])),
       ((1, 2, 1), ([2, 2], [3, 3], [2, 1, 2])), ((2, 1, 1), ([3, 3], [2, 2], [1]*4)), ((1, 1, 1), ([2, 2], [2, 2], [2, 2]))]

def cases(tier):
    for s, (ps, ms) in enumerate(STR):
        for sdim in (2, 3, 4):
            for wt in (('none',) if sdim == 4 else ('none', 'arg', 'pair')):
                for fld in (None, 0, 1, 3):
                    for f, form in enumerate(('array', 'list', 'view', 'strided')):
                        if tier == 'quick' and len(ps) > 1 and (s+sdim+len(wt)+(fld or 0)+f) % 2: continue
                        yield Case('build-%d-%d-%s-%s-%s' % (s, sdim, wt, fld, form), build, ps=ps, ms=ms, sdim=sdim, wt=wt, fld=fld, form=form, symk=len(ps) == 1)
        if all(m[0] == p+1 for p, m in zip(ps, ms)):
            yield Case('bare-%d' % s, bare, ps=ps, ms=ms, symk=True)
    for ps, ms in [((2,), ([3, 1, 3],)), ((1, 2), ([2, 2], [3, 3]))]:
        for wt, sdim in (('arg', 2), ('pair', 3), ('none', 4)):
            yield Case('negative-%d-%s' % (len(ps), wt), build, ps=ps, ms=ms, sdim=sdim, wt=wt, fld=1, form='array', wsign=-1)
    yield Case('integers', integers)
    for dim in (1, 2, 3): yield Case('bad-%d' % dim, bad, dim=dim)
