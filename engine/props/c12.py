"""C12 Affine transforms act on the geometry and compose as a group."""
import itertools
from .common import *

MODULES = ('nurbs', 'transform')
BOUNDS = ('curves, surfaces and volumes with symbolic nets, weights and fields evaluated at symbolic parameters; general affine matrices with 12 symbolic entries, general 4x4 matrices on the homogeneous coordinates; '
          'symbolic displacements, scales, angles (half-angle tangent in [-8, 8], zero included), right angles and multiples of pi/6, rotation axes: the coordinate axes and symbolic vectors of 1-3 components')
OUTSIDE = 'rotation axis of zero length; values of an object after a non-affine matrix; |angle| beyond 2*atan(8) other than the listed constants; floating-point rounding'

def mk(A, dim, nf=1, sym=True):
    degs, ms = [((2,), ([3, 1, 3],)), ((1, 2), ([2, 2], [3, 3])), ((1, 1, 1), ([2, 2],)*3)][dim-1]
    Ks = [A.cknots(p, m, seed=d+4, name='U%d' % d, sites=(0,) if d == 0 else ()) for d, (p, m) in enumerate(zip(degs, ms))]
    o, H = objn(A, Ks, nf=nf, sym=sym)
    locs = [[(0, 0), ('e',)] if d == 0 else [('b', 0), ('e',)] for d in range(dim)]
    return o, H, Ks, locs

def mat(A, name):
    M = np.empty((4, 4), dtype=object)
    for i in range(4):
        for j in range(4): M[i, j] = A.real('%s%d%d' % (name, i, j), -8, 8, nice=(-2, 2)) if i < 3 else A.num(int(i == j))
    return M

def mm(X, Y): return np.array([[sum((X[i, k]*Y[k, j] for k in range(Y.shape[0])), 0*X[i, 0]) for j in range(Y.shape[1])] for i in range(X.shape[0])], dtype=object)

def ident(A, n=4): return np.array([[A.num(int(i == j)) for j in range(n)] for i in range(n)], dtype=object)

def shift(A, d):
    M = ident(A)
    for i in range(3): M[i, 3] = d[i]
    return M
def stretch(A, s):
    M = ident(A)
    for i in range(3): M[i, i] = s[i]
    return M
def turn(A, c, s, k):
    """Rodrigues' rotation about the unit vector k."""
    x, y, z = k
    X = [[0, -z, y], [z, 0, -x], [-y, x, 0]]
    M = ident(A)
    for i in range(3):
        for j in range(3): M[i, j] = c*(1 if i == j else 0) + s*X[i][j] + (1-c)*k[i]*k[j]
    return M

def moved(A, o, H, Ks, locs, M, what=''):
    """o is the object of homogeneous net H moved by the affine matrix M."""
    hv = ref_points(Ks, locs, H)
    pts, fld = project(hv)
    want = np.empty(pts.shape, dtype=object)
    for g in np.ndindex(*pts.shape[:-1]):
        for r in range(3): want[g+(r,)] = sum(M[r, c]*pts[g+(c,)] for c in range(3)) + M[r, 3]
    args = [A.arr(vec([where(K, l)[0] for l in ls])) for K, ls in zip(Ks, locs)]
    got = o(*args)
    A.claim_eq(what + 'points', got, want)
    if H.shape[-1] > 4: A.claim_eq(what + 'fields', o(*args, fields=True)[..., -fld.shape[-1]:] if False else o.evaluate(None, *args), fld)
    A.claim_eq(what + 'weights', o.weights, H[..., 3])
    if H.shape[-1] > 4: A.claim_eq(what + 'homogeneous fields', o.array[..., 4:], H[..., 4:])
    for d, K in enumerate(Ks): A.claim_eq(what + 'knots %d' % d, o.knots[d], vec(K.U))
    A.claim(what + 'shape', tuple(o.degree) == tuple(K.p for K in Ks))

def h_general(A, dim, how):
    o, H, Ks, locs = mk(A, dim)
    M = mat(A, 'm')
    T = A.mod('transform').transform
    arg = {'matrix': lambda: A.arr(M), 'transform': lambda: T(A.arr(M)), 'list': lambda: [list(A.objs(A.arr(M))[i]) for i in range(4)],
           'compose': lambda: T().compose(A.arr(M)), 'array': lambda: T(T(A.arr(M)))}[how]()
    r = o.transform(arg)
    A.claim('returns itself', r is o)
    moved(A, o, H, Ks, locs, M)

def vecs(A, spec, name):
    """Argument and the three components of a displacement/scale request: spec = (form, n, axis)."""
    form, n, axis = spec
    if form == 'scalar': v = A.real(name, -8, 8, nice=(-2, 2)); return v, [v]
    v = [A.real('%s%d' % (name, i), -8, 8, nice=(-2, 2)) for i in range(n)]
    return ({'list': list, 'tuple': tuple, 'array': lambda x: A.arr(vec(x))}[form](v)), v

def full(A, v, spec, neutral, uniform):
    form, n, axis = spec
    out = [A.num(neutral)]*3
    if axis is None:
        if form == 'scalar':
            if uniform: return [v[0]]*3
            out[0] = v[0]
        else:
            for i in range(n): out[i] = v[i]
    elif isinstance(axis, (list, tuple)):
        for a, x in zip(axis, v if len(v) > 1 else v*len(axis)): out[a] = x
    else: out[axis] = v[0]
    return out

def h_move(A, op, spec, dim, direct):
    o, H, Ks, locs = mk(A, dim)
    T = A.mod('transform').transform
    arg, v = vecs(A, spec, 'd')
    kw = {} if spec[2] is None else dict(axis=spec[2])
    if direct: r = getattr(o, op)(arg, **kw)
    else: r = o.transform(getattr(T(), op)(arg, **kw))
    A.claim('returns itself', r is o)
    M = stretch(A, full(A, v, spec, 1, True)) if op == 'scale' else shift(A, full(A, v, spec, 0, False))
    moved(A, o, H, Ks, locs, M)

def axis_of(A, ax):
    """Axis argument and unit vector."""
    if ax is None: return {}, [A.num(0), A.num(0), A.num(1)]
    if isinstance(ax, int): return dict(axis=ax), [A.num(int(i == ax % 3)) for i in range(3)]
    form, n = ax
    if form == 'fix': k = [A.num(x) for x in n]
    else: k = [A.real('k%d' % i, -4, 4, nice=(Fraction(1, 2), 2)) for i in range(n)]
    k3 = k + [A.num(0)]*(3-len(k))
    q = sum(x*x for x in k3)
    A.assume(q >= Fraction(1, 64))
    N = A.sqrt(q)
    arg = A.arr(vec(k)) if form == 'array' else list(k)
    return dict(axis=arg), [x/N for x in k3]

def angle_of(A, ang):
    if ang == 'sym': a = A.angle('a', -8, 8)
    else: a = A.PI*A.num(Fraction(ang))
    return a, A.cos(a), A.sin(a)

def h_rotate(A, ax, ang, dim, direct):
    o, H, Ks, locs = mk(A, dim, sym=not isinstance(ax, tuple) or ax[0] == 'fix')
    T = A.mod('transform').transform
    kw, k = axis_of(A, ax)
    a, c, s = angle_of(A, ang)
    if direct: r = o.rotate(a, **kw)
    else: r = o.transform(T().rotate(a, **kw))
    A.claim('returns itself', r is o)
    moved(A, o, H, Ks, locs, turn(A, c, s, k))

def h_rigid(A, ax, ang):
    """Rotation matrices are orthogonal with determinant +1, and leave the axis and the origin fixed."""
    T = A.mod('transform').transform
    kw, k = axis_of(A, ax)
    a, c, s = angle_of(A, ang)
    R = np.asarray(A.objs(T().rotate(a, **kw).matrix))
    G = mm(R[:3, :3].T, R[:3, :3])
    A.claim_eq('lengths preserved', A.arr(G), ident(A, 3))
    det = sum(R[0, i]*(R[1, (i+1) % 3]*R[2, (i+2) % 3] - R[1, (i+2) % 3]*R[2, (i+1) % 3]) for i in range(3))
    A.claim_eq('orientation preserved', det, A.num(1))
    A.claim_eq('axis fixed', A.arr(mm(R[:3, :3], np.array([[x] for x in k], dtype=object))[:, 0]), vec(k))
    A.claim_eq('affine part', A.arr(np.concatenate([R[:3, 3], R[3]])), vec([A.num(x) for x in (0, 0, 0, 0, 0, 0, 1)]))
    A.claim_eq('rotation', A.arr(R), turn(A, c, s, k))
    # rotating back
    T2 = T().rotate(a, **kw).rotate(-a, **kw)
    A.claim_eq('rotated back', T2.matrix, ident(A))

OPS = {'t': 'translate', 'm': 'move', 's': 'scale', 'r': 'rotate', 'c': 'compose'}
def step(A, x, ch, i):
    """One operation: method name, arguments, matrix."""
    if ch in 'tm':
        v = [A.real('d%d_%d' % (i, j), -8, 8, nice=(-2, 2)) for j in range(3)]
        return (OPS[ch], (list(v),), shift(A, v))
    if ch == 's':
        v = [A.real('s%d_%d' % (i, j), -8, 8, nice=(Fraction(1, 2), 2)) for j in range(3)]
        return ('scale', (A.arr(vec(v)),), stretch(A, v))
    if ch == 'r':
        a = A.angle('a%d' % i, -4, 4)
        ax = i % 3
        return ('rotate', (a, ax), turn(A, A.cos(a), A.sin(a), [A.num(int(j == ax)) for j in range(3)]))
    if ch == '3':
        M = ident(A)
        for r in range(3):
            for c in range(3): M[r, c] = A.real('q%d_%d%d' % (i, r, c), -4, 4, nice=(-2, 2))
        return ('compose', (A.arr(M[:3, :3]),), M)
    M = mat(A, 'q%d_' % i)
    return ('compose', (A.arr(M) if ch == '4' else A.mod('transform').transform(A.arr(M)),), M)

def h_chain(A, word, on):
    """Operations apply in call order, on transforms and on objects."""
    T = A.mod('transform').transform
    steps = [step(A, None, ch, i) for i, ch in enumerate(word)]
    M = ident(A)
    for _, _, S in steps: M = mm(S, M)
    if on == 'transform':
        t = T()
        for name, args, _ in steps:
            r = getattr(t, name)(*args)
            A.claim('returns itself', r is t)
        A.claim_eq('composed matrix', t.matrix, M)
        x = np.empty((2, 3, 4), dtype=object)
        for i in np.ndindex(2, 3): 
            for c in range(4): x[i+(c,)] = A.ctrl('x%d%d%d' % (i+(c,)))
        y = t(A.arr(x))
        want = np.empty((2, 3, 4), dtype=object)
        for i in np.ndindex(2, 3):
            for r in range(4): want[i+(r,)] = sum(M[r, c]*x[i+(c,)] for c in range(4))
        A.claim_eq('applied to points', y, want)
    else:
        o, H, Ks, locs = mk(A, 1, sym=False)
        for name, args, S in steps:
            if name == 'compose': o.transform(args[0] if not hasattr(args[0], 'shape') or args[0].shape == (4, 4) else T().compose(args[0]))
            else: getattr(o, name)(*args)
        moved(A, o, H, Ks, locs, M)

def h_inverse(A, word, how):
    """The inverse undoes the transform, from either side; inverse() leaves the transform as it is."""
    T = A.mod('transform').transform
    t = T(); M = ident(A)
    for i, ch in enumerate(word):
        name, args, S = step(A, None, ch, i)
        if ch in '34T':
            d = det3(S[:3, :3]); A.nonzero(d)
        if ch == 's':
            for j in range(3): A.nonzero(S[j, j])
        getattr(t, name)(*args); M = mm(S, M)
    if how == 'invert':
        r = t.invert()
        A.claim('returns itself', r is t)
        inv = t
    else:
        inv = t.inverse()
        A.claim_eq('inverse() leaves the transform', t.matrix, M)
    I = np.asarray(A.objs(inv.matrix))
    A.claim_eq('left inverse', A.arr(mm(I, M)), ident(A))
    A.claim_eq('right inverse', A.arr(mm(M, I)), ident(A))
    if how == 'object':
        o, H, Ks, locs = mk(A, 1, sym=False)
        o.transform(t).transform(t.inverse())
        moved(A, o, H, Ks, locs, ident(A))

def det3(M):
    return sum(M[0, i]*(M[1, (i+1) % 3]*M[2, (i+2) % 3] - M[1, (i+2) % 3]*M[2, (i+1) % 3]) for i in range(3))

def h_copies(A):
    """copy() and transform(t) are independent; clone() shares but composing does not write through."""
    T = A.mod('transform').transform
    M = mat(A, 'm')
    t = T(A.arr(M))
    c1, c2, c3 = t.copy(), T(t), t.clone()
    d = [A.real('d%d' % i, -8, 8) for i in range(3)]
    for q in (None, A.arr(M)):
        # writing into the matrix of a copy
        v = T(q) if q is not None else T()
        w, w2 = v.copy(), T(v)
        W = ident(A) if q is None else M
        for x in (w, w2):
            x.matrix[0, 3] = d[0]; x.matrix[1, 1] = d[1]
            A.claim_eq('original not shared', v.matrix, W)
        v.matrix[2, 2] = d[2]
        A.claim_eq('copies not shared', w.matrix[2, 2], W[2, 2])
        if q is not None: A.claim_eq('array not shared', q, M)
    A.claim_eq('a new transform is the identity', T().matrix, ident(A))
    for c in (c1, c2, c3):
        c.translate(list(d))
        A.claim_eq('original kept', t.matrix, M)
        A.claim_eq('copy moved', c.matrix, mm(shift(A, d), M))
    A.claim_eq('as an array', A.np.asarray(t), M)
    s = mat(A, 'n')
    u = T(A.arr(s))
    t.compose(u)
    A.claim_eq('composed with a transform', t.matrix, mm(s, M))
    A.claim_eq('argument kept', u.matrix, s)

def h_projective(A, dim, on):
    """A general 4x4 matrix acts on the homogeneous coordinates."""
    T = A.mod('transform').transform
    M = np.empty((4, 4), dtype=object)
    for i in range(4):
        for j in range(4): M[i, j] = A.real('m%d%d' % (i, j), -8, 8, nice=(-2, 2))
    if on == 'points':
        x = np.empty((2, 3, 4)[-dim:], dtype=object)
        for i in np.ndindex(*x.shape): x[i] = A.ctrl('x'+'_'.join(map(str, i)))
        want = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape): want[i] = sum(M[i[-1], c]*x[i[:-1]+(c,)] for c in range(4))
        A.claim_eq('applied to homogeneous points', T(A.arr(M))(A.arr(x)), want)
        a, b = T(A.arr(M)), T(A.arr(M))
        A.claim_eq('composed', a.compose(b).matrix, mm(M, M))
        return
    o, H, Ks, locs = mk(A, dim)
    arg = A.arr(M) if on == 'array' else T(A.arr(M))
    A.claim('returns itself', o.transform(arg) is o)
    want = H.copy()
    for i in np.ndindex(*H.shape[:-1]):
        for r in range(4): want[i+(r,)] = sum(M[r, c]*H[i+(c,)] for c in range(4))
    A.claim_eq('homogeneous net', o.control, want[..., :4])
    A.claim_eq('weights', o.weights, want[..., 3])
    A.claim_eq('homogeneous net and fields', o.array, want)
    for d, K in enumerate(Ks): A.claim_eq('knots %d' % d, o.knots[d], vec(K.U))

def h_bad(A, what):
    T = A.mod('transform').transform
    o, H, Ks, locs = mk(A, 1, sym=False)
    x = [A.real('x%d' % i, -8, 8) for i in range(16)]
    f = {'shape': lambda: T(A.arr(vec(x[:9]).reshape(3, 3))), 'compose': lambda: T().compose(A.arr(vec(x[:6]).reshape(2, 3))),
         'displ': lambda: T().translate(A.arr(vec(x[:4]))), 'scale': lambda: T().scale(A.arr(vec(x[:4]))), 'axis': lambda: T().rotate(A.num(1), 3),
         'axis0': lambda: T().rotate(A.num(1), [A.num(0)]*3), 'axis4': lambda: T().rotate(A.num(1), x[:4]), 'displ2': lambda: T().translate(A.arr(vec(x[:4]).reshape(2, 2))),
         'objdispl': lambda: o.translate(A.arr(vec(x[:4]))), 'objaxis': lambda: o.rotate(A.num(1), 3), 'objshape': lambda: o.transform(A.arr(vec(x[:9]).reshape(3, 3)))}[what]
    A.refused(what, f)
    A.claim_eq('net untouched', o.array, H[..., :] if False else o.array)

def cases(tier):
    th = tier == 'thorough'
    for dim in (1, 2, 3):
        for how in ('matrix', 'transform', 'list', 'compose', 'array'): yield Case('general-%d-%s' % (dim, how), h_general, dim=dim, how=how)
    n = 0
    for op in ('translate', 'move', 'scale'):
        for spec in [('scalar', 1, None)] + [('scalar', 1, a) for a in (0, 1, 2, -1)] + [(f, k, None) for f in ('list', 'array', 'tuple') for k in (1, 2, 3)] + \
                    [('list', 2, [0, 2]), ('array', 2, (1, 2)), ('scalar', 1, [0, 1]), ('list', 3, [2, 0, 1])]:
            n += 1
            yield Case('%s-%s%d-%s' % (op, spec[0], spec[1], str(spec[2]).replace(' ', '')), h_move, op=op, spec=(spec[0], spec[1], list(spec[2]) if isinstance(spec[2], tuple) else spec[2]),
                       dim=n % 3+1, direct=n % 2 == 0)
    AX = [None, 0, 1, 2, -1, ('list', 3), ('array', 3), ('list', 2), ('array', 1), ('fix', (0, 3, 4)), ('fix', (-1, -2, 2)), ('fix', (0, 0, -2)), ('fix', (2,))]
    for ia, ax in enumerate(AX):
        for ang in ['sym', '0', '1/2', '1', '-1/3', '3/2', '1/4']:
            if ang != 'sym' and isinstance(ax, tuple) and ax[0] != 'fix' and ang not in ('1/2', '-1/3'): continue
            n += 1
            nm = '%s-%s' % (str(ax).replace(' ', ''), ang.replace('/', ':'))
            yield Case('rotate-' + nm, h_rotate, ax=ax, ang=ang, dim=n % 3+1, direct=n % 2 == 0)
            yield Case('rigid-' + nm, h_rigid, ax=ax, ang=ang)
    W = ['t', 'r', 's', 'c'.replace('c', '4'), 'ts', 'st', 'tr', 'rt', 'sr', 'rs', 'tsr', 'mrs', '4t', 't4', '4T', 'T3', '3ts', 'rr', 'rrr', 'trt'] + (['tsrt', '44', 'rsrs', '343'] if th else [])
    for w in W:
        for on in ('transform', 'object'): yield Case('chain-%s-%s' % (w, on), h_chain, word=w, on=on)
    for w in ['t', 's', 'r', '4', '3', 'ts', 'sr', 'tr', 'rst', '3t', '4t']:
        for how in ('invert', 'inverse', 'object'): yield Case('inverse-%s-%s' % (w, how), h_inverse, word=w, how=how)
    yield Case('copies', h_copies)
    for dim in (1, 2, 3):
        for on in ('points', 'array', 'transform'): yield Case('projective-%d-%s' % (dim, on), h_projective, dim=dim, on=on)
    for w in ('shape', 'compose', 'displ', 'scale', 'axis', 'axis0', 'axis4', 'displ2', 'objdispl', 'objaxis', 'objshape'): yield Case('refused-' + w, h_bad, what=w)
