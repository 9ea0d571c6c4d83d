"""C22 Operations never modify their arguments or other objects."""
from .common import *

MODULES = ('nurbs', 'cad', 'io', 'transform', 'plot')
BOUNDS = ('every in-place operation (all argument forms, 1-3 dimensions, every axis, value inside a span, at a break, at both ends, times None/0/1/p, '
          'rejected requests) on objects built from caller arrays, with clones and copies taken before; pairs of operations on the object or on the '
          'object an operation returned; every cad helper with array/list/object arguments; transform; PetIGA/VTK writing; plotting; kernels called '
          'directly; degree 1-3; values symbolic, knots symbolic or fixed')
OUTSIDE = ('writing through an array obtained from an object (`o.control[...] = x` is shared by clones by documentation); histories longer than two operations; '
           'objects subclassing NURBS')

class Watch(object):
    """Arrays and objects that must not change."""
    def __init__(self, A): self.A, self.items, self.nests = A, [], []
    def arr(self, what, a):
        A = self.A
        self.items.append((what, lambda a=a: a, A.objs(a.copy()), a.dtype, a.shape))
        return a
    def obj(self, what, o):
        A = self.A
        snap = [A.objs(o.array.copy())] + [A.objs(U.copy()) for U in o.knots]
        for k, s in enumerate(snap):
            self.items.append(('%s %s' % (what, 'points' if k == 0 else 'knots %d' % (k-1)),
                               lambda o=o, k=k: o.array if k == 0 else o.knots[k-1], s, None, s.shape))
        return o
    def nest(self, what, l):
        """Nested lists, tuples and dictionaries: the same leaves in the same places."""
        def flat(x):
            if isinstance(x, dict): return ('d', id(x), [(k, flat(v)) for k, v in x.items()])
            if isinstance(x, (list, tuple)): return (type(x).__name__, id(x), [flat(v) for v in x])
            return x
        self.nests.append((what, l, flat, flat(l)))
        return l
    def check(self, when):
        A = self.A
        def same(a, b):
            if isinstance(a, tuple) and isinstance(b, tuple): return a[:2] == b[:2] and len(a[2]) == len(b[2]) and all((x[0] == y[0] and same(x[1], y[1])) if a[0] == 'd' else same(x, y) for x, y in zip(a[2], b[2]))
            return a is b
        for what, l, flat, snap in self.nests: A.claim('%s unchanged by %s' % (what, when), same(flat(l), snap))
        for what, get, snap, dt, shape in self.items:
            a = get()
            ok = tuple(a.shape) == tuple(shape) and (dt is None or a.dtype == dt) and A.same(A.objs(a), snap)
            A.claim('%s unchanged by %s' % (what, when), ok)

def mk(A, Ks, nf=1, sym=True, w=None, name='P'):
    """Object built from caller arrays (watched)."""
    o, H = objn(A, Ks, name=name, nf=nf, sym=sym)
    kn = [A.arr(K.U) for K in Ks]
    C = A.arr(H[..., :4])
    W = w or Watch(A)
    for i, k in enumerate(kn): W.arr('knots handed in', k)
    W.arr('control points handed in', C)
    if nf:
        F = W.arr('fields handed in', A.arr(A.objs(o.fields)))
        o = A.NURBS(kn, C, fields=F)
    else: o = A.NURBS(kn, C)
    return o, W

def scribble(A, o):
    o.array[...] = 77
    for U in o.knots: U[...] = 77

def kn(p, kind, seed, A, sym, name):
    m = {'c': [p+1, 1, p+1], 'u': [1]*(2*p+3), 'm': [p+1, p, p+1], 'h': [p+1]+[1]*(p+1)}[kind]
    return A.knots(p, m, name=name) if sym else A.cknots(p, m, seed=seed, name=name)

def structure(A, dim, axis, p, kind, sym=False):
    Ks = [A.cknots(1, [2, 1, 2], seed=3, name='V') if i % 2 else A.cknots(2, [3, 3], seed=4, name='W') for i in range(dim)]
    Ks[axis] = kn(p, kind, 7, A, sym, 'U')
    return Ks

# in-place operations: name -> f(A, o, axis, K, watch) performing it with watched arguments
def w1(A, W, what, x): return W.arr(what, A.arr(x))

OPS = {
    'insert-mid': lambda A, o, x, K, W: o.insert(x, (2*K.a+K.b)/3, 1),
    'insert-none': lambda A, o, x, K, W: o.insert(x, (K.a+K.b)/2, None),
    'insert-zero': lambda A, o, x, K, W: o.insert(x, (K.a+K.b)/2, 0),
    'insert-lo': lambda A, o, x, K, W: o.insert(x, K.a, 0),
    'insert-array': lambda A, o, x, K, W: o.insert(x, w1(A, W, 'value', [(K.a+K.b)/2])[0], 1),
    'refine': lambda A, o, x, K, W: o.refine(x, w1(A, W, 'values', [(K.a+2*K.b)/3, (K.a*2+K.b)/3])),
    'refine-one': lambda A, o, x, K, W: o.refine(x, (K.a+2*K.b)/3),
    'refine-empty': lambda A, o, x, K, W: o.refine(x, w1(A, W, 'values', [])),
    'remove-all': lambda A, o, x, K, W: o.remove(x, K.breaks[K.lo+1] if K.hi > K.lo+1 else K.a, None, deviation=1e9),
    'remove-none': lambda A, o, x, K, W: o.remove(x, K.breaks[K.lo+1] if K.hi > K.lo+1 else K.a, 1),
    'elevate': lambda A, o, x, K, W: o.elevate(x, 1),
    'elevate-zero': lambda A, o, x, K, W: o.elevate(x, 0),
    'clamp': lambda A, o, x, K, W: o.clamp(x),
    'clamp-left': lambda A, o, x, K, W: o.clamp(x, 0),
    'clamp-right': lambda A, o, x, K, W: o.clamp(x, 1),
    'unclamp': lambda A, o, x, K, W: o.unclamp(x),
    'unclamp-left': lambda A, o, x, K, W: o.unclamp(x, side=0, continuity=0),
    'unclamp-right': lambda A, o, x, K, W: o.unclamp(x, 1),
    'reverse': lambda A, o, x, K, W: o.reverse(x),
    'reverse-all': lambda A, o, x, K, W: o.reverse(),
    'remap': lambda A, o, x, K, W: o.remap(x, 2, 5),
    'remap-right': lambda A, o, x, K, W: o.remap(x, None, K.b+1),
    'remap-none': lambda A, o, x, K, W: o.remap(x, None, None),
    'transpose': lambda A, o, x, K, W: o.transpose(),
    'transpose-axes': lambda A, o, x, K, W: o.transpose(listarg(A, W, list(range(o.dim))[::-1])),
    'transpose-same': lambda A, o, x, K, W: o.transpose(tuple(range(o.dim))),
    'swap': lambda A, o, x, K, W: o.swap(x, o.dim-1-x),
    'transform-matrix': lambda A, o, x, K, W: o.transform(w1(A, W, 'matrix', MAT(A))),
    'transform-object': lambda A, o, x, K, W: o.transform(trans(A, W)),
    'translate': lambda A, o, x, K, W: o.translate(w1(A, W, 'vector', [1, 2, 3])),
    'translate-axis': lambda A, o, x, K, W: o.translate(3, 1),
    'move': lambda A, o, x, K, W: o.move(w1(A, W, 'vector', [1, 2])),
    'scale': lambda A, o, x, K, W: o.scale(w1(A, W, 'factors', [1, 2, 3])),
    'scale-one': lambda A, o, x, K, W: o.scale(2),
    'rotate': lambda A, o, x, K, W: o.rotate(A.PI/2, w1(A, W, 'axis', [1, 0, 0])),
    'rotate-zero': lambda A, o, x, K, W: o.rotate(0),
}
BAD = {
    'insert-beyond': lambda A, o, x, K, W: o.insert(x, (K.a+K.b)/2, K.p+1),
    'insert-negative': lambda A, o, x, K, W: o.insert(x, (K.a+K.b)/2, -1),
    'insert-outside': lambda A, o, x, K, W: o.insert(x, K.b+1),
    'insert-axis': lambda A, o, x, K, W: o.insert(o.dim, (K.a+K.b)/2),
    'remove-outside': lambda A, o, x, K, W: o.remove(x, K.a-1),
    'refine-outside': lambda A, o, x, K, W: o.refine(x, w1(A, W, 'values', [(K.a+K.b)/2, K.b+1])),
    'refine-beyond': lambda A, o, x, K, W: o.refine(x, w1(A, W, 'values', [(K.a+K.b)/2]*(K.p+1))),
    'elevate-negative': lambda A, o, x, K, W: o.elevate(x, -1),
    'clamp-side': lambda A, o, x, K, W: o.clamp(x, 2),
    'unclamp-side': lambda A, o, x, K, W: o.unclamp(x, 2),
    'unclamp-continuity': lambda A, o, x, K, W: o.unclamp(x, None, K.p),
    'remap-inverted': lambda A, o, x, K, W: o.remap(x, 3, 2),
    'transpose-short': lambda A, o, x, K, W: o.transpose(()),
    'swap-axis': lambda A, o, x, K, W: o.swap(0, o.dim),
    'reverse-axis': lambda A, o, x, K, W: o.reverse(x, o.dim),
    'transform-shape': lambda A, o, x, K, W: o.transform(w1(A, W, 'matrix', [[1, 0, 0], [0, 1, 0], [0, 0, 1]])),
    'translate-shape': lambda A, o, x, K, W: o.translate(w1(A, W, 'vector', [1, 2, 3, 4])),
    'rotate-null': lambda A, o, x, K, W: o.rotate(1, w1(A, W, 'axis', [0, 0, 0])),
}
# operations that return something and leave the object alone
GET = {
    'slice': lambda A, o, x, K, W: o.slice(x, (2*K.a+K.b)/3, (K.a+2*K.b)/3),
    'slice-left': lambda A, o, x, K, W: o.slice(x, None, (K.a+2*K.b)/3),
    'slice-all': lambda A, o, x, K, W: o.slice(x, K.a, K.b),
    'slice-none': lambda A, o, x, K, W: o.slice(x, None, None),
    'extract': lambda A, o, x, K, W: o.extract(x, (K.a+K.b)/2) if o.dim > 1 else o,
    'extract-lo': lambda A, o, x, K, W: o.extract(x, K.a) if o.dim > 1 else o,
    'boundary': lambda A, o, x, K, W: o.boundary(x, 1) if o.dim > 1 else o,
    'boundary-lo': lambda A, o, x, K, W: o.boundary(x, 0) if o.dim > 1 else o,
    'copy': lambda A, o, x, K, W: o.copy(),
    'clone': lambda A, o, x, K, W: o.clone(),
}
def params(A, o, W):
    return [W.arr('parameters', A.arr([U[p], (U[p]+U[-p-1])/2])) for p, U in zip(o.degree, o.knots)]
def fieldarg(A, o, W): return W.arr('fields argument', A.arr(A.objs(o.array[..., :2].copy())))
def scalararg(A, o, W): return W.arr('field argument', A.arr(A.objs(o.array[..., 0].copy())))
READ = {
    'call': lambda A, o, x, K, W: (o(*params(A, o, W)), o() if full(o) else 0),
    'call-fields': lambda A, o, x, K, W: o(*params(A, o, W), fields=True),
    'call-field': lambda A, o, x, K, W: (o(*params(A, o, W), fields=fieldarg(A, o, W)), o(*params(A, o, W), fields=scalararg(A, o, W))),
    'evaluate': lambda A, o, x, K, W: (o.evaluate(None, *params(A, o, W)), o.evaluate(fieldarg(A, o, W), *params(A, o, W)), o.evaluate(scalararg(A, o, W), *params(A, o, W))),
    'derivative': lambda A, o, x, K, W: [o.derivative(k, fieldarg(A, o, W), *params(A, o, W), mapped=False) for k in (1, 2, 3, 4)] + [o.derivative(1, scalararg(A, o, W), *params(A, o, W), mapped=False)],
    'gradient': lambda A, o, x, K, W: (o.gradient(fieldarg(A, o, W), *params(A, o, W), mapped=False), o.hessian(fieldarg(A, o, W), *params(A, o, W))),
    'accessors': lambda A, o, x, K, W: (o.dim, o.shape, o.degree, o.knots, o.array, o.control, o.weights, o.points, o.fields, o.spans(), o.breaks(), o.breaks(x, True),
                                        o.greville(), o.lagrange(), o.lobatto()),
}
def full(o):
    """All axes clamped (the default parameters, the Greville abscissae, lie in the domain)."""
    return all(n+p+1 == len(U) and p in (1, 2, 3) and (U[0] == U[p]) and (U[-1] == U[-p-1]) for n, p, U in zip(o.shape, o.degree, o.knots))
def listarg(A, W, l):
    """A caller's list: watched through a check at the end of the operation."""
    c = list(l)
    W.items.append(('axes', lambda l=l: np.array(l), np.array(c), None, np.array(c).shape))
    return l

def MAT(A): return [[2, 1, 0, 1], [0, 1, 0, -1], [0, 1, 3, 0], [0, 0, 0, 1]]
def trans(A, W):
    T = A.mod('transform').transform(A.arr(MAT(A)))
    W.arr('matrix of the transform', T.matrix)
    return T

def inplace(A, dim, axis, p, kind, op, sym=False, bad=False):
    Ks = structure(A, dim, axis, p, kind, sym)
    o, W = mk(A, Ks, sym=False)
    W.obj('clone', o.clone())
    W.obj('copy', o.copy())
    W2 = Watch(A)
    W2.obj('object', o)
    f = (BAD if bad else OPS)[op]
    ok, r = A.attempt(lambda: f(A, o, axis, Ks[axis], W))
    W.check(op)
    if bad or not ok:
        A.claim('%s raises' % op, not ok)
        W2.check('rejected ' + op)
    else:
        A.claim('%s returns the object' % op, r is o)
        c = o.copy()
        W3 = Watch(A); W3.obj('original', o)
        scribble(A, c)
        W3.check('writing into a copy')
        W.check('writing into a copy')

def reads(A, dim, p, kind, op, sym=False):
    Ks = structure(A, dim, 0, p, kind, sym)
    o, W = mk(A, Ks, sym=dim < 3)
    W.obj('object', o)
    READ[op](A, o, 0, Ks[0], W)
    W.check(op)

def pair(A, dim, axis, p, kind, first, second, sym=False):
    """An object, what the first operation made of it (in place or a new object), then the second operation."""
    Ks = structure(A, dim, axis, p, kind, sym)
    o, W = mk(A, Ks, sym=False)
    W.obj('clone', o.clone())
    W.obj('copy', o.copy())
    if first in GET:
        W.obj('object', o)
        b = GET[first](A, o, axis, Ks[axis], W)
        if b is o: b = o.clone()
        W.check(first)
    else:
        ok, b = A.attempt(lambda: OPS[first](A, o, axis, Ks[axis], W))
        if not ok: b = o
    x = min(axis, b.dim-1)
    q, U = b.degree[x], b.knots[x]
    class D: pass
    D.p, D.a, D.b, D.lo, D.hi, D.breaks = q, U[q], U[-q-1], 0, 2, [U[q], (U[q]+U[-q-1])/2]
    W.obj('clone of the result', b.clone())
    ok, r = A.attempt(lambda: OPS[second](A, b, x, D, W))
    W.check('%s after %s' % (second, first))

# ---------------------------------------------------------------- helpers

def curve(A, W, name, kind='c', p=2, seed=1, dim=1, nf=0):
    Ks = [kn(p, kind, seed, A, False, name+'u')] + [A.cknots(1, [2, 1, 2], seed=seed+1, name=name+'v%d' % i) for i in range(dim-1)]
    o, _ = objn(A, Ks, name=name, nf=nf, sym=False, seed=seed)
    W.obj(name, o); W.obj('clone of '+name, o.clone())
    return o

def after(A, W, r, what):
    """Later changes of the result do not reach the arguments either."""
    W.check(what)
    rs = r if isinstance(r, (list, tuple)) else [r]
    for x in rs:
        if x is None or not hasattr(x, 'remap'): continue
        u = (x.knots[0][x.degree[0]]+x.knots[0][-x.degree[0]-1])/2
        x.remap(0, 3, 7); x.translate([1, 1, 1]); x.reverse(); x.elevate(0, 1); x.clamp(0)
    W.check('changing the result of ' + what)

def helper(A, what, k=0):
    W = Watch(A)
    cad = A.cad
    np_ = A.np
    if what == 'line': r = cad.line(w1(A, W, 'p0', [1, 2]), w1(A, W, 'p1', [1, 3, 4]))
    elif what == 'circle': r = cad.circle(A.num(2), w1(A, W, 'center', [1, 2]), angle=(A.num(0), A.PI/2))
    elif what == 'circle-list':
        l = [None, A.PI/2]
        r = cad.circle(2, w1(A, W, 'center', [1, 2, 3]), angle=l)
        A.claim('angle list unchanged', l[0] is None and len(l) == 2)
    elif what == 'linear': r = cad.linear(w1(A, W, 'points', [[0, 0], [1, 2]]))
    elif what == 'linear4': r = cad.linear(w1(A, W, 'points', [[0, 0, 1, 1], [1, 2, 1, 2]]))
    elif what == 'bilinear': r = cad.bilinear(w1(A, W, 'points', [[[0, 0], [0, 1]], [[1, 0], [1, 1]]]))
    elif what == 'bilinear4': r = cad.bilinear(w1(A, W, 'points', [[[0, 0, 0, 1], [0, 1, 0, 2]], [[1, 0, 1, 1], [1, 1, 1, 1]]]))
    elif what == 'trilinear': r = cad.trilinear(w1(A, W, 'points', [[[[i, j, l] for l in range(2)] for j in range(2)] for i in range(2)]))
    elif what == 'grid': # integer arrays of the kernel's own type
        ints = [np.array([2, 1], 'i'), np.array([2, 3], 'i'), np.array([-1, -2], 'i')]
        keep = [x.copy() for x in ints]
        lim = w1(A, W, 'limits', [[0, 1], [2, 4]])
        wr = np.array([False, True])
        r = cad.grid(shape=ints[0], degree=ints[1], continuity=ints[2], limits=lim, wrap=wr)
        for a, b, nm in zip(ints, keep, ('shape', 'degree', 'continuity')): A.claim('%s argument unchanged' % nm, a.shape == b.shape and bool((a == b).all()))
        A.claim('wrap argument unchanged', list(wr) == [False, True])
    elif what == 'grid-0d':
        ints = [np.array(3, 'i'), np.array(2, 'i'), np.array(-1, 'i')]
        r = cad.grid(*ints)
        for a, b, nm in zip(ints, (3, 2, -1), ('shape', 'degree', 'continuity')): A.claim('%s argument unchanged' % nm, a.shape == () and int(a) == b)
    elif what == 'grid-default':
        ints = [np.array([2, 2], 'i'), np.array([2, 3], 'i')]
        r = cad.grid(ints[0], ints[1])
        A.claim('arguments unchanged', list(ints[0]) == [2, 2] and list(ints[1]) == [2, 3])
    elif what == 'compat':
        kinds = [('c', 'm'), ('c', 'u'), ('c', 'c'), ('h', 'u')][k]
        a, b = curve(A, W, 'a', kinds[0], p=1+k % 2, seed=2), curve(A, W, 'b', kinds[1], p=2, seed=5)
        r = cad.compat(a, b)
    elif what == 'compat-list':
        l = [curve(A, W, 'a', 'c', p=1, seed=2), curve(A, W, 'b', 'm', p=2, seed=5), curve(A, W, 'c', 'c', p=2, seed=6)]
        l0 = list(l)
        r = cad.compat(l)
        A.claim('list unchanged', len(l) == 3 and all(x is y for x, y in zip(l, l0)))
    elif what == 'compat-same':
        a = curve(A, W, 'a', 'c'); r = cad.compat(a, a)
    elif what == 'compat-axes':
        ax = [1, 0]
        r = cad.compat(curve(A, W, 'a', 'c', p=1, dim=2), curve(A, W, 'b', 'm', p=2, dim=2, seed=4), axes=ax)
        A.claim('axes list unchanged', ax == [1, 0])
    elif what == 'compat-one': r = cad.compat(curve(A, W, 'a', 'c'))
    elif what == 'extrude': r = cad.extrude(curve(A, W, 'a', 'cu'[k % 2], dim=1+k // 2), w1(A, W, 'vector', [1, 0, 2]))
    elif what == 'revolve': r = cad.revolve(curve(A, W, 'a', 'c', dim=1), w1(A, W, 'point', [0, -9, 0]), w1(A, W, 'axis', [[0, 0, 1], [1, 0, 0]][k]), angle=A.PI/2)
    elif what == 'ruled': r = cad.ruled(curve(A, W, 'a', 'c', p=1, dim=1+k), curve(A, W, 'b', 'mc'[k], p=2, seed=6, dim=1+k))
    elif what == 'ruled-same': a = curve(A, W, 'a', 'u', p=2); r = cad.ruled(a, a)
    elif what == 'sweep': r = cad.sweep(curve(A, W, 'a', 'c', dim=1+k), curve(A, W, 'b', 'u', p=2, seed=6))
    elif what == 'coons':
        c = [cad.line((0, 0), (1, 0)), cad.line((0, 1), (1, 1)), cad.line((0, 0), (0, 1)), cad.line((1, 0), (1, 1))]
        if k: c[0].elevate(0, 1); c[3].insert(0, A.num(Fraction(1, 2)))
        for i, x in enumerate(c): W.obj('curve %d' % i, x)
        r = cad.coons([[c[0], c[1]], [c[2], c[3]]])
    elif what == 'join':
        a = cad.line((0, 0), (1, 0)); b = cad.line((1, 0), (2, 2))
        if k & 1: a.elevate(0, 1); b.insert(0, A.num(Fraction(1, 2)))
        if k & 2: a = cad.extrude(a, 1, 2); b = cad.extrude(b, 1, 2); a.insert(1, A.num(Fraction(1, 4)))
        if k & 4: a.unclamp(0); b.unclamp(0)
        W.obj('first', a); W.obj('second', b); W.obj('clone of first', a.clone())
        r = cad.join(a, b, 0)
    elif what == 'join-same':
        a = cad.line((0, 0), (1, 0)); W.obj('object', a)
        r = cad.join(a, a, 0)
    elif what == 'refine':
        a = curve(A, W, 'a', 'cmu'[k % 3], p=1+k % 2, dim=1+k % 2)
        r = cad.refine(a, 2, 3, 0)
    elif what == 'refine-args':
        a = curve(A, W, 'a', 'c', p=2, dim=2)
        f = np.empty(2, object); f[0] = 2; f[1] = None
        g = np.array([3, 1], 'i'); c = np.array([-1, 0], 'i')
        d = np.empty(2, object); d[0] = None; d[1] = 2
        r = cad.refine(a, f, d, c)
        A.claim('factor argument unchanged', f[0] == 2 and f[1] is None)
        A.claim('degree argument unchanged', d[0] is None and d[1] == 2)
        A.claim('continuity argument unchanged', list(c) == [-1, 0])
        lf = [np.array([1, 2], 'i'), 1]; ld = [2, None]
        r = [r, cad.refine(a, lf, ld, None)]
        A.claim('factor list unchanged', list(lf[0]) == [1, 2] and lf[1] == 1)
        A.claim('degree list unchanged', ld[0] == 2 and ld[1] is None)
    elif what == 'refine-nothing': r = cad.refine(curve(A, W, 'a', 'c', dim=1+k))
    else: raise KeyError(what)
    after(A, W, r, what)

def transforms(A):
    W = Watch(A)
    t = A.mod('transform').transform
    M = W.arr('matrix handed in', A.arr(MAT(A)))
    T = t(M); C = T.copy(); D = T.clone(); E = t(T)
    for nm, x in (('copy', C), ('clone', D), ('transform of a transform', E)): watch_t(A, W, nm, x)
    P = w1(A, W, 'points', [[1, 2, 3, 1], [0, 1, 0, 2]])
    T(P)
    v = w1(A, W, 'vector', [1, 2, 3])
    T.translate(v); W.check('translate'); T.scale(v); W.check('scale'); T.rotate(A.PI/3, v); W.check('rotate')
    T.rotate(A.PI/2, 1); T.translate(2, 1); T.scale(3, 2); T.move(v); W.check('axis forms')
    R = w1(A, W, 'rotation', [[0, 1, 0], [1, 0, 0], [0, 0, 1]])
    T.compose(R); T.compose(M); W.check('compose')
    G = t(A.arr(MAT(A))); watch_t(A, W, 'argument', G)
    T.compose(G); W.check('compose with a transform')
    before = A.objs(T.matrix.copy())
    I = T.inverse()
    A.claim('inverse leaves the transform', A.same(A.objs(T.matrix), before))
    T2 = T.clone(); T.invert(); W.check('invert')
    A.claim('clone keeps the matrix', A.same(A.objs(T2.matrix), before))
    E.matrix[...] = 5; W.items = [x for x in W.items if 'transform of' not in x[0]]
    W.check('writing into a transform made from a transform')
    C.matrix[...] = 5
    A.claim('copy shares nothing', A.same(A.objs(D.matrix), A.objs(A.arr(MAT(A)))) and A.same(A.objs(M), A.objs(A.arr(MAT(A)))))

def watch_t(A, W, nm, x):
    W.items.append((nm, lambda x=x: x.matrix, A.objs(x.matrix.copy()), None, (4, 4)))

def files(A, dim, k):
    W = Watch(A)
    o = curve(A, W, 'object', 'c', dim=dim, nf=1)
    io = A.mod('io')
    if k == 0: io.PetIGA().write(A.path('a'), o); io.PetIGA().write(A.path('b'), o, nsd=3, fields=False)
    elif k == 1: io.VTK().write(A.path('a'), o)
    elif k == 2:
        v = W.arr('vector', A.arr(A.objs(o.array[..., 0].copy())))
        io.PetIGA().write_vec(A.path('a'), v); io.PetIGA().write_vec(A.path('b'), v, o)
        io.PetIGA().read_vec(A.path('b'), o)
    elif k == 3:
        pts = lambda U: A.arr([U[0], (U[0]+U[-1])/2, U[-1]])
        F = W.arr('fields', A.arr(A.objs(o.array[..., :3].copy())))
        L = (W.nest('scalars', [('s', 0), ('', 2)]), W.nest('vectors', [('v', W.nest('index', [0, 1])), ['w', (2, 1, 0)]]))
        for n in 'ab': io.VTK().write(A.path(n), o, fields=F, scalars=L[0], vectors=L[1], sampler=pts)
        W.check('writing lists')
        L = (W.nest('scalars', {'t': 1, 's': 0}), W.nest('vectors', {'v': [0, 1], 'a': [2]}))
        for n in 'ab': io.VTK().write(A.path(n), o, control=False, fields=F, scalars=L[0], vectors=L[1])
    elif k == 4:
        l = W.nest('vector', [[A.num(3*i+j) for j in range(3)] for i in range(2)])
        io.PetIGA().write_vec(A.path('a'), l)
        io.PetIGA(precision='single', scalar='complex').write(A.path('c'), o)
        io.PetIGA().write(A.path('c'), o, control=False); r = io.PetIGA().read(A.path('c')); scribble(A, r)
    W.check('writing')

def lists(A, k):
    """Nested lists as arguments."""
    W = Watch(A); cad = A.cad; N = A.NURBS; h = A.num(Fraction(1, 2))
    if k == 0:
        kn = W.nest('knots', [[A.num(0)]*3+[h]+[A.num(1)]*3, [A.num(0)]*2+[A.num(1)]*2])
        C = W.nest('points', [[[A.num(i), A.num(j+i*i), A.num(1)] for j in range(2)] for i in range(4)])
        w = W.nest('weights', [[A.num(1+(i+j) % 2) for j in range(2)] for i in range(4)])
        F = W.nest('fields', [[A.num(i-j) for j in range(2)] for i in range(4)])
        o = N(kn, C, fields=F, weights=w); W.check('construction'); o2 = N(kn, (C, w), fields=F); W.check('construction from a pair'); N(kn, None); N(tuple(kn), C)
        u = W.nest('parameters', [A.num(0), h]); F2 = W.nest('field values', [[[A.num(i), A.num(j)] for j in range(2)] for i in range(4)])
        o(u, u); o(u, h, fields=F2); o.evaluate(F2, u, u); o.gradient(F2, u, u); o.hessian(F2, u, u); o.derivative(3, F2, u, u); o.gradient(F, u, u, mapped=True)
        W.check('evaluation')
        o.refine(0, W.nest('values', [A.num(Fraction(3, 4)), A.num(Fraction(1, 4))])); o.transpose(W.nest('axes', [1, 0])); o.move(W.nest('displacement', [A.num(1), h])); o.scale(W.nest('factors', [A.num(1), h]))
        o.rotate(1, W.nest('axis', [A.num(1), A.num(2)])); o.transform(W.nest('matrix', [[A.num(int(i == j)) for j in range(4)] for i in range(4)]))
    elif k == 1:
        a = [cad.line(W.nest('p', [A.num(i), A.num(j)]), W.nest('q', [A.num(k_), A.num(l)])) for i, j, k_, l in ((0, 0, 1, 0), (0, 1, 1, 1), (0, 0, 0, 1), (1, 0, 1, 1))]
        W.check('line')
        cs = W.nest('curves', [[a[0], a[1]], [a[2], a[3]]])
        s = cad.coons(cs); W.check('coons')
        cad.compat(W.nest('objects', [a[0], a[2]])); cad.compat(s, s.copy(), axes=W.nest('axes', [1]))
        cad.extrude(s, W.nest('vector', [A.num(0), A.num(0), A.num(1)])); cad.revolve(a[2], W.nest('point', [A.num(-2), A.num(0)]), W.nest('axis', [A.num(0), A.num(1), A.num(0)]), W.nest('angles', [A.num(0), A.PI/2]))
        W.check('extrude and revolve')
        cad.refine(s, W.nest('factors', [W.nest('spans', [2]), 3]), W.nest('degrees', [2, None]), W.nest('continuities', [-1, 0])); W.check('refine')
        cad.grid(W.nest('shape', [2, 1]), W.nest('degree', [2, 1]), W.nest('continuity', [0, -1]), W.nest('limits', [[A.num(0), A.num(1)], [A.num(1), A.num(3)]]), W.nest('wrap', [True, False])); W.check('grid')
        cad.linear(W.nest('points', [[A.num(0), A.num(0)], [A.num(1), A.num(2)]])); cad.bilinear(W.nest('points', [[[A.num(i), A.num(j)] for j in range(2)] for i in range(2)]))
        cad.circle(W.nest('nothing', [A.num(2)])[0], W.nest('center', [A.num(1), A.num(2)]), W.nest('angle', [None, A.PI]))
    W.check('lists')

def kernels(A, p, kind):
    """The compiled routines do not write their input arrays."""
    W = Watch(A)
    K = kn(p, kind, 3, A, True, 'U')
    U = W.arr('knots', A.arr(K.U))
    Pw = W.arr('points', A.arr(A.objs(A.consts(3, (K.n+1, 4)))))
    t = A.real('t', 0, 9, nice=(0, 3))
    A.assume(t >= K.a); A.assume(t <= K.b)
    b, g = A.bsp, A.iga
    b.FindSpan(p, U, t); b.FindMult(p, U, t); b.FindSpanMult(p, U, t); b.SpanIndex(p, U); b.Greville(p, U); g.Greville(p, U)
    W.check('queries')
    b.EvalBasisFuns(p, U, t); b.EvalBasisFunsDers(p, U, t); g.BasisData(p, U)
    X = W.arr('parameters', A.arr([K.a, t]))
    g.BasisDataCol(p, U, X); b.Evaluate1(p, U, Pw, X)
    W.check('evaluation')

def kernels2(A, p, kind):
    W = Watch(A)
    K = kn(p, kind, 3, A, False, 'U')
    U = W.arr('knots', A.arr(K.U))
    Pw = W.arr('points', A.arr(A.objs(A.consts(3, (K.n+1, 4)))))
    b = A.bsp
    u = (2*K.a+K.b)/3
    b.InsertKnot(p, U, Pw, u, 1); W.check('InsertKnot')
    b.RemoveKnot(p, U, Pw, K.breaks[K.lo+1], 1e9, 1); W.check('RemoveKnot')
    X = W.arr('values', A.arr([u, (K.a+K.b)/2]))
    b.RefineKnotVector(p, U, Pw, X); W.check('RefineKnotVector')
    if kind in 'cm': b.DegreeElevate(p, U, Pw, 1); W.check('DegreeElevate')
    b.Clamp(p, U, Pw, 1, 1); W.check("Clamp")
    if kind in 'c': b.Unclamp(p, U, Pw, 0, 1, 1); W.check("Unclamp")
    b.Extract(p, U, Pw, u); W.check("Extract")

# which of the operations make sense on which structure
def ok(op, p, kind, dim):
    if kind in 'uh' and op in ('elevate',): return dim == 1
    return True

def cases(tier):
    th = tier == 'thorough'
    kinds = 'cuhm'
    for dim, axes in ((1, (0,)), (2, (0, 1)), (3, (0, 1, 2))):
        for axis in axes:
            for p in (1, 2, 3):
                for kind in kinds:
                    if dim > 1 and not th and (p, kind) not in ((2, 'c'), (2, 'u'), (1, 'm')): continue
                    if kind == 'm' and p == 1: continue
                    if kind == 'h' and p == 3 and not th: continue
                    nm = '%dd-axis%d-p%d%s' % (dim, axis, p, kind)
                    for op in OPS: yield Case('%s-%s' % (op, nm), inplace, dim=dim, axis=axis, p=p, kind=kind, op=op, nconc=1)
                    if dim == 1 or (p, kind) == (2, 'c'):
                        for op in BAD: yield Case('bad-%s-%s' % (op, nm), inplace, dim=dim, axis=axis, p=p, kind=kind, op=op, bad=True)
    for p, kind in ((1, 'c'), (2, 'c'), (2, 'u')):
        for op in OPS: yield Case('sym-%s-p%d%s' % (op, p, kind), inplace, dim=1, axis=0, p=p, kind=kind, op=op, sym=not op.startswith('remove'))
    for dim in (1, 2, 3):
        for p, kind in ((1, 'c'), (2, 'm'), (2, 'u')):
            for op in READ: yield Case('%s-%dd-p%d%s' % (op, dim, p, kind), reads, dim=dim, p=p, kind=kind, op=op)
    firsts = list(GET) + list(OPS)
    for dim, axis in ((1, 0), (2, 0), (2, 1)) + (((3, 1),) if th else ()):
        for p, kind in ((2, 'c'),) + (((2, 'u'), (3, 'm')) if th or dim == 1 else ()):
            for f in firsts:
                for s in OPS:
                    if f not in GET and not th and (dim > 1 or kind != 'c'): continue
                    yield Case('pair-%dd-axis%d-p%d%s-%s-%s' % (dim, axis, p, kind, f, s), pair, dim=dim, axis=axis, p=p, kind=kind, first=f, second=s, nconc=1 if f in GET else 0)
    for h, n in (('line', 1), ('circle', 1), ('circle-list', 1), ('linear', 1), ('linear4', 1), ('bilinear', 1), ('bilinear4', 1), ('trilinear', 1), ('grid', 1), ('grid-0d', 1),
                 ('grid-default', 1), ('compat', 4), ('compat-list', 1), ('compat-same', 1), ('compat-axes', 1), ('compat-one', 1), ('extrude', 4), ('revolve', 2), ('ruled', 2),
                 ('ruled-same', 1), ('sweep', 2), ('coons', 2), ('join', 8), ('join-same', 1), ('refine', 6), ('refine-args', 1), ('refine-nothing', 2)):
        for k in range(n): yield Case('cad-%s-%d' % (h, k), helper, what=h, k=k)
    yield Case('transforms', transforms)
    for k in (0, 1): yield Case('lists-%d' % k, lists, k=k)
    for dim in (1, 2, 3):
        for k in range(5): yield Case('files-%d-%d' % (dim, k), files, dim=dim, k=k)
    for p in (1, 2, 3):
        for kind in 'cuhm':
            if kind == 'm' and p == 1: continue
            yield Case('kernels-p%d%s' % (p, kind), kernels, p=p, kind=kind)
            yield Case('kernels2-p%d%s' % (p, kind), kernels2, p=p, kind=kind)
