"""C29 Invalid requests are refused before any effect."""
from .common import *

MODULES = ('nurbs', 'cad', 'transform')
BOUNDS = ('objects of 1-3 dimensions, degree 1-3, clamped, half-clamped and unclamped; any real parameter outside the domain of any axis, alone or inside an array (symbolic, arbitrarily close), '
          'insertions and refinements beyond the multiplicity inside spans, at breaks and at the ends, negative counts, inverted or empty slices and remappings (symbolic), axes -dim-2..dim+1, sides and '
          'continuities outside their ranges, fields and matrices of other shapes, orders outside 1..4, construction helpers given objects of other dimensions, open corners (symbolic gap), zero axes, '
          'empty refinements; malformed constructor input; the object is compared with its state before')
OUTSIDE = 'NaN, infinite or non-numeric arguments; fractional counts; limits of a line search over types'

def watch(A, o):
    arr = A.objs(o.array.copy()); kn = [A.objs(U.copy()) for U in o.knots]
    def check(what):
        A.claim(what+': points kept', A.same(A.objs(o.array), arr))
        A.claim(what+': knots kept', len(o.knots) == len(kn) and all(A.same(A.objs(U), k) for U, k in zip(o.knots, kn)))
    return check

def shapes(A, dim, axis, p, mults, sym=True, nf=1):
    Ks = [A.cknots(1, [2, 1, 2], seed=3, name='V') if i % 2 else A.cknots(2, [3, 3], seed=4, name='W') for i in range(dim)]
    Ks[axis] = A.knots(p, mults, name='U') if sym else A.cknots(p, mults, seed=2, name='U')
    o, H = objn(A, Ks, nf=nf, sym=False)
    return Ks, o

def outside(A, K, side):
    d = A.real('d', 0, 64, strict=True, nice=(Fraction(1, 8), 2))
    A.assume(d > 0)
    return K.b+d if side else K.a-d

def parameter(A, dim, axis, p, mults, side):
    """Every request which takes a parameter, outside the domain."""
    Ks, o = shapes(A, dim, axis, p, mults)
    K = Ks[axis]
    t = outside(A, K, side)
    chk = watch(A, o)
    ok = [x.a for x in Ks]
    one = list(ok); one[axis] = t
    many = [A.arr([x.b, x.a]) for x in Ks]; many[axis] = A.arr([K.a, t, K.b])
    F = o.fields
    for what, ts in (('scalar', one), ('array', many)):
        A.refused('call '+what, lambda: o(*ts))
        A.refused('call with fields '+what, lambda: o(*ts, fields=True))
        A.refused('evaluate '+what, lambda: o.evaluate(None, *ts))
        A.refused('evaluate given '+what, lambda: o.evaluate(F, *ts))
        A.refused('gradient '+what, lambda: o.gradient(F, *ts))
        A.refused('gradient unmapped '+what, lambda: o.gradient(F, *ts, mapped=False))
        A.refused('hessian '+what, lambda: o.hessian(F, *ts))
        for k in (1, 2, 3, 4): A.refused('derivative %d %s' % (k, what), lambda: o.derivative(k, F, *ts))
    for a in (axis, axis-dim):
        A.refused('insert', lambda: o.insert(a, t)); A.refused('insert none', lambda: o.insert(a, t, None)); A.refused('insert zero', lambda: o.insert(a, t, 0))
        A.refused('remove', lambda: o.remove(a, t)); A.refused('remove none', lambda: o.remove(a, t, None)); A.refused('remove zero', lambda: o.remove(a, t, 0))
        A.refused('refine', lambda: o.refine(a, t)); A.refused('refine list', lambda: o.refine(a, [(K.a+K.b)/2, t]))
        A.refused('slice', lambda: o.slice(a, None, t) if side else o.slice(a, t, None))
        A.refused('slice to', lambda: o.slice(a, (K.a+K.b)/2, t) if side else o.slice(a, t, (K.a+K.b)/2))
        A.refused('slice both', lambda: o.slice(a, K.a, t) if side else o.slice(a, t, K.b))
        A.refused('slice beyond', lambda: o.slice(a, t, t+1) if side else o.slice(a, t-1, t))
        A.refused('extract', lambda: o.extract(a, t))
    chk('parameter outside')

def counts(A, dim, axis, p, mults, loc, sym=True):
    """Insertions and refinements beyond the degree, negative counts."""
    Ks, o = shapes(A, dim, axis, p, mults, sym=sym)
    K = Ks[axis]
    if loc[0] == 'b': u, m = K.breaks[loc[1]], min(K.mults[loc[1]], p)
    else: u, m = (K.breaks[loc[0]]*2+K.breaks[loc[0]+1])/3, 0
    chk = watch(A, o)
    for t in (p-m+1, p-m+2, p+3): A.refused('insert %d at multiplicity %d' % (t, m), lambda: o.insert(axis, u, t))
    A.refused('insert -1', lambda: o.insert(axis, u, -1))
    for t in (p-m+1, p-m+3):
        A.refused('refine %d at multiplicity %d' % (t, m), lambda: o.refine(axis, A.arr([u]*t)))
    w = (K.a+3*K.b)/4
    A.refused('refine among others', lambda: o.refine(axis, A.arr([u]*(p-m+1)+[w] if A.decide(w > u) else [w]+[u]*(p-m+1))))
    A.refused('refine unsorted', lambda: o.refine(axis, A.arr([u]*(p-m)+[w, u])) if p-m else o.refine(axis, A.arr([w, u])))
    A.refused('remove -1', lambda: o.remove(axis, u, -1))
    A.refused('elevate -1', lambda: o.elevate(axis, -1))
    A.refused('elevate -p', lambda: o.elevate(axis, -p))
    chk('count')
    ok, r = A.attempt(lambda: o.insert(axis, u, p-m))
    A.claim('the whole multiplicity is accepted', ok)

def bounds(A, dim, axis, p, mults):
    """Inverted bounds."""
    Ks, o = shapes(A, dim, axis, p, mults)
    K = Ks[axis]
    chk = watch(A, o)
    s = A.real('s', 0, 1); A.assume(s > 0); A.assume(s < 1)
    u = K.a+(K.b-K.a)*s
    d = A.real('d', 0, 8)                     # zero: an empty interval
    A.refused('remap inverted', lambda: o.remap(axis, u, u-d))
    A.refused('remap start', lambda: o.remap(axis, K.b+d, None))
    A.refused('remap end', lambda: o.remap(axis, None, K.a-d))
    A.refused('slice empty', lambda: o.slice(axis, u, u))
    A.refused('slice inverted', lambda: o.slice(axis, K.b, u))
    A.refused('slice inverted to start', lambda: o.slice(axis, u, K.a))
    A.refused('slice of nothing at the end', lambda: o.slice(axis, K.b, None))
    A.refused('slice of nothing at the start', lambda: o.slice(axis, None, K.a))
    v = K.a+(K.b-K.a)*s/2
    A.refused('slice inverted inside', lambda: o.slice(axis, u, v))
    chk('bounds')

def args(A, dim, p, mults):
    """Axes, sides, continuities, orders, shapes."""
    Ks, o = shapes(A, dim, 0, p, mults, sym=False)
    K = Ks[0]
    chk = watch(A, o)
    mid = lambda i: (Ks[i].a+Ks[i].b)/2
    u = mid(0)
    for a in (dim, dim+1, -dim-1, -dim-2):
        for what, f in (('insert', lambda: o.insert(a, u)), ('insert 0', lambda: o.insert(a, u, 0)), ('remove', lambda: o.remove(a, u)), ('refine', lambda: o.refine(a, [u])),
                        ('elevate', lambda: o.elevate(a)), ('clamp', lambda: o.clamp(a)), ('unclamp', lambda: o.unclamp(a)), ('reverse', lambda: o.reverse(a)),
                        ('remap', lambda: o.remap(a, 0, 1)), ('remap nothing', lambda: o.remap(a, None, None)), ('swap', lambda: o.swap(0, a)), ('swap', lambda: o.swap(a, 0)), ('slice', lambda: o.slice(a, None, None)),
                        ('extract', lambda: o.extract(a, u)), ('boundary', lambda: o.boundary(a, 0)), ('breaks', lambda: o.breaks(a)), ('spans', lambda: o.spans(a)), ('greville', lambda: o.greville(a)),
                        ('lagrange', lambda: o.lagrange(a)), ('lobatto', lambda: o.lobatto(a))):
            A.refused('%s axis %d' % (what, a), f)
    if dim > 1: A.refused('reverse second axis', lambda: o.reverse(0, dim))
    for s in (-1, 2, 3):
        A.refused('clamp side %d' % s, lambda: o.clamp(0, s)); A.refused('unclamp side %d' % s, lambda: o.unclamp(0, s))
        A.refused('boundary side %d' % s, lambda: o.boundary(0, s))
    for c in (p, p+1, -1):
        A.refused('unclamp continuity %d' % c, lambda: o.unclamp(0, None, c))
        A.refused('unclamp side continuity %d' % c, lambda: o.unclamp(0, 1, c))
    A.refused('transpose of too few', lambda: o.transpose(range(dim-1))); A.refused('transpose of too many', lambda: o.transpose(range(dim+1)))
    if dim > 1: A.refused('transpose repeating', lambda: o.transpose([0]*dim)); A.refused('transpose beyond', lambda: o.transpose(list(range(1, dim+1))))
    for k in (0, -1, 5): A.refused('derivative order %d' % k, lambda: o.derivative(k, None, *[x.a for x in Ks]))
    for k in (2, 3, 4): A.refused('mapped derivative order %d' % k, lambda: o.derivative(k, None, *[x.a for x in Ks], mapped=True))
    ts = [x.a for x in Ks]
    sh = o.shape
    bad = dict(short=(sh[0]-1,)+tuple(sh[1:]), long=tuple(sh[:-1])+(sh[-1]+1,), deep=tuple(sh)+(2, 2), longcomp=(sh[0]+1,)+tuple(sh[1:])+(2,), scalar=(), vector=(3,) if tuple(sh) != (3,) else (5,), flat=(int(np.prod(sh))+(dim == 1), 7))
    for what, s in bad.items():
        F = A.arr(np.ones(s, dtype=object)*A.num(1)) if s else A.num(1)
        A.refused('call with fields '+what, lambda: o(*ts, fields=F)); A.refused('evaluate '+what, lambda: o.evaluate(F, *ts)); A.refused('gradient '+what, lambda: o.gradient(F, *ts))
        A.refused('hessian '+what, lambda: o.hessian(F, *ts)); A.refused('derivative '+what, lambda: o.derivative(1, F, *ts))
    for what, M in (('3 by 3', np.eye(3)), ('4 by 3', np.eye(4)[:, :3]), ('vector', np.ones(4)), ('5 by 5', np.eye(5))):
        A.refused('transform '+what, lambda: o.transform(A.arr(M.astype(int).astype(object))))
    v4 = A.arr([1, 2, 3, 4])
    for what, f in (('translate', lambda: o.translate(v4)), ('move', lambda: o.move(v4)), ('scale', lambda: o.scale(v4)), ('rotate', lambda: o.rotate(1, v4)), ('rotate about nothing', lambda: o.rotate(1, A.arr([0, 0, 0]))),
                    ('rotate axis', lambda: o.rotate(1, 3)), ('translate axis', lambda: o.translate(1, 3)), ('scale axis', lambda: o.scale(1, 3)), ('translate matrix', lambda: o.translate(A.arr([[1, 2], [3, 4]]))),
                    ('scale matrix', lambda: o.scale(A.arr([[1, 2], [3, 4]]))), ('rotate matrix', lambda: o.rotate(1, A.arr([[1, 0], [0, 1]])))):
        A.refused(what, f)
    chk('arguments')

def helpers(A, what=None):
    if A is None:
        class Any(object):
            def __getattr__(self, k): return lambda *a, **kw: None
        A = Any(); A.cad = Any(); A.NURBS = None
        names = True
    else: names = False
    cad, N = A.cad, A.NURBS
    c = cad.line(); s = cad.bilinear(); v = cad.trilinear()
    if not names:
        all_ = [watch(A, x) for x in (c, s, v)]
        s2 = s.copy().translate(A.arr([0, 1, 0]))
    T = {
        'extrude a volume': lambda: cad.extrude(v, 1, 2), 'revolve a volume': lambda: cad.revolve(v, 0, 2, 1), 'revolve about nothing': lambda: cad.revolve(c, 0, A.arr([0, 0, 0]), 1),
        'revolve about four components': lambda: cad.revolve(c, 0, [0, 0, 1, 0], 1), 'revolve about a point of four': lambda: cad.revolve(c, [0, 0, 0, 0], 2, 1), 'revolve about axis 3': lambda: cad.revolve(c, 0, 3, 1),
        'revolve about a matrix': lambda: cad.revolve(c, 0, [[0, 1], [1, 0]], 1), 'revolve at a matrix': lambda: cad.revolve(c, [[0, 1]], 2, 1),
        'ruled of two kinds': lambda: cad.ruled(c, s), 'ruled of two kinds, reversed': lambda: cad.ruled(s, c), 'ruled volumes': lambda: cad.ruled(v, v),
        'sweep a volume': lambda: cad.sweep(v, c), 'sweep along a surface': lambda: cad.sweep(c, s), 'sweep along a volume': lambda: cad.sweep(c, v),
        'compat of two kinds': lambda: cad.compat(c, s), 'compat of three kinds': lambda: cad.compat(s, s, v), 'compat of an unknown option': lambda: cad.compat(c, c, axis=0), 'compat axis': lambda: cad.compat(s, s, axes=2), 'compat axes': lambda: cad.compat(s, s, axes=[0, 2]),
        'join of two kinds': lambda: cad.join(c, s, 0), 'join axis': lambda: cad.join(s, s, 2), 'join negative axis': lambda: cad.join(s, s2, -1), 'join axis of a curve': lambda: cad.join(c, c, 1),
        'coons of surfaces': lambda: cad.coons([[s, s], [s, s]]), 'coons of three': lambda: cad.coons([[c, c], [c]]),
        'refine factor 0': lambda: cad.refine(s, 0), 'refine factor of one axis 0': lambda: cad.refine(s, [1, 0]), 'refine factor -1': lambda: cad.refine(c, -1), 'refine factors': lambda: cad.refine(s, [1, 2, 3]),
        'refine factor per span': lambda: cad.refine(c, [[2, 2]]), 'refine factor per span 0': lambda: cad.refine(c, [[0]]), 'refine degree 0': lambda: cad.refine(s, None, 0), 'refine degree -1': lambda: cad.refine(s, None, -1), 'refine degrees': lambda: cad.refine(s, None, [2, 2, 2]),
        'refine continuity of the degree': lambda: cad.refine(s, None, 2, 2), 'refine continuity below': lambda: cad.refine(s, None, 2, -3), 'refine continuities': lambda: cad.refine(s, None, 2, [1]), 'refine continuity of a line': lambda: cad.refine(c, 2, None, 1),
        'linear of three': lambda: cad.linear(A.arr([[0, 0], [1, 1], [2, 2]])), 'bilinear of a row': lambda: cad.bilinear(A.arr([[[0, 0], [1, 1]]])), 'trilinear of a face': lambda: cad.trilinear(A.arr([[[0, 0], [1, 1]], [[0, 0], [1, 1]]])),
        'line of four components': lambda: cad.line((0, 0, 0, 1), (1, 0)), 'circle with a center of four': lambda: cad.circle(1, A.arr([0, 0, 0, 0])), 'circle of three angles': lambda: cad.circle(1, None, (0, 1, 2)),
    }
    if names: return list(T)
    A.refused(what, T[what])
    for k in all_: k('helper')

def corners(A, k, i):
    """A Coons patch whose boundary curves do not meet."""
    cad = A.cad
    P = [[(0, 0, 0), (0, 2, 1)], [(3, 0, 0), (3, 3, 0)]]
    g = A.real('g', -4, 4, nice=(Fraction(1, 8), 2))
    A.assume(g*g > Fraction(1, 10**12) if A.mode == 'sym' else abs(g) > 1e-6)
    def ln(a, b): return cad.line(A.arr(list(a)), A.arr(list(b)))
    q = [[(P[0][0], P[1][0]), (P[0][1], P[1][1])], [(P[0][0], P[0][1]), (P[1][0], P[1][1])]]
    d = [[[list(e) for e in c] for c in r] for r in q]
    e = d[k // 4][k // 2 % 2][k % 2]
    e[i] = e[i]+g
    A.refused('coons of open corners', lambda: cad.coons([[ln(*c) for c in r] for r in d]))

def cases(tier):
    th = tier == 'thorough'
    from . import c25
    for dim in (1, 2, 3): yield Case('constructor-%d' % dim, c25.bad, dim=dim)
    for dim in (1, 2, 3):
        for axis in range(dim):
            for p in (1, 2, 3):
                for m in (CLAMPED[p][:3] + UNCLAMPED[p]) if dim == 1 else (CLAMPED[p][1:2] + UNCLAMPED[p][:1]):
                    nm = '%dd-axis%d-p%d-%s' % (dim, axis, p, ''.join(map(str, m)))
                    for side in (0, 1): yield Case('parameter-%s-%d' % (nm, side), parameter, dim=dim, axis=axis, p=p, mults=m, side=side)
                    yield Case('bounds-%s' % nm, bounds, dim=dim, axis=axis, p=p, mults=m)
                    K = Knots(p, [0]*len(m), m)
                    locs = [('b', j) for j in range(K.lo, K.hi+1)] + [(j, 0) for j in range(K.lo, K.hi)]
                    if dim > 1: locs = locs[:2]
                    for l in locs: yield Case('counts-%s-%s' % (nm, ''.join(map(str, l))), counts, dim=dim, axis=axis, p=p, mults=m, loc=l)
        for p, m in ((1, [2, 2]), (2, [3, 1, 3]), (3, [4, 4]), (2, [1]*6)): yield Case('args-%dd-p%d-%s' % (dim, p, ''.join(map(str, m))), args, dim=dim, p=p, mults=m)
    for w in helpers(None): yield Case('helper-%s' % w.replace(' ', '-').replace(',', ''), helpers, what=w)
    for k in range(8):
        for i in range(3): yield Case('corners-%d-%d' % (k, i), corners, k=k, i=i)
