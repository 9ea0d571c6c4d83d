"""C24 Generated knot vectors have the requested structure."""
from .common import *

MODULES = ('nurbs', 'cad')
BOUNDS = ('E = 1..6 elements, degree 1..4 (thorough: 10, 6), every continuity 0..p-1, symbolic limits Ui < Uf, open and periodic; grid of 1-3 dimensions with scalar, sequence and '
          'array forms of every argument, negative continuities, per-axis limits and wrapping, mixed degrees; requests outside the ranges')
OUTSIDE = 'limits in decreasing order (accepted by the library, not a knot vector)'

def reference(E, p, C, a, b, wrap):
    h = (b-a)/E
    s = p-C
    n = (E-1)*s
    if not wrap: return [a]*(p+1) + [a+i*h for i in range(1, E) for _ in range(s)] + [b]*(p+1)
    out = []
    for g in range(-p, n+p+2):                 # position relative to the last copy of the left end
        i = -((-g)//s) if g <= 0 else (g+s-1)//s
        out.append(a+i*h)
    return out

def limits(A, i=''):
    a = A.real('a'+i, -8, 8)
    L = A.gap('L'+i)
    return a, a+L

def one(A, E, p):
    a, b = limits(A)
    for C in range(p):
        for w in (0, 1, False, True):
            U = A.iga.KnotVector(E, p, C, a, b, w)
            what = 'E=%d p=%d C=%d wrap=%s' % (E, p, C, w)
            A.claim_eq(what, U, vec(reference(E, p, C, a, b, w)))
            U = list(A.objs(U))
            for i in range(len(U)-1): A.claim_le(what+' sorted', U[i], U[i+1])
    A.claim_eq('default limits', A.iga.KnotVector(E, p, 0), vec(reference(E, p, 0, A.num(0), A.num(1), 0)))
    A.claim_eq('default continuity', A.iga.KnotVector(E, p), vec(reference(E, p, p-1, A.num(0), A.num(1), 0)))
    A.claim_eq('keywords', A.iga.KnotVector(E, p, Uf=b, Ui=a, wrap=1), vec(reference(E, p, p-1, a, b, 1)))

def refuse(A):
    K = A.iga.KnotVector
    for E, p, C in ((0, 1, 0), (-1, 2, 1), (1, 0, 0), (2, 0, -1), (2, 2, 2), (2, 2, 3), (2, 3, -1), (2, -1, 0)):
        A.refused('KnotVector(%d,%d,%d)' % (E, p, C), lambda: K(E, p, C))
    g = A.cad.grid
    for what, f in (('four axes', lambda: g([1]*4)), ('no axes', lambda: g([])), ('two-dimensional shape', lambda: g([[1, 1]])), ('degree zero', lambda: g(2, 0)), ('degree of one axis zero', lambda: g([2, 2], [1, 0])),
                    ('negative degree', lambda: g(2, -1)), ('degree per axis', lambda: g([2, 2], [1, 1, 1])), ('continuity of the degree', lambda: g(2, 2, 2)), ('continuity below', lambda: g(2, 2, -3)),
                    ('continuity of one axis', lambda: g([2, 2], [2, 1], [1, 1])), ('continuity per axis', lambda: g([2, 2], 2, [1])), ('limits', lambda: g(2, 2, None, [0, 1, 2])),
                    ('limits per axis', lambda: g([2, 2], 2, None, [[0, 1]])), ('wrap per axis', lambda: g([2, 2], 2, wrap=[True])), ('no elements', lambda: g(0)), ('no elements on one axis', lambda: g([2, 0]))):
        A.refused('grid: ' + what, f)

def spec(form, v, np):
    if form == 'list': return list(v)
    if form == 'tuple': return tuple(v)
    if form == 'array': return np.array(list(v))
    return v[0]                      # scalar: the same for all axes

def gridcase(A, shape, degree, cont, wrap, forms, lim):
    dim = len(shape)
    if lim == 'axis': L = [limits(A, str(i)) for i in range(dim)]; la = [list(x) for x in L]
    elif lim == 'one': l = limits(A); L = [l]*dim; la = list(l)
    elif lim == 'array': L = [limits(A, str(i)) for i in range(dim)]; la = A.arr([list(x) for x in L])
    else: L = [(A.num(0), A.num(1))]*dim; la = None
    ints = lambda form, v: np.array(list(v), 'i') if form == 'array' else spec(form, v, np)
    kw = {}
    if la is not None: kw['limits'] = la
    if wrap is not None: kw['wrap'] = np.array(wrap, bool) if forms[3] == 'array' else spec(forms[3], wrap, np)
    if cont is not None: kw['continuity'] = ints(forms[2], cont)
    sh = shape[0] if forms[0] == 'scalar' else ints(forms[0], shape)
    o = A.cad.grid(sh, ints(forms[1], degree), **kw)
    C = [p-1 for p in degree] if cont is None else [c if c >= 0 else c+p for c, p in zip(cont, degree)]
    w = wrap or [False]*dim
    A.claim('dimension', o.dim == dim)
    A.claim('degrees', tuple(o.degree) == tuple(degree))
    G = []
    for i in range(dim):
        R = reference(shape[i], degree[i], C[i], L[i][0], L[i][1], w[i])
        A.claim_eq('knots of axis %d' % i, o.knots[i], vec(R))
        p = degree[i]
        G.append([sum(R[j+1:j+p+1], 0*R[0])/p for j in range(len(R)-p-1)])
    E = np.empty(tuple(len(x) for x in G)+(4,), dtype=object)
    for idx in np.ndindex(*E.shape[:-1]):
        for c in range(3): E[idx+(c,)] = G[c][idx[c]] if c < dim else A.num(0)
        E[idx+(3,)] = A.num(1)
    A.claim_eq('control points', o.control, E)
    A.claim('no fields', o.fields is None)
    # the map is the identity
    mid = [l[0]+(l[1]-l[0])*A.num(Fraction(3, 8)) for l in L]
    A.claim_eq('value', o(*mid), vec(mid+[A.num(0)]*(3-dim)))
    A.claim_eq('value at the start', o(*[l[0] for l in L]), vec([l[0] for l in L]+[A.num(0)]*(3-dim)))

def cases(tier):
    th = tier == 'thorough'
    for E in range(1, 11 if th else 7):
        for p in range(1, 7 if th else 5): yield Case('knots-%d-%d' % (E, p), one, E=E, p=p)
    yield Case('refuse', refuse)
    k = 0
    FORMS = [('list', 'list', 'list', 'list'), ('array', 'array', 'array', 'array'), ('tuple', 'scalar', 'scalar', 'scalar'), ('list', 'tuple', 'tuple', 'tuple')]
    SPECS = [((3,), (2,), None, None), ((3,), (2,), (0,), (True,)), ((1,), (1,), (-1,), (False,)), ((4,), (3,), (-2,), (True,)), ((2,), (3,), (2,), None), ((1,), (3,), (2,), (True,)), ((2,), (3,), (0,), (True,)),
             ((2, 3), (2, 1), None, None), ((3, 2), (1, 3), (0, 1), (True, False)), ((2, 2), (2, 3), (-1, -2), (False, True)), ((2, 3), (3, 2), (-1, 0), (True, True)), ((1, 2), (2, 3), (1, -3), (True, False)),
             ((2, 2), (2, 2), (-1, -1), (True, True)), ((3, 1), (3, 3), (0, 0), None), ((1, 2), (4, 2), (-4, 1), None),
             ((2, 1, 2), (1, 2, 3), None, None), ((1, 2, 2), (3, 2, 1), (-1, 0, 0), (False, True, False)), ((2, 2, 1), (2, 1, 2), (1, -1, -2), (True, False, True)), ((2, 2, 2), (2, 2, 2), (0, 0, 0), (True, True, True)),
             ((1, 1, 2), (2, 3, 2), (-2, -1, 1), (False, False, True))]
    for s, (shape, degree, cont, wrap) in enumerate(SPECS):
        for f, forms in enumerate(FORMS):
            if 'scalar' in forms and any(v is not None and len(set(v)) > 1 for v in (degree, cont, wrap)): continue
            for lim in ('axis', 'one', 'array', None):
                if not th and (s+f+len(str(lim))) % 2 and s > 6: continue
                yield Case('grid-%d-%d-%s' % (s, f, lim), gridcase, shape=shape, degree=degree, cont=cont, wrap=wrap, forms=forms, lim=lim)
    for shape, degree in (((3,), (2,)), ((2,), (1,)), ((1,), (3,))):
        yield Case('grid-int-%d%d' % (shape[0], degree[0]), gridcase, shape=shape, degree=degree, cont=None, wrap=None, forms=('scalar', 'scalar', 'scalar', 'scalar'), lim='one')
