"""C26 Plots hand the true geometry to the drawing backend."""
import itertools
from .common import *

MODULES = ('nurbs', 'plot')
BOUNDS = ('a recording backend with line resolutions 2-6 and surface resolutions 2-5; objects of 1-3 dimensions, degree 1-3, clamped, half-clamped and unclamped, fixed irregular knots, '
          'symbolic control points and weights, with and without fields; every plot kind, every axis selection (none, one axis, tuple, list, repeated, reordered, counted from the end), every mode; points and quiver with 1-3 components, one point, '
          'a list and grids; an unknown backend')
OUTSIDE = 'the drawing backends themselves (matplotlib, mayavi, null), colours and other options handed through; glyph scaling of mayavi'

class Rec(object):
    """Backend which records what it is given."""
    def __init__(self, r1, r2): self._resolution = {1: r1, 2: r2}; self.log = []
    def _r(self, kind, args, kw):
        tok = ['%s %d' % (kind, len(self.log))]
        self.log.append((kind, args, kw, tok))
        return tok
    def points3d(self, *a, **k): return self._r('points3d', a, k)
    def quiver3d(self, *a, **k): return self._r('quiver3d', a, k)
    def line3d(self, *a, **k): return self._r('line3d', a, k)
    def surf3d(self, *a, **k): return self._r('surf3d', a, k)

def plotter(A, rec):
    P = A.mod('plot').Plotter()
    P._backend = rec
    return P

def lin(K, n):
    """Uniform parameters of the domain of fixed knots: (value, span) with exact values."""
    a, b = K.fr[K.lo], K.fr[K.hi]
    out = []
    for i in range(n):
        t = a+(b-a)*Fraction(i, n-1)
        out.append((t, span(K, t)))
    return out

def span(K, t):
    for k, j in K.spans:
        if K.fr[j] <= t < K.fr[j+1]: return k
    return K.spans[-1][0]

def brk(K): return [(K.fr[j], span(K, K.fr[j])) for j in range(K.lo, K.hi+1)]

def values(A, Ks, pts, H):
    """Cartesian values on the grid of (value, span) lists."""
    shape = tuple(len(p) for p in pts)
    out = np.empty(shape+(3,), dtype=object)
    for i in np.ndindex(*shape):
        h = ref.homog_eval([K.U for K in Ks], [K.p for K in Ks], [pts[d][i[d]][1] for d in range(len(Ks))], [A.num(pts[d][i[d]][0]) for d in range(len(Ks))], H)
        for c in range(3): out[i+(c,)] = h[c]/h[3]
    return out

def xyz(C):
    """What `x, y, z = C.T` gives."""
    return [np.transpose(C[..., c]) for c in range(3)]

def same3(A, what, got, C):
    A.claim(what+': three coordinates', len(got) == 3)
    for c, (g, e) in enumerate(zip(got, xyz(C))): A.claim_eq('%s %s' % (what, 'xyz'[c]), g, e)

def obj(A, degs, ms, nf=0):
    Ks = [A.cknots(p, m, seed=i+1, name='U%d' % i) for i, (p, m) in enumerate(zip(degs, ms))]
    o, H = objn(A, Ks, nf=nf)
    return Ks, o, H

def lines_of(A, what, call, exp):
    kind, args, kw, tok = call
    A.claim(what+': drawn as lines', kind == 'line3d' and not args)
    L = list(kw['lines'])
    A.claim(what+': number of lines', len(L) == len(exp))
    for i, (l, e) in enumerate(zip(L, exp)): same3(A, '%s line %d' % (what, i), l, e)

def surfs_of(A, what, call, exp):
    kind, args, kw, tok = call
    A.claim(what+': drawn as surfaces', kind == 'surf3d' and not args)
    S = list(kw['surfs'])
    A.claim(what+': number of surfaces', len(S) == len(exp))
    for i, (s, e) in enumerate(zip(S, exp)): same3(A, '%s surface %d' % (what, i), s, e)

def pts_of(A, what, call, C):
    kind, args, kw, tok = call
    A.claim(what+': drawn as points', kind == 'points3d')
    same3(A, what, args, C)

def cut(A, Ks, H, axis, t):
    """Reference values of the section at a fixed parameter: a function of the other parameters."""
    return axis, t

def section(A, Ks, H, axis, loc, res):
    """Values of the section axis=loc at uniform parameters of the other axes."""
    pts = [lin(K, res) if d != axis else [loc] for d, K in enumerate(Ks)]
    V = values(A, Ks, pts, H)
    return np.squeeze(V, axis=axis)

def ends(K): return [(K.fr[K.lo], K.spans[0][0]), (K.fr[K.hi], K.spans[-1][0])]

def kinds(A, degs, ms, what, r1, r2, nf, opts):
    Ks, o, H = obj(A, degs, ms, nf)
    dim = len(Ks)
    rec = Rec(r1, r2)
    P = plotter(A, rec)
    arr = A.objs(o.array).copy()
    net = A.objs(o.points)
    def axes_list(a): return [range(dim)[i] for i in (range(dim) if a is None else a if isinstance(a, (list, tuple)) else [a])]
    if what in ('cpoint', 'cwire', 'cplot'):
        r = getattr(P, what)(o, **opts)
        log = list(rec.log)
        if what != 'cwire': pts_of(A, what, log.pop(0), net)
        if what != 'cpoint': lines_of(A, what, log.pop(0), [net])
        A.claim('nothing else drawn', not log)
    elif what in ('kpoint', 'kplot'):
        r = getattr(P, what)(o, **opts)
        log = list(rec.log)
        pts_of(A, what, log.pop(0), values(A, Ks, [brk(K) for K in Ks], H))
        if what == 'kplot': lines_of(A, what, log.pop(0), wires(A, Ks, H, range(dim), r1))
        A.claim('nothing else drawn', not log)
    elif what == 'kwire':
        sel = [None] + list(range(dim)) + [(d,) for d in range(dim)] + [list(range(dim))[::-1], (0, 0), -1, -dim, [-dim, dim-1], tuple(range(-dim, 0))]
        for a in sel:
            n0 = len(rec.log)
            r = P.kwire(o, a, **opts) if a is not None else P.kwire(o, **opts)
            A.claim('one call', len(rec.log) == n0+1)
            lines_of(A, 'kwire %s' % (a,), rec.log[-1], wires(A, Ks, H, axes_list(a), r1))
    elif what == 'ksurf':
        for a in [None] + list(range(dim)) + [tuple(range(dim))[::-1], [0], -1, -dim, (-1, 0)]:
            n0 = len(rec.log)
            r = P.ksurf(o, a, **opts)
            A.claim('one call', len(rec.log) == n0+1)
            surfs_of(A, 'ksurf %s' % (a,), rec.log[-1], [section(A, Ks, H, d, loc, r2) for d in axes_list(a) for loc in brk(Ks[d])])
    elif what in ('curve', 'plot1'):
        r = (P.curve if what == 'curve' else P.plot)(o, **opts)
        def rec_curves(Ks, H):
            if len(Ks) == 1: return [values(A, Ks, [lin(Ks[0], r1)], H)]
            out = []
            for d in range(len(Ks)):
                for loc in ends(Ks[d]):
                    H2 = np.empty(tuple(n for i, n in enumerate(H.shape[:-1]) if i != d)+(H.shape[-1],), dtype=object)
                    b = ref.span_basis(Ks[d].U, Ks[d].p, loc[1], A.num(loc[0]))
                    Hm = np.moveaxis(H, d, 0)
                    for i in np.ndindex(*H2.shape): H2[i] = sum((n*Hm[(k,)+i] for k, n in b.items()), 0*Hm[(0,)+i])
                    out += rec_curves(Ks[:d]+Ks[d+1:], H2)
            return out
        exp = rec_curves(Ks, H)
        A.claim('curves drawn', len(rec.log) == len(exp))
        for i, (c, e) in enumerate(zip(rec.log, exp)): lines_of(A, 'curve %d' % i, c, [e])
    elif what in ('surface', 'plot2', 'volume', 'plot3'):
        r = dict(surface=P.surface, plot2=P.plot, plot3=P.plot, volume=P.volume)[what](o, **opts)
        exp = [values(A, Ks, [lin(K, r2) for K in Ks], H)] if dim == 2 else [section(A, Ks, H, d, loc, r2) for d in range(3) for loc in ends(Ks[d])]
        A.claim('one call', len(rec.log) == 1)
        surfs_of(A, what, rec.log[0], exp)
        A.claim('returns what was drawn', r is rec.log[0][3])
    A.claim_eq('object kept', o.array, arr)
    for kind, args, kw, tok in rec.log:
        for k, v in opts.items():
            if k != 'mode' and v is not None: A.claim('option %s handed on' % k, kw.get(k) == v)

def wires(A, Ks, H, axes, r1):
    out = []
    for d in axes:
        pts = [lin(K, r1) if i == d else brk(K) for i, K in enumerate(Ks)]
        V = np.moveaxis(values(A, Ks, pts, H), d, -2)
        out += list(V.reshape((-1, r1, 3)))
    return out

def points(A, n, shape):
    rec = Rec(3, 3); P = plotter(A, rec)
    def d(name):
        a = np.empty(shape+(n,), dtype=object)
        for i in np.ndindex(*a.shape): a[i] = A.ctrl('%s%s' % (name, '_'.join(map(str, i))))
        return a
    def full(a):
        a = a if a.ndim > 1 else a[None]
        e = np.empty(a.shape[:-1]+(3,), dtype=object); e[...] = A.num(0); e[..., :n] = a
        return e
    C, V = d('P'), d('V')
    r = P.points(A.arr(C))
    pts_of(A, 'points', rec.log[0], full(C))
    A.claim('returned', r is rec.log[0][3])
    P.points([list(x) if isinstance(x, np.ndarray) else x for x in C] if C.ndim <= 2 else A.arr(C), color=(1, 0, 0))
    pts_of(A, 'points', rec.log[1], full(C))
    r = P.quiver(A.arr(C), A.arr(V))
    kind, args, kw, tok = rec.log[2]
    A.claim('arrows', kind == 'quiver3d' and len(args) == 6)
    same3(A, 'origins', args[:3], full(C)); same3(A, 'vectors', args[3:], full(V))
    A.claim('returned', r is tok)
    # of different component counts
    W = np.concatenate([V, V, V, V], axis=-1)[..., :3]
    P.quiver(A.arr(C), A.arr(W))
    same3(A, 'vectors', rec.log[3][1][3:], W if W.ndim > 1 else W[None])
    P.quiver(A.arr(W), A.arr(C))
    same3(A, 'origins', rec.log[4][1][:3], W if W.ndim > 1 else W[None]); same3(A, 'vectors', rec.log[4][1][3:], full(C))

def dispatch(A):
    for dim in (1, 2, 3):
        rec = Rec(3, 2); P = plotter(A, rec)
        Ks, o, H = obj(A, [1]*dim, [[2, 2]]*dim)
        if dim < 2: A.claim('no surface of a curve', P.surface(o) is None and not rec.log)
        if dim < 3: A.claim('no volume', P.volume(o) is None and not rec.log)
        P.plot(o)
        A.claim('plot draws', [c[0] for c in rec.log] == (['line3d'] if dim == 1 else ['surf3d']))
        A.refused('mode', lambda: P.cwire(o, mode='sphere'))
        A.refused('mode', lambda: P.kwire(o, mode='sphere'))
        A.refused('mode', lambda: P.curve(o, mode='sphere'))
    A.refused('points of four components', lambda: P.points(A.arr([[1, 2, 3, 4]])))
    A.refused('vectors of four components', lambda: P.quiver(A.arr([[1, 2, 3]]), A.arr([[1, 2, 3, 4]])))
    m = A.mod('plot')
    A.refused('unknown backend', lambda: m.Plotter('nosuch'))

STR = {1: [((1,), ([2, 1, 2],)), ((2,), ([3, 2, 3],)), ((3,), ([4, 1, 4],)), ((2,), ([1]*7,)), ((3,), ([2, 2, 1, 2, 2],)), ((2,), ([3, 1, 1, 1, 1],))],
       2: [((1, 2), ([2, 1, 2], [3, 3])), ((2, 1), ([3, 1, 3], [2, 1, 1, 2])), ((2, 2), ([1]*6, [3, 3])), ((3, 1), ([4, 4], [1]*5))],
       3: [((1, 2, 1), ([2, 1, 2], [3, 3], [2, 2])), ((1, 1, 2), ([2, 2], [2, 1, 2], [3, 3])), ((2, 1, 1), ([1]*6, [2, 2], [2, 1, 2]))]}

def cases(tier):
    th = tier == 'thorough'
    for dim in (1, 2, 3):
        for s, (ps, ms) in enumerate(STR[dim]):
            for what in ('cpoint', 'cwire', 'cplot', 'kpoint', 'kwire', 'kplot', 'ksurf', 'curve', 'surface', 'volume', 'plot'):
                if what == 'ksurf' and dim == 1 or what == 'surface' and dim == 1 or what == 'volume' and dim < 3: continue
                w = what + str(dim) if what == 'plot' else what
                for v, (r1, r2, nf, opts) in enumerate(((5, 4, 0, {}), (2, 2, 1, dict(color=(1, 1, 1))), (4, 3, 2, dict(mode='line')), (6, 5, 0, dict(mode='tube', color=None, opacity=0.5)))):
                    if dim == 3 and v in (0, 3) and not th: r1, r2 = 3, 3
                    if 'mode' in opts and what in ('ksurf', 'surface', 'volume', 'kplot', 'cplot', 'cpoint', 'kpoint') or 'mode' in opts and what == 'plot' and dim > 1: opts = {k: x for k, x in opts.items() if k != 'mode'}
                    yield Case('%s-%dd-%d-%d' % (what, dim, s, v), kinds, degs=ps, ms=ms, what=w, r1=r1, r2=r2, nf=nf, opts=opts)
    for n in (1, 2, 3):
        for shape in ((), (1,), (4,), (2, 3), (2, 1, 3)): yield Case('points-%d-%s' % (n, 'x'.join(map(str, shape))), points, n=n, shape=shape)
    yield Case('dispatch', dispatch)
