"""C30 The drawing backends draw exactly the points, lines and surfaces they are given."""
import itertools
from .common import *

MODULES = ('nurbs', 'plot')
BOUNDS = ('the matplotlib and mayavi backends over recording stand-ins for these libraries; one to three point sets, lines or surfaces per call, of one to three dimensions with 1-4 points per axis (up to 150 in some), all coordinates symbolic; '
          'every option the backends know, marker modes, an existing or a new figure; whole plots of curves, surfaces and volumes through the Plotter with symbolic control nets')
OUTSIDE = 'what matplotlib and mayavi draw for the requests they receive; lines of a 2-D or 3-D grid with a single point along an axis; primitives the stand-ins do not know'

def grid(A, name, shape):
    C = np.empty((3,)+shape, dtype=object)
    for i in np.ndindex(*C.shape): C[i] = A.ctrl('%s%s_%s' % (name, 'xyz'[i[0]], '_'.join(map(str, i[1:]))))
    return C, [A.arr(C[c]) for c in range(3)]

class Pts(object):
    """Points by value: every coordinate triple met so far has a number."""
    def __init__(self, A): self.A, self.n, self.xyz = A, {}, []
    def idx(self, x, y, z):
        A = self.A
        k = (A.key(x), A.key(y), A.key(z))
        if k not in self.n: self.n[k] = len(self.n); self.xyz.append((x, y, z))
        return self.n[k]
    def ids(self, xyz):
        """Array of point numbers of three coordinate arrays of one shape."""
        x, y, z = [self.A.objs(c) for c in xyz]
        x, y, z = np.broadcast_arrays(x, y, z)
        o = np.empty(x.shape, dtype=int)
        for i in np.ndindex(*x.shape): o[i] = self.idx(x[i], y[i], z[i])
        return o

def seg(a, b): return (min(a, b), max(a, b))
def edges(g):
    """Segments between the neighbours of a grid of point numbers."""
    out = set()
    for d in range(g.ndim):
        m = np.moveaxis(g, d, 0)
        out |= {seg(int(a), int(b)) for a, b in zip(m[:-1].reshape(-1), m[1:].reshape(-1))}
    return out
def poly(q):
    """A polygon irrespective of where it starts and which way it runs."""
    q = [int(x) for x in q]
    return min(tuple(r[k:]+r[:k]) for r in (q, q[::-1]) for k in range(len(q)))
def faces(g):
    out = set()
    for d, e in itertools.combinations(range(g.ndim), 2):
        m = np.moveaxis(g, (d, e), (0, 1))
        m = m.reshape(m.shape[:2]+(-1,))
        for i in range(m.shape[0]-1):
            for j in range(m.shape[1]-1):
                for k in range(m.shape[2]): out.add(poly((m[i, j, k], m[i+1, j, k], m[i+1, j+1, k], m[i, j+1, k])))
    return out

def strided(n, s):
    s = n if s is None else max(1, int(s))
    return sorted(set(range(0, n, s)) | {n-1})

def drawn(A, P, call):
    """Points, segments and faces of a recorded matplotlib call."""
    kind, ax, a, k = call
    g = P.ids(a[:3] if len(a) >= 3 else [k[n] for n in ('xs', 'ys', 'zs')])
    if kind == 'scatter': return set(g.reshape(-1)), set(), set()
    if kind == 'plot': return set(g.reshape(-1)), edges(g), set()
    rs, cs = k.get('rstride', 1), k.get('cstride', 1)
    if kind == 'plot_wireframe':
        s = set()
        if rs: 
            for i in strided(g.shape[0], rs): s |= edges(g[i])
        if cs:
            for j in strided(g.shape[1], cs): s |= edges(g[:, j])
        return set(g.reshape(-1)), s, set()
    h = g[np.ix_(strided(g.shape[0], rs), strided(g.shape[1], cs))]
    return set(h.reshape(-1)), set(), faces(h)

NOISE = dict(name='n', representation='surface', opacity=0.5, colormap='jet', resolution=8, line_width=2)

def mpl_points(A, shape, mode, fresh):
    W = A.drawing(); m = A.mod('plot_mpl')
    if not fresh: m.gca()
    C, xyz = grid(A, 'P', shape)
    kw = dict(NOISE, scale_factor=2, scale_mode='none', color=(1, 0, 0))
    if mode: kw['mode'] = mode
    kept = dict(kw)
    m.points3d(*xyz, **kw)
    A.claim('one call', [c[0] for c in W.log.calls] == ['scatter'])
    kind, ax, a, k = W.log.calls[0]
    A.claim('in the current axes of a 3-D figure', len(W.log.figures) == 1 and W.log.figures[0].axes == [ax] and ax.kw.get('projection') == '3d')
    got = [A.objs(c).reshape(-1) for c in a[:3]]
    n = int(np.prod(shape)) if shape else 1
    A.claim('every point once', all(len(c) == n for c in got))
    o1 = sorted(range(n), key=lambda i: [A.key(c[i]) for c in got])
    exp = [C[c].reshape(-1) for c in range(3)]
    o2 = sorted(range(n), key=lambda i: [A.key(c[i]) for c in exp])
    for c in range(3): A.claim_eq('points, coordinate %s' % 'xyz'[c], vec([got[c][i] for i in o1]), vec([exp[c][i] for i in o2]))
    A.claim('marker', k.get('marker') == {'sphere': 'o', 'cube': 's', 'cone': '^', None: 'o'}.get(mode))
    A.claim('colour handed on', k.get('color') == (1, 0, 0))
    A.claim('options of the other backend dropped', not set(k) & (set(NOISE) | {'scale_factor', 'scale_mode', 'mode'}))
    A.claim('options kept', kw == kept)
    for c in range(3): A.claim_eq('arguments kept', xyz[c], C[c])

def mpl_lines(A, shapes, surf, kw0):
    W = A.drawing(); m = A.mod('plot_mpl')
    G = [grid(A, 'L%d' % i, s) for i, s in enumerate(shapes)]
    P = Pts(A)
    kw = dict(NOISE, tube_radius=1.0, tube_sides=6, **kw0)
    if surf: kw.update(scale_factor=1, scale_mode='none')
    f = m.surf3d if surf else m.line3d
    L = [tuple(xyz) for C, xyz in G]
    f(**{('surfs' if surf else 'lines'): L}, **kw)
    want_s, want_f, want_p = set(), set(), set()
    for C, xyz in G:
        g = P.ids(C)
        if not surf: want_s |= edges(g); want_p |= set(g.reshape(-1))
        elif g.ndim == 2: want_f |= faces(g); want_p |= set(g.reshape(-1))
    n = len(P.n)
    got_p, got_s, got_f = set(), set(), set()
    for c in W.log.calls:
        p, s, q = drawn(A, P, c)
        got_p |= p; got_s |= s; got_f |= q
    A.claim('no point which was not given', len(P.n) == n)
    A.claim('every point drawn', got_p == want_p)
    A.claim('exactly the given lines', got_s == want_s)
    A.claim('exactly the given faces', got_f == want_f)
    A.claim('one pair of axes', len({id(c[1]) for c in W.log.calls}) <= 1)
    bad = set(NOISE) | {'tube_radius', 'tube_sides', 'scale_factor', 'scale_mode'}
    for c in W.log.calls:
        A.claim('options of the other backend dropped', not set(c[3]) & bad)
        for k, v in kw0.items(): A.claim('option %s handed on' % k, c[3].get(k) == v)
        if c[0] == 'plot_surface' and not kw0: A.claim('a colour map unless a colour is given', 'cmap' in c[3])
        if c[0] == 'plot_surface' and 'color' in kw0: A.claim('no colour map over a colour', 'cmap' not in c[3])
    for C, xyz in G:
        for c in range(3): A.claim_eq('arguments kept', xyz[c], C[c])
    A.claim('list kept', len(L) == len(G))

def mpl_axes(A):
    W = A.drawing(); m = A.mod('plot_mpl')
    ax = m.gca()
    A.claim('a new figure gets 3-D axes', len(W.log.figures) == 1 and W.log.figures[0].axes == [ax] and ax.kw == dict(projection='3d'))
    A.claim('the axes are kept', m.gca() is ax)
    for i, n in enumerate(('title', 'xlabel', 'ylabel', 'zlabel')):
        getattr(m, n)('text %d' % i, color='r')
        kind, a, args, k = W.log.calls[-1]
        A.claim('%s set on the axes' % n, kind == 'set_'+n and a is ax and args == ('text %d' % i,) and k == dict(color='r'))
    m.figure()
    A.claim('the axes of the new figure', m.gca() is not ax and len(W.log.figures) == 2)

def myv(A, shapes, surf, whole):
    W = A.drawing(); m = A.mod('plot_myv')
    G = [grid(A, 'L%d' % i, s) for i, s in enumerate(shapes)]
    P = Pts(A)
    L = [tuple(xyz) for C, xyz in G]
    if whole:
        (m.surf3d if surf else m.line3d)(**{('surfs' if surf else 'lines'): L}, name='mine', figure='f')
        A.claim('one data set', len(W.log.datasets) == 1)
        ds, name, k = W.log.datasets[0]
        A.claim('name and options handed on', name == 'mine' and k == dict(figure='f'))
        pts, con = ds.points, ds.polys if surf else ds.lines
        A.claim('nothing else in the data set', (ds.lines if surf else ds.polys) is None)
        s = A.objs(ds.point_data.scalars.v)
        A.claim('the scalars are named', ds.point_data.scalars.name == 'scalars')
        A.claim_eq('the scalars are the heights', s, A.objs(pts)[:, 2])
    else: pts, con = (m._extract_grid_polys if surf else m._extract_grid_lines)(L)
    pts = A.objs(pts); con = np.asarray(con, dtype=int)
    N = sum(int(np.prod(s)) for s in shapes)
    A.claim('number of points', pts.shape == (N, 3))
    A.claim('connectivity of %d points' % (4 if surf else 2), con.ndim == 2 and con.shape[1] == (4 if surf else 2) and bool(((con >= 0) & (con < N)).all()))
    k0 = 0; want = set()
    for C, xyz in G:
        n = C[0].size
        for c in range(3): A.claim_eq('points, coordinate %s' % 'xyz'[c], pts[k0:k0+n, c], C[c].reshape(-1))
        g = np.arange(n).reshape(C.shape[1:])+k0
        if surf: want |= faces(g) if g.ndim >= 2 else set()
        else: want |= edges(g)
        k0 += n
    A.claim('exactly the given %s' % ('faces' if surf else 'lines'), {poly(q) if surf else seg(int(q[0]), int(q[1])) for q in con} == want)
    for C, xyz in G:
        for c in range(3): A.claim_eq('arguments kept', xyz[c], C[c])

def through(A, degs, ms, what, backend):
    """Whole plots: the control net or the breaks drawn by the backend are those of the object."""
    W = A.drawing()
    Ks = [A.cknots(p, m, seed=i+1, name='U%d' % i) for i, (p, m) in enumerate(zip(degs, ms))]
    o, H = objn(A, Ks)
    Pl = A.mod('plot').Plotter()
    for alias in backend:
        Pl.use(alias)
        A.claim('the backend asked for', Pl.backend is A.mod('plot_mpl'))
    P = Pts(A)
    net = A.objs(o.points)
    g = P.ids([net[..., c] for c in range(3)])
    n = len(P.n)
    getattr(Pl, what)(o)
    got_p, got_s = set(), set()
    for c in W.log.calls:
        p, s, q = drawn(A, P, c)
        got_p |= p; got_s |= s
    A.claim('no other points', len(P.n) == n)
    A.claim('every control point', got_p == set(g.reshape(-1)))
    A.claim('the control net', got_s == (edges(g) if what != 'cpoint' else set()))

def pick(A):
    W = A.drawing()
    m = A.mod('plot')
    names = {'mpl': 'plot_mpl', 'matplotlib': 'plot_mpl', 'myv': 'plot_myv', 'mayavi': 'plot_myv', 'nul': 'plot_nul', 'null': 'plot_nul', 'none': 'plot_nul'}
    for n, mod in names.items():
        A.claim('%s' % n, m.Plotter(n).backend is A.mod(mod))
        P = m.Plotter(); P.use(n)
        A.claim('%s used' % n, P.backend is A.mod(mod) and P.show is A.mod(mod).show)
        P.backend = n
        A.claim('%s assigned' % n, P.get_backend() is A.mod(mod))
    P, Q = m.Plotter('mpl'), m.Plotter('nul')
    A.claim('plotters do not share their backend', P.backend is A.mod('plot_mpl') and Q.backend is A.mod('plot_nul'))
    A.claim('the default', m.Plotter().backend is A.mod('plot_myv'))
    P = m.Plotter('nul')
    A.refused('unknown backend', lambda: P.use('nosuch'))
    A.claim('the backend is kept', P.backend is A.mod('plot_nul'))
    # the null backend takes everything and draws nothing
    K = [A.cknots(2, [3, 1, 3], seed=1)]
    o, H = objn(A, K)
    for n in ('cplot', 'kplot', 'plot', 'cpoint', 'cwire', 'kpoint', 'kwire', 'curve'): getattr(Q, n)(o)
    A.claim('nothing drawn', not W.log.calls and not W.log.datasets)

def cases(tier):
    th = tier == 'thorough'
    shp = {1: [(1,), (2,), (4,)], 2: [(2, 2), (2, 4), (4, 3)], 3: [(2, 2, 2), (2, 3, 4), (3, 2, 2)]}
    nm = lambda s: 'x'.join(map(str, s)) or 'one'
    for d in (1, 2, 3):
        for s in shp[d]:
            for mode in (None, 'sphere', 'cube', 'cone', 'point'):
                for fresh in (True, False): yield Case('mpl-points-%s-%s-%d' % (nm(s), mode, fresh), mpl_points, shape=s, mode=mode, fresh=fresh)
    sets = [[s] for d in (1, 2, 3) for s in shp[d] if s != (1,)]
    sets += [[(2,), (3,)], [(2, 3), (3, 2)], [(3,), (2, 2)], [(2, 2, 3), (2, 2, 2)], [(2, 2), (2,), (3, 3)], [(2, 2), (2, 2, 2), (3,)], []]
    sets += [[(320,)], [(130, 2), (2, 2)], [(3, 110)], [(1,), (3,)], [(2,), (1,), (2, 2)], [(1, 3), (2, 2)], [(2, 2), (3, 1), (2, 3)]]
    sets += [[(150,)], [(80, 2)], [(2, 80), (3, 3)], [(2, 2, 24)]]      # longer than any step a backend might skip by
    if th: sets += [[(5,), (4, 4), (3, 3, 3)], [(4, 4, 4)], [(6, 5)], [(2,)]*5, [(2, 3)]*4]
    for i, ss in enumerate(sets):
        for surf in (False, True):
            n = '+'.join(nm(s) for s in ss) or 'none'
            for j, kw in enumerate(({}, dict(color=(1, 0, 0)), dict(color='r', linewidth=3), dict(cmap='x') if surf else dict(alpha=1))):
                yield Case('mpl-%s-%s-%d' % ('surfs' if surf else 'lines', n, j), mpl_lines, shapes=ss, surf=surf, kw0=kw)
            if not surf and any(len(s) > 1 and 1 in s for s in ss): continue      # a grid degenerate to a line
            if ss and not (surf and any(len(s) == 1 for s in ss)):
                for whole in (False, True): yield Case('myv-%s-%s-%d' % ('surfs' if surf else 'lines', n, whole), myv, shapes=ss, surf=surf, whole=whole)
    yield Case('mpl-axes', mpl_axes)
    yield Case('pick', pick)
    for dim, (ps, ms) in enumerate([((2,), ([3, 1, 3],)), ((2, 1), ([3, 1, 3], [2, 1, 2])), ((1, 2, 1), ([2, 2], [3, 3], [2, 1, 2]))]):
        for what in ('cpoint', 'cwire', 'cplot'): yield Case('through-%dd-%s' % (dim+1, what), through, degs=ps, ms=ms, what=what, backend=('mpl', 'matplotlib'))
