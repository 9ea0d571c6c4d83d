"""C20 VTK output contains the evaluated geometry and fields in file order."""
import itertools
from .common import *

MODULES = ('nurbs', 'io')
BOUNDS = ('objects of 1-3 dimensions, degrees 1-3, clamped and unclamped, fixed irregular knots, symbolic control points, weights and 0-5 fields (stored or given); structured and rectilinear output; default sampling (breaks) and samplers returning 1-4 parameters per axis, ends, breaks and symbolic interior ones; '
          'scalars and vectors as dicts and sequences, 1-3 components per vector, empty names, names with spaces')
OUTSIDE = 'names with characters other than letters, digits, blanks and underscores; files larger than a few hundred points'

def h(A, degs, ms, locs, control, nf, given, scalars, vectors, over=False, as_dict=False, defaults=False, title=None):
    io = A.mod('io')
    dim = len(degs)
    Ks = [A.cknots(p, m, seed=i+1, name='U%d' % i, sites=loc_sites(l) if l else ()) for i, (p, m, l) in enumerate(zip(degs, ms, locs or [None]*dim))]
    o, H = objn(A, Ks, nf=0 if given else nf)
    arrs = A.objs(o.array).copy()
    L = locs or [[('b', j) for j in range(K.lo, K.hi+1)] for K in Ks]
    vals = [vec([where(K, l)[0] for l in ls]) for K, ls in zip(Ks, L)]
    kw = {}
    if locs:
        calls = []
        def sampler(u):
            d = len(calls); calls.append(u)
            if d < dim: A.claim_eq('sampler gets the breaks of axis %d' % d, u, vec(Ks[d].breaks[Ks[d].lo:Ks[d].hi+1]))
            return A.arr(vals[d])
        kw['sampler'] = sampler
    X = H
    if given:
        sh = H.shape[:-1]
        F = np.empty(sh + (nf,), dtype=object)
        for i in np.ndindex(*F.shape): F[i] = A.ctrl('G' + '_'.join(map(str, i)))
        X = np.concatenate([H, F*H[..., 3:4]], axis=-1)
        kw['fields'] = A.arr(F if nf > 1 or given == 'grid' else F[..., 0])
    if control is not None: kw['control'] = control
    if scalars: kw['scalars'] = dict(scalars) if as_dict else list(scalars)
    if vectors: kw['vectors'] = dict((k, list(v)) for k, v in vectors) if as_dict else tuple((k, list(v)) for k, v in vectors)
    path = A.path('out.vtk')
    w = io.VTK()
    if over:
        o2, _ = objn(A, [A.cknots(1, [2, 1, 1, 2])]*2, sym=False); w.write(path, o2)
    if title is not None: w.title = title
    w.write(path, o, **kw)
    A.claim_eq('object kept', o.array, arrs)
    V = ref_points(Ks, L, X)
    C, F = project(V)
    shape = C.shape[:-1]
    order = [i[::-1] for i in itertools.product(*[range(n) for n in shape[::-1]])]      # first axis fastest
    npts = len(order)
    f = A.fopen(path)
    try:
        A.claim('header', f.line() == '# vtk DataFile Version 2.0')
        A.claim('title', f.line() == ('VTK Data' if title is None else title))
        A.claim('format', f.line() == 'BINARY')
        st = control is not False
        A.claim('dataset', f.line() == 'DATASET ' + ('STRUCTURED_GRID' if st else 'RECTILINEAR_GRID'))
        A.claim('dimensions', f.line() == 'DIMENSIONS %d %d %d' % (tuple(shape) + (1,)*(3-dim)))
        if st:
            A.claim('points', f.line() == 'POINTS %d double' % npts)
            A.claim_eq('point data', vec(f.items('>f8', 3*npts)), vec([C[i+(c,)] for i in order for c in range(3)]))
            A.claim('newline', f.raw(1) == b'\n')
        else:
            for d, x in enumerate('XYZ'):
                v = list(vals[d]) if d < dim else [A.num(0)]
                A.claim(x, f.line() == '%s_COORDINATES %d double' % (x, len(v)))
                A.claim_eq('coordinates ' + x, vec(f.items('>f8', len(v))), vec(v))
                A.claim('newline', f.raw(1) == b'\n')
        if scalars or vectors:
            A.claim('point data header', f.line() == 'POINT_DATA %d' % npts)
            for n, (name, c) in enumerate(sorted(scalars) if as_dict else scalars):
                A.claim('scalars header', f.line() == 'SCALARS %s double' % (name.replace(' ', '_') or 'scalars%d' % n))
                A.claim('lookup table', f.line() == 'LOOKUP_TABLE default')
                A.claim_eq('scalars %s' % name, vec(f.items('>f8', npts)), vec([F[i+(c,)] for i in order]))
                A.claim('newline', f.raw(1) == b'\n')
            for n, (name, cs) in enumerate(sorted(vectors) if as_dict else vectors):
                A.claim('vectors header', f.line() == 'VECTORS %s double' % (name.replace(' ', '_') or 'vectors%d' % n))
                A.claim_eq('vectors %s' % name, vec(f.items('>f8', 3*npts)), vec([F[i+(cs[c],)] if c < len(cs) else A.num(0) for i in order for c in range(3)]))
                A.claim('newline', f.raw(1) == b'\n')
        A.claim('end of file', f.eof())
    except EOFError: A.claim('file long enough', False)

def h_bad(A, what):
    io = A.mod('io')
    o, H = objn(A, [A.cknots(1, [2, 2]), A.cknots(2, [3, 3])], sym=False, nf=2)
    F = A.objs(A.consts(3, (2, 3, 2)))
    kw = {'index': dict(scalars=[('a', 2)]), 'vindex': dict(vectors=[('a', [0, 5])]), 'long': dict(fields=A.arr(A.objs(A.consts(3, (2, 3, 4)))), vectors=[('v', [0, 1, 2, 3])]), 'shape': dict(fields=A.arr(A.objs(A.consts(3, (3, 3, 2)))), scalars=[('a', 0)]),
          'outside': dict(sampler=lambda u: A.arr(vec([A.num(-1), A.num(2)])))}[what]
    A.refused(what, lambda: io.VTK().write(A.path('bad.vtk'), o, **kw))

SV = [((), ()), ([('p', 0)], ()), ((), [('vel', (0, 1, 2))]), ([('T', 3), ('a b', 1)], [('v', (2, 0))]), ([('', 2), ('q', 0), ('p', 1)], [('', (1,)), ('w x y', (3, 1, 0)), ('u', (4, 4, 2))])]
NFS = [0, 1, 3, 4, 5]

def cases(tier):
    th = tier == 'thorough'
    O1 = [((1,), ([2, 1, 2],)), ((2,), ([3, 1, 3],)), ((2,), ([1]*7,)), ((3,), ([4, 2, 1, 4],))]
    O2 = [((1, 2), ([2, 1, 2], [3, 3])), ((2, 1), ([1]*6, [2, 1, 1, 2])), ((2, 2), ([3, 3], [3, 2, 3]))]
    O3 = [((1, 1, 1), ([2, 1, 2], [2, 2], [2, 2])), ((1, 2, 1), ([2, 2], [3, 1, 3], [2, 2])), ((1, 1, 1), ([2, 2], [2, 2], [2, 1, 1, 2]))]
    n = 0
    for dim, OS in ((1, O1), (2, O2), (3, O3)):
        for oi, (degs, ms) in enumerate(OS):
            KK = [Knots(p, [0]*len(m), m) for p, m in zip(degs, ms)]
            smp = [None]
            pool = [[('b', K.lo), (K.lo, 0), (K.hi-1, 1), ('e',)] for K in KK]
            smp.append([pl[:3-(d > 1)] for d, pl in enumerate(pool)])
            smp.append([[pl[1]] if d % 2 == 0 else [pl[0], pl[3], pl[2]][:2 + (dim < 3)] for d, pl in enumerate(pool)])
            for si, locs in enumerate(smp):
                for vi, (sc, ve) in enumerate(SV):
                    for control in (None, False):
                        n += 1
                        if not th and dim == 3 and n % 3: continue
                        given = [False, "grid", False, "plain"][(n + n//4) % 4]
                        yield Case('%dd-%d-s%d-v%d-%s' % (dim, oi, si, vi, 'sg' if control is None else 'rg'), h, degs=degs, ms=ms, locs=locs, control=control if n % 3 else (control is None), nf=NFS[vi], given=given if NFS[vi] else False,
                                   scalars=list(sc), vectors=list(ve), as_dict=(n + n//3) % 3 == 0, over=n % 10 == 0, title=None if n % 7 else 'A title')
    for w in ('index', 'vindex', 'long', 'shape', 'outside'): yield Case('refused-' + w, h_bad, what=w)
