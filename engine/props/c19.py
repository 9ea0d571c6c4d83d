"""C19 PetIGA vectors and matrices round-trip and have the PETSc layout."""
import itertools
from .common import *
from .c18 import types, forder, CFG, VEC_ID

MODULES = ('nurbs', 'io')
BOUNDS = ('vectors of 1-12 symbolic values without an object, and of 1-4 components over objects of 1-3 dimensions (passed as a grid of components, as a plain grid or flat); matrices up to 5x4 with empty rows, empty and full, symbolic values, and one of 69001 entries with symbolic ones at the ends of its rows; every precision, scalar and index size; '
          'a file written over a longer one; files with a wrong id, cut short or with inconsistent counts')
OUTSIDE = 'complex values with an imaginary part; values that overflow single precision; row counts and column numbers beyond the listed matrices'

MAT_ID = 1211216
OBJ = [((1,), ([2, 2],)), ((2,), ([3, 1, 3],)), ((1, 2), ([2, 1, 2], [3, 1, 3])), ((2, 1), ([1]*6, [2, 2])), ((1, 2, 1), ([2, 2], [3, 1, 3], [2, 1, 2])), ((1, 1, 1), ([2, 2],)*3)]

def values(A, shape, name='v'):
    V = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape): V[i] = A.ctrl(name + '_'.join(map(str, i)))
    return V

def rounding(A, cfg): return (lambda x: A.f32(x)) if cfg[0] == 'single' else (lambda x: x)

def layout(A, path, cfg, vals):
    I, R, S = types(*cfg)
    f = A.fopen(path)
    try:
        A.claim('vector header', f.items(I, 2) == [VEC_ID, len(vals)])
        A.claim_eq('vector data', vec(f.items(S, len(vals))), vec(vals))
        A.claim('end of file', f.eof())
    except EOFError: A.claim('file long enough', False)

def h_plain(A, n, shape, cfg, form, over):
    """Without an object: the values in C order, read back flat."""
    io = A.mod('io')
    rw = io.PetIGA(*cfg)
    path = A.path('v.dat')
    if over: rw.write_vec(path, A.arr(vec([A.num(i) for i in range(30)])))
    V = values(A, shape)
    flat = list(V.reshape(-1))
    arg = A.arr(V) if form == 'array' else V.tolist() if form == 'list' else A.arr(V.T.copy()).T
    rw.write_vec(path, arg)
    rnd = rounding(A, cfg)
    exp = [rnd(x) for x in flat]
    layout(A, path, cfg, exp)
    r = rw.read_vec(path)
    A.claim_eq('read back', r, vec(exp))

def h_obj(A, degs, ms, nc, cfg, form, over):
    io = A.mod('io')
    Ks = [A.cknots(p, m, seed=i, name='U%d' % i) for i, (p, m) in enumerate(zip(degs, ms))]
    o, H = objn(A, Ks, sym=False)
    rw = io.PetIGA(*cfg)
    path = A.path('v.dat')
    if over: rw.write_vec(path, A.arr(vec([A.num(i) for i in range(200)])))
    sh = tuple(K.n+1 for K in Ks)
    V = values(A, sh + (nc,))
    arg = {'grid': lambda: A.arr(V), 'plain': lambda: A.arr(V[..., 0]), 'flat': lambda: A.arr(V.reshape(-1)), 'list': lambda: V.tolist(),
           'fortran': lambda: A.arr(np.ascontiguousarray(V.T)).T, 'plainf': lambda: A.arr(np.ascontiguousarray(V[..., 0].T)).T, 'flat2': lambda: A.arr(np.ascontiguousarray(V.reshape(-1, nc).T)).T}[form]()
    rw.write_vec(path, arg, o)
    rnd = rounding(A, cfg)
    layout(A, path, cfg, [rnd(x) for x in forder(V)])
    r = rw.read_vec(path, o)
    E = np.empty(V.shape, dtype=object)
    for i in np.ndindex(*E.shape): E[i] = rnd(V[i])
    A.claim_eq('read back', r, E if nc > 1 else E[..., 0])
    A.claim_eq('read back without the object', rw.read_vec(path), vec([rnd(x) for x in forder(V)]))
    A.claim_eq('object kept', o.array, H)

def h_mat(A, M, N, rows, cfg):
    io = A.mod('io')
    I, R, S = types(*cfg)
    cols = [c for r in rows for c in r]
    vals = [A.ctrl('a%d' % i) for i in range(len(cols))]
    path = A.path('m.dat')
    A.fput(path, [(I, [MAT_ID, M, N, len(cols)]), (I, [len(r) for r in rows]), (I, cols), (S, [rounding(A, cfg)(v) for v in vals])])
    (m, n), (ai, aj, av) = io.PetIGA(*cfg).read_mat(path)
    A.claim('sizes', (int(m), int(n)) == (M, N))
    A.claim('row starts', [int(x) for x in ai] == [sum(len(r) for r in rows[:i]) for i in range(M+1)])
    A.claim('columns', [int(x) for x in aj] == cols)
    rnd = rounding(A, cfg)
    if vals: A.claim_eq('values', vec(list(A.objs(av))), vec([rnd(v) for v in vals]))
    else: A.claim('no values', len(av) == 0)

def h_large(A, counts, N, cfg):
    """More entries than a short integer can count; the first and last value of each row are symbolic."""
    io = A.mod('io')
    I, R, S = types(*cfg)
    M, nz = len(counts), sum(counts)
    start = [sum(counts[:i]) for i in range(M+1)]
    cols = [c for n in counts for c in range(N-n, N)]
    c0 = A.num(3)
    vals = [c0]*nz
    ends = sorted({k for i, n in enumerate(counts) if n for k in (start[i], start[i+1]-1)})
    for k in ends: vals[k] = A.ctrl('a%d' % k)
    rnd = rounding(A, cfg)
    path = A.path('m.dat')
    A.fput(path, [(I, [MAT_ID, M, N, nz]), (I, list(counts)), (I, cols), (S, [rnd(v) for v in vals])])
    (m, n), (ai, aj, av) = io.PetIGA(*cfg).read_mat(path)
    A.claim('sizes', (int(m), int(n)) == (M, N))
    A.claim('row starts', [int(x) for x in ai] == start)
    A.claim('columns', [int(x) for x in aj] == cols)
    A.claim('number of values', len(av) == nz)
    if len(av) == nz: A.claim_eq('values', vec([A.objs(av)[k] for k in ends]), vec([rnd(vals[k]) for k in ends]))

def h_bad(A, what):
    io = A.mod('io')
    I, R, S = types('double', 'real', '32bit')
    rw = io.PetIGA()
    path = A.path('b.dat')
    v = [A.num(x) for x in (1, 2, 3, 4)]
    o, _ = objn(A, [A.cknots(1, [2, 2]), A.cknots(2, [3, 3])], sym=False)
    if what.startswith('vec'):
        parts = {'vec-id': [(I, [MAT_ID, 4]), (S, v)], 'vec-cut': [(I, [VEC_ID, 4]), (S, v[:3])], 'vec-size': [(I, [VEC_ID, 4]), (S, v)], 'vec-head': [(I, [VEC_ID])], 'vec-empty': []}[what]
        A.fput(path, parts)
        A.refused(what, (lambda: rw.read_vec(path, o)) if what == 'vec-size' else lambda: rw.read_vec(path))
    elif what == 'write-size': A.refused(what, lambda: rw.write_vec(path, A.arr(vec(v)), o))
    else:
        parts = {'mat-id': [(I, [VEC_ID, 2, 2, 3]), (I, [2, 1]), (I, [0, 1, 0]), (S, v[:3])], 'mat-rows': [(I, [MAT_ID, 2, 2, 4]), (I, [2, 1]), (I, [0, 1, 0, 1]), (S, v)], 'mat-cutv': [(I, [MAT_ID, 2, 2, 3]), (I, [2, 1]), (I, [0, 1, 0]), (S, v[:2])],
                 'mat-cutj': [(I, [MAT_ID, 2, 2, 3]), (I, [2, 1]), (I, [0, 1])], 'mat-cuti': [(I, [MAT_ID, 2, 2, 3]), (I, [2])], 'mat-head': [(I, [MAT_ID, 2])]}[what]
        A.fput(path, parts)
        A.refused(what, lambda: rw.read_mat(path))

def h_ids(A):
    """A geometry file's sections, vectors and matrices are told apart by their ids."""
    io = A.mod('io')
    P = io.PetIGA
    A.claim('ids', (P.VEC_ID, P.MAT_ID, P.IGA_ID) == (1211214, 1211216, 1211299))

def cases(tier):
    th = tier == 'thorough'
    yield Case('ids', h_ids)
    n = 0
    for ci, cfg in enumerate(CFG):
        cn = ''.join(x[0] for x in cfg)
        for shape in ((1,), (5,), (3, 2), (2, 3, 2), (12,)):
            n += 1
            yield Case('plain-%s-%s' % (cn, 'x'.join(map(str, shape))), h_plain, n=len(shape), shape=shape, cfg=cfg, form=['array', 'list', 'fortran'][n % 3], over=n % 4 == 0)
        for oi, (degs, ms) in enumerate(OBJ):
            for nc in (1, 2, 3, 4):
                forms = ['grid', 'flat', 'fortran', 'list', 'flat2'] + (['plain', 'plainf'] if nc == 1 else [])
                for f in (forms if th else [forms[(ci+oi+nc) % len(forms)]]):
                    n += 1
                    yield Case('obj-%s-%d-%d-%s' % (cn, oi, nc, f), h_obj, degs=degs, ms=ms, nc=nc, cfg=cfg, form=f, over=n % 4 == 0)
        for mi, (M, N, rows) in enumerate([(1, 1, [[0]]), (2, 3, [[0, 2], [1]]), (3, 3, [[], [0, 1, 2], [2]]), (4, 4, [[0], [], [], [1, 3]]), (2, 2, [[], []]), (5, 4, [[0, 1, 2, 3]]*5), (3, 5, [[4], [0], []])]):
            yield Case('mat-%s-%d' % (cn, mi), h_mat, M=M, N=N, rows=rows, cfg=cfg)
    for cfg in (CFG if th else CFG[::3]): yield Case('large-%s' % ''.join(x[0] for x in cfg), h_large, counts=(0, 35000, 1, 34000), N=40000, cfg=cfg)
    for w in ('vec-id', 'vec-cut', 'vec-size', 'vec-head', 'vec-empty', 'write-size', 'mat-id', 'mat-rows', 'mat-cutv', 'mat-cutj', 'mat-cuti', 'mat-head'): yield Case('bad-' + w, h_bad, what=w)
