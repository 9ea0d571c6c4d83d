"""C18 PetIGA geometry files round-trip and have the PetIGA layout."""
import itertools
from .common import *

MODULES = ('nurbs', 'io')
BOUNDS = ('objects of 1-3 dimensions, degrees 1-3, clamped and unclamped, symbolic knots (curves) or fixed ones, symbolic control points, weights and 0-3 fields; every precision, scalar and index size; nsd from the dimension to 3; with and without control points and fields; '
          'a file written over a longer one; files with a wrong header, a wrong section id or cut short')
OUTSIDE = 'values that overflow single precision; complex fields with an imaginary part; other byte-level corruptions'

IGA_ID, VEC_ID = 1211299, 1211214
def types(prec, scal, ind): return (np.dtype({'32bit': '>i4', '64bit': '>i8'}[ind]), np.dtype({'single': '>f4', 'double': '>f8'}[prec]), np.dtype({('single', 'real'): '>f4', ('double', 'real'): '>f8', ('single', 'complex'): '>c8', ('double', 'complex'): '>c16'}[prec, scal]))

def forder(H):
    """Values with the component fastest, then the first parametric axis."""
    return [H[i[1:][::-1] + (i[0],)] for i in ((c,) + tuple(r) for r in itertools.product(*[range(n) for n in H.shape[:-1][::-1]]) for c in range(H.shape[-1]))]

def nrange(shape): return itertools.product(*[range(n) for n in shape])

def layout(A, path, Ks, H, F, nsd, cfg, what=''):
    """Claim: the file is exactly the PetIGA stream for the data (H homogeneous net or None, F projected fields or None)."""
    I, R, S = types(*cfg)
    rnd = (lambda x: A.f32(x)) if cfg[0] == 'single' else (lambda x: x)
    f = A.fopen(path)
    try:
        A.claim(what+'header', f.items(I, 3) == [IGA_ID, (H is not None) + 2*(F is not None), len(Ks)])
        for d, K in enumerate(Ks):
            A.claim(what+'degree and size of axis %d' % d, f.items(I, 2) == [K.p, K.m+1])
            A.claim_eq(what+'knots of axis %d' % d, vec(f.items(R, K.m+1)), vec([rnd(u) for u in K.U]))
        if H is not None:
            V = np.concatenate([H[..., :nsd], H[..., 3:4]], axis=-1)
            A.claim(what+'control header', f.items(I, 3) == [nsd, VEC_ID, V.size])
            A.claim_eq(what+'control data', vec(f.items(S, V.size)), vec([rnd(x) for x in forder(V)]))
        if F is not None:
            A.claim(what+'field header', f.items(I, 3) == [F.shape[-1], VEC_ID, F.size])
            A.claim_eq(what+'field data', vec(f.items(S, F.size)), vec([rnd(x) for x in forder(F)]))
        A.claim(what+'end of file', f.eof())
    except EOFError:
        A.claim(what+'file long enough', False)

def build(A, degs, ms, nf, symk, sym=True, name='P'):
    Ks = [A.knots(p, m, name='U%d' % i) if symk else A.cknots(p, m, seed=i, name='U%d' % i) for i, (p, m) in enumerate(zip(degs, ms))]
    o, H = objn(A, Ks, nf=nf, sym=sym, name=name)
    F = None
    if nf:
        F = np.empty(H.shape[:-1]+(nf,), dtype=object)
        for i in np.ndindex(*F.shape): F[i] = H[i[:-1]+(4+i[-1],)]/H[i[:-1]+(3,)]
    return Ks, o, H, F

def h(A, degs, ms, nf, cfg, nsd, control=None, fields=None, symk=False, over=False, sym=True):
    io = A.mod('io')
    Ks, o, H, F = build(A, degs, ms, nf, symk, sym)
    dim = len(Ks)
    rw = io.PetIGA(*cfg) if cfg != ('double', 'real', '32bit') or nf else io.PetIGA()
    kw = {}
    if nsd is not None: kw['nsd'] = nsd
    if control is not None: kw['control'] = control
    if fields is not None: kw['fields'] = fields
    path = A.path('geo.dat')
    if over:
        _, o2, _, _ = build(A, (2,)*3, ([3, 1, 3],)*3, 2, False, False, 'Q')
        rw.write(path, o2)
    rw.write(path, o, **kw)
    c, f = control is not False, fields is not False and nf > 0
    N = nsd or dim
    layout(A, path, Ks, H if c else None, F if f else None, N, cfg)
    rnd = (lambda x: A.f32(x)) if cfg[0] == 'single' else (lambda x: x)
    if cfg[0] == 'single': # rounding must not merge knots for the object to be readable; constant knots only
        pass
    r = io.PetIGA(precision=cfg[0], scalar=cfg[1], indices=cfg[2]).read(path)
    A.claim('an object', isinstance(r, A.NURBS))
    A.claim('dimension, degree, shape', (r.dim, tuple(r.degree), tuple(r.shape)) == (dim, tuple(degs), tuple(H.shape[:-1])))
    for d, K in enumerate(Ks): A.claim_eq('read knots %d' % d, r.knots[d], vec([rnd(u) for u in K.U]))
    if c:
        E = np.empty(H.shape[:-1]+(4,), dtype=object)
        for i in np.ndindex(*E.shape): E[i] = rnd(H[i]) if i[-1] < N or i[-1] == 3 else A.num(0)
        A.claim_eq('read control', r.control, E)
        A.claim_eq('read weights', r.weights, E[..., 3])
    else:
        G = [vec([sum(rnd(K.U[i+1+q]) for q in range(K.p))/K.p for i in range(K.n+1)]) for K in Ks]
        E = np.empty(H.shape[:-1]+(4,), dtype=object)
        for i in np.ndindex(*E.shape): E[i] = A.num(1) if i[-1] == 3 else G[i[-1]][i[i[-1]]] if i[-1] < dim else A.num(0)
        A.claim_eq('control at the Greville points', r.control, E)
    A.claim('fields read', (r.fields is not None) == f)
    if f:
        E = np.empty(F.shape, dtype=object)
        for i in np.ndindex(*F.shape): E[i] = rnd(F[i])
        A.claim_eq('read fields', r.fields, E)
    A.claim_eq('net kept', o.array, H)

def h_bad(A, what):
    io = A.mod('io')
    path = A.path('bad.dat')
    rw = io.PetIGA()
    K = A.cknots(1, [2, 2])
    I, R, S = types('double', 'real', '32bit')
    P = [A.num(x) for x in (0, 1, 2, 3, 4, 1)]
    if what in ('nsd0', 'nsd4', 'nsd1'):
        o, _ = objn(A, [K]*2, sym=False)
        A.refused(what, lambda: rw.write(path, o, nsd={'nsd0': 0, 'nsd4': 4, 'nsd1': 1}[what])); return
    parts = dict(id=(I, [IGA_ID]), info=(I, [3]), dim=(I, [1]), pm=(I, [1, 4]), U=(R, K.U), nsd=(I, [2]), vid=(I, [VEC_ID]), n=(I, [6]), C=(S, P), npd=(I, [1]), vid2=(I, [VEC_ID]), n2=(I, [2]), F=(S, [A.num(7), A.num(8)]))
    order = list(parts)
    if what.startswith('cut-'):
        k = what[4:]
        dt, v = parts[k]
        parts[k] = (dt, v[:-1]); order = order[:order.index(k)+1]
    elif what != 'ok':
        k, v = what.split('-')
        dt, _ = parts[k]
        parts[k] = (dt, [int(x) for x in v.split(',')])
    A.fput(path, [parts[k] for k in order])
    if what == 'ok':
        r = rw.read(path)
        A.claim_eq('control', r.control, np.array([[P[0], P[1], A.num(0), P[2]], [P[3], P[4], A.num(0), P[5]]], dtype=object))
        A.claim_eq('fields', r.fields, np.array([[A.num(7)], [A.num(8)]], dtype=object))
    else: A.refused(what, lambda: rw.read(path))

def h_args(A, kw): A.refused('configuration %s' % kw, lambda: A.mod('io').PetIGA(**kw))

CFG = list(itertools.product(('double', 'single'), ('real', 'complex'), ('32bit', '64bit')))
OBJ = [((1,), ([2, 2],)), ((2,), ([3, 1, 3],)), ((2,), ([1]*6,)), ((3,), ([4, 2, 4],)), ((1, 2), ([2, 1, 2], [3, 1, 3])), ((2, 1), ([1]*6, [2, 2])), ((3, 2), ([4, 4], [3, 2, 3])), ((1, 2, 1), ([2, 2], [3, 1, 3], [2, 1, 2])), ((2, 1, 3), ([3, 3], [2, 1, 2], [4, 4]))]

def cases(tier):
    th = tier == 'thorough'
    n = 0
    for oi, (degs, ms) in enumerate(OBJ):
        dim = len(degs)
        for ci, cfg in enumerate(CFG):
            for nsd in [None] + list(range(dim, 4)):
                n += 1
                nf = (n + oi) % 4
                if not th and dim == 1 and (n % 2) and nsd not in (None, 2): continue
                yield Case('rt-%d-%s-nsd%s' % (oi, ''.join(x[0] for x in cfg), nsd), h, degs=degs, ms=ms, nf=nf, cfg=cfg, nsd=nsd, symk=dim == 1 and cfg[0] == 'double', over=n % 5 == 0)
        for k, (c, f) in enumerate([(False, None), (None, False), (False, False), (True, True)]):
            for cfg in (CFG[oi % 8], CFG[(oi+3) % 8]) if not th else CFG:
                yield Case('parts-%d-%d-%s' % (oi, k, ''.join(x[0] for x in cfg)), h, degs=degs, ms=ms, nf=1+k % 2, cfg=cfg, nsd=3 if k == 3 else None, control=c, fields=f, over=k == 1)
    for w in ('ok', 'nsd0', 'nsd4', 'nsd1', 'id-1211214', 'dim-0', 'dim-4', 'pm-0,4', 'pm-3,4', 'nsd-0', 'nsd-4', 'vid-1211299', 'vid2-7', 'npd-0', 'cut-id', 'cut-U', 'cut-C', 'cut-F', 'cut-pm', 'cut-n2'): yield Case('bad-' + w, h_bad, what=w)
    for kw in (dict(precision='half'), dict(scalar='quaternion'), dict(indices='16bit')): yield Case('args-' + list(kw)[0], h_args, kw=kw)
