"""C16 Uniform refinement reaches the requested degree, spans and continuity."""
from .common import *

MODULES = ('nurbs', 'cad')
BOUNDS = ('1-3 dimensions, degrees 1-5 (requested up to 7), clamped and unclamped, up to 3 interior breaks, factors 1-4 as one number, one per axis or one per span, every requested continuity, None entries, negative continuities, one field or none; '
          'curves with symbolic knots and fixed nets, or fixed irregular knots and symbolic nets; surfaces and volumes with fixed knots and nets; map equality at symbolic parameters; a knot span as short as 2^-30 beside ones of ordinary length, values close to a break but above rounding (2^-30..2^-12 away)')
OUTSIDE = 'degree > 7, factors > 4; floating-point rounding of the subdivision points'

def h(A, Ks, args, nf=0, sym=True, at=1):
    """args: dict with factor / degree / continuity as the user passes them; the normalized request per axis is derived here."""
    dim = len(Ks)
    o, H = objn(A, Ks, nf=nf, sym=sym)
    H0 = A.objs(o.array).copy()
    def norm(v, d, default):
        if v is None: return default
        if isinstance(v, (list, tuple)) and not isinstance(v, str):
            return default if v[d] is None else v[d]
        return v
    pos = args.pop('pos', False)
    r = A.cad.refine(o, args.get('factor'), args.get('degree'), args.get('continuity')) if pos else A.cad.refine(o, **args)
    A.claim('new object', r is not o)
    A.claim_eq('input net kept', o.array, H0)
    for d, K in enumerate(Ks): A.claim_eq('input knots kept', o.knots[d], vec(K.U))
    sub, ok = [], True
    for d, K in enumerate(Ks):
        P = max(norm(args.get('degree'), d, K.p), K.p)
        t = P - K.p
        C = norm(args.get('continuity'), d, -1)
        if C < 0: C += P
        N = norm(args.get('factor'), d, 1)
        ne = K.hi - K.lo
        N = [N]*ne if not isinstance(N, (list, tuple)) else list(N)
        exp, cells = [K.breaks[K.lo]]*(P+1), []
        for e in range(ne):
            a, b = K.breaks[K.lo+e], K.breaks[K.lo+e+1]
            if e: exp += [a]*max(K.mults[K.lo+e] + t, P-C)
            for i in range(N[e]):
                if i: exp += [a + (b-a)*Fraction(i, N[e])]*(P-C)
                cells.append((K.lo+e, a + (b-a)*Fraction(i, N[e]), a + (b-a)*Fraction(i+1, N[e])))
        exp += [K.breaks[K.hi]]*(P+1)
        A.claim('degree', r.degree[d] == P)
        A.claim_eq('knots of axis %d' % d, r.knots[d], vec(exp), tol=1e-11)
        ok = ok and r.knots[d].size == len(exp)
        sub.append(cells)
    A.claim('fields kept', (r.fields is None) == (nf == 0))
    if not ok: return
    n = max(len(c) for c in sub) if dim == 1 else at
    for i in range(n):
        u, ks = [], []
        for d, K in enumerate(Ks):
            j, a, b = sub[d][(i*(d+1) + at*d) % len(sub[d])]
            s = A.real('s%d_%d' % (i, d), 0, 1, nice=(Fraction(1, 8), Fraction(7, 8)), strict=True)
            A.assume(s < 1)
            u.append(a + (b-a)*s if hasattr(K, 'fr') or sym else a + (b-a)*Fraction(2, 5)); ks.append(K.span_of_break(j))
        V = ref.homog_eval([K.U for K in Ks], [K.p for K in Ks], ks, u, H0)
        got = r(*u, **({'fields': True} if nf else {}))
        if nf:
            A.claim_eq('fields in cell %d' % i, got[1], vec([V[4+c]/V[3] for c in range(nf)])); got = got[0]
        A.claim_eq('map in cell %d' % i, got, vec([V[c]/V[3] for c in range(3)]))

def h1(A, p, mults, args, nf=0, knots='fixed', tiny=()):
    K = A.knots(p, mults, tiny=tiny) if knots == 'sym' else A.cknots(p, mults, gaps=knots if isinstance(knots, list) else None)
    h(A, [K], dict(args), nf, knots != 'sym')

def hn(A, degs, ms, args, nf=0, at=1):
    h(A, [A.cknots(p, m, seed=i, name='U%d' % i) for i, (p, m) in enumerate(zip(degs, ms))], dict(args), nf, False, at)

def h_bad(A, args, dim):
    o, H = objn(A, [A.cknots(2, [3, 1, 3])]*dim, sym=False)
    A.refused('refine %s' % sorted(args.items()), lambda: A.cad.refine(o, **args))
    A.claim_eq('kept', o.array, H)

def cases(tier):
    th = tier == 'thorough'
    ST = {1: [[2, 2], [2, 1, 2], [1, 1, 1, 1, 1]], 2: [[3, 1, 3], [3, 2, 1, 3], [1]*7, [3, 1, 1, 1, 1]], 3: [[4, 4], [4, 2, 1, 4], [1]*8, [4, 3, 4]], 4: [[5, 1, 4, 5], [1]*11], 5: [[6, 2, 6]]}
    n = 0
    for p in ST:
        for mi, m in enumerate(ST[p]):
            K = Knots(p, [0]*len(m), m); ne = K.hi - K.lo
            for i, (f, d, c) in enumerate([(None, None, None), (2, None, None), (3, p+1, None), (None, p+1, p), (2, None, 0), (1, None, p-1), ([2], [p+1], [0]), (2, p+2, 1), ([[1, 3, 2][:ne]], None, None) if ne <= 3 else (4, None, -1),
                                           ([[2, 1, 3][:ne]], p+1, 0) if ne <= 3 else (2, p-1, -p), ([None], [None], [None]), (2, 1, -1), (4, p, -p), ([[3, 2, 1][:ne]], None, -p) if ne <= 3 else (3, None, None)]):
                if i in (2, 7) and p == 3 and not th and mi == 1: continue
                args = {k: v for k, v in (('factor', f), ('degree', d), ('continuity', c)) if v is not None}
                n += 1
                if n % 5 == 0: args = dict(factor=f, degree=d, continuity=c, pos=True)
                if isinstance(args.get('degree'), int) and args['degree'] < 1: args.pop('degree')
                yield Case('p%d-%s-%d' % (p, ''.join(map(str, m)), i), h1, p=p, mults=m, args=args, nf=int(n % 3 == 0))
                if p < 3 and m[0] > 1 and i in (1, 3, 4, 6, 9): yield Case('symknots-p%d-%s-%d' % (p, ''.join(map(str, m)), i), h1, p=p, mults=m, args=args, knots='sym')
    for p, m, g in TINY:
        if p == 3: continue
        for i, args in enumerate([dict(factor=2), dict(degree=p+1, continuity=0), dict(factor=3, continuity=p-1)]):
            yield Case('tiny-p%d-%s-%d-%d' % (p, ''.join(map(str, m)), g, i), h1, p=p, mults=m, args=args, knots='sym', tiny=[('g', g)])
    ND = [((2, 1), ([3, 1, 3], [2, 1, 2])), ((1, 3), ([1]*5, [4, 2, 4])), ((2, 2), ([3, 3], [1]*7)), ((1, 2, 1), ([2, 1, 2], [3, 1, 3], [2, 2])), ((2, 1, 3), ([3, 3], [2, 1, 2], [4, 4]))]
    for i, (degs, ms) in enumerate(ND):
        dim = len(degs)
        for j, args in enumerate([dict(factor=2), dict(factor=[2, 3, 1][:dim]), dict(factor=[3, None, 2][:dim], degree=[None, 3, 2][:dim]), dict(degree=3, continuity=1), dict(degree=[2, 4, 3][:dim], continuity=[0, -1, None][:dim]), dict(factor=[1, 2, 2][:dim], continuity=0),
                                  dict(factor=([1, 2, 1][:dim]), degree=(3, 2, 3)[:dim], continuity=(2, 1, -2)[:dim]), dict(factor=[None]*dim, continuity=[None]*(dim-1)+[0]), dict(degree=[3, None, None][:dim], factor=2), dict(degree=3, continuity=-2), dict(degree=3, factor=2, continuity=-3), dict(continuity=[-1, None, -1][:dim], factor=2), dict(degree=[None, None, 4][:dim], continuity=0)]):
            if i in (1,) and j == 3: args = dict(degree=4, continuity=2)
            yield Case('%dd-%d-%d' % (dim, i, j), hn, degs=degs, ms=ms, args=args, nf=j % 2, at=1 + (j % 2 if not th else 2))
    yield Case('spans-2d', hn, degs=(2, 1), ms=([3, 1, 3], [2, 1, 2]), args=dict(factor=[[1, 3], [2, 1]]), at=3)
    yield Case('spans-ragged', hn, degs=(2, 1), ms=([3, 1, 3], [2, 1, 1, 2]), args=dict(factor=[[2, 1], [1, 2, 3]]), at=3)
    yield Case('spans-mixed', hn, degs=(2, 1), ms=([3, 1, 3], [2, 1, 1, 2]), args=dict(factor=[3, [1, 2, 3]], continuity=[0, None]), at=3)
    for i, (a, dim) in enumerate([(dict(factor=0), 1), (dict(factor=[2, 0]), 2), (dict(degree=0), 1), (dict(degree=[2, -1]), 2), (dict(continuity=2), 1), (dict(continuity=-3), 1), (dict(degree=3, continuity=3), 1), (dict(factor=[2, 2, 2]), 2), (dict(degree=[2]), 2), (dict(continuity=[0]*3), 2), (dict(factor=[[1, 2, 3]]), 1), (dict(factor=[[1, 0]]), 1), (dict(factor=-1), 1)]):
        yield Case('refused-%d' % i, h_bad, args=a, dim=dim)
