"""C01 Evaluation equals the rational B-spline definition."""
from .common import *

BOUNDS = ('curves: degree 1..4, clamped and unclamped structures with up to 3 interior breaks, all knot gaps, control points, weights (of one sign), fields '
          'and the parameter symbolic (inside every span, at every break, at the right end); surfaces and volumes: degrees 1..3 with '
          'fixed irregular rational knots (and fully symbolic knots for bilinear), symbolic net and parameters; one-axis cases with fixed irregular knots up to degree 6, many breaks and up to 3-4 fields, symbolic net and parameter; a knot span as short as 2^-30 beside ones of ordinary length, values close to a break but above rounding (2^-30..2^-12 away)')
OUTSIDE = 'degree > 4 with symbolic knots, > 6 with fixed ones; more than 3 interior breaks; floating-point rounding'

def run(A, Ks, locs, scalar, nf, how, wsign=1):
    o, H = objn(A, Ks, nf=nf, wsign=wsign)
    grid = ref_points(Ks, locs, H)
    C, F = project(grid)
    pts = [[where(K, l)[0] for l in ls] for K, ls in zip(Ks, locs)]
    args = []
    for d, (p, s) in enumerate(zip(pts, scalar)):
        args.append(p[0] if s else (A.arr(vec(p)) if d % 2 else p))
    ix = tuple(0 if s else slice(None) for s in scalar) + (slice(None),)
    eC, eF = C[ix], F[ix]
    if how == 'call': A.claim_eq('object(u)', o(*args), eC)
    elif how == 'fields':
        c, f = o(*args, fields=True)
        A.claim_eq('object(u, fields=True)', c, eC)
        if nf: A.claim_eq('stored fields', f, eF)
        else: A.claim('no stored field values', A.shape(f)[:-1] == eF.shape[:-1])
    elif how == 'evaluate':
        A.claim_eq('evaluate()', o.evaluate(None, *args), eF)
    else:
        # fields passed in: a vector field (2 comps) or a scalar field
        nc = 2 if how.endswith('vec') else 1
        shape = tuple(K.n+1 for K in Ks)
        G = np.empty(shape + (nc,), dtype=object)
        HG = np.empty(shape + (4+nc,), dtype=object)
        for i in np.ndindex(*shape):
            for c in range(nc):
                G[i+(c,)] = A.ctrl('G%s_%d' % ('_'.join(map(str, i)), c))
                HG[i+(4+c,)] = G[i+(c,)]*H[i+(3,)]
            for c in range(4): HG[i+(c,)] = H[i+(c,)]
        eG = project(ref_points(Ks, locs, HG))[1][ix]
        arg = A.arr(G if nc > 1 else G[..., 0])
        if how.startswith('callarg'):
            c, f = o(*args, fields=arg)
            A.claim_eq('object(u, fields)', c, eC)
            A.claim_eq('fields', f, eG)
        else:
            f = o.evaluate(arg, *args)
            A.claim_eq('evaluate(fields)', f, eG if nc > 1 else eG[..., 0])
    A.claim_eq('net untouched', o.array, H)

def h1(A, p, mults, locs, scalar, nf, how, tiny=()):
    K = A.cknots(p, mults, sites=loc_sites(locs)) if len(mults) == 10 and p == 4 else A.knots(p, mults, sites=loc_sites(locs), tiny=tiny)
    run(A, [K], [locs], [scalar], nf, how)

def hn(A, degs, mults, locs, scalar, nf, how, symk=False, wsign=1):
    if symk: Ks = [A.knots(p, m, name='U%d' % i, sites=loc_sites(l)) for i, (p, m, l) in enumerate(zip(degs, mults, locs))]
    else: Ks = [A.cknots(p, m, seed=i+2, name='U%d' % i, sites=loc_sites(l)) for i, (p, m, l) in enumerate(zip(degs, mults, locs))]
    run(A, Ks, locs, scalar, nf, how, wsign)

def default(A, degs, mults):
    """No parameters: Greville abscissae."""
    Ks = [A.cknots(p, m, seed=i+2, name='U%d' % i) for i, (p, m) in enumerate(zip(degs, mults))]
    o, H = objn(A, Ks, nf=1)
    g = [[sum(K.fr[K.of[i+1+k]] for k in range(K.p))/K.p for i in range(K.n+1)] for K in Ks]
    pts = []
    for K, ts in zip(Ks, g):
        l = []
        for t in ts:
            j = max([j for k, j in K.spans if K.fr[j] <= t], default=None)
            l.append((A.num(t), K.span_of_break(j)))
        pts.append(l)
    shape = tuple(len(l) for l in pts)
    out = np.empty(shape+(5,), dtype=object)
    for i in np.ndindex(*shape):
        out[i] = ref.homog_eval([K.U for K in Ks], [K.p for K in Ks], [pts[d][i[d]][1] for d in range(len(Ks))], [pts[d][i[d]][0] for d in range(len(Ks))], H)
    C, F = project(out)
    c, f = o(fields=True)
    A.claim_eq('object()', c, C)
    A.claim_eq('fields', f, F)
    A.claim_eq('evaluate()', o.evaluate(), F)

def locations(p, mults):
    K = Knots(p, [0]*len(mults), mults)
    ls = []
    for k, j in K.spans: ls += [('b', j), (j, 0)]
    return ls + [('e',)]

EXTRA = {1: [[2, 1, 1, 1, 2]], 2: [[3, 2, 1, 1, 3], [1, 2, 1, 1, 1, 1, 1]], 3: [[4, 1, 2, 4]], 4: [[5, 5], [5, 2, 5], [5, 4, 1, 5], [1]*10]}
HOWS = ['call', 'fields', 'evaluate', 'callarg-vec', 'callarg-sc', 'evarg-vec', 'evarg-sc']

def cases(tier):
    n = 0
    for p in (1, 2, 3, 4):
        for mults in CLAMPED.get(p, []) + UNCLAMPED.get(p, []) + EXTRA[p]:
            for l in locations(p, mults):
                n += 1
                yield Case('p%d-%s-%s' % (p, ''.join(map(str, mults)), ''.join(map(str, l))), h1, p=p, mults=mults, locs=[l],
                           scalar=n % 2 == 0, nf=n % 3, how=HOWS[n % 7] if HOWS[n % 7] != 'evaluate' or n % 3 else 'call')
            ls = locations(p, mults)
            yield Case('p%d-%s-array' % (p, ''.join(map(str, mults))), h1, p=p, mults=mults, locs=ls[::-1][:4], scalar=False, nf=1, how='fields')
    ND = [((2, 2), ([3, 1, 3], [3, 3])), ((1, 3), ([2, 1, 2], [4, 2, 4])), ((3, 2), ([4, 4], [1]*7)), ((1, 2), ([1, 1, 1, 1], [3, 2, 3]))]
    for degs, ms in ND:
        L = [locations(p, m) for p, m in zip(degs, ms)]
        for i, a in enumerate(L[0]):
            for j, b in enumerate(L[1]):
                n += 1
                how = HOWS[n % 7]
                yield Case('2d-%s-%d-%d' % (''.join(map(str, degs)), i, j), hn, degs=degs, mults=ms, locs=([a], [b]),
                           scalar=(n % 2 == 0, n % 3 == 0), nf=1 + n % 2, how=how)
        yield Case('2d-%s-arrays' % ''.join(map(str, degs)), hn, degs=degs, mults=ms, locs=(L[0][-3:], L[1][:2]), scalar=(False, False), nf=1, how='fields')
    ND = [((1, 1, 1), ([2, 2], [2, 1, 2], [2, 2])), ((2, 1, 2), ([3, 3], [2, 2], [3, 1, 3])), ((1, 2, 1), ([1, 1, 1, 1], [3, 3], [2, 2]))]
    for degs, ms in ND:
        L = [locations(p, m) for p, m in zip(degs, ms)]
        combos = [(a, b, c) for a in range(len(L[0])) for b in range(len(L[1])) for c in range(len(L[2])) if (a+b+c) % 3 == 1 or tier == 'thorough']
        for a, b, c in combos:
            n += 1
            yield Case('3d-%s-%d%d%d' % (''.join(map(str, degs)), a, b, c), hn, degs=degs, mults=ms, locs=([L[0][a]], [L[1][b]], [L[2][c]]),
                       scalar=(n % 2 == 0, n % 3 == 0, n % 5 == 0), nf=1, how=HOWS[n % 7])
        yield Case('3d-%s-arrays' % ''.join(map(str, degs)), hn, degs=degs, mults=ms, locs=(L[0][-2:], L[1][1:3], L[2][:2]), scalar=(False, False, False), nf=1, how='fields')
    for i, how in enumerate(HOWS):
        for degs, ms in [((2,), ([3, 1, 3],)), ((1, 2), ([2, 1, 2], [3, 3])), ((1, 1, 2), ([2, 2], [2, 1, 2], [3, 3]))]:
            L = [locations(p, m)[i % 2:][:2] for p, m in zip(degs, ms)]
            yield Case('%dd-negative-weights-%s' % (len(degs), how), hn, degs=degs, mults=ms, locs=L, scalar=(False,)*len(degs), nf=1, how=how, wsign=-1)
    for p, m, g in TINY:
        for l in locations(p, m):
            for t in [('g', g), ('a', g, 0)][:1 if l[0] != g else 2]:
                yield Case('tiny-p%d-%s-%d-%s-%s' % (p, ''.join(map(str, m)), g, ''.join(map(str, l)), t[0]), h1, p=p, mults=m, locs=[l], scalar=True, nf=1, how='fields', tiny=[t])
    for p, m in BIG:
        nm = 'big-p%d-%s' % (p, ''.join(map(str, m)))
        ls = locations(p, m)
        for i, how in enumerate(('fields', 'evarg-vec', 'call')):
            yield Case('%s-%s' % (nm, how), hn, degs=(p,), mults=(m,), locs=(ls[i::2],), scalar=(False,), nf=(3, 0, 1)[i], how=how)
        for i, l in enumerate(ls): yield Case('%s-%d' % (nm, i), hn, degs=(p,), mults=(m,), locs=([l],), scalar=(True,), nf=0, how='call')
    mix = lambda l: [l[-1], l[1], l[len(l)//2], l[0], l[1]]       # no order, with a repetition
    for degs, ms in [((2, 2), ([3, 1, 3], [3, 1, 3])), ((1, 3), ([2, 1, 2], [1]*9)), ((2, 1, 2), ([3, 1, 3], [2, 1, 2], [3, 1, 3]))]:
        for how in HOWS[:3] + HOWS[4:6]:
            L = [mix(locations(p, m)) for p, m in zip(degs, ms)]
            if len(degs) == 3: L = [l[i:i+3] for i, l in enumerate(L)]
            yield Case('%dd-%s-unordered-%s' % (len(degs), ''.join(map(str, degs)), how), hn, degs=degs, mults=ms, locs=L, scalar=(False,)*len(degs), nf=1, how=how)
    yield Case('2d-11-symbolic-knots', hn, degs=(1, 1), mults=([2, 2], [2, 1, 2]), locs=([(0, 0)], [(1, 0)]), scalar=(True, False), nf=1, how='fields', symk=True)
    yield Case('2d-21-symbolic-knots', hn, degs=(2, 1), mults=([3, 1, 3], [2, 2]), locs=([(0, 0)], [(0, 0)]), scalar=(False, True), nf=0, how='call', symk=True)
    for degs, ms in [((2,), ([3, 1, 3],)), ((3,), ([4, 2, 4],)), ((1, 2), ([2, 1, 2], [3, 3])), ((1, 1, 2), ([2, 2], [2, 2], [3, 3]))]:
        yield Case('default-%s' % ''.join(map(str, degs)), default, degs=degs, mults=ms)
