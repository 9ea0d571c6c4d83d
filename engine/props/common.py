"""Shared pieces of the harnesses."""
import os, sys
from fractions import Fraction
import numpy as np
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from engine import ref
from engine.api import Knots
from engine.runner import Case

# knot structures: multiplicities of the breaks, first/last included
CLAMPED = {1: [[2, 2], [2, 1, 2], [2, 1, 1, 2]],
           2: [[3, 3], [3, 1, 3], [3, 2, 3], [3, 1, 1, 3]],
           3: [[4, 4], [4, 1, 4], [4, 2, 4], [4, 3, 4]]}
UNCLAMPED = {1: [[1, 1, 1, 1], [2, 1, 1, 1], [1, 1, 1, 2]],
             2: [[1]*6, [1]*7, [2, 1, 1, 1, 1], [3, 1, 1, 1, 1], [1, 1, 1, 1, 3], [1, 2, 1, 2, 1]],
             3: [[1]*8, [4, 1, 1, 1, 1], [2, 2, 1, 2, 2]]}

# higher degrees and many breaks (fixed knots)
BIG = [(1, [2, 1, 1, 1, 1, 1, 1, 1, 2]), (2, [3, 1, 2, 1, 1, 2, 1, 1, 3]), (3, [4, 1, 1, 2, 1, 3, 1, 4]), (4, [5, 1, 2, 4, 5]), (4, [1]*12), (5, [6, 1, 3, 6]), (5, [1]*13), (6, [7, 2, 7]),
       (4, [2, 3, 1, 2, 1, 4])]

# a tiny gap (outer ones included) of a structure: (degree, multiplicities, gap)
TINY = [(p, m, g) for p in (1, 2, 3) for m in CLAMPED[p] + UNCLAMPED[p] for g in range(len(m)-1) if p < 3 or g % 2 == 0 or len(m) < 4]

def nctrl(p, mults): return sum(mults) - p - 1

def valid(p, m):
    K = Knots(p, [0]*len(m), m)
    of = K.of
    return K.n >= p and of[p] != of[p+1] and of[K.n] != of[K.n+1]

def inner_gaps(p, mults):
    """Gap numbers of the domain spans of a structure."""
    of = [i for i, m in enumerate(mults) for _ in range(m)]
    n = len(of) - p - 2
    return list(range(of[p], of[n+1]))

def obj1(A, K, cols=4, name='P', nf=0):
    """Curve with symbolic homogeneous control points (and nf stored fields). Returns obj, plain homogeneous rows."""
    return objn(A, [K], name=name, nf=nf)

def objn(A, Ks, name='P', nf=0, cls=None, sym=True, seed=5, wsign=1):
    """NURBS with homogeneous 4-component control net (all symbolic) and nf fields."""
    shape = tuple(K.n+1 for K in Ks)
    Cw = np.empty(shape+(4,), dtype=object)
    F = np.empty(shape+(nf,), dtype=object)
    H = np.empty(shape+(4+nf,), dtype=object)
    cst = A.objs(A.consts(seed, shape+(3+nf,))) if not sym else None
    for i in np.ndindex(*shape):
        s = name + '_'.join(map(str, i))
        for c in range(3): Cw[i+(c,)] = A.ctrl('%s%s' % (s, 'xyz'[c])) if sym else cst[i+(c,)]
        Cw[i+(3,)] = wsign*A.weight(s+'w') if sym else A.num(Fraction((sum(i)*3+i[0]) % 4+2, 3))
        for c in range(nf): F[i+(c,)] = A.ctrl('%sf%d' % (s, c)) if sym else cst[i+(3+c,)]
        for c in range(4): H[i+(c,)] = Cw[i+(c,)]
        for c in range(nf): H[i+(4+c,)] = F[i+(c,)]*Cw[i+(3,)]
    N = A.NURBS
    knots = [A.arr(K.U) for K in Ks]
    o = N(knots, A.arr(Cw), fields=A.arr(F) if nf else None)
    return o, H

def rows(H, axis):
    """Array with the given axis first, flattened to 2D."""
    H = np.moveaxis(np.asarray(H), axis, 0)
    return H.reshape(H.shape[0], -1)

def comb(basis, R):
    """Row sum of basis (dict) times rows."""
    out = None
    for i, n in basis.items():
        v = [n*x for x in R[i]]
        out = v if out is None else [a+b for a, b in zip(out, v)]
    return out

def vec(x):
    a = np.empty(len(x), dtype=object)
    for i, v in enumerate(x): a[i] = v
    return a

def same_curve(A, what, K0, R0, K1, R1, dom=None, tname='t'):
    """Claim: the curves (K0, R0) and (K1, R1) agree at every t of every domain span of K1.
    K1's breaks must contain K0's (as symbolic values): spans are matched structurally by the
    break numbers `of0` obtained from K1.parent (gap of K1 -> gap of K0)."""
    par = K1.parent
    for k, j in K1.spans:
        # inside the span when spans may be tiny (the pieces are polynomials, so any offset will do otherwise)
        if getattr(K0, 'tiny', None): t = K1.breaks[j] + (K1.breaks[j+1]-K1.breaks[j])*A.real('%s%d' % (tname, j), 0, 1, nice=(Fraction(1, 4), Fraction(3, 4)))
        else: t = K1.breaks[j] + A.off('%s%d' % (tname, j))
        j0 = par[j]
        k0 = K0.span_of_break(j0)
        b0 = ref.span_basis(K0.U, K0.p, k0, t)
        b1 = ref.span_basis(K1.U, K1.p, k, t)
        A.claim_eq('%s on span %d' % (what, j), vec(comb(b1, R1)), vec(comb(b0, R0)))

def pick(A, mk, j, right=False):
    """A knot vector and a parameter of it: strictly inside gap j, at break j or at the right end.
    mk(sites) makes the Knots.  Returns K, value, break number or None."""
    if right:
        K = mk(()); return K, K.b, K.hi   # right end
    if A.choose(2):
        K = mk((j,)); return K, K.site[j], None
    K = mk(()); return K, K.breaks[j], j

def trimmed(K1, left, right):
    """K1 without its first `left` and last `right` knots: a knot added at an unclamped end pushes out the outermost knot."""
    br, mu, par = list(K1.breaks), list(K1.mults), list(K1.parent)
    for n, i in ((left, 0), (right, -1)):
        while n:
            d = min(n, mu[i]); mu[i] -= d; n -= d
            if not mu[i]: del br[i], mu[i], par[i]
    K = Knots(K1.p, br, mu)
    K.parent = par
    return K

def with_knot(K, j, value, at, times):
    """K with value inserted times times (value inside gap j, or at break `at`)."""
    return trimmed(with_knot_(K, j, value, at, times), times if at == K.lo else 0, times if at == K.hi else 0)

def with_knot_(K, j, value, at, times):
    if at is not None:
        mu = list(K.mults); mu[at] += times
        K1 = Knots(K.p, K.breaks, mu)
        K1.parent = list(range(len(K.breaks)))
    elif times == 0:
        K1 = Knots(K.p, K.breaks, K.mults); K1.parent = list(range(len(K.breaks)))
    else:
        br, mu = list(K.breaks), list(K.mults)
        br.insert(j+1, value); mu.insert(j+1, times)
        K1 = Knots(K.p, br, mu)
        K1.parent = [i if i <= j else i-1 for i in range(len(br))]
    if hasattr(K, 'parent'): K1.parent = [K.parent[i] for i in K1.parent]
    return K1

EPS = Fraction(1, 2**52)
def knots_at_zero(A, p, mults, j, name='U'):
    """Symbolic gaps, break j at zero."""
    g = [A.gap('%s_g%d' % (name, i)) for i in range(len(mults)-1)]
    br = [None]*len(mults)
    br[j] = A.num(0)
    for i in range(j+1, len(mults)): br[i] = br[i-1] + g[i-1]
    for i in range(j-1, -1, -1): br[i] = br[i+1] - g[i]
    K = Knots(p, br, mults); K.site = {}
    return K
def near(A, K, j, name='delta'):
    """A value of the domain within rounding of break j (which is zero), distinct from it or not."""
    return A.real(name, 0 if j == K.lo else -EPS*Fraction(3, 4), 0 if j == K.hi else EPS*Fraction(3, 4))

def with_knots(K, adds):
    """K with knots added: adds = list of ('b', j) (at break j) or (j, i) (the i-th site of gap j)."""
    from collections import Counter
    c = Counter(adds)
    br, mu, par = [], [], []
    for j in range(len(K.breaks)):
        br.append(K.breaks[j]); mu.append(K.mults[j] + c.get(('b', j), 0)); par.append(j)
        for (g, i) in sorted(k for k in c if k[0] == j):
            br.append(K.site[g, i]); mu.append(c[g, i]); par.append(j)
    K1 = Knots(K.p, br, mu)
    K1.parent = par
    if hasattr(K, 'parent'): K1.parent = [K.parent[i] for i in par]
    return trimmed(K1, c.get(('b', K.lo), 0), c.get(('b', K.hi), 0))

def admissible(K, adds):
    from collections import Counter
    for k, n in Counter(adds).items():
        m = 0 if k[0] != 'b' else min(K.mults[k[1]], K.p)
        if k[0] == 'b' and not K.lo <= k[1] <= K.hi: return False
        if k[0] != 'b' and not K.lo <= k[0] < K.hi: return False
        if m + n > K.p: return False
    return True

def value_of(K, k): return K.breaks[k[1]] if k[0] == 'b' else K.site[k]

def sites_of(adds):
    d = {}
    for k in adds:
        if k[0] != 'b': d[k[0]] = max(d.get(k[0], 0), k[1]+1)
    return d

def mkc(A, p, mults, seed, name='U'):
    return lambda sites: A.cknots(p, mults, seed=seed, name=name, sites=sites)
def mks(A, p, mults, name='U'):
    return lambda sites: A.knots(p, mults, name=name, sites=sites)

def parents(K0, K1, ins):
    """ins: list of gap numbers of K1 that came from gap ins[i] of K0."""
    K1.parent = ins
    return K1

def where(K, loc):
    """Parameter and span index of a location: ('b', j) break, ('e',) right end, (j, i) site."""
    if loc[0] == 'e': return K.b, K.spans[-1][0]
    if loc[0] == 'b':
        if loc[1] == K.hi: return K.b, K.spans[-1][0]
        return K.breaks[loc[1]], K.span_of_break(loc[1])
    return K.site[loc], K.span_of_break(loc[0])

def loc_sites(locs): return sites_of([l for l in locs if l[0] not in ('b', 'e')])

def ref_points(Ks, locs, H):
    """Homogeneous reference values on the grid of locations (list of lists) -> object array grid + (d,)."""
    pts = [[where(K, l) for l in ls] for K, ls in zip(Ks, locs)]
    shape = tuple(len(p) for p in pts)
    out = np.empty(shape + (H.shape[-1],), dtype=object)
    for i in np.ndindex(*shape):
        out[i] = ref.homog_eval([K.U for K in Ks], [K.p for K in Ks], [pts[d][i[d]][1] for d in range(len(Ks))],
                                [pts[d][i[d]][0] for d in range(len(Ks))], H)
    return out

def project(Hv):
    """xyz/w and fields/w of homogeneous values."""
    out = np.empty(Hv.shape, dtype=object)
    for i in np.ndindex(*Hv.shape[:-1]):
        for c in range(Hv.shape[-1]):
            out[i+(c,)] = Hv[i+(c,)] / Hv[i+(3,)]
    return out[..., :3], out[..., 4:]
