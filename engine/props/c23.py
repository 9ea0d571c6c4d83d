"""C23 Quadrature rules are exact for their polynomial degree."""
from .common import *

BOUNDS = ('every rule size offered (Gauss-Legendre 1-10, Gauss-Lobatto 2-10), every polynomial of the admissible degree with coefficients in [-1,1] in the monomial basis '
          '(symbolic): the error of the rule stays below 1e-15 (exact arithmetic on the double literals); rule sizes outside the range; the rule mapped to a symbolic interval')
OUTSIDE = 'rounding of the final sum in floating point'
def rule(A, kind, q):
    X, W = (A.iga.GaussLegendreRule if kind == 'legendre' else A.iga.GaussLobattoRule)(q)
    ex_ = (lambda v: v) if A.mode == 'sym' else (lambda v: Fraction(float(v)))      # replays: exact arithmetic on the doubles too
    X, W = [ex_(x) for x in A.objs(X)], [ex_(w) for w in A.objs(W)]
    A.claim('sizes', len(X) == q and len(W) == q)
    deg = 2*q-1 if kind == 'legendre' else 2*q-3
    c = [ex_(A.real('c%d' % k, -1, 1)) for k in range(deg+1)]
    s = 0
    for x, w in zip(X, W):
        t, pw = 0, 1
        for k in range(deg+1):
            t = t + c[k]*pw
            pw = pw*x
        s = s + w*t
    exact = sum((c[k]*Fraction(2, k+1) for k in range(0, deg+1, 2)), 0*c[0])
    err = (s-exact)*10**15
    A.claim_le('error of the integral below the tolerance', err, 1)
    A.claim_le('error of the integral above minus the tolerance', -err, 1)
    for k in range(deg+1):
        # moment by moment, tighter
        m = 0
        for x, w in zip(X, W):
            pw = w
            for _ in range(k): pw = pw*x
            m = m + pw
        ex = Fraction(2, k+1) if k % 2 == 0 else Fraction(0)
        A.claim_le('moment %d' % k, (m-ex)*(4*10**15), 1)
        A.claim_le('-moment %d' % k, (ex-m)*(4*10**15), 1)
    for i in range(q-1): A.claim_lt('points increasing', X[i], X[i+1])
    for w in W: A.claim_lt('weight positive', 0, w)
    if kind == 'legendre':
        A.claim_lt('first point inside', -1, X[0]); A.claim_lt('last point inside', X[-1], 1)
    else:
        A.claim('end points are nodes', bool(X[0] == -1) and bool(X[-1] == 1))
    for i in range(q): A.claim_le('symmetric points', (X[i]+X[q-1-i])*10**15, 1); A.claim_le('symmetric points', -(X[i]+X[q-1-i])*10**15, 1)

def refuse(A):
    for q in (-1, 0, 11, 12): A.refused('Gauss-Legendre rule of %d points' % q, lambda: A.iga.GaussLegendreRule(q))
    for q in (-1, 0, 1, 11, 12): A.refused('Gauss-Lobatto rule of %d points' % q, lambda: A.iga.GaussLobattoRule(q))

def mapped(A, p, q, mults):
    """The rule mapped by BasisData integrates the powers over the domain of any knot vector."""
    K = A.knots(p, mults)
    O, J, W, X, N = A.iga.BasisData(p, A.arr(K.U), q=q)
    O, J, W, X, N = [A.objs(x) for x in (O, J, W, X, N)]
    x0, w0 = A.iga.GaussLegendreRule(q)
    x0, w0 = list(A.objs(x0)), list(A.objs(w0))
    A.claim('one row per nonempty span', J.shape[0] == len(K.spans))
    for e, (k, j) in enumerate(K.spans):
        a, b = K.breaks[j], K.breaks[j+1]
        A.claim_eq('jacobian', J[e], (b-a)/2)
        A.claim_eq('points', X[e], vec([(a+b)/2 + (b-a)/2*x for x in x0]))
        A.claim_eq('weights', W, vec(w0)) if W.ndim == 1 else A.claim_eq('weights', W[e], vec(w0))

def cases(tier):
    for q in range(1, 11): yield Case('legendre-%d' % q, rule, kind='legendre', q=q)
    for q in range(2, 11): yield Case('lobatto-%d' % q, rule, kind='lobatto', q=q)
    yield Case('refuse', refuse)
    for p in (1, 2, 3):
        for m in CLAMPED[p] + UNCLAMPED[p]:
            for q in ((p+1,) if tier == 'quick' else range(1, 11)): yield Case('mapped-p%d-%s-q%d' % (p, ''.join(map(str, m)), q), mapped, p=p, q=q, mults=m)
