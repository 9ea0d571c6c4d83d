"""C21 Compiled kernels stay inside their arrays and never use unset memory."""
from .common import *

BOUNDS = ('every request of the NURBS interface with a real argument anywhere (inside, at, outside the domain), times/order/degree arguments -1..p+2, degree 1..3 '
          '(4 for queries), clamped, half-clamped and unclamped structures with up to 5 interior breaks of any multiplicity <= p, knot gaps symbolic; degree up to 6 and up to 12 breaks with fixed knots; one, two and '
          'three axes for evaluation and derivatives of order 1..4 of 1-3 component fields; the kernels called directly with every admissible degree, span, order and '
          'count; KnotVector with up to 4 elements; all quadrature sizes; two-step histories of structure-changing requests')
OUTSIDE = ('degree > 4 (6 with fixed knots); knot vectors that are not non-decreasing, have an empty first or last domain span or an interior multiplicity above the degree; direct kernel calls '
           'with a span or a count that does not belong to the value (the wrapper does not check them); NaN arguments; singular geometry in mapped gradients; memory exhaustion')

def state(A, what, o):
    A.claim_set('%s: points' % what, o.array)
    A.claim_set('%s: knots' % what, *o.knots)
    A.claim('%s: sizes' % what, all(len(U) == n+p+1 for U, n, p in zip(o.knots, o.shape, o.degree)))

def anywhere(A, K, name='u'):
    """Any real number, inside or outside the knots."""
    return A.real(name, K.lo_ if hasattr(K, 'lo_') else -8, 64, nice=(0, 4))

def kern(A, p, mults, sym=True):
    A.unset_outputs()
    K = A.knots(p, mults) if sym else A.cknots(p, mults, seed=p)
    U = A.arr(K.U)
    t = anywhere(A, K)
    k = int(A.bsp.FindSpan(p, U, t))
    A.claim('span in range', p <= k <= K.n)
    A.bsp.FindMult(p, U, t)
    k2, m = A.bsp.FindSpanMult(p, U, t)
    A.bsp.FindMult(p, U, t, k)
    A.claim('same span', int(k2) == k)
    A.claim_set('EvalBasisFuns', A.bsp.EvalBasisFuns(p, U, t), A.bsp.EvalBasisFuns(p, U, t, k))
    for d in range(p+1): A.claim_set('EvalBasisFunsDers', A.bsp.EvalBasisFunsDers(p, U, t, d))
    A.claim_set('EvalBasisFunsDers', A.bsp.EvalBasisFunsDers(p, U, t), A.bsp.EvalBasisFunsDers(p, U, t, span=k))
    for d in (-1, p+1): A.attempt(lambda: A.bsp.EvalBasisFunsDers(p, U, t, d))
    O, N = A.iga.BasisDataCol(p, U, A.arr([t, K.a]))
    A.claim_set('BasisDataCol', O, N)

def kern0(A, p, mults):
    A.unset_outputs()
    K = A.knots(p, mults)
    U = A.arr(K.U)
    A.claim_set('SpanIndex', A.bsp.SpanIndex(p, U))
    A.claim_set('Greville', A.bsp.Greville(p, U), A.iga.Greville(p, U))
    for d in range(p+1): A.claim_set('BasisData', *A.iga.BasisData(p, U, d=d, q=(d % 3)+1))
    A.claim_set('BasisData', *A.iga.BasisData(p, U))
    for d in range(p+1): A.claim_set('BasisDataCol', *A.iga.BasisDataCol(p, U, A.arr([K.b]), d=d))
    for kw in (dict(d=p+1), dict(d=-1), dict(q=0), dict(q=11)): A.attempt(lambda: A.iga.BasisData(p, U, **kw))

def tables(A):
    A.unset_outputs()
    for q in range(-1, 12):
        for f in (A.iga.GaussLegendreRule, A.iga.GaussLobattoRule):
            ok, r = A.attempt(lambda: f(q))
            if ok: A.claim_set('rule %d' % q, *r)
    A.claim_set('BasisData with 10 points', *A.iga.BasisData(2, A.arr([0, 0, 0, 1, 2, 2, 2]), q=10))

def knotvector(A, E, p):
    A.unset_outputs()
    a = A.real('a', -4, 4)
    b = A.real('b', -4, 4)
    for C in range(-1, p+1):
        for w in (0, 1):
            ok, U = A.attempt(lambda: A.iga.KnotVector(E, p, C, a, b, w))
            if ok: A.claim_set('KnotVector', U)

def small(A, p, mults, dim, axis, sym=True, nf=0):
    Ks = [A.cknots(1, [2, 1, 2] if i == 0 else [2, 2], seed=i, name='V%d' % i) for i in range(dim)]
    Ks[axis] = A.knots(p, mults) if sym else A.cknots(p, mults, seed=7)
    o, H = objn(A, Ks, sym=False, nf=nf)
    return Ks, o

def evaluate(A, p, mults, dim, axis, what, nf=1, sym=True):
    """Evaluation-like requests at any parameter."""
    A.unset_outputs()
    Ks, o = small(A, p, mults, dim, axis, sym=sym, nf=nf)
    t = anywhere(A, Ks[axis])
    args = [K.a for K in Ks]; args[axis] = t
    args2 = [A.arr([K.b, K.a]) for K in Ks]; args2[axis] = A.arr([t, Ks[axis].b])
    if what == 'call':
        ok, r = A.attempt(lambda: o(*args))
        if ok: A.claim_set('call', r)
        ok, r = A.attempt(lambda: o(*args2, fields=True))
        if ok: A.claim_set('call', r[0], r[1])
    elif what == 'evaluate':
        ok, r = A.attempt(lambda: o.evaluate(None, *args2))
        if ok: A.claim_set('evaluate', r)
        ok, r = A.attempt(lambda: o.evaluate(o.points, *args2))
        if ok: A.claim_set('evaluate', r)
    else:
        f = o.fields if nf else o.points
        for order in what:
            ok, r = A.attempt(lambda: o.derivative(order, f, *args2))
            if ok: A.claim_set('derivative', r)
        if 1 in what:
            ok, r = A.attempt(lambda: o.gradient(f, *args, mapped=False))
            if ok: A.claim_set('gradient', r)
            ok, r = A.attempt(lambda: o.hessian(f, *args))
            if ok: A.claim_set('hessian', r)

def mapped(A, dim, degs):
    A.unset_outputs()
    Ks = [A.cknots(p, [p+1, 1, p+1] if p > 1 else [2, 2], seed=i, name='V%d' % i) for i, p in enumerate(degs)]
    g = [[sum((K.U[i+q] for q in range(1, K.p+1)), 0*K.U[0])/K.p for i in range(K.n+1)] for K in Ks]
    P = np.empty(tuple(len(x) for x in g)+(3,), dtype=object)
    for i in np.ndindex(*P.shape[:-1]):
        for c in range(3): P[i+(c,)] = (g[c][i[c]]*(c+2) if c < dim else A.num(0)) + (g[0][i[0]]/8 if c else A.num(0))
    o = A.NURBS([A.arr(K.U) for K in Ks], A.arr(P), fields=A.arr(P[..., :2]))
    ts = [anywhere(A, K, 't%d' % d) if d == dim-1 else K.a for d, K in enumerate(Ks)]
    for order in (1, 2, 3, 4):
        ok, r = A.attempt(lambda: o.derivative(order, o.fields, *ts, mapped=True))
        if ok: A.claim_set('derivative', r)
    ok, r = A.attempt(lambda: o.gradient(o.fields, *ts, mapped=True))
    if ok: A.claim_set('gradient', r)
    ok, r = A.attempt(lambda: o.hessian(o.fields, *ts, mapped=True))
    if ok: A.claim_set('hessian', r)

def request(A, o, axis, K, op, u, arg):
    p = K.p
    if op == 'insert': return lambda: o.insert(axis, u, arg)
    if op == 'remove': return lambda: o.remove(axis, u, arg)
    if op == 'removeall': return lambda: o.remove(axis, u, arg, deviation=1e9)
    if op == 'elevate': return lambda: o.elevate(axis, arg)
    if op == 'clamp': return lambda: o.clamp(axis, *arg)
    if op == 'unclamp': return lambda: o.unclamp(axis, *arg)
    if op == 'refine': return lambda: o.refine(axis, A.arr([u]*arg))
    if op == 'refine2': return lambda: o.refine(axis, A.arr([u]*arg + [K.a, K.b]))
    if op == 'refine3': return lambda: o.refine(axis, A.arr([u, (K.a+K.b)/2][:arg]))
    if op == 'slice': return lambda: o.slice(axis, u, K.b)
    if op == 'slicer': return lambda: o.slice(axis, K.a, u)
    if op == 'extract': return lambda: o.extract(axis, u)
    if op == 'boundary': return lambda: o.boundary(axis, arg)

def change(A, p, mults, op, args, dim=1, axis=0, sym=True, nf=0, then=()):
    A.unset_outputs()
    Ks, o = small(A, p, mults, dim, axis, sym=sym, nf=nf)
    K = Ks[axis]
    u = anywhere(A, K) if op in UOPS else None
    arg = args[A.choose(len(args))] if len(args) > 1 else args[0]
    ok, r = A.attempt(request(A, o, axis, K, op, u, arg))
    if ok and hasattr(r, 'array'): state(A, op, r)
    state(A, 'after ' + op, o)
    for op2, arg2 in then:
        v = (K.a+2*K.b)/3 if op2 in UOPS else None
        ok, r = A.attempt(request(A, o, axis, K, op2, v, arg2))
        if ok and hasattr(r, 'array'): state(A, op2, r)
        state(A, 'after ' + op2, o)
    lo, hi = o.knots[axis][o.degree[axis]], o.knots[axis][-o.degree[axis]-1]
    if then: A.claim_set('value', o(*[(lo+hi)/2 if d == axis else Ks[d].a for d in range(dim)]))

UOPS = ('insert', 'remove', 'removeall', 'refine', 'refine2', 'refine3', 'slice', 'slicer', 'extract')

LARGE = [(1, [2] + [1]*10 + [2]), (4, [5, 1, 4, 5]), (5, [1]*13), (6, [7, 2, 7]), (5, [3, 2, 1, 4, 1, 5])]

def opargs(p):
    cl = [(s,) for s in (None, 0, 1)] + [(2,)]
    un = [(s, c) for s in (None, 0, 1) for c in [None] + list(range(-1, p+1))]
    return [('insert', list(range(-1, p+2)) + [None]), ('remove', list(range(-1, p+3)) + [None]), ('removeall', list(range(0, p+1)) + [None]),
            ('elevate', [-1, 0, 1, 2]), ('clamp', cl), ('unclamp', un), ('refine', list(range(0, p+2))), ('refine2', [1]), ('refine3', [2]),
            ('slice', [0]), ('slicer', [0]), ('extract', [0]), ('boundary', [0, 1, 2])]

THEN = [('unclamp', [(None, None)], [('elevate', 1), ('clamp', (None,))]), ('unclamp', [(0, 0)], [('insert', 1), ('remove', 1)]),
        ('unclamp', [(1, 0)], [('refine', 1), ('elevate', 1)]), ('insert', [None], [('elevate', 1), ('removeall', None)]),
        ('removeall', [None], [('unclamp', (None, 0)), ('slice', 0)]), ('elevate', [1], [('removeall', None), ('unclamp', (None, None))]),
        ('refine3', [2], [('unclamp', (1, None)), ('removeall', None)]), ('clamp', [(0,)], [('elevate', 1), ('unclamp', (1, None))]),
        ('clamp', [(1,)], [('slice', 0), ('removeall', None)])]

BIG = {1: [[2, 1, 1, 1, 1, 2], [1]*6], 2: [[3, 2, 1, 1, 2, 3], [1]*8], 3: [[4, 1, 3, 2, 1, 4], [1]*10, [2, 2, 1, 3, 1, 2, 2]], 4: [[5, 4, 2, 5], [1]*11]}

def cases(tier):
    th = tier == 'thorough'
    yield Case('tables', tables)
    for E in range(-1, 5):
        for p in range(0, 5): yield Case('knotvector-%d-%d' % (E, p), knotvector, E=E, p=p)
    for p in BIG:
        for m in BIG[p] + CLAMPED.get(p, []) + UNCLAMPED.get(p, []):
            nm = 'p%d-%s' % (p, ''.join(map(str, m)))
            yield Case('kernels-' + nm, kern, p=p, mults=m)
            yield Case('kernels0-' + nm, kern0, p=p, mults=m)
            if p == 4: continue
            symk = p < 3 or th
            yield Case('call-' + nm, evaluate, p=p, mults=m, dim=1, axis=0, what='call')
            yield Case('evaluate-' + nm, evaluate, p=p, mults=m, dim=1, axis=0, what='evaluate')
            yield Case('derivative12-' + nm, evaluate, p=p, mults=m, dim=1, axis=0, what=(1, 2), sym=symk)
            yield Case('derivative34-' + nm, evaluate, p=p, mults=m, dim=1, axis=0, what=(3, 4, 0, 5), nf=2, sym=symk)
            for op, args in opargs(p): yield Case('%s-%s' % (op, nm), change, p=p, mults=m, op=op, args=args, sym=th or not op.startswith('remove'))
            if m in BIG[p] and not th: continue
            for i, (op, args, then) in enumerate(THEN):
                yield Case('then%d-%s-%s' % (i, op, nm), change, p=p, mults=m, op=op, args=args, then=then, sym=op in ('unclamp', 'clamp', 'elevate') and all(x[0] not in ('remove', 'removeall') for x in then))
    for p, m in LARGE:
        nm = 'large-p%d-%s' % (p, ''.join(map(str, m)))
        yield Case('kernels-' + nm, kern, p=p, mults=m, sym=False)
        for w in ('call', 'evaluate', (1, 2), (3, 4)): yield Case('eval-%s-%s' % (nm, w if isinstance(w, str) else ''.join(map(str, w))), evaluate, p=p, mults=m, dim=1, axis=0, what=w, nf=4, sym=False)
        for op, args in opargs(p): yield Case('%s-%s' % (op, nm), change, p=p, mults=m, op=op, args=args, sym=False, nf=3)
    for dim in (2, 3):
        for axis in range(dim):
            for p, m in ((2, [3, 1, 3]), (3, [1]*8), (1, [2, 1, 1, 1])):
                nm = '%dd-axis%d-p%d' % (dim, axis, p)
                for w in ('call', 'evaluate', (1, 2), (3,), (4, 0)):
                    yield Case('eval-%s-%s' % (nm, w if isinstance(w, str) else ''.join(map(str, w))), evaluate, p=p, mults=m, dim=dim, axis=axis, what=w, sym=False)
                for op, args in opargs(p): yield Case('%s-%s' % (op, nm), change, p=p, mults=m, op=op, args=args, dim=dim, axis=axis, sym=False, nf=axis)
    for dim, degs in ((1, (2,)), (2, (2, 1)), (2, (1, 3)), (3, (1, 2, 1)), (3, (1, 1, 1))):
        yield Case('mapped-%s' % ''.join(map(str, degs)), mapped, dim=dim, degs=degs)
