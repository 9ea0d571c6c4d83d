"""C13 Circular arcs and revolutions are exact."""
from .common import *
from .c12 import turn

MODULES = ('nurbs', 'transform', 'cad')
BOUNDS = ('arcs: symbolic radius (any sign), centre of 0-3 components, symbolic start angle and symbolic sweep (both signs) inside each quarter-turn range, and the sweeps pi/3 ... 2*pi exactly; '
          'every parameter of every span symbolic. Revolution: curves and surfaces with up to 4 control points, symbolic points and weights (one or two control points symbolic at a time), symbolic base point, '
          'coordinate axes, oblique axes with fixed components of both signs, axes nearly parallel to z and a symbolic axis, angle none / symbolic / tuple')
OUTSIDE = ('|sweep| = 0 or > 2*pi; sweeps within 1e-5 of a multiple of pi/2 other than the multiple itself; start angles beyond 2*atan(4); floating-point rounding')

# ranges of tan(half segment angle / 2): sweep = 2*spans*a
def trange(spans, sign=1):
    import math
    lo = Fraction(1, 64) if spans == 1 else Fraction(math.ceil(math.tan((spans-1)*math.pi/(8*spans))*10**5)+1, 10**5)
    hi = Fraction(math.floor(math.tan(math.pi/8)*10**5)-1, 10**5)
    return (lo, hi) if sign > 0 else (-hi, -lo)

def request(A, form, spans, sign):
    """Angle argument; cos/sin of the half segment angle and of the start, expected number of spans (None: free)."""
    if form == 'none': return None, (A.cos(A.PI/4), A.sin(A.PI/4)), (A.num(1), A.num(0)), A.PI/4, A.num(0), 4
    if isinstance(spans, str):       # constant sweep: multiple of pi
        q = Fraction(spans)*sign
        n = -(-abs(q)//Fraction(1, 2))
        a = A.PI*A.num(q/(2*n))
        spans = n
        sw = A.PI*A.num(q)
    else:
        lo, hi = trange(spans, sign)
        a = A.angle('a', lo, hi, nice=(lo, hi))
        sw = a*(2*spans)
    if form == 'scalar': b = A.num(0); ang = sw
    elif form == 'none-end': b = A.num(0); ang = (None, sw)
    elif form == 'start-none': b = 2*A.PI - sw; ang = (b, None)
    else:
        b = A.angle('b', -4, 4, nice=(-1, 1)) if form != 'tuplec' else A.PI*A.num(Fraction(-2, 3))
        ang = (b, b+sw) if form != 'list' else [b, b+sw]
    return ang, (A.cos(a), A.sin(a)), (A.cos(b), A.sin(b)), a, b, spans

def rot(p, q): return (p[0]*q[0]-p[1]*q[1], p[0]*q[1]+p[1]*q[0])

def h_arc(A, form, spans, sign, cform, sites, mono):
    ang, ca, cb, a, b, n = request(A, form, spans, sign)
    r = A.real('r', -64, 64, nice=(Fraction(1, 2), 2))
    c = [A.ctrl('c%d' % i) for i in range({'none': 0, 'scalar': 1}.get(cform, 0) or (int(cform[-1]) if cform[-1].isdigit() else 0))]
    kw = {}
    if cform == 'scalar': kw['center'] = c[0]
    elif c: kw['center'] = list(c) if cform.startswith('list') else A.arr(vec(c))
    if ang is not None or form == 'noneexpl': kw['angle'] = ang
    o = A.cad.circle(radius=r, **kw)
    c3 = c + [A.num(0)]*(3-len(c))
    A.claim('curve', o.dim == 1)
    U = o.knots[0]
    A.claim_eq('domain', A.arr(vec([U[o.degree[0]], U[-o.degree[0]-1]])), vec([A.num(0), A.num(1)]))
    # breaks at equal steps: number of spans as the sweep needs at most a quarter turn each
    br = o.breaks(0)
    A.claim_eq('breaks', br, vec([A.num(Fraction(i, n)) for i in range(n+1)]))
    # points at the breaks: start + 2*i*a
    d = cb
    want = []
    for i in range(n+1):
        want.append([c3[0]+r*d[0], c3[1]+r*d[1], c3[2]])
        d = rot(rot(d, ca), ca)
    A.claim_eq('points at breaks', o(A.arr(vec([A.num(Fraction(i, n)) for i in range(n+1)]))), np.array(want, dtype=object))
    A.claim_eq('start', o(A.num(0)), vec(want[0]))
    for i in sites:
        s = A.real('s%d' % i, 0, 1, nice=(Fraction(1, 4), Fraction(3, 4)))
        v = (s + i)/n
        A.assume(s < 1)
        x = A.objs(o(v))
        X = [x[k]-c3[k] for k in range(3)]
        A.claim_eq('distance to the centre, span %d' % i, A.arr(vec([X[0]*X[0]+X[1]*X[1], X[2]])), vec([r*r, A.num(0)]))

def h_mono(A, form, spans, sign, site, t, r=2):
    """cross(C(v1), C(v2)) has the sign of the sweep for v1 < v2 in one span."""
    ang, ca, cb, a, b, n = request(A, form, spans, sign)
    o = A.cad.circle(radius=A.num(r), angle=ang) if ang is not None else A.cad.circle(radius=A.num(r))
    if t == 'sym':
        s1, s2 = A.real('s1', 0, 1, nice=(Fraction(1, 8), Fraction(3, 8))), A.real('s2', 0, 1, nice=(Fraction(1, 2), Fraction(7, 8)))
        A.assume(s1 < s2); A.assume(s2 < 1)
    else: s1, s2 = A.num(t[0]), A.num(t[1])
    p, q = A.objs(o((s1+site)/n)), A.objs(o((s2+site)/n))
    A.claim_lt('turns towards the end', A.num(0), (p[0]*q[1]-p[1]*q[0])*sign)
    e = A.objs(o(A.num(Fraction(site, n))))
    A.claim_le('not before the span', A.num(0), (e[0]*p[1]-e[1]*p[0])*sign)

AXES = {'x': 0, 'y': 1, 'z': 2, 'neg': -1, 'default': None}

def profile(A, kind):
    """Object to revolve: some control points symbolic, the others fixed."""
    dim = 2 if kind.startswith('s') else 1
    if kind == 'c2': degs, ms = (2,), ([3, 3],)
    elif kind == 'c1': degs, ms = (1,), ([2, 2],)
    elif kind == 'cu': degs, ms = (1,), ([1, 1, 1, 1],)
    else: degs, ms = (1, 1), ([2, 2], [2, 2])
    Ks = [A.cknots(p, m, seed=d+6, name='U%d' % d) for d, (p, m) in enumerate(zip(degs, ms))]
    shape = tuple(K.n+1 for K in Ks)
    H = np.empty(shape+(4,), dtype=object)
    fix = [(3, 4), (-4, 3), (5, -12), (-8, -15), (0, 2), (-3, 0)]
    return Ks, shape, H, fix

def h_revolve(A, kind, axis, pform, form, spans, sign, symb, usym=False):
    Ks, shape, H, fix = profile(A, kind)
    # axis
    kw = {}
    if isinstance(axis, tuple) and axis[0] == 'merid':
        # every direction of one meridian: (2*s*m, 1 - |s*m|^2) for m = (m0, m1) of rational length
        m0, m1, d = axis[1]
        sg = A.real('s', *[Fraction(x) for x in axis[2]], nice=axis[2])
        L = A.real('L', Fraction(1, 4), 4, nice=(Fraction(1, 2), 2))
        k = [2*sg*m0/(1+d*d*sg*sg), 2*sg*m1/(1+d*d*sg*sg), (1-d*d*sg*sg)/(1+d*d*sg*sg)]
        kw['axis'] = [x*L for x in k]
    elif isinstance(axis, tuple):
        comp = [A.num(x) if not isinstance(x, str) else A.real(x, Fraction(1, 4), 4, nice=(Fraction(1, 2), 2)) for x in axis[1]]
        k = comp + [A.num(0)]*(3-len(comp))
        q = sum(x*x for x in k)
        N = A.sqrt(q)
        k = [x/N for x in k]
        kw['axis'] = A.arr(vec(comp)) if axis[0] == 'array' else (list if axis[0] == 'list' else tuple)(comp)
    else:
        k = [A.num(int(i == ({None: 2}.get(AXES[axis], AXES[axis]) % 3))) for i in range(3)]
        if AXES[axis] is not None: kw['axis'] = AXES[axis]
    # base point
    npt = {'scalar': 1}.get(pform) or int(pform[-1])
    pt = [A.real('p%d' % i, -8, 8, nice=(-2, 2)) for i in range(npt)]
    if symb == 'none': pt = [A.num(x) for x in (1, -2, 3)[:npt]]
    p3 = pt + [A.num(0)]*(3-npt)
    parg = pt[0] if pform == 'scalar' else (A.arr(vec(pt)) if pform.startswith('array') else list(pt))
    # control points: chosen relative to the axis frame so that the fixed ones have rational radii where possible
    i0 = 0
    for n_, i in enumerate(np.ndindex(*shape)):
        s = '_'.join(map(str, i))
        sym = symb == 'all' or n_ == symb or (symb == 'none' and False)
        w = A.weight('w'+s) if sym else A.num(Fraction(n_+2, 3))
        cyl = None
        if isinstance(axis, tuple) and axis[0] == 'merid':
            # cylindrical coordinates about the axis: radius and height symbolic, the angle of one point too
            m0, m1, d = axis[1]
            e1 = [A.num(Fraction(m1, d)), A.num(Fraction(-m0, d)), A.num(0)]
            e2 = [k[1]*e1[2]-k[2]*e1[1], k[2]*e1[0]-k[0]*e1[2], k[0]*e1[1]-k[1]*e1[0]]
            rh, z = A.real('rho'+s, Fraction(1, 8), 8, nice=(Fraction(1, 2), 2)), A.real('z'+s, -8, 8, nice=(-2, 2))
            t = A.real('t'+s, -8, 8, nice=(-2, 2)) if sym else A.num([Fraction(1, 3), Fraction(-1, 2), -3, 2][n_])
            cyl = [p3[c] + z*k[c] + rh*((1-t*t)*e1[c] + 2*t*e2[c])/(1+t*t) for c in range(3)]
        for c in range(3):
            x = cyl[c] if cyl else A.real('P%s%d' % (s, c), -8, 8, nice=(-2, 2)) if sym else p3[c] + A.num(n_+1)*k[c]      # on the axis
            H[i+(c,)] = x*w
        H[i+(3,)] = w
    o = A.NURBS([A.arr(K.U) for K in Ks], A.arr(H))
    ang, ca, cb, a, b, n = request(A, form, spans, sign)
    if form != 'none': kw['angle'] = ang
    S = A.cad.revolve(o, parg, **kw)
    A.claim_eq('object kept', o.array, H)
    arc = A.cad.circle(angle=ang) if form != 'none' else A.cad.circle()
    A.claim('dimension', S.dim == len(shape)+1)
    for d, K in enumerate(Ks): A.claim_eq('knots %d' % d, S.knots[d], vec(K.U))
    A.claim_eq('sweep knots', S.knots[-1], arc.knots[0])
    us = []
    for d, K in enumerate(Ks):
        us.append(K.breaks[K.lo] + (K.breaks[K.hi]-K.breaks[K.lo])*(A.real('u%d' % d, 0, 1, nice=(Fraction(1, 4), Fraction(3, 4))) if usym else A.num(Fraction(1+d, 3))))
    for j, v in enumerate([A.num(0), A.num(Fraction(1, 3)), A.num(Fraction(4, 5)), A.num(1)]):
        x = A.objs(o(*us)); q = A.objs(arc(v))
        M = turn(A, q[0], q[1], k)
        X = [x[c]-p3[c] for c in range(3)]
        want = [p3[r] + sum(M[r, c]*X[c] for c in range(3)) for r in range(3)]
        A.claim_eq('rotated original at sweep parameter %d' % j, S(*(us+[v])), vec(want))

def h_bad(A, what):
    Ks, shape, H, fix = profile(A, 'c1')
    o, H = objn(A, Ks, sym=False)
    o3, _ = objn(A, [A.cknots(1, [2, 2])]*3, sym=False)
    x = [A.real('x%d' % i, -8, 8) for i in range(4)]
    f = {'volume': lambda: A.cad.revolve(o3, A.num(0)), 'point4': lambda: A.cad.revolve(o, A.arr(vec(x))), 'axis3': lambda: A.cad.revolve(o, A.num(0), axis=3),
         'axis0': lambda: A.cad.revolve(o, A.num(0), axis=[A.num(0)]*3), 'axis4': lambda: A.cad.revolve(o, A.num(0), axis=list(x))}[what]
    A.refused(what, f)
    A.claim_eq('net untouched', o.array, H)

def cases(tier):
    th = tier == 'thorough'
    CF = ['none', 'scalar', 'list2', 'array3', 'list3', 'array1']
    n = 0
    yield Case('arc-full', h_arc, form='none', spans=4, sign=1, cform='none', sites=(0, 1, 2, 3), mono=True)
    yield Case('arc-full-c', h_arc, form='none', spans=4, sign=1, cform='list3', sites=(0, 2), mono=True)
    for form in ('scalar', 'tuple', 'list', 'none-end', 'start-none', 'tuplec'):
        for sp in (1, 2, 3, 4):
            for sign in (1, -1):
                if form == 'start-none' and sign < 0: continue
                n += 1
                yield Case('arc-%s-%d%s' % (form, sp, '+-'[sign < 0]), h_arc, form=form, spans=sp, sign=sign, cform=CF[n % 6], sites=(n % sp,) if sp < 4 or not th else range(sp), mono=True)
    for form in ('scalar', 'tuple', 'start-none'):
        for q in ('1/2', '1', '3/2', '2', '1/3', '2/3', '1/6'):
            for sign in (1, -1):
                if form == 'start-none' and (sign < 0): continue
                n += 1
                yield Case('arcq-%s-%s%s' % (form, q.replace('/', ':'), '+-'[sign < 0]), h_arc, form=form, spans=q, sign=sign, cform=CF[n % 6], sites=(n % 2,) if q not in ('1/2', '1/3', '1/6') else (0,), mono=True)
    yield Case('mono-full', h_mono, form='none', spans=4, sign=1, site=1, t='sym')
    for sp in (1, 2, 3, 4):
        for sign in (1, -1):
            for k, t in enumerate([(Fraction(1, 5), Fraction(1, 4)), (Fraction(0), Fraction(9, 10)), (Fraction(3, 5), Fraction(19, 20))]):
                yield Case('mono-%d%s-%d' % (sp, '+-'[sign < 0], k), h_mono, form='scalar', spans=sp, sign=sign, site=(sp-1+k) % sp, t=t)
    for q in ('1/2', '1', '3/2', '2', '1/3', '2/3', '1/6'):
        for sign in (1, -1): yield Case('monoq-%s%s' % (q.replace('/', ':'), '+-'[sign < 0]), h_mono, form='scalar', spans=q, sign=sign, site=0, t='sym')
    AX = ['default', 'x', 'y', 'z', 'neg', ('list', (0, 0, 1)), ('tuple', (0, 0, -2)), ('list', (0, 3, 4)), ('array', (0, -3, -4)), ('list', (2, -1, 2)), ('list', (-2, 1, -2)), ('tuple', (3, 4)), ('list', (-2,)),
          ('array', (0, 0, 3)), ('merid', (3, 4, 5), (Fraction(1, 16), 2)), ('merid', (1, 0, 1), (-8, -Fraction(1, 8))), ('merid', (0, -1, 1), (Fraction(1, 8), 8)), ('merid', (-5, 12, 13), (Fraction(1, 64), Fraction(1, 2))),
          ('merid', (4, 3, 5), (Fraction(1, 2**20), Fraction(1, 2**8))), ('merid', (-4, 3, 5), (2**8, 2**16))]       # nearly parallel to z
    FO = [('none', 4, 1), ('scalar', '1/2', 1), ('scalar', 1, -1), ('tuplec', '3/2', -1), ('scalar', 2, 1), ('list', '1', -1), ('scalar', '2', 1), ('list', 1, 1), ('list', '3/2', 1), ('tuple', 2, -1), ('list', '1/3', -1)]
    PF = ['scalar', 'list3', 'array2', 'list1', 'array3']
    for ax in AX:
        nm = ax if isinstance(ax, str) else ax[0] + ','.join(map(str, ax[1]))
        for j in range(2 if not th else 4):
            n += 1
            form, sp, sg = FO[n % 11]
            yield Case('revolve-%s-%d' % (nm, j), h_revolve, kind=('c1', 'c2', 's', 'cu')[n % 4], axis=ax, pform=PF[n % 5], form=form, spans=sp, sign=sg,
                       symb=(n//4) % 2 + (1 if n % 4 == 2 else 0), usym=n % 3 == 0, max_paths=60)
    for w in ('volume', 'point4', 'axis3', 'axis0', 'axis4'): yield Case('refused-' + w, h_bad, what=w)
