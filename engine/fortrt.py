"""Run-time support for translated Fortran: arrays over flat storage, array operations, intrinsics.

Storage is checked the way the hardware would see it: an access outside the storage an
argument or local array owns is a ModelFault('oob'); unset storage holds UNDEF, which
propagates through arithmetic and faults when a branch, an index or an output depends on it.
"""
from fractions import Fraction
from . import sym
from .sym import Sym, SymBool, ModelFault, Inconclusive

EPS = Fraction(1, 2**52)
I32 = 2**31

class _Undef(object):
    def _p(self, *a): return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _p
    __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __pos__ = __abs__ = _p
    def _f(self, *a):
        raise ModelFault('uninit', 'a branch, index or result depends on an unset value')
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __index__ = __int__ = __float__ = _f
    __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = _f
    __hash__ = None
    def __repr__(self): return 'UNDEF'
UNDEF = _Undef()

class _Absent(object):
    def __repr__(self): return 'ABSENT'
ABSENT = _Absent()

MAXITER = 20000

def prod(s):
    r = 1
    for x in s: r *= x
    return r

class FArr(object):
    """View of flat storage `data`; element (i1..ir) at off + sum((ik-lbk)*stk)."""
    __slots__ = ('data', 'off', 'lb', 'shape', 'st', 'lo', 'hi', 'name')
    def __init__(self, data, off, lb, shape, st, lo, hi, name='?'):
        self.data, self.off, self.lb, self.shape, self.st = data, off, lb, shape, st
        self.lo, self.hi, self.name = lo, hi, name

    @staticmethod
    def new(lb, ub, name='local', fill=UNDEF):
        shape = tuple(max(0, u-l+1) for l, u in zip(lb, ub))
        st = []; k = 1
        for s in shape: st.append(k); k *= s
        return FArr([fill]*k, 0, tuple(lb), shape, tuple(st), 0, k, name)

    @staticmethod
    def of(vals, shape=None, name='temp'):
        shape = (len(vals),) if shape is None else tuple(shape)
        st = []; k = 1
        for s in shape: st.append(k); k *= s
        return FArr(list(vals), 0, (1,)*len(shape), shape, tuple(st), 0, k, name)

    @property
    def size(self): return prod(self.shape)

    def _fault(self, idx, write):
        raise ModelFault('oob', '%s outside the storage of %s: index %s of bounds %s' % (
            'write' if write else 'read', self.name, tuple(idx),
            [(l, l+s-1) for l, s in zip(self.lb, self.shape)]))

    def g1(self, i):
        k = self.off + (i-self.lb[0])*self.st[0]
        if not self.lo <= k < self.hi: self._fault((i,), False)
        return self.data[k]
    def s1(self, v, i):
        k = self.off + (i-self.lb[0])*self.st[0]
        if not self.lo <= k < self.hi: self._fault((i,), True)
        self.data[k] = v
    def g2(self, i, j):
        lb, st = self.lb, self.st
        k = self.off + (i-lb[0])*st[0] + (j-lb[1])*st[1]
        if not self.lo <= k < self.hi: self._fault((i, j), False)
        return self.data[k]
    def s2(self, v, i, j):
        lb, st = self.lb, self.st
        k = self.off + (i-lb[0])*st[0] + (j-lb[1])*st[1]
        if not self.lo <= k < self.hi: self._fault((i, j), True)
        self.data[k] = v
    def gn(self, *idx):
        k = self.off
        for i, l, s in zip(idx, self.lb, self.st): k += (i-l)*s
        if not self.lo <= k < self.hi: self._fault(idx, False)
        return self.data[k]
    def sn(self, v, *idx):
        k = self.off
        for i, l, s in zip(idx, self.lb, self.st): k += (i-l)*s
        if not self.lo <= k < self.hi: self._fault(idx, True)
        self.data[k] = v

    def offsets(self):
        offs = [self.off]
        for n, s in reversed(list(zip(self.shape, self.st))):
            pass
        offs = [self.off]
        # column-major enumeration: first index fastest
        out = [0]
        for n, s in zip(self.shape, self.st):
            out = [o + i*s for i in range(n) for o in out]
        return [self.off + o for o in out]

    def vals(self):
        offs = self.offsets()
        if offs:
            lo, hi = min(offs), max(offs)
            if lo < self.lo or hi >= self.hi: self._fault(('section',), False)
        d = self.data
        return [d[o] for o in offs]

    def setvals(self, vals):
        offs = self.offsets()
        if offs:
            lo, hi = min(offs), max(offs)
            if lo < self.lo or hi >= self.hi: self._fault(('section',), True)
        d = self.data
        for o, v in zip(offs, vals): d[o] = v

    def sec(self, *subs):
        """Array section; each sub an int, a tuple (lo,hi,step) or an FArr of ints."""
        if any(isinstance(s, FArr) for s in subs): return self._gather(subs)
        off = self.off
        shape = []; st = []
        for s, l, n, k in zip(subs, self.lb, self.shape, self.st):
            if type(s) is tuple:
                a, b, c = s
                if c is None: c = 1
                if a is None: a = l if c > 0 else l+n-1
                if b is None: b = l+n-1 if c > 0 else l
                m = max(0, (b-a+c)//c)
                if m: off += (a-l)*k
                shape.append(m); st.append(k*c)
            else:
                off += (s-l)*k
        return FArr(self.data, off, (1,)*len(shape), tuple(shape), tuple(st), self.lo, self.hi, self.name)

    def _gather(self, subs):
        lists = []
        shape = []
        for s, l, n in zip(subs, self.lb, self.shape):
            if isinstance(s, FArr):
                lists.append([int(x) for x in s.vals()]); shape.append(len(lists[-1]))
            elif type(s) is tuple:
                a, b, c = s
                if c is None: c = 1
                if a is None: a = l
                if b is None: b = l+n-1
                lists.append(list(range(a, b+1, c))); shape.append(len(lists[-1]))
            else: lists.append([s])
        idx = [()]
        for L in lists: idx = [t + (i,) for i in L for t in idx]
        return FArr.of([self.gn(*t) for t in idx], shape, self.name)

    def scatter(self, subs, rhs):
        lists = []
        for s, l, n in zip(subs, self.lb, self.shape):
            if isinstance(s, FArr): lists.append([int(x) for x in s.vals()])
            elif type(s) is tuple:
                a, b, c = s
                if c is None: c = 1
                if a is None: a = l
                if b is None: b = l+n-1
                lists.append(list(range(a, b+1, c)))
            else: lists.append([s])
        idx = [()]
        for L in lists: idx = [t + (i,) for i in L for t in idx]
        vals = rhs.vals() if isinstance(rhs, FArr) else [rhs]*len(idx)
        for t, v in zip(idx, vals): self.sn(v, *t)

    def seq(self, *idx):
        """Sequence association: the storage from element idx to the end of the array."""
        k = self.off
        for i, l, s in zip(idx, self.lb, self.st): k += (i-l)*s
        if not self.contiguous(): raise Inconclusive('sequence association of a non-contiguous array')
        return FArr(self.data, k, (1,), (max(0, self.hi - k),), (1,), self.lo, self.hi, self.name)

    def contiguous(self):
        k = 1
        for n, s in zip(self.shape, self.st):
            if n != 1 and s != k: return False
            k *= n
        return True

    def __bool__(self): raise Inconclusive('truth of an array')


def bind(actual, lb, ub, name, co):
    """Associate an explicit-shape dummy with an actual argument."""
    shape = tuple(max(0, u-l+1) for l, u in zip(lb, ub))
    st = []; k = 1
    for s in shape: st.append(k); k *= s
    if not isinstance(actual, FArr):
        actual = FArr.of([actual])
    if actual.contiguous():
        # the dummy may use the storage from the start of the actual to the actual's end
        hi = min(actual.hi, actual.off + actual.size)
        return FArr(actual.data, actual.off, tuple(lb), shape, tuple(st), actual.off, hi, name)
    vals = actual.vals()
    tmp = FArr(vals, 0, tuple(lb), shape, tuple(st), 0, len(vals), name)
    co.append(lambda: actual.setvals(vals))
    return tmp

def bind_assumed(actual, lb, name, co):
    if not isinstance(actual, FArr): actual = FArr.of([actual])
    if len(actual.shape) != len(lb): raise Inconclusive('rank mismatch for assumed-shape dummy')
    return FArr(actual.data, actual.off, tuple(lb), actual.shape, actual.st, actual.lo, actual.hi, name)

def assign(lhs, rhs):
    if isinstance(rhs, FArr):
        if rhs.shape != lhs.shape:
            if rhs.size < lhs.size:
                raise ModelFault('oob', 'array assignment to %s%s from a smaller array %s%s'
                                 % (lhs.name, lhs.shape, rhs.name, rhs.shape))
            if rhs.size != lhs.size and len(rhs.shape) != 1:
                raise ModelFault('shape', 'array assignment with shapes %s and %s' % (lhs.shape, rhs.shape))
        lhs.setvals(rhs.vals()[:lhs.size])
    else:
        lhs.setvals([rhs]*lhs.size)

def wassign(mask, lhs, rhs, inv=False):
    mv = mask.vals(); lv = lhs.vals()
    rv = rhs.vals() if isinstance(rhs, FArr) else [rhs]*len(lv)
    lhs.setvals([r if bool(m) != inv else l for m, l, r in zip(mv, lv, rv)])

def wmask(rest, mask):
    """Where a masked ELSEWHERE acts: its mask counts only where nothing acted before."""
    mv = mask.vals() if isinstance(mask, FArr) else [mask]*rest.size
    return FArr.of([bool(r) and bool(m) for r, m in zip(rest.vals(), mv)], rest.shape)
def wrest(rest, t):
    return FArr.of([bool(r) and not m for r, m in zip(rest.vals(), t.vals())], rest.shape)

def amap(f, *args):
    shape = None
    for a in args:
        if isinstance(a, FArr):
            if shape is None: shape = a.shape
            elif shape != a.shape:
                raise ModelFault('shape', 'operands with shapes %s and %s' % (shape, a.shape))
    if shape is None: return f(*args)
    n = prod(shape)
    cols = [a.vals() if isinstance(a, FArr) else [a]*n for a in args]
    return FArr.of([f(*t) for t in zip(*cols)], shape)

# scalar operations ---------------------------------------------------------------
def chk(i):
    if i is UNDEF: return i
    if not -I32 <= i < I32: raise ModelFault('overflow', 'integer overflow: %d' % i)
    return i
def idiv(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if b == 0: raise ModelFault('divzero', 'integer division by zero')
    q = abs(a)//abs(b)
    return q if (a >= 0) == (b >= 0) else -q
def imul(a, b): return chk(a*b)
def iadd(a, b): return a+b
def isub(a, b): return a-b
def ipow(a, b):
    if b < 0: return 0 if abs(a) != 1 else (1 if b % 2 == 0 else a)
    return chk(a**b)
def imod(a, b): return a - b*idiv(a, b)
def imodulo(a, b): return a % b
def rmod(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    return a - r2i(rdiv(a, b))*b
def rmodulo(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    return a - r2i(rdiv(a, b), 'floor')*b
def R(x):
    """A real value from anything."""
    if type(x) is bool: return int(x)
    return x
def rdiv(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(b, (int, Fraction)):
        if b == 0: raise ModelFault('divzero', 'division by zero')
        if isinstance(a, (int, Fraction)): return Fraction(a)/b
    elif isinstance(b, float):
        if b == 0.0: return float('nan') if a == 0 else float('inf')*(1 if a > 0 else -1)
    return a/b
def add(a, b): return a+b
def sub(a, b): return a-b
def mul(a, b): return a*b
def neg(a): return -a
def rpow(a, b):
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(b, Fraction) and b.denominator == 1: b = int(b)
    if isinstance(b, int):
        if b < 0: return rdiv(1, a**(-b))
        return a**b
    if b == Fraction(1, 2): return fsqrt(a)
    raise Inconclusive('real power')
def lt(a, b): return a < b
def le(a, b): return a <= b
def gt(a, b): return a > b
def ge(a, b): return a >= b
def eq(a, b): return a == b
def ne(a, b): return a != b
def land(a, b): return bool(a) and bool(b)
def lor(a, b): return bool(a) or bool(b)
def lnot(a): return not bool(a)
def leqv(a, b): return bool(a) == bool(b)
def lneqv(a, b): return bool(a) != bool(b)
def fabs_(a): return abs(a)
def fsqrt(a):
    if a is UNDEF: return a
    if isinstance(a, float): return a**0.5
    return sym.ssqrt(Sym.const(a))
def fmin(*a):
    r = a[0]
    for x in a[1:]:
        if bool(x < r): r = x
    return r
def fmax(*a):
    r = a[0]
    for x in a[1:]:
        if bool(x > r): r = x
    return r
def fsign(a, b):
    a = abs(a)
    return a if bool(b >= 0) else -a
def r2i(x, mode='trunc'):
    if x is UNDEF: return x
    if isinstance(x, int): return x
    v = x.value() if isinstance(x, Sym) and x.is_const() else x
    if isinstance(v, Sym): raise Inconclusive('real to integer conversion of a symbolic value')
    import math
    if mode == 'trunc': return chk(int(v))
    if mode == 'floor': return chk(math.floor(v))
    if mode == 'ceil': return chk(math.ceil(v))
    return chk(int(abs(v)+Fraction(1, 2))*(1 if v >= 0 else -1))
def fsum(a, dim=None, mask=None):
    return reduce_(a, dim, lambda v: _sum(v), mask)
def _sum(v):
    s = 0
    for x in v: s = s + x
    return s
def _prod(v):
    s = 1
    for x in v: s = s * x
    return s
def fproduct(a, dim=None, mask=None): return reduce_(a, dim, _prod, mask)
def fmaxval(a, dim=None, mask=None): return reduce_(a, dim, lambda v: fmax(*v), mask)
def fminval(a, dim=None, mask=None): return reduce_(a, dim, lambda v: fmin(*v), mask)
def fany(a, dim=None): return reduce_(a, dim, lambda v: any(bool(x) for x in v))
def fall(a, dim=None): return reduce_(a, dim, lambda v: all(bool(x) for x in v))
def fcount(a, dim=None): return reduce_(a, dim, lambda v: sum(1 for x in v if bool(x)))
def reduce_(a, dim, f, mask=None):
    if isinstance(dim, FArr): dim, mask = None, dim
    if mask is not None:
        if dim is not None: raise Inconclusive('masked reduction along a dimension')
        mv = mask.vals() if isinstance(mask, FArr) else [mask]*a.size
        return f([x for x, m in zip(a.vals(), mv) if bool(m)])
    if dim is None or len(a.shape) == 1: return f(a.vals())
    d = dim-1
    sh = a.shape[:d] + a.shape[d+1:]
    idx = [()]
    for n in sh: idx = [t+(i,) for i in range(1, n+1) for t in idx]
    b = FArr(a.data, a.off, (1,)*len(a.shape), a.shape, a.st, a.lo, a.hi, a.name)
    return FArr.of([f([b.gn(*(t[:d]+(k,)+t[d:])) for k in range(1, a.shape[d]+1)]) for t in idx], sh)
def fdot(a, b): return _sum([x*y for x, y in zip(a.vals(), b.vals())])
def fnorm2(a): return fsqrt(_sum([x*x for x in a.vals()]))
def fmatmul(a, b):
    A, B = a.vals(), b.vals()
    if len(a.shape) == 2 and len(b.shape) == 2:
        (m, k), (k2, n) = a.shape, b.shape
        if k != k2: raise ModelFault('shape', 'matmul of %s and %s' % (a.shape, b.shape))
        return FArr.of([_sum([A[i+m*l]*B[l+k*j] for l in range(k)]) for j in range(n) for i in range(m)], (m, n))
    if len(a.shape) == 2:
        (m, k), (k2,) = a.shape, b.shape
        if k != k2: raise ModelFault('shape', 'matmul of %s and %s' % (a.shape, b.shape))
        return FArr.of([_sum([A[i+m*l]*B[l] for l in range(k)]) for i in range(m)])
    (k,), (k2, n) = a.shape, b.shape
    if k != k2: raise ModelFault('shape', 'matmul of %s and %s' % (a.shape, b.shape))
    return FArr.of([_sum([A[l]*B[l+k*j] for l in range(k)]) for j in range(n)])
def ftranspose(a):
    return FArr.of(FArr(a.data, a.off, (1, 1), a.shape[::-1], a.st[::-1], a.lo, a.hi, a.name).vals(), a.shape[::-1])
def freshape(a, shp):
    shp = tuple(int(x) for x in shp.vals())
    v = a.vals()
    if len(v) < prod(shp): raise ModelFault('shape', 'reshape')
    return FArr.of(v[:prod(shp)], shp)
def fspread(a, dim, n):
    if not isinstance(a, FArr): return FArr.of([a]*n)
    d = dim-1
    sh = a.shape[:d] + (n,) + a.shape[d:]
    b = FArr(a.data, a.off, (1,)*len(a.shape), a.shape, a.st, a.lo, a.hi, a.name)
    idx = [()]
    for m in sh: idx = [t+(i,) for i in range(1, m+1) for t in idx]
    return FArr.of([b.gn(*(t[:d]+t[d+1:])) for t in idx], sh)
def fsize(a, dim=None): return a.size if dim is None else a.shape[dim-1]
def fshape(a): return FArr.of(list(a.shape))
def flbound(a, dim=None):
    return FArr.of(list(a.lb)) if dim is None else a.lb[dim-1]
def fubound(a, dim=None):
    u = [l+n-1 for l, n in zip(a.lb, a.shape)]
    return FArr.of(u) if dim is None else u[dim-1]
def fmaxloc(a, dim=None):
    v = a.vals(); k = 0
    for i in range(1, len(v)):
        if bool(v[i] > v[k]): k = i
    return FArr.of([k+1]) if dim is None else k+1
def fminloc(a, dim=None):
    v = a.vals(); k = 0
    for i in range(1, len(v)):
        if bool(v[i] < v[k]): k = i
    return FArr.of([k+1]) if dim is None else k+1
def fcshift(a, s):
    v = a.vals(); s %= max(1, len(v))
    return FArr.of(v[s:]+v[:s])
def feoshift(a, s, boundary=0):
    v = a.vals(); n = len(v)
    return FArr.of([v[i+s] if 0 <= i+s < n else boundary for i in range(n)])
def fpack(a, mask):
    v = a.vals()
    mv = mask.vals() if isinstance(mask, FArr) else [mask]*len(v)
    return FArr.of([x for x, m in zip(v, mv) if bool(m)])
def ffindloc(a, value, dim=None, back=False):
    if len(a.shape) != 1: raise Inconclusive('findloc of rank %d' % len(a.shape))
    k = 0
    for i, x in enumerate(a.vals()):
        if bool(x == value) if not isinstance(value, bool) else bool(x) == value:
            k = i+1
            if not back: break
    return FArr.of([k]) if dim is None else k
def fisnan(a):
    return isinstance(a, float) and a != a
def fmerge(a, b, m): return a if bool(m) else b
def acons(*parts):
    out = []
    for p in parts:
        if isinstance(p, FArr): out.extend(p.vals())
        elif isinstance(p, list): out.extend(p)
        else: out.append(p)
    return FArr.of(out)
def trange(a, b, s=1):
    if s == 0: raise ModelFault('hang', 'zero loop step')
    n = (b-a+s)//s
    if n > MAXITER: raise ModelFault('hang', 'loop of %d iterations' % n)
    return range(max(0, n))
def iterlimit(k):
    if k > MAXITER: raise ModelFault('hang', 'a loop does not terminate')
def fstop(msg=''):
    raise ModelFault('stop', str(msg))
def dimcheck(x):
    if x is UNDEF: UNDEF._f()
    return x
