"""numpy for symbolic execution.

`SArr` models a float64 array: an object-dtype ndarray subclass whose elements are exact values
(`Sym`), with numpy's own shape, stride, view and aliasing behaviour.  `shim` is the object the
code under test sees as the module `numpy`; whatever is not defined here is numpy itself.
"""
import math, types
from fractions import Fraction
import numpy as np
from . import sym
from .sym import Sym, SymBool, ModelFault, Inconclusive
from .fortrt import UNDEF

F8 = np.dtype('f8')
OBJ = np.dtype(object)

_zero, _one = Sym({}, 1, ()), Sym({0: 1}, 1, ())

def to_sym(x):
    if type(x) is Sym: return x
    if x is UNDEF: return x
    if isinstance(x, SymBool): x = bool(x)
    if isinstance(x, (bool, np.bool_)): return _one if x else _zero
    if isinstance(x, (int, np.integer)): return Sym.const(int(x))
    if isinstance(x, Fraction): return Sym.const(x)
    if isinstance(x, (float, np.floating)):
        return Sym.const(float(x))
    if isinstance(x, np.ndarray) and x.size == 1:
        return to_sym(plain(x).reshape(-1)[0])
    if isinstance(x, (complex, np.complexfloating)) and x.imag == 0: return Sym.const(float(x.real))
    if isinstance(x, str):
        raise ValueError('could not convert string to float: %r' % x)
    if x is None: raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
    if hasattr(x, '__float__'): return to_sym(x.__float__())
    raise TypeError('float() argument must be a real number, not %s' % type(x).__name__)

def to_int(x):
    if type(x) is Sym:
        if not x.is_const(): raise Inconclusive('integer conversion of a symbolic value')
        return math.trunc(x.value())
    if x is UNDEF: raise ModelFault('uninit', 'integer conversion of an unset value')
    if isinstance(x, np.ndarray) and x.size == 1: return to_int(plain(x).reshape(-1)[0])
    return int(x)

def plain(a):
    """The object ndarray underneath an SArr."""
    return a.view(np.ndarray) if isinstance(a, SArr) else a

_lift_v = np.frompyfunc(to_sym, 1, 1)

def mk(objarr, ld=None):
    r = objarr.view(SArr)
    r._ld = ld
    return r

def lift(a):
    """SArr with the values of any numeric array-like (a copy unless already an SArr)."""
    if isinstance(a, SArr): return a
    if not isinstance(a, np.ndarray): a = np.array(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    fl = out.reshape(-1) if a.ndim else out
    src = a.reshape(-1).tolist() if a.dtype != OBJ else list(a.reshape(-1))
    if a.ndim == 0:
        out[()] = to_sym(src[0])
    else:
        for i, x in enumerate(src): fl[i] = to_sym(x)
    return mk(out)

def lift0(s):
    out = np.empty((), dtype=object)
    out[()] = s
    return mk(out)

def unwrap(r):
    """0-d result -> scalar, as numpy does."""
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r.view(np.ndarray)[()]
    return r

def _bool(x):
    if x is UNDEF: x._f()
    return bool(x)

_bool_v = np.frompyfunc(_bool, 1, 1)

def bools(a):
    a = np.asarray(a)
    if a.dtype == bool: return a
    out = np.empty(a.shape, dtype=bool)
    of = out.reshape(-1)
    for i, x in enumerate(a.reshape(-1)): of[i] = _bool(x)
    return out

# -------------------------------------------------------------- scalar functions for ufuncs

def _s1(f): return lambda x: f(to_sym(x))
def _min2(a, b):
    return a if _bool(a <= b) else b
def _max2(a, b):
    return a if _bool(a >= b) else b
def _deg(x): return to_sym(x)*180/sym.pi()
def _rad(x): return to_sym(x)*sym.pi()/180
def _sign(x):
    if _bool(x > 0): return _one
    return -_one if _bool(x < 0) else _zero
def _floor(x):
    if x.is_const(): return Sym.const(math.floor(x.value()))
    raise Inconclusive('floor of a symbolic value')
def _ceil(x): return -_floor(-x)
def _div(a, b):
    if type(b) is Sym and not b.num or (not isinstance(b, Sym) and b == 0):
        raise ModelFault('divzero', 'array division by zero')
    return to_sym(a)/b
def _isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8)):
    d = a - b
    if type(d) is Sym and not d.num: return True
    t = rtol*abs(to_sym(b)) + atol
    return _bool(d <= t) and _bool(-d <= t)

FUN = {
    'sqrt': _s1(sym.ssqrt), 'sin': _s1(lambda x: sym.ssincos(x)[0]), 'cos': _s1(lambda x: sym.ssincos(x)[1]),
    'tan': _s1(lambda x: x.tan()), 'arccos': _s1(sym.sarccos), 'arcsin': _s1(lambda x: x.arcsin()),
    'arctan2': lambda y, x: sym.sarctan2(to_sym(y), to_sym(x)),
    'arctan': _s1(lambda x: sym.sarctan2(x, _one)),
    'hypot': lambda a, b: sym.shypot(to_sym(a), to_sym(b)),
    'minimum': _min2, 'maximum': _max2, 'fmin': _min2, 'fmax': _max2,
    'degrees': _deg, 'rad2deg': _deg, 'radians': _rad, 'deg2rad': _rad,
    'absolute': _s1(abs), 'fabs': _s1(abs), 'sign': _sign, 'square': lambda x: x*x,
    'floor': _s1(_floor), 'ceil': _s1(_ceil), 'divide': _div, 'true_divide': _div,
    'conjugate': lambda x: x, 'positive': lambda x: x, 'reciprocal': lambda x: _div(_one, x),
    'isfinite': lambda x: True, 'isnan': lambda x: False, 'isinf': lambda x: False,
    'copysign': lambda a, b: abs(to_sym(a)) if _bool(to_sym(b) >= 0) else -abs(to_sym(a)), 'float_power': lambda a, b: to_sym(a)**b,
    'rint': _s1(lambda x: _round1(x)), 'trunc': _s1(lambda x: -_floor(-x) if _bool(x < 0) else _floor(x)),
    'exp2': lambda x: Sym.const(2)**to_sym(x),
}
CMP = {
    'less': lambda a, b: _bool(a < b), 'less_equal': lambda a, b: _bool(a <= b),
    'greater': lambda a, b: _bool(a > b), 'greater_equal': lambda a, b: _bool(a >= b),
    'equal': lambda a, b: _bool(a == b), 'not_equal': lambda a, b: _bool(a != b),
    'logical_and': lambda a, b: _bool(a) and _bool(b), 'logical_or': lambda a, b: _bool(a) or _bool(b),
    'logical_not': lambda a: not _bool(a), 'logical_xor': lambda a, b: _bool(a) != _bool(b),
    'isfinite': lambda a: True, 'isnan': lambda a: False, 'isinf': lambda a: False,
    'signbit': lambda a: _bool(a < 0),
}
_PF = {}
def pyf(name, f, nin):
    k = (name, nin)
    r = _PF.get(k)
    if r is None: r = _PF[k] = np.frompyfunc(f, nin, 1)
    return r

def _opnd(x):
    """Operand as a plain object array (or scalar) of exact values."""
    if isinstance(x, SArr): return plain(x)
    if isinstance(x, np.ndarray):
        if x.dtype == OBJ: return x
        if x.dtype.kind in 'fiub': return plain(lift(x))
        return x
    if isinstance(x, (list, tuple)): return plain(lift(x))
    if isinstance(x, (bool, int, float, Fraction, np.number, np.bool_)):
        o = np.empty((), dtype=object); o[()] = to_sym(x); return o
    if type(x) is Sym:
        o = np.empty((), dtype=object); o[()] = x; return o
    return x

def _ldof(inputs):
    for x in inputs:
        if isinstance(x, SArr) and x._ld is not None and x._ld.kind == 'c': return x._ld
    return None

def apply_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    kw.pop('dtype', None); kw.pop('casting', None); kw.pop('subok', None); kw.pop('order', None)
    where = kw.pop('where', True)
    if where is not True and method == '__call__': return _ufunc_where(ufunc, inputs, kw, out, where)
    if where is not True: raise Inconclusive('ufunc where=')
    if method == 'at':
        a, k = inputs[0], inputs[1]
        if ufunc.nin == 1: a[k] = apply_ufunc(ufunc, '__call__', (a[k],), {}); return None
        fi = np.arange(a.size).reshape(a.shape)[k]
        fi, v = np.broadcast_arrays(np.asarray(fi), _opnd(inputs[2]))
        b = plain(a)
        for i, x in zip(fi.reshape(-1), v.reshape(-1)):
            i = np.unravel_index(i, a.shape)
            b[i] = apply_ufunc(ufunc, '__call__', (b[i], x), {})
        return None
    ins = [_opnd(x) for x in inputs] if method != 'at' else list(inputs)
    if name == 'matmul':
        res = _matmul(ins[0], ins[1]); iscmp = False
    elif method == '__call__':
        iscmp = name in CMP
        if iscmp:
            res = pyf(name, CMP[name], ufunc.nin)(*ins)
            res = bools(res) if isinstance(res, np.ndarray) else bool(res)
        elif name in FUN:
            res = pyf(name, FUN[name], ufunc.nin)(*ins)
        else:
            res = ufunc(*ins, **kw)
    elif method in ('reduce', 'accumulate', 'outer', 'reduceat'):
        iscmp = name in CMP
        if iscmp and method == 'reduce':
            res = getattr(ufunc, 'reduce')(bools(ins[0]), **kw)
        elif iscmp and method == 'outer':
            res = pyf(name, CMP[name], 2).outer(*ins)
            res = bools(res)
        elif name in FUN:
            f = pyf(name, FUN[name], ufunc.nin)
            if method == 'reduce' and 'keepdims' in kw and not kw['keepdims']: kw.pop('keepdims')
            res = getattr(f, method)(*ins, **kw)
        else:
            if method == 'reduce' and kw.get('initial', 0) is np._NoValue: kw.pop('initial')
            res = getattr(ufunc, method)(*ins, **kw)
            if method == 'reduce' and not isinstance(res, np.ndarray): res = to_sym(res)
    else:
        raise Inconclusive('ufunc method %s.%s' % (name, method))
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        o[...] = res
        return o
    if isinstance(res, tuple): return tuple(_wrap(r, inputs) for r in res)
    if iscmp: return res if not (isinstance(res, np.ndarray) and res.ndim == 0) else res[()]
    return _wrap(res, inputs)

def _ufunc_where(ufunc, inputs, kw, out, where):
    if out is None: raise Inconclusive('ufunc where= without out=')
    o = out[0] if isinstance(out, tuple) else out
    bs = np.broadcast_arrays(np.asarray(bools(plain(lift(where)) if isinstance(where, (list, tuple)) else np.asarray(where))),
                             *[_opnd(x) for x in inputs])
    shape = np.broadcast_shapes(bs[0].shape, o.shape)
    bs = [np.broadcast_to(b, shape) for b in bs]
    for i in np.ndindex(*shape):
        if bs[0][i]: o[i] = apply_ufunc(ufunc, '__call__', tuple(b[i] for b in bs[1:]), dict(kw))
    return o

def _wrap(res, inputs):
    if isinstance(res, np.ndarray):
        if res.dtype == OBJ:
            if res.ndim == 0: return res[()]
            return mk(res, _ldof(inputs))
        return res
    return res

def binop(ufname, a, b):
    return apply_ufunc(getattr(np, ufname), '__call__', (a, b), {})


class SArr(np.ndarray):
    __array_priority__ = 2000
    _ld = None

    def __array_finalize__(self, obj):
        if obj is not None: self._ld = getattr(obj, '_ld', None)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method == '__call__' and kw.get('out') is None:
            pass
        for x in inputs:
            if isinstance(x, np.ndarray) and x.dtype.kind in 'SU': return NotImplemented
        return apply_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        f = getattr(shim, func.__name__, None)
        if func.__module__ and func.__module__.startswith('numpy.linalg'):
            f = getattr(shim.linalg, func.__name__, None)
        if f is not None and f is not func and not isinstance(f, types.ModuleType):
            if getattr(f, '_shim', False): return f(*args, **kwargs)
        return fallback(func, args, kwargs)

    # logical dtype
    @property
    def dtype(self): return self._ld or F8
    @property
    def itemsize(self): return self.dtype.itemsize
    @property
    def nbytes(self): return self.size*self.itemsize

    def __setitem__(self, k, v):
        if isinstance(k, SArr): k = _index(k)
        elif isinstance(k, tuple): k = tuple(_index(x) if isinstance(x, SArr) else x for x in k)
        p = plain(self)
        if isinstance(v, SArr): p[k] = plain(v)
        elif type(v) is Sym:
            if type(k) is tuple or not isinstance(k, int) or p.ndim != 1:
                o = np.empty((), dtype=object); o[()] = v
                p[k] = o
            else: p[k] = v
        elif isinstance(v, (bool, int, float, Fraction, np.number, np.bool_)):
            o = np.empty((), dtype=object); o[()] = to_sym(v)
            p[k] = o
        else:
            p[k] = plain(shim.asarray(v, dtype='d'))
    def __getitem__(self, k):
        if isinstance(k, SArr): k = _index(k)
        elif type(k) is tuple: k = tuple(_index(x) if isinstance(x, SArr) else x for x in k)
        r = np.ndarray.__getitem__(self, k)
        return r

    def __bool__(self):
        if self.size == 1: return bool(plain(self).reshape(-1)[0] != 0)
        if self.size == 0: return False
        raise ValueError('The truth value of an array with more than one element is ambiguous')
    def __float__(self):
        raise Inconclusive('float() of an array escaped the shim')
    def __int__(self):
        if self.size != 1: raise TypeError('only length-1 arrays can be converted to Python scalars')
        return to_int(self)
    def __contains__(self, v):
        return any(bool(x == v) for x in plain(self).reshape(-1))
    def __pow__(self, n):
        if isinstance(n, (int, Fraction, float)):
            return mk_like(self, [x**n for x in plain(self).reshape(-1)])
        return np.ndarray.__pow__(self, n)

    # in place: numpy refuses operands that opt out of ufuncs, as Sym does
    def _ip(name):
        def f(self, o):
            p = plain(self)
            r = apply_ufunc(getattr(np, name), '__call__', (self, o), {})
            p[...] = plain(r) if isinstance(r, SArr) else r
            return self
        return f
    __iadd__, __isub__, __imul__, __itruediv__ = _ip('add'), _ip('subtract'), _ip('multiply'), _ip('true_divide')
    def __ipow__(self, n):
        self[...] = self**n
        return self

    def astype(self, t, order='K', casting='unsafe', subok=True, copy=True):
        return cast(self, t, copy=True if copy else False)
    def sort(self, axis=-1, kind=None, order=None, stable=None):
        p = plain(self)
        if p.ndim > 1:
            q = np.moveaxis(p, axis, -1)
            for idx in np.ndindex(*q.shape[:-1]): q[idx] = insort(list(q[idx]))
            return
        vals = insort(list(p))
        for i, x in enumerate(vals): p[i] = x
    def argsort(self, axis=-1, kind=None, order=None, stable=None):
        p = plain(self)
        if axis is None: p = p.reshape(-1); axis = -1
        if p.ndim == 1: return _argsort1(list(p))
        q = np.moveaxis(p, axis, -1); r = np.empty(q.shape, dtype=np.intp)
        for idx in np.ndindex(*q.shape[:-1]): r[idx] = _argsort1(list(q[idx]))
        return np.moveaxis(r, -1, axis)
    def searchsorted(self, v, side='left', sorter=None):
        return searchsorted(self, v, side, sorter)
    def min(self, axis=None, out=None, keepdims=False, **kw): return reduce_(self, _min2, axis, keepdims, 'minimum')
    def max(self, axis=None, out=None, keepdims=False, **kw): return reduce_(self, _max2, axis, keepdims, 'maximum')
    def ptp(self, axis=None): return self.max(axis) - self.min(axis)
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        if self.size == 0 and axis is None: return _zero
        return reduce_(self, lambda a, b: a+b, axis, keepdims, 'add', _zero)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_(self, lambda a, b: a*b, axis, keepdims, 'multiply', _one)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        n = self.size if axis is None else np.prod([self.shape[i] for i in axis], dtype=int) if isinstance(axis, tuple) else self.shape[axis]
        return self.sum(axis=axis, keepdims=keepdims)/n
    def all(self, axis=None, out=None, keepdims=False, **kw): return bools(plain(self) != 0).all(axis=axis, keepdims=keepdims)
    def any(self, axis=None, out=None, keepdims=False, **kw): return bools(plain(self) != 0).any(axis=axis, keepdims=keepdims)
    def clip(self, min=None, max=None, out=None, **kw):
        r = self
        if min is not None: r = shim.maximum(r, min)
        if max is not None: r = shim.minimum(r, max)
        return r
    def dot(self, b, out=None): return shim.dot(self, b)
    def cumsum(self, axis=None, dtype=None, out=None):
        return shim.cumsum(self, axis=axis, out=out)
    def argmin(self, axis=None, out=None, keepdims=False, **kw): return _arg(self, axis, keepdims, lambda x, y: x < y)
    def argmax(self, axis=None, out=None, keepdims=False, **kw): return _arg(self, axis, keepdims, lambda x, y: x > y)
    def nonzero(self): return bools(plain(self) != 0).nonzero()
    def fill(self, v): self[...] = v
    def round(self, decimals=0, out=None):
        if out is not None: raise Inconclusive('round with out')
        return mk_like(self, [_round1(x, decimals) for x in plain(self).reshape(-1)])
    def conj(self): return self
    conjugate = conj
    @property
    def real(self):
        r = self.view(SArr); r._ld = _real_ld(self._ld); return r
    @property
    def imag(self):
        r = shim.zeros(self.shape); return r
    def tolist(self): return plain(self).tolist()
    def item(self, *a): return plain(self).item(*a)
    def view(self, *a, **k):
        if a or k:
            t = a[0] if a else k.get('type', k.get('dtype'))
            if isinstance(t, type) and issubclass(t, np.ndarray): return np.ndarray.view(self, t)
            if np.dtype(t) == self.dtype: return np.ndarray.view(self, SArr)
            from .vfs import reinterpret
            return reinterpret(self, np.dtype(t))
        return np.ndarray.view(self, SArr)
    def byteswap(self, inplace=False):
        from .vfs import reinterpret
        r = reinterpret(self, self.dtype, swap=True)
        if inplace: self[...] = r; return self
        return r
    def newbyteorder(self, *a): raise AttributeError('newbyteorder')
    def tofile(self, fid, sep='', format='%s'):
        if sep: raise Inconclusive('text tofile')
        if isinstance(fid, str):
            from . import vfs
            fid = vfs.OPEN(fid, 'wb')
        fid.write_values(self.dtype, list(plain(self).reshape(-1)))
    def tobytes(self, order='C'):
        from .vfs import TokBytes
        return TokBytes.of(self.dtype, list(plain(self).reshape(-1, order=order or 'C')))
    tostring = tobytes
    def __reduce__(self): raise Inconclusive('pickling')
    def __deepcopy__(self, memo): return self.copy()
    def copy(self, order='C'):
        return mk(plain(self).copy(order), self._ld)
    __copy__ = copy
    def __repr__(self): return 'SArr(%r)' % (plain(self).tolist(),)
    __str__ = __repr__


class IArr(np.ndarray):
    """Integer arrays made by the shim: like numpy's, but they can be written to virtual files."""
    def tofile(self, fid, sep='', format='%s'):
        d = np.ndarray.dtype.__get__(self)
        fid.write_values(d, list(self.reshape(-1).view(np.ndarray)))
    def astype(self, t, *a, **k):
        if t is FloatShim or np.dtype(t).kind in 'fc':
            return cast(lift(self.view(np.ndarray)), t)
        return np.ndarray.astype(self, t, *a, **k)
def _ia(r):
    return r.view(IArr) if type(r) is np.ndarray and r.dtype.kind in 'iu' else r

def _real_ld(ld):
    if ld is None or ld.kind != 'c': return ld
    return np.dtype('%sf%d' % (ld.byteorder, ld.itemsize//2)) if ld.itemsize != 16 or ld.byteorder not in '=|<' else None

def mk_like(a, vals):
    out = np.empty(a.shape, dtype=object)
    if a.ndim == 0: out[()] = vals[0]
    else:
        f = out.reshape(-1)
        for i, v in enumerate(vals): f[i] = v
    return mk(out)

def _index(k):
    raise IndexError('arrays used as indices must be of integer (or boolean) type')

def insort(vals):
    import functools
    return sorted(vals, key=functools.cmp_to_key(
        lambda a, b: -1 if _bool(a < b) else (1 if _bool(b < a) else 0)))

def _argsort1(p):
    import functools
    return np.array(sorted(range(len(p)), key=functools.cmp_to_key(
        lambda i, j: -1 if _bool(p[i] < p[j]) else (1 if _bool(p[j] < p[i]) else 0))), dtype=np.intp)

def _arg(a, axis, keepdims, better):
    p = plain(a)
    if keepdims: raise Inconclusive('argmin/argmax with keepdims')
    if axis is not None and p.ndim > 1:
        q = np.moveaxis(p, axis, -1); r = np.empty(q.shape[:-1], dtype=np.intp)
        for idx in np.ndindex(*r.shape): r[idx] = _arg(mk_like_1d(list(q[idx])), None, False, better)
        return r
    v = list(p.reshape(-1)); k = 0
    if not v: raise ValueError('attempt to get argmin/argmax of an empty sequence')
    for i in range(1, len(v)):
        if _bool(better(v[i], v[k])): k = i
    return np.intp(k)

def _round1(x, decimals=0):
    x = to_sym(x)
    if x.is_const(): return to_sym(round(x.value(), decimals))
    raise Inconclusive('rounding a symbolic value')

def _alli(v): return not any(isinstance(x, Sym) for x in v)

def reduce_(a, f, axis, keepdims, name, init=None):
    p = plain(a)
    if isinstance(axis, tuple):
        ax = sorted(i + p.ndim if i < 0 else i for i in axis)
        if ax == list(range(p.ndim)): axis = None
        else:
            r = a
            for i in reversed(ax): r = reduce_(r, f, i, keepdims, name, init)
            return r
    if axis is None:
        v = list(p.reshape(-1))
        if not v:
            if init is None: raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
            return init
        r = v[0]
        if f is _min2 or f is _max2: r = sym.sminmax(v, f is _min2) if not _alli(v) else (min if f is _min2 else max)(v)
        else:
            for x in v[1:]: r = f(r, x)
        if keepdims:
            o = np.empty((1,)*p.ndim, dtype=object); o.reshape(-1)[0] = r; return mk(o)
        return r
    q = np.moveaxis(p, axis, 0)
    if q.shape[0] == 0:
        if init is None: raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
        return shim.full(q.shape[1:], init)
    out = np.empty(q.shape[1:], dtype=object)
    for idx in np.ndindex(*q.shape[1:]):
        r = q[(0,)+idx]
        if f is _min2 or f is _max2:
            v = [q[(i,)+idx] for i in range(q.shape[0])]
            r = sym.sminmax(v, f is _min2) if not _alli(v) else (min if f is _min2 else max)(v)
        else:
            for i in range(1, q.shape[0]): r = f(r, q[(i,)+idx])
        out[idx] = r
    if out.ndim == 0: return out[()]
    if keepdims: out = np.expand_dims(out, axis)
    return mk(out, getattr(a, '_ld', None))

def cast(a, t, copy=True):
    """astype for an SArr."""
    t = _dt(t)
    if t.kind in 'fc':
        small = (t.itemsize == 4 and t.kind == 'f') or (t.itemsize == 8 and t.kind == 'c')
        src_small = a._ld is not None and ((a._ld.itemsize == 4 and a._ld.kind == 'f') or (a._ld.itemsize == 8 and a._ld.kind == 'c'))
        ld = None if t == F8 else t
        if small and not src_small:
            r = mk_like(a, [f32(x) for x in plain(a).reshape(-1)])
            r._ld = ld
            return r
        if not copy and (a._ld or F8) == t: return a
        return mk(plain(a).copy(), ld)
    if t.kind in 'iu':
        out = np.empty(a.shape, dtype=t)
        for idx in np.ndindex(*a.shape): out[idx] = to_int(plain(a)[idx])
        return out
    if t.kind == 'b':
        return bools(plain(a) != 0) if a.ndim else np.bool_(bool(plain(a)[()] != 0))
    if t == OBJ: return plain(a).copy()
    raise Inconclusive('astype %s' % t)

def f32(x):
    """Rounding to single precision: an uninterpreted function, exact on constants."""
    if x is UNDEF: return x
    x = to_sym(x)
    if x.is_const():
        return Sym.const(Fraction(float(np.float32(float(x.value())))))
    C = sym.CTX
    key = ('f32', x.key())
    r = C.aux.get(key)
    if r is None:
        nm = 'f32#%d' % len(C.aux)
        lo = hi = None
        if not x.fac:       # rounding is monotone
            lo, _, hi, _ = C.poly_range(x.num)
            q = lambda v: None if v is None else Fraction(float(np.float32(float(Fraction(v)/x.den))))
            lo, hi = q(lo), q(hi)
        r = C.aux[key] = C.var(nm, lo, hi, kind='f32')
        C.vars[C.byname[nm]].defn = ('f32', x)
    return r

def fallback(func, args, kwargs):
    """numpy's own implementation on object arrays."""
    def un(x):
        if isinstance(x, SArr): return plain(x)
        if isinstance(x, (list, tuple)): return type(x)(un(y) for y in x) if not hasattr(x, '_fields') else x
        return x
    def re(x):
        if isinstance(x, np.ndarray) and x.dtype == OBJ: return mk(x)
        if isinstance(x, (list, tuple)) and not hasattr(x, '_fields'): return type(x)(re(y) for y in x)
        return x
    r = func(*[un(a) for a in args], **{k: un(v) for k, v in kwargs.items()})
    return re(r)

def searchsorted(a, v, side='left', sorter=None):
    a = list(a) if not isinstance(a, SArr) else list(plain(a))
    def one(x):
        k = 0
        if side in ('left', 'l'):
            while k < len(a) and _bool(a[k] < x): k += 1
        else:
            while k < len(a) and _bool(a[k] <= x): k += 1
        return k
    if isinstance(v, (np.ndarray, list, tuple)):
        v = shim.asarray(v)
        if v.ndim == 0: return one(plain(v)[()])
        out = np.empty(v.shape, dtype=np.intp)
        for idx in np.ndindex(*v.shape): out[idx] = one(plain(v)[idx])
        return out
    return np.intp(one(v))

def _matmul(a, b):
    a = np.asarray(a, dtype=object); b = np.asarray(b, dtype=object)
    if a.ndim == 1 and b.ndim == 1: return _dot1(a, b)
    if a.ndim <= 2 and b.ndim <= 2: return np.dot(a, b)
    if b.ndim == 1: return np.dot(a, b)
    if a.ndim == 2 and b.ndim == 2: return np.dot(a, b)
    sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    a = np.broadcast_to(a, sh + a.shape[-2:]); b = np.broadcast_to(b, sh + b.shape[-2:])
    out = np.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
    for idx in np.ndindex(*sh): out[idx] = np.dot(a[idx], b[idx])
    return out

def _dot1(a, b):
    if len(a) != len(b): raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    r = _zero
    for x, y in zip(a, b): r = r + x*y
    return r


# -------------------------------------------------------------- the module

def _kind(a):
    """Element kind of a nested python object: 'b', 'i', 'f', 'O', 'S', 'c' and its object array."""
    if isinstance(a, np.ndarray):
        return (('f' if isinstance(a, SArr) else {'u': 'i'}.get(np.ndarray.dtype.__get__(a).kind, np.ndarray.dtype.__get__(a).kind)), a)
    o = np.array(a, dtype=object)
    k = None
    rank = {'b': 0, 'i': 1, 'f': 2, 'c': 3, 'O': 9}
    for x in o.reshape(-1):
        if isinstance(x, (bool, np.bool_)): t = 'b'
        elif isinstance(x, (int, np.integer)): t = 'i'
        elif isinstance(x, (float, Fraction, Sym, np.floating)) or x is UNDEF: t = 'f'
        elif isinstance(x, (complex, np.complexfloating)): t = 'c'
        elif isinstance(x, (str, bytes)): return 'S', o
        else: t = 'O'
        if k is None or rank[t] > rank[k]: k = t
    return (k or 'f'), o

def _sf(f):
    f._shim = True
    return f

class _Linalg(object):
    def __getattr__(self, n): return getattr(np.linalg, n)
    @staticmethod
    @_sf
    def norm(x, ord=None, axis=None, keepdims=False):
        x = lift(shim.asarray(x))
        if ord not in (None, 2): raise Inconclusive('norm ord')
        if axis is None:
            if ord == 2 and x.ndim == 2: raise Inconclusive('spectral norm')
            return sym.ssqrt((x*x).sum())
        s = (x*x).sum(axis=axis, keepdims=keepdims)
        return shim.sqrt(s)
    @staticmethod
    @_sf
    def det(a):
        a = plain(lift(a)); n = a.shape[0]
        if n == 1: return a[0, 0]
        r = _zero
        for j in range(n):
            m = np.delete(np.delete(a, 0, 0), j, 1)
            t = a[0, j]*_Linalg.det(m)
            r = r + t if j % 2 == 0 else r - t
        return r
    @staticmethod
    @_sf
    def inv(a):
        a = plain(lift(a)); n = a.shape[0]
        # adjugate formula: no pivoting decisions
        d = _Linalg.det(a)
        if _bool(d == 0): raise np.linalg.LinAlgError('Singular matrix')
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(n):
                m = np.delete(np.delete(a, j, 0), i, 1)
                c = _Linalg.det(m) if n > 1 else _one
                out[i, j] = (c if (i+j) % 2 == 0 else -c)/d
        return mk(out)
    @staticmethod
    @_sf
    def solve(a, b):
        return shim.dot(_Linalg.inv(a), b)

def _dt(dtype):
    if dtype is FloatShim: return F8
    return None if dtype is None else np.dtype(dtype)

class _OGrid(object):
    def __getitem__(self, key):
        single = not isinstance(key, tuple)
        keys = (key,) if single else key
        out = []
        for i, s in enumerate(keys):
            st = s.step
            if isinstance(st, complex):
                a = shim.linspace(s.start if s.start is not None else 0, s.stop, int(abs(st)))
            else:
                a = shim.arange(s.start if s.start is not None else 0, s.stop, st if st is not None else 1)
            sh = [1]*len(keys); sh[i] = -1
            out.append(a.reshape(sh))
        if single: return out[0].reshape(-1)
        return tuple(out)

class Shim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__['linalg'] = _Linalg()
        self.__dict__['ogrid'] = _OGrid()
        self.__dict__['__version__'] = np.__version__
    def __getattr__(self, name):
        if name == 'pi': return sym.pi()
        r = getattr(np, name)
        if isinstance(r, np.ufunc):
            def f(*args, **kw):
                if _anysym(args) or r.__name__ in FLOATY:
                    return apply_ufunc(r, '__call__', args, kw)
                return r(*args, **kw)
            f.__name__ = name
            f.reduce = lambda *a, **k: apply_ufunc(r, 'reduce', a, k) if _anysym(a) else r.reduce(*a, **k)
            f.outer = lambda *a, **k: apply_ufunc(r, 'outer', a, k) if _anysym(a) else r.outer(*a, **k)
            f.at = lambda *a, **k: apply_ufunc(r, 'at', a, k) if isinstance(a[0], SArr) else r.at(*a, **k)
            f.accumulate = lambda *a, **k: apply_ufunc(r, 'accumulate', a, k) if _anysym(a) else r.accumulate(*a, **k)
            return f
        return r

FLOATY = ('sqrt', 'sin', 'cos', 'tan', 'arccos', 'arcsin', 'arctan', 'arctan2', 'hypot', 'degrees', 'radians',
          'deg2rad', 'rad2deg', 'divide', 'true_divide', 'reciprocal', 'fabs')

def _anysym(args):
    for a in args:
        if isinstance(a, (SArr, Sym, float, Fraction)): return True
        if isinstance(a, (list, tuple)) and _anysym(a): return True
        if hasattr(a, '__array__') and not isinstance(a, (np.ndarray, np.generic)): return True
    return False

shim = Shim()

def _def(f):
    f._shim = True
    shim.__dict__[f.__name__.rstrip('_')] = f
    return f

@_def
def asarray(a, dtype=None, order=None, copy=None, **kw):
    t = _dt(dtype)
    if t is not None and t == OBJ:
        return np.asarray(plain(a) if isinstance(a, SArr) else a, dtype=object)
    if not isinstance(a, (np.ndarray, list, tuple, Sym)) and hasattr(a, '__array__') and not isinstance(a, np.generic):
        a = a.__array__()
    if isinstance(a, SArr):
        r = a if t is None or t == a.dtype else cast(a, t)
    else:
        k, o = _kind(a)
        if t is None:
            if k == 'f': r = lift(o)
            elif k == 'i' and not isinstance(a, np.ndarray): r = np.asarray([int(x) for x in o.reshape(-1)], dtype=int).reshape(o.shape)
            elif k == 'b' and not isinstance(a, np.ndarray): r = np.asarray([bool(x) for x in o.reshape(-1)], dtype=bool).reshape(o.shape)
            elif k == 'c': raise Inconclusive('complex data')
            else: r = a if isinstance(a, np.ndarray) else np.asarray(a)
        elif t.kind in 'fc':
            if k in 'OfibS': r = lift(o) if k != 'S' else lift(np.asarray(a, dtype='d'))
            else: r = np.asarray(a, dtype=t)
            if t != F8 and isinstance(r, SArr): r = cast(r, t)
        elif t.kind in 'iu':
            if isinstance(a, np.ndarray) and k != 'O': r = np.asarray(a, dtype=t)
            else: r = np.asarray([to_int(x) for x in o.reshape(-1)], dtype=t).reshape(o.shape)
        elif t.kind == 'b':
            if isinstance(a, np.ndarray) and k != 'O': r = np.asarray(a, dtype=t)
            else: r = np.asarray([bool(x) for x in o.reshape(-1)], dtype=bool).reshape(o.shape)
        else: r = np.asarray(a, dtype=t)
    if order in ('F', 'f') and isinstance(r, SArr): r = mk(np.asfortranarray(plain(r)), r._ld)
    return _ia(r) if r is not a else r

@_def
def array(a, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    r = asarray(a, dtype=dtype)
    if copy and (r is a or isinstance(a, np.ndarray) or hasattr(a, '__array__')):
        r = mk(plain(r).copy(), r._ld) if isinstance(r, SArr) else r.copy()
    while r.ndim < ndmin: r = r[np.newaxis]
    if order in ('F', 'f') and isinstance(r, SArr): r = mk(np.asfortranarray(plain(r)), r._ld)
    return r

@_def
def asanyarray(a, dtype=None): return asarray(a, dtype)
@_def
def asfarray(a, dtype='d'): return asarray(a, 'd')

@_def
def ascontiguousarray(a, dtype=None):
    r = asarray(a, dtype=dtype)
    if isinstance(r, SArr):
        q = np.ascontiguousarray(plain(r))
        if q is plain(r) or (q.base is not None and r.flags.c_contiguous and r.ndim): return r
        return mk(q, r._ld)
    return np.ascontiguousarray(r)

@_def
def asfortranarray(a, dtype=None):
    r = asarray(a, dtype=dtype)
    return mk(np.asfortranarray(plain(r)), r._ld) if isinstance(r, SArr) else np.asfortranarray(r)

def _full(shape, val, dtype, order='C'):
    t = _dt(dtype) or F8
    if t.kind in 'fc':
        out = np.empty(shape, dtype=object, order='F' if order in ('F', 'f') else 'C')
        out.fill(val)
        return mk(out, None if t == F8 else t)
    return None

@_def
def zeros(shape, dtype=float, order='C', **kw):
    r = _full(shape, _zero, dtype, order)
    return r if r is not None else _ia(np.zeros(shape, dtype=dtype, order=order))
@_def
def ones(shape, dtype=float, order='C', **kw):
    r = _full(shape, _one, dtype, order)
    return r if r is not None else np.ones(shape, dtype=dtype, order=order)
@_def
def empty(shape, dtype=float, order='C', **kw):
    r = _full(shape, UNDEF, dtype, order)
    return r if r is not None else _ia(np.empty(shape, dtype=dtype, order=order))
@_def
def full(shape, fill_value, dtype=None, order='C', **kw):
    if dtype is None and not isinstance(fill_value, (bool, int, np.integer)): dtype = float
    if dtype is not None:
        r = _full(shape, _zero, dtype, order)
        if r is not None:
            r[...] = fill_value
            return r
    return np.full(shape, fill_value, dtype=dtype, order=order)
@_def
def zeros_like(a, dtype=None, **kw):
    if isinstance(a, SArr): return zeros(a.shape, dtype or a.dtype)
    return np.zeros_like(a, dtype=dtype) if dtype is None or np.dtype(dtype).kind not in 'fc' else zeros(np.shape(a), dtype)
@_def
def ones_like(a, dtype=None, **kw):
    if isinstance(a, SArr): return ones(a.shape, dtype or a.dtype)
    return np.ones_like(a, dtype=dtype) if dtype is None or np.dtype(dtype).kind not in 'fc' else ones(np.shape(a), dtype)
@_def
def empty_like(a, dtype=None, **kw):
    if isinstance(a, SArr): return empty(a.shape, dtype or a.dtype)
    return np.empty_like(a, dtype=dtype) if dtype is None or np.dtype(dtype).kind not in 'fc' else empty(np.shape(a), dtype)
@_def
def identity(n, dtype=float):
    return eye(n, dtype=dtype)
@_def
def eye(n, m=None, k=0, dtype=float):
    t = _dt(dtype)
    if t.kind not in 'fc': return np.eye(n, m, k, dtype=dtype)
    return lift(np.eye(n, m, k, dtype=int))
@_def
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if retstep: raise Inconclusive('linspace retstep')
    if isinstance(start, (list, tuple, np.ndarray)) or isinstance(stop, (list, tuple, np.ndarray)):
        a, b = lift(asarray(start)), lift(asarray(stop))
        n = int(num); div = n-1 if endpoint else n
        parts = [a + (b-a)*Sym.const(Fraction(i, div)) for i in range(n)]
        if endpoint and n > 1: parts[-1] = b + 0*a
        return stack(parts, axis=axis)
    n = to_int(num)
    if n < 0: raise ValueError('Number of samples, %s, must be non-negative.' % n)
    a, b = to_sym(start), to_sym(stop)
    div = n-1 if endpoint else n
    out = np.empty(n, dtype=object)
    for i in range(n):
        out[i] = a if i == 0 else (b if endpoint and i == n-1 else a + (b-a)*Fraction(i, div))
    r = mk(out)
    if dtype is not None and np.dtype(dtype).kind in 'iu': return r.astype(dtype)
    return r
@_def
def arange(*args, **kw):
    dt = kw.pop('dtype', None)
    args = [int(a.value()) if isinstance(a, Sym) and a.is_const() and a.is_integer() and dt is not None else a for a in args]
    if all(isinstance(a, (int, np.integer)) for a in args):
        r = np.arange(*args)
        return asarray(r, dtype=dt) if dt is not None else _ia(r)
    a = [Sym.const(x) for x in args]
    if len(a) == 1: a = [_zero, a[0]]
    if len(a) == 2: a.append(_one)
    n = (a[1]-a[0])/a[2]
    if not n.is_const(): raise Inconclusive('symbolic arange')
    n = max(0, math.ceil(n.value()))
    out = np.empty(n, dtype=object)
    for i in range(n): out[i] = a[0] + a[2]*i
    r = mk(out)
    return r if dt is None else asarray(r, dtype=dt)
@_def
def copy_(a, order='K', subok=False): return array(a)
@_def
def concatenate(arrays, axis=0, out=None, dtype=None, **kw):
    arrs = [asarray(x) for x in arrays]
    if any(isinstance(x, SArr) for x in arrs) or (dtype is not None and np.dtype(dtype).kind == 'f'):
        r = np.concatenate([plain(lift(x)) for x in arrs], axis=axis)
        r = mk(r, _ldof(arrs))
        if out is not None: out[...] = r; return out
        return r
    return np.concatenate(arrs, axis=axis)
@_def
def stack(arrays, axis=0, **kw):
    arrs = [asarray(x) for x in arrays]
    if any(isinstance(x, SArr) for x in arrs):
        return mk(np.stack([plain(lift(x)) for x in arrs], axis=axis))
    return np.stack(arrs, axis=axis)
def _stk(name):
    f0 = getattr(np, name)
    def f(tup, **kw):
        arrs = [asarray(x) for x in tup]
        if any(isinstance(x, SArr) for x in arrs):
            return mk(f0([plain(lift(x)) for x in arrs]))
        return f0(arrs)
    f.__name__ = name
    _def(f)
for _n in ('vstack', 'hstack', 'dstack', 'column_stack'): _stk(_n)
@_def
def row_stack(tup, **kw): return shim.vstack(tup)
def _atl(name):
    f0 = getattr(np, name)
    def f(*arrs):
        r = []
        for x in arrs:
            y = asarray(x)
            r.append(mk(f0(plain(y)), y._ld) if isinstance(y, SArr) else f0(y))
        return r[0] if len(r) == 1 else tuple(r)
    f.__name__ = name
    _def(f)
for _n in ('atleast_1d', 'atleast_2d', 'atleast_3d'): _atl(_n)

def _structural(name):
    f0 = getattr(np, name)
    def f(a, *args, **kw):
        y = asarray(a) if not isinstance(a, np.ndarray) else a
        if isinstance(y, SArr):
            args = [plain(x) if isinstance(x, SArr) else x for x in args]
            r = f0(plain(y), *args, **kw)
            if isinstance(r, (list, tuple)): return type(r)(mk(x, y._ld) for x in r)
            return mk(r, y._ld)
        return f0(y, *args, **kw)
    f.__name__ = name
    _def(f)
for _n in ('rollaxis', 'moveaxis', 'swapaxes', 'transpose', 'repeat', 'ravel', 'reshape', 'squeeze', 'expand_dims',
           'tile', 'flip', 'fliplr', 'flipud', 'roll', 'take', 'delete', 'broadcast_to', 'split', 'array_split', 'diag'):
    _structural(_n)
@_def
def broadcast_arrays(*arrs, **kw):
    ys = [asarray(x) for x in arrs]
    rs = np.broadcast_arrays(*[plain(y) for y in ys])
    return tuple(mk(r, y._ld) if isinstance(y, SArr) else r for r, y in zip(rs, ys))
@_def
def append(arr, values, axis=None):
    if axis is None: return concatenate([asarray(arr).ravel(), asarray(values).ravel()])
    return concatenate([arr, values], axis=axis)
@_def
def insert(arr, obj, values, axis=None):
    a = asarray(arr)
    if not isinstance(a, SArr): 
        v = asarray(values)
        if not isinstance(v, SArr): return np.insert(a, obj, v, axis=axis)
        a = lift(a)
    return mk(np.insert(plain(a), obj, plain(lift(asarray(values))), axis=axis))
@_def
def diff(a, n=1, axis=-1, **kw):
    a = asarray(a)
    ends = [kw.get(k) for k in ('prepend', 'append')]
    if any(e is not None for e in ends):
        def fit(e):
            e = asarray(e)
            if e.ndim: return e
            sh = list(a.shape); sh[axis] = 1
            return shim.broadcast_to(e, tuple(sh))
        a = concatenate([fit(x) if i != 1 else x for i, x in enumerate([ends[0], a, ends[1]]) if x is not None], axis=axis)
    if not isinstance(a, SArr): return np.diff(a, n=n, axis=axis)
    for _ in range(n):
        q = np.moveaxis(plain(a), axis, -1)
        a = mk(np.moveaxis(np.asarray(pyf('sub', lambda x, y: x-y, 2)(q[..., 1:], q[..., :-1]), dtype=object), -1, axis))
    return a
@_def
def bincount(x, weights=None, minlength=0):
    x = np.asarray(x)
    if weights is None: return np.bincount(x, minlength=minlength)
    w = asarray(weights)
    if not isinstance(w, SArr): return np.bincount(x, w, minlength)
    r = zeros(max(minlength, int(x.max())+1 if x.size else 0))
    for i, v in zip(x, plain(w)): r[int(i)] += v
    return r
@_def
def nditer(a, *args, **kw):
    if args or kw: raise Inconclusive('nditer options')
    return iter([unwrap(x) for x in asarray(a).reshape(-1)])
@_def
def ediff1d(a, to_end=None, to_begin=None):
    a = asarray(a).ravel()
    r = [] if to_begin is None else [asarray(to_begin).ravel()]
    r.append(diff(a))
    if to_end is not None: r.append(asarray(to_end).ravel())
    return concatenate(r) if len(r) > 1 else r[0]
@_def
def cumsum(a, axis=None, dtype=None, out=None):
    a = asarray(a)
    if not isinstance(a, SArr): return np.cumsum(a, axis=axis, dtype=dtype, out=out)
    if axis is None: q = plain(a).reshape(-1); axis = 0
    else: q = plain(a)
    r = mk(np.add.accumulate(q, axis=axis))
    if out is not None: out[...] = r; return out
    return r
def _redkw(kw):
    for k, v in kw.items():
        if k not in ('keepdims', 'out', 'dtype') or (k == 'out' and v is not None): raise Inconclusive('reduction with ' + k)
    return {k: v for k, v in kw.items() if k == 'keepdims'}
@_def
def sum_(a, axis=None, **kw):
    a = asarray(a)
    return a.sum(axis=axis, **kw)
@_def
def prod_(a, axis=None, **kw): return asarray(a).prod(axis=axis, **kw)
shim.__dict__['prod'] = prod_
@_def
def mean(a, axis=None, **kw):
    a = asarray(a)
    return lift(a).mean(axis=axis, **_redkw(kw))
@_def
def min_(a, axis=None, **kw): return asarray(a).min(axis=axis, **_redkw(kw))
@_def
def max_(a, axis=None, **kw): return asarray(a).max(axis=axis, **_redkw(kw))
shim.__dict__['amin'] = min_; shim.__dict__['amax'] = max_
@_def
def ptp(a, axis=None, **kw): return max_(a, axis) - min_(a, axis)
@_def
def all_(a, axis=None, **kw): return asarray(a).all(axis=axis, **_redkw(kw))
@_def
def any_(a, axis=None, **kw): return asarray(a).any(axis=axis, **_redkw(kw))
@_def
def clip(a, lo, hi, **kw): return asarray(a).clip(lo, hi)
@_def
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarray(a), asarray(b)
    rt, at = Fraction(str(rtol)) if isinstance(rtol, float) else to_sym(rtol), Fraction(str(atol)) if isinstance(atol, float) else to_sym(atol)
    f = np.frompyfunc(lambda x, y: _isclose(x, y, rt, at), 2, 1)
    r = f(_opnd(a), _opnd(b))
    return bools(r) if isinstance(r, np.ndarray) else bool(r)
@_def
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarray(a), asarray(b)
    rt, at = Fraction(str(rtol)) if isinstance(rtol, float) else to_sym(rtol), Fraction(str(atol)) if isinstance(atol, float) else to_sym(atol)
    x, y = np.broadcast_arrays(_opnd(a), _opnd(b))
    return all(_isclose(p, q, rt, at) for p, q in zip(x.reshape(-1), y.reshape(-1)))
@_def
def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape: return False
    return all(_bool(p == q) for p, q in zip(plain(a).reshape(-1), plain(b).reshape(-1)))
@_def
def array_equiv(a, b):
    a, b = asarray(a), asarray(b)
    try: x, y = np.broadcast_arrays(plain(a), plain(b))
    except ValueError: return False
    return all(_bool(p == q) for p, q in zip(x.reshape(-1), y.reshape(-1)))
@_def
def unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    a = asarray(ar)
    if not isinstance(a, SArr):
        return np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts)
    p = list(plain(a).reshape(-1))
    order = mk_like_1d(p).argsort()
    vals, first, inv, cnt = [], [], [0]*len(p), []
    for i in order:
        if vals and _bool(p[i] == vals[-1]): pass
        else:
            vals.append(p[i]); first.append(i); cnt.append(0)
        inv[i] = len(vals)-1
        cnt[-1] += 1
        first[-1] = min(first[-1], i)
    r = [mk_like_1d(vals)]
    if return_index: r.append(np.array(first, dtype=np.intp))
    if return_inverse: r.append(np.array(inv, dtype=np.intp))
    if return_counts: r.append(np.array(cnt, dtype=np.intp))
    return r[0] if len(r) == 1 else tuple(r)
def mk_like_1d(vals):
    o = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals): o[i] = v
    return mk(o)
@_def
def in1d(a, b, assume_unique=False, invert=False, **kw):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    if not isinstance(a, SArr) and not isinstance(b, SArr):
        return np.isin(a, b, invert=invert)
    bl = list(plain(b))
    r = np.array([any(_bool(x == y) for y in bl) for x in plain(a)], dtype=bool).reshape(a.shape)
    return ~r if invert else r
@_def
def isin(a, b, **kw):
    a = asarray(a)
    return in1d(a, b, **kw).reshape(a.shape)
def _setop(name):
    def f(a, b, *args, **kw):
        a, b = unique(a), unique(b)
        if not isinstance(a, SArr) and not isinstance(b, SArr): return getattr(np, name)(a, b)
        if name == 'union1d': return unique(concatenate([a, b]))
        m = in1d(a, b)
        if name == 'setdiff1d': return a[~m]
        return a[m]
    f.__name__ = name
    _def(f)
for _n in ('union1d', 'setdiff1d', 'intersect1d'): _setop(_n)
@_def
def sort(a, axis=-1, kind=None, order=None, **kw):
    r = array(a)
    if axis is None: r = r.ravel(); axis = -1
    r.sort(axis)
    return r
@_def
def argsort(a, axis=-1, kind=None, **kw):
    a = asarray(a)
    if isinstance(a, SArr) or kind is None: return a.argsort(axis)
    return a.argsort(axis, kind)
@_def
def searchsorted_(a, v, side='left', sorter=None):
    a = asarray(a)
    if not isinstance(a, SArr) and not _anysym((v,)): return np.searchsorted(a, v, side)
    return searchsorted(a, v, side, sorter)
shim.__dict__['searchsorted'] = searchsorted_
@_def
def dot(a, b, out=None):
    a, b = asarray(a), asarray(b)
    if not isinstance(a, SArr) and not isinstance(b, SArr): return np.dot(a, b)
    x, y = plain(lift(a)), plain(lift(b))
    if x.ndim == 1 and y.ndim == 1: return _dot1(x, y)
    if x.ndim == 0 or y.ndim == 0: return a*b
    if x.shape[-1] != y.shape[-2 if y.ndim > 1 else 0]:
        raise ValueError('shapes %s and %s not aligned' % (x.shape, y.shape))
    r = np.dot(x, y)
    r = mk(r) if isinstance(r, np.ndarray) else r
    if out is not None: out[...] = r; return out
    return r
@_def
def matmul(a, b): return _wrap(_matmul(plain(lift(asarray(a))), plain(lift(asarray(b)))), ())
@_def
def inner(a, b):
    a, b = lift(asarray(a)), lift(asarray(b))
    return dot(a, b.T) if b.ndim > 1 else dot(a, b)
@_def
def outer(a, b, out=None):
    a, b = lift(asarray(a)).ravel(), lift(asarray(b)).ravel()
    return a[:, None]*b[None, :]
@_def
def tensordot(a, b, axes=2):
    return mk(np.tensordot(plain(lift(asarray(a))), plain(lift(asarray(b))), axes=axes))
@_def
def einsum(spec, *ops, **kw):
    kw.pop('optimize', None)
    r = np.einsum(spec, *[plain(lift(asarray(o))) for o in ops], **kw)
    return _wrap(r, ())
@_def
def cross(a, b, **kw):
    a, b = lift(asarray(a)), lift(asarray(b))
    if a.shape[-1] != 3 or b.shape[-1] != 3: raise Inconclusive('cross of 2-vectors')
    return stack([a[..., 1]*b[..., 2]-a[..., 2]*b[..., 1], a[..., 2]*b[..., 0]-a[..., 0]*b[..., 2],
                  a[..., 0]*b[..., 1]-a[..., 1]*b[..., 0]], axis=-1)
@_def
def where(c, *args):
    if isinstance(c, SArr): c = bools(plain(c) != 0)
    if not args: return np.where(c)
    x, y = [asarray(a) for a in args]
    if isinstance(x, SArr) or isinstance(y, SArr):
        r = np.where(c, plain(lift(x)), plain(lift(y)))
        return mk(r) if r.ndim else mk(r)
    return np.where(c, x, y)
@_def
def nonzero(a): return asarray(a).nonzero()
@_def
def flatnonzero(a): return asarray(a).ravel().nonzero()[0]
@_def
def real(a): 
    a = asarray(a)
    return a.real
@_def
def iscomplexobj(a):
    return isinstance(a, SArr) and a.dtype.kind == 'c' or (not isinstance(a, SArr) and np.iscomplexobj(a))
@_def
def meshgrid(*xi, **kw):
    ys = [asarray(x) for x in xi]
    rs = np.meshgrid(*[plain(y) for y in ys], **kw)
    return tuple(mk(r) if isinstance(y, SArr) else r for r, y in zip(rs, ys))
@_def
def shape(a): return asarray(a).shape
@_def
def ndim(a): return asarray(a).ndim
@_def
def size(a, axis=None):
    a = asarray(a)
    return a.size if axis is None else a.shape[axis]
@_def
def argmin(a, axis=None, **kw): return asarray(a).argmin(axis=axis, **kw)
@_def
def argmax(a, axis=None, **kw): return asarray(a).argmax(axis=axis, **kw)
@_def
def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None: raise Inconclusive('periodic interp')
    x, xp, fp = lift(asarray(x)), list(plain(lift(asarray(xp)))), list(plain(lift(asarray(fp))))
    def one(t):
        if _bool(t < xp[0]): return fp[0] if left is None else to_sym(left)
        if _bool(t > xp[-1]): return fp[-1] if right is None else to_sym(right)
        if _bool(t == xp[-1]): return fp[-1]
        k = 0
        while k+2 < len(xp) and _bool(t >= xp[k+1]): k += 1
        return (fp[k+1]-fp[k])/(xp[k+1]-xp[k])*(t-xp[k]) + fp[k]
    r = [one(to_sym(t)) for t in plain(x).reshape(-1)]
    return r[0] if x.ndim == 0 else mk_like(x, r)
@_def
def digitize(x, bins, right=False):
    b = asarray(bins)
    if not isinstance(b, SArr) and not isinstance(asarray(x), SArr) and not _anysym((x,)): return np.digitize(x, b, right)
    v = list(plain(lift(b)))
    if len(v) > 1 and _bool(v[0] > v[-1]): raise Inconclusive('digitize with decreasing bins')
    return shim.searchsorted(lift(b), x, side='left' if right else 'right')
@_def
def round_(a, decimals=0, out=None):
    a = asarray(a)
    if not isinstance(a, SArr): return np.round(a, decimals)
    r = a.round(decimals, out)
    return r if r.ndim else r[()]
shim.__dict__['around'] = shim.__dict__['round_'] = round_
@_def
def take_along_axis(a, indices, axis=-1):
    a = asarray(a)
    r = np.take_along_axis(plain(a), plain(asarray(indices)), axis)
    return mk(r, getattr(a, '_ld', None)) if isinstance(a, SArr) else r
@_def
def heaviside(x, h):
    x = lift(asarray(x)); h = to_sym(h)
    r = [to_sym(0) if _bool(t < 0) else to_sym(1) if _bool(t > 0) else h for t in plain(x).reshape(-1)]
    return r[0] if x.ndim == 0 else mk_like(x, r)
@_def
def fromfile(f, dtype=float, count=-1, sep='', offset=0, **kw):
    if sep: raise Inconclusive('text fromfile')
    if isinstance(f, str):
        from . import vfs
        if vfs.OPEN is None: raise Inconclusive('fromfile by name')
        f = vfs.OPEN(f, 'rb')
    return f.read_values(np.dtype(dtype), count)
@_def
def frombuffer(b, dtype=float, count=-1, offset=0):
    from .vfs import VFile
    if isinstance(b, (bytes, bytearray)): return asarray(np.frombuffer(b, dtype, count, offset))
    return b.read_values(np.dtype(dtype), count, offset)
@_def
def vectorize(pyfunc, otypes=None, **k):
    if k: raise Inconclusive('vectorize with options')
    def call(*args):
        ar = [asarray(x) for x in args]
        bs = np.broadcast_arrays(*[plain(x) for x in ar])
        f = [pyfunc(*v) for v in zip(*[b.reshape(-1) for b in bs])]
        if not f: raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        r = asarray(f)
        if otypes is not None: r = r.astype(otypes[0])
        return r.reshape(bs[0].shape + r.shape[1:])
    return call
def _dtof(x):
    if isinstance(x, SArr): return x.dtype
    if isinstance(x, Sym): return F8
    if isinstance(x, (np.ndarray, np.generic)): return x
    return _dt(x) if isinstance(x, (type, np.dtype, str)) or x is None else x
@_def
def result_type(*a): return np.result_type(*[_dtof(x) for x in a])
@_def
def common_type(*a): return np.result_type(F8, *[_dtof(x) for x in a]).type
@_def
def can_cast(f, t, casting='safe'): return np.can_cast(_dtof(f), _dt(t), casting)
@_def
def promote_types(a, b): return np.promote_types(_dt(a), _dt(b))
@_def
def isscalar(x): return isinstance(x, Sym) or np.isscalar(x)

class _FloatMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, (float, Sym))
    def __subclasscheck__(cls, c): return issubclass(c, (float, Sym))
    def __call__(cls, x=0):
        if isinstance(x, str): return float(x)
        return to_sym(x)
    def __eq__(cls, o): return o is cls or o is float
    def __hash__(cls): return hash(float)
class FloatShim(metaclass=_FloatMeta):
    """`float` as the code under test sees it."""
    fromhex = staticmethod(float.fromhex)
