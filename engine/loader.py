"""Load the package under test from its source for symbolic execution.

Every run reads /repo's current files: igalib.f90 is parsed and translated, igalib.pyf is
interpreted, and the Python modules are executed with `numpy` bound to the symbolic shim.
"""
import builtins, os, sys, types, math
from fractions import Fraction
import numpy as np
from . import sym, npshim, fort, f2py, vfs
from .sym import Sym, Inconclusive, ModelFault

REPO = os.environ.get('IGAKIT_REPO', '/repo')


def _vmm(f, is_min):
    def g(*args, **kw):
        v = args
        if len(args) == 1:
            v = list(args[0])
            args = (v,)
        if not kw and any(isinstance(x, Sym) for x in v): return sym.sminmax(list(v), is_min)
        return f(*args, **kw)
    return g
_vmin, _vmax = _vmm(builtins.min, True), _vmm(builtins.max, False)


class Hooks(object):
    """Marshalling between the shim's arrays and flat Fortran storage."""
    @staticmethod
    def to_flat(src, typ, c):
        a = src
        if typ == 'real':
            b = npshim.asarray(a, dtype='d') if not isinstance(a, npshim.SArr) else a
            if a is None: raise F2pyNone()
            share = b is a and b.flags.c_contiguous and b._ld is None
            p = npshim.plain(npshim.lift(b))
            flat = []
            for x in p.reshape(-1, order='C' if c else 'F'):
                if type(x) is Sym and x.is_const(): 
                    v = x.value()
                    x = v
                flat.append(x)
            return p.shape, flat, share
        b = npshim.asarray(a, dtype='i4')
        return b.shape, [int(x) for x in np.asarray(b).reshape(-1, order='C' if c else 'F')], False
    @staticmethod
    def write_back(src, i, v):
        p = npshim.plain(src).reshape(-1)
        if not np.shares_memory(p, npshim.plain(src)): raise Inconclusive('write back')
        p[i] = npshim.to_sym(v)
    @staticmethod
    def from_flat(flat, shape, kind, c):
        if kind == 'real':
            o = np.empty(len(flat), dtype=object)
            for i, x in enumerate(flat): o[i] = npshim.to_sym(x)
            return npshim.mk(o.reshape(shape, order='C' if c else 'F'))
        for x in flat:
            from . import fortrt
            if x is fortrt.UNDEF: x._f()
        return np.array([int(x) for x in flat], dtype=np.int32).reshape(shape, order='C' if c else 'F').view(npshim.IArr)
    @staticmethod
    def to_real(v):
        if isinstance(v, (list, tuple)) and len(v): v = v[0]
        if isinstance(v, np.ndarray) and v.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        s = npshim.to_sym(v)
        return s.value() if type(s) is Sym and s.is_const() else s
    @staticmethod
    def to_int(v):
        if isinstance(v, (list, tuple)) and len(v): v = v[0]
        if v is None: raise TypeError("int() argument must be a string or a number, not 'NoneType'")
        return npshim.to_int(v)

class F2pyNone(TypeError): pass


class MathShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
    def __getattr__(self, n):
        if n == 'pi': return sym.pi()
        if n in ('sqrt', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2', 'hypot', 'degrees', 'radians', 'fabs', 'floor', 'ceil'):
            nn = {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan', 'atan2': 'arctan2'}.get(n, n)
            f = npshim.FUN[nn]
            if n in ('floor', 'ceil'): return lambda x: getattr(math, n)(x.value() if isinstance(x, Sym) else x)
            return lambda *a: f(*[npshim.to_sym(x) for x in a])
        if n == 'isclose':
            return lambda a, b, rel_tol=1e-9, abs_tol=0.0: bool(abs(npshim.to_sym(a)-b) <= max(abs(npshim.to_sym(a)), abs(npshim.to_sym(b)))*rel_tol + abs_tol)
        if n == 'fsum': return lambda xs: sum(xs)
        return getattr(math, n)


class Package(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.dir = os.path.join(self.repo, 'igakit')
        self.fs = {}
        self.drawing = None
        with open(os.path.join(self.dir, 'igalib.f90')) as f: self.prog = fort.Program(f.read())
        self.igalib = f2py.PyfModule(os.path.join(self.dir, 'igalib.pyf'), self.prog, Hooks)
        self.mods = {}
        self.pycalled = set()
        b = dict(builtins.__dict__)
        b['__import__'] = self._import
        b['open'] = self._open
        b['float'] = npshim.FloatShim
        b['min'] = _vmin
        b['max'] = _vmax
        b['__byte_literal__'] = vfs.ByteLit
        b['bytearray'] = lambda *a: vfs.TokBytes(vfs.unbytes(a[0]) if a else [])
        self.builtins = b
        self.math = MathShim()
        self.struct, self.io = vfs.StructShim(), vfs.IOShim(self._open)
        vfs.OPEN = self._open
        self.src_files = set()

    def _open(self, name, mode='r', *a, **k):
        name = os.fspath(name) if not isinstance(name, str) else name
        return vfs.VFile(self.fs, name, mode)

    def module(self, name):
        """name like 'igakit.nurbs' or 'igakit'."""
        m = self.mods.get(name)
        if m is not None: return m
        if name == 'igakit.igalib':
            self.mods[name] = self.igalib
            return self.igalib
        parts = name.split('.')
        if name == 'igakit':
            path = os.path.join(self.dir, '__init__.py')
        else:
            path = os.path.join(self.dir, *parts[1:]) + '.py'
        if not os.path.exists(path):
            if os.path.exists(path[:-3] + '/__init__.py'): path = path[:-3] + '/__init__.py'
            else: raise ModuleNotFoundError('No module named %r' % name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = 'igakit'
        if name == 'igakit': m.__path__ = [self.dir]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        with open(path) as f: src = f.read()
        code = vfs.compile_source(src, path)
        self.src_files.add(path)
        exec(code, m.__dict__)
        if name != 'igakit': setattr(self.module('igakit'), parts[-1], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0: name = 'igakit' + ('.' + name if name else '')
        root = name.split('.')[0]
        if root == 'numpy':
            if name == 'numpy' or not fromlist: return npshim.shim
            o = npshim.shim
            for p in name.split('.')[1:]: o = getattr(o, p)
            return o
        if name in ('math', 'struct', 'io'): return getattr(self, name)
        if root == 'igakit':
            m = self.module(name)
            if not fromlist: return self.module('igakit')
            for f in fromlist:
                if f and f != '*' and not hasattr(m, f) and name == 'igakit':
                    setattr(m, f, self.module('igakit.' + f))
            return m
        if self.drawing is not None and name in self.drawing.modules:
            return self.drawing.modules[name if fromlist else root]
        if root in ('mayavi', 'matplotlib', 'mpl_toolkits', 'pylab', 'scipy', 'enthought', 'tvtk', 'vtk'): raise ImportError(name)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def start_trace(self):
        """Record which functions of the package run (sys.monitoring, one event per code object)."""
        mon = sys.monitoring
        try: mon.use_tool_id(3, 'verif')
        except ValueError: return
        def cb(code, off):
            if code.co_filename.startswith(self.dir):
                self.pycalled.add('%s:%s' % (os.path.basename(code.co_filename), code.co_qualname))
            return mon.DISABLE
        mon.register_callback(3, mon.events.PY_START, cb)
        mon.set_events(3, mon.events.PY_START)
