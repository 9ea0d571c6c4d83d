"""Virtual files: a file is a list of cells, each a byte value or (token, k) for byte k of a real number."""
import ast, re, struct, sys, types
from fractions import Fraction
import numpy as np
from . import sym
from .sym import Sym, ModelFault, Inconclusive
from .fortrt import UNDEF

OPEN = None      # opens a virtual file of the package under test

class Tok(object):
    __slots__ = ('dt', 'val')
    def __init__(self, dt, val): self.dt, self.val = dt, val

def encode(dt, vals):
    dt = np.dtype(dt)
    cells = []
    if dt.kind in 'iub':
        return list(np.asarray([int(v) if not isinstance(v, Sym) else int(v.value()) for v in vals], dtype=dt).tobytes())
    for v in vals:
        if v is UNDEF: raise ModelFault('uninit', 'an unset value is written to a file')
        v = Sym.const(v)
        back = _origin(v)
        if back is not None and back[0] == dt:      # a value decoded from other cells: they come back as they were
            cells.extend(back[1]); continue
        t = Tok(dt, v)
        cells.extend((t, k) for k in range(dt.itemsize))
    return cells

def decode(dt, cells):
    """Values of consecutive dt items in cells; a float item is exact when it was written as one."""
    dt = np.dtype(dt)
    n = len(cells)//dt.itemsize
    if dt.kind in 'iub':
        if all(isinstance(c, int) for c in cells[:n*dt.itemsize]):
            return np.frombuffer(bytes(cells[:n*dt.itemsize]), dtype=dt).copy()
        out = np.zeros(n, dtype=dt)
        for i in range(n):
            part = cells[i*dt.itemsize:(i+1)*dt.itemsize]
            if all(isinstance(c, int) for c in part): out[i] = np.frombuffer(bytes(part), dtype=dt)[0]
            else: out[i] = _garbage_int(dt, part)
        return out
    from . import npshim
    vals = []
    for i in range(n):
        part = cells[i*dt.itemsize:(i+1)*dt.itemsize]
        c0 = part[0]
        if all(isinstance(c, int) for c in part):
            x = np.frombuffer(bytes(part), dtype=dt)[0]
            x = x.real
            if x != x or x in (float('inf'), float('-inf')): vals.append(_garbage(dt, part)); continue
            vals.append(Sym.const(float(x)))
        elif _whole(dt, part):
            vals.append(c0[0].val)
        elif dt.kind == 'c' or (isinstance(c0, tuple) and c0[0].dt.kind == 'c'):
            vals.append(_complex_part(dt, part))
        else:
            vals.append(_garbage(dt, part))
    r = npshim.mk_like_1d(vals)
    r._ld = None if dt == npshim.F8 else dt
    return r

def _complex_part(dt, part):
    """Half of a complex token read as a real number (real part, then a zero imaginary part)."""
    c0 = part[0]
    if isinstance(c0, tuple) and c0[0].dt.kind == 'c' and dt.kind == 'f' and dt.itemsize*2 == c0[0].dt.itemsize \
            and dt.byteorder == c0[0].dt.byteorder and all(isinstance(c, tuple) and c[0] is c0[0] for c in part):
        ks = [c[1] for c in part]
        if ks == list(range(dt.itemsize)): return c0[0].val
        if ks == list(range(dt.itemsize, 2*dt.itemsize)): return Sym.const(0)
    return _garbage(dt, part)

def _big(dt):
    return dt.byteorder == '>' or (dt.byteorder in '=|' and sys.byteorder == 'big')

def _whole(dt, part):
    """part is one real number of dt's format, in dt's byte order."""
    c0 = part[0]
    if not isinstance(c0, tuple): return False
    t = c0[0]
    if t.dt.kind != dt.kind or t.dt.itemsize != dt.itemsize: return False
    n = dt.itemsize
    if _big(t.dt) == _big(dt): order = range(n)
    elif dt.kind == 'c': order = list(range(n//2))[::-1] + list(range(n//2, n))[::-1]
    else: order = range(n)[::-1]
    return all(isinstance(c, tuple) and c[0] is t and c[1] == k for c, k in zip(part, order))

def _garbage(dt, part):
    """An arbitrary number; it remembers the bytes it stands for."""
    C = sym.CTX
    n = 'garbage#%d' % len([v for v in C.vars if v.kind == 'garbage'])
    x = C.var(n, None, None, kind='garbage')
    if not hasattr(C, 'garbage_cells'): C.garbage_cells = {}
    C.garbage_cells[x.key()] = (dt, list(part))
    return x

def _origin(v):
    cells = getattr(sym.CTX, 'garbage_cells', None)
    return cells.get(v.key()) if cells and not v.is_const() else None

def reinterpret(a, dt, swap=False):
    """The bytes of array a read as dt."""
    from . import npshim
    dt = np.dtype(dt)
    cells = encode(a.dtype, list(npshim.plain(a).reshape(-1)))
    if swap:
        n = a.dtype.itemsize
        w = n//2 if a.dtype.kind == 'c' else n
        cells = [c for i in range(0, len(cells), w) for c in cells[i:i+w][::-1]]
    if a.shape and (a.shape[-1]*a.dtype.itemsize) % dt.itemsize: raise ValueError('the last axis must be divisible by the new itemsize')
    r = decode(dt, cells)
    if not isinstance(r, npshim.SArr): r = r.view(npshim.IArr)
    if a.ndim == 0: return r.reshape(()) if r.size == 1 else r
    return r.reshape(a.shape[:-1] + (a.shape[-1]*a.dtype.itemsize//dt.itemsize,))

def _garbage_int(dt, part):
    return 1234567 if dt.itemsize >= 4 else 77

class TokBytes(object):
    """Bytes holding symbolic numbers."""
    def __init__(self, cells): self.cells = cells
    @staticmethod
    def of(dt, vals): return TokBytes(encode(dt, vals))
    def __len__(self): return len(self.cells)
    def __add__(self, o):
        return TokBytes(self.cells + (o.cells if isinstance(o, TokBytes) else list(o)))
    def __radd__(self, o): return TokBytes(list(o) + self.cells)
    def __getitem__(self, k):
        r = self.cells[k]
        if not isinstance(k, slice):
            if isinstance(r, int): return r
            raise Inconclusive('one byte of a symbolic number')
        return pack(r)
    def extend(self, o): self.cells = self.cells + unbytes(o)
    def __bool__(self): return bool(self.cells)
    def __eq__(self, o):
        if isinstance(o, TokBytes) and self.cells == o.cells: return True
        raise Inconclusive('comparing the bytes of symbolic numbers')
    __hash__ = None
    def read_values(self, dt, count=-1, offset=0):
        cells = self.cells[int(offset):]
        avail = len(cells)//dt.itemsize
        n = int(count)
        if n < 0:
            if len(cells) % dt.itemsize: raise ValueError('buffer size must be a multiple of element size')
            n = avail
        if n > avail: raise ValueError('buffer is smaller than requested size')
        return _ints(decode(dt, cells[:n*dt.itemsize]))

class ByteLit(bytes):
    """A bytes literal of the code under test."""
    def join(self, parts):
        parts = list(parts)
        if not any(isinstance(x, TokBytes) for x in parts): return ByteLit(bytes.join(self, parts))
        cells = []
        for i, x in enumerate(parts):
            if i: cells += list(self)
            cells += unbytes(x)
        return pack(cells)
    def __add__(self, o):
        return TokBytes(list(self) + o.cells) if isinstance(o, TokBytes) else ByteLit(bytes.__add__(self, o))
    def __reduce__(self): return (bytes, (bytes(self),))

class _Lits(ast.NodeTransformer):
    def visit_Constant(self, n):
        if not isinstance(n.value, bytes): return n
        return ast.copy_location(ast.Call(ast.Name('__byte_literal__', ast.Load()), [n], []), n)
    def visit_MatchValue(self, n): return n

def compile_source(src, path):
    tree = ast.parse(src, path)
    return compile(ast.fix_missing_locations(_Lits().visit(tree)), path, 'exec', dont_inherit=True)

def pack(cells):
    return bytes(cells) if all(isinstance(x, int) for x in cells) else TokBytes(list(cells))

def _ints(r):
    if type(r) is np.ndarray:
        from . import npshim
        r = r.view(npshim.IArr)
    return r

def unbytes(b):
    return list(b.cells) if isinstance(b, TokBytes) else list(bytes(b))

class StructShim(types.ModuleType):
    """`struct` for the code under test: real numbers may be symbolic."""
    error = struct.error
    def __init__(self): types.ModuleType.__init__(self, 'struct')
    calcsize = staticmethod(struct.calcsize)
    @staticmethod
    def _items(fmt):
        fmt = fmt.decode() if isinstance(fmt, bytes) else fmt
        order = '@'
        if fmt[:1] in '@=<>!' and fmt: order, fmt = fmt[0], fmt[1:]
        out = []
        for n, c in re.findall(r'(\d*)([a-zA-Z?])', fmt):
            if c in 'spx': raise Inconclusive('struct format ' + c)
            out += [c]*(int(n) if n else 1)
        if order == '@': 
            if len(set(out)) > 1: raise Inconclusive('native struct alignment')
            order = '='
        size = struct.calcsize
        dts = [np.dtype(('>' if order in '>!' else '<' if order == '<' else '=')
                        + ('f' if c in 'fd' else 'b1'[:1] if c == '?' else 'u' if c.isupper() else 'i')
                        + ('' if c == '?' else str(size(order + c)))) for c in out]
        return dts
    @classmethod
    def pack(cls, fmt, *vals):
        dts = cls._items(fmt)
        if len(dts) != len(vals): raise struct.error('pack expected %d items for packing (got %d)' % (len(dts), len(vals)))
        cells = []
        for dt, v in zip(dts, vals):
            if dt.kind == 'f':
                from . import npshim
                v = npshim.lift0(Sym.const(v)).astype(dt)
                cells += encode(dt, list(npshim.plain(v).reshape(-1)))
            else:
                if isinstance(v, Sym): raise struct.error('required argument is not an integer')
                cells += encode(dt, [v])
        return pack(cells)
    @classmethod
    def unpack(cls, fmt, data):
        dts = cls._items(fmt); cells = unbytes(data)
        if sum(d.itemsize for d in dts) != len(cells): raise struct.error('unpack requires a buffer of %d bytes' % sum(d.itemsize for d in dts))
        out = []
        for dt in dts:
            v = decode(dt, cells[:dt.itemsize])[0]; cells = cells[dt.itemsize:]
            out.append(int(v) if dt.kind in 'iu' else bool(v) if dt.kind == 'b' else v)
        return tuple(out)
    @classmethod
    def unpack_from(cls, fmt, data, offset=0):
        return cls.unpack(fmt, data[offset:offset+cls.calcsize(fmt)])
    @classmethod
    def iter_unpack(cls, fmt, data):
        n = cls.calcsize(fmt)
        return iter([cls.unpack(fmt, data[i:i+n]) for i in range(0, len(data), n)])
    @classmethod
    def Struct(cls, fmt):
        S = types.SimpleNamespace(format=fmt, size=cls.calcsize(fmt))
        S.pack = lambda *v: cls.pack(fmt, *v)
        S.unpack = lambda b: cls.unpack(fmt, b)
        return S

class IOShim(types.ModuleType):
    """`io` for the code under test."""
    def __init__(self, opener):
        types.ModuleType.__init__(self, 'io'); self.open = opener
    @staticmethod
    def BytesIO(data=b''):
        f = VFile({}, 'memory', 'wb+'); f._put(unbytes(data)); f.pos = 0
        return f
    def __getattr__(self, n): raise Inconclusive('io.' + n)

class VFile(object):
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode = fs, name, mode
        self.closed = False
        self.pos = 0
        if 'w' in mode or ('a' not in mode and 'r' not in mode):
            fs[name] = []
        elif 'a' in mode:
            fs.setdefault(name, []); self.pos = len(fs[name])
        elif name not in fs: raise FileNotFoundError(2, 'No such file or directory', name)
        self.cells = fs[name]
    def _put(self, cells):
        if self.closed: raise ValueError('I/O operation on closed file')
        if 'r' in self.mode and '+' not in self.mode: raise IOError('not writable')
        self.cells[self.pos:self.pos+len(cells)] = cells
        self.pos += len(cells)
    def write(self, data):
        if isinstance(data, TokBytes): self._put(list(data.cells)); return len(data)
        if isinstance(data, str):
            if 'b' in self.mode: raise TypeError("a bytes-like object is required, not 'str'")
            data = data.encode()
        if isinstance(data, np.ndarray):
            from . import npshim
            if isinstance(data, npshim.SArr):
                c = encode(data.dtype, list(npshim.plain(data).reshape(-1))); self._put(c); return len(c)
            data = data.tobytes()
        self._put(list(bytes(data)))
        return len(data)
    def write_values(self, dt, vals): self._put(encode(dt, vals))
    def read_values(self, dt, count=-1, offset=0):
        if self.closed: raise ValueError('I/O operation on closed file')
        avail = max(0, len(self.cells)-self.pos)//dt.itemsize
        n = avail if count is None or int(count) < 0 else min(int(count), avail)
        self.pos += int(offset)
        r = decode(dt, self.cells[self.pos:self.pos+n*dt.itemsize])
        self.pos += n*dt.itemsize
        return _ints(r)
    def read(self, n=-1):
        if n is None or n < 0: n = len(self.cells)-self.pos
        if self.closed: raise ValueError('I/O operation on closed file')
        n = n.__index__()
        c = self.cells[self.pos:self.pos+n]
        self.pos += len(c)
        return pack(c)
    def getvalue(self): return pack(list(self.cells))
    getbuffer = getvalue
    def writelines(self, lines):
        for x in lines: self.write(x)
    def truncate(self, size=None):
        del self.cells[self.pos if size is None else size:]
        return len(self.cells)
    def readable(self): return 'r' in self.mode or '+' in self.mode
    def writable(self): return 'r' not in self.mode or '+' in self.mode
    def seekable(self): return True
    def readline(self):
        out = []
        while self.pos < len(self.cells):
            c = self.cells[self.pos]; self.pos += 1
            if not isinstance(c, int): raise Inconclusive('text read of binary data')
            out.append(c)
            if c == 10: break
        return bytes(out)
    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else (self.pos + off if whence == 1 else len(self.cells) + off)
        return self.pos
    def tell(self): return self.pos
    def flush(self): pass
    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __fspath__(self): raise TypeError('not a path')
