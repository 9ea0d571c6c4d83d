"""The Python <-> Fortran boundary as f2py generates it from igalib.pyf.

The signature file is read by numpy's own f2py front end; argument order, defaults, checks,
hidden sizes and array shape rules are interpreted from it (rules of the generated wrapper:
numpy/f2py/src/fortranobject.c check_and_fix_dimensions).  C code fragments (checks, defaults
and the usercode functions) are parsed with pycparser and interpreted symbolically.
"""
import io, contextlib, re
from fractions import Fraction
import numpy as np
import pycparser
from pycparser import c_ast
from . import fortrt as rt
from .sym import Sym, SymBool, ModelFault, Inconclusive


class F2pyError(Exception):
    """igalib.error"""

# ------------------------------------------------------------------ C interpreter

class _CRet(Exception):
    def __init__(self, v): self.v = v
class _CBreak(Exception): pass
class _CCont(Exception): pass

class CPtr(object):
    def __init__(self, data, off=0): self.data, self.off = data, off
    def get(self, i):
        k = self.off + i
        if not 0 <= k < len(self.data):
            raise ModelFault('oob', 'C code reads element %d of an array of %d' % (k, len(self.data)))
        return self.data[k]
    def put(self, i, v):
        k = self.off + i
        if not 0 <= k < len(self.data):
            raise ModelFault('oob', 'C code writes element %d of an array of %d' % (k, len(self.data)))
        self.data[k] = v

def _isint(x): return isinstance(x, (int, np.integer)) and not isinstance(x, Fraction)

class CInterp(object):
    def __init__(self):
        self.funcs = {}
        self.called = set()

    def load(self, text):
        text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
        text = re.sub(r'//[^\n]*', ' ', text)
        text = re.sub(r'^\s*#.*$', ' ', text, flags=re.M)
        text = re.sub(r'\b(npy_intp|size_t|F_INT|npy_int)\b', 'int', text)
        ast = pycparser.CParser().parse(text)
        for d in ast.ext:
            if isinstance(d, c_ast.FuncDef): self.funcs[d.decl.name] = d

    _cache = {}
    def expr(self, text, env):
        e = CInterp._cache.get(text)
        if e is None:
            ast = pycparser.CParser().parse('int f(void){return (%s);}' % text)
            e = CInterp._cache[text] = ast.ext[0].body.block_items[0].expr
        return self.ev(e, [env])

    def call(self, name, args, env=None):
        if name == 'shape':
            return args[0].shape[args[1]]
        if name in ('rank',): return len(args[0].shape)
        if name in ('size', 'len'):
            return rt.prod(args[0].shape) if len(args) == 1 else args[0].shape[args[1]]
        if name in ('fabs', 'abs'): return abs(args[0])
        d = self.funcs.get(name)
        if d is None: raise Inconclusive('C function %s' % name)
        self.called.add(name)
        names = [p.name for p in d.decl.type.args.params] if d.decl.type.args else []
        if len(names) != len(args): raise Inconclusive('C call arity %s' % name)
        e = {}
        for p, a in zip(d.decl.type.args.params if names else [], args):
            if hasattr(a, 'shape') and hasattr(a, 'flat_'): a = CPtr(a.flat_)
            elif _isint(a) and self.isreal(p.type): a = Fraction(int(a))
            e[p.name] = a
        try:
            self.st(d.body, [e])
        except _CRet as r:
            return r.v
        return None

    def isreal(self, t):
        try: return 'double' in t.type.names or 'float' in t.type.names
        except AttributeError: return False

    # statements
    def st(self, n, envs):
        k = type(n).__name__
        f = getattr(self, 's_' + k, None)
        if f: return f(n, envs)
        if k in ('Assignment', 'UnaryOp', 'FuncCall', 'BinaryOp', 'Constant', 'ID', 'Cast', 'TernaryOp', 'ExprList'):
            self.ev(n, envs); return
        raise Inconclusive('C statement %s' % k)
    def s_Compound(self, n, envs):
        envs = envs + [{}]
        for b in n.block_items or []: self.st(b, envs)
    def s_DeclList(self, n, envs):
        for d in n.decls: self.st(d, envs)
    def s_Decl(self, n, envs):
        v = rt.UNDEF
        if n.init is not None:
            v = self.ev(n.init, envs)
            if self.isreal(n.type) and _isint(v): v = Fraction(int(v))
        if isinstance(n.type, c_ast.ArrayDecl):
            v = CPtr([rt.UNDEF]*int(self.ev(n.type.dim, envs)))
        envs[-1][n.name] = v
    def s_EmptyStatement(self, n, envs): pass
    def s_Return(self, n, envs): raise _CRet(self.ev(n.expr, envs) if n.expr else None)
    def s_Break(self, n, envs): raise _CBreak()
    def s_Continue(self, n, envs): raise _CCont()
    def s_If(self, n, envs):
        if self.truth(self.ev(n.cond, envs)): self.st(n.iftrue, envs)
        elif n.iffalse is not None: self.st(n.iffalse, envs)
    def loop(self, cond, nxt, body, envs, first=True):
        it = 0
        while True:
            if first and cond is not None and not self.truth(self.ev(cond, envs)): break
            first = True
            it += 1
            if it > rt.MAXITER: raise ModelFault('hang', 'C loop does not terminate')
            try: self.st(body, envs)
            except _CBreak: break
            except _CCont: pass
            if nxt is not None: self.ev(nxt, envs)
    def s_While(self, n, envs): self.loop(n.cond, None, n.stmt, envs)
    def s_DoWhile(self, n, envs): self.loop(n.cond, None, n.stmt, envs, first=False)
    def s_For(self, n, envs):
        envs = envs + [{}]
        if n.init is not None: self.st(n.init, envs)
        self.loop(n.cond, n.next, n.stmt, envs)

    @staticmethod
    def truth(v):
        if isinstance(v, (bool, SymBool)): return bool(v)
        return bool(v != 0)

    # expressions
    def ev(self, n, envs):
        return getattr(self, 'e_' + type(n).__name__, self.bad)(n, envs)
    def bad(self, n, envs): raise Inconclusive('C expression %s' % type(n).__name__)
    def e_Constant(self, n, envs):
        if n.type in ('int', 'long int', 'unsigned int'): return int(n.value.rstrip('uUlL'), 0)
        if n.type in ('double', 'float'): return Fraction(float(n.value.rstrip('fFlL')))
        raise Inconclusive('C constant %s' % n.type)
    def e_ID(self, n, envs):
        for e in reversed(envs):
            if n.name in e: return e[n.name]
        raise Inconclusive('C name %s' % n.name)
    def e_ArrayRef(self, n, envs):
        a = self.ev(n.name, envs); i = self.ev(n.subscript, envs)
        if hasattr(a, 'flat_'): a = CPtr(a.flat_)
        return a.get(i)
    def e_FuncCall(self, n, envs):
        args = [self.ev(a, envs) for a in (n.args.exprs if n.args else [])]
        return self.call(n.name.name, args)
    def e_ExprList(self, n, envs):
        v = None
        for e in n.exprs: v = self.ev(e, envs)
        return v
    def e_Cast(self, n, envs):
        v = self.ev(n.expr, envs)
        names = n.to_type.type.type.names
        if 'double' in names or 'float' in names: return Fraction(int(v)) if _isint(v) else v
        if isinstance(v, Fraction): return int(v)
        return v if _isint(v) else int(v)
    def e_TernaryOp(self, n, envs):
        return self.ev(n.iftrue if self.truth(self.ev(n.cond, envs)) else n.iffalse, envs)
    def e_UnaryOp(self, n, envs):
        op = n.op
        if op in ('p++', '++', 'p--', '--'):
            v = self.ev(n.expr, envs)
            w = v + 1 if '+' in op else v - 1
            self.assign(n.expr, w, envs)
            return v if op[0] == 'p' else w
        if op == '*':
            a = self.ev(n.expr, envs)
            if hasattr(a, 'flat_'): a = CPtr(a.flat_)
            return a.get(0)
        v = self.ev(n.expr, envs)
        if op == '-': return -v
        if op == '+': return v
        if op == '!': return int(not self.truth(v))
        raise Inconclusive('C operator %s' % op)
    def assign(self, lhs, v, envs):
        if isinstance(lhs, c_ast.ID):
            for e in reversed(envs):
                if lhs.name in e:
                    e[lhs.name] = v
                    return
            raise Inconclusive('C assignment to %s' % lhs.name)
        if isinstance(lhs, c_ast.ArrayRef):
            self.ev(lhs.name, envs).put(self.ev(lhs.subscript, envs), v); return
        raise Inconclusive('C assignment')
    def e_Assignment(self, n, envs):
        v = self.ev(n.rvalue, envs)
        if n.op != '=': v = self.bin(n.op[:-1], self.ev(n.lvalue, envs), v)
        self.assign(n.lvalue, v, envs)
        return v
    def e_BinaryOp(self, n, envs):
        if n.op == '&&':
            return int(self.truth(self.ev(n.left, envs)) and self.truth(self.ev(n.right, envs)))
        if n.op == '||':
            return int(self.truth(self.ev(n.left, envs)) or self.truth(self.ev(n.right, envs)))
        return self.bin(n.op, self.ev(n.left, envs), self.ev(n.right, envs))
    def bin(self, op, a, b):
        if isinstance(a, CPtr) or hasattr(a, 'flat_'):
            if hasattr(a, 'flat_'): a = CPtr(a.flat_)
            if op == '+': return CPtr(a.data, a.off + b)
            if op == '-' and _isint(b): return CPtr(a.data, a.off - b)
        if op == '+': return a + b
        if op == '-': return a - b
        if op == '*': return a * b
        if op == '/':
            if _isint(a) and _isint(b): return rt.idiv(a, b)
            return Sym.const(a) / b
        if op == '%': return a - b*rt.idiv(a, b)
        if op == '<': return a < b
        if op == '<=': return a <= b
        if op == '>': return a > b
        if op == '>=': return a >= b
        if op == '==': return a == b
        if op == '!=': return a != b
        raise Inconclusive('C operator %s' % op)


# ------------------------------------------------------------------ signature file

class ArrArg(object):
    """A marshalled array argument."""
    __slots__ = ('flat_', 'shape', 'src', 'orig', 'kind')
    def __init__(self, flat, shape, src=None, kind='real'):
        self.flat_, self.shape, self.src, self.kind = flat, tuple(shape), src, kind
        self.orig = list(flat) if src is not None else None


def read_pyf(path):
    from numpy.f2py import crackfortran as cf
    cf.dolowercase = 0
    cf.verbose = 0
    cf.quiet = 1
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return cf.crackfortran([path])

def fix_dims(shape, dims):
    """check_and_fix_dimensions of fortranobject.c: returns the final dims or raises."""
    dims = list(dims)
    rank = len(dims)
    arr_size = rt.prod(shape) if shape else 1
    nd = len(shape)
    if nd < rank:
        new_size = 1
        free_axe = -1
        for i in range(nd):
            d = shape[i]
            if dims[i] >= 0:
                if d > 1 and dims[i] != d:
                    raise ValueError('%d-th dimension must be fixed to %d but got %d' % (i, dims[i], d))
                if not dims[i]: dims[i] = 1
            else:
                dims[i] = d if d else 1
            new_size *= dims[i]
        for i in range(nd, rank):
            if dims[i] > 1:
                raise ValueError('%d-th dimension must be %d but got 0 (not defined).' % (i, dims[i]))
            elif free_axe < 0: free_axe = i
            else: dims[i] = 1
        if free_axe >= 0:
            dims[free_axe] = arr_size // new_size if new_size else 0
            new_size *= dims[free_axe]
        if new_size != arr_size:
            raise ValueError('unexpected array size')
    elif nd == rank:
        new_size = 1
        for i in range(rank):
            d = shape[i]
            if dims[i] >= 0:
                if d > 1 and d != dims[i]:
                    raise ValueError('%d-th dimension must be fixed to %d but got %d' % (i, dims[i], d))
                if not dims[i]: dims[i] = 1
            else:
                dims[i] = d
            new_size *= dims[i]
        if new_size != arr_size:
            raise ValueError('unexpected array size')
    else:
        eff = [s for s in shape if s > 1]
        if len(eff) > rank and rank == 0: eff = []
        if dims and dims[rank-1] >= 0 and len(eff) > rank:
            pass
        j = 0
        i = 0
        while i < rank:
            while j < nd and shape[j] < 2: j += 1
            d = 1 if j >= nd else shape[j]
            j += 1
            if dims[i] >= 0:
                if d > 1 and d != dims[i]:
                    raise ValueError('%d-th dimension must be fixed to %d but got %d' % (i, dims[i], d))
                if not dims[i]: dims[i] = 1
            else:
                dims[i] = d
            i += 1
        for i in range(rank, nd):
            while j < nd and shape[j] < 2: j += 1
            d = 1 if j >= nd else shape[j]
            j += 1
            dims[rank-1] *= d
        if rt.prod(dims) != arr_size:
            raise ValueError('unexpected array size')
    return dims


class Wrapper(object):
    unset_outputs = False    # True: output arrays start unset (f2py fills them with zeros) and must be set by the kernel
    def __init__(self, mod, sub, prog, cint, hooks):
        self.mod, self.prog, self.cint, self.hooks = mod, prog, cint, hooks
        self.name = sub['name']
        self.args = sub['args']
        self.order = sub['sortvars']
        self.vars = sub['vars']
        self.__name__ = self.name
        self.req, self.opt, self.hid, self.outs = [], [], [], []
        for a in self.args:
            v = self.vars[a]
            it = v.get('intent', [])
            if 'out' in it: self.outs.append(a)
            if 'hide' in it or ('out' in it and 'in' not in it): self.hid.append(a)
            elif 'optional' in v.get('attrspec', []) or '=' in v: self.opt.append(a)
            else: self.req.append(a)
        self.unit = prog.get(mod, self.name)
        self.names = [a for a in self.args if a in self.req] + [a for a in self.args if a in self.opt]

    def typ(self, a): return self.vars[a]['typespec']

    def __call__(self, *args, **kw):
        given = {}
        if len(args) > len(self.names): raise TypeError('%s() takes at most %d arguments' % (self.name, len(self.names)))
        for n, a in zip(self.names, args): given[n] = a
        for k, a in kw.items():
            if k not in self.names or k in given: raise TypeError("'%s' is an invalid keyword argument" % k)
            given[k] = a
        for n in self.req:
            if n not in given: raise TypeError('function missing required argument %r' % n)
        env = {}
        H = self.hooks
        for a in self.order:
            if a not in self.args: continue
            v = self.vars[a]
            if 'dimension' in v:
                dims = []
                for dexp in v['dimension']:
                    if dexp in ('*', ':'): dims.append(-1); continue
                    try: dims.append(int(self.cint.expr(dexp, env)))
                    except Inconclusive as e:
                        if 'C name' in str(e): dims.append(-1)
                        else: raise
                if a in self.hid:
                    if any(d < 0 for d in dims): raise F2pyError('failed to create intent(cache|hide)|optional array')
                    zero = 0 if self.typ(a) != 'real' else Fraction(0)
                    if Wrapper.unset_outputs and a in self.outs: zero = rt.UNDEF
                    arr = ArrArg([zero]*rt.prod(dims), dims, None, self.typ(a))
                else:
                    src = given[a]
                    cshape, flat, share = H.to_flat(src, self.typ(a), 'c' in v.get('intent', []))
                    dims2 = fix_dims(cshape, dims)
                    arr = ArrArg(flat, dims2, src if share else None, self.typ(a))
                env[a] = arr
            else:
                if a in self.hid:
                    val = self.cint.expr(v['='], env) if '=' in v else 0
                else:
                    val = given.get(a)
                    if a in self.opt and val is None:
                        val = self.cint.expr(v['='], env) if '=' in v else 0
                    else:
                        val = H.to_real(val) if self.typ(a) == 'real' else H.to_int(val)
                if self.typ(a) == 'real':
                    if _isint(val): val = Fraction(int(val))
                elif self.typ(a) in ('integer', 'logical'):
                    val = val if _isint(val) else int(val)
                    val = ((int(val) + 2**31) % 2**32) - 2**31
                env[a] = val
            for c in v.get('check', []):
                if not CInterp.truth(self.cint.expr(c, env)):
                    raise F2pyError('(%s) failed for %s: %s' % (c, a, self.name))
        actual = []
        for a in self.args:
            x = env[a]
            if isinstance(x, ArrArg):
                x = rt.FArr(x.flat_, 0, (1,), (len(x.flat_),), (1,), 0, len(x.flat_), a)
            elif self.typ(a) == 'logical': x = bool(x)
            actual.append(x)
        res, souts = self.prog.call(self.unit, *actual)
        from . import fort
        sc = dict(zip(fort.out_scalars(self.unit), souts))
        ret = []
        pos = dict(zip(self.args, self.unit.dummies))
        for a in self.args:
            x = env[a]
            if isinstance(x, ArrArg) and x.src is not None:
                for i, (o, n) in enumerate(zip(x.orig, x.flat_)):
                    if o is not n: H.write_back(x.src, i, n)
        for a in self.outs:
            x = env[a]
            if isinstance(x, ArrArg):
                if Wrapper.unset_outputs:
                    for i, v in enumerate(x.flat_):
                        if v is rt.UNDEF: raise ModelFault('unset', 'element %d of output %s of %s is never set' % (i, a, self.name))
                ret.append(H.from_flat(x.flat_, x.shape, x.kind, 'c' in self.vars[a].get('intent', [])))
            else:
                val = sc.get(pos[a], x)
                if val is rt.UNDEF: raise ModelFault('uninit', 'output %s of %s is never set' % (a, self.name))
                if self.typ(a) == 'real': val = Sym.const(val)
                elif self.typ(a) == 'logical': val = int(bool(val))
                ret.append(val)
        if not ret: return None
        return ret[0] if len(ret) == 1 else tuple(ret)


class PyfModule(object):
    """Stand-in for the extension module igakit.igalib."""
    def __init__(self, pyf_path, prog, hooks):
        self.__name__ = 'igakit.igalib'
        tree = read_pyf(pyf_path)
        top = tree[0]
        self.cint = CInterp()
        for key in ('f2pyenhancements',):
            uc = top.get(key, {}).get('usercode')
            if uc:
                for t in (uc if isinstance(uc, list) else [uc]):
                    self.cint.load(t.strip().strip("'"))
        if isinstance(top.get('usercode'), str): self.cint.load(top['usercode'].strip("'"))
        self.error = F2pyError
        self.wrappers = {}
        self._find(top, prog, hooks)

    def _find(self, b, prog, hooks):
        for m in b.get('body', []):
            if m.get('block') == 'module':
                ns = type('fortranmodule', (), {})()
                for sub in m['body']:
                    w = Wrapper(m['name'], sub, prog, self.cint, hooks)
                    setattr(ns, sub['name'], w)
                    self.wrappers[m['name'] + '.' + sub['name']] = w
                setattr(self, m['name'], ns)
            else: self._find(m, prog, hooks)
