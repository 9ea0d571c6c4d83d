"""Translator from the Fortran 90 subset used by igalib.f90 (and what refactorings of it are
likely to use) to Python functions over engine.fortrt values.  Regenerated from the source file
on every run; an unsupported construct raises Unsupported when the procedure is called."""
import re, struct
from fractions import Fraction
from . import fortrt
from .sym import Inconclusive

class Unsupported(Inconclusive): pass

# ------------------------------------------------------------------ lexing

TOK = re.compile(r"""
  (?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
 |(?P<num>(?:\d+\.(?!\s*(?:and|or|not|eqv|neqv|eq|ne|lt|le|gt|ge)\s*\.)\d*|\.\d+|\d+)(?:[ed][+-]?\d+)?(?:_\w+)?)
 |(?P<dot>\.(?:and|or|not|eqv|neqv|eq|ne|lt|le|gt|ge|true|false)\.(?:_\w+)?)
 |(?P<name>[a-z_]\w*)
 |(?P<op>\*\*|==|/=|<=|>=|=>|::|//|\(/|/\)|[-+*/()<>=,:%\[\]])
 |(?P<ws>\s+)
""", re.X)

def tokenize(s):
    out = []; i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise Unsupported('fortran token %r' % s[i:i+20])
        k = m.lastgroup
        if k != 'ws': out.append((k, m.group()))
        i = m.end()
    return out

def logical_lines(text):
    """Yield (line number, statement text), lower-cased outside strings."""
    out = []
    cur = ''; start = 0
    for ln, raw in enumerate(text.split('\n'), 1):
        s = ''; q = None
        for ch in raw:
            if q:
                s += ch
                if ch == q: q = None
            elif ch in '\'"': q = ch; s += ch
            elif ch == '!': break
            else: s += ch.lower()
        s = s.strip()
        if not s: continue
        if not cur: start = ln
        if s.startswith('&') and cur: s = s[1:].lstrip()
        if s.endswith('&'):
            cur += s[:-1] + ' '
            continue
        cur += s
        # split on ; outside strings
        part = ''; q = None
        for ch in cur:
            if q:
                part += ch
                if ch == q: q = None
            elif ch in '\'"': q = ch; part += ch
            elif ch == ';':
                if part.strip(): out.append((start, part.strip()))
                part = ''
            else: part += ch
        if part.strip(): out.append((start, part.strip()))
        cur = ''
    return out

# ------------------------------------------------------------------ expressions (AST)
# nodes: ('num',text) ('log',bool) ('str',s) ('name',n) ('app',n,args) ('bin',op,a,b) ('un',op,a)
#        ('acons',items) ('implied',items,var,lo,hi,st) ('slice',lo,hi,st) ('kw',name,e)

class P(object):
    def __init__(self, toks): self.t = toks; self.i = 0
    def peek(self, k=0): return self.t[self.i+k][1] if self.i+k < len(self.t) else None
    def kind(self, k=0): return self.t[self.i+k][0] if self.i+k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, s):
        if self.kind() != 'str' and self.peek() == s: self.i += 1; return True
        return False
    def expect(self, s):
        if not self.accept(s): raise Unsupported('expected %r at %r' % (s, self.t[self.i:self.i+6]))
    def end(self): return self.i >= len(self.t)

    def expr(self): return self.l_eqv()
    def _left(self, sub, ops):
        a = sub()
        while self.kind() in ('op', 'dot') and self.peek() in ops:
            op = self.next()[1]
            a = ('bin', ops[op], a, sub())
        return a
    def l_eqv(self): return self._left(self.l_or, {'.eqv.': 'eqv', '.neqv.': 'neqv'})
    def l_or(self): return self._left(self.l_and, {'.or.': 'or'})
    def l_and(self): return self._left(self.l_not, {'.and.': 'and'})
    def l_not(self):
        if self.kind() == 'dot' and self.peek() == '.not.':
            self.next(); return ('un', 'not', self.l_not())
        return self.l_rel()
    REL = {'==': 'eq', '/=': 'ne', '<': 'lt', '<=': 'le', '>': 'gt', '>=': 'ge',
           '.eq.': 'eq', '.ne.': 'ne', '.lt.': 'lt', '.le.': 'le', '.gt.': 'gt', '.ge.': 'ge'}
    def l_rel(self): return self._left(self.l_cat, self.REL)
    def l_cat(self): return self._left(self.l_add, {'//': 'cat'})
    def l_add(self):
        if self.peek() in ('+', '-') and self.kind() == 'op':
            op = self.next()[1]
            a = self.l_mul()
            if op == '-': a = ('un', 'neg', a)
        else: a = self.l_mul()
        while self.kind() == 'op' and self.peek() in ('+', '-'):
            op = self.next()[1]
            a = ('bin', {'+': 'add', '-': 'sub'}[op], a, self.l_mul())
        return a
    def l_mul(self): return self._left(self.l_pow, {'*': 'mul', '/': 'div'})
    def l_pow(self):
        a = self.primary()
        if self.kind() == 'op' and self.peek() == '**':
            self.next()
            if self.peek() in ('-', '+'):
                op = self.next()[1]
                b = self.l_pow()
                if op == '-': b = ('un', 'neg', b)
            else: b = self.l_pow()
            return ('bin', 'pow', a, b)
        return a
    def primary(self):
        k, v = self.next()
        if k == 'num': return ('num', v)
        if k == 'str': return ('str', v[1:-1])
        if k == 'dot' and v.startswith('.true.'): return ('log', True)
        if k == 'dot' and v.startswith('.false.'): return ('log', False)
        if v == '(':
            e = self.expr()
            self.expect(')')
            return ('par', e)
        if v in ('[', '(/'):
            close = ']' if v == '[' else '/)'
            items = []
            # optional type-spec ::
            j = self.i; depth = 0; ts = False
            while j < len(self.t):
                w = self.t[j][1]
                if w in ('(', '[', '(/'): depth += 1
                elif w in (')', ']', '/)'):
                    if depth == 0: break
                    depth -= 1
                elif w == '::' and depth == 0: ts = True; break
                j += 1
            if ts: self.i = j+1
            while not self.accept(close):
                items.append(self.ac_item())
                self.accept(',')
            return ('acons', items)
        if k == 'name':
            e = ('name', v)
            while self.peek() == '(' and self.kind() == 'op':
                self.next()
                e = ('app', e[1], self.args()) if e[0] == 'name' else ('app2', e, self.args())
            if self.peek() == '%': raise Unsupported('derived types')
            return e
        raise Unsupported('expression at %r' % (v,))
    def ac_item(self):
        if self.peek() == '(':
            # implied do?  ( items , v = lo, hi [,st] )
            save = self.i
            try:
                self.next()
                items = [self.ac_item()]
                while self.accept(','):
                    if self.kind() == 'name' and self.peek(1) == '=':
                        var = self.next()[1]; self.next()
                        lo = self.expr(); self.expect(','); hi = self.expr()
                        st = self.expr() if self.accept(',') else None
                        self.expect(')')
                        return ('implied', items, var, lo, hi, st)
                    items.append(self.ac_item())
            except Unsupported: pass
            self.i = save
        return self.expr()
    def args(self):
        """Actual arguments / subscripts up to ')'."""
        out = []
        if self.accept(')'): return out
        while True:
            if self.kind() == 'name' and self.peek(1) == '=' :
                n = self.next()[1]; self.next()
                out.append(('kw', n, self.expr()))
            elif self.peek() == ':' or self.peek() == '::':
                out.append(self.slice_(None))
            else:
                e = self.expr()
                if self.peek() in (':', '::'): e = self.slice_(e)
                out.append(e)
            if self.accept(')'): return out
            self.expect(',')
    def slice_(self, lo):
        hi = st = None
        if self.accept('::'):
            st = self.expr()
            return ('slice', lo, None, st)
        self.expect(':')
        if self.peek() not in (',', ')', ':'): hi = self.expr()
        if self.accept(':'): st = self.expr()
        return ('slice', lo, hi, st)

# ------------------------------------------------------------------ program units

class Var(object):
    def __init__(self, name, t=None):
        self.name = name; self.t = t; self.dims = None; self.intent = None
        self.optional = False; self.param = None; self.init = None; self.dummy = False
        self.alloc = False; self.assumed = False; self.py = 'v_' + name; self.kind = None; self.save = False
    @property
    def rank(self): return len(self.dims) if self.dims else 0

class Unit(object):
    def __init__(self, kind, name, parent):
        self.kind, self.name, self.parent = kind, name, parent
        self.dummies = []; self.result = None; self.vars = {}; self.uses = []
        self.procs = {}; self.body = []; self.prefix = ''; self.line = 0; self.rtype = None
        self.implicit_none = False
        self.elemental = False
    def qual(self):
        return (self.parent.qual() + '.' if self.parent else '') + self.name

TYPE = re.compile(r'^(integer|real|logical|double\s*precision|character|complex|type)\b')
END = re.compile(r'^end\s*(subroutine|function|module|program|do|if|select|where|forall|associate|block|interface)?\b\s*(\w+)?$')

def parse(text):
    lines = logical_lines(text)
    mods = {}
    pos = [0]
    def unit(u):
        """Parse specification part, body and contained procedures up to the matching end."""
        while pos[0] < len(lines):
            ln, s = lines[pos[0]]; pos[0] += 1
            m = END.match(s)
            if m and (m.group(1) in (None, 'subroutine', 'function', 'module', 'program')) and s.replace(' ', '') != 'enddo':
                return u
            if s == 'contains': continue
            h = header(s, u)
            if h is not None:
                h.line = ln
                unit(h)
                u.procs[h.name] = h
                continue
            u.body.append((ln, s))
        return u
    def header(s, parent):
        m = re.match(r'^((?:(?:pure|elemental|recursive|impure|integer(?:\s*\([^)]*\))?|real(?:\s*\([^)]*\))?|logical(?:\s*\([^)]*\))?|double\s*precision)\s+)*)(subroutine|function)\s+(\w+)\s*(\(.*)?$', s)
        if not m: return None
        u = Unit(m.group(2), m.group(3), parent)
        u.prefix = m.group(1)
        u.elemental = 'elemental' in u.prefix
        rest = m.group(4) or '()'
        p = P(tokenize(rest))
        p.expect('(')
        while not p.accept(')'):
            u.dummies.append(p.next()[1]); p.accept(',')
        if u.kind == 'function':
            u.result = u.name
            if p.peek() == 'result':
                p.next(); p.expect('('); u.result = p.next()[1]; p.expect(')')
            m2 = re.search(r'(integer|real|logical|double\s*precision)', u.prefix)
            if m2: u.rtype = m2.group(1)
        return u
    while pos[0] < len(lines):
        ln, s = lines[pos[0]]; pos[0] += 1
        m = re.match(r'^module\s+(\w+)$', s)
        if m and m.group(1) != 'procedure':
            u = Unit('module', m.group(1), None)
            u.line = ln
            mods[u.name] = unit(u)
            continue
        h = header(s, None)
        if h is not None:
            h.line = ln
            unit(h)
            mods.setdefault('', Unit('module', '', None)).procs[h.name] = h
            h.parent = mods['']
            continue
        raise Unsupported('top-level statement %r' % s)
    return mods

def split_decl(u, mods_param):
    """Consume the specification statements of a unit into u.vars; return executable statements."""
    ex = []
    spec = True
    for ln, s in u.body:
        if spec:
            if s.startswith('use ') or s.startswith('use,'):
                m = re.match(r'^use\s*(?:,\s*intrinsic)?\s*(?:::)?\s*(\w+)\s*(?:,(.*))?$', s)
                only = None; ren = {}
                rest = (m.group(2) or '').strip()
                if rest:
                    mo = re.match(r'^only\s*:(.*)$', rest)
                    items = (mo.group(1) if mo else rest).split(',')
                    if mo: only = []
                    for it in items:
                        it = it.strip()
                        if '=>' in it:
                            a, b = [x.strip() for x in it.split('=>')]
                            ren[a] = b
                        elif only is not None and it: only.append(it)
                u.uses.append((m.group(1), only, ren)); continue
            if s.startswith('implicit '):
                u.implicit_none = True; continue
            if re.match(r'^(public|private|save|external|intrinsic)\b', s): continue
            if TYPE.match(s) and not re.match(r'^(real|integer|logical)\s*\(.*\)\s*=', s):
                decl(u, s); continue
            m = re.match(r'^(dimension|parameter|optional|intent\s*\(\s*\w+\s*\)|allocatable)\b\s*(.*)$', s)
            if m:
                attr_stmt(u, m.group(1), m.group(2)); continue
            spec = False
        ex.append((ln, s))
    return ex

def attr_stmt(u, attr, rest):
    p = P(tokenize(rest.lstrip(': ')))
    if attr == 'parameter':
        p.expect('(')
        while not p.accept(')'):
            n = p.next()[1]; p.expect('=')
            u.vars.setdefault(n, Var(n)).param = p.expr()
            p.accept(',')
        return
    while not p.end():
        n = p.next()[1]
        v = u.vars.setdefault(n, Var(n))
        if p.accept('('): v.dims = dimlist(p)
        if attr == 'optional': v.optional = True
        elif attr.startswith('intent'): v.intent = re.sub(r'\s', '', attr)[7:-1]
        elif attr == 'allocatable': v.alloc = True
        p.accept(',')

def dimlist(p):
    """dims up to ')': list of (lo, hi) expressions; hi None = assumed shape; hi '*' assumed size."""
    out = []
    while True:
        if p.accept(':'): out.append((None, None))
        elif p.accept('*'): out.append((None, '*'))
        else:
            a = p.expr()
            if p.accept(':'):
                if p.accept('*'): out.append((a, '*'))
                elif p.peek() in (',', ')'): out.append((a, None))
                else: out.append((a, p.expr()))
            else: out.append((None, a))
        if p.accept(')'): return out
        p.expect(',')

def decl(u, s):
    p = P(tokenize(s))
    t = p.next()[1]
    if t == 'double' or t == 'doubleprecision':
        if t == 'double': p.expect('precision')
        t = 'real'; kind = ('num', '8')
    else:
        kind = None
        if p.accept('*'): kind = ('num', p.next()[1])
        elif p.peek() == '(' :
            p.next()
            if p.peek() == 'kind' and p.peek(1) == '=': p.next(); p.next()
            if t == 'character':
                d = 1
                while d:
                    w = p.next()[1]
                    if w == '(': d += 1
                    elif w == ')': d -= 1
            else:
                kind = p.expr(); p.expect(')')
    code = {'integer': 'i', 'real': 'r', 'logical': 'l', 'character': 'c'}.get(t)
    if code is None: raise Unsupported('type %s' % t)
    attrs = dict(dims=None, intent=None, optional=False, param=False, alloc=False, save=False)
    while p.accept(','):
        a = p.next()[1]
        if a == 'dimension': p.expect('('); attrs['dims'] = dimlist(p)
        elif a == 'intent':
            p.expect('(')
            x = ''
            while not p.accept(')'): x += p.next()[1]
            attrs['intent'] = x
        elif a == 'optional': attrs['optional'] = True
        elif a == 'parameter': attrs['param'] = True
        elif a == 'allocatable': attrs['alloc'] = True
        elif a in ('target', 'contiguous', 'value', 'public', 'private'): pass
        elif a == 'save': attrs['save'] = True
        else: raise Unsupported('attribute %s' % a)
    p.accept('::')
    while not p.end():
        n = p.next()[1]
        v = u.vars.get(n) or Var(n)
        u.vars[n] = v
        v.t = code
        v.kind = kind
        v.dims = attrs['dims'] or v.dims
        v.intent = attrs['intent'] or v.intent
        v.optional = v.optional or attrs['optional']; v.alloc = v.alloc or attrs['alloc']
        v.save = attrs['save']
        if p.accept('('): v.dims = dimlist(p)
        if p.accept('*'): p.next()
        if p.accept('='):
            e = p.expr()
            if attrs['param']: v.param = e
            else: v.init = e; v.save = True
        p.accept(',')

# ------------------------------------------------------------------ code generation

class E(object):
    __slots__ = ('t', 'rank', 'c', 'des')
    def __init__(self, t, rank, c, des=None): self.t, self.rank, self.c, self.des = t, rank, c, des

INTRIN = set('''abs sqrt sum matmul transpose epsilon min max mod modulo size shape lbound ubound maxval
minval dot_product real dble int floor nint ceiling present reshape spread product any all count merge tiny huge
sign norm2 cshift kind maxloc minloc allocated isnan dfloat float eoshift pack findloc'''.split())

class Program(object):
    def __init__(self, text):
        self.mods = parse(text)
        self.ns = {k: getattr(fortrt, k) for k in dir(fortrt) if not k.startswith('__')}
        self.K = []
        self.ns['K'] = self.K
        self.ns['_call'] = self.call_hook
        self.cache = {}
        self.prepared = set()
        self.called = set()
        self.src = {}

    def call_hook(self, *a): raise Unsupported('call')

    def prepare(self, u):
        if id(u) in self.prepared: return
        self.prepared.add(id(u))
        u.ex = split_decl(u, self.mods)
        for d in u.dummies:
            v = u.vars.get(d)
            if v is None: v = u.vars[d] = Var(d)
            v.dummy = True
            if v.t is None: v.t = 'i' if d[0] in 'ijklmn' else 'r'
        if u.kind == 'function':
            v = u.vars.get(u.result)
            if v is None:
                v = u.vars[u.result] = Var(u.result)
                t = (u.rtype or ('integer' if u.result[0] in 'ijklmn' else 'real'))
                v.t = {'integer': 'i', 'logical': 'l'}.get(t, 'r')
        for v in u.vars.values():
            if v.dims and v.dummy and any(h is None or h == '*' for _, h in v.dims): v.assumed = True

    def get(self, mod, name):
        u = self.mods[mod.lower()].procs.get(name.lower())
        if u is None: raise Unsupported('no procedure %s.%s' % (mod, name))
        return u

    def func(self, u):
        """Python callable for a module procedure (translated on first use)."""
        k = id(u)
        if k not in self.cache:
            self.cache[k] = None
            g = Gen(self, u, None)
            code = g.procedure()
            self.src[u.qual()] = code
            ns = self.ns
            loc = {}
            exec(compile(code, '<fortran %s>' % u.qual(), 'exec'), ns, loc)
            self.cache[k] = loc[g.pyname]
        return self.cache[k]

    def call(self, u, *args):
        self.called.add(u.qual())
        return self.func(u)(*args)


def signature(u):
    return [u.vars[d] for d in u.dummies]

def out_scalars(u):
    return [d for d in u.dummies if u.vars[d].rank == 0 and u.vars[d].intent not in ('in',)]


class Gen(object):
    def __init__(self, prog, u, host):
        self.prog, self.u, self.host = prog, u, host
        self.lines = []
        self.ind = 1
        self.tmp = 0
        self.pyname = 'p_' + u.name
        prog.prepare(u)
        self.nonlocals = set()
        self.loops = []
        self.subst = {}
        self.blockvars = []

    # name resolution: returns ('var', Var, gen) or ('proc', Unit) or None
    def lookup(self, n):
        for bv in reversed(self.blockvars):
            if n in bv: return ('var', bv[n], self)
        v = self.u.vars.get(n)
        if v is not None: return ('var', v, self)
        if n in self.u.procs: return ('proc', self.u.procs[n])
        r = self.used(self.u, n)
        if r: return r
        if self.host is not None: return self.host.lookup(n)
        # module level
        m = self.u.parent
        while m is not None:
            self.prog.prepare(m)
            if n in m.vars: return ('mvar', m.vars[n], m)
            if n in m.procs: return ('proc', m.procs[n])
            r = self.used(m, n)
            if r: return r
            m = m.parent
        if self.u.name == n: return ('proc', self.u)
        return None

    def used(self, u, n):
        for mod, only, ren in u.uses:
            M = self.prog.mods.get(mod)
            if M is None:
                if mod in ('iso_fortran_env', 'iso_c_binding'):
                    if n in ('real64', 'c_double', 'int32', 'c_int'):
                        v = Var(n, 'i'); v.param = ('num', '8' if n in ('real64', 'c_double') else '4')
                        return ('mvar', v, Unit('module', mod, None))
                    continue
                raise Unsupported('module %s' % mod)
            target = None
            if n in ren: target = ren[n]
            elif n in ren.values(): continue
            elif only is None or n in only: target = n
            if target is None: continue
            self.prog.prepare(M)
            if target in M.procs: return ('proc', M.procs[target])
            if target in M.vars: return ('mvar', M.vars[target], M)
            r = self.used(M, target)
            if r: return r
        return None

    def emit(self, s): self.lines.append('  '*self.ind + s)
    def new(self):
        self.tmp += 1
        return '_t%d' % self.tmp

    # ---------------- procedure
    def procedure(self):
        u = self.u
        args = ', '.join('v_' + d for d in u.dummies)
        body_gen_lines = self.lines
        # parameters and declarations
        self.emit('_co = []')
        dummies = [u.vars[d] for d in u.dummies]
        for v in u.vars.values():
            if v.param is not None:
                pass
        for v in self.declorder():
            if v.param is not None:
                e = self.expr(v.param)
                self.emit('%s = %s' % (v.py, self.coerce(v.t, e)))
            elif v.dummy:
                if v.rank:
                    pre = ''
                    if v.optional:
                        self.emit('if %s is not ABSENT:' % v.py); self.ind += 1
                    if v.assumed:
                        if any(h == '*' for _, h in v.dims):
                            lbs = ','.join(self.dim(l) if l is not None else '1' for l, _ in v.dims)
                            ubs = [self.dim(h) if h != '*' else None for _, h in v.dims]
                            inner = '*'.join('(max(0,(%s)-(%s)+1))' % (ubs[i], self.dim(v.dims[i][0]) if v.dims[i][0] else '1') for i in range(len(ubs)-1)) or '1'
                            last = '(%s.size//max(1,%s))' % (v.py, inner)
                            lo = self.dim(v.dims[-1][0]) if v.dims[-1][0] else '1'
                            ub = ','.join(ubs[:-1] + ['(%s)+%s-1' % (lo, last)])
                            self.emit('%s = bind(%s, (%s,), (%s,), %r, _co)' % (v.py, v.py, lbs, ub, v.name))
                        else:
                            lbs = ','.join(self.dim(l) if l is not None else '1' for l, _ in v.dims)
                            self.emit('%s = bind_assumed(%s, (%s,), %r, _co)' % (v.py, v.py, lbs, v.name))
                    else:
                        lb, ub = self.bounds(v)
                        self.emit('%s = bind(%s, %s, %s, %r, _co)' % (v.py, v.py, lb, ub, v.name))
                    if v.optional: self.ind -= 1
                elif v.intent == 'out':
                    if v.optional:
                        self.emit('if %s is not ABSENT: %s = UNDEF' % (v.py, v.py))
                    else:
                        self.emit('%s = UNDEF' % v.py)
            elif v.rank:
                if v.alloc: self.emit('%s = None' % v.py)
                else:
                    lb, ub = self.bounds(v)
                    self.emit('%s = FArr.new(%s, %s, %r)' % (v.py, lb, ub, v.name))
                    if v.init is not None:
                        self.emit('assign(%s, %s)' % (v.py, self.expr(v.init).c))
            else:
                if v.init is not None:
                    self.emit('%s = %s' % (v.py, self.coerce(v.t, self.expr(v.init))))
                else:
                    self.emit('%s = UNDEF' % v.py)
        # contained procedures
        for q in u.procs.values():
            g = Gen(self.prog, q, self)
            code = g.procedure()
            for l in code.split('\n'): self.emit(l)
        self.emit('try:'); self.ind += 1
        self.block(u.ex)
        self.emit('pass')
        self.ind -= 1
        self.emit('except _Ret: pass')
        self.emit('finally:')
        self.emit('  for _c in _co: _c()')
        outs = ['v_' + d for d in out_scalars(u)]
        res = u.vars[u.result].py if u.kind == 'function' else 'None'
        self.emit('return (%s, [%s])' % (res, ', '.join(outs)))
        head = ['def %s(%s):' % (self.pyname, args)]
        if self.nonlocals: head.append('  nonlocal %s' % ', '.join(sorted(self.nonlocals)))
        return '\n'.join(head + self.lines)

    def declorder(self):
        """Variables ordered so that parameters and scalar dummies precede the bounds that use them."""
        vs = list(self.u.vars.values())
        return ([v for v in vs if v.param is not None and not self.usesdummy(v)] +
                [v for v in vs if v.param is None and v.rank == 0] +
                [v for v in vs if v.rank and v.param is None and v.dummy] +
                [v for v in vs if v.rank and v.param is None and not v.dummy] )
    def usesdummy(self, v): return False

    def dim(self, e): return 'dimcheck(%s)' % self.expr(e).c if e[0] != 'num' else self.expr(e).c
    def bounds(self, v):
        lb = ', '.join('1' if l is None else self.dim(l) for l, _ in v.dims)
        ub = ', '.join(self.dim(h) for _, h in v.dims)
        return '(%s,)' % lb, '(%s,)' % ub

    def const(self, val):
        self.prog.K.append(val)
        return 'K[%d]' % (len(self.prog.K)-1)

    # ---------------- statements
    def block(self, stmts):
        i = 0
        while i < len(stmts):
            i = self.stmt(stmts, i)

    def find_end(self, stmts, i, opens, closes):
        """Index of the statement closing the construct opened at i."""
        depth = 0
        for j in range(i, len(stmts)):
            s = stmts[j][1]
            if opens(s): depth += 1
            elif closes(s):
                depth -= 1
                if depth == 0: return j
        raise Unsupported('unterminated construct at line %d' % stmts[i][0])

    def stmt(self, stmts, i):
        ln, s = stmts[i]
        label = None
        m = re.match(r'^(\w+)\s*:\s*(do\b|if\s*\(|select\b|block\b|associate\b|where\b|forall\b)(.*)$', s)
        if m and not s.startswith('case'):
            label = m.group(1); s = (m.group(2) + m.group(3))
            stmts = list(stmts); stmts[i] = (ln, s)
        strip_label = lambda t: re.sub(r'^\w+\s*:\s*(?=(do|if|select|block|associate|where|forall)\b)', '', t)
        m = re.match(r'^if\s*\(', s)
        if m:
            p = P(tokenize(s)); p.next(); p.next()
            cond = p.expr(); p.expect(')')
            if p.peek() == 'then' and p.i == len(p.t)-1:
                isif = lambda t: bool(re.match(r'^if\s*\(.*\)\s*then$', strip_label(t)))
                isend = lambda t: bool(re.match(r'^end\s*if\b', t))
                j = self.find_end(stmts, i, isif, isend)
                # split branches
                parts = []; depth = 0; cur = []; head = cond
                for k in range(i+1, j):
                    t = stmts[k][1]
                    if isif(t): depth += 1
                    elif isend(t): depth -= 1
                    if depth == 0:
                        m2 = re.match(r'^else\s*if\s*(\(.*\))\s*then', t)
                        if m2:
                            parts.append((head, cur)); cur = []
                            q = P(tokenize(m2.group(1))); q.next(); head = q.expr()
                            continue
                        if re.match(r'^else\b', t):
                            parts.append((head, cur)); cur = []; head = None
                            continue
                    cur.append(stmts[k])
                parts.append((head, cur))
                ind0 = self.ind
                for n, (h, b) in enumerate(parts):
                    if h is not None:
                        if n: self.emit('else:'); self.ind += 1
                        self.emit('if %s:' % self.expr(h).c)
                    else: self.emit('else:')
                    self.ind += 1
                    self.block(b); self.emit('pass')
                    self.ind -= 1
                self.ind = ind0
                return j+1
            # one-line if
            self.emit('if %s:' % self.expr(cond).c)
            self.ind += 1
            rest = [(ln, untok(p.t[p.i:]))]
            self.block(rest)
            self.ind -= 1
            return i+1
        if re.match(r'^do\b', s) and not re.match(r'^do\s*=', s):
            isdo = lambda t: bool(re.match(r'^do\b', strip_label(t))) and not re.match(r'^do\s*=', t)
            isend = lambda t: bool(re.match(r'^end\s*do\b', t))
            j = self.find_end(stmts, i, isdo, isend)
            body = stmts[i+1:j]
            self.do(s, body, label)
            return j+1
        if re.match(r'^select\s*case\b', s):
            isel = lambda t: bool(re.match(r'^select\s*case\b', strip_label(t)))
            isend = lambda t: bool(re.match(r'^end\s*select\b', t))
            j = self.find_end(stmts, i, isel, isend)
            self.select(s, stmts[i+1:j])
            return j+1
        m = re.match(r'^forall\s*\(', s)
        if m:
            p = P(tokenize(s)); p.next(); p.next()
            ctl, mask = self.control(p)
            if p.end():
                isf = lambda t: bool(re.match(r'^forall\s*\(', t)) and t.rstrip().endswith(')')
                isend = lambda t: bool(re.match(r'^end\s*forall\b', t))
                j = self.find_end(stmts, i, isf, isend)
                for b in stmts[i+1:j]: self.forall(ctl, mask, b[1])
                return j+1
            self.forall(ctl, mask, untok(p.t[p.i:]))
            return i+1
        m = re.match(r'^where\s*\(', s)
        if m:
            p = P(tokenize(s)); p.next(); p.next()
            mask = p.expr(); p.expect(')')
            if p.end():
                isw = lambda t: bool(re.match(r'^where\s*\(', t)) and P_ends(t)
                isend = lambda t: bool(re.match(r'^end\s*where\b', t))
                j = self.find_end(stmts, i, isw, isend)
                t = self.new(); self.emit('%s = %s' % (t, self.expr(mask).c))
                rest = self.new(); self.emit('%s = amap(lnot, %s)' % (rest, t))
                for b in stmts[i+1:j]:
                    m = re.match(r'^else\s*where\s*(\(.*\))?', b[1])
                    if m and m.group(1):
                        q = P(tokenize(m.group(1))); q.next(); e = self.expr(q.expr())
                        t = self.new(); new = self.new()
                        self.emit('%s = wmask(%s, %s)' % (t, rest, e.c))
                        self.emit('%s = wrest(%s, %s)' % (new, rest, t))
                        rest = new
                    elif m: t = rest
                    else: self.wherestmt(t, b[1], False)
                return j+1
            t = self.new(); self.emit('%s = %s' % (t, self.expr(mask).c))
            self.wherestmt(t, untok(p.t[p.i:]), False)
            return i+1
        if re.match(r'^associate\s*\(', s):
            isa = lambda t: bool(re.match(r'^associate\s*\(', strip_label(t)))
            isend = lambda t: bool(re.match(r'^end\s*associate\b', t))
            j = self.find_end(stmts, i, isa, isend)
            p = P(tokenize(s)); p.next(); p.next()
            sub = {}; bv = {}
            while True:
                n = p.next()[1]; p.expect('=>')
                a = p.i; x = p.expr(); toks = p.t[a:p.i]
                e = self.expr(x)
                if x[0] == 'name' or (x[0] == 'app' and e.rank == 0 and self.isvar(x[1])):
                    sub[n] = toks               # a variable or an array element: the object itself
                else:
                    vv = Var(n, e.t); self.tmp += 1; vv.py = 'a%d_%s' % (self.tmp, n)
                    vv.dims = [(None, None)]*e.rank
                    self.emit('%s = %s' % (vv.py, e.c))
                    bv[n] = vv
                if p.accept(')'): break
                p.expect(',')
            body = []
            for l2, t in stmts[i+1:j]:
                out = []
                for tk in tokenize(t):
                    if tk[0] == 'name' and tk[1] in sub: out += sub[tk[1]]
                    else: out.append(tk)
                body.append((l2, untok(out)))
            self.blockvars.append(bv)
            self.block(body)
            self.blockvars.pop()
            return j+1
        if s == 'block':
            isb = lambda t: strip_label(t) == 'block'
            isend = lambda t: bool(re.match(r'^end\s*block\b', t))
            j = self.find_end(stmts, i, isb, isend)
            fake = Unit('block', 'block', None)
            fake.body = stmts[i+1:j]
            ex = split_decl(fake, None)
            self.tmp += 1
            for v in fake.vars.values(): v.py = 'b%d_%s' % (self.tmp, v.name)
            self.blockvars.append(fake.vars)
            for v in fake.vars.values():
                if v.param is not None: self.emit('%s = %s' % (v.py, self.coerce(v.t, self.expr(v.param))))
                elif v.rank:
                    lb, ub = self.bounds(v)
                    self.emit('%s = FArr.new(%s, %s, %r)' % (v.py, lb, ub, v.name))
                else: self.emit('%s = UNDEF' % v.py)
            self.block(ex)
            self.blockvars.pop()
            return j+1
        if s == 'return': self.emit('raise _Ret'); return i+1
        m = re.match(r'^(exit|cycle)\s*(\w+)?$', s)
        if m:
            kind, lab = m.groups()
            if lab and self.loops and self.loops[-1] != lab:
                self.emit('raise %s(%r)' % ('_Exit' if kind == 'exit' else '_Cycle', lab))
            else: self.emit('break' if kind == 'exit' else 'continue')
            return i+1
        if s == 'continue': self.emit('pass'); return i+1
        m = re.match(r'^(error\s*)?stop\b\s*(.*)$', s)
        if m:
            self.emit('fstop(%r)' % m.group(2)); return i+1
        if re.match(r'^(print|write)\b', s): self.emit('pass'); return i+1
        m = re.match(r'^call\s+(\w+)\s*(\(.*)?$', s)
        if m:
            p = P(tokenize(m.group(2) or '()')); p.next()
            self.call(m.group(1), p.args())
            return i+1
        m = re.match(r'^allocate\s*\((.*)\)$', s)
        if m:
            p = P(tokenize(m.group(1)))
            while not p.end():
                n = p.next()[1]; p.expect('(')
                dims = dimlist(p)
                r = self.lookup(n)
                lb = ', '.join('1' if l is None else self.expr(l).c for l, _ in dims)
                ub = ', '.join(self.expr(h).c for _, h in dims)
                self.setname(r, 'FArr.new((%s,), (%s,), %r)' % (lb, ub, n))
                if not p.accept(','): break
            return i+1
        if re.match(r'^deallocate\b', s) or s.startswith('format'): self.emit('pass'); return i+1
        self.assignment(s)
        return i+1

    def isvar(self, n):
        r = self.lookup(n)
        return bool(r) and r[0] == 'var' and r[1].rank > 0

    def setname(self, r, code):
        if r is None or r[0] != 'var': raise Unsupported('assignment target')
        _, v, g = r
        if g is not self: self.mark_nonlocal(v, g)
        self.emit('%s = %s' % (v.py, code))

    def mark_nonlocal(self, v, g):
        h = self
        while h is not g:
            h.nonlocals.add(v.py)
            h = h.host

    def coerce(self, t, e):
        if t == 'i' and e.t == 'r': return 'r2i(%s)' % e.c
        if t == 'i': return 'chk(%s)' % e.c if not re.match(r'^-?\d+$', e.c) else e.c
        if t == 'r': return e.c
        if t == 'l': return e.c if e.c in ('True', 'False') else 'lval(%s)' % e.c
        return e.c

    def assignment(self, s):
        p = P(tokenize(s))
        if p.kind() != 'name': raise Unsupported('statement %r' % s)
        n = p.next()[1]
        subs = None
        if p.accept('('): subs = p.args()
        if not p.accept('='): raise Unsupported('statement %r' % s)
        rhs = p.expr()
        if not p.end(): raise Unsupported('statement %r' % s)
        self.store(n, subs, self.expr(rhs))

    def store(self, n, subs, e):
        r = self.lookup(n)
        if r is None:
            if self.implicit(n): r = self.lookup(n)
        if r is None or r[0] != 'var': raise Unsupported('assignment to %s' % n)
        _, v, g = r
        if g is not self and v.rank == 0: self.mark_nonlocal(v, g)
        if v.rank == 0:
            if subs is not None: raise Unsupported('subscripted scalar %s' % n)
            if e.rank: raise Unsupported('array assigned to scalar %s' % n)
            self.emit('%s = %s' % (v.py, self.coerce(v.t, e)))
            return
        conv = e.c
        if v.t == 'i' and e.t == 'r': conv = 'amap(r2i, %s)' % e.c
        if subs is None:
            if v.alloc:
                if g is not self: self.mark_nonlocal(v, g)
                self.emit('%s = allocassign(%s, %s)' % (v.py, v.py, conv))
            else: self.emit('assign(%s, %s)' % (v.py, conv))
            return
        cs, rank, vec = self.subs(subs)
        if rank == 0:
            k = len(cs)
            if k != v.rank: raise Unsupported('rank of %s' % n)
            if e.rank: raise Unsupported('array assigned to element of %s' % n)
            self.emit('%s.%s(%s, %s)' % (v.py, {1: 's1', 2: 's2'}.get(k, 'sn'),
                                         self.coerce(v.t, e), ', '.join(cs)))
        elif vec: self.emit('%s.scatter((%s,), %s)' % (v.py, ', '.join(cs), conv))
        else: self.emit('assign(%s.sec(%s), %s)' % (v.py, ', '.join(cs), conv))

    def implicit(self, n):
        if self.u.implicit_none: return False
        m = self.u.parent
        while m is not None:
            if m.implicit_none: return False
            m = m.parent
        v = Var(n, 'i' if n[0] in 'ijklmn' else 'r')
        self.u.vars[n] = v
        return True

    def subs(self, subs):
        cs = []; rank = 0; vec = False
        for x in subs:
            if x[0] == 'slice':
                cs.append('(%s, %s, %s)' % tuple('None' if y is None else self.iexpr(y) for y in x[1:]))
                rank += 1
            else:
                e = self.expr(x)
                if e.t == 'r': raise Unsupported('real subscript')
                if e.rank: rank += 1; vec = True
                cs.append(e.c)
        return cs, rank, vec

    def iexpr(self, x):
        e = self.expr(x)
        if e.t != 'i': raise Unsupported('integer expected')
        return e.c

    def do(self, s, body, label):
        p = P(tokenize(s)); p.next()
        lab = label or ('#%d' % len(self.loops))
        has_lab = label and any(re.search(r'\b(exit|cycle)\s+%s\b' % label, t) for _, t in body)
        if p.end():
            k = self.new()
            self.emit('%s = 0' % k)
            self.emit('while True:')
            self.ind += 1
            self.emit('%s += 1; iterlimit(%s)' % (k, k))
        elif p.accept('while'):
            p.expect('(')
            c = p.expr(); p.expect(')')
            k = self.new()
            self.emit('%s = 0' % k)
            self.emit('while True:')
            self.ind += 1
            self.emit('%s += 1; iterlimit(%s)' % (k, k))
            self.emit('if not (%s): break' % self.expr(c).c)
        elif p.peek() == 'concurrent' and p.peek(1) == '(':
            self.doconcurrent(p, body, lab, label, has_lab); return
        else:
            v = p.next()[1]; p.expect('=')
            lo = self.iexpr(p.expr()); p.expect(',')
            hi = self.iexpr(p.expr())
            st = self.iexpr(p.expr()) if p.accept(',') else '1'
            r = self.lookup(v)
            if r is None and self.implicit(v): r = self.lookup(v)
            if r is None or r[0] != 'var': raise Unsupported('loop variable %s' % v)
            a, b, c, k = self.new(), self.new(), self.new(), self.new()
            self.emit('%s = dimcheck(%s); %s = dimcheck(%s); %s = %s' % (a, lo, b, hi, c, st))
            self.setname(r, a)
            self.emit('for %s in trange(%s, %s, %s):' % (k, a, b, c))
            self.ind += 1
            self.setname(r, '%s + %s*%s' % (a, k, c))
        self.loops.append(lab)
        if has_lab:
            self.emit('try:'); self.ind += 1
            self.loops[-1] = '##'      # named references always raise
            self.block(body); self.emit('pass')
            self.ind -= 1
            self.emit('except _Cycle as _e:')
            self.emit('  if _e.args[0] != %r: raise' % label)
            self.emit('except _Exit as _e:')
            self.emit('  if _e.args[0] != %r: raise' % label)
            self.emit('  break')
        else:
            self.block(body); self.emit('pass')
        self.loops.pop()
        self.ind -= 1
        if 'trange' in ''.join(self.lines[-1:]) : pass
        if not (P(tokenize(s)).peek(1) in (None, 'while')):
            self.emit('else:')
            self.ind += 1
            self.setname(r, '%s + len(trange(%s, %s, %s))*%s' % (a, a, b, c, c))
            self.ind -= 1

    def control(self, p):
        """The (i = lo:hi[:step], ..., mask) list of a forall or a do concurrent."""
        ctl = []; mask = None
        if p.peek() == 'integer':
            while not p.accept('::'): p.next()
        while True:
            if p.kind() == 'name' and p.peek(1) == '=':
                v = p.next()[1]; p.next()
                lo = p.expr(); p.expect(':'); hi = p.expr()
                st = p.expr() if p.accept(':') else None
                ctl.append((v, lo, hi, st))
            else: mask = p.expr()
            if p.accept(')'): break
            p.expect(',')
        return ctl, mask

    def openctl(self, ctl, mask):
        """Nested loops over the index set; the caller restores self.ind and self.blockvars."""
        bv = {}
        rng = []
        for v, lo, hi, st in ctl:
            vv = Var(v, 'i'); self.tmp += 1; vv.py = 'f%d_%s' % (self.tmp, v)
            bv[v] = vv
            a, b, c = self.new(), self.new(), self.new()
            self.emit('%s = dimcheck(%s); %s = dimcheck(%s); %s = %s' % (
                a, self.iexpr(lo), b, self.iexpr(hi), c, self.iexpr(st) if st else '1'))
            rng.append((vv.py, a, b, c))
        self.blockvars.append(bv)
        # the first index varies fastest, as in an array
        for py, a, b, c in reversed(rng):
            k = self.new()
            self.emit('for %s in trange(%s, %s, %s):' % (k, a, b, c)); self.ind += 1
            self.emit('%s = %s + %s*%s' % (py, a, k, c))
        if mask is not None: self.emit('if not (%s): continue' % self.expr(mask).c)

    def doconcurrent(self, p, body, lab, label, has_lab):
        p.next(); p.next()
        ctl, mask = self.control(p)
        # locality: a LOCAL variable starts every iteration unset; the rest changes nothing
        local = []
        while not p.end():
            k = p.next()[1]; p.expect('(')
            if k == 'reduce': raise Unsupported('do concurrent reduce')
            for a in p.args():
                if k == 'local': local.append(a[1])
        ind0 = self.ind
        self.openctl(ctl, mask)
        for n in local:
            r = self.lookup(n)
            if r[1].rank == 0: self.setname(r, 'UNDEF')
        self.loops.append('##' if has_lab else lab)
        if has_lab:
            self.emit('try:'); self.ind += 1
            self.block(body); self.emit('pass')
            self.ind -= 1
            self.emit('except _Cycle as _e:')
            self.emit('  if _e.args[0] != %r: raise' % label)
        else:
            self.block(body); self.emit('pass')
        self.loops.pop()
        self.blockvars.pop()
        self.ind = ind0

    def select(self, s, body):
        p = P(tokenize(re.sub(r'^select\s*case', '', s)))
        p.expect('(')
        e = self.expr(p.expr())
        t = self.new()
        self.emit('%s = %s' % (t, e.c))
        if e.t == 'i': self.emit('dimcheck(%s)' % t)
        parts = []; depth = 0
        for ln, x in body:
            if re.match(r'^select\s*case\b', x): depth += 1
            elif re.match(r'^end\s*select\b', x): depth -= 1
            if depth == 0 and re.match(r'^case\b', x):
                parts.append((x, [])); continue
            parts[-1][1].append((ln, x))
        conds = []
        default = None
        for h, b in parts:
            if re.match(r'^case\s*default', h): default = b; continue
            q = P(tokenize(h)); q.next(); q.expect('(')
            cs = []
            for a in q.args():
                if a[0] == 'slice':
                    c = []
                    if a[1] is not None: c.append('%s >= %s' % (t, self.expr(a[1]).c))
                    if a[2] is not None: c.append('%s <= %s' % (t, self.expr(a[2]).c))
                    cs.append('(' + ' and '.join(c) + ')')
                else: cs.append('%s == %s' % (t, self.expr(a).c))
            conds.append((' or '.join(cs), b))
        first = True
        for c, b in conds:
            self.emit('%s %s:' % ('if' if first else 'elif', c)); first = False
            self.ind += 1; self.block(b); self.emit('pass'); self.ind -= 1
        if default is not None:
            self.emit('if True:' if first else 'else:')
            self.ind += 1; self.block(default); self.emit('pass'); self.ind -= 1

    def forall(self, ctl, mask, stmt):
        p = P(tokenize(stmt))
        n = p.next()[1]
        p.expect('('); subs = p.args(); p.expect('=')
        rhs = p.expr()
        acc = self.new()
        self.emit('%s = []' % acc)
        ind0 = self.ind
        self.openctl(ctl, mask)
        e = self.expr(rhs)
        cs, rank, vec = self.subs(subs)
        r = self.lookup(n)
        _, v, g = r
        val = ('%s.vals()' % e.c) if e.rank else e.c
        self.emit('%s.append(((%s,), %s))' % (acc, ', '.join(cs), val))
        self.blockvars.pop()
        self.ind = ind0
        k1, k2 = self.new(), self.new()
        self.emit('for %s, %s in %s:' % (k1, k2, acc))
        if rank == 0: self.emit('  %s.sn(%s, *%s)' % (v.py, k2, k1))
        elif vec: self.emit('  %s.scatter(%s, %s)' % (v.py, k1, 'FArr.of(%s)' % k2 if e.rank else k2))
        elif e.rank: self.emit('  %s.sec(*%s).setvals(%s)' % (v.py, k1, k2))
        else: self.emit('  assign(%s.sec(*%s), %s)' % (v.py, k1, k2))

    def wherestmt(self, t, s, inv):
        p = P(tokenize(s))
        n = p.next()[1]
        subs = p.args() if p.accept('(') else None
        p.expect('=')
        e = self.expr(p.expr())
        r = self.lookup(n)
        v = r[1]
        if subs is None: l = v.py
        else:
            cs, rank, vec = self.subs(subs)
            l = '%s.sec(%s)' % (v.py, ', '.join(cs))
        self.emit('wassign(%s, %s, %s, %r)' % (t, l, e.c, inv))

    # ---------------- calls
    def actuals(self, q, args):
        self.prog.prepare(q)
        m = {}
        for k, a in enumerate(args):
            if a[0] == 'kw': m[a[1]] = a[2]
            else: m[q.dummies[k]] = a
        out = []
        for d in q.dummies:
            dv = q.vars[d]
            if d not in m:
                if not dv.optional: raise Unsupported('missing argument %s of %s' % (d, q.name))
                out.append('ABSENT'); continue
            a = m[d]
            if dv.rank:
                # element of an array passed to an array dummy: sequence association
                if a[0] == 'app':
                    r = self.lookup(a[1])
                    if r and r[0] in ('var', 'mvar') and r[1].rank:
                        cs, rank, vec = self.subs(a[2])
                        if rank == 0:
                            out.append('%s.seq(%s)' % (r[1].py, ', '.join(cs))); continue
                e = self.expr(a)
                out.append(e.c)
            else:
                e = self.expr(a)
                if e.rank and not q.elemental: raise Unsupported('array passed to scalar dummy %s' % d)
                c = e.c
                if dv.t == 'i' and e.t == 'r': raise Unsupported('type mismatch in call of %s' % q.name)
                out.append(c)
        return m, out

    def procref(self, q):
        if self.is_local(q): return 'p_' + q.name
        k = 'G_' + re.sub(r'\W', '_', q.qual())
        if k not in self.prog.ns:
            prog = self.prog
            self.prog.ns[k] = lambda *a: prog.call(q, *a)
        return k
    def is_local(self, q):
        g = self
        while g is not None:
            if g.u.procs.get(q.name) is q: return True
            if g.u is q and g.host is not None: return True
            g = g.host
        return False

    def call(self, name, args):
        r = self.lookup(name)
        if not r or r[0] != 'proc': raise Unsupported('call of %s' % name)
        q = r[1]
        m, out = self.actuals(q, args)
        t = self.new()
        self.emit('%s = %s(%s)' % (t, self.procref(q), ', '.join(out)))
        for k, d in enumerate(out_scalars(q)):
            if d not in m: continue
            a = m[d]
            val = E(q.vars[d].t, 0, '%s[1][%d]' % (t, k))
            if a[0] == 'name':
                rr = self.lookup(a[1])
                if rr and rr[0] == 'var' and rr[1].param is None and not (rr[1].dummy and rr[1].intent == 'in' and q.vars[d].intent is None):
                    self.emit('if %s is not UNDEF:' % val.c)
                    self.ind += 1; self.store_raw(a[1], None, val); self.ind -= 1
                    self.emit('else:'); self.ind += 1; self.setname(rr, 'UNDEF'); self.ind -= 1
            elif a[0] == 'app':
                rr = self.lookup(a[1])
                if rr and rr[0] == 'var' and rr[1].rank: self.store_raw(a[1], a[2], val)

    def store_raw(self, n, subs, e): self.store(n, subs, e)

    # ---------------- expressions
    def expr(self, x):
        k = x[0]
        if k == 'num': return self.number(x[1])
        if k == 'log': return E('l', 0, 'True' if x[1] else 'False')
        if k == 'str': return E('c', 0, repr(x[1]))
        if k == 'par':
            e = self.expr(x[1])
            return E(e.t, e.rank, '(%s)' % e.c)
        if k == 'name': return self.name(x[1])
        if k == 'un':
            a = self.expr(x[2])
            if x[1] == 'neg':
                return E(a.t, a.rank, 'amap(neg, %s)' % a.c if a.rank else '(-%s)' % a.c)
            return E('l', a.rank, 'amap(lnot, %s)' % a.c if a.rank else 'lnot(%s)' % a.c)
        if k == 'bin': return self.binary(x)
        if k == 'app': return self.app(x)
        if k == 'acons':
            parts = []; t = None
            for it in x[1]:
                c, tt = self.acitem(it)
                parts.append(c); t = tt if t in (None, 'i') else t
            return E(t or 'i', 1, 'acons(%s)' % ', '.join(parts))
        raise Unsupported('expression %s' % k)

    def acitem(self, it):
        if it[0] != 'implied':
            e = self.expr(it)
            return e.c, e.t
        _, items, var, lo, hi, st = it
        vv = Var(var, 'i'); self.tmp += 1; vv.py = 'c%d_%s' % (self.tmp, var)
        a, b, c = self.iexpr(lo), self.iexpr(hi), (self.iexpr(st) if st else '1')
        self.blockvars.append({var: vv})
        sub = [self.acitem(i) for i in items]
        self.blockvars.pop()
        body = 'acons(%s).vals()' % ', '.join(s for s, _ in sub)
        code = '[_x for _k in trange(%s, %s, %s) for %s in [(%s)+_k*(%s)] for _x in %s]' % (a, b, c, vv.py, a, c, body)
        return code, sub[0][1]

    def number(self, s):
        kind = None
        if '_' in s: s, kind = s.split('_', 1)
        if re.match(r'^\d+$', s): return E('i', 0, s)
        d = 'd' in s
        f = Fraction(s.replace('d', 'e')) if not s.endswith('.') else Fraction(s[:-1])
        fl = float(s.replace('d', 'e'))
        if kind is not None and not d:
            if kind.isdigit(): kv = int(kind)
            else:
                r = self.lookup(kind)
                if not r or r[1].param is None: raise Unsupported('kind %s' % kind)
                kv = self.constint(r[1].param)
            d = kv == 8
            if kv not in (4, 8): raise Unsupported('kind %d' % kv)
        if not d: fl = struct.unpack('f', struct.pack('f', fl))[0]
        v = Fraction(fl)
        if v.denominator == 1: return E('r', 0, self.const(int(v)))
        return E('r', 0, self.const(v))

    def constint(self, e):
        if e[0] == 'num': return int(e[1].split('_')[0])
        if e[0] == 'app' and e[1] == 'kind':
            return 8 if 'd' in e[2][0][1] else 4
        if e[0] == 'app' and e[1] == 'selected_real_kind': return 8
        if e[0] == 'name':
            r = self.lookup(e[1])
            return self.constint(r[1].param)
        raise Unsupported('constant')

    def name(self, n):
        r = self.lookup(n)
        if r is None:
            if self.implicit(n): r = self.lookup(n)
            else: raise Unsupported('unknown name %s' % n)
        if r[0] == 'var':
            v = r[1]
            return E(v.t, v.rank, v.py, ('var', v))
        if r[0] == 'mvar':
            v = r[1]
            if v.param is None: raise Unsupported('module variable %s' % n)
            return self.expr(v.param)
        q = r[1]
        if q.kind == 'function' and q is self.u: raise Unsupported('recursive reference')
        raise Unsupported('procedure %s as a value' % n)

    def binary(self, x):
        _, op, ax, bx = x
        a, b = self.expr(ax), self.expr(bx)
        rank = max(a.rank, b.rank)
        if op in ('add', 'sub', 'mul', 'div', 'pow'):
            t = 'r' if 'r' in (a.t, b.t) else 'i'
            if a.t not in 'ir' or b.t not in 'ir': raise Unsupported('arithmetic on %s%s' % (a.t, b.t))
            f = {'add': 'add', 'sub': 'sub', 'mul': 'mul' if t == 'r' else 'imul',
                 'div': 'rdiv' if t == 'r' else 'idiv', 'pow': 'rpow' if a.t == 'r' or b.t == 'r' else 'ipow'}[op]
            if rank: return E(t, rank, 'amap(%s, %s, %s)' % (f, a.c, b.c))
            if f in ('add', 'sub', 'mul'):
                return E(t, 0, '(%s %s %s)' % (a.c, {'add': '+', 'sub': '-', 'mul': '*'}[f], b.c))
            return E(t, 0, '%s(%s, %s)' % (f, a.c, b.c))
        if op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            if rank: return E('l', rank, 'amap(%s, %s, %s)' % (op, a.c, b.c))
            s = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[op]
            return E('l', 0, '(%s %s %s)' % (a.c, s, b.c))
        if op in ('and', 'or', 'eqv', 'neqv'):
            f = 'l' + op
            if rank: return E('l', rank, 'amap(%s, %s, %s)' % (f, a.c, b.c))
            return E('l', 0, '%s(%s, %s)' % (f, a.c, b.c))
        raise Unsupported('operator %s' % op)

    def app(self, x):
        _, n, args = x
        r = self.lookup(n)
        if r and r[0] in ('var',) and r[1].rank:
            v = r[1]
            cs, rank, vec = self.subs(args)
            if len(cs) != v.rank: raise Unsupported('rank of %s' % n)
            if rank == 0:
                return E(v.t, 0, '%s.%s(%s)' % (v.py, {1: 'g1', 2: 'g2'}.get(len(cs), 'gn'), ', '.join(cs)))
            return E(v.t, rank, '%s.sec(%s)' % (v.py, ', '.join(cs)))
        if r and r[0] == 'mvar' and r[1].rank and r[1].param is not None:
            v = r[1]
            arr = self.expr(v.param)
            cs, rank, vec = self.subs(args)
            if rank: return E(v.t, rank, '%s.sec(%s)' % (arr.c, ', '.join(cs)))
            return E(v.t, 0, '%s.gn(%s)' % (arr.c, ', '.join(cs)))
        if r and r[0] == 'var' and r[1].rank == 0:
            # a declared external/typed function name (e.g. "integer :: f") or a bug
            r2 = None
            if n == self.u.result or n == self.u.name: r2 = None
            raise Unsupported('subscripted scalar %s' % n)
        if r and r[0] == 'proc':
            q = r[1]
            if q.kind != 'function': raise Unsupported('subroutine %s as a function' % n)
            self.prog.prepare(q)
            m, out = self.actuals(q, args)
            rv = q.vars[q.result]
            ref = self.procref(q)
            if q.elemental:
                return E(rv.t, max([self.expr(a).rank for a in m.values()] or [0]),
                         'amap(lambda *a: %s(*a)[0], %s)' % (ref, ', '.join(out)))
            return E(rv.t, rv.rank, '%s(%s)[0]' % (ref, ', '.join(out)))
        if n in INTRIN: return self.intrinsic(n, args)
        raise Unsupported('unknown function or array %s' % n)

    def intrinsic(self, n, args):
        kw = {a[1]: a[2] for a in args if a[0] == 'kw'}
        pos = [a for a in args if a[0] != 'kw']
        if n == 'present':
            v = self.lookup(pos[0][1])[1]
            return E('l', 0, '(%s is not ABSENT)' % v.py)
        if n == 'allocated':
            return E('l', 0, '(%s is not None)' % self.lookup(pos[0][1])[1].py)
        if n in ('epsilon', 'tiny', 'huge', 'kind'):
            e = self.expr(pos[0])
            if n == 'epsilon': return E('r', 0, 'EPS')
            if n == 'huge' and e.t == 'i': return E('i', 0, '2147483647')
            if n == 'tiny': return E('r', 0, self.const(Fraction(1, 2**1022)))
            if n == 'huge': return E('r', 0, self.const(Fraction(2)**1023))
            return E('i', 0, '8' if e.t == 'r' else '4')
        es = [self.expr(a) for a in pos]
        kws = {k: self.expr(v) for k, v in kw.items()}
        def allcs():
            return ', '.join([e.c for e in es] + ['%s=%s' % (k, e.c) for k, e in kws.items() if k != 'kind'])
        a = es[0] if es else None
        el = lambda f, t: E(t, max(e.rank for e in es),
                            ('amap(%s, %s)' % (f, ', '.join(e.c for e in es))) if max(e.rank for e in es) else '%s(%s)' % (f, ', '.join(e.c for e in es)))
        if n == 'abs': return el('fabs_', a.t)
        if n == 'sqrt': return el('fsqrt', 'r')
        if n in ('min', 'max'): return el('f'+n, 'r' if any(e.t == 'r' for e in es) else 'i')
        if n == 'mod':
            if 'r' in (a.t, es[1].t): return el('rmod', 'r')
            return el('imod', 'i')
        if n == 'modulo':
            if 'r' in (a.t, es[1].t): return el('rmodulo', 'r')
            return el('imodulo', 'i')
        if n == 'sign': return el('fsign', a.t)
        if n == 'merge': return el('fmerge', a.t)
        if n in ('real', 'dble', 'dfloat', 'float'):
            if a.t not in 'ir': raise Unsupported('real()')
            es[:] = es[:1]
            return E('r', a.rank, a.c)
        if n in ('int', 'floor', 'nint', 'ceiling'):
            if a.t == 'i': return E('i', a.rank, a.c)
            mode = {'int': 'trunc', 'floor': 'floor', 'nint': 'near', 'ceiling': 'ceil'}[n]
            if a.rank: return E('i', a.rank, 'amap(lambda x: r2i(x, %r), %s)' % (mode, a.c))
            return E('i', 0, 'r2i(%s, %r)' % (a.c, mode))
        if n in ('sum', 'product', 'maxval', 'minval', 'any', 'all', 'count'):
            f = 'f' + n
            hasdim = 'dim' in kws or (len(es) > 1 and es[1].rank == 0)
            t = 'i' if n == 'count' else ('l' if n in ('any', 'all') else a.t)
            return E(t, a.rank-1 if hasdim and a.rank > 1 else 0, '%s(%s)' % (f, allcs()))
        if n == 'matmul':
            r = 2 if a.rank == 2 and es[1].rank == 2 else 1
            return E('r' if 'r' in (a.t, es[1].t) else 'i', r, 'fmatmul(%s)' % allcs())
        if n == 'transpose': return E(a.t, 2, 'ftranspose(%s)' % a.c)
        if n == 'dot_product': return E(a.t, 0, 'fdot(%s)' % allcs())
        if n == 'norm2': return E('r', 0, 'fnorm2(%s)' % a.c)
        if n == 'size': return E('i', 0, 'fsize(%s)' % allcs())
        if n == 'shape': return E('i', 1, 'fshape(%s)' % a.c)
        if n in ('lbound', 'ubound'):
            hasdim = 'dim' in kws or len(es) > 1
            return E('i', 0 if hasdim else 1, 'f%s(%s)' % (n, allcs()))
        if n in ('maxloc', 'minloc'):
            hasdim = 'dim' in kws or len(es) > 1
            return E('i', 0 if hasdim else 1, 'f%s(%s)' % (n, allcs()))
        if n == 'reshape':
            sh = pos[1]
            rank = len(sh[1]) if sh[0] == 'acons' else None
            if rank is None: raise Unsupported('reshape shape')
            return E(a.t, rank, 'freshape(%s)' % allcs())
        if n == 'spread': return E(a.t, a.rank+1, 'fspread(%s)' % allcs())
        if n == 'cshift': return E(a.t, 1, 'fcshift(%s)' % allcs())
        if n == 'eoshift': return E(a.t, 1, 'feoshift(%s)' % allcs())
        if n == 'pack': return E(a.t, 1, 'fpack(%s)' % allcs())
        if n == 'findloc':
            hasdim = 'dim' in kws or len(es) > 2
            return E('i', 0 if hasdim else 1, 'ffindloc(%s)' % allcs())
        if n == 'isnan': return el('fisnan', 'l')
        raise Unsupported('intrinsic %s' % n)


def untok(toks): return ' '.join(v for _, v in toks)
def P_ends(t):
    p = P(tokenize(t)); p.next(); p.next()
    p.expr(); p.expect(')')
    return p.end()


class _Ret(Exception): pass
class _Exit(Exception): pass
class _Cycle(Exception): pass
def lval(x):
    return x if x is fortrt.UNDEF else bool(x)
def allocassign(old, rhs):
    if isinstance(rhs, fortrt.FArr): return fortrt.FArr.of(rhs.vals(), rhs.shape, 'alloc')
    fortrt.assign(old, rhs)
    return old
fortrt._Ret, fortrt._Exit, fortrt._Cycle, fortrt.lval, fortrt.allocassign = _Ret, _Exit, _Cycle, lval, allocassign
