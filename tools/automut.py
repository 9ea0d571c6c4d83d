#!/opt/venv/bin/python
"""automut.py gen|tests|checks OUT.json [N [SEED]]: systematic mutants of /repo/igakit/*.py (development aid).
gen    lists mutants (a random sample of N);
tests  marks those the repository's own tests let through;
checks runs the checks mapped to the mutated function on the survivors and records the first that reports.
Everything happens in scratch copies under /tmp/am."""
import ast, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
REPO, WORK = '/repo', '/tmp/am'
MAP = [('nurbs', r'__init__|dim|shape|degree|knots|array|control|weights|points|fields', 'C25 C01 C29'),
       ('nurbs', r'spans|breaks|greville', 'C03 C29'), ('nurbs', r'lagrange|lobatto', 'C27 C29'),
       ('nurbs', r'copy|clone', 'C22 C25'), ('nurbs', r'transform|translate|move|scale|rotate', 'C12 C29'),
       ('nurbs', r'transpose|swap|reverse|remap', 'C10 C29'), ('nurbs', r'insert|_snap', 'C04 C08 C29'),
       ('nurbs', r'remove', 'C29 C07'), ('nurbs', r'clamp|unclamp', 'C08 C29'), ('nurbs', r'refine', 'C05 C29'),
       ('nurbs', r'elevate', 'C06 C29'), ('nurbs', r'slice|extract|boundary', 'C09 C29'),
       ('nurbs', r'__call__|evaluate', 'C01 C25 C29'), ('nurbs', r'gradient|hessian|derivative', 'C11 C29'),
       ('nurbs', r'Arg', 'C01 C05 C11 C29'), ('cad', r'line|circle|revolve', 'C13 C14 C29'), ('cad', r'linear|bilinear|trilinear|extrude|ruled|sweep|coons', 'C14 C29'),
       ('cad', r'grid', 'C24 C14 C29'), ('cad', r'compat|Same\w+|MergeKnots', 'C15 C14 C29'), ('cad', r'join', 'C17 C29'),
       ('cad', r'refine|Arg', 'C16 C29'), ('cad', r'.*', 'C24 C14 C13 C29'),
       ('io', r'read_vec|write_vec|read_mat|_read|_write', 'C19 C18'), ('io', r'write|read|__init__', 'C18 C20 C19'), ('io', r'.*', 'C20 C18'),
       ('transform', r'.*', 'C12 C29'), ('plot', r'.*', 'C26')]
CMP = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.Pow: '*'}

def mutants(name):
    src = open('%s/igakit/%s.py' % (REPO, name)).read()
    lines = src.split('\n')
    off = [0]
    for l in lines: off.append(off[-1] + len(l) + 1)
    pos = lambda ln, c: off[ln-1] + c
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))
    text = lambda n: src[slice(*span(n))]
    out = []
    def add(n, new, fn):
        a, b = span(n)
        if '\n' in src[a:b] and not isinstance(n, ast.stmt): new = '(%s)' % new if new else new
        out.append((fn, n.lineno, a, b, src[a:b], new))
    def visit(n, fn):
        if isinstance(n, ast.FunctionDef): fn = n.name if fn is None or True else fn
        body = getattr(n, 'body', None)
        if fn is not None:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for o in CMP.get(type(n.ops[0]), []): add(n, '%s %s %s' % (text(n.left), o, text(n.comparators[0])), fn)
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
                add(n, '%s%s%s' % (text(n.left), BIN[type(n.op)], text(n.right)), fn)
            elif isinstance(n, ast.Constant) and type(n.value) is bool: add(n, repr(not n.value), fn)
            elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
                add(n, repr(n.value+1), fn)
                if n.value: add(n, repr(n.value-1) if n.value != 1 else '0', fn)
            elif isinstance(n, ast.BoolOp):
                op = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, op.join(text(v) for v in n.values), fn)
                for v in n.values: add(n, text(v), fn)
            elif isinstance(n, ast.UnaryOp): add(n, text(n.operand), fn)
            elif isinstance(n, ast.If): add(n.test, 'True', fn); add(n.test, 'False', fn)
            elif isinstance(n, ast.IfExp): add(n, text(n.body), fn); add(n, text(n.orelse), fn)
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise)):
                if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)): add(n, 'pass', fn)
            elif isinstance(n, ast.Slice):
                if n.lower is not None: add(n, ':' + (text(n.upper) if n.upper else ''), fn)
                if n.upper is not None: add(n, (text(n.lower) if n.lower else '') + ':', fn)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and not n.args and not n.keywords: add(n, text(n.func.value), fn)
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
                    a, b = span(n.args[0])[0], span(n.args[1])[1]
                    mid = src[span(n.args[0])[1]:span(n.args[1])[0]]
                    out.append((fn, n.lineno, a, b, src[a:b], text(n.args[1]) + mid + text(n.args[0])))
                for k in n.keywords:
                    if k.arg:
                        a, b = span(k); c = a
                        while c > 0 and src[c-1] in ' \n': c -= 1
                        if src[c-1] == ',': out.append((fn, n.lineno, c-1, b, src[c-1:b], ''))
            elif isinstance(n, ast.Constant) and n.value in ('C', 'F'): add(n, repr('F' if n.value == 'C' else 'C'), fn)
            elif isinstance(n, (ast.For, ast.While)): pass
        for f, v in ast.iter_fields(n):
            if isinstance(n, ast.FunctionDef) and f == 'body' and v and isinstance(v[0], ast.Expr) and isinstance(v[0].value, ast.Constant): v = v[1:]
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST): visit(c, fn)
    visit(ast.parse(src), None)
    good = []; seen = set()
    for m in out:
        new = src[:m[2]] + m[5] + src[m[3]:]
        if new == src or (m[2], m[3], m[5]) in seen: continue
        seen.add((m[2], m[3], m[5]))
        try: compile(new, 'x', 'exec')
        except SyntaxError: continue
        good.append(dict(file=name, fn=m[0], line=m[1], a=m[2], b=m[3], old=m[4], new=m[5]))
    return good

def props(m):
    for f, r, p in MAP:
        if f == m['file'] and re.fullmatch(r, m['fn']): return p.split()
    return []

def apply(m, d):
    p = 'igakit/%s.py' % m['file']
    src = open(os.path.join(REPO, p)).read()
    assert src[m['a']:m['b']] == m['old']
    with open(os.path.join(d, p), 'w') as f: f.write(src[:m['a']] + m['new'] + src[m['b']:])
def restore(m, d): shutil.copy('%s/igakit/%s.py' % (REPO, m['file']), '%s/igakit/%s.py' % (d, m['file']))

TEST = '''import sys, os
sys.meta_path[:] = [m for m in sys.meta_path if 'meson' not in type(m).__module__.lower() and 'editable' not in type(m).__module__.lower()]
sys.path.insert(0, os.getcwd())
import igakit.nurbs; assert igakit.nurbs.__file__.startswith(os.getcwd())
import pytest; sys.exit(pytest.main(['-q','-x','-p','no:cacheprovider','--timeout=60','--doctest-modules','--ignore=igakit/plot_myv.py',
  '--deselect','igakit/plot_mpl.py','test','igakit']))'''

def main():
    mode, out = sys.argv[1:3]
    if mode == 'gen':
        n = int(sys.argv[3]); seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
        files = sys.argv[5].split(',') if len(sys.argv) > 5 else ['nurbs', 'cad', 'io', 'transform', 'plot']
        ms = [m for f in files for m in mutants(f)]
        random.Random(seed).shuffle(ms)
        print(len(ms), 'mutants'); ms = ms[:n]
        json.dump(ms, open(out, 'w'), indent=0); return
    ms = json.load(open(out))
    if mode == 'tests':
        nw = int(sys.argv[3])
        sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        from engine.build import build
        import queue
        q = queue.Queue()
        for i in range(nw):
            d = '%s/w%d' % (WORK, i)
            shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            if i == 0: build(REPO, d)
            else: shutil.copytree(WORK + '/w0/igakit', d + '/igakit')
            shutil.copytree(REPO + '/test', d + '/test'); q.put(d)
        env = dict(os.environ, MPLBACKEND='agg', PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
        def one(m):
            if 'tests' in m: return
            d = q.get()
            try:
                apply(m, d)
                try: m['tests'] = subprocess.run(['/opt/venv/bin/python', '-c', TEST], cwd=d, env=env, capture_output=True, timeout=120).returncode
                except subprocess.TimeoutExpired: m['tests'] = 'timeout'
                restore(m, d)
            finally: q.put(d)
        with ThreadPoolExecutor(nw) as ex: list(ex.map(one, ms))
        print(sum(m['tests'] == 0 for m in ms), 'of', len(ms), 'pass the tests')
    if mode == 'checks':
        d = WORK + '/c'
        shutil.rmtree(d, ignore_errors=True); shutil.copytree(REPO, d, symlinks=True)
        for m in ms:
            if m.get('tests') != 0 or 'caught' in m: continue
            apply(m, d); m['caught'] = None; m['rc'] = {}
            for p in props(m):
                try:
                    r = subprocess.run(['/opt/venv/bin/python', '/verif/check.py', p], cwd='/verif', env=dict(os.environ, IGAKIT_REPO=d), capture_output=True, timeout=900)
                    rc = 'undecided' if not r.returncode and b'UNDECIDED' in r.stdout else r.returncode
                except subprocess.TimeoutExpired: rc = 'timeout'
                m['rc'][p] = rc
                if rc == 1: m['caught'] = p; break
            restore(m, d)
            print('%-8s %s.%s:%d  %r -> %r  %s' % (m['caught'] or 'MISSED', m['file'], m['fn'], m['line'], m['old'][:70], m['new'][:70], m['rc']), flush=True)
            json.dump(ms, open(out, 'w'), indent=0)
    json.dump(ms, open(out, 'w'), indent=0)
main()
