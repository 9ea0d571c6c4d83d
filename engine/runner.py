"""Case execution: symbolic exploration, claim discharge, replay, evidence."""
import os, sys, time, json, random, re, shutil, signal, subprocess, tempfile, traceback, importlib
import multiprocessing as mp
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class Case(object):
    def __init__(self, name, fn, budget=240, max_paths=400, timeout_ms=60000, nconc=1, witness=True, **kw):
        self.name, self.fn, self.kw = name, fn, kw
        self.budget, self.max_paths, self.timeout_ms = budget, max_paths, timeout_ms
        self.nconc = nconc


class Deadline(BaseException): pass


# ------------------------------------------------------------------ inside a worker

def frac_or_float(x):
    return x

class PathRun(object):
    """Everything known about one completed path."""
    pass

def sample(ctx, rnd, special=False):
    """A random nice point of the base variables; derived variables filled in."""
    from . import sym
    val = {}
    for v in ctx.vars:
        if v.kind == 'pi' or v.defn is not None: continue
        if v.nice is not None: lo, hi = Fraction(v.nice[0]), Fraction(v.nice[1])
        else:
            lo = v.lo if v.lo is not None else (Fraction(-2) if v.hi is None or v.hi > -2 else v.hi - 2)
            hi = v.hi if v.hi is not None else max(lo + 1, Fraction(2))
            if hi - lo > 8: 
                if lo <= 0 <= hi: lo, hi = max(lo, Fraction(-2)), min(hi, Fraction(2))
                else: hi = lo + 4
        n = 64
        x = lo + (hi-lo)*Fraction(rnd.randint(1, n-1), n)
        if special and rnd.random() < 0.3: x = lo if rnd.random() < .5 else hi
        val[v.idx] = x
    try: return complete(ctx, val)
    except (ZeroDivisionError, OverflowError, ValueError): return None

def complete(ctx, val):
    from . import sym
    val = sym.complete_values(val)
    for v in ctx.vars:
        if v.defn is not None and v.defn[0] == 'f32' :
            import numpy as np
            val[v.idx] = float(np.float32(float(sym.sym_eval(v.defn[1], val))))
        if v.idx not in val: val[v.idx] = Fraction(0)
    return val

def fl(val):
    return {k: float(v) for k, v in val.items()}

def pc_holds(ctx, fv):
    from . import sym
    for op, poly, truth in ctx.pcc:
        x = sym.poly_eval(poly, fv)
        sc = 1e-9*max(1.0, sum(abs(c) for c in list(poly.values())[:50]) and 1.0)
        r = {'<': x < 0, '<=': x <= 0, '==': abs(x) < 1e-12, '!=': abs(x) > 1e-12}[op]
        if r != truth: return False
        if op in ('<', '<=') and abs(x) < 1e-9: return False
    return True

def eval_claim_violated(ctx, cl, fv):
    """Numeric badness of a claim at a point (0 when it holds)."""
    from . import sym
    try:
        if cl[0] == 'eq':
            g, e = float(sym.sym_eval(cl[2], fv)), float(sym.sym_eval(cl[3], fv))
            d = abs(g-e)/max(1.0, abs(e))
            return d if d > 1e-4 else 0
        return 0 if beval(cl[2], fv) else 1
    except (ZeroDivisionError, OverflowError):
        return 0

def beval(b, fv, eps=1e-7):
    from . import sym
    if not isinstance(b, sym.SymBool): return bool(b)
    if b.op == 'and': return all(beval(x, fv) for x in b.args)
    if b.op == 'or': return any(beval(x, fv) for x in b.args)
    if b.op == 'not': return not beval(b.args, fv)
    x = sym.poly_eval(b.args, fv)
    return {'<': x < eps, '<=': x <= eps, '==': abs(x) <= eps, '!=': abs(x) > eps}[b.op]

def sides(ctx, g, e):
    """Polynomials L, R (smt text) and the numeric scale D with g - e = (L - R)/D."""
    from .sym import pscale, gcd
    from . import sym
    fa, fb = dict(g.fac), dict(e.fac)
    la, lb, lcm = [], [], []
    for f in sorted(set(fa) | set(fb)):
        ea, eb = fa.get(f, 0), fb.get(f, 0)
        lcm.append((f, max(ea, eb)))
        if ea < eb: la.append((f, eb-ea))
        elif eb < ea: lb.append((f, ea-eb))
    gg = gcd(g.den, e.den)
    L = pscale(g.num, e.den//gg); R = pscale(e.num, g.den//gg)
    den = g.den//gg*e.den
    def text(p, fac):
        t = ctx.poly_smt(p)
        if fac and p:
            t = '(* %s %s)' % (t, ' '.join(ctx.fac_smt(fac)))
        return t
    # expand when needed so that both sides are plain polynomials
    for f, k in la:
        if len(L)*len(ctx.factors[f].poly)**k < 200000:
            L = sym.pmul(L, sym.ppow(ctx.factors[f].poly, k))
        else: return text(L, la), text(R, lb), den, lcm
    for f, k in lb:
        if len(R)*len(ctx.factors[f].poly)**k < 200000:
            R = sym.pmul(R, sym.ppow(ctx.factors[f].poly, k))
        else: return None
    return text(L, ()), text(R, ()), den, lcm

class CaseRun(object):
    def __init__(self, case, pkg, tier, seed, dump=False):
        from . import sym
        self.case, self.pkg, self.tier, self.seed = case, pkg, tier, seed
        self.ctx = sym.set_ctx(sym.Ctx(seed=seed, timeout_ms=case.timeout_ms))
        if dump: self.ctx.dump = []
        self.rnd = random.Random('%s/%s' % (seed, case.name))
        self.cands = []       # violation candidates
        self.conc = []        # concordance jobs
        self.incon = []
        self.rounding = 0
        self.aborted = 0
        self.samples = []

    def run(self):
        from . import sym, api
        from .sym import PathAbort, ModelFault, Inconclusive
        ctx, case = self.ctx, self.case
        pend = [[]]
        t0 = time.time()
        while pend:
            if ctx.stats.paths >= case.max_paths:
                self.incon.append('more than %d paths' % case.max_paths); break
            if time.time()-t0 > case.budget:
                self.incon.append('case budget of %d s' % case.budget); break
            prefix = pend.pop()
            ctx.reset_path(prefix)
            self.pkg.fs.clear()
            A = api.SymA(self.pkg, ctx)
            fault = None
            try:
                case.fn(A, **case.kw)
            except PathAbort:
                pend.extend(ctx.pending); self.aborted += 1
                continue
            except ModelFault as e:
                fault = ('fault:%s' % e.kind, str(e))
            except Inconclusive as e:
                self.incon.append('%s' % e)
                pend.extend(ctx.pending)
                if A.claims and not self.cands: self.finish(A, None, False)       # what was claimed before the path was given up
                if len(self.incon) > 3 or len(self.cands) >= 4: break
                if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
                continue
            except RecursionError as e:
                self.incon.append('recursion'); pend.extend(ctx.pending); continue
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)
                fault = ('raised:%s' % type(e).__name__, 'raised %s: %s (at %s)' % (type(e).__name__, str(e)[:200],
                         ', '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])))
                if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
            pend.extend(ctx.pending)
            ctx.stats.paths += 1
            self.finish(A, fault)
            if len(self.cands) >= 4: break
        return self

    # -- claims
    def finish(self, A, fault, whole=True):
        ctx = self.ctx
        n0 = len(self.cands)
        if fault is not None:
            self.candidate([], fault[1], fault[0])
            return
        claims = A.claims
        ctx.stats.claims += len(claims)
        batch, size = [], 0
        hard = [c for c in claims if c[0] == 'bool' and not hasattr(c[2], 'op') and not c[2]]
        if hard:
            self.candidate([hard[0]], hard[0][1], 'claim')
            return
        for c in claims:
            if len(self.cands) - n0 >= 2: return       # enough counterexamples on this path
            if c[0] == 'bool' and not hasattr(c[2], 'op'): continue
            s = len(c[2].num) + len(c[3].num) if c[0] == 'eq' else 50
            if batch and (size + s > 30000 or len(batch) > 60):
                self.discharge(batch); batch, size = [], 0
            batch.append(c); size += s
        if batch: self.discharge(batch)
        if whole and len(self.cands) == n0 and len(self.conc) < self.case.nconc:
            self.witness()

    def cond(self, c):
        from .sym import bsmt
        if c[0] == 'bool': return '(not %s)' % bsmt(c[2])
        s = sides(self.ctx, c[2], c[3])
        if s is None: return None
        return '(not (= %s %s))' % (s[0], s[1])

    def margin(self, c, m='0.001'):
        from .sym import bsmt
        ctx = self.ctx
        if c[0] == 'bool': return '(not %s)' % bsmt(c[2])
        s = sides(ctx, c[2], c[3])
        if s is None: return 'false'
        D = ' '.join(ctx.fac_smt(s[3])) or ''
        D = '(* %s %d.0 %s)' % (m, s[2], D) if D else '(* %s %d.0)' % (m, s[2])
        absD = '(ite (< %s 0.0) (- %s) %s)' % (D, D, D)
        d = '(- %s %s)' % (s[0], s[1])
        return '(or (>= %s %s) (<= %s (- %s)))' % (d, absD, d, absD)

    def nice_bounds(self):
        from .sym import smt_frac
        out = []
        for v in self.ctx.vars:
            if v.nice is not None and v.defn is None:
                out.append('(>= %s %s)' % (v.smt, smt_frac(v.nice[0])))
                out.append('(<= %s %s)' % (v.smt, smt_frac(v.nice[1])))
        return out

    def discharge(self, batch):
        ctx = self.ctx
        conds = [self.cond(c) for c in batch]
        if any(x is None for x in conds):
            self.incon.append('claim too large'); return
        q = '(or false %s)' % ' '.join(conds)
        r, _ = ctx.query([q], kind='claim')
        if r == 'unsat': return
        if r == 'unknown' and len(batch) > 1:
            if self.candidate(batch, None, 'claim', sample_only=True): return
            for c in batch: self.discharge([c])
            return
        # sat (or unknown): look for an assignment
        if self.candidate(batch, None, 'claim', solver_said=r): return
        if r == 'unknown':
            self.incon.append('solver unknown on %s' % batch[0][1]); return
        # only claims with a real margin count; the rest is rounding of constants
        r2, mdl = ctx.query(['(or false %s)' % ' '.join(self.margin(c, '0.000001') for c in batch)], kind='claim', want_model=True)
        if r2 == 'unsat':
            self.rounding += len(batch); return
        if r2 == 'unknown':
            self.incon.append('solver unknown on margin of %s' % batch[0][1]); return
        val = self.from_model(mdl)
        self.cands.append(dict(case=self.case.name, what=batch[0][1], kind='claim', choices=list(ctx.choices),
                               assignments=[val], note='margin model'))

    def from_model(self, mdl):
        val = {k: v for k, v in mdl.items() if self.ctx.vars[k].defn is None and self.ctx.vars[k].kind != 'pi'}
        return self.named(val)

    def named(self, val):
        out = {}
        for v in self.ctx.vars:
            if v.defn is None and v.kind not in ('pi',) and v.idx in val: out[v.name] = float(val[v.idx])
        return out

    def candidate(self, claims, what, kind, solver_said=None, sample_only=False):
        """Find concrete assignments on this path for which the claims (or the path itself) fail."""
        ctx = self.ctx
        found = []
        best = None
        for k in range(60):
            val = sample(ctx, self.rnd, special=k % 3 == 2)
            if val is None: continue
            try: fv = fl(val)
            except (OverflowError, TypeError): continue
            try:
                if not pc_holds(ctx, fv): continue
            except (ZeroDivisionError, OverflowError): continue
            if kind == 'claim' and claims and (claims[0][0] == 'eq' or hasattr(claims[0][2], 'op')):
                b = max((eval_claim_violated(ctx, c, fv), c[1]) for c in claims)
                if not b[0]: continue
                if best is None: best = b
            found.append(self.named(val))
            if len(found) >= 4: break
        if not found and sample_only: return False
        if not found:
            # ask the solver: first with well-conditioned values, then anywhere
            extra = ['(or false %s)' % ' '.join(self.margin(c) for c in claims)] if claims and (claims[0][0] == 'eq' or hasattr(claims[0][2], 'op')) else []
            for nb in (self.nice_bounds(), []):
                r, mdl = ctx.query(extra + nb, kind='claim' if claims else 'branch', want_model=True, timeout_ms=20000)
                if r == 'sat':
                    found.append(self.from_model(mdl)); break
        if not found:
            if kind != 'claim' or (claims and not (claims[0][0] == 'eq' or hasattr(claims[0][2], 'op'))):
                r, _ = ctx.query([], kind='branch')
                if r == 'unsat': return True       # infeasible path
                self.incon.append('no assignment found for %s' % what)
                return True
            return False
        self.cands.append(dict(case=self.case.name, what=what or best and best[1] or claims[0][1], kind=kind,
                               choices=list(ctx.choices), assignments=found))
        return True

    def witness(self):
        """A concrete point of this path: reachability witness and validation of the encoding."""
        ctx = self.ctx
        for k in range(30):
            val = sample(ctx, self.rnd)
            if val is None: continue
            try:
                if pc_holds(ctx, fl(val)):
                    self.conc.append(dict(case=self.case.name, choices=list(ctx.choices), values=self.named(val)))
                    return
            except (OverflowError, ZeroDivisionError, TypeError): continue
        for nb in (self.nice_bounds(), []):
            r, mdl = ctx.query(nb, want_model=True, timeout_ms=10000)
            if r == 'sat':
                self.conc.append(dict(case=self.case.name, choices=list(ctx.choices), values=self.from_model(mdl)))
                return

    def result(self):
        st = self.ctx.stats.asdict()
        return dict(name=self.case.name, stats=st, cands=self.cands, conc=self.conc, incon=self.incon,
                    rounding=self.rounding, aborted=self.aborted, nvars=len(self.ctx.vars),
                    vars=[[v.name, str(v.lo), str(v.hi)] for v in self.ctx.vars[:6]],
                    dump=self.ctx.dump, py=sorted(self.pkg.pycalled), ft=sorted(self.pkg.prog.called),
                    cc=sorted(self.pkg.igalib.cint.called))

_STATE = {}

def _worker(args):
    prop, tier, seed, name, dump = args
    t0 = time.time()
    try:
        m = _STATE['mod']; pkg = _STATE['pkg']
        case = _STATE['cases'][name]
        pkg.start_trace()
        pkg.prog.called.clear(); pkg.pycalled.clear(); pkg.igalib.cint.called.clear()
        sys.monitoring.restart_events()
        r = CaseRun(case, pkg, tier, seed, dump).run().result()
    except MemoryError:
        r = dict(name=name, error='out of memory')
    except Exception as e:
        r = dict(name=name, error='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    r['wall'] = time.time()-t0
    return r

def _child(conn, args):
    import resource
    lim = 10*2**30
    try: resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception: pass
    sys.setrecursionlimit(10000)
    r = _worker(args)
    try: conn.send(r)
    except Exception as e: conn.send(dict(name=args[3], error='result: %s' % e, wall=0))
    conn.close()

def run_pool(jobs, budgets, nproc, deadline, log=None, stop=None):
    """Each case in its own process, with a hard time limit.  Stops when stop(results) says so; returns the results and the jobs not run."""
    ctx = mp.get_context('fork')
    todo = list(jobs)
    live = {}
    out = []
    while todo or live:
        while todo and len(live) < nproc and time.time() < deadline:
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, j))
            p.start(); b.close()
            live[p] = (j, a, time.time())
        if not live: 
            for j in todo: out.append(dict(name=j[3], error='not run: out of time', wall=0))
            break
        import multiprocessing.connection as mc
        ready = mc.wait([a for (_, a, _) in live.values()], timeout=0.5)
        for p in list(live):
            j, a, t = live[p]
            r = None
            if a in ready:
                try: r = a.recv()
                except EOFError: r = dict(name=j[3], error='the case process died', wall=time.time()-t)
            elif time.time()-t > budgets[j[3]] + 60 or time.time() > deadline + 30:
                r = dict(name=j[3], error='time limit', wall=time.time()-t)
            if r is not None:
                if p.is_alive() and 'error' in r: p.kill()
                p.join(5)
                if p.is_alive(): p.kill()
                a.close()
                del live[p]
                out.append(r)
                if log: log(r)
        if stop and stop(out):
            for p, (j, a, _) in live.items():
                p.kill(); p.join(5); a.close(); todo.append(j)
            return out, todo
        if time.time() >= deadline and todo:
            for j in todo: out.append(dict(name=j[3], error='not run: out of time', wall=0))
            todo = []
    return out, []


# ------------------------------------------------------------------ concrete replays

PAUSE = 12
def unlisted(r, kf):
    return any(match(kf, c) is None for c in r.get('cands', []))

def talk(p, text, quiet):
    """Output of the driver; ended when it prints nothing for `quiet` seconds."""
    import threading
    last = [time.time()]
    out, err = [], []
    def rd(f, l, note):
        for line in f:
            l.append(line)
            if note: last[0] = time.time()
    def wr():
        try: p.stdin.write(text); p.stdin.close()
        except (BrokenPipeError, OSError): pass
    ths = [threading.Thread(target=rd, args=x, daemon=True) for x in ((p.stdout, out, True), (p.stderr, err, False))]
    ths.append(threading.Thread(target=wr, daemon=True))
    for t in ths: t.start()
    died = None
    while p.poll() is None:
        if time.time()-last[0] > quiet:
            p.kill(); died = 'did not terminate'
        try: p.wait(0.2)
        except subprocess.TimeoutExpired: pass
    for t in ths: t.join(10)
    return ''.join(out), ''.join(err), died

class Concrete(object):
    def __init__(self, prop, tier, scratch, repo):
        self.prop, self.tier, self.scratch, self.repo = prop, tier, scratch, repo
        self.built = {}
    def dir(self, sanitize=False):
        if sanitize not in self.built:
            from . import build
            d = os.path.join(self.scratch, 'asan' if sanitize else 'real')
            os.makedirs(d)
            build.build(self.repo, d, sanitize)
            self.built[sanitize] = d
        return self.built[sanitize]

    def run(self, jobs, sanitize=False, per_job=20, enough=None):
        """Results aligned with jobs: dict(status, failed)."""
        res = [None]*len(jobs)
        todo = list(range(len(jobs)))
        d = self.dir(sanitize)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', MPLBACKEND='agg')
        env.pop('PYTHONPATH', None)
        if sanitize:
            lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
            env.update(LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0:handle_segv=1:abort_on_error=0:exitcode=99', PYTHONMALLOC='malloc')
        while todo:
            w = tempfile.mkdtemp(dir=self.scratch)
            p = subprocess.Popen([PY, '-S', os.path.join(VERIF, 'engine', 'conrun.py'), d, self.prop, self.tier, w],
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
            o, e, died = talk(p, json.dumps([jobs[i] for i in todo]), per_job*(4 if sanitize else 1))
            started = None
            ndone = 0
            for line in o.split('\n'):
                if line.startswith('start '): started = int(line.split()[1])
                elif line.startswith('done '):
                    r = json.loads(line[5:]); res[todo[r['i']]] = r; ndone += 1; started = None
            if ndone == len(todo): break
            if enough and any(r and enough(n, r) for n, r in enumerate(res)): break
            if started is None:
                raise RuntimeError('replay driver failed: %s' % (e or '')[-2000:])
            if died is None: died = 'the process ended with status %s' % p.returncode
            m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)', e or '')
            res[todo[started]] = dict(status='died', failed=[died + (': AddressSanitizer ' + m.group(1)[:120] if m else ''),], stderr=(e or '')[-500:])
            todo = todo[started+1:]
            if enough and any(r and enough(n, r) for n, r in enumerate(res)): break
            shutil.rmtree(w, ignore_errors=True)
        return res


# ------------------------------------------------------------------ main

def known_findings():
    try:
        with open(os.path.join(VERIF, 'known_findings.json')) as f: return json.load(f)['findings']
    except FileNotFoundError: return []

def main(prop, tier, seed, only=None, verbose=False):
    t0 = time.time()
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    from . import loader
    repo = loader.REPO
    m = importlib.import_module('engine.props.' + prop.lower())
    cases = list(m.cases(tier))
    if only: cases = [c for c in cases if re.search(only, c.name)]
    names = [c.name for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    scratch = tempfile.mkdtemp(prefix='igakit-verif-')
    rc = 2
    try:
        rc = _main(prop, tier, seed, m, cases, repo, scratch, t0, verbose)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc

def _main(prop, tier, seed, m, cases, repo, scratch, t0, verbose):
    from . import loader
    conc = Concrete(prop, tier, scratch, repo)
    import threading
    berr = []
    def bld():
        try: conc.dir(False)
        except Exception as e: berr.append(e)
    th = threading.Thread(target=bld); 
    errors = []
    try:
        pkg = loader.Package(repo)
        for n in getattr(m, 'MODULES', ('nurbs',)): pkg.module('igakit.' + n)
    except Exception as e:
        errors.append('loading %s: %s: %s' % (repo, type(e).__name__, e))
        pkg = None
        if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    _STATE.update(mod=m, pkg=pkg, cases={c.name: c for c in cases})
    limit = float(os.environ.get('VERIF_LIMIT', 780 if tier == 'quick' else 6*3600))
    deadline = t0 + limit
    results = []
    violations, known, notrep = [], [], []
    kf, notrun = [], 0
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    dump = tier == 'thorough' or bool(os.environ.get('VERIF_DUMP'))
    if pkg is not None:
        # the build runs alongside; fork happens from this thread only
        jobs = [(prop, tier, seed, c.name, dump) for c in sorted(cases, key=lambda c: -c.budget)]
        bp = subprocess.Popen([sys.executable, '-c',
            'import sys; sys.path.insert(0, %r); from engine import build; import os; os.makedirs(%r); build.build(%r, %r)'
            % (VERIF, os.path.join(scratch, 'real'), repo, os.path.join(scratch, 'real'))],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        def log(r):
            if verbose: print('  %-40s %6.1fs paths=%s claims=%s queries=%s solver=%.1fs %s' % (
                r['name'], r['wall'], r.get('stats', {}).get('paths'), r.get('stats', {}).get('claims'),
                r.get('stats', {}).get('queries'), r.get('stats', {}).get('solver_s', 0),
                r.get('error', '') or ' '.join(r.get('incon', [])) + (' CAND ' + r['cands'][0]['what'] if r.get('cands') else '')), flush=True)
        kf = [f for f in known_findings() if f['property'] == prop]
        seen_, waiting = {}, []
        while jobs or waiting:
            # a run that turns up many candidates pauses to replay them
            res, jobs = run_pool(jobs, {c.name: c.budget for c in cases}, nproc, deadline, log,
                                 stop=lambda out: sum(1 for r in out if unlisted(r, kf)) >= PAUSE)
            results += res
            if bp is not None:
                bo, _ = bp.communicate()
                if bp.returncode: errors.append('building the real package: %s' % bo[-1500:])
                else: conc.built[False] = os.path.join(scratch, 'real')
                bp = None
            cands = [c for r in res for c in r.get('cands', [])]
            # one candidate of each case first; in batches, until one batch shows a violation
            order = []
            for c in cands:
                k = seen_[c['case']] = seen_.get(c['case'], 0) + 1
                order.append((k, len(order), c))
            waiting = [c for _, _, c in sorted(order, key=lambda x: x[:2])]
            if not conc.built: notrep += waiting; waiting = []; continue
            while waiting and not violations:
                batch, waiting = waiting[:8], waiting[8:]
                done = {}
                for rnd in (0, 1, 2):
                    idx = [i for i in range(len(batch)) if i not in done]
                    if rnd == 2: idx = [i for i in idx if batch[i]['kind'].startswith('fault:')]
                    rj, owner = [], []
                    for i in idx:
                        for a in (batch[i]['assignments'][:1] if rnd == 0 else batch[i]['assignments'][1:] if rnd == 1 else batch[i]['assignments']):
                            rj.append(dict(case=batch[i]['case'], values=a, choices=batch[i]['choices'])); owner.append(i)
                    if not rj: continue
                    bad = lambda n, r: bool(r['failed']) and match(kf, batch[owner[n]]) is None
                    try: rr = conc.run(rj, sanitize=rnd == 2, enough=bad)
                    except Exception as e: errors.append('replay: %s' % e); break
                    for j, o, r in zip(rj, owner, rr):
                        if r and r['failed'] and o not in done: done[o] = (j, r, rnd == 2)
                    if any(match(kf, batch[o]) is None for o in done): break
                for i, c in enumerate(batch):
                    if i not in done:
                        notrep.append(c); continue
                    j, r, san = done[i]
                    f = match(kf, c)
                    (known if f else violations).append((c, j, r, san, f))
            if violations:
                notrun = len(jobs)
                break

    # concordance: the same harness, at a point of a verified path, on the real build
    validated = 0
    if conc.built and not errors and not violations:
        cj = [c for r in results for c in r.get('conc', [])]
        if cj:
            res = conc.run(cj)
            for j, r in zip(cj, res):
                if r is None: continue
                if r['status'] == 'assumption': continue
                if r['failed']:
                    c = dict(case=j['case'], what=r['failed'][0], kind='concordance', choices=j['choices'])
                    f = match(kf, c)
                    (known if f else violations).append((c, j, r, False, f))
                else: validated += 1

    incon = ['%s: %s' % (r['name'], x) for r in results for x in r.get('incon', [])]
    incon += ['%s: %s' % (r['name'], r['error']) for r in results if 'error' in r]
    vac = [r['name'] for r in results if 'error' not in r and not r['stats']['paths']]
    incon += ['%s: no path reaches the assertion' % n for n in vac]
    # second solver on the recorded claim queries
    cross = crosscheck(results, tier) if dump else None
    if cross and cross['disagree']: errors.append('solver disagreement: %s' % cross['disagree'][:2])

    rdir = os.path.join(VERIF, 'evidence', 'replays')
    for k, (c, j, r, san, f) in enumerate(violations[:20]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, '%s-%d.json' % (prop, k))
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, tier=tier, case=c['case'], claim=c['what'], kind=c['kind'], sanitize=san,
                           choices=j['choices'], values=j['values'], observed=r['failed'][:5],
                           rerun='/opt/venv/bin/python %s/check.py --replay %s' % (VERIF, path)), fh, indent=1)
        print('%s: %s: %s' % (prop, c['case'], c['what']))
        print('  observed on the real build: %s' % '; '.join(r['failed'][:2]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    seen = set()
    for c, j, r, san, f in known:
        if f['id'] in seen: continue
        seen.add(f['id'])
        print('KNOWN-FINDING: property=%s %s' % (prop, f['summary']))
    write_evidence(prop, tier, seed, m, cases, results, violations, known, validated, incon, cross, t0)
    tot = totals(results)
    print('%s %s: %d cases, %d paths, %d claims, %d solver queries (%.1f s solver), %d replayed on the real build, %.1f s' % (
        prop, tier, len(results), tot.paths, tot.claims, tot.queries, tot.solver_s, validated, time.time()-t0))
    if notrun: print('%d cases not run after the violation' % notrun)
    if violations: return 1
    for c in notrep:
        print('INCONCLUSIVE %s: %s: counterexample not reproduced on the real build (%s)' % (c['case'], c['what'], c['kind']))
    for x in incon: print('INCONCLUSIVE', x)
    for x in errors: print('ERROR', x)
    if errors: return 2
    # what was not decided is listed above and in the evidence; no answer at all only when
    # most of the cases are undecided
    und = {c['case'] for c in notrep} | {x.split(':')[0] for x in incon}
    if und: print('UNDECIDED %d of %d cases' % (len(und), len(results)))
    if 2*len(und) > len(results): return 2
    return 0

def match(kf, c):
    for f in kf:
        if re.search(f['case'], c['case']) and re.search(f['what'], c['what']): return f
    return None

def totals(results):
    from .sym import Stats
    s = Stats()
    for r in results:
        if 'stats' in r: s.add(r['stats'])
    return s

def crosscheck(results, tier):
    """cvc5 on the recorded claim queries (bounded number and time)."""
    try: import cvc5
    except Exception as e: return dict(error=str(e), disagree=[])
    qs = [(r['name'], q, v) for r in results for q, v in (r.get('dump') or []) if v in ('sat', 'unsat') and len(q) < 200000]
    random.Random(1).shuffle(qs)
    qs = qs[:60]
    agree = unk = 0
    dis = []
    t0 = time.time()
    for name, q, v in qs:
        if time.time()-t0 > 300: break
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(q)
        try:
            p = subprocess.run(['cvc5', '--tlimit=10000', f.name], capture_output=True, text=True, timeout=30)
            o = p.stdout.strip().split('\n')[0]
        except Exception: o = 'unknown'
        os.unlink(f.name)
        if o == v: agree += 1
        elif o in ('sat', 'unsat'): dis.append((name, v, o))
        else: unk += 1
    return dict(agree=agree, unknown=unk, disagree=dis, wall_s=time.time()-t0)

def write_evidence(prop, tier, seed, m, cases, results, violations, known, validated, incon, cross, t0):
    tot = totals(results)
    ft = sorted({x for r in results for x in r.get('ft', [])})
    py = sorted({x for r in results for x in r.get('py', [])})
    cc = sorted({x for r in results for x in r.get('cc', [])})
    samples = []
    for r in results[:400]:
        if len(samples) >= 12: break
        for c in r.get('conc', [])[:1]:
            samples.append(dict(case=c['case'], choices=c['choices'], witness={k: c['values'][k] for k in list(c['values'])[:8]}))
    if not samples: samples = [dict(case=r['name']) for r in results[:3]]
    cov = dict(
        states=tot.paths, transitions=tot.queries + tot.fast, traces_validated_against_impl=validated,
        samples=samples, cases=len(results), claims=tot.claims,
        rounding_level_claims=sum(r.get('rounding', 0) for r in results),
        claim_queries=tot.claim_queries, branch_queries=tot.branch_queries, solver_queries=tot.queries,
        unsat=tot.unsat, sat=tot.sat, unknown=tot.unknown, solver_s=round(tot.solver_s, 2),
        decided_by_bounds=tot.fast, forks=tot.forks,
        functions_encoded=dict(fortran=ft, python=py, c=cc),
        bounds=getattr(m, 'BOUNDS', ''), outside=getattr(m, 'OUTSIDE', ''),
        case_names=[r['name'] for r in results],
        known_findings=len({k[4]['id'] for k in known}), inconclusive=incon[:20],
        explanation='states = symbolic paths explored to the end; transitions = branch decisions and claim queries; '
                    'every claim is an assertion over all values of the symbolic variables of its case, decided by z3',
    )
    if cross: cov['cvc5_crosscheck'] = {k: v for k, v in cross.items()}
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(m, 'ASSUMPTIONS', [])) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time()-t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)

COMMON_ASSUMPTIONS = [
    'float64 arithmetic is modelled by exact real arithmetic; differences below 1e-6 relative are rounding, not violations',
    'numpy is modelled by engine/npshim.py and the f2py wrapper by engine/f2py.py (validated by replaying a witness of each case on a real build)',
]

def replay(path):
    with open(path) as f: d = json.load(f)
    scratch = tempfile.mkdtemp(prefix='igakit-verif-')
    try:
        from . import loader
        c = Concrete(d['property'], d['tier'], scratch, loader.REPO)
        r = c.run([dict(case=d['case'], values=d['values'], choices=d['choices'])], sanitize=d.get('sanitize', False))[0]
        print(json.dumps(r, indent=1))
        return 1 if r['failed'] else 0
    finally: shutil.rmtree(scratch, ignore_errors=True)
