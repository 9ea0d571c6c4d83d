"""Concrete runs of the harnesses on a real build.  Run with -S; reads jobs (JSON) on stdin."""
import sys, os
SITE = '/opt/venv/lib/python3.12/site-packages'

def main():
    build, prop, tier, scratch = sys.argv[1:5]
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, build)
    sys.path.insert(1, verif)
    sys.path.append(SITE)
    import json, importlib, warnings, faulthandler, traceback
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    os.chdir(scratch)
    import numpy as np
    np.seterr(all='ignore')
    import igakit, igakit.igalib
    assert igakit.__file__.startswith(build), igakit.__file__
    assert igakit.igalib.__file__.startswith(build), igakit.igalib.__file__
    from engine.api import ConA, AssumptionFailed
    m = importlib.import_module('engine.props.' + prop.lower())
    cases = {c.name: c for c in m.cases(tier)}
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    jobs = json.load(sys.stdin)
    for i, job in enumerate(jobs):
        out.write('start %d\n' % i); out.flush()
        c = cases[job['case']]
        A = ConA(job['values'], job['choices'], scratch, getattr(m, 'TOL', 1e-6))
        res = {'i': i, 'failed': [], 'status': 'ok'}
        try:
            c.fn(A, **c.kw)
        except AssumptionFailed:
            res['status'] = 'assumption'
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            res['failed'] = ['raised %s: %s (at %s)' % (type(e).__name__, str(e)[:200],
                             ', '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:]))]
        res['failed'] = A.failed + res['failed']
        res['nclaims'] = A.nclaims
        out.write('done %s\n' % json.dumps(res)); out.flush()

if __name__ == '__main__':
    main()
