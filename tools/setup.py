"""Setup: nothing to build; checks that the tools the checks need are there."""
import sys, os, shutil, subprocess
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, z3, pycparser
for t in ('gfortran', 'gcc'):
    assert shutil.which(t), t
import engine.loader, engine.runner, engine.f2py, engine.npshim
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
print('setup ok: z3 %s, numpy %s' % (z3.get_version_string(), numpy.__version__))
