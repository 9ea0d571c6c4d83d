"""Build a scratch copy of the package from the current tree, for replays on the real code."""
import os, shutil, subprocess, sys, glob

PY = '/opt/venv/bin/python'

def build(repo, dest, sanitize=False):
    """Copy repo/igakit to dest/igakit and compile its extension there."""
    d = os.path.join(dest, 'igakit')
    shutil.copytree(os.path.join(repo, 'igakit'), d, ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.o', '*.mod'))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    info = subprocess.run([PY, '-c', 'import numpy.f2py as f, numpy, sysconfig;'
        'print(f.get_include()); print(numpy.get_include()); print(sysconfig.get_paths()["include"]);'
        'print(sysconfig.get_config_var("EXT_SUFFIX"))'], capture_output=True, text=True, env=env, check=True).stdout.split('\n')
    f2, ni, pi, ext = info[:4]
    def run(*cmd):
        return subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    def wait(p):
        out, _ = p.communicate(timeout=600)
        if p.returncode: raise RuntimeError('build failed: %s\n%s' % (' '.join(p.args), out[-3000:]))
    san = ['-fsanitize=address', '-g'] if sanitize else []
    # poison unset locals so that a read of an unset value is visible
    fsan = san + (['-finit-real=snan', '-finit-integer=-77777777'] if sanitize else [])
    a = run('gfortran', '-O1', '-fPIC', '-w', '-c', 'igalib.f90', '-o', 'k.o', *fsan)
    fo = os.path.join(f2, 'fortranobject.c')
    if sanitize:
        # outputs start as NaN / -1 instead of the zeros f2py fills in
        with open(fo) as f: src = f.read()
        assert 'PyArray_FILLWBYTE(arr, 0)' in src
        fo = os.path.join(d, 'fobj.c')
        with open(fo, 'w') as f: f.write(src.replace('PyArray_FILLWBYTE(arr, 0)', 'PyArray_FILLWBYTE(arr, 0xff)'))
    c = run('gcc', '-O1', '-fPIC', '-w', '-I' + ni, '-I' + pi, '-I' + f2, '-c', fo, '-o', 'c.o')
    g = run(PY, '-m', 'numpy.f2py', 'igalib.pyf')
    wait(g)
    b = run('gcc', '-O0', '-fPIC', '-w', '-I' + ni, '-I' + pi, '-I' + f2, '-c', 'igalibmodule.c', '-o', 'b.o')
    wait(a)
    objs = ['k.o', 'b.o', 'c.o']
    wrap = glob.glob(os.path.join(d, 'igalib-f2pywrappers*'))
    w = [run('gfortran', '-O0', '-fPIC', '-w', '-c', os.path.basename(x), '-o', 'w%d.o' % i) for i, x in enumerate(wrap)]
    for p in w + [b, c]: wait(p)
    objs += ['w%d.o' % i for i in range(len(wrap))]
    wait(run('gfortran', '-shared', *(objs + san + ['-o', 'igalib' + ext])))
    return dest
