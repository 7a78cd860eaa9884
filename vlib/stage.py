# Staging: a scratch copy of the library's sources with every generated file regenerated from egg/.
import os, shutil, subprocess, tempfile, sys, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NSIMD_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

class CheckError(Exception): pass

GEN_DIRS = ['include/nsimd/arm', 'include/nsimd/cpu', 'include/nsimd/x86', 'include/nsimd/ppc']
GEN_FILES = ['include/nsimd/functions.h', 'include/nsimd/scalar_utilities.h', 'include/nsimd/cxx_adv_api_functions.hpp', 'include/nsimd/c_adv_api_functions.h', 'include/nsimd/friendly_but_not_optimized.hpp',
             'include/nsimd/modules/random/functions.hpp', 'include/nsimd/modules/fixed_point/functions.hpp', 'include/nsimd/modules/tet1d/functions.hpp', 'include/nsimd/modules/spmd/functions.hpp']

def stage(full=False):
    """returns the staged tree (temporary directory, removed by cleanup())"""
    d = tempfile.mkdtemp(prefix='nsimd-stage-')
    for sub in ['egg', 'include', 'src', 'scripts']:
        s = os.path.join(REPO, sub)
        if os.path.isdir(s): shutil.copytree(s, os.path.join(d, sub), ignore=shutil.ignore_patterns('__pycache__', '*.o'))
    for f in ['CMakeLists.txt', 'build.nsconfig']:
        if os.path.exists(os.path.join(REPO, f)): shutil.copy(os.path.join(REPO, f), d)
    # generated files are untracked: never trust the ones lying in the working tree
    for g in GEN_DIRS:
        shutil.rmtree(os.path.join(d, g), ignore_errors=True)
    for g in GEN_FILES:
        p = os.path.join(d, g)
        if os.path.exists(p): os.remove(p)
    import glob
    for p in glob.glob(os.path.join(d, 'src', 'api_*.cpp')): os.remove(p)
    os.makedirs(os.path.join(d, 'tests'), exist_ok=True)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-B', 'egg/hatch.py', '-l', '-f'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError('hatch.py failed:\n' + r.stdout[-2000:])
    return d

def engine():
    b = os.path.join(BUILD, 'engine')
    os.makedirs(b, exist_ok=True)
    import fcntl
    with open(os.path.join(b, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['make', '-s', '-j8', '-C', os.path.join(VERIF, 'engine'), 'B=' + b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: raise CheckError('engine build failed:\n' + r.stdout[-3000:])
    return os.path.join(b, 'engine')

def cleanup(d):
    if d and os.path.basename(d).startswith('nsimd-'): shutil.rmtree(d, ignore_errors=True)
