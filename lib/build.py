"""Builds the driver from the library sources of /repo's working tree."""
import glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = ['g++', '-std=c++17', '-O1', '-g1', '-DNDEBUG', '-DBOOST_FIBERS_NO_LIB', '-DBOOST_FIBERS_STATIC_LINK=1', '-w']
TSAN = ['-fsanitize=thread', '-Wno-tsan']


class BuildError(Exception):
    pass


def _files(root, subs):
    out = []
    for s in subs:
        for d, _, fs in os.walk(os.path.join(root, s)):
            out += [os.path.join(d, f) for f in fs if f.endswith(('.hpp', '.cpp', '.h', '.ipp'))]
    return sorted(out)


def tree_key():
    h = hashlib.sha256()
    for f in _files(REPO, ['include', 'src']) + _files(VERIF, ['vrt', 'driver']) + [os.path.abspath(__file__)]:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-6000:])


def guard(d):
    """the installed Boost.Fiber headers must never be used in place of /repo's"""
    g = os.path.join(d, 'guard')
    src = '/usr/include/boost/fiber'
    for r, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(r, f), src)
            p = os.path.join(g, 'boost/fiber', rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as fh:
                fh.write('#error "installed Boost.Fiber header used instead of the tree under test"\n')
    return g


def lib_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        rel = os.path.relpath(d, os.path.join(REPO, 'src')).split(os.sep)
        if 'numa' in rel:
            continue
        out += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    return sorted(out)


def numa_sources():
    s = os.path.join(REPO, 'src', 'numa')
    return [f for f in (os.path.join(s, 'linux', 'pin_thread.cpp'), os.path.join(s, 'linux', 'topology.cpp'),
                        os.path.join(s, 'algo', 'work_stealing.cpp')) if os.path.exists(f)]


def build(quiet=True):
    """returns the directory with the built driver programs"""
    key = tree_key()
    d = os.path.join(BUILD, 'drv-' + key)
    if os.path.exists(os.path.join(d, 'ok')):
        os.utime(d)
        return d
    os.makedirs(BUILD, exist_ok=True)
    tmp = d + '.tmp%d' % os.getpid()
    os.makedirs(tmp)
    g = guard(tmp)
    inc = ['-I' + os.path.join(REPO, 'include'), '-isystem', g]
    jobs = []
    objs = []
    def add(src, flags, name):
        o = os.path.join(tmp, name + '.o')
        jobs.append(CXX + flags + inc + ['-c', src, '-o', o])
        return o
    lib = [add(s, TSAN, 'lib_' + os.path.relpath(s, REPO).replace('/', '_')) for s in lib_sources()]
    drv = []
    for s in sorted(glob.glob(os.path.join(VERIF, 'driver', '*.cpp'))):
        n = os.path.basename(s)[:-4]
        fl = [] if n == 'support' else TSAN
        drv.append(add(s, fl, 'drv_' + n))
    vo = add(os.path.join(VERIF, 'vrt', 'vrt.cpp'), ['-O2'], 'vrt')
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    run(['g++'] + lib + drv + [vo] + ['-o', os.path.join(tmp, 'drv'), '-lboost_context', '-lpthread'])
    for o in lib + drv + [vo]:
        os.remove(o)
    shutil.rmtree(g)
    open(os.path.join(tmp, 'ok'), 'w').close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    # keep a few builds only
    olds = sorted(glob.glob(os.path.join(BUILD, 'drv-*')), key=os.path.getmtime)
    for o in olds[:-24]:
        shutil.rmtree(o, ignore_errors=True)
    return d


if __name__ == '__main__':
    t = time.time()
    print(build(), round(time.time() - t, 1))
