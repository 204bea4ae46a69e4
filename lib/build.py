"""Builds the code under test, from /repo's working tree, for the simulator.

The repository's own CMake configuration supplies sources and flags; every source is
recompiled with memory-access instrumentation (-fsanitize=thread, compile step only) and
linked into a shared object whose seams the simulator (sim/*.cpp) supplies.
"""
import hashlib, json, os, shlex, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QS_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
WRAP = ['-Wl,--wrap=_ZN7MCTools10RandDoubleEdd',
        '-Wl,--wrap=_ZN12ParticleListC1ENSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEj']
OPTS = {'ser': [], 'omp': ['-DBUILD_OPENMP=ON'], 'mpi': ['-DBUILD_MPI=ON', '-DBUILD_OPENMP=ON'],
        'py': ['-DBUILD_PYTHON=ON', '-DPYTHON_EXECUTABLE=/usr/bin/python3'],
        'pys': ['-DBUILD_PYTHON=ON', '-DBUILD_OPENMP=OFF', '-DPYTHON_EXECUTABLE=/usr/bin/python3']}
MAXR = 12


class BuildError(Exception):
    pass


def tree_files(root, subs):
    out = []
    for s in subs:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds.sort()
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        try:
            with open(f, 'rb') as g:
                h.update(hashlib.sha256(g.read()).digest())
        except OSError:
            pass
    return h.hexdigest()[:16]


def run(cmd, cwd=None):
    env = dict(os.environ)
    env.update(CC='gcc', CXX='g++', CCACHE_DISABLE='1', LC_ALL='C')
    env.pop('LD_LIBRARY_PATH', None)
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-6000:]))
    return r.stdout.decode(errors='replace')


def pool_run(cmds):
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for f in [ex.submit(run, c, d) for c, d in cmds]:
            f.result()


def build_sim(root, py):
    """The simulator executables."""
    name = 'qsim_py' if py else 'qsim'
    out = os.path.join(root, name)
    if os.path.exists(out):
        return out
    obj = os.path.join(root, 'simobj' + ('_py' if py else ''))
    os.makedirs(obj, exist_ok=True)
    flags = ['-std=c++17', '-O2', '-g', '-fno-omit-frame-pointer', '-I' + SIM, '-I/usr/include/hdf5/serial']
    if py:
        flags += ['-DQS_PY', '-I/usr/include/python3.12']
    cmds, objs = [], []
    for f in ('rt', 'mem', 'io', 'mpi', 'main'):
        o = os.path.join(obj, f + '.o')
        objs.append(o)
        cmds.append((['g++'] + flags + ['-c', os.path.join(SIM, f + '.cpp'), '-o', o], None))
    pool_run(cmds)
    run(['g++', '-rdynamic', '-o', out + '.tmp'] + objs +
        ['-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-Wl,--no-as-needed', '-lhdf5_serial', '-lhdf5_serial_cpp', '-Wl,--as-needed',
         '-ldl', '-lpthread', '-lm'] + (['-lpython3.12'] if py else []))
    os.rename(out + '.tmp', out)
    return out


def build_app(root, variant):
    out = os.path.join(root, variant)
    if os.path.exists(os.path.join(out, 'ok')):
        return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cfg = os.path.join(root, 'cfg_' + variant)
    shutil.rmtree(cfg, ignore_errors=True)
    run(['cmake', '-S', REPO, '-B', cfg, '-G', 'Ninja', '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++',
         '-DCMAKE_CXX_FLAGS=-Wno-error', '--no-warn-unused-cli', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'] + OPTS[variant])
    with open(os.path.join(cfg, 'compile_commands.json')) as f:
        cc = json.load(f)
    cmds, objs, hasmain = [], [], None
    for i, e in enumerate(cc):
        src = e['file']
        if '/Tests/' in src:
            continue
        a = shlex.split(e['command'])
        o = os.path.join(out, '%d_%s.o' % (i, os.path.basename(src)))
        b, skip = [], False
        for x in a:
            if skip:
                skip = False
                continue
            if x in ('-o', '-MF', '-MT', '-MQ'):
                skip = True
                continue
            if x in ('-MD', '-MMD', '-flto', '-flto=auto', '-fno-fat-lto-objects', '-c', src) or x.startswith('-fvisibility'):
                continue
            b.append(x)
        b[1:1] = ['-I' + os.path.join(SIM, 'mpi')] if variant == 'mpi' else []
        b += ['-U_FORTIFY_SOURCE', '-fPIC', '-fsanitize=thread', '-fno-gnu-unique', '-fno-lto', '-g1', '-w',
              '-ffile-prefix-map=' + REPO + '=/repo', '-c', src, '-o', o]
        cmds.append((b, e['directory']))
        objs.append(o)
        if src.endswith('Exec/QEDCASC.cpp'):
            hasmain = o
    hook = os.path.join(out, 'hooks.o')
    cmds.append((['g++', '-std=c++11', '-O2', '-fPIC', '-c', os.path.join(SIM, 'hooks_app.cpp'), '-o', hook], None))
    pool_run(cmds)
    if hasmain is None and not variant.startswith('py'):
        for o in objs:
            if subprocess.run(['nm', '--defined-only', o], stdout=subprocess.PIPE).stdout.find(b' T main\n') >= 0:
                hasmain = o
    if not variant.startswith('py'):
        run(['objcopy', '--redefine-sym', 'main=app_main', hasmain])
    so = os.path.join(out, 'app0.so')
    run(['g++', '-shared', '-o', so] + objs + [hook] + WRAP +
        ['-Wl,-Bsymbolic', '-Wl,-z,nodelete', '-Wl,--build-id=none',
         '-L/usr/lib/x86_64-linux-gnu/hdf5/serial'] + ([] if variant.startswith('py') else ['-lhdf5_serial_cpp', '-lhdf5_serial']))
    if variant == 'mpi':
        for r in range(1, MAXR):
            shutil.copyfile(so, os.path.join(out, 'app%d.so' % r))
    for o in objs:
        os.unlink(o)
    shutil.rmtree(cfg, ignore_errors=True)
    open(os.path.join(out, 'ok'), 'w').close()
    return out


def build(variants):
    """Returns {variant: (simulator executable, directory)}; rebuilds what changed."""
    sim_d = digest(tree_files(SIM, ['.']) + [os.path.abspath(__file__)])
    app_d = digest(tree_files(REPO, ['CMakeLists.txt', 'Source']), sim_d)
    base = os.path.join(VERIF, 'build')
    os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sroot, aroot = os.path.join(base, 's' + sim_d), os.path.join(base, 'a' + app_d)
        keep = {os.path.basename(sroot), os.path.basename(aroot), 'lock'}
        if not os.environ.get('QS_KEEP'):
            for d in os.listdir(base):
                p = os.path.join(base, d)
                if d not in keep and os.path.isdir(p):
                    shutil.rmtree(p, ignore_errors=True)
        os.makedirs(sroot, exist_ok=True)
        os.makedirs(aroot, exist_ok=True)
        res = {}
        for v in variants:
            res[v] = (build_sim(sroot, v.startswith('py')), build_app(aroot, v) and aroot)
        return res


if __name__ == '__main__':
    print(build(sys.argv[1:] or list(OPTS)))
