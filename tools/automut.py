#!/usr/bin/env python3
"""automut.py SEED COUNT: random one-token changes of the sources, given to all checks (a fraction of their quick scenarios
each, likely ones first) until one reports; prints what no check reports. W workers (default 3)."""
import sys, os, re, random, subprocess, threading, queue
sys.dont_write_bytecode = True
seed, count = int(sys.argv[1]), int(sys.argv[2])
W = int(os.environ.get('W', '3'))
S = '/repo/Source/'
FILES = {  # file: weight and the checks to begin with
    'Python/RunManager.cpp': (2.0, 'C07 C27 C06 C24 C20'), 'Exec/QEDCASC.cpp': (2.5, 'C01 C03 C28 C09 C29 C15 C11'),
    'Physics/ParticlePushers/ModifiedLandauPusher.cpp': (.5, 'C22 C27 C17'), 'Physics/ParticlePushers/LandauPusher.cpp': (.4, 'C22 C27 C17'),
    'Physics/ParticlePushers/ParticlePusher.cpp': (1, 'C04 C17 C22'), 'Physics/ParticlePushers/LorentzPusher.cpp': (.3, 'C17 C04'),
    'Physics/Processes/ContinuousEmission.cpp': (1, 'C20 C22 C17'), 'Physics/Processes/NonLinearBreitWheeler.cpp': (1.5, 'C16 C21 C18 C14'),
    'Physics/Processes/StochasticEmission.cpp': (1, 'C17 C20 C21'), 'Physics/Processes/PhotonEmission.cpp': (1.3, 'C21 C22 C14 C17'),
    'Tools/MCTools.cpp': (1, 'C26 C05 C21'), 'Tools/Numerics.cpp': (.8, 'C21 C16 C22'), 'Tools/UnitsSystem.cpp': (.3, 'C27 C26'),
    'Particles/SourceGenerator.cpp': (1.2, 'C26 C01'), 'Particles/Particle.cpp': (1, 'C04 C21'), 'Particles/Lepton.cpp': (.5, 'C04 C17'), 'Particles/Photon.cpp': (.5, 'C04 C18'),
    'Particles/ParticleList.cpp': (.7, 'C19 C24 C15'), 'IO/Input/FileParser.cpp': (1.5, 'C26 C27 C13 C29 C20'), 'IO/Input/INIReader.cpp': (.8, 'C26 C13 C29'), 'IO/Input/ini.cpp': (.8, 'C13 C26'),
    'IO/Output/HDF5Output.cpp': (.8, 'C11 C12 C15'), 'IO/Output/OutputManager.cpp': (4, 'C01 C04 C08 C09 C10 C11'), 'IO/Output/Histogram.cpp': (1.3, 'C03 C09'),
    'Particles/ParticleList.hh': (.3, 'C19'), 'Particles/Particle.hh': (.3, 'C04'), 'Particles/SourceGenerator.hh': (.2, 'C01')}
ALL = ['C%02d' % k for k in range(1, 30)]
OPS = [(r'(?<![<>=!+\-*/&|])<(?![<=])', '<='), (r'(?<![<>=!\-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'), (r'<=', '<'), (r'>=', '>'),
       (r'(?<=[\w)\]] )\+(?= )', '-'), (r'(?<=[\w)\]] )-(?= )', '+'), (r'(?<=[\w)\]] )\*(?= )', '/'), (r'(?<=[\w)\]] )/(?= )', '*'), (r'\+=', '-='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '0'), (r'(?<![\w.])2(?![\w.])', '3'), (r'(?<![\w.])8(?![\w.])', '7'), (r'\b1\.0\b', '1.1'), (r'\b2\.0\b', '2.2'),
       (r'\+ i\b', ''), (r'\[0\]', '[1]'), (r'\[1\]', '[2]'), (r'\[2\]', '[0]'), (r'Electron', 'Positron'), (r'Positron', 'Electron'), (r'electron', 'positron'), (r'positron', 'electron'),
       (r'\bcontinue;', ';'), (r'\bbreak;', ';'), (r'static_cast<unsigned int>', 'static_cast<int>'), ('STMT', ''), ('STMT', ''), ('STMT', ''), ('IF', ''), ('IF', '')]


def candidates(f):
    L = open(S + f).read().split('\n')
    com = False
    for n, l in enumerate(L):
        t = l.strip()
        if com or t.startswith('/*'):
            com = '*/' not in t
            continue
        if not t or t.startswith(('//', '#', '<<', 'std::cout', 'std::cerr', '"', 'm_checkFile')) or 'cout' in t or 'cerr' in t or 'm_checkFile' in t:
            continue
        code = l.split('//')[0]
        for o, (a, b) in enumerate(OPS):
            if a == 'STMT':
                if re.match(r'^[\w\->.\[\]()*+ =,/&:!]+;$', t) and not t.startswith(('return', 'using', 'break', 'continue', 'const', 'double ', 'int ', 'unsigned', 'bool', 'std::', 'ThreeVector ')) and re.search(r'=|\(|\+\+', t):
                    yield n, code, re.match(r'\s*', code).group() + ';'
            elif a == 'IF':
                m = re.match(r'^(\s*(?:\} else )?if ?)\((.*)\)(.*)$', code)
                if m and m.group(2).count('(') == m.group(2).count(')'):
                    yield n, code, '%s(%s && (%s))%s' % (m.group(1), 'false' if o % 2 else 'true', m.group(2), m.group(3)) if o % 2 else '%s(true || (%s))%s' % (m.group(1), m.group(2), m.group(3))
            else:
                for x in re.finditer(a, code):
                    if '"' in code and code[:x.start()].count('"') % 2:
                        continue
                    yield n, code, code[:x.start()] + b + code[x.end():]


r = random.Random(seed)
M, seen = [], set()
names = sorted(FILES)
SKIP = {("Tools/MCTools.cpp", n) for n in range(40, 94)} | {("IO/Output/Histogram.cpp", n) for n in range(168, 275)}   # Fill of a list: nothing calls it
while len(M) < count:
    f = r.choices(names, [FILES[k][0] for k in names])[0]
    c = list(candidates(f))
    if not c:
        continue
    n, a, b = r.choice(c)
    if (f, n, b) in seen or (f, n) in SKIP:
        continue
    seen.add((f, n, b))
    M.append((f, n, a, b))
q = queue.Queue()
for i, x in enumerate(M):
    q.put((i,) + x)
lock = threading.Lock()


def one(w, f, n, a, b):
    d = '/tmp/qs-auto/%d' % w
    subprocess.run('mkdir -p %s; rsync -a --delete --exclude _build --exclude _build_mpi --exclude _build_py /repo/ %s/repo/; rsync -a --exclude seeded --exclude .git /verif/ %s/verif/' % (d, d, d), shell=True, check=True)
    p = d + '/repo/Source/' + f
    L = open(p).read().split('\n')
    assert L[n].startswith(a)
    L[n] = b
    open(p, 'w').write('\n'.join(L))
    first = FILES[f][1].split()
    sh = lambda c, lim: subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && QS_WORKERS=%d timeout 900 env VERIF_SEED=1 ./check %s quick %s' % (d, d, max(2, 9 // W), c, lim)],
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    for rnd, (cs, frac) in enumerate(((first, 3), ([c for c in ALL if c not in first], 6), (first, 1))):
        for c in cs:
            lim = LIM[c] // frac
            x = sh(c, lim)
            if x.returncode == 1:
                o = x.stdout.decode(errors='replace').splitlines()
                v = [k for k, l in enumerate(o) if l.startswith('VIOLATION')]
                return 'caught %s %s' % (c, o[max(0, v[0] - 3)][:160] if v else '')
            if x.returncode == 2 and b'build failed' in x.stdout:
                return 'no-build'
            if x.returncode not in (0, 1):
                return 'rc%d %s %s' % (x.returncode, c, x.stdout.decode(errors='replace')[-300:])
    return 'SURVIVES'


sys.path.insert(0, '/verif/lib')
import main as lm  # noqa
PR = lm.load()
LIM = {k: (v.n['quick']) for k, v in PR.items()}


def work(w):
    while True:
        try:
            x = q.get_nowait()
        except queue.Empty:
            return
        try:
            o = one(w, *x[1:])
        except Exception as e:
            o = repr(e)
        with lock:
            print('%s\n  #%d %s:%d\n  - %s\n  + %s' % (o, x[0], x[1], x[2] + 1, x[3].strip(), x[4].strip()), flush=True)


ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
