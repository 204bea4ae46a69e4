"""Client of the simulation server (sim/main.cpp): one call is one simulated execution."""
import json, os, select, shutil, subprocess, tempfile, hashlib
import numpy as np

WHAT = ['EIO', 'ENOSPC', 'EINTR', 'short', 'crash', 'torn-crash', 'EACCES', 'cut-file', 'disk-full-at', 'alloc-fail',
        'clock-jump', 'fewer-threads', 'stalled-thread', 'extreme-draw', 'small-list', 'EMFILE', 'ENOENT']
CLS = ['other', 'output', 'input', 'table', 'summary']
OP = ['open', 'read', 'write', 'truncate', 'close', 'sync']
POL = ['none', 'rand', 'lock', 'pct', 'hot', 'stall', 'rr']
TABLES = ['chimin.table', 'hsokolov.table', 'ksi_sokolov.table', 'pairprod.table', 'e_split.table', 'epsilon.table', 'log_chi.table']
REPO = os.environ.get('QS_REPO', '/repo')

SCALARS = ('variant', 'threads', 'ranks', 'rankbase', 'grant', 'seed', 'cap', 'rare', 'evdraw', 'poison', 'bgshort', 'bgeintr', 'clock0',
           'pol', 'mean', 'hotp', 'depth', 'len', 'sseed', 'profile', 'forced', 'netseed', 'rdv', 'alleager', 'allsync',
           'delay', 'slowlink', 'steplimit', 'wall')


class SimError(Exception):
    pass


def fault(what, cls=0, op=0, rank=-1, n=0, sticky=0, arg=0.0, name=''):
    return dict(what=what, cls=cls, op=op, rank=rank, n=n, sticky=sticky, arg=arg, name=name)


def fault_text(f):
    if f['what'] == 'alloc-fail':
        return 'alloc-fail %s #%d%s' % ('malloc' if f['cls'] else 'new', f['n'], '+' if f['sticky'] else '')
    if f['what'] == 'cut-file':
        return 'cut-file %s at value %d' % (f['name'], f['n'])
    if f['what'] == 'disk-full-at':
        return 'disk-full-at %d bytes' % f['arg']
    return '%s %s.%s #%d%s' % (f['what'], CLS[f['cls']] if isinstance(f['cls'], int) else f['cls'],
                               OP[f['op']] if isinstance(f['op'], int) else f['op'], f['n'], '+' if f['sticky'] else '') + (' of ' + f['name'] if f['name'] else '')


def load_bin(path):
    out = {}
    with open(path, 'rb') as f:
        while True:
            h = f.read(88)
            if len(h) < 88:
                break
            h = np.frombuffer(h, dtype=np.int64)
            name = f.read(int(h[0])).decode(errors='replace')
            n = int(h[10])
            a = np.frombuffer(f.read(8 * n), dtype=np.float64)
            out[name] = a.reshape([int(x) for x in h[2:2 + int(h[1])]])
    return out


def cut_table(text, k):
    """The first k white-space separated values of a table, cut at a value boundary."""
    import re
    pos = 0
    for i, m in enumerate(re.finditer(r'\S+', text)):
        if i == k:
            break
        pos = m.end()
    return text[:pos] + '\n' if k else ''


class Sim:
    def __init__(self, exe, libdir, tag='0'):
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        self.dir = tempfile.mkdtemp(prefix='qs-%s-' % tag, dir=base)
        self.exe, self.libdir, self.p, self.count = exe, libdir, None, 0

    def start(self):
        env = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'QED_TABLES_PATH': os.path.join(REPO, 'Tables'), 'HOME': self.dir,
               'OMP_NUM_THREADS': '1', 'HDF5_USE_FILE_LOCKING': 'BEST_EFFORT'}
        self.p = subprocess.Popen([self.exe, self.libdir], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env,
                                  stderr=subprocess.DEVNULL, cwd=self.dir)
        l = self.p.stdout.readline()
        if l.strip() != b'READY':
            raise SimError('simulator did not start: %r' % l)

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None
        shutil.rmtree(self.dir, ignore_errors=True)

    def restart(self):
        if self.p:
            self.p.kill()
            self.p.wait()
        self.p = None

    def newdir(self):
        self.count += 1
        d = os.path.join(self.dir, 'r%06d' % self.count)
        os.mkdir(d)
        return d

    def run(self, spec, files=None, keep=None, read=('out.h5',), clean=True):
        """Executes one run. keep: directory to run in (kept); else a fresh one."""
        if self.p is None:
            self.start()
        d = keep or self.newdir()
        for n, c in (files or {}).items():
            with open(os.path.join(d, n), 'w') as f:
                f.write(c)
        L = ['BEGIN ' + d]
        for k in SCALARS:
            if k in spec:
                v = spec[k]
                if k == 'pol':
                    v = POL.index(v)
                if isinstance(v, bool):
                    v = int(v)
                L.append('%s %s' % (k, v if isinstance(v, (int, str)) else repr(float(v))))
        tabs = None
        for f in spec.get('faults', ()):
            if f['what'] == 'cut-file':
                if tabs is None:
                    tabs = os.path.join(d, 'tables')
                    os.mkdir(tabs)
                    src = os.path.join(REPO, 'Tables')
                    for t in os.listdir(src):
                        os.symlink(os.path.join(src, t), os.path.join(tabs, t))
                p = os.path.join(tabs, f['name'])
                with open(p) as g:
                    t = g.read()
                os.unlink(p)
                with open(p, 'w') as g:
                    g.write(cut_table(t, f['n']))
                continue
            w = WHAT.index(f['what'])
            c = CLS.index(f['cls']) if isinstance(f['cls'], str) else f['cls']
            o = OP.index(f['op']) if isinstance(f['op'], str) else f['op']
            L.append('fault %d %d %d %d %d %d %r %s' % (w, c, o, f['rank'], f['n'], f['sticky'], float(f['arg']), f['name'] or '-'))
        if tabs:
            L.append('tables ./tables')
        for h in spec.get('hot', ()):
            L.append('hot ' + h)
        for a, b, c in spec.get('sw', ()):
            L.append('sw %d %d %d' % (a, b, c))
        for r in read:
            L.append('read ' + r)
        L.append('GO')
        try:
            self.p.stdin.write(('\n'.join(L) + '\n').encode())
            self.p.stdin.flush()
            wait = spec.get('wall', 60) + 75
            rd, _, _ = select.select([self.p.stdout], [], [], wait)
            line = self.p.stdout.readline() if rd else b''
        except (BrokenPipeError, OSError):
            line = b''
        if not line:
            self.restart()
            raise SimError('simulator stopped')
        r = json.loads(line)
        r['data'] = {}
        r['exists'] = [os.path.exists(os.path.join(d, n)) for n in read]
        for n, c in zip(read, r['reads']):
            if c == 0:
                r['data'][n] = load_bin(os.path.join(d, n + '.bin'))
        r['out'] = _txt(os.path.join(d, 'stdout.txt'))
        r['err'] = _txt(os.path.join(d, 'stderr.txt'))
        chk = os.path.join(d, 'input-check.txt')
        r['summary'] = _txt(chk) if os.path.exists(chk) else None
        res = os.path.join(d, 'res.json')
        r['res'] = _txt(res, 1 << 28) if os.path.exists(res) else None
        if keep is None and clean:
            shutil.rmtree(d, ignore_errors=True)
        else:
            r['dir'] = d
        return r


def _txt(p, limit=200000):
    try:
        with open(p, errors='replace') as f:
            return f.read(limit)
    except OSError:
        return ''


def outcome_hash(r):
    """Everything observable of a run: equal for equal executions."""
    h = hashlib.sha256()
    for k in ('exit', 'signal', 'deadlock', 'steplimit', 'steps', 'switches', 'ilhash', 'msgs', 'draws', 'allocs', 'peakbytes', 'nfired'):
        h.update(('%s=%s;' % (k, r.get(k))).encode())
    h.update(str(r['simtime']).encode())
    for n in sorted(r['data']):
        for k in sorted(r['data'][n]):
            h.update(k.encode())
            h.update(r['data'][n][k].tobytes())
    if r.get('res'):
        h.update(r['res'].encode())
    return h.hexdigest()[:24]
