"""Properties of the Python interface: C06, C07, C24."""
import copy, json, math
import numpy as np
import core, gen
from conc import policy, geom, near_match
from judge import same_rows, diff_rows

EMBED = r'''
import json, gc, hashlib, sys
import numpy as np
import _qsim
import QEDCascPy
T = json.loads(%r)
S, out, kept = {}, [], []
def arg(a):
    return QEDCascPy.ThreeVector(*a['v']) if isinstance(a, dict) else a
def rec(a):
    kept.append((a, hashlib.sha256(a.tobytes()).hexdigest()))
    return [list(a.shape), str(a.dtype), np.ascontiguousarray(a).tobytes().hex()]
GETS = ('getInput', 'getElectrons', 'getPositrons', 'getPhotons')
for op in T['ops']:
    k = op[0]
    n0 = _qsim.live()[2]
    res = 'ok'
    print(len(out), flush=True)
    try:
        if k == 'new':
            S[op[1]] = QEDCascPy.RunManager()
        elif k == 'del':
            del S[op[1]]
            gc.collect()
        elif k == 'call':
            x = getattr(S[op[1]], op[2])(*[arg(a) for a in op[3]])
            res = 'ok' if x is None else repr(type(x))
        elif k == 'get':
            res = [rec(getattr(S[op[1]], g)()) for g in GETS]
        elif k == 'check':
            res = [i for i, (a, h) in enumerate(kept) if hashlib.sha256(a.tobytes()).hexdigest() != h]
    except Exception as e:
        res = 'raised ' + type(e).__name__
    out.append([res, n0, _qsim.live()[2]])
with open('res.json', 'w') as f:
    json.dump(out, f)
'''
COLS = (6, 7, 7, 7)
NAMES = ('input', 'electrons', 'positrons', 'photons')


def script(ops):
    return {'script.py': EMBED % json.dumps({'ops': ops})}


def arr(a, n):
    shape, dt, h = a
    if dt != 'float64' or len(shape) != 2 or shape[1] != n:
        raise ValueError('array of shape %s, type %s' % (shape, dt))
    return np.frombuffer(bytes.fromhex(h)).reshape(shape)


def arrays(g):
    return [arr(a, n) for a, n in zip(g, COLS)]


def pyfinished(r, what='session'):
    if r['deadlock']:
        return [('deadlock', '%s: all threads wait for one another: %s' % (what, r['msg']))]
    if r['steplimit']:
        return [('no-progress', '%s: no end within the step limit' % what)]
    if r['signal'] or r['exit'] != 0 or r['res'] is None:
        return [('interpreter-ended', '%s: the interpreter ended: exit %d signal %d %s %s' % (what, r['exit'], r['signal'], r['msg'], r['err'][-300:]))]
    return []


def V(v, s=1.0):
    return {'v': [x * s for x in v]}


def calls(c):
    """Configuration calls of a configuration, by name."""
    g, f, p, q = c['general'], c['field'], c['particles'][0], c['physics']
    return {
        'setTime': [g['dt'] * gen.T0, g['dt'] * (g['steps'] - 0.5) * gen.T0],
        'setField': [f['type'], f['max'] * gen.ESCHW, f['wavelength'] * gen.L0, f['duration'] * gen.T0, f['waist'] * gen.L0, f['pol'],
                     V(f['start'], gen.L0), V(f['focus'], gen.L0)],
        'setPhysics': [q['model']],
        'setSampleFraction': [q['frac']],
        'usePairProduction': [q['pairs']],
        'setGenerator': [p['type'], p['distro'], p['e1'] * gen.E0, p['e2'] * gen.E0, p['rad'] * gen.L0, p['dur'] * gen.T0, p['div'],
                         V(p['pos'], gen.L0), V(p['dir'])]}


ORDER = ('setTime', 'setField', 'setPhysics', 'setSampleFraction', 'usePairProduction', 'setGenerator')


def pyspec(r, variant='py', threads=1, cap=3000, **kw):
    s = dict(variant=variant, threads=1, seed=r.randrange(1, 1 << 31), cap=cap, poison=r.randrange(0, 8))
    s.update(policy(r, threads))
    s.update(kw)
    return s


class Py(core.Prop):
    variants = ('py',)
    real = ('Source/Python/RunManager.cpp and its pybind11 bindings, all sources they use (compiled from the working tree, memory accesses instrumented), '
            'CPython 3.12, numpy')
    stub = ('thread scheduling and the OpenMP runtime, clocks, machine entropy (std::random_device), file-system calls, C++ memory allocator')

    def sutrun(self, X, s, files):
        s = dict(s)
        if not s.get('forced') and s.get('pol') in ('hot', 'stall', 'pct'):
            q = {k: s[k] for k in ('variant', 'threads', 'seed', 'cap', 'evdraw', 'poison', 'grant') if k in s}
            q.update(pol='rand', mean=40.0, sseed=7, profile=1)
            pr = X.run(q, files, read=(), cache=True)
            if s['pol'] == 'pct':
                s['len'] = max(1000, pr['steps'])
            else:
                s['hot'] = pr['hot']
                if not pr['hot']:
                    s['pol'] = 'rand'
        return X.run(s, files, read=(), sut=True)

    def execute(self, sc, X):
        for s in ([sc['sut']] if 'sut' in sc else sc['suts']):
            v = self.one(sc, s, X)
            if v:
                X.focus = s
                return v
        return []


# ---------------------------------------------------------------- C06
class C06(Py):
    id = 'C06'
    n = dict(quick=1000, thorough=9000)
    rule = ('A scenario is a random configuration set through the Python interface, simulated by 2-8 threads under 4 random schedules; the same script with '
            'one thread and the same entropy is the reference.')

    def gen(self, r, i, tier):
        q = r.random() < 0.25
        c = gen.config(r, model=r.choice(['Quantum', 'quantum']) if q else r.choice(['Classical', 'classical', 'Semiclassical', 'semiclassical']), sources=1,
                       steps=r.randint(1, 8), field=r.choice(['gaussian', 'Gaussian', 'focusing', 'Focusing']), frac=r.choice([1.0, 1.0, 0.5, 0.2]),
                       pairs=r.random() < 0.2, nev=r.choice([0, 1, 2, 3, 5, 8, 13, 16, 24, 40]))
        if r.random() < 0.08:
            c['particles'][0]['type'] = r.choice(['Photon', 'photon'])
        t = r.choice([2, 2, 3, 4, 4, 6, 8] if r.random() < 0.97 else [12, 16])
        seed = r.randrange(1, 1 << 31)
        if i % 40 == 7:      # hundreds of events
            c['general']['steps'], c['particles'][0]['n'] = 1, r.randint(257, 600)
            return dict(cfg=c, T=t, suts=[pyspec(r, threads=t, seed=seed) for _ in range(2)])
        kw = {}
        if r.random() < 0.5:
            kw['evdraw'] = r.randrange(1, 1 << 62)
            if r.random() < 0.5:
                c['physics']['model'] = r.choice(['Quantum', 'quantum'])
            if r.random() < 0.2:
                from agree import strong
                strong(r, c, r.choice(['quantum', 'quantum', 'semiclassical']))
                c['particles'][0].update(n=r.randint(2, 8), rad=gen.logu(r, 1e4, 1e6))
        suts = [pyspec(r, threads=t, seed=seed, **kw) for _ in range(4)]
        for s in suts:
            if r.random() < 0.25:
                s['grant'] = r.randint(1, t)
        return dict(cfg=c, T=t, suts=suts)

    def keyed(self, X, s, r, c):
        """Whether the random numbers of every event were under control (see conc.py)."""
        if r['unkeyed'] or not r['evdraws']:
            return False
        c = copy.deepcopy(c)
        p = c['particles'][0]
        p.update(distro='mono', e1=(p['e1'] + p['e2']) / 2 if p['distro'] == 'linear' else p['e1'], e2=0.0, rad=0.0, dur=0.0, div=0.0)
        A = []
        for k in (11, 12):
            q = dict({k: s[k] for k in ('variant', 'cap', 'evdraw') if k in s}, threads=1, poison=0, seed=k)
            t = X.run(q, script(self.ops(c, 1, p['n'])), read=(), cache=True)
            if pyfinished(t):
                return False
            t = json.loads(t['res'])
            if not isinstance(t[-2][0], list):
                return False
            A.append(arrays(t[-2][0]))
        return all(same_rows(a, b) for a, b in zip(*A))

    def ops(self, c, t, n):
        k = calls(c)
        return [['new', 0]] + [['call', 0, m, k[m]] for m in ORDER] + [['call', 0, 'beamOn', [n, t]], ['get', 0], ['check']]

    def one(self, sc, s, X):
        c = sc['cfg']
        n = c['particles'][0]['n']
        r = self.sutrun(X, s, script(self.ops(c, sc['T'], n)))
        v = pyfinished(r)
        if v:
            return v
        res = json.loads(r['res'])
        bad = [o for o in res if isinstance(o[0], str) and o[0] != 'ok']
        if bad:
            return [('call-failed', 'a valid call failed: %s' % bad[0][0])]
        P, E, Q, G = arrays(res[-2][0])
        if len(P) != n:
            return [('input-count', '%d rows of input for %d events' % (len(P), n))]
        if n and len(np.unique(P, axis=0)) != n:
            return [('input-repeated', 'a primary was simulated twice')]
        q = {k: s[k] for k in ('variant', 'seed', 'cap', 'evdraw') if k in s}
        q.update(threads=1, poison=0)
        ref = X.run(q, script(self.ops(c, 1, n)), read=(), cache=True)
        if pyfinished(ref):
            return []
        rr = json.loads(ref['res'])
        if not isinstance(rr[-2][0], list):
            return []
        p, e, o, g = arrays(rr[-2][0])
        if len(p) == n and not same_rows(P, p):
            return [('input-values', 'the input rows are not the sampled primaries: %s' % diff_rows(P, p))]
        ty = c['particles'][0]['type'].capitalize()
        charge = {'Electron': -1, 'Positron': 1, 'Photon': 0}[ty]
        if len(Q) - len(E) != charge * n:
            return [('charge', '%d electrons and %d positrons from %d primaries of type %s' % (len(E), len(Q), n, ty))]
        if not c['physics']['pairs'] and ty == 'Photon':
            if len(G) != n or len(E) or len(Q):
                return [('photons', '%d photons, %d electrons, %d positrons from %d primary photons' % (len(G), len(E), len(Q), n))]
        for nm, a in (('electrons', E), ('positrons', Q)):
            if len(a) and not c['physics']['pairs'] and not np.all(a[:, 6] == 1):
                return [('weight', 'weight %r among the %s' % (a[:, 6][a[:, 6] != 1][0], nm))]
        w = [np.sort(a[:, 6][a[:, 6] != 1]) for a in (E, Q)]
        if c['physics']['pairs'] and (len(w[0]) != len(w[1]) or not np.array_equal(w[0], w[1])):
            return [('pair-weight', 'the electrons and positrons of pairs weigh %s and %s' % (w[0][:5], w[1][:5]))]
        det = c['physics']['model'].lower() != 'quantum'
        f = c['physics']['frac']
        if not det and len(G):
            X.probe('quantum-photons', len(G))
            if ty != 'Photon' and not c['physics']['pairs'] and not np.all(np.abs(G[:, 6] * f - 1) < 1e-9):
                return [('weight', 'a photon of the quantum model weighs %r at sampling fraction %g' % (G[np.argmax(np.abs(G[:, 6] * f - 1)), 6], f))]
        if s.get('evdraw'):
            X.probe('draws-by-event')
            for nm, a, b in (('electrons', E, e), ('positrons', Q, o), ('photons', G, g)):
                X.probe('rows-' + nm, len(a))
                if not same_rows(a, b):
                    if self.keyed(X, s, r, c):
                        return [('outcome', '%s differ from the run with one thread and the same random numbers for every event: %s' % (nm, diff_rows(a, b)))]
                    X.probe('draws-not-by-event')
                    break
        cascade = c['physics']['pairs'] and (ty == 'Photon' or len(E) + len(Q) != n or len(e) + len(o) != n)      # random
        if det and not cascade and len(E) + len(Q) == len(e) + len(o) and len(E) == len(e):
            for nm, a, b in (('electrons', E, e), ('positrons', Q, o)):
                if not same_rows(a, b):
                    return [('final-state', '%s differ from the run with one thread: %s' % (nm, diff_rows(a, b)))]
            if f == 1.0 and not c['physics']['pairs'] and ty != 'Photon':
                X.probe('photon-sets')
                if len(G) != len(g):
                    return [('photon-count', '%d photons, one thread gives %d' % (len(G), len(g)))]
                if len(G):
                    sc_ = np.abs(g[:, 3:6]).max() + 1e-300
                    A, B = (np.hstack([geom(np.hstack([x[:, :1], x])), x[:, 6:7] / g[:, 6].max()]) for x in (G, g))
                    if not near_match(A, B, np.concatenate([np.full(3, 1e-9 * sc_), np.full(3, 1e-9), [1e-9]])):
                        return [('photon-state', 'photons differ from the run with one thread')]
        if res[-1][0]:
            return [('array-changed', 'an array handed out changed later')]
        return []

    def shrink(self, sc):
        if 'sut' not in sc or sc['sut'].get('forced'):
            return
        n = sc['cfg']['particles'][0]['n']
        for m in (2, n // 2, n - 1):
            if 1 <= m < n:
                c = copy.deepcopy(sc)
                c['cfg']['particles'][0]['n'] = m
                yield c
        for m in (2, sc['T'] - 1):
            if 2 <= m < sc['T']:
                c = copy.deepcopy(sc)
                c['T'] = m
                yield c

    def describe(self, sc):
        c, s = sc['cfg'], (sc['sut'] if 'sut' in sc else sc['suts'][0])
        return 'python, %s field, %s, fraction %s, %d %s, %d steps, %d threads | %s' % (
            c['field']['type'], c['physics']['model'], c['physics']['frac'], c['particles'][0]['n'], c['particles'][0]['type'], c['general']['steps'], sc['T'],
            ', '.join('%s=%s' % (k, s[k] if k != 'sw' else '%d switches %s' % (len(s[k]), s[k][:12])) for k in ('seed', 'pol', 'mean', 'sseed', 'grant', 'sw') if k in s))


# ---------------------------------------------------------------- C07
NOVALUE = object()
BADCALLS = [('setTime', ['x', 1.0]), ('setTime', [1.0]), ('setField', ['gaussian', 1.0]), ('setPhysics', [3]), ('setSampleFraction', ['half']),
            ('usePairProduction', [None, 1]), ('beamOn', ['three']), ('beamOn', []), ('beamOn', [1.5]), ('setGenerator', ['electron', 'gaussian', 1.0]),
            ('setGenerator', ['electron', 'gaussian', 1.0, 1.0, 0.0, 0.0, 0.0, 1.0, 2.0])]


class Session:
    """The reference model of one session object."""
    def __init__(self):
        self.time = self.field = self.phys = self.gen = None
        self.frac, self.pairs = 1.0, False
        self.doubt = set()          # refused setters: the earlier value or refusal are both right
        self.results = [None]       # possible contents, None: empty

    def ready(self):
        return all(x is not None for x in (self.time, self.field, self.phys, self.gen))

    def key(self):
        return json.dumps([self.time, self.field, self.phys, self.gen, self.frac, bool(self.pairs)], sort_keys=True)


class C07(Py):
    id = 'C07'
    variants = ('py', 'pys')
    n = dict(quick=1600, thorough=15000)
    rule = ('A scenario is a random history of up to 25 calls on 1-2 session objects, checked against a small model of a session and fresh sessions as '
            'references, and the same history again with one allocation of the set-up of a simulation failing.')

    def value(self, r, kind, strong):
        """Valid arguments for a setter."""
        c = self.base
        k = calls(c)[kind]
        if kind == 'setTime':
            st = r.randint(1, 6) if not strong else r.randint(18, 26)
            dt = c['general']['dt'] * r.choice([1.0, 0.5, 0.75])
            return [dt * gen.T0, dt * (st - 0.5) * gen.T0]
        if kind == 'setField':
            k = list(k)
            k[0] = r.choice(['gaussian', 'Gaussian', 'focusing', 'Focusing']) if not strong else k[0]
            k[1] *= r.choice([1.0, 0.5, 0.8]) if not strong else 1.0
            k[5] = r.choice([0.0, k[5]])
            return k
        if kind == 'setPhysics':
            return [r.choice(['Classical', 'classical', 'Semiclassical', 'semiclassical', 'Quantum', 'quantum'])] if not strong else [r.choice(['Quantum', 'quantum'])]
        if kind == 'setSampleFraction':
            return [r.choice([1.0, 1.0, 1, 0.5, 0.25, 0.0])]
        if kind == 'usePairProduction':
            return [r.random() < 0.5]
        k = list(k)
        k[0] = r.choice(['electron', 'Electron', 'positron', 'Positron', 'photon', 'Photon'])
        k[1] = r.choice(['gaussian', 'linear', 'Gaussian', 'Linear'])
        e = k[2] * r.choice([1.0, 0.5, 0.7]) if not strong else k[2]
        k[2] = e
        k[3] = 0.0 if k[1].lower() == 'gaussian' else e
        return k

    def gen(self, r, i, tier):
        strong = r.random() < 0.3       # photons that surely convert; quantum
        c = gen.config(r, model='classical', sources=1, nev=1, steps=8, field=r.choice(['gaussian', 'focusing']), ptype='electron')
        p, f = c['particles'][0], c['field']
        p.update(rad=0.0, dur=0.0, div=0.0)
        if strong:
            p['e1'] = p['e2'] = r.uniform(1800, 2200)
            d = p['dir']
            lam = r.uniform(15e-6, 25e-6) / gen.L0
            dt = lam / 60
            f.update(type='gaussian', max=r.uniform(1.5e-3, 1.8e-3), wavelength=lam, duration=100 * lam, waist=30 * lam, pol=r.uniform(0, 0.5))
            p['pos'] = [0.0, 0.0, 0.0]
            f['start'] = [x * lam for x in d]      # head-on
            f['focus'] = [0.0, 0.0, 0.0]
            c['general'].update(dt=dt, steps=22)
        else:
            f['max'] = 0.15 / p['e1'] * r.uniform(0.3, 1)
        self.base = c
        nT = 4
        variant = 'pys' if r.random() < 0.12 else 'py'
        ops = [['new', 0]]
        nobj = 1
        pending = list(ORDER[:3]) + ['setGenerator']
        r.shuffle(pending)
        L = r.randint(6, 26)
        while len(ops) < L:
            o = r.randrange(nobj)
            x = r.random()
            if pending and r.random() < 0.55:
                k = pending.pop()
                ops.append(['call', 0, k, self.value(r, k, strong)])
            elif x < 0.30:
                t = 1 if variant == 'pys' and r.random() < 0.7 else r.choice([1, 1, 2, 3, nT])
                ops.append(['call', o, 'beamOn', [r.choice([0, 1, 2, 3, 5]), t]])
                if r.random() < 0.8:
                    ops.append(['get', o])
            elif x < 0.66:
                k = r.choice(ORDER)
                ops.append(['call', o, k, self.value(r, k, strong)])
            elif x < 0.80:
                k = r.choice(['setField', 'setPhysics', 'setGenerator', 'setSampleFraction', 'setTime', 'beamOn'])
                if k == 'setField':
                    a = self.value(r, k, strong)
                    a[0] = r.choice(['static', '', 'plane', 'GAUSSIAN', 'gauss'])
                elif k == 'setPhysics':
                    a = [r.choice(['clasical', '', 'CLASSICAL', 'Lorentz'])]
                elif k == 'setGenerator':
                    a = self.value(r, k, strong)
                    a[0] = r.choice(['muon', '', 'gamma', 'ELECTRON'])
                elif k == 'setSampleFraction':
                    a = [r.choice([-0.1, 1.5, -1e9, 1e300])]
                elif k == 'setTime':
                    a = [r.choice([0.0, 0.0, -1e-18, -c['general']['dt'] * gen.T0, float('nan')]), r.choice([0.0, 1e-15])]
                else:
                    a = [r.choice([1, 2]), r.choice([0, -1, -2147483648])] if r.random() < 0.6 else [r.choice([-1, -5]), r.choice([1, 2])]
                ops.append(['call', o, k, a])
            elif x < 0.86:
                k, a = r.choice(BADCALLS)
                ops.append(['call', o, k, a])
            elif x < 0.93:
                ops.append(['get', o])
            elif x < 0.96 and nobj < 2:
                ops.append(['new', 1])
                nobj = 2
            elif x < 0.98:
                ops += [['del', o], ['new', o]]
                if o == 0:
                    pending = list(ORDER[:3]) + ['setGenerator']
        for k in pending:
            ops.append(['call', 0, k, self.value(r, k, strong)])
        for o in range(nobj):
            ops += [['call', o, 'beamOn', [r.choice([1, 3]), 1 if variant == 'pys' else r.choice([1, 2])]], ['get', o]]
        ops.append(['check'])
        s = pyspec(r, variant=variant, threads=nT)
        if r.random() < 0.1:
            s['grant'] = r.randint(1, 3)
        k = r.choice([0, 2, 2, 3])
        return dict(ops=ops, strong=strong, sut=s, nfail=[[r.random(), r.random()] for _ in range(k)])

    def ref(self, key, X, s):
        """A fresh session with this configuration and fraction one: its arrays for one event."""
        t, f, p, g, fr, b = json.loads(key)
        ops = [['new', 0], ['call', 0, 'setTime', t], ['call', 0, 'setField', f], ['call', 0, 'setPhysics', p], ['call', 0, 'setGenerator', g],
               ['call', 0, 'usePairProduction', [b]], ['call', 0, 'setSampleFraction', [1.0]], ['call', 0, 'beamOn', [1, 1]], ['get', 0]]
        r = X.run(dict(variant=s['variant'], threads=1, seed=99, cap=3000, poison=0), script(ops), read=(), cache=True)
        if pyfinished(r):
            return None
        res = json.loads(r['res'])
        if any(isinstance(o[0], str) and o[0] != 'ok' for o in res):
            return None
        A = arrays(res[-1][0])
        return A if len(A[0]) == 1 else None

    def matches(self, A, key, n, X, s):
        """'' if the arrays are those of n events of the configuration."""
        P, E, Q, G = A
        t, f, p, g, fr, b = json.loads(key)
        ref = self.ref(key, X, s)
        if len(P) != n:
            return '%d input rows for %d events' % (len(P), n)
        ty = g[0].lower()
        ch = {'electron': -1, 'positron': 1, 'photon': 0}[ty]
        if len(Q) - len(E) != ch * n:
            return '%d electrons and %d positrons from %d %ss' % (len(E), len(Q), n, ty)
        if ref is None:
            return ''
        if n and not np.all(P == ref[0][0]):
            return 'the input is not that of a fresh session: %s' % diff_rows(P, np.repeat(ref[0], n, 0))
        quantum = p[0].lower() == 'quantum'
        if ty == 'photon':
            chi = g[2] / gen.E0 * f[1] / gen.ESCHW
            if not b or chi < 0.16:
                if len(E) or len(Q):
                    return '%d pairs without pair production' % len(E)
                if not np.array_equal(G, np.repeat(ref[3], n, 0)):
                    return 'photons are not those of a fresh session: %s' % diff_rows(G, np.repeat(ref[3], n, 0))
            elif chi > 2 and t[1] / t[0] > 16 and n > 2 and len(E) == 0:
                return 'no pairs from %d photons in a strong field: pair production is off' % n
        elif not quantum:
            for i, nm in ((1, 'electrons'), (2, 'positrons')):
                if (A[i].shape[0] != ref[i].shape[0] * n) or (len(A[i]) and not np.all(A[i] == ref[i][0])):
                    return '%s are not those of a fresh session: %s' % (nm, diff_rows(A[i], np.repeat(ref[i], n, 0)))
            if fr == 0 and len(G):
                return '%d photons at sampling fraction 0' % len(G)
            if fr > 0 and not b:
                R = ref[3]
                if len(G) > n * len(R) or (fr == 1 and len(G) != n * len(R)):
                    return '%d photons, a fresh session emits %d per event' % (len(G), len(R))
                tol = 1e-9 * (np.abs(R[:, 3:6]).max() + 1e-300) if len(R) else 0
                for row in G:
                    k = np.all(np.abs(R[:, 3:6] - row[3:6]) <= tol, axis=1) & (np.abs(R[:, 6] - row[6] * fr) <= 1e-9 * R[:, 6])
                    if not k.any():
                        return 'a photon at %s with weight %.9g is none of a fresh session at sampling fraction %g' % (row[3:6], row[6], fr)
        else:
            if fr > 0 and len(G) and not np.all(np.abs(G[:, 6] * fr - 1) < 1e-9) and not b:
                return 'photon weights %s in the quantum model at fraction %g' % (G[:3, 6], fr)
            if fr == 0 and len(G):
                return '%d photons at sampling fraction 0' % len(G)
            if fr == 1 and not b:
                # momentum that is missing must be in photons
                X.probe('quantum-sessions')
        return ''

    def judge_ops(self, ops, res, X, s, fault=None, t0=None):
        """fault: index of the operation during which an allocation failed."""
        S = {}
        variant = s['variant']
        for j, (op, o) in enumerate(zip(ops, res)):
            out = o[0]
            what = 'call %d %s' % (j, json.dumps(op[2:] if op[0] == 'call' else op)[:160])
            hit = fault is not None and j == fault
            if op[0] == 'new':
                S[op[1]] = Session()
            elif op[0] == 'del':
                S.pop(op[1], None)
            elif op[0] == 'check':
                if out:
                    return [('array-changed', 'an array handed out earlier changed later')]
            elif op[0] == 'get':
                m = S[op[1]]
                if not isinstance(out, list):
                    return [('get-failed', '%s: %s' % (what, out))]
                A = arrays(out)
                why = []
                ok = False
                for x in m.results:
                    if x is None:
                        if not any(len(a) for a in A):
                            ok = True
                            break
                        why.append('not empty')
                    else:
                        w = self.matches(A, x[0], x[1], X, s)
                        if not w:
                            ok = True
                            m.results = [x]
                            break
                        why.append(w)
                if ok and x is None:
                    m.results = [None]
                if not ok:
                    cls = 'results-after-failure' if fault is not None and j > fault else 'results'
                    return [(cls, '%s: the arrays hold no single simulation: %s' % (what, '; or '.join(why)))]
                X.probe('results-checked')
            else:
                m, k, a = S[op[1]], op[2], op[3]
                bad = (k, a) in [(x, y) for x, y in BADCALLS]
                if bad:
                    if out == 'ok' and k == 'beamOn':
                        return [('bad-call', '%s was accepted' % what)]
                    continue
                if hit:
                    if out.startswith('raised') and out != 'raised MemoryError':
                        return [('wrong-exception', '%s: a failed allocation gives %s' % (what, out))]
                    if out == 'raised MemoryError':
                        X.probe('failed-set-ups')
                elif out.startswith('raised') and k != 'beamOn':
                    return [('call-failed', '%s: %s' % (what, out))]
                if k == 'setTime':
                    m.time = a if a[0] > 0 else None
                elif k == 'setField':
                    if a[0].lower() in ('gaussian', 'focusing') and a[0] in ('gaussian', 'Gaussian', 'focusing', 'Focusing'):
                        m.field = a
                        m.doubt.discard('field')
                    else:
                        m.doubt.add('field')
                elif k == 'setPhysics':
                    if a[0] in ('Classical', 'classical', 'Semiclassical', 'semiclassical', 'Quantum', 'quantum'):
                        m.phys = a
                        m.doubt.discard('phys')
                    else:
                        m.doubt.add('phys')
                elif k == 'setGenerator':
                    if a[0] in ('electron', 'Electron', 'positron', 'Positron', 'photon', 'Photon'):
                        m.gen = a
                        m.doubt.discard('gen')
                    else:
                        m.doubt.add('gen')
                elif k == 'setSampleFraction':
                    if 0 <= a[0] <= 1:
                        m.frac = float(a[0])
                elif k == 'usePairProduction':
                    m.pairs = bool(a[0])
                elif k == 'beamOn':
                    n, t = a
                    invalid = n < 0 or t < 1 or (variant == 'pys' and t != 1)
                    if out.startswith('raised') and not hit and not invalid and m.ready():
                        return [('call-failed', '%s: %s' % (what, out))]
                    if invalid and out == 'raised MemoryError' and fault is None:
                        return [('bad-call', '%s was not refused: it takes all the memory' % what)]
                    if invalid or not m.ready():
                        m.results = list(m.results) + [None]
                    elif hit and out != 'ok':
                        m.results = list(m.results) + [None]
                    elif hit or m.doubt:
                        m.results = [(m.key(), n)] + list(m.results) + [None]
                    else:
                        m.results = [(m.key(), n)]
        return []

    def execute(self, sc, X):
        s = sc['sut']
        files = script(sc['ops'])
        ft = s.get('faults')
        plain = {k: x for k, x in s.items() if k != 'faults'}
        r = self.sutrun(X, plain, files)
        v = pyfinished(r)
        if v:
            return v
        res = json.loads(r['res'])
        v = self.judge_ops(sc['ops'], res, X, s)
        if v:
            return v
        beams = [j for j, op in enumerate(sc['ops']) if op[0] == 'call' and op[2] == 'beamOn' and res[j][0] == 'ok' and res[j][2] > res[j][1] + 8]
        # an allocation of the set-up fails: without events everything is set-up
        todo = []
        if ft:
            todo = [None]
        elif beams:
            todo = sc['nfail']
        for u in todo:
            if u is None:
                f = sc['fault']
                j, n = f['op'], f['n']
            else:
                j = beams[int(u[0] * len(beams))]
                ops = copy.deepcopy(sc['ops'])
                ops[j][3][0] = 0
                f = None
            ops = copy.deepcopy(sc['ops'])
            ops[j][3][0] = 0
            p0 = dict(plain)
            q = X.run({k: x for k, x in p0.items() if k not in ('pol', 'mean', 'hotp', 'depth', 'len', 'sseed', 'hot', 'forced', 'sw')}, script(ops), read=(), cache=True)
            if pyfinished(q):
                continue
            a, b = json.loads(q['res'])[j][1:]
            if u is not None:       # most allocations are made reading tables
                x = (u[1] * 7) % 1
                n = a + 1 + int(x * min(30, b - a)) if u[1] < 0.3 else b - int(x * min(30, b - a)) if u[1] < 0.75 else a + 1 + int(x * (b - a))
            if not a < n <= b:
                continue
            w = {k: x for k, x in plain.items() if k not in ('pol', 'mean', 'hotp', 'depth', 'len', 'sseed', 'hot', 'forced', 'sw')}
            w['faults'] = [core.sim.fault('alloc-fail', cls=0, n=n)]
            r = X.run(w, script(ops), read=(), sut=True)
            if r['exit'] == 1 and not r['signal'] and not r['deadlock'] and r['res'] is None and r['out'].split()[-1:] == [str(j)]:
                X.probe('refused-with-exit')      # the tables could not be read: the process ends with an error at this call
                continue
            v = pyfinished(r, 'session in which an allocation failed') or self.judge_ops(ops, json.loads(r['res']), X, s, fault=j)
            if v:
                return [(v[0][0], 'allocation %d of a set-up fails (call %d): %s' % (n - a, j, v[0][1]))]
        return []

    def shrink(self, sc):
        if sc['sut'].get('forced'):
            return
        ops = sc['ops']
        if sc['sut'].get('pol') != 'none':
            c = copy.deepcopy(sc)
            c['sut'].update(pol='none')
            yield c
        for k in range(len(sc['nfail'])):
            if len(sc['nfail']) > 1:
                c = copy.deepcopy(sc)
                c['nfail'] = [sc['nfail'][k]]
                yield c
        if sc['nfail']:
            c = copy.deepcopy(sc)
            c['nfail'] = []
            yield c
        for k in range(len(ops) - 1, 0, -1):
            if ops[k][0] in ('new', 'del'):
                continue
            c = copy.deepcopy(sc)
            del c['ops'][k]
            yield c

    def describe(self, sc):
        t = []
        for op in sc['ops']:
            if op[0] == 'call':
                a = op[3]
                if op[2] in ('setField', 'setGenerator'):
                    t.append('%d.%s(%s,..)' % (op[1], op[2], a[0] if a else ''))
                else:
                    t.append('%d.%s(%s)' % (op[1], op[2], ','.join(str(x)[:9] for x in a)))
            else:
                t.append(' '.join(str(x) for x in op))
        return 'python %s seed=%s pol=%s failing allocations=%s: %s' % (sc['sut']['variant'], sc['sut']['seed'], sc['sut'].get('pol'), sc['nfail'], '; '.join(t))


# ---------------------------------------------------------------- C24
CYCLES = r'''
import gc, sys, json
import numpy as np
import _qsim
import QEDCascPy
T = json.loads(%r)
def arg(a):
    return QEDCascPy.ThreeVector(*a['v']) if isinstance(a, dict) else a
A = [(n, [arg(x) for x in a]) for n, a in T['calls']]
cyc = T['cycle']
rec = np.zeros((sum(T['lives']) + len(T['lives']), 3), dtype=np.int64)
def mark(k):
    gc.collect()
    b = sys.getallocatedblocks()
    l = _qsim.live()
    rec[k, 0] = l[0]; rec[k, 1] = l[1]; rec[k, 2] = b
def cycle(S):
    for op in cyc:
        try:
            if op[0] == 'conf':
                n, a = A[op[1]]
                getattr(S, n)(*a)
            elif op[0] == 'beam':
                S.beamOn(op[1], op[2])
            elif op[0] == 'get':
                S.getInput(); S.getElectrons(); S.getPositrons(); S.getPhotons()
            elif op[0] == 'session':
                X = QEDCascPy.RunManager()
                for n, a in A[:6]:
                    getattr(X, n)(*a)
                X.beamOn(op[1], op[2])
                del X
        except Exception as e:
            pass
k = 0
mark(0); mark(0)
for life in T['lives']:
    S = QEDCascPy.RunManager()
    for n, a in A[:6]:
        getattr(S, n)(*a)
    for j in range(life):
        cycle(S)
        S.beamOn(0, 1)
        mark(k)
        k += 1
    del S
    mark(k)
    k += 1
with open('res.json', 'w') as f:
    json.dump(rec.tolist(), f)
'''


class C24(Py):
    id = 'C24'
    variants = ('py',)
    n = dict(quick=600, thorough=8000)
    rule = ('A scenario is a random cycle of configuration calls, refused calls, simulations, result requests and short-lived sessions, repeated 7 to 12 '
            'times; the bytes and blocks of C++ memory in use after each cycle are compared, and after the session is deleted.')

    def gen(self, r, i, tier):
        q = r.random() < 0.3
        c = gen.config(r, model='quantum' if q else r.choice(['classical', 'semiclassical']), sources=1, nev=1, steps=r.randint(1, 6),
                       field=r.choice(['gaussian', 'focusing']), frac=r.choice([1.0, 0.5]), pairs=r.random() < 0.3)
        long = r.random() < 0.06          # events of many particles
        if long:
            c['general']['steps'] = r.randint(35, 100)
        k = calls(c)
        cl = [[m, k[m]] for m in ORDER]
        alt = copy.deepcopy(cl)
        alt[1][1][0] = 'focusing' if c['field']['type'] == 'gaussian' else 'gaussian'
        alt[2][1] = [r.choice(['Classical', 'Semiclassical', 'Quantum'])]
        alt[4][1] = [not c['physics']['pairs']]
        alt[3][1] = [r.choice([1.0, 0.3, 0.0])]
        alt[5][1][0] = r.choice(['electron', 'positron', 'photon'])
        bad = [['setField', ['plane'] + cl[1][1][1:]], ['setPhysics', ['none']], ['setGenerator', ['muon'] + cl[5][1][1:]], ['setTime', [0.0, 0.0]],
               ['setSampleFraction', [7.0]], ['setTime', ['x', 'y']]]
        allc = cl + alt + bad
        cyc = []
        for _ in range(r.randint(1, 6)):
            x = r.random()
            if x < 0.45:
                cyc.append(['beam', r.choice([0, 1, 2, 4, 7]), r.choice([1, 1, 2, 3])])
            elif x < 0.6:
                cyc.append(['get'])
            elif x < 0.85:
                cyc.append(['conf', r.randrange(len(allc))])
            elif x < 0.95:
                cyc.append(['session', r.choice([1, 3]), r.choice([1, 2])])
            else:
                cyc += [['conf', 12 + r.randrange(6)], ['beam', 2, 1]]
        for k in range(6):         # every cycle ends in the first configuration
            cyc.append(['conf', k])
        s = pyspec(r, threads=3, cap=r.choice([6, 20, 200, 2000]) if not long else 2000)
        return dict(calls=allc, cycle=cyc, lives=[2, r.randint(5, 9)] + [1] * r.randint(2, 4), sut=s)

    def one(self, sc, s, X):
        f = {'script.py': CYCLES % json.dumps(dict(calls=sc['calls'], cycle=sc['cycle'], lives=sc['lives']))}
        r = self.sutrun(X, s, f)
        v = pyfinished(r)
        if v:
            return v
        a = np.array(json.loads(r['res']))
        X.probe('cycles', sum(sc['lives']))
        k = 0
        dead = []
        for i, n in enumerate(sc['lives']):
            c = a[k:k + n]
            if i == 1 and np.any(c[1:, :2] != c[1, :2]):
                return [('growth', 'C++ memory in use after equal cycles of one session changes: bytes %s, blocks %s' % (c[:, 0].tolist(), c[:, 1].tolist()))]
            if i == 1 and len(c) > 4 and np.all(np.diff(c[1:, 2]) >= 1):
                return [('python-growth', 'Python objects in use grow in every cycle: %s' % c[:, 2].tolist())]
            dead.append(a[k + n])
            k += n + 1
        dead = np.array(dead)
        if np.any(dead[1:, :2] != dead[1, :2]):
            return [('not-released', 'memory in use after sessions were deleted grows: bytes %s, blocks %s' % (dead[:, 0].tolist(), dead[:, 1].tolist()))]
        if np.all(np.diff(dead[1:, 2]) >= 1) and len(dead) > 4:
            return [('python-growth', 'Python objects in use grow with every session: %s' % dead[:, 2].tolist())]
        return []

    def shrink(self, sc):
        if 'sut' not in sc or sc['sut'].get('forced'):
            return
        for k in range(len(sc['cycle']) - 6):
            c = copy.deepcopy(sc)
            del c['cycle'][k]
            yield c
        if sum(sc['lives']) > 9:
            c = copy.deepcopy(sc)
            c['lives'] = [2, 5, 1, 1]
            yield c

    def describe(self, sc):
        t = []
        for op in sc['cycle'][:-6]:
            t.append('%s(%s)' % (sc['calls'][op[1]][0], sc['calls'][op[1]][1][0]) if op[0] == 'conf' else ' '.join(str(x) for x in op))
        return '%s cycles of: %s; then the first configuration again. cap=%s pol=%s seed=%s' % (sc['lives'], '; '.join(t), sc['sut'].get('cap'), sc['sut'].get('pol'), sc['sut']['seed'])
