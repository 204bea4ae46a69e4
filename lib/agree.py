"""The program and the Python interface simulate the same thing: C27."""
import copy, json, re
import numpy as np
import core, gen, judge
from conc import Conc, spec, DET, near_match, geom
from judge import tab, finished
from phys import outside
from pyp import Py, arrays, calls, ORDER, pyfinished, pyspec, script

PU = gen.ME * gen.C          # momentum unit
NAMES = ('Primary', 'Electrons', 'Positrons', 'Photons')


def strong(r, c, model):
    """A head-on pulse in which photons convert."""
    p, f = c['particles'][0], c['field']
    p.update(rad=0.0, dur=0.0, div=0.0, distro='linear')
    p['e1'] = p['e2'] = r.uniform(1800, 2200)
    lam = r.uniform(15e-6, 25e-6) / gen.L0
    f.update(type='gaussian', max=r.uniform(1.5e-3, 1.75e-3), wavelength=lam, duration=100 * lam, waist=30 * lam, pol=r.uniform(0, 0.5))
    p['pos'] = [0.0, 0.0, 0.0]
    f['start'] = [x * lam for x in p['dir']]
    f['focus'] = [0.0, 0.0, 0.0]
    c['general'].update(dt=lam / 60, steps=22)
    c['physics'].update(model=model, pairs=True)


class C27(Py):
    id = 'C27'
    variants = ('omp', 'py')
    histories = True
    n = dict(quick=1500, thorough=45000)
    real = 'all of Source/ except Geant (compiled from the working tree, memory accesses instrumented), CPython 3.12 with the bindings, HDF5, libstdc++'
    stub = 'thread scheduling and the OpenMP runtime, clocks, machine entropy (std::random_device), file-system calls, memory allocator'
    rule = ('A scenario is a random configuration, set in a Python session and written to an input file. "fed": the particles sampled by the session, on 1-8 threads under '
            'random schedules, are the sources of the program, and the deterministic outcomes are compared. "twin": both run with the same random numbers and are compared in full.')

    def gen(self, r, i, tier):
        fed = r.random() < 0.5
        big = not fed and r.random() < 0.3
        q = ['Quantum', 'quantum'] if not fed else []
        c = gen.config(r, model=r.choice(['Classical', 'classical', 'Semiclassical', 'semiclassical'] + 3 * q), sources=1, steps=r.randint(1, 10),
                       field=r.choice(['gaussian', 'focusing']), frac=r.choice([1.0, 1.0, 0.5, 0.2]), pairs=not fed and r.random() < 0.3,
                       nev=r.choice([1, 2, 3, 5, 8, 13]), od=gen.logu(r, 0.05, 0.5))
        p = c['particles'][0]
        if r.random() < 0.15:
            p['type'] = r.choice(['Photon', 'photon'])
        if big:
            strong(r, c, r.choice(['quantum', 'quantum', 'semiclassical']))
            p['type'] = r.choice([p['type'], 'photon'])
        elif r.random() < 0.3:
            p['distro'] = r.choice(['mono', 'Mono'])
        T = r.choice([1, 2, 3, 4, 8]) if fed else 1
        if r.random() < 0.4:      # the names as the session also takes them
            c['upper'] = 1
            c['physics']['model'] = c['physics']['model'].capitalize()
        if r.random() < 0.4:      # settings at their default are left out
            c['omit'] = 1
            if r.random() < 0.3:
                p.update(n=1, type='Electron', distro='mono', e2=0.0, dur=0.0, rad=0.0, div=0.0)
        return dict(kind='fed' if fed else 'twin', cfg=c, T=T, suts=[pyspec(r, threads=T) for _ in range(2)])

    def one(self, sc, s, X):
        c, p = sc['cfg'], sc['cfg']['particles'][0]
        k = calls(c)
        if c.get('upper'):
            k['setField'][0] = k['setField'][0].capitalize()
        left = [m for m, d in (('setSampleFraction', c['physics']['frac'] == 1), ('usePairProduction', not c['physics']['pairs'])) if c.get('omit') and d]
        ops = [['new', 0]] + [['call', 0, m, k[m]] for m in ORDER if m not in left]
        ops += [['call', 0, 'beamOn', [p['n']] if c.get('omit') and sc['T'] == 1 else [p['n'], sc['T']]], ['get', 0]]
        r = self.sutrun(X, s, script(ops))
        if left:
            X.probe('left-out')
        if outside(r):
            X.probe('outside-tables')
            return []
        v = pyfinished(r)
        if v:
            return v
        res = json.loads(r['res'])
        bad = [o for o in res if isinstance(o[0], str) and o[0] != 'ok']
        if bad:
            return [('call-failed', 'a valid call failed: %s' % bad[0][0])]
        A = [np.hstack([a[:, :3] / PU, a[:, 3:6] / gen.L0] + ([a[:, 6:7]] if a.shape[1] > 6 else [])) for a in arrays(res[-1][0])]
        if len(A[0]) != p['n']:
            return [('primaries', '%d primaries of %d' % (len(A[0]), p['n']))]
        size = max([np.abs(a[:, 3:6]).max() for a in A if len(a)] + [1.0]) + c['general']['dt']
        return getattr(self, sc['kind'])(sc, s, X, A, r, size)

    def program(self, X, s, c, **kw):
        q = dict(variant='omp', threads=1, seed=s['seed'], cap=s['cap'], pol='none', poison=0)
        return X.run(dict(q, **kw), {'input.ini': gen.ini(c)}, sut=False)

    def twin(self, sc, s, X, A, r, size):
        c = sc['cfg']
        t = self.program(X, s, c)
        if outside(t):
            return [('outside-tables', 'the session simulates what the program refuses: %s' % t['err'][-200:])]
        v = finished(t)
        if v:
            return v
        if t['drawhash'][0] != r['drawhash'][0]:
            X.probe('other-draws')
            return self.crowd(sc, s, X)
        X.probe('twins')
        for nm, a in zip(NAMES, A):
            b = tab(t, nm)[:, 2:8]
            v = self.compare(nm, a[:, :6], b, size, 'with the same random numbers')
            if v:
                return v
            X.probe('rows-' + nm.lower(), len(a))
        return []

    def crowd(self, sc, s, X):
        """Both draw differently: compare the numbers and energies of many events."""
        c = copy.deepcopy(sc['cfg'])
        n = c['particles'][0]['n'] = 300 if c['general']['steps'] < 15 else 100
        k = calls(c)
        ops = [['new', 0]] + [['call', 0, m, k[m]] for m in ORDER] + [['call', 0, 'beamOn', [n, 1]], ['get', 0]]
        q = dict(variant='py', threads=1, seed=s['seed'] ^ 0x3c3c, cap=20000, pol='none', poison=0)
        r, t = X.run(q, script(ops), read=()), self.program(X, dict(s, cap=20000), c)
        if outside(r) or outside(t) or pyfinished(r) or finished(t):
            return []
        A = arrays(json.loads(r['res'])[-1][0])
        X.probe('crowds')
        for nm, a in zip(NAMES[1:], A[1:]):
            b = tab(t, nm)
            for what, f in (('number', lambda x: np.ones(len(x))), ('momentum', lambda x: np.sqrt((x ** 2).sum(1)))):
                va, vb = f(a[:, :3] / PU), f(b[:, 2:5])
                ev = np.bincount(b[:, 0].astype(int), weights=vb, minlength=n) if len(b) else np.zeros(n)
                top = max([0.0] + [x.max() for x in (va, vb) if len(x)])
                sd = np.sqrt(2 * n * ev.var() + (60 * top * top if what == 'momentum' else 60))
                if abs(va.sum() - vb.sum()) > 7 * sd + 1e-6 * vb.sum() + (10 * ev.max() if c['physics']['pairs'] else 0):
                    return [('crowd-' + what, 'the %s of %s of %d primaries is %.6g in the session, %.6g in the program (deviation %.3g)' % (
                        what, nm.lower(), n, va.sum(), vb.sum(), sd))]
        return []

    def compare(self, nm, a, b, size, what):
        if len(a) != len(b):
            return [('counts', '%s: %d from the session, %d from the program %s' % (nm, len(a), len(b), what))]
        if not len(a):
            return []
        m = np.abs(b[:, :3]).max() + 1e-300
        # every row relative to its own momentum
        def form(x):
            k = np.sqrt((x[:, :3] ** 2).sum(1))[:, None]
            return np.hstack([x[:, :3] / np.maximum(k, 1e-300), np.log(np.maximum(k, 1e-300)), x[:, 3:6] / size])
        x, y = form(a), form(b)
        if np.abs(x - y).max() > 1e-6 and not near_match(x, y, np.full(7, 1e-6)):
            i = int(np.argmax(np.abs(x - y).max(1)))
            return [('states', '%s differ %s: %s from the session, %s from the program' % (
                nm, what, ' '.join('%.9g' % z for z in a[i]), ' '.join('%.9g' % z for z in b[i])))]
        return []

    def fed(self, sc, s, X, A, r, size):
        c = copy.deepcopy(sc['cfg'])
        p = c['particles'][0]
        c['particles'] = []
        for row in A[0]:
            e = float(np.sqrt((row[:3] ** 2).sum()))
            c['particles'].append(dict(p, n=1, e1=e, e2=0.0, distro='mono', pos=row[3:6].tolist(), dir=(row[:3] / e).tolist(), rad=0.0, dur=0.0, div=0.0))
        c['field'] = dict(c['field'])
        t = self.program(X, s, c)
        if outside(t):
            return [('outside-tables', 'the session simulates what the program refuses: %s' % t['err'][-200:])]
        v = finished(t)
        if v:
            return v
        v = self.compare('primaries', A[0], tab(t, 'Primary')[:, 2:8], size, 'fed with those of the session')
        if v:
            X.probe('not-fed')
            return []
        X.probe('fed')
        ph = p['type'].capitalize() == 'Photon'
        for nm, a in zip(NAMES[1:], A[1:]):
            b = tab(t, nm)[:, 2:8]
            X.probe('rows-' + nm.lower(), len(a))
            if nm == 'Photons' and not ph:
                if c['physics']['frac'] == 1.0:
                    if len(a) != len(b):
                        return [('counts', 'Photons: %d from the session, %d from the program for the same primaries' % (len(a), len(b)))]
                    g = [geom(np.hstack([x[:, :1], x])) for x in (a[:, :6], b)]
                    if len(a) and not near_match(g[0] / ([size] * 3 + [1] * 3), g[1] / ([size] * 3 + [1] * 3), np.full(6, 1e-6)):
                        return [('states', 'photons start elsewhere than those of the program for the same primaries')]
                continue
            v = self.compare(nm, a[:, :6], b, size, 'for the same primaries')
            if v:
                return v
        return []

    def describe(self, sc):
        c, s = sc['cfg'], (sc['sut'] if 'sut' in sc else sc['suts'][0])
        return '%s: %s field, %s, fraction %s, pairs %s, %d %s, %d steps, session on %d threads | %s' % (
            sc['kind'], c['field']['type'], c['physics']['model'], c['physics']['frac'], c['physics']['pairs'], c['particles'][0]['n'], c['particles'][0]['type'],
            c['general']['steps'], sc['T'],
            ', '.join('%s=%s' % (k, s[k] if k != 'sw' else '%d switches %s' % (len(s[k]), s[k][:12])) for k in ('seed', 'pol', 'mean', 'sseed', 'sw') if k in s))

    def shrink(self, sc):
        if 'sut' not in sc or sc['sut'].get('forced'):
            return
        n, st = sc['cfg']['particles'][0]['n'], sc['cfg']['general']['steps']
        for m in (1, n // 2, n - 1):
            if 1 <= m < n:
                c = copy.deepcopy(sc)
                c['cfg']['particles'][0]['n'] = m
                yield c
        for m in (1, st // 2, st - 1):
            if 1 <= m < st:
                c = copy.deepcopy(sc)
                c['cfg']['general']['steps'] = m
                yield c
        if sc['T'] > 1:
            c = copy.deepcopy(sc)
            c['T'] = 1
            yield c


class Agree(Conc):
    def plain(self, s, **kw):
        q = dict({k: s[k] for k in ('evdraw',) if k in s}, variant='omp', threads=1, seed=s['seed'], cap=s['cap'], pol='none', poison=0)
        q.update(kw)
        return q


# ---------------------------------------------------------------- C28
class C28(Agree):
    id = 'C28'
    variants = ('omp',)
    histories = True
    n = dict(quick=1400, thorough=40000)
    rule = ('A scenario is a random configuration and 4 variants of what it records: tracks on or off, other histograms, some sources without output, another file name. '
            'With the same random numbers the particles must be the same bit for bit; on several threads the deterministic ones.')

    def gen(self, r, i, tier):
        T = 1 if r.random() < 0.65 else r.choice([2, 3, 4])
        q = T == 1 and r.random() < 0.5
        c = gen.config(r, model=r.choice(['Quantum', 'quantum']) if q else r.choice(DET), steps=r.randint(1, 10), frac=r.choice([1.0, 1.0, 0.5, 0.1]),
                       pairs=T == 1 and r.random() < 0.3, od=gen.logu(r, 0.05, 0.4), sources=r.choice([1, 2, 2, 3]), nev=r.choice([1, 2, 4, 7, 12]), hist=r.choice([0, 0, 1, 3]),
                       tracking=r.random() < 0.3)
        if r.random() < 0.25:
            p = r.choice(c['particles'])
            p['type'] = 'Photon'
        if T == 1 and r.random() < 0.2:
            c['physics']['emin'] = gen.logu(r, 1e-3, 1e-1)
        if r.random() < 0.2:         # photons convert
            strong(r, c, r.choice(['Quantum', 'quantum', 'Semiclassical']))
            c['particles'] = c['particles'][:2]
            for p in c['particles']:
                p.update(n=r.randint(1, 4), e1=c['particles'][0]['e1'], e2=c['particles'][0]['e2'], distro='linear', dir=c['particles'][0]['dir'],
                         pos=[0.0, 0.0, 0.0], rad=gen.logu(r, 1e4, 1e6), dur=0.0, div=0.0)
            c['particles'][0]['out'] = True
            c['hist'] = gen.histograms(r, c, r.randint(1, 4))
        seed = r.randrange(1, 1 << 31)
        kw = dict(evdraw=r.randrange(1, 1 << 62)) if T > 1 and r.random() < 0.7 else {}
        suts = []
        for k in range(4):
            s = spec(r, threads=T, seed=seed, **kw)
            while True:
                w = {}
                if r.random() < 0.5:
                    w['tracking'] = not c['general']['tracking']
                if r.random() < 0.6:
                    w['hist'] = gen.histograms(r, c, r.randint(0, 5)) if r.random() < 0.7 else []
                if r.random() < 0.4:
                    w['out'] = [r.random() < 0.5 for _ in c['particles']] if r.random() < 0.6 else [False for _ in c['particles']]
                if r.random() < 0.2:
                    w['file'] = r.choice(['result.h5', 'another-name.h5'])
                if w:
                    break
            s['with'] = w
            suts.append(s)
        return dict(cfg=c, suts=suts)

    def one(self, sc, s, X):
        c = sc['cfg']
        w = s['with']
        d = copy.deepcopy(c)
        if 'tracking' in w:
            d['general']['tracking'] = w['tracking']
        if 'hist' in w:
            d['hist'] = w['hist']
        if 'out' in w:
            for p, o in zip(d['particles'], w['out']):
                p['out'] = o
        f = w.get('file', 'out.h5')
        d['general']['file'] = f
        a = X.run(self.plain(s), {'input.ini': gen.ini(c)}, cache=True)
        v = finished(a)
        if v:
            return v
        spc = {k: v for k, v in s.items() if k != 'with'}
        b = self.sutrun(X, spc, {'input.ini': gen.ini(d)}, read=(f,))
        if f != 'out.h5' and f in b['data']:
            b['data']['out.h5'] = b['data'][f]
        v = finished(b)
        if v:
            return v
        one = s['threads'] == 1
        exact = one or bool(s.get('evdraw'))
        X.probe('exact' if one else 'draws-by-event' if exact else 'threads')
        if one and a['drawhash'] != b['drawhash']:
            X.probe('other-draws')
        for k, v in sorted(w.items()):
            X.probe('with-' + k)
        # events by source: those without output have no number
        ids, keep, m = [], [], 0
        for p, o in zip(d['particles'], w.get('out', [True] * len(d['particles']))):
            ids.append(m)
            m += p['n']
        new, k = {}, 0
        for p, q, first in zip(c['particles'], d['particles'], ids):
            for j in range(p['n']):
                if q['out']:
                    new[first + j] = k
                    k += 1
        det = c['physics']['model'] in DET and not c['physics']['pairs']
        for nm in NAMES:
            x, y = tab(a, nm), tab(b, nm)
            x = x[[int(e) in new for e in x[:, 0]]].copy() if len(x) else x
            if one:
                for row in x:
                    row[0] = new[int(row[0])]
            elif exact or nm == 'Primary' or det and nm in ('Electrons', 'Positrons'):
                x, y = x[:, 1:], y[:, 1:]
            else:
                continue
            X.probe('rows-' + nm.lower(), len(x))
            if not judge.same_rows(x, y):
                if not one and exact and not self.keyed(X, s, b, c):
                    X.probe('draws-not-by-event')
                    return []
                return [('influence', '%s change when what is recorded changes (%s): %s' % (nm, ', '.join(sorted(w)), judge.diff_rows(x, y)))]
        if exact and 'hist' not in w:
            for h in c['hist']:
                k = 'Histograms/%s/BinValues' % h['name']
                if k not in b['data']['out.h5'] or not np.array_equal(a['data']['out.h5'][k], b['data']['out.h5'][k]):
                    if not one and not self.keyed(X, s, b, c):
                        return []
                    return [('influence-histogram', 'histogram %s changes when other things recorded change (%s)' % (h['name'], ', '.join(sorted(w))))]
        if one and 'tracking' not in w and c['general']['tracking']:
            ta, tb = [{k: z for k, z in q['data']['out.h5'].items() if 'ParticleTrack' in k} for q in (a, b)]
            t = judge.datasets_equal(ta, tb)
            if t:
                return [('influence-tracks', 'tracks change when other things recorded change (%s): %s' % (', '.join(sorted(w)), t))]
        return []

    def describe(self, sc):
        t = Conc.describe(self, sc)
        s = sc['sut'] if 'sut' in sc else sc['suts'][0]
        return t + ' | recorded instead: %s' % json.dumps({k: (v if k != 'hist' else '%d histograms' % len(v)) for k, v in s['with'].items()})


# ---------------------------------------------------------------- C29
BAD = ('field', 'model', 'type', 'no-field', 'no-file', 'no-particles', 'name', 'step', 'fraction')
REFUSE = ('field', 'model', 'type', 'no-field', 'no-file', 'step', 'fraction')      # no run can be what such an input asks for


class C29(Agree):
    id = 'C29'
    variants = ('ser', 'omp', 'mpi')
    histories = True
    n = dict(quick=2400, thorough=90000)
    rule = ('A scenario is a random configuration run by the serial, the threaded (one thread) and the parallel program (one process) with the same random numbers: '
            'status, data sets and input summary must agree. One in five is an input that one refuses: then all refuse, and a job of 2-5 processes ends.')

    def gen(self, r, i, tier):
        bad = r.choice(BAD) if r.random() < 0.2 else None
        q = r.random() < 0.5
        c = gen.config(r, model=r.choice(['Quantum', 'quantum']) if q else r.choice(DET), steps=r.randint(1, 8), frac=r.choice([1.0, 1.0, 0.5, 0.0]), pairs=r.random() < 0.3,
                       od=gen.logu(r, 0.05, 0.4), sources=r.choice([1, 1, 2, 3]), nev=r.choice([1, 2, 4, 9]), hist=r.choice([0, 1, 3]), outputs=r.choice(['all', 'all', 'some']))
        if r.random() < 0.2:
            r.choice(c['particles'])['type'] = r.choice(['Photon', 'photon'])
        if r.random() < 0.1:
            for p in c['particles']:
                p['out'] = False
        if r.random() < 0.2:
            c['physics']['emin'] = gen.logu(r, 1e-3, 10)
        if bad == 'field':
            c['field']['badtype'] = r.choice(['statik', 'none', 'laser'])
        elif bad == 'model':
            c['physics']['model'] = r.choice(['QED', 'semi', 'none'])
        elif bad == 'type':
            r.choice(c['particles'])['type'] = r.choice(['muon', 'proton'])
        if r.random() < 0.3:
            c['general'].update(whole=r.choice([1, 1, 1, 2, 3]), steps=r.randint(1, 40) if sum(p['n'] for p in c['particles']) < 9 else r.randint(1, 12))
        seed = r.randrange(1, 1 << 31)
        kw = dict(evdraw=r.randrange(1, 1 << 62)) if r.random() < 0.4 else {}
        value = (r.choice(['0', '0.0', '-0.0', '-1e-18', '-5', 'short', 'nan', '1e-400']) if bad == 'step' else
                 r.choice(['1.0001', '-0.01', '2', '-1', '50', '1e300', 'nan']) if bad == 'fraction' else None)
        return dict(cfg=c, bad=bad, value=value, suts=[dict(kw, variant='mpi', threads=1, ranks=1, seed=seed, cap=4000, pol='none', poison=r.randrange(8), jobs=r.randint(2, 5), sseed=r.randrange(1 << 40))])

    def files(self, sc, cfg=None):
        t = gen.ini(sc['cfg'])
        f = sc['cfg']['field']
        if f.get('badtype'):
            t = t.replace('field_type = ' + f['type'], 'field_type = ' + f['badtype'])
        if sc['bad'] == 'no-field':
            t = t.replace('[Field]', '[Other]')
        if sc['bad'] == 'no-particles':
            t = t.replace('[Particle', '[Bunch')
        if sc['bad'] == 'step':
            t = re.sub(r'(?m)^time_step = .*$', 'time_step = ' + sc['value'], t)
        if sc['bad'] == 'fraction':
            t = re.sub(r'(?m)^sample_fraction = .*$', 'sample_fraction = ' + sc['value'], t)
        if sc['bad'] == 'no-file':
            return {'other.ini': t}
        return {'input.ini': t}

    def one(self, sc, s, X):
        f = self.files(sc)
        R = {}
        for k in ('ser', 'omp', 'mpi'):
            q = self.plain(s, variant=k, poison=s['poison'])
            if k == 'mpi':
                q['ranks'] = 1
                R[k] = X.run(q, f, sut=True)
            else:
                R[k] = X.run(q, f)
        ok = {k: not (r['exit'] or r['signal']) for k, r in R.items()}
        if len(set(ok.values())) > 1:
            return [('status', 'the same input: ' + ', '.join('%s program %s' % (k, 'succeeds' if o else 'fails (exit %d, signal %d: %s)' % (
                R[k]['exit'], R[k]['signal'], R[k]['err'][-80:].strip())) for k, o in ok.items()))]
        for k, r in R.items():
            if r['signal'] or r['deadlock'] or r['steplimit'] or r['mpierr']:
                return finished(r, k + ' program')
        if not ok['ser']:
            X.probe('refused')
            for k, r in R.items():
                if any(len(x) for n, x in r['data'].get('out.h5', {}).items()):
                    return [('refused-with-results', '%s program refuses the input and leaves results' % k)]
            j = X.run(dict(variant='mpi', threads=1, ranks=s['jobs'], seed=s['seed'], cap=4000, pol='rand', mean=300.0, sseed=s['sseed'], netseed=s['sseed'], rdv=0.3), f)
            if j['deadlock'] or j['steplimit']:
                return [('job-hangs', 'one process refuses the input, a job of %d does not end: %s' % (s['jobs'], j['msg']))]
            if not (j['exit'] or j['signal']):
                return [('job-succeeds', 'one process refuses the input, a job of %d succeeds' % s['jobs'])]
            return []
        if sc['bad']:
            X.probe('accepted-' + sc['bad'])
            if sc['bad'] in REFUSE:
                return [('accepted', 'an input that cannot be simulated is accepted: %s%s' % (sc['bad'], ' ' + sc['value'] if sc.get('value') else ''))]
        a = R['ser']
        for k in ('omp', 'mpi'):
            b = R[k]
            if a['summary'] != b['summary']:
                return [('summary', 'the serial and the %s program write different input summaries' % k)]
            if a['drawhash'][0] != b['drawhash'][0]:
                X.probe('other-draws')
                # the draws went apart after the same primaries: so did the programs
                if not len(tab(a, 'Primary')) or not judge.same_rows(tab(a, 'Primary'), tab(b, 'Primary')):
                    continue
            X.probe('same-by-event' if s.get('evdraw') else 'same')
            d, e = [{n: x for n, x in y['data'].get('out.h5', {}).items() if len(x)} for y in (a, b)]
            t = judge.datasets_equal_rows(d, e)
            if t:
                return [('results', 'the serial and the %s program differ with the same random numbers: %s' % (k, t))]
        return []
