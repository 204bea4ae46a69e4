"""Properties of the event loop under thread schedules: C01-C05, C18, C25."""
import copy, math, random
import numpy as np
import core, gen, judge
from judge import tab, finished

DET = ('Classical', 'Semiclassical', 'classical', 'semiclassical')


def policy(r, threads):
    """A scheduling policy for one run."""
    k = r.random()
    s = dict(sseed=r.randrange(1 << 48))
    if threads < 2:
        s['pol'] = 'none'
    elif k < 0.32:
        s.update(pol='rand', mean=gen.logu(r, 2, 3000))
    elif k < 0.42:
        s.update(pol='lock', mean=float(r.choice([1, 1, 2, 3, 7, 19, 61])))
    elif k < 0.60:
        s.update(pol='pct', depth=r.randint(1, 8), len=0)
    elif k < 0.85:
        s.update(pol='hot', mean=gen.logu(r, 200, 20000), hotp=r.choice([0.02, 0.1, 0.3, 0.6]))
    elif k < 0.95:
        s.update(pol='stall', mean=gen.logu(r, 200, 20000), hotp=r.choice([0.05, 0.2]))
    else:
        s.update(pol='rr', mean=gen.logu(r, 5, 500))
    return s


def spec(r, variant='omp', threads=None, cap=4000, **kw):
    t = threads or r.choice([2, 2, 3, 4, 4, 6, 8] if r.random() < 0.97 else [12, 16])
    s = dict(variant=variant, threads=t, seed=r.randrange(1, 1 << 31), cap=cap, poison=r.randrange(0, 8))
    s.update(policy(r, t))
    s.update(kw)
    return s


class Conc(core.Prop):
    """Scenario: a configuration and schedules; 'suts' is a list, 'sut' a single one."""
    cfgkey = 'cfg'

    def files(self, sc, cfg=None):
        return {'input.ini': gen.ini(cfg or sc['cfg'], (cfg or sc['cfg']).get('pad', 0))}

    def sutrun(self, X, s, files, read=('out.h5',)):
        s = dict(s)
        if not s.get('forced') and s.get('pol') in ('hot', 'stall', 'pct'):
            q = {k: s[k] for k in ('variant', 'threads', 'seed', 'cap', 'evdraw', 'poison', 'grant', 'ranks', 'rankbase') if k in s}
            q.update(pol='rand', mean=40.0, sseed=7, profile=1)
            pr = X.run(q, files, read=(), cache=True)
            if s['pol'] == 'pct':
                s['len'] = max(1000, pr['steps'])
            else:
                s['hot'] = pr['hot']
                if not pr['hot']:
                    s['pol'] = 'rand'
        return X.run(s, files, read=read, sut=True)

    def execute(self, sc, X):
        for s in ([sc['sut']] if 'sut' in sc else sc['suts']):
            v = self.one(sc, s, X)
            if v:
                X.focus = s
                return v
        return []

    def one(self, sc, s, X):
        raise NotImplementedError

    def keyed(self, X, s, r, c):
        """Whether the random numbers of every event were under control: given to the event by its
        number, not to the thread (asked when a run with 'evdraw' differs from its reference)."""
        if r['unkeyed'] or not r['evdraws']:
            return False
        c = copy.deepcopy(c)
        for p in c['particles']:
            e = (p['e1'] + p['e2']) / 2 if p['distro'] == 'linear' else p['e1']
            p.update(distro='mono', e1=e, e2=0.0, rad=0.0, dur=0.0, div=0.0)
        f = {'input.ini': gen.ini(c)}
        a, b = [X.run(serial(s, seed=k), f, cache=True) for k in (11, 12)]
        if finished(a) or finished(b):
            return False
        return all(judge.same_rows(tab(a, t), tab(b, t)) for t in ('Primary', 'Electrons', 'Positrons', 'Photons'))

    def shrink(self, sc):
        c0 = sc.get('cfg')
        if not c0 or 'sut' not in sc or sc['sut'].get('forced'):
            return
        if len(c0['particles']) > 1:
            for i in range(len(c0['particles'])):
                c = copy.deepcopy(sc)
                del c['cfg']['particles'][i]
                yield c
        for i in range(len(c0.get('hist', ()))):
            c = copy.deepcopy(sc)
            del c['cfg']['hist'][i]
            yield c
        for i, p in enumerate(c0['particles']):
            for m in (2, p['n'] // 2, p['n'] - 1):
                if 1 <= m < p['n']:
                    c = copy.deepcopy(sc)
                    c['cfg']['particles'][i]['n'] = m
                    yield c
        t = sc['sut'].get('threads', 1)
        for m in (2, t - 1):
            if 2 <= m < t:
                c = copy.deepcopy(sc)
                c['sut']['threads'] = m
                yield c

    def describe(self, sc):
        c = sc.get('cfg')
        s = [sc['sut']] if 'sut' in sc else sc.get('suts', [])
        o = []
        if c:
            o.append('%s field, %s, fraction %s, pairs %s, sources %s, %d steps, %d histograms, tracking %s' % (
                c['field']['type'], c['physics']['model'], c['physics']['frac'], c['physics']['pairs'],
                ['%d %s' % (p['n'], p['type']) for p in c['particles']], c['general']['steps'], len(c.get('hist', ())), bool(c['general'].get('tracking'))))
        for x in s[:3]:
            o.append(', '.join('%s=%s' % (k, ('%.3g' % x[k]) if isinstance(x[k], float) else (x[k] if k != 'sw' else '%d switches %s' % (len(x[k]), x[k][:12])))
                               for k in ('variant', 'threads', 'ranks', 'seed', 'pol', 'mean', 'sseed', 'cap', 'grant', 'sw', 'rare', 'bgshort', 'clock0') if k in x)
                     + ''.join('; ' + core.sim.fault_text(f) for f in x.get('faults', ())))
        return ' | '.join(o)


def serial(s, **kw):
    """The single-threaded reference of a run: same entropy."""
    q = {k: s[k] for k in ('variant', 'seed', 'cap', 'evdraw') if k in s}
    q.update(threads=1, poison=0)
    q.update(kw)
    return q


def primaries_ok(r, cfg, what=''):
    n = sum(p['n'] for p in cfg['particles'] if p.get('out', True))
    P = tab(r, 'Primary')
    if len(P) != n:
        return [('primary-count', '%s%d primaries in the output of %d requested' % (what, len(P), n))]
    ids = P[:, 0]
    if not np.array_equal(np.sort(ids), np.arange(n)):
        return [('primary-ids', '%sevent numbers are not 0..%d: %s' % (what, n - 1, np.sort(ids)[:20]))]
    return []


def same_primaries(r, ref, what=''):
    a, b = tab(r, 'Primary')[:, 1:], tab(ref, 'Primary')[:, 1:]
    if not same_rows_eq(a, b):
        return [('primary-values', '%sprimaries differ from the sampled ones: %s' % (what, judge.diff_rows(a, b)))]
    return []


def same_rows_eq(a, b):
    return judge.same_rows(a, b)


class C01(Conc):
    id = 'C01'
    variants = ('omp',)
    n = dict(quick=420, thorough=16000)
    rule = ('A scenario is a random set-up (sources, field, model, output options) and 6 random schedules of 2-8 threads; the serial run with the same '
            'entropy gives the sampled primaries.')

    def gen(self, r, i, tier):
        if i % 200 == 77 or i % 20 == 7:      # many events; once in a while more than 16 bits number
            n = 66000 if i % 200 == 77 else r.randint(257, 700)
            c = gen.config(r, model='Classical', field='static', steps=1, sources=r.choice([1, 2]) if n < 1000 else 1, nev=n, frac=0.0, od=0.02)
            if n > 1000:
                c['particles'][0]['type'] = 'Photon'
            seed = r.randrange(1, 1 << 31)
            suts = [spec(r, cap=1000, seed=seed, threads=r.randint(2, 4)) for _ in range(2 if n < 1000 else 1)]
            for s in suts:
                s.update(pol='rand', mean=gen.logu(r, 300, 30000) if n < 1000 else 30000.0)
            c['hist'] = []
            return dict(cfg=c, suts=suts)
        c = gen.config(r, steps=r.randint(1, 6), sources=None if r.random() < 0.8 else r.randint(4, 5), outputs='some' if r.random() < 0.3 else 'all',
                       tracking=r.random() < 0.1, pairs=r.random() < 0.15, od=0.02)
        if i % 25 == 3:      # more sources than one digit numbers
            c['particles'] = [gen.source(r, n=r.randint(1, 3), e=c['particles'][0]['e1'], out=r.random() < 0.9) for _ in range(r.randint(10, 14))]
        if len(c['particles']) > 1 and r.random() < 0.1:      # a source without particles
            r.choice(c['particles'])['n'] = 0
        if r.random() < 0.1:
            for p in c['particles']:
                p['n'] = r.choice([1, 2, 64, 100, 129])
        if r.random() < 0.1:
            p = r.choice(c['particles'])
            p.update(type='Photon')
        c['hist'] = [dict(name='all%d' % k, particle=s, type='energy', time=0.0, bins=2, min=-1.0, max=1e9)
                     for k, s in enumerate(('Electron', 'Positron', 'Photon'))]
        if not any(p['out'] for p in c['particles']):
            c['particles'][0]['out'] = True
        seed = r.randrange(1, 1 << 31)
        suts = [spec(r, cap=1500, seed=seed) for _ in range(6)]
        for s in suts:
            if r.random() < 0.15:
                s['grant'] = r.randint(1, s['threads'])
        return dict(cfg=c, suts=suts)

    def one(self, sc, s, X):
        c, f = sc['cfg'], self.files(sc)
        ref = X.run(serial(s), f, cache=True)
        r = self.sutrun(X, s, f)
        v = finished(r)
        if v:
            return v
        v = primaries_ok(r, c)
        if v:
            return v
        for k, sp in enumerate(('Electron', 'Positron', 'Photon')):
            n = sum(p['n'] for p in c['particles'] if p['type'].capitalize() == sp)
            if 'Histograms/all%d/BinValues' % k in r['data']['out.h5']:
                got = judge.hist(r, 'all%d' % k)[1].sum()
                if c['general']['steps'] and got != n:
                    return [('events-simulated', '%d %s primaries entered the event loop, %d were requested' % (got, sp, n))]
        if not finished(ref) and not primaries_ok(ref, c):
            v = same_primaries(r, ref)
            if v:
                return v
        # sampled independently of any reference: no primary twice
        P = tab(r, 'Primary')[:, 1:]
        if len(P) > 1 and len(np.unique(P, axis=0)) != len(P):
            return [('primary-repeated', 'a primary was simulated twice')]
        return []


def match_events(r, ref):
    """Event number in r -> event number in ref with the same primary."""
    a, b = {}, {}
    for row in tab(ref, 'Primary'):
        b[row[1:].tobytes()] = int(row[0])
    for row in tab(r, 'Primary'):
        k = row[1:].tobytes()
        if k not in b:
            return None
        a[int(row[0])] = b[k]
    return a if len(set(a.values())) == len(a) else None


def near_match(a, b, tol):
    """Whether the rows of a are those of b up to tol (absolute, per column), as multisets."""
    if len(a) != len(b):
        return False
    if not len(a):
        return True
    o = [x[np.lexsort(np.round(x / (tol * 50)).T[::-1])] for x in (a, b)]
    if np.all(np.abs(o[0] - o[1]) <= tol):
        return True
    from scipy.spatial import cKDTree
    t = cKDTree(b / tol)
    used = np.zeros(len(b), bool)
    for row in a / tol:
        c = [k for k in t.query_ball_point(row, 1.0, p=np.inf) if not used[k]]
        if not c:
            return False
        used[c[0]] = True
    return True


class C02(Conc):
    id = 'C02'
    variants = ('omp',)
    n = dict(quick=500, thorough=12000)
    rule = ('A scenario is a random set-up and 6 random schedules of 2-8 threads. Deterministic models: every final lepton bit for bit, every photon by '
            'position and direction, event by event against the serial run. Quantum: species, charge and causal distance per event.')

    def gen(self, r, i, tier):
        q = r.random() < 0.3
        c = gen.config(r, model='Quantum' if q else r.choice(DET), steps=r.randint(2, 10), frac=r.choice([1.0, 1.0, 0.5, 0.2]),
                       pairs=(r.random() < 0.3), od=gen.logu(r, 0.03, 0.3))
        for p in c['particles']:
            p['rad'] = gen.logu(r, 3e6, 3e7)
            p['n'] = max(2, p['n'])
        if r.random() < 0.25:
            c['physics']['emin'] = gen.logu(r, 1e-3, 1e-1)
        seed = r.randrange(1, 1 << 31)
        kw = {}
        if r.random() < 0.5:        # every event has its own random numbers: all models are deterministic
            kw['evdraw'] = r.randrange(1, 1 << 62)
            if r.random() < 0.5:
                c['physics']['model'] = r.choice(['Quantum', 'quantum'])
            if r.random() < 0.25:
                from agree import strong
                strong(r, c, r.choice(['Quantum', 'quantum', 'Semiclassical']))
                del c['particles'][1:]
                c['particles'][0].update(n=r.randint(2, 8), rad=gen.logu(r, 1e4, 1e6))
                if r.random() < 0.3:
                    c['particles'][0]['type'] = 'Photon'
        if i % 50 == 21:            # events of thousands of particles
            c = gen.config(r, model=r.choice(DET), steps=r.choice([300, 300, 600, 1100]), sources=1, nev=2, frac=1.0, field='static', od=0.01)
            c['general']['dt'] /= 100
            c['particles'][0]['rad'] = gen.logu(r, 3e6, 3e7)
            c['count'] = 1
            return dict(cfg=c, suts=[spec(r, seed=seed, cap=10000, threads=r.randint(2, 3), pol='rand', mean=gen.logu(r, 300, 30000)) for _ in range(2)])
        return dict(cfg=c, suts=[spec(r, seed=seed, **kw) for _ in range(6)])

    def one(self, sc, s, X):
        c, f = sc['cfg'], self.files(sc)
        r = self.sutrun(X, s, f)
        v = finished(r) or primaries_ok(r, c)
        if v:
            return v
        det = c['physics']['model'] in DET
        P = {int(x[0]): x[1:] for x in tab(r, 'Primary')}
        if c['physics']['pairs'] and det:
            det = not any(p['type'].capitalize() == 'Photon' for p in c['particles'])
        ref = X.run(serial(s), f, cache=True)
        if finished(ref) or primaries_ok(ref, c):
            return []
        m = match_events(r, ref)
        if m is None:
            return [('primary-values', 'the primaries are not those of the serial run: %s' % judge.diff_rows(tab(r, 'Primary')[:, 1:], tab(ref, 'Primary')[:, 1:]))]
        # causality and charge hold in every model
        T = c['general']['dt'] * (c['general']['steps'] + 3 + (c['general']['steps'] if c['physics']['pairs'] else 0))
        ev = {sp: judge.by_event(tab(r, sp)) for sp in ('Electrons', 'Positrons', 'Photons')}
        for sp in ev:
            for e, rows in ev[sp].items():
                if e not in P:
                    return [('unknown-event', '%s of event %d, which does not exist' % (sp, e))]
                d = np.sqrt(((rows[:, 4:7] - P[e][4:7]) ** 2).sum(1)).max()
                if not d <= T * (1 + 1e-6) + 1e-6 * np.abs(P[e][4:7]).max():
                    return [('foreign-particle', '%s of event %d at distance %.6g of its primary, light travels %.6g' % (sp, e, d, T))]
        er = {sp: judge.by_event(tab(ref, sp)) for sp in ev}
        for e in P:
            k = m[e]
            q = len(ev['Positrons'].get(e, ())) - len(ev['Electrons'].get(e, ()))
            q0 = len(er['Positrons'].get(k, ())) - len(er['Electrons'].get(k, ()))
            if q != q0:
                return [('event-charge', 'event %d ends with charge %+d, its primary gives %+d' % (e, q, q0))]
        if c.get('count'):          # a photon in every step
            for e in P:
                if len(ev['Photons'].get(e, ())) != c['general']['steps']:
                    return [('event-count', 'event %d ends with %d photons after %d steps with one each' % (e, len(ev['Photons'].get(e, ())), c['general']['steps']))]
            X.probe('counted-photons')
        if s.get('evdraw'):
            X.probe('draws-by-event')
            for e in P:
                for sp in ev:
                    a, b = ev[sp].get(e, np.zeros((0, 7))), er[sp].get(m[e], np.zeros((0, 7)))
                    X.probe('rows-' + sp.lower(), len(a))
                    if not judge.same_rows(a, b):
                        if not self.keyed(X, s, r, c):
                            X.probe('draws-not-by-event')
                            return []
                        return [('event-outcome', '%s of event %d differ from the serial run with the same random numbers for every event: %s' % (sp, e, judge.diff_rows(a, b)))]
            return []
        if not det:
            X.probe('quantum-runs')
            return []
        for e in P:
            k = m[e]
            for sp in ('Electrons', 'Positrons'):
                a, b = ev[sp].get(e, np.zeros((0, 7))), er[sp].get(k, np.zeros((0, 7)))
                if c['physics']['pairs'] and any(sum(len(x[y].get(z, ())) for y in ('Electrons', 'Positrons')) != 1 for x, z in ((ev, e), (er, k))):
                    continue          # cascades: random
                if not judge.same_rows(a, b):
                    return [('lepton-state', '%s of event %d differ from the serial run: %s' % (sp, e, judge.diff_rows(a, b)))]
            if c['physics']['pairs'] or c['physics'].get('emin'):
                continue
            a, b = ev['Photons'].get(e, np.zeros((0, 7))), er['Photons'].get(k, np.zeros((0, 7)))
            if c['physics']['frac'] == 1.0:
                X.probe('photon-events')
                ga, gb = geom(a), geom(b)
                tol = np.concatenate([np.full(3, 1e-9 * (np.abs(P[e][4:7]).max() + T)), np.full(3, 1e-9)])
                if not near_match(ga, gb, tol):
                    return [('photon-state', 'photons of event %d: %d, not those of the serial run (%d)' % (e, len(a), len(b)))]
        return self.alone(sc, s, X, P, ev)

    def alone(self, sc, s, X, P, ev):
        """The event that comes last in a list of events ends as it does on its own."""
        c = copy.deepcopy(sc['cfg'])
        if c['physics']['pairs'] or len(P) < 2 or not all(p.get('out', True) for p in c['particles']):
            return []
        e = max(P)
        row = P[e]
        k = float(np.sqrt((row[1:4] ** 2).sum()))
        p = dict(c['particles'][-1], n=1, e1=k, e2=0.0, distro='mono', pos=row[4:7].tolist(), dir=(row[1:4] / k).tolist(), rad=0.0, dur=0.0, div=0.0)
        c['particles'], c['hist'] = [p], []
        t = X.run(serial(s), {'input.ini': gen.ini(c)}, cache=True)
        if finished(t) or len(tab(t, 'Primary')) != 1:
            return []
        X.probe('alone')
        for sp in ('Electrons', 'Positrons'):
            a, b = ev[sp].get(e, np.zeros((0, 7))), tab(t, sp)[:, 1:]
            sz = np.abs(row[4:7]).max() + c['general']['dt'] * c['general']['steps']
            if len(a) != len(b) or len(a) and (np.abs(a[:, :4] - b[:, :4]).max() > 1e-6 * k or np.abs(a[:, 4:] - b[:, 4:]).max() > 1e-6 * sz):
                return [('not-alone', '%s of event %d end as %s; the same primary on its own as %s' % (sp, e, a[:1].tolist(), b[:1].tolist()))]
        return []


def geom(a):
    """Positions and directions of photon rows (event number removed)."""
    p = a[:, 1:4]
    m = np.sqrt((p * p).sum(1))
    m[m == 0] = 1
    return np.hstack([a[:, 4:7], p / m[:, None]])


def end_counts(r, h):
    return judge.nearest_bins(judge.quantity(tab(r, judge.SPECIES[h['particle'].capitalize()]), h['type']), h)


class C03(Conc):
    id = 'C03'
    variants = ('omp',)
    n = dict(quick=300, thorough=10000)
    rule = ('A scenario is a random set-up with 1-5 (one in 15: up to 66) histograms of any quantity, species and time and 6 schedules of 2-8 threads. The counts must be those '
            'of the serial run, of the primaries (time zero), of the final particles (late) and of a run that ends at the time of the histogram.')

    def gen(self, r, i, tier):
        q = r.random() < 0.2
        long = r.random() < 0.15      # events of many particles
        c = gen.config(r, model='Quantum' if q else r.choice(DET), steps=r.randint(25, 90) if long else r.randint(2, 8), frac=1.0,
                       od=gen.logu(r, 0.02, 0.2), nev=r.randint(1, 5) if long else r.randint(4, 40))
        c['hist'] = gen.histograms(r, c, r.randint(1, 4))
        if long:
            for h in c['hist']:
                if r.random() < 0.6:
                    sz = 3e6 + c['general']['dt'] * c['general']['steps']
                    h.update(particle='Photon', type=r.choice(['x', 'y', 'z']), min=-sz * 1.0173, max=sz * 0.8911)
            h = r.choice(c['hist'])
            k = c['general']['steps'] + r.randint(0, 2)
            h.update(time=(k - 1 + 0.37) * c['general']['dt'], slot=k, particle=r.choice(['Photon', 'Photon', h['particle']]))
        if i % 15 == 4:            # many histograms
            c['hist'] = gen.histograms(r, c, r.choice([9, 12, 17, 34, 66]))
        if r.random() < 0.35:      # a second one at the same time, or out of order
            h = dict(r.choice(c['hist']))
            h.update(name='again', particle=r.choice(['Electron', 'Positron', 'Photon']), bins=r.randint(2, 12))
            c['hist'].insert(r.randrange(len(c['hist']) + 1), h)
        if r.random() < 0.3:
            r.shuffle(c['hist'])
        if r.random() < 0.3:       # settings at their default (among them time zero) are left out
            c['omit'] = 1
        if r.random() < 0.5:       # narrow: many particles in one bin
            for h in c['hist']:
                h['bins'] = r.randint(2, 3)
        seed = r.randrange(1, 1 << 31)
        kw = {}
        if r.random() < 0.4:
            kw['evdraw'] = r.randrange(1, 1 << 62)
            if r.random() < 0.5:
                c['physics']['model'] = r.choice(['Quantum', 'quantum'])
            c['physics']['frac'] = r.choice([1.0, 0.5])
            if r.random() < 0.3:       # photons convert
                from agree import strong
                strong(r, c, r.choice(['Quantum', 'quantum']))
                c['physics']['frac'] = 1.0
                del c['particles'][1:]
                c['particles'][0].update(n=r.randint(2, 8), rad=gen.logu(r, 1e4, 1e6))
                c['hist'] = gen.histograms(r, c, r.randint(1, 4))
                for h in c['hist']:
                    h['particle'] = r.choice(['Photon', 'Photon', 'Electron', 'Positron'])
        return dict(cfg=c, suts=[spec(r, seed=seed, **kw) for _ in range(6)])

    def one(self, sc, s, X):
        c, f = sc['cfg'], self.files(sc)
        r = self.sutrun(X, s, f)
        v = finished(r)
        if v:
            return v
        det = c['physics']['model'] in DET
        ref = X.run(serial(s), f, cache=True)
        d = r['data']['out.h5']
        steps = c['general']['steps']
        for h in c['hist']:
            nm = h['name']
            if 'Histograms/%s/BinValues' % nm not in d:
                return [('histogram-missing', 'histogram %s is not in the output' % nm)]
            cen, val = judge.hist(r, nm)
            lep = h['particle'].capitalize() != 'Photon'
            # against the particles themselves
            src = None
            if h['slot'] == 0:
                src, what = self.primary_rows(r, c, h), 'the primaries'
            elif h['slot'] >= steps:
                src, what = tab(r, judge.SPECIES[h['particle'].capitalize()]), 'the final particles'
                X.probe('late-histograms')
            elif det and (lep or h['type'].lower() in ('x', 'y', 'z')):
                cut = copy.deepcopy(c)
                cut['general']['steps'] = h['slot']
                cut['hist'] = []
                t = X.run(serial(s), self.files(sc, cut), cache=True)
                if not finished(t):
                    src, what = tab(t, judge.SPECIES[h['particle'].capitalize()]), 'the particles at its time'
                    X.probe('mid-histograms' if lep else 'mid-photons')
            if src is not None:
                c0, k0, unsure = judge.nearest_bins(judge.quantity(src, h['type']), h)
                if cen.shape != c0.shape or not np.allclose(cen, c0, rtol=1e-9, atol=1e-9 * abs(h['max'])):
                    return [('bin-centres', 'histogram %s has wrong bin centres' % nm)]
                if np.abs(val - k0).sum() > 2 * unsure:
                    return [('histogram-counts', 'histogram %s (%s %s, slot %d) holds %s, %s give %s' % (
                        nm, h['particle'], h['type'], h['slot'], val.tolist()[:12], what, k0.tolist()[:12]))]
            if not finished(ref) and (det and lep or h['slot'] == 0 or s.get('evdraw')) and 'Histograms/%s/BinValues' % nm in ref['data']['out.h5']:
                rv = judge.hist(ref, nm)[1]
                if s.get('evdraw'):
                    X.probe('draws-by-event')
                if not np.array_equal(rv, val):
                    if s.get('evdraw') and not (det and lep or h['slot'] == 0) and not self.keyed(X, s, r, c):
                        X.probe('draws-not-by-event')
                        continue
                    return [('histogram-schedule', 'histogram %s (%s %s) holds %s with threads, %s without' % (
                        nm, h['particle'], h['type'], val.tolist()[:12], rv.tolist()[:12]))]
        return []

    def primary_rows(self, r, c, h):
        P, k, out = tab(r, 'Primary'), 0, []
        if any(not p.get('out', True) for p in c['particles']):
            return None
        kinds = set(p['type'].capitalize() for p in c['particles'])
        if len(kinds) == 1:
            return P if h['particle'].capitalize() in kinds else P[:0]
        P = P[np.argsort(P[:, 0], kind='stable')]
        for p in c['particles']:
            if p['type'].capitalize() == h['particle'].capitalize():
                out.append(P[k:k + p['n']])
            k += p['n']
        return np.vstack(out) if out else P[:0]


class C04(Conc):
    id = 'C04'
    variants = ('omp',)
    n = dict(quick=700, thorough=9000)
    rule = ('A scenario is a random set-up of 1-14 events with tracking and 5 schedules of 2-8 threads. Column lengths, time and position increments, '
            'energies, agreement with the final tables, and the set of tracks of the serial run are checked.')

    def gen(self, r, i, tier):
        q = r.random() < 0.3
        c = gen.config(r, model='Quantum' if q else r.choice(DET), nev=r.randint(1, 3) if (long := r.random() < 0.12) else r.randint(2, 8),
                       sources=1 if long else r.choice([1, 1, 1, 2]), steps=r.randint(12, 48) if long else r.randint(2, 7), frac=r.choice([1.0, 1.0, 0.4]),
                       tracking=True, od=gen.logu(r, 0.02, 0.3), pairs=r.random() < 0.2)
        for p in c['particles']:
            p['rad'] = gen.logu(r, 1e6, 1e7)
        if i % 100 == 9:           # many steps
            c['general'].update(steps=r.choice([260, 260, 520, 1040]), dt=c['general']['dt'] / 200)
            del c['particles'][1:]
            c['particles'][0]['n'] = r.randint(1, 2)
        if r.random() < 0.03:      # the run ends before the first step
            c['general']['steps'] = 0
        seed = r.randrange(1, 1 << 31)
        kw = dict(evdraw=r.randrange(1, 1 << 62)) if r.random() < 0.4 else {}
        if kw and r.random() < 0.2:
            from agree import strong
            strong(r, c, r.choice(['Quantum', 'quantum', 'Semiclassical']))
            del c['particles'][1:]
            c['particles'][0].update(n=r.randint(2, 4), rad=gen.logu(r, 1e4, 1e6))
        return dict(cfg=c, suts=[spec(r, seed=seed, **kw) for _ in range(5)])

    def one(self, sc, s, X):
        c, f = sc['cfg'], self.files(sc)
        r = self.sutrun(X, s, f)
        v = finished(r)
        if v:
            return v
        T, bad = judge.tracks(r)
        if bad:
            return bad
        dt, steps = c['general']['dt'], c['general']['steps']
        det = c['physics']['model'] in DET
        v = track_rules(T, dt, steps, det, c['physics']['pairs'])
        if v:
            return v
        X.probe('tracks', len(T))
        ends = np.array([np.concatenate([t['p'][-1], t['x'][-1]]) for t in T if len(t['t'])]).reshape(-1, 6)
        fin = np.vstack([tab(r, sp)[:, 2:8] for sp in ('Electrons', 'Positrons', 'Photons')])
        if steps == 0:
            X.probe('no-steps')
        elif not c['physics']['pairs'] and not judge.same_rows(ends, fin):
            return [('track-ends', 'the ends of the tracks are not the final particles: %s' % judge.diff_rows(ends, fin))]
        if len(T) < len(fin):
            return [('track-count', '%d tracks for %d final particles' % (len(T), len(fin)))]
        if all(p.get('out', True) for p in c['particles']) and len(fin) < s['cap'] // 2:
            lep = sum(len(tab(r, sp)) for sp in ('Electrons', 'Positrons'))
            pairs = (lep - sum(p['n'] for p in c['particles'] if p['type'].capitalize() != 'Photon')) // 2
            X.probe('converted', pairs)
            if len(T) != len(fin) + pairs:
                return [('track-count', '%d tracks for %d final particles and %d converted photons' % (len(T), len(fin), pairs))]
        if c['physics']['pairs'] and steps and not all(x.tobytes() in set(e.tobytes() for e in ends) for x in fin):
            return [('track-missing', 'a final particle has no track')]
        if steps and (det or s.get('evdraw')):
            ref = X.run(serial(s), f, cache=True)
            if finished(ref):
                return []
            R, bad = judge.tracks(ref)
            if bad:
                return []
            k = lambda t: t['x'].tobytes() + t['p'].tobytes() + t['t'].tobytes() + t['g'].tobytes()
            if s.get('evdraw'):
                X.probe('draws-by-event')
                a, b = sorted(map(k, T)), sorted(map(k, R))
                if a != b:
                    if self.keyed(X, s, r, c):
                        return [('track-set', '%d tracks, the serial run with the same random numbers for every event has %d; %d are the same' % (
                            len(a), len(b), len(set(a) & set(b))))]
                    X.probe('draws-not-by-event')
            if c['physics']['pairs'] or not det:
                return []
            lep = lambda L: sorted(k(t) for t in L if len(t['t']) and t['t'][0] == 0 and abs(t['g'][0] ** 2 - 1 - (t['p'][0] ** 2).sum()) < 1e-6 * t['g'][0] ** 2 and len(t['t']) == steps and t['g'][0] > 50)
            if lep(T) != lep(R):
                return [('track-set', 'the lepton tracks differ from those of the serial run')]
            if c['physics']['frac'] == 1.0:
                g = lambda L: np.array([np.concatenate([t['x'][0], t['x'][-1], [t['t'][0], len(t['t'])]]) for t in L]).reshape(-1, 8)
                a, b = g(T), g(R)
                sc_ = np.abs(b).max() if len(b) else 1
                if not near_match(a, b, np.concatenate([np.full(6, 1e-9 * sc_), [1e-6 * dt, 0.5]])):
                    return [('track-set', '%d tracks differ from the %d of the serial run' % (len(a), len(b)))]
        return []


def track_rules(T, dt, steps, det=False, pairs=False):
    tol = 1e-6 * dt
    for t in T:
        n = len(t['t'])
        if n == 0:
            continue
        if not (np.isfinite(t['x']).all() and np.isfinite(t['p']).all() and np.isfinite(t['t']).all()):
            return [('track-values', '%s holds values that are no numbers' % t['name'])]
        d = np.diff(t['t'])
        ok = np.abs(d - dt) < tol
        if not det:
            ok |= np.abs(d) < tol
        if not ok.all():
            return [('track-times', '%s: times %s do not increase by the time step %.6g' % (t['name'], t['t'][:8].tolist(), dt))]
        if t['t'][0] < -tol or t['t'][-1] > ((3 * steps if pairs else steps) + 2.5) * dt:
            return [('track-times', '%s: times from %.6g to %.6g' % (t['name'], t['t'][0], t['t'][-1]))]
        m = np.sqrt((t['p'] ** 2).sum(1))
        lep = np.abs(t['g'] - np.sqrt(1 + m * m)) <= 1e-9 * t['g'] + 1e-12
        pho = np.abs(t['g'] - m) <= 1e-9 * m + 1e-12
        if not (lep | pho).all() or not (lep.all() or pho.all()):
            return [('track-energy', '%s: the energies do not belong to the momenta' % t['name'])]
        sc = np.abs(t['x']).max() if n else 0
        dx = np.sqrt((np.diff(t['x'], axis=0) ** 2).sum(1))
        # an emission adds an entry: the same place, later
        w = np.abs(d - dt) < tol
        if not det:
            w = dx > 1e-9 * sc + 1e-9
        u = t['p'] / np.maximum(m, 1e-300)[:, None]
        bend = len(u) > 1 and ((u[1:] * u[:-1]).sum(1)).min() < 0.99      # a turn: the chord is shorter
        if t['g'].min() > 20 and not bend and ((dx[w] < dt * 0.99 - 1e-9 * sc - 1e-9).any() or dx.sum() < 0.99 * (t['t'][-1] - t['t'][0] - dt) - 1e-9 * sc * n):
            return [('track-halt', '%s moves only %.6g in a time step of %.6g' % (t['name'], dx[w].min() if w.any() else 0.0, dt))]
        if (dx > dt * (1 + 1e-6) + 1e-9 * sc + 1e-9).any():
            return [('track-jump', '%s moves %.6g in a time step of %.6g' % (t['name'], dx.max(), dt))]
        # the motion is along the momentum, up to the bend of the path
        if w.any() and m.min() > 0:
            u = t['p'] / m[:, None]
            bend = np.sqrt((np.diff(u, axis=0) ** 2).sum(1))
            off = np.diff(t['x'], axis=0)[w] / dx[w][:, None] - u[:-1][w]
            if (np.sqrt((off ** 2).sum(1)) > bend[w] + 2 * bend.max() + 1e-6 + 4e-9 * sc / dt + 1e-3 / t['g'].min()).any():
                return [('track-direction', '%s does not move along its momentum' % t['name'])]
        if dx.sum() > (t['t'][-1] - t['t'][0] + dt) * (1 + 1e-6) + 1e-9 * sc * n + 1e-9:
            return [('track-jump', '%s moves %.6g in a time of %.6g' % (t['name'], dx.sum(), t['t'][-1] - t['t'][0]))]
    return []


def sampled(P, p):
    """The independently sampled quantities of the primaries of one source, and what counts as equal."""
    out = {}
    if not len(P):
        return out
    if p['e2'] and (p['distro'] != 'linear' or p['e2'] != p['e1']):
        out['energy'] = (P[:, 1], 1e-12 * abs(p['e1']))
    d = np.array(p['dir']) / np.sqrt((np.array(p['dir']) ** 2).sum())
    a = np.cross(d, [1.0, 0, 0] if abs(d[0]) < 0.7 else [0, 1.0, 0])
    a /= np.sqrt((a * a).sum())
    b = np.cross(d, a)
    x = P[:, 5:8] - np.array(p['pos'])
    eps = 2e-15 * (np.abs(p['pos']).max() + np.abs(x).max())
    if p['dur'] > 1e5 * eps:
        out['arrival time'] = (x @ d, max(4 * eps, 1e-12 * p['dur']))
    if p['div'] > 1e-5:
        m = P[:, 2:5]
        m = m / np.sqrt((m * m).sum(1))[:, None]
        u, v = m @ a, m @ b
        out['angle'] = (np.hypot(u, v), 1e-11 * p['div'])
        ok = np.hypot(u, v) > 1e-2 * p['div']
        out['azimuth'] = (np.arctan2(v, u)[ok] % np.pi, 1e-10)
    if p['rad'] > 1e5 * eps and abs(d[2]) == 1.0:      # the axes of the source are those of the output
        out['x'] = (x[:, 0], max(4 * eps, 1e-12 * p['rad']))
        out['y'] = (x[:, 1], max(4 * eps, 1e-12 * p['rad']))
    return out


class C05(Conc):
    id = 'C05'
    variants = ('omp', 'mpi')
    n = dict(quick=260, thorough=9000)
    rule = ('A scenario is a quantum or continuous set-up of identical primaries and 5 schedules of 2-8 threads (or 2-4 processes). No draw and no photon '
            'energy occurs twice in a run; other entropy gives other primaries and photons.')

    def gen(self, r, i, tier):
        mpi = r.random() < 0.25
        c = gen.config(r, model=r.choice(['Quantum', 'Quantum', 'Semiclassical', 'Classical']), sources=1, nev=r.randint(3, 24), field='static', steps=r.randint(3, 10),
                       frac=r.choice([1.0, 1.0, 0.6]), od=gen.logu(r, 0.05, 0.4), pairs=r.random() < 0.2)
        burst = not mpi and r.random() < 0.08      # many equal events that emit
        if burst:
            c = gen.config(r, model='Quantum', sources=1, nev=r.randint(12, 24), field='static', steps=r.randint(10, 20), frac=1.0, od=gen.logu(r, 0.2, 0.4))
        many = not burst and i % 25 == 11
        if many:                                   # hundreds of events
            c = gen.config(r, model='Quantum', sources=1, nev=r.randint(257, 600), field='static', steps=r.choice([3, 3, 12, 40]), frac=1.0, od=gen.logu(r, 0.2, 0.4))
        if burst or r.random() < 0.6:
            p = c['particles'][0]
            p.update(e2=0.0 if p['distro'] == 'gaussian' else p['e1'], rad=0.0, dur=0.0, div=0.0)
            c['still'] = 1
        elif r.random() < 0.4:
            c['particles'][0]['dir'] = [0.0, 0.0, 1.0]
        if r.random() < 0.3:      # the same source again
            c['particles'].append(copy.deepcopy(c['particles'][0]))
        c['field']['E'] = [0.0, 0.0, 0.0]
        seed = r.randrange(1, 1 << 31)
        if mpi:
            suts = [spec(r, 'mpi', threads=r.choice([1, 1, 2]), ranks=r.randint(2, 4), seed=seed) for _ in range(4)]
            for s in suts:
                if s['pol'] == 'none':
                    s.update(pol='rand', mean=300.0)
        else:
            suts = [spec(r, seed=seed) for _ in range(5)]
        return dict(cfg=c, suts=suts[:2] if many else suts)

    def one(self, sc, s, X):
        c, f = sc['cfg'], self.files(sc)
        r = self.sutrun(X, s, f)
        v = finished(r)
        if v:
            return v
        if r['dupdraws']:
            return [('draw-repeated', '%d of %d random numbers were drawn twice' % (r['dupdraws'], r['draws']))]
        X.probe('draws', r['draws'])
        P, G = tab(r, 'Primary'), tab(r, 'Photons')
        if not c.get('still') and len(P) > 1 and len(np.unique(P[:, 1:], axis=0)) != len(P):
            return [('primary-repeated', 'a primary occurs twice')]
        Q = sampled(P, c['particles'][0])
        for k, (a, tol) in Q.items():
            d = np.diff(np.sort(a))
            if len(d) and d.min() <= tol:
                return [('primary-repeated', 'two primaries of one run have the same sampled %s' % k)]
        ph = c['physics']
        if c.get('still') and ph['model'].lower() == 'quantum' and not ph['pairs'] and ph['frac'] == 1.0 and len(P) >= 12 and s['variant'] == 'omp':
            ev = judge.by_event(G)
            if len(ev) == len(P):
                X.probe('emission-times')
                sz = np.abs(G[:, 5:8]).max()
                first = ev[min(ev)]
                for row in geom(first):
                    if all((np.abs(geom(ev[e]) - row) <= [1e-9 * sz] * 3 + [1e-9] * 3).all(1).any() for e in ev):
                        return [('emission-repeated', 'all %d events emit a photon at the same moment' % len(ev))]
        if not ph['pairs'] and len(G) > 1:
            e = np.sort(G[:, 1])
            # equal draws in equal conditions give equal photons
            rel = np.diff(e) <= 1e-13 * e[1:]
            if rel.any():
                k = int(np.argmax(rel))
                ids = G[np.abs(G[:, 1] - e[k]) <= 1e-12 * e[k]][:, 0]
                return [('photon-repeated', 'photons of the same energy %.15g in events %s' % (e[k], ids.tolist()[:4]))]
            X.probe('photons', len(G))
        o = dict(s, seed=s['seed'] ^ 0x5a5a5a)
        for k in ('pol', 'hot', 'sw', 'forced'):
            o.pop(k, None)
        o['pol'] = 'none'
        if s['variant'] == 'omp':
            o['threads'] = 1
        q = X.run(o, f, cache=True)
        if finished(q):
            return []
        P2, G2 = tab(q, 'Primary'), tab(q, 'Photons')
        if not c.get('still') and len(P) and len(set(x.tobytes() for x in P[:, 1:]) & set(x.tobytes() for x in P2[:, 1:])):
            return [('entropy-ignored', 'runs with different entropy sample the same primaries')]
        Q2 = sampled(P2, c['particles'][0])
        for k in Q:
            (a, tol), (b, _) = Q[k], Q2[k]
            if len(a) and len(b) and np.abs(a[:, None] - b[None, :]).min() <= tol:
                return [('entropy-ignored', 'runs with different entropy sample the same %s' % k)]
        if len(G) and len(G2) and set(G[:, 1].tolist()) & set(G2[:, 1].tolist()):
            return [('entropy-ignored', 'runs with different entropy emit the same photons')]
        return []
