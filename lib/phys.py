"""Physics along random histories: C16-C18, C20-C22, C26.

The random draws are the nondeterminism; each run is one seeded history, and the oracles are
conservation laws over its record, exact bookkeeping, and 6-sigma tests against the law of the process."""
import copy, json, math, os
import numpy as np
import core, gen, judge
from conc import Conc, spec, policy
from core import sim
from pyp import Py, script, arrays, calls, ORDER, pyspec, pyfinished
from judge import tab, finished

SIGMA = 6.0
ALPHA = 7.2973525664e-3
_T = {}


def table(name):
    if name not in _T:
        with open(os.path.join(sim.REPO, 'Tables', name)) as f:
            v = [float(x) for x in f.read().split()]
        _T[name] = np.array(v[1:]).reshape(-1, 2)
    return _T[name]


def emission_od(eta, gamma, dt):
    t = table('hsokolov.table')
    return dt * math.sqrt(3) * ALPHA * eta * 10 ** np.interp(math.log10(eta), t[:, 0], t[:, 1]) / (gamma * 2 * math.pi)


def pair_od(chi, e, dt):
    t = table('pairprod.table')
    return dt * ALPHA * chi * 10 ** np.interp(math.log10(chi), t[:, 0], t[:, 1]) / e


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return np.sqrt((np.asarray(a) ** 2).sum(-1))


def threads(r, p=0.4, most=4):
    t = r.randint(2, most) if r.random() < p else 1
    s = spec(r, threads=t)
    return s


def cascade(r, types=('Photon',), tracking=True, chi=None, theta=None, steps=None, n=None, model='Quantum', frac=1.0, emin=0.0, pairs=True, od=None, low=False, b=None):
    """Photons or leptons in a static magnetic field, energies chosen by chi; theta: deflection of a lepton of full energy in a step."""
    b = b or gen.logu(r, 1e-6, 2e-3) if not low else gen.logu(r, 2e-3, 0.1) if low != 'slow' else gen.logu(r, 0.1, 1.0)
    chi = chi or (r.uniform(0.3, 2.4) if low != 'slow' else b / 2 * (2 + gen.logu(r, 0.02, 6)))      # slow: not much above the rest masses
    e = 2 * chi / b
    ps = []
    for k in range(r.choice([1, 1, 1, 2])):
        p = gen.source(r, r.choice(types), n or r.choice([1, 2, 3, 5, 8, 12]), e)
        p['dir'] = p['dir'] if k == 0 else ps[0]['dir']
        if p['distro'] == 'gaussian':
            p['e2'] = e * 0.05
        p['dur'], p['rad'] = (gen.logu(r, 1e3, 1e5) * 1e-3 * e / b * 1e-3 for _ in (0, 1))
        p['pos'] = [r.uniform(-1, 1) * e / b * 1e-2 for _ in range(3)]
        ps.append(p)
    d = ps[0]['dir']
    B = [b * x for x in gen.perp(r, d)]
    if od:
        dt = od * e / (ALPHA * chi * 0.13)
        dt = min(dt, 0.02 * e / b)
    else:
        dt = (theta or gen.logu(r, 1e-4, 2e-2)) * e / b
    steps = steps or r.randint(3, 20)
    return dict(general=dict(dt=dt, steps=steps, tracking=tracking), field=dict(type='static', E=[0.0, 0.0, 0.0], B=B), particles=ps,
                physics=dict(model=model, frac=frac, pairs=pairs, emin=emin), hist=[])


def outside(r):
    """The run met a particle beyond the range of the tables, which it refuses."""
    return r['exit'] not in (0, None) and 'extreme simulation' in r['err']


class Tracks:
    """The tracks of a run, told apart."""
    def __init__(self, r, dt):
        T, self.bad = judge.tracks(r)
        self.leptons, self.photons = [], []
        for t in T:
            if not len(t['t']):
                continue
            m = norm(t['p'])
            dl, dp = np.abs(t['g'] - np.sqrt(1 + m * m)), np.abs(t['g'] - m)
            lep = dl.sum() <= dp.sum()
            t['m'] = m
            t['primary'] = t['t'][0] < 0.5 * dt
            (self.leptons if lep else self.photons).append(t)
        self.all = T

    def finite(self):
        for t in self.all:
            if not (np.isfinite(t['x']).all() and np.isfinite(t['p']).all() and np.isfinite(t['t']).all() and np.isfinite(t['g']).all()):
                return [('no-number', '%s holds values that are no numbers: momenta %s' % (t['name'], t['p'][:2].tolist()))]
        return []

    def split(self, r):
        """(photons that are reported at the end, photons that are not, rows without a track)."""
        G = tab(r, 'Photons')
        rows = {}
        for g in G:
            rows.setdefault(g[2:8].tobytes(), []).append(g)
        alive, dead = [], []
        for t in self.photons:
            k = np.concatenate([t['p'][-1], t['x'][-1]]).tobytes()
            if rows.get(k):
                rows[k].pop()
                alive.append(t)
            else:
                dead.append(t)
        return alive, dead, sum(len(v) for v in rows.values())


def unwind(x1, p1, B, dt, q):
    """Start of the helix step that ends at (x1, p1)."""
    b = norm(B)
    n = B / b
    m = norm(p1)
    g = math.sqrt(1 + m * m)
    w = b / g
    rot = lambda v, a: n * (n @ v) + math.cos(a) * (v - n * (n @ v)) + math.sin(a) * np.cross(n, v)
    p0 = rot(p1, q * w * dt)
    v0 = p0 / g
    vp = n * (n @ v0)
    vt = v0 - vp
    dx = vp * dt + math.sin(w * dt) / w * vt - q * (1 - math.cos(w * dt)) / w * np.cross(n, vt)
    return x1 - dx, p0, w * dt


def unloss(m, b, dt):
    """Momentum before a step of the semiclassical pusher in a field b across the motion, at the end of which it is m."""
    def f(p):
        eta = b * p
        return 2 / 3 * ALPHA * eta ** 2 * (1 + 4.8 * (1 + eta) * math.log(1 + 1.7 * eta) + 2.44 * eta * eta) ** (-2 / 3)
    k1 = f(m)
    k2 = f(m + k1 * dt / 2)
    k3 = f(m + k2 * dt / 2)
    k4 = f(m + k3 * dt)
    return m + (k1 + 2 * k2 + 2 * k3 + k4) * dt / 6


def match_pairs(dead, leptons, B, dt, radiate=False):
    """Every photon that is gone has left one electron and one positron at its place, along its direction, with its energy.
    radiate: with the semiclassical loss of energy in between."""
    scale = max([np.abs(t['x']).max() for t in dead + leptons] or [1.0])
    ends = [(t['x'][-1], t['p'][-1] / t['m'][-1], t['t'][-1] + dt, t['m'][-1], t) for t in dead]
    cand = [{-1: [], 1: []} for _ in dead]
    for l in leptons:
        hit = False
        start = unloss(l['m'][0], norm(np.cross(l['p'][0], B)) / l['m'][0], dt) if radiate else l['m'][0]
        loss = start / max(l['m'][0], 1e-300) - 1
        for q in (-1, 1):
            x0, p0, th = unwind(l['x'][0], l['p'][0], B, dt, q)
            td = th * loss
            u = p0 / max(norm(p0), 1e-300)
            wild = th > 0.25      # too slow a particle for its step: its place says little
            tx = 1e-9 * scale + dt * (2e-7 + td + (th ** 4 if not wild else 2.5))
            td += 1e-7 + (th ** 5 if not wild else 3)
            for k, (x, d, t, e, ph) in enumerate(ends):
                if abs(l['t'][0] - t) < 1e-6 * dt and norm(x0 - x) <= tx and norm(u - d) <= td:
                    cand[k][q].append((l, math.sqrt(1 + start ** 2), 1e-8 + 10 * loss ** 5 + th * loss + (th ** 6 if not wild else 4.0)))
                    hit = True
        if not hit:
            return [('lepton-origin', '%s starts at time %.6g at %s along %s, where no photon ended in a pair' % (
                l['name'], l['t'][0], l['x'][0].tolist(), (l['p'][0] / max(l['m'][0], 1e-300)).tolist()))]
    ways = []
    for k, (x, d, t, e, ph) in enumerate(ends):
        ways.append([])
        for le, Ee, ae in cand[k][-1]:
            for lp, Ep, ap in cand[k][1]:
                err = abs(Ee + Ep - e)
                if le is not lp and err <= e * 1e-9 + Ee * ae + Ep * ap:
                    ways[k].append((err, id(le), id(lp)))
        if not ways[k]:
            L = [(q, round(E, 3)) for q in (-1, 1) for _, E, _ in cand[k][q]]
            return [('pair-missing', '%s of energy %.9g is gone at time %.6g; the leptons that start there are (charge, energy) %s' % (ph['name'], e, t, L[:6]))]
        ways[k].sort()
    # a pair for each photon: few have more than one way
    order = sorted(range(len(ends)), key=lambda k: len(ways[k]))
    used, at, budget = set(), [-1] * len(ends), 20000
    i = 0
    while 0 <= i < len(order):
        k = order[i]
        if at[i] >= 0:
            used -= set(ways[k][at[i]][1:])
        at[i] += 1
        budget -= 1
        while at[i] < len(ways[k]) and (ways[k][at[i]][1] in used or ways[k][at[i]][2] in used):
            at[i] += 1
        if budget < 0:
            return []
        if at[i] == len(ways[k]):
            at[i] = -1
            i -= 1
            continue
        used |= set(ways[k][at[i]][1:])
        i += 1
    if i < 0:
        k = order[-1]
        return [('pair-missing', 'the photons that are gone and the leptons that start at their ends cannot be paired: %d photons, %d leptons' % (len(dead), len(leptons)))]
    if 2 * len(dead) != len(leptons):
        return [('lepton-number', '%d photons are gone and %d leptons have appeared' % (len(dead), len(leptons)))]
    return []


class Phys(Conc):
    histories = True
    level = 'exploration'
    real = ('all of Source/ except Geant (compiled from the working tree, memory accesses instrumented), HDF5, libstdc++; for Python scenarios '
            'RunManager.cpp with its bindings, CPython and numpy')

    def describe(self, sc):
        return ('%s: ' % sc['kind'] if 'kind' in sc else '') + super().describe(sc)


# ---------------------------------------------------------------- C16
class C16(Phys):
    id = 'C16'
    variants = ('omp', 'py')
    n = dict(quick=1500, thorough=24000)
    rule = ('A scenario is a random cascade of photons or leptons in a static field, on 1-4 threads, with and without draws at the ends of their range, 2 seeds: every '
            'photon that is gone is matched with the two leptons that start at its end. One in eight is a Python session with a sampling fraction, judged by weights.')

    def gen(self, r, i, tier):
        if r.random() < 0.12:
            return self.gen_py(r)
        low = r.choice([True, True, 'slow']) if r.random() < 0.35 else False
        if r.random() < 0.25:
            # beyond the tables of emission: leptons that only lose energy
            chi = gen.logu(r, 30, 800)
            e = gen.logu(r, 1e4, 3e6)
            b = 2 * chi / e
            loss = unloss(e, b, 1.0) / e - 1
            c = cascade(r, ('Photon',), chi=chi, b=b, theta=min(gen.logu(r, 0.01, 0.05) / loss * b / e, 1e-4), model='Semiclassical', frac=0.0, n=r.randint(8, 16), steps=r.randint(6, 14))
            return dict(kind='tracks', cfg=c, suts=[threads(r) for _ in range(2)])
        c = cascade(r, ('Photon', 'Photon', 'Electron', 'Positron'), low=low, frac=r.choice([1.0, 1.0, 0.5]), od=gen.logu(r, 0.02, 0.5) if r.random() < 0.7 else None)
        if r.random() < 0.5:
            c['physics']['emin'] = r.choice([0.02, 0.2]) * c['particles'][0]['e1']
        suts = []
        for _ in range(2):
            s = threads(r)
            if r.random() < (0.9 if low else 0.4):
                s['rare'] = gen.logu(r, 0.01, 0.4)
            suts.append(s)
        return dict(kind='tracks', cfg=c, suts=suts)

    def gen_py(self, r):
        c = gen.config(r, model=r.choice(['quantum', 'quantum', 'semiclassical']), sources=1, nev=r.choice([3, 8, 20]), field='gaussian', ptype=r.choice(['electron', 'electron', 'positron']), frac=r.choice([0.5, 0.25, 0.5, 1.0]), pairs=True)
        p, f = c['particles'][0], c['field']
        p.update(rad=0.0, dur=0.0, div=0.0)
        p['e1'] = p['e2'] = r.uniform(1800, 2200)
        p['distro'] = 'linear'
        lam = r.uniform(15e-6, 25e-6) / gen.L0
        f.update(type='gaussian', max=r.uniform(1.5e-3, 1.75e-3), wavelength=lam, duration=100 * lam, waist=30 * lam, pol=r.uniform(0, 0.5))
        p['pos'] = [0.0, 0.0, 0.0]
        f['start'] = [x * lam for x in p['dir']]
        f['focus'] = [0.0, 0.0, 0.0]
        c['general'].update(dt=lam / 60, steps=22)
        return dict(kind='weights', cfg=c, T=r.randint(1, 3), suts=[pyspec(r, threads=2) for _ in range(2)])

    def one(self, sc, s, X):
        if sc['kind'] == 'weights':
            return self.weights(sc, s, X)
        c = sc['cfg']
        r = self.sutrun(X, s, self.files(sc))
        if outside(r):
            X.probe('outside-tables')
            return []
        v = finished(r)
        if v:
            return v
        dt = c['general']['dt']
        T = Tracks(r, dt)
        v = T.bad or T.finite()
        if v:
            return v
        for sp in ('Electrons', 'Positrons', 'Photons'):
            if not np.isfinite(tab(r, sp)).all():
                return [('no-number', '%s holds values that are no numbers' % sp)]
        alive, dead, over = T.split(r)
        if over:
            return [('photon-table', '%d photons are reported that have no track' % over)]
        new = [l for l in T.leptons if not l['primary']]
        X.probe('conversions', len(dead))
        # charge of every event
        P = tab(r, 'Primary')
        E, Q = judge.by_event(tab(r, 'Electrons')), judge.by_event(tab(r, 'Positrons'))
        ch = [{'Electron': -1, 'Positron': 1, 'Photon': 0}[p['type'].capitalize()] for p in c['particles'] for _ in range(p['n'])]
        for k in range(len(P)):
            d = len(Q.get(k, ())) - len(E.get(k, ()))
            if d != ch[k]:
                return [('charge', 'event %d ends with %d electrons and %d positrons from a primary of charge %d' % (k, len(E.get(k, ())), len(Q.get(k, ())), ch[k]))]
        if len(new) != 2 * len(dead):
            return [('lepton-number', '%d photons are gone and %d leptons have appeared' % (len(dead), len(new)))]
        B = np.array(c['field']['B'])
        return match_pairs(dead, new, B, dt, c['physics']['model'] == 'Semiclassical')

    def weights(self, sc, s, X):
        c = sc['cfg']
        n, fr = c['particles'][0]['n'], c['physics']['frac']
        k = calls(c)
        ops = [['new', 0]] + [['call', 0, m, k[m]] for m in ORDER] + [['call', 0, 'beamOn', [n, sc['T']]], ['get', 0]]
        r = Py.sutrun(self, X, s, script(ops))
        if outside(r):
            X.probe('outside-tables')
            return []
        v = pyfinished(r)
        if v:
            return v
        P, E, Q, G = arrays(json.loads(r['res'])[-1][0])
        for a, nm in ((E, 'electrons'), (Q, 'positrons'), (G, 'photons')):
            if not np.isfinite(a).all():
                return [('no-number', 'the %s hold values that are no numbers' % nm)]
        own = c['particles'][0]['type'].capitalize()
        X.probe('pairs-by-weight', len(Q) if own == 'Electron' else len(E))
        w = lambda a: {x: int((a[:, 6] == x).sum()) for x in np.unique(a[:, 6])}
        e, p = w(E), w(Q)
        prim = e if own == 'Electron' else p
        prim[1.0] = prim.get(1.0, 0) - n
        for x in sorted(set(e) | set(p)):
            if e.get(x, 0) != p.get(x, 0):
                return [('pair-weight', 'pairs have left %d electrons and %d positrons of weight %g' % (e.get(x, 0), p.get(x, 0), x))]
            if c['physics']['model'] != 'quantum':
                continue
            m = math.log(x) / -math.log(fr) if fr < 1 and x > 0 else 0.0
            if e.get(x, 0) and (abs(m - round(m)) > 1e-9 or round(m) < (1 if fr < 1 else 0) or (fr == 1 and x != 1)):
                return [('pair-weight', '%d pairs weigh %g, which no photon of fraction %g does' % (e.get(x, 0), x, fr))]
        return []


# ---------------------------------------------------------------- C17
class C17(Phys):
    id = 'C17'
    n = dict(quick=1600, thorough=26000)
    rule = ('A scenario is a quantum set-up, leptons in a static or a pulsed field, on 1-4 threads, with and without draws at the ends of their range, 2 seeds. Every recoil '
            'in a track is matched with the photon it left, and the momenta of each event are added up; now and then the loss without the photons that are not kept is compared with the full one, and the photons of a run with an energy cut with those of one without.')

    def gen(self, r, i, tier):
        if r.random() < 0.06:
            c = cascade(r, ('Electron', 'Positron'), chi=gen.logu(r, 0.05, 2.0), pairs=False, tracking=False, n=100, steps=r.randint(6, 12), frac=r.choice([1.0, 0.5, 0.1, 0.0]))
            c['particles'] = c['particles'][:1]
            b, p = norm(c['field']['B']), c['particles'][0]
            p.update(distro='linear', e2=p['e1'])
            c['general']['dt'] = min(gen.logu(r, 0.2, 1.0) / (0.0105 * b), 0.01 * p['e1'] / b)
            if c['physics']['frac'] == 1.0 or r.random() < 0.5:
                c['physics']['emin'] = gen.logu(r, 0.01, 2.0) * p['e1']
            return dict(kind='unkept', cfg=c, suts=[threads(r)])
        if r.random() < 0.05:
            c = gen.config(r, model=r.choice(['Semiclassical', 'Classical']), frac=r.choice([1.0, 1.0, 0.5]), nev=r.choice([20, 50]), sources=1, steps=r.randint(4, 10))
            b = c['field'].get('max') or norm(c['field']['B'])
            e = c['particles'][0]['e1']
            c['physics']['emin'] = 0.1 * e * min(b * e, 1.0) * gen.logu(r, 0.1, 10)
            return dict(kind='cut', cfg=c, suts=[dict(threads(r), threads=1, pol='none')])
        static = r.random() < 0.75
        frac = r.choice([1.0, 1.0, 1.0, 0.5, 0.2])
        if static:
            c = cascade(r, ('Electron', 'Positron'), low=r.random() < 0.2, chi=gen.logu(r, 0.003, 2.4), pairs=False, frac=frac, tracking=r.random() < 0.7, n=r.choice([1, 2, 4, 8]))
            b, e = norm(c['field']['B']), c['particles'][0]['e1']
            c['general']['dt'] = min(gen.logu(r, 0.05, 1.5) / (0.0105 * b), 0.01 * e / b)
        else:
            c = gen.config(r, model='Quantum', field=r.choice(['plane', 'gaussian', 'focusing']), frac=frac, nev=r.choice([1, 2, 4]), tracking=True)
        if r.random() < 0.4:
            c['physics']['emin'] = gen.logu(r, 0.001, 0.3) * c['particles'][0]['e1']
        suts = []
        for _ in range(2):
            s = threads(r)
            if r.random() < 0.4:
                s['rare'] = gen.logu(r, 0.01, 0.4)
            suts.append(s)
        return dict(cfg=c, suts=suts)

    def unkept(self, sc, s, X):
        """Leptons recoil from the photons that are not kept as from the others."""
        from law import two_means
        c = sc['cfg']
        full = copy.deepcopy(c)
        full['physics'].update(frac=1.0, emin=0)
        r = self.sutrun(X, s, self.files(sc))
        q = X.run(dict(variant='omp', threads=1, seed=1 + s['seed'] * 7919 % ((1 << 31) - 1), cap=s['cap']), {'input.ini': gen.ini(full)})
        if outside(r) or outside(q):
            return []
        v = finished(r) or finished(q)
        if v:
            return v
        A, B = (np.vstack([tab(x, 'Electrons'), tab(x, 'Positrons')])[:, 1] for x in (r, q))
        X.probe('unkept')
        if not two_means(A, B):
            return [('recoil-unkept', 'leptons end with %.6g on average if all photons are kept, with %.6g at fraction %g, cut %g' % (B.mean(), A.mean(), c['physics']['frac'], c['physics'].get('emin') or 0))]
        return []

    def cut(self, sc, s, X):
        """The energy cut removes the photons below it, and nothing else."""
        c = sc['cfg']
        full = copy.deepcopy(c)
        full['physics']['emin'] = 0
        r = self.sutrun(X, s, self.files(sc))
        q = X.run(dict(s), {'input.ini': gen.ini(full)})
        if outside(r) or outside(q):
            return []
        v = finished(r) or finished(q)
        if v:
            return v
        emin = c['physics']['emin']
        G, G1 = tab(r, 'Photons'), tab(q, 'Photons')
        X.probe('photons-cut', len(G1) - len(G))
        if len(G) and G[:, 1].min() < emin * (1 - 1e-9):
            return [('below-cut', 'a photon of energy %.9g is kept with the cut at %.9g' % (G[:, 1].min(), emin))]
        if r['drawhash'] == q['drawhash']:
            for t in ('Electrons', 'Positrons'):
                if not judge.same_rows(tab(r, t), tab(q, t)):
                    return [('cut-motion', '%s differ with a cut at %.6g: %s' % (t, emin, judge.diff_rows(tab(r, t), tab(q, t))))]
            hi, lo = G1[G1[:, 1] > emin * (1 + 1e-9)] if len(G1) else G1, G[G[:, 1] > emin * (1 + 1e-9)] if len(G) else G
            if not judge.same_rows(hi, lo):
                return [('cut-photons', 'photons above the cut at %.6g differ from those of a run without: %s' % (emin, judge.diff_rows(lo, hi)))]
        return []

    def one(self, sc, s, X):
        c = sc['cfg']
        if sc.get('kind') == 'unkept':
            return self.unkept(sc, s, X)
        if sc.get('kind') == 'cut':
            return self.cut(sc, s, X)
        r = self.sutrun(X, s, self.files(sc))
        if outside(r):
            X.probe('outside-tables')
            return []
        v = finished(r)
        if v:
            return v
        dt, steps, ph = c['general']['dt'], c['general']['steps'], c['physics']
        G = tab(r, 'Photons')
        emin = ph.get('emin') or 0
        if len(G) and G[:, 1].min() < emin * (1 - 1e-9):
            return [('below-cut', 'a photon of energy %.9g is kept with the cut at %.9g' % (G[:, 1].min(), emin))]
        if len(G) and not np.isfinite(G).all():
            return [('no-number', 'the photons hold values that are no numbers')]
        P, L = tab(r, 'Primary'), np.vstack([tab(r, 'Electrons'), tab(r, 'Positrons')])
        if len(L) != len(P):
            return [('lepton-number', '%d leptons at the end from %d primaries' % (len(L), len(P)))]
        static = c['field']['type'] == 'static'
        if static:
            b = norm(c['field']['B'])
            p0 = {int(x[0]): norm(x[2:5]) for x in P}
            pf = {int(x[0]): norm(x[2:5]) for x in L}
            k = {}
            for g in G:
                k[int(g[0])] = k.get(int(g[0]), 0.0) + norm(g[2:5])
            for e in p0:
                # the motion keeps the momentum but for the error of the scheme, which grows as the lepton slows down
                th = b * dt / max(pf[e], 1e-9)
                tol = 1e-9 * p0[e] + steps * (2 if s.get('rare') else 1) * p0[e] * th ** 6
                # (a slow lepton can lose more than its momentum and turn round)
                if th > 0.3 or pf[e] < 3:
                    X.probe('too-slow')
                    continue
                d = p0[e] - pf[e] - k.get(e, 0.0)
                full = ph['frac'] == 1.0 and not emin
                if (abs(d) > tol) if full else (d < -tol):
                    return [('momentum', 'event %d: the primary had %.12g, the lepton keeps %.12g, %d photons carry %.12g%s' % (
                        e, p0[e], pf[e], int((G[:, 0] == e).sum()), k.get(e, 0.0), '' if full else ' (fraction %g, cut %g)' % (ph['frac'], emin)))]
        if not c['general'].get('tracking'):
            return []
        T = Tracks(r, dt)
        v = T.bad or T.finite()
        if v:
            return v
        rec = []
        for l in T.leptons:
            x, p, t = l['x'], l['p'], l['t']
            at = np.nonzero((np.abs(np.diff(t) - dt) < 1e-6 * dt) & (np.diff(x, axis=0) == 0).all(1))[0] if len(t) > 1 else ()
            for i in at:
                d = p[i] - p[i + 1]
                m = norm(d)
                th = norm(np.cross(p[i], d)) / max(norm(p[i]) * m, 1e-300)
                if m > 1e-6 * norm(p[i]) and (th > 1e-8 or p[i] @ d < 0):
                    return [('recoil-direction', '%s of momentum %s recoils by %s' % (l['name'], p[i].tolist(), d.tolist()))]
                if m > norm(p[i]) * (1 + 1e-9) + 0.51 / max(norm(p[i]), 1.0):
                    return [('recoil-size', '%s of momentum %.9g emits %.9g' % (l['name'], norm(p[i]), m))]
                rec.append((x[i + 1], p[i] / norm(p[i]), m, t[i + 1], 1e-12 * norm(p[i]) + 1e-12))
        X.probe('emissions', len(rec))
        if len(T.photons) > len(rec):
            return [('photon-number', '%d photons from %d recoils' % (len(T.photons), len(rec)))]
        scale = max([np.abs(t['x']).max() for t in T.all] or [1.0])
        free = list(range(len(rec)))
        A = np.array([np.concatenate([q[0], [q[3]]]) for q in rec]).reshape(-1, 4)
        open_ = np.ones(len(rec), bool)
        for g in T.photons:
            u = g['p'][0] / g['m'][0]
            x0, t0 = g['x'][0] - dt * u, g['t'][0]
            near = np.nonzero(open_ & (np.abs(A[:, 3] - t0) < 1e-6 * dt) & (norm(A[:, :3] - x0) <= 1e-9 * scale + 1e-7 * dt))[0]
            ok = [k for k in near if abs(rec[k][2] - g['m'][0]) <= 1e-9 * g['m'][0] + rec[k][4] * 10 and norm(rec[k][1] - u) < 1e-8]
            if not ok:
                w = '; there the lepton along %s lost %.9g' % (rec[near[0]][1].tolist(), rec[near[0]][2]) if len(near) else ', where no lepton recoils'
                return [('photon-origin', '%s starts at time %.6g, at %s with %.9g along %s%s' % (g['name'], t0, x0.tolist(), g['m'][0], u.tolist(), w))]
            open_[ok[0]] = False
        if ph['frac'] == 1.0:
            for k in np.nonzero(open_)[0]:
                if rec[k][2] > emin * (1 + 1e-9) + rec[k][4] * 100:
                    return [('photon-missing', 'a lepton lost %.9g at time %.6g, and no photon started there' % (rec[k][2], rec[k][3]))]
        return []


# ---------------------------------------------------------------- C18
class C18(Phys):
    id = 'C18'
    variants = ('omp', 'py')
    n = dict(quick=1500, thorough=26000)
    rule = ('A scenario is a random cascade with histograms at several times on 1-4 threads, 2 seeds: photons that turned into pairs end there and are counted '
            'nowhere later, all others reach the end. One in six is a Python session, which keeps no emitted photon, or all of a narrow beam.')

    def gen(self, r, i, tier):
        if r.random() < 0.16:
            sc = C16.gen_py(self, r)
            c = sc['cfg']
            if r.random() < 0.4:      # all photons, in a beam so energetic that it stays narrow
                p, f, e, b = c['particles'][0], c['field'], gen.logu(r, 5e4, 5e5), 0.0
                b = gen.logu(r, 0.5, 1.8) / e
                dt = gen.logu(r, 0.2, 1.0) / 0.0105 / (2 * b)
                p['n'] = r.choice([8, 20, 40])
                p.update(e1=e, e2=e, type=r.choice(['photon', 'electron', 'positron']))
                f.update(max=b, wavelength=60 * dt, duration=6000 * dt, waist=2000 * dt, start=[x * 60 * dt for x in p['dir']])
                c['general'].update(dt=dt, steps=r.randint(6, 20))
                c['physics'].update(frac=r.choice([1.0, 1.0, 0.5]), emin=0, model='quantum')
                sc['kind'] = 'places'
                return sc
            c['physics']['frac'] = 0.0
            c['particles'][0]['type'] = r.choice(['photon', 'Photon', 'electron'])
            sc['kind'] = 'python'
            return sc
        solo = r.random() < 0.6
        c = cascade(r, ('Photon',) if solo else ('Photon', 'Electron', 'Positron'), low=r.random() < 0.1, od=gen.logu(r, 0.05, 0.6), frac=r.choice([1.0, 0.5]))
        e = max(p['e1'] for p in c['particles'])
        if solo:
            c['physics']['emin'] = 1e3 * e
            c['hist'] = gen.histograms(r, c, r.randint(1, 4), ('Photon', 'Photon', 'Electron', 'Positron'))
            for h in c['hist']:
                h['type'] = 'energy'
                # far outside of all values: a histogram that counts
                h.update(min=-1e3 * e, max=1e3 * e, bins=3)
        c['general']['tracking'] = True
        suts = []
        for _ in range(2):
            s = threads(r)
            if r.random() < 0.4:
                s['rare'] = gen.logu(r, 0.01, 0.4)
            suts.append(s)
        return dict(kind='solo' if solo else 'cascade', cfg=c, suts=suts)

    def one(self, sc, s, X):
        c = sc['cfg']
        if sc['kind'] in ('python', 'places'):
            return self.python(sc, s, X)
        r = self.sutrun(X, s, self.files(sc))
        if outside(r):
            X.probe('outside-tables')
            return []
        v = finished(r)
        if v:
            return v
        dt, steps = c['general']['dt'], c['general']['steps']
        T = Tracks(r, dt)
        if T.bad:
            return T.bad
        for t in T.all:
            # pushes, without the entries of recoils
            t['pushes'] = 1 + int((np.abs(np.diff(t['x'], axis=0)).sum(1) > 0).sum()) if len(t['t']) else 0
        alive, dead, over = T.split(r)
        X.probe('converted', len(dead))
        if over:
            return [('photon-table', '%d photons are reported that have no track' % over)]
        new = [l for l in T.leptons if not l['primary']]
        if len(new) != 2 * len(dead):
            return [('conversions', '%d photons have ended and %d leptons have appeared' % (len(dead), len(new)))]
        L = tab(r, 'Electrons'), tab(r, 'Positrons')
        if len(L[0]) + len(L[1]) != len(T.leptons):
            return [('lepton-table', '%d leptons are reported at the end, %d have tracks' % (len(L[0]) + len(L[1]), len(T.leptons)))]
        rows = {}
        for a in L:
            for g in a:
                k = g[2:8].tobytes()
                rows[k] = rows.get(k, 0) + 1
        for t in T.leptons:
            k = np.concatenate([t['p'][-1], t['x'][-1]]).tobytes()
            if not np.isfinite(t['p'][-1]).all():
                return [('no-number', '%s ends with values that are no numbers' % t['name'])]
            if not rows.get(k):
                return [('lepton-table', '%s does not end in the tables of leptons' % t['name'])]
            rows[k] -= 1
        for t in T.photons + T.leptons:
            if t['primary'] and t['pushes'] > steps:
                return [('moved-on', '%s of a primary has %d steps of %d' % (t['name'], t['pushes'], steps))]
        for t in alive + T.leptons:
            if t['primary'] and t['pushes'] != steps:
                return [('stopped', '%s of a primary that lives to the end has %d steps of %d' % (t['name'], t['pushes'], steps))]
            if t['t'][-1] < (steps - 1.5) * dt:
                return [('stopped', '%s lives to the end and stops at time %.6g of %.6g' % (t['name'], t['t'][-1], dt * steps))]
        v = [] if not T.finite() else T.finite()
        if v:
            return v
        # a photon that is gone has left its leptons at its last place: it did not move on
        v = match_pairs(dead, new, np.array(c['field']['B']), dt)
        if v:
            return v
        if sc['kind'] == 'solo':
            for h in c['hist']:
                k = h['slot']
                n = judge.hist(r, h['name'])[1].sum()
                if h['particle'].capitalize() == 'Photon':
                    want = sum(1 for t in alive) + sum(1 for t in dead if t['pushes'] > k)
                else:
                    at = {'Electron': L[0], 'Positron': L[1]}[h['particle'].capitalize()]
                    keys = set(g[2:8].tobytes() for g in at)
                    want = sum(1 for t in T.leptons if (t['primary'] or t['pushes'] > steps - k) and np.concatenate([t['p'][-1], t['x'][-1]]).tobytes() in keys)
                if n != want:
                    return [('histogram', 'histogram %s counts %d %ss in slot %d; %d are there' % (h['name'], n, h['particle'], k, want))]
        return []

    def python(self, sc, s, X):
        c = sc['cfg']
        n = c['particles'][0]['n']
        k = calls(c)
        ops = [['new', 0]] + [['call', 0, m, k[m]] for m in ORDER] + [['call', 0, 'beamOn', [n, sc['T']]], ['get', 0]]
        r = Py.sutrun(self, X, s, script(ops))
        if outside(r):
            X.probe('outside-tables')
            return []
        v = pyfinished(r)
        if v:
            return v
        P, E, Q, G = arrays(json.loads(r['res'])[-1][0])
        own = c['particles'][0]['type'].capitalize()
        ph = n if own == 'Photon' else 0
        pairs = len(Q) if own != 'Positron' else len(E)
        X.probe('converted', pairs)
        if len(E) - len(Q) != {'Electron': n, 'Positron': -n}.get(own, 0):
            return [('charge', '%d electrons and %d positrons from %d primaries of type %s' % (len(E), len(Q), n, own))]
        if sc['kind'] == 'places':
            # whatever lives has kept pace with the light
            d = np.array(c['particles'][0]['dir'])
            L = np.vstack([E, Q, G])
            m = norm(L[:, :3])
            slow = m[:len(E) + len(Q)] < 10 * gen.E0 / 299792458.0
            if not len(L) or slow.any() or ((L[:, :3] @ d) < m * math.cos(0.05)).any():
                X.probe('wide')
                return []
            X.probe('places', len(G))
            dt = c['general']['dt'] * gen.L0
            z = (L[:, 3:6] - P[0, 3:6]) @ d
            if z.min() < (c['general']['steps'] - 0.5) * dt:
                k = int(np.argmin(z))
                return [('stays-behind', 'of %d photons and %d leptons one has come %.6g of %.6g steps: %s' % (len(G), len(E) + len(Q), z[k] / dt, c['general']['steps'], L[k].tolist()))]
            return []
        if len(G) != ph - pairs:
            return [('python-photons', '%d photons and %d pairs from %d primary photons with no other photon kept' % (len(G), pairs, ph))]
        return []
