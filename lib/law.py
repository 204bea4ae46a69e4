"""Laws of the random processes, judged over many simulated histories: C20-C22, C26.

Every history is one seeded execution of the real code; the draws are what the simulator controls. A statistical
statement is tested at a chance of about one in 10^9 per test, and the seeds are fixed, so that a run either always or
never reports."""
import copy, json, math
import numpy as np
from scipy import stats
import core, gen, judge
from conc import Conc, spec, policy
from pyp import Py, script, arrays, calls, ORDER, pyspec, pyfinished
from judge import tab, finished
from phys import Phys, Tracks, cascade, emission_od, pair_od, norm, outside, threads, ALPHA

PV = 1e-9
Z = 6.0


def two_counts(n1, N1, n2, N2, k=0.0):
    """Are n1 of N1 and n2 of N2 of one probability, within the relative bias k?"""
    if N1 == 0 or N2 == 0:
        return True
    p = (n1 + n2) / (N1 + N2)
    d = abs(n1 / N1 - n2 / N2) - k * p
    if d <= 0:
        return True
    if min(p * N1, p * N2, (1 - p) * N1, (1 - p) * N2) > 30:
        return d < Z * math.sqrt(p * (1 - p) * (1 / N1 + 1 / N2))
    h = stats.hypergeom(N1 + N2, n1 + n2, N1)
    return 2 * min(h.cdf(n1), h.sf(n1 - 1)) > PV


def one_count(n, N, p, k=0.0):
    """Is n of N of probability p, known within the relative error k?"""
    lo, hi = p * (1 - k), min(1.0, p * (1 + k))
    b = lambda q: stats.binom(N, q)
    return 2 * min(b(hi).cdf(n) if n < N * lo else 1, b(lo).sf(n - 1) if n > N * hi else 1) > PV


def two_means(a, b, k=0.0):
    """Do two samples have one mean, within the relative difference k? (Many values, or none is far from the others.)"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if len(a) < 2 or len(b) < 2:
        return True
    s = math.sqrt(a.var(ddof=1) / len(a) + b.var(ddof=1) / len(b))
    d = abs(a.mean() - b.mean()) - k * abs(a.mean() + b.mean()) / 2 - 1e-12 * (abs(a).mean() + abs(b).mean())
    if d <= 0:
        return True
    if s == 0:
        return False
    df = min(len(a), len(b)) - 1
    return 2 * stats.t(df).sf(d / s) > PV


def two_sums(a, f, b, k=0.0):
    """Do the values a of independent emissions kept with probability f, and b of all of them, have sums in the ratio f?
    (Within the relative bias k.)"""
    n = len(a) + len(b)
    if not n:
        return True
    c = stats.binom(n, f / (1 + f) * (1 - k)), stats.binom(n, min(1.0, f / (1 + f) * (1 + k)))
    if 2 * min(c[1].sf(len(a) - 1), c[0].cdf(len(a))) <= PV:
        return False
    m2 = ((a ** 2).sum() + (b ** 2).sum()) / n
    d = abs(a.sum() / f - b.sum()) - k * (a.sum() / f + b.sum()) / 2
    big = max(a.max() if len(a) else 0, b.max() if len(b) else 0)
    return d <= Z * math.sqrt(n / (1 + f) * m2 * (1 / f + 1)) + 4 * big / f


class Law(Phys):
    def session(self, X, s, c, n, T=1, batches=1, **over):
        """Arrays of simulations through the Python interface; over: other settings."""
        c = copy.deepcopy(c)
        for k, v in over.items():
            (c['physics'] if k in c['physics'] else c['particles'][0])[k] = v
        k = calls(c)
        ops = []
        for b in range(batches):
            ops += [['new', b]] + [['call', b, m, k[m]] for m in ORDER] + [['call', b, 'beamOn', [n, T]], ['get', b], ['del', b]]
        r = Py.sutrun(self, X, s, script(ops))
        if outside(r):
            X.probe('outside-tables')
            return None, []
        v = pyfinished(r)
        if v:
            return None, v
        res = [arrays(x[0]) for x in json.loads(r['res']) if isinstance(x[0], list) and len(x[0]) == 4]
        if len(res) != batches:
            return None, [('call-failed', '%d results of %d simulations' % (len(res), batches))]
        return res, []

    def shrink(self, sc):
        return ()

    def other(self, s, k):
        """The same schedule with other randomness."""
        if s.get('forced'):
            s = {x: y for x, y in s.items() if x not in ('forced', 'sw')}
            s['pol'] = 'none'
        return dict(s, seed=(s['seed'] * 7919 + k * 104729) % (1 << 31) or 1)


# ---------------------------------------------------------------- C20
class C20(Law):
    id = 'C20'
    variants = ('omp', 'py')
    n = dict(quick=220, thorough=6000)
    rule = ('A scenario simulates one set-up with every photon kept and with a sampling fraction: continuous emission photon by photon (place, weight, number per step), '
            'quantum emission and cascades by weighted sums over thousands of histories, generations of photons by the range of their weights; through the Python interface and the program.')

    def gen(self, r, i, tier):
        kind = r.choice(['continuous', 'continuous', 'quantum', 'cascade', 'cli', 'cli', 'generations'])
        f = r.choice([0.5, 0.2, 0.1, 0.03, 0.9, gen.logu(r, 0.01, 1), gen.logu(r, 3e-4, 1), gen.logu(r, 3e-4, 1), 0.0])
        if kind == 'generations':
            c = gen.config(r, model='semiclassical', sources=1, nev=1, steps=r.randint(10, 24), field='gaussian', ptype=r.choice(['electron', 'positron']), frac=r.choice([1.0, 1.0, 0.7, 0.5]), pairs=True)
            p, e = c['particles'][0], gen.logu(r, 2e4, 5e5)
            b = gen.logu(r, 0.5, 3.0) / e
            dt = gen.logu(r, 0.04, 0.1) / 0.0105 / (2 * b)
            p.update(e1=e, e2=e, rad=0.0, dur=0.0, div=0.0, distro='linear', pos=[0.0] * 3)
            c['field'].update(max=b, wavelength=120 * dt, duration=6000 * dt, waist=2000 * dt, pol=0.0, start=[x * 60 * dt for x in p['dir']], focus=[0.0] * 3)
            c['general'].update(dt=dt)
            return dict(kind=kind, cfg=c, n=r.randint(100, 300), T=1, suts=[pyspec(r)])
        if kind == 'cascade':
            from phys import C16
            c = C16.gen_py(C16(), r)['cfg']
            c['physics'].update(model=r.choice(['quantum', 'quantum', 'semiclassical']), frac=r.choice([0.5, 0.5, 0.7, 0.1, 0.02]))
            return dict(kind=kind, cfg=c, n=40, batches=24, T=r.choice([1, 1, 2]), suts=[pyspec(r)])
        model = r.choice(['classical', 'semiclassical', 'Classical', 'Semiclassical']) if kind == 'continuous' or kind == 'cli' and r.random() < 0.6 else 'quantum'
        c = gen.config(r, model=model, sources=1, steps=r.randint(8, 24), field=r.choice(['gaussian', 'focusing']) if kind != 'cli' else r.choice(['static', 'static', 'plane', 'gaussian']),
                       frac=f, od=gen.logu(r, 0.05, 0.25))
        p = c['particles'][0]
        p.update(rad=0.0, dur=0.0, div=0.0, distro='linear', e2=p['e1'])
        n = r.randint(200, 500) if model != 'quantum' else r.randint(600, 1200)
        if kind == 'cli':
            p['n'] = n = n // 2
            if r.random() < 0.3:
                c['physics']['emin'] = gen.logu(r, 1e-4, 0.05) * p['e1']
            return dict(kind=kind, cfg=c, n=n, T=1, suts=[threads(r)])
        T = r.choice([1, 1, 2, 4])
        return dict(kind=kind, cfg=c, n=n, T=T, suts=[pyspec(r, threads=T)])

    def one(self, sc, s, X):
        return getattr(self, sc['kind'])(sc, s, X)

    def continuous(self, sc, s, X):
        c, n, f = sc['cfg'], sc['n'], sc['cfg']['physics']['frac']
        a, v = self.session(X, s, c, n, sc['T'])
        b, w = self.session(X, self.other(s, 1), c, n, 1, frac=1.0)
        if v or w or not a or not b:
            return v or w
        (P, E, Q, G), (P1, E1, Q1, G1) = a[0], b[0]
        for x, y, nm in ((E, E1, 'electrons'), (Q, Q1, 'positrons')):
            if len(x) != len(y) or len(np.unique(np.vstack([x, y]), axis=0)) > 1:
                return [('motion', 'the %s of one energy and place end in %d different states with fractions %g and 1' % (nm, len(np.unique(np.vstack([x, y]), axis=0)), f))]
        # all particles move as one: the photons of a step share their weight and, but for rounding, their end
        ws = np.unique(G1[:, 6])
        start = np.concatenate([[True], np.diff(ws) > 1e-11 * ws[1:]]) if len(ws) else np.zeros(0, bool)
        lo = ws[start]
        size = max(np.abs(G1[:, 3:6]).max(), np.abs(E1[:, 3:6]).max() if len(E1) else 0, np.abs(Q1[:, 3:6]).max() if len(Q1) else 0) if len(G1) else 1.0
        k1 = np.searchsorted(lo * (1 - 1e-12), G1[:, 6]) - 1
        N = np.bincount(k1, minlength=len(lo))
        for k in range(len(lo)):
            if N[k] % n:
                return [('keeps-all', 'with fraction 1, %d equal particles leave %d photons of weight %.9g in a step' % (n, N[k], lo[k]))]
        X.probe('photons-sampled', len(G))
        if f == 0:
            return [('number', '%d photons with fraction 0' % len(G))] if len(G) else []
        if len(G):
            u = G[:, 6] * f
            k0 = np.searchsorted(lo * (1 - 1e-11), u) - 1
            off = (k0 < 0) | (u > ws[np.concatenate([np.nonzero(start)[0][1:] - 1, [len(ws) - 1]])][k0] * (1 + 1e-11)) if len(lo) else np.ones(len(G), bool)
            if off.any():
                g = G[np.nonzero(off)[0][0]]
                return [('weight', 'a photon weighs %.12g at fraction %g, which is no unsampled weight divided by it (those are %s)' % (g[6], f, lo[:4].tolist()))]
            for k in range(len(lo)):
                x, y = G[k0 == k], G1[k1 == k]
                if N[k] == n and len(x) and np.abs(x[:, 3:6] - y[0, 3:6]).max() > 1e-9 * size:
                    return [('photon-place', 'photons of unsampled weight %.9g end elsewhere with fraction %g' % (lo[k], f))]
                if not one_count(len(x), N[k], f):
                    return [('number', 'fraction %g keeps %d of the %d photons of a step' % (f, len(x), N[k]))]
        if not one_count(len(G), len(G1), f):
            return [('number', 'fraction %g keeps %d of %d photons' % (f, len(G), len(G1)))]
        return []

    def generations(self, sc, s, X):
        """Continuous emission: photons of the leptons of pairs weigh less than those of primaries, by the weight of the pair."""
        c, n, f = sc['cfg'], sc['n'], sc['cfg']['physics']['frac']
        a, v = self.session(X, s, c, n)
        b, w = self.session(X, self.other(s, 1), c, 1, frac=1.0, pairs=False)
        if v or w or not a or not b:
            return v or w
        (P, E, Q, G), (P1, E1, Q1, G1) = a[0], b[0]
        steps = c['general']['steps']
        if len(G1) != steps:
            return [('keeps-all', '%d photons from %d steps with fraction 1' % (len(G1), steps))] if len(G1) > steps else []
        lo = G1[:, 6].min() / f
        # the rate grows as the energy falls, to the limit of the tables
        hi = 1.02 * 6.0 * c['general']['dt'] * math.sqrt(3) * ALPHA * 2 * c['field']['max'] / (2 * math.pi) / f
        if hi * G1[:, 6].max() / f > 0.99 * lo:
            X.probe('generations-overlap')
            return []
        own = 'Positron' if c['particles'][0]['type'].capitalize() == 'Positron' else 'Electron'
        L = E if own == 'Positron' else Q
        first = int((G[:, 6] > 0.999 * lo).sum()) + int((L[:, 6] > 0.999 * lo).sum())
        X.probe('photons-sampled', len(G))
        X.probe('second-generation', int((G[:, 6] < 0.999 * lo).sum()))
        ok = first == n * steps if f == 1 else one_count(first, n * steps, f)
        if not ok:
            return [('generation', '%d photons and pairs of the weight of first photons (above %.6g), from %d primaries in %d steps at fraction %g; %d photons weigh less' % (
                first, lo, n, steps, f, (G[:, 6] < 0.999 * lo).sum()))]
        top = G1[:, 6].max() / f * 1.001
        if len(G) and G[:, 6].max() > top:
            return [('generation', 'a photon weighs %.6g, first photons at most %.6g' % (G[:, 6].max(), top))]
        return []

    def quantum(self, sc, s, X):
        c, n, f = sc['cfg'], sc['n'], sc['cfg']['physics']['frac']
        a, v = self.session(X, s, c, n, sc['T'])
        b, w = self.session(X, self.other(s, 1), c, n, 1, frac=1.0)
        if v or w or not a or not b:
            return v or w
        (P, E, Q, G), (P1, E1, Q1, G1) = a[0], b[0]
        X.probe('photons-sampled', len(G))
        if len(E) + len(Q) != n or len(E1) + len(Q1) != n:
            return [('lepton-number', '%d and %d leptons from %d' % (len(E) + len(Q), len(E1) + len(Q1), n))]
        for g, x in ((G, f), (G1, 1.0)):
            if len(g) and not np.all(np.abs(g[:, 6] * x - 1) < 1e-9):
                return [('weight', 'a photon of the quantum model weighs %r at fraction %g' % (g[np.argmax(np.abs(g[:, 6] * x - 1)), 6], x))]
        if not two_means(norm(np.vstack([E, Q])[:, :3]), norm(np.vstack([E1, Q1])[:, :3])):
            return [('motion', 'the leptons keep %.6g with fraction %g and %.6g with fraction 1 on average' % (norm(np.vstack([E, Q])[:, :3]).mean(), f, norm(np.vstack([E1, Q1])[:, :3]).mean()))]
        if f == 0:
            return [('number', '%d photons with fraction 0' % len(G))] if len(G) else []
        one = lambda g: np.ones(len(g))
        if not two_sums(one(G), f, one(G1)):
            return [('number', '%d photons with fraction %g, %d with fraction 1' % (len(G), f, len(G1)))]
        if not two_sums(norm(G[:, :3]), f, norm(G1[:, :3])):
            return [('energy', 'photons of momentum %.6g / %g with the fraction, %.6g without' % (norm(G[:, :3]).sum(), f, norm(G1[:, :3]).sum()))]
        return []

    def cascade(self, sc, s, X):
        c, n, f = sc['cfg'], sc['n'], sc['cfg']['physics']['frac']
        a, v = self.session(X, s, c, n, sc['T'], sc['batches'])
        b, w = self.session(X, self.other(s, 1), c, n, 1, sc['batches'], frac=1.0)
        if v or w or not a or not b:
            return v or w
        own = c['particles'][0]['type'].capitalize()
        for what, fn in (('photons', lambda x: x[3][:, 6].sum()), ('photon momentum', lambda x: (norm(x[3][:, :3]) * x[3][:, 6]).sum()),
                         ('pairs', lambda x: x[1 if own == 'Positron' else 2][:, 6].sum()), ('pair momentum', lambda x: (norm(x[1 if own == 'Positron' else 2][:, :3]) * x[1 if own == 'Positron' else 2][:, 6]).sum()),
                         ('lepton momentum', lambda x: (norm(x[1][:, :3]) * x[1][:, 6]).sum() + (norm(x[2][:, :3]) * x[2][:, 6]).sum())):
            A, B = [fn(x) for x in a], [fn(x) for x in b]
            if not two_means(A, B):
                return [('cascade', 'weighted %s of %d primaries: %.6g on average at fraction %g, %.6g at fraction 1' % (what, n, np.mean(A), f, np.mean(B)))]
        W = np.concatenate([x[3][:, 6] for x in a])
        m = np.log(W) / -math.log(f)
        X.probe('cascade-photons', len(W))
        X.probe('cascade-pairs', sum(len(x[2]) for x in a))
        if len(W) and c['physics']['model'] == 'quantum' and (np.abs(m - np.round(m)).max() > 1e-9 or np.round(m).min() < 1):
            return [('weight', 'a photon weighs %r at fraction %g' % (W[np.argmax(np.abs(m - np.round(m)))], f))]
        return []

    def cli(self, sc, s, X):
        c, n, f = sc['cfg'], sc['n'], sc['cfg']['physics']['frac']
        one = copy.deepcopy(c)
        one['physics']['frac'] = 1.0
        r = self.sutrun(X, s, self.files(sc))
        q = X.run(dict({k: s[k] for k in ('variant', 'cap')}, threads=1, seed=self.other(s, 1)['seed']), {'input.ini': gen.ini(one)})
        if outside(r) or outside(q):
            return []
        v = finished(r) or finished(q)
        if v:
            return v
        G, G1 = tab(r, 'Photons'), tab(q, 'Photons')
        L, L1 = (np.vstack([tab(x, 'Electrons'), tab(x, 'Positrons')]) for x in (r, q))
        if len(L) != n or len(L1) != n:
            return [('lepton-number', '%d and %d leptons from %d' % (len(L), len(L1), n))]
        X.probe('photons-sampled', len(G))
        emin = c['physics'].get('emin') or 0
        for x in (G, G1):
            if len(x) and x[:, 1].min() < emin * (1 - 1e-9):
                return [('below-cut', 'a photon of energy %.9g is kept with the cut at %.9g' % (x[:, 1].min(), emin))]
        if c['physics']['model'].lower() != 'quantum':
            if len(np.unique(np.vstack([L, L1])[:, 1:], axis=0)) > 1:
                return [('motion', 'leptons of one energy and place end in different states with fractions %g and 1' % f)]
            N = n * c['general']['steps']
            if not c['physics'].get('emin') and c['field']['type'] == 'static' and len(G1) != N:
                return [('keeps-all', 'fraction 1 keeps %d of %d photons' % (len(G1), N))]
            if len(G1) > N:
                return [('keeps-all', '%d photons from %d emissions' % (len(G1), N))]
            if c['physics'].get('emin') or c['field']['type'] != 'static':
                z = abs(len(G) - f * len(G1)) / math.sqrt(f * (1 - f) * len(G1) + f * f * len(G1) * (1 - len(G1) / N) + f * len(G1) * (1 - f * len(G1) / N) + 30)
                ok = z < Z
            else:
                ok = one_count(len(G), N, f)
            return [] if ok else [('number', 'fraction %g keeps %d of %d photons' % (f, len(G), len(G1)))]
        if not two_means(L[:, 1], L1[:, 1]):
            return [('motion', 'the leptons keep %.6g with fraction %g and %.6g with fraction 1 on average' % (L[:, 1].mean(), f, L1[:, 1].mean()))]
        if f == 0:
            return [('number', '%d photons with fraction 0' % len(G))] if len(G) else []
        if not two_sums(np.ones(len(G)), f, np.ones(len(G1))):
            return [('number', '%d photons with fraction %g, %d with fraction 1' % (len(G), f, len(G1)))]
        if not two_sums(G[:, 1], f, G1[:, 1]):
            return [('energy', 'photons of energy %.6g / %g with the fraction, %.6g without' % (G[:, 1].sum(), f, G1[:, 1].sum()))]
        return []


# ---------------------------------------------------------------- C21
class C21(Law):
    id = 'C21'
    n = dict(quick=450, thorough=12000)
    rule = ('A scenario puts hundreds of equal particles into constant conditions and judges when they convert or emit: number per step against the tabulated rate, hazard over '
            'equal spans, spread of the counts, waiting times after an emission against first ones; or it compares a run that keeps few photons with one that keeps all, or it compares an interaction met early and late in a life; cascades: the interactions of each particle against the rates along its own track.')

    def gen(self, r, i, tier):
        kind = r.choice(['emission', 'emission', 'emission', 'conversion', 'conversion', 'approach'])
        if r.random() < 0.08:
            c = cascade(r, types=('electron', 'positron', 'Electron', 'Positron', 'photon'), chi=r.uniform(1.6, 2.3), steps=r.randint(18, 28), n=r.randint(60, 110), od=r.uniform(0.1, 0.2))
            del c['particles'][1:]
            return dict(kind='born', cfg=c, suts=[threads(r)])
        n = r.randint(300, 900)
        if kind == 'emission':
            dense = r.random() < 0.25
            e, eta = gen.logu(r, 2e4, 1e6), gen.logu(r, 3e-5, 5e-4 if not dense else 1.2e-4)
            b = eta / e
            p = gen.logu(r, 0.02, 1.2) if not dense else gen.logu(r, 0.02, 0.06)
            steps = r.randint(8, 40) if not dense else r.randint(80, 160)
            dt = p * 1.0 / emission_od(eta, e, 1.0)
            t = r.choice(['electron', 'positron', 'Electron', 'Positron'])
            n //= 2 if not dense else 1
        elif kind == 'conversion':
            e, chi = gen.logu(r, 1e3, 1e6), gen.logu(r, 0.2, 2.4)
            b = 2 * chi / e
            m = r.randint(1, 6)
            steps = m * r.randint(3, 8)
            dt = gen.logu(r, 0.1, 2.0) / steps / pair_od(chi, e, 1.0)
            t = r.choice(['photon', 'Photon'])
        else:
            e, chi = gen.logu(r, 1e4, 1e6), gen.logu(r, 0.3, 2.0)
            b = chi / e
            tau = r.uniform(0.5, 1.5) / 0.4 / pair_od(chi, e, 1.0)
            dt, t, steps = tau / 8, r.choice(['photon', 'Photon']), 0
        d = gen.unit(r)
        src = dict(type=t, distro='linear', n=n, pos=[0.0] * 3, dir=d, out=True, e1=e, e2=e, dur=0.0, rad=0.0, div=0.0)
        c = dict(general=dict(dt=dt, steps=steps, tracking=False), particles=[src], physics=dict(model=r.choice(['quantum', 'Quantum']), frac=1.0, pairs=kind != 'emission', emin=0.0), hist=[])
        if kind == 'approach':
            c['field'] = dict(type='gaussian', max=b, wavelength=2e4 * tau, duration=tau, waist=1e6 * tau, pol=0.0, start=[0.0] * 3, focus=[0.0] * 3)
            c['physics']['emin'] = 1e3 * e
            return dict(kind=kind, cfg=c, tau=tau, near=r.uniform(4, 6), far=r.choice([r.uniform(8, 20), r.uniform(24, 40), r.uniform(24, 40)]), suts=[threads(r)])
        c['field'] = dict(type='static', E=[0.0] * 3, B=[b * x for x in gen.perp(r, d)])
        if kind == 'conversion':
            c['physics']['emin'] = 1e3 * e
            c['hist'] = [dict(name='h%d' % k, particle='Photon', type='energy', time=(k - 1 + 0.37) * dt, bins=3, min=-1e3 * e, max=1e3 * e, slot=k)
                         for k in range(m, steps + 1, m)]
            return dict(kind=kind, cfg=c, m=m, chi=chi, suts=[threads(r)])
        if r.random() < 0.2:
            c['physics']['emin'] = e * eta * gen.logu(r, 0.03, 1.5)
            c['physics']['frac'] = r.choice([1.0, 1.0, 0.5])
            return dict(kind='cut', cfg=c, eta=eta, suts=[threads(r)])
        return dict(kind=kind, cfg=c, eta=eta, suts=[threads(r)])

    def one(self, sc, s, X):
        return getattr(self, sc['kind'])(sc, s, X)

    def born(self, sc, s, X):
        """The particles of a cascade wait as the primaries do: the interactions of every particle, counted against the sum of its
        rates along its own track, by what it has been through since its birth or last emission."""
        c, dt = sc['cfg'], sc['cfg']['general']['dt']
        r = self.sutrun(X, s, self.files(sc))
        if outside(r):
            return []
        v = finished(r)
        if v:
            return v
        T = Tracks(r, dt)
        if T.bad or T.finite():
            return T.bad or T.finite()
        B, steps = np.array(c['field']['B']), c['general']['steps']
        edges = (0, 0.1, 0.3, 1.0, math.inf)
        cells = {}

        def count(what, depth, n, p):
            for k in range(4):
                if edges[k] <= depth < edges[k + 1]:
                    x = cells.setdefault((what, k), [0, 0.0])
                    x[0] += n
                    x[1] += p

        alive, dead, lost = T.split(r)
        for L, conv in ((alive, 0), (dead, 1)):
            for t in L:
                e = t['g'][0]
                chi = 0.5 * norm(np.cross(t['p'][0], B))
                if e <= 2.0 or chi < 1e-3:
                    if conv:
                        return [('dark', '%s of energy %.6g and chi %.6g converts' % (t['name'], e, chi))]
                    continue
                tau = pair_od(chi, e, dt)
                what = ('primary' if t['primary'] else 'emitted') + ' photons convert'
                for j in range(len(t['t'])):
                    count(what, j * tau, int(conv and j == len(t['t']) - 1), 1 - math.exp(-tau))
        for t in T.leptons:
            em = np.zeros(len(t['t']), bool)
            em[1:] = (t['x'][1:] == t['x'][:-1]).all(1)
            eta = norm(np.cross(t['p'], B))
            what, depth = ('primaries' if t['primary'] else 'leptons of pairs') + ' first emit', 0.0
            for j in np.nonzero(~em)[0]:
                hit = bool(j + 1 < len(em) and em[j + 1])
                tau = emission_od(eta[j], t['g'][j], dt)
                count(what, depth, int(hit), 1 - math.exp(-tau))
                depth += tau
                if hit:
                    what, depth = ('primaries' if t['primary'] else 'leptons of pairs') + ' emit again', 0.0
        for (what, k), (n, lam) in sorted(cells.items()):
            X.probe(what.replace(' ', '-'), n)
            m = lam * (0.97 if n < lam else 1.03)
            if (n - lam) * (n - m) > 0 and (n * math.log(n / m) if n else 0.0) - n + m > -math.log(PV):
                return [('born', '%s: %d after an optical depth of %g to %g, where their rates add up to %.6g' % (what, n, edges[k], edges[k + 1], lam))]
        return []

    def cut(self, sc, s, X):
        """A photon that is not kept renews the waiting time as any other."""
        c = sc['cfg']
        full = copy.deepcopy(c)
        full['physics'].update(emin=0.0, frac=1.0)
        r = self.sutrun(X, s, self.files(sc))
        q = X.run(dict(variant='omp', threads=1, seed=self.other(s, 3)['seed'], cap=s['cap']), self.files(sc, full))
        v = finished(r) or finished(q)
        if v:
            return v
        f, cut = c['physics']['frac'], c['physics']['emin']
        G, G1 = tab(r, 'Photons')[:, 1], tab(q, 'Photons')[:, 1]
        X.probe('photons-cut', int((G1 <= cut).sum()))
        if not two_sums(np.ones(len(G)), f, np.ones(int((G1 > cut).sum())), 0.01):
            return [('renewal-unkept', '%d photons above %.6g with fraction %g if others are not kept, %d of %d if all are' % (len(G), cut, f, (G1 > cut).sum(), len(G1)))]
        A, B = (np.vstack([tab(x, 'Electrons'), tab(x, 'Positrons')])[:, 1] for x in (r, q))
        if not two_means(A, B):
            return [('renewal-unkept', 'leptons end with %.9g on average if photons below %.6g are not kept, with %.9g if all are' % (A.mean(), cut, B.mean()))]
        return []

    def emission(self, sc, s, X):
        c, n, steps, dt = sc['cfg'], sc['cfg']['particles'][0]['n'], sc['cfg']['general']['steps'], sc['cfg']['general']['dt']
        e, B, d = c['particles'][0]['e1'], np.array(c['field']['B']), np.array(c['particles'][0]['dir'])
        r = self.sutrun(X, s, self.files(sc))
        v = finished(r)
        if v:
            return v
        G = tab(r, 'Photons')
        q = 1 - math.exp(-emission_od(sc['eta'], e, dt))
        X.probe('emissions', len(G))
        if not one_count(len(G), n * steps, q, 0.015):
            return [('rate', '%d emissions in %d steps of probability %.6g' % (len(G), n * steps, q))]
        # the direction tells the step
        th = norm(B) * dt / e
        w = np.cross(B / norm(B), d)
        a = np.abs(np.arctan2(G[:, 2:5] @ w, G[:, 2:5] @ d)) / th
        k = np.rint(a).astype(int) - 1
        if len(k) and (k.min() < 0 or k.max() >= steps or np.abs(a - k - 1).max() > 0.45):
            return [('direction', 'a photon leaves at %.6g times the deflection of a step, of %d steps' % (a[np.argmax(np.abs(a - np.rint(a)))], steps))]
        M = np.zeros((n, steps), int)
        np.add.at(M, (G[:, 0].astype(int), k), 1)
        if M.max(initial=0) > 1:
            return [('two-emissions', 'a lepton emits %d photons in a step' % M.max())]
        q = M.mean()
        if not 0 < q < 1:
            return []
        for j in range(steps):
            if not one_count(int(M[:, j].sum()), n, q, 0.02):
                return [('hazard', '%d of %d leptons emit in step %d, %.6g on average over all steps' % (M[:, j].sum(), n, j, n * q))]
        cnt = M.sum(1)
        mu, va = steps * q, steps * q * (1 - q)
        D = ((cnt - mu) ** 2).sum() / va
        if abs(D - n) > Z * math.sqrt(n * (2 + (1 - 6 * q * (1 - q)) / va)) + 0.02 * n + 10 / va:
            return [('spread', 'the photon numbers of %d events have variance %.6g about %.6g; a memoryless process has %.6g' % (n, ((cnt - mu) ** 2).mean(), mu, va))]
        for m in range(1, min(7, steps)):
            both, all_ = int((M[:, :-m] & M[:, m:]).sum()), int(M[:, :-m].sum())
            if not one_count(both, all_, q, 0.03):
                return [('memory', '%d of %d emissions are followed by another one %d steps later; the rate is %.6g' % (both, all_, m, q))]
        first = np.where(M.any(1), M.argmax(1), steps)
        for m in (1, 2, 4, 8):
            if m >= steps:
                break
            i, j = np.nonzero(M[:, :steps - m])
            quiet = int(sum(not M[x, y + 1:y + 1 + m].any() for x, y in zip(i, j)))
            if not two_counts(quiet, len(i), int((first >= m).sum()), n, 0.02):
                return [('renewal', '%d of %d emitters are quiet for the next %d steps, %d of %d are for the first' % (quiet, len(i), m, (first >= m).sum(), n))]
        return []

    def conversion(self, sc, s, X):
        c, n, steps, dt, m = sc['cfg'], sc['cfg']['particles'][0]['n'], sc['cfg']['general']['steps'], sc['cfg']['general']['dt'], sc['m']
        r = self.sutrun(X, s, self.files(sc))
        if outside(r):
            return []
        v = finished(r)
        if v:
            return v
        alive = [n] + [int(judge.hist(r, h['name'])[1].sum()) for h in c['hist']][:-1] + [len(tab(r, 'Photons'))]
        q = 1 - math.exp(-m * pair_od(sc['chi'], c['particles'][0]['e1'], dt))
        X.probe('conversions', n - alive[-1])
        for i in range(len(alive) - 1):
            a, b = alive[i], alive[i + 1]
            if b > a:
                return [('reborn', '%d photons after %d steps, %d after %d' % (a, m * i, b, m * (i + 1)))]
            if not one_count(a - b, a, q, 0.02):
                return [('hazard', '%d of %d photons convert in steps %d to %d; the tables give %.6g (survivors %s)' % (a - b, a, m * i, m * (i + 1) - 1, a * q, alive))]
        h, t = len(alive) // 2, 2 * (len(alive) // 2)
        if not two_counts(alive[h], n, alive[t] if t < len(alive) else alive[-1], alive[h], 0.02) and t < len(alive):
            return [('memory', 'survivors %s: the second half of the time is not like the first' % alive)]
        if not one_count(n - alive[-1], n, 1 - (1 - q) ** (len(alive) - 1), 0.015):
            return [('rate', '%d of %d photons convert; the tables give %.6g' % (n - alive[-1], n, n * (1 - (1 - q) ** (len(alive) - 1))))]
        return []

    def approach(self, sc, s, X):
        left = []
        for k, far in enumerate((sc['near'], sc['far'])):
            c = copy.deepcopy(sc['cfg'])
            c['general']['steps'] = int(math.ceil((far / 2 + 2.5) * sc['tau'] / c['general']['dt']))
            c['field']['start'] = [far * sc['tau'] * x for x in c['particles'][0]['dir']]
            r = self.sutrun(X, self.other(s, 5) if k else s, self.files(sc, c)) if not k else X.run(dict(variant='omp', threads=1, seed=self.other(s, 5)['seed'], cap=s['cap']), self.files(sc, c))
            if outside(r):
                return []
            v = finished(r)
            if v:
                return v
            left.append(len(tab(r, 'Photons')))
        n = sc['cfg']['particles'][0]['n']
        X.probe('approach', n - left[0])
        if not two_counts(left[0], n, left[1], n, 0.03):
            return [('history', '%d of %d photons survive a pulse they meet after %.3g durations, %d survive the same pulse after %.3g' % (left[0], n, sc['near'] / 2, left[1], sc['far'] / 2))]
        return []


# ---------------------------------------------------------------- C22
class C22(Law):
    id = 'C22'
    variants = ('omp', 'py')
    n = dict(quick=450, thorough=12000)
    rule = ('A scenario runs one set-up of weak recoil (eta 1e-4 to 2e-3) with the three radiation models: particle motion, photon numbers and photon energies of a thousand '
            'quantum histories against the weights of the continuous models; laser fields through the Python interface, static fields through the program. One in seven compares the mean loss of the quantum and the semiclassical model, and loss and emission of the classical one, at eta 0.01 to 3.')

    def gen(self, r, i, tier):
        if r.random() < 0.15:
            e, eta, od = gen.logu(r, 1e4, 1e6), gen.logu(r, 0.01, 3.0), gen.logu(r, 0.03, 0.12)
            b, d = eta / e, gen.unit(r)
            dt = od / (emission_od(eta, e, 1.0))
            loss = 2 / 3 * ALPHA * eta ** 2 * (1 + 4.8 * (1 + eta) * math.log(1 + 1.7 * eta) + 2.44 * eta * eta) ** (-2 / 3) * dt / e
            steps = int(max(2, min(60, gen.logu(r, 0.01, 0.06) / loss)))
            src = dict(type=r.choice(['electron', 'positron']), distro='linear', n=2500, pos=[0.0] * 3, dir=d, out=True, e1=e, e2=e, dur=0.0, rad=0.0, div=0.0)
            c = dict(general=dict(dt=dt, steps=steps, tracking=False), field=dict(type='static', E=[0.0] * 3, B=[b * x for x in gen.perp(r, d)]), particles=[src],
                     physics=dict(model='quantum', frac=1.0, pairs=False, emin=0.0), hist=[])
            return dict(kind='strong', cfg=c, n=2500, eta=eta, suts=[threads(r)])
        kind = r.choice(['laser', 'static'])
        e, eta, od, steps = gen.logu(r, 600, 5000), gen.logu(r, 1e-4, 2e-3), gen.logu(r, 0.03, 0.12), r.randint(12, 40)
        t, d = r.choice(['electron', 'positron']), gen.unit(r)
        src = dict(type=t, distro='linear', n=0, pos=[0.0] * 3, dir=d, out=True, e1=e, e2=e, dur=0.0, rad=0.0, div=0.0)
        if kind == 'laser':
            flat = r.random() < 0.3      # neither field nor direction change while the particle is in it
            if flat:
                src['e1'] = src['e2'] = e = gen.logu(r, 1e5, 1e6)
            b = eta / 2 / e
            dt = od / (0.0105 * 2 * b)
            lam = gen.logu(r, 15, 200) * dt * (1e6 if flat else 1)
            # the wave meets the particle at any angle but from behind
            while True:
                u = gen.unit(r)
                if sum(x * y for x, y in zip(u, d)) < 0.3:
                    break
            f = dict(type=r.choice(['gaussian', 'focusing']), max=b, wavelength=lam, duration=100 * lam + 100 * dt * steps, waist=30 * lam + 10 * dt * steps, pol=r.uniform(0, 1.5),
                     start=[-x * lam for x in u], focus=[0.0] * 3)
            if flat:
                src['pos'] = [x * lam / 8 for x in u]
        else:
            b = eta / e
            dt = od / (0.0105 * b)
            f = dict(type='static', E=[0.0] * 3, B=[b * x for x in (gen.perp(r, d) if r.random() < 0.5 else gen.unit(r))])
            src['n'] = 500
        c = dict(general=dict(dt=dt, steps=steps, tracking=False), field=f, particles=[src], physics=dict(model='quantum', frac=1.0, pairs=False, emin=0.0), hist=[])
        return dict(kind=kind, cfg=c, n=r.randint(700, 1100), eta=eta, flat=kind == 'laser' and flat, suts=[pyspec(r) if kind == 'laser' else threads(r)])

    def strong(self, sc, s, X):
        """Where the recoil is not weak, the semiclassical model still loses what the quantum model loses on average."""
        c, eta, n = sc['cfg'], sc['eta'], sc['n']
        semi = copy.deepcopy(c)
        semi['physics']['model'] = 'semiclassical'
        semi['particles'][0]['n'] = 400
        r = self.sutrun(X, s, self.files(sc))
        q = X.run(dict(variant='omp', threads=1, seed=self.other(s, 1)['seed'], cap=s['cap']), self.files(sc, semi))
        if outside(r) or outside(q):
            return []
        v = finished(r) or finished(q)
        if v:
            return v
        e, steps = c['particles'][0]['e1'], c['general']['steps']
        A, B = (np.vstack([tab(x, 'Electrons'), tab(x, 'Positrons')])[:, 2:5] for x in (r, q))
        G, G1 = tab(r, 'Photons'), tab(q, 'Photons')
        if len(A) != n or len(B) != 400:
            return [('lepton-number', '%d and %d leptons from %d and %d' % (len(A), len(B), n, 400))]
        if len(G1) != 400 * steps:
            return [('continuous', 'the semiclassical model leaves %d photons in %d steps' % (len(G1), 400 * steps))]
        lq = math.sqrt(e * e - 1) - norm(A)
        ls = math.sqrt(e * e - 1) - norm(B[0])
        X.probe('strong')
        X.probe('quantum-photons', len(G))
        # few-photon tails are taken from the larger sample, that of the semiclassical photons too
        od = emission_od(eta, e, c['general']['dt'])
        sd = math.sqrt(max(lq.var(), steps * od * (G1[:, 1] ** 2).mean()) / n)
        if abs(lq.mean() - ls) > Z * sd + (0.04 + ls / e + od) * ls:
            return [('strong-loss', 'at eta %.4g quantum histories lose %.6g on average (of %.6g), the semiclassical motion %.6g' % (eta, lq.mean(), e, ls))]
        em = od * G1[:, 1].sum() / 400
        sd = od * math.sqrt(steps * 400 * G1[:, 1].var()) / 400
        if abs(em - ls) > Z * sd + (0.04 + ls / e) * ls:
            return [('strong-loss', 'at eta %.4g a particle of the semiclassical model loses %.6g and emits %.6g' % (eta, ls, em))]
        # the classical model knows no weakening of the emission: the same loss in a shorter time
        g = (1 + 4.8 * (1 + eta) * math.log(1 + 1.7 * eta) + 2.44 * eta * eta) ** (-2 / 3)
        semi['physics']['model'] = 'classical'
        semi['general']['dt'] = dt = c['general']['dt'] * g
        q = X.run(dict(variant='omp', threads=1, seed=self.other(s, 2)['seed'], cap=s['cap']), self.files(sc, semi))
        if outside(q):
            return []
        v = finished(q)
        if v:
            return v
        B, G1 = np.vstack([tab(q, 'Electrons'), tab(q, 'Positrons')])[:, 2:5], tab(q, 'Photons')
        if len(B) != 400 or len(G1) != 400 * steps:
            return [('continuous', 'the classical model leaves %d particles of 400 and %d photons in %d steps' % (len(B), len(G1), 400 * steps))]
        lc = math.sqrt(e * e - 1) - norm(B[0])
        want = 2 / 3 * ALPHA * eta ** 2 * dt * steps
        if abs(lc - want) > (0.01 + 3 * want / e) * want:
            return [('strong-loss', 'at eta %.4g a particle of the classical model loses %.6g; the classical force takes %.6g' % (eta, lc, want))]
        od = emission_od(1e-3, e, dt) * eta / 1e-3
        em = od * G1[:, 1].sum() / 400
        sd = od * math.sqrt(steps * 400 * G1[:, 1].var()) / 400
        X.probe('strong-classical')
        if abs(em - lc) > Z * sd + (0.04 + lc / e) * lc:
            return [('strong-loss', 'at eta %.4g a particle of the classical model loses %.6g and emits %.6g' % (eta, lc, em))]
        return []

    def one(self, sc, s, X):
        c, eta, n = sc['cfg'], sc['eta'], sc['n']
        if sc['kind'] == 'strong':
            return self.strong(sc, s, X)
        R = {}
        for k, (m, k_n) in enumerate((('quantum', n), ('semiclassical', n // 5), ('classical', n // 5))):
            if sc['kind'] == 'laser':
                a, v = self.session(X, self.other(s, k) if k else s, c, k_n, model=m)
                if v or not a:
                    return v
                P, E, Q, G = a[0]
                L = np.vstack([E, Q])[:, :6] / gen.E0 * 299792458.0
                G, w = G[:, :3] / gen.E0 * 299792458.0, G[:, 6]
            else:
                q = copy.deepcopy(c)
                q['physics']['model'] = m
                q['particles'][0]['n'] = k_n
                r = self.sutrun(X, s, self.files(sc, q)) if not k else X.run(dict(variant='omp', threads=1, seed=self.other(s, k)['seed'], cap=s['cap']), self.files(sc, q))
                v = finished(r)
                if v:
                    return v
                L = np.vstack([tab(r, 'Electrons'), tab(r, 'Positrons')])[:, 2:8]
                G, w = tab(r, 'Photons')[:, 2:5], None
            if len(L) != k_n:
                return [('lepton-number', '%d leptons from %d' % (len(L), k_n))]
            R[m] = L, norm(G), w, k_n
        (Lq, Gq, wq, nq), (Ls, Gs, ws, ns), (Lc, Gc, wc, nc) = R['quantum'], R['semiclassical'], R['classical']
        if len(np.unique(np.vstack([Ls]), axis=0)) > 1 or len(np.unique(np.vstack([Lc]), axis=0)) > 1:
            return [('motion', 'equal particles end in different states in a continuous model')]
        e = c['particles'][0]['e1']
        if ws is None:
            # a constant field: the same weight in each step
            B, d = np.array(c['field']['B']), np.array(c['particles'][0]['dir'])
            ee = e * norm(np.cross(d, B))
            if ee < 2e-5:
                return []
            od = emission_od(ee, e, c['general']['dt'])
            ws, wc = np.full(len(Gs), od), np.full(len(Gc), od)
            for nm, G_ in (('semiclassical', Gs), ('classical', Gc)):
                if len(G_) != ns * c['general']['steps']:
                    return [('continuous', 'the %s model leaves %d photons in %d steps' % (nm, len(G_), ns * c['general']['steps']))]
        X.probe('quantum-photons', len(Gq))
        loss, lossc = (ws * Gs).sum() / ns, (wc * Gc).sum() / nc
        q, qs = loss / e, 12 * eta
        if sc.get('flat'):
            for nm, w, G_ in (('semiclassical', ws, Gs), ('classical', wc, Gc)):
                if len(w) != R[nm][3] * c['general']['steps']:
                    return [('continuous', 'the %s model leaves %d photons in %d steps' % (nm, len(w), R[nm][3] * c['general']['steps']))]
                X.probe('flat-weights', len(w))
                if w.max() > w.min() * (1 + 1e-4 + 2 * q + 8 * c['field']['max'] * c['general']['dt'] * c['general']['steps'] / e):
                    return [('number', 'in a constant field the weights of the %s model go from %.9g to %.9g; the particle loses %.3g of its energy' % (nm, w.min(), w.max(), q))]
        # motion of the continuous models
        dp = norm(Ls[0, :3] - Lc[0, :3])
        if dp > (qs + 0.02) * loss + 1e-12 * e:
            return [('motion', 'the momentum ends at %s in the semiclassical and at %s in the classical model, with a loss of %.6g at eta up to %.3g' % (Ls[0, :3].tolist(), Lc[0, :3].tolist(), loss, eta))]
        # photon numbers
        mu, odm = (1 - np.exp(-ws)).sum() / ns, ws.max()
        if abs(len(Gq) - nq * mu) > Z * math.sqrt(nq * mu + 1) + (0.012 + qs + 2 * q) * nq * mu:
            return [('number', '%d photons of %d quantum histories; the semiclassical weights give %.6g' % (len(Gq), nq, nq * mu))]
        if abs(wc.sum() / nc - ws.sum() / ns) > (0.005 + qs) * ws.sum() / ns:
            return [('number', 'a particle emits %.6g photons in the classical and %.6g in the semiclassical model' % (wc.sum() / nc, ws.sum() / ns))]
        # photon energies
        es, vs = ((1 - np.exp(-ws)) * Gs).sum() / ns, (((1 - np.exp(-ws)) * Gs) ** 2).sum() / ns ** 2
        # the spread of the quantum sum as the more energetic of both samples tells it
        eq, vq = Gq.sum() / nq, max((Gq ** 2).sum() / nq, ((1 - np.exp(-ws)) * Gs ** 2).sum() / ns) / nq
        few = nq * mu < 50
        X.probe('few-photons', int(few))
        if not few and abs(es - eq) > Z * math.sqrt(vs + vq) + (0.015 + qs + 2 * q) * es + 3 * Gq.max(initial=0) / nq:
            return [('energy', 'a particle emits %.6g in the quantum model and %.6g in the semiclassical one on average' % (eq, es))]
        if abs(loss - lossc) > Z * math.sqrt(((ws * Gs) ** 2).sum() / ns ** 2 + ((wc * Gc) ** 2).sum() / nc ** 2) + (0.01 + qs) * loss:
            return [('energy', 'a particle emits %.6g in the classical and %.6g in the semiclassical model' % (lossc, loss))]
        # the motion of quantum histories on average, and what the continuous models lose and emit
        pq, pc = norm(Lq[:, :3]), norm(Lc[0, :3])
        tol = Z * max(pq.std() / math.sqrt(nq), math.sqrt(vq)) + (0.02 + qs + odm) * loss + 3 * Gq.max(initial=0) / nq
        if not few and abs(pq.mean() - pc) > tol:
            return [('loss', 'quantum histories end with %.9g on average, classical ones with %.9g; %.6g is emitted' % (pq.mean(), pc, eq))]
        if c['field']['type'] == 'static':
            for nm, L, l, G_, w in (('semiclassical', Ls, loss, Gs, ws), ('classical', Lc, lossc, Gc, wc)):
                d = e - norm(L[0, :3])
                if abs(d - l) > Z * math.sqrt(((w * G_) ** 2).sum()) / ns + (0.02 + 2 * q) * l:
                    return [('loss', 'a particle of the %s model loses %.6g and emits %.6g' % (nm, d, l))]
        return []


# ---------------------------------------------------------------- C26
def ks(x, cdf):
    """The largest distance between the empirical and the wanted distribution, times the root of the number."""
    x = np.sort(np.asarray(x, float))
    n = len(x)
    F = cdf(x)
    k = np.arange(n)
    return max(np.max((k + 1) / n - F), np.max(F - k / n)) * math.sqrt(n)


KS = 3.3          # 2 exp(-2 * 3.3^2) is 7e-10
DEFAULTS = dict(n=1, type='Electron', distro='mono', pos=[0.0] * 3, dir=[0.0, 0.0, 1.0], e2=0.0, dur=0.0, rad=0.0, div=0.0, out=False)
KEYS = dict(n='number_particles', type='particle_type', distro='energy_distribution', pos='position', dir='direction', e2='energy_sig', dur='duration', rad='radius', div='divergence', out='output')


class C26(Law):
    id = 'C26'
    variants = ('omp', 'py')
    n = dict(quick=500, thorough=16000)
    rule = ('A scenario draws hundreds (one in 50: about 20000) of primaries from one to four random sources (any direction and unit notation, left-out settings, points and pencil beams, every energy '
            'distribution) on 1-4 threads, through the program or Python: number, species, energies, directions, places and their independence, against the requested source.')

    def source(self, r, n):
        t = r.choice(['electron', 'positron', 'photon', 'Electron', 'Positron', 'Photon'])
        d = r.choice(['gaussian', 'Gaussian', 'linear', 'Linear', 'mono', 'mono'])
        e = gen.logu(r, 100, 1e6)
        k = gen.logu(r, 0.01, 0.14)
        u = r.choice([gen.unit(r), gen.unit(r), gen.unit(r), [0.0, 0.0, 1.0], [0.0, 0.0, -1.0], [1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.6, 0.0, -0.8]])
        s = r.choice([1.0, 1.0, gen.logu(r, 0.01, 100)])
        z = lambda f: 0.0 if r.random() < 0.25 else f()
        p = dict(type=t, distro=d, n=n, pos=[0.0] * 3 if r.random() < 0.2 else [r.uniform(-1, 1) * gen.logu(r, 1e2, 1e6) for _ in range(3)], dir=[x * s for x in u], out=True,
                 e1=e, e2=0.0, dur=z(lambda: gen.logu(r, 1e3, 1e7)), rad=z(lambda: gen.logu(r, 1e3, 1e7)), div=z(lambda: gen.logu(r, 1e-5, 0.5)))
        if d.lower() == 'gaussian':
            p['e2'] = z(lambda: e * k)
        elif d.lower() == 'linear':
            p['e2'] = e * r.choice([1.0, 1 + k, 2.0, 10.0])
        else:
            p['e2'] = r.choice([0.0, 0.0, e * k])
        return p

    def gen(self, r, i, tier):
        py = r.random() < 0.35
        ps = []
        for k in range(1 if py else r.choice([1, 1, 2, 3, 4])):
            n = r.choice([1, 2, 5, 60, 240, 400, 400, 800])
            ps.append(self.source(r, n))
            if not py:
                ps[-1]['out'] = r.random() < 0.85
                ps[-1]['skip'] = [x for x in KEYS if x != 'out' and r.random() < 0.12] if r.random() < 0.6 else []
                ps[-1]['E'] = r.random() < 0.3
        if not py and not any(p['out'] for p in ps):
            ps[0]['out'] = True
        if i % 50 == 33:           # a large source
            py, ps = False, [dict(self.source(r, r.randint(15000, 25000)), skip=[])]
        c = dict(general=dict(dt=1.0, steps=r.randint(1, 3), tracking=False), particles=ps,
                 physics=dict(model=r.choice(['classical', 'semiclassical', 'quantum']), frac=0.0, pairs=False, emin=0.0), hist=[])
        if py:
            c['field'] = dict(type=r.choice(['gaussian', 'focusing']), max=1e-13, wavelength=1e4, duration=1e4, waist=1e5, pol=0.0, start=[0.0] * 3, focus=[0.0] * 3)
            T = r.choice([1, 2, 3, 4])
            return dict(kind='python', cfg=c, n=n, T=T, batches=r.choice([1, 1, 2]), suts=[pyspec(r, threads=T)])
        c['field'] = dict(type='static', E=[0.0] * 3, B=[1e-13, 0.0, 0.0])
        return dict(kind='program', cfg=c, suts=[threads(r)])

    def wanted(self, p):
        q = dict(p)
        for x in p.get('skip', ()):
            q[x] = DEFAULTS[x]
        if 'e2' in p.get('skip', ()) and q['distro'].lower() == 'linear':
            q['e2'] = p['e2']       # a range needs its end
        return q

    def files(self, sc, cfg=None):
        c, L, p, drop = sc['cfg'], [], None, []
        for l in gen.ini(c).split('\n'):
            if l.startswith('['):
                p = c['particles'][int(l[9:-1]) - 1] if l.startswith('[Particle') else None
                w = self.wanted(p) if p else {}
                drop = [KEYS[x] for x in p.get('skip', ()) if w[x] == DEFAULTS[x]] if p else []
            k, _, v = l.partition(' = ')
            if k in drop:
                continue
            if p and p.get('E') and v.startswith('['):
                l = k + ' = ' + v.replace('e', 'E')
            L.append(l)
        return {'input.ini': '\n'.join(L)}

    def one(self, sc, s, X):
        return getattr(self, sc['kind'])(sc, s, X)

    def python(self, sc, s, X):
        c, p = sc['cfg'], sc['cfg']['particles'][0]
        R, v = self.session(X, s, c, sc['n'], sc['T'], sc['batches'])
        if v or R is None:
            return v
        k = 299792458.0 / gen.E0
        for P, E, Q, G in R:
            n = [len(E), len(Q), len(G)]
            want = [sc['n'] if x == p['type'].lower() else 0 for x in ('electron', 'positron', 'photon')]
            if n != want:
                return [('species', '%d primaries of type %s end as %d electrons, %d positrons, %d photons' % (sc['n'], p['type'], *n))]
            v = self.judge(dict(p, n=sc['n']), P[:, :3] * k, P[:, 3:6] / gen.L0, X)
            if v:
                return v
        if len(R) > 1:
            for j in range(6):
                x, y = (set(R[b][0][:, j].tolist()) for b in (0, 1))
                if len(x) > 3 and len(x & y) > 0.1 * len(x):
                    return [('not-fresh', 'two sessions of one process share %d of %d values of column %d of their primaries' % (len(x & y), len(x), j))]
        return []

    def program(self, sc, s, X):
        ps = [self.wanted(p) for p in sc['cfg']['particles']]
        r = self.sutrun(X, s, self.files(sc))
        v = finished(r)
        if v:
            return v
        P = tab(r, 'Primary')
        first = 0
        end = {k: tab(r, judge.SPECIES[k]) for k in judge.SPECIES}
        seen = []
        for i, p in enumerate(ps):
            if not p['out']:
                continue
            m = (P[:, 0] >= first) & (P[:, 0] < first + p['n'])
            x = P[m]
            if len(x) != p['n'] or len(np.unique(x[:, 0])) != p['n']:
                return [('number', 'source %d has %d primaries in %d events; %d are wanted' % (i + 1, len(x), len(np.unique(x[:, 0])), p['n']))]
            x = x[np.argsort(x[:, 0])]
            for k, t in end.items():
                got = int(((t[:, 0] >= first) & (t[:, 0] < first + p['n'])).sum())
                if got != (p['n'] if k == p['type'].capitalize() else 0):
                    return [('species', '%d of the %d primaries of source %d, which are of type %s, end as %s' % (got, p['n'], i + 1, p['type'], k))]
            v = self.judge(p, x[:, 2:5], x[:, 5:8], X, x[:, 1])
            if v:
                return v
            seen.append((i, x))
            first += p['n']
        if len(P) != first:
            return [('number', '%d primaries; %d are wanted' % (len(P), first))]
        for a in range(len(seen)):
            for b in range(a):
                (i, x), (j, y) = seen[a], seen[b]
                n = min(len(x), len(y))
                if n >= 60 and np.std(x[:n, 1]) > 1e-9 * x[0, 1] and np.std(y[:n, 1]) > 1e-9 * y[0, 1] and abs(np.corrcoef(x[:n, 1], y[:n, 1])[0, 1]) * math.sqrt(n) > 6.2:
                    return [('not-fresh', 'the energies of sources %d and %d have correlation %.4g' % (j + 1, i + 1, np.corrcoef(x[:n, 1], y[:n, 1])[0, 1]))]
        return []

    def judge(self, p, mom, pos, X, energy=None):
        """The primaries of one source."""
        n = len(mom)
        if n != p['n']:
            return [('number', '%d primaries; %d are wanted' % (n, p['n']))]
        if not (np.isfinite(mom).all() and np.isfinite(pos).all()):
            return [('no-number', 'a primary has the momentum %s at %s' % (mom[0].tolist(), pos[0].tolist()))]
        X.probe('primaries', n)
        d = np.array(p['dir'], float)
        d /= norm(d)
        a = np.cross(d, [1, 0, 0] if abs(d[0]) < 0.7 else [0, 1, 0])
        a /= norm(a)
        b = np.cross(d, a)
        u = mom / norm(mom)[:, None]
        E = norm(mom)
        m = 0 if p['type'].lower() == 'photon' else 1
        if energy is not None and np.abs(energy - np.sqrt(E * E + m)).max() > 1e-7 * E.max() + 1e-3 / E.min():
            return [('energy', 'a primary of momentum %.9g has the energy %.9g' % (E[0], energy[0]))]
        e1, e2, near = p['e1'], p['e2'], 1e-6 * p['e1'] + 1 / p['e1']
        k = p['distro'].lower()
        par = {}
        if k == 'mono' or k == 'gaussian' and e2 == 0 or k == 'linear' and abs(e2 - e1) < 1e-6 * e1:
            if np.abs(E - e1).max() > near:
                return [('energy', 'a primary of a %s source of energy %.9g has %.9g' % (p['distro'], e1, E[np.argmax(np.abs(E - e1))]))]
        elif k == 'gaussian':
            D = ks(E, stats.norm(e1, e2).cdf)
            if D > KS:
                return [('energy', '%d energies, mean %.6g and deviation %.4g, are not of the normal distribution %.6g, %.4g (distance %.3g)' % (n, E.mean(), E.std(), e1, e2, D))]
            par['energy'] = E
        else:
            lo, hi = min(e1, e2), max(e1, e2)
            if E.min() < lo - near or E.max() > hi + near:
                return [('energy', 'energies from %.9g to %.9g of a source from %.9g to %.9g' % (E.min(), E.max(), lo, hi))]
            D = ks(E, stats.uniform(lo, hi - lo).cdf)
            if D > KS:
                return [('energy', '%d energies, mean %.6g and deviation %.4g, are not even from %.6g to %.6g (distance %.3g)' % (n, E.mean(), E.std(), lo, hi, D))]
            par['energy'] = E
        th = np.arctan2(np.hypot(u @ a, u @ b), u @ d)
        if p['div'] == 0:
            if th.max() > 1e-6:
                return [('direction', 'a primary of a source without divergence leaves at an angle of %.6g' % th.max())]
        else:
            D = ks(th, stats.halfnorm(0, p['div']).cdf)
            if D > KS:
                return [('direction', 'the angles of %d primaries, %.4g rms, are not those of a divergence of %.4g (distance %.3g)' % (n, math.sqrt((th * th).mean()), p['div'], D))]
            D = ks(np.arctan2(u @ b, u @ a), stats.uniform(-math.pi, 2 * math.pi).cdf)
            if D > KS:
                return [('direction', 'the directions of %d primaries are not even about the axis (distance %.3g)' % (n, D))]
            par['direction 1'], par['direction 2'] = u @ a, u @ b
        x = pos - np.array(p['pos'])
        near = 1e-6 * (norm(np.array(p['pos'])) + p['rad'] + p['dur']) + 1e-9
        for nm, w, sd in (('across 1', a, p['rad']), ('across 2', b, p['rad']), ('along', d, p['dur'])):
            y = x @ w
            if sd == 0:
                if np.abs(y).max() > near:
                    return [('place', 'a primary lies %.6g off %s the axis; the spread is nought' % (y[np.argmax(np.abs(y))], nm))]
                continue
            if near > 0.02 * sd:
                continue
            D = ks(y, stats.norm(0, sd).cdf)
            if D > KS:
                return [('place', 'the places of %d primaries %s the axis, mean %.4g and deviation %.4g, do not spread by %.4g (distance %.3g)' % (n, nm, y.mean(), y.std(), sd, D))]
            par[nm] = y
        if n >= 60:
            N = sorted(par)
            for i in range(len(N)):
                y = par[N[i]]
                r1 = np.corrcoef(y[:-1], y[1:])[0, 1]
                if abs(r1) * math.sqrt(n) > 6.2:
                    return [('dependent', 'the %s of one primary tells that of the next: correlation %.4g of %d' % (N[i], r1, n))]
                for j in range(i):
                    r2 = np.corrcoef(y, par[N[j]])[0, 1]
                    if abs(r2) * math.sqrt(n) > 6.2:
                        return [('dependent', 'the %s and the %s of primaries have correlation %.4g of %d' % (N[j], N[i], r2, n))]
                if len(np.unique(y)) < 0.99 * n:
                    return [('dependent', '%d values of %s of %d primaries' % (len(np.unique(y)), N[i], n))]
        return []
