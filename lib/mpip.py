"""Parallel jobs: every process of the job is simulated, with its own copy of the program's data,
under one scheduler and one network: C08, C09, C10, C23."""
import copy
import numpy as np
import core, gen, judge
from conc import Conc, spec, policy, DET, near_match, geom
from judge import tab, finished
from phys import outside

TABLES = ('Primary', 'Electrons', 'Positrons', 'Photons')


def job(r, ranks=None, threads=None, seed=None, **kw):
    """One parallel job: processes, threads, schedule and network."""
    ranks = ranks or (r.choice([2, 2, 3, 3, 4, 5, 6, 8]) if r.random() < 0.96 else r.choice([9, 11, 12]))
    threads = threads or r.choice([1, 1, 1, 1, 2, 3])
    if ranks * threads > 16:
        threads = 1
    s = spec(r, 'mpi', threads=threads, **kw)
    s.update(ranks=ranks, seed=seed if seed is not None else s['seed'], netseed=r.randrange(1 << 40),
             rdv=r.choice([0.0, 0.1, 0.3, 0.7, 1.0]), delay=gen.logu(r, 1e-7, 1e-1), slowlink=r.choice([0, 0, 0.05, 0.3]))
    if s['pol'] == 'none':
        s.update(policy(r, 2))
    k = r.random()
    if k < 0.15:
        s['allsync'] = 1
    elif k < 0.3:
        s['alleager'] = 1
    return s


def alone(s, rank):
    """The same process on its own: same entropy, one process, one thread."""
    return dict(variant='mpi', ranks=1, rankbase=rank, threads=1, seed=s['seed'], cap=s['cap'], pol='none', poison=0)


def mpi_config(r, q, **kw):
    c = gen.config(r, model=r.choice(['Quantum', 'quantum']) if q else r.choice(DET), steps=kw.pop('steps', None) or r.randint(1, 6),
                   nev=kw.pop('nev', None), outputs=kw.pop('outputs', 'all'), od=kw.pop('od', None) or gen.logu(r, 0.02, 0.3), **kw)
    for p in c['particles']:
        p['rad'] = gen.logu(r, 1e6, 1e7)
    return c


class Mpi(Conc):
    variants = ('mpi',)

    def sutrun(self, X, s, files, read=('out.h5',)):
        s = dict(s)
        if not s.get('forced') and s.get('pol') in ('hot', 'stall', 'pct'):
            q = {k: s[k] for k in ('variant', 'threads', 'seed', 'cap', 'evdraw', 'poison', 'ranks', 'rankbase') if k in s}
            q.update(pol='rand', mean=300.0, sseed=7, profile=1, rdv=0.3, netseed=1)
            pr = X.run(q, files, read=(), cache=True)
            if s['pol'] == 'pct':
                s['len'] = max(1000, pr['steps'])
            elif pr['hot']:
                s['hot'] = pr['hot']
            else:
                s['pol'] = 'rand'
        return X.run(s, files, read=read, sut=True)

    def alones(self, sc, s, X):
        out = []
        f = self.files(sc)
        for k in range(s['ranks']):
            a = X.run(alone(s, k), f, cache=True)
            v = finished(a, 'process %d on its own' % k)
            if v:
                return None, [] if outside(a) else v
            out.append(a)
        return out, []

    def shrink(self, sc):
        yield from super().shrink(sc)
        if 'sut' in sc and not sc['sut'].get('forced'):
            n = sc['sut']['ranks']
            for m in (2, n - 1):
                if 2 <= m < n:
                    c = copy.deepcopy(sc)
                    c['sut']['ranks'] = m
                    yield c
            for k in ('allsync', 'alleager', 'slowlink'):
                if sc['sut'].get(k):
                    c = copy.deepcopy(sc)
                    del c['sut'][k]
                    yield c


def where_from(row, rk, refs):
    for k, a in enumerate(refs):
        for t in TABLES:
            if any(x.tobytes() == row.tobytes() for x in tab(a, t)):
                return 'row is in table %s of process %d' % (t, k)
    return 'row is in no table of any process'


class C08(Mpi):
    id = 'C08'
    n = dict(quick=230, thorough=9000)
    rule = ('A scenario is a random set-up and 4 jobs of 2-12 processes with random schedules, message buffering, delays and reordering. The tables are compared '
            'as multisets of rows, bit for bit, with the union of what each process writes when it runs alone with the same entropy.')

    def gen(self, r, i, tier):
        q = r.random() < 0.4
        c = mpi_config(r, q, outputs='some' if r.random() < 0.25 else 'all', nev=r.choice([None, 1, 2, 40]) if r.random() < 0.4 else None,
                       pairs=r.random() < 0.15, hist=r.choice([0, 0, 1, 2]), tracking=r.random() < 0.1)
        k = r.random()
        if k < 0.15:      # some processes with, some without photons
            c['physics']['model'] = 'Quantum'
            for p in c['particles']:
                p['n'] = r.randint(1, 2)
        elif k < 0.25:    # empty tables
            c['physics']['emin'] = 1e6
        elif k < 0.35:
            c['particles'].append(gen.source(r, 'Photon', r.randint(1, 5)))
        elif k < 0.37:    # more rows than 16 bits number
            c = mpi_config(r, False, frac=0.0, steps=1, nev=r.randint(4100, 4400), sources=1, field='static')
            c['particles'][0]['type'] = r.choice(['Photon', 'electron', 'positron'])
            return dict(cfg=c, suts=[job(r, ranks=2, threads=1, seed=i + 1, cap=20)])
        elif k < 0.40:    # large tables
            c = mpi_config(r, False, frac=1.0, steps=r.randint(20, 40), nev=r.randint(25, 40), sources=2)
            return dict(cfg=c, suts=[job(r, ranks=r.randint(2, 4), seed=i + 1) for _ in range(2)])
        if i % 25 == 3:      # more sources than one digit numbers
            c['particles'] = [gen.source(r, n=r.randint(1, 2), e=c['particles'][0]['e1']) for _ in range(r.randint(10, 12))]
            for p in c['particles']:
                p['rad'] = gen.logu(r, 1e6, 1e7)
        if r.random() < 0.08:      # a source without particles, or none at all
            for p in c['particles'][:r.randint(1, 2)]:
                p['n'] = 0
        seed = r.randrange(1, 1 << 31)
        return dict(cfg=c, suts=[job(r, seed=seed) for _ in range(4)])

    def one(self, sc, s, X):
        r = self.sutrun(X, s, self.files(sc))
        v = finished(r)
        if v:
            return v
        n = s['ranks'] * sum(p['n'] for p in sc['cfg']['particles'] if p.get('out', True))
        if len(tab(r, 'Primary')) != n:
            return [('table-primary', '%d primaries in the output, %d were requested' % (len(tab(r, 'Primary')), n))]
        refs, v = self.alones(sc, s, X)
        if refs is None:
            return v
        exact = [s['threads'] == 1 and r['drawhash'][k] == refs[k]['drawhash'][k] for k in range(s['ranks'])]
        det = sc['cfg']['physics']['model'] in DET
        if all(exact):
            X.probe('exact-jobs')
            for t in TABLES:
                want = np.vstack([tab(a, t) for a in refs])
                got = tab(r, t)
                X.probe('rows', len(got))
                if not judge.same_rows(got, want):
                    return [('table-' + t.lower(), '%s of %d processes: %s' % (t, s['ranks'], judge.diff_rows(got, want)))]
            return []
        # threads share the draws out differently: primaries and deterministic motion stay
        want, got = [np.vstack([tab(a, 'Primary') for a in refs]), tab(r, 'Primary')]
        if not np.array_equal(np.sort(got[:, 0]), np.sort(want[:, 0])):
            return [('table-primary', 'event numbers of the primaries are not those of the processes')]
        if not judge.same_rows(got[:, 1:], want[:, 1:]):
            return [('table-primary', 'Primary of %d processes: %s' % (s['ranks'], judge.diff_rows(got[:, 1:], want[:, 1:])))]
        if det and not sc['cfg']['physics']['pairs']:
            X.probe('threaded-jobs')
            for t in ('Electrons', 'Positrons'):
                want, got = np.vstack([tab(a, t) for a in refs])[:, 1:], tab(r, t)[:, 1:]
                if not judge.same_rows(got, want):
                    return [('table-' + t.lower(), '%s of %d processes: %s' % (t, s['ranks'], judge.diff_rows(got, want)))]
            if sc['cfg']['physics']['frac'] == 1.0 and not sc['cfg']['physics']['emin']:
                want, got = geom(np.vstack([tab(a, 'Photons') for a in refs])[:, 1:]), geom(tab(r, 'Photons')[:, 1:])
                sz = np.abs(want).max() if len(want) else 1.0
                if not near_match(got, want, np.array([1e-9 * sz] * 3 + [1e-9] * 3)):
                    return [('table-photons', '%d photons, the processes have %d others' % (len(got), len(want)))]
        return []


class C09(Mpi):
    id = 'C09'
    n = dict(quick=230, thorough=9000)
    rule = ('A scenario is a random set-up with 1-6 histograms and 4 jobs of 2-12 processes with random schedules and messages. Each bin must hold the sum over '
            'the processes run alone with the same entropy; at time zero and late also the count of the rows of the gathered tables.')

    def gen(self, r, i, tier):
        q = r.random() < 0.35
        c = mpi_config(r, q)
        c['hist'] = gen.histograms(r, c, r.randint(1, 6) if i % 15 != 4 else r.choice([9, 12, 34]))
        if r.random() < 0.3:
            h = dict(r.choice(c['hist']))
            h.update(name='again', particle=r.choice(['Electron', 'Photon']), bins=r.choice([h['bins'], r.randint(2, 40)]))
            c['hist'].insert(r.randrange(len(c['hist']) + 1), h)
        if r.random() < 0.3:      # equal sizes: one histogram's message fits another's
            for h in c['hist']:
                h['bins'] = 16
        seed = r.randrange(1, 1 << 31)
        return dict(cfg=c, suts=[job(r, seed=seed) for _ in range(4)])

    def one(self, sc, s, X):
        c = sc['cfg']
        r = self.sutrun(X, s, self.files(sc))
        v = finished(r)
        if v:
            return v
        refs, v = self.alones(sc, s, X)
        if refs is None:
            return v
        exact = s['threads'] == 1 and all(r['drawhash'][k] == refs[k]['drawhash'][k] for k in range(s['ranks']))
        det = c['physics']['model'] in DET
        d = r['data']['out.h5']
        for h in c['hist']:
            nm = h['name']
            if 'Histograms/%s/BinValues' % nm not in d:
                return [('histogram-missing', 'histogram %s is not in the output' % nm)]
            cen, val = judge.hist(r, nm)
            if exact or h['slot'] == 0 or (det and h['particle'].capitalize() != 'Photon'):
                want = sum(judge.hist(a, nm)[1] for a in refs)
                X.probe('summed-histograms')
                if not np.array_equal(cen, judge.hist(refs[0], nm)[0]):
                    return [('bin-centres', 'histogram %s of %d processes has other bin centres' % (nm, s['ranks']))]
                if not np.array_equal(val, want):
                    return [('histogram-sum', 'histogram %s of %d processes holds %s, the sum of the processes is %s' % (
                        nm, s['ranks'], val.tolist()[:16], want.tolist()[:16]))]
            src = None
            if h['slot'] >= c['general']['steps'] and all(p.get('out', True) for p in c['particles']):
                src = tab(r, judge.SPECIES[h['particle'].capitalize()])
            if src is not None:
                _, k0, unsure = judge.nearest_bins(judge.quantity(src, h['type']), h)
                if np.abs(val - k0).sum() > 2 * unsure:
                    return [('histogram-counts', 'histogram %s holds %s, the gathered particles give %s' % (nm, val.tolist()[:12], k0.tolist()[:12]))]
        return []


class C10(Mpi):
    id = 'C10'
    n = dict(quick=320, thorough=12000)
    rule = ('A scenario is a random set-up and 5 jobs of 1-12 processes: all sends buffered, all sends waiting for their receive, mixed, with delays of 0.1 us to '
            '100 s and stalled processes. Deadlock, a missing end, unmatched messages and misuse of the MPI library are violations.')

    def gen(self, r, i, tier):
        q = r.random() < 0.5
        c = mpi_config(r, q, outputs='some' if r.random() < 0.5 else 'all', pairs=r.random() < 0.2, hist=r.choice([0, 0, 1, 2, 4]), tracking=r.random() < 0.25,
                       steps=r.randint(1, 4))
        for p in c['particles']:
            p['n'] = min(p['n'], 6) if r.random() < 0.8 else p['n']
        if r.random() < 0.15:
            for p in c['particles']:
                p['out'] = False
        if r.random() < 0.15:
            c['physics']['emin'] = 1e6
        if r.random() < 0.1:
            c['particles'][0]['type'] = 'Photon'
        if r.random() < 0.12:      # processes without a single particle
            for p in c['particles'][r.choice([0, 0, 1]):]:
                p['n'] = 0
        suts = []
        for k in range(5):
            s = job(r, ranks=r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 8]) if r.random() < 0.96 else r.choice([9, 10, 12]))
            s['delay'] = gen.logu(r, 1e-7, 100)
            for x in ('allsync', 'alleager'):
                s.pop(x, None)
            if k < 2:
                s[('allsync', 'alleager')[k]] = 1
            suts.append(s)
        return dict(cfg=c, suts=suts)

    def one(self, sc, s, X):
        r = self.sutrun(X, s, self.files(sc))
        X.probe('jobs')
        X.probe('messages', r['msgs'])
        return finished(r, 'job of %d processes' % s['ranks'])


class C23(Mpi):
    id = 'C23'
    level = 'fault_enumeration'
    n = dict(quick=650, thorough=16000)
    rule = ('A scenario is a small set-up, a job of 2-5 processes and 1-2 faults at one process: an operation on its input, tables, summary or output fails, an '
            'allocation fails. The job must end, with an error status or with the complete output.')

    def gen(self, r, i, tier):
        c = mpi_config(r, r.random() < 0.4, steps=r.randint(1, 4), hist=r.choice([0, 1, 2]), pairs=r.random() < 0.3)
        for p in c['particles']:
            p['n'] = min(p['n'], 6)
        s = job(r, ranks=r.randint(2, 5), threads=1)
        if r.random() < 0.05:
            from fault import large
            c = large(r, 'Classical')
            s['ranks'] = r.randint(2, 3)
        return dict(cfg=c, base=s, fseed=r.randrange(1 << 40), nf=4)

    def execute(self, sc, X):
        import random
        if 'sut' in sc:
            return self.one(sc, sc['sut'], X)
        f = self.files(sc)
        s0 = sc['base']
        ok = X.run(dict(s0, pol='none'), f, cache=True)
        v = finished(ok)
        if v:
            return v
        r = random.Random(sc['fseed'])
        # every kind of operation of every process, from the fault-free run
        ops = [(tuple(int(x) for x in k.split('.')), n) for k, n in sorted(ok['ops'].items())]
        for _ in range(sc['nf']):
            s = copy.deepcopy(s0)
            s['faults'] = []
            k = r.random()
            if k < 0.65:
                for _ in range(1 if r.random() < 0.8 else 2):
                    (rk, cl, op), n = r.choice(ops)
                    w = r.choice({0: ['EIO', 'EACCES', 'EMFILE'], 1: ['EIO'], 2: ['EIO', 'ENOSPC'], 3: ['EIO'], 4: ['EIO', 'ENOSPC'], 5: ['EIO']}[op])
                    s['faults'].append(core.sim.fault(w, core.sim.CLS[cl], core.sim.OP[op], rank=rk, n=r.randint(1, n), sticky=int(r.random() < 0.4)))
            else:
                n = int(gen.logu(r, 1, max(2, ok['allocs'])))
                if r.random() < 0.5:        # late: while the particles are collected
                    n = max(1, ok['allocs'] - n)
                s['faults'].append(core.sim.fault('alloc-fail', 1 if r.random() < 0.15 else 0, 0, n=n, sticky=int(r.random() < 0.3)))
            sc2 = dict(sc, sut=s)
            v = self.one(sc2, s, X)
            if v:
                X.focus = s
                return v
        return []

    def one(self, sc, s, X):
        r = self.sutrun(X, s, self.files(sc))
        if r['deadlock']:
            return [('deadlock', 'after the fault all processes wait for one another: %s' % r['msg'])]
        if r['steplimit']:
            return [('no-progress', 'after the fault the job does not end')]
        if r['exit'] or r['signal']:
            X.probe('refused' if r['nfired'] else 'failed-without-fault')
            if not r['nfired']:
                return [('failed', 'no fault took place, and the job failed: exit %d signal %d %s' % (r['exit'], r['signal'], r['msg']))]
            return []
        X.probe('survived' if r['nfired'] else 'fault-not-reached')
        if 'out.h5' not in r['data']:
            return [('success-without-output', 'the job reports success without a readable output file')]
        refs, v = self.alones(sc, s, X)
        if refs is None or not all(r['drawhash'][k] == refs[k]['drawhash'][k] for k in range(s['ranks'])):
            ref = X.run(dict({k: v for k, v in s.items() if k != 'faults'}, pol='none'), self.files(sc), cache=True)
            if finished(ref):
                return []
            for t in TABLES:
                if len(tab(r, t)) < len(tab(ref, t)) and t == 'Primary':
                    return [('success-incomplete', 'success with %d rows of %s instead of %d' % (len(tab(r, t)), t, len(tab(ref, t))))]
            return []
        for t in TABLES:
            want = np.vstack([tab(a, t) for a in refs])
            if not judge.same_rows(tab(r, t), want):
                return [('success-incomplete', 'success, but %s: %s' % (t, judge.diff_rows(tab(r, t), want)))]
        d = r['data']['out.h5']
        for h in sc['cfg']['hist']:
            k = 'Histograms/%s/BinValues' % h['name']
            if k not in d or not np.array_equal(d[k], sum(judge.hist(a, h['name'])[1] for a in refs)):
                return [('success-incomplete', 'success, but histogram %s is %s' % (h['name'], 'wrong' if k in d else 'missing'))]
        return []
