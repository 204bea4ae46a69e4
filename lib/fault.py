"""Faults of the file system, the machine, memory and the clock: C11-C15, C19, C25.

A scenario holds a set-up and a seed; the fault-free run of the set-up gives the operations that
exist, and the faults are laid over them. One run with its faults is kept as 'sut' for replay."""
import copy, os, random, shutil
import numpy as np
import core, gen, judge
from conc import Conc, spec, serial, policy, DET, primaries_ok, near_match, geom
from core import sim
from judge import tab, finished

F = sim.fault


def clean(s):
    return {k: v for k, v in s.items() if k not in ('faults', 'bgshort', 'bgeintr')}


def setup(r, **kw):
    k = dict(model=r.choice(['Quantum', 'Quantum', 'Semiclassical', 'Classical']), steps=r.randint(1, 6), od=gen.logu(r, 0.05, 0.3),
             hist=r.choice([0, 1, 2, 3]), tracking=r.random() < 0.3, pairs=r.random() < 0.25)
    k.update(kw)
    c = gen.config(r, **k)
    if c['general']['tracking'] or r.random() < 0.6:
        for p in c['particles']:
            p['n'] = min(p['n'], 4)
    return c


def large(r, model=None):
    """A set-up whose tables are larger than a buffer of the library."""
    c = setup(r, model=model or r.choice(['Classical', 'Classical', 'Semiclassical', 'Quantum']), steps=1, tracking=False, pairs=False, hist=r.choice([0, 1]), frac=r.choice([0.1, 1.0]), sources=1,
              field='static', od=gen.logu(r, 0.01, 0.05))
    c['particles'][0]['n'] = r.choice([1100, 1300, 2000])
    if c['hist'] and r.random() < 0.5:
        c['hist'][0]['bins'] = r.choice([8300, 9000, 20000])
    return c


class Fault(Conc):
    level = 'fault_enumeration'
    variants = ('omp',)
    nf = 12

    def base(self, r):
        return dict(variant='omp', threads=1, seed=r.randrange(1, 1 << 31), cap=4000, pol='none', poison=r.randrange(0, 8))

    def config(self, r, tier):
        return setup(r)

    def gen(self, r, i, tier):
        return dict(cfg=self.config(r, tier), base=self.base(r), fseed=r.randrange(1 << 40), nf=self.nf)

    def execute(self, sc, X):
        if 'sut' in sc:
            return self.one(sc, sc['sut'], X)
        ok = X.run(dict(sc['base']), self.files(sc), cache=True)
        v = finished(ok, 'run without faults')
        if v:
            return v
        r = random.Random(sc['fseed'])
        for k in range(sc['nf']):
            s = copy.deepcopy(sc['base'])
            s['faults'] = []
            self.plan(r, k, s, ok, sc)
            v = self.one(sc, s, X)
            if v:
                X.focus = s
                return v
        return []

    def shrink(self, sc):
        yield from super().shrink(sc)
        if 'sut' in sc:
            c0 = sc['cfg']
            for k, val in (('tracking', False),):
                if c0['general'].get(k):
                    c = copy.deepcopy(sc)
                    c['cfg']['general'][k] = val
                    yield c
            st = c0['general']['steps']
            for m in (1, st // 2, st - 1):
                if 1 <= m < st:
                    c = copy.deepcopy(sc)
                    c['cfg']['general']['steps'] = m
                    yield c

    def reference(self, sc, s, X):
        ref = X.run(clean(s), self.files(sc), cache=True)
        return None if finished(ref) else ref

    def ops(self, ok, cls):
        """[(operation, how many)] of a class of files, process 0."""
        out = []
        for k, n in sorted(ok['ops'].items()):
            rk, c, o = [int(x) for x in k.split('.')]
            if sim.CLS[c] == cls and rk == 0:
                out.append((sim.OP[o], n))
        return out

    def pick(self, r, ops):
        """An operation, uniform over all single operations of two thirds of the choices."""
        if r.random() < 0.5:
            o, n = r.choice(ops)
        else:
            o, n = r.choices(ops, weights=[x[1] for x in ops])[0]
        return o, r.randint(1, n)

    def progress(self, r, X):
        if r['deadlock']:
            return [('deadlock', 'after the fault all threads wait: %s' % r['msg'])]
        if r['steplimit']:
            return [('no-progress', 'after the fault the run does not end')]
        return []


class C11(Fault):
    id = 'C11'
    n = dict(quick=1600, thorough=12000)

    def config(self, r, tier):
        return large(r) if r.random() < 0.08 else setup(r)

    rule = ('A scenario is a random set-up and 12 runs: an error (EIO, ENOSPC, EACCES, EMFILE) at one operation on the output file or from it on, a disk that '
            'becomes full at a random size, interrupted and short transfers. Exit status zero requires the data sets of the fault-free run.')

    def plan(self, r, k, s, ok, sc):
        ops = self.ops(ok, 'output')
        w = r.random()
        if w < 0.62:
            for _ in range(1 if r.random() < 0.85 else 2):
                o, n = self.pick(r, ops)
                e = {'open': ['EIO', 'EACCES', 'EMFILE', 'ENOSPC'], 'write': ['EIO', 'ENOSPC', 'ENOSPC'], 'close': ['EIO', 'ENOSPC']}.get(o, ['EIO'])
                s['faults'].append(F(r.choice(e), 'output', o, n=n, sticky=int(r.random() < 0.35)))
        elif w < 0.77:
            s['faults'].append(F('disk-full-at', 'output', 'write', arg=float(int(gen.logu(r, 1, 60000)))))
        elif w < 0.9:
            for _ in range(r.randint(1, 3)):
                o, n = self.pick(r, [x for x in ops if x[0] in ('read', 'write')])
                s['faults'].append(F(r.choice(['EINTR', 'short']), 'output', o, n=n, arg=r.random()))
        else:
            s['bgshort'] = r.choice([0.05, 0.3])
            s['bgeintr'] = r.choice([0.0, 0.05, 0.3])

    def one(self, sc, s, X):
        r = X.run(s, self.files(sc), sut=True)
        v = self.progress(r, X)
        if v:
            return v
        ref = self.reference(sc, s, X)
        soft = all(f['what'] in ('EINTR', 'short') for f in s.get('faults', ()))
        if r['exit'] or r['signal']:
            if soft or not r['nfired']:
                return [('not-survived', 'a transfer that can be retried ended the run: exit %d signal %d %s' % (r['exit'], r['signal'], r['msg']))]
            X.probe('reported')
            return []
        X.probe('survived-retry' if soft else 'success')
        if 'out.h5' not in r['data']:
            return [('success-without-output', 'exit status zero, and the output file %s' % ('is unreadable' if r['exists'][0] else 'does not exist'))]
        if ref is None:
            return []
        d = judge.datasets_equal(ref['data']['out.h5'], r['data']['out.h5'])
        return [('success-incomplete', 'exit status zero, but against the run without faults: %s' % d)] if d else []


class C12(Fault):
    id = 'C12'
    n = dict(quick=1200, thorough=10000)
    nf = 6

    def config(self, r, tier):
        return large(r) if r.random() < 0.05 else setup(r)

    rule = ('A scenario is a random set-up and 6 histories in one directory: an optional earlier run with a larger output, then 1-3 runs that are killed or '
            'suffer a machine crash (unsynchronised writes lost, torn, in any subset) at a random file operation, then a run without faults, '
            'which is compared with one in an empty directory.')

    def plan(self, r, k, s, ok, sc):
        cls = [c for c in ('output', 'output', 'output', 'summary', 'input', 'table') if self.ops(ok, c)]
        s['crashes'] = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            c = r.choice(cls)
            o, n = self.pick(r, self.ops(ok, c))
            s['crashes'].append([F('torn-crash' if r.random() < 0.6 else 'crash', c, o, n=n, arg=r.choice([0.1, 0.5, 0.9, 1.0])), r.randrange(1, 1 << 31)])
        s['earlier'] = r.choice([0, 0, 1, 2])
        del s['faults']

    def one(self, sc, s, X):
        s0 = {k: v for k, v in s.items() if k not in ('crashes', 'earlier')}
        f = self.files(sc)
        S = X.sim(s['variant'])
        S.start() if S.p is None else None
        d = S.newdir()
        try:
            if s['earlier']:
                big = copy.deepcopy(sc['cfg'])
                for p in big['particles']:
                    p['n'] = p['n'] * 3 + 5
                if s['earlier'] == 2:
                    big['hist'] = gen.histograms(random.Random(5), big, 3)
                    big['general']['tracking'] = not big['general'].get('tracking')
                X.run(s0, self.files(sc, big), keep=d, read=())
            for ft, seed in s['crashes']:
                c = X.run(dict(s0, faults=[ft], seed=seed), f, keep=d, read=())
                X.probe('crashes' if c['crash'] else 'crash-not-reached')
            # what a user's tools leave behind is not ours: only the program's files are in the directory
            for n in ('stdout.txt', 'stderr.txt'):
                p = os.path.join(d, n)
                if os.path.exists(p):
                    os.unlink(p)
            r = X.run(s0, f, keep=d, sut=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        v = finished(r, 'rerun')
        if v:
            return [('rerun-' + v[0][0], v[0][1])]
        ref = self.reference(sc, s0, X)
        if ref is None:
            return []
        t = judge.datasets_equal(ref['data']['out.h5'], r['data']['out.h5'])
        if t:
            return [('rerun-differs', 'the rerun after the crash is not a fresh run: %s' % t)]
        if ref['summary'] != r['summary']:
            return [('rerun-summary', 'the input summary of the rerun is not that of a fresh run')]
        return []


class C13(Fault):
    id = 'C13'
    n = dict(quick=2000, thorough=12000)
    rule = ('A scenario is a random set-up, its input file padded with comments up to 60 kB, and 12 runs in which opening or reading it fails at a random '
            'operation (EIO, EACCES, EMFILE, once or for good) or delivers short pieces.')

    def config(self, r, tier):
        c = setup(r)
        for p in c['particles']:
            p['n'] = min(p['n'], 3)
        c['pad'] = r.choice([0, 0, 2000, 4000, 9000, 30000])
        c['general']['tracking'] = False
        return c

    def plan(self, r, k, s, ok, sc):
        ops = [x for x in self.ops(ok, 'input') if x[0] in ('open', 'read')]
        if r.random() < 0.75:
            o, n = self.pick(r, ops)
            if o == 'read':
                # the operation after a short one exists too
                n = r.randint(1, n + 2)
                if r.random() < 0.4:
                    s['faults'].append(F('short', 'input', 'read', n=r.randint(1, max(1, n - 1)), arg=r.random()))
            s['faults'].append(F(r.choice(['EIO', 'EACCES', 'EMFILE'] if o == 'open' else ['EIO']), 'input', o, n=n, sticky=int(r.random() < 0.5)))
        else:
            s['bgshort'] = r.choice([0.1, 0.5, 0.9])

    def one(self, sc, s, X):
        r = X.run(s, self.files(sc), sut=True)
        v = self.progress(r, X)
        if v:
            return v
        hard = [f for f in s.get('faults', ()) if f['what'] != 'short']
        if r['exit'] or r['signal']:
            if not hard or not r['nfired']:
                return [('not-survived', 'short reads ended the run: exit %d signal %d %s' % (r['exit'], r['signal'], r['err'][-200:]))]
            X.probe('refused')
            if r['data'].get('out.h5'):
                return [('results-after-refusal', 'reading the input failed, and results were written: %s' % sorted(r['data']['out.h5'])[:4])]
            return []
        X.probe('whole-input')
        ref = self.reference(sc, s, X)
        if ref is None:
            return []
        if 'out.h5' not in r['data']:
            return [('success-without-output', 'success without a readable output file')]
        d = judge.datasets_equal(ref['data']['out.h5'], r['data']['out.h5'])
        if d:
            return [('partial-input', 'success after a fault while the input was read, but %s' % d)]
        if ref['summary'] != r['summary']:
            return [('partial-input', 'success after a fault while the input was read, with another input summary')]
        return []


NEED = {'emission': ('hsokolov.table', 'ksi_sokolov.table', 'chimin.table'), 'pairs': ('pairprod.table', 'e_split.table', 'epsilon.table', 'log_chi.table')}
_NVAL = {}


def nvalues(name):
    if name not in _NVAL:
        with open(os.path.join(sim.REPO, 'Tables', name)) as f:
            _NVAL[name] = len(f.read().split())
    return _NVAL[name]


class C14(Fault):
    id = 'C14'
    n = dict(quick=1800, thorough=10000)
    rule = ('A scenario is a random set-up and 12 runs in which a physics table it needs ends early (at a random value, biased to the ends), cannot be opened, or '
            'fails while it is read; also short and interrupted reads.')

    def config(self, r, tier):
        c = setup(r, pairs=r.random() < 0.6)
        for p in c['particles']:
            p['n'] = min(p['n'], 4)
        c['general']['tracking'] = False
        return c

    def plan(self, r, k, s, ok, sc):
        names = list(NEED['emission']) + (list(NEED['pairs']) if sc['cfg']['physics']['pairs'] else [])
        ops = self.ops(ok, 'table')
        w = r.random()
        if w < 0.5:
            t = r.choice(names)
            n = nvalues(t)
            s['faults'].append(F('cut-file', 'table', 'read', n=r.choice([0, 1, 2, n - 1, n - 1, n - 2, n // 2, r.randrange(n), r.randrange(n)]), name=t))
        elif w < 0.72:
            o = r.choice(['open', 'open', 'read'])
            s['faults'].append(F(r.choice(['EIO', 'EACCES', 'ENOENT', 'ENOENT'] if o == 'open' else ['EIO']), 'table', o, n=1, sticky=1, name=r.choice(names)))
        elif w < 0.88:
            o, n = self.pick(r, [x for x in ops if x[0] in ('open', 'read')])
            s['faults'].append(F(r.choice(['EIO', 'EACCES', 'EMFILE'] if o == 'open' else ['EIO']), 'table', o, n=n, sticky=int(r.random() < 0.3)))
        else:
            s['bgshort'] = r.choice([0.05, 0.3])

    def one(self, sc, s, X):
        r = X.run(s, self.files(sc), sut=True)
        v = self.progress(r, X)
        if v:
            return v
        hard = s.get('faults')
        if r['exit'] or r['signal']:
            if not hard:
                return [('not-survived', 'short reads ended the run: exit %d signal %d %s' % (r['exit'], r['signal'], r['err'][-200:]))]
            X.probe('refused')
            if r['data'].get('out.h5'):
                return [('results-after-refusal', 'a table could not be read, and results were written: %s' % sorted(r['data']['out.h5'])[:4])]
            return []
        X.probe('success')
        # a table that ends early is never a whole one
        if any(f['what'] == 'cut-file' and f['n'] < nvalues(f['name']) - 1 for f in hard or ()):
            return [('partial-table', 'success with a table that ends early: %s' % sim.fault_text(hard[0]))]
        if r['nfired'] and any(f['name'] and f['sticky'] for f in hard or ()):
            return [('partial-table', 'success with a table that could not be read: %s' % sim.fault_text(hard[0]))]
        ref = self.reference(sc, s, X)
        if ref is None:
            return []
        if 'out.h5' not in r['data']:
            return [('success-without-output', 'success without a readable output file')]
        d = judge.datasets_equal(ref['data']['out.h5'], r['data']['out.h5'])
        return [('partial-table', 'success after a fault while a table was read, but %s' % d)] if d else []


class C15(Fault):
    id = 'C15'
    n = dict(quick=1600, thorough=11000)
    rule = ('A scenario is a random set-up and 12 runs in which one C++ or C allocation, or all from one on, fails, at a place swept over the whole run; with one '
            'or more threads. Exit status zero requires the results of the run without the failure.')

    def config(self, r, tier):
        if r.random() < 0.2:           # many conversions
            c = setup(r, model='Quantum', field='static', pairs=True, hist=r.choice([0, 2]), od=gen.logu(r, 1, 10), steps=r.randint(4, 10))
            c['particles'][0]['type'] = 'Photon'
        else:
            c = setup(r, field='static' if r.random() < 0.5 else None, outputs='some')
            if c['hist'] and r.random() < 0.3:
                for p in c['particles']:
                    p['out'] = False
        for p in c['particles']:
            p['n'] = min(p['n'], 6)
        return c

    def base(self, r):
        b = super().base(r)
        if r.random() < 0.3:
            b.update(threads=r.randint(2, 4))
            b.update(policy(r, b['threads']))
            if b['pol'] in ('hot', 'stall', 'pct'):
                b.update(pol='rand', mean=100.0)
        return b

    def plan(self, r, k, s, ok, sc):
        n = ok['allocs']
        w = r.random()
        ev0 = ok['ev0new'] or n
        if w < 0.2:
            at = r.randint(1, 700)                       # reading the input
        elif w < 0.35:
            at = n - int(gen.logu(r, 1, max(2, n / 2)))    # writing the results
        elif w < 0.8:
            at = r.randint(min(ev0, n), n)               # from the first event on
        else:
            at = r.randint(1, n)
        c = 1 if r.random() < 0.2 else 0
        if c:
            at = int(gen.logu(r, 1, 3000))
            if ok['ev0malloc'] and r.random() < 0.3:
                at += ok['ev0malloc'] - 1
        s['faults'].append(F('alloc-fail', c, 0, n=max(1, at), sticky=int(r.random() < 0.25)))

    def one(self, sc, s, X):
        r = X.run(s, self.files(sc), sut=True)
        v = self.progress(r, X)
        if v:
            return v
        if r['exit'] or r['signal']:
            if not r['nfired']:
                return [('failed', 'no allocation failed, and the run did: exit %d signal %d %s' % (r['exit'], r['signal'], r['msg']))]
            X.probe('reported')
            return []
        X.probe('success' if r['nfired'] else 'not-reached')
        ref = self.reference(sc, s, X)
        if ref is None:
            return []
        if 'out.h5' not in r['data']:
            return [('success-without-output', 'an allocation failed; success without a readable output file')]
        d = judge.datasets_equal(ref['data']['out.h5'], r['data']['out.h5'])
        if not d:
            return []
        if s['threads'] > 1:      # another schedule: compare what does not depend on it
            v = primaries_ok(r, sc['cfg'])
            if v or sc['cfg']['physics']['model'] not in DET or sc['cfg']['physics']['pairs']:
                return v
            for t in ('Primary', 'Electrons', 'Positrons'):
                if not judge.same_rows(tab(r, t)[:, 1:], tab(ref, t)[:, 1:]):
                    return [('success-altered', 'an allocation failed; success, but %s: %s' % (t, judge.diff_rows(tab(r, t)[:, 1:], tab(ref, t)[:, 1:])))]
            return []
        return [('success-altered', 'an allocation failed; success, but against the run without the failure: %s' % d)]


class C19(Fault):
    id = 'C19'
    level = 'exploration'
    n = dict(quick=1300, thorough=16000)
    rule = ('A scenario is a random set-up with much emission and 4 list capacities of 2-40 particles. Without pair production every event must be the event of a '
            'run with ample capacity cut to its first particles; with it, the run must complete with intact memory and uncut events unchanged.')

    def config(self, r, tier):
        c = gen.config(r, od=gen.logu(r, 0.1, 0.8), steps=r.randint(4, 20), frac=r.choice([1.0, 1.0, 0.6]), pairs=r.random() < 0.3, field='static', hist=r.choice([0, 0, 2]),
                       tracking=r.random() < 0.3)
        for p in c['particles']:
            p['n'] = min(p['n'], 8)
        if c['physics']['pairs'] and c['physics']['model'].lower() == 'quantum' and r.random() < 0.6:
            c['particles'][0]['type'] = 'Photon'
        return c

    def gen(self, r, i, tier):
        c = self.config(r, tier)
        seed = r.randrange(1, 1 << 31)
        suts = []
        for k in range(4):
            s = dict(variant='omp', threads=1, seed=seed, cap=r.choice([2, 3, 4, 5, 6, 8, 11, 16, 25, 40]), pol='none', poison=r.randrange(8))
            if k == 3:
                s.update(threads=r.randint(2, 6))
                s.update(policy(r, s['threads']))
            suts.append(s)
        return dict(cfg=c, suts=suts)

    def execute(self, sc, X):
        return Conc.execute(self, sc, X)

    def one(self, sc, s, X):
        c, f = sc['cfg'], self.files(sc)
        big = X.run(dict(variant='omp', threads=1, seed=s['seed'], cap=4000, pol='none', poison=0), f, cache=True)
        if finished(big) and 'extreme simulation' in big['err']:
            X.probe('outside-tables')
            return []
        r = self.sutrun(X, s, f)
        v = finished(r, 'run with a list of %d particles' % s['cap'])
        if v:
            return v
        v = primaries_ok(r, c)
        if v:
            return v
        if c['general'].get('tracking'):
            T, bad = judge.tracks(r)
            if bad:
                return bad
        # which events met the limit
        E = {sp: judge.by_event(tab(r, sp)) for sp in ('Electrons', 'Positrons', 'Photons')}
        B = {sp: judge.by_event(tab(big, sp)) for sp in E}
        n = len(tab(big, 'Primary'))
        det = c['physics']['model'] in DET
        z = np.zeros((0, 7))
        P = {int(x[0]): x[1:].tobytes() for x in tab(r, 'Primary')}
        PB = {x[1:].tobytes(): int(x[0]) for x in tab(big, 'Primary')}
        if set(P.values()) != set(PB):
            return [('primary-values', 'the primaries are not those of a run with ample capacity')]
        for e in P:
            alive = sum(len(E[sp].get(e, z)) for sp in E)
            if alive > s['cap']:
                return [('list-overrun', 'event %d holds %d particles in a list of %d' % (e, alive, s['cap']))]
        if c['physics']['pairs']:
            if det:
                # the primary lepton, unless positrons and electrons mix
                for e in P:
                    for sp in ('Electrons', 'Positrons'):
                        a, b = E[sp].get(e, z), B[sp].get(PB[P[e]], z)
                        if sum(len(x[y].get(k, z)) for x, k in ((E, e), (B, PB[P[e]])) for y in ('Electrons', 'Positrons')) == 2 and len(a) == len(b) == 1 and not judge.same_rows(a, b):
                            return [('list-motion', 'the lepton of event %d moves otherwise with a full list' % e)]
            X.probe('pair-runs')
            return []
        exact = s['threads'] == 1 and r['drawhash'][0] == big['drawhash'][0]
        for e in P:
            k = PB[P[e]]
            if exact or det:
                for sp in ('Electrons', 'Positrons'):
                    a, b = E[sp].get(e, z), B[sp].get(k, z)
                    if not judge.same_rows(a, b):
                        return [('list-motion', '%s of event %d with a list of %d: %s' % (sp, e, s['cap'], judge.diff_rows(a, b)))]
            if exact:
                a, b = E['Photons'].get(e, z), B['Photons'].get(k, z)
                if len(a) < len(b):
                    X.probe('full-lists')
                    if len(a) < s['cap'] - 1:
                        return [('list-lost', 'event %d keeps %d of %d photons in a list of %d' % (e, len(a), len(b), s['cap']))]
                if a.tobytes() != b[:len(a)].tobytes():
                    return [('list-particles', 'event %d: the photons kept in a list of %d are not the first %d: %s' % (e, s['cap'], len(a), judge.diff_rows(a, b[:len(a)])))]
        if exact:
            for h in c['hist']:
                if h['slot'] >= c['general']['steps']:
                    _, k0, unsure = judge.nearest_bins(judge.quantity(tab(r, judge.SPECIES[h['particle'].capitalize()]), h['type']), h)
                    if np.abs(judge.hist(r, h['name'])[1] - k0).sum() > 2 * unsure:
                        return [('list-histogram', 'histogram %s does not count the particles kept' % h['name'])]
        return []


class C25(Fault):
    id = 'C25'
    level = 'exploration'
    n = dict(quick=700, thorough=12000)
    rule = ('A scenario is a random set-up and 5 runs under one schedule of 1-8 threads (or 2-4 processes) with other clocks: years off, standing still, jumping at '
            'random readings. Every data set, the exit status and the input summary must be the same.')
    variants = ('omp', 'mpi')

    def gen(self, r, i, tier):
        c = setup(r)
        if r.random() < 0.5:
            for p in c['particles']:
                p['n'] = max(p['n'], r.randint(6, 20))
            c['general']['tracking'] = False
        if r.random() < 0.25:
            c['general']['tracking'] = False
            s = spec(r, 'mpi', threads=1, ranks=r.randint(2, 4), netseed=r.randrange(1 << 30))
            s.update(pol='rand', mean=300.0)
        else:
            s = spec(r, threads=r.choice([1, 2, 3, 4, 8]))
            if s['threads'] > 1:
                s['evdraw'] = r.randrange(1, 1 << 62)
            if s['pol'] in ('hot', 'stall', 'pct'):
                s.update(pol='rand', mean=gen.logu(r, 5, 1000))
        suts = []
        for k in range(5):
            q = dict(s)
            w = r.random()
            q['clock0'] = r.choice([0.0, 1.0, 1.7e9, 1.7e9, -2e9, 4.4e9, 2.0 ** 31 - 1e-3, 1e12])
            q['faults'] = [F('clock-jump', n=int(gen.logu(r, 1, 40)), arg=r.choice([-1, 1]) * gen.logu(r, 1e-3, 1e9)) for _ in range(r.randint(0 if w < 0.3 else 1, 5))]
            suts.append(q)
        return dict(cfg=c, suts=suts, clean=dict(s, clock0=1.7e9))

    def execute(self, sc, X):
        return Conc.execute(self, sc, X)

    def one(self, sc, s, X):
        f = self.files(sc)
        base = {k: v for k, v in s.items() if k not in ('faults', 'clock0')}
        ref = X.run(dict(base, clock0=1.7e9), f, cache=True)
        v = finished(ref)
        if v:
            return v
        r = X.run(s, f, sut=True)
        v = finished(r, 'run with another clock')
        if v:
            return v
        X.probe('clock-readings', r['clockreads'])
        if s['threads'] > 1 and (r['ilhash'] != ref['ilhash'] or r['steps'] != ref['steps']):
            # other messages, so another schedule: the events may come in another order
            X.probe('other-schedule')
            d = self.unordered(ref, r)
            if d and not self.keyed(X, s, r, sc['cfg']):
                X.probe('draws-not-by-event')
                d = ''
        else:
            d = judge.datasets_equal(ref['data']['out.h5'], r['data']['out.h5'])
        if d:
            return [('clock-results', 'the results depend on the clock: %s' % d)]
        if ref['summary'] != r['summary']:
            return [('clock-summary', 'the input summary depends on the clock')]
        return []

    def unordered(self, a, b):
        for t in ('Primary', 'Electrons', 'Positrons', 'Photons'):
            x, y = tab(a, t)[:, 1:], tab(b, t)[:, 1:]
            if not judge.same_rows(x, y):
                return '%s: %s' % (t, judge.diff_rows(x, y))
        d, e = [{k: v for k, v in q['data']['out.h5'].items() if k.startswith('Histograms')} for q in (a, b)]
        t = judge.datasets_equal(d, e)
        if t:
            return t
        d, e = [judge.tracks(q) for q in (a, b)]
        if not d[1]:
            if e[1]:
                return e[1][0][1]
            k = lambda t: t['x'].tobytes() + t['p'].tobytes() + t['t'].tobytes() + t['g'].tobytes()
            if sorted(map(k, d[0])) != sorted(map(k, e[0])):
                return 'the tracks differ'
        return ''
