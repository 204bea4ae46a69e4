"""Search driver: runs scenarios in parallel, gates, minimises and reports violations."""
import copy, hashlib, json, multiprocessing as mp, os, random, subprocess, sys, time, traceback
import build
import sim

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Stopped(Exception):
    """A run exceeded its wall-clock limit."""


class Ctx:
    """Executes the runs of scenarios and keeps the account of them."""
    def __init__(self, builds, tag='0', histories=False):
        self.histories = histories
        self.builds, self.tag, self.sims = builds, tag, {}
        self.cache, self.order = {}, []
        self.reset_stats()
        self.begin()

    def reset_stats(self):
        self.st = dict(runs=0, steps=0, switches=0, preempts=0, simtime=0.0, msgs=0, reordered=0, faults={}, il=set(), probes={})

    def begin(self):
        self.h = hashlib.sha256()
        self.sut = self.focus = None

    def close(self):
        for s in self.sims.values():
            s.close()
        self.sims = {}

    def sim(self, variant):
        k = 'py' if variant.startswith('py') else 'x'
        if k not in self.sims:
            v = variant if variant in self.builds else next(iter(self.builds))
            self.sims[k] = sim.Sim(self.builds[v][0], self.builds[v][1], self.tag)
        return self.sims[k]

    def probe(self, name, n=1):
        self.st['probes'][name] = self.st['probes'].get(name, 0) + n

    def run(self, spec, files=None, keep=None, read=('out.h5',), cache=False, sut=False):
        key = None
        if cache:
            key = hashlib.sha256(json.dumps([spec, files, read], sort_keys=True).encode()).hexdigest()
            if key in self.cache:
                r, oh = self.cache[key]
                self.h.update(oh.encode())
                return r
        S = self.sim(spec['variant'])
        for attempt in (0, 1):
            try:
                r = S.run(spec, files, keep=keep, read=read)
            except sim.SimError:
                if attempt or keep:
                    raise
                continue
            break
        if r['killed']:
            raise Stopped('run stopped after %s s' % spec.get('wall', 60))
        st = self.st
        st['runs'] += 1
        for k in ('steps', 'switches', 'preempts', 'msgs', 'reordered'):
            st[k] += r[k]
        st['simtime'] += max(0.0, r['simtime'])
        fl = [f for f in spec.get('faults', ()) if f['what'] != 'cut-file']
        for i in r['fired']:
            if i < len(fl):
                w = fl[i]['what']
                st['faults'][w] = st['faults'].get(w, 0) + 1
        for f in spec.get('faults', ()):
            if f['what'] == 'cut-file':
                st['faults']['cut-file'] = st['faults'].get('cut-file', 0) + 1
        for w, n in r['bg'].items():
            if w == 'small-list' and spec.get('cap', 10 ** 9) >= 1000:
                continue
            st['faults'][w] = st['faults'].get(w, 0) + n
        oh = sim.outcome_hash(r)
        st['il'].add((r['ilhash'], str(r['drawhash'])) if self.histories else r['ilhash'])
        self.h.update(oh.encode())
        if sut:
            self.sut = r
        if cache:
            self.cache[key] = (r, oh)
            self.order.append(key)
            if len(self.order) > 40:
                self.cache.pop(self.order.pop(0), None)
        return r


class Prop:
    id = ''
    variants = ('omp',)
    level = 'exploration'
    histories = False
    n = dict(quick=100, thorough=3000)
    cap_s = dict(quick=300, thorough=780)
    rule = ''
    real = 'all of Source/ except Geant (compiled from the working tree, memory accesses instrumented), HDF5, libstdc++'
    stub = 'thread scheduling and the OpenMP runtime, clocks, machine entropy (std::random_device), MPI library and network, file-system calls and disk contents, memory allocator'

    def gen(self, r, i, tier):
        raise NotImplementedError

    def execute(self, sc, X):
        raise NotImplementedError

    def shrink(self, sc):
        return []

    def describe(self, sc):
        return json.dumps(sc, sort_keys=True)[:700]


def scenario(prop, seed, i, tier):
    r = random.Random('%s/%s/%d' % (prop.id, seed, i))
    sc = prop.gen(r, i, tier)
    return json.loads(json.dumps(sc))


def judge(prop, sc, X):
    """(violations, hash of everything observed)"""
    X.begin()
    try:
        v = prop.execute(sc, X) or []
    except Stopped as e:
        v = [('stopped', str(e))]
    except (KeyError, ValueError, IndexError, TypeError, ZeroDivisionError, FloatingPointError) as e:
        if os.environ.get('QS_DEBUG'):
            traceback.print_exc()
        v = [('malformed', 'results cannot be interpreted: %s: %s' % (type(e).__name__, e))]
    return v, X.h.hexdigest()[:24]


def _worker(wid, prop, builds, seed, tier, n, nxt, stop, out, deadline):
    X = Ctx(builds, '%s%d' % (prop.id, wid), prop.histories)
    try:
        while not stop.value and time.time() < deadline:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= n:
                break
            X.reset_stats()
            t = time.time()
            try:
                sc = scenario(prop, seed, i, tier)
                v, h = judge(prop, sc, X)
                dbl = None
                if i % 16 == 5 and not v:      # determinism: the same scenario again, nothing cached
                    X.cache.clear()
                    X.order.clear()
                    st = X.st
                    X.reset_stats()
                    v2, h2 = judge(prop, sc, X)
                    X.st = st
                    dbl = h2 == h
                    if v2:
                        v = v2
                out.put((i, 'ok', v, h, X.st, dbl, time.time() - t))
            except Exception:
                out.put((i, 'error', traceback.format_exc(), '', X.st, None, time.time() - t))
    finally:
        X.close()
        out.put((-1, 'end', None, None, None, None, 0))


def search(prop, builds, seed, tier, deadline, nworkers, limit=None):
    n = limit or prop.n[tier]
    ctx = mp.get_context('fork')
    nxt, stop, out = ctx.Value('i', 0), ctx.Value('i', 0), ctx.Queue()
    ps = [ctx.Process(target=_worker, args=(w, prop, builds, seed, tier, n, nxt, stop, out, deadline)) for w in range(nworkers)]
    for p in ps:
        p.start()
    res, ended, errors = {}, 0, []
    while ended < len(ps):
        try:
            i, kind, a, h, st, dbl, t = out.get(timeout=30)
        except Exception:
            if not any(p.is_alive() for p in ps):
                break
            continue
        if kind == 'end':
            ended += 1
        elif kind == 'error':
            errors.append((i, a))
            stop.value = 1
        else:
            res[i] = (a, h, st, dbl, t)
            if a:
                stop.value = 1
    for p in ps:
        p.join(5)
        if p.is_alive():
            p.kill()
    return res, errors


def classes(v):
    return sorted(set(c for c, _ in v))


def minimise(prop, sc, cls, X, budget):
    """Smaller scenario with the same class of violation."""
    end = time.time() + budget

    def bad(c):
        if time.time() > end:
            return False
        try:
            v, _ = judge(prop, c, X)
        except Exception:
            return False
        return cls in classes(v)

    cur = copy.deepcopy(sc)
    if 'sut' not in cur:
        judge(prop, cur, X)
        if X.focus:
            c = {k: v for k, v in cur.items() if k != 'suts'}
            c['sut'] = json.loads(json.dumps(X.focus))
            if bad(c):
                cur = c
    changed = True
    while changed and time.time() < end:
        changed = False
        for c in prop.shrink(cur):
            if time.time() > end:
                break
            c = json.loads(json.dumps(c))
            if bad(c):
                cur, changed = c, True
                break
    sut = cur.get('sut')
    if sut:
        fl = list(sut.get('faults', ()))
        k = 0
        while k < len(fl) and len(fl) > 1:
            c = copy.deepcopy(cur)
            c['sut']['faults'] = fl[:k] + fl[k + 1:]
            if bad(c):
                cur = c
                fl = c['sut']['faults']
            else:
                k += 1
        for k in ('bgshort', 'bgeintr', 'rare'):
            if sut.get(k):
                c = copy.deepcopy(cur)
                c['sut'].pop(k)
                if bad(c):
                    cur = c
        # the schedule: an explicit list of switches
        if cur['sut'].get('pol', 'none') != 'none' and not cur['sut'].get('forced'):
            judge(prop, cur, X)
            rec = X.sut['rec'] if X.sut and not X.sut['overflow'] else None
            if rec is not None:
                c = copy.deepcopy(cur)
                for k in ('pol', 'mean', 'hotp', 'depth', 'len', 'hot', 'profile'):
                    c['sut'].pop(k, None)
                c['sut']['forced'] = 1
                c['sut']['sw'] = rec
                if bad(c):
                    cur = c
        if cur['sut'].get('forced'):
            sw = cur['sut']['sw']
            g = 2
            while len(sw) > 1 and time.time() < end:
                size = max(1, len(sw) // g)
                hit = False
                for a in range(0, len(sw), size):
                    c = copy.deepcopy(cur)
                    c['sut']['sw'] = sw[:a] + sw[a + size:]
                    if bad(c):
                        cur, sw, hit = c, c['sut']['sw'], True
                        g = max(2, g - 1)
                        break
                    if time.time() > end:
                        break
                if not hit:
                    if size == 1:
                        break
                    g = min(len(sw), g * 2)
    return cur


def known(prop):
    out = []
    try:
        with open(os.path.join(VERIF, 'known-findings.txt')) as f:
            for l in f:
                if l.startswith('known: property=%s ' % prop.id):
                    k = l.split('key=', 1)[1].split(None, 1)
                    out.append((k[0], k[1].strip() if len(k) > 1 else ''))
    except OSError:
        pass
    return out


def write_evidence(prop, tier, seed, res, wall, buildwall, violations, ntotal):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    il, faults, probes = set(), {}, {}
    tot = dict(runs=0, steps=0, switches=0, preempts=0, simtime=0.0, msgs=0, reordered=0)
    dbl = same = 0
    for i in res:
        st = res[i][2]
        for k in tot:
            tot[k] += st[k]
        il |= st['il']
        for d, s in ((faults, st['faults']), (probes, st['probes'])):
            for k in s:
                d[k] = d.get(k, 0) + s[k]
        if res[i][3] is not None:
            dbl += 1
            same += bool(res[i][3])
    samples = []
    for i in sorted(res)[:3]:
        samples.append(prop.describe(scenario(prop, seed, i, tier)))
    h = max(1e-9, wall - buildwall) / 3600.0
    ev = dict(property=prop.id, tier=tier, seed=seed, level=prop.level, wall_s=round(wall, 2), violations=violations, coverage=dict(
        evaluations=tot['runs'], distinct_nontrivial=len(il), rule=prop.rule + ' Distinct: executions whose sequence of context switches (thread, '
        'position) and file operations%s differs from every other execution (hash of that sequence).' % (' and of random numbers' if prop.histories else ''), samples=samples,
        scenarios=len(res), scenarios_planned=ntotal, seeds_per_hour=int(len(res) / h), runs_per_hour=int(tot['runs'] / h),
        simulated_seconds=round(tot['simtime'], 6), instrumented_steps=tot['steps'], context_switches=tot['switches'],
        preemptions=tot['preempts'], messages=tot['msgs'], messages_overtaken=tot['reordered'], faults_injected=faults,
        probes=probes, scenarios_run_twice=dbl, of_which_identical=same, build_s=round(buildwall, 1),
        components_real=prop.real, components_stub=prop.stub),
        assumptions=['sequentially consistent memory between instrumented accesses', 'HDF5 and the C++ library run as installed, uninstrumented, one '
                     'simulated thread at a time', 'sampled, not exhaustive: a clean batch is evidence, not proof'])
    p = os.path.join(VERIF, 'evidence', prop.id + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')
    os.rename(p + '.tmp', p)
    return ev


def replay(path, props):
    with open(path) as f:
        rp = json.load(f)
    prop = props[rp['property']]
    builds = build.build(list(prop.variants))
    X = Ctx(builds, 'rp')
    try:
        v, h = judge(prop, rp['scenario'], X)
    finally:
        X.close()
    for c, t in v:
        print('%s: %s' % (c, t))
    print('outcome hash %s (recorded %s)' % (h, rp['hash']))
    if rp['class'] in classes(v):
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1, h == rp['hash']
    return 0, False


def check(prop, tier, props, limit=None):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    print('check %s tier=%s seed=%d' % (prop.id, tier, seed), flush=True)
    t0 = time.time()
    try:
        builds = build.build(list(prop.variants))
    except build.BuildError as e:
        print('ERROR: build failed\n%s' % e)
        return 2
    tb = time.time() - t0
    nw = int(os.environ.get('QS_WORKERS', os.cpu_count() or 4))
    res, errors = search(prop, builds, seed, tier, t0 + prop.cap_s[tier], nw, limit)
    kn = known(prop)
    bad = []
    shown = set()
    for i in sorted(res):
        v = []
        for c, t in res[i][0]:
            k = [w for key, w in kn if key == c]
            if k:
                shown.add((c, k[0]))
            else:
                v.append((c, t))
        if v:
            bad.append((i, v))
    for c, w in sorted(shown):
        print('KNOWN-FINDING: property=%s %s %s' % (prop.id, c, w))
    n = limit or prop.n[tier]
    code, viol, slow = 0, 0, 0
    notsame = [i for i in res if res[i][3] is False]
    if bad:
        X = Ctx(builds, 'min')
        try:
            for i, v in bad[:4]:
                sc = scenario(prop, seed, i, tier)
                v1, h1 = judge(prop, sc, X)
                X.cache.clear(); X.order.clear()
                v2, h2 = judge(prop, sc, X)
                # results that depend on uninitialised memory may differ in value, not in class
                common = [c for c in classes(v) if c in classes(v1) and c in classes(v2)]
                if not common and classes(v) == ['stopped'] and not v1 and not v2:
                    print('scenario %d was stopped by the wall clock and ended when repeated: no violation' % i)
                    slow += 1
                    continue
                if not common:
                    print('scenario %d: violation %s does not repeat (%s)' % (i, v[0], 'same outcome' if h1 == h2 else 'outcome differs'))
                    continue
                cls = common[0]
                small = minimise(prop, sc, cls, X, 45 if tier == 'quick' else 120)
                v3, h3 = judge(prop, small, X)
                if cls not in classes(v3):
                    small, v3, h3 = sc, v2, h2
                d = os.path.join(VERIF, 'evidence', 'replay')
                os.makedirs(d, exist_ok=True)
                p = os.path.join(d, '%s-%s-%d.json' % (prop.id, seed, i))
                text = [t for c, t in v3 if c == cls][0]
                rp = {'property': prop.id, 'class': cls, 'text': text, 'hash': h3, 'seed': seed, 'tier': tier, 'index': i, 'scenario': small}
                with open(p, 'w') as f:
                    json.dump(rp, f, indent=1)
                r = subprocess.run([os.path.join(VERIF, "check"), "replay", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode != 1:
                    print('replay of scenario %d in a new process did not reproduce:\n%s' % (i, r.stdout.decode()[-2000:]))
                    continue
                same = ('outcome hash %s (recorded %s)' % (h3, h3)).encode() in r.stdout
                print('%s: %s' % (cls, text))
                print('scenario: ' + prop.describe(small))
                print('replayed in a new process: %s' % ('identical' if same else 'same violation, different outcome hash'))
                print('VIOLATION property=%s replay=%s' % (prop.id, p), flush=True)
                code, viol = 1, len(bad)
                break
            else:
                if slow < len(bad):
                    print('ERROR: no violation could be reproduced')
                    code = 2
        finally:
            X.close()
    elif errors:
        print('ERROR in scenario %d:\n%s' % errors[0])
        code = 2
    elif notsame:
        print('ERROR: scenario %d is not deterministic' % notsame[0])
        code = 2
    elif not res:
        print('ERROR: nothing was run')
        code = 2
    ev = write_evidence(prop, tier, seed, res, time.time() - t0, tb, viol, n)
    c = ev['coverage']
    print('%s: %d scenarios, %d runs, %d distinct, faults %s, probes %s, %.0f s' % (prop.id, c['scenarios'], c['evaluations'], c['distinct_nontrivial'],
          json.dumps(c['faults_injected']), json.dumps(c['probes']), ev['wall_s']))
    return code
