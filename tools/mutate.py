#!/usr/bin/env python3
"""mutate.py [NAME…]: gives each mutant of mutants.py (or those whose name starts with one of NAME) to the quick check of
its properties, in private copies of /repo and /verif under /tmp/qs-mutants. W workers (default 2)."""
import sys, os, subprocess, queue, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from mutants import M
sel = sys.argv[1:]
W = int(os.environ.get('W', '2'))


def one(i, props, edits, w):
    d = '/tmp/qs-mutants/%d' % w
    subprocess.run('mkdir -p %s; rsync -a --delete --exclude _build --exclude _build_mpi --exclude _build_py /repo/ %s/repo/; rsync -a --exclude seeded --exclude .git /verif/ %s/verif/' % (d, d, d),
                   shell=True, check=True)
    for f, a, b in edits:
        p = d + '/repo/' + f
        t = open(p).read()
        if a not in t:
            return [(i, '-', 'EDIT FAILS: ' + a[:60])]
        open(p, 'w').write(t.replace(a, b, 1))
    out = []
    for c in props:
        s = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && timeout 900 env VERIF_SEED=1 ./check %s quick' % (d, d, c)
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = r.stdout.decode(errors='replace').splitlines()
        v = [k for k, l in enumerate(o) if l.startswith('VIOLATION')]
        out.append((i, c, '%s %s' % ({0: 'MISSED', 1: 'caught'}.get(r.returncode, 'RC%d' % r.returncode), (' | '.join(o[max(0, v[0] - 3):v[0]]) if v else ' | '.join(o[-3:]))[:600])))
    return out


q = queue.Queue()
for x in M:
    if not sel or any(x[0].startswith(s) for s in sel):
        q.put(x)
lock = threading.Lock()


def work(w):
    while True:
        try:
            x = q.get_nowait()
        except queue.Empty:
            return
        try:
            o = one(*x, w)
        except Exception as e:
            o = [(x[0], '-', repr(e))]
        with lock:
            for l in o:
                print(*l, flush=True)


ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
