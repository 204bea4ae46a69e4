"""Reading and comparing results."""
import numpy as np

SRC = 'Particles/ParticleSource/'
SPECIES = {'Electron': 'Electrons', 'Positron': 'Positrons', 'Photon': 'Photons'}


def tab(r, name, f='out.h5'):
    a = r['data'].get(f, {}).get(SRC + name)
    return a if a is not None else np.zeros((0, 8))


def hist(r, name, f='out.h5'):
    d = r['data'].get(f, {})
    return d['Histograms/%s/BinCentres' % name], d['Histograms/%s/BinValues' % name]


def finished(r, what='run', file=True):
    """Violations of 'a healthy run finishes with success and a readable file'."""
    if r['deadlock']:
        return [('deadlock', '%s: all threads wait for one another: %s' % (what, r['msg']))]
    if r['steplimit']:
        return [('no-progress', '%s: no end within the step limit' % what)]
    if r['mpierr']:
        return [('mpi-error', '%s: %s' % (what, r['msg']))]
    if r['signal']:
        return [('crash', '%s: killed by signal %d %s' % (what, r['signal'], r['msg']))]
    if r['exit'] != 0:
        return [('failed', '%s: exit status %d without any fault: %s %s' % (what, r['exit'], r['msg'], r['err'][-200:]))]
    if file and 'out.h5' not in r['data']:
        return [('no-output', '%s: success, but no readable output file' % what)]
    return []


def failed(r):
    return r['exit'] != 0 or r['signal'] != 0 or r['deadlock'] or r['steplimit']


def order(a):
    a = np.ascontiguousarray(a, dtype=float)
    return a[np.lexsort(a.T[::-1])] if len(a) else a


def same_rows(a, b):
    if a.shape != b.shape:
        return False
    a, b = order(a), order(b)
    return a.tobytes() == b.tobytes() or bool(np.array_equal(a, b, equal_nan=True))


def diff_rows(a, b, n=2):
    """Text: rows only in a, rows only in b."""
    A, B = {}, {}
    for x, D in ((a, A), (b, B)):
        for row in x:
            k = row.tobytes()
            D[k] = D.get(k, 0) + 1
    la = [np.frombuffer(k) for k in A if A[k] > B.get(k, 0)]
    lb = [np.frombuffer(k) for k in B if B[k] > A.get(k, 0)]
    f = lambda L: '; '.join(' '.join('%.9g' % v for v in x) for x in L[:n])
    return '%d rows against %d; %d only in the first (%s), %d only in the second (%s)' % (len(a), len(b), len(la), f(la), len(lb), f(lb))


def datasets_equal(d1, d2, skip=()):
    """Bit-equality of all data sets of two files; text of the first difference or ''."""
    k1, k2 = set(k for k in d1 if k not in skip), set(k for k in d2 if k not in skip)
    if k1 != k2:
        return 'data sets differ: only in first %s, only in second %s' % (sorted(k1 - k2)[:3], sorted(k2 - k1)[:3])
    for k in sorted(k1):
        if d1[k].shape != d2[k].shape:
            return '%s has shape %s against %s' % (k, d1[k].shape, d2[k].shape)
        if d1[k].tobytes() != d2[k].tobytes():
            w = np.argwhere(~(d1[k].ravel() == d2[k].ravel()))
            return '%s differs in %d values' % (k, len(w))
    return ''


def datasets_equal_rows(d1, d2, skip=()):
    """Like datasets_equal, but the order of the rows of particle tables is free."""
    k1, k2 = set(k for k in d1 if k not in skip), set(k for k in d2 if k not in skip)
    if k1 != k2:
        return 'data sets differ: only in first %s, only in second %s' % (sorted(k1 - k2)[:3], sorted(k2 - k1)[:3])
    for k in sorted(k1):
        if d1[k].ndim == 2 and k.startswith(SRC):
            if not same_rows(d1[k], d2[k]):
                return '%s: %s' % (k, diff_rows(d1[k], d2[k]))
        elif d1[k].shape != d2[k].shape or not np.array_equal(d1[k], d2[k], equal_nan=True):
            return '%s differs' % k
    return ''


def by_event(a):
    out = {}
    for row in a:
        out.setdefault(int(row[0]), []).append(row[1:])
    return {k: np.array(v) for k, v in out.items()}


def tracks(r, f='out.h5'):
    """[{Position, Momentum, Time, Gamma}] in file order, and complaints."""
    d = r['data'].get(f, {})
    T = {}
    for k in d:
        if k.startswith('Particles/ParticleTrack/'):
            p = k.split('/')
            T.setdefault(p[2], {})[p[3]] = d[k]
    bad = []
    names = set('Event%d' % i for i in range(len(T)))
    if set(T) != names:
        bad.append(('track-names', 'tracks are not numbered from 0 to %d' % (len(T) - 1)))
    out = []
    for k in sorted(T, key=lambda s: (len(s), s)):
        t = T[k]
        if set(t) != {'Position', 'Momentum', 'Time', 'Gamma'}:
            bad.append(('track-columns', '%s holds %s' % (k, sorted(t))))
            continue
        n = t['Time'].size
        if t['Position'].size != 3 * n or t['Momentum'].size != 3 * n or t['Gamma'].size != n:
            bad.append(('track-length', '%s: columns of %d, %d, %d and %d entries' % (
                k, n, t['Position'].size // 3, t['Momentum'].size // 3, t['Gamma'].size)))
            continue
        out.append(dict(name=k, x=t['Position'].reshape(-1, 3), p=t['Momentum'].reshape(-1, 3), t=t['Time'].ravel(), g=t['Gamma'].ravel()))
    return out, bad


def quantity(a, ty):
    """Column of a particle table that a histogram type selects."""
    ty = ty.lower()
    return a[:, {'energy': 1, 'px': 2, 'py': 3, 'pz': 4, 'x': 5, 'y': 6, 'z': 7}[ty]]


def nearest_bins(v, h):
    """(certain counts, uncertain values): ties and range ends are left open."""
    n = h['bins']
    c = h['min'] + np.arange(n) * ((h['max'] - h['min']) / (n - 1.0))
    v = np.asarray(v, dtype=float)
    v = v[np.isfinite(v)]
    scale = max(abs(h['min']), abs(h['max']))
    eps = 1e-9 * scale
    unsure = int(np.sum((np.abs(v - c[0]) < eps) | (np.abs(v - c[-1]) < eps)))
    u = v[(v > c[0]) & (v < c[-1])]
    d = (c[-1] - c[0]) / (n - 1)
    x = (u - c[0]) / d
    k = np.floor(x + 0.5).astype(int)
    near = np.abs(x + 0.5 - np.round(x + 0.5)) < 1e-6
    unsure += int(np.sum(near))
    return c, np.bincount(np.clip(k, 0, n - 1), minlength=n).astype(float), unsure
