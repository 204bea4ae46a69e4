"""Random simulation set-ups, in the units of the code (time hbar/mc2, length hbar/mc, fields of
the Schwinger field, energies mc2), and their input files."""
import decimal, math, random
ME, C, QE, HB = 9.10938356e-31, 2.99792458e8, 1.60217662e-19, 1.0545718e-34
ESCHW = ME * ME * C ** 3 / (QE * HB)
T0 = HB / (ME * C * C)
L0 = T0 * C
E0 = ME * C * C


def num(x):
    return '%.12g' % x


def vec(v, s=1.0):
    return '[' + ' '.join(('%.12e' % (x * s)).replace('e+', 'e') for x in v) + ']'


def unit(r):
    while True:
        v = [r.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if n > 1e-3:
            return [x / n for x in v]


def perp(r, d):
    while True:
        v = unit(r)
        k = sum(a * b for a, b in zip(v, d))
        v = [a - k * b for a, b in zip(v, d)]
        n = math.sqrt(sum(x * x for x in v))
        if n > 0.1:
            return [x / n for x in v]


def logu(r, a, b):
    return math.exp(r.uniform(math.log(a), math.log(b)))


def ini(c, pad=0):
    L = []
    g = c['general']
    step, end = num(g['dt'] * T0), num(g['dt'] * (g['steps'] - 0.5) * T0)
    if g.get('whole'):           # the end is a whole number of steps
        step = '%.*e' % (g['whole'] - 1, g['dt'] * T0)
        end = str(decimal.Decimal(step) * g['steps'])
    L += ['[General]', 'units = SI', 'time_step = ' + step, 'time_end = ' + end,
          'file_name = ' + g.get('file', 'out.h5')]
    if g.get('tracking'):
        L.append('tracking = true')
    f = c['field']
    L += ['', '[Field]', 'field_type = ' + f['type']]
    if f['type'] == 'static':
        L += ['e_field = ' + vec(f['E'], ESCHW), 'b_field = ' + vec(f['B'], ESCHW / C)]
    elif f['type'] == 'plane':
        L += ['e_max = ' + num(f['max'] * ESCHW), 'wavelength = ' + num(f['wavelength'] * L0), 'direction = ' + vec(f['direction']),
              'polerisation = ' + num(f['pol'])]
    else:
        L += ['e_max = ' + num(f['max'] * ESCHW), 'wavelength = ' + num(f['wavelength'] * L0), 'duration = ' + num(f['duration'] * T0),
              'waist = ' + num(f['waist'] * L0), 'polerisation = ' + num(f['pol']), 'start = ' + vec(f['start'], L0),
              'focus = ' + vec(f['focus'], L0)]
    for i, p in enumerate(c['particles'], 1):
        L += ['', '[Particle%d]' % i, 'number_particles = %d' % p['n'], 'name = src%d' % i, 'particle_type = ' + p['type'],
              'energy_distribution = ' + p['distro'], 'position = ' + vec(p['pos'], L0), 'direction = ' + vec(p['dir']),
              'energy_mean = ' + num(p['e1'] * E0), 'energy_sig = ' + num(p['e2'] * E0), 'duration = ' + num(p['dur'] * T0),
              'radius = ' + num(p['rad'] * L0), 'divergence = ' + num(p['div']), 'output = ' + ('true' if p.get('out', True) else 'false')]
        if pad:
            L += ['# ' + 'padding ' * 12] * (pad // 100)
    q = c['physics']
    L += ['', '[Physics]', 'radiation_model = ' + q['model'], 'sample_fraction = ' + num(q['frac']),
          'pair_production = ' + ('true' if q['pairs'] else 'false')]
    if q.get('emin'):
        L.append('min_energy = ' + num(q['emin'] * E0))
    for i, h in enumerate(c.get('hist', ()), 1):
        L += ['', '[Histogram%d]' % i, 'name = ' + h['name'], 'particle = ' + h['particle'], 'type = ' + h['type'],
              'time = ' + num(h['time'] * T0), 'bins = %d' % h['bins'], 'min_bin = ' + repr(h['min']), 'max_bin = ' + repr(h['max'])]
        if pad:
            L += ['# ' + 'padding ' * 12] * (pad // 100)
    if c.get('omit'):            # what has its default value is left out
        D = {'sample_fraction = ' + num(1.0), 'sample_fraction = ' + num(1), 'pair_production = false', 'output = false', 'number_particles = 1', 'particle_type = Electron',
             'energy_distribution = mono'} | {k + ' = ' + num(0.0) for k in ('energy_sig', 'duration', 'radius', 'divergence', 'polerisation', 'time')}
        L = [x for x in L if x not in D]
    return '\n'.join(L) + '\n'


def source(r, ptype=None, n=None, e=None, spread=True, out=True):
    t = ptype or r.choice(['electron', 'positron', 'Electron', 'Positron'])
    e = e or logu(r, 200, 4000)
    d = r.choice(['gaussian', 'linear'])
    p = dict(type=t, distro=d, n=n if n is not None else r.randint(1, 24), pos=[r.uniform(-1e6, 1e6) for _ in range(3)], dir=unit(r), out=out)
    if not spread:
        p.update(e1=e, e2=0.0 if d == 'gaussian' else e, dur=0.0, rad=0.0, div=0.0)
    else:
        s = r.uniform(0.02, 0.12)
        p.update(e1=e if d == 'gaussian' else e * (1 - s), e2=e * s if d == 'gaussian' else e * (1 + s),
                 dur=logu(r, 1e3, 1e6), rad=logu(r, 1e3, 1e6), div=logu(r, 1e-4, 1e-2))
    return p


def config(r, model=None, nev=None, sources=None, steps=None, pairs=False, frac=None, field=None, ptype=None, hist=0, tracking=False,
           emin=None, od=None, outputs='all'):
    """od: emission optical depth per step of the first source."""
    ns = sources or (1 if r.random() < 0.6 else r.randint(2, 3))
    ps = []
    for i in range(ns):
        n = nev if nev is not None else r.choice([1, 2, 3, 5, 8, 12, 17, 24, 33])
        ps.append(source(r, ptype, n))
    if outputs == 'some' and ns > 1:
        for p in ps:
            p['out'] = r.random() < 0.7
    e = ps[0]['e1']
    b = min(logu(r, 3e-4, 3e-3), 4.0 / max(p['e1'] for p in ps))   # the tables end at eta = 10
    steps = steps or r.randint(4, 24)
    od = od or logu(r, 0.02, 0.2)
    dt = od / (0.0105 * b)
    model = model or r.choice(['Classical', 'Semiclassical', 'Quantum', 'classical', 'semiclassical', 'quantum'])
    if model.lower() != 'quantum':       # a step must not take all the energy
        dt = min(dt, 0.3 / (0.0049 * b * b * max(p['e1'] for p in ps)))
    ft = field or r.choice(['static', 'static', 'static', 'plane', 'gaussian', 'focusing'])
    d0 = ps[0]['dir']
    if ft != 'static':
        b *= 0.5          # head-on: twice the field acts
    if ft == 'static':
        f = dict(type='static', E=[0.0, 0.0, 0.0], B=[b * x for x in (perp(r, d0) if r.random() < 0.7 else unit(r))])
        if field is None and r.random() < 0.3:
            f['E'] = [0.3 * b * x for x in unit(r)]
    elif ft == 'plane':
        lam = r.uniform(0.6e-6, 1.2e-6) / L0
        dt = min(dt, lam / (2 * math.pi) / 12)
        f = dict(type='plane', max=b, wavelength=lam, direction=[-x for x in d0], pol=r.uniform(0, 1.5))
    else:
        lam = r.uniform(0.6e-6, 1.2e-6) / L0
        dt = min(dt, lam / (2 * math.pi) / 12)
        dur = dt * steps * r.uniform(0.5, 2)
        p0 = ps[0]['pos']
        foc = [p0[i] + d0[i] * dt * steps / 2 for i in range(3)]
        f = dict(type=ft, max=b, wavelength=lam, duration=max(dur, lam), waist=max(3 * lam, dt * steps), pol=r.uniform(0, 1.5),
                 start=[foc[i] + d0[i] * dt * steps / 2 for i in range(3)], focus=foc)
    c = dict(general=dict(dt=dt, steps=steps, tracking=tracking), field=f, particles=ps,
             physics=dict(model=model,
                          frac=frac if frac is not None else r.choice([1.0, 1.0, 0.5, 0.2]), pairs=pairs, emin=emin or 0), hist=[])
    if hist:
        c['hist'] = histograms(r, c, hist)
    return c


def histograms(r, c, n, particles=('Electron', 'Positron', 'Photon')):
    g, out = c['general'], []
    steps = g['steps']
    slots = sorted(r.sample(range(0, steps + 4, 2), min(n, (steps + 4) // 2)) if n <= 8 else r.choices(range(0, steps + 4, 2), k=n))
    own = [p['type'].capitalize() for p in c['particles']]
    for i, k in enumerate(slots):
        part = r.choice(own) if r.random() < 0.7 else r.choice(particles)
        ty = r.choice(['energy', 'Energy', 'x', 'X', 'y', 'Y', 'z', 'Z', 'px', 'PX', 'py', 'PY', 'pz', 'PZ'])
        e = max(p['e1'] for p in c['particles'])
        if ty.lower() == 'energy':
            lo, hi = (0.0, 1.0371 * e) if r.random() < 0.7 else (e * 0.613, e * 0.987)
        elif ty.lower()[0] == 'p':
            lo, hi = -1.1371 * e, 1.0931 * e
        else:
            sz = 3e6 + g['dt'] * steps
            lo, hi = -sz * 1.0173, sz * 0.8911
        t = 0.0 if k == 0 else (k - 1 + 0.37) * g['dt']   # filled at the start of step k (numbered from 0)
        out.append(dict(name='h%d' % i, particle=part, type=ty, time=t, bins=r.choice([2, 3, 7, 20, 64, 200]), min=lo, max=hi, slot=k))
    return out
