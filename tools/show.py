"""Runs the simulation of a replay file and prints what it did."""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
import build, core, gen, main
rp = json.load(open(sys.argv[1]))
prop = main.load()[rp['property']]
X = core.Ctx(build.build(list(prop.variants)), 'show')
sc = rp['scenario']
r = X.run(sc['sut'], {'input.ini': gen.ini(sc['cfg'])} if 'cfg' in sc else sc.get('files'))
print({k: v for k, v in r.items() if k not in ('rec', 'hot', 'data', 'out', 'err')})
print(r['out'][-1500:]); print(r['err'][-1500:])
for k, v in r['data'].get('out.h5', {}).items():
    print(k, v.shape, v.ravel()[:6])
print(core.judge(prop, sc, X))
X.close()
