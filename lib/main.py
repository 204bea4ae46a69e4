import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
import core


def load():
    ps = {}
    for m in ('conc', 'mpip', 'fault', 'phys', 'law', 'pyp', 'agree'):
        try:
            mod = __import__(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        for k in dir(mod):
            c = getattr(mod, k)
            if isinstance(c, type) and issubclass(c, core.Prop) and c.id and c.id == k:
                ps[k] = c()
    return ps


def main():
    a = sys.argv[1:]
    props = load()
    if len(a) >= 2 and a[0] == 'replay':
        code, same = core.replay(a[1], props)
        return code
    if len(a) < 1 or a[0] not in props:
        print('usage: check <property> [quick|thorough [limit]] | check replay <file>')
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return core.check(props[a[0]], tier, props, int(a[2]) if len(a) > 2 else None)


if __name__ == '__main__':
    try:
        c = main()
    except KeyboardInterrupt:
        c = 3
    sys.stdout.flush()
    os._exit(c)
