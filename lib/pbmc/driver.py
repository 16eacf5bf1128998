"""python driver.py <spec.json>: import the built extension and explore it."""
import faulthandler
import importlib.util
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    from pbmc.loader import load_scenarios
    from pbmc.explore import Ctx, _Budget
    faulthandler.enable()
    import warnings
    warnings.simplefilter('ignore', DeprecationWarning)
    sc = load_scenarios(spec['check'], spec['tier'])[spec['scenario']]
    x = Ctx(spec['progress'], tier=spec['tier'], shard=spec['shard'], shards=spec['shards'],
            only=spec.get('only'), skip=spec.get('skip', ()), so=spec.get('so'))
    x.workdir = spec['workdir']
    x.mods = spec.get('mods')
    sys.path.insert(0, spec['workdir'])
    M = None
    if spec.get('so') and spec.get('autoimport', True):
        M = importlib.import_module(sc.modname)
    try:
        sc.explore(M, x)
    except _Budget:
        pass
    except BaseException as e:
        x.fail('driver stopped by %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    with open(spec['out'] + '.tmp', 'w') as f:
        json.dump(x.result(), f)
    os.rename(spec['out'] + '.tmp', spec['out'])
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
