"""python gen.py <check.py> <scenario> <tier> <workdir>: write the scenario's sources.

Runs with the tree under test on sys.path; prints a JSON line
[[modname, [sources], [cxxflags]], ...].
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    checkfile, name, tier, workdir = sys.argv[1:5]
    from pbmc.loader import load_scenarios
    from pbmc.scenario import REPO
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    sc = load_scenarios(checkfile, tier)[name]
    with open(os.path.join(workdir, sc.modname + '.h'), 'w') as f:
        f.write('#ifndef H_%s\n#define H_%s\n#include "pbmc.h"\n%s\n#endif\n' % (sc.name, sc.name, sc.header))
    if sc.build is not None:
        mods = sc.build(sc, workdir)
    else:
        mods = [default_build(sc, workdir)]
    sys.stdout.write('\n@@' + json.dumps(mods) + '\n')


def default_build(sc, workdir):
    import pybindgen
    from pybindgen import settings, Module, FileCodeSink
    for k, v in dict({'deprecated_virtuals': False}, **sc.settings).items():
        if k == 'wrapper_registry':
            from pybindgen import wrapper_registry
            v = getattr(wrapper_registry, v)
        setattr(settings, k, v)
    kw = {}
    if sc.cpp_namespace is not None:
        kw['cpp_namespace'] = sc.cpp_namespace
    mod = Module(sc.modname, **kw)
    mod.add_include('"%s.h"' % sc.modname)
    sc.gen(mod)
    path = os.path.join(workdir, sc.modname + '.cc')
    with open(path, 'w') as f:
        mod.generate(FileCodeSink(f))
    return [sc.modname, [path], []]


if __name__ == '__main__':
    main()
