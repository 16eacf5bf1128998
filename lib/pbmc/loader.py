import importlib.util
import os
import sys


def load_check(checkfile):
    d = os.path.dirname(os.path.abspath(checkfile))
    if d not in sys.path:
        sys.path.insert(0, d)
    spec = importlib.util.spec_from_file_location('check_under_run', checkfile)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def load_scenarios(checkfile, tier):
    m = load_check(checkfile)
    scs = {}
    for s in m.scenarios(tier):
        assert s.name not in scs, 'duplicate scenario ' + s.name
        scs[s.name] = s
    return scs
