"""C08: the count of a reference-counted C++ object is the number of its owners."""
import shared

LEVEL = 'model_checking'
BOUNDS = {'quick': 'two Python variables, one C++ holder; every sequence of 2 operations and 400 states\' edges of the model graph; '
                   'method and function policies, with and without peek function, both registries, Python subclasses',
          'thorough': 'every sequence of 3 operations and every edge of the reachable model graph; again under AddressSanitizer'}
ASSUMPTIONS = ['classes that are subclassed in Python and held by C++ declare their peekref function (the tutorial asks for it)',
               'an override that lends an object without giving a count keeps it alive itself (the generator warns)']

VARIANTS = {
    'meth': {},
    'methnull': {'registry': False},
    'nopeek': {'peekf': False},
    'func': {'functions': True},
    'sub': {'sub': True},
    'subnull': {'sub': True, 'registry': False},
    'subfunc': {'sub': True, 'functions': True},
    'subnovirt': {'sub': True, 'virt': False},
    'subnovirtnull': {'sub': True, 'virt': False, 'registry': False},
}


def scenarios(tier):
    out = []
    th = tier == 'thorough'
    for n, v in sorted(VARIANTS.items()):
        v = dict(v, kind='rc')
        out.append(shared.scenario(n, v, 3 if th else 2, None if th else 250, shards=8 if th else 1, tags=False))
        if th:
            out.append(shared.scenario(n + '_asan', v, 2, None, shards=4, tags=False, asan=True))
    return out
