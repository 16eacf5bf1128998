"""C09: objects held by shared pointers live exactly as long as an owner exists."""
import shared

LEVEL = 'model_checking'
BOUNDS = {'quick': 'two Python variables, one C++ holder that is also an attribute; every sequence of 3 operations and every edge of the '
                   'reachable model graph; both registries',
          'thorough': 'every sequence of 4 operations; again under AddressSanitizer'}
ASSUMPTIONS = ['overriding virtual methods of the shared-pointer class itself is outside: the generator has no support for it (it does not compile)']

VARIANTS = {
    'map': {},
    'null': {'registry': False},
    'sub': {'sub': True, 'virt': False},
    'subnull': {'sub': True, 'virt': False, 'registry': False},
}


def scenarios(tier):
    out = []
    th = tier == 'thorough'
    for n, v in sorted(VARIANTS.items()):
        v = dict(v, kind='sp')
        sub = v.get('sub', False)
        out.append(shared.scenario(n, v, (4 if th else 3) - sub, None if th or not sub else 150, shards=8 if th else 4, tags=sub))
        if th:
            out.append(shared.scenario(n + '_asan', v, 3, None, shards=4, tags=False, asan=True))
    return out
