"""C21: enumerations expose every value where declared and convert both ways."""
import itertools
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('every enumeration of the table in every place it can be declared in, through every way of passing; values: every enumerator, what lies between and '
        'next to them, the limits of the underlying type and what is beyond, and objects that are no numbers')
BOUNDS = {'quick': 'ten enumerations (unscoped, scoped, each width and signedness of the underlying type) x five places x fourteen ways of passing x all values; '
                   'every pair of calls with every pair of values for the ways that keep state',
          'thorough': 'the same, with every value of the 8-bit enumerations and under AddressSanitizer'}
ASSUMPTIONS = ['an enumeration without a fixed underlying type has the one gcc gives it']

# name: (declaration after "enum", values, (lo, hi), scoped)
ENUMS = {
    'Plain': ('Plain', [('A', 0), ('B', 1), ('C', 2)], (-2 ** 31, 2 ** 31 - 1), False),
    'Neg': ('Neg', [('A', -5), ('B', 7), ('C', 1000000), ('D', -2 ** 31)], (-2 ** 31, 2 ** 31 - 1), False),
    'Big': ('Big', [('A', 0), ('B', 2 ** 31), ('C', 2 ** 32 - 1)], (0, 2 ** 32 - 1), False),
    'Wide': ('Wide', [('A', -1), ('B', 2 ** 40), ('C', -2 ** 62)], (-2 ** 63, 2 ** 63 - 1), False),
    'U8': ('U8 : unsigned char', [('A', 0), ('B', 200), ('C', 255)], (0, 255), False),
    'S8': ('S8 : signed char', [('A', -128), ('B', 5), ('C', 127)], (-128, 127), False),
    'S16': ('S16 : short', [('A', -32768), ('B', 5), ('C', 32767)], (-32768, 32767), False),
    'U64': ('U64 : unsigned long long', [('A', 0), ('B', 2 ** 63 - 1), ('C', 17)], (0, 2 ** 63 - 1), False),
    'Sc': ('class Sc', [('A', 3), ('B', -4), ('C', 1 << 20)], (-2 ** 31, 2 ** 31 - 1), True),
    'Sc8': ('class Sc8 : unsigned char', [('A', 3), ('B', 254), ('C', 0)], (0, 255), True),
}
PLACES = ['', 'ns', 'ns::in', 'Cls', 'ns::Cls']


def lit(v):
    return '(-9223372036854775807LL-1)' if v == -2 ** 63 else '(-%dLL)' % -v if v < 0 else '%dLL' % v


def decl(n, place):
    d, vals, rng, scoped = ENUMS[n]
    items = ', '.join('%s%s = %s' % (n + '_', v, lit(c) if abs(c) >= 2 ** 31 else c) for v, c in vals)
    if n == 'Big':
        items = items.replace('LL', 'U')
    if n == 'Neg':
        items = items.replace('(-2147483648LL)', '(-2147483647 - 1)')
    return 'enum %s { %s };' % (d, items)


# the value C++ arithmetic sees: an enumeration of small values is promoted to int
NUM = r'''
template <class E> inline long long num(E v) { return sizeof(E) == sizeof(int) && (E) -1 < (E) 0 ? (long long) (int) v : (long long) v; }
'''
FUNCS = r'''
namespace f_N {
typedef Q T;
inline long long &last() { static long long v; return v; }
inline void in(T v) { last() = num(v); }
inline void cref(T const &v) { last() = num(v); }
inline void dflt(int n, T v = DV) { last() = num(v); }
inline void ptr(T const *v) { last() = num(*v); }
inline T ret() { return (T) last(); }
inline T echo(T v) { return v; }
inline void out(T &v) { v = (T) last(); }
inline void outp(T *v) { *v = (T) last(); }
inline void io(T &v) { T o = (T) last(); last() = num(v); v = o; }
inline void iop(T *v) { T o = (T) last(); last() = num(*v); *v = o; }
inline int two(T a, int n, T b) { last() = num(a) * 3 + n + num(b); return n; }
inline std::vector< T > vec(std::vector< T > const &v) { last() = v.empty() ? 0 : num(v[0]); return v; }
inline long long peek() { return last(); }
inline void poke(long long v) { last() = v; }
struct H { T a; int guard; static T s; H() : a(DV), guard(0x5a5a5a5a) {} virtual ~H() {}
    virtual T v(T x) { return x; }
    virtual T p() { return DV; }
    virtual void o(T &x) { x = DV; }
    virtual void io(T &x) {} };
inline long long call_v(H *h, long long x) { return num(h->v((T) x)); }
inline long long call_p(H *h) { return num(h->p()); }
inline long long call_o(H *h, long long x) { T t = (T) x; h->o(t); return num(t); }
inline long long call_io(H *h, long long x) { T t = (T) x; h->io(t); return num(t); }
inline int guard(H *h) { return h->guard == 0x5a5a5a5a; }
inline void seta(H *h, long long v) { h->a = (T) v; }
inline void sets(long long v) { H::s = (T) v; }
}
'''


def qual(n, place):
    return (place + '::' if place else '') + n


def value(n, place, v):
    d, vals, rng, scoped = ENUMS[n]
    return (place + '::' if place else '') + (n + '::' if scoped else '') + n + '_' + v


def header(names, place):
    body = '\n'.join(decl(n, place) for n in names)
    anon = 'enum { %s_X = 11, %s_Y = -12 };' % (('P' if place else 'G',) * 2)
    body += '\n' + anon
    parts = place.split('::') if place else []
    if parts and parts[-1] == 'Cls':
        body = 'struct Cls {\n%s\n};' % body
        parts.pop()
    for p in reversed(parts):
        body = 'namespace %s {\n%s\n}' % (p, body)
    out = ['#include <vector>', NUM, body]
    for n in names:
        out.append(FUNCS.replace('f_N', 'f_' + n).replace('Q T', qual(n, place) + ' T').replace('DV', value(n, place, 'B')))
        out.append('T f_N::H::s;'.replace('T f_N', 'f_%s::T f_%s' % (n, n)))
    return '\n'.join(out)


def make_gen(names, place, style):
    def gen(mod):
        from pybindgen import param, retval
        scope = mod
        path = []
        for p in (place.split('::') if place else []):
            if p == 'Cls':
                scope = scope.add_class('Cls')
            else:
                scope = scope.add_cpp_namespace(p)
        for n in names:
            d, vals, rng, scoped = ENUMS[n]
            if style == 'tuple':
                items = [(n + '_' + v, value(n, place, v)) for v, c in vals]
                e = scope.add_enum(n, items)
            elif scoped:
                e = scope.add_enum(n, [n + '_' + v for v, c in vals], values_prefix=n + '::')
            elif style == 'prefix':
                e = scope.add_enum(n, [n[1:] + '_' + v for v, c in vals], values_prefix=n[0])
            else:
                e = scope.add_enum(n, [n + '_' + v for v, c in vals])
            q = qual(n, place)
            ns = 'f_' + n
            f = mod.add_cpp_namespace(ns)
            for spell, fn in ((q, 'in'), (q + ' const &', 'cref')):
                f.add_function(fn, None, [param(spell, 'v')])
            f.add_function('dflt', None, [param('int', 'n'), param(q, 'v', default_value=value(n, place, 'B'))])
            f.add_function('ptr', None, [param('const %s *' % q, 'v', direction=1)])
            f.add_function('ret', q, [])
            f.add_function('echo', retval(q), [param(q, 'v')])
            for fn, t, dr in (('out', ' &', 2), ('outp', ' *', 2), ('io', ' &', 3), ('iop', ' *', 3)):
                f.add_function(fn, None, [param(q + t, 'v', direction=dr)])
            f.add_function('two', 'int', [param(q, 'a'), param('int', 'n'), param(q, 'b')])
            f.add_container('std::vector< %s >' % q, q, 'vector')
            f.add_function('vec', 'std::vector< %s >' % q, [param('std::vector< %s > const &' % q, 'v')])
            f.add_function('peek', 'long long', [])
            f.add_function('poke', None, [param('long long', 'v')])
            H = f.add_class('H', allow_subclassing=True)
            H.add_constructor([])
            H.add_instance_attribute('a', q)
            H.add_static_attribute('s', q)
            H.add_method('v', q, [param(q, 'x')], is_virtual=True)
            H.add_method('p', q, [], is_virtual=True)
            H.add_method('o', None, [param(q + ' &', 'x', direction=2)], is_virtual=True)
            H.add_method('io', None, [param(q + ' &', 'x', direction=3)], is_virtual=True)
            hp = param('f_%s::H *' % n, 'h', transfer_ownership=False)
            for fn, ret, more in (('call_v', 'long long', ['long long']), ('call_p', 'long long', []), ('call_o', 'long long', ['long long']),
                                  ('call_io', 'long long', ['long long']), ('guard', 'int', []), ('seta', None, ['long long'])):
                f.add_function(fn, ret, [param('f_%s::H *' % n, 'h', transfer_ownership=False)] + [param(t, 'x') for t in more])
            f.add_function('sets', None, [param('long long', 'v')])
        pre = 'P' if place else 'G'
        scope.add_enum('', [pre + '_X', pre + '_Y'])
    return gen


def outcome(f, *args):
    try:
        return ('ok', f(*args))
    except (TypeError, ValueError, OverflowError) as e:
        return ('exc', type(e).__name__)


def values(n, thorough):
    d, vals, (lo, hi), scoped = ENUMS[n]
    good = {c for v, c in vals} | {lo, hi, min(hi, 1), min(hi, 100), max(lo, -1)}
    for c in list(good):
        good |= {c + 1, c - 1}
    if thorough and hi - lo < 300:
        good |= set(range(lo, hi + 1))
    good = sorted(c for c in good if lo <= c <= hi)
    bad = [lo - 1, lo - 2, hi + 1, hi + 256, 2 * hi + 7, lo - 2 ** 33, 2 ** 63, -2 ** 63 - 1, 2 ** 64, 2 ** 64 + 1]
    bad = [b for b in bad if not lo <= b <= hi and not (n == 'U64' and 0 <= b < 2 ** 64)]
    return good, bad + ['x', None, 1.0, b'1', [], (1,), {}]


def explore_enum(M, x, n, place, style, thorough):
    d, vals, rng, scoped = ENUMS[n]
    scope = M
    for p in (place.split('::') if place else []):
        scope = getattr(scope, p)
    tag = '%s in %s' % (n, place or 'module')
    for v, c in vals:
        name = n[style == 'prefix' and not scoped:] + '_' + v
        x.case('%s: %s' % (tag, name))
        x.step()
        x.eq(getattr(scope, name, None), c, 'constant')
        x.check(type(getattr(scope, name, None)) is int, 'constant is an int')
        x.eq(name in vars(scope), True, 'declared in its scope')
        if scope is not M:
            x.eq(hasattr(M, name), False, 'not in the module')
    pre = 'P' if place else 'G'
    x.case('%s: anonymous' % tag)
    x.eq((getattr(scope, pre + '_X', None), getattr(scope, pre + '_Y', None)), (11, -12), 'constants')

    f = getattr(M, 'f_' + n)
    good, bad = values(n, thorough)
    cdef = dict(vals)['B']
    h = f.H()

    class P(f.H):
        def v(self, a):
            self.seen = a
            return self.give

        def p(self):
            return self.give
        o = p

        def io(self, a):
            self.seen = a
            return self.give
    ph = P()
    f.poke(0)

    def checked(key, got, want=None):
        x.eq(got, ('ok', want), key)

    for c in good:
        x.case('%s: %d' % (tag, c))
        x.step(22)
        other = good[(good.index(c) + 3) % len(good)]
        for fn, args in (('in', (c,)), ('cref', (c,)), ('dflt', (5, c)), ('ptr', (c,))):
            f.poke(0)
            checked(fn, outcome(getattr(f, fn), *args))
            x.eq(f.peek(), c, fn + ': what C++ got')
        f.poke(0)
        kw = {'v': c}
        checked('keyword', outcome(lambda: getattr(f, 'in')(**kw)))
        x.eq(f.peek(), c, 'keyword: what C++ got')
        f.poke(c)
        checked('ret', outcome(f.ret), c)
        checked('out', outcome(f.out), c)
        checked('outp', outcome(f.outp), c)
        x.check(type(f.ret()) is int and type(f.out()) is int, 'an int comes back')
        checked('echo', outcome(f.echo, c), c)
        for fn in ('io', 'iop'):
            f.poke(other)
            checked(fn, outcome(getattr(f, fn), c), other)
            x.eq(f.peek(), c, fn + ': what C++ got')
        if abs(c) < 2 ** 60 and abs(other) < 2 ** 60:
            checked('two', outcome(f.two, c, 7, other), 7)
            x.eq(f.peek(), c * 3 + 7 + other, 'two: what C++ got')
        checked('vec', outcome(lambda: list(f.vec([c, other, c]))), [c, other, c])
        x.eq(f.peek(), c, 'vec: what C++ got')
        # attributes
        h.a = c
        checked('attribute', outcome(lambda: h.a), c)
        f.seta(h, other)
        checked('attribute set by C++', outcome(lambda: h.a), other)
        f.H.s = c
        checked('static attribute', outcome(lambda: f.H.s), c)
        f.sets(other)
        checked('static attribute set by C++', outcome(lambda: f.H.s), other)
        x.eq(f.guard(h), 1, 'the member behind it')
        # overrides
        ph.give = other
        ph.seen = None
        checked('override', outcome(f.call_v, ph, c), other)
        x.eq(ph.seen, c, 'what the override got')
        checked('override result', outcome(f.call_p, ph), other)
        checked('override out', outcome(f.call_o, ph, c), other)
        ph.seen = None
        checked('override in and out', outcome(f.call_io, ph, c), other)
        x.eq(ph.seen, c, 'what the override got')
        checked('virtual', outcome(f.call_v, h, c), c)
        x.eq(h.v(c), c, 'method')
        x.eq((h.o(), h.io(c)), (cdef, c), 'out methods')
    x.case('%s: default' % tag)
    f.poke(0)
    checked('dflt', outcome(f.dflt, 5))
    x.eq(f.peek(), cdef, 'the default')
    x.eq(h.p(), cdef, 'virtual')
    if good:
        x.eq(outcome(getattr(f, 'in'), True), ('ok', None), 'True') if rng[0] <= 1 <= rng[1] else None
        x.eq(f.peek(), 1, 'True')
    import sys
    hook = sys.excepthook
    reported = []
    sys.excepthook = lambda t, v, tb: reported.append(t)
    for b in bad:
        x.case('%s: %r' % (tag, b))
        x.step(12)
        f.poke(good[0])
        h.a = good[-1]
        f.H.s = good[-1]
        for fn, args in (('in', (b,)), ('cref', (b,)), ('dflt', (5, b)), ('ptr', (b,)), ('echo', (b,)), ('io', (b,)), ('iop', (b,)), ('vec', ([b],)),
                         ('vec', ([good[-1], b],)), ('two', (b, 1, good[0])), ('two', (good[0], 1, b)), ('in', ()), ('in', (good[0], good[0]))):
            got = outcome(getattr(f, fn), *args)
            x.check(got[0] == 'exc', '%s accepted: %r' % (fn, got))
            x.eq(f.peek(), good[0], '%s: C++ was run' % fn)
        for what, fn in (('attribute', lambda: setattr(h, 'a', b)), ('static attribute', lambda: setattr(f.H, 's', b))):
            got = outcome(fn)
            x.check(got[0] == 'exc', '%s accepted: %r' % (what, got))
        x.eq((h.a, f.H.s, f.guard(h)), (good[-1], good[-1], 1), 'attributes afterwards')
        # an override's result that is none is reported
        ph.give = b
        for fn, args in (('call_v', (ph, good[0])), ('call_p', (ph,)), ('call_o', (ph, good[0])), ('call_io', (ph, good[0]))):
            del reported[:]
            got = outcome(getattr(f, fn), *args)
            x.check(got[0] == 'exc' or len(reported) == 1, '%s: override result accepted: %r' % (fn, got))
    sys.excepthook = hook
    sys.last_exc = sys.last_value = sys.last_traceback = sys.last_type = None


def make_explore(names, place, style, thorough):
    def explore(M, x):
        for n in names:
            x.state((n, place, style))
            explore_enum(M, x, n, place, style, thorough)
    return explore


def scenarios(tier):
    thorough = tier == 'thorough'
    out = []
    names = sorted(ENUMS)
    for i, place in enumerate(PLACES):
        for j, style in enumerate(('names', 'tuple', 'prefix')):
            if not thorough and (i + j) % 3 == 2 and i not in (0, 3):
                continue
            for half in (names[:5], names[5:]):
                out.append(Scenario('enum_%d_%s_%d' % (i, style, half is not names and names.index(half[0])), header(half, place), make_gen(half, place, style),
                                    make_explore(half, place, style, thorough), asan=thorough and j == 0))
    return out
