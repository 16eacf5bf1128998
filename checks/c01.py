"""C01: forward conversion of numbers, every type x passing mode x boundary value."""
from pbmc import Scenario
import nums

LEVEL = 'exploration'
RULE = ('every (type spelling, passing mode, value) of the table; a case is one wrapped function with its whole value '
        'lattice; distinct_nontrivial counts distinct (function, value) pairs whose outcome was compared')
BOUNDS = {'quick': 'full boundary lattice (8-bit types: every value)', 'thorough': 'also every 16-bit value'}
ASSUMPTIONS = ['x86-64 Linux, CPython 3.12: sizes of C types as there']

PRELUDE = r'''
#include <stdint.h>
#include <stdio.h>
PBMC_C char *pbmc_last(); PBMC_C char *pbmc_last() { static char b[4096]; return b; }
static inline void rec1(long long v) { sprintf(pbmc_last() + strlen(pbmc_last()), "%lld ", v); }
static inline void rec1(unsigned long long v) { sprintf(pbmc_last() + strlen(pbmc_last()), "%llu ", v); }
static inline void rec1(double v) { sprintf(pbmc_last() + strlen(pbmc_last()), "%a ", v); }
static inline void rec(signed char v) { rec1((long long) v); }
static inline void rec(unsigned char v) { rec1((long long) v); }
static inline void rec(short v) { rec1((long long) v); }
static inline void rec(unsigned short v) { rec1((long long) v); }
static inline void rec(int v) { rec1((long long) v); }
static inline void rec(unsigned v) { rec1((long long) v); }
static inline void rec(long v) { rec1((long long) v); }
static inline void rec(long long v) { rec1((long long) v); }
static inline void rec(unsigned long v) { rec1((unsigned long long) v); }
static inline void rec(unsigned long long v) { rec1((unsigned long long) v); }
static inline void rec(bool v) { rec1((long long) v); }
static inline void rec(double v) { rec1(v); }
static inline void rec(float v) { rec1((double) v); }
#define CALLED() (pbmc_get()->calls++, pbmc_last()[0] = 0)
'''


class F(object):
    """One wrapped function: C++ text, registration, and how to exercise it."""

    def __init__(self, name, text, ret, params, kind, rng, t):
        self.__dict__.update(name=name, text=text, ret=ret, params=params, kind=kind, rng=rng, t=t)


def ctable(t, rng):
    """values C++ returns / writes for this type"""
    if t == 'bool':
        return [True, False], ['true', 'false']
    if t in ('float', 'double'):
        vals = [v for v in nums.FLOATS if t == 'double' or v != v or nums.f32_ok(v)]
        txt = []
        for v in vals:
            txt.append('__builtin_nan("")' if v != v else '__builtin_inf()' if v == float('inf')
                       else '-__builtin_inf()' if v == float('-inf') else v.hex())
        return vals, txt
    vals = [v for v in nums.lattice(rng) if nums.inside(rng, v)]
    if len(vals) > 80:
        vals = vals[:20] + vals[20:-20:7] + vals[-20:]
    txt = []
    for v in vals:
        if v == -2**63:
            txt.append('(-9223372036854775807LL-1)')
        else:
            txt.append('%d%s' % (v, 'ULL' if v > 2**63 - 1 else 'LL'))
    return vals, txt


def _f32_ok(v):
    try:
        return nums.f32(v) == v
    except OverflowError:
        return False


nums.f32_ok = _f32_ok


def make(tag, t, rng, forms, rett=None):
    fs = []
    rett = rett or t
    vals, txt = ctable(t, rng)
    tab = 'static const %s tab_%s[] = {%s};\n' % (t, tag, ', '.join('(%s) %s' % (t, v) if ' ' not in t else '(%s)(%s)' % (t, v) for v in txt))
    flip = {'bool': '!x', 'float': '-x', 'double': '-x'}.get(t, '(%s)(~(unsigned long long) x)' % t)

    def add(kind, text, ret, params):
        n = 'f_%s_%d' % (tag, len(fs))
        fs.append(F(n, text.replace('NAME', n), ret, params, kind, rng, t))

    for form in forms.split():
        if form in 'vV':
            ct = t if form == 'v' else 'const ' + t
            add('echo', 'static inline %s NAME(%s x) { CALLED(); rec(x); return x; }' % (rett, ct), rett, [(ct, 'x', None)])
        elif form in 'rR':
            ct = t if form == 'r' else 'const ' + t
            add('ret', 'static inline %s NAME(int i) { CALLED(); return tab_%s[i]; }' % (ct, tag), ct, [('int', 'i', None)])
        elif form == 'c':
            add('echo', 'static inline %s NAME(%s const &x) { CALLED(); rec(x); return x; }' % (rett, t), rett, [('%s const &' % t, 'x', None)])
            add('echo', 'static inline %s NAME(const %s &x) { CALLED(); rec(x); return x; }' % (rett, t), rett, [('const %s&' % t, 'x', None)])
        elif form == 'p':
            add('echo', 'static inline %s NAME(const %s *x) { CALLED(); rec(*x); return *x; }' % (rett, t), rett, [('const %s *' % t, 'x', 1)])
        elif form in ('&i', '*i'):
            d = '*' if form == '*i' else ''
            add('echo', 'static inline %s NAME(%s %s x) { CALLED(); rec(%sx); return %sx; }' % (rett, t, form[0], d, d), rett, [('%s%s' % (t, form[0]), 'x', 1)])
        elif form in ('&o', '*o'):
            d = '*' if form == '*o' else ''
            add('ret', 'static inline void NAME(int i, %s %s x) { CALLED(); %sx = tab_%s[i]; }' % (t, form[0], d, tag), 'void', [('int', 'i', None), ('%s%s' % (t, form[0]), 'x', 2)])
        elif form in ('&b', '*b'):
            d = '*' if form == '*b' else ''
            add('flip', 'static inline void NAME(%s %s y) { CALLED(); rec(%sy); %s x = %sy; %sy = %s; }' % (t, form[0], d, t, d, d, flip), 'void', [('%s%s' % (t, form[0]), 'y', 3)])
    return tab + '\n'.join(f.text for f in fs), fs, vals


GROUPS = {}


def _groups():
    if GROUPS:
        return GROUPS
    rows = [(t, r, f, None) for t, r, f in nums.INTS] + list(nums.INTS_PARAM_ONLY) + [(t, r, f, None) for t, r, f in nums.OTHERS]
    for i, (t, rng, forms, rett) in enumerate(rows):
        g = GROUPS.setdefault('g%d' % (i % 10), [])
        g.append(('t%d' % i, t, rng) + make('t%d' % i, t, rng, forms, rett))
    return GROUPS


class Bad(object):
    pass


class Index(object):
    def __init__(self, v):
        self.v = v

    def __index__(self):
        return self.v


class BadBool(object):
    def __bool__(self):
        raise ZeroDivisionError


class Floaty(object):
    def __float__(self):
        return 2.5


def outcome(fn, *a):
    try:
        return ('ok', fn(*a))
    except Exception as e:
        return ('exc', e)


def explore_group(group):
    def explore(M, x):
        import ctypes
        lib = x.clib()
        lib.pbmc_last.restype = ctypes.c_char_p
        lib.pbmc_calls.restype = ctypes.c_long

        def same(a, b):
            if type(a) is not type(b):
                return False
            if a != a:
                return b != b
            return a == b and str(a) == str(b)

        def reject(f, v, why):
            c = lib.pbmc_calls()
            r = outcome(getattr(M, f.name), v)
            x.state((f.name, repr(v)))
            x.step()
            if r[0] != 'exc':
                x.fail('%s of type %s, form %r: %s %r accepted, returned %r' % (f.name, f.t, f.params, why, v, r[1]))
            elif lib.pbmc_calls() != c:
                x.fail('%s: C++ function ran although %s %r was rejected' % (f.name, why, v))
            elif not isinstance(r[1], (TypeError, ValueError, OverflowError, ZeroDivisionError)):
                x.fail('%s: %s %r raised %r' % (f.name, why, v, r[1]))

        def accept(f, v, want_rec, want):
            c = lib.pbmc_calls()
            r = outcome(getattr(M, f.name), v)
            x.state((f.name, repr(v)))
            x.step()
            if r[0] == 'exc':
                x.fail('%s of type %s, form %r: value %r rejected: %r' % (f.name, f.t, f.params, v, r[1]))
                return
            if lib.pbmc_calls() != c + 1:
                x.fail('%s: C++ function ran %d times' % (f.name, lib.pbmc_calls() - c))
            if want_rec is not None:
                got = lib.pbmc_last().decode().strip()
                if got != want_rec:
                    x.fail('%s of type %s, form %r: passed %r, C++ received %s' % (f.name, f.t, f.params, v, got))
            if not same(r[1], want):
                x.fail('%s of type %s, form %r: argument %r gave %r, expected %r' % (f.name, f.t, f.params, v, r[1], want))

        for tag, t, rng, text, fs, tab in group:
            for f in fs:
                if not x.case('%s %s %s %s' % (t, f.kind, f.params[-1][0], f.params[-1][2])):
                    continue
                if f.kind == 'ret':
                    for i, v in enumerate(tab):
                        accept(f, i, None, v)
                    continue
                if rng is not None:
                    for v in nums.lattice(rng, x.thorough):
                        if nums.inside(rng, v):
                            accept(f, v, str(v), v if f.kind == 'echo' else (-v - 1 if rng[0] < 0 else rng[1] - v))
                        elif nums.strict(rng):
                            reject(f, v, 'out of range')
                    for b in (None, 'a', '1', b'a', [], (), [1], Bad(), 1.5, 1.0, {}, int, 1j):
                        reject(f, b, 'non-number')
                    accept(f, True, '1', 1 if f.kind == 'echo' else (-2 if rng[0] < 0 else rng[1] - 1))
                    if outcome(getattr(M, f.name), Index(7))[0] == 'ok':    # some conversions insist on int
                        accept(f, Index(7), '7', 7 if f.kind == 'echo' else (-8 if rng[0] < 0 else rng[1] - 7))
                elif t == 'bool':
                    for v, w in ((True, True), (False, False), (0, False), (1, True), (-1, True), ([], False), ([0], True),
                                 ('', False), ('0', True), (None, False), (2**70, True), (0.0, False), (256, True), (Bad(), True)):
                        accept(f, v, str(int(w)), w if f.kind == 'echo' else not w)
                    reject(f, BadBool(), 'object without truth value')
                else:
                    for v in nums.FLOATS:
                        if t == 'double' or v != v or nums.f32_ok(v):
                            h = '%s' % ('nan' if v != v else 'inf' if v == float('inf') else '-inf' if v == float('-inf') else None)
                            accept(f, v, h if h != 'None' else cfmt(v), v if f.kind == 'echo' else -v)
                    for v in (0, 1, -7, 2**20, True):
                        accept(f, v, cfmt(float(v)), float(v) if f.kind == 'echo' else -float(v))
                    accept(f, Floaty(), cfmt(2.5), 2.5 if f.kind == 'echo' else -2.5)
                    for b in (None, 'a', '1.5', b'a', [], (), Bad(), {}, float, 1j):
                        reject(f, b, 'non-number')
    return explore


def cfmt(v):
    import ctypes
    libc = ctypes.CDLL(None)
    b = ctypes.create_string_buffer(64)
    libc.snprintf(b, 64, b'%a', ctypes.c_double(v))
    return b.value.decode()


# fixed-length arrays
ARRAYS = r'''
static inline int arr_f_in(const float *a) { CALLED(); for (int i = 0; i < 3; i++) rec(a[i]); return 3; }
static inline void arr_f_out(float *a) { CALLED(); a[0] = 1.5f; a[1] = -0.25f; a[2] = 1e30f; }
static inline void arr_f_io(float *a) { CALLED(); for (int i = 0; i < 3; i++) { rec(a[i]); a[i] = -a[i]; } }
static inline int arr_u_in(const unsigned int *a) { CALLED(); for (int i = 0; i < 3; i++) rec(a[i]); return 3; }
static inline void arr_u_out(unsigned int *a) { CALLED(); a[0] = 0; a[1] = 0xffffffffu; a[2] = 0x80000000u; }
static inline void arr_u_io(unsigned int *a) { CALLED(); for (int i = 0; i < 3; i++) { rec(a[i]); a[i] = ~a[i]; } }
'''


def gen_arrays(mod):
    from pybindgen import param, retval, Parameter
    for t, k in (('float', 'f'), ('unsigned int', 'u')):
        mod.add_function('arr_%s_in' % k, retval('int'), [param('const %s *' % t, 'a', direction=Parameter.DIRECTION_IN, array_length=3)])
        mod.add_function('arr_%s_out' % k, None, [param('%s*' % t, 'a', direction=Parameter.DIRECTION_OUT, array_length=3)])
        mod.add_function('arr_%s_io' % k, None, [param('%s*' % t, 'a', direction=Parameter.DIRECTION_INOUT, array_length=3)])


def explore_arrays(M, x):
    import ctypes
    import itertools
    lib = x.clib()
    lib.pbmc_last.restype = ctypes.c_char_p
    pools = {'f': ([0.0, -1.5, 2.0**127], [None, 'a', []]), 'u': ([0, 1, 2**31, 2**32 - 1], [None, 'a', [], 1.5])}
    for k, (good, bad) in pools.items():
        fmt = cfmt if k == 'f' else str
        neg = (lambda v: -v) if k == 'f' else (lambda v: 2**32 - 1 - v)
        for d in ('in', 'io'):
            fn = getattr(M, 'arr_%s_%s' % (k, d))
            for n in range(0, 5):
                for vals in itertools.product(good, repeat=n):
                    if not x.case('array %s %s %r' % (k, d, vals)):
                        continue
                    c = lib.pbmc_calls()
                    src = list(vals)
                    r = outcome(fn, src)
                    x.state((k, d, vals))
                    x.step()
                    x.check(src == list(vals), 'argument list changed to %r' % src)
                    if n != 3:
                        x.check(r[0] == 'exc' and lib.pbmc_calls() == c, 'list of %d elements: %r' % (n, r))
                    else:
                        x.check(r[0] == 'ok', 'rejected %r' % (r,))
                        x.eq(lib.pbmc_last().decode().split(), [fmt(v) for v in vals], 'C++ received')
                        if r[0] == 'ok':
                            x.eq(r[1], 3 if d == 'in' else [neg(v) for v in vals], 'result')
            for pos in range(3):
                for b in bad:
                    if not x.case('array %s %s bad %r at %d' % (k, d, b, pos)):
                        continue
                    vals = [good[1]] * 3
                    vals[pos] = b
                    c = lib.pbmc_calls()
                    r = outcome(fn, vals)
                    x.state((k, d, pos, repr(b)))
                    x.step()
                    x.check(r[0] == 'exc' and isinstance(r[1], (TypeError, ValueError, OverflowError)), 'bad element: %r' % (r,))
                    x.check(lib.pbmc_calls() == c, 'ran in spite of the bad element')
            for notlist in (None, 1, 'abc', (1, 2, 3), {}):
                if x.case('array %s %s nonlist %r' % (k, d, notlist)):
                    r = outcome(fn, notlist)
                    x.state((k, d, repr(notlist)))
                    x.check(r[0] == 'exc', 'accepted: %r' % (r,))
        if x.case('array %s out' % k):
            x.state((k, 'out'))
            x.eq(getattr(M, 'arr_%s_out' % k)(), [1.5, -0.25, nums.f32(1e30)] if k == 'f' else [0, 2**32 - 1, 2**31], 'out array')


def scenarios(tier):
    out = []
    for g, rows in sorted(_groups().items()):
        header = PRELUDE + '\n'.join(r[3] for r in rows)

        def gen(mod, rows=rows):
            from pybindgen import param, retval, Parameter
            for tag, t, rng, text, fs, tab in rows:
                for f in fs:
                    ps = []
                    for ct, n, d in f.params:
                        ps.append(param(ct, n) if d is None else param(ct, n, direction=d))
                    mod.add_function(f.name, retval(f.ret), ps)
        out.append(Scenario('num_' + g, header, gen, explore_group(rows)))
    out.append(Scenario('num_arrays', PRELUDE + ARRAYS, gen_arrays, explore_arrays))
    return out
