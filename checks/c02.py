"""C02: numbers crossing into Python overrides and back, every type x direction x boundary value."""
from pbmc import Scenario
import nums
import c01

LEVEL = 'exploration'
RULE = ('every (type spelling, direction, value) of the table; a case is one virtual method with its whole value '
        'lattice; distinct_nontrivial counts distinct (method, value) pairs whose outcome was compared')
BOUNDS = c01.BOUNDS
ASSUMPTIONS = c01.ASSUMPTIONS + ['an error in an override counts as reported when sys.excepthook ran or the call raised']


def rows():
    out = []
    for i, (t, rng, forms) in enumerate(nums.INTS + nums.OTHERS):
        if 'v' in forms.split():
            out.append(('t%d' % i, t, rng, forms.split()))
    return out


def header(group):
    h = [c01.PRELUDE, '#define NOCALL() (pbmc_last()[0] = 0)']
    body, calls = [], []
    for tag, t, rng, forms in group:
        vals, txt = c01.ctable(t, rng)
        h.append('static const %s tab_%s[] = {%s};' % (t, tag, ', '.join('(%s)(%s)' % (t, v) for v in txt)))
        k = {'t': t, 'g': tag}
        body.append('  virtual %(t)s m_%(g)s(%(t)s x) { pbmc_get()->calls++; return tab_%(g)s[0]; }' % k)
        calls.append('''static inline void arg_%(g)s(V &v, int i) { NOCALL(); v.m_%(g)s(tab_%(g)s[i]); }
static inline void ret_%(g)s(V &v) { NOCALL(); %(t)s r = v.m_%(g)s(tab_%(g)s[1]); rec(r); }''' % k)
        if 'V' in forms:
            body.append('  virtual void c_%(g)s(const %(t)s x) { pbmc_get()->calls++; }' % k)
            calls.append('static inline void carg_%(g)s(V &v, int i) { NOCALL(); v.c_%(g)s(tab_%(g)s[i]); }' % k)
        if 'c' in forms:
            body.append('  virtual void k_%(g)s(const %(t)s &x) { pbmc_get()->calls++; }' % k)
            calls.append('static inline void karg_%(g)s(V &v, int i) { NOCALL(); v.k_%(g)s(tab_%(g)s[i]); }' % k)
        for r, n in (('&', 'r'), ('*', 'p')):
            kk = dict(k, r=r, n=n, a='&' if r == '*' else '')
            if r + 'o' in forms:
                body.append('  virtual void o%(n)s_%(g)s(%(t)s %(r)sx) { pbmc_get()->calls++; }' % kk)
                calls.append('static inline void out%(n)s_%(g)s(V &v) { NOCALL(); %(t)s x = tab_%(g)s[1]; v.o%(n)s_%(g)s(%(a)sx); rec(x); }' % kk)
            if r + 'b' in forms:
                body.append('  virtual void b%(n)s_%(g)s(%(t)s %(r)sx) { pbmc_get()->calls++; }' % kk)
                calls.append('static inline void io%(n)s_%(g)s(V &v, int i) { NOCALL(); %(t)s x = tab_%(g)s[i]; v.b%(n)s_%(g)s(%(a)sx); rec(x); }' % kk)
    h.append('class V { public: V() {} V(V const &) {} virtual ~V() {}\n%s\n};' % '\n'.join(body))
    return '\n'.join(h + calls)


def gen_group(group):
    def gen(mod):
        from pybindgen import param, retval, Parameter
        V = mod.add_class('V', allow_subclassing=True)
        V.add_constructor([])
        for tag, t, rng, forms in group:
            vp = param('V&', 'v')
            V.add_method('m_' + tag, retval(t), [param(t, 'x')], is_virtual=True)
            mod.add_function('arg_' + tag, None, [vp, param('int', 'i')])
            mod.add_function('ret_' + tag, None, [vp])
            if 'V' in forms:
                V.add_method('c_' + tag, None, [param('const ' + t, 'x')], is_virtual=True)
                mod.add_function('carg_' + tag, None, [vp, param('int', 'i')])
            if 'c' in forms:
                V.add_method('k_' + tag, None, [param('const %s &' % t, 'x')], is_virtual=True)
                mod.add_function('karg_' + tag, None, [vp, param('int', 'i')])
            for r, n in (('&', 'r'), ('*', 'p')):
                if r + 'o' in forms:
                    V.add_method('o%s_%s' % (n, tag), None, [param('%s %s' % (t, r), 'x', direction=Parameter.DIRECTION_OUT)], is_virtual=True)
                    mod.add_function('out%s_%s' % (n, tag), None, [vp])
                if r + 'b' in forms:
                    V.add_method('b%s_%s' % (n, tag), None, [param('%s %s' % (t, r), 'x', direction=Parameter.DIRECTION_INOUT)], is_virtual=True)
                    mod.add_function('io%s_%s' % (n, tag), None, [vp, param('int', 'i')])
    return gen


def explore_group(group):
    def explore(M, x):
        import ctypes
        import sys
        lib = x.clib()
        lib.pbmc_last.restype = ctypes.c_char_p
        hooked = []
        sys.excepthook = lambda t, e, tb: hooked.append(e)
        seen = []
        ret = [None]

        def ov(name):
            def f(self, *a):
                seen.append(a)
                return ret[0]
            return f

        for tag, t, rng, forms in group:
            vals, _ = c01.ctable(t, rng)
            names = [n + tag for n in ('m_', 'c_', 'k_', 'or_', 'op_', 'br_', 'bp_')]
            S = type('S', (M.V,), dict((n, ov(n)) for n in names if hasattr(M.V, n)))
            obj = S()

            def fmt(v):
                if t in ('float', 'double'):
                    v = float(v)
                    return 'nan' if v != v else 'inf' if v == float('inf') else '-inf' if v == float('-inf') else c01.cfmt(v)
                return str(int(v))

            def call(fn, *a):
                del seen[:], hooked[:]
                x.step()
                try:
                    getattr(M, fn)(obj, *a)
                    return None
                except Exception as e:
                    return e

            def same(a, b):
                return type(a) is type(b) and (a == b and str(a) == str(b) or a != a and b != b)

            okret = vals[0]
            for fn, needret in (('arg_', okret), ('carg_', None), ('karg_', None), ('ior_', okret), ('iop_', okret)):
                if not hasattr(M, fn + tag) or not x.case('%s %s' % (t, fn)):
                    continue
                for i, v in enumerate(vals):
                    ret[0] = needret
                    e = call(fn + tag, i)
                    x.state((fn + tag, i))
                    x.check(e is None and not hooked, '%s(%r): error %r %r' % (fn, v, e, hooked))
                    if len(seen) != 1 or len(seen[0]) != 1 or not same(seen[0][0], v):
                        x.fail('type %s %s: C++ passed %r, override got %r' % (t, fn, v, seen))

            # values coming back
            for fn, fb in (('ret_', vals[0]), ('outr_', vals[1]), ('outp_', vals[1]), ('ior_', vals[1]), ('iop_', vals[1])):
                if not hasattr(M, fn + tag) or not x.case('%s %s back' % (t, fn)):
                    continue
                a = (1,) if fn.startswith('io') else ()

                def good(v):
                    ret[0] = v
                    e = call(fn + tag, *a)
                    x.state((fn + tag, 'back', repr(v)))
                    got = lib.pbmc_last().decode().split()
                    x.check(e is None and not hooked, 'type %s %s returning %r: error %r %r' % (t, fn, v, e, hooked))
                    x.check(got == [fmt(v)], 'type %s %s: override returned %r, C++ received %s' % (t, fn, v, got))

                def bad(v):
                    ret[0] = v
                    e = call(fn + tag, *a)
                    x.state((fn + tag, 'back', repr(v)))
                    got = lib.pbmc_last().decode().split()
                    x.check(len(seen) == 1, 'override ran %d times' % len(seen))
                    x.check(len(hooked) == 1, 'type %s %s returning %r: exception reported %d times, call ended with %r, C++ received %s' % (t, fn, v, len(hooked), e, got))
                    x.check(e is None, 'type %s %s returning %r: error state left behind: %r' % (t, fn, v, e))
                    x.check(got == [fmt(fb)], 'type %s %s: override returned %r, C++ received %s instead of the fallback %s' % (t, fn, v, got, fmt(fb)))

                if rng is not None:
                    for v in nums.lattice(rng, x.thorough):
                        if nums.inside(rng, v):
                            good(v)
                        elif nums.strict(rng):
                            bad(v)
                    for v in (None, 'a', b'1', [], (), {}, 1.5, c01.Bad(), int):
                        bad(v)
                    good(True)
                elif t == 'bool':
                    for v in (True, False, 0, 1, 2, [], [0], 256, 2**70):
                        ret[0] = v
                        e = call(fn + tag, *a)
                        x.state((fn + tag, 'back', repr(v)))
                        x.check(e is None and not hooked, 'error %r %r' % (e, hooked))
                        got = lib.pbmc_last().decode().split()
                        x.check(got == [str(int(bool(v)))], 'type bool %s: override returned %r, C++ received %s' % (fn, v, got))
                    ret[0] = c01.BadBool()
                    e = call(fn + tag, *a)
                    x.check(len(hooked) == 1 and e is None, 'object without truth value: reported %r, call ended with %r' % (hooked, e))
                else:
                    for v in nums.FLOATS:
                        if t == 'double' or v != v or nums.f32_ok(v):
                            good(v)
                    for v in (0, 1, -7, 2**20):
                        good(v)
                    for v in (None, 'a', '1.5', b'1', [], (), {}, c01.Bad(), float, 1j):
                        bad(v)
    return explore


def scenarios(tier):
    out = []
    rs = rows()
    for i in range(8):
        g = rs[i::8]
        out.append(Scenario('rev_%d' % i, header(g), gen_group(g), explore_group(g)))
    return out
