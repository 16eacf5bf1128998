"""C31: objects that may not be created, called or touched from Python raise instead; deprecated callables warn."""
import copy
import gc
import itertools
import sys
import warnings
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('every combination of visibilities of the constructors and the destructor, of pure virtual methods, of implementations in derived classes and of the flags of a class x every way of trying '
        'to create, subclass, copy and re-initialise; every set of methods of one name with different visibilities; every deprecated callable x every warning filter; '
        'a failed attempt must raise the documented exception and leave all C++ objects and the objects of earlier attempts as they were')
BOUNDS = {'quick': '1020 classes, each with every attempt; 381 sets of up to 3 methods of one name, with and without subclassing; 14 kinds of callables x 3 markings x 5 filters; sequences of 2 attempts on 23 classes',
          'thorough': '2280 classes and 638 sets of methods, with address sanitizer; sequences of 3 attempts'}
ASSUMPTIONS = ['whether a Python subclass of a class that was declared non-constructible can be created is left open',
               'a Python subclass can use protected members when the class can be subclassed and has virtual or protected methods']

VIS = ('none', 'public', 'protected', 'private')
PURE = ('no', 'virtual', 'public', 'protected', 'private')


class Cfg(object):
    def __init__(self, i, dflt, intc, cpy, pure, dtor, sub, flag=''):
        self.i, self.dflt, self.intc, self.cpy, self.pure, self.dtor, self.sub, self.flag = i, dflt, intc, cpy, pure, dtor, sub, flag
        self.abstract = pure in PURE[2:]
        self.key = ' '.join(['default', dflt, 'int', intc, 'copy', cpy, 'pure', pure, 'destructor', dtor, 'subclassing' if sub else 'final', flag]).strip()
        self.subclassable = sub and dtor != 'private'
        self.helper = self.subclassable and pure != 'no' and flag not in ('disabled', 'singleton')

    def header(self):
        i, out = self.i, []
        v = 'virtual ' if self.pure != 'no' else ''
        out.append('struct Tag { };' if i == 0 else '')
        out.append('struct K%d { Track t; int v;' % i)
        out.append('private: friend struct I%d; friend struct N%d; friend struct J%d; friend struct A%d; friend K%d *get%d(); explicit K%d(Tag) : v(100) {}' % ((i,) * 7))
        for vis, text in ((self.dflt, 'K%d() : v(1) {}' % i), (self.intc, 'K%d(int x) : v(x) {}' % i), (self.cpy, 'K%d(K%d const &o) : t(o.t), v(o.v) {}' % (i, i)), (self.dtor, v + '~K%d() {}' % i)):
            if vis == 'none':
                if 'const &' in text:
                    out.append('private: K%d(K%d const &);' % (i, i))
                continue
            out.append('%s: %s' % (vis, text))
        if self.pure == 'virtual':
            out.append('public: virtual int m() { t.use(); return v + 1; }')
        elif self.abstract:
            out.append('%s: virtual int m() = 0;' % self.pure)
        out.append('public: int get() const { t.use(); return v; } };')
        imp = ' int m() { t.use(); return v + 2; }' if self.abstract else ''
        out.append('struct I%d : K%d { I%d() : K%d(Tag()) {}%s };' % (i, i, i, i, imp))
        out.append('struct N%d : K%d { N%d() : K%d(Tag()) {}%s };' % (i, i, i, i, imp))
        out.append('struct J%d : K%d { J%d(int x) : K%d(Tag()) { v = x; }%s };' % (i, i, i, i, imp))
        out.append('struct A%d : K%d { A%d(int x) : K%d(Tag()) { v = x; } };' % (i, i, i, i))
        out.append('inline K%d *get%d() { static K%d *k = new I%d(); return k; }' % (i, i, i, i) if self.abstract else
                   'inline K%d *get%d() { static K%d *k = new K%d(Tag()); return k; }' % (i, i, i, i))
        out.append('inline int use%d(K%d &k) { return k.get(); }' % (i, i))
        return '\n'.join(out)

    def gen(self, mod):
        from pybindgen import param, retval
        i = self.i
        K = mod.add_class('K%d' % i, allow_subclassing=self.sub, destructor_visibility=self.dtor, is_singleton=self.flag == 'singleton')
        if self.flag == 'disabled':
            K.set_helper_class_disabled(True)
        if self.flag == 'cannot':
            K.set_cannot_be_constructed('for a reason')
        if self.dflt != 'none':
            K.add_constructor([], visibility=self.dflt)
        if self.intc != 'none':
            K.add_constructor([param('int', 'x')], visibility=self.intc)
        if self.cpy != 'none':
            if self.cpy == 'public':
                K.add_copy_constructor()
            else:
                K.add_constructor([param('K%d const &' % i, 'o')], visibility=self.cpy)
        K.add_method('get', retval('int'), [], is_const=True)
        if self.pure == 'virtual':
            K.add_method('m', retval('int'), [], is_virtual=True)
        elif self.abstract:
            K.add_method('m', retval('int'), [], is_virtual=True, is_pure_virtual=True, visibility=self.pure)
        for c in 'NJA':
            C = mod.add_class('%s%d' % (c, i), parent=K)
            if c != 'N':
                C.add_constructor([param('int', 'x')])
            if c != 'A' and self.abstract:
                C.add_method('m', retval('int'), [], is_virtual=True)
        mod.add_function('get%d' % i, retval('K%d *' % i, reference_existing_object=True), [])
        mod.add_function('use%d' % i, retval('int'), [param('K%d &' % i, 'k')])


def attempts(M, c):
    """Yield (name, function, expected): 'ok', 'no', 'any'"""
    K = getattr(M, 'K%d' % c.i)
    ok = lambda vis: 'ok' if vis == 'public' and not c.abstract and c.flag != 'cannot' else 'no'
    get = getattr(M, 'get%d' % c.i)
    yield 'K()', lambda: K(), ok(c.dflt)
    yield 'K(5)', lambda: K(5), ok(c.intc)
    yield 'K(x=5)', lambda: K(x=5), ok(c.intc)
    yield 'K(k)', lambda: K(get()), ok(c.cpy)
    yield "K('x')", lambda: K('x'), 'no'
    yield 'K(5, 6)', lambda: K(5, 6), 'no'
    yield 'type()', lambda: type(get())(), ok(c.dflt)
    yield 'copy.copy(k)', lambda: copy.copy(get()), ok(c.cpy) if c.cpy == 'public' else 'nocopy'
    if not c.subclassable:
        yield 'class S(K)', lambda: type('S', (K,), {}), 'no'
    else:
        subs = [('S', {}), ('T', {'m': lambda self: 77}), ('U', {'__init__': lambda self, *a: K.__init__(self, *a)})]
        for n, d in subs:
            S = type(n, (K,), d)
            R = type(n + n, (S,), {})
            for C in (S, R):
                f = lambda vis: 'any' if c.flag == 'cannot' else 'ok' if (c.helper and vis in ('public', 'protected')) or (vis == 'public' and not c.abstract) else 'no'
                yield C.__name__ + '()', lambda C=C: C(), f(c.dflt)
                yield C.__name__ + '(5)', lambda C=C: C(5), f(c.intc)
                yield C.__name__ + '(k)', lambda C=C: C(get()), f(c.cpy) if c.cpy != 'protected' else 'any'
                yield C.__name__ + "('x')", lambda C=C: C('x'), 'no'
    for n in 'NJA':
        D = getattr(M, n + str(c.i))
        yield n + '()', lambda D=D: D(), 'no'
        yield n + '(5)', lambda D=D: D(5), 'ok' if n == 'J' or (n == 'A' and not c.abstract) else 'no'
        yield n + '(k)', lambda D=D: D(get()), 'no'
        if c.subclassable and n == 'J':
            S = type('S' + n, (D,), {'m': lambda self: 78})
            yield 'S' + n + '()', lambda S=S: S(), 'no'
            yield 'S' + n + '(5)', lambda S=S: S(5), 'ok'


def construct(n, cfgs, asan):
    def gen(mod):
        from pybindgen import settings, cppclass
        uncopyable = ['K%d' % c.i for c in cfgs if c.cpy == 'public' and (c.abstract or c.flag == 'cannot')]

        class Handler(settings.ErrorHandler):
            # objects of a class that cannot be constructed cannot be copied
            def handle_error(self, wrapper, exc, tb):
                return isinstance(wrapper, cppclass.CppClass) and wrapper.name in uncopyable or getattr(wrapper, 'visibility', '') in ('private', 'protected')
        settings.error_handler = Handler()
        for c in cfgs:
            c.gen(mod)

    def explore(M, x):
        lib = x.clib(M.__file__)

        def one(c, name, fn, exp):
            get = getattr(M, 'get%d' % c.i)
            use = getattr(M, 'use%d' % c.i)
            k = get()
            v0 = k.get()
            x.eq(v0, 100, 'value of the existing object')
            for rnd in range(2):
                gc.collect()
                live = lib.pbmc_live()
                try:
                    r = fn()
                    got = 'ok'
                except TypeError:
                    got = 'no'
                except Exception as e:
                    got = type(e).__name__
                    if exp == 'nocopy' and isinstance(e, copy.Error):
                        got = 'no'
                x.step()
                if exp == 'any':
                    if got not in ('ok', 'no'):
                        x.fail('%s %s: %s' % (c.key, name, got))
                elif got != {'nocopy': 'no'}.get(exp, exp):
                    x.fail('%s, %s: %s instead of %s' % (c.key, name, got, exp))
                if got == 'ok' and not isinstance(r, type):
                    want = 100 if '(k)' in name else 5 if '5' in name else 1
                    x.eq(r.get(), want, 'value')
                    x.eq(use(r), want, 'value in C++')
                    x.eq(lib.pbmc_live(), live + 1, 'objects')
                    r = None
                    gc.collect()
                    if c.dtor == 'public' and c.flag != 'singleton' or name[0] in 'NJA':
                        x.eq(lib.pbmc_live(), live, 'objects afterwards')
                    else:
                        x.check(lib.pbmc_live() in (live, live + 1), 'objects afterwards')
                else:
                    r = None
                    gc.collect()
                    x.eq(lib.pbmc_live(), live, 'objects after a failure')
                x.eq(k.get(), 100, 'the existing object')
                x.eq(use(get()), 100, 'the existing object in C++')
                x.eq(lib.pbmc_bad(), 0, 'bad accesses')
        for c in cfgs:
            x.state(c.key)
            for name, fn, exp in attempts(M, c):
                x.run('%s: %s' % (c.key, name), one, c, name, fn, exp)
    return Scenario('construct%d%s' % (n, '_asan' if asan else ''), '\n'.join(c.header() for c in cfgs), gen, explore, asan=asan)


def configs(thorough):
    seen, out = set(), []

    def add(*a):
        if a not in seen:
            seen.add(a)
            out.append(a)
    for d, i, p, s in itertools.product(VIS, VIS, PURE, (True, False)):
        for dt in VIS[1:]:
            for cp in VIS if thorough else ('public',):
                add(d, i, cp, p, dt, s, '')
    for d, cp, p, dt in itertools.product(VIS, VIS, PURE, VIS[1:]):
        add(d, 'none', cp, p, dt, True, '')
    for d, p, dt, s, f in itertools.product(VIS, PURE, VIS[1:], (True, False), ('cannot', 'singleton', 'disabled')):
        add(d, 'public' if thorough else 'none', 'public', p, dt, s, f)
    return out

# -- members of all visibilities under one name

MK = ('none', 'public', 'protected', 'private', 'public virtual', 'protected virtual', 'public static', 'protected static', 'private virtual')
SIGS = [('int a', 'a', lambda p: [p('int', 'a')], (5,), 5), ('std::string s', '(int) s.size()', lambda p: [p('std::string', 's')], ('xyz',), 3), ('int a, int b', 'a + b', lambda p: [p('int', 'a'), p('int', 'b')], (20, 30), 50)]


def member_sets(thorough):
    for ks in all_member_sets(thorough):
        # static and other methods of one name cannot be overloaded: refused by the generator
        if not ('public static' in ks and ('public' in ks or 'public virtual' in ks)):
            yield ks


def all_member_sets(thorough):
    kinds = MK if thorough else MK[:6] + MK[7:8]
    for ks in itertools.product(kinds, repeat=3):
        if any(k != 'none' for k in ks):
            yield ks
    if not thorough:
        for k in MK[6:]:
            for i in range(3):
                for other in MK[:5]:
                    yield tuple(k if j == i else other for j in range(3))


def member_header(i, ks):
    out = ['struct V%d { Track t; int v; V%d(int v_ = 1000) : v(v_) {} virtual ~V%d() {}' % (i, i, i)]
    for n, (k, (decl, expr, ps, args, val)) in enumerate(zip(ks, SIGS)):
        if k == 'none':
            continue
        words = k.split()
        st = 'static' in words
        out.append('%s: %s int f(%s) { logged() = %d; return %s; }' % (words[0], ' '.join(words[1:]), decl, n + 1, ('' if st else 't.use(), v + ') + expr))
    out.append('public: int get() const { return v; } };')
    out.append('struct W%d : V%d { W%d(int v_ = 2000) : V%d(v_) {} };' % (i, i, i, i))
    out.append('inline V%d *get%d() { static V%d *k = new V%d(3000); return k; }' % (i, i, i, i))
    return '\n'.join(out)


def member_gen(sets, sub):
    def gen(mod):
        from pybindgen import param, retval
        mod.add_function('logged_value', retval('int'), [])
        for i, ks in sets:
            V = mod.add_class('V%d' % i, allow_subclassing=sub)
            V.add_constructor([param('int', 'v', default_value='1000')])
            for k, (decl, expr, ps, args, val) in zip(ks, SIGS):
                if k != 'none':
                    V.add_method('f', retval('int'), ps(param), visibility=k.split()[0], is_virtual='virtual' in k, is_static='static' in k)
            V.add_method('get', retval('int'), [], is_const=True)
            W = mod.add_class('W%d' % i, parent=V)
            W.add_constructor([param('int', 'v', default_value='2000')])
            mod.add_function('get%d' % i, retval('V%d *' % i, reference_existing_object=True), [])
    return gen


def members(n, sets, sub, asan):
    sets = list(enumerate(sets))

    def explore(M, x):
        def one(fn, args, want, n):
            before = M.logged_value()
            try:
                got = fn(*args)
            except (TypeError, AttributeError) as e:
                got = None
            x.step()
            x.eq(got, want, 'result')
            x.eq(M.logged_value(), n + 1 if want is not None else 0, 'function reached')
        for i, ks in sets:
            V, W = getattr(M, 'V%d' % i), getattr(M, 'W%d' % i)
            objs = [('V', V(), 1000, False), ('W', W(), 2000, False), ('existing', getattr(M, 'get%d' % i)(), 3000, False)]
            if sub:
                S = type('S', (V,), {'go': lambda self, *a: self.f(*a)})
                T = type('T', (W,), {'go': lambda self, *a: self.f(*a)})
                U = type('U', (S,), {'go': lambda self, *a: super(S, self).f(*a)})
                O = type('O', (V,), {'f': (lambda self, *a: V.f(*a)) if 'public static' in ks else lambda self, *a: V.f(self, *a), 'go': lambda self, *a: self.f(*a)})
                objs += [('S', S(), 1000, True), ('T', T(), 2000, True), ('U', U(), 1000, True), ('O', O(), 1000, True)]
            x.state(ks)
            for k, (decl, expr, ps, args, val), n in zip(ks, SIGS, range(3)):
                for name, obj, base, inside in objs:
                    can = k.startswith('public') or inside and k.startswith('protected')
                    want = val + (0 if 'static' in k else base) if can else None
                    fn = obj.go if inside else lambda *a, o=obj: o.f(*a)
                    shadowed = k.startswith('protected') and any(o.startswith('public') for o in ks)
                    x.run('%s: %d%s of %s' % (', '.join(ks), n, ' shadowed' if shadowed else '', name), lambda *a: (M.reset_log(), one(*a)), fn, args, want, n)
                x.run('%s: %d through the class' % (', '.join(ks), n), lambda *a: (M.reset_log(), one(*a)), lambda *a: V.f(V(), *a) if 'static' not in k else V.f(*a), args,
                      val + (0 if 'static' in k else 1000) if k.startswith('public') else None, n)
    gen0 = member_gen(sets, sub)

    def gen(mod):
        gen0(mod)
        mod.add_function('reset_log', None, [])
    hdr = '#include <string>\ninline int &logged() { static int v; return v; }\ninline int logged_value() { return logged(); }\ninline void reset_log() { logged() = 0; }\n'
    return Scenario('members%d%s%s' % (n, '' if sub else '_final', '_asan' if asan else ''), hdr + '\n'.join(member_header(i, ks) for i, ks in sets), gen, explore, asan=asan)


# -- deprecated callables

DEPHDR = r"""
#include <string>
#include <exception>
struct Err : std::exception { Err() {} const char *msg() const { return "oops"; } };
inline int &calls() { static int v; return v; }
inline int get_calls() { return calls(); }
struct Arg { Track t; int v; Arg(int v_ = 3) : v(v_) {} };
"""
MARKS = (('plain', False, None), ('true', True, 'Deprecated'), ('text', 'use g() instead', 'use g() instead'), ('percent', 'use g() instead: 100% better %s %d', 'use g() instead: 100% better %s %d'))
FILTERS = ('always', 'error', 'ignore', 'default', 'once')
DK = ('function', 'unblocked', 'throws', 'default', 'first', 'second', 'method', 'const', 'static', 'virtual', 'inherited', 'asmethod', 'constructor', 'constructor2', 'protected', 'transfer')


def dep_header(marks):
    out = [DEPHDR]
    for m, dep, text in marks:
        out.append("""
inline int function_MM(int x) { calls()++; return x + 1; }
inline int unblocked_MM(int x) { calls()++; return x + 1; }
inline int throws_MM(int x) { calls()++; if (x == 13) throw Err(); return x + 1; }
inline int default_MM(int x = 7) { calls()++; return x + 1; }
inline int first_MM(int x) { calls()++; return x + 1; } inline int first_MM(std::string s) { calls()++; return -1; }
inline int second_MM(std::string s) { calls()++; return -1; } inline int second_MM(int x) { calls()++; return x + 1; }
inline int transfer_MM(Arg *a, int x) { calls()++; delete a; return x + 1; }
struct P_MM { Track t; int v; P_MM(int v_ = 3) : v(v_) {} virtual ~P_MM() {} int method(int x) { calls()++; return x + 1; } int const_(int x) const { calls()++; return x + 1; }
    static int static_(int x) { calls()++; return x + 1; } virtual int virtual_(int x) { calls()++; return x + 1; } int call(int x) { return virtual_(x); }
protected: int prot(int x) { calls()++; return x + 1; } virtual int vprot(int x) { calls()++; return x + 1; } };
struct Q_MM : P_MM { Q_MM() {} }; inline int asmethod_MM(P_MM &p, int x) { calls()++; return x + 1; }
struct M1_MM { Track t; M1_MM() {} int v1; }; struct MI_MM : M1_MM, P_MM { MI_MM() {} };
struct C_MM { Track t; int v; C_MM(int x) : v(x + 1) { calls()++; } };
struct C2_MM { Track t; int v; C2_MM(std::string) : v(-1) { calls()++; } C2_MM(int x) : v(x + 1) { calls()++; } virtual ~C2_MM() {} virtual int get() { return v; } };
""".replace('MM', m))
    return '\n'.join(out)


def dep_gen(marks):
    def gen(mod):
        from pybindgen import param, retval
        err = mod.add_exception('Err', message_rvalue='%(EXC)s.msg()')
        mod.add_function('get_calls', retval('int'), [])
        A = mod.add_class('Arg')
        A.add_constructor([param('int', 'v', default_value='3')])
        for m, dep, text in marks:
            if isinstance(dep, str):
                dep = dep
            I, S, X = retval('int'), [param('std::string', 's')], [param('int', 'x')]
            mod.add_function('function_' + m, I, X, deprecated=dep)
            mod.add_function('unblocked_' + m, I, X, deprecated=dep, unblock_threads=True)
            mod.add_function('throws_' + m, I, X, deprecated=dep, throw=[err])
            mod.add_function('default_' + m, I, [param('int', 'x', default_value='7')], deprecated=dep)
            mod.add_function('first_' + m, I, X, deprecated=dep)
            mod.add_function('first_' + m, I, S)
            mod.add_function('second_' + m, I, S)
            mod.add_function('second_' + m, I, X, deprecated=dep)
            mod.add_function('transfer_' + m, I, [param('Arg *', 'a', transfer_ownership=True)] + X, deprecated=dep)
            P = mod.add_class('P_' + m, allow_subclassing=True)
            P.add_constructor([])
            P.add_method('method', I, X, deprecated=dep)
            P.add_method('const_', I, X, deprecated=dep, is_const=True)
            P.add_method('static_', I, X, deprecated=dep, is_static=True)
            P.add_method('virtual_', I, X, deprecated=dep, is_virtual=True)
            P.add_method('call', I, X)
            P.add_method('prot', I, X, deprecated=dep, visibility='protected')
            P.add_method('vprot', I, X, deprecated=dep, visibility='protected', is_virtual=True)
            P.add_function_as_method('asmethod_' + m, I, [param('P_%s &' % m, 'p')] + X, deprecated=dep, custom_name='asmethod')
            Q = mod.add_class('Q_' + m, parent=P)
            Q.add_constructor([])
            M1 = mod.add_class('M1_' + m, allow_subclassing=True)
            MI = mod.add_class('MI_' + m, parent=[M1, P])
            MI.add_constructor([])
            C = mod.add_class('C_' + m)
            C.add_constructor(X, deprecated=dep)
            C.add_instance_attribute('v', 'int')
            C2 = mod.add_class('C2_' + m, allow_subclassing=True)
            C2.add_constructor(S)
            C2.add_constructor(X, deprecated=dep)
            C2.add_method('get', I, [], is_virtual=True)
    return gen


def deprecated(marks, asan):
    def explore(M, x):
        lib = x.clib(M.__file__)

        def one(fn, args, want, warns, text, filt):
            """Call; `warns`: 'yes', 'no'; want: the result, or an exception type."""
            if hasattr(fn, '__self__') is False:
                pass
            gc.collect()
            live, n0 = lib.pbmc_live(), M.get_calls()
            refs = [sys.getrefcount(a) for a in args]
            with warnings.catch_warnings(record=True) as log:
                warnings.resetwarnings()
                warnings.simplefilter(filt)
                try:
                    got, exc = fn(*args), None
                except Exception as e:
                    got, exc = type(e), e
            x.step()
            dep = warns == 'yes'
            if dep and filt == 'error':
                x.eq(got, DeprecationWarning, 'exception')
                x.eq(str(exc), text, 'message')
                x.eq(M.get_calls(), n0, 'calls')
            else:
                x.eq(got, want, 'result')
                x.eq(M.get_calls(), n0 + (0 if want is TypeError else 1), 'calls')
            exc = None
            x.eq([(w.category, str(w.message)) for w in log], [(DeprecationWarning, text)] if dep and filt in ('always', 'default', 'once') else [], 'warnings')
            gc.collect()
            x.eq([sys.getrefcount(a) for a in args], refs, 'references to the arguments')
            x.eq(lib.pbmc_live(), live, 'objects')

        def transfer(fn, filt, warns, text):
            a = M.Arg()
            live, n0 = lib.pbmc_live(), M.get_calls()
            with warnings.catch_warnings(record=True) as log:
                warnings.resetwarnings()
                warnings.simplefilter(filt)
                try:
                    got = fn(a, 5)
                except DeprecationWarning as e:
                    got = type(e)
            failed = warns and filt == 'error'
            x.eq(got, DeprecationWarning if failed else 6, 'result')
            x.eq(len(log), 1 if warns and filt in ('always', 'default', 'once') else 0, 'warnings')
            x.eq(M.get_calls(), n0 + (not failed), 'calls')
            x.eq(lib.pbmc_live(), live - (not failed), 'objects')
            del a
            x.eq(lib.pbmc_live(), live - 1, 'objects afterwards')
            x.eq(lib.pbmc_bad(), 0, 'bad accesses')

        for m, dep, text in marks:
            P, Q, MI = (getattr(M, c + m) for c in ('P_', 'Q_', 'MI_'))
            S = type('S', (P,), {})
            O = type('O', (P,), {'virtual_': lambda self, v: P.virtual_(self, v), 'go': lambda self, v: self.prot(v), 'vgo': lambda self, v: self.vprot(v)})
            p, q, mi, s, o = P(), Q(), MI(), S(), O()
            d = 'yes' if dep else 'no'
            ways = [('function', getattr(M, 'function_' + m), (5,), 6, d), ('function keyword', lambda v: getattr(M, 'function_' + m)(x=v), (5,), 6, d), ('unblocked', getattr(M, 'unblocked_' + m), (5,), 6, d),
                    ('throws', getattr(M, 'throws_' + m), (5,), 6, d), ('throws and throws', getattr(M, 'throws_' + m), (13,), M.Err, d), ('default', getattr(M, 'default_' + m), (), 8, d),
                    ('default given', getattr(M, 'default_' + m), (5,), 6, d), ('first', getattr(M, 'first_' + m), (5,), 6, d), ('first other', getattr(M, 'first_' + m), ('x',), -1, 'no'),
                    ('second', getattr(M, 'second_' + m), (5,), 6, d), ('second other', getattr(M, 'second_' + m), ('x',), -1, 'no'), ('static', P.static_, (5,), 6, d), ('static instance', p.static_, (5,), 6, d),
                    ('prot', o.go, (5,), 6, d), ('vprot', o.vgo, (5,), 6, d), ('virtual from C++', p.call, (5,), 6, 'no'), ('virtual from C++, subclass', s.call, (5,), 6, 'no'), ('override', o.call, (5,), 6, d)]
            for n, ob in (('P', p), ('Q', q), ('MI', mi), ('S', s), ('O', o)):
                for f in ('method', 'const_', 'virtual_', 'asmethod'):
                    ways.append(('%s of %s' % (f, n), getattr(ob, f), (5,), 6, d))
                    ways.append(('%s of %s invalid' % (f, n), getattr(ob, f), ('x',), TypeError, 'no' if (f, n) != ('virtual_', 'O') else 'no'))
            for f in ('function', 'unblocked', 'throws', 'default', 'first', 'second'):
                ways.append((f + ' invalid', getattr(M, '%s_%s' % (f, m)), (None,), TypeError, 'no'))
            C, C2 = getattr(M, 'C_' + m), getattr(M, 'C2_' + m)
            SC2 = type('SC2', (C2,), {})
            for n, c, g in (('C', C, lambda ob: ob.v), ('C2', C2, lambda ob: ob.get()), ('SC2', SC2, lambda ob: ob.get())):
                ways.append((n, lambda v, c=c, g=g: g(c(v)), (5,), 6, d))
                ways.append((n + ' invalid', lambda v, c=c, g=g: g(c(v)), (None,), TypeError, 'no'))
                if n != 'C':
                    ways.append((n + ' other', lambda v, c=c, g=g: g(c(v)), ('x',), -1, 'no'))
            x.state(m)
            for name, fn, args, want, warns in ways:
                if name == 'override':
                    continue   # errors of overrides are printed
                for filt in FILTERS:
                    for again in range(2):
                        x.run('%s %s %s %d' % (m, name, filt, again), one, fn, args, want, warns, text, filt)
            for filt in FILTERS:
                x.run('%s transfer %s' % (m, filt), transfer, getattr(M, 'transfer_' + m), filt, bool(dep), text)
            del p, q, mi, s, o
    return Scenario('deprecated%s' % ('_asan' if asan else ''), dep_header(marks), dep_gen(marks), explore, asan=asan)


# -- sequences of attempts

def sequences(n, cfgs, depth, asan):
    base = construct(0, cfgs, asan)

    def explore(M, x):
        lib = x.clib(M.__file__)

        def one(c, seq):
            k = getattr(M, 'get%d' % c.i)()
            use = getattr(M, 'use%d' % c.i)
            gc.collect()
            live = lib.pbmc_live()
            kept = []
            for name, fn, exp in seq:
                try:
                    r = fn()
                    got = 'ok'
                except (TypeError, copy.Error):
                    got, r = 'no', None
                x.step()
                if exp != 'any':
                    x.eq(got, {'nocopy': 'no'}.get(exp, exp), name)
                if got == 'ok' and not isinstance(r, type):
                    kept.append((r, 100 if '(k)' in name else 5 if '5' in name else 1))
                x.eq(lib.pbmc_live(), live + len(kept), 'objects after ' + name)
                for r, v in kept + [(k, 100)]:
                    x.eq((r.get(), use(r)), (v, v), 'values after ' + name)
            r = None
            del kept[:]
            gc.collect()
            if c.dtor == 'public' and c.flag != 'singleton':
                x.eq(lib.pbmc_live(), live, 'objects afterwards')
            x.eq(lib.pbmc_bad(), 0, 'bad accesses')
        for c in cfgs:
            k = getattr(M, 'get%d' % c.i)()
            ats = list(attempts(M, c))
            ats.append(('k.__init__', lambda: k.__init__('x'), 'no'))
            ats.append(('k.nothing', lambda: k.m(1, 2, 3), 'no') if c.pure == 'virtual' else ('k.get', lambda: k.get(5), 'no'))
            if depth > 2:
                ats = [a for a in ats if a[0][0] in 'KStck' and 'x' not in a[0]]
            for seq in itertools.product(ats, repeat=depth):
                x.run('%s: %s' % (c.key, ', '.join(a[0] for a in seq)), one, c, seq)
    return Scenario('sequences%d%s' % (n, '_asan' if asan else ''), base.header, base.gen, explore, asan=asan, shards=4)


# -- objects that have no C++ object, as __init__ was not called

def uninit_explore(M, x):
    def one(make, use):
        o = make()
        try:
            use(o)
        except Exception:
            pass
        x.step()

    def forgot():
        return type('P', (M.K,), {'__init__': lambda self: None})()
    uses = [('method', lambda o: o.get()), ('virtual', lambda o: o.m()), ('attribute', lambda o: o.v), ('set attribute', lambda o: setattr(o, 'v', 3)), ('reference', lambda o: M.use_ref(o)), ('pointer', lambda o: M.use_ptr(o)),
            ('value', lambda o: M.use_val(o)), ('copy', lambda o: copy.copy(o)), ('str', lambda o: str(o)), ('compare', lambda o: o == M.K(1)), ('add', lambda o: o + M.K(1)), ('delete', lambda o: None),
            ('self', lambda o: M.K.get(o)), ('init', lambda o: (o.__init__(4) if type(o) is M.K else M.K.__init__(o, 4), x.eq(o.get(), 4, 'value'))), ('collect', lambda o: gc.collect()), ('list', lambda o: list(o))]
    for n, make in (('__new__', lambda: M.K.__new__(M.K)), ('subclass', forgot)):
        for u, use in uses:
            x.state((n, u))
            x.run('uninitialised %s: %s' % (n, u), one, make, use)
    for u, use in (('list', lambda o: list(o)), ('length', lambda o: len(o)), ('pass', lambda o: M.use_vec(o)), ('delete', lambda o: None), ('init', lambda o: (o.__init__([3]), x.eq(list(o), [3], 'elements')))):
        x.run('uninitialised container: %s' % u, one, lambda: M.Vec.__new__(M.Vec), use)


UNINIT = r"""
#include <vector>
#include <ostream>
#include <sstream>
struct K { Track t; int v; K(int v_ = 1) : v(v_) {} virtual ~K() {} int get() const { t.use(); return v; } virtual int m() { t.use(); return v; } K operator+(K const &o) const { return K(v + o.v); }
    bool operator==(K const &o) const { return v == o.v; } std::vector<int> vec; typedef std::vector<int>::iterator it; std::vector<int>::iterator begin() { return vec.begin(); } std::vector<int>::iterator end() { return vec.end(); } };
inline std::ostream &operator<<(std::ostream &o, K const &k) { return o << k.v; }
inline int use_ref(K &k) { return k.get(); } inline int use_ptr(K *k) { return k->get(); } inline int use_val(K k) { return k.get(); }
typedef std::vector<int> Vec; inline int use_vec(Vec v) { return v.size(); }
"""


def uninit_gen(mod):
    from pybindgen import param, retval
    K = mod.add_class('K', allow_subclassing=True)
    K.add_constructor([param('int', 'v', default_value='1')])
    K.add_copy_constructor()
    K.add_method('get', retval('int'), [], is_const=True)
    K.add_method('m', retval('int'), [], is_virtual=True)
    K.add_instance_attribute('v', 'int')
    K.add_output_stream_operator()
    K.add_binary_comparison_operator('==')
    K.add_binary_numeric_operator('+')
    K.add_container_traits(retval('int'), begin_method='begin', end_method='end', iterator_type='it')
    mod.add_container('std::vector<int>', retval('int'), 'vector', custom_name='Vec')
    mod.add_function('use_ref', retval('int'), [param('K &', 'k')])
    mod.add_function('use_ptr', retval('int'), [param('K *', 'k', transfer_ownership=False)])
    mod.add_function('use_val', retval('int'), [param('K', 'k')])
    mod.add_function('use_vec', retval('int'), [param('std::vector<int>', 'v')])



def scenarios(tier):
    thorough = tier == 'thorough'
    out = []
    cf = configs(thorough)
    size = 24
    for n in range(0, len(cf), size):
        out.append(construct(n // size, [Cfg(i, *a) for i, a in enumerate(cf[n:n + size])], thorough))
    sets = list(member_sets(thorough))
    for sub in (True, False):
        for n in range(0, len(sets), 24):
            out.append(members(n // 24, sets[n:n + 24], sub, thorough))
    out.append(deprecated(MARKS, thorough))
    pick = [('public', 'none', 'public', p, d, s, f) for p in PURE for d in ('public', 'protected') for s, f in ((True, ''), (False, ''))]
    pick += [('public', 'none', 'public', 'virtual', 'public', True, f) for f in ('cannot', 'singleton', 'disabled')]
    for n in range(0, len(pick), 4):
        out.append(sequences(n // 4, [Cfg(i, *a) for i, a in enumerate(pick[n:n + 4])], 3 if thorough else 2, False))
    out.append(Scenario('uninitialised', UNINIT, uninit_gen, uninit_explore, shards=37))
    return out
