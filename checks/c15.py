"""C15: Python runs only with the interpreter lock held; unblocked calls release it."""
import gc
import itertools
import sys
import threading
import weakref
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('a call that is declared to unblock threads runs its C++ body without the lock, any other with it; Python code always has it; whoever calls a virtual method '
        'finds the lock as it was; afterwards the caller in Python has it, whatever happened')
BOUNDS = {'quick': 'every form of call x unblocked / blocked / by default x both defaults x every way to return or fail; every virtual method signature x outcome of '
                   'the override x state of the calling thread; every nesting of calls of up to 6 steps, foreign threads among them; every interleaving of every '
                   'pair of threads of eight programs',
          'thorough': 'nestings of 8 steps, interleavings of fourteen programs'}
ASSUMPTIONS = ['PyGILState_Check of CPython says whether the running thread holds the lock',
               'a C++ thread that is not Python\'s own calls Python only through virtual methods']

COMMON = r'''
#include <thread>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <exception>
inline std::string &thelog() { static std::string s; return s; }
inline std::mutex &logmutex() { static std::mutex m; return m; }
inline void rec(char what) { std::lock_guard<std::mutex> g(logmutex()); thelog() += what; thelog() += PyGILState_Check() ? '1' : '0'; thelog() += ' '; }
inline std::string takelog() { std::string s; s.swap(thelog()); return s; }
inline int gil() { return PyGILState_Check(); }
struct Oops { int n; Oops(int n_ = 0) : n(n_) {} };
struct Worse { int n; Worse(int n_ = 0) : n(n_) {} };
inline int &mode() { static int m; return m; }
inline void setmode(int m) { mode() = m; }
inline void body() { rec('c'); if (mode() == 1) throw Oops(1); if (mode() == 2) throw Worse(2); }
'''


def common_gen(mod):
    from pybindgen import param
    mod.add_function('takelog', 'std::string', [], unblock_threads=False)
    mod.add_function('gil', 'int', [], unblock_threads=False)
    mod.add_function('setmode', None, [param('int', 'm')], unblock_threads=False)
    exc = [mod.add_exception('Oops', foreign_cpp_namespace='', message_rvalue='"oops"'),
           mod.add_exception('Worse', foreign_cpp_namespace='', message_rvalue='"worse"')]
    return exc


# --- every form of call -----------------------------------------------------

FORMS = r'''
struct KS {
    int v;
    KS(int v_ = 0) : v(v_) { body(); }
    KS(std::string const &s) : v(0) { body(); }
    KS(KS const &o) : v(o.v) {}
    virtual ~KS() {}
    int m(int n) { body(); return n; }
    int over(int n) { body(); return n; }
    int over(std::string const &s, int n) { body(); return n; }
    int cm() const { body(); return v; }
    static int sm(int n) { body(); return n; }
    virtual int vm(int n) { body(); return n; }
    char const *bad() { body(); return "\xff\xfe"; }
    void nothing() { body(); }
protected:
    virtual int pm(int n) { body(); return n; }
};
struct DS : KS { DS() {} int own() { body(); return 5; } };
struct NS { int v; NS(int v_ = 0) : v(v_) { body(); } NS(std::string const &s) : v(0) { body(); } int m(int n) { body(); return n; } };
struct FS { int v; static FS *make(int n) { body(); FS *f = new FS; f->v = n; return f; } };
inline FS *make_fS(int n) { return FS::make(n); }
struct AS { AS() { body(); } virtual ~AS() {} virtual int pv(int n) = 0; };
struct ES { virtual ~ES() {} virtual int vm() { return 3; } protected: ES(int n) { body(); } };
namespace fS {
inline int f(int n) { body(); return n; }
inline void v() { body(); }
inline int over(int n) { body(); return n; }
inline int over(std::string const &s) { body(); return 2; }
inline int small(signed char n) { body(); return n; }
inline char const *bad() { body(); return "\xff\xfe"; }
inline std::string badstr() { body(); return "\xff\xfe"; }
inline std::string str(std::string const &s) { body(); return s; }
inline BV byval(BV k) { body(); return k; }
inline KS *make(int n) { int m = mode(); rec('c'); mode() = 0; KS *k = new KS(n); mode() = m; if (m == 1) { delete k; throw Oops(1); } if (m == 2) { delete k; throw Worse(2); } return k; }
inline BV const &ref(BV const &k) { body(); return k; }
inline int ptr(KS *k) { body(); return k ? k->v : -1; }
inline void out(int n, int &o) { body(); o = n; }
inline std::vector<int> vec(std::vector<int> const &v) { body(); return v; }
template <class T> T tmpl(T n) { body(); return n; }
inline int dflt(int a = 3) { body(); return a; }
inline int meth(KS *self, int n) { body(); return n; }
}
'''
SUFFIX = {'n': None, 't': True, 'f': False}


def forms_header():
    out = [COMMON, 'struct BV { int v; BV(int v_ = 0) : v(v_) {} };']
    for s in SUFFIX:
        out.append(FORMS.replace('KS', 'K' + s).replace('DS', 'D' + s).replace('NS', 'N' + s).replace('FS', 'F' + s).replace('AS', 'A' + s)
                   .replace('ES', 'E' + s).replace('fS', 'f' + s))
    return '\n'.join(out)


def forms_gen(default):
    def gen(mod):
        import pybindgen.settings
        from pybindgen import param, retval
        old = pybindgen.settings.unblock_threads
        pybindgen.settings.unblock_threads = default
        try:
            forms_gen2(mod, param, retval)
        finally:
            pybindgen.settings.unblock_threads = old
    return gen


def forms_gen2(mod, param, retval):
    exc = common_gen(mod)
    mod.add_container('std::vector<int>', 'int', 'vector')
    BV = mod.add_class('BV')
    BV.add_constructor([])
    BV.add_constructor([param('int', 'v')])
    BV.add_copy_constructor()
    BV.add_instance_attribute('v', 'int')
    for s, ub in SUFFIX.items():
        kw = {} if ub is None else {'unblock_threads': ub}
        K = mod.add_class('K' + s, allow_subclassing=True)
        K.add_constructor([param('int', 'v', default_value='0')], throw=exc, **kw)
        K.add_constructor([param('std::string const &', 's')], throw=exc, **kw)
        K.add_copy_constructor()
        n = param('int', 'n')
        K.add_method('m', 'int', [n], throw=exc, **kw)
        K.add_method('over', 'int', [n], throw=exc, **kw)
        K.add_method('over', 'int', [param('std::string const &', 's'), n], throw=exc, **kw)
        K.add_method('cm', 'int', [], is_const=True, throw=exc, **kw)
        K.add_method('sm', 'int', [n], is_static=True, throw=exc, **kw)
        K.add_method('vm', 'int', [n], is_virtual=True, throw=exc, **kw)
        K.add_method('bad', 'char const *', [], throw=exc, **kw)
        K.add_method('nothing', None, [], throw=exc, **kw)
        K.add_method('pm', 'int', [n], is_virtual=True, visibility='protected', throw=exc, **kw)
        K.add_function_as_method('meth', 'int', [param('K%s *' % s, 'self', transfer_ownership=False), n], foreign_cpp_namespace='f' + s, throw=exc, **kw)
        K.add_instance_attribute('v', 'int')
        D = mod.add_class('D' + s, parent=K, allow_subclassing=True)
        D.add_constructor([], throw=exc, **kw)
        D.add_method('own', 'int', [], throw=exc, **kw)
        N = mod.add_class('N' + s)
        N.add_constructor([param('int', 'v', default_value='0')], throw=exc, **kw)
        N.add_constructor([param('std::string const &', 's')], throw=exc, **kw)
        N.add_method('m', 'int', [n], throw=exc, **kw)
        F = mod.add_class('F' + s)
        F.add_function_as_constructor('make_f' + s, retval('F%s *' % s, caller_owns_return=True), [n], **kw)
        F.add_instance_attribute('v', 'int')
        A = mod.add_class('A' + s, allow_subclassing=True)
        A.add_constructor([], throw=exc, **kw)
        A.add_method('pv', 'int', [n], is_virtual=True, is_pure_virtual=True, **kw)
        E = mod.add_class('E' + s, allow_subclassing=True)
        E.add_constructor([n], visibility='protected', throw=exc, **kw)
        E.add_method('vm', 'int', [], is_virtual=True, **kw)
        f = mod.add_cpp_namespace('f' + s)

        def add(name, ret, params, **more):
            more.update(kw)
            f.add_function(name, ret, params, throw=exc, **more)
        add('f', 'int', [n])
        add('v', None, [])
        add('over', 'int', [n])
        add('over', 'int', [param('std::string const &', 's')])
        add('small', 'int', [param('int8_t', 'n')])
        add('bad', 'char const *', [])
        add('badstr', 'std::string', [])
        add('str', 'std::string', [param('std::string const &', 's')])
        add('byval', 'BV', [param('BV', 'k')])
        add('make', retval('K%s *' % s, caller_owns_return=True), [n])
        add('ref', 'BV const &', [param('BV const &', 'k')])
        add('ptr', 'int', [param('K%s *' % s, 'k', transfer_ownership=False, null_ok=True)])
        add('out', None, [n, param('int &', 'o', direction=2)])
        add('vec', 'std::vector<int>', [param('std::vector<int> const &', 'v')])
        add('tmpl', 'int', [n], template_parameters=['int'], custom_name='tmpl')
        add('dflt', 'int', [param('int', 'a', default_value='3')])


def forms_explore(default):
    def explore(M, x):
        M.takelog()
        ANY = object()

        def attempt(key, f, unblocked, want, bodies=1, throws=True, modes=(0, 1, 2)):
            """f is called; want: its result, or an exception class"""
            for mode in modes:
                x.case('%s: %s' % (key, ['returns', 'throws Oops', 'throws Worse'][mode]))
                x.step()
                M.setmode(mode)
                try:
                    got = f()
                except Exception as e:
                    got = type(e)
                held = M.gil()
                M.setmode(0)
                log = M.takelog()
                x.eq(held, 1, 'lock held afterwards')
                x.eq(log, ('c0 ' if unblocked else 'c1 ') * bodies, 'lock state in the C++ body')
                expect = [want, M.Oops, M.Worse][mode if bodies else 0]
                if expect is not ANY:
                    x.eq(got, expect, 'outcome')

        for s, ub in SUFFIX.items():
            u = default if ub is None else ub
            K, D, N, F, A, E, f = [getattr(M, c + s) for c in 'KDNFAEf']
            M.setmode(0)

            class P(K):
                def prot(self, n):
                    return K.pm(self, n)

                def up(self, n):
                    return K.vm(self, n)

                def up2(self, n):
                    return super(P, self).vm(n)

            class Q(D):
                def prot(self, n):
                    return D.pm(self, n)

                def up(self, n):
                    return D.vm(self, n)

            class O(K):
                def vm(self, n):
                    return K.vm(self, n) + 1

            class PA(A):
                pass

            class PA2(A):
                def pv(self, n):
                    return n

            class PE(E):
                pass
            k, p, d, q, o, nn, bv = K(1), P(1), D(), Q(), O(1), N(1), M.BV(6)
            M.takelog()
            tag = '%s default=%s ' % (s, default)
            for what, ob in (('K', k), ('P(K)', p), ('D', d), ('Q(D)', q), ('O(K)', o)):
                t = tag + what + '.'
                attempt(t + 'm', lambda: ob.m(3), u, 3)
                attempt(t + 'm kw', lambda: ob.m(n=3), u, 3)
                attempt(t + 'over int', lambda: ob.over(3), u, 3)
                attempt(t + 'over str', lambda: ob.over('x', 3), u, 3)
                attempt(t + 'over none', lambda: ob.over([]), u, TypeError, bodies=0)
                attempt(t + 'cm', ob.cm, u, ob.v)
                attempt(t + 'sm', lambda: ob.sm(3), u, 3)
                attempt(t + 'vm', lambda: ob.vm(3), u, 4 if ob is o else 3)
                attempt(t + 'bad', ob.bad, u, UnicodeDecodeError)
                attempt(t + 'nothing', ob.nothing, u, None)
                attempt(t + 'meth', lambda: ob.meth(3), u, 3)
                attempt(t + 'm wrong', lambda: ob.m('x'), u, TypeError, bodies=0)
                attempt(t + 'm many', lambda: ob.m(1, 2), u, TypeError, bodies=0)
                attempt(t + 'v', lambda: ob.v, u, ob.v, bodies=0)
            for what, ob in (('P(K)', p), ('Q(D)', q)):
                t = tag + what + '.'
                attempt(t + 'protected', lambda: ob.prot(3), u, 3)
                attempt(t + 'protected wrong', lambda: ob.prot('x'), u, TypeError, bodies=0)
                attempt(t + 'up', lambda: ob.up(3), u, 3)
            attempt(tag + 'P.up2', lambda: p.up2(3), u, 3)
            attempt(tag + 'own', d.own, u, 5)
            attempt(tag + 'Q.own', q.own, u, 5)
            attempt(tag + 'protected of a plain object', lambda: K.pm(k, 3), u, TypeError, bodies=0)
            attempt(tag + 'static', lambda: K.sm(3), u, 3)
            for what, c in (('K', K), ('P', P), ('N', N), ('O', O)):
                t = tag + what
                kind = lambda v: type(v) is c or v
                attempt(t + '(1)', lambda: kind(c(1)), u, True)
                attempt(t + '()', lambda: kind(c()), u, True)
                attempt(t + '(v=2)', lambda: kind(c(v=2)), u, True)
                attempt(t + '(str)', lambda: kind(c('x')), u, True)
                attempt(t + '([])', lambda: kind(c([])), u, TypeError, bodies=0)
                attempt(t + '(1, 2, 3)', lambda: kind(c(1, 2, 3)), u, TypeError, bodies=0)
            for what, c in (('D', D), ('Q', Q)):
                attempt(tag + what + '()', lambda: type(c()) is c, u, True)
            attempt(tag + 'N.m', lambda: nn.m(3), u, 3)
            attempt(tag + 'F()', lambda: F(7).v, u, 7, modes=(0,))
            attempt(tag + 'F() wrong', lambda: F('x').v, u, TypeError, bodies=0, modes=(0,))
            attempt(tag + 'A()', A, u, TypeError, bodies=0)
            attempt(tag + 'PA()', lambda: type(PA()) is PA, u, True)
            pa, pa2 = PA(), PA2()
            M.takelog()
            attempt(tag + 'pure', lambda: pa.pv(1), u, NotImplementedError, bodies=0)
            attempt(tag + 'pure of the class', lambda: A.pv(pa2, 1), u, NotImplementedError, bodies=0)
            attempt(tag + 'pure overridden', lambda: pa2.pv(1), u, 1, bodies=0)
            attempt(tag + 'E()', lambda: E(1), u, TypeError, bodies=0)
            attempt(tag + 'PE()', lambda: type(PE(1)) is PE, u, True)
            attempt(tag + 'f', lambda: f.f(3), u, 3)
            attempt(tag + 'f wrong', lambda: f.f('x'), u, TypeError, bodies=0)
            attempt(tag + 'v', f.v, u, None)
            attempt(tag + 'over', lambda: f.over(3), u, 3)
            attempt(tag + 'over str', lambda: f.over('x'), u, 2)
            attempt(tag + 'over wrong', lambda: f.over([]), u, TypeError, bodies=0)
            attempt(tag + 'small', lambda: f.small(-3), u, -3)
            attempt(tag + 'small out of range', lambda: f.small(300), u, ValueError, bodies=0)
            attempt(tag + 'bad', f.bad, u, UnicodeDecodeError)
            attempt(tag + 'badstr', f.badstr, u, UnicodeDecodeError)
            attempt(tag + 'str', lambda: f.str('abc'), u, 'abc')
            attempt(tag + 'byval', lambda: f.byval(bv).v, u, 6)
            attempt(tag + 'make', lambda: type(f.make(3)) is K, u, True, bodies=2)
            attempt(tag + 'ref', lambda: f.ref(bv).v, u, 6)
            attempt(tag + 'ptr', lambda: f.ptr(k), u, 1)
            attempt(tag + 'ptr None', lambda: f.ptr(None), u, -1)
            attempt(tag + 'ptr wrong', lambda: f.ptr(nn), u, TypeError, bodies=0)
            attempt(tag + 'out', lambda: f.out(4), u, 4)
            attempt(tag + 'vec', lambda: list(f.vec([1, 2])), u, [1, 2])
            attempt(tag + 'vec wrong', lambda: list(f.vec([1, 'x'])), u, TypeError, bodies=0)
            attempt(tag + 'tmpl', lambda: f.tmpl(3), u, 3)
            attempt(tag + 'dflt', lambda: f.dflt(), u, 3)
            x.state((s, default))
    return explore


# --- what always runs with the lock held -------------------------------------

HELD_HEADER = COMMON + r'''
#include <ostream>
struct Z {
    int v;
    Z(int v_ = 0) : v(v_) {}
    Z(Z const &o) : v(o.v) { rec('k'); }
    ~Z() { rec('~'); }
    int get() const { rec('g'); return v; }
    void set(int n) { rec('s'); v = n; }
    Z operator+(Z const &o) const { rec('+'); return Z(v + o.v); }
    Z operator-() const { rec('-'); return Z(-v); }
    Z &operator+=(Z const &o) { rec('i'); v += o.v; return *this; }
    bool operator==(Z const &o) const { rec('='); return v == o.v; }
    bool operator<(Z const &o) const { rec('<'); return v < o.v; }
};
inline std::ostream &operator<<(std::ostream &os, Z const &z) { rec('o'); return os << z.v; }
struct R {
    int n;
    R() : n(1) { }
    void Ref() { rec('r'); n++; }
    void Unref() { rec('u'); if (--n == 0) delete this; }
    int Peek() const { rec('p'); return n; }
    virtual ~R() { rec('~'); }
    virtual int vm() { return 1; }
};
inline int useR(R *r) { rec('c'); return r->n; }
inline R *&held() { static R *r; return r; }
inline void keep(R *r) { rec('c'); held() = r; if (r) r->n++; }
struct FF { int v; FF() : v(0) {} };
inline void freeFF(FF *f) { rec('f'); delete f; }
'''


def held_gen(default):
    def gen(mod):
        import pybindgen.settings
        from pybindgen import param, retval, cppclass
        old = pybindgen.settings.unblock_threads
        pybindgen.settings.unblock_threads = default
        try:
            common_gen(mod)
            Z = mod.add_class('Z')
            Z.add_constructor([param('int', 'v', default_value='0')])
            Z.add_copy_constructor()
            Z.add_instance_attribute('a', 'int', getter='get', setter='set')
            Z.add_binary_numeric_operator('+')
            Z.add_unary_numeric_operator('-')
            Z.add_inplace_numeric_operator('+=')
            Z.add_binary_comparison_operator('==')
            Z.add_binary_comparison_operator('<')
            Z.add_output_stream_operator()
            mod.add_container('std::vector<Z>', 'Z', 'vector', custom_name='Vec')
            R = mod.add_class('R', allow_subclassing=True,
                              memory_policy=cppclass.ReferenceCountingMethodsPolicy(incref_method='Ref', decref_method='Unref', peekref_method='Peek'))
            R.add_constructor([])
            R.add_method('vm', 'int', [], is_virtual=True)
            mod.add_function('useR', 'int', [param('R *', 'r', transfer_ownership=False)])
            mod.add_function('keep', None, [param('R *', 'r', transfer_ownership=False, null_ok=True)])
            FF = mod.add_class('FF', memory_policy=cppclass.FreeFunctionPolicy('freeFF'))
            FF.add_constructor([])
        finally:
            pybindgen.settings.unblock_threads = old
    return gen


def held_explore(default):
    def explore(M, x):
        import copy
        a, b = M.Z(1), M.Z(2)

        def lt():
            return a < b

        def iadd():
            c = M.Z(1)
            c += b
            return c.a

        class PR(M.R):
            pass

        def ref(cls):
            r = cls()
            M.useR(r)
            M.keep(r)
            gc.collect()
            del r
            gc.collect()
            M.keep(None)

        def cycle(cls):
            r = cls()
            if cls is PR:
                r.me = r
            del r
            gc.collect()

        acts = [('get', lambda: a.a), ('set', lambda: setattr(a, 'a', 1)), ('add', lambda: (a + b).a), ('neg', lambda: (-a).a), ('iadd', iadd),
                ('eq', lambda: a == b), ('lt', lt), ('str', lambda: str(a)), ('copy', lambda: copy.copy(a).a), ('vector', lambda: [z.a for z in M.Vec([a, b])]),
                ('ref', lambda: ref(M.R)), ('ref PR', lambda: ref(PR)), ('cycle', lambda: cycle(M.R)), ('cycle PR', lambda: cycle(PR)), ('free', M.FF)]
        for name, f in acts:
            x.case('%s default=%s' % (name, default))
            x.step()
            M.takelog()
            f()
            x.eq(M.gil(), 1, 'lock held afterwards')
            log = M.takelog().split()
            x.check(bool(log), 'nothing ran')
            bad = [e for e in log if e[1] != '1' and not (e[0] == 'c' and default)]
            x.eq(bad, [], 'ran without the lock')
            x.state(name)
    return explore


# --- virtual methods called from every kind of thread -----------------------------

# name: (C++ result, parameters, default result, C++ call, retval/params of the declaration, good results, bad results)
SIGS = [
    ('vi', 'int', 'int n', '7', '1', 'int', [('int', 'n', {})], [3], ['x', None, (1, 2), 1 << 40]),
    ('vv', 'void', '', '', '', None, [], [None], [1, ()]),
    ('vs', 'std::string', 'std::string s', '"d"', '"q"', 'std::string', [('std::string', 's', {})], ['ok'], [1, None, []]),
    ('vk', 'KK', 'KK k', 'KK(4)', 'KK(3)', 'KK', [('KK', 'k', {})], ['K'], [1, None]),
    ('vp', 'int', 'KK *k', '9', '&kk()', 'int', [('KK *', 'k', {'transfer_ownership': False})], [3], ['x', None]),
    ('vo', 'void', 'int &o', '', 'dummy()', None, [('int &', 'o', {'direction': 2})], [3], ['x', None, (1,), ()]),
    ('vt', 'int', 'int &o', '5', 'dummy()', 'int', [('int &', 'o', {'direction': 3})], [(3, 4)], [3, (1, 'x'), (1,), (1, 2, 3), None]),
    ('vb', 'bool', 'double d', 'true', '2.5', 'bool', [('double', 'd', {})], [True, 'a', 0], []),
    ('vd', 'double', 'long long n', '.5', '1LL << 40', 'double', [('long long', 'n', {})], [2.5, 3], ['x', None]),
    ('ve', 'short', 'short n', '1', '2', 'short', [('short', 'n', {})], [3], ['x', 1 << 17, None]),
    ('vl', 'std::vector<int>', 'std::vector<int> v', 'std::vector<int>(2, 1)', 'std::vector<int>(3, 2)', 'std::vector<int>',
     [('std::vector<int>', 'v', {})], [[1, 2]], [3, ['x'], None]),
]
KINDS = ['plain', 'const', 'pure', 'protected']


def sig_methods():
    for name, ret, par, dflt, call, r, ps, good, bad in SIGS:
        for kind in KINDS:
            yield name + '_' + kind, kind, ret, par, dflt, call, r, ps, good, bad


def virt_header():
    out = [COMMON, 'struct KK { int v; KK(int v_ = 0) : v(v_) { } };', 'inline KK &kk() { static KK k(8); return k; }', 'inline int &dummy() { static int n; return n; }',
           'struct Call { virtual ~Call() {} };']
    decls, prot, calls = [], [], []
    for i, (m, kind, ret, par, dflt, call, r, ps, good, bad) in enumerate(sig_methods()):
        d = 'virtual %s %s(%s)%s' % (ret, m, par, ' const' if kind == 'const' else '')
        d += ' = 0;' if kind == 'pure' else ' { rec(\'d\'); %s }' % ('return %s;' % dflt if dflt else '')
        (prot if kind == 'protected' else decls).append('    ' + d)
        calls.append('        case %d: %s(%s); break;' % (i, m, call))
    out.append('struct V {\n    V() {} virtual ~V() {}\n%s\n    void dispatch(int i) {\n        switch (i) {\n%s\n        }\n    }\nprotected:\n%s\n};'
               % ('\n'.join(decls), '\n'.join(calls), '\n'.join(prot)))
    out.append(r'''
inline void direct(V *h, int i) { rec('<'); h->dispatch(i); rec('>'); }
inline void call_b(V *h, int i) { direct(h, i); }
inline void call_u(V *h, int i) { direct(h, i); }
inline void call_t(V *h, int i) { rec('('); std::thread t([&] { direct(h, i); if (PyGILState_GetThisThreadState()) rec('!'); }); t.join(); rec(')'); }
inline void call_e(V *h, int i) { rec('('); std::thread t([&] { PyGILState_STATE s = PyGILState_Ensure(); direct(h, i); PyGILState_Release(s); }); t.join(); rec(')'); }
inline void call_s(V *h, int i) { rec('('); std::thread t([&] {
    PyGILState_STATE s = PyGILState_Ensure(); PyThreadState *ts = PyEval_SaveThread(); direct(h, i); PyEval_RestoreThread(ts); PyGILState_Release(s); }); t.join(); rec(')'); }
inline void call_2(V *h, int i) { rec('('); std::thread t([&] { direct(h, i); direct(h, i); }); t.join(); rec(')'); }
''')
    return '\n'.join(out)


CALLERS = {'b': (1, '', ''), 'u': (0, '', ''), 't': (0, '(0 ', ')0 '), 'e': (1, '(0 ', ')0 '), 's': (0, '(0 ', ')0 '), '2': (0, '(0 ', ')0 ')}


def virt_gen(mod):
    from pybindgen import param, retval
    common_gen(mod)
    mod.add_container('std::vector<int>', 'int', 'vector')
    KK = mod.add_class('KK')
    KK.add_constructor([])
    KK.add_constructor([param('int', 'v')])
    KK.add_copy_constructor()
    KK.add_instance_attribute('v', 'int')
    V = mod.add_class('V', allow_subclassing=True)
    V.add_constructor([])
    for m, kind, ret, par, dflt, call, r, ps, good, bad in sig_methods():
        V.add_method(m, r, [param(t, n, **kw) for t, n, kw in ps], is_virtual=True, is_const=kind == 'const', is_pure_virtual=kind == 'pure',
                     visibility='protected' if kind == 'protected' else 'public')
    for c in CALLERS:
        mod.add_function('call_' + c, None, [param('V *', 'h', transfer_ownership=False), param('int', 'i')], unblock_threads=c != 'b')
    mod.add_function('rec', None, [param('char', 'what')], unblock_threads=False)


def virt_explore(M, x):
    sys.excepthook = lambda *a: None
    n = 0
    for i, (m, kind, ret, par, dflt, call, r, ps, good, bad) in enumerate(sig_methods()):
        outcomes = [('absent', None)] + [('good', g) for g in good] + [('bad', b) for b in bad]
        outcomes += [('raises', ValueError), ('raises', SystemError), ('raises', M.Oops), ('builtin', len), ('property', None), ('calls up', None)]
        for how, val in outcomes:
            d = {}

            def run(self, *a, **k):
                M.rec(b'p')
                if how == 'raises':
                    raise val('no')
                if how == 'calls up':
                    return getattr(M.V, m)(self, *a)
                return M.KK(5) if val == 'K' else val
            if how == 'property':
                def prop(self):
                    M.rec(b'p')
                    raise ValueError
                d[m] = property(prop)
            elif how == 'builtin':
                d[m] = len
            elif how != 'absent':
                d[m] = run
            P = type('P', (M.V,), d)
            h = P()
            for c in sorted(CALLERS):
                state, before, after = CALLERS[c]
                x.case('%s %s %r from %s' % (m, how, val, c))
                x.step()
                M.takelog()
                getattr(M, 'call_' + c)(h, i)
                x.eq(M.gil(), 1, 'lock held afterwards')
                log = M.takelog()
                # the default implementation runs with the caller's state, whoever calls it from Python decides for itself
                python = '' if how in ('absent', 'builtin') else 'p1 '
                inner = python
                if kind != 'pure':
                    if how in ('absent', 'builtin', 'property', 'bad', 'raises'):
                        inner += 'd%d ' % state if how in ('absent', 'builtin', 'property') or dflt else ''
                    elif how == 'calls up':
                        inner += 'd1 '
                want = before + ('<%d %s>%d ' % (state, inner, state)) * (2 if c == '2' else 1) + after
                got = log
                if how in ('bad', 'raises', 'calls up', 'good'):
                    # a failing override may or may not be followed by the default implementation (with the caller's state)
                    fallback = before + ('<%d %sd%d >%d ' % (state, python, state, state)) * (2 if c == '2' else 1) + after
                    alone = before + ('<%d %s>%d ' % (state, python, state)) * (2 if c == '2' else 1) + after
                    again = before + ('<%d %sd1 d%d >%d ' % (state, python, state, state)) * (2 if c == '2' else 1) + after
                    x.check(got in (want, fallback, alone, again), 'lock states: %s, expected %s' % (got, want))
                else:
                    x.eq(got, want, 'lock states')
                sys.last_exc = sys.last_value = sys.last_traceback = sys.last_type = None
            x.state((m, how))
        n += 1


# --- nested calls: a script is interpreted by C++ bodies and overrides in turn -----------------

SCRIPT_HEADER = COMMON + r'''
struct Prog { std::string s; size_t pos; std::string log; };
inline Prog &prog(int tid) { static Prog p[2]; return p[tid]; }
inline void note(int tid, char what) { Prog &p = prog(tid); p.log += what; p.log += PyGILState_Check() ? '1' : '0'; p.log += ' '; }
inline int next(int tid) { Prog &p = prog(tid); return p.pos < p.s.size() ? p.s[p.pos++] : 'r'; }
inline void load(int tid, std::string const &s) { Prog &p = prog(tid); p.s = s; p.pos = 0; p.log.clear(); }
inline std::string logof(int tid) { return prog(tid).log; }

// the schedule: which thread makes the next step
struct Sched { std::mutex m; std::condition_variable cv; std::string order; size_t pos; bool on, dead; int turns[2]; };
inline Sched &sched() { static Sched *s = new Sched(); return *s; }
inline void schedule(std::string const &order, bool on) {
    Sched &s = sched(); std::lock_guard<std::mutex> g(s.m); s.order = order; s.pos = 0; s.on = on; s.dead = false; s.turns[0] = s.turns[1] = 0; }
inline bool deadlocked() { return sched().dead; }
inline int turnsof(int tid) { return sched().turns[tid]; }
inline void turn(int tid) {
    Sched &s = sched();
    std::unique_lock<std::mutex> l(s.m);
    s.turns[tid]++;
    if (!s.on || s.dead) return;
    if (!s.cv.wait_for(l, std::chrono::seconds(10), [&] { return s.dead || s.pos >= s.order.size() || s.order[s.pos] == '0' + tid; })) s.dead = true;
    s.pos++;
    s.cv.notify_all();
}
struct H {
    int tid;
    H(int t) : tid(t) {}
    virtual ~H() {}
    virtual int v() { note(tid, 'd'); return 1; }
    int blk();
    int ubl();
    int nop_u() { note(tid, 'n'); return 2; }
};
inline int run(H *h, char kind) {
    int t = h->tid;
    bool free = kind != 'b';
    note(t, kind);
    if (free) turn(t);
    for (;;) {
        int c = next(t);
        if (c == 'v') { h->v(); note(t, kind); }
        else if (c == 't') {
            std::thread th([&] { run(h, 'f'); });
            th.join();
            note(t, kind);
        }
        else if (c == 'x' && kind != 'f') throw Oops(1);
        else break;
        if (free) turn(t);
    }
    return 1;
}
inline int H::blk() { return run(this, 'b'); }
inline int H::ubl() { return run(this, 'u'); }
inline int fblk(H *h) { return run(h, 'b'); }
inline int fubl(H *h) { return run(h, 'u'); }
inline void both(H *a, H *b) { std::thread s([=] { run(a, 'f'); }), t([=] { run(b, 'f'); }); s.join(); t.join(); }
'''


def script_gen(mod):
    from pybindgen import param
    exc = common_gen(mod)[0]
    H = mod.add_class('H', allow_subclassing=True)
    H.add_constructor([param('int', 't')])
    H.add_method('v', 'int', [], is_virtual=True)
    H.add_method('blk', 'int', [], throw=[exc])
    H.add_method('ubl', 'int', [], throw=[exc], unblock_threads=True)
    H.add_method('nop_u', 'int', [], unblock_threads=True)
    h = param('H *', 'h', transfer_ownership=False)
    mod.add_function('fblk', 'int', [h], throw=[exc])
    mod.add_function('fubl', 'int', [h], throw=[exc], unblock_threads=True)
    mod.add_function('both', None, [param('H *', 'a', transfer_ownership=False), param('H *', 'b', transfer_ownership=False)], unblock_threads=True)
    tid = param('int', 'tid')
    mod.add_function('note', None, [tid, param('char', 'what')])
    mod.add_function('next', 'int', [tid])
    mod.add_function('load', None, [tid, param('std::string const &', 's')])
    mod.add_function('logof', 'std::string', [tid])
    mod.add_function('schedule', None, [param('std::string const &', 'order'), param('bool', 'on')])
    mod.add_function('deadlocked', 'bool', [])
    mod.add_function('turnsof', 'int', [tid])
    mod.add_function('turn', None, [tid], unblock_threads=True)


def scripts(start, length, depth):
    """every complete or full-length script"""
    frontier = [('', start)]
    for n in range(length):
        new = []
        for text, stack in frontier:
            for c in 'buBUnxr' if stack[-1] == 'p' else 'vtxr':
                after = step(stack, c)
                if after is None or len(after) > depth:
                    continue
                if not after or n == length - 1:
                    yield text + c
                else:
                    new.append((text + c, after))
        frontier = new


def step(stack, c):
    """the running calls after a step, None if the step is none of the running one's"""
    top = stack[-1]
    if top == 'p':
        return stack + c.lower() if c in 'buBU' else stack if c == 'n' else stack[:-1]
    if c == 'v':
        return stack + 'p'
    if c == 't':
        return None if top == 'b' else stack + 'f'
    return None if c == 'x' and top == 'f' else stack[:-1]


def reference(start, text):
    """an interpreter with an explicit notion of who called whom"""
    log, turns = [], [0]
    it = iter(text)

    class Cpp(Exception):
        pass

    def nxt():
        return next(it, 'r')

    def body(kind):
        held = '1' if kind == 'b' else '0'

        def free():
            turns[0] += kind != 'b'
        log.append(kind + held)
        free()
        while True:
            c = nxt()
            if c == 'v':
                python(held)
            elif c == 't':
                body('f')
            elif c == 'x' and kind != 'f':
                raise Cpp
            else:
                return
            log.append(kind + held)
            free()

    def python(callers_state):
        log.append('p1')
        turns[0] += 1
        while True:
            c = nxt()
            if c in 'buBU':
                try:
                    body(c.lower())
                    log.append('p1')
                except Cpp:
                    log.append('e1')
            elif c == 'n':
                log.extend(['n0', 'p1'])
            elif c == 'x':
                log.append('d' + callers_state)
                return
            else:
                return
    try:
        body(start)
        log.append('m1')
    except Cpp:
        log.append('E1')
    return ' '.join(log), turns[0]


class Runner(object):
    def __init__(self, M):
        self.M = M

        class P(M.H):
            def v(self):
                t = self.t
                M.note(t, b'p')
                M.turn(t)
                while True:
                    c = chr(M.next(t))
                    try:
                        if c == 'b':
                            self.blk()
                        elif c == 'u':
                            self.ubl()
                        elif c == 'B':
                            M.fblk(self)
                        elif c == 'U':
                            M.fubl(self)
                        elif c == 'n':
                            self.nop_u()
                        elif c == 'x':
                            raise ValueError('override')
                        else:
                            return 3
                        M.note(t, b'p')
                    except M.Oops:
                        M.note(t, b'e')
        self.objs = []
        for t in (0, 1):
            p = P(t)
            p.t = t
            self.objs.append(p)

    def start(self, tid, start):
        M, h = self.M, self.objs[tid]
        try:
            {'b': h.blk, 'u': h.ubl}[start]()
            M.note(tid, b'm')
        except M.Oops:
            M.note(tid, b'E')


def script_explore(length, depth):
    def explore(M, x):
        sys.excepthook = lambda *a: None
        R = Runner(M)
        M.schedule('', False)
        gc.freeze()
        for start in 'bu':
            for text in scripts(start, length, depth):
                want, turns = reference(start, text)
                x.case('%s: %s' % (start, text))
                x.step(len(text) + 1)
                M.load(0, text)
                R.start(0, start)
                x.eq(M.logof(0).strip(), want, 'lock states')
                x.eq(M.gil(), 1, 'lock held afterwards')
                x.state(want)
        sys.last_exc = sys.last_value = sys.last_traceback = sys.last_type = None
    return explore


PROGRAMS = [('u', 'r'), ('u', 'vr'), ('u', 'vnr'), ('u', 'vx'), ('u', 'vbrr'), ('u', 'vurrr'), ('u', 'tvrr'), ('b', 'vur'),
            ('u', 'vrvr'), ('u', 'vxvr'), ('b', 'vuvrx'), ('u', 'vbvrx'), ('u', 'vUxrx'), ('b', 'vBvxrr')]


def sched_explore(count, part, parts):
    def explore(M, x):
        sys.excepthook = lambda *a: None
        R = Runner(M)
        programs = PROGRAMS[:count]
        pairs = [p for p in itertools.combinations_with_replacement(programs, 2)]
        for k, (pa, pb) in enumerate(pairs):
            if k % parts != part:
                continue
            wa, na = reference(*pa)
            wb, nb = reference(*pb)
            for foreign in (False, True):
                if foreign and (pa[0] == 'b' or pb[0] == 'b' or 'x' in pa[1][-1:] or 'x' in pb[1][-1:]):
                    continue
                for zeros in itertools.combinations(range(na + nb), na):
                    order = ''.join('0' if i in zeros else '1' for i in range(na + nb))
                    x.case('%s%s | %s%s | %s %s' % (pa + pb + (order, 'foreign' if foreign else 'python')))
                    x.step(len(order))
                    M.load(0, pa[1])
                    M.load(1, pb[1])
                    M.schedule(order, True)
                    if foreign:
                        M.both(R.objs[0], R.objs[1])
                        got = [M.logof(0).strip(), M.logof(1).strip()]
                        want = [foreign_log(*pa), foreign_log(*pb)]
                    else:
                        ts = [threading.Thread(target=R.start, args=(t, p[0])) for t, p in ((0, pa), (1, pb))]
                        for t in ts:
                            t.start()
                        for t in ts:
                            t.join()
                        got = [M.logof(0).strip(), M.logof(1).strip()]
                        want = [wa, wb]
                    x.eq(M.deadlocked(), False, 'a thread that waits for its turn keeps the other from running')
                    x.eq(got, want, 'lock states')
                    x.eq((M.turnsof(0), M.turnsof(1)), (na, nb), 'steps')
                    x.eq(M.gil(), 1, 'lock held afterwards')
                    x.state((pa, pb, order))
                    if M.deadlocked():
                        return
        sys.last_exc = sys.last_value = sys.last_traceback = sys.last_type = None
    return explore


def foreign_log(start, text):
    """the log of a program whose outermost C++ body is run by a thread of C++"""
    want, turns = reference(start, text)
    log = want.split()
    out, depth = [], 0
    # only records of the outermost body change their letter
    it = outer_records(start, text)
    for i, e in enumerate(log[:-1]):
        out.append('f' + e[1:] if i in it else e)
    return ' '.join(out)


def outer_records(start, text):
    log_index, outer = [0], set()
    it = iter(text)

    class Cpp(Exception):
        pass

    def add(is_outer=False):
        if is_outer:
            outer.add(log_index[0])
        log_index[0] += 1

    def body(kind, is_outer):
        add(is_outer)
        while True:
            c = next(it, 'r')
            if c == 'v':
                python()
            elif c == 't':
                body('f', False)
            elif c == 'x' and kind != 'f':
                raise Cpp
            else:
                return
            add(is_outer)

    def python():
        add()
        while True:
            c = next(it, 'r')
            if c in 'buBU':
                try:
                    body(c.lower(), False)
                except Cpp:
                    pass
                add()
            elif c == 'n':
                add()
                add()
            else:
                if c == 'x':
                    add()
                return
    try:
        body(start, True)
    except Cpp:
        pass
    return outer


# --- objects of Python classes destroyed by C++ ----------------------------------------

DESTROY_HEADER = COMMON + r'''
struct D {
    int v;
    D(int v_ = 0) : v(v_) {}
    virtual ~D() { rec('~'); }
    virtual int vm() { return v; }
};
struct R {
    int v, n;
    R(int v_ = 0) : v(v_), n(1) {}
    virtual ~R() { rec('~'); }
    virtual int vm() { return v; }
    void Ref() { n++; }
    void Unref() { if (--n == 0) delete this; }
    int Peek() const { return n; }
};
inline std::vector<D *> &ds() { static std::vector<D *> v; return v; }
inline std::vector<R *> &rs() { static std::vector<R *> v; return v; }
inline void giveD(D *d) { ds().push_back(d); }
inline void giveR(R *r) { r->Ref(); rs().push_back(r); }
inline void drop() { for (size_t i = 0; i < ds().size(); i++) delete ds()[i]; ds().clear(); for (size_t i = 0; i < rs().size(); i++) rs()[i]->Unref(); rs().clear(); }
inline void drop_b() { rec('('); drop(); rec(')'); }
inline void drop_u() { rec('('); drop(); rec(')'); }
inline void drop_t() { rec('('); std::thread t([] { rec('<'); drop(); rec('>'); if (PyGILState_GetThisThreadState()) rec('!'); }); t.join(); rec(')'); }
'''


def destroy_gen(mod):
    from pybindgen import param, cppclass
    common_gen(mod)
    D = mod.add_class('D', allow_subclassing=True)
    R = mod.add_class('R', allow_subclassing=True,
                      memory_policy=cppclass.ReferenceCountingMethodsPolicy(incref_method='Ref', decref_method='Unref', peekref_method='Peek'))
    for c in (D, R):
        c.add_constructor([param('int', 'v', default_value='0')])
        c.add_method('vm', 'int', [], is_virtual=True)
    mod.add_function('giveD', None, [param('D *', 'd', transfer_ownership=True)])
    mod.add_function('giveR', None, [param('R *', 'r', transfer_ownership=False)])
    for c in 'but':
        mod.add_function('drop_' + c, None, [], unblock_threads=c != 'b')
    mod.add_function('rec', None, [param('char', 'what')], unblock_threads=False)


def destroy_explore(M, x):
    class Dead(object):
        def __del__(self):
            M.rec(b'v')

    def make(base, fin):
        d = {}
        if fin:
            def fini(self):
                M.rec(b'p')
            d['__del__'] = fini
        return type('P', (base,), d)
    for kind in 'DR':
        for cls in ('python', 'python with __del__', 'plain'):
            for keep in (False, True):
                for count in (1, 2):
                    for where in 'but':
                        x.case('%s %s%s x%d dropped %s' % (kind, cls, ' kept' if keep else '', count, where))
                        x.step()
                        base = getattr(M, kind)
                        P = base if cls == 'plain' else make(base, '__del__' in cls)
                        refs, kept = [], []
                        for i in range(count):
                            o = P(i)
                            if cls != 'plain':
                                o.child = Dead()
                            refs.append(weakref.ref(o) if cls != 'plain' else (lambda: None))
                            getattr(M, 'give' + kind)(o)
                            if keep and (kind == 'R' or cls != 'plain'):
                                kept.append(o)
                            del o
                        M.takelog()
                        getattr(M, 'drop_' + where)()
                        x.eq(M.gil(), 1, 'lock held afterwards')
                        gc.collect()
                        log = M.takelog().split()
                        c = '1' if where == 'b' else '0'
                        bad = [e for e in log if e[0] in 'pv' and e[1] != '1' or e[0] in '()<>' and e[1] != c or e[0] == '!']
                        x.eq(bad, [], 'lock states in %s' % ' '.join(log))
                        if not keep and cls != 'plain':
                            x.eq([r() is None for r in refs], [True] * count, 'Python objects gone')
                            x.eq(sum(e == 'v1' for e in log), count, 'attributes gone')
                            x.eq(sum(e == 'p1' for e in log), count if '__del__' in cls else 0, '__del__')
                        x.state((kind, cls, keep, count, where))
                        del kept[:]
                        gc.collect()
    M.takelog()


def scenarios(tier):
    thorough = tier == 'thorough'
    cxx = ['-std=c++14', '-pthread']
    out = []
    for default in (False, True):
        out.append(Scenario('forms_%s' % default, forms_header(), forms_gen(default), forms_explore(default), cxxflags=cxx))
        out.append(Scenario('held_%s' % default, HELD_HEADER, held_gen(default), held_explore(default), cxxflags=cxx))
    out.append(Scenario('virtual', virt_header(), virt_gen, virt_explore, cxxflags=cxx))
    out.append(Scenario('destroy', DESTROY_HEADER, destroy_gen, destroy_explore, cxxflags=cxx))
    length, depth = (8, 5) if thorough else (6, 5)
    out.append(Scenario('nested', SCRIPT_HEADER, script_gen, script_explore(length, depth), cxxflags=cxx))
    parts = 6
    for part in range(parts):
        out.append(Scenario('interleaved_%d' % part, SCRIPT_HEADER, script_gen, sched_explore(14 if thorough else 8, part, parts), cxxflags=cxx))
    return out
