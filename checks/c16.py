"""C16: declared C++ exceptions surface as the matching Python exception, with no other effect."""
import gc
import itertools
import sys
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('for every ordered list of up to 3 declared exception types over a hierarchy, every kind of callable and every thrown object, the Python '
        'exception is compared with the first declared C++ type that matches, and live objects, references, lock and interpreter state with those before the call')
BOUNDS = {'quick': '41+ throw lists of up to 3 of 4 types x 12 kinds of callables x 8 thrown objects x 17 parameter/result signatures',
          'thorough': 'throw lists of up to 4 types, address sanitizer'}
ASSUMPTIONS = ['a call that throws has not taken ownership of its arguments', 'exceptions that are not declared terminate the process and are not thrown', 'messages are valid UTF-8']

HDR = '''
#include <string>
#include <vector>
#include <list>
#include <exception>
#include <stdexcept>
struct E { Track t; std::string m; E(std::string const &m_) : m(m_) {} virtual ~E() {} const char *msg() const { return m.c_str(); } };
struct E2 : E { E2(std::string const &m_) : E(m_) {} };
struct E3 : E2 { E3(std::string const &m_) : E2(m_) {} };
struct U2 : E2 { U2(std::string const &m_) : E2(m_) {} };
namespace ns { struct X { int code; X() : code(7) {} }; }
struct Y : ns::X { };
struct Out { struct In { Track t; }; Out() {} };
struct K {
    Track t; int v;
    K(int v_ = 0) : v(v_) {}
};
inline std::string &message() { static std::string m; return m; }
inline int &kind() { static int k; return k; }
inline long &calls() { static long k; return k; }
inline void arm(int k, std::string m) { kind() = k; message() = m; }
inline long ncalls() { return calls(); }
inline void boom() {
    calls()++;
    switch (kind()) {
    case 1: throw E(message());
    case 2: throw E2(message());
    case 3: throw E3(message());
    case 4: throw U2(message());
    case 5: throw ns::X();
    case 6: throw Y();
    case 7: throw std::out_of_range(message());
    case 8: throw std::runtime_error(message());
    case 9: throw Out::In();
    }
}
'''
# what is thrown: name -> chain of types, most derived first
THROWN = {1: ['E'], 2: ['E2', 'E'], 3: ['E3', 'E2', 'E'], 4: ['U2', 'E2', 'E'], 5: ['X'], 6: ['Y', 'X'], 7: ['oor', 'logic_error', 'exception'],
          8: ['runtime_error', 'exception'], 9: ['In']}
TYPES = ['E', 'E2', 'X', 'exception', 'oor', 'E3', 'In']
MSG = {'E': True, 'E2': True, 'E3': True, 'X': False, 'exception': True, 'oor': True, 'In': False}
KINDS = ['fn', 'fn_unblocked', 'fn_over', 'fn_templ', 'fn_ns', 'method', 'method_static', 'method_const', 'method_virtual', 'method_over', 'method_unblocked',
         'as_method', 'ctor', 'ctor_over', 'ctor_unblocked', 'ctor_virtual']


def lists(tier):
    out = []
    for n in range(1, 5 if tier == 'thorough' else 4):
        out += list(itertools.permutations(['E', 'E2', 'X', 'exception'], n))
    out += [('oor', 'exception'), ('exception', 'oor'), ('E3', 'E2', 'E'), ('E3', 'E'), ('E', 'E3'), ('In',), ('In', 'E'), ('E', 'In'), ('oor',), ('X', 'In', 'oor')]
    return out


def decl(i):
    return '''
inline int f%(i)d(int a) { boom(); return a; }
inline int u%(i)d(int a) { boom(); return a; }
inline int o%(i)d(int a) { boom(); return a; }
inline int o%(i)d(std::string a) { boom(); return a.size() + 1000; }
template <class T> T t%(i)d(T a) { boom(); return a; }
namespace ns { inline int n%(i)d(int a) { boom(); return a; } }
struct C%(i)d { Track t; virtual ~C%(i)d() {} C%(i)d() {}
    C%(i)d(int a) { if (a) boom(); } 
    int m(int a) { t.use(); boom(); return a; }
    static int s(int a) { boom(); return a; }
    int c(int a) const { t.use(); boom(); return a; }
    virtual int v(int a) { t.use(); boom(); return a; }
    int o(int a) { t.use(); boom(); return a; }
    int o(std::string a) { t.use(); boom(); return a.size() + 1000; }
    int u(int a) { t.use(); boom(); return a; }
};
inline int h%(i)d(C%(i)d *self, int a) { self->t.use(); boom(); return a; }
struct D%(i)d { Track t; int a; D%(i)d(int a_) : a(a_) { boom(); } D%(i)d(std::string s) : a(s.size() + 1000) { boom(); } };
struct W%(i)d { Track t; int a; W%(i)d(int a_) : a(a_) { boom(); } };
struct V%(i)d { Track t; int a; virtual ~V%(i)d() {} V%(i)d(int a_) : a(a_) { boom(); } virtual int get() { return a; } };
''' % dict(i=i)


def add_exceptions(mod):
    exc = {}
    exc['E'] = mod.add_exception('E', message_rvalue='%(EXC)s.msg()')
    exc['E2'] = mod.add_exception('E2', parent=exc['E'], message_rvalue='%(EXC)s.msg()', custom_name='Second')
    exc['E3'] = mod.add_exception('E3', parent=exc['E2'], message_rvalue='%(EXC)s.msg()')
    exc['X'] = mod.add_exception('X', foreign_cpp_namespace='ns')
    exc['exception'] = mod.add_exception('exception', foreign_cpp_namespace='std', message_rvalue='%(EXC)s.what()')
    exc['oor'] = mod.add_exception('out_of_range', foreign_cpp_namespace='std', message_rvalue='%(EXC)s.what()', custom_name='IndexError', is_standard_error=True)
    Out = mod.add_class('Out')
    Out.add_constructor([])
    from pybindgen.cppexception import CppException
    exc['In'] = CppException('In', outer_class=Out)
    mod._add_exception_obj(exc['In'])
    mod.add_function('arm', None, [param_('int', 'k'), param_('std::string', 'm')])
    mod.add_function('ncalls', 'long', [])
    return exc


def param_(*a, **k):
    from pybindgen import param
    return param(*a, **k)


def python_exc(M, n):
    return {'E': lambda: M.E, 'E2': lambda: M.Second, 'E3': lambda: M.E3, 'X': lambda: M.X, 'exception': lambda: M.exception,
            'oor': lambda: IndexError, 'In': lambda: M.Out.In}[n]()


def expected(lst, k):
    for n in lst:
        if n in THROWN[k]:
            return n
    return None


MESSAGES = ['boom', '', 'h\u00e9 \u20ac', 'x' * 300]


def gen_lists(chunk):
    def gen(mod):
        exc = add_exceptions(mod)
        for i, lst in chunk:
            th = [exc[n] for n in lst]
            a = lambda: [param_('int', 'a')]
            s = lambda: [param_('std::string', 'a')]
            mod.add_function('f%d' % i, 'int', a(), throw=th)
            mod.add_function('u%d' % i, 'int', a(), throw=th, unblock_threads=True)
            mod.add_function('o%d' % i, 'int', a(), throw=th)
            mod.add_function('o%d' % i, 'int', s(), throw=th)
            mod.add_function('t%d' % i, 'int', a(), throw=th, template_parameters=['int'], custom_name='t%d' % i)
            mod.add_function('n%d' % i, 'int', a(), throw=th, foreign_cpp_namespace='ns')
            C = mod.add_class('C%d' % i)
            C.add_constructor([])
            C.add_method('m', 'int', a(), throw=th)
            C.add_method('s', 'int', a(), throw=th, is_static=True)
            C.add_method('c', 'int', a(), throw=th, is_const=True)
            C.add_method('v', 'int', a(), throw=th, is_virtual=True)
            C.add_method('o', 'int', a(), throw=th)
            C.add_method('o', 'int', s(), throw=th)
            C.add_method('u', 'int', a(), throw=th, unblock_threads=True)
            D = mod.add_class('D%d' % i)
            D.add_constructor(a(), throw=th)
            D.add_constructor(s(), throw=th)
            D.add_instance_attribute('a', 'int')
            W = mod.add_class('W%d' % i)
            W.add_constructor(a(), throw=th, unblock_threads=True)
            W.add_instance_attribute('a', 'int')
            V = mod.add_class('V%d' % i, allow_subclassing=True)
            V.add_constructor(a(), throw=th)
            V.add_method('get', 'int', [], is_virtual=True)
            V.add_instance_attribute('a', 'int')
    return gen


def callables(M, i):
    C = getattr(M, 'C%d' % i)
    D, W, V = getattr(M, 'D%d' % i), getattr(M, 'W%d' % i), getattr(M, 'V%d' % i)
    P = type('P', (V,), {})

    class Q(V):
        def __init__(self, a):
            V.__init__(self, a)
    c = C()
    ident = lambda r: r
    geta = lambda r: r.a
    return c, [('function', getattr(M, 'f%d' % i), 5, 5, ident), ('unblocked function', getattr(M, 'u%d' % i), 5, 5, ident),
               ('overload 1', getattr(M, 'o%d' % i), 5, 5, ident), ('overload 2', getattr(M, 'o%d' % i), 'abc', 1003, ident),
               ('template', getattr(M, 't%d' % i), 5, 5, ident), ('namespace', getattr(M, 'n%d' % i), 5, 5, ident),
               ('method', c.m, 5, 5, ident), ('static', C.s, 5, 5, ident), ('static by instance', c.s, 5, 5, ident), ('const method', c.c, 5, 5, ident),
               ('virtual method', c.v, 5, 5, ident), ('overloaded method 1', c.o, 5, 5, ident), ('overloaded method 2', c.o, 'abc', 1003, ident),
               ('unblocked method', c.u, 5, 5, ident),
               ('constructor 1', D, 5, 5, geta), ('constructor 2', D, 'abc', 1003, geta), ('unblocked constructor', W, 5, 5, geta),
               ('constructor of a virtual class', V, 5, 5, geta), ('constructor of a Python subclass', P, 5, 5, geta),
               ('constructor called by a Python subclass', Q, 5, 5, geta)]


def explore_lists(chunk):
    def explore(M, x):
        lib = x.clib()

        def classes():
            x.eq([M.E.__bases__, M.Second.__bases__, M.E3.__bases__, M.X.__bases__], [(Exception,), (M.E,), (M.Second,), (Exception,)], 'bases')
            x.check(not hasattr(M, 'E2'), 'the C++ name of a renamed exception is there too')
            x.check(not hasattr(M, 'out_of_range') and not hasattr(M, 'IndexError'), 'a class for the standard error was made')
            x.eq([M.E.__name__, M.Second.__name__, M.X.__name__, M.exception.__name__, M.Out.In.__name__], ['E', 'Second', 'X', 'exception', 'In'], 'names')
            x.eq([M.E.__module__, M.Second.__module__], [M.__name__] * 2, 'modules')
            for t in (M.E, M.Second, M.E3, M.X, M.exception, M.Out.In):
                x.eq(str(t('a')), 'a', 'an instance made by Python')
        x.run('classes', classes)

        def one(i, lst, ci, k, msg, reps):
            gc.collect()
            live0 = lib.pbmc_live()
            c, cs = callables(M, i)
            name, fn, arg, res, get = cs[ci]
            M.arm(0, '')
            fn(arg)         # warm-up
            gc.collect()
            M.arm(k, msg)
            live = lib.pbmc_live()
            n = M.ncalls()
            x.step()
            for _ in range(reps):
                try:
                    r = fn(arg)
                except Exception as e:
                    got = e
                else:
                    got = None
                    x.eq(get(r), res, 'result')
                    del r
                if k:
                    w = expected(lst, k)
                    want = python_exc(M, w)
                    x.check(type(got) is want, 'got %r, expected %s' % (got, want))
                    if got is not None:
                        x.eq(got.args, (msg,) if MSG[w] else (), 'message')
                        got.__traceback__ = None
                    x.check(sys.exc_info() == (None, None, None), 'an exception is left')
                else:
                    x.eq(got, None, 'exception')
                del got
            x.eq(M.ncalls(), n + reps, 'calls')
            gc.collect()
            x.eq(lib.pbmc_live(), live, 'live objects')
            # afterwards everything works
            M.arm(0, '')
            r = fn(arg)
            x.eq(get(r), res, 'result afterwards')
            del r, fn, c, cs, get
            gc.collect()
            x.eq(lib.pbmc_live(), live0, 'live objects in the end')
            x.eq(lib.pbmc_bad(), 0, 'bad uses')
        for i, lst in chunk:
            for ci in range(20):
                for k in [0] + [k for k in THROWN if expected(lst, k)]:
                    for mi, msg in enumerate(MESSAGES if k in (1, 7) else MESSAGES[:1]):
                        x.state((lst, ci, k, mi))
                        x.run('throw=%s callable %d thrown %s message %d' % ('+'.join(lst), ci, THROWN[k][0] if k else 'nothing', mi), one, i, lst, ci, k, msg, 1 if mi else 2)
    return explore


# -- signatures: what a throwing call has converted, and what it would have returned

SIGS = [  # name, C++ result, C++ parameters, body, retval spec, param specs, python args, expected result, needs (for stability)
    ('str', 'std::string', 'std::string a', 'return a;', "retval('std::string')", ["param('std::string', 'a')"], lambda M: ('abc',), 'abc'),
    ('cstr', 'const char *', 'const char *a', 'return a;', "retval('const char *')", ["param('const char *', 'a')"], lambda M: ('abc',), 'abc'),
    ('void', 'void', 'K const &a', '', 'None', ["param('K const &', 'a')"], lambda M: (M.K(3),), None),
    ('kval', 'K', 'K a', 'return a;', "retval('K')", ["param('K', 'a')"], lambda M: (M.K(3),), ('K', 3)),
    ('kref', 'K', 'K &a', 'return a;', "retval('K')", ["param('K &', 'a')"], lambda M: (M.K(3),), ('K', 3)),
    ('kout', 'void', 'K &a', 'a.v = 9;', 'None', ["param('K &', 'a', direction=2)"], lambda M: (), ('K', 9)),
    ('kinout', 'int', 'K &a', 'a.v = 9; return 4;', "retval('int')", ["param('K &', 'a', direction=3)"], lambda M: (M.K(3),), 4),
    ('kptr', 'K *', 'K *a', 'return new K(a->v + 1);', "retval('K *', caller_owns_return=True)", ["param('K *', 'a', transfer_ownership=False)"], lambda M: (M.K(3),), ('K', 4)),
    ('knull', 'int', 'K *a', 'return a ? a->v : -1;', "retval('int')", ["param('K *', 'a', transfer_ownership=False, null_ok=True)"], lambda M: (None,), -1),
    ('iout', 'int', 'int *a, int &b', '*a = 5; b = 6; return 4;', "retval('int')", ["param('int *', 'a', direction=2)", "param('int &', 'b', direction=2)"], lambda M: (), (4, 5, 6)),
    ('iinout', 'int', 'int *a, int &b', '*a += 5; b += 6; return 4;', "retval('int')", ["param('int *', 'a', direction=3)", "param('int &', 'b', direction=3)"], lambda M: (1, 2), (4, 6, 8)),
    ('vec', 'std::vector<K>', 'std::vector<K> a', 'return a;', "retval('std::vector<K>')", ["param('std::vector<K>', 'a')"], lambda M: ([M.K(1), M.K(2)],), ('list', [1, 2])),
    ('vecref', 'int', 'std::vector<K> const &a', 'return a.size();', "retval('int')", ["param('const std::vector<K> &', 'a')"], lambda M: ([M.K(1), M.K(2)],), 2),
    ('vecout', 'void', 'std::vector<K> &a', 'a.push_back(K(8));', 'None', ["param('std::vector<K> &', 'a', direction=2)"], lambda M: (), ('list', [8])),
    ('arr', 'int', 'double a[2]', 'return a[0] + a[1];', "retval('int')", ["param('double*', 'a', array_length=2, direction=1)"], None, None),
    ('buf', 'int', 'const char *a, int n', 'return n;', "retval('int')", ["__import__('pybindgen.typehandlers.base', fromlist=['x']) and param('const char *', 'a')", "param('int', 'n')"], lambda M: ('abc', 3), 3),
    ('strout', 'void', 'std::string &a', 'a = "zz";', 'None', ["param('std::string &', 'a', direction=2)"], lambda M: (), 'zz'),
    ('strinout', 'void', 'std::string &a', 'a += "zz";', 'None', ["param('std::string &', 'a', direction=3)"], lambda M: ('a',), 'azz'),
    ('deflt', 'int', 'std::string a, int b, K const &c', 'return a.size() + b + c.v;', "retval('int')",
     ["param('std::string', 'a', default_value='\"xy\"')", "param('int', 'b', default_value='3')", "param('K const &', 'c', default_value='K(10)')"], lambda M: (), 15),
    ('give', 'void', 'K *a', 'delete a;', 'None', ["param('K *', 'a', transfer_ownership=True)"], lambda M: (M.K(3),), None),
    ('enum', 'Color', 'Color a', 'return a;', "retval('Color')", ["param('Color', 'a')"], lambda M: (M.GREEN,), 1),
    ('obj', 'PyObject *', 'PyObject *a', 'Py_INCREF(a); return a;', "retval('PyObject *', caller_owns_return=True)", ["param('PyObject *', 'a', transfer_ownership=False)"], lambda M: ([1],), [1]),
]
SIGS = [s for s in SIGS if s[6]]


def sig_header():
    h = [HDR, 'enum Color { RED, GREEN };\n#include <Python.h>']
    for n, res, pars, body, rs, ps, args, want in SIGS:
        # a call that throws has not taken the object given to it
        pre = 'boom();'
        h.append('inline %s f_%s(%s) { %s %s }' % (res, n, pars, pre, body))
        h.append('inline %s u_%s(%s) { %s %s }' % (res, n, pars, pre, body))
        h.append('struct C_%s { Track t; %s m(%s) { t.use(); %s %s } };' % (n, res, pars, pre, body))
    h.append('''struct B_k { Track t; B_k(K &a, std::vector<K> const &b, std::string c) { boom(); } };''')
    return '\n'.join(h)


def gen_sigs(mod):
    from pybindgen import param, retval
    exc = add_exceptions(mod)
    th = [exc['E']]
    K = mod.add_class('K')
    K.add_constructor([param('int', 'v', default_value='0')])
    K.add_copy_constructor()
    K.add_instance_attribute('v', 'int')
    mod.add_container('std::vector<K>', retval('K'), 'vector')
    mod.add_enum('Color', ['RED', 'GREEN'])
    for n, res, pars, body, rs, ps, args, want in SIGS:
        r = lambda: eval(rs, {'retval': retval})
        p = lambda: [eval(q, {'param': param}) for q in ps]
        mod.add_function('f_' + n, r(), p(), throw=th)
        if n != 'obj':
            mod.add_function('u_' + n, r(), p(), throw=th, unblock_threads=True)
        C = mod.add_class('C_' + n)
        C.add_constructor([])
        C.add_method('m', r(), p(), throw=th)
    B = mod.add_class('B_k')
    B.add_constructor([param('K &', 'a'), param('const std::vector<K> &', 'b'), param('std::string', 'c')], throw=th)


def norm(r):
    if type(r).__name__ == 'K':
        return ('K', r.v)
    if 'ector' in type(r).__name__:
        return ('list', [e.v for e in r])
    return r


def explore_sigs(M, x):
    lib = x.clib()

    def one(n, fn, args, want, thrown):
        gc.collect()
        M.arm(0, '')
        live = lib.pbmc_live()
        a = args(M)
        x.eq(norm(fn(*a)), want, 'result')
        if n == 'give':
            a = args(M)
        del a

        def call(reps):
            for _ in range(reps):
                a = args(M)
                rc = [sys.getrefcount(v) for v in a]
                vals = [str(norm(v)) if n != 'give' else 0 for v in a]
                if thrown:
                    M.arm(1, 'oops')
                try:
                    r = fn(*a)
                except M.E as e:
                    x.check(thrown and str(e) == 'oops', 'exception %r' % (e,))
                    e.__traceback__ = None
                else:
                    x.check(not thrown, 'no exception')
                    x.check(n in ('kinout',) or norm(r) == want, 'result %r' % (r,))
                    del r
                if n not in ('give',):
                    if thrown:
                        x.eq([str(norm(v)) for v in a], vals, 'arguments')
                    x.eq([sys.getrefcount(v) for v in a], rc, 'references to the arguments')
                M.arm(0, '')
                del a
        call(3)
        gc.collect()
        b0 = sys.getallocatedblocks()
        call(20)
        gc.collect()
        b1 = sys.getallocatedblocks()
        x.check(b1 - b0 < 15, 'memory blocks: %d more after 20 calls' % (b1 - b0))
        x.eq(lib.pbmc_live(), live, 'live objects')
        x.eq(lib.pbmc_bad(), 0, 'bad uses')
    for n, res, pars, body, rs, ps, args, want in SIGS:
        for how in ('function', 'unblocked', 'method'):
            if how == 'unblocked' and n == 'obj':
                continue
            for thrown in (False, True):
                x.state((n, how, thrown))
                c = getattr(M, 'C_' + n)()
                fn = {'function': getattr(M, 'f_' + n), 'unblocked': getattr(M, 'u_' + n, None), 'method': c.m}[how]
                x.run('%s %s %s' % (n, how, 'thrown' if thrown else 'returned'), one, n, fn, args, want, thrown)
                del c, fn
    for thrown in (False, True):
        x.run('constructor %s' % ('thrown' if thrown else 'returned'), one, 'ctor', lambda *a: M.B_k(*a) and None, lambda M: (M.K(1), [M.K(2)], 'abc'), None, thrown)


# -- overridable methods that throw

VIRT = HDR + """
struct B {
    Track t;
    virtual ~B() {}
    virtual int v(int a) { t.use(); boom(); return a; }
    virtual int c(std::string a) const { t.use(); boom(); return a.size(); }
    virtual void p(K const &k) { t.use(); boom(); }
    virtual int pure(int a) = 0;
    int call_v(int a) { return v(a) + 100; }
    int call_c(std::string a) { return c(a) + 100; }
    void call_p(K const &k) { p(k); }
    int call_pure(int a) { return pure(a) + 100; }
protected:
    virtual int prot(int a) { boom(); return a; }
public:
    int call_prot(int a) { return prot(a) + 100; }
};
inline int out_v(B &b, int a) { return b.v(a) + 200; }
"""


def gen_virtual(mod):
    from pybindgen import param, retval
    exc = add_exceptions(mod)
    th = [exc['E2'], exc['E'], exc['X']]
    K = mod.add_class('K')
    K.add_constructor([param('int', 'v', default_value='0')])
    K.add_copy_constructor()
    B = mod.add_class('B', allow_subclassing=True)
    B.add_constructor([])
    B.add_method('v', 'int', [param('int', 'a')], is_virtual=True, throw=th)
    B.add_method('c', 'int', [param('std::string', 'a')], is_virtual=True, is_const=True, throw=th)
    B.add_method('p', None, [param('K const &', 'k')], is_virtual=True, throw=th)
    B.add_method('pure', 'int', [param('int', 'a')], is_virtual=True, is_pure_virtual=True, throw=th)
    B.add_method('prot', 'int', [param('int', 'a')], is_virtual=True, visibility='protected', throw=th)
    for n, t in (('v', 'int'), ('c', 'std::string'), ('pure', 'int'), ('prot', 'int')):
        B.add_method('call_' + n, 'int', [param(t, 'a')], throw=th)
    B.add_method('call_p', None, [param('K const &', 'k')], throw=th)
    mod.add_function('out_v', 'int', [param('B &', 'b'), param('int', 'a')], throw=th)


def explore_virtual(M, x):
    lib = x.clib()
    args = {'v': (5,), 'c': ('abc',), 'p': None, 'pure': (5,), 'prot': (5,)}
    base = {'v': 5, 'c': 3, 'p': None, 'prot': 5}

    def one(n, how, k, route):
        gc.collect()
        live = lib.pbmc_live()
        a = args[n] if n != 'p' else (M.K(1),)
        body = {}
        log = []
        if how in ('super', 'caught'):
            def over(self, a):
                log.append('in')
                try:
                    return getattr(M.B, n)(self, a)
                except (M.E, M.X) as e:
                    log.append(type(e).__name__)
                    if how == 'super':
                        raise
                    return 77 if n != 'p' else None
            body[n] = over
        elif how == 'own':
            body[n] = lambda self, a: 66 if n != 'p' else None
        if n != 'pure' and 'pure' not in body:
            body['pure'] = lambda self, a: 1
        P = type('P', (M.B,), body)
        o = P()
        M.arm(k, 'm')
        x.step()
        try:
            if route == 'direct':
                r = getattr(o, n)(*a)
            elif route == 'C++':
                r = getattr(o, 'call_' + n)(*a)
            else:
                r = M.out_v(o, *a)
        except Exception as e:
            r = type(e).__name__
            e.__traceback__ = None
        M.arm(0, '')
        exc = None
        if k:
            w = expected(['E2', 'E', 'X'], k)
            exc = {'E2': 'Second'}.get(w, w)
        add = 0 if route == 'direct' else 100 if route == 'C++' else 200
        plus = lambda v: v if n == 'p' else v + add
        if how == 'none':
            want = exc or plus(base[n])
        elif how == 'own':
            want = plus(66) if n != 'p' else None
        elif how == 'caught':
            want = (plus(77) if n != 'p' else None) if exc else plus(base[n])
            x.eq(log, ['in'] + ([exc] if exc else []), 'log')
        elif how == 'super':
            want = exc or plus(base[n])
            if n == 'p' and route != 'direct':
                want = None        # a void override that fails has run
            x.eq(log[:1], ['in'], 'log')
        x.eq(r, want, 'result')
        sys.last_exc = sys.last_value = sys.last_traceback = sys.last_type = None
        del o, P, body
        over = None
        gc.collect()
        if n == 'p':
            del a
        x.eq(lib.pbmc_live(), live, 'live objects')
        x.eq(lib.pbmc_bad(), 0, 'bad uses')
    hook, sys.excepthook = sys.excepthook, lambda *a: None
    for n in args:
        for how in ('none', 'own', 'super', 'caught'):
            if n == 'pure' and how != 'own':
                continue
            for k in (0, 1, 2, 3, 5, 6):
                for route in ('direct', 'C++', 'outside'):
                    if route == 'outside' and n != 'v' or route == 'direct' and n == 'prot' and how == 'none':
                        continue
                    x.state((n, how, k, route))
                    x.run('%s %s thrown %d %s' % (n, how, k, route), one, n, how, k, route)
    sys.excepthook = hook


# exceptions of one name, declared in different namespaces and classes: which one a function throws is told by its place
PLACES = ['', 'a', 'a::b', 'b', 'b::a', 'a::Out', 'Out']
PLACED = [c for n in (1, 2, 3) for c in itertools.combinations(range(len(PLACES)), n)] + [tuple(range(len(PLACES)))]
FPLACES = ['', 'a', 'a::b', 'b::a']


def inside(place, text):
    for ns in reversed([n for n in place.split('::') if n]):
        text = ('struct %s { %s };' if ns == 'Out' else 'namespace %s { %s }') % (ns, text)
    return text


def places_header(root):
    E = 'struct E { Track t; int n; E(int n_) : n(n_) {} };'
    out = ['namespace a { struct E; } namespace b { struct E; }']
    for p in PLACES:
        out.append(inside('::'.join(n for n in (root, p) if n), E))
    out.append('inline int boom(int w, int n) { switch (w) {')
    for i, p in enumerate(PLACES):
        out.append('case %d: throw ::%s(n);' % (i, '::'.join(n for n in (root, p, 'E') if n)))
    out.append('} return n; }')
    for q in FPLACES:
        text = ''.join('inline int f%d(int w, int n) { return boom(w, n); }\n' % k for k in range(len(PLACED)))
        out.append(inside('::'.join(n for n in (root, q) if n), text))
    return '\n'.join(out[1:])


def gen_places(mod):
    from pybindgen.cppexception import CppException
    a, b = mod.add_cpp_namespace('a'), mod.add_cpp_namespace('b')
    at = {'': mod, 'a': a, 'a::b': a.add_cpp_namespace('b'), 'b': b, 'b::a': b.add_cpp_namespace('a')}
    exc = []
    for p in PLACES:
        if p.endswith('Out'):
            m = at[p[:-5]]
            exc.append(CppException('E', outer_class=m.add_class('Out'), message_rvalue='std::to_string(%(EXC)s.n).c_str()'))
            m._add_exception_obj(exc[-1])
        else:
            exc.append(at[p].add_exception('E', message_rvalue='std::to_string(%(EXC)s.n).c_str()'))
    for q in FPLACES:
        for k, c in enumerate(PLACED):
            at[q].add_function('f%d' % k, 'int', [param_('int', 'w'), param_('int', 'n')], throw=[exc[i] for i in c])


def explore_places(M, x):
    def at(place):
        o = M
        for n in place.split('::'):
            o = getattr(o, n) if n else o
        return o
    classes = [at(p).E for p in PLACES]

    def one(q, k, w):
        f = getattr(at(q), 'f%d' % k)
        x.eq(f(-1, 7), 7)
        x.step(2)
        try:
            f(w, 1000 + w)
        except Exception as e:
            assert type(e) is classes[w], 'the exception of %r surfaced as that of %r' % (PLACES[w], [p for p, c in zip(PLACES, classes) if c is type(e)])
            x.eq(str(e), str(1000 + w))
        else:
            raise AssertionError('nothing was raised')
    for i, j in itertools.combinations(range(len(PLACES)), 2):
        if classes[i] is classes[j] or issubclass(classes[i], classes[j]) or issubclass(classes[j], classes[i]):
            x.fail('the exceptions of %r and %r are related' % (PLACES[i], PLACES[j]))
    for p, c in zip(PLACES, classes):
        x.eq('%s.%s' % (c.__module__, c.__qualname__), '.'.join([M.__name__] + [n for n in p.split('::') if n] + ['E']), 'full name of the exception')
    for q in FPLACES:
        for k, c in enumerate(PLACED):
            x.state((q, c))
            for w in c:
                x.run('%s f%d throws %s' % (q, k, PLACES[w]), one, q, k, w)


def scenarios(tier):
    L = list(enumerate(lists(tier)))
    n = 7
    out = [Scenario('lists%d' % j, HDR + '\n'.join(decl(i) for i, l in L[j::n]), gen_lists(L[j::n]), explore_lists(L[j::n])) for j in range(n)]
    out.append(Scenario('signatures', sig_header(), gen_sigs, explore_sigs))
    out.append(Scenario('virtual', VIRT, gen_virtual, explore_virtual))
    out.append(Scenario('virtual14', VIRT, gen_virtual, explore_virtual, cxxflags=['-std=c++14']))
    for n, root in (('', ''), ('_ns', 'top'), ('_deep', 'top::in')):
        out.append(Scenario('places' + n, '#include <string>\n' + places_header(root), gen_places, explore_places, cpp_namespace=root or None))
    return out
