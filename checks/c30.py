"""C30: no call, successful or failing, leaks or over-releases memory or references."""
import ctypes
import gc
import itertools
import sys
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('for every kind of parameter, result, attribute and container, every way of calling and every way each argument can be wrong after others have been converted, repeated calls '
        'must leave the reference counts of the arguments, the bytes allocated (all Python memory is taken from malloc, which is asked for the bytes in use) and the C++ objects alive as they were')
BOUNDS = {'quick': '58 kinds of parameters alone in 6 contexts and 17x58 ordered pairs with each invalid value; 28 kinds of results x 5 further outputs; 60 overridable methods x 7 behaviours of the override; '
                   'attributes, containers, constructors, operators; 8 kinds of classes with up to 4 further names in every place, and 8 ways of leaving the process; 10 calls per round until a round adds nothing, at most 6 rounds',
          'thorough': 'the same, and again with address sanitizer'}
ASSUMPTIONS = ['what a call allocates and keeps is kept by each of the ten calls of every round', 'a call that throws has not taken ownership of its arguments',
               'constant extra memory (the last string handed to C++, caches) is not a leak']

HDR = r'''
#include <string>
#include <vector>
#include <list>
#include <set>
#include <map>
#include <memory>
#include <cstring>
#include <stdint.h>
namespace Glib { struct ustring : std::string {
    ustring() {} ustring(const char *s) : std::string(s) {} ustring(std::string const &s) : std::string(s) {} size_t bytes() const { return size(); } }; }
struct E { Track t; std::string m; E(std::string const &m_) : m(m_) {} const char *msg() const { return m.c_str(); } };
struct K { Track t; int v; std::string pad; K(int v_ = 0) : v(v_), pad(100, 'x') {} int get() const { t.use(); return v; } };
struct D { Track t; int v; std::string pad; D(int v_ = 0) : v(v_), pad(100, 'y') {} D(K const &k) : v(k.get()), pad(100, 'z') {} int get() const { t.use(); return v; } };
struct R { Track t; int refs; R() : refs(1) {} void Ref() { t.use(); refs++; } void Unref() { t.use(); if (--refs == 0) delete this; } };
struct H { Track t; int v; H(int v_ = 0) : v(v_) {} };
struct Other { Track t; Other() {} };
enum Color { RED, GREEN };
typedef std::vector<int> Vi;
typedef std::list<std::string> Vs;
typedef std::map<std::string, K> Mk;
typedef std::vector<std::vector<int> > Vv;
typedef std::set<std::string> Ss;
typedef std::vector<K> Vk;
inline int &armed() { static int a; return a; }
inline void arm(int a) { armed() = a; }
inline void boom() { if (armed()) throw E("oops"); }
template <class T> inline void note(T const &) {}
inline void note(K const &k) { k.get(); }
inline void note(D const &k) { k.get(); }
inline K &the_k() { static K k(7); return k; }
inline R &the_r() { static R *r = new R; return *r; }
'''

BIG = "'a long text with more than a few letters'"
BADSTR = [BIG + " + '\\udc80'", '5']
# key, C++ declaration, statement, parameter, valid arguments, invalid arguments
P = [
    ('int', 'int {n}', 'note({n});', lambda p, n: p('int', n), ['70000'], ["'x'", '2**70', 'IntRaises()']),
    ('uint', 'unsigned {n}', 'note({n});', lambda p, n: p('unsigned int', n), ['70000'], ["'x'"]),
    ('bool', 'bool {n}', 'note({n});', lambda p, n: p('bool', n), ['True', '[]'], ['BoolRaises()']),
    ('boolr', 'bool &{n}', '{n} = !{n};', lambda p, n: p('bool &', n, direction=3), ['True'], ['BoolRaises()']),
    ('boolp', 'bool *{n}', '*{n} = !*{n};', lambda p, n: p('bool *', n, direction=3), ['True'], ['BoolRaises()']),
    ('dbl', 'double {n}', 'note({n});', lambda p, n: p('double', n), ['1.5', '70000'], ["'x'", 'FloatRaises()']),
    ('flt', 'float {n}', 'note({n});', lambda p, n: p('float', n), ['1.5'], ["'x'"]),
    ('chr', 'char {n}', 'note({n});', lambda p, n: p('char', n), ["b'a'"], ["b'ab'", "'x'"]),
    ('u8', 'uint8_t {n}', 'note({n});', lambda p, n: p('uint8_t', n), ['5'], ['300000', "'x'"]),
    ('i16r', 'int16_t &{n}', '{n} += 1;', lambda p, n: p('int16_t &', n, direction=3), ['5'], ['70000', "'x'"]),
    ('u16', 'uint16_t {n}', 'note({n});', lambda p, n: p('uint16_t', n), ['5'], ['70000', "'x'"]),
    ('i64', 'int64_t {n}', 'note({n});', lambda p, n: p('int64_t', n), ['2**60'], ['2**70', "'x'"]),
    ('u64', 'uint64_t {n}', 'note({n});', lambda p, n: p('uint64_t', n), ['2**60'], ["'x'"]),
    ('size', 'size_t {n}', 'note({n});', lambda p, n: p('size_t', n), ['2**60'], ["'x'"]),
    ('cstr', 'const char *{n}', 'note({n});', lambda p, n: p('const char *', n), [BIG], BADSTR + ["'a\\0b'"]),
    ('str', 'std::string {n}', 'note({n});', lambda p, n: p('std::string', n), [BIG], BADSTR),
    ('strc', 'std::string const &{n}', 'note({n});', lambda p, n: p('std::string const &', n), [BIG], BADSTR),
    ('strio', 'std::string &{n}', '{n} += "more";', lambda p, n: p('std::string &', n, direction=3), [BIG], BADSTR),
    ('stro', 'std::string &{n}', '{n} = std::string(100, \'o\');', lambda p, n: p('std::string &', n, direction=2), None, []),
    ('strp', 'std::string *{n}', 'note(*{n});', lambda p, n: p('std::string *', n, direction=1), [BIG], BADSTR),
    ('strpio', 'std::string *{n}', '*{n} += "more";', lambda p, n: p('std::string *', n, direction=3), [BIG], BADSTR),
    ('strpt', 'std::string *{n}', 'delete {n};', lambda p, n: p('std::string *', n, direction=1, transfer_ownership=True), [BIG], BADSTR),
    ('gl', 'Glib::ustring {n}', 'note({n});', lambda p, n: p('Glib::ustring', n), [BIG], BADSTR),
    ('glc', 'Glib::ustring const &{n}', 'note({n});', lambda p, n: p('Glib::ustring const &', n), [BIG], BADSTR),
    ('glio', 'Glib::ustring &{n}', '{n} += "more";', lambda p, n: p('Glib::ustring &', n, direction=3), [BIG], BADSTR),
    ('glp', 'Glib::ustring *{n}', 'note(*{n});', lambda p, n: p('Glib::ustring *', n, direction=1), [BIG], BADSTR),
    ('glpt', 'Glib::ustring *{n}', 'delete {n};', lambda p, n: p('Glib::ustring *', n, direction=1, transfer_ownership=True), [BIG], BADSTR),
    ('intio', 'int *{n}', '*{n} += 1;', lambda p, n: p('int *', n, direction=3), ['70000'], ["'x'"]),
    ('into', 'int &{n}', '{n} = 70000;', lambda p, n: p('int &', n, direction=2), None, []),
    ('intopt', 'int *{n}', 'if ({n}) *{n} += 1;', lambda p, n: p('int *', n, direction=3, default_value='NULL'), ['70000'], ["'x'"]),
    ('uarr', 'unsigned int *{n}', '{n}[0] = 100000;', lambda p, n: p('unsigned int *', n, direction=3, array_length=3), ['[70000, 70001, 70002]'], ["[70000, 70001, 'x']", '[70000]', '5']),
    ('farr', 'float *{n}', '{n}[0] = 1.5;', lambda p, n: p('float *', n, direction=3, array_length=3), ['[1.5, 2.5, 3.5]'], ["[1.5, 2.5, 'x']", '[1.5]', '5']),
    ('enum', 'Color {n}', 'note({n});', lambda p, n: p('Color', n), ['M.GREEN'], ["'x'"]),
    ('kv', 'K {n}', 'note({n});', lambda p, n: p('K', n), ['M.K(3)', 'M.P()'], ['M.D()', '5']),
    ('kc', 'K const &{n}', 'note({n});', lambda p, n: p('K const &', n), ['M.K(3)'], ['M.D()', '5']),
    ('kr', 'K &{n}', '{n}.v++;', lambda p, n: p('K &', n), ['M.K(3)'], ['M.D()', '5']),
    ('kp', 'K *{n}', 'if ({n}) {n}->v++;', lambda p, n: p('K *', n, transfer_ownership=False, null_ok=True), ['M.K(3)', 'None'], ['M.D()', '5']),
    ('kt', 'K *{n}', 'delete {n};', lambda p, n: p('K *', n, transfer_ownership=True), ['M.K(3)'], ['M.D()', '5']),
    ('kcp', 'K const *{n}', 'note(*{n});', lambda p, n: p('K const *', n, transfer_ownership=False), ['M.K(3)'], ['M.D()', 'None']),
    ('kio', 'K &{n}', '{n}.v++;', lambda p, n: p('K &', n, direction=3), ['M.K(3)'], ['M.D()', '5']),
    ('ko', 'K &{n}', '{n}.v = 9;', lambda p, n: p('K &', n, direction=2), None, []),
    ('dv', 'D {n}', 'note({n});', lambda p, n: p('D', n), ['M.D(3)', 'M.K(3)'], ['M.Other()', '5']),
    ('dc', 'D const &{n}', 'note({n});', lambda p, n: p('D const &', n), ['M.D(3)', 'M.K(3)'], ['M.Other()', '5']),
    ('rp', 'R *{n}', '{n}->t.use();', lambda p, n: p('R *', n, transfer_ownership=False), ['M.R()'], ['M.D()', '5']),
    ('rt', 'R *{n}', '{n}->Unref();', lambda p, n: p('R *', n, transfer_ownership=True), ['M.R()'], ['M.D()', '5']),
    ('rr', 'R &{n}', '{n}.t.use();', lambda p, n: p('R &', n), ['M.R()'], ['M.D()', '5']),
    ('h', 'std::shared_ptr<H> {n}', 'note({n}->v);', lambda p, n: p('std::shared_ptr<H>', n), ['M.H(3)'], ['M.D()', '5']),
    ('vi', 'Vi {n}', 'note({n});', lambda p, n: p('Vi', n), ['[1, 70000, 3]', 'M.Vi([1, 70000])'], ["[1, 70000, 'x']", '5', 'IterRaises()']),
    ('vic', 'Vi const &{n}', 'note({n});', lambda p, n: p('Vi const &', n), ['[1, 70000, 3]', 'M.Vi([1, 70000])'], ["[1, 70000, 'x']", '5']),
    ('vio', 'Vi &{n}', '{n}.push_back(1);', lambda p, n: p('Vi &', n, direction=3), ['[1, 70000, 3]', 'M.Vi([1, 70000])'], ["[1, 70000, 'x']", '5']),
    ('vo', 'Vi &{n}', '{n}.push_back(1);', lambda p, n: p('Vi &', n, direction=2), None, []),
    ('vip', 'Vi *{n}', '{n}->push_back(1);', lambda p, n: p('Vi *', n, transfer_ownership=False), ['[1, 70000, 3]'], ["[1, 70000, 'x']", '5']),
    ('vpo', 'Vi *{n}', '{n}->push_back(1);', lambda p, n: p('Vi *', n, direction=2), None, []),
    ('vpt', 'Vi *{n}', 'delete {n};', lambda p, n: p('Vi *', n, transfer_ownership=True), ['[1, 70000, 3]'], ["[1, 70000, 'x']", '5']),
    ('vs', 'Vs {n}', 'note({n});', lambda p, n: p('Vs', n), ['[%s, "%s"]' % (BIG, 'x' * 50)], ['[%s, %s]' % (BIG, b) for b in BADSTR] + ['5']),
    ('mk', 'Mk {n}', 'note({n});', lambda p, n: p('Mk', n), ['[(%s, M.K(4)), ("b", M.K(5))]' % BIG], ['[(%s, M.K(4)), (5, M.K(5))]' % BIG, '[(%s, M.K(4)), ("b", M.D(5))]' % BIG, '[(%s,)]' % BIG, '[5]', '5']),
    ('mkc', 'Mk const &{n}', 'note({n});', lambda p, n: p('Mk const &', n), ['[(%s, M.K(4)), ("b", M.K(5))]' % BIG], ['[(%s, M.K(4)), (5, M.K(5))]' % BIG]),
    ('vv', 'Vv {n}', 'note({n});', lambda p, n: p('Vv', n), ['[[1, 70000], M.Vi([3])]'], ["[[1, 70000], [1, 'x']]", '[[1], 5]']),
    ('ss', 'Ss {n}', 'note({n});', lambda p, n: p('Ss', n), ['[%s, "b"]' % BIG], ['[%s, %s]' % (BIG, BADSTR[0])]),
    ('vk', 'Vk const &{n}', 'note({n});', lambda p, n: p('Vk const &', n), ['[M.K(4), M.K(5)]'], ['[M.K(4), M.D(5)]']),
    ('po', 'PyObject *{n}', 'note({n});', lambda p, n: p('PyObject *', n, transfer_ownership=False), ['object()'], []),
    ('pot', 'PyObject *{n}', 'Py_DECREF({n});', lambda p, n: p('PyObject *', n, transfer_ownership=True), ['object()'], []),
]
PK = {p[0]: p for p in P}
ALLOC = ['u8', 'strio', 'strpt', 'gl', 'glio', 'glpt', 'kv', 'kt', 'kio', 'dv', 'rt', 'h', 'uarr', 'vpt', 'vpo', 'mk', 'vs', 'pot']
GIVES = {'strpt', 'glpt', 'kt', 'rt', 'vpt', 'pot'}      # take their argument away: not thrown from
NOTVIRT = {'strpt', 'glpt', 'uarr', 'farr', 'intopt', 'rr', 'vip', 'vpt', 'vpo'}
OUT = {'boolr', 'boolp', 'i16r', 'strio', 'stro', 'strpio', 'glio', 'intio', 'into', 'intopt', 'uarr', 'farr', 'ko', 'vpo', 'vio', 'vo'}   # not for constructors

# key, C++ type, expression, return value
RV = [
    ('int', 'int', '70000', lambda r: r('int')), ('bool', 'bool', 'true', lambda r: r('bool')), ('dbl', 'double', '1.5', lambda r: r('double')), ('chr', 'char', "'x'", lambda r: r('char')),
    ('cstr', 'const char *', '"a text"', lambda r: r('const char *')), ('cstrbad', 'const char *', '"\\xff"', lambda r: r('const char *')), ('cstrnull', 'const char *', 'NULL', lambda r: r('const char *')),
    ('cstrf', 'char *', 'strdup("a text")', lambda r: r('char *', free_after_copy=True)), ('cstrfbad', 'char *', 'strdup("a text \\xff")', lambda r: r('char *', free_after_copy=True)),
    ('str', 'std::string', "std::string(100, 'x')", lambda r: r('std::string')), ('strbad', 'std::string', "std::string(100, '\\xff')", lambda r: r('std::string')),
    ('gl', 'Glib::ustring', "std::string(100, 'x')", lambda r: r('Glib::ustring')), ('enum', 'Color', 'GREEN', lambda r: r('Color')),
    ('i64', 'int64_t', '1LL << 60', lambda r: r('int64_t')),
    ('k', 'K', 'K(3)', lambda r: r('K')), ('kc', 'K const &', 'the_k()', lambda r: r('K const &')), ('kown', 'K *', 'new K(3)', lambda r: r('K *', caller_owns_return=True)),
    ('kref', 'K *', '&the_k()', lambda r: r('K *', reference_existing_object=True)), ('knull', 'K *', 'NULL', lambda r: r('K *', caller_owns_return=True)),
    ('kcopy', 'K *', '&the_k()', lambda r: r('K *', caller_owns_return=False)),
    ('rown', 'R *', 'new R', lambda r: r('R *', caller_owns_return=True)), ('rref', 'R *', '&the_r()', lambda r: r('R *', caller_owns_return=False)),
    ('h', 'std::shared_ptr<H>', 'std::shared_ptr<H>(new H(3))', lambda r: r('std::shared_ptr<H>')), ('hnull', 'std::shared_ptr<H>', 'std::shared_ptr<H>()', lambda r: r('std::shared_ptr<H>')),
    ('vi', 'Vi', 'Vi(5, 70000)', lambda r: r('Vi')), ('vs', 'Vs', "Vs(5, std::string(100, 'x'))", lambda r: r('Vs')), ('mk', 'Mk', 'Mk()', lambda r: r('Mk')),
    ('vk', 'Vk', 'Vk(2)', lambda r: r('Vk')),
    ('poown', 'PyObject *', 'PyList_New(3)', lambda r: r('PyObject *', caller_owns_return=True)), ('poref', 'PyObject *', 'Py_None', lambda r: r('PyObject *', caller_owns_return=False)),
    ('ponull', 'PyObject *', '(PyErr_SetString(PyExc_KeyError, "no"), (PyObject *) 0)', lambda r: r('PyObject *', caller_owns_return=True)),
    ('void', 'void', '', lambda r: None),
]
# further outputs: declaration, statement, parameters
OUTS = {'none': ('', '', lambda p: []),
        'bad': ('std::string &o', "o = std::string(100, '\\xff');", lambda p: [p('std::string &', 'o', direction=2)]),
        'kbad': ('K &k, std::string &o', "k.v = 1; o = std::string(100, '\\xff');", lambda p: [p('K &', 'k', direction=2), p('std::string &', 'o', direction=2)]),
        'badk': ('std::string &o, K &k', "k.v = 1; o = std::string(100, '\\xff');", lambda p: [p('std::string &', 'o', direction=2), p('K &', 'k', direction=2)]),
        'vbad': ('Vi &k, std::string &o', "k.push_back(1); o = std::string(100, '\\xff');", lambda p: [p('Vi &', 'k', direction=2), p('std::string &', 'o', direction=2)]),
        'kv': ('K &k, Vi &v, std::string &o', "k.v = 1; v.push_back(2); o = std::string(100, 'x');",
               lambda p: [p('K &', 'k', direction=2), p('Vi &', 'v', direction=2), p('std::string &', 'o', direction=2)])}


def common(mod):
    from pybindgen import param, retval, cppclass
    from pybindgen.typehandlers.smart_ptr import StdSharedPtr
    th = mod.add_exception('E', message_rvalue='%(EXC)s.msg()', is_standard_error=False)
    mod.add_function('arm', None, [param('int', 'a')])
    K = mod.add_class('K', allow_subclassing=True)
    K.add_constructor([param('int', 'v', default_value='0')])
    K.add_copy_constructor()
    K.add_instance_attribute('v', 'int')
    D = mod.add_class('D')
    D.add_constructor([param('int', 'v', default_value='0')])
    D.add_constructor([param('K const &', 'k')])
    D.add_copy_constructor()
    K.implicitly_converts_to(D)
    R = mod.add_class('R', memory_policy=cppclass.ReferenceCountingMethodsPolicy(incref_method='Ref', decref_method='Unref'), allow_subclassing=True)
    R.add_constructor([])
    H = mod.add_class('H', memory_policy=StdSharedPtr('H'))
    H.add_constructor([param('int', 'v', default_value='0')])
    H.add_instance_attribute('v', 'int')
    O = mod.add_class('Other')
    O.add_constructor([])
    mod.add_enum('Color', ['RED', 'GREEN'])
    mod.add_container('Vi', retval('int'), 'vector')
    mod.add_container('Vs', retval('std::string'), 'list')
    mod.add_container('Mk', (retval('std::string'), retval('K')), 'map')
    mod.add_container('Vv', retval('Vi'), 'vector')
    mod.add_container('Ss', retval('std::string'), 'set')
    mod.add_container('Vk', retval('K'), 'vector')
    return th


ENV = {'PYTHONMALLOC': 'malloc_debug', 'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0'}


class Mallinfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in 'arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost'.split()]


class BoolRaises(object):
    def __bool__(self):
        raise KeyError('bool')


class IntRaises(object):
    def __index__(self):
        raise KeyError('index')


class FloatRaises(object):
    def __float__(self):
        raise KeyError('float')


class IterRaises(object):
    def __iter__(self):
        yield 1
        raise KeyError('iter')


class Meter(object):
    def __init__(self, M, x):
        self.M = M
        self.x = x
        self.lib = x.clib()
        self.libc = ctypes.CDLL(None)
        self.libc.mallinfo2.restype = Mallinfo
        self.env = {'M': M, 'BoolRaises': BoolRaises, 'IntRaises': IntRaises, 'FloatRaises': FloatRaises, 'IterRaises': IterRaises}
        gc.collect()
        gc.freeze()

    def used(self):
        i = self.libc.mallinfo2()
        return i.uordblks + i.hblkhd

    def steady(self, call, n=10, rounds=6):
        """repeats call() until a round of n adds nothing"""
        x = self.x
        call()
        call()
        gc.collect()
        growth = []
        for r in range(rounds):
            live, used = self.lib.pbmc_live(), self.used()
            for i in range(n):
                call()
            gc.collect()
            growth.append((self.used() - used, self.lib.pbmc_live() - live))
            if growth[-1][0] < 8 * n and growth[-1][1] == 0:
                break
        else:
            x.fail('memory grows with every call: %d calls add (bytes, C++ objects): %r' % (n, growth))
        x.step(n * len(growth))
        x.check(min(g[1] for g in growth) == 0 and max(g[1] for g in growth) <= 0, 'C++ objects alive: %r' % growth)
        x.eq(self.lib.pbmc_bad(), 0, 'bad uses')

    def call(self, fn, make, expect=None, kw=None, keep=True):
        """a function that calls fn once with fresh arguments and checks the references to them"""
        x = self.x

        def call():
            a = make()
            rc = [sys.getrefcount(v) for v in a] if keep else None
            try:
                r = fn(*a, **kw) if kw else fn(*a)
            except BaseException as e:
                e.__traceback__ = None
                if e.__context__ is not None:
                    e.__context__ = None
                got = type(e).__name__
                del e
            else:
                got = 'ok'
                del r
            if expect is not None:
                x.check(got in expect, 'call ended with %s instead of %s' % (got, '/'.join(expect)))
            if keep:
                x.eq([sys.getrefcount(v) for v in a], rc, 'references to the arguments')
        return call


def args_of(m, *exprs):
    codes = [compile(e, '<arg>', 'eval') for e in exprs]
    env = m.env

    def make():
        return [eval(c, env) for c in codes]
    return make


def good(k):
    return [] if PK[k][4] is None else [PK[k][4][0]]


FAILS = ('TypeError', 'ValueError', 'OverflowError', 'KeyError', 'UnicodeEncodeError', 'UnicodeDecodeError')


# -- parameters, one or two

def decls(*keys):
    ps = [PK[k] for k in keys]
    names = 'abc'[:len(ps)]
    return ', '.join(p[1].format(n=n) for p, n in zip(ps, names)), ' '.join(p[2].format(n=n) for p, n in zip(ps, names))


def pars(keys):
    from pybindgen import param
    return [PK[k][3](param, n) for k, n in zip(keys, 'abc')]


def single_header(ks):
    out = []
    for k in ks:
        d, b = decls(k)
        out.append('inline void f_%s(%s) { %s }' % (k, d, b))
        if k not in GIVES:
            out.append('inline void t_%s(%s) { boom(); %s }' % (k, d, b))
        out.append('struct C_%s { Track t; C_%s() {} C_%s(%s) { %s }' % (k, k, k, d, b))
        out.append('  int m(%s) { t.use(); %s return 70000; } static std::string s(%s) { %s return std::string(100, \'s\'); }' % (d, b, d, b))
        out.append('  void o(%s) { %s } void o(%s, int z) { %s } void o(Other &z, Other &y) {} };' % (d, b, d, b))
    return HDR + '\n'.join(out)


def single_gen(ks):
    def gen(mod):
        from pybindgen import param, retval
        th = common(mod)
        for k in ks:
            mod.add_function('f_' + k, None, pars([k]))
            mod.add_function('f_' + k, None, pars([k]), custom_name='u_' + k, unblock_threads=True)
            if k not in GIVES:
                mod.add_function('t_' + k, None, pars([k]), throw=[th])
            C = mod.add_class('C_' + k, allow_subclassing=True)
            if k not in OUT:
                C.add_constructor(pars([k]))
            C.add_constructor([])
            C.add_method('m', 'int', pars([k]))
            C.add_method('s', 'std::string', pars([k]), is_static=True)
            C.add_method('o', None, pars([k]))
            C.add_method('o', None, pars([k]) + [param('int', 'z', default_value='4') if k == 'intopt' else param('int', 'z')])
            C.add_method('o', None, [param('Other &', 'z'), param('Other &', 'y')])
    return gen


def single_explore(ks):
    def explore(M, x):
        m = Meter(M, x)
        M.P = type('P', (M.K,), {})

        def one(key, fn, exprs, expect, kw=None, keep=True, arm=0):
            M.arm(arm)
            m.steady(m.call(fn, args_of(m, *exprs), expect, kw, keep))
            M.arm(0)
        for k in ks:
            x.state(k)
            C = getattr(M, 'C_' + k)
            c = C()
            has = PK[k][4] is not None
            keep = k not in GIVES

            class PC(C):
                pass
            pc = PC()

            ctxs = [('function', getattr(M, 'f_' + k)), ('unblocked', getattr(M, 'u_' + k)), ('method', c.m), ('unbound', lambda *a, **kw: C.m(c, *a, **kw)), ('static', C.s),
                    ('inherited', pc.m), ('overload', c.o)]
            if k not in OUT:
                ctxs += [('constructor', C), ('subclass', PC), ('again', c.__init__)]
            if keep:
                ctxs.append(('throwing', getattr(M, 't_' + k)))
            for ctx, fn in ctxs:
                isc = ctx in ('constructor', 'subclass', 'again')
                goods = [[g] for g in PK[k][4]] if has else [[]]
                for j, g in enumerate(goods):
                    x.run('%s %s valid %d' % (k, ctx, j), one, k, fn, g, ('ok',), None, keep)
                    if ctx == 'throwing':
                        x.run('%s %s thrown %d' % (k, ctx, j), one, k, fn, g, ('E',), None, keep, 1)
                    if ctx == 'overload':
                        x.run('%s %s second %d' % (k, ctx, j), one, k, fn, g + ['70000'], ('ok',), None, keep)
                        x.run('%s %s second invalid %d' % (k, ctx, j), one, k, fn, g + ['M.Other()'], FAILS, None, k != 'rt')
                        x.run('%s %s third %d' % (k, ctx, j), one, k, fn, ['M.Other()', 'M.Other()'], ('ok',), None, keep)
                    if has:
                        x.run('%s %s too many %d' % (k, ctx, j), one, k, fn, g + ['70000', '70000'], FAILS)
                        x.run('%s %s wrong keyword %d' % (k, ctx, j), one, k, fn, g, FAILS, {'nope': 5})
                        x.run('%s %s twice %d' % (k, ctx, j), one, k, fn, g, FAILS, {'a': 5})
                if has and not isc and k != 'intopt':
                    x.run('%s %s too few' % (k, ctx), one, k, fn, [], FAILS)
                for j, b in enumerate(PK[k][5]):
                    x.run('%s %s invalid %d' % (k, ctx, j), one, k, fn, [b], FAILS)
    return explore


def pair_header(prs):
    return HDR + '\n'.join('inline void g_%s_%s(%s) { %s }' % ((a, b) + decls(a, b)) for a, b in prs)


def pair_gen(prs):
    def gen(mod):
        common(mod)
        for a, b in prs:
            mod.add_function('g_%s_%s' % (a, b), None, pars([a, b]))
    return gen


def pair_explore(prs):
    def explore(M, x):
        m = Meter(M, x)
        M.P = type('P', (M.K,), {})

        def one(fn, exprs, expect, keep=True):
            m.steady(m.call(fn, args_of(m, *exprs), expect, None, keep))
        for a, b in prs:
            x.state((a, b))
            fn = getattr(M, 'g_%s_%s' % (a, b))
            ga = PK[a][4] or ['']
            cat = lambda *v: [w for w in v if w]
            for i, g in enumerate(ga):
                x.run('%s %s valid %d' % (a, b, i), one, fn, cat(g) + good(b), ('ok',), a not in GIVES and b not in GIVES)
                for j, v in enumerate(PK[b][5]):
                    x.run('%s %s second invalid %d %d' % (a, b, i, j), one, fn, cat(g, v), FAILS)
            for j, v in enumerate(PK[a][5]):
                x.run('%s %s first invalid %d' % (a, b, j), one, fn, [v] + good(b), FAILS)
                for w in PK[b][5][:1]:
                    x.run('%s %s both invalid %d' % (a, b, j), one, fn, [v, w], FAILS)
    return explore


# -- results

def ret_header():
    out = []
    for k, t, e, rv in RV:
        for o, (d, b, ps) in sorted(OUTS.items()):
            out.append('inline %s r_%s_%s(%s) { boom(); %s return %s; }' % (t, k, o, d, b, e))
        out.append('struct C_%s { Track t; C_%s() {} %s m() const { t.use(); return %s; } static %s s() { return %s; } };' % (k, k, t, e, t, e))
    return HDR + '\n'.join(out)


def ret_gen(mod):
    from pybindgen import param, retval
    th = common(mod)
    for k, t, e, rv in RV:
        for o, (d, b, ps) in sorted(OUTS.items()):
            throw = [th] if k not in ('kc',) else []
            mod.add_function('r_%s_%s' % (k, o), rv(retval), ps(param), throw=throw)
        C = mod.add_class('C_' + k)
        C.add_constructor([])
        C.add_method('m', rv(retval), [], is_const=True)
        C.add_method('s', rv(retval), [], is_static=True)


def ret_explore(M, x):
    m = Meter(M, x)

    def one(fn, expect, arm=0):
        M.arm(arm)
        m.steady(m.call(fn, lambda: [], expect))
        M.arm(0)
    for k, t, e, rv in RV:
        c = getattr(M, 'C_' + k)()
        for o in sorted(OUTS):
            x.state((k, o))
            fn = getattr(M, 'r_%s_%s' % (k, o))
            bad = 'bad' in o or k.endswith('bad') or k == 'ponull'
            exp = ('KeyError',) if k == 'ponull' and 'bad' not in o else ('UnicodeDecodeError', 'KeyError', 'SystemError') if bad else ('ok',)
            x.run('%s with %s' % (k, o), one, fn, exp)
            if k != 'kc':
                x.run('%s with %s thrown' % (k, o), one, fn, ('E',), 1)
        exp = ('UnicodeDecodeError',) if k.endswith('bad') else ('KeyError',) if k == 'ponull' else ('ok',)
        x.run('%s method' % k, one, c.m, exp)
        x.run('%s static' % k, one, c.s, exp)


# -- overrides

VP = [p for p in P if p[0] not in NOTVIRT]
VR = [r for r in RV if r[0] in ('int', 'bool', 'dbl', 'chr', 'cstr', 'str', 'gl', 'enum', 'i64', 'k', 'kown', 'rown', 'h', 'vi', 'vs', 'mk', 'vk', 'poown')]
VRES = {'int': '70000', 'bool': 'True', 'dbl': '1.5', 'chr': "b'x'", 'cstr': BIG, 'str': BIG, 'gl': BIG, 'enum': 'M.GREEN', 'i64': '2**60', 'k': 'M.K(4)', 'kown': 'M.K(4)', 'rown': 'M.R()',
        'h': 'M.H(3)', 'vi': '[1, 70000]', 'vs': '[%s]' % BIG, 'mk': '[(%s, M.K(3))]' % BIG, 'vk': '[M.K(3)]', 'poown': 'object()'}
VBAD = {'vi': ["[1, 'x']", '5'], 'vs': ['[%s, 5]' % BIG], 'mk': ['[(%s, M.D(3))]' % BIG], 'vk': ['[M.K(3), M.D(3)]'], 'cstr': BADSTR, 'str': BADSTR, 'gl': BADSTR, 'poown': []}
CALLS = {  # how C++ calls with each kind of parameter: set-up, argument, clean-up
    'strp': ('std::string s(100, \'v\');', '&s', ''), 'strpio': ('std::string s(100, \'v\');', '&s', ''), 'strio': ('std::string s(100, \'v\');', 's', ''), 'stro': ('std::string s;', 's', ''),
    'glio': ('Glib::ustring s("abc");', 's', ''), 'glp': ('Glib::ustring s("abc");', '&s', ''), 'intio': ('int i = 70000;', '&i', ''), 'into': ('int i;', 'i', ''), 'i16r': ('int16_t i = 5;', 'i', ''),
    'boolr': ('bool b = true;', 'b', ''), 'boolp': ('bool b = true;', '&b', ''), 'kr': ('K k(5);', 'k', ''), 'kp': ('K k(5);', '&k', ''), 'kcp': ('K k(5);', '&k', ''), 'kio': ('K k(5);', 'k', ''),
    'ko': ('K k(5);', 'k', ''), 'kt': ('', 'new K(5)', ''), 'kv': ('', 'K(5)', ''), 'kc': ('', 'K(5)', ''), 'dv': ('', 'D(5)', ''), 'dc': ('', 'D(5)', ''), 'rp': ('', '&the_r()', ''), 'rr': ('', 'the_r()', ''),
    'rt': ('', 'new R', ''), 'h': ('', 'std::make_shared<H>(4)', ''), 'vi': ('', 'Vi(3, 70000)', ''), 'vic': ('', 'Vi(3, 70000)', ''), 'vio': ('Vi y(3, 70000);', 'y', ''), 'vo': ('Vi y;', 'y', ''),
    'vip': ('Vi y(3, 70000);', '&y', ''), 'vpt': ('', 'new Vi(3, 70000)', ''), 'vs': ('', "Vs(3, std::string(100, 'v'))", ''), 'mk': ('Mk k; k["a"] = K(4);', 'k', ''), 'mkc': ('Mk k; k["a"] = K(4);', 'k', ''),
    'vv': ('', 'Vv(3, Vi(3, 70000))', ''), 'ss': ('Ss s; s.insert("abc");', 's', ''), 'vk': ('', 'Vk(3)', ''), 'po': ('PyObject *o = PyList_New(0);', 'o', 'Py_DECREF(o);'), 'pot': ('', 'PyList_New(0)', ''),
    'cstr': ('', '"a text"', ''), 'str': ('', "std::string(100, 'v')", ''), 'strc': ('', "std::string(100, 'v')", ''), 'gl': ('', 'Glib::ustring("abc")', ''), 'glc': ('', 'Glib::ustring("abc")', ''),
    'enum': ('', 'GREEN', ''), 'bool': ('', 'true', ''), 'chr': ('', "'c'", ''), 'dbl': ('', '1.5', ''), 'flt': ('', '1.5f', ''), 'u8': ('', '5', '')}
# what an override of a method with this parameter gives back beside the result
BACK = {'boolr': 'True', 'boolp': 'True', 'i16r': '7', 'strio': BIG, 'stro': BIG, 'strpio': BIG, 'glio': BIG, 'intio': '70001', 'into': '70001', 'vio': '[1, 70000]', 'vo': '[1, 70000]', }


def virt_header(vp, vr):
    out = []
    for p in vp:
        k = p[0]
        d, b = decls(k)
        pre, arg, post = CALLS.get(k, ('', '70000', ''))
        out.append('struct A_%s { Track t; virtual ~A_%s() {} virtual int v(%s) { t.use(); %s return 1; }\n int call() { %s v(%s); %s t.use(); return 1; } };' % (k, k, d, b, pre, arg, post))
    for k, t, e, rv in vr:
        done = {'kown': 'delete w();', 'rown': 'w()->Unref();', 'poown': 'Py_XDECREF(w());'}.get(k, 'w();')
        if k == 'rown':
            done = 'R *r = w(); if (r) r->Unref();'
        out.append('struct B_%s { Track t; virtual ~B_%s() {} virtual %s w() { t.use(); return %s; }\n int call() { %s t.use(); return 1; } };' % (k, k, t, e, done))
    return HDR + '\n'.join(out)


def virt_gen(vp, vr):
    def gen(mod):
        from pybindgen import param, retval
        common(mod)
        for p in vp:
            A = mod.add_class('A_' + p[0], allow_subclassing=True)
            A.add_constructor([])
            A.add_method('v', 'int', pars([p[0]]), is_virtual=True)
            A.add_method('call', 'int', [])
        for k, t, e, rv in vr:
            B = mod.add_class('B_' + k, allow_subclassing=True)
            B.add_constructor([])
            B.add_method('w', rv(retval), [], is_virtual=True)
            B.add_method('call', 'int', [])
    return gen


class Obj(object):
    pass


def virt_explore(vp, vr):
    def explore(M, x):
        m = Meter(M, x)
        hook, sys.excepthook = sys.excepthook, lambda *a: None

        def body(how, value):
            code = compile(value, '<result>', 'eval')
            env = m.env

            def v(self, *a):
                if how == 'raise':
                    raise KeyError('override')
                if how == 'exit':
                    raise BaseException('override')
                return eval(code, env)
            return v

        def one(C, name, how, value):
            Q = type('Q', (C,), {name: body(how, value), '__init__': lambda self: C.__init__(self)})
            q = Q()

            def call():
                q.call()
                for n in ('last_exc', 'last_value', 'last_traceback', 'last_type'):
                    if hasattr(sys, n):
                        delattr(sys, n)

            def whole():
                z = Q()
                z.call()
                del z
                for n in ('last_exc', 'last_value', 'last_traceback', 'last_type'):
                    if hasattr(sys, n):
                        delattr(sys, n)
            m.steady(call)
            m.steady(whole)
        for p in vp:
            C = getattr(M, 'A_' + p[0])
            back = BACK.get(p[0])
            full = '(70000, %s)' % back if back else '70000'
            ways = [('ok', full), ('raise', '0'), ('exit', '0'), ('none', 'None'), ('object', 'object()'), ('long', '(%s, %s, %s)' % ('70000', back or '1', 'object()')), ('short', '70000' if back else '()')]
            if back:
                ways += [('back object', '(70000, object())'), ('first object', '(object(), %s)' % back)]
                if back in (BIG, '[1, 70000]'):
                    ways.append(('back bad', "(70000, %s)" % (BADSTR[0] if back == BIG else "[70000, 'x']")))
            if p[0] == 'i16r':
                ways.append(('back bad', '(70000, 70000)'))
            for how, value in ways:
                x.state((p[0], how))
                x.run('parameter %s override %s' % (p[0], how), one, C, 'v', how, value)
            x.run('parameter %s no override' % p[0], one, C, 'nothing', 'ok', '1')
        for k, t, e, rv in vr:
            C = getattr(M, 'B_' + k)
            ways = [('ok', VRES[k]), ('raise', '0'), ('exit', '0'), ('none', 'None'), ('long', '(%s, object())' % VRES[k]), ('short', '()')]
            ways += [('bad %d' % i, b) for i, b in enumerate(VBAD.get(k, ['object()', "'x'"]))]
            if k == 'poown':
                ways = ways[:4]
            for how, value in ways:
                x.state((k, how))
                x.run('result %s override %s' % (k, how), one, C, 'w', how, value)
            x.run('result %s no override' % k, one, C, 'nothing', 'ok', '1')
        sys.excepthook = hook
    return explore


# -- attributes, containers, constructors, operators

MISC = HDR + r'''
struct A {
    Track t; int i; bool b; double d; std::string s; const char *c; Color e; K k; K *kp; K *kown; R *r; std::shared_ptr<H> h; Vi v; Mk m; uint8_t u8; D dd; PyObject *po;
    int gi; int get_gi() const { return gi; } void set_gi(int v) { gi = v; } std::string get_gs() const { return s; } void set_gs(std::string v) { s = v; }
    static int si; static std::string ss; static K sk; static Vi sv;
    A() : i(1), b(true), d(1.5), s(100, 'a'), c("abc"), e(RED), kp(&the_k()), kown(0), r(0), h(new H(3)), v(3, 1), u8(1), po(Py_None), gi(3) { Py_INCREF(po); r = new R; }
    A(A const &o) : i(1), b(true), d(1.5), s(100, 'a'), c("abc"), e(RED), kp(&the_k()), kown(0), r(0), h(new H(3)), v(3, 1), u8(1), po(Py_None), gi(3) { Py_INCREF(po); r = new R; }
    ~A() { r->Unref(); Py_XDECREF(po); }
};
int A::si = 1; std::string A::ss("abc"); K A::sk(3); Vi A::sv(3, 1);
struct N {
    Track t; int v; std::string pad;
    N(int v_ = 0) : v(v_), pad(100, 'n') {}
    N operator+(N const &o) const { t.use(); return N(v + o.v); } N operator*(int i) const { return N(v * i); } N &operator+=(N const &o) { v += o.v; return *this; } N operator-() const { return N(-v); }
    bool operator==(N const &o) const { return v == o.v; } bool operator<(N const &o) const { return v < o.v; } bool operator!=(N const &o) const { return v != o.v; }
    bool operator<=(N const &o) const { return v <= o.v; } bool operator>=(N const &o) const { return v >= o.v; } bool operator>(N const &o) const { return v > o.v; }
    int at(int i) const { return v + i; }
};
inline std::ostream &operator<<(std::ostream &o, N const &n) { return o << n.v << std::string(100, '.'); }
struct Abs { Track t; virtual ~Abs() {} virtual int pure() = 0; };
struct Lst { Track t; std::vector<K> ks; Lst() : ks(3) {} typedef std::vector<K>::iterator it; it begin() { return ks.begin(); } it end() { return ks.end(); } };
struct Mp { Track t; std::map<std::string, K> ks; Mp() { ks["a long name for a key of a map"] = K(1); ks["b"] = K(2); } typedef std::map<std::string, K>::iterator it; it begin() { return ks.begin(); } it end() { return ks.end(); } };
'''
MISC = MISC.replace('#include <string>', '#include <string>\n#include <ostream>\n#include <sstream>', 1)


def misc_gen(mod):
    from pybindgen import param, retval
    th = common(mod)
    A = mod.add_class('A', allow_subclassing=True)
    A.add_constructor([])
    A.add_copy_constructor()
    for n, t in (('i', 'int'), ('b', 'bool'), ('d', 'double'), ('s', 'std::string'), ('e', 'Color'), ('k', 'K'), ('h', 'std::shared_ptr<H>'), ('v', 'Vi'), ('m', 'Mk'), ('u8', 'uint8_t'), ('dd', 'D')):
        A.add_instance_attribute(n, t)
    A.add_instance_attribute('c', 'const char *')
    A.add_instance_attribute('kp', retval('K *', reference_existing_object=True))
    A.add_instance_attribute('r', retval('R *', caller_owns_return=False))
    A.add_instance_attribute('gi', 'int', getter='get_gi', setter='set_gi')
    A.add_instance_attribute('gs', 'std::string', getter='get_gs', setter='set_gs')
    for n, t in (('si', 'int'), ('ss', 'std::string'), ('sk', 'K'), ('sv', 'Vi')):
        A.add_static_attribute(n, t)
    N = mod.add_class('N', allow_subclassing=True)
    N.add_constructor([param('int', 'v', default_value='0')])
    N.add_copy_constructor()
    N.add_binary_numeric_operator('+')
    N.add_binary_numeric_operator('*', N, N, param('int', 'right'))
    N.add_inplace_numeric_operator('+=')
    N.add_unary_numeric_operator('-')
    for op in ('==', '!=', '<', '<=', '>', '>='):
        N.add_binary_comparison_operator(op)
    N.add_output_stream_operator()
    N.add_method('at', 'int', [param('int', 'i')], custom_name='__getitem__', is_const=True)
    Abs = mod.add_class('Abs', allow_subclassing=True)
    Abs.add_constructor([])
    Abs.add_method('pure', 'int', [], is_virtual=True, is_pure_virtual=True)
    L = mod.add_class('Lst')
    L.add_constructor([])
    L.add_container_traits(retval('K'), begin_method='begin', end_method='end', iterator_type='it')
    L = mod.add_class('Mp')
    L.add_constructor([])
    L.add_container_traits((retval('std::string'), retval('K')), begin_method='begin', end_method='end', iterator_type='it', is_mapping=True)


ATTRS = {'i': ('70000', ["'x'", '2**70']), 'b': ('True', ['BoolRaises()']), 'd': ('1.5', ["'x'"]), 's': (BIG, BADSTR), 'c': (BIG, BADSTR), 'e': ('M.GREEN', ["'x'"]), 'k': ('M.K(70000)', ['M.D()', '5']),
         'h': ('M.H(3)', ['M.K()', 'None']), 'v': ('[1, 70000]', ["[1, 'x']", '5']), 'm': ('[("a", M.K(3))]', ['[("a", M.D(3))]', '5']), 'u8': ('200', ['300', "'x'"]), 'dd': ('M.D(3)', ['M.Other()']),
         'r': (None, []), 'kp': (None, []), 'gi': ('70000', ["'x'"]), 'gs': (BIG, BADSTR)}
STATICS = {'si': ATTRS['i'], 'ss': ATTRS['s'], 'sk': ATTRS['k'], 'sv': ATTRS['v']}
CONTS = {'Vi': ('[1, 70000, 3]', ["[1, 'x']", '5', 'IterRaises()']), 'Vs': ('[%s, "b"]' % BIG, ['[%s, %s]' % (BIG, BADSTR[0])]), 'Mk': ('[(%s, M.K(3)), ("b", M.K(4))]' % BIG, ['[(%s, M.K(3)), (5, M.K(3))]' % BIG, '[(1,)]']),
         'Vv': ('[[1, 70000], [3]]', ["[[1, 70000], ['x']]"]), 'Ss': ('[%s, "b"]' % BIG, ['[%s, 5]' % BIG]), 'Vk': ('[M.K(3), M.K(4)]', ['[M.K(3), M.D(4)]'])}


def misc_explore(M, x):
    m = Meter(M, x)
    ev = lambda e: eval(e, m.env)
    P = type('P', (M.A,), {})

    def steady(f, expect=None):
        m.steady(m.call(lambda: f() and None, lambda: [], expect))

    def setter(o, n, e):
        code = compile(e, '<v>', 'eval')

        def f():
            v = eval(code, m.env)
            rc = sys.getrefcount(v)
            err = None
            try:
                setattr(o, n, v)
            except Exception as e:
                err = type(e)
                e.__traceback__ = None
                del e
            if n != 'c':
                x.eq(sys.getrefcount(v), rc, 'references to the value')
            if err:
                raise KeyError if err is KeyError else TypeError if err is TypeError else ValueError
        return f

    def attr(make, n, okv, bads):
        o = make()
        steady(lambda: getattr(o, n), ('ok',))
        if okv is None:
            return
        steady(setter(o, n, okv), ('ok',))
        steady(lambda: getattr(o, n), ('ok',))
        for b in bads:
            steady(setter(o, n, b), FAILS)
        steady(lambda: delattr(o, n), FAILS + ('AttributeError',))

        def whole():
            z = make()
            if z is not M.A:
                getattr(z, n)
                setter(z, n, okv)()
                g = getattr(z, n)
                del z
                return g
        if make() is not M.A:
            steady(whole, ('ok',))
    for make, label in ((M.A, 'A'), (P, 'P')):
        for n, (okv, bads) in sorted(ATTRS.items()):
            x.state((label, n))
            x.run('attribute %s.%s' % (label, n), attr, make, n, okv, bads)
    for n, (okv, bads) in sorted(STATICS.items()):
        x.state(n)
        x.run('static %s' % n, attr, lambda: M.A, n, okv, bads)

    def cont(n, okv, bads):
        C = getattr(M, n)
        steady(lambda: C(ev(okv)), ('ok',))
        steady(lambda: C(), ('ok',))
        steady(lambda: C(C(ev(okv))), ('ok',))
        for b in bads:
            steady(lambda: C(ev(b)), FAILS)
        steady(lambda: C(ev(okv), 5), FAILS)
        o = C(ev(okv))
        steady(lambda: o.__init__(ev(okv)))
        for b in bads:
            steady(lambda: o.__init__(ev(b)))
        o = C(ev(okv))
        steady(lambda: list(o), ('ok',))
        steady(lambda: next(iter(o)), ('ok',))
        steady(lambda: [iter(o), iter(o)], ('ok',))

        def partly():
            i = iter(C(ev(okv)))
            next(i)
            return i
        steady(partly, ('ok',))
        steady(lambda: len(o), ('ok', 'TypeError'))
        steady(lambda: o == C(ev(okv)), ('ok',))
        steady(lambda: repr(o), ('ok',))
        steady(lambda: C.__new__(C), ('ok',))
        Q = type('Q', (C,), {}) if 0 else None
    for n, (okv, bads) in sorted(CONTS.items()):
        x.state(n)
        x.run('container %s' % n, cont, n, okv, bads)

    def obj(n, args):
        C = getattr(M, n)
        Q = type('Q', (C,), {}) if n in ('K', 'R', 'A', 'N') else None
        for T in (C, Q):
            if T is None:
                continue
            steady(lambda: T(*args()), ('ok',))
            o = T(*args())
            steady(lambda: o.__init__(*args()))
            steady(lambda: o.__init__(object()), FAILS)
            steady(lambda: T(object()), FAILS)
            steady(lambda: T.__new__(T), ('ok',))
            steady(lambda: repr(o) + str(o), ('ok',))
            steady(lambda: hash(o), ('ok', 'TypeError'))
            steady(lambda: o == T(*args()), ('ok',))
            steady(lambda: o == 5, ('ok',))
            steady(lambda: T.__init__(object()), FAILS)
            steady(lambda: T.__init__(), FAILS)
            if n in ('K', 'A', 'N', 'D'):
                import copy
                steady(lambda: T(o), ('ok',))
                steady(lambda: copy.copy(o), ('ok',))

            def both():
                z = T.__new__(T)
                try:
                    z.__init__(object())
                except TypeError:
                    pass
                z.__init__(*args())
            steady(both, ('ok',))
    for n, args in (('K', lambda: (3,)), ('R', lambda: ()), ('H', lambda: (3,)), ('A', lambda: ()), ('N', lambda: (3,)), ('D', lambda: (M.K(3),))):
        x.state(n)
        x.run('object %s' % n, obj, n, args)

    def op(f, expect):
        steady(f, expect)
    a, b = M.N(3), M.N(4)

    def ip(o):
        n = M.N(1)
        n += o
        return n
    T, F = ('ok',), FAILS
    for label, f, exp in (
            ('add', lambda: a + b, T), ('add int', lambda: a + 5, F), ('add other', lambda: a + M.K(), F), ('mul', lambda: a * 3, T), ('mul text', lambda: a * 'x', F), ('mul big', lambda: a * 2**70, F),
            ('radd', lambda: 5 + a, F), ('rmul', lambda: 'x' * a, F), ('iadd', lambda: ip(b), T), ('iadd int', lambda: ip(5), F), ('neg', lambda: -a, T), ('eq', lambda: a == b, T), ('eq int', lambda: a == 5, T),
            ('lt', lambda: a < b, T), ('lt int', lambda: a < 5, F), ('ge', lambda: a >= M.K(), F), ('str', lambda: str(a), T), ('repr', lambda: repr(a), T), ('item', lambda: a[70000], T), ('item text', lambda: a['x'], F),
            ('inv', lambda: ~a, F), ('pow', lambda: pow(a, 2, 3), F), ('abstract', lambda: M.Abs(), F), ('abstract sub', lambda: type('Z', (M.Abs,), {'pure': lambda s: 1})() and None, T),
            ('list', lambda: [k.v for k in M.Lst()], T), ('map', lambda: [k for k in M.Mp()], T), ('part', lambda: next(iter(M.Lst())), T), ('map part', lambda: next(iter(M.Mp())), T),
('no attribute', lambda: a.nothing, ('AttributeError',)), ('set no attribute', lambda: setattr(M.D(), 'nothing', 3), ('AttributeError',)), ('call', lambda: a(), F),
            ('iter', lambda: iter(M.K()), F), ('dir', lambda: dir(a), T)):
        x.run('operation %s' % label, op, f, exp)


# -- what importing a module leaves behind, and what leaving it takes away
KINDS = ('bare', 'full', 'based', 'two', 'sub', 'nested', 'spaced', 'counted')
PLACES = [p for n in range(5) for p in itertools.combinations_with_replacement(('module', 'submodule', 'namespace'), n)]


def down_header(places):
    out = ['#include <exception>', '#include <vector>', '#include <map>', 'struct Ba { int a; Ba() : a(1) {} virtual ~Ba() {} virtual int va() { return 1; } }; struct Bb { int b; virtual ~Bb() {} virtual int vb() { return 1; } };',
           'namespace sp { inline int spf() { return 3; } }', 'struct Oops : std::exception { virtual const char *what() const throw() { return "oops"; } }; enum Ev { EV_A, EV_B };',
           'struct Outer {']
    for i, p in enumerate(places):
        out.append('struct nested_%d { int v; nested_%d() : v(5) {} }; inline static nested_%d make_nested_%d() { return nested_%d(); }' % (i, i, i, i, i))
    out.append('};')
    for i, p in enumerate(places):
        for k, base in (('bare', ''), ('full', ''), ('based', ' : Ba'), ('two', ' : Ba, Bb'), ('sub', '')):
            n = '%s_%d' % (k, i)
            out.append('struct %s%s { int v; %s() : v(5) {} int get() { return v; } %s}; inline %s make_%s() { return %s(); } inline int take_%s(%s &k) { return k.v; }' % (
                n, base, n, 'virtual ~%s() {} virtual int hook() { return 1; } ' % n if k == 'sub' else '', n, n, n, n, n))
        out.append('namespace sp { struct spaced_%d { int v; spaced_%d() : v(5) {} }; inline spaced_%d make_spaced_%d() { return spaced_%d(); } }' % ((i,) * 5))
        out.append('struct counted_%d { int v, rc; counted_%d() : v(5), rc(1) {} counted_%d(counted_%d const &) : v(5), rc(1) {} void ref() { rc++; } void unref() { if (!--rc) delete this; } }; '
                   'inline counted_%d make_counted_%d() { return counted_%d(); }' % ((i,) * 7))
    out.append('inline int fail() { throw Oops(); } inline std::vector<int> vec() { return std::vector<int>(3, 7); }')
    return '\n'.join(out)


def down_gen(places):
    def gen(mod):
        from pybindgen import cppclass
        from pybindgen.module import SubModule
        Ba = mod.add_class('Ba', allow_subclassing=True)
        Ba.add_constructor([])
        Ba.add_method('va', 'int', [], is_virtual=True)
        Bb = mod.add_class('Bb', allow_subclassing=True)
        Bb.add_constructor([])
        Bb.add_method('vb', 'int', [], is_virtual=True)
        ns = mod.add_cpp_namespace('sp')
        ns.add_function('spf', 'int', [])
        low = SubModule('low', mod)
        Oops = mod.add_exception('Oops')
        mod.add_enum('Ev', ['EV_A', 'EV_B'])
        mod.add_container('std::vector<int>', 'int', 'vector')
        mod.add_function('fail', 'int', [], throw=[Oops])
        mod.add_function('vec', 'std::vector<int>', [])
        Outer = mod.add_class('Outer')
        Outer.add_constructor([])
        where = {'module': mod, 'submodule': low, 'namespace': ns}
        for i, p in enumerate(places):
            for k in KINDS:
                n = '%s_%d' % (k, i)
                kw = {'based': dict(parent=Ba), 'two': dict(parent=[Ba, Bb]), 'sub': dict(allow_subclassing=True), 'nested': dict(outer_class=Outer),
                      'counted': dict(memory_policy=cppclass.ReferenceCountingMethodsPolicy(incref_method='ref', decref_method='unref'))}.get(k, {})
                c = (ns if k == 'spaced' else mod).add_class(n, **kw)
                if k == 'bare':
                    c.add_copy_constructor()
                else:
                    c.add_constructor([])
                    c.add_copy_constructor()
                    c.add_instance_attribute('v', 'int')
                if k in ('full', 'sub'):
                    c.add_method('get', 'int', [])
                if k == 'sub':
                    c.add_method('hook', 'int', [], is_virtual=True)
                if k == 'spaced':
                    ns.add_function('make_' + n, 'sp::' + n, [])
                elif k == 'nested':
                    Outer.add_method('make_' + n, 'Outer::' + n, [], is_static=True)
                else:
                    mod.add_function('make_' + n, n, [])
                for j, place in enumerate(p):
                    where[place].add_typedef(c, 'also_%s_%d' % (n, j))
    return gen


DOWN = r"""
import sys, gc, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1])
M = __import__(sys.argv[2])
how = sys.argv[3]
scopes = [M, M.low, M.sp]
makers = [v for m in scopes for n, v in sorted(vars(m).items()) if n.startswith('make_')] + [v for n, v in sorted(vars(M.Outer).items()) if n.startswith('make_')]
makers = [getattr(v, '__func__', v) for v in makers]
if how == 'use':
    objects = [f() for f in makers]
elif how != 'import':
    objects = [f() for f in makers] if 'objects' in how else []
    order = scopes if 'forwards' in how else scopes[::-1]
    for m in order:
        for n in sorted(vars(m), reverse='forwards' in how):
            if not n.startswith('__'):
                delattr(m, n)
    gc.collect()
    types = [type(o) for o in objects]
    more = [f() for f in makers]
    if 'types' in how:
        del more, objects, makers
    gc.collect()
print('reached the end')
sys.stdout.flush()
"""
WAYS = ['import', 'use', 'forwards', 'backwards', 'forwards objects', 'backwards objects', 'forwards objects types', 'backwards types']


def down_explore(places):
    def explore(M, x):
        import subprocess
        low, sp = M.low, M.sp

        def get(k, i):
            return getattr({'nested': M.Outer, 'spaced': sp}.get(k, M), '%s_%d' % (k, i))

        def names(k, i, p):
            base = sys.getrefcount(get(k, 0))
            # the interpreter keeps a copy of the names of a module, but not of those of the modules inside it
            x.eq(sys.getrefcount(get(k, i)) - base, len(p) + p.count('module'), 'references to the type beyond those of one without other names')
            for j, place in enumerate(p):
                x.check(getattr({'module': M, 'submodule': low, 'namespace': sp}[place], 'also_%s_%d_%d' % (k, i, j)) is get(k, i), 'another type')
                x.step()

        def leave(how):
            r = subprocess.run([sys.executable, '-c', DOWN, x.workdir, M.__name__, how], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            x.check(r.returncode == 0 and b'reached the end' in r.stdout, 'exit %d: %s' % (r.returncode, (r.stdout + r.stderr)[-600:].decode('utf8', 'replace')))
            x.step()
        for k in KINDS:
            for i, p in enumerate(places):
                x.run('typedefs %s: %s' % (k, ' '.join(p) or 'none'), names, k, i, p)
        for how in WAYS:
            x.run('leaving after %s' % how, leave, how)
    return explore


def scenarios(tier):
    pk = [p[0] for p in P]
    pairs = [(a, b) for a in ALLOC for b in pk]
    out = []

    def add(name, header, gen, explore, asan, shards=1):
        out.append(Scenario(name + ('_asan' if asan else ''), header, gen, explore, driver_env=dict(ENV), asan=asan, shards=shards))
    for asan in ((False, True) if tier == 'thorough' else (False,)):
        n = 8
        for i in range(n):
            add('single%d' % i, single_header(pk[i::n]), single_gen(pk[i::n]), single_explore(pk[i::n]), asan)
        n = 12
        for i in range(n):
            add('pairs%d' % i, pair_header(pairs[i::n]), pair_gen(pairs[i::n]), pair_explore(pairs[i::n]), asan)
        add('results', ret_header(), ret_gen, ret_explore, asan)
        vp = VP
        n = 4
        for i in range(n):
            add('overrides%d' % i, virt_header(vp[i::n], VR[i::n]), virt_gen(vp[i::n], VR[i::n]), virt_explore(vp[i::n], VR[i::n]), asan)
        add('misc', MISC, misc_gen, misc_explore, asan)
        for i in range(5):
            # by the number of other names
            places = [p for p in PLACES if len(p) in (0, i)]
            add('names%d' % i, down_header(places), down_gen(places), down_explore(places), asan)
    return out
