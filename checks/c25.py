"""C25: dividing the output into sections changes files, not behaviour."""
import importlib.util
import io
import itertools
import os
import sys
from pbmc import Scenario, REPO

LEVEL = 'exploration'
RULE = ('groups of 2-4 definitions that refer to each other; every assignment of the definitions to the main file and sections (up to the names of the sections), '
        'each compiled as separate translation units, against the same description in one file and hand-written results')
BOUNDS = {'quick': 'all assignments of every group to main and 2 sections, sections re-opened where the order needs it; for groups of 4 a subset with every pair of definitions in every relative position',
          'thorough': 'all assignments to main and 3 sections, the assignments to 2 sections also with section names like the names of the main file and the module, and with gcc_rtti_abi_complete off'}
NOTE = 'public contents (names, types, bases, doc strings, submodules in sys.modules) are compared recursively between the one-file and the divided module'

GROUPS = {}


def group(name, header, items, test):
    GROUPS[name] = (header, items, test)


def outcome(fn, *a):
    try:
        return fn(*a)
    except Exception as e:
        return type(e).__name__


# ------------------------------------------------------------------ groups: items are functions of a state s
def t_overload(M, x):
    x.eq([M.f(1), M.f('a'), M.f(1, 2), outcome(M.f, []), M.g(2)], [2, 'a!', 3, 'TypeError', 6], 'overloads')


group('overload', '''
inline int f(int a) { return a + 1; }
inline std::string f(std::string s) { return s + "!"; }
inline int f(int a, int b) { return a + b; }
inline int g(int a) { return a * 3; }
''', [lambda s: s.mod.add_function('f', 'int', [s.param('int', 'a')]),
      lambda s: (s.mod.add_function('f', 'std::string', [s.param('std::string', 's')]), s.mod.add_function('g', 'int', [s.param('int', 'a')])),
      lambda s: s.mod.add_function('f', 'int', [s.param('int', 'a'), s.param('int', 'b')])], t_overload)


def t_klass(M, x):
    k = M.K(3)
    x.eq([k.v, M.get(k), M.make(5).v, M.ref(k).v, M.twice(M.K(2)).v, k.add(M.K(4)), outcome(M.get, 3)], [3, 3, 5, 3, 4, 7, 'TypeError'], 'class')
    k.v = 9
    x.eq([M.get(k), M.K().v, type(M.make(1)) is M.K, M.J(k).k.v, M.J(M.K(1)).get().v], [9, 0, True, 9, 1], 'class 2')


group('klass', '''
struct K { int v; K(int a = 0) : v(a) {} int add(K const &o) const { return v + o.v; } };
struct J { K k; J(K const &a) : k(a) {} K get() const { return k; } };
inline int get(K *k) { return k->v; } inline K *make(int a) { return new K(a); } inline K ref(K &k) { return k; } inline K twice(K k) { return K(k.v * 2); }
''', [lambda s: (s.klass('K', [[], [s.param('int', 'a')]]), s['K'].add_instance_attribute('v', 'int'), s['K'].add_method('add', 'int', [s.param('K const &', 'o')], is_const=True)),
      lambda s: (s.mod.add_function('get', 'int', [s.param('K *', 'k', transfer_ownership=False)]),
                 s.mod.add_function('make', s.retval('K *', caller_owns_return=True), [s.param('int', 'a')]),
                 s.mod.add_function('ref', 'K', [s.param('K &', 'k')]), s.mod.add_function('twice', 'K', [s.param('K', 'k')])),
      lambda s: (s.klass('J', [[s.param('K const &', 'a')]]), s['J'].add_instance_attribute('k', 'K'), s['J'].add_method('get', 'K', [], is_const=True))], t_klass)


def t_derived(M, x):
    b, d, e = M.B(1), M.D(2), M.E(3)
    x.eq([b.m(), d.m(), e.m(), d.d(), e.d(), e.e(), M.take(e), M.take(d)], [1, 102, 1003, 12, 13, 23, 1003, 102], 'hierarchy')
    x.eq([M.D.__mro__[1] is M.B, M.E.__mro__[1] is M.D, type(M.make(0)).__name__[-1], type(M.make(1)).__name__[-1], type(M.make(2)).__name__[-1]], [True, True, 'B', 'D', 'E'], 'narrowing')

    class P(M.E):
        def m(self):
            return 7
    x.eq([M.take(P(1)), M.take(M.B(4)), outcome(M.taked, b), M.taked(e)], [7, 4, 'TypeError', 13], 'override')


group('derived', '''
struct B { int v; B(int a) : v(a) {} B(B const &o) : v(o.v) {} virtual ~B() {} virtual int m() { return v; } };
struct D : B { D(int a) : B(a) {} D(D const &o) : B(o) {} virtual int m() { return v + 100; } int d() { return v + 10; } };
struct E : D { E(int a) : D(a) {} E(E const &o) : D(o) {} virtual int m() { return v + 1000; } int e() { return v + 20; } };
inline int take(B *b) { return b->m(); } inline int taked(D *d) { return d->d(); }
inline B *make(int k) { return k == 0 ? new B(0) : k == 1 ? new D(0) : new E(0); }
''', [lambda s: (s.klass('B', [[s.param('int', 'a')]], allow_subclassing=True, automatic_type_narrowing=True), s['B'].add_method('m', 'int', [], is_virtual=True)),
      lambda s: (s.klass('D', [[s.param('int', 'a')]], parent=s['B'], automatic_type_narrowing=True), s['D'].add_method('m', 'int', [], is_virtual=True), s['D'].add_method('d', 'int', [])),
      lambda s: (s.klass('E', [[s.param('int', 'a')]], parent=s['D'], automatic_type_narrowing=True), s['E'].add_method('m', 'int', [], is_virtual=True), s['E'].add_method('e', 'int', [])),
      lambda s: (s.mod.add_function('take', 'int', [s.param('B *', 'b', transfer_ownership=False)]), s.mod.add_function('taked', 'int', [s.param('D *', 'd', transfer_ownership=False)]),
                 s.mod.add_function('make', s.retval('B *', caller_owns_return=True), [s.param('int', 'k')]))], t_derived)


def t_virtual(M, x):
    class P(M.V):
        def get(self, k):
            return M.K(k.v * 5)

        def vec(self, v):
            return [a + 1 for a in v]

        def en(self, e):
            return M.B0 if e == M.A0 else M.A0
    p = P()
    x.eq([M.callget(p, 3), list(M.callvec(p, 4)), M.callen(p), M.callget(M.V(), 3), list(M.callvec(M.V(), 4)), M.callen(M.V())], [15, [5, 6], 1, 4, [4, 5], 0], 'virtuals')


group('virtual', '''
struct K { int v; K(int a = 0) : v(a) {} };
enum En { A0, B0 };
struct V { V() {} virtual ~V() {} virtual K get(K k) { return K(k.v + 1); } virtual std::vector<int> vec(std::vector<int> v) { return v; } virtual En en(En e) { return e; } };
inline int callget(V &v, int a) { return v.get(K(a)).v; } inline std::vector<int> callvec(V &v, int a) { std::vector<int> r; r.push_back(a); r.push_back(a + 1); return v.vec(r); }
inline int callen(V &v) { return v.en(A0); }
''', [lambda s: (s.klass('K', [[], [s.param('int', 'a')]]), s['K'].add_instance_attribute('v', 'int')),
      lambda s: (s.mod.add_container('std::vector<int>', 'int', 'vector'), s.mod.add_enum('En', ['A0', 'B0'])),
      lambda s: (s.klass('V', [[]], copy=False, allow_subclassing=True), s['V'].add_method('get', 'K', [s.param('K', 'k')], is_virtual=True),
                 s['V'].add_method('vec', 'std::vector<int>', [s.param('std::vector<int>', 'v')], is_virtual=True), s['V'].add_method('en', 'En', [s.param('En', 'e')], is_virtual=True)),
      lambda s: (s.mod.add_function('callget', 'int', [s.param('V &', 'v'), s.param('int', 'a')]), s.mod.add_function('callvec', 'std::vector<int>', [s.param('V &', 'v'), s.param('int', 'a')]),
                 s.mod.add_function('callen', 'int', [s.param('V &', 'v')]))], t_virtual)


def t_enums(M, x):
    x.eq([M.A1, M.B1, M.f(M.B1), M.K(M.A1).e, M.K.IN1, M.K(M.B1).in_(M.K.IN1), M.g(M.K.IN1)], [4, 5, 6, 4, 8, 9, 8], 'enums')


group('enums', '''
enum En { A1 = 4, B1 };
struct K { En e; enum In { IN0 = 7, IN1 }; K(En a) : e(a) {} int in_(In i) { return i + 1; } };
inline int f(En e) { return e + 1; } inline K::In g(K::In i) { return i; }
''', [lambda s: s.mod.add_enum('En', ['A1', 'B1']),
      lambda s: (s.klass('K', [[s.param('En', 'a')]]), s['K'].add_enum('In', ['IN0', 'IN1']), s['K'].add_instance_attribute('e', 'En'), s['K'].add_method('in_', 'int', [s.param('K::In', 'i')])),
      lambda s: (s.mod.add_function('f', 'int', [s.param('En', 'e')]), s.mod.add_function('g', 'K::In', [s.param('K::In', 'i')]))], t_enums)


def t_containers(M, x):
    x.eq([M.f([1, 2]), list(M.g(3)), M.h([M.K(2), M.K(5)]), [k.v for k in M.i(2)], list(M.j([(1, M.K(4))]))[0][0], list(M.VecI([4])), M.f(M.VecI([7]))], [3, [0, 1, 2], 7, [0, 1], 1, [4], 7], 'containers')
    x.eq([outcome(M.f, ['a']), outcome(M.h, [1])], ['TypeError'] * 2, 'bad elements')


group('containers', '''
#include <list>
#include <map>
struct K { int v; K(int a = 0) : v(a) {} };
inline int f(std::vector<int> const &v) { int r = 0; for (int a : v) r += a; return r; } inline std::vector<int> g(int n) { std::vector<int> r; for (int i = 0; i < n; i++) r.push_back(i); return r; }
inline int h(std::list<K> l) { int r = 0; for (K &k : l) r += k.v; return r; } inline std::list<K> i(int n) { std::list<K> r; for (int a = 0; a < n; a++) r.push_back(K(a)); return r; }
inline std::map<int, K> j(std::map<int, K> m) { return m; }
''', [lambda s: (s.klass('K', [[], [s.param('int', 'a')]]), s['K'].add_instance_attribute('v', 'int')),
      lambda s: (s.mod.add_container('std::vector<int>', 'int', 'vector', custom_name='VecI'), s.mod.add_container('std::map<int, K>', ('int', 'K'), 'map')),
      lambda s: s.mod.add_container('std::list<K>', 'K', 'list'),
      lambda s: (s.mod.add_function('f', 'int', [s.param('std::vector<int> const &', 'v')]), s.mod.add_function('g', 'std::vector<int>', [s.param('int', 'n')]),
                 s.mod.add_function('h', 'int', [s.param('std::list<K>', 'l')]), s.mod.add_function('i', 'std::list<K>', [s.param('int', 'n')]),
                 s.mod.add_function('j', 'std::map<int, K>', [s.param('std::map<int, K>', 'm')]))], t_containers)


def t_exceptions(M, x):
    x.eq([issubclass(M.Er2, M.Er1), outcome(M.f, 0), outcome(M.f, 1), outcome(M.f, 2), outcome(M.K().m, 1), outcome(M.K().m, 2), outcome(M.K, 1)], [True, 3, 'Er1', 'Er2', 'Er1', 'Er2', 'Er1'], 'exceptions')
    try:
        M.f(2)
    except M.Er1 as e:
        x.eq(str(e), 'two', 'message')


group('exceptions', '''
struct Er1 { Er1() {} }; struct Er2 : Er1 { std::string what() const { return "two"; } };
inline int f(int k) { if (k == 1) throw Er1(); if (k == 2) throw Er2(); return 3; }
struct K { K() {} K(int k) { f(k); } int m(int k) { return f(k); } };
''', [lambda s: s.e('Er1', s.mod.add_exception('Er1')),
      lambda s: s.e('Er2', s.mod.add_exception('Er2', parent=s['Er1'], message_rvalue='%(EXC)s.what().c_str()')),
      lambda s: s.mod.add_function('f', 'int', [s.param('int', 'k')], throw=[s['Er2'], s['Er1']]),
      lambda s: (s.klass('K', [[]], copy=False), s['K'].add_constructor([s.param('int', 'k')], throw=[s['Er1']]), s['K'].add_method('m', 'int', [s.param('int', 'k')], throw=[s['Er2'], s['Er1']]))], t_exceptions)


def t_smart(M, x):
    k = M.K(4)
    x.eq([M.get(k), M.make(6).v, M.same(k) is k, M.keep(k), M.J(k).k().v, M.count(k)], [4, 6, True, 4, 4, 3], 'shared_ptr')


group('smart', '''
#include <memory>
struct K { int v; K(int a = 0) : v(a) {} };
struct J { std::shared_ptr<K> p; J(std::shared_ptr<K> a) : p(a) {} std::shared_ptr<K> k() { return p; } };
inline int get(std::shared_ptr<K> k) { return k->v; } inline std::shared_ptr<K> make(int a) { return std::make_shared<K>(a); } inline std::shared_ptr<K> same(std::shared_ptr<K> k) { return k; }
inline int keep(K &k) { return k.v; } inline int count(std::shared_ptr<K> k) { return int(k.use_count()); }
''', [lambda s: (s.klass('K', [[], [s.param('int', 'a')]], memory_policy=s.smart_ptr.StdSharedPtr('K')), s['K'].add_instance_attribute('v', 'int')),
      lambda s: (s.klass('J', [[s.param('std::shared_ptr<K>', 'a')]]), s['J'].add_method('k', 'std::shared_ptr<K>', [])),
      lambda s: (s.mod.add_function('get', 'int', [s.param('std::shared_ptr<K>', 'k')]), s.mod.add_function('make', 'std::shared_ptr<K>', [s.param('int', 'a')]),
                 s.mod.add_function('same', 'std::shared_ptr<K>', [s.param('std::shared_ptr<K>', 'k')]), s.mod.add_function('keep', 'int', [s.param('K &', 'k')]),
                 s.mod.add_function('count', 'int', [s.param('std::shared_ptr<K>', 'k')]))], t_smart)


def t_refcount(M, x):
    k = M.K(4)
    h = M.H()
    h.set(k)
    x.eq([M.get(k), h.get() is k, k.refs()], [4, True, 2], 'refcounted')
    del k
    x.eq([h.get().v, h.get().refs()], [4, 2], 'kept')

    class P(M.K):
        def m(self):
            return 60
    h.set(P(1))
    x.eq([h.callm(), type(h.get()) is P], [60, True], 'subclass kept')


group('refcount', '''
struct K { int v; int rc; K(int a = 0) : v(a), rc(1) {} K(K const &o) : v(o.v), rc(1) {} virtual ~K() {} void Ref() { rc++; } void Unref() { if (!--rc) delete this; } int GetRefs() { return rc; } int refs() { return rc; } virtual int m() { return 6; } };
struct H { K *k; H() : k(0) {} H(H const &) : k(0) {} ~H() { if (k) k->Unref(); } void set(K *a) { if (a) a->Ref(); if (k) k->Unref(); k = a; } K *get() { return k; } int callm() { return k->m(); } };
inline int get(K *k) { return k->v; }
''', [lambda s: (s.klass('K', [[], [s.param('int', 'a')]], memory_policy=s.cppclass.ReferenceCountingMethodsPolicy('Ref', 'Unref', 'GetRefs'), allow_subclassing=True), s['K'].add_instance_attribute('v', 'int'),
                 s['K'].add_method('refs', 'int', []), s['K'].add_method('m', 'int', [], is_virtual=True)),
      lambda s: (s.klass('H', [[]]), s['H'].add_method('set', None, [s.param('K *', 'a', transfer_ownership=False)]), s['H'].add_method('get', s.retval('K *', caller_owns_return=False), []),
                 s['H'].add_method('callm', 'int', [])),
      lambda s: s.mod.add_function('get', 'int', [s.param('K *', 'k', transfer_ownership=False)])], t_refcount)


def t_submodule(M, x):
    x.eq([M.top(M.ns.K(3)), M.ns.f(M.ns.K(3)).v, M.ns.EN1, M.ns.deep.g(M.ns.EN1), M.ns.deep.D(2).v, isinstance(M.ns.deep.D(1), M.ns.K), sys.modules[M.__name__ + '.ns'] is M.ns,
          sys.modules[M.__name__ + '.ns.deep'] is M.ns.deep, M.ns.f(M.ns.deep.D(4)).v], [3, 4, 1, 2, 2, True, True, True, 5], 'namespaces')


group('submodule', '''
namespace ns { struct K { int v; K(int a = 0) : v(a) {} }; enum En { EN0, EN1 }; inline K f(K const &k) { return K(k.v + 1); } namespace deep { struct D : K { D(int a) : K(a) {} }; inline int g(En e) { return e + 1; } } }
inline int top(ns::K const &k) { return k.v; }
''', [lambda s: (s.e('ns', s.mod.add_cpp_namespace('ns')), s.e('deep', s['ns'].add_cpp_namespace('deep')), s['ns'].add_enum('En', ['EN0', 'EN1'])),
      lambda s: (s.klass('K', [[], [s.param('int', 'a')]], in_=s['ns']), s['K'].add_instance_attribute('v', 'int')),
      lambda s: (s['ns'].add_function('f', 'ns::K', [s.param('ns::K const &', 'k')]), s.klass('D', [[s.param('int', 'a')]], in_=s['deep'], parent=s['K'])),
      lambda s: (s.mod.add_function('top', 'int', [s.param('ns::K const &', 'k')]), s['deep'].add_function('g', 'int', [s.param('ns::En', 'e')]))], t_submodule)


def t_operators(M, x):
    a, b = M.A(3), M.B(4)
    x.eq([(a + b).v, (a + 1).v, (a * 2).v, (-a).v, a < M.A(4), a == M.A(3), str(a), (b - a).v, a != M.A(3)], [7, 4, 6, -3, True, True, 'A3', 1, False], 'operators')
    a += b
    x.eq(a.v, 7, 'inplace')


group('operators', '''
#include <ostream>
struct B { int v; B(int a = 0) : v(a) {} };
struct A { int v; A(int a = 0) : v(a) {} A &operator+=(B const &b) { v += b.v; return *this; } };
inline A operator+(A const &a, B const &b) { return A(a.v + b.v); } inline A operator+(A const &a, int b) { return A(a.v + b); } inline A operator*(A const &a, int b) { return A(a.v * b); }
inline A operator-(A const &a) { return A(-a.v); } inline bool operator<(A const &a, A const &b) { return a.v < b.v; } inline bool operator==(A const &a, A const &b) { return a.v == b.v; } inline bool operator!=(A const &a, A const &b) { return a.v != b.v; }
inline std::ostream &operator<<(std::ostream &o, A const &a) { return o << "A" << a.v; } inline B operator-(B const &b, A const &a) { return B(b.v - a.v); }
''', [lambda s: (s.klass('B', [[], [s.param('int', 'a')]]), s['B'].add_instance_attribute('v', 'int')),
      lambda s: (s.klass('A', [[], [s.param('int', 'a')]]), s['A'].add_instance_attribute('v', 'int'), [s['A'].add_binary_comparison_operator(o) for o in ('<', '==', '!=')], s['A'].add_output_stream_operator(),
                 s['A'].add_unary_numeric_operator('-')),
      lambda s: (s['A'].add_binary_numeric_operator('+', s['A'], s['A'], s['B']), s['A'].add_binary_numeric_operator('+', s['A'], s['A'], s.param('int', 'right')),
                 s['A'].add_binary_numeric_operator('*', s['A'], s['A'], s.param('int', 'right')), s['A'].add_inplace_numeric_operator('+=', s['B']),
                 s['B'].add_binary_numeric_operator('-', s['B'], s['B'], s['A']))], t_operators)


def t_implicit(M, x):
    x.eq([M.f(M.B(3)), M.f(M.A(4)), M.f(M.C(5)), outcome(M.f, 3), M.K().m(M.C(2)), M.g([M.A(1)])], [3, 4, 105, 'TypeError', 102, 1], 'implicit conversions')


group('implicit', '''
struct A; struct B { int v; B(int a = 0) : v(a) {} operator A() const; };
struct C { int v; C(int a = 0) : v(a) {} };
struct A { int v; A(int a = 0) : v(a) {} A(C const &c) : v(c.v + 100) {} };
inline B::operator A() const { return A(v); }
inline int f(A a) { return a.v; } struct K { K() {} int m(A const &a) { return a.v; } }; inline int g(std::vector<A> v) { return v[0].v; }
''', [lambda s: (s.klass('A', [[], [s.param('int', 'a')]])),
      lambda s: (s.klass('B', [[], [s.param('int', 'a')]]), s['B'].implicitly_converts_to(s['A'])),
      lambda s: (s.klass('C', [[], [s.param('int', 'a')]]), s['C'].implicitly_converts_to(s['A']), s.mod.add_container('std::vector<A>', 'A', 'vector')),
      lambda s: (s.mod.add_function('f', 'int', [s.param('A', 'a')]), s.klass('K', [[]]), s['K'].add_method('m', 'int', [s.param('A const &', 'a')]), s.mod.add_function('g', 'int', [s.param('std::vector<A>', 'v')]))], t_implicit)


def t_nested(M, x):
    o = M.Out(3)
    x.eq([o.i.v, M.Out.In(4).v, M.f(M.Out.In(5)), M.Out.In.Deep().d(), o.get(M.Out.In(6)).v, M.Out.In(1).out(o)], [3, 4, 5, 12, 7, 3], 'nested')


group('nested', '''
struct Out { struct In { int v; In(int a = 0) : v(a) {} struct Deep { Deep() {} int d() { return 12; } }; int out(Out const &o) const; }; In i; Out(int a = 0) : i(a) {} In get(In a) { return In(a.v + 1); } };
inline int Out::In::out(Out const &o) const { return o.i.v; } inline int f(Out::In const &i) { return i.v; }
''', [lambda s: s.klass('Out', [[], [s.param('int', 'a')]]),
      lambda s: (s.klass('In', [[], [s.param('int', 'a')]], outer_class=s['Out']), s['In'].add_instance_attribute('v', 'int')),
      lambda s: (s.klass('Deep', [[]], outer_class=s['In']), s['Deep'].add_method('d', 'int', [])),
      lambda s: (s['Out'].add_instance_attribute('i', 'Out::In'), s['Out'].add_method('get', 'Out::In', [s.param('Out::In', 'a')]), s['In'].add_method('out', 'int', [s.param('Out const &', 'o')], is_const=True),
                 s.mod.add_function('f', 'int', [s.param('Out::In const &', 'i')]))], t_nested)


def t_multi(M, x):
    c = M.C()
    x.eq([c.a(), c.b(), c.c(), M.fa(c), M.C.__bases__ == (M.A, M.B), c.va(), M.callva(c), M.C.st, M.C.stb], [1, 2, 3, 1, True, 30, 30, 11, 12], 'multiple inheritance')

    class P(M.C):
        def va(self):
            return 99
    x.eq(M.callva(P()), 99, 'override')


group('multi', '''
template <class T> struct St { static int st, stb; }; template <class T> int St<T>::st = 11; template <class T> int St<T>::stb = 12;
struct A : St<int> { int x; A() : x(1) {} A(A const &o) : x(o.x) {} virtual ~A() {} int a() { return x; } virtual int va() { return 10; } };
struct B : St<long> { int y; B() : y(2) {} B(B const &o) : y(o.y) {} virtual ~B() {} int b() { return y; } };
struct C : A, B { C() {} C(C const &o) : A(o), B(o) {} int c() { return 3; } virtual int va() { return 30; } };
inline int fa(A *a) { return a->a(); } inline int callva(A *a) { return a->va(); }
''', [lambda s: (s.klass('A', [[]], allow_subclassing=True), s['A'].add_method('a', 'int', []), s['A'].add_method('va', 'int', [], is_virtual=True), s['A'].add_static_attribute('st', 'int')),
      lambda s: (s.klass('B', [[]], allow_subclassing=True), s['B'].add_method('b', 'int', []), s['B'].add_static_attribute('stb', 'int')),
      lambda s: (s.klass('C', [[]], parent=[s['A'], s['B']]), s['C'].add_method('c', 'int', []), s['C'].add_method('va', 'int', [], is_virtual=True)),
      lambda s: [s.mod.add_function('fa', 'int', [s.param('A *', 'a', transfer_ownership=False)]),
                 s.mod.add_function('callva', 'int', [s.param('A *', 'a', transfer_ownership=False)])]], t_multi)


def t_functions_as(M, x):
    k = M.K(3)
    x.eq([k.triple(), M.K('ab').v, k.plus(M.J()), M.J().twice(4), k(5), len(k), list(M.It())], [9, 2, 103, 8, 8, 3, [1, 2]], 'functions as methods')


group('functions_as', '''
struct K { int v; K(int a = 0) : v(a) {} int operator()(int a) { return v + a; } int size() { return v; } };
struct J { J() {} }; struct It { std::vector<int> c; typedef std::vector<int>::iterator iterator; It() { c.push_back(1); c.push_back(2); } iterator begin() { return c.begin(); } iterator end() { return c.end(); } };
inline int triple(K const &k) { return k.v * 3; } inline K *kstr(std::string s) { return new K(int(s.size())); } inline int plus(K &k, J const &) { return k.v + 100; } inline int twice(J &, int a) { return a * 2; }
''', [lambda s: (s.klass('K', [[], [s.param('int', 'a')]]), s['K'].add_instance_attribute('v', 'int'), s['K'].add_function_as_method('triple', 'int', [s.param('K &', 'self')]),
                 s['K'].add_function_as_constructor('kstr', s.retval('K *', caller_owns_return=True), [s.param('std::string', 's')])),
      lambda s: (s.klass('J', [[]]), s['J'].add_function_as_method('twice', 'int', [s.param('J &', 'self'), s.param('int', 'a')])),
      lambda s: (s['K'].add_function_as_method('plus', 'int', [s.param('K &', 'self'), s.param('J const &', 'j')]), s['K'].add_method('operator()', 'int', [s.param('int', 'a')], custom_name='__call__'),
                 s['K'].add_method('size', 'int', [], custom_name='__len__')),
      lambda s: (s.klass('It', [[]]), s['It'].add_container_traits('int', begin_method='begin', end_method='end', iterator_type='iterator'))], t_functions_as)


def t_custom(M, x):
    x.eq([M.cf(), M.cf2(3), M.K().cm(), M.K().m(4), M.K2 is M.K or M.K2.__name__], [7, 10, 8, 5, True], 'custom wrappers')


CF = '''PyObject *_wrap_cf(PyObject *PYBINDGEN_UNUSED(dummy), PyObject *PYBINDGEN_UNUSED(args), PyObject *PYBINDGEN_UNUSED(kwargs), PyObject **PYBINDGEN_UNUSED(return_exception))
{
    return PyLong_FromLong(cf());
}
'''
CM = '''PyObject *_wrap_cm(%s *self, PyObject *PYBINDGEN_UNUSED(args), PyObject *PYBINDGEN_UNUSED(kwargs), PyObject **PYBINDGEN_UNUSED(return_exception))
{
    return PyLong_FromLong(self->obj->m(7));
}
'''

group('custom', '''
inline int cf() { return 7; } inline int cf2(int a) { return a + 7; }
struct K { K() {} int m(int a) { return a + 1; } };
''', [lambda s: s.mod.add_custom_function_wrapper('cf', '_wrap_cf', CF, flags=['METH_VARARGS', 'METH_KEYWORDS']),
      lambda s: (s.klass('K', [[]]), s['K'].add_custom_method_wrapper('cm', '_wrap_cm', CM % s['K'].pystruct, flags=['METH_VARARGS', 'METH_KEYWORDS']), s['K'].add_method('m', 'int', [s.param('int', 'a')])),
      lambda s: (s.mod.add_function('cf2', 'int', [s.param('int', 'a')]), s.mod.add_typedef(s['K'], 'K2'))], t_custom)


def t_cycle(M, x):
    # A and B refer to each other in both directions
    a, b = M.A(), M.B()
    a.setb(b)
    b.seta(a)
    x.eq([a.getb() is b, b.geta() is a, a.useb(b), b.usea(a), outcome(a.setb, a)], [True, True, 2, 1, 'TypeError'], 'mutual references')


group('cycle', '''
struct B; struct A { B *b; int v; A() : b(0), v(1) {} virtual ~A() {} void setb(B *x) { b = x; } B *getb() { return b; } int useb(B const &); };
struct B { A *a; int v; B() : a(0), v(2) {} virtual ~B() {} void seta(A *x) { a = x; } A *geta() { return a; } int usea(A const &x) { return x.v; } }; inline int A::useb(B const &x) { return x.v; }
''', [lambda s: s.klass('A', [[]], copy=False, allow_subclassing=True),
      lambda s: s.klass('B', [[]], copy=False, allow_subclassing=True),
      lambda s: (s['A'].add_method('setb', None, [s.param('B *', 'x', transfer_ownership=False, custodian=0)]), s['A'].add_method('getb', s.retval('B *', caller_owns_return=False, reference_existing_object=True), []),
                 s['A'].add_method('useb', 'int', [s.param('B const &', 'x')])),
      lambda s: (s['B'].add_method('seta', None, [s.param('A *', 'x', transfer_ownership=False, custodian=0)]), s['B'].add_method('geta', s.retval('A *', caller_owns_return=False, reference_existing_object=True), []),
                 s['B'].add_method('usea', 'int', [s.param('A const &', 'x')]))], t_cycle)


def t_abstract(M, x):
    class P(M.Shape):
        def area(self):
            return 4.5

        def name(self):
            return 'p'
    x.eq([outcome(M.Shape), M.Sq(2).area(), M.total(M.Sq(3)), M.total(P()), M.describe(P()), M.Sing.get().v, outcome(M.Sing), M.Hid().v()], ['TypeError', 4.0, 9.0, 4.5, 'p!', 17, 'TypeError', 23], 'abstract')


group('abstract', '''
struct Shape { Shape() {} virtual ~Shape() {} virtual double area() const = 0; virtual std::string describe() { return name() + "!"; } protected: virtual std::string name() { return "shape"; } };
struct Sq : Shape { int a; Sq(int x) : a(x) {} virtual double area() const { return a * a; } };
struct Sing { int v; static Sing *get() { static Sing s; return &s; } private: Sing() : v(17) {} };
struct Hid { Hid() {} int v() { return 23; } };
inline double total(Shape const &s) { return s.area(); } inline std::string describe(Shape &s) { return s.describe(); }
''', [lambda s: (s.klass('Shape', [[]], copy=False, allow_subclassing=True), s['Shape'].add_method('area', 'double', [], is_virtual=True, is_pure_virtual=True, is_const=True),
                 s['Shape'].add_method('describe', 'std::string', [], is_virtual=True), s['Shape'].add_method('name', 'std::string', [], is_virtual=True, visibility='protected')),
      lambda s: (s.klass('Sq', [[s.param('int', 'x')]], copy=False, parent=s['Shape']), s['Sq'].add_method('area', 'double', [], is_virtual=True, is_const=True)),
      lambda s: (s.mod.add_function('total', 'double', [s.param('Shape const &', 's')]), s.mod.add_function('describe', 'std::string', [s.param('Shape &', 's')])),
      lambda s: (s.klass('Sing', [], copy=False, is_singleton=True), s['Sing'].add_instance_attribute('v', 'int'), s['Sing'].add_method('get', s.retval('Sing *', reference_existing_object=True), [], is_static=True),
                 s.klass('Hid', [[]]), s['Hid'].add_method('v', 'int', []))], t_abstract)


def t_imported(M, x):
    P = sys.modules[M.__name__[:M.__name__.rindex('_')] + '_pre']
    k, l = P.K(3), M.L(4)
    x.eq([M.get(k), M.get(l), M.make(6).v, type(M.make(1)) is P.K, isinstance(l, P.K), l.m(), M.callm(l), M.callm(k), M.L.__bases__ == (P.K,), M.en(P.Y1), M.thrower(0), 'K' in vars(M)],
         [3, 4, 6, True, True, 104, 104, 3, True, 2, 5, False], 'imported class')

    class Q(M.L):
        def m(self):
            return 55
    x.eq([M.callm(Q(1)), outcome(M.thrower, 1)], [55, 'Er'], 'override')


def imported(s):
    s.klass('K', [], copy=False, import_from_module=s.pre, allow_subclassing=True)
    s['K'].add_constructor([s.param('int', 'a')])
    s['K'].add_copy_constructor()
    s['K'].add_method('m', 'int', [], is_virtual=True)
    s.mod.add_enum('Yn', ['Y0', 'Y1'], import_from_module=s.pre)


group('imported', '''
struct K { int v; K(int a) : v(a) {} K(K const &o) : v(o.v) {} virtual ~K() {} virtual int m() { return v; } }; enum Yn { Y0, Y1 }; struct Er { };
struct L : K { L(int a) : K(a) {} L(L const &o) : K(o) {} virtual int m() { return v + 100; } };
inline int get(K *k) { return k->v; } inline K *make(int a) { return new K(a); } inline int callm(K &k) { return k.m(); } inline int en(Yn y) { return y + 1; } inline int thrower(int a) { if (a) throw Er(); return 5; }
''', [imported,
      lambda s: (s.klass('L', [[s.param('int', 'a')]], parent=s['K']), s['L'].add_method('m', 'int', [], is_virtual=True), s.mod.add_function('callm', 'int', [s.param('K &', 'k')])),
      lambda s: s.e('Er', s.mod.add_exception('Er')),
      lambda s: (s.mod.add_function('get', 'int', [s.param('K *', 'k', transfer_ownership=False)]), s.mod.add_function('make', s.retval('K *', caller_owns_return=True), [s.param('int', 'a')]),
                 s.mod.add_function('en', 'int', [s.param('Yn', 'y')]), s.mod.add_function('thrower', 'int', [s.param('int', 'a')], throw=[s['Er']]))], t_imported)
PRE = {'imported': [lambda s: (s.klass('K', [[s.param('int', 'a')]], allow_subclassing=True), s['K'].add_method('m', 'int', [], is_virtual=True), s['K'].add_instance_attribute('v', 'int'),
                               s.mod.add_enum('Yn', ['Y0', 'Y1']))]}


# ------------------------------------------------------------------ building
class State(object):
    def __init__(self, mod):
        import pybindgen
        from pybindgen import cppclass
        from pybindgen.typehandlers import smart_ptr
        self.mod = mod
        self.cppclass = cppclass
        self.smart_ptr = smart_ptr
        self.param = pybindgen.param
        self.retval = pybindgen.retval
        self.d = {}
        self.pre = mod.name[:mod.name.rindex('_')] + '_pre'

    def __getitem__(self, k):
        return self.d[k]

    def e(self, k, v):
        self.d[k] = v
        return v

    def klass(self, name, ctors, copy=True, in_=None, **kw):
        c = self.e(name, (self.mod if in_ is None else in_).add_class(name, **kw))
        for p in ctors:
            c.add_constructor(p)
        if copy:
            c.add_copy_constructor()
        return c


def assignments(n, sections):
    """all assignments of n items to 0 (main) and sections 1..sections, up to renaming sections"""
    out = []
    for a in itertools.product(range(sections + 1), repeat=n):
        top = 0
        for v in a:
            if v > top + 1:
                break
            top = max(top, v)
        else:
            out.append(a)
    return out


def make_factory(wd, base):
    from pybindgen.module import MultiSectionFactory
    from pybindgen import FileCodeSink

    class Factory(MultiSectionFactory):
        def __init__(self):
            self.files = {}
            self.sinks = {}

        def sink(self, name):
            if name not in self.sinks:
                self.files[name] = os.path.join(wd, name)
                self.sinks[name] = FileCodeSink(open(self.files[name], 'w'))
            return self.sinks[name]

        def get_section_code_sink(self, section_name):
            return self.sink('%s__%s.cc' % (base, section_name))

        def get_main_code_sink(self):
            return self.sink(base + '.cc')

        def get_common_header_code_sink(self):
            return self.sink(base + '.gen.h')

        def get_common_header_include(self):
            return '"%s.gen.h"' % base

        def close(self):
            for s in self.sinks.values():
                s.file.close()
            return [f for f in self.files.values() if f.endswith('.cc')]
    return Factory()


def generate(wd, hdr, modname, items, assign, names=('a', 'b', 'c'), registry='StdMapWrapperRegistry', rtti=True):
    from pybindgen import Module, FileCodeSink
    import pybindgen.settings as st
    from pybindgen import wrapper_registry
    st.wrapper_registry = getattr(wrapper_registry, registry)
    st.gcc_rtti_abi_complete = rtti
    mod = Module(modname)
    mod.add_include('"%s"' % hdr)
    s = State(mod)
    cur = 0
    for it, sec in zip(items, assign or [0] * len(items)):
        if sec != cur:
            if cur:
                mod.end_section(names[cur - 1])
            if sec:
                mod.begin_section(names[sec - 1])
            cur = sec
        it(s)
    if cur:
        mod.end_section(names[cur - 1])
    if assign is None:
        path = os.path.join(wd, modname + '.cc')
        with open(path, 'w') as f:
            mod.generate(FileCodeSink(f))
        return [path]
    fac = make_factory(wd, modname)
    mod.generate(fac)
    return fac.close()


def public(m, root, seen):
    """what can be seen of a module or class, by name"""
    if id(m) in seen:
        return 'seen'
    seen = seen | {id(m)}
    out = {'doc': str(m.__doc__).replace(root, 'M')}
    for k in sorted(vars(m)):
        v = vars(m)[k]
        if k in ('__loader__', '__spec__', '__file__', '__builtins__', '__doc__', '__cached__', '__package__'):
            continue
        if type(v) is type(sys):
            out[k] = ('module', v.__name__.replace(root, 'M'), sys.modules.get(v.__name__) is v, public(v, root, seen))
        elif isinstance(v, type):
            out[k] = ('class', v.__name__.replace(root, 'M'), v.__module__.replace(root, 'M'), [b.__name__.replace(root, 'M') for b in v.__mro__], type(v).__name__.replace(root, 'M'),
                      sorted(vars(type(v))) if type(v) is not type else [], v.__basicsize__, v.__flags__, public(v, root, seen))
        elif isinstance(v, (int, float)):
            out[k] = (type(v).__name__, v)
        elif isinstance(v, str):
            out[k] = v.replace(root, 'M')
        else:
            out[k] = (type(v).__name__, str(getattr(v, '__doc__', None)), str(getattr(v, '__text_signature__', None)))
    return out


def imp(x, modname):
    import importlib.machinery
    import sysconfig
    p = os.path.join(x.workdir, modname + sysconfig.get_config_var('EXT_SUFFIX'))
    loader = importlib.machinery.ExtensionFileLoader(modname, p)
    spec = importlib.util.spec_from_file_location(modname, p, loader=loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    sys.modules[modname] = m
    return m


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                out.append('%s.%s only in %s' % (path, k, 'one file' if k in a else 'sections'))
            else:
                out += diff(a[k], b[k], path + '.' + k)
        return out
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return [d for i, (p, q) in enumerate(zip(a, b)) for d in diff(p, q, path)]
    return [] if a == b else ['%s: %r in one file, %r in sections' % (path, a, b)]


def check_one(x, modname, mono, test):
    m = imp(x, modname)
    test(m, x)
    pub = public(m, m.__name__, frozenset())
    if mono is not None:
        d = diff(mono, pub)
        x.check(not d, 'public contents differ: %s' % d[:4])
    x.state(modname)
    x.step(20)
    return pub


def precompiled(wd):
    """a precompiled header shared by the scenarios: the same code compiles in a third of the time"""
    import fcntl
    import subprocess
    import sysconfig
    lib = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'pbmc')
    h = os.path.join(os.path.dirname(wd), 'pch.h')
    with open(h + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(h + '.gch'):
            with open(h, 'w') as f:
                f.write('#define PY_SSIZE_T_CLEAN\n#include "pbmc.h"\n#include <map>\n#include <iostream>\n')
            subprocess.check_call(['g++', '-std=gnu++14', '-O0', '-fPIC', '-w', '-I' + lib + '/shim', '-I' + lib, '-I' + sysconfig.get_path('include'), h, '-o', h + '.gch'])
    return ['-include', h]


def scenario(name, header, items, test, variants, pre=None):
    """variants: [(tag, assign, kwargs)]; the last one is compiled without the precompiled header"""
    def build(sc, wd):
        pch = precompiled(wd)
        out = []
        if pre:
            out.append([sc.modname + '_pre', generate(wd, sc.modname + '.h', sc.modname + '_pre', pre, None), pch])
        out.append([sc.modname + '_mono', generate(wd, sc.modname + '.h', sc.modname + '_mono', items, None), pch])
        for i, (tag, assign, kw) in enumerate(variants):
            n = '%s_%s' % (sc.modname, tag)
            out.append([n, generate(wd, sc.modname + '.h', n, items, assign, **kw), pch if i < len(variants) - 1 else []])
        return out

    def explore(M, x):
        if pre:
            imp(x, sc.modname + '_pre')
        x.case('mono')
        mono = check_one(x, sc.modname + '_mono', None, test)
        for tag, assign, kw in variants:
            x.run(tag, check_one, x, '%s_%s' % (sc.modname, tag), mono, test)
    sc = Scenario(name, header, None, explore, build=build, shards=1)
    sc.noimport = True
    return sc


def tagof(a):
    return ''.join('mabc'[v] for v in a)


def scenarios(tier):
    out = []
    for name, (header, items, test) in GROUPS.items():
        asg = assignments(len(items), 3 if tier == 'thorough' else 2)
        if tier == 'quick' and len(asg) > 14:
            # every definition in each place, every pair together and apart
            keep = []
            for want in itertools.product(itertools.combinations(range(len(items)), 2), ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2))):
                (i, j), v = want
                if any((a[i], a[j]) == v for a in keep):
                    continue
                keep.append(max((a for a in asg if (a[i], a[j]) == v), key=lambda a: (len(set(a)), a)))
            asg = keep
        v = [(tagof(a), a, {}) for a in asg]
        if tier == 'thorough':
            v += [(tagof(a) + 'Names', a, {'names': ('main', 'm_%s' % name, '_')}) for a in assignments(len(items), 2)]
            v += [(tagof(a) + 'Rtti', a, {'rtti': False}) for a in assignments(len(items), 2)]
        n = 6 if tier == 'thorough' else 4
        for i in range(0, len(v), n):
            out.append(scenario('%s_%d' % (name, i // n), header, items, test, v[i:i + n], PRE.get(name)))
    return out
