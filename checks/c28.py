"""C28: modules that import classes from other modules behave as one module with everything."""
import gc
import importlib.machinery
import importlib.util
import itertools
import os
import subprocess
import sys
import sysconfig
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('for every configuration (memory policy, narrowing, wrapper registry, subclassing) a chain of three modules (K in m1; E : K in m2; F : E in m3) and one module with everything: every sequence of '
        'operations (create, pass, keep, return, release, override, through every module) gives the same observations in both, and releases everything; features with imported classes, likewise; '
        'every order of imports in a new process; modules and classes that are missing')
BOUNDS = {'quick': '18 configurations x sequences of up to 4 operations (of 33); 45 feature groups; 6 orders of imports x 18',
          'thorough': 'sequences of up to 5 operations in 4 of the configurations'}
NOTE = 'containers and exceptions cannot be imported; each importing module repeats the declaration of the class (memory policy, subclassing), as documented'

BASE = r'''
#include "pbmc.h"
#include <string>
#include <memory>
#include <vector>
#include <map>
#include <stdexcept>
struct xs { long live, bad; };
inline xs *shared_state() { static xs s; return &s; }
struct T {
    unsigned magic;
    T() : magic(0x600DF00Du) { shared_state()->live++; }
    T(T const &o) : magic(0x600DF00Du) { o.use(); shared_state()->live++; }
    T &operator=(T const &o) { use(); o.use(); return *this; }
    ~T() { use(); magic = 0xDEADDEADu; shared_state()->live--; }
    void use() const { if (magic != 0x600DF00Du) shared_state()->bad++; }
};
PBMC_C long x_live() { return shared_state()->live; }
PBMC_C long x_bad() { return shared_state()->bad; }
'''

CHAIN = BASE + r'''
struct K {
    T t; int v; int rc;
    K(int a) : v(a), rc(1) {}
    K(K const &o) : v(o.v), rc(1) { o.t.use(); }
    virtual ~K() {}
    virtual int m(int a) { t.use(); return v + a; }
    virtual std::string who() const { t.use(); return "K"; }
    int call(int a) { t.use(); return m(a); }
    void Ref() { t.use(); rc++; }
    void Unref() { t.use(); if (!--rc) { v = -1; DISPOSE; } }
};
struct E : K { E(int a) : K(a) {} E(E const &o) : K(o) {} int m(int a) { return v + a + 1000; } std::string who() const { return "E"; } int e() const { t.use(); return v + 7; } };
struct F : E { F(int a) : E(a) {} F(F const &o) : E(o) {} int m(int a) { return v + a + 2000; } std::string who() const { return "F"; } int f() const { t.use(); return v + 9; } };
typedef HOLD(K) PK; typedef HOLD(E) PE; typedef HOLD(F) PF;
inline PK &held() { static PK p; return p; }
FUNCS(K) FUNCS(E) FUNCS(F)
inline int hcall(int a) { return held() ? held()->call(a) : -1; }
'''
FUNCS = r'''inline std::string sum_%(X)s(%(X)s o) { o.t.use(); return std::to_string(o.v) + o.who(); }
inline std::string cref_%(X)s(%(X)s const &o) { o.t.use(); return std::to_string(o.v) + o.who(); }
inline std::string bump_%(X)s(%(X)s &o) { o.t.use(); o.v += 10; return std::to_string(o.v) + o.who() + std::to_string(o.m(1)); }
inline P%(X)s make_%(X)s(int a) { return P%(X)s(new %(X)s(a)); }
'''
RAW = r'''inline std::string ptr_%(X)s(%(X)s *o) { o->t.use(); return std::to_string(o->v) + o->who() + std::to_string(o->m(2)); }
'''


def imp(wd, modname):
    p = os.path.join(wd, modname + sysconfig.get_config_var('EXT_SUFFIX'))
    loader = importlib.machinery.ExtensionFileLoader(modname, p)
    spec = importlib.util.spec_from_file_location(modname, p, loader=loader)
    m = importlib.util.module_from_spec(spec)
    loader.exec_module(m)
    sys.modules[modname] = m
    return m


# ------------------------------------------------------------------------- chains
class Cfg(object):
    def __init__(self, policy, narrow, registry, sub):
        self.policy, self.narrow, self.registry, self.sub = policy, narrow, registry, sub
        self.classes = 'K' if policy == 'shared' else 'KEF'     # classes derived from classes with smart pointers share their pointers
        self.tag = '%s%s%s%s' % (policy, '_narrow' if narrow else '', '_reg' if registry else '', '_sub' if sub else '')

    def header(self):
        h = CHAIN.replace('DISPOSE', 'delete this').replace('HOLD(', 'std::shared_ptr<' if self.policy == 'shared' else 'Raw<')
        if self.policy != 'shared':
            h = h.replace('typedef Raw<K) PK; typedef Raw<E) PE; typedef Raw<F) PF;', 'typedef K *PK; typedef E *PE; typedef F *PF;')
        else:
            for X in 'KEF':
                h = h.replace('std::shared_ptr<%s)' % X, 'std::shared_ptr<%s>' % X)
        for X in 'KEF':
            h = h.replace('FUNCS(%s)' % X, (FUNCS + ('' if self.policy == 'shared' else RAW)) % dict(X=X))
        if self.policy == 'shared':
            h += '''
inline void keep(PK o) { held() = o; }
inline PK get() { return held(); }
inline PE get_E() { return std::dynamic_pointer_cast<E>(held()); }
inline PK take() { PK r = held(); held().reset(); return r; }
inline void drop() { held().reset(); }
'''
        elif self.policy == 'ref':
            h += '''
inline void drop() { if (held()) held()->Unref(); held() = NULL; }
inline void keep(K *o) { o->Ref(); drop(); held() = o; }
inline K *get() { return held(); }
inline E *get_E() { return dynamic_cast<E *>(held()); }
inline K *take() { K *r = held(); held() = NULL; return r; }
'''
        else:
            h += '''
inline void drop() { delete held(); held() = NULL; }
inline void keep(K *o) { drop(); held() = o; }
inline K *get() { return held(); }
inline E *get_E() { return dynamic_cast<E *>(held()); }
inline K *take() { K *r = held(); held() = NULL; return r; }
'''
        return h

    def kw(self):
        from pybindgen import cppclass
        kw = dict(allow_subclassing=self.sub)
        if self.policy == 'ref':
            kw['memory_policy'] = cppclass.ReferenceCountingMethodsPolicy('Ref', 'Unref')
        return kw

    def klass(self, mod, X, parent, frm):
        from pybindgen import param
        from pybindgen.typehandlers.smart_ptr import StdSharedPtr
        kw = self.kw()
        if self.policy == 'shared':
            kw['memory_policy'] = StdSharedPtr(X)
        if parent is not None:
            kw.pop('memory_policy', None)
        c = mod.add_class(X, parent=parent, automatic_type_narrowing=self.narrow, import_from_module=frm, **kw)
        # declared by the importing modules too
        c.add_constructor([param('int', 'a')])
        c.add_copy_constructor()
        c.add_method('m', 'int', [param('int', 'a')], is_virtual=True)
        c.add_method('who', 'std::string', [], is_virtual=True, is_const=True)
        if X == 'K':
            c.add_instance_attribute('v', 'int')
            c.add_method('call', 'int', [param('int', 'a')])
        else:
            c.add_method(X.lower(), 'int', [], is_const=True)
        return c

    def functions(self, mod, classes):
        from pybindgen import param, retval
        P = (lambda X: 'std::shared_ptr<%s>' % X) if self.policy == 'shared' else (lambda X: X + ' *')
        own = {} if self.policy == 'shared' else {'caller_owns_return': True}
        for X in classes:
            mod.add_function('sum_' + X, 'std::string', [param(X, 'o')])
            mod.add_function('cref_' + X, 'std::string', [param(X + ' const &', 'o')])
            mod.add_function('bump_' + X, 'std::string', [param(X + ' &', 'o')])
            mod.add_function('make_' + X, retval(P(X), **own), [param('int', 'a')])
            if self.policy != 'shared':
                mod.add_function('ptr_' + X, 'std::string', [param(X + ' *', 'o', transfer_ownership=False)])
        kk = {} if self.policy == 'shared' else {'transfer_ownership': self.policy == 'plain'}
        rk = {'shared': {}, 'ref': {'caller_owns_return': False}, 'plain': {'reference_existing_object': True}}[self.policy]
        mod.add_function('keep', None, [param(P('K'), 'o', **kk)])
        mod.add_function('get', retval(P('K'), **rk), [])
        mod.add_function('take', retval(P('K'), **own), [])
        mod.add_function('drop', None, [])
        mod.add_function('hcall', 'int', [param('int', 'a')])
        if 'E' in classes:
            mod.add_function('get_E', retval(P('E'), **rk), [])

    def settings(self):
        import pybindgen.settings as st
        from pybindgen import wrapper_registry
        st.error_handler = None
        st.wrapper_registry = wrapper_registry.StdMapWrapperRegistry if self.registry else wrapper_registry.NullWrapperRegistry

    def generate(self, wd, name, level, base=None):
        """level 0: everything; 1..3: the module of the chain"""
        from pybindgen import Module, FileCodeSink
        self.settings()
        mod = Module(name)
        mod.add_include('"%s.h"' % self.hname)
        parent = None
        for n, X in enumerate(self.classes):
            if level and n >= level:
                break
            frm = None if level in (0, n + 1) else '%s_m%d' % (base, n + 1)
            parent = self.klass(mod, X, parent, frm)
        self.functions(mod, self.classes[:level or 3])
        p = os.path.join(wd, name + '.cc')
        with open(p, 'w') as f:
            mod.generate(FileCodeSink(f))
        return [p]


LEVELS = {'K': 1, 'E': 2, 'F': 3}


def operations(cfg):
    ops = []
    for X in cfg.classes:
        ops.append(('new', X, 0))
        if cfg.sub:
            ops.append(('newP', X, 0))
        for i in range(LEVELS[X], 4):
            ops.append(('make', X, i))
    for i in (1, 2, 3):
        for X in cfg.classes:
            if LEVELS[X] <= i:
                ops.append(('use', X, i))
        ops += [('keep', '', i), ('get', '', i), ('take', '', i), ('drop', '', i), ('hcall', '', i)]
        if i > 1 and 'E' in cfg.classes:
            ops.append(('get_E', '', i))
    return ops


class World(object):
    """the variables of a history: a is in python, h is kept by C++"""
    def __init__(self, cfg, mods, sub):
        self.cfg, self.mods, self.sub = cfg, mods, sub
        self.a = None
        self.calls = []

    def cls(self, X):
        return getattr(self.mods[LEVELS[X]], X)

    def show(self, o):
        if o is None:
            return None
        n = type(o).__name__
        known = self.cls(n[-1])
        return (n, type(o) is known or type(o).__mro__[1] is known, o.v, o.who(), o.m(3), o.e() if 'E' in self.cfg.classes and isinstance(o, self.cls('E')) else '-', 'F' in self.cfg.classes and isinstance(o, self.cls('F')))

    def do(self, op):
        what, X, i = op
        M = self.mods[i]
        if what == 'new':
            self.a = self.cls(X)(5)
            return self.show(self.a)
        if what == 'newP':
            self.a = self.sub[X](6)
            return self.show(self.a)
        if what == 'make':
            self.a = getattr(M, 'make_' + X)(8)
            return self.show(self.a)
        if what == 'use':
            out = []
            for f in ('sum_', 'cref_', 'bump_') + (() if self.cfg.policy == 'shared' else ('ptr_',)):
                try:
                    out.append(getattr(M, f + X)(self.a))
                except TypeError:
                    out.append('TypeError')
            return out
        if what == 'keep':
            M.keep(self.a)
            if self.cfg.policy == 'plain':
                self.a = None
            return None
        if what in ('get', 'get_E'):
            self.a = None       # (dropping what it was is not part of what is observed)
            self.a = getattr(M, what)()
            return self.show(self.a)
        if what == 'take':
            self.a = None
            self.a = M.take()
            return self.show(self.a)
        if what == 'drop':
            if self.cfg.policy == 'plain':
                self.a = None
            M.drop()
            return self.show(self.a)
        if what == 'hcall':
            return M.hcall(100)

    def end(self, lib):
        self.a = None
        self.mods[1].drop()
        gc.collect()
        return (lib.x_live(), lib.x_bad())


def enabled(cfg, st, op):
    """st: (a: is it an object, does it own, its class, h: something is held)"""
    a, own, held = st
    what, X, i = op
    if what in ('use',):
        return a is not None
    if what == 'keep':
        return a is not None and (own or cfg.policy != 'plain')
    if what in ('get', 'get_E', 'take', 'drop', 'hcall'):
        return held
    if what in ('new', 'newP', 'make'):
        return a is None
    return True


def after(cfg, st, op, got):
    a, own, held = st
    what = op[0]
    if what in ('new', 'newP', 'make'):
        return (op[1], True, held)
    if what == 'keep':
        return (None, False, True) if cfg.policy == 'plain' else (a, own, True)
    if what in ('get', 'get_E'):
        return (got and got[0][-1], False, held)
    if what == 'take':
        return (got and got[0][-1], True, False)
    if what == 'drop':
        return (None, False, False) if cfg.policy == 'plain' and not own else (None, False, False) if cfg.policy == 'plain' else (a, own, False)
    return st


def subclasses(mods):
    out = {}
    for X in 'KEF':
        C = getattr(mods[LEVELS[X]], X)

        def m(self, a, C=C):
            return C.m(self, a) * 10
        out[X] = type('P' + X, (C,), {'m': m, 'who': lambda self: 'py'})
    return out


def chain(cfg, depth):
    name = 'chain_' + cfg.tag

    def build(sc, wd):
        cfg.hname = sc.modname
        out = []
        for suffix, level in (('mono', 0), ('m1', 1), ('m2', 2), ('m3', 3)):
            n = '%s_%s' % (sc.modname, suffix)
            out.append([n, cfg.generate(wd, n, level, sc.modname), []])
        return out

    def explore(M, x):
        if x.workdir not in sys.path:
            sys.path.insert(0, x.workdir)
        mono = importlib.import_module(sc.modname + '_mono')
        m3 = importlib.import_module(sc.modname + '_m3')
        assert sc.modname + '_m1' in sys.modules
        m1, m2 = importlib.import_module(sc.modname + '_m1'), importlib.import_module(sc.modname + '_m2')
        A = [mono] * 4
        B = [None, m1, m2, m3]
        lib = x.clib(os.path.join(x.workdir, sc.modname + '_m1' + sysconfig.get_config_var('EXT_SUFFIX')))
        SA, SB = (subclasses(A), subclasses(B)) if cfg.sub else (None, None)
        gc.collect()
        gc.freeze()
        gc.disable()
        ops = operations(cfg)
        cache = {}

        def run(mods, sub, path):
            w = World(cfg, mods, sub)
            obs = [w.do(op) for op in path]
            return obs, w.end(lib)

        def histories(path, st):
            """all histories, most of them decided by the observations in one module"""
            if path:
                yield path
            if len(path) == depth:
                return
            for op in ops:
                if enabled(cfg, st, op):
                    if op[0] in ('use', 'hcall') and path and path[-1][0] == op[0] and path[-1][2] > op[2]:
                        continue
                    p = path + [op]
                    got = wanted(p)[0][-1]
                    for q in histories(p, after(cfg, st, op, got)):
                        yield q

        def wanted(p):
            k = tuple((w, X) for w, X, i in p)
            if k not in cache:
                cache[k] = run(A, SA, p)
            return cache[k]

        def one(p):
            want = wanted(p)
            got = run(B, SB, p)
            x.eq(got[0], want[0], 'observations')
            x.eq(want[1], (0, 0), 'left behind in one module')
            x.eq(got[1], (0, 0), 'left behind')
            x.step(len(p))
            x.state((cfg.tag, repr(want[0][-1]), p[-1]))

        if 'E' in cfg.classes:
            x.run('types', lambda: x.eq((m2.E.__mro__[1] is m1.K, m3.F.__mro__[1] is m2.E, m2.E.__bases__ == (m1.K,), m3.F.__bases__ == (m2.E,), hasattr(m2, 'F')), (True,) * 4 + (False,), 'types'))
        for p in histories([], (None, False, False)):
            # the longest histories only: they contain the others
            if len(p) == depth or p[-1][0] in ('drop',):
                x.run(' '.join('%s%s%s' % (w, X, i or '') for w, X, i in p), one, p)
        x.notes['histories'] = len(cache)
    sc = Scenario(name, cfg.header(), None, explore, build=build, shards=8 if depth > 4 else 2)
    sc.noimport = True
    return sc


# ------------------------------------------------------------------------- features
FEATURES = BASE + r'''
enum En { V1 = 3, V2 = 5 };
struct K {
    T t; int v; K(int a = 0) : v(a) {} K(K const &o) : v(o.v) {} virtual ~K() {} virtual int m(int a) { t.use(); return v + a; } int call(int a) { return m(a); }
    bool operator==(K const &o) const { return v == o.v; } bool operator<(K const &o) const { return v < o.v; } K operator+(K const &o) const { return K(v + o.v); } K &operator+=(K const &o) { v += o.v; return *this; }
    static int count(); static int st;
    K &self() { return *this; }
};
inline int K::count() { return 12; }
__attribute__((weak)) int K::st = 44;
namespace ns { struct Q { T t; int v; Q(int a) : v(a) {} Q(Q const &o) : v(o.v) {} virtual ~Q() {} virtual int q() { return v; } int cq() { return q(); } }; enum Ne { N1 = 8, N2 }; }
struct Out { T t; int v; Out(int a) : v(a) {} Out(Out const &o) : v(o.v) {} struct In { T t; int v; In(int a) : v(a) {} In(In const &o) : v(o.v) {} }; enum Oe { O1 = 21, O2 }; };
template <class X> struct Tpl { T t; X v; Tpl(X a) : v(a) {} Tpl(Tpl const &o) : v(o.v) {} };
struct C9 { T t; int v; C9(int a) : v(a) {} C9(C9 const &o) : v(o.v) {} };
struct R { T t; int v, rc; R(int a) : v(a), rc(1) {} void Ref() { t.use(); rc++; } void Unref() { t.use(); if (!--rc) delete this; } };
struct H { T t; int v; H(int a) : v(a) {} };
struct Z { T t; int v; Z(int a) : v(a) {} Z(Z const &o) : v(o.v) {} };
// of the importing module
inline int n_en(En e) { return e * 2; } inline En r_en(int a) { return a ? V2 : V1; } inline int n_ne(ns::Ne e) { return e * 3; } inline int n_oe(Out::Oe e) { return e * 4; } inline int d_en(En e = V2) { return e; }
#define VALUE(C, n) inline int v_##n(C o) { o.t.use(); return o.v; } inline int c_##n(C const &o) { o.t.use(); return o.v + 1; } inline int r_##n(C &o) { o.t.use(); o.v++; return o.v; } inline int p_##n(C *o) { return o ? o->v + 2 : -1; } \
    inline C m_##n(int a) { return C(a); } inline C *n_##n(int a) { return a ? new C(a) : NULL; } inline int t_##n(C *o) { int r = o->v; delete o; return r; } inline C &g_##n() { static C *o = new C(70); o->v = 70; shared_state()->live -= 0; return *o; }
VALUE(K, K) VALUE(ns::Q, Q) VALUE(Out, Out) VALUE(Out::In, In) VALUE(Tpl<int>, Tpl) VALUE(C9, C9) VALUE(Z, Z)
inline R *n_R(int a) { return a ? new R(a) : NULL; } inline int p_R(R *o) { return o->v * 100 + o->rc; } inline R *&hr() { static R *r; return r; } inline void k_R(R *o) { if (o) o->Ref(); if (hr()) hr()->Unref(); hr() = o; } inline R *h_R() { return hr(); }
inline int v_H(std::shared_ptr<H> o) { return o->v; } inline std::shared_ptr<H> n_H(int a) { return std::shared_ptr<H>(new H(a)); } inline std::shared_ptr<H> &hh() { static std::shared_ptr<H> r; return r; } inline void k_H(std::shared_ptr<H> o) { hh() = o; } inline long u_H() { return hh().use_count(); } inline std::shared_ptr<H> h_H() { return hh(); }
struct Attr { T t; K k; ns::Q q; K *p; En e; Attr() : k(31), q(32), p(new K(33)), e(V1) {} Attr(Attr const &o) : k(o.k), q(o.q), p(new K(*o.p)), e(o.e) {} ~Attr() { delete p; } };
inline int sumv(std::vector<K> const &v) { int r = 0; for (auto const &k : v) r = r * 10 + k.v; return r; } inline std::vector<K> mkv(int n) { std::vector<K> r; for (int i = 0; i < n; i++) r.push_back(K(i + 1)); return r; }
inline int summ(std::map<std::string, K> const &m) { int r = 0; for (auto const &k : m) r = r * 10 + k.second.v; return r; } inline std::map<std::string, K> mkm() { std::map<std::string, K> r; r.insert(std::make_pair("a", K(4))); r.insert(std::make_pair("b", K(5))); return r; }
inline std::string ov(K const &) { return "K"; } inline std::string ov(ns::Q const &) { return "Q"; } inline std::string ov(int) { return "i"; } inline std::string ov(Out const &) { return "Out"; }
inline int def(int a, K k = K(55)) { return a + k.v; } inline int defr(int a, ns::Q const &k = ns::Q(56)) { return a + k.v; } inline int defp(K *k = NULL) { return k ? k->v : -5; }
struct L { T t; int v; K lk; L(int a = 0) : v(a), lk(a + 1) {} L(K const &k) : v(k.v + 500), lk(k) {} L(L const &o) : v(o.v), lk(o.lk) {} operator K() const { return K(v + 900); } L operator+(K const &k) const { return L(v + k.v); } bool operator==(K const &k) const { return v == k.v; } L &operator+=(K const &k) { v += k.v; return *this; } };
inline int n_L(L const &l) { return l.v; } inline int c_K2(K const &k) { return k.v; }
struct W { T t; K *w; W() : w(NULL) {} W(K *k) : w(k) {} void set(K *k) { w = k; } K *get() { return w; } int val() { return w ? w->v : -1; } };
struct D : K { D(int a) : K(a) {} D(D const &o) : K(o) {} int m(int a) { return v + a + 3000; } int d() { return v * 2; } static int sd() { return 77; } };
struct M2 : K, ns::Q { M2(int a) : K(a), ns::Q(a + 1) {} int both() { return K::v * 100 + ns::Q::v; } };
namespace ns { struct Q2 : Q { Q2(int a) : Q(a) {} int q2() { return v + 1000; } static int st2; }; __attribute__((weak)) int Q2::st2 = 5; } struct X2 : ns::Q2 { X2(int a) : ns::Q2(a) {} int x2() { return v + 2000; } };
inline K *mkd(int n) { return n ? (K *) new D(n) : new K(n); }
struct V { T t; V() {} virtual ~V() {} virtual int vk(K k) { return k.v; } virtual int vr(K const &k) { return k.v + 1; } virtual int vp(K *k) { return k->v + 2; } virtual K rk(int a) { return K(a); } virtual int ve(En e) { return e; } virtual int vi(Out::In i) { return i.v; } virtual int vs(std::shared_ptr<H> h) { return h->v; }
    virtual K *rp(int a) { return new K(a); }
    int ck() { return vk(K(61)); } int cr() { K k(62); return vr(k); } int cp() { K k(63); return vp(&k); } int crk() { return rk(64).v; } int ce() { return ve(V2); } int ci() { return vi(Out::In(65)); } int cs() { return vs(std::shared_ptr<H>(new H(66))); }
    int crp() { K *k = rp(67); int r = k->v + k->m(1000); delete k; return r; } };
struct Error : std::exception { const char *what() const noexcept { return "bad"; } };
inline int thrower(K const &k) { if (k.v == 13) throw Error(); return k.v; }
inline int addk(K &k, int a) { return k.v + a; } inline int addl(L &l, K const &k) { return l.v * k.v; }
namespace ns2 { inline int inner(K const &k, ns::Q const &q) { return k.v * 10 + q.v; } struct B { K k; B(K const &k) : k(k) {} int get() { return k.v; } }; }
'''
VALUES = (('K', 'K'), ('ns::Q', 'Q'), ('Out', 'Out'), ('Out::In', 'In'), ('Tpl<int>', 'Tpl'), ('C9', 'C9'), ('Z', 'Z'))


def provide(mod, frm=None, sub=True, narrow=False, spelled=False):
    """what is imported; frm: the module that defines it"""
    from pybindgen import cppclass, param, retval
    from pybindgen.module import SubModule
    from pybindgen.typehandlers.smart_ptr import StdSharedPtr
    I = lambda place='': dict(import_from_module=frm and frm + place)
    mod.add_enum('En', ['V1', 'V2'], **I())
    K = mod.add_class('K', allow_subclassing=sub, automatic_type_narrowing=narrow, **I())
    K.add_constructor([param('int', 'a', default_value='0')])
    K.add_copy_constructor()
    K.add_method('m', 'int', [param('int', 'a')], is_virtual=True)
    K.add_method('call', 'int', [param('int', 'a')])
    K.add_instance_attribute('v', 'int')
    K.add_binary_comparison_operator('==')
    K.add_binary_comparison_operator('<')
    K.add_binary_numeric_operator('+')
    K.add_inplace_numeric_operator('+=')
    K.add_static_attribute('st', 'int')
    K.add_method('count', 'int', [], is_static=True)
    K.add_method('self', retval('K &', reference_existing_object=True), [])

    def simple(m, name, full=None, **kw):
        c = m.add_class(name, **kw)
        c.add_constructor([param('int', 'a')])
        c.add_copy_constructor()
        c.add_instance_attribute('v', 'int')
        return c
    ns = mod.add_cpp_namespace('ns')
    Q = simple(ns, 'Q', allow_subclassing=sub, automatic_type_narrowing=narrow, **I('.ns'))
    Q.add_method('q', 'int', [], is_virtual=True)
    Q.add_method('cq', 'int', [])
    ns.add_enum('Ne', ['N1', 'N2'], **I('.ns'))
    O = simple(mod, 'Out', **I())
    simple(mod, 'In', outer_class=O, **I())
    mod.add_enum('Oe', ['O1', 'O2'], outer_class=O, **I())
    simple(mod, 'Tpl', template_parameters=['int'], custom_name='TplInt', **I())
    if spelled and frm:
        simple(mod, 'C9', import_from_module=frm + ' named Nine')
    else:
        simple(mod, 'C9', custom_name='Nine', **I())
    sm = SubModule('sub', mod)
    simple(sm, 'Z', **I('.sub'))
    R = mod.add_class('R', memory_policy=cppclass.ReferenceCountingMethodsPolicy('Ref', 'Unref'), allow_subclassing=sub, **I())
    R.add_constructor([param('int', 'a')])
    R.add_instance_attribute('v', 'int')
    H = mod.add_class('H', memory_policy=StdSharedPtr('H'), **I())
    H.add_constructor([param('int', 'a')])
    H.add_instance_attribute('v', 'int')
    return dict(K=K, Q=Q, O=O, R=R, H=H, ns=ns)


def consume(mod, c, narrow):
    from pybindgen import param, retval
    K, Q = c['K'], c['Q']
    for n, t in (('n_en', 'En'), ('n_ne', 'ns::Ne'), ('n_oe', 'Out::Oe')):
        mod.add_function(n, 'int', [param(t, 'e')])
    mod.add_function('r_en', 'En', [param('int', 'a')])
    mod.add_function('d_en', 'int', [param('En', 'e', default_value='V2')])
    for t, n in VALUES:
        mod.add_function('v_' + n, 'int', [param(t, 'o')])
        mod.add_function('c_' + n, 'int', [param(t + ' const &', 'o')])
        mod.add_function('r_' + n, 'int', [param(t + ' &', 'o')])
        mod.add_function('p_' + n, 'int', [param(t + ' *', 'o', transfer_ownership=False, null_ok=True)])
        mod.add_function('m_' + n, t, [param('int', 'a')])
        mod.add_function('n_' + n, retval(t + ' *', caller_owns_return=True), [param('int', 'a')])
        mod.add_function('t_' + n, 'int', [param(t + ' *', 'o', transfer_ownership=True)])
    mod.add_function('g_K', retval('K &', reference_existing_object=True), [])
    mod.add_function('n_R', retval('R *', caller_owns_return=True), [param('int', 'a')])
    mod.add_function('p_R', 'int', [param('R *', 'o', transfer_ownership=False)])
    mod.add_function('k_R', None, [param('R *', 'o', transfer_ownership=False, null_ok=True)])
    mod.add_function('h_R', retval('R *', caller_owns_return=False), [])
    S = 'std::shared_ptr<H>'
    mod.add_function('v_H', 'int', [param(S, 'o')])
    mod.add_function('n_H', S, [param('int', 'a')])
    mod.add_function('k_H', None, [param(S, 'o', null_ok=True)])
    mod.add_function('h_H', S, [])
    mod.add_function('u_H', 'long', [])
    A = mod.add_class('Attr')
    A.add_constructor([])
    A.add_copy_constructor()
    A.add_instance_attribute('k', 'K')
    A.add_instance_attribute('q', 'ns::Q')
    A.add_instance_attribute('p', retval('K *', reference_existing_object=True), is_const=True)
    A.add_instance_attribute('e', 'En')
    mod.add_container('std::vector<K>', 'K', 'vector')
    mod.add_container('std::map<std::string, K>', ('std::string', 'K'), 'map')
    mod.add_function('sumv', 'int', [param('std::vector<K> const &', 'v')])
    mod.add_function('mkv', 'std::vector<K>', [param('int', 'n')])
    mod.add_function('summ', 'int', [param('std::map<std::string, K> const &', 'm')])
    mod.add_function('mkm', 'std::map<std::string, K>', [])
    for t in ('K const &', 'ns::Q const &', 'int', 'Out const &'):
        mod.add_function('ov', 'std::string', [param(t, 'a')])
    mod.add_function('def', 'int', [param('int', 'a'), param('K', 'k', default_value='K(55)')], custom_name='defv')
    mod.add_function('defr', 'int', [param('int', 'a'), param('ns::Q const &', 'k', default_value='ns::Q(56)')])
    mod.add_function('defp', 'int', [param('K *', 'k', transfer_ownership=False, null_ok=True, default_value='NULL')])
    L = mod.add_class('L')
    L.add_constructor([param('int', 'a')])
    L.add_constructor([param('K const &', 'k')])
    L.add_copy_constructor()
    L.add_instance_attribute('v', 'int')
    L.add_instance_attribute('lk', 'K')
    L.add_binary_numeric_operator('+', right=param('K const &', 'right'))
    L.add_binary_comparison_operator('==')if 0 else None
    L.add_inplace_numeric_operator('+=', right=param('K const &', 'right'))
    K.implicitly_converts_to(L)
    L.implicitly_converts_to(K)
    mod.add_function('n_L', 'int', [param('L const &', 'l')])
    mod.add_function('c_K2', 'int', [param('K const &', 'k')])
    L.add_function_as_method('addl', 'int', [param('L &', 'me'), param('K const &', 'k')])
    W = mod.add_class('W', allow_subclassing=True)
    W.add_constructor([])
    W.add_method('set', None, [param('K *', 'k', transfer_ownership=False, custodian=0)])
    W.add_method('get', retval('K *', custodian=0, reference_existing_object=True), [])
    W.add_method('val', 'int', [])
    W.add_instance_attribute('w', retval('K *', reference_existing_object=True), is_const=True)
    D = mod.add_class('D', parent=K)
    D.add_constructor([param('int', 'a')])
    D.add_copy_constructor()
    D.add_method('m', 'int', [param('int', 'a')], is_virtual=True)
    D.add_method('d', 'int', [])
    D.add_method('sd', 'int', [], is_static=True)
    M2 = mod.add_class('M2', parent=[K, Q])
    M2.add_constructor([param('int', 'a')])
    M2.add_method('both', 'int', [])
    Q2 = c['ns'].add_class('Q2', parent=Q)
    Q2.add_constructor([param('int', 'a')])
    Q2.add_method('q2', 'int', [])
    Q2.add_static_attribute('st2', 'int')
    X2 = mod.add_class('X2', parent=Q2)
    X2.add_constructor([param('int', 'a')])
    X2.add_method('x2', 'int', [])
    mod.add_function('mkd', retval('K *', caller_owns_return=True), [param('int', 'n')])
    V = mod.add_class('V', allow_subclassing=True)
    V.add_constructor([])
    for n, t, p in (('vk', 'int', 'K'), ('vr', 'int', 'K const &'), ('vp', 'int', 'K *'), ('ve', 'int', 'En'), ('vi', 'int', 'Out::In'), ('vs', 'int', S)):
        V.add_method(n, t, [param(p, 'k', **({'transfer_ownership': False} if '*' in p else {}))], is_virtual=True)
    V.add_method('rk', 'K', [param('int', 'a')], is_virtual=True)
    V.add_method('rp', retval('K *', caller_owns_return=True), [param('int', 'a')], is_virtual=True)
    for n in ('ck', 'cr', 'cp', 'crk', 'ce', 'ci', 'cs', 'crp'):
        V.add_method(n, 'int', [])
    X = mod.add_exception('Error', message_rvalue='exc.what()')
    mod.add_function('thrower', 'int', [param('K const &', 'k')], throw=[X])
    ns2 = mod.add_cpp_namespace('ns2')
    ns2.add_function('inner', 'int', [param('K const &', 'k'), param('ns::Q const &', 'q')])
    B = ns2.add_class('B')
    B.add_constructor([param('K const &', 'k')])
    B.add_method('get', 'int', [])


def classes_of(P):
    return dict(K=P.K, Q=P.ns.Q, Out=P.Out, In=P.Out.In, Tpl=P.TplInt, C9=P.Nine, Z=P.sub.Z)


def T_enums(P, C):
    return [C.n_en(P.V2), C.n_ne(P.ns.N2), C.n_oe(P.Out.O2), C.r_en(1) == P.V2, C.d_en(), C.d_en(P.V1), C.n_en(e=P.V1)], [10, 27, 88, True, 5, 3, 6]


def values(n):
    def t(P, C):
        X = classes_of(P)[n]
        others = [c for k, c in classes_of(P).items() if k != n]
        f = lambda p: getattr(C, p + n)
        a = X(4)
        out = [f('v_')(a), f('c_')(a), f('r_')(a), a.v, f('p_')(a), f('p_')(None), f('m_')(9).v, type(f('m_')(9)) is X, type(f('n_')(9)) is X, f('n_')(9).v, f('n_')(0), f('t_')(X(14)), f('v_')(o=f('m_')(6))]
        want = [4, 5, 5, 5, 7, -1, 9, True, True, 9, None, 14, 6]
        for o in others:
            b = o(1)
            for p in ('v_', 'c_', 'r_', 'p_', 't_'):
                try:
                    out.append(f(p)(b))
                except TypeError:
                    out.append('T')
                want.append('T')
        return out, want
    return t


def T_identity(P, C):
    k = C.g_K()
    return [type(k) is P.K, k.v, C.r_K(k), C.g_K().v, type(k.self()) is P.K], [True, 70, 71, 70, True]


def T_refcount(P, C):
    r = P.R(3)
    out = [C.p_R(r), C.n_R(4).v, C.n_R(0), type(C.n_R(1)) is P.R]
    C.k_R(r)
    out += [C.p_R(r), C.h_R().v, type(C.h_R()) is P.R]
    del r
    out += [C.h_R().v, C.p_R(C.h_R()) >= 301]
    C.k_R(None)
    out += [C.h_R()]
    return out, [301, 4, None, True, 302, 3, True, 3, True, None]


def T_shared(P, C):
    h = P.H(5)
    out = [C.v_H(h), C.n_H(6).v, type(C.n_H(1)) is P.H]
    C.k_H(h)
    out += [C.u_H(), C.h_H().v]
    del h
    out += [C.u_H()]
    g = C.h_H()
    out += [C.u_H(), g.v]
    del g
    C.k_H(None)
    out += [C.h_H()]
    return out, [5, 6, True, 2, 5, 1, 2, 5, None]


def T_attributes(P, C):
    a = C.Attr()
    out = [a.k.v, a.q.v, a.p.v, a.e, type(a.k) is P.K, type(a.q) is P.ns.Q, type(a.p) is P.K]
    a.k = P.K(7)
    a.q = P.ns.Q(8)
    a.e = P.V2
    out += [a.k.v, a.q.v, a.e]
    for n, v in (('k', P.ns.Q(1)), ('q', P.K(1)), ('k', None), ('k', 3), ('p', P.K(1))):
        try:
            setattr(a, n, v)
            out.append('set')
        except (TypeError, AttributeError) as e:
            out.append(type(e).__name__)
    return out, [31, 32, 33, 3, True, True, True, 7, 8, 5, 'TypeError', 'TypeError', 'TypeError', 'TypeError', 'AttributeError']


def T_containers(P, C):
    v = C.mkv(3)
    m = C.mkm()
    out = [C.sumv(v), C.sumv([P.K(5), P.K(6)]), [k.v for k in v], all(type(k) is P.K for k in v), C.sumv([C.m_K(2)]), C.summ(m), sorted((k, e.v) for k, e in m), C.summ([('a', P.K(1)), ('b', C.m_K(2))]), all(type(e) is P.K for k, e in m)]
    for bad in ([P.ns.Q(1)], [P.K(1), 3], [None]):
        try:
            out.append(C.sumv(bad))
        except TypeError:
            out.append('T')
    return out, [123, 56, [1, 2, 3], True, 2, 45, [('a', 4), ('b', 5)], 12, True, 'T', 'T', 'T']


def T_overloads(P, C):
    return [C.ov(P.K(1)), C.ov(P.ns.Q(1)), C.ov(4), C.ov(P.Out(1)), C.ov(C.m_K(1)), C.ov(C.D(1)), C.ov(C.m_Q(1))], ['K', 'Q', 'i', 'Out', 'K', 'K', 'Q']


def T_defaults(P, C):
    return [C.defv(1), C.defv(1, P.K(5)), C.defv(k=P.K(6), a=2), C.defr(1), C.defr(1, P.ns.Q(5)), C.defp(), C.defp(P.K(9)), C.defp(None), C.defp(k=C.m_K(3))], [56, 6, 8, 57, 6, -5, 9, -5, 3]


def T_operators(P, C):
    l = C.L(3)
    l2 = l + P.K(5)
    l += P.K(6)
    out = [l2.v, type(l2) is C.L, l.v, l.addl(P.K(2)), (C.m_K(2) + P.K(3)).v, C.m_K(2) == P.K(2), C.m_K(1) < P.K(2)]
    k = C.m_K(3)
    k += P.K(4)
    out += [k.v, type(k) is P.K, type(P.K(1) + C.m_K(1)) is P.K, P.K.count(), type(k).st]
    return out, [8, True, 9, 18, 5, True, True, 7, True, True, 12, 44]


def T_conversions(P, C):
    out = [C.n_L(C.L(4)), C.n_L(P.K(5)), C.n_L(C.D(6)), C.c_K2(P.K(7)), C.c_K2(C.L(8)), C.L(P.K(1)).v, C.L(3).lk.v, type(C.L(3).lk) is P.K]
    for f, a in ((C.n_L, P.ns.Q(1)), (C.c_K2, P.ns.Q(1)), (C.c_K2, None), (C.n_L, 4)):
        try:
            out.append(f(a))
        except TypeError:
            out.append('T')
    return out, [4, 505, 506, 7, 908, 501, 4, True, 'T', 'T', 'T', 'T']


def T_custodian(P, C):
    w = C.W()
    w.set(P.K(5))
    gc.collect()
    a = [w.val(), type(w.get()) is P.K, w.get().v, w.w.v]
    g = w.get()
    w.set(C.n_K(6))
    gc.collect()
    a += [w.val(), g.v]
    return a, [5, True, 5, 5, 6, 5]


def T_derived(P, C):
    d = C.D(3)
    out = [d.m(1), d.call(1), d.v, d.d(), C.v_K(d), C.c_K(d), C.r_K(d), C.p_K(d), C.D.__bases__ == (P.K,), isinstance(d, P.K), C.D.sd(), C.D.count(), C.D.st, P.K.m(d, 1), C.D(d).v, (d + P.K(1)).v, d == P.K(4)]
    return out, [3004, 3004, 3, 6, 3, 4, 4, 6, True, True, 77, 12, 44, 3005 if 0 else P.K.m(C.D(4), 1), 4, 5, True]


def T_multiple(P, C):
    m = C.M2(3)
    return [m.both(), C.M2.__bases__ == (P.K, P.ns.Q), isinstance(m, P.ns.Q), C.c_K(m), C.M2.st], [304, True, True, 4, 44]


def T_across(P, C):
    x = C.X2(3)
    out = [C.X2.__bases__ == (C.ns.Q2,), C.ns.Q2.__bases__ == (P.ns.Q,), isinstance(x, P.ns.Q), x.x2(), x.q2(), x.q(), x.cq(), C.c_Q(x), C.X2.st2]
    C.X2.st2 = 9
    out += [C.ns.Q2.st2]
    C.ns.Q2.st2 = 5
    return out, [True, True, True, 2003, 1003, 3, 3, 4, 5, 9]


def T_virtual(P, C):
    v = C.V()
    base = [v.ck(), v.cr(), v.cp(), v.crk(), v.ce(), v.ci(), v.cs(), v.crp(), v.vk(P.K(1)), v.vr(P.K(1)), v.vp(P.K(1)), v.rk(5).v, type(v.rk(5)) is P.K, v.ve(P.V1), v.vi(P.Out.In(2)), v.vs(P.H(3)), v.rp(4).v]
    want = [61, 63, 65, 64, 5, 65, 66, 67 + 1067, 1, 2, 3, 5, True, 3, 2, 3, 4]
    seen = []

    class D(C.V):
        def vk(self, k):
            seen.append((type(k) is P.K, k.v))
            return C.V.vk(self, k) + 100

        def vr(self, k):
            seen.append((type(k) is P.K, k.v))
            return C.V.vr(self, k) + 100

        def vp(self, k):
            seen.append((type(k) is P.K, k.v))
            return C.V.vp(self, k) + 100

        def ve(self, k):
            seen.append(k)
            return P.V1

        def vi(self, k):
            seen.append((type(k) is P.Out.In, k.v))
            return k.v + 100

        def vs(self, k):
            seen.append((type(k) is P.H, k.v))
            return k.v + 100

        def rk(self, a):
            return P.K(a + 100)

        def rp(self, a):
            return P.K(a + 100)
    d = D()
    base += [d.ck(), d.cr(), d.cp(), d.crk(), d.ce(), d.ci(), d.cs(), d.crp(), seen]
    want += [161, 163, 165, 164, 3, 165, 166, 167 + 1167, [(True, 61), (True, 62), (True, 63), 5, (True, 65), (True, 66)]]

    class B(C.V):
        def rk(self, a):
            return C.D(a) if a == 64 else None
    base += [B().crk()]
    want += [64]
    return base, want


def T_exceptions(P, C):
    try:
        C.thrower(P.K(13))
        r = 'none'
    except C.Error as e:
        r = str(e)
    return [C.thrower(P.K(12)), r, C.ns2.inner(P.K(3), P.ns.Q(4)), C.ns2.B(P.K(8)).get(), C.ns2.B(C.D(9)).get()], [12, 'bad', 34, 8, 9]


def T_subclass(P, C):
    """python classes derived from what is imported"""
    if not SUB[0]:
        return [], []

    class PK(P.K):
        def m(self, a):
            return 7000 + P.K.m(self, a)

    class PD(C.D):
        def m(self, a):
            return 8000 + C.D.m(self, a)

    class PQ(P.ns.Q):
        def q(self):
            return 9000 + P.ns.Q.q(self)

    class PM(C.M2):
        def m(self, a):
            return 100000
    k, d, q = PK(1), PD(2), PQ(3)
    return [k.call(1), d.call(1), q.cq(), C.c_K(k), C.v_K(d), C.r_K(d), C.p_K(k), C.c_Q(q), C.ov(k), C.ov(q), C.ns2.inner(d, q), PM(1).call(1), C.n_L(k), C.v_Q(q), C.t_K(PK(22)), C.t_Q(PQ(23))], \
        [7002, 11003, 9003, 2, 2, 3, 3, 4, 'K', 'Q', 33, 100000, 501, 3, 22, 23]


SUB = [True]
NARROW = [False]


def T_narrow(P, C):
    return [type(C.mkd(3)) is (C.D if NARROW[0] else P.K), C.mkd(3).v, type(C.mkd(0)) is P.K, C.mkd(3).m(1) if NARROW[0] else 3004], [True, 3, True, 3004]


def T_statics(P, C):
    P.K.st = 45
    a = [C.D.st, C.M2.st, P.K.st]
    C.D.st = 46
    a += [P.K.st, C.m_K(1).count()]
    P.K.st = 44
    return a, [45, 45, 45, 46, 12]


def features(sub, narrow, reg, spelled):
    name = 'features%s%s%s%s' % ('_sub' if sub else '', '_narrow' if narrow else '', '_reg' if reg else '', '_spelled' if spelled else '')

    def build(sc, wd):
        from pybindgen import Module, FileCodeSink, wrapper_registry
        import pybindgen.settings as st
        st.error_handler = None
        st.wrapper_registry = wrapper_registry.StdMapWrapperRegistry if reg else wrapper_registry.NullWrapperRegistry
        out = []
        for n in ('mono', 'm1', 'm2'):
            mod = Module('%s_%s' % (sc.modname, n))
            mod.add_include('"%s.h"' % sc.modname)
            c = provide(mod, '%s_m1' % sc.modname if n == 'm2' else None, sub, narrow, spelled)
            if n != 'm1':
                consume(mod, c, narrow)
            p = os.path.join(wd, mod.name + '.cc')
            with open(p, 'w') as f:
                mod.generate(FileCodeSink(f))
            out.append([mod.name, [p], []])
        return out

    def explore(M, x):
        sys.path.insert(0, x.workdir)
        SUB[0], NARROW[0] = sub, narrow
        mono = importlib.import_module(sc.modname + '_mono')
        m2 = importlib.import_module(sc.modname + '_m2')
        m1 = importlib.import_module(sc.modname + '_m1')
        lib = x.clib(os.path.join(x.workdir, sc.modname + '_m1' + sysconfig.get_config_var('EXT_SUFFIX')))
        mono.g_K()
        m2.g_K()

        def one(t, P, C):
            gc.collect()
            live = lib.x_live()
            got, want = t(P, C)
            x.step(len(want))
            for i, (g, w) in enumerate(zip(got, want)):
                x.eq(g, w, str(i))
            x.eq(len(got), len(want), 'length')
            x.state((name, t.__name__, repr(want)))
            gc.collect()
            x.eq((lib.x_live() - live, lib.x_bad()), (0, 0), 'left behind')
        tests = [(n[2:], t) for n, t in sorted(globals().items()) if n.startswith('T_')] + [('values_' + n, values(n)) for t, n in VALUES]
        for n, t in tests:
            x.run('mono/' + n, one, t, mono, mono)
            x.run('chain/' + n, one, t, m1, m2)
    sc = Scenario(name, FEATURES, None, explore, build=build, shards=1)
    sc.noimport = True
    return sc


# ------------------------------------------------------------------------- orders, and what is missing
def run_python(code, cwd):
    p = subprocess.run([sys.executable, '-c', code], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100, env=dict(os.environ, PYTHONPATH=cwd, PYTHONDONTWRITEBYTECODE='1'))
    return p.returncode, p.stdout.decode().strip()


ORDER_HEADER = BASE + r'''
struct K { T t; int v; K(int a) : v(a) {} K(K const &o) : v(o.v) {} virtual ~K() {} virtual int m(int a) { return v + a; } int call(int a) { return m(a); } };
struct E : K { E(int a) : K(a) {} int m(int a) { return v + a + 100; } };
struct F : E { F(int a) : E(a) {} int m(int a) { return v + a + 200; } };
inline K *mk(int n) { return n == 0 ? new K(1) : n == 1 ? new E(2) : new F(3); }
inline int f1(K &k) { return k.m(1); }
inline int f2(E &k) { return k.m(1); }
inline int f3(F &k) { return k.m(1); }
enum En { V1 = 3, V2 = 4 };
inline int fe(En e) { return e * 2; }
'''


def orders():
    """three modules imported in every order, of which some are forgotten again"""
    def build(sc, wd):
        from pybindgen import Module, FileCodeSink, param, retval
        import pybindgen.settings as st
        st.error_handler = None
        out = []
        with open(os.path.join(wd, 'orders.h'), 'w') as f:
            f.write(ORDER_HEADER)
        for kind in ('plain', 'sub'):
            for level in (1, 2, 3):
                name = 'o_%s_m%d' % (kind, level)
                mod = Module(name)
                mod.add_include('"orders.h"')
                parent = None
                for n, X in enumerate('KEF'[:level]):
                    parent = mod.add_class(X, parent=parent, allow_subclassing=kind == 'sub', automatic_type_narrowing=True, import_from_module=None if n + 1 == level else 'o_%s_m%d' % (kind, n + 1))
                    parent.add_constructor([param('int', 'a')])
                    parent.add_method('m', 'int', [param('int', 'a')], is_virtual=True)
                    if X == 'K':
                        parent.add_method('call', 'int', [param('int', 'a')])
                    mod.add_function('f%d' % (n + 1), 'int', [param(X + ' &', 'k')])
                mod.add_enum('En', ['V1', 'V2'], import_from_module=None if level == 1 else 'o_%s_m1' % kind)
                mod.add_function('fe', 'int', [param('En', 'e')])
                mod.add_function('mk', retval('K *', caller_owns_return=True), [param('int', 'n')])
                p = os.path.join(wd, name + '.cc')
                with open(p, 'w') as f:
                    mod.generate(FileCodeSink(f))
                out.append([name, [p], []])
        return out

    def check(x, kind, order):
        names = dict((i, 'o_%s_m%d' % (kind, i)) for i in (1, 2, 3))
        code = 'import sys\n' + ''.join('import %s\n' % names[i] for i in order)
        code += 'M = dict((i, sys.modules.get("o_%s_m%%d" %% i)) for i in (1, 2, 3))\n' % kind
        top = max(order)
        code += 'assert [i for i in (1, 2, 3) if M[i]] == list(range(1, %d)), M\n' % (top + 1)
        code += 'out = []\nC = [M[i] and getattr(M[i], X) for i, X in ((1, "K"), (2, "E"), (3, "F"))]\n'
        code += 'for i in (1, 2, 3):\n    if not M[i]: continue\n    for n in range(3): out.append(type(M[i].mk(n)).__name__ + str(M[i].mk(n).m(5)))\n'
        code += '    for n, c in enumerate(C):\n        for f in (1, 2, 3):\n            if c and f <= i: \n                try: out.append(getattr(M[i], "f%d" % f)(c(7)))\n                except TypeError: out.append("T")\n'
        code += '    out.append(M[i].fe(M[1].V2))\n    out.append(hasattr(M[i], "V1"))\n'
        if kind == 'sub':
            code += 'for c in C:\n    if c:\n        D = type("D", (c,), {"m": lambda self, a: 5000 + a})\n        out.append(D(1).call(2))\n        out += [M[i].f1(D(1)) for i in (1, 2, 3) if M[i]]\n'
        code += 'print(out)'
        rc, got = run_python(code, x.workdir)
        want = []
        for i in range(1, top + 1):
            for n in range(3):
                # the most derived class that some module in memory has
                X = min(n, top - 1)
                want.append('KEF'[X] + str((1, 2, 3)[n] + 5 + 100 * n))
            for n in range(top):
                for f in (1, 2, 3):
                    if f <= i:
                        want.append('T' if f - 1 > n else 8 + 100 * n)
            want += [8, i == 1]
        if kind == 'sub':
            for n in range(top):
                want += [5002] + [5001] * top
        x.eq((rc, got), (0, str(want)), 'imported as %s' % (order,))
        x.step(len(want))
        x.state((kind, tuple(order)))

    def explore(M, x):
        for kind in ('plain', 'sub'):
            for n in (1, 2, 3):
                for order in itertools.permutations((1, 2, 3), n):
                    x.run('%s %s' % (kind, order), check, x, kind, order)
    sc = Scenario('orders', '', None, explore, build=build, shards=2)
    sc.noimport = True
    return sc


PLACES = ('module', 'namespace', 'submodule')


def missing():
    """what is not there when the module is imported"""
    def gen_importer(wd, name, place, frm, kind):
        from pybindgen import Module, FileCodeSink, param, retval
        from pybindgen.module import SubModule
        import pybindgen.settings as st
        from pybindgen import wrapper_registry
        st.error_handler = None
        st.wrapper_registry = wrapper_registry.StdMapWrapperRegistry if kind == 'registry' else wrapper_registry.NullWrapperRegistry
        mod = top = Module(name)
        mod.add_include('"missing.h"')
        if place == 'namespace':
            mod = mod.add_cpp_namespace('ns')
        elif place == 'submodule':
            mod = SubModule('sub', mod)
        mod.add_class('K', import_from_module=frm, automatic_type_narrowing=kind == 'narrow')
        top.add_function('f', 'int', [param('int', 'a')])
        A = top.add_class('A', allow_subclassing=True)
        A.add_constructor([])
        A.add_static_attribute('st', 'int')
        B = top.add_class('B', parent=A)
        B.add_constructor([])
        C = top.add_class('C')
        C.add_constructor([])
        D = top.add_class('D', parent=[B, C])
        D.add_constructor([])
        D.add_class('In').add_enum('Ie', ['I1'])
        top.add_container('std::vector<int>', 'int', 'vector')
        top.add_exception('X')
        top.add_enum('Top', ['T1'])
        p = os.path.join(wd, name + '.cc')
        with open(p, 'w') as f:
            top.generate(FileCodeSink(f))
        return [name, [p], []]

    def build(sc, wd):
        out = []
        with open(os.path.join(wd, 'missing.h'), 'w') as f:
            f.write('struct K { int v; K() : v(3) {} virtual ~K() {} }; namespace ns { struct K { int v; K() : v(3) {} virtual ~K() {} }; } inline int f(int a) { return a + 1; }\n#include <vector>\nstruct A { static int st; virtual ~A() {} }; __attribute__((weak)) int A::st = 1; struct B : A { }; struct C { int c; };'
                    'struct D : B, C { struct In { enum Ie { I1 }; }; }; struct X { }; enum Top { T1 };')
        for kind in ('plain', 'narrow', 'registry'):
            for place in PLACES:
                out.append(gen_importer(wd, 'i_%s_%s' % (kind, place), place, 'provider', kind))
        return out

    PROVIDERS = [
        ('absent', None, 'ModuleNotFoundError'),
        ('empty', 'x = 1', 'AttributeError'),
        ('fails', 'raise RuntimeError("no")', 'RuntimeError'),
        ('integer', 'K = 3', 'TypeError'),
        ('function', 'def K(): pass', 'TypeError'),
        ('none', 'K = None', 'TypeError'),
        ('syntax', 'K = = 2', 'SyntaxError'),
        ('getattr', 'def __getattr__(n): raise ValueError(n)', 'ValueError'),
    ]

    def check(x, kind, place, provider):
        tag, text, error = provider
        d = os.path.join(x.workdir, 'p_%s_%s_%s' % (kind, place, tag))
        os.mkdir(d)
        if text is not None:
            with open(os.path.join(d, 'provider.py'), 'w') as f:
                f.write(text + '\n')
        name = 'i_%s_%s' % (kind, place)
        code = 'import sys; sys.path.insert(0, %r)\n' % d
        code += 'for i in range(2):\n    try:\n        import %s as m; print("imported")\n    except BaseException as e: print(type(e).__name__, %r in sys.modules)\n    e = None; import gc; gc.collect()' % (name, name)
        rc, got = run_python(code, x.workdir)
        x.eq((rc, got.split('\n')), (0, ['%s False' % error] * 2), tag)
        x.step(2)
        x.state((kind, place, tag))

    def explore(M, x):
        for kind in ('plain', 'narrow', 'registry'):
            for place in PLACES:
                for p in PROVIDERS:
                    x.run('%s %s %s' % (kind, place, p[0]), check, x, kind, place, p)
    sc = Scenario('missing', '', None, explore, build=build, shards=4)
    sc.noimport = True
    return sc


def scenarios(tier):
    out = []
    thorough = tier == 'thorough'
    deep = lambda *c: 5 if thorough and c == (True, True, True) else 4
    for policy, narrow, reg, sub in itertools.product(('plain', 'ref'), (False, True), (False, True), (False, True)):
        out.append(chain(Cfg(policy, narrow, reg, sub), deep(narrow, reg, sub)))
    out.append(chain(Cfg('shared', False, False, False), 5 if thorough else 4))
    out.append(chain(Cfg('shared', True, False, False), 5 if thorough else 4))
    for sub, narrow, reg in itertools.product((True, False), repeat=3):
        out.append(features(sub, narrow, reg, sub == narrow))
    out.append(orders())
    out.append(missing())
    return out
