"""C14: virtual methods dispatch to the Python override, or else to C++."""
import gc
import itertools
import sys
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('every way two levels of Python classes (and a mixin) can override each virtual method of every wrapped class of a hierarchy '
        '(not, return, call the base, call the root explicitly, raise, return a wrong type, call another virtual from C++) times every '
        'route of the call; the joint trace of C++ and Python bodies, the value and the number of reported errors are compared with a '
        'dispatch model; plus every sequence of changes of the overrides and calls')
BOUNDS = {'quick': 'single and multiple inheritance, pure, overloaded, protected and private virtuals; two Python levels; patch histories of length 3; pairs of virtual methods that differ only in const or in their parameters, overridden in C++ one, the other or both',
          'thorough': 'patch histories of length 4; every pair of kinds with mixins at both levels'}
ASSUMPTIONS = ['a class that overrides a virtual method in C++ declares the override in its description']

LOG = r'''
#include <string>
#include <vector>
inline std::vector<std::string> &lg() { static std::vector<std::string> v; return v; }
inline void note(std::string const &s) { lg().push_back(s); }
inline std::string takelog() { std::string r; for (size_t i = 0; i < lg().size(); i++) r += (i ? " " : "") + lg()[i]; lg().clear(); return r; }
inline std::string N(int x) { return std::to_string(x); }
'''

SINGLE = LOG + r'''
struct A {
    int pad; A() : pad(1) {} virtual ~A() {}
    virtual int f(int x) { note("A::f(" + N(x) + ")"); return x + 1000; }
    virtual void g(int x) { note("A::g(" + N(x) + ")"); }
    virtual int h(int x) const { note("A::h(" + N(x) + ")"); return x + 1000; }
    virtual std::string s(std::string const &x) { note("A::s(" + x + ")"); return x + "a"; }
    int call_f(int x) { return f(x); }
    void call_g(int x) { g(x); }
    int call_h(int x) const { return h(x); }
    std::string call_s(std::string const &x) { return s(x); }
    int call_p(int x) { return p(x); }
protected:
    virtual int p(int x) { note("A::p(" + N(x) + ")"); return x + 1000; }
};
struct B : A {
    virtual int f(int x) { note("B::f(" + N(x) + ")"); return x + 2000; }
    virtual std::string s(std::string const &x) { note("B::s(" + x + ")"); return x + "b"; }
};
struct C : B {
    virtual void g(int x) { note("C::g(" + N(x) + ")"); }
    virtual std::string s(std::string const &x) { note("C::s(" + x + ")"); return x + "c"; }
protected:
    virtual int p(int x) { note("C::p(" + N(x) + ")"); return x + 3000; }
};
inline int ext_f(A &a, int x) { return a.f(x); }
inline void ext_g(A &a, int x) { a.g(x); }
inline int ext_h(A const &a, int x) { return a.h(x); }
inline std::string ext_s(A &a, std::string const &x) { return a.s(x); }
inline int ext_p(A &a, int x) { return a.call_p(x); }
inline int ptr_f(A *a, int x) { return a->f(x); }
inline void ptr_g(A *a, int x) { a->g(x); }
inline int ptr_h(A const *a, int x) { return a->h(x); }
inline std::string ptr_s(A *a, std::string const &x) { return a->s(x); }
inline int ptr_p(A *a, int x) { return a->call_p(x); }
'''
IMPL = {'f': 'AB', 'g': 'AC', 'h': 'A', 's': 'ABC', 'p': 'AC'}
RET = {'A': (1000, 'a'), 'B': (2000, 'b'), 'C': (3000, 'c')}
KINDS = ['none', 'ret', 'super', 'root', 'raise', 'wrong', 'other']


def gen_single(mod):
    from pybindgen import param, retval
    mod.add_function('note', None, [param('const std::string &', 's')])
    mod.add_function('takelog', retval('std::string'), [])
    prev = None
    for c in 'ABC':
        K = mod.add_class(c, parent=prev, allow_subclassing=True)
        prev = K
        K.add_constructor([])
        for m in 'fghsp':
            if c in IMPL[m]:
                t = {'g': None, 's': 'std::string'}.get(m, 'int')
                at = 'const std::string &' if m == 's' else 'int'
                K.add_method(m, t, [param(at, 'x')], is_virtual=True, is_const=m == 'h', visibility='protected' if m == 'p' else 'public')
                if c == 'A':
                    K.add_method('call_' + m, t, [param(at, 'x')], is_const=m == 'h')
    A = mod['A']
    for m in 'fghsp':
        t = {'g': None, 's': 'std::string'}.get(m, 'int')
        at = 'const std::string &' if m == 's' else 'int'
        mod.add_function('ext_' + m, t, [param('const A &' if m == 'h' else 'A &', 'a'), param(at, 'x')])
        mod.add_function('ptr_' + m, t, [param('const A *' if m == 'h' else 'A *', 'a', transfer_ownership=False), param(at, 'x')])


class Boom(Exception):
    pass


class Hook(object):
    """counts the errors reported through sys.excepthook"""
    def __init__(self):
        self.errors = []
        sys.excepthook = self

    def __call__(self, t, v, tb):
        self.errors.append(t)

    def take(self):
        e, self.errors = self.errors, []
        for n in ('last_exc', 'last_value', 'last_traceback', 'last_type'):
            if hasattr(sys, n):
                delattr(sys, n)
        return e


WRONG = object()


class Model(object):
    """what a call does: mro is a list of (class name, {method: kind}) for Python classes, then the wrapped class"""
    void = 'g'

    def __init__(self, mro, base, pure=''):
        self.mro, self.base, self.pure = mro, base, pure
        self.log, self.errors = [], 0

    def top(self, m):
        return max(c for c in IMPL[m] if c <= self.base)

    def cpp(self, c, m, x):
        self.log.append('%s::%s(%s)' % (c, m, x))
        if m in self.void:
            return None
        return x + RET[c][1] if m == 's' else x + RET[c][0]

    def python(self, m, x, start=0):
        for i in range(start, len(self.mro)):
            k = self.mro[i][1].get(m, 'none')
            if k != 'none':
                return self.kind(k, i, m, x)
        return self.cpp(self.top(m), m, x)

    def kind(self, k, i, m, x):
        self.log.append('%s.%s(%s)' % (self.mro[i][0], m, x))
        one = '+' if m == 's' else 100
        if k == 'ret':
            return None if m in self.void else ('py' if m == 's' else 7)
        if k == 'raise':
            raise Boom()
        if k == 'wrong':
            return WRONG
        if k == 'super':
            r = self.python(m, x, i + 1)
        elif k == 'root':
            r = self.cpp('A', m, x)
        else:
            o = 'h' if m == 'g' else 'g'
            self.virtual(o, 55)
            r = 'o' if m == 's' else 3
        if m in self.void:
            return None
        if r is WRONG:
            raise Boom()
        return r + one

    def virtual(self, m, x):
        if all(d.get(m, 'none') == 'none' for n, d in self.mro):
            return self.cpp(self.top(m), m, x)
        try:
            r = self.python(m, x)
            if r is WRONG:
                raise Boom()
            return r
        except Boom:
            self.errors += 1
            return None if m in self.void else self.cpp(self.top(m), m, x)


def make_override(M, cname, m, kind, box):
    root = M.A
    one = '+' if m == 's' else 100
    void = m == 'g'

    def body(self, x):
        M.note('%s.%s(%s)' % (cname, m, x))
        if kind == 'ret':
            return None if void else ('py' if m == 's' else 7)
        if kind == 'raise':
            raise Boom()
        if kind == 'wrong':
            return WRONG
        if kind == 'super':
            r = getattr(super(box[0], self), m)(x)
        elif kind == 'root':
            r = getattr(root, m)(self, x)
        else:
            (self.call_h if void else self.call_g)(55)
            r = 'o' if m == 's' else 3
        if not void:
            return r + one
    return body


def make_class(M, name, bases, kinds):
    box = []
    cls = type(name, bases, dict((m, make_override(M, name, m, k, box)) for m, k in kinds.items() if k != 'none'))
    box.append(cls)
    return cls


def explore_single(M, x):
    hook = Hook()
    gc.collect(); gc.freeze(); gc.disable()
    n = [0]

    def one(base, m, kinds, extra):
        k1, k2, km = kinds
        root = getattr(M, base)
        other = 'h' if m == 'g' else 'g'
        P = make_class(M, 'P', (root,), {m: k1, other: extra})
        mro = [('P', {m: k1, other: extra})]
        if km is not None:
            X = make_class(M, 'X', (object,), {m: km})
            Q = make_class(M, 'Q', (X, P), {m: k2})
            mro = [('Q', {m: k2}), ('X', {m: km})] + mro
        elif k2 is not None:
            Q = make_class(M, 'Q', (P,), {m: k2})
            mro = [('Q', {m: k2})] + mro
        else:
            Q = P
        o = Q()
        arg = 'z' if m == 's' else 5
        routes = {'py': lambda: getattr(o, m)(arg), 'call': lambda: getattr(o, 'call_' + m)(arg),
                  'ext': lambda: getattr(M, 'ext_' + m)(o, arg), 'ptr': lambda: getattr(M, 'ptr_' + m)(o, arg),
                  'unbound': lambda: getattr(M.A, 'call_' + m)(o, arg)}
        for r, fn in sorted(routes.items()):
            for rep in range(2):
                mod = Model(mro, base)
                M.takelog()
                hook.take()
                try:
                    want = mod.python(m, arg) if r == 'py' else mod.virtual(m, arg)
                    wexc = False
                except Boom:
                    want, wexc = None, True
                try:
                    got, gexc = fn(), None
                except Exception as e:
                    got, gexc = None, repr(e)
                log = M.takelog()
                errs = hook.take()
                x.step()
                x.state((base, m, kinds, extra, r))
                if bool(gexc) != wexc:
                    x.fail('%s: raised %s, expected %s' % (r, gexc, 'an exception' if wexc else want))
                x.eq(log, ' '.join(mod.log), '%s: bodies run' % r)
                x.eq(got, want, '%s: result' % r)
                x.eq(len(errs), mod.errors, '%s: errors reported (%r)' % (r, errs))

    for base in 'ABC':
        for m in 'fghsp':
            kinds = [k for k in KINDS if not (m == 'p' and k == 'root')]
            combos = [(k1, None, None) for k1 in kinds]
            combos += [(k1, k2, None) for k1 in kinds for k2 in kinds]
            combos += [(k1, k2, km) for km in kinds for k1 in (kinds if x.thorough else ('none', 'ret', 'super')) for k2 in (kinds if x.thorough else ('none', 'super'))]
            for c in combos:
                extras = ['none', 'ret', 'super', 'raise', 'root'] if 'other' in c else ['none']
                for extra in extras:
                    x.run('%s %s P=%s Q=%s X=%s +%s' % ((base, m) + c + (extra,)), one, base, m, c, extra)

    def plain(base, m):
        o = getattr(M, base)()
        arg = 'z' if m == 's' else 5
        for r in ['call', 'ext', 'ptr'] + ([] if m == 'p' else ['py']):
            mod = Model([], base)
            fn = {'py': lambda: getattr(o, m)(arg), 'call': lambda: getattr(o, 'call_' + m)(arg),
                  'ext': lambda: getattr(M, 'ext_' + m)(o, arg), 'ptr': lambda: getattr(M, 'ptr_' + m)(o, arg)}[r]
            M.takelog()
            x.eq((fn(), M.takelog()), (mod.virtual(m, arg), mod.log[0]), r)
    for base in 'ABC':
        for m in 'fghsp':
            x.run('plain %s %s' % (base, m), plain, base, m)


# -- histories of overrides that change while the object lives

def explore_patch(M, x):
    hook = Hook()
    gc.collect(); gc.freeze(); gc.disable()

    def history(base, seq):
        root = getattr(M, base)
        box1, box2 = [], []
        P = make_class(M, 'P', (root,), {})
        Q = make_class(M, 'Q', (P,), {})
        o, p = Q(), P()
        d = {'Q': {}, 'P': {}, 'o': {}}
        for op in seq:
            x.step()
            what = op[0]
            if what == 'set':
                cls, m, k = op[1:]
                if cls == 'o':
                    body = make_override(M, 'o', m, k, [Q])
                    setattr(o, m, body.__get__(o))
                else:
                    setattr({'P': P, 'Q': Q}[cls], m, make_override(M, cls, m, k, [{'P': P, 'Q': Q}[cls]]))
                d[cls][m] = k
            elif what == 'del':
                cls, m = op[1:]
                if m in d[cls]:
                    delattr({'P': P, 'Q': Q, 'o': o}[cls], m)
                    del d[cls][m]
        for m in 'fg':
            for r in ('py', 'call', 'ext'):
                for who in 'op':
                    obj = o if who == 'o' else p
                    mod = Model([('o', d['o'])] * (who == 'o') + [('Q', d['Q'])] * (who == 'o') + [('P', d['P'])], base)
                    if who == 'o' and d['o'].get(m) == 'super':
                        # the function of the instance calls super(Q, self)
                        mod.mro[1] = ('Q', {})
                    M.takelog(); hook.take()
                    try:
                        want, wexc = (mod.python(m, 5) if r == 'py' else mod.virtual(m, 5)), False
                    except Boom:
                        want, wexc = None, True
                    try:
                        got, gexc = (getattr(obj, m)(5) if r == 'py' else getattr(obj, 'call_' + m)(5) if r == 'call' else getattr(M, 'ext_' + m)(obj, 5)), False
                    except Boom:
                        got, gexc = None, True
                    x.state((base, tuple(sorted((c, m, k) for c in d for m, k in d[c].items())), who, r, m))
                    x.eq((got, gexc, M.takelog(), len(hook.take())), (want, wexc, ' '.join(mod.log), mod.errors), '%s %s of %s' % (r, m, who))
    ops = [('set', c, m, k) for c in 'PQo' for m in 'fg' for k in ('ret', 'super', 'raise')] + [('del', c, m) for c in 'PQo' for m in 'fg']
    depth = 4 if x.thorough else 3
    for base in ('A', 'B', 'C') if x.thorough else ('A', 'C'):
        for seq in itertools.product(ops, repeat=depth):
            # a deletion before anything was set does nothing
            if seq[0][0] == 'del':
                continue
            x.run('%s %s' % (base, ' '.join(':'.join(op) for op in seq)), history, base, seq)


# -- pure virtual methods

PURE = LOG + r'''
struct K { Track t; int v; K(int v_ = 0) : v(v_) {} };
struct Abs {
    Track t; virtual ~Abs() {}
    virtual int f(int x) = 0;
    virtual void g(int x) = 0;
    virtual bool b(int x) const = 0;
    virtual double d(int x) = 0;
    virtual std::string s(int x) = 0;
    virtual K kv(int x) = 0;
    virtual K *kp(int x) = 0;
    virtual std::vector<int> vec(int x) = 0;
    int call_f(int x) { return f(x); }
    void call_g(int x) { g(x); }
    bool call_b(int x) { return b(x); }
    double call_d(int x) { return d(x); }
    std::string call_s(int x) { return s(x); }
    int call_kv(int x) { return kv(x).v; }
    int call_kp(int x) { K *k = kp(x); int v = k ? k->v : -1; delete k; return v; }
    int call_vec(int x) { return vec(x).size(); }
    int call_p(int x) { return p(x); }
    int call_q(int x) { return q(x); }
    void call_w(int x) { w(x); }
protected:
    virtual int p(int x) = 0;
private:
    virtual int q(int x) = 0;
    virtual void w(int x) = 0;
};
inline int apply(Abs *a, int x) { return a->call_f(x); }
'''
PUREM = {'f': (7, 7), 'g': (None, None), 'b': (True, True), 'd': (1.5, 1.5), 's': ('t', 't'), 'kv': ('K', 4), 'kp': ('K', 4), 'vec': ([1, 2], 2), 'p': (9, 9), 'q': (8, 8), 'w': (None, None)}


def gen_pure(mod):
    from pybindgen import param, retval
    K = mod.add_class('K')
    K.add_constructor([])
    K.add_constructor([param('int', 'v')])
    K.add_copy_constructor()
    mod.add_container('std::vector<int>', 'int', 'vector')
    A = mod.add_class('Abs', allow_subclassing=True)
    A.add_constructor([])
    for m, t in (('f', 'int'), ('g', None), ('b', 'bool'), ('d', 'double'), ('s', 'std::string'), ('kv', 'K'), ('kp', retval('K *', caller_owns_return=True)), ('vec', 'std::vector<int>'), ('p', 'int'), ('q', 'int'), ('w', None)):
        A.add_method(m, t, [param('int', 'x')], is_virtual=True, is_pure_virtual=True, is_const=m == 'b',
                     visibility={'p': 'protected', 'q': 'private', 'w': 'private'}.get(m, 'public'))
        A.add_method('call_' + m, {'kv': 'int', 'kp': 'int', 'vec': 'int'}.get(m, t), [param('int', 'x')])
    mod.add_function('apply', 'int', [param('Abs *', 'a', transfer_ownership=False), param('int', 'x')])


def explore_pure(M, x):
    hook = Hook()
    lib = x.clib()
    gc.collect(); gc.freeze(); gc.disable()
    KINDS = ['none', 'ret', 'super', 'root', 'raise', 'wrong', 'attr', 'notcallable']

    def one(m, kind, route):
        calls = []

        def body(self, a):
            calls.append(a)
            if len(calls) > 5:
                raise Boom('recursion')
            if kind == 'raise':
                raise Boom()
            if kind == 'wrong':
                return WRONG
            if kind == 'super':
                return getattr(super(P, self), m)(a)
            if kind == 'root':
                return getattr(M.Abs, m)(self, a)
            r = PUREM[m][0]
            return M.K(4) if r == 'K' else r
        d = {}
        if kind == 'notcallable':
            d[m] = 5
        elif kind == 'attr':
            def get(self):
                raise AttributeError('no')
            d[m] = property(get)
        elif kind != 'none':
            d[m] = body
        P = type('P', (M.Abs,), d)
        o = P()
        live = lib.pbmc_live()
        hook.take()
        for i in range(3):
            del calls[:]
            x.step()
            try:
                r = getattr(o, 'call_' + m)(5) if route == 'cpp' else getattr(o, m)(5)
                exc = None
            except Exception as e:
                r, exc = None, e
            errs = hook.take()
            x.state((m, kind, route))
            if kind == 'ret':
                x.eq(exc, None, 'exception')
                if route == 'cpp' or PUREM[m][0] != 'K':
                    x.eq(r, PUREM[m][1] if route == 'cpp' else PUREM[m][0], 'result')
                x.eq(len(errs), 0, 'errors reported %r' % errs)
                x.eq(calls, [5], 'calls')
            elif kind == 'wrong' and route == 'py':
                x.check(r is WRONG, 'result %r' % (r,))
            elif route == 'py':
                x.check(exc is not None, '%s %s from Python did not raise (%r)' % (kind, m, r))
                if kind in ('super', 'root', 'raise'):
                    x.eq(len(calls), 1, 'calls of the override')
            else:
                x.eq(exc, None, 'exception out of a call from C++')
                if kind in ('super', 'root', 'raise', 'wrong'):
                    x.eq(len(calls), 1, 'calls of the override')
                if kind == 'none' and PUREM[m][0] is None:
                    x.check(len(errs) <= 1, 'errors %r' % errs)
                elif kind != 'attr':
                    x.eq(len(errs), 1, 'errors reported %r' % errs)
        if lib.pbmc_live() != live:
            r = exc = None
            x.eq(lib.pbmc_live(), live, 'live C++ objects')
        x.eq(lib.pbmc_bad(), 0, 'bad uses')
    for m in PUREM:
        for kind in KINDS:
            for route in ('cpp', 'py'):
                if kind == 'none' and route == 'py' and m in 'pqw':
                    pass
                if m in 'qw' and kind in ('super', 'root') or m == 'b' and kind == 'wrong':
                    continue    # private; every object has a truth value
                x.run('%s %s %s' % (m, kind, route), one, m, kind, route)

    def abstract():
        for c in (M.Abs,):
            try:
                c()
            except TypeError:
                pass
            else:
                x.fail('%s() of an abstract class succeeded' % c.__name__)
    x.run('abstract', abstract)


# -- multiple inheritance: the receiver of an override is right in every part of the object

MI = LOG + r'''
struct A { int a; A() : a(11) {} virtual ~A() {} virtual int f(int x) { note("A::f"); return a + x; } int geta() { return a; } int call_f(int x) { return f(x); } };
struct E { double pad; int e; E() : pad(1), e(22) {} virtual ~E() {} virtual int g(int x) { note("E::g"); return e + x; } virtual int k(int x) const { note("E::k"); return e + x; } int gete() { return e; } int call_g(int x) { return g(x); } int call_k(int x) const { return k(x); } };
struct D : A, E { int d; D() : d(33) {} virtual int f(int x) { note("D::f"); return a + d + x; } virtual int own(int x) { note("D::own"); return d + x; } int getd() { return d; } int call_own(int x) { return own(x); } };
struct DD : D { int dd; DD() : dd(44) {} virtual int g(int x) { note("DD::g"); return dd + e + x; } int getdd() { return dd; } };
struct DN : D { int n; DN() : n(77) {} int getn() { return n; } private: DN(int n_) : n(n_) {} };
struct NV : A, E { int m; NV() : m(88) {} int getm() { return m; } };
struct Base { int z; Base() : z(55) {} int getz() { return z; } };
struct V : Base { int v; V() : v(66) {} virtual ~V() {} virtual int f(int x) { note("V::f"); return v + z + x; } int getv() { return v; } int call_f(int x) { return f(x); } };
inline int on_a(A &o, int x) { return o.f(x); }
inline int on_e(E &o, int x) { return o.g(x); }
inline int on_ek(E const &o, int x) { return o.k(x); }
inline int on_v(V &o, int x) { return o.f(x); }
inline int base_z(Base &b) { return b.z; }
'''


def gen_mi(mod):
    from pybindgen import param, retval
    mod.add_function('takelog', retval('std::string'), [])
    I = [param('int', 'x')]
    A = mod.add_class('A', allow_subclassing=True)
    E = mod.add_class('E', allow_subclassing=True)
    for c, ms, gs in ((A, 'f', 'a'), (E, 'gk', 'e')):
        c.add_constructor([])
        for m in ms:
            c.add_method(m, 'int', [param('int', 'x')], is_virtual=True, is_const=m == 'k')
            c.add_method('call_' + m, 'int', [param('int', 'x')], is_const=m == 'k')
        c.add_method('get' + gs, 'int', [])
        c.add_instance_attribute(gs, 'int')
    D = mod.add_class('D', parent=[A, E], allow_subclassing=True)
    D.add_constructor([])
    D.add_method('f', 'int', [param('int', 'x')], is_virtual=True)
    D.add_method('own', 'int', [param('int', 'x')], is_virtual=True)
    D.add_method('call_own', 'int', [param('int', 'x')])
    D.add_method('getd', 'int', [])
    DD = mod.add_class('DD', parent=D, allow_subclassing=True)
    DD.add_constructor([])
    DD.add_method('g', 'int', [param('int', 'x')], is_virtual=True)
    DD.add_method('getdd', 'int', [])
    DN = mod.add_class('DN', parent=D, allow_subclassing=True)
    DN.add_constructor([])
    DN.add_constructor([param('int', 'n')], visibility='private')
    DN.add_method('getn', 'int', [])
    NV = mod.add_class('NV', parent=[A, E], allow_subclassing=True)
    NV.add_constructor([])
    NV.add_method('getm', 'int', [])
    B = mod.add_class('Base', allow_subclassing=True)
    B.add_constructor([])
    B.add_method('getz', 'int', [])
    V = mod.add_class('V', parent=B, allow_subclassing=True)
    V.add_constructor([])
    V.add_method('f', 'int', [param('int', 'x')], is_virtual=True)
    V.add_method('call_f', 'int', [param('int', 'x')])
    V.add_method('getv', 'int', [])
    for fn, t in (('on_a', 'A &'), ('on_e', 'E &'), ('on_ek', 'const E &'), ('on_v', 'V &')):
        mod.add_function(fn, 'int', [param(t, 'o'), param('int', 'x')])
    mod.add_function('base_z', 'int', [param('Base &', 'b')])


GET = {'a': ('geta', 11), 'e': ('gete', 22), 'd': ('getd', 33), 'dd': ('getdd', 44), 'z': ('getz', 55), 'v': ('getv', 66), 'n': ('getn', 77), 'm': ('getm', 88)}
WHO = {'A': 'a', 'E': 'e', 'D': 'aed', 'DD': ['a', 'e', 'd', 'dd'], 'V': 'v', 'DN': 'aedn', 'NV': 'aem'}
VALUE = {('A', 'f'): 11, ('E', 'g'): 22, ('E', 'k'): 22, ('D', 'f'): 44, ('D', 'own'): 33, ('DD', 'g'): 66, ('V', 'f'): 121}
TOP = {'A': {'f': 'A'}, 'E': {'g': 'E', 'k': 'E'}, 'D': {'f': 'D', 'g': 'E', 'k': 'E', 'own': 'D'},
       'DD': {'f': 'D', 'g': 'DD', 'k': 'E', 'own': 'D'}, 'V': {'f': 'V'},
       # no virtual methods of their own
       'DN': {'f': 'D', 'g': 'E', 'k': 'E', 'own': 'D'}, 'NV': {'f': 'A', 'g': 'E', 'k': 'E'}}
# (objects given where their second base is expected are the matter of C13)
VIA = {'f': ('call_f', 'on_a'), 'g': ('call_g', None), 'k': ('call_k', None), 'own': ('call_own', None)}


def explore_mi(M, x):
    hook = Hook()

    def one(cn, kinds):
        W = getattr(M, cn)
        trace = []

        def members(self):
            return [getattr(self, GET[a][0])() for a in WHO[cn]]

        def override(m, kind):
            def body(self, a):
                trace.append((m, a, members(self)))
                if kind == 'ret':
                    return 1
                if kind == 'super':
                    return getattr(super(P, self), m)(a) + 100000
                if kind == 'cross':
                    # call every virtual method that is not overridden through C++
                    r = 0
                    for m2 in sorted(TOP[cn]):
                        if kinds.get(m2, 'none') != 'cross':
                            r += getattr(self, VIA[m2][0])(0)
                    trace.append(('after', members(self)))
                    return r
                raise Boom()
            return body
        P = type('P', (W,), dict((m, override(m, k)) for m, k in kinds.items() if k != 'none'))
        o = P()
        want = [GET[a][1] for a in WHO[cn]]

        def cpp(m, a):
            return VALUE[(TOP[cn][m], m)] + a

        def virt(m, a):
            k = kinds[m]
            if k == 'none' or k == 'raise':
                return cpp(m, a)
            return pyk(m, a)

        def pyk(m, a):
            k = kinds[m]
            if k == 'none':
                return cpp(m, a)
            if k == 'ret':
                return 1
            if k == 'super':
                return cpp(m, a) + 100000
            return sum(virt(m2, 0) for m2 in TOP[cn] if kinds.get(m2, 'none') != 'cross')
        for m in sorted(TOP[cn]):
            for via in ('py',) + VIA[m]:
                if via is None:
                    continue
                if via == 'on_a' and cn == 'V':
                    via = 'on_v'
                if via == 'py' and kinds[m] == 'raise':
                    continue
                del trace[:]
                hook.take()
                x.step()
                x.state((cn, m, via, tuple(sorted(kinds.items()))))
                got = getattr(o, m)(5) if via == 'py' else getattr(M, via)(o, 5) if via.startswith('on_') else getattr(o, via)(5)
                x.eq(got, pyk(m, 5) if via == 'py' else virt(m, 5), '%s via %s' % (m, via))
                for t in trace:
                    x.eq(t[-1], want, 'members inside %s via %s' % (t[0], via))
                if kinds[m] != 'none':
                    x.eq(trace[0][:2] if trace else None, (m, 5), 'override run')
                x.eq(members(o), want, 'members after %s' % m)
    for cn in ('A', 'E', 'D', 'DD', 'V', 'DN', 'NV'):
        ms = sorted(TOP[cn])
        for ks in itertools.product(('none', 'ret', 'super', 'cross', 'raise'), repeat=len(ms)):
            x.run('%s %s' % (cn, ' '.join(m + '=' + k for m, k in zip(ms, ks))), one, cn, dict(zip(ms, ks)))


# -- overloaded virtual methods

OVER = LOG + r'''
struct A {
    virtual ~A() {}
    virtual int m(int x) { note("A::m(i" + N(x) + ")"); return 1; }
    virtual int m(std::string const &s) { note("A::m(s" + s + ")"); return 2; }
    virtual int m(int x, int y) const { note("A::m(i" + N(x) + ",i" + N(y) + ")"); return 3; }
    int c1(int x) { return m(x); }
    int c2(std::string const &s) { return m(s); }
    int c3(int x, int y) { return m(x, y); }
    virtual int r(int &x) { note("A::r(" + N(x) + ")"); x += 1; return x * 2; }
    virtual int dflt(int x, int y = 9) { note("A::dflt(" + N(x) + "," + N(y) + ")"); return x * 100 + y; }
    int c4(int x) { int y = x; int r_ = r(y); return r_ * 1000 + y; }
    int c5(int x) { return dflt(x); }
    int c6(int x, int y) { return dflt(x, y); }
};
struct B : A {
    using A::m;
    virtual int m(int x) { note("B::m(i" + N(x) + ")"); return 11; }
    virtual int m(std::string const &s) { note("B::m(s" + s + ")"); return 12; }
    virtual int m(int x, int y) const { note("B::m(i" + N(x) + ",i" + N(y) + ")"); return 13; }
};
'''


def gen_over(mod):
    from pybindgen import param, retval, Parameter
    mod.add_function('takelog', retval('std::string'), [])
    prev = None
    for c in 'AB':
        K = prev = mod.add_class(c, parent=prev, allow_subclassing=True)
        K.add_constructor([])
        K.add_method('m', 'int', [param('int', 'x')], is_virtual=True)
        K.add_method('m', 'int', [param('const std::string &', 's')], is_virtual=True)
        K.add_method('m', 'int', [param('int', 'x'), param('int', 'y')], is_virtual=True, is_const=True)
        if c == 'A':
            K.add_method('c1', 'int', [param('int', 'x')])
            K.add_method('c2', 'int', [param('const std::string &', 's')])
            K.add_method('c3', 'int', [param('int', 'x'), param('int', 'y')])
            K.add_method('r', 'int', [param('int &', 'x', direction=Parameter.DIRECTION_INOUT)], is_virtual=True)
            K.add_method('dflt', 'int', [param('int', 'x'), param('int', 'y', default_value='9')], is_virtual=True)
            K.add_method('c4', 'int', [param('int', 'x')])
            K.add_method('c5', 'int', [param('int', 'x')])
            K.add_method('c6', 'int', [param('int', 'x'), param('int', 'y')])


def explore_over(M, x):
    hook = Hook()

    def text(args):
        return ','.join(('s' if isinstance(a, str) else 'i') + str(a) for a in args)

    def one(cn, kind, kr, kd):
        W = getattr(M, cn)
        seen = []

        def m(self, *args):
            seen.append(args)
            if kind == 'ret':
                return 50
            if kind == 'raise':
                raise Boom()
            if kind == 'wrong':
                return 'x'
            return super(P, self).m(*args) + 100

        def r(self, v):
            seen.append(v)
            if kr == 'ret':
                return 7, 8
            if kr == 'raise':
                raise Boom()
            if kr == 'wrong':
                return 7
            return super(P, self).r(v)

        def dflt(self, *args):
            seen.append(args)
            if kd == 'ret':
                return 5
            if kd == 'super1':
                return super(P, self).dflt(args[0])
            return super(P, self).dflt(*args) + 100000
        d = {}
        if kind != 'none':
            d['m'] = m
        if kr != 'none':
            d['r'] = r
        if kd != 'none':
            d['dflt'] = dflt
        P = type('P', (W,), d)
        o = P()
        base = {1: 1, 2: 2, 3: 3}
        add = 10 if cn == 'B' else 0
        for n, args in ((1, (5,)), (2, ('q',)), (3, (5, 6))):
            for via in ('py', 'c'):
                del seen[:]
                M.takelog(); hook.take()
                x.step()
                x.state((cn, kind, n, via))
                cpp = '%s::m(%s)' % (cn, text(args))
                if kind in ('raise', 'wrong') and via == 'py':
                    continue
                got = o.m(*args) if via == 'py' else getattr(o, 'c%d' % n)(*args)
                want = {'none': n + add, 'ret': 50, 'super': n + add + 100, 'raise': n + add, 'wrong': n + add}[kind]
                x.eq(got, want, 'm%r %s' % (args, via))
                x.eq(M.takelog(), '' if kind == 'ret' else cpp, 'C++ bodies of m%r %s' % (args, via))
                x.eq(seen, [args] if kind != 'none' else [], 'override of m%r %s' % (args, via))
                x.eq(len(hook.take()), 1 if kind in ('raise', 'wrong') else 0, 'errors')
        # a reference parameter
        del seen[:]
        M.takelog(); hook.take()
        got = o.c4(5)
        want = {'none': (12, 6), 'ret': (7, 8), 'super': (12, 6), 'raise': (12, 6), 'wrong': (12, 6)}[kr]
        x.eq(got, want[0] * 1000 + want[1], 'r')
        x.eq(M.takelog(), '' if kr == 'ret' else 'A::r(5)', 'C++ bodies of r')
        x.eq(len(hook.take()), 1 if kr in ('raise', 'wrong') else 0, 'errors of r')
        # a default argument
        for call, want_args in ((lambda: o.c5(4), (4, 9)), (lambda: o.c6(4, 3), (4, 3))):
            del seen[:]
            M.takelog()
            got = call()
            a, b = want_args
            x.eq(got, {'none': a * 100 + b, 'ret': 5, 'super1': a * 100 + 9, 'super': a * 100 + b + 100000}[kd], 'dflt')
            x.eq(seen, [want_args] if kd != 'none' else [], 'override of dflt')
            x.eq(M.takelog(), '' if kd == 'ret' else 'A::dflt(%d,%d)' % (a, 9 if kd == 'super1' else b), 'C++ bodies of dflt')
    for cn in 'AB':
        for kind in ('none', 'ret', 'super', 'raise', 'wrong'):
            for kr in ('none', 'ret', 'super', 'raise', 'wrong'):
                for kd in ('none', 'ret', 'super', 'super1'):
                    x.run('%s m=%s r=%s dflt=%s' % (cn, kind, kr, kd), one, cn, kind, kr, kd)


# -- private virtual methods that have an implementation

PRIV = LOG + r'''
struct A {
    virtual ~A() {}
    int call_f(int x) { return f(x); }
    void call_g(int x) { g(x); }
private:
    virtual int f(int x) { note("A::f"); return x + 1000; }
    virtual void g(int x) { note("A::g"); }
};
'''


def gen_priv(mod):
    from pybindgen import param, retval
    mod.add_function('takelog', retval('std::string'), [])
    A = mod.add_class('A', allow_subclassing=True)
    A.add_constructor([])
    for m, t in (('f', 'int'), ('g', None)):
        A.add_method(m, t, [param('int', 'x')], is_virtual=True, visibility='private')
        A.add_method('call_' + m, t, [param('int', 'x')])


def explore_priv(M, x):
    hook = Hook()

    def one(m, kind):
        def body(self, a):
            if kind == 'raise':
                raise Boom()
            return 7 if m == 'f' else None
        P = M.A if kind == 'plain' else type('P', (M.A,), {m: body} if kind != 'none' else {})
        M.takelog()
        hook.take()
        r = getattr(P(), 'call_' + m)(5)
        x.step()
        x.state((m, kind))
        x.check(not hasattr(M.A(), m), 'a private method is visible')
        if kind == 'override':
            x.eq((r, M.takelog(), hook.take()), (7 if m == 'f' else None, '', []), m)
        elif kind == 'raise':
            x.eq((M.takelog(), len(hook.take())), ('', 1), m)
        else:
            x.eq((r, M.takelog(), hook.take()), (1005 if m == 'f' else None, 'A::' + m, []), m)
    for m in 'fg':
        for kind in ('plain', 'none', 'override', 'raise'):
            x.run('%s %s' % (m, kind), one, m, kind)


# -- sets of virtual methods of one name that differ in little

# tag -> C++ parameter, const, pybindgen parameter, argument in a C++ caller, how to call it
SETS = {
    'v': ('', False, [], ''), 'vc': ('', True, [], ''),
    'i': ('int', False, ['int'], '5'), 'ic': ('int', True, ['int'], '5'),
    'd': ('double', False, ['double'], '1.5'), 'dc': ('double', True, ['double'], '1.5'),
    'ii': ('int, int', False, ['int', 'int'], '5, 6'),
    's': ('std::string const &', False, ['const std::string &'], 'std::string("q")'),
    'K': ('K &', False, ['K &'], 'k'), 'cK': ('K const &', False, ['const K &'], '(K const &) k'),
    'p': ('K *', False, ['K *'], '&k'), 'cp': ('K const *', False, ['const K *'], '(K const *) &k'),
    'pc': ('K *', True, ['K *'], '&k'),
}


def sets_of(first):
    # (a call of m(K const *) or m(K *) const with a K * is ambiguous in C++)
    return [(first, t) for t in SETS if t != first and {first, t} != {'cp', 'pc'}]


def sets_header(first):
    out = [LOG, 'struct K { int v; K() : v(3) {} };']
    for n, pair in enumerate(sets_of(first)):
        for cls, base, own in [('A', '', pair), ('B', 'A', pair[:1]), ('C', 'A', pair[1:]), ('D', 'B', pair[1:])]:
            out.append('struct %s%d%s { virtual ~%s%d() {}' % (cls, n, ' : %s%d' % (base, n) if base else '', cls, n))
            if base:
                out.append('using %s%d::m;' % (base, n))
            for t in own:
                out.append('virtual int m(%s)%s { note("%s::%s"); return %d; }' % (SETS[t][0], ' const' if SETS[t][1] else '', cls, t, ord(cls)))
            out.append('};')
        for i, t in enumerate(pair):
            out.append('inline int call%d_%d(A%d %s&o) { K k; return o.m(%s); }' % (n, i, n, 'const ' if SETS[t][1] else '', SETS[t][3]))
    return '\n'.join(out)


def sets_gen(first):
    def gen(mod):
        from pybindgen import param, retval
        mod.add_function('takelog', retval('std::string'), [])
        K = mod.add_class('K')
        K.add_constructor([])
        K.add_copy_constructor()
        K.add_instance_attribute('v', 'int')
        for n, pair in enumerate(sets_of(first)):
            cl = {}
            for cls, base, own in [('A', None, pair), ('B', 'A', pair[:1]), ('C', 'A', pair[1:]), ('D', 'B', pair[1:])]:
                c = cl[cls] = mod.add_class('%s%d' % (cls, n), parent=cl.get(base), allow_subclassing=True)
                c.add_constructor([])
                for t in own:
                    ps = [param(ty, 'x%d' % i, **({'transfer_ownership': False} if '*' in ty else {'direction': 1} if '&' in ty else {}))
                          for i, ty in enumerate(SETS[t][2])]
                    c.add_method('m', 'int', ps, is_virtual=True, is_const=SETS[t][1])
            for i, t in enumerate(pair):
                mod.add_function('call%d_%d' % (n, i), 'int', [param('const A%d &' % n if SETS[t][1] else 'A%d &' % n, 'o', direction=1)])
    return gen


def sets_explore(first):
    def explore(M, x):
        hook = Hook()
        want_args = {'v': (), 'vc': (), 'i': (5,), 'ic': (5,), 'd': (1.5,), 'dc': (1.5,), 'ii': (5, 6), 's': ('q',)}

        def one(n, pair, cls, kind):
            W = getattr(M, '%s%d' % (cls, n))
            seen = []

            def m(self, *args):
                seen.append(args)
                if kind == 'raise':
                    raise Boom()
                if kind == 'wrong':
                    return 'x'
                return 7
            o = W() if kind == 'plain' else type('P', (W,), {} if kind == 'none' else {'m': m})()
            for i in (0, 1, 0):
                t = pair[i]
                top = {'A': 'A', 'B': 'BA'[i], 'C': 'AC'[i], 'D': 'BD'[i]}[cls]
                del seen[:]
                M.takelog(); hook.take()
                x.step()
                x.state((first, pair, cls, kind, i))
                got = getattr(M, 'call%d_%d' % (n, i))(o)
                log = M.takelog()
                if kind == 'ret':
                    x.eq((got, log, len(hook.take())), (7, '', 0), '%s of %s' % (t, cls))
                else:
                    x.eq((got, log, len(hook.take())), (ord(top), '%s::%s' % (top, t), 1 if kind in ('raise', 'wrong') else 0), '%s of %s' % (t, cls))
                if kind in ('none', 'plain'):
                    x.eq(seen, [], 'calls')
                else:
                    x.eq(len(seen), 1, 'calls of the override')
                    if t in want_args:
                        x.eq((seen[0], [type(a) for a in seen[0]]), (want_args[t], [type(a) for a in want_args[t]]), 'arguments')
                    else:
                        x.eq([type(a) for a in seen[0]], [M.K], 'arguments')
                        x.eq(seen[0][0].v, 3, 'value')
        for n, pair in enumerate(sets_of(first)):
            for cls in 'ABCD':
                for kind in ('plain', 'none', 'ret', 'raise', 'wrong'):
                    x.run('%s %s %s' % (' '.join(pair), cls, kind), one, n, pair, cls, kind)
    return explore


# Python objects as arguments and results: what they contain is their own business
OBJ = r'''
#include <Python.h>
struct Obj {
    Track t; virtual ~Obj() {}
    virtual int none() { t.use(); return -1; }
    virtual int one(PyObject *a) { t.use(); return -2; }
    virtual int own(PyObject *a) { t.use(); Py_DECREF(a); return -2; }
    virtual int two(PyObject *a, PyObject *b) { t.use(); return -3; }
    virtual int mixed(int i, PyObject *a) { t.use(); return -4; }
    virtual PyObject *echo(PyObject *a) { t.use(); Py_INCREF(a); return a; }
    virtual PyObject *lend(PyObject *a) const { t.use(); return a; }
};
inline int call_none(Obj *o) { return o->none(); }
inline int call_one(Obj *o, PyObject *a) { return o->one(a); }
inline int call_own(Obj *o, PyObject *a) { return o->own(a); }
inline int call_two(Obj *o, PyObject *a, PyObject *b) { return o->two(a, b); }
inline int call_mixed(Obj *o, int i, PyObject *a) { return o->mixed(i, a); }
inline PyObject *call_echo(Obj *o, PyObject *a) { return o->echo(a); }
inline PyObject *call_lend(Obj *o, PyObject *a) { return o->lend(a); }
'''
OBJ_METHODS = [('none', 'int', [], 0), ('one', 'int', ['o'], 0), ('own', 'int', ['own'], 0), ('two', 'int', ['o', 'o'], 0), ('mixed', 'int', ['i', 'o'], 0),
               ('echo', 'PyObject *', ['o'], True), ('lend', 'PyObject *', ['o'], False)]


def gen_objects(mod):
    from pybindgen import param, retval
    k = mod.add_class('Obj', allow_subclassing=True)
    k.add_constructor([])
    for name, ret, params, owns in OBJ_METHODS:
        ps = lambda: [param('int', 'p%d' % i) if p == 'i' else param('PyObject *', 'p%d' % i, transfer_ownership=p == 'own') for i, p in enumerate(params)]
        rv = lambda: 'int' if ret == 'int' else retval(ret, caller_owns_return=owns)
        k.add_method(name, rv(), ps(), is_virtual=True, is_const=name == 'lend')
        mod.add_function('call_' + name, rv(), [param('Obj *', 'o', transfer_ownership=False)] + ps())


def explore_objects(M, x):
    import itertools
    import sys

    class Tup(tuple):
        pass
    values = [lambda: (), lambda: (object(),), lambda: (1, object()), lambda: ((object(), 2),), lambda: ((),), lambda: Tup((1, 2)), lambda: [object()], lambda: [], lambda: {'a': 1},
              lambda: None, lambda: object(), lambda: 'text', lambda: M.Obj(), lambda: Tup()]

    def one(name, ret, params, makers, level, how):
        log = []

        class P(M.Obj):
            pass

        def override(self, *args, **kw):
            log.append((args, kw))
            if ret != 'int':
                return args[0] if level != 'base' else getattr(M.Obj, name)(self, *args)
            return 40 + len(args) if level != 'base' else getattr(M.Obj, name)(self, *args)
        if level != 'none':
            setattr(P, name, override)
        if level == 'below':
            class P(P):
                pass
        obj = P()
        its = iter(makers)
        args = [5 if p == 'i' else next(its)() for p in params]
        probe = [a for a in args if a is not None and a != () and a != 5 and type(a) is not str]
        before = [sys.getrefcount(a) for a in probe]
        f = getattr(M, 'call_' + name)
        got = f(obj, *args) if how == 'c++' else getattr(obj, name)(*args)
        x.step(2)
        want_calls = 0 if level == 'none' else 1
        x.eq(len(log), want_calls, 'number of times that the override ran')
        for a, kw in log:
            assert len(a) == len(args) and all(g is w for g, w in zip(a, args)) and not kw, 'the override of %s was given %r %r, not %r' % (name, a, kw, args)
        log[:] = []
        base = {'none': -1, 'one': -2, 'own': -2, 'two': -3, 'mixed': -4}
        if ret != 'int':
            assert got is args[0], '%r came back, not %r' % (got, args[0])
        else:
            x.eq(got, base[name] if level in ('none', 'base') else 40 + len(args))
        a = kw = got = None
        x.eq([sys.getrefcount(a) for a in probe], before, 'references')
    for name, ret, params, owns in OBJ_METHODS:
        n = len([p for p in params if p != 'i'])
        for combo in itertools.product(range(len(values)), repeat=n):
            for level in ('none', 'own', 'below', 'base'):
                for how in ('c++', 'python'):
                    x.state((name, combo, level))
                    x.run('%s%r %s %s' % (name, combo, level, how), one, name, ret, params, [values[i] for i in combo], level, how)


def scenarios(tier):
    return [Scenario('objects', OBJ, gen_objects, explore_objects), Scenario('single', SINGLE, gen_single, explore_single, shards=4),
            Scenario('patch', SINGLE, gen_single, explore_patch, shards=4 if tier == 'quick' else 8),
            Scenario('pure', PURE, gen_pure, explore_pure),
            Scenario('mi', MI, gen_mi, explore_mi, shards=2),
            Scenario('overloaded', OVER, gen_over, explore_over),
            Scenario('private', PRIV, gen_priv, explore_priv)] + [
                Scenario('sets_' + t, sets_header(t), sets_gen(t), sets_explore(t)) for t in SETS]
