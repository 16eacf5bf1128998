"""C33: the objects that Python creates are made by the declared creation function and completed once."""
import copy
import gc
import itertools
from pbmc import Scenario
from pbmc.explore import explore_model

LEVEL = 'model_checking'
RULE = ('every sequence of operations that create an object (constructors, second initialisation, copies by each route, arguments and results of overrides, failing constructors) over two slots, for each way '
        'of declaring the creation and post-creation functions; every placement of the functions and of helper class hooks in a chain of three classes and over two bases; after every operation each '
        'object tells which function made and completed it, how often, in which order, and what its virtual method answered then')
BOUNDS = {'quick': '6 kinds of class x 6 placements of the functions; sequences of two operations and every edge of the model; 64 chains of three classes, and every choice over two bases; every set of constructors of a base x derived class',
          'thorough': 'sequences of three operations; the same again under AddressSanitizer'}
ASSUMPTIONS = ['the creation function assigns a new object of the given type to the given expression, as its documentation shows; objects created by C++ code are not subject to it']

HDR = r'''
#include <vector>
#include <memory>
#include <stdexcept>
inline long *counters() { static long c[4]; return c; }   // made, completed, out of order, without the lock
struct Obs {
    Track t; int v, made, tag, done, dtag, told, rc; bool strict;
    Obs(int v_ = 0) : v(v_), made(0), tag(0), done(0), dtag(0), told(0), rc(1), strict(false) { if (v_ < 0) throw std::runtime_error("negative"); }
    Obs(Obs const &o) : t(o.t), v(o.v), made(0), tag(0), done(0), dtag(0), told(0), rc(1), strict(false) {}
    Obs &operator=(Obs const &o) { t = o.t; v = o.v; return *this; }
    ~Obs() { if (strict && made != done) counters()[2]++; }
};
// what the declared functions do; `both` is set when a class has both of them
template <int T, bool both, class X> X *make_it(X *p) {
    if (p->made || p->done) counters()[2]++;
    p->strict = both; p->made++; p->tag = T; counters()[0]++; return p;
}
template <int T, bool both, class X> void complete_it(X *p) {
    if (!PyGILState_Check()) counters()[3]++;
    if (p->done || (both && !p->made)) counters()[2]++;
    p->done++; p->dtag = T; p->told = p->tell(); counters()[1]++;
}
inline long count_made() { return counters()[0]; }
inline long count_done() { return counters()[1]; }
inline long misordered() { return counters()[2]; }
inline long unlocked() { return counters()[3]; }
#define BASE(B) struct B : Obs { B(int v_ = 0) : Obs(v_) {} virtual ~B() {} virtual int tell() const { return v; } \
    void ref() { rc++; } void unref() { if (!--rc) delete this; } };
#define KIND(B, K, H) \
    BASE(B) \
    struct K : B { K(int v_ = 0) : B(v_) {} K(int a, int b) : B(a + b) {} K dup() const { t.use(); return *this; } int get() const { t.use(); return v; } \
        virtual int tell() const { return v; } static void *operator new(size_t n) { return malloc(n); } static void operator delete(void *) {} }; \
    struct H { K k; K get() const { return k; } void set(K const &o) { k = o; } }; \
    inline int K##_v(K const &k) { k.t.use(); return k.v; } \
    inline int K##_made(K const &k) { return k.made; } inline int K##_tag(K const &k) { return k.tag; } \
    inline int K##_done(K const &k) { return k.done; } inline int K##_dtag(K const &k) { return k.dtag; } \
    inline int K##_told(K const &k) { return k.told; } inline int K##_call(K const &k) { return k.tell(); } \
    inline bool K##_same(K const &a, K const &b) { return &a == &b; } \
    inline K K##_val(K k) { return k; } \
    inline K const &K##_cref(K const &k) { static K *last = new K; *last = k; return *last; } \
    inline void K##_out(K &out, K const &k) { out = k; }
#define RAW(K) inline K *K##_raw(K const &k) { return new K(k); } inline K *K##_lend(K const &k) { static K *own = new K; *own = k; return own; } \
    inline K *K##_ptr(K const &k) { static K *last = new K; *last = k; return last; } inline K *K##_fac(K const &k) { return new K(k); }
#define ECHO(K) struct K##Echo { virtual ~K##Echo() {} virtual K val(K k) { return k; } virtual K cref(K const &k) { return k; } virtual K inout(K &k) { return k; } virtual K ptr(K *k) { return *k; } \
        virtual K *own(int) { return NULL; } }; \
    inline K K##_eval(K##Echo *e, K const &k) { return e->val(k); } \
    inline K K##_ecref(K##Echo *e, K const &k) { return e->cref(k); } \
    inline K K##_einout(K##Echo *e, K const &k) { K c(k); return e->inout(c); } \
    inline K K##_eptr(K##Echo *e, K const &k) { static K *c = new K; *c = k; return e->ptr(c); } \
    inline K *K##_eown(K##Echo *e, int i) { return e->own(i); }
#define VEC(K) inline std::vector<K> K##_vec(std::vector<K> const &v) { return v; }
'''

KINDS = ['plain', 'sub', 'narrow', 'ref', 'rsub', 'shared']
# which class the creation and the post-creation function are declared on (1 the base, 2 the class), and so which apply
PLACES = {'own': ((2,), (2,)), 'inh': ((1,), (1,)), 'near': ((1, 2), (1, 2)), 'made': ((2,), ()), 'done': ((), (1,)), 'split': ((1,), (2,))}


def places(kind):
    # a class held by a shared pointer has a policy of its own
    return {'own': ((2,), (2,)), 'made': ((2,), ()), 'done': ((), (2,))} if kind == 'shared' else PLACES


def near(which):
    return max(which) if which else 0


def subclassed(kind):
    return kind in ('sub', 'narrow', 'rsub')


def names(kind, place):
    s = '%s_%s' % (kind, place)
    return 'B_' + s, 'K_' + s, 'H_' + s


def routes(kind):
    out = ['cc', 'copy', 'val', 'cref', 'dup', 'attr', 'meth', 'vec', 'again']
    if kind not in ('ref', 'rsub', 'shared'):
        out += ['out', 'raw', 'lend', 'ptr', 'fac']
    if subclassed(kind):
        out += ['pcc', 'eval', 'ecref', 'einout']
        if kind != 'rsub':
            out += ['eown', 'eptr']
    return out


def creator(tag, both, shared):
    def create(cpp_class, code_block, lvalue, parameters, construct_type_name):
        new = 'make_it<%d, %s>(new %s(%s))' % (tag, 'true' if both else 'false', construct_type_name, parameters)
        code_block.write_code(('%s.reset(%s);' if shared else '%s = %s;') % (lvalue, new))
    return create


def completer(tag, both):
    def complete(cpp_class, code_block, lvalue, parameters, construct_type_name):
        code_block.write_code('complete_it<%d, %s>(&*(%s));' % (tag, 'true' if both else 'false', lvalue))
    return complete


def route_header(kind):
    out = [HDR]
    for place in sorted(places(kind)):
        B, K, H = names(kind, place)
        out.append('KIND(%s, %s, %s) VEC(%s)' % (B, K, H, K))
        if kind not in ('ref', 'rsub', 'shared'):
            out.append('RAW(%s)' % K)
        if subclassed(kind):
            out.append('ECHO(%s)' % K)
    return '\n'.join(out)


def counters(mod):
    for f in ('count_made', 'count_done', 'misordered', 'unlocked', 'pbmc_live', 'pbmc_bad'):
        mod.add_function(f, 'long', [])


def make_route_gen(kind):
    def gen(mod):
        from pybindgen import param, retval, cppclass
        from pybindgen.typehandlers.smart_ptr import StdSharedPtr
        counters(mod)
        exc = mod.add_exception('runtime_error', foreign_cpp_namespace='std', message_rvalue='%(EXC)s.what()')
        for place in sorted(places(kind)):
            B, K, H = names(kind, place)
            made, done = places(kind)[place]
            both = bool(made and done)
            sub = subclassed(kind)
            kw = {'allow_subclassing': sub}
            if kind == 'narrow':
                kw['automatic_type_narrowing'] = True
            kwb, kwk = dict(kw), dict(kw)
            if kind in ('ref', 'rsub'):
                kwb['memory_policy'] = cppclass.ReferenceCountingMethodsPolicy(incref_method='ref', decref_method='unref')
            if kind == 'shared':
                kwk['memory_policy'] = StdSharedPtr(K)
            b = mod.add_class(B, **kwb)
            b.add_constructor([])
            if sub:
                b.add_method('tell', 'int', [], is_virtual=True, is_const=True)
            k = mod.add_class(K, **(kwk if kind == 'shared' else dict(kwk, parent=b)))
            for n, c in ((1, b), (2, k)):
                if n in made:
                    c.set_instance_creation_function(creator(n, both, kind == 'shared'))
                if n in done:
                    c.set_post_instance_creation_function(completer(n, both))
            k.add_constructor([], throw=[exc])
            k.add_constructor([param('int', 'v')], throw=[exc])
            k.add_constructor([param('int', 'a'), param('int', 'b')], throw=[exc], unblock_threads=True)
            k.add_copy_constructor()
            k.add_method('dup', K, [], is_const=True)
            k.add_method('get', 'int', [], is_const=True)
            if sub:
                k.add_method('tell', 'int', [], is_virtual=True, is_const=True)
            for f in ('v', 'made', 'tag', 'done', 'dtag', 'told', 'call'):
                mod.add_function('%s_%s' % (K, f), 'int', [param(K + ' const &', 'k')])
            mod.add_function(K + '_same', 'bool', [param(K + ' const &', 'a'), param(K + ' const &', 'b')])
            mod.add_function(K + '_val', K, [param(K, 'k')])
            mod.add_function(K + '_cref', K + ' const &', [param(K + ' const &', 'k')])
            if 'out' in routes(kind):
                mod.add_function(K + '_out', None, [param(K + ' &', 'out', direction=2), param(K + ' const &', 'k')])
                mod.add_function(K + '_raw', retval(K + ' *', caller_owns_return=True), [param(K + ' const &', 'k')])
                mod.add_function(K + '_ptr', retval(K + ' *', caller_owns_return=False), [param(K + ' const &', 'k')])
                mod.add_function(K + '_fac', retval(K + ' *', free_after_copy=True), [param(K + ' const &', 'k')])
                mod.add_function(K + '_lend', retval(K + ' *', reference_existing_object=True), [param(K + ' const &', 'k')])
            mod.add_container('std::vector< %s >' % K, K, 'vector')
            mod.add_function(K + '_vec', 'std::vector< %s >' % K, [param('std::vector< %s > const &' % K, 'v')])
            h = mod.add_class(H)
            h.add_constructor([])
            h.add_method('get', K, [], is_const=True)
            h.add_method('set', None, [param(K + ' const &', 'o')])
            h.add_instance_attribute('k', K)
            if sub:
                e = mod.add_class(K + 'Echo', allow_subclassing=True)
                e.add_constructor([])
                e.add_method('val', K, [param(K, 'k')], is_virtual=True)
                e.add_method('cref', K, [param(K + ' const &', 'k')], is_virtual=True)
                e.add_method('inout', K, [param(K + ' &', 'k', direction=3)], is_virtual=True)
                for f in ('val', 'cref', 'inout'):
                    mod.add_function('%s_e%s' % (K, f), K, [param(K + 'Echo *', 'e', transfer_ownership=False), param(K + ' const &', 'k')])
                if 'eown' in routes(kind):
                    e.add_method('ptr', K, [param(K + ' *', 'k', transfer_ownership=False)], is_virtual=True)
                    mod.add_function(K + '_eptr', K, [param(K + 'Echo *', 'e', transfer_ownership=False), param(K + ' const &', 'k')])
                    e.add_method('own', retval(K + ' *', caller_owns_return=True), [param('int', 'i')], is_virtual=True)
                    mod.add_function(K + '_eown', retval(K + ' *', caller_owns_return=True), [param(K + 'Echo *', 'e', transfer_ownership=False), param('int', 'i')])
    return gen


class Model(object):
    """a slot is None or (type, v, made, tag, done, dtag, told)"""
    def __init__(self, kind, place):
        self.kind, self.place = kind, place
        self.sub = subclassed(kind)
        made, done = places(kind)[place]
        self.tag, self.dtag = near(made), near(done)
        self.routes = routes(kind)

    def init(self):
        return (None, None)

    def ops(self, state):
        out = []
        for i, s in enumerate(state):
            if i and state[0] is None:
                continue
            for t in 'KP' if self.sub else 'K':
                for n in (0, 1, 2, 'fail', 'fail2'):
                    out.append(('new', t, n, i))
            if s is not None:
                for r in self.routes:
                    if r in ('lend', ) and i:
                        continue
                    out.append(('copy', r, i, 1 - i))
                out.append(('drop', i))
        return out

    def obj(self, t, v, r=None):
        told = 0
        if self.dtag:
            told = 1000 + v if t == 'P' else 0 if r == 'out' else v     # an output parameter is completed before the call
        return (t, v, int(self.tag > 0), self.tag, int(self.dtag > 0), self.dtag, told)

    def step(self, state, op):
        st = list(state)
        if op[0] == 'new':
            if op[2] in (0, 1, 2):
                st[op[3]] = self.obj(op[1], (0, 5, 7)[op[2]])
        elif op[0] == 'drop':
            st[op[1]] = None
        else:
            _, r, i, j = op
            t, v = st[i][:2]
            if r == 'again':
                st[i] = self.obj(t, 5)
            elif r in ('raw', 'lend'):
                st[j] = ('K', v, 0, 0, 0, 0, 0)
            else:
                st[j] = self.obj('P' if r == 'pcc' else 'K', v, r)
        return tuple(st), self.observe(tuple(st))

    def observe(self, st):
        return tuple(None if s is None else s + (1000 + s[1] if s[0] == 'P' else s[1],) for s in st) + (0, 0, 0, True)


def make_impl(M, kind, place):
    _, kn, hn = names(kind, place)
    K, H = getattr(M, kn), getattr(M, hn)
    sub = subclassed(kind)
    f = lambda n: getattr(M, '%s_%s' % (kn, n))
    P = echo = None
    kept = []
    if sub:
        class P(K):
            def tell(self):
                return 1000 + self.get()

        class Echo(getattr(M, kn + 'Echo')):
            def val(self, k):
                kept.append(k)
                return k
            cref = val
            inout = val
            ptr = val

            def own(self, i):
                return kept[0]
        echo = Echo()
    f('cref')(K())
    if 'lend' in routes(kind):
        f('lend')(K())
        f('ptr')(K())
    if 'eptr' in routes(kind):
        f('eptr')(echo, K())
        del kept[:]
    gc.collect()
    both = all(places(kind)[place])
    base = [M.misordered(), M.unlocked(), M.pbmc_live()]

    class Impl(object):
        def __init__(self):
            self.o = [None, None]
            M.pbmc_bad()

        def route(self, r, k):
            if r == 'cc':
                return K(k)
            if r == 'pcc':
                return P(k)
            if r == 'copy':
                return copy.copy(k)
            if r == 'dup':
                return k.dup()
            if r == 'vec':
                return list(f('vec')([k]))[0]
            if r == 'attr':
                h = H()
                h.k = k
                return h.k
            if r == 'meth':
                h = H()
                h.set(k)
                return h.get()
            if r == 'out':
                return f('out')(k)
            if r == 'eown':
                kept.append(k)
                return f('eown')(echo, 3)
            if r[0] == 'e':
                # what the override got and kept is a copy too
                res = f(r)(echo, k)
                assert self.tell(kept[0])[1:] == self.tell(res)[1:], 'the argument of the override: %r, its result: %r' % (self.tell(kept[0]), self.tell(res))
                assert not f('same')(kept[0], res)
                return res
            return f(r)(k)

        def do(self, op):
            o = self.o
            was = M.count_made(), M.count_done()
            if op[0] == 'new':
                args = {0: (), 1: (5,), 2: (3, 4), 'fail': (-1,), 'fail2': (-2, 1)}[op[2]]
                try:
                    new = (P if op[1] == 'P' else K)(*args)
                except M.runtime_error:
                    assert op[2] in ('fail', 'fail2')
                    assert was == (M.count_made(), M.count_done()), 'a function ran for an object that could not be constructed'
                else:
                    assert op[2] in (0, 1, 2)
                    o[op[3]] = new
                    new = None
            elif op[0] == 'drop':
                o[op[1]] = None
            elif op[1] == 'again':
                o[op[2]].__init__(5)
            else:
                src = o[op[2]]
                new = self.route(op[1], src)
                del kept[:]
                assert new is not src
                assert not f('same')(new, src), 'the copy shares the C++ object'
                o[op[3]] = src = None
                o[op[3]] = new
                new = None
            if P is not None:
                gc.collect()
            if both:
                assert M.count_made() - was[0] == M.count_done() - was[1], 'objects made: %d, completed: %d' % (M.count_made() - was[0], M.count_done() - was[1])
            return self.observe()

        def tell(self, k):
            t = {K: 'K', P: 'P'}.get(type(k), type(k).__name__)
            return (t,) + tuple(f(n)(k) for n in ('v', 'made', 'tag', 'done', 'dtag', 'told', 'call'))

        def observe(self):
            return tuple(None if k is None else self.tell(k) for k in self.o) + (M.misordered() - base[0], M.unlocked() - base[1], M.pbmc_bad(), True)

        def end(self, state):
            self.o = [None, None]
            gc.collect()
            assert M.pbmc_live() == base[2], '%d C++ objects left behind' % (M.pbmc_live() - base[2])
            assert M.misordered() == base[0], 'an object was destroyed that was made but never completed, or the other way round'
    return Impl


def make_route_explore(kind, depth):
    def explore(M, x):
        gc.collect()
        gc.freeze()
        gc.disable()
        for place in sorted(places(kind)):
            explore_model(x, Model(kind, place), make_impl(M, kind, place), depth, label='%s %s' % (kind, place))
    return explore


# -- 2: where the functions and the hooks are declared
SETS = [s for n in range(4) for s in itertools.combinations((1, 2, 3), n)]


def chains(part):
    """(number, creation functions, post-creation functions, helper class hooks)"""
    out = []
    for i, (a, b) in enumerate(itertools.product(SETS, SETS)):
        if i % 4 == part:
            out.append((i, a, b, SETS[(i // 8 + 3 * i) % 8]))
    return out


def chain_header(part):
    out = [HDR]
    for i, made, done, hooks in chains(part):
        out.append('''
struct A%(i)d : Obs { A%(i)d(int v_ = 0) : Obs(v_) {} virtual ~A%(i)d() {} virtual int tell() const { return v; } virtual int mark1() { return 0; } virtual int mark2() { return 0; } virtual int mark3() { return 0; } };
struct B%(i)d : A%(i)d { B%(i)d(int v_ = 0) : A%(i)d(v_) {} };
struct C%(i)d : B%(i)d { C%(i)d(int v_ = 0) : B%(i)d(v_) {} };
inline int tags%(i)d(A%(i)d &a) { return 10000 * a.made + 1000 * a.tag + 100 * a.done + 10 * a.dtag + (a.told - a.tell()); }
inline int marks%(i)d(A%(i)d &a) { return 100 * a.mark1() + 10 * a.mark2() + a.mark3(); }''' % dict(i=i))
    return '\n'.join(out)


def make_chain_gen(part):
    def gen(mod):
        from pybindgen import param
        counters(mod)
        for i, made, done, hooks in chains(part):
            prev = None
            for n, c in enumerate('ABC', 1):
                k = mod.add_class('%s%d' % (c, i), **(dict(parent=prev) if prev else dict(allow_subclassing=True)))
                k.add_constructor([])
                k.add_constructor([param('int', 'v')])
                k.add_copy_constructor()
                if n == 1:
                    k.add_method('tell', 'int', [], is_virtual=True, is_const=True)
                if n in made:
                    k.set_instance_creation_function(creator(n, False, False))
                if n in done:
                    k.set_post_instance_creation_function(completer(n, False))
                if n in hooks:
                    def hook(helper, n=n):
                        helper.pbmc_hooks = getattr(helper, 'pbmc_hooks', 0) + 1
                        helper.add_custom_method('virtual int mark%d();' % n, 'int %s::mark%d() { return %d; }' % (helper.name, n, helper.pbmc_hooks))
                    k.add_helper_class_hook(hook)
                prev = k
            mod.add_function('tags%d' % i, 'int', [param('A%d &' % i, 'a')])
            mod.add_function('marks%d' % i, 'int', [param('A%d &' % i, 'a')])
    return gen


def explore_chains(part):
    def explore(M, x):
        for i, made, done, hooks in chains(part):
            for n, c in enumerate('ABC', 1):
                K = getattr(M, '%s%d' % (c, i))

                class P(K):
                    def tell(self):
                        return 1000
                for how, make in (('()', lambda T: T()), ('(3)', lambda T: T(3)), ('copy constructor', lambda T: T(K(4))), ('copy.copy', lambda T: copy.copy(K(5)) if T is K else None)):
                    for T in (K, P):
                        k = None
                        if not x.case('functions made %s completed %s hooks %s: %s%s %s' % (made, done, hooks, c, ' subclass' if T is P else '', how)):
                            continue
                        k = make(T)
                        if k is None:
                            continue
                        m, d = near([q for q in made if q <= n]), near([q for q in done if q <= n])
                        want = 10000 * (m > 0) + 1000 * m + 100 * (d > 0) + 10 * d
                        if not d:
                            want -= 1000 if T is P else k_value(how)
                        x.eq(getattr(M, 'tags%d' % i)(k), want, 'made, by, completed, by, told')
                        marks = [0, 0, 0]
                        if T is P:
                            order = [q for q in hooks if q <= n]
                            for pos, q in enumerate(order, 1):
                                marks[q - 1] = pos
                        x.eq(getattr(M, 'marks%d' % i)(k), 100 * marks[0] + 10 * marks[1] + marks[2], 'methods that the hooks added')
                        x.step()
                        x.eq(M.unlocked(), 0, 'without the lock')
    return explore


def k_value(how):
    return {'()': 0, '(3)': 3, 'copy constructor': 4, 'copy.copy': 5}[how]


# -- 3: two bases
BASES = list(itertools.product((False, True), (False, True), (False, True), (False, True)))     # A, B, the common base, the class itself


def bases_header(_=None):
    out = [HDR]
    for i, (a, b, r, c) in enumerate(BASES):
        for d in (0, 1):
            q = '%d_%d' % (i, d)
            out.append('''
struct R%(q)s : Obs { R%(q)s(int v_ = 0) : Obs(v_) {} virtual ~R%(q)s() {} virtual int tell() const { return v; } virtual int markR() { return 0; } };
struct A%(q)s%(pa)s { virtual ~A%(q)s() {} virtual int fa() const { return 1; } virtual int markA() { return 0; } };
struct B%(q)s : %(v)sR%(q)s { B%(q)s(int v_ = 0) : R%(q)s(v_) {} virtual int fb() const { return 2; } virtual int markB() { return 0; } };
struct C%(q)s : A%(q)s, B%(q)s { C%(q)s(int v_ = 0) : %(init)s {} };
inline int tags%(q)s(C%(q)s &a) { return 10000 * a.made + 1000 * a.tag + 100 * a.done + 10 * a.dtag; }
inline int marks%(q)s(C%(q)s &a) { return 100 * a.markR() + 10 * a.markA() + a.markB(); }''' % dict(
                q=q, pa=' : virtual R%s' % q if d else '', v='virtual ' if d else '', init='R%s(v_), B%s(v_)' % (q, q) if d else 'B%s(v_)' % q))
    return '\n'.join(out)


def gen_bases(mod):
    from pybindgen import param
    counters(mod)
    for i, on in enumerate(BASES):
        for d in (0, 1):
            q = '%d_%d' % (i, d)
            R = mod.add_class('R' + q, allow_subclassing=True)
            R.add_method('tell', 'int', [], is_virtual=True, is_const=True)
            A = mod.add_class('A' + q, **(dict(parent=R) if d else dict(allow_subclassing=True)))
            A.add_method('fa', 'int', [], is_virtual=True, is_const=True)
            B = mod.add_class('B' + q, parent=R)
            B.add_method('fb', 'int', [], is_virtual=True, is_const=True)
            C = mod.add_class('C' + q, parent=[A, B])
            for K in (A, B, R, C):
                K.add_constructor([])
                K.add_copy_constructor()
            for n, (K, use) in enumerate(zip((A, B, R, C), (on[0] and d, on[1], on[2], on[3])), 1):
                if use:
                    K.set_instance_creation_function(creator(n, False, False))
                    K.set_post_instance_creation_function(completer(n, False))
            for K, n in ((R, 'R'), (A, 'A'), (B, 'B')):
                def hook(helper, n=n):
                    helper.pbmc_hooks = getattr(helper, 'pbmc_hooks', 0) + 1
                    if n in getattr(helper, 'pbmc_seen', ''):
                        return      # twice: the numbers tell
                    helper.pbmc_seen = getattr(helper, 'pbmc_seen', '') + n
                    helper.add_custom_method('virtual int mark%s();' % n, 'int %s::mark%s() { return %d; }' % (helper.name, n, helper.pbmc_hooks))
                K.add_helper_class_hook(hook)
            mod.add_function('tags' + q, 'int', [param('C%s &' % q, 'a')])
            mod.add_function('marks' + q, 'int', [param('C%s &' % q, 'a')])


def explore_bases(M, x):
    for i, on in enumerate(BASES):
        for d in (0, 1):
            q = '%d_%d' % (i, d)
            C = getattr(M, 'C' + q)

            class P(C):
                pass
            for how, make in (('()', lambda T: T()), ('copy constructor', lambda T: T(C())), ('copy.copy', lambda T: copy.copy(C()))):
                for T in (C, P):
                    if how == 'copy.copy' and T is P or not x.case('two bases%s, functions on %s: %s%s' % (
                            ' of one class' if d else '', ' '.join(n for n, o in zip(('first', 'second', 'root', 'class'), on) if o), 'subclass ' if T is P else '', how)):
                        continue
                    k = make(T)
                    # the nearest class in the order of the bases
                    tag = 4 if on[3] else 1 if on[0] and d else 2 if on[1] else 3 if on[2] else 0
                    x.eq(getattr(M, 'tags' + q)(k), 10000 + 1000 * tag + 100 + 10 * tag if tag else 0, 'made, by, completed, by')
                    marks = getattr(M, 'marks' + q)(k)
                    got = (marks // 100, marks // 10 % 10, marks % 10)
                    if T is C:
                        x.eq(got, (0, 0, 0), 'methods of the hooks')
                    else:
                        x.check(sorted(got) == [1, 2, 3], 'the hooks of the three bases ran as number %r' % (got,))
                        x.check(got[0] < got[2] and (not d or got[0] < got[1]), 'a hook of a base ran after that of a class derived from it: %r' % (got,))
                    x.step()


# -- 4: inherited default constructors
CTORS = [c for n in range(4) for c in itertools.combinations(('default', 'copy', 'int'), n) if c]
VIS = ('public', 'protected')


def inherit_header(_=None):
    out = ['#include <vector>']
    for i, (c, vis) in enumerate(itertools.product(CTORS, VIS)):
        for s in (0, 1):
            q = '%d_%d' % (i, s)
            out.append('struct B%s { Track t; int v; struct Tag {}; B%s(Tag *, Tag *) : v(50) {} virtual ~B%s() {} virtual int tell() const { return v; }' % (q, q, q))
            out.append('%s:' % vis)
            if 'default' in c:
                out.append('B%s() : v(1) {}' % q)
            if 'int' in c:
                out.append('explicit B%s(int v_) : v(v_) {}' % q)
            if 'copy' in c:
                out.append('B%s(B%s const &o) : t(o.t), v(o.v) {}' % (q, q))
            else:
                out.append('private: B%s(B%s const &);' % (q, q))
            out.append('};')
            out.append('struct D%s : B%s { friend D%s *get%s(); %s: explicit D%s(char const *) : B%s((B%s::Tag *) 0, (B%s::Tag *) 0) {} ' % (q, q, q, q, 'public', q, q, q, q))
            out.append('%s:' % vis)
            if 'default' in c:
                out.append('D%s() {}' % q)
            if 'copy' in c:
                out.append('D%s(D%s const &o) : B%s(o) {}' % (q, q, q))
            out.append('};')
            out.append('inline D%s *get%s() { static D%s *k = new D%s("x"); return k; }' % (q, q, q, q))
    return '\n'.join(out)


def gen_inherit(mod):
    from pybindgen import param, retval
    for f in ('pbmc_live', 'pbmc_bad'):
        mod.add_function(f, 'long', [])
    for i, (c, vis) in enumerate(itertools.product(CTORS, VIS)):
        for s in (0, 1):
            q = '%d_%d' % (i, s)
            B = mod.add_class('B' + q, allow_subclassing=bool(s))
            if 'default' in c:
                B.add_constructor([], visibility=vis)
            if 'int' in c:
                B.add_constructor([param('int', 'v')], visibility=vis)
            if 'copy' in c:
                if vis == 'public':
                    B.add_copy_constructor()
                else:
                    B.add_constructor([param('B%s const &' % q, 'o')], visibility=vis)
            B.add_method('tell', 'int', [], is_virtual=True, is_const=True)
            D = mod.add_class('D' + q, parent=B)
            D.inherit_default_constructors()
            mod.add_function('get' + q, retval('D%s *' % q, reference_existing_object=True), [])


def explore_inherit(M, x):
    for i, (c, vis) in enumerate(itertools.product(CTORS, VIS)):
        for s in (0, 1):
            q = '%d_%d' % (i, s)
            D, get = getattr(M, 'D' + q), getattr(M, 'get' + q)

            P = None
            if s:
                class P(D):
                    pass
            for T in (D, P) if s else (D,):
                for how, args in (('default', lambda: ()), ('copy', lambda: (get(),)), ('int', lambda: (3,)), ('two', lambda: (1, 2))):
                    if not x.case('base with %s %s constructors%s: %s%s' % (vis, ' '.join(c), ', subclassing' if s else '', 'subclass ' if T is P else '', how)):
                        continue
                    # protected ones only serve subclasses
                    ok = how in c and how in ('default', 'copy') and (vis == 'public' or T is P)
                    get()
                    gc.collect()
                    live = M.pbmc_live()
                    try:
                        k = T(*args())
                    except TypeError:
                        x.check(not ok, 'cannot be constructed')
                    else:
                        x.check(ok, 'could be constructed')
                        x.eq(k.tell(), {'default': 1, 'copy': 50}.get(how), 'value')
                        k = None
                    gc.collect()
                    x.eq((M.pbmc_live() - live, M.pbmc_bad()), (0, 0), 'objects left, misused')
                    x.step()


def scenarios(tier):
    thorough = tier == 'thorough'
    out = []
    for kind in KINDS:
        out.append(Scenario('route_' + kind, route_header(kind), make_route_gen(kind), make_route_explore(kind, 3 if thorough else 2), shards=4 if thorough else 1))
        if thorough:
            out.append(Scenario('asan_' + kind, route_header(kind), make_route_gen(kind), make_route_explore(kind, 2), shards=2, asan=True))
    for part in range(4):
        out.append(Scenario('chain_%d' % part, chain_header(part), make_chain_gen(part), explore_chains(part)))
    out.append(Scenario('bases', bases_header(), gen_bases, explore_bases))
    out.append(Scenario('inherit', inherit_header(), gen_inherit, explore_inherit))
    return out
