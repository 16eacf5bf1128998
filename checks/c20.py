"""C20: copies are faithful and independent."""
import copy
import gc
import pickle
from pbmc import Scenario
from pbmc.explore import explore_model

LEVEL = 'model_checking'
RULE = ('every sequence of operations (create, borrow, copy by each route, change each member, set or delete an instance attribute, drop) over two slots; after every '
        'one all members, instance attributes, virtual calls from C++, identity and the number of live C++ objects are compared with the model')
BOUNDS = {'quick': 'seven kinds of class, instances owned by Python or borrowed from C++, x up to fourteen routes of copying; sequences of two operations, and every edge of the model up to 300 states',
          'thorough': 'sequences of three operations; every edge up to 1000 states; those of two operations and 60 states under AddressSanitizer'}
ASSUMPTIONS = ['a class that is copied declares its copy constructor; the copy of an instance of a Python subclass is of the wrapped class']

HDR = r'''
#include <vector>
#include <memory>
struct In { Track t; int v; In(int v_ = 0) : v(v_) {} int get() const { t.use(); return v; } };
struct Ref { int rc; Ref() : rc(1) {} Ref(Ref const &) : rc(1) {} Ref &operator=(Ref const &) { return *this; } };
struct B { virtual ~B() {} virtual int tell() const { return 0; } };
// what the kinds have in common
#define BODY(K) \
    Track t; int v; std::string s; std::vector<int> d; In in; \
    K(int v_ = 0) : v(v_) {} \
    int get() const { t.use(); return v; } \
    void set(int v_) { t.use(); v = v_; } \
    K dup() const { t.use(); return *this; } \
    std::string show() const { t.use(); return s; }
#define FUNCS(K) \
    inline K K##_val(K k) { return k; } \
    inline K K##_inc(K k) { k.v++; K r(k); r.v--; return r; } \
    inline K K##_cref(K const &k) { return k; } \
    inline K const &K##_rcref(K const &k) { static K *last = new K; *last = k; return *last; } \
    inline void K##_out(K const &k, K &out) { out = k; } \
    struct K##Holder { K k; K get() const { return k; } void set(K const &o) { k = o; } }; \
    inline bool K##_same(K const &a, K const &b) { return &a == &b; }
// an object that C++ owns
#define LEND(K) inline K *K##_lend(int i) { static K *own = new K[2]; own[i] = K(1); return &own[i]; }
struct Plain { BODY(Plain) };
struct Const { BODY(Const) };
struct Sub { BODY(Sub) virtual ~Sub() {} virtual int tell() const { return v; } };
struct Der : B { BODY(Der) virtual int tell() const { return v; } };
struct Shr { BODY(Shr) };
struct Cnt : Ref { BODY(Cnt) void ref() { rc++; } void unref() { if (!--rc) delete this; } };
struct CSub : Ref { BODY(CSub) void ref() { rc++; } void unref() { if (!--rc) delete this; } virtual ~CSub() {} virtual int tell() const { return v; } };
FUNCS(Plain) FUNCS(Const) FUNCS(Sub) FUNCS(Der) FUNCS(Shr) FUNCS(Cnt) FUNCS(CSub)
LEND(Plain) LEND(Const) LEND(Sub) LEND(Der)
inline Plain *Plain_ptr(Plain const &k) { static Plain *last = new Plain; *last = k; return last; }
inline Sub *Sub_ptr(Sub const &k) { return new Sub(k); }
inline int Sub_call(Sub const &k) { return k.tell(); }
inline int CSub_call(CSub const &k) { return k.tell(); }
inline int Der_call(B const &k) { return k.tell(); }
inline std::vector<Plain> Plain_vec(std::vector<Plain> const &v) { return v; }
inline std::vector<Sub> Sub_vec(std::vector<Sub> const &v) { return v; }
inline std::vector<Der> Der_vec(std::vector<Der> const &v) { return v; }
struct Echo { virtual ~Echo() {} virtual Plain plain(Plain k) { return k; } virtual Sub sub(Sub const &k) { return k; } };
inline Plain Plain_echo(Echo *e, Plain const &k) { return e->plain(k); }
inline Sub Sub_echo(Echo *e, Sub const &k) { return e->sub(k); }
'''

KINDS = {
    # name: (allow_subclassing, routes besides the common ones)
    'Plain': (False, ['ptr', 'vec', 'echo', 'viaref']),
    'Const': (False, []),
    'Sub': (True, ['ptr', 'vec', 'echo']),
    'Der': (True, ['vec']),
    'Shr': (False, []),
    'Cnt': (False, []),
    'CSub': (True, []),
}
# of which Python can hold an object that C++ owns
LENT = ('Plain', 'Const', 'Sub', 'Der')
COMMON = ['cc', 'copy', 'val', 'inc', 'cref', 'rcref', 'out', 'dup', 'attr', 'meth']


def routes(kind):
    out = COMMON + KINDS[kind][1]
    if KINDS[kind][0]:
        out = out + ['pcc']
    if kind in ('Shr', 'Cnt', 'CSub'):
        out = [r for r in out if r not in ('out', )]
    return out


def make_gen(kind):
    def gen(mod):
        from pybindgen import param, retval, cppclass
        from pybindgen.typehandlers.smart_ptr import StdSharedPtr
        for f in ('live', 'bad'):
            mod.add_function('pbmc_' + f, 'int', [], custom_name=f)
        sub = KINDS[kind][0]
        In = mod.add_class('In')
        In.add_constructor([param('int', 'v', default_value='0')])
        In.add_copy_constructor()
        In.add_method('get', 'int', [], is_const=True)
        In.add_instance_attribute('v', 'int')
        mod.add_container('std::vector< int >', 'int', 'vector')
        kw = {}
        if kind == 'Shr':
            kw['memory_policy'] = StdSharedPtr('Shr')
        if kind in ('Cnt', 'CSub'):
            kw['memory_policy'] = cppclass.ReferenceCountingMethodsPolicy(incref_method='ref', decref_method='unref')
        if kind == 'Der':
            B = mod.add_class('B', allow_subclassing=True)
            B.add_method('tell', 'int', [], is_virtual=True, is_const=True)
            kw['parent'] = B
        K = mod.add_class(kind, allow_subclassing=sub, **kw)
        K.add_constructor([param('int', 'v', default_value='0')])
        if kind == 'Const':
            K.add_constructor([param('Const const &', 'k')])
        else:
            K.add_copy_constructor()
        K.add_method('get', 'int', [], is_const=True)
        K.add_method('set', 'void', [param('int', 'v')])
        K.add_method('dup', kind, [], is_const=True)
        if kind in ('Sub', 'Der', 'CSub'):
            K.add_method('tell', 'int', [], is_virtual=True, is_const=True)
            mod.add_function(kind + '_call', 'int', [param(('B' if kind == 'Der' else kind) + ' const &', 'k')], custom_name='call')
        K.add_instance_attribute('s', 'std::string')
        K.add_instance_attribute('d', 'std::vector< int >')
        K.add_instance_attribute('in', 'In')
        for f in ('val', 'inc'):
            mod.add_function('%s_%s' % (kind, f), kind, [param(kind, 'k')], custom_name=f)
        mod.add_function(kind + '_cref', kind, [param(kind + ' const &', 'k')], custom_name='cref')
        mod.add_function(kind + '_rcref', kind + ' const &', [param(kind + ' const &', 'k')], custom_name='rcref')
        if 'out' in routes(kind):
            mod.add_function(kind + '_out', 'void', [param(kind + ' const &', 'k'), param(kind + ' &', 'out', direction=2)], custom_name='out')
        mod.add_function(kind + '_same', 'bool', [param(kind + ' const &', 'a'), param(kind + ' const &', 'b')], custom_name='same')
        if kind in LENT:
            mod.add_function(kind + '_lend', retval(kind + ' *', reference_existing_object=True), [param('int', 'i')], custom_name='lend')
        H = mod.add_class(kind + 'Holder', custom_name='Holder')
        H.add_constructor([])
        H.add_method('get', kind, [], is_const=True)
        H.add_method('set', 'void', [param(kind + ' const &', 'o')])
        H.add_instance_attribute('k', kind)
        if kind == 'Plain':
            mod.add_function('Plain_ptr', retval('Plain *', caller_owns_return=False), [param('Plain const &', 'k')], custom_name='ptr')
        if kind == 'Sub':
            mod.add_function('Sub_ptr', retval('Sub *', caller_owns_return=True), [param('Sub const &', 'k')], custom_name='ptr')
        if 'vec' in routes(kind):
            mod.add_container('std::vector< %s >' % kind, kind, 'vector')
            mod.add_function(kind + '_vec', 'std::vector< %s >' % kind, [param('std::vector< %s > const &' % kind, 'v')], custom_name='vec')
        if 'echo' in routes(kind):
            E = mod.add_class('Echo', allow_subclassing=True)
            E.add_constructor([])
            if kind == 'Plain':
                E.add_method('plain', 'Plain', [param('Plain', 'k')], is_virtual=True)
            else:
                E.add_method('sub', 'Sub', [param('Sub const &', 'k')], is_virtual=True)
            mod.add_function(kind + '_echo', kind, [param('Echo *', 'e', transfer_ownership=False), param(kind + ' const &', 'k')], custom_name='echo')
    return gen


class Model(object):
    """a slot is None or (type, v, s, d, in, tag)"""
    def __init__(self, kind):
        self.kind = kind
        self.sub = KINDS[kind][0]
        self.routes = routes(kind)

    def init(self):
        return (None, None)

    def ops(self, state):
        out = []
        for i, s in enumerate(state):
            if i == 0 or state[0] is not None:
                out.append(('new', 'K', i))
                if self.sub:
                    out.append(('new', 'P', i))
                if self.kind in LENT:
                    out.append(('new', 'B', i))
            if s is None:
                continue
            for r in self.routes:
                for j in range(2):
                    out.append(('copy', r, i, j))
            for what in ('v', 's', 'd', 'in') + (('tag', 'del') if self.sub else ()):
                out.append(('set', what, i))
            out.append(('drop', i))
        return out

    def step(self, state, op):
        st = list(state)
        if op[0] == 'new':
            st[op[2]] = (op[1], 1, 0, 0, 0, None)
        elif op[0] == 'drop':
            st[op[1]] = None
        elif op[0] == 'set':
            f = ['type', 'v', 's', 'd', 'in', 'tag'].index('tag' if op[1] == 'del' else op[1])
            o = list(st[op[2]])
            if op[1] == 'del':
                o[f] = None
            elif op[1] == 'tag':
                o[f] = 0 if o[f] is None else (o[f] + 1) % 2
            else:
                o[f] = (o[f] + 1) % 3
            st[op[2]] = tuple(o)
        else:
            o = list(st[op[2]])
            o[0] = 'P' if op[1] == 'pcc' else 'K'
            if op[1] != 'copy':
                o[5] = None
            st[op[3]] = tuple(o)
        st = tuple(st)
        return st, self.observe(st)

    def observe(self, st):
        # each object holds one In
        n = sum(s is not None and s[0] != 'B' for s in st)
        return (tuple(None if s is None else (s[0].replace('B', 'K'), ) + s[1:5] + (s[5],) + ((1000 + s[1] if s[0] == 'P' else s[1]),) for s in st), 2 * n, 0)


def make_impl(M, kind):
    K = getattr(M, kind)
    sub = KINDS[kind][0]
    virt = kind in ('Sub', 'Der', 'CSub')
    P = None
    echo = None
    if sub:
        class P(K):
            def tell(self):
                return 1000 + self.get()
    if 'echo' in routes(kind):
        class Echo(M.Echo):
            def plain(self, k):
                assert isinstance(k, M.Plain)
                return k
            sub = lambda self, k: k
        echo = Echo()
    # the routes by way of a static object keep that one alive
    if hasattr(M, 'lend'):
        M.lend(0)
    for f in ('rcref', 'ptr'):
        if hasattr(M, f):
            getattr(M, f)(K())
    gc.collect()
    live0 = M.live()

    class Impl(object):
        def __init__(self):
            self.o = [None, None]
            M.bad()

        def route(self, r, k):
            if r == 'cc':
                return K(k)
            if r == 'pcc':
                return P(k)
            if r == 'copy':
                return copy.copy(k)
            if r == 'dup':
                return k.dup()
            if r == 'vec':
                return list(M.vec([k]))[0]
            if r == 'attr':
                h = M.Holder()
                h.k = k
                return h.k
            if r == 'meth':
                h = M.Holder()
                h.set(k)
                return h.get()
            if r == 'echo':
                return M.echo(echo, k)
            if r == 'viaref':
                return K(ctor_arg=K(k))
            return getattr(M, r)(k)

        def do(self, op):
            o = self.o
            if op[0] == 'new':
                o[op[2]] = None
                o[op[2]] = M.lend(op[2]) if op[1] == 'B' else (P if op[1] == 'P' else K)(1)
            elif op[0] == 'drop':
                o[op[1]] = None
            elif op[0] == 'set':
                k = o[op[2]]
                if op[1] == 'v':
                    k.set((k.get() + 1) % 3)
                elif op[1] == 's':
                    k.s = {'': 'a\0b', 'a\0b': 'c' * 40, 'c' * 40: ''}[k.s]
                elif op[1] == 'd':
                    k.d = {(): [1, 2, 3], (1, 2, 3): [7], (7,): []}[tuple(k.d)]
                elif op[1] == 'in':
                    setattr(k, 'in', M.In((getattr(k, 'in').get() + 1) % 3))
                elif op[1] == 'tag':
                    k.tag = [0] if getattr(k, 'tag', None) is None else [(k.tag[0] + 1) % 2]
                elif hasattr(k, 'tag'):
                    del k.tag
            else:
                src = o[op[2]]
                new = self.route(op[1], src)
                assert new is not src, 'the copy is the object itself'
                assert not M.same(new, src), 'the copy shares the C++ object'
                o[op[3]] = src = None
                o[op[3]] = new
                new = None
            if P is not None:
                gc.collect()
            return self.observe()

        def observe(self):
            out = []
            for k in self.o:
                if k is None:
                    out.append(None)
                    continue
                t = {K: 'K', P: 'P'}.get(type(k), type(k).__name__)
                tag = getattr(k, 'tag', None)
                if tag is not None:
                    tag = tag[0]
                # a copy of the nested object is at nobody's mercy
                inner = getattr(k, 'in')
                iv = inner.get()
                inner.v = 77
                out.append((t, k.get(), {'': 0, 'a\0b': 1, 'c' * 40: 2}.get(k.s, k.s), {(): 0, (1, 2, 3): 1, (7,): 2}.get(tuple(k.d), tuple(k.d)),
                            iv, tag, M.call(k) if virt else k.get()))
                inner = None
            k = None
            return (tuple(out), M.live() - live0, M.bad())

        def end(self, state):
            self.o = [None, None]
            gc.collect()
            assert M.live() == live0, '%d C++ objects left behind' % (M.live() - live0)
    return Impl


def make_explore(kind, depth, maxc):
    def explore(M, x):
        gc.collect()
        gc.freeze()
        gc.disable()
        K = getattr(M, kind)
        x.case('%s: pickling and deep copies' % kind)
        for what in (copy.deepcopy, pickle.dumps):
            try:
                got = what(K(5))
            except TypeError:
                pass
            else:
                x.check(not isinstance(got, bytes) and got.get() == 5, 'got %r' % (got,))
        explore_model(x, Model(kind), make_impl(M, kind), depth, max_cover=maxc, label=kind)
    return explore


def scenarios(tier):
    thorough = tier == 'thorough'
    out = []
    for kind in sorted(KINDS):
        out.append(Scenario('copy_' + kind, HDR, make_gen(kind), make_explore(kind, 3 if thorough else 2, 1000 if thorough else 300), shards=8 if thorough else 2))
        if thorough:
            out.append(Scenario('asan_' + kind, HDR, make_gen(kind), make_explore(kind, 2, 60), shards=2, asan=True))
    return out
