"""C10: an object with a live wrapper comes back as that very wrapper, never as a stale one."""
import c07
import shared
from pbmc import Scenario

LEVEL = 'model_checking'
BOUNDS = {'quick': 'two Python variables, one C++ holder, a heap that always reuses the lowest free cell; every sequence of 2-3 operations '
                   'and the edges of the first states of the model graph, which includes the cells and the attributes set on wrappers; '
                   'sequences of two of the 17 to 19 ways of obtaining an object, for 5 kinds of class',
          'thorough': 'every sequence of 3-4 operations and every edge of the reachable model graph; sequences of three ways'}
ASSUMPTIONS = ['C++ does not destroy an object to which Python still holds a borrowed wrapper (documented restriction)',
               'the in-out reference argument of an override is a temporary wrapper, as its code says: it is not compared until it has become one of a copy',
               'a class whose first member is wrapped as well shares its address: only the type of what comes back is checked']

# as C07, but memory is reused at once
PLAIN_HEADER = shared.POOL + c07.HEADER.replace('static void *operator new(size_t n) { return malloc(n); }',
                                                'static void *operator new(size_t n) { return cell_new(n); }').replace(
    'static void operator delete(void *) {}', 'static void operator delete(void *p) { cell_delete(p); }')
assert 'cell_new(n); }' in PLAIN_HEADER.split('struct K {')[1] and 'cell_delete(p); }' in PLAIN_HEADER.split('struct K {')[1]

SHARED = {
    'rc': ({'kind': 'rc'}, 2, 200, False),
    'rcsub': ({'kind': 'rc', 'sub': True}, 2, 130, True),
    'rcsubnull': ({'kind': 'rc', 'sub': True, 'registry': False}, 2, 130, True),
    'rcsubnovirt': ({'kind': 'rc', 'sub': True, 'virt': False}, 2, 130, True),
    'sp': ({'kind': 'sp'}, 3, 300, False),
}

NEST_HEADER = r'''
struct In { int a; In() : a(1) {} int get() const { return a; } };
struct Out { In in; int b; Out() : b(2) {} int getb() const { return b; } };
struct Base { int a; Base() : a(3) {} virtual ~Base() {} int geta() const { return a; } };
struct Der : Base { int d; Der() : d(4) {} int getd() const { return d; } };
inline Out *&oslot() { static Out *o = new Out; return o; }
inline Der *&dslot() { static Der *o = new Der; return o; }
inline Out *out() { return oslot(); }
inline In *in() { return &oslot()->in; }
inline In *inof(Out *o) { return &o->in; }
inline Out *same(Out *o) { return o; }
inline Base *base() { return dslot(); }
inline Der *der() { return dslot(); }
inline Base *baseof(Der *d) { return d; }
inline void renew() { delete oslot(); oslot() = new Out; delete dslot(); dslot() = new Der; }
'''


def nest_gen(mod):
    from pybindgen import param, retval
    ref = lambda t: retval(t, reference_existing_object=True)
    In = mod.add_class('In')
    In.add_constructor([])
    In.add_method('get', 'int', [], is_const=True)
    Out = mod.add_class('Out')
    Out.add_constructor([])
    Out.add_method('getb', 'int', [], is_const=True)
    B = mod.add_class('Base')
    B.add_constructor([])
    B.add_method('geta', 'int', [], is_const=True)
    D = mod.add_class('Der', parent=B)
    D.add_constructor([])
    D.add_method('getd', 'int', [], is_const=True)
    mod.add_function('out', ref('Out *'), [])
    mod.add_function('in', ref('In *'), [], custom_name='in_')
    mod.add_function('inof', ref('In *'), [param('Out *', 'o', transfer_ownership=False)])
    mod.add_function('same', ref('Out *'), [param('Out *', 'o', transfer_ownership=False)])
    mod.add_function('base', ref('Base *'), [])
    mod.add_function('der', ref('Der *'), [])
    mod.add_function('baseof', ref('Base *'), [param('Der *', 'd', transfer_ownership=False)])
    mod.add_function('renew', None, [])


def nest_map(M, x):
    x.registry = True
    nest_explore(M, x)


def nest_null(M, x):
    x.registry = False
    nest_explore(M, x)


def nest_explore(M, x):
    """Objects of different classes at one address: whatever the order, the type asked for (or a derived one) comes back."""
    import itertools
    lib = x.clib()
    ops = ['out', 'in', 'inof', 'new', 'same', 'base', 'der', 'newder', 'baseof', 'drop0', 'drop1', 'drop2']
    types = {'out': M.Out, 'in': M.In, 'inof': M.In, 'new': M.Out, 'same': M.Out, 'base': M.Base, 'der': M.Der, 'newder': M.Der, 'baseof': M.Base}

    def run(seq):
        keep = [None, None, None]
        o = d = r = None
        for i, op in enumerate(seq):
            if op.startswith('drop'):
                keep[int(op[4])] = None
                continue
            if op in ('inof', 'same') and o is None or op == 'baseof' and d is None:
                continue
            if op == 'new':
                r = o = M.Out()
            elif op == 'newder':
                r = d = M.Der()
            elif op in ('inof', 'same'):
                r = getattr(M, op)(o)
            elif op == 'baseof':
                r = M.baseof(d)
            else:
                r = getattr(M, {'in': 'in_'}.get(op, op))()
            x.step()
            if not isinstance(r, types[op]):
                x.fail('%s returned a %s' % (op, type(r).__name__))
                return
            if x.registry and op == 'same' and keep.count(None) == 3 and not any(s in ('inof',) for s in seq) and r is not o:
                x.fail('same() returned another wrapper of the object')
            for t, f, want in ((M.In, 'get', 1), (M.Out, 'getb', 2), (M.Base, 'geta', 3), (M.Der, 'getd', 4)):
                if isinstance(r, t):
                    x.eq(getattr(r, f)(), want, op)
            keep[i % 3] = r
        del o, d, r
        keep[:] = []
        M.renew()
    depth = 5 if x.thorough else 4
    for n in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=n):
            if seq[-1].startswith('drop') or seq[0].startswith('drop'):
                continue
            x.state(seq[:2])
            x.run(' '.join(seq), run, seq)


# every way in which Python comes to have an object: from then on, that object has that wrapper
ROUTE_HEADER = shared.POOL + r'''
#include <vector>
#include <memory>
#define COMMON(K, V) Track t; int v; V int tell() const { t.use(); return v; } K dup() const { t.use(); return *this; } \
    static void *operator new(size_t n) { return cell_new(n); } static void operator delete(void *p) { cell_delete(p); } \
    static void *operator new(size_t, void *p) { return p; }
struct Plain { Plain(int v_ = 0) : v(v_) {} COMMON(Plain,) };
struct Virt { Virt(int v_ = 0) : v(v_) {} virtual ~Virt() {} COMMON(Virt, virtual) };
struct Sub { Sub(int v_ = 0) : v(v_) {} virtual ~Sub() {} COMMON(Sub, virtual) };
struct Ref { int rc; Ref(int v_ = 0) : rc(1), v(v_) {} Ref(Ref const &o) : t(o.t), rc(1), v(o.v) {} Ref &operator=(Ref const &o) { t = o.t; v = o.v; return *this; }
    void ref() { rc++; } void unref() { if (!--rc) delete this; } COMMON(Ref,) };
struct RSub { int rc; RSub(int v_ = 0) : rc(1), v(v_) {} RSub(RSub const &o) : t(o.t), rc(1), v(o.v) {} RSub &operator=(RSub const &o) { t = o.t; v = o.v; return *this; }
    virtual ~RSub() {} void ref() { rc++; } void unref() { if (!--rc) delete this; } COMMON(RSub, virtual) };
template <class K> struct Holder { K k; K get() const { return k; } K const &cref() const { return k; } void set(K const &o) { k = o; } };
#define KIND(K) typedef Holder<K> H##K; \
    inline K *same_##K(K *k) { k->t.use(); return k; } inline K &sameref_##K(K &k) { k.t.use(); return k; } inline int call_##K(K const &k) { return k.tell(); } \
    inline K val_##K(K k) { return k; } inline K const &cref_##K(K const &k) { return k; } \
    inline K *raw_##K(K const &k) { return new K(k); } inline K *ptr_##K(K *k) { return k; } inline void out_##K(K &out, K const &k) { out = k; } \
    inline std::vector<K> vec_##K(std::vector<K> const &v) { return v; } \
    struct E##K { virtual ~E##K() {} virtual K val(K k) { return k; } virtual K cref(K const &k) { return k; } virtual K inout(K &k) { return k; } virtual K ptr(K *k) { return *k; } virtual K own(K *k) { K c(*k); delete k; return c; } }; \
    inline K eval_##K(E##K *e, K const &k) { return e->val(k); } inline K ecref_##K(E##K *e, K const &k) { return e->cref(k); } \
    inline K einout_##K(E##K *e, K const &k) { K c(k); return e->inout(c); } inline K eptr_##K(E##K *e, K const &k) { K c(k); return e->ptr(&c); } \
    inline K eown_##K(E##K *e, K const &k) { return e->own(new K(k)); }
KIND(Plain) KIND(Virt) KIND(Sub) KIND(Ref) KIND(RSub)
'''
ROUTE_KINDS = ['Plain', 'Virt', 'Sub', 'Ref', 'RSub']


def route_names(kind):
    counted = kind in ('Ref', 'RSub')
    out = ['new', 'cc', 'copy', 'val', 'cref', 'dup', 'attr', 'meth', 'vec', 'raw', 'eval', 'ecref', 'einout', 'again']
    if not counted:
        out += ['out', 'eptr', 'ptr']
    out.append('eown')
    if kind in ('Sub', 'RSub'):
        out += ['pnew', 'pcc']
    return out


def route_gen(kind):
    def gen(mod):
        from pybindgen import param, retval, cppclass
        K = kind
        kw = {}
        if K in ('Ref', 'RSub'):
            kw['memory_policy'] = cppclass.ReferenceCountingMethodsPolicy('ref', 'unref')
        k = mod.add_class(K, allow_subclassing=K in ('Sub', 'RSub'), **kw)
        k.add_constructor([])
        k.add_constructor([param('int', 'v')])
        k.add_copy_constructor()
        k.add_method('tell', 'int', [], is_const=True, is_virtual=K in ('Sub', 'RSub'))
        k.add_method('dup', K, [], is_const=True)
        cref = lambda: param(K + ' const &', 'k')
        counted = K in ('Ref', 'RSub')
        mod.add_function('same_' + K, retval(K + ' *', caller_owns_return=False) if counted else retval(K + ' *', reference_existing_object=True), [param(K + ' *', 'k', transfer_ownership=False)])
        if not counted:
            mod.add_function('sameref_' + K, retval(K + ' &', reference_existing_object=True), [param(K + ' &', 'k')])
            mod.add_function('ptr_' + K, retval(K + ' *', caller_owns_return=False), [param(K + ' *', 'k', transfer_ownership=False)])
        mod.add_function('call_' + K, 'int', [cref()])
        mod.add_function('val_' + K, K, [param(K, 'k')])
        mod.add_function('cref_' + K, K + ' const &', [cref()])
        mod.add_function('raw_' + K, retval(K + ' *', caller_owns_return=True), [cref()])
        if not counted:
            mod.add_function('out_' + K, None, [param(K + ' &', 'out', direction=2), cref()])
        mod.add_container('std::vector< %s >' % K, K, 'vector')
        mod.add_function('vec_' + K, 'std::vector< %s >' % K, [param('std::vector< %s > const &' % K, 'v')])
        h = mod.add_class('H' + K)
        h.add_constructor([])
        h.add_method('get', K, [], is_const=True)
        h.add_method('set', None, [param(K + ' const &', 'o')])
        h.add_instance_attribute('k', K)
        e = mod.add_class('E' + K, allow_subclassing=True)
        e.add_constructor([])
        e.add_method('val', K, [param(K, 'k')], is_virtual=True)
        e.add_method('cref', K, [cref()], is_virtual=True)
        e.add_method('inout', K, [param(K + ' &', 'k', direction=3)], is_virtual=True)
        if not counted:
            e.add_method('ptr', K, [param(K + ' *', 'k', transfer_ownership=False)], is_virtual=True)
        e.add_method('own', K, [param(K + ' *', 'k', transfer_ownership=True)], is_virtual=True)
        for n in ('val', 'cref', 'inout', 'own') + (() if counted else ('ptr',)):
            mod.add_function('e%s_%s' % (n, K), K, [param('E%s *' % K, 'e', transfer_ownership=False), cref()])
        mod.add_function('pbmc_live', 'long', [])
        mod.add_function('pbmc_bad', 'int', [])
    return gen


def route_explore(kind):
    import copy
    import gc
    import itertools

    def explore(M, x):
        K, H = getattr(M, kind), getattr(M, 'H' + kind)
        f = lambda n: getattr(M, '%s_%s' % (n, kind))
        counted, sub = kind in ('Ref', 'RSub'), kind in ('Sub', 'RSub')
        P = None
        if sub:
            class P(K):
                def tell(self):
                    return 1000 + K.tell(self)

        def same(k, where):
            x.step(2)
            ways = [f('same')] + ([] if counted else [f('sameref')])
            for way in ways:
                got = way(k)
                assert got is k, '%s: the object came back as %r, not as its wrapper %r' % (where, got, k)

        class Echo(getattr(M, 'E' + kind)):
            def val(self, k):
                if self.check:
                    same(k, 'argument of an override')
                self.kept.append(k)
                return k
            cref = ptr = own = val

            def inout(self, k):
                self.kept.append(k)     # a wrapper for the time of the call, and of a copy if it is kept
                return k

        def obtain(r, k, echo):
            if r == 'new':
                return K(3)
            if r == 'pnew':
                return P(3)
            if r == 'cc':
                return K(k)
            if r == 'pcc':
                return P(k)
            if r == 'copy':
                return copy.copy(k)
            if r == 'again':
                k.__init__(3)
                return k
            if r == 'dup':
                return k.dup()
            if r == 'vec':
                return list(f('vec')([k]))[0]
            if r == 'attr':
                h = H()
                h.k = k
                return h.k
            if r == 'meth':
                h = H()
                h.set(k)
                return h.get()
            if r[0] == 'e':
                return f(r)(echo, k)
            if r == 'ptr':
                return f('ptr')(k)
            return f(r)(k)
        names = route_names(kind)

        def run(seq, drops):
            echo = Echo()
            echo.kept = []
            slots = [K(1), None]
            if sub:
                slots[0].note = 'first'
            for i, (r, drop) in enumerate(zip(seq, drops)):
                src = slots[1] if slots[1] is not None else slots[0]
                echo.check = True
                # the value of what C++ gets back from an override is copied from the wrapper of the argument
                got = obtain(r, src, echo)
                x.step()
                if r not in ('again',) and not (r == 'ptr'):
                    assert got is not src, '%s gave the object that it was to copy' % r
                same(got, r)
                if sub:
                    got.mark = r, i
                    assert f('same')(got).mark == (r, i)
                x.eq(f('call')(got), got.tell())
                for k in slots + echo.kept:
                    if k is not None and not (k is not src and r == 'again'):
                        if k in echo.kept and k not in slots and not owned(k):
                            continue
                        same(k, 'after ' + r)
                del k
                if drop == 1:
                    slots[1] = None         # the object dies: its cell is reused
                    src = None
                elif drop == 2:
                    del echo.kept[:]
                slots[1] = got
                got = src = None
            if sub:
                x.eq(slots[0].note, 'first')
            del slots[:], echo.kept[:]
            del echo
            gc.collect()
            x.eq(M.pbmc_bad(), 0, 'use of dead objects')

        def owned(k):
            # what an override got may not outlive the call
            try:
                k.tell()
            except Exception:
                return False
            return True
        depth = 3 if x.thorough else 2
        for n in range(1, depth + 1):
            for seq in itertools.product(names, repeat=n):
                x.state(seq)
                for drops in itertools.product((0, 1, 2), repeat=n):
                    x.run('%s/%s' % (' '.join(seq), ''.join(map(str, drops))), run, seq, drops)
    return explore


def scenarios(tier):
    out = []
    th = tier == 'thorough'
    for n, (v, d, mc, tags) in sorted(SHARED.items()):
        out.append(shared.scenario(n, v, d + th, None if th else mc, shards=8 if th else 2, tags=tags, cells=True))
    for n, v in (('plain', {}), ('sub', {'sub': True}), ('subnull', {'sub': True, 'registry': False})):
        settings = {'wrapper_registry': 'StdMapWrapperRegistry'} if v.get('registry', True) else {}
        out.append(Scenario(n, PLAIN_HEADER, c07.make_gen(v), c07.make_explore(v), settings=settings, shards=8 if th else 2))
    for k in ROUTE_KINDS:
        out.append(Scenario('routes' + k, ROUTE_HEADER, route_gen(k), route_explore(k), settings={'wrapper_registry': 'StdMapWrapperRegistry'}, shards=4 if th else 1))
    for n in ('map', 'null'):
        out.append(Scenario('nest_' + n, NEST_HEADER, nest_gen, nest_map if n == 'map' else nest_null,
                            settings={'wrapper_registry': 'StdMapWrapperRegistry'} if n == 'map' else {}, shards=4))
    return out
