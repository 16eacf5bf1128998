"""Objects with several owners (reference counts, shared pointers): model, C++ side and exploration.  Used by C08, C09 and C10."""
import gc
from pbmc import Scenario
from pbmc.explore import explore_model

POOL = r'''
// a heap of few cells, always the lowest free one: addresses are reused
static const size_t CELL = 512;
static const int NCELLS = 24;
alignas(16) inline char *cells() { alignas(16) static char c[NCELLS * CELL]; return c; }
inline bool *used() { static bool u[NCELLS]; return u; }
inline void *cell_new(size_t n) {
    if (n > CELL) abort();
    for (int i = 0; i < NCELLS; i++) if (!used()[i]) { used()[i] = true; return cells() + i * CELL; }
    abort();
}
inline void cell_delete(void *p) { if (p) used()[((char *) p - cells()) / CELL] = false; }
inline int cell_of(void const *p) { return p ? ((char const *) p - cells()) / CELL : -1; }
'''

RC_HEADER = POOL + r'''
struct K {
    Track t; mutable int rc; int v;
    K(int v_ = 0) : rc(1), v(v_) {}
    K(K const &o) : t(o.t), rc(1), v(o.v) {}
    void ref() const { t.use(); ++rc; }
    void unref() const { t.use(); if (rc <= 0) pbmc_get()->bad++; if (--rc == 0) delete this; }
    int peekref() const { t.use(); return rc; }
    int refs() const { t.use(); return rc; }
    int get() const { t.use(); return v; }
    VIRTUAL int hook() const { t.use(); return 10 + v; }
    virtual ~K() { if (rc > 1) pbmc_get()->bad++; }
    static void *operator new(size_t n) { return cell_new(n); }
    static void operator delete(void *p) { cell_delete(p); }
};
inline void k_ref(K const *k) { k->ref(); }
inline void k_unref(K const *k) { k->unref(); }
inline int k_peekref(K const *k) { return k->peekref(); }
inline K *&holder() { static K *h; return h; }
inline void give(K *k) { K *old = holder(); holder() = k; if (old) old->unref(); }
inline void put(K *k) { if (k) k->ref(); give(k); }
inline void putn(K *k) { put(k); }
inline void putc(K const *k) { put(const_cast<K *>(k)); }
inline void putr(K &k) { put(&k); }
inline void puto(K *k) { give(k); }
inline void puton(K *k) { give(k); }
inline K *peek() { return holder(); }
inline K const *peekc() { return holder(); }
inline K &peekr() { return *holder(); }
inline K *peeko() { if (holder()) holder()->ref(); return holder(); }
inline K *take() { K *k = holder(); holder() = NULL; return k; }
inline K *make(int v) { return new K(v); }
inline K mkval(int v) { return K(v); }
inline void cnew(int v) { give(new K(v)); }
inline void clear() { give(NULL); }
inline int useptr(K *k) { return k->get(); }
inline int usecptr(K const *k) { return k->get(); }
inline int usenull(K *k) { return k ? k->get() : -1; }
inline int useref(K &k) { return k.get(); }
inline int usecref(K const &k) { return k.get(); }
inline int useval(K k) { return k.get(); }
inline int callhook(K *k) { return k->hook(); }
inline int slothook() { return holder()->hook(); }
struct Att { K *k; };
inline Att *att() { static Att a; a.k = holder(); return &a; }
struct V {
    virtual ~V() {}
    virtual int take(K *k) { return 0; }
    virtual int takec(K const *k) { return 0; }
    virtual int takeo(K *k) { if (k) k->unref(); return 0; }
    virtual K *giveo() { return new K(7); }
    virtual K *lend() { return NULL; }
};
inline int vtake(V *v) { return v->take(holder()); }
inline int vtakec(V *v) { return v->takec(holder()); }
inline int vtakeo(V *v) { return v->takeo(take()); }
inline int vtakeo2(V *v) { if (holder()) holder()->ref(); return v->takeo(holder()); }
inline void vgive(V *v) { give(v->giveo()); }
inline void vlend(V *v) { put(v->lend()); }
PBMC_C int pbmc_slot(int what);
PBMC_C int pbmc_slot(int what) { K *k = holder(); return !k ? -1 : what ? k->rc : k->get(); }
'''

SP_HEADER = POOL + r'''
#include <memory>
struct K : std::enable_shared_from_this<K> {
    Track t; int v;
    K(int v_ = 0) : v(v_) {}
    K(K const &o) : std::enable_shared_from_this<K>(), t(o.t), v(o.v) {}
    int refs() const { t.use(); return weak_from_this().use_count(); }
    int get() const { t.use(); return v; }
    VIRTUAL int hook() const { t.use(); return 10 + v; }
    virtual ~K() {}
    static void *operator new(size_t n) { return cell_new(n); }
    static void *operator new(size_t n, void *p) { return p; }
    static void operator delete(void *p) { cell_delete(p); }
};
typedef std::shared_ptr<K> SP;
struct Att { std::shared_ptr<K> k; };
inline Att *att() { static Att a; return &a; }
inline SP &holder() { return att()->k; }
inline void put(std::shared_ptr<K> k) { if (k) k->t.use(); holder() = k; }
inline void putn(std::shared_ptr<K> k) { put(k); }
inline void putc(const std::shared_ptr<K> k) { put(k); }
inline std::shared_ptr<K> peek() { return holder(); }
inline const std::shared_ptr<K> peekc() { return holder(); }
inline std::shared_ptr<K> take() { SP k = holder(); holder().reset(); return k; }
inline std::shared_ptr<K> make(int v) { return std::make_shared<K>(v); }
inline std::shared_ptr<K> makenew(int v) { return SP(new K(v)); }
inline K mkval(int v) { return K(v); }
inline void cnew(int v) { holder() = SP(new K(v)); }
inline void clear() { holder().reset(); }
inline int useptr(std::shared_ptr<K> k) { return k->get(); }
inline int usenull(std::shared_ptr<K> k) { return k ? k->get() : -1; }
inline int useref(K &k) { return k.get(); }
inline int usecref(K const &k) { return k.get(); }
inline int useval(K k) { return k.get(); }
inline int callhook(std::shared_ptr<K> k) { return k->hook(); }
struct V {
    virtual ~V() {}
    virtual int take(std::shared_ptr<K> k) { return 0; }
    virtual int takec(std::shared_ptr<K> const k) { return 0; }
    virtual std::shared_ptr<K> giveo() { return SP(new K(7)); }
};
inline int vtake(V *v) { return v->take(holder()); }
inline int vtakec(V *v) { return v->takec(holder()); }
inline int vtakeo(V *v) { SP k = holder(); holder().reset(); return v->take(std::move(k)); }
inline void vgive(V *v) { holder() = v->giveo(); }
PBMC_C int pbmc_slot(int what);
PBMC_C int pbmc_slot(int what) { K *k = holder().get(); return !k ? -1 : what ? (int) holder().use_count() : k->get(); }
'''


def header(v):
    h = RC_HEADER if v['kind'] == 'rc' else SP_HEADER
    return h.replace('VIRTUAL', 'virtual' if v.get('virt', True) else '')


def make_gen(v):
    def gen(mod):
        from pybindgen import param, retval, cppclass
        rc = v['kind'] == 'rc'
        if rc:
            peek = v.get('peekf', True)
            if v.get('functions'):
                mp = cppclass.ReferenceCountingFunctionsPolicy('k_ref', 'k_unref', 'k_peekref' if peek else None)
            else:
                mp = cppclass.ReferenceCountingMethodsPolicy('ref', 'unref', 'peekref' if peek else None)
        else:
            from pybindgen.typehandlers.smart_ptr import StdSharedPtr
            mp = StdSharedPtr('K')
        K = mod.add_class('K', memory_policy=mp, allow_subclassing=v.get('sub', False))
        K.add_constructor([param('int', 'v', default_value='0')])
        K.add_copy_constructor()
        K.add_method('refs', 'int', [], is_const=True)
        K.add_method('get', 'int', [], is_const=True)
        K.add_method('hook', 'int', [], is_const=True, is_virtual=v.get('virt', True))
        f = mod.add_function
        V = mod.add_class('V', allow_subclassing=True)
        V.add_constructor([])
        A = mod.add_class('Att')
        f('att', retval('Att *', reference_existing_object=True), [])
        f('mkval', retval('K'), [param('int', 'v')])
        f('cnew', None, [param('int', 'v')])
        f('clear', None, [])
        f('useref', 'int', [param('K &', 'k')])
        f('usecref', 'int', [param('K const &', 'k')])
        f('useval', 'int', [param('K', 'k')])
        vp = param('V *', 'v', transfer_ownership=False)
        if rc:
            P = lambda own=False, t='K *', **kw: param(t, 'k', transfer_ownership=own, **kw)
            for n in ('put', 'useptr', 'callhook'):
                f(n, None if n == 'put' else 'int', [P()])
            f('putn', None, [P(null_ok=True)])
            f('putc', None, [P(t='K const *')])
            f('usecptr', 'int', [P(t='K const *')])
            f('usenull', 'int', [P(null_ok=True)])
            f('putr', None, [param('K &', 'k')])
            f('puto', None, [P(True)])
            f('puton', None, [P(True, null_ok=True, default_value='NULL')])
            f('peek', retval('K *', caller_owns_return=False), [])
            f('peekc', retval('K const *', caller_owns_return=False), [])
            f('peekr', retval('K &', reference_existing_object=True), [])
            f('peeko', retval('K *', caller_owns_return=True), [])
            f('take', retval('K *', caller_owns_return=True), [])
            f('make', retval('K *', caller_owns_return=True), [param('int', 'v')])
            f('slothook', 'int', [])
            A.add_instance_attribute('k', retval('K *', caller_owns_return=False))
            V.add_method('take', 'int', [P()], is_virtual=True)
            V.add_method('takec', 'int', [P(t='K const *')], is_virtual=True)
            V.add_method('takeo', 'int', [P(True)], is_virtual=True)
            V.add_method('giveo', retval('K *', caller_owns_return=True), [], is_virtual=True)
            V.add_method('lend', retval('K *', caller_owns_return=False), [], is_virtual=True)
            for n in ('vtake', 'vtakec', 'vtakeo', 'vtakeo2'):
                f(n, 'int', [vp])
            f('vgive', None, [vp])
            f('vlend', None, [vp])
        else:
            T = 'std::shared_ptr<K>'
            P = lambda **kw: param(T, 'k', **kw)
            f('put', None, [P()])
            f('putn', None, [P(null_ok=True, default_value='NULL')])
            f('useptr', 'int', [P()])
            f('callhook', 'int', [P()])
            f('usenull', 'int', [P(null_ok=True)])
            f('putc', None, [param('const ' + T, 'k')])
            f('peekc', T + ' const', [])
            V.add_method('takec', 'int', [param(T + ' const', 'k')], is_virtual=True)
            f('vtakec', 'int', [vp])
            f('peek', T, [])
            f('take', T, [])
            f('make', T, [param('int', 'v')])
            f('makenew', T, [param('int', 'v')])
            A.add_instance_attribute('k', T)
            V.add_method('take', 'int', [P()], is_virtual=True)
            V.add_method('giveo', T, [], is_virtual=True)
            f('vtake', 'int', [vp])
            f('vtakeo', 'int', [vp])
            f('vgive', None, [vp])
    return gen


class Model(object):
    """State: (slots, wrappers, objects, holder)

    wrappers: ((object, is S, tag), ...)      objects: ((value, cell rank), ...)
    Python variables refer to wrappers, wrappers and the C++ holder own objects.
    The wrapper of an object with a C++ part that forwards to Python (helper)
    lives as long as that object does.
    """
    def __init__(self, v, tags=True, cells=False):
        self.v = v
        self.rc = v['kind'] == 'rc'
        self.sub = v.get('sub', False)
        self.virt = v.get('virt', True)
        self.registry = v.get('registry', True)
        self.tags = tags and self.sub
        self.cells = cells

    def init(self):
        return ((None, None), (), (), None)

    def ops(self, s):
        out = []
        rc = self.rc
        for p in (0, 1):
            out += [('new', p), ('make', p)]
            if self.sub:
                out.append(('newS', p))
            out += [('mkval', p), ('peek', p), ('take', p), ('peeka', p)]
            out += [('peekc', p), ('vtakec', p)]
            if rc:
                out += [('peeko', p), ('vtakeo2', p)]
                if s[3] is not None:
                    out.append(('peekr', p))
            else:
                out.append(('makenew', p))
            out += [('vtake', p), ('vtakeo', p), ('vtakeraise', p)]
            if s[0][p] is not None:
                out += [('drop', p), ('use', p), ('copyctor', p), ('put', p), ('putn', p), ('vgive', p)]
                if s[0][1 - p] != s[0][p]:
                    out.append(('alias', p))
                if self.tags and s[1][s[0][p]][2] != p:
                    out.append(('tag', p))
                out.append(('putc', p))
                if rc:
                    out += [('putr', p), ('puto', p), ('puton', p), ('vlend', p), ('putobad', p)]
                else:
                    out.append(('puta', p))
        if s[3] is not None:
            out += [('clear',), ('putnone',)]
            if rc and self.virt:
                out.append(('slothook',))
        out += [('cnew', 0), ('cnew', 1), ('vgiveraise',), ('vgivebad',)]
        return out

    def step(self, s, op):
        slots = list(s[0])
        W = {i: list(w) for i, w in enumerate(s[1])}
        O = {i: list(o) for i, o in enumerate(s[2])}
        h = s[3]
        name = op[0]
        p = op[1] if len(op) > 1 else None
        ret = None

        def helper(o):
            """the wrapper a helper object belongs to"""
            if not self.virt:
                return None
            for i, w in W.items():
                if w[0] == o and w[1]:
                    return i
            return None

        def newobj(val):
            cells = set(o[1] for o in O.values())
            c = 0
            while c in cells:
                c += 1
            i = max(list(O) + [-1]) + 1
            O[i] = [val, c]
            return i

        def wrap(o, S=False):
            i = max(list(W) + [-1]) + 1
            W[i] = [o, S, None]
            return i

        def find(o):
            hw = helper(o)
            if hw is not None:
                return hw
            if self.registry:
                # the wrapper registered last
                c = [i for i, w in W.items() if w[0] == o]
                if c:
                    return c[-1]
            return wrap(o)

        def settle():
            again = True
            while again:
                again = False
                live = set(x for x in slots if x is not None)
                for i, w in list(W.items()):
                    if i in live:
                        continue
                    if self.virt and w[1] and w[0] == hold[0]:
                        continue
                    del W[i]
                    again = True
                for o in list(O):
                    if o != hold[0] and not any(w[0] == o for w in W.values()):
                        del O[o]
                        again = True
        hold = [h]
        def set_slot(i, w):
            slots[i] = w
            settle()
        if name in ('new', 'make', 'mkval', 'makenew'):
            set_slot(p, wrap(newobj(p)))
        elif name == 'newS':
            set_slot(p, wrap(newobj(p), True))
        elif name == 'copyctor':
            set_slot(1 - p, wrap(newobj(O[W[slots[p]][0]][0])))
        elif name == 'drop':
            set_slot(p, None)
        elif name == 'alias':
            set_slot(1 - p, slots[p])
        elif name == 'tag':
            W[slots[p]][2] = p
        elif name in ('peek', 'peekc', 'peekr', 'peeko', 'peeka', 'take', 'vtake', 'vtakec', 'vtakeo', 'vtakeo2', 'vtakeraise'):
            if hold[0] is None:
                w = None
                ret = 'None'
            else:
                w = find(hold[0])
            if name in ('take', 'vtakeo'):
                hold[0] = None
            if name == 'vtakeraise':
                pass
            set_slot(p, w)
            if name.startswith('v') and name != 'vtakeraise':
                ret = (ret, 5)
            elif name == 'vtakeraise':
                ret = (ret, 0)
        elif name in ('put', 'putn', 'putc', 'putr', 'puto', 'puton', 'vgive', 'vlend', 'puta'):
            hold[0] = W[slots[p]][0]
            settle()
        elif name == 'cnew':
            o = newobj(p)
            hold[0] = o
            settle()
        elif name in ('clear', 'putnone'):
            hold[0] = None
            settle()
        elif name in ('vgiveraise', 'vgivebad'):
            hold[0] = newobj(7)
            settle()
        elif name == 'use':
            w = W[slots[p]]
            v = O[w[0]][0]
            hook = (20 if w[1] else 10) + v
            chook = (20 if w[1] and self.virt else 10) + v
            ret = (v,) * 6 + (hook, chook)
        elif name == 'slothook':
            w = helper(hold[0])
            ret = (20 if w is not None else 10) + O[hold[0]][0]
        elif name == 'putobad':
            ret = 0
        else:
            assert 0, name
        # canonical numbering
        order = []
        for x in slots + ([helper(hold[0])] if hold[0] is not None else []):
            if x is not None and x not in order:
                order.append(x)
        assert set(order) == set(W), (order, W)
        oo = []
        for x in [W[i][0] for i in order] + ([hold[0]] if hold[0] is not None else []):
            if x not in oo:
                oo.append(x)
        assert set(oo) == set(O)
        s2 = (tuple(None if x is None else order.index(x) for x in slots),
              tuple((oo.index(W[i][0]), W[i][1], W[i][2]) for i in order),
              tuple((O[i][0], O[i][1] if self.cells else oo.index(i)) for i in oo),
              None if hold[0] is None else oo.index(hold[0]))
        refs = [0] * len(oo)
        for w in s2[1]:
            refs[w[0]] += 1
        if s2[3] is not None:
            refs[s2[3]] += 1
        obs = []
        for x in s2[0]:
            if x is None:
                obs.append(None)
            else:
                w = s2[1][x]
                obs.append((s2[2][w[0]][0], refs[w[0]], w[1], w[2]))
        same = s2[0][0] is not None and s2[0][0] == s2[0][1]
        hs = (-1, -1) if s2[3] is None else (s2[2][s2[3]][0], refs[s2[3]])
        return s2, (ret, tuple(obs), same, len(oo), hs, 0)


def make_explore(v, depth, maxc, tags=True, cells=False):
    def explore(M, x):
        import sys
        lib = x.clib()
        sys.excepthook = sys.unraisablehook = lambda *a: None
        sub = v.get('sub', False)
        rc = v['kind'] == 'rc'
        S = None
        if sub:
            class S(M.K):
                def __init__(self, n):
                    super(S, self).__init__(n)

                def hook(self):
                    return 20 + self.get()

        class PV(M.V):
            def got(self, k):
                self.s[self.p] = k
                if self.mode == 'raise':
                    raise KeyError(1)
                return 5
            take = takec = takeo = got

            def giveo(self):
                if self.mode == 'raise':
                    raise KeyError(2)
                if self.mode == 'bad':
                    return 'x'
                return self.s[self.p]
            lend = giveo
        model = Model(v, tags, cells)
        gc.disable()
        gc.collect()
        gc.freeze()
        pv = PV()

        class Impl(object):
            def __init__(self):
                self.s = [None, None]

            def do(self, op):
                name = op[0]
                p = op[1] if len(op) > 1 else None
                s = self.s
                pv.s, pv.p, pv.mode = s, p, ''
                ret = None
                if name in ('new', 'newS'):
                    s[p] = M.K(p) if name == 'new' else S(p)
                elif name in ('make', 'mkval', 'makenew'):
                    s[p] = getattr(M, name)(p)
                elif name == 'copyctor':
                    s[1 - p] = M.K(s[p])
                elif name == 'drop':
                    s[p] = None
                elif name == 'alias':
                    s[1 - p] = s[p]
                elif name == 'tag':
                    s[p].tag = p
                elif name in ('peek', 'peekc', 'peekr', 'peeko', 'peeka', 'take'):
                    s[p] = M.att().k if name == 'peeka' else getattr(M, name)()
                    if s[p] is None:
                        ret = 'None'
                elif name in ('vtake', 'vtakec', 'vtakeo', 'vtakeo2', 'vtakeraise'):
                    pv.mode = 'raise' if name == 'vtakeraise' else ''
                    r = getattr(M, name.replace('raise', ''))(pv)
                    ret = ('None' if s[p] is None else None, r)
                elif name in ('put', 'putn', 'putc', 'putr', 'puto', 'puton'):
                    getattr(M, name)(s[p])
                elif name == 'puta':
                    M.att().k = s[p]
                elif name in ('vgive', 'vlend'):
                    getattr(M, name)(pv)
                elif name in ('vgiveraise', 'vgivebad'):
                    pv.mode = name[5:]
                    M.vgive(pv)
                elif name == 'cnew':
                    M.cnew(p)
                elif name == 'clear':
                    M.clear()
                elif name == 'putnone':
                    (M.puton if rc else M.putn)(None)
                elif name == 'use':
                    k = s[p]
                    ret = (k.get(), M.useptr(k), (M.usecptr if rc else M.useptr)(k), M.usenull(k), M.useref(k) + M.usecref(k) - k.get(), M.useval(k),
                           k.hook(), M.callhook(k))
                elif name == 'slothook':
                    ret = M.slothook()
                elif name == 'putobad':
                    ret = 0
                    for f, a in ((M.puto, (s[p], 1)), (M.puto, (3,)), (M.puton, (s[p], 1)), (M.put, (s[p], 1)), (M.useval, (s[p], 2)),
                                 (M.useref, (s[p], 1))):
                        try:
                            f(*a)
                            ret += 1
                        except TypeError:
                            pass
                pv.s = None
                for a in ('last_exc', 'last_value', 'last_traceback', 'last_type'):
                    if hasattr(sys, a):
                        delattr(sys, a)
                if sub:
                    gc.collect()
                obs = []
                for k in s:
                    if k is None:
                        obs.append(None)
                    else:
                        obs.append((k.get(), k.refs(), type(k) is not M.K, getattr(k, 'tag', None)))
                return (ret, tuple(obs), s[0] is not None and s[0] is s[1], lib.pbmc_live(),
                        (lib.pbmc_slot(0), lib.pbmc_slot(1)), lib.pbmc_bad())

            def end(self, state):
                self.s[:] = [None, None]
                if sub:
                    gc.collect()
                want = 1 if state[3] is not None else 0
                if lib.pbmc_live() != want:
                    x.fail('%d objects alive after dropping every variable, C++ holds %d' % (lib.pbmc_live(), want))
                M.clear()
                if sub:
                    gc.collect()
                if lib.pbmc_live() or lib.pbmc_bad():
                    x.fail('at the end %d objects are alive and %d were misused' % (lib.pbmc_live(), lib.pbmc_bad()))

        def impl():
            M.clear()
            if sub:
                gc.collect()
            lib.pbmc_reset()
            return Impl()
        explore_model(x, model, impl, depth, max_cover=maxc)
    return explore


def scenario(name, v, depth, maxc, shards=2, tags=True, cells=False, **kw):
    settings = {}
    if v.get('registry', True):
        settings['wrapper_registry'] = 'StdMapWrapperRegistry'
    return Scenario(name, header(v), make_gen(v), make_explore(v, depth, maxc, tags, cells), settings=settings, shards=shards, **kw)
