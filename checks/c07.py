"""C07: every C++ object is destroyed exactly once, by its owner, and never used after."""
import ctypes
import gc
from pbmc import Scenario
from pbmc.explore import explore_model

LEVEL = 'model_checking'
BOUNDS = {'quick': 'two Python variables, one C++ slot, one C++ list entry; every sequence of 2 operations and every edge of the full '
                   'reachable model graph; 7 configurations of registry, memory policy and subclassing',
          'thorough': 'every sequence of 3 operations, every edge of the model graph, again under AddressSanitizer'}
ASSUMPTIONS = ['a wrapper whose object was transferred to C++ is only dropped (documented restriction)',
               'C++ does not delete an object to which Python still holds a borrowed wrapper (documented restriction)']

HEADER = r'''
struct K;
void k_free(K *k);
struct K {
    Track t; int v;
    K(int v_ = 0) : v(v_) {}
    K(K const &o) : t(o.t), v(o.v) {}
    virtual ~K() {}
    int get() const { t.use(); return v; }
    void set(int x) { t.use(); v = x; }
    virtual int hook() const { t.use(); return 10 + v; }
    static void *operator new(size_t n) { return malloc(n); }
    static void operator delete(void *) {}
};
inline void k_free(K *k) { delete k; }
inline K *&slot() { static K *s; return s; }
inline void store(K *k) { if (slot()) slot()->t.use(); delete slot(); slot() = k; }
inline void storen(K *k) { store(k); }
inline void sink(K *k) { delete k; }
inline void put(K k) { store(new K(k)); }
inline K *peek() { return slot(); }
inline K const *cpeek() { return slot(); }
inline K *peekcopy() { return slot(); }
inline K const &refcopy() { return *slot(); }
inline K &refpeek() { return *slot(); }
inline K valcopy() { return *slot(); }
inline K *release() { K *k = slot(); slot() = NULL; return k; }
inline K *make(int v) { return new K(v); }
inline K *fac(int v) { return new K(v); }
inline K makeval(int v) { return K(v); }
inline int useptr(K *k) { return k->get(); }
inline int usecptr(K const *k) { return k->get(); }
inline int usenull(K *k) { return k ? k->get() : -1; }
inline int useref(K &k) { return k.get(); }
inline int usecref(K const &k) { return k.get(); }
inline int useval(K k) { return k.get(); }
inline int callhook(K *k) { return k->hook(); }
PBMC_C int pbmc_slotval(); PBMC_C int pbmc_slotval() { return slot() ? slot()->get() : -1; }
PBMC_C void pbmc_slotdel(); PBMC_C void pbmc_slotdel() { delete slot(); slot() = NULL; }
inline void slotdel() { delete slot(); slot() = NULL; }
inline int slothook() { return slot()->hook(); }
'''


def make_gen(v):
    def gen(mod):
        from pybindgen import param, retval, cppclass
        kw = {}
        if v.get('free'):
            kw['memory_policy'] = cppclass.FreeFunctionPolicy('k_free')
        K = mod.add_class('K', allow_subclassing=v.get('sub', False), **kw)
        K.add_constructor([param('int', 'v', default_value='0')])
        K.add_copy_constructor()
        K.add_method('get', 'int', [], is_const=True)
        K.add_method('set', None, [param('int', 'x')])
        K.add_method('hook', 'int', [], is_const=True, is_virtual=True)
        P = lambda **k: param('K *', 'k', **k)
        mod.add_function('store', None, [P(transfer_ownership=True)])
        mod.add_function('storen', None, [P(transfer_ownership=True, null_ok=True, default_value='NULL')])
        mod.add_function('sink', None, [P(transfer_ownership=True)])
        mod.add_function('put', None, [param('K', 'k')])
        mod.add_function('peek', retval('K *', reference_existing_object=True), [])
        mod.add_function('cpeek', retval('K const *', caller_owns_return=False, reference_existing_object=True), [])
        mod.add_function('peekcopy', retval('K *', caller_owns_return=False), [])
        mod.add_function('refcopy', retval('K const &'), [])
        mod.add_function('refpeek', retval('K &', reference_existing_object=True), [])
        mod.add_function('valcopy', retval('K'), [])
        mod.add_function('release', retval('K *', caller_owns_return=True), [])
        mod.add_function('make', retval('K *', caller_owns_return=True), [param('int', 'v')])
        mod.add_function('fac', retval('K *', free_after_copy=True), [param('int', 'v')])
        mod.add_function('makeval', retval('K'), [param('int', 'v')])
        mod.add_function('useptr', 'int', [P(transfer_ownership=False)])
        mod.add_function('usecptr', 'int', [param('K const *', 'k')])
        mod.add_function('usenull', 'int', [P(transfer_ownership=False, null_ok=True)])
        mod.add_function('useref', 'int', [param('K &', 'k')])
        mod.add_function('usecref', 'int', [param('K const &', 'k')])
        mod.add_function('useval', 'int', [param('K', 'k')])
        mod.add_function('callhook', 'int', [P(transfer_ownership=False)])
        mod.add_function('slotdel', None, [])
        mod.add_function('slothook', 'int', [])
    return gen


class Model(object):
    """State: (slots, wrappers, objects, cslot)

    wrappers: tuple of (object or None, owned, is S)    objects: tuple of (value, helper's wrapper or None)
    """
    def __init__(self, registry, sub):
        self.registry, self.sub = registry, sub

    def init(self):
        return ((None, None), (), (), None)

    # mutable view
    class St(object):
        def __init__(self, s):
            self.slots = list(s[0])
            self.w = [list(x) for x in s[1]]
            self.o = [list(x) for x in s[2]]
            self.c = s[3]

        def new(self, v, helper=None):
            self.o.append([v, helper])
            return len(self.o) - 1

        def wrap(self, o, owned, sub=False):
            self.w.append([o, owned, sub])
            return len(self.w) - 1

        def kill(self, o):
            """C++ object o is destroyed"""
            for w in self.w:
                if w[0] == o:
                    w[0] = 'dangling'
            self.o[o] = None
            if self.c == o:
                self.c = None

        def settle(self):
            """destroy what has no owner left"""
            again = True
            while again:
                again = False
                live = set(x for x in self.slots if x is not None)
                for i, o in enumerate(self.o):
                    # a helper object owned by C++ keeps its wrapper
                    if o is not None and o[1] is not None and not self.w[o[1]][1]:
                        live.add(o[1])
                for i, w in enumerate(self.w):
                    if w is not None and i not in live:
                        if w[1] and isinstance(w[0], int) and self.o[w[0]] is not None:
                            o = w[0]
                            self.w[i] = None
                            self.killo(o)
                            again = True
                        else:
                            self.w[i] = None

        def killo(self, o):
            for w in self.w:
                if w is not None and w[0] == o:
                    w[0] = 'dangling'
            self.o[o] = None

        def freeze(self):
            self.settle()
            wn, on = {}, {}
            order = [x for x in self.slots if x is not None]
            if self.c is not None and self.o[self.c][1] is not None:
                order.append(self.o[self.c][1])
            for x in order:
                wn.setdefault(x, len(wn))
            for x in sorted(wn, key=wn.get):
                if isinstance(self.w[x][0], int):
                    on.setdefault(self.w[x][0], len(on))
            if self.c is not None:
                on.setdefault(self.c, len(on))
            assert set(on) == set(i for i, o in enumerate(self.o) if o is not None), (self.__dict__, on)
            return (tuple(None if x is None else wn[x] for x in self.slots),
                    tuple((on[self.w[x][0]] if isinstance(self.w[x][0], int) else self.w[x][0], self.w[x][1], self.w[x][2])
                          for x in sorted(wn, key=wn.get)),
                    tuple((self.o[x][0], None if self.o[x][1] is None else wn.get(self.o[x][1]))
                          for x in sorted(on, key=on.get)),
                    None if self.c is None else on[self.c])

    def usable(self, s, p):
        x = s[0][p]
        return x is not None and isinstance(s[1][x][0], int)

    def borrowed(self, s):
        """Is there a Python variable through which the object in the C++ slot is visible?"""
        return any(x is not None and s[1][x][0] == s[3] for x in s[0]) if s[3] is not None else False

    def ops(self, s):
        out = []
        for p in (0, 1):
            out.append(('new', p))
            if self.sub:
                out.append(('newS', p))
            out += [('make', p), ('fac', p), ('makeval', p), ('peek', p), ('cpeek', p), ('peekcopy', p), ('release', p)]
            if s[3] is not None:
                out += [('refcopy', p), ('valcopy', p), ('refpeek', p)]
            if s[0][p] is not None:
                out.append(('drop', p))
                if s[0][1 - p] != s[0][p]:
                    out.append(('alias', p))
            if self.usable(s, p):
                out += [('use', p), ('mut', p), ('copyctor', p)]
                w = s[1][s[0][p]]
                if not self.borrowed(s):
                    out.append(('put', p))
                if w[1] and self.owner_ok(s, p):
                    out.append(('sink', p))
                    if not self.borrowed(s):
                        out += [('store', p), ('storen', p)]
        if s[3] is not None:
            out.append(('slothook',))
            if not self.borrowed(s):
                out += [('slotdel',), ('clear',), ('cleardef',)]
        out.append(('badargs',))
        return out

    def owner_ok(self, s, p):
        """giving the object away must not leave a second wrapper of it around that could be used"""
        o = s[1][s[0][p]][0]
        return sum(1 for w in s[1] if w[0] == o) == 1

    def step(self, s, op):
        st = self.St(s)
        name = op[0]
        p = op[1] if len(op) > 1 else None
        ret = None
        q = None if p is None else 1 - p

        def cdel():
            if st.c is not None:
                o = st.c
                h = st.o[o][1]
                st.c = None
                st.killo(o)
                if h is not None:
                    st.w[h][0] = 'dead'
        def find(o):
            """the wrapper C++ -> Python conversion of the existing object o finds"""
            if st.o[o][1] is not None:
                return st.o[o][1]
            if self.registry:
                for i, w in enumerate(st.w):
                    if w[0] == o:
                        return i
            return None
        if name in ('new', 'make', 'makeval', 'fac'):
            st.slots[p] = st.wrap(st.new(p), True)
        elif name == 'newS':
            w = st.wrap(None, True, True)
            st.w[w][0] = st.new(p, w)
            st.slots[p] = w
        elif name == 'drop':
            st.slots[p] = None
        elif name == 'alias':
            st.slots[q] = st.slots[p]
        elif name == 'copyctor':
            w = st.w[st.slots[p]]
            v = st.o[w[0]][0]
            st.slots[q] = st.wrap(st.new(v), True)
        elif name == 'use':
            w = st.w[st.slots[p]]
            v = st.o[w[0]][0]
            hook = (20 if w[2] else 10) + v
            ret = (v,) * 7 + (hook, hook)
        elif name == 'mut':
            o = st.o[st.w[st.slots[p]][0]]
            o[0] ^= 2
        elif name in ('store', 'storen'):
            w = st.w[st.slots[p]]
            cdel()
            st.c = w[0]
            w[0] = 'dead'
            w[1] = False
        elif name == 'sink':
            w = st.w[st.slots[p]]
            o = w[0]
            st.o[o] = None
            w[0], w[1] = 'dead', False
        elif name == 'put':
            v = st.o[st.w[st.slots[p]][0]][0]
            cdel()
            st.c = st.new(v)
        elif name in ('peek', 'cpeek', 'release', 'peekcopy', 'refpeek'):
            if st.c is None:
                st.slots[p] = None
                ret = 'None'
            else:
                o = st.c
                w = find(o)
                if w is None:
                    if name == 'peekcopy':
                        w = st.wrap(st.new(st.o[o][0]), True)
                    else:
                        w = st.wrap(o, False)
                else:
                    st.w[w][0] = o
                if name == 'release':
                    st.w[w][1] = True
                    st.c = None
                st.slots[p] = w
        elif name in ('refcopy', 'valcopy'):
            o = st.c
            st.slots[p] = st.wrap(st.new(st.o[o][0]), True)
        elif name == 'slothook':
            o = st.o[st.c]
            ret = (20 if o[1] is not None else 10) + o[0]
        elif name in ('slotdel', 'clear', 'cleardef'):
            cdel()
            if name == 'clear':
                ret = True
        elif name == 'badargs':
            ret = 0
        else:
            assert 0, name
        s2 = st.freeze()
        obs = []
        for x in s2[0]:
            if x is None:
                obs.append(None)
            else:
                o = s2[1][x][0]
                obs.append(s2[2][o][0] if isinstance(o, int) else 'gone')
        same = s2[0][0] is not None and s2[0][0] == s2[0][1]
        return s2, (ret, tuple(obs), same, len(s2[2]), -1 if s2[3] is None else s2[2][s2[3]][0], 0)


def make_explore(v):
    def explore(M, x):
        lib = x.clib()
        registry = v.get('registry', True)
        sub = v.get('sub', False)
        S = None
        if sub:
            class S(M.K):
                def __init__(self, n):
                    super(S, self).__init__(n)

                def hook(self):
                    return 20 + self.get()
        model = Model(registry, sub)
        gc.disable()
        gc.collect()
        gc.freeze()

        class Impl(object):
            def __init__(self):
                self.s = [None, None]
                self.state = model.init()

            def do(self, op):
                name = op[0]
                p = op[1] if len(op) > 1 else None
                s = self.s
                ret = None
                if name in ('new', 'newS', 'make', 'fac', 'makeval'):
                    f = {'new': M.K, 'newS': S}.get(name) or getattr(M, name)
                    s[p] = f(p)
                elif name == 'drop':
                    s[p] = None
                elif name == 'alias':
                    s[1 - p] = s[p]
                elif name == 'copyctor':
                    s[1 - p] = M.K(s[p])
                elif name == 'use':
                    k = s[p]
                    ret = (k.get(), M.useptr(k), M.usecptr(k), M.usenull(k), M.useref(k), M.usecref(k), M.useval(k), k.hook(), M.callhook(k))
                elif name == 'mut':
                    s[p].set(s[p].get() ^ 2)
                elif name in ('store', 'storen', 'sink', 'put'):
                    getattr(M, name)(s[p])
                elif name in ('peek', 'cpeek', 'release', 'peekcopy', 'refcopy', 'valcopy', 'refpeek'):
                    r = getattr(M, name)()
                    s[p] = r
                    if r is None:
                        ret = 'None'
                elif name in ('slothook', 'slotdel'):
                    ret = getattr(M, name)()
                elif name == 'cleardef':
                    M.storen()
                elif name == 'clear':
                    # what follows the None object in memory is not its C++ object
                    before = ctypes.string_at(id(None) + 8, 64)
                    M.storen(None)
                    ret = before == ctypes.string_at(id(None) + 8, 64)
                    if not ret:
                        ctypes.memmove(id(None) + 8, before, 64)
                elif name == 'badargs':
                    n = 0
                    for f in ('store', 'sink', 'useptr', 'useref', 'useval', 'put', 'usecref'):
                        for a in ((), (3,), (None,), (M.K, 1)):
                            try:
                                getattr(M, f)(*a)
                                n += 1
                            except TypeError:
                                pass
                    try:
                        M.K('x')
                        n += 1
                    except TypeError:
                        pass
                    ret = n
                r = None
                if sub:
                    gc.collect()
                self.state, want = model.step(self.state, op)
                obs = []
                for i in (0, 1):
                    if s[i] is None:
                        obs.append(None)
                    elif want[1][i] in ('gone', None):
                        obs.append('gone')      # the documentation forbids touching it
                    else:
                        obs.append(s[i].get())
                return (ret, tuple(obs), s[0] is not None and s[0] is s[1], lib.pbmc_live(), lib.pbmc_slotval(), lib.pbmc_bad())

            def end(self, state):
                self.s[:] = [None, None]
                if sub:
                    gc.collect()
                n = lib.pbmc_live()
                if n != (lib.pbmc_slotval() >= 0):
                    x.fail('%d objects alive after dropping every variable, C++ owns %d' % (n, lib.pbmc_slotval() >= 0))
                M.slotdel()
                if sub:
                    gc.collect()
                if lib.pbmc_live() or lib.pbmc_bad():
                    x.fail('at the end %d objects are alive and %d were misused' % (lib.pbmc_live(), lib.pbmc_bad()))

        def impl():
            M.slotdel()
            if sub:
                gc.collect()
            lib.pbmc_reset()
            return Impl()
        explore_model(x, model, impl, 3 if x.thorough and not v.get('asan') else 2, max_cover=None if x.thorough else 400)
    return explore


VIRT_HEADER = r'''
struct V {
    virtual ~V() {}
    virtual int vgive(K *k) { delete k; return 0; }
    virtual int vlend(K *k) { return k->get(); }
    virtual int vclend(K const *k) { return k->get(); }
    virtual int vio(K *k) { return k->get(); }
    virtual int vref(K &k) { return k.get(); }
    virtual int vrefio(K &k) { return k.get(); }
    virtual int vcref(K const &k) { return k.get(); }
    virtual int vval(K k) { return k.get(); }
    virtual K rval() { return K(1); }
    virtual K *rown() { return new K(1); }
};
inline int cgive(V *v, int n) { v->vgive(new K(n)); return n; }
inline int clend(V *v, int n) { K k(n); v->vlend(&k); return k.get(); }
inline int cclend(V *v, int n) { K k(n); v->vclend(&k); return k.get(); }
inline int cio(V *v, int n) { K k(n); v->vio(&k); return k.get(); }
inline int cref(V *v, int n) { K k(n); v->vref(k); return k.get(); }
inline int crefio(V *v, int n) { K k(n); v->vrefio(k); return k.get(); }
inline int ccref(V *v, int n) { K k(n); v->vcref(k); return k.get(); }
inline int cval(V *v, int n) { v->vval(K(n)); return n; }
inline int crval(V *v, int n) { return v->rval().get(); }
inline int crown(V *v, int n) { K *k = v->rown(); int r = k ? k->get() : -1; delete k; return r; }
inline int cslot(V *v, int n) { v->vlend(slot()); return slot()->get(); }
inline int cslotio(V *v, int n) { v->vio(slot()); return slot()->get(); }
inline int cslotref(V *v, int n) { v->vrefio(*slot()); return slot()->get(); }
inline int cslotgive(V *v, int n) { K *k = release(); v->vgive(k); return n; }
'''
CALLS = ['give', 'lend', 'clend', 'io', 'ref', 'refio', 'cref', 'val', 'rval', 'rown', 'slot', 'slotio', 'slotref', 'slotgive']
MODES = ['drop', 'keep', 'mut', 'raise', 'keepraise', 'wrong', 'wrongtuple']


def virt_gen(v):
    def gen(mod):
        from pybindgen import param, retval
        make_gen(v)(mod)
        V = mod.add_class('V', allow_subclassing=True)
        V.add_constructor([])
        for name, p in (('vgive', param('K *', 'k', transfer_ownership=True)), ('vlend', param('K *', 'k', transfer_ownership=False)),
                        ('vclend', param('K const *', 'k')), ('vio', param('K *', 'k', transfer_ownership=False, direction=3)),
                        ('vref', param('K &', 'k')), ('vrefio', param('K &', 'k', direction=3)),
                        ('vcref', param('K const &', 'k')), ('vval', param('K', 'k'))):
            V.add_method(name, 'int', [p], is_virtual=True)
        V.add_method('rval', retval('K'), [], is_virtual=True)
        V.add_method('rown', retval('K *', caller_owns_return=True), [], is_virtual=True)
        for c in CALLS:
            mod.add_function('c' + c, 'int', [param('V *', 'v', transfer_ownership=False), param('int', 'n')])
    return gen


def virt_explore(v):
    """Objects C++ passes to an override: kept, dropped or mutated by it, which then returns, raises or returns nonsense."""
    import itertools

    def explore(M, x):
        import sys
        lib = x.clib()
        sys.excepthook = sys.unraisablehook = lambda *a: None
        sub = v.get('sub')
        KS = M.K
        if sub:
            class KS(M.K):
                pass

        class S(M.V):
            mode = 'drop'

            def got(self, k):
                self.seen = k.get()
                m = self.mode
                if 'keep' in m:
                    self.kept.append(k)
                if m == 'mut':
                    k.set(k.get() + 1)
                if 'raise' in m:
                    raise KeyError(m)
                return {'wrong': 'x', 'wrongtuple': (1, 2, 3)}.get(m, 7)
            vgive = vlend = vclend = vio = vref = vrefio = vcref = vval = got

            def rval(self):
                m = self.mode
                k = KS(8)
                self.seen = 8
                if 'keep' in m:
                    self.kept.append(k)
                if 'raise' in m:
                    raise KeyError(m)
                return {'wrong': 'x', 'wrongtuple': (1, 2, 3)}.get(m, k)
            rown = rval
        gc.disable()
        gc.collect()
        gc.freeze()
        depth = 3 if x.thorough else 2
        calls = list(itertools.product(CALLS, MODES))
        for seq in itertools.chain(*(itertools.product(calls, repeat=d) for d in range(1, depth + 1))):
            if len(seq) == 3 and not any(c.startswith('slot') for c, m in seq):
                continue
            for pre in ('', 'borrow', 'pyowned') if any(c.startswith('slot') for c, m in seq) else ('',):
                if pre == 'pyowned' and not sub or pre == 'borrow' and not v.get('registry', True) or not x.case('%s %s' % (pre, ' '.join('%s.%s' % t for t in seq))):
                    continue
                M.slotdel()
                gc.collect()
                lib.pbmc_reset()
                o = S()
                o.kept = []
                borrowed = None
                base = 0
                slotv = None
                if any(c.startswith('slot') for c, m in seq):
                    slotv = 5
                    if pre == 'pyowned':
                        k = KS(5)
                        M.store(k)
                        del k
                    else:
                        M.put(M.K(5))
                    if pre == 'borrow':
                        borrowed = M.peek()
                copies = []     # values of objects the override kept that are its own
                aliases = 0     # kept references to the object in the slot
                given = False
                for i, (c, m) in enumerate(seq):
                    if c.startswith('slot') and slotv is None:
                        continue
                    o.mode = m
                    o.seen = None
                    r = getattr(M, 'c' + c)(o, i + 1)
                    for a in ('last_exc', 'last_value', 'last_traceback', 'last_type'):
                        if hasattr(sys, a):
                            delattr(sys, a)
                    x.step()
                    x.state((c, m, pre, i, len(copies)))
                    if c.startswith('slot'):
                        was = slotv
                        shared = pre in ('borrow', 'pyowned') or c == 'slotgive'
                        if m == 'mut' and (shared and c != 'slotref' or c != 'slot'):
                            slotv += 1
                        # a reference parameter is wrapped anew, and detached afterwards
                        if c == 'slotref' and pre != 'pyowned':
                            shared = False
                        if c == 'slotref' and pre == 'pyowned':
                            shared = None
                        x.eq(o.seen, was, '%s.%s seen' % (c, m))
                        if c != 'slotgive':
                            x.eq(r, slotv, '%s.%s result' % (c, m))
                        if 'keep' in m and shared is not None:
                            if shared:
                                aliases += 1
                            else:
                                copies.append(was)
                        elif 'keep' in m:
                            copies.append(was)
                        if c == 'slotgive':
                            given = True
                            gv = slotv
                            slotv = None
                    elif c in ('rval', 'rown'):
                        x.eq(o.seen, 8, '%s.%s seen' % (c, m))
                        ok = m in ('drop', 'keep', 'mut')
                        x.eq(r, 8 if ok else 1, '%s.%s result' % (c, m))
                        if 'keep' in m:
                            copies.append(8)
                    else:
                        x.eq(o.seen, i + 1, '%s.%s seen' % (c, m))
                        want = i + 2 if m == 'mut' and c in ('io', 'refio', 'ref') and (c != 'ref' or REF_IN_ALIASES) else i + 1
                        x.eq(r, want, '%s.%s result' % (c, m))
                        if 'keep' in m:
                            copies.append(i + 1)
                if sub:
                    gc.collect()
                own = [k.get() for k in o.kept if k is not borrowed]
                alive = len(copies) + (slotv is not None or given and bool(aliases or borrowed is not None))
                if lib.pbmc_live() != alive:
                    x.fail('%d C++ objects alive, expected %d' % (lib.pbmc_live(), alive))
                borrowed = None
                o.kept = []
                del o
                gc.collect()
                if lib.pbmc_live() != (slotv is not None):
                    x.fail('%d C++ objects alive after dropping all, expected %d' % (lib.pbmc_live(), slotv is not None))
                M.slotdel()
                gc.collect()
                if lib.pbmc_live() or lib.pbmc_bad():
                    x.fail('at the end %d objects are alive and %d were misused' % (lib.pbmc_live(), lib.pbmc_bad()))
    return explore


REF_IN_ALIASES = False


VARIANTS = {
    'plain': {},
    'nullreg': {'registry': False},
    'free': {'free': True},
    'freenull': {'free': True, 'registry': False},
    'sub': {'sub': True},
    'subnull': {'sub': True, 'registry': False},
    'subfree': {'sub': True, 'free': True},
}


def scenarios(tier):
    out = []
    for name, v in sorted(VARIANTS.items()):
        settings = {}
        if v.get('registry', True):
            settings['wrapper_registry'] = 'StdMapWrapperRegistry'
        out.append(Scenario(name, HEADER, make_gen(v), make_explore(v), settings=settings, shards=2 if tier != 'thorough' else 8))
        if not v.get('free'):
            out.append(Scenario('v_' + name, HEADER + VIRT_HEADER, virt_gen(v), virt_explore(v), settings=settings, shards=1 if tier != 'thorough' else 8))
        if tier == 'thorough':
            va = dict(v, asan=True)
            hdr = HEADER.replace('static void operator delete(void *) {}', 'static void operator delete(void *p) { free(p); }')
            out.append(Scenario(name + '_asan', hdr, make_gen(va), make_explore(va), settings=settings, shards=4, asan=True))
    return out
