"""C12: the cycle collector reclaims every unreachable cycle and nothing else."""
import gc
import shared
from pbmc import Scenario
from pbmc.explore import explore_model

LEVEL = 'model_checking'
BOUNDS = {'quick': 'two Python variables, one attribute link per wrapper, one C++ holder, up to 4 wrappers including uncollected garbage; '
                   'every sequence of 3 operations (collector runs among them) and the edges of the first states of the model graph',
          'thorough': 'every sequence of 4 operations and all edges of the model graph; again under AddressSanitizer'}
ASSUMPTIONS = ['classes that are subclassed in Python and held by C++ declare their peekref function (the tutorial asks for it)',
               'C++ does not destroy an object to which Python still holds a borrowed wrapper (documented restriction)']

PLAIN_HEADER = r'''
struct K {
    Track t; int v;
    K(int v_ = 0) : v(v_) {}
    K(K const &o) : t(o.t), v(o.v) {}
    int get() const { t.use(); return v; }
    VIRTUAL int hook() const { t.use(); return 10 + v; }
    virtual ~K() {}
    static void *operator new(size_t n) { return malloc(n); }
    static void operator delete(void *p) { FREE }
};
inline K *&holder() { static K *h; return h; }
inline void give(K *k) { K *old = holder(); holder() = k; delete old; }
inline void put(K *k) { give(k); }
inline K *peek() { return holder(); }
inline K *take() { K *k = holder(); holder() = NULL; return k; }
inline K *make(int v) { return new K(v); }
inline void cnew(int v) { give(new K(v)); }
inline void clear() { give(NULL); }
PBMC_C int pbmc_slot(int what);
PBMC_C int pbmc_slot(int what) { K *k = holder(); return !k ? -1 : k->get(); }
'''


def plain_gen(v):
    def gen(mod):
        from pybindgen import param, retval
        K = mod.add_class('K', allow_subclassing=True)
        K.add_constructor([param('int', 'v', default_value='0')])
        K.add_copy_constructor()
        K.add_method('get', 'int', [], is_const=True)
        K.add_method('hook', 'int', [], is_const=True, is_virtual=v.get('virt', True))
        f = mod.add_function
        f('put', None, [param('K *', 'k', transfer_ownership=True)])
        f('peek', retval('K *', reference_existing_object=True), [])
        f('take', retval('K *', caller_owns_return=True), [])
        f('make', retval('K *', caller_owns_return=True), [param('int', 'v')])
        f('cnew', None, [param('int', 'v')])
        f('clear', None, [])
    return gen


class Model(object):
    """State: (slots, wrappers, objects, holder)

    wrappers: (object or None, is S, owned, link)   objects: (value, wrapper the helper object refers to)
    Nothing but unreachable cycles is kept until the collector runs.
    """
    MAXW = 4

    def __init__(self, v):
        self.rc = v['kind'] == 'rc'
        self.virt = v.get('virt', True)
        self.registry = v.get('registry', True)

    def init(self):
        return ((None, None), (), (), None)

    def ops(self, s):
        out = []
        room = len(s[1]) < self.MAXW
        for p in (0, 1):
            if room:
                out += [('new', p), ('newS', p), ('make', p)]
            if s[3] is not None and room:
                out += [('peek', p), ('take', p)]
            if s[0][p] is not None:
                w = s[1][s[0][p]]
                out += [('drop', p)]
                if s[0][1 - p] is not None:
                    out.append(('link', p, 1 - p))
                out += [('link', p, p), ('bound', p)] if w[1] else [('link', p, p)]
                if w[3] is not None:
                    out += [('unlink', p), ('follow', p)]
                if w[0] is not None and (self.rc or w[2] and sum(1 for y in s[1] if y[0] == w[0]) == 1):
                    if self.rc or s[3] is None or not self.seen(s):
                        out.append(('put', p))
        if s[3] is not None and (self.rc or not self.seen(s)):
            out.append(('clear',))
        if s[3] is None:
            out.append(('cnew', 0))
        out.append(('gc',))
        return out

    def seen(self, s):
        """is there a Python wrapper (garbage included) of the object held by C++, other than its own helper's?"""
        o = s[2][s[3]]
        if any(w[0] == s[3] and i != o[1] for i, w in enumerate(s[1])):
            return True
        if o[1] is None:
            return False
        return bool(s[1][o[1]][0] is not None)

    def step(self, s, op):
        slots = list(s[0])
        W = {i: list(w) for i, w in enumerate(s[1])}
        O = {i: list(o) for i, o in enumerate(s[2])}
        hold = [s[3]]
        name = op[0]
        p = op[1] if len(op) > 1 else None
        ret = None

        def newobj(val, helper=None):
            i = max(list(O) + [-1]) + 1
            O[i] = [val, helper]
            return i

        def wrap(o, S=False, owned=True):
            i = max(list(W) + [-1]) + 1
            W[i] = [o, S, owned, None]
            return i

        def owners(o):
            return ([hold] if hold[0] == o else []) + [w for w in W.values() if w[0] == o and w[2]]

        def kill_wrapper(i):
            w = W.pop(i)
            for y in W.values():
                if y[3] == i:
                    y[3] = None
            for o in O.values():
                if o[1] == i:
                    o[1] = None

        def settle():
            again = True
            while again:
                again = False
                for o in list(O):
                    if not owners(o):
                        O.pop(o)
                        for w in W.values():
                            if w[0] == o:
                                w[0] = None
                        again = True
                refd = set(x for x in slots if x is not None)
                refd |= set(w[3] for w in W.values() if w[3] is not None)
                refd |= set(o[1] for o in O.values() if o[1] is not None)
                for i in list(W):
                    if i not in refd:
                        kill_wrapper(i)
                        again = True

        def collect():
            live = set(x for x in slots if x is not None)
            again = True
            while again:
                n = len(live)
                for i in list(live):
                    if W[i][3] is not None:
                        live.add(W[i][3])
                for o, d in O.items():
                    if d[1] is None:
                        continue
                    # the helper object is kept by C++, or by another wrapper
                    if hold[0] == o or any(w[0] == o and w[2] and i in live for i, w in W.items()):
                        live.add(d[1])
                again = len(live) != n
            for i in list(W):
                if i not in live:
                    W.pop(i)
                    for o in O.values():
                        if o[1] == i:
                            o[1] = None
            settle()
        if name in ('new', 'make'):
            slots[p] = wrap(newobj(p))
        elif name == 'newS':
            w = wrap(newobj(p), True)
            if self.virt:
                O[W[w][0]][1] = w
            slots[p] = w
        elif name == 'drop':
            slots[p] = None
        elif name == 'link':
            W[slots[p]][3] = slots[op[2]]
        elif name == 'bound':
            W[slots[p]][3] = slots[p]
        elif name == 'unlink':
            W[slots[p]][3] = None
        elif name == 'follow':
            slots[p] = W[slots[p]][3]
        elif name == 'put':
            w = W[slots[p]]
            hold[0] = w[0]
            if not self.rc:
                w[0], w[2] = None, False
        elif name == 'clear':
            hold[0] = None
        elif name == 'cnew':
            hold[0] = newobj(3)
        elif name in ('peek', 'take'):
            o = hold[0]
            w = O[o][1]
            if w is None and self.registry:
                c = [i for i, y in W.items() if y[0] == o]
                w = c[-1] if c else None
            if w is None:
                w = wrap(o, False, self.rc)
            W[w][0] = o
            if name == 'take':
                W[w][2] = True
                hold[0] = None
            slots[p] = w
        settle()
        if name == 'gc':
            collect()
        # canonical order: from the slots, the holder, then the garbage
        order = []

        def visit(i):
            if i is None or i in order:
                return
            order.append(i)
            visit(W[i][3])
            o = W[i][0]
            if o is not None:
                visit(O[o][1])
        for x in slots:
            visit(x)
        if hold[0] is not None:
            visit(O[hold[0]][1])
        for i in sorted(W):
            visit(i)
        oo = []
        for x in ([hold[0]] if hold[0] is not None else []) + [W[i][0] for i in order if W[i][0] is not None]:
            if x not in oo:
                oo.append(x)
        assert set(oo) == set(O), (oo, O)
        ix = lambda x, l: None if x is None else l.index(x)
        s2 = (tuple(ix(x, order) for x in slots),
              tuple((ix(W[i][0], oo), W[i][1], W[i][2], ix(W[i][3], order)) for i in order),
              tuple((O[i][0], ix(O[i][1], order)) for i in oo),
              ix(hold[0], oo))
        obs = []
        for x in s2[0]:
            if x is None:
                obs.append(None)
            else:
                w = s2[1][x]
                val = 'gone' if w[0] is None else s2[2][w[0]][0]
                l = w[3]
                lv = None if l is None else ('self' if l == x else ('gone' if s2[1][l][0] is None else s2[2][s2[1][l][0]][0]))
                obs.append((val, w[1], lv))
        same = s2[0][0] is not None and s2[0][0] == s2[0][1]
        return s2, (tuple(obs), same, len(oo), -1 if s2[3] is None else s2[2][s2[3]][0], 0)


def make_explore(v):
    def explore(M, x):
        lib = x.clib()

        class S(M.K):
            def __init__(self, n):
                super(S, self).__init__(n)

            def hook(self):
                return 20 + self.get()
        model = Model(v)
        gc.disable()
        gc.collect()
        gc.freeze()

        class Impl(object):
            def __init__(self):
                self.s = [None, None]
                self.state = model.init()

            def do(self, op):
                name = op[0]
                p = op[1] if len(op) > 1 else None
                s = self.s
                if name == 'new':
                    s[p] = M.K(p)
                elif name == 'newS':
                    s[p] = S(p)
                elif name == 'make':
                    s[p] = M.make(p)
                elif name == 'drop':
                    s[p] = None
                elif name == 'link':
                    s[p].n = s[op[2]]
                elif name == 'bound':
                    s[p].n = s[p].hook
                elif name == 'unlink':
                    del s[p].n
                elif name == 'follow':
                    n = s[p].n
                    s[p] = getattr(n, '__self__', n)
                    n = None
                elif name == 'put':
                    M.put(s[p])
                elif name in ('peek', 'take'):
                    s[p] = getattr(M, name)()
                elif name == 'cnew':
                    M.cnew(3)
                elif name == 'clear':
                    M.clear()
                elif name == 'gc':
                    gc.collect()
                self.state, want = model.step(self.state, op)
                obs = []
                for i in (0, 1):
                    k = s[i]
                    if k is None:
                        obs.append(None)
                        continue
                    l = getattr(k, 'n', None)
                    l = getattr(l, '__self__', l)
                    e = want[0][i]
                    lv = None if l is None else 'self' if l is k else 'gone' if e and e[2] == 'gone' else l.get()
                    obs.append(('gone' if e and e[0] == 'gone' else k.get(), type(k) is S, lv))
                k = l = None
                return (tuple(obs), s[0] is not None and s[0] is s[1], lib.pbmc_live(), lib.pbmc_slot(0), lib.pbmc_bad())

            def end(self, state):
                self.s[:] = [None, None]
                gc.collect()
                want = 1 if state[3] is not None else 0
                # an object C++ holds may refer to others through the attributes of its wrapper
                if state[3] is not None:
                    seen, todo = set(), [state[2][state[3]][1]]
                    while todo:
                        w = todo.pop()
                        if w is None or w in seen:
                            continue
                        seen.add(w)
                        todo.append(state[1][w][3])
                    want = len(set([state[3]]) | set(state[1][w][0] for w in seen if state[1][w][0] is not None))
                if lib.pbmc_live() != want:
                    x.fail('%d objects alive after dropping every variable, expected %d' % (lib.pbmc_live(), want))
                M.clear()
                gc.collect()
                if lib.pbmc_live() or lib.pbmc_bad():
                    x.fail('at the end %d objects are alive and %d were misused' % (lib.pbmc_live(), lib.pbmc_bad()))

        def impl():
            M.clear()
            gc.collect()
            lib.pbmc_reset()
            return Impl()
        explore_model(x, model, impl, 4 if x.thorough and not v.get('asan') else 3, max_cover=6000 if x.thorough else 250)
    return explore


VARIANTS = {
    'plain': {'kind': 'plain'},
    'plainnull': {'kind': 'plain', 'registry': False},
    'novirt': {'kind': 'plain', 'virt': False},
    'rc': {'kind': 'rc'},
    'rcnull': {'kind': 'rc', 'registry': False},
    'rcfunc': {'kind': 'rc', 'functions': True, 'registry': False},
    'rcnovirt': {'kind': 'rc', 'virt': False},
}


def scenarios(tier):
    out = []
    th = tier == 'thorough'
    for n, v in sorted(VARIANTS.items()):
        settings = {'wrapper_registry': 'StdMapWrapperRegistry'} if v.get('registry', True) else {}
        v = dict(v, sub=True)
        virt = 'virtual' if v.get('virt', True) else ''

        def mk(name, v, free, **kw):
            if v['kind'] == 'rc':
                return Scenario(name, shared.header(v), shared.make_gen(v), make_explore(v), settings=settings, **kw)
            return Scenario(name, PLAIN_HEADER.replace('VIRTUAL', virt).replace('FREE', free), plain_gen(v), make_explore(v), settings=settings, **kw)
        out.append(mk(n, v, '', shards=8 if th else 3))
        if th:
            out.append(mk(n + '_asan', dict(v, asan=True), 'free(p);', asan=True, shards=4))
    return out
