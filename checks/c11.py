"""C11: a custodian keeps its ward alive, and no longer than the custodian lives."""
import gc
import sys
from pbmc import Scenario
from pbmc.explore import explore_model

LEVEL = 'model_checking'
BOUNDS = {'quick': 'two custodian variables, two ward variables, two result variables; every sequence of 3 operations over them for each '
                   'placement of the relation (parameter, receiver and result on either side, before or after the call, constructors, methods, '
                   'functions, overloads) and each kind of class; the edges of the first 150 states of the model graph; '
                   'every combination of absent, None, refused and equal arguments for one call',
          'thorough': 'sequences of 4 operations and the edges of the first 2000 states of the model graph'}
ASSUMPTIONS = ['a relation declared to be made before the call stays when the C++ function then throws',
               'a custodian whose class has no instance dictionary makes the call fail with AttributeError']

HEADER = r'''
#include <set>
#include <memory>
inline std::set<int> &alive() { static std::set<int> s; return s; }
struct Reg {
    int v; unsigned magic;
    Reg(int v_) : v(v_), magic(0x600DF00Du) { alive().insert(v); }
    ~Reg() { alive().erase(v); magic = 0; }
    int get() const { return magic == 0x600DF00Du ? v : -1; }
private:
    Reg(Reg const &);
    Reg &operator=(Reg const &);
};
inline int alive_count() { return alive().size(); }
inline int alive_at(int i) { std::set<int>::const_iterator it = alive().begin(); while (i--) ++it; return *it; }
struct W {
    Reg r;
    RCDECL
    W(int v) : r(v) RCINIT {}
    int get() const { return r.get(); }
    void attach(PTR(C) c);
    bool operator==(W const &) const { return true; }
    bool operator!=(W const &) const { return false; }
};
struct C {
    Reg r; W in;
    RCDECL
    C(int v) : r(v), in(v + 1000) RCINIT {}
    C(int v, PTR(W) w) : r(v), in(v + 1000) RCINIT { if (w) w->get(); }
    int get() const { return r.get(); }
    void put(PTR(W) w) { if (w) w->get(); }
    void both(int, PTR(W) w) { if (w) w->get(); }
    void both(PTR(W) w) { if (w) w->get(); }
    PTR(W) fetch(int v) { return v < 0 ? PTR(W)() : PTR(W)(new W(v)); }
    W *inner() { return r.get() < 0 ? NULL : &in; }
    W *noinner() { return NULL; }
    W &innerref() { return in; }
    static void stat(PTR(C) c, PTR(W) w) { if (c) c->get(); if (w) w->get(); }
};
inline void W::attach(PTR(C) c) { if (c) c->get(); }
inline void add(PTR(C) c, PTR(W) w) { if (c) c->get(); if (w) w->get(); }
inline void addpost(PTR(C) c, PTR(W) w) { add(c, w); }
inline void addopt(PTR(C) c, PTR(W) w, int = 0) { add(c, w); }
inline void addr(C &c, W &w) { c.get(); w.get(); }
inline void addm(CSELF c, PTR(W) w) { if (w) w->get(); }
inline void own(PTR(C) c, PTR(C) d) { if (c) c->get(); if (d) d->get(); }
inline PTR(C) make(int v, PTR(W) w) { if (w) w->get(); return v < 0 ? PTR(C)() : PTR(C)(new C(v)); }
inline PTR(W) child(PTR(C) c, int v) { if (c) c->get(); return v < 0 ? PTR(W)() : PTR(W)(new W(v)); }
inline void two(PTR(C) c, PTR(W) w, PTR(C) d) { add(c, w); if (d) d->get(); }
inline PTR(W) thrower(PTR(C) c, PTR(W) w) { add(c, w); throw Err(); }
inline int num(PTR(C) c, PTR(W) w, int n) { add(c, w); return n; }
'''

RCDECL = 'int refs; void ref() { refs++; } void unref() { if (!--refs) delete this; }'


def header(v):
    pre = 'struct Err { int x; };\nstruct C;\n'
    if v['kind'] == 'sp':
        pre += '#define PTR(T) std::shared_ptr<T>\n#define CSELF C &\n'
    else:
        pre += 'template <class T> struct ptr_ { typedef T *t; };\n#define PTR(T) ptr_<T>::t\n#define CSELF C *\n'
    h = HEADER
    if v['kind'] == 'rc':
        h = h.replace('RCDECL', RCDECL).replace('RCINIT', ', refs(1)')
    else:
        h = h.replace('RCDECL', '').replace('RCINIT', '')
    return '#include <memory>\n' + pre + h


def make_gen(v):
    def gen(mod):
        from pybindgen import param, retval, cppclass
        from pybindgen.typehandlers.smart_ptr import StdSharedPtr
        kw = {}
        sp = v['kind'] == 'sp'
        rc = v['kind'] == 'rc'

        def mp(name):
            if rc:
                return {'memory_policy': cppclass.ReferenceCountingMethodsPolicy(incref_method='ref', decref_method='unref')}
            if sp:
                return {'memory_policy': StdSharedPtr(name)}
            return {}
        err = mod.add_exception('Err', message_rvalue='"err"')
        C = mod.add_class('C', allow_subclassing=True, **mp('C'))
        W = mod.add_class('W', allow_subclassing=True, **mp('W'))

        def A(fn, custodian, ward):
            # shared pointers have no custodian= keyword
            if sp:
                fn.add_custodian_and_ward(custodian, ward)
            return fn

        def P(t, name, **k):
            if sp:
                k.pop('custodian', None)
                return param('std::shared_ptr< %s >' % t, name, **k)
            k.setdefault('transfer_ownership', False)
            return param(t + ' *', name, **k)

        def R(t, **k):
            if sp:
                k.pop('custodian', None)
                return retval('std::shared_ptr< %s >' % t, **k)
            return retval(t + ' *', caller_owns_return=True, **k)
        if v.get('eq'):
            W.add_binary_comparison_operator('==')
            W.add_binary_comparison_operator('!=')
        for K in (C, W):
            K.add_constructor([param('int', 'v')])
            K.add_method('get', 'int', [], is_const=True)
        f = mod.add_function
        # the relations
        A(C.add_constructor([param('int', 'v'), P('W', 'w', custodian=0, null_ok=True)]), 0, 2)
        A(C.add_method('put', None, [P('W', 'w', custodian=0, null_ok=True)]), 0, 1)
        A(C.add_method('both', None, [P('W', 'w', custodian=0)]), 0, 1)
        C.add_method('both', None, [param('int', 'n'), P('W', 'w')])
        A(C.add_method('fetch', R('W', custodian=0), [param('int', 'v')]), 0, -1)
        A(C.add_method('stat', None, [P('C', 'c'), P('W', 'w', custodian=1)], is_static=True), 1, 2)
        if not sp:
            C.add_method('inner', retval('W *', return_internal_reference=True), [])
            C.add_method('noinner', retval('W *', return_internal_reference=True), [])
            if not rc:
                C.add_method('innerref', retval('W &', return_internal_reference=True), [])
        W.add_method('attach', None, [P('C', 'c', null_ok=True)]).add_custodian_and_ward(1, 0)
        A(f('add', None, [P('C', 'c', null_ok=True), P('W', 'w', custodian=1, null_ok=True)]), 1, 2)
        f('addpost', None, [P('C', 'c', null_ok=True), P('W', 'w', null_ok=True)]).add_custodian_and_ward(1, 2, postcall=True)
        A(f('addopt', None, [P('C', 'c'), P('W', 'w', custodian=1, null_ok=True, default_value='NULL'),
                             param('int', 'n', default_value='0')]), 1, 2)
        if not sp:
            f('addr', None, [param('C &', 'c'), param('W &', 'w')]).add_custodian_and_ward(1, 2)
        A(f('own', None, [P('C', 'c'), P('C', 'd', custodian=1)]), 1, 2)
        A(f('make', R('C'), [param('int', 'v'), P('W', 'w', custodian=-1, null_ok=True)]), -1, 2)
        A(f('child', R('W', custodian=1), [P('C', 'c', null_ok=True), param('int', 'v')]), 1, -1)
        A(A(f('two', None, [P('C', 'c'), P('W', 'w', custodian=1), P('C', 'd', custodian=2)]), 1, 2), 2, 3)
        fn = A(f('thrower', R('W', custodian=1), [P('C', 'c'), P('W', 'w')], throw=[err]), 1, -1)
        fn.add_custodian_and_ward(1, 2, postcall=True)
        A(f('num', 'int', [P('C', 'c'), P('W', 'w', custodian=1), param('int', 'n')]), 1, 2)
        A(C.add_function_as_method('addm', None, [param('C &', 'self') if sp else P('C', 'self'), P('W', 'w', custodian=1)], custom_name='addm'), 0, 2)
        f('alive_count', 'int', [])
        f('alive_at', 'int', [param('int', 'i')])
    return gen


FORMS = ['add', 'put', 'attach', 'addpost', 'addopt', 'addr', 'both', 'stat', 'num', 'addm']


class Model(object):
    """slots: c0 c1 w0 w1 r; objects: (value, sorted tuple of ward objects); an object lives exactly as long as a slot reaches it.

    kinds: 'C', 'W', 'I' (a wrapper of the W inside of a C: its value is 1000 + that of the C, which is its ward)
    """

    def __init__(self, forms, kind, registry, results=True):
        self.forms, self.kind, self.registry, self.results = forms, kind, registry, results

    def init(self):
        return ((None,) * 5, ())

    def ops(self, s):
        slots, objs = s
        used = [o[1] for o in objs]
        vc = [v for v in range(1, 9) if v not in used][0]
        out = []
        cs = [i for i in (0, 1) if slots[i] is not None]
        ws = [i for i in (2, 3) if slots[i] is not None]
        for i in (0, 1, 2, 3):
            out.append(('new', i, vc))
            if slots[i] is not None:
                out.append(('drop', i))
        if slots[4] is not None:
            out.append(('drop', 4))
        for c in cs:
            for w in ws:
                for f in self.forms:
                    out.append((f, c, w))
            if self.results:
                out += [('fetch', c, vc), ('child', c, vc), ('fetch', c, -1)]
                if self.kind != 'sp':
                    out += [('inner', c), ('noinner', c)]
                if self.kind == 'plain':
                    out.append(('innerref', c))
                out += [('own', c, d) for d in cs]
        if self.results:
            for w in ws:
                out += [('ctor', 0, w, vc), ('make', 1, w, vc)]
            if len(cs) == 2 and ws:
                out.append(('two', 0, ws[0], 1))
        return out

    def step(self, s, op):
        slots = list(s[0])
        objs = [[k, v, set(w)] for k, v, w in s[1]]
        name = op[0]

        def new(k, v, *wards):
            objs.append([k, v, set(wards)])
            return len(objs) - 1

        def ward(c, w):
            objs[c][2].add(w)
        ret = None
        if name == 'new':
            slots[op[1]] = new('C' if op[1] < 2 else 'W', op[2])
        elif name == 'drop':
            slots[op[1]] = None
        elif name in FORMS:
            ward(slots[op[1]], slots[op[2]])
        elif name == 'own':
            ward(slots[op[1]], slots[op[2]])
        elif name in ('fetch', 'child'):
            if op[2] < 0:
                slots[4] = None
            else:
                slots[4] = new('W', op[2])
                ward(slots[op[1]], slots[4])
        elif name == 'noinner':
            slots[4] = None
        elif name in ('inner', 'innerref'):
            c = slots[op[1]]
            i = [j for j, o in enumerate(objs) if o[0] == 'I' and o[1] == 1000 + objs[c][1]]
            if i and self.registry:
                slots[4] = i[0]
            else:
                slots[4] = new('I', 1000 + objs[c][1], c)
        elif name in ('ctor', 'make'):
            slots[op[1]] = new('C', op[3], slots[op[2]])
        elif name == 'two':
            ward(slots[0], slots[op[2]])
            ward(slots[op[2]], slots[1])
        # what is left
        order = []

        def visit(i):
            if i is None or i in order:
                return
            order.append(i)
            for w in sorted(objs[i][2], key=lambda j: objs[j][1]):
                visit(w)
        for i in slots:
            visit(i)
        slots = tuple(None if i is None else order.index(i) for i in slots)
        objs = tuple((objs[i][0], objs[i][1], tuple(sorted(order.index(w) for w in objs[i][2]))) for i in order)
        live = set(o[1] for o in objs if o[0] in 'CW') | set(1000 + o[1] for o in objs if o[0] == 'C')
        return (slots, objs), (tuple(sorted(live)), tuple(None if i is None else objs[i][1] for i in slots))


class Impl(object):
    def __init__(self, M, C, W):
        self.M, self.C, self.W = M, C, W
        self.s = [None] * 5
        gc.collect()

    def do(self, op):
        M, s = self.M, self.s
        n = op[0]
        if n == 'new':
            s[op[1]] = (self.C if op[1] < 2 else self.W)(op[2])
        elif n == 'drop':
            s[op[1]] = None
        elif n in ('put', 'both', 'addm'):
            getattr(s[op[1]], n)(s[op[2]])
        elif n == 'attach':
            s[op[2]].attach(s[op[1]])
        elif n == 'stat':
            M.C.stat(s[op[1]], s[op[2]])
        elif n == 'num':
            M.num(s[op[1]], s[op[2]], 5)
        elif n in FORMS or n == 'own':
            getattr(M, n)(s[op[1]], s[op[2]])
        elif n == 'fetch':
            s[4] = s[op[1]].fetch(op[2])
        elif n == 'child':
            s[4] = M.child(s[op[1]], op[2])
        elif n in ('inner', 'innerref', 'noinner'):
            s[4] = getattr(s[op[1]], n)()
        elif n == 'ctor':
            s[op[1]] = self.C(op[3], s[op[2]])
        elif n == 'make':
            s[op[1]] = M.make(op[3], s[op[2]])
        elif n == 'two':
            M.two(s[0], s[op[2]], s[1])
        gc.collect()
        return self.alive(), tuple(None if o is None else o.get() for o in s)

    def alive(self):
        return tuple(self.M.alive_at(i) for i in range(self.M.alive_count()))

    def end(self, state):
        self.s[:] = [None] * 5
        gc.collect()
        assert self.alive() == (), 'left alive at the end: %r' % (self.alive(),)


def explorer(v, groups):
    def explore(M, x):
        C, W = M.C, M.W
        if v.get('sub'):
            class C(M.C):
                def __getattr__(self, name):
                    return [] if name == '__wards__' else object.__getattribute__(self, name)

            class W(M.W):
                def __eq__(self, other):
                    if v['sub'] == 'raise':
                        raise ValueError('do not compare')
                    return True
                __hash__ = M.W.__hash__
        gc.freeze()
        gc.disable()
        for i, (forms, results) in enumerate(groups):
            m = Model(forms, v['kind'], v.get('registry'), results)
            explore_model(x, m, lambda: Impl(M, C, W), 4 if x.thorough else 3, label='g%d' % i, max_cover=2000 if x.thorough else 150)
        edges(M, x, C, W, v)
        gc.enable()
    return explore


def edges(M, x, C, W, v):
    """absent, None and refused arguments, calls that fail, and repetition"""
    sp = v['kind'] == 'sp'

    def alive():
        gc.collect()
        return tuple(M.alive_at(i) for i in range(M.alive_count()))

    def call(fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:
            sys.last_exc = sys.last_value = sys.last_traceback = None
            return None, type(e).__name__

    calls = {
        'add': lambda c, w: (M.add, c, w), 'addpost': lambda c, w: (M.addpost, c, w), 'addopt': lambda c, w: (M.addopt, c, w),
        'put': lambda c, w: (C.put, c, w), 'attach': lambda c, w: (W.attach, w, c), 'both': lambda c, w: (C.both, c, w),
        'make': lambda c, w: (M.make, 7, w), 'ctor': lambda c, w: (C, 7, w), 'num': lambda c, w: (M.num, c, w, 'x'),
        'thrower': lambda c, w: (M.thrower, c, w), 'childnull': lambda c, w: (M.child, c, -1), 'child': lambda c, w: (M.child, c, 7),
        'makenull': lambda c, w: (M.make, -1, w), 'addm': lambda c, w: (C.addm, c, w),
    }
    if not sp:
        calls['addr'] = lambda c, w: (M.addr, c, w)
    takes_none = {'add': 'cw', 'addpost': 'cw', 'addopt': 'w', 'put': 'w', 'attach': 'c', 'make': 'cw', 'ctor': 'cw', 'num': '', 'thrower': '',
                  'childnull': 'cw', 'child': 'cw', 'makenull': 'cw', 'addm': '', 'addr': '', 'both': ''}
    for name in sorted(calls):
        for cv in ('ok', 'none', 'bad'):
            for wv in ('ok', 'none', 'bad'):
                def one():
                    c = {'ok': C, 'none': lambda v: None, 'bad': lambda v: 'x'}[cv](1)
                    w = {'ok': W, 'none': lambda v: None, 'bad': lambda v: 'x'}[wv](2)
                    unused = {'make': 'c', 'ctor': 'c', 'makenull': 'c', 'child': 'w', 'childnull': 'w'}.get(name, '')
                    refused = any((val == 'bad' or val == 'none' and k not in takes_none[name]) and k != unused
                                  for k, val in (('c', cv), ('w', wv)))
                    t = calls[name](c, w)
                    r, err = call(*t)
                    del t
                    if name == 'num':
                        x.eq(err, 'TypeError', 'error')
                    elif name == 'thrower':
                        x.eq(err, 'TypeError' if refused else 'Err', 'error')
                    else:
                        x.eq(err, 'TypeError' if refused else None, 'error')
                    related = not refused and err is None and cv == wv == 'ok' and name not in ('childnull', 'makenull', 'child')
                    if name in ('make', 'ctor'):
                        related = not refused and wv == 'ok'
                    c2 = r if name in ('make', 'ctor') else c
                    base = set()
                    if cv == 'ok':
                        base |= {1, 1001}
                    if not refused and name in ('make', 'ctor'):
                        base |= {7, 1007}
                    if not refused and name == 'child':
                        base |= {7}
                    x.eq(alive(), tuple(sorted(base | ({2} if wv == 'ok' else set()))), 'alive after the call')
                    del w
                    x.eq(alive(), tuple(sorted(base | ({2} if related else set()))), 'alive without the ward variable')
                    if name == 'child' and not refused:
                        x.eq(r.get(), 7)
                        r = None
                        x.eq(alive(), tuple(sorted(base if cv == 'ok' else ())), 'the result is a ward')
                    c = c2 = r = None
                    x.eq(alive(), (), 'alive without any variable')
                x.state((name, cv, wv))
                x.run('%s(%s,%s)' % (name, cv, wv), one)

    # absent
    def absent():
        c = C(1)
        for a in ((), (None,), (None, 3)):
            _, err = call(M.addopt, c, *a) if a or not sp else (None, None)
            x.eq(err, None, 'addopt%r' % (a,))
        if not sp:
            x.eq(call(M.addopt, c, n=3)[1], None)
        del c
        x.eq(alive(), ())
    x.run('absent', absent)

    def raising():
        """a later argument is refused: the relation is not made"""
        c, w = C(1), W(2)
        for i in range(3):
            x.eq(call(M.num, c, w, None)[1], 'TypeError')
            x.eq(call(C.both, c, None)[1], 'TypeError')
            x.eq(call(C.both, c, 3, w)[1], None)      # the overload that declares no relation
        del w
        x.eq(alive(), (1, 1001))
        del c
        x.eq(alive(), ())
    x.run('refused-later', raising)

    def many():
        """all of several wards are kept, each of them once"""
        c = C(1)
        for i in range(2, 12):
            w = W(i)
            for _ in range(3):
                c.put(w)
        del w
        x.eq(alive(), tuple(range(1, 12)) + (1001,))
        del c
        x.eq(alive(), ())
    x.run('many', many)

    def shared():
        """a ward of two custodians goes with the last of them"""
        for order in (0, 1):
            c, d, w = C(1), C(3), W(2)
            c.put(w)
            d.put(w)
            del w
            if order:
                del c
                x.eq(alive(), (2, 3, 1003))
                del d
            else:
                del d
                x.eq(alive(), (1, 2, 1001))
                del c
            x.eq(alive(), ())
    x.run('shared', shared)


NODICT_HEADER = r'''
struct W { Track t; W() {} W(W const &o) : t(o.t) {} int get() const { t.use(); return 4; } };
struct C { Track t; W w; C() {} int get() const { t.use(); return 3; } void put(W *) {} W *inner() { return &w; } W *fetch() { return new W; } };
inline void add(C *, W *) {}
inline C *make(W *) { return new C; }
'''


def nodict_gen(mod):
    from pybindgen import param, retval
    C = mod.add_class('C', allow_subclassing=False)
    W = mod.add_class('W', allow_subclassing=False)
    for K in (C, W):
        K.add_constructor([])
        K.add_method('get', 'int', [], is_const=True)
    C.add_method('put', None, [param('W *', 'w', transfer_ownership=False, custodian=0)])
    C.add_method('inner', retval('W *', return_internal_reference=True), [])
    C.add_method('fetch', retval('W *', caller_owns_return=True, custodian=0), [])
    mod.add_function('add', None, [param('C *', 'c', transfer_ownership=False), param('W *', 'w', transfer_ownership=False, custodian=1)])
    mod.add_function('make', retval('C *', caller_owns_return=True), [param('W *', 'w', transfer_ownership=False, custodian=-1)])


def nodict_explore(M, x):
    """The relation cannot be recorded: the call says so, or records it all the same, but never pretends."""
    lib = x.clib()
    for name in ('put', 'inner', 'fetch', 'add', 'make'):
        for rep in (1, 2, 3):
            def one():
                c, w = M.C(), M.W()
                n0 = lib.pbmc_live()
                for _ in range(rep):
                    try:
                        r = {'put': lambda: c.put(w), 'inner': c.inner, 'fetch': c.fetch, 'add': lambda: M.add(c, w),
                             'make': lambda: M.make(w)}[name]()
                    except AttributeError:
                        r = None
                        refused = True
                    else:
                        refused = False
                    x.step()
                    gc.collect()
                if refused:
                    x.eq(lib.pbmc_live(), n0, 'objects after a refused %s' % name)
                    if name != 'inner':
                        rc = sys.getrefcount(w)
                        x.eq(rc, 2, 'references to w')
                elif name == 'inner':
                    c = None
                    gc.collect()
                    x.eq(r.get(), 4)
                r = c = w = None
                gc.collect()
                x.eq(lib.pbmc_live(), 0)
                x.eq(lib.pbmc_bad(), 0)
            x.state((name, rep))
            x.run('%s*%d' % (name, rep), one)


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    sm = {'wrapper_registry': 'StdMapWrapperRegistry'}
    all_groups = [(['add', 'attach', 'put'], False), (['addpost', 'addopt', 'both'], False), (['stat', 'num', 'addm'], False), ([], True)]
    for name, v in (('plain', {'kind': 'plain'}), ('plainmap', {'kind': 'plain', 'registry': True}), ('eq', {'kind': 'plain', 'eq': True}),
                    ('sub', {'kind': 'plain', 'sub': 'true'}), ('subraise', {'kind': 'plain', 'sub': 'raise'}),
                    ('rc', {'kind': 'rc'}), ('rcmap', {'kind': 'rc', 'registry': True}), ('sp', {'kind': 'sp'}), ('spsub', {'kind': 'sp', 'sub': 'true'})):
        groups = list(all_groups)
        if v['kind'] != 'sp':
            groups.append((['addr', 'add'], False))
        if v['kind'] == 'rc':
            # the object inside of another cannot outlive it
            pass
        out.append(Scenario(name, header(v), make_gen(v), explorer(v, groups), settings=sm if v.get('registry') else {},
                            shards=8 if th else 2))
    out.append(Scenario('nodict', NODICT_HEADER, nodict_gen, nodict_explore))
    out.append(Scenario('nodictmap', NODICT_HEADER, nodict_gen, nodict_explore, settings=sm))
    return out
