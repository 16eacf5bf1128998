"""C32: implicit conversions and type transformations apply exactly where they are declared."""
import gc
import itertools
import re
from pbmc import Scenario, REPO

LEVEL = 'exploration'
RULE = ('every graph of declared conversions among three classes x ways the classes are derived from each other x ways the conversion is written in C++ x kinds of parameters x every kind of argument; '
        'transformations x kinds of classes x ownership x parameter, result, override argument and override result; the value C++ receives is computed from the declarations alone')
BOUNDS = {'quick': '336 graphs over 3 classes (5 inheritance shapes, conversion operators and converting constructors) x 13 uses of parameters x 20 kinds of arguments; 9 pairs of kinds of classes x 14 uses; '
                   'transformations: 29 operations in every valid sequence of up to 3, on 3 kinds of classes and 2 styles of holders, compared with plain pointers; every order of up to 5 registered transformations x 14 names',
          'thorough': '904 graphs (conversions declared before and after their use, in both orders); sequences of up to 4 operations; address sanitizer for the kinds of classes'}
ASSUMPTIONS = ['with overloads, the first declared one that accepts the argument is called, also if it needs a conversion',
               'a class derived from the target is passed as it is, whatever conversions it has']

ABC = 'ABC'
EDGES = [(s, t) for t in ABC for s in ABC if s != t]
SHAPES = {'flat': {}, 'BA': {'B': 'A'}, 'CB': {'C': 'B'}, 'CBA': {'B': 'A', 'C': 'B'}, 'BACA': {'B': 'A', 'C': 'A'}}
START = {'A': 1, 'B': 2, 'C': 3}


def ancestors(par, k):
    out = [k]
    while out[-1] in par:
        out.append(par[out[-1]])
    return out


class Graph(object):
    def __init__(self, n, shape, mode, edges, early):
        self.n, self.shape, self.mode, self.edges, self.early = n, shape, mode, edges, early
        self.par = SHAPES[shape]
        self.order = [k for k in ABC]
        self.key = '%s %s %s%s' % (shape, mode, ' '.join('%s>%s' % e for e in edges) or 'none', '' if early else ' late')

    def code(self, e):
        return EDGES.index(e) + 1

    def convert(self, src, tgt, v):
        "value of the parameter, None when the argument is refused"
        anc = ancestors(self.par, src)
        if tgt in anc:
            return v
        for a in anc:
            if (a, tgt) in self.edges:
                return v * 10 + self.code((a, tgt))
        return None

    def header(self):
        out = ['namespace g%d {' % self.n, 'struct A; struct B; struct C;']
        for k in self.order:
            p = self.par.get(k)
            c = ['struct %s%s {' % (k, ' : ' + p if p else '')]
            if not p:
                c.append('Track t; int v; int get() const { t.use(); return v; }')
                c.append('%s(int x = %d) : v(x) {}' % (k, START[k]))
            else:
                c.append('%s(int x = %d) : %s(x) {}' % (k, START[k], p))
            for s, t in self.edges:
                if self.mode == 'operator' and s == k:
                    c.append('operator %s() const;' % t)
                if self.mode == 'constructor' and t == k:
                    c.append('%s(%s const &);' % (k, s))
            c.append('};')
            out.append(' '.join(c))
        for e in self.edges:
            s, t = e
            if self.mode == 'operator':
                out.append('inline %s::operator %s() const { return %s(get() * 10 + %d); }' % (s, t, t, self.code(e)))
            else:
                p = self.par.get(t)
                out.append('inline %s::%s(%s const &o) : %s(o.get() * 10 + %d) {}' % (t, t, s, p or 'v', self.code(e)))
        out.append('struct H { int v; H() : v(0) {} %s };' % ' '.join(
            'int m%s(%s const &x, int n) { return x.get() * 10 + n; } static int s%s(%s x) { return x.get(); }' % (k, k, k, k) for k in ABC))
        for k in ABC:
            out.append('struct H%s { int v; H%s(%s const &x) : v(x.get()) {} int get() const { return v; } };' % (k, k, k))
            out.append('inline int val_%s(%s x) { return x.get(); }' % (k, k))
            out.append('inline int ref_%s(%s const &x) { return x.get(); }' % (k, k))
            out.append('inline int nref_%s(%s &x) { return x.get(); }' % (k, k))
            out.append('inline int ptr_%s(%s *x) { return x->get(); }' % (k, k))
            out.append('inline int cptr_%s(%s const *x) { return x->get(); }' % (k, k))
            out.append('inline int opt_%s(int n, %s x = %s(7)) { return x.get() * 10 + n; }' % (k, k, k))
            for l in ABC:
                out.append('inline int two_%s%s(%s x, %s const &y) { return x.get() * 100000 + y.get(); }' % (k, l, k, l))
                if k != l:
                    out.append('inline int over_%s%s(%s const &x) { return x.get(); } inline int over_%s%s(%s const &x) { return -x.get(); }' % (k, l, k, k, l, l))
        out.append('}')
        return '\n'.join(out)

    def gen(self, root):
        from pybindgen import param, retval
        mod = root.add_cpp_namespace('g%d' % self.n)
        ks = {}
        for k in self.order:
            c = mod.add_class(k, parent=ks.get(self.par.get(k)), allow_subclassing=True)
            c.add_constructor([param('int', 'x', default_value=str(START[k]))])
            c.add_copy_constructor()
            if not self.par.get(k):
                c.add_method('get', retval('int'), [], is_const=True)
            ks[k] = c

        def declare():
            for s, t in self.edges:
                ks[s].implicitly_converts_to(ks[t])
        if self.early:
            declare()
        def q(k):
            return 'g%d::%s' % (self.n, k)
        H = mod.add_class('H')
        H.add_constructor([])
        for k in ABC:
            H.add_method('m' + k, retval('int'), [param('%s const &' % q(k), 'x'), param('int', 'n')])
            H.add_method('s' + k, retval('int'), [param(q(k), 'x')], is_static=True)
            h = mod.add_class('H' + k)
            h.add_constructor([param('%s const &' % q(k), 'x')])
            h.add_method('get', retval('int'), [], is_const=True)
            mod.add_function('val_' + k, retval('int'), [param(q(k), 'x')])
            mod.add_function('ref_' + k, retval('int'), [param('%s const &' % q(k), 'x')])
            mod.add_function('nref_' + k, retval('int'), [param('%s &' % q(k), 'x')])
            mod.add_function('ptr_' + k, retval('int'), [param('%s *' % q(k), 'x', transfer_ownership=False)])
            mod.add_function('cptr_' + k, retval('int'), [param('%s const *' % q(k), 'x')])
            mod.add_function('opt_' + k, retval('int'), [param('int', 'n'), param(q(k), 'x', default_value='g%d::%s(7)' % (self.n, k))])
            for l in ABC:
                mod.add_function('two_' + k + l, retval('int'), [param(q(k), 'x'), param('%s const &' % q(l), 'y')])
                if k != l:
                    for t in (k, l):
                        mod.add_function('over_' + k + l, retval('int'), [param('%s const &' % q(t), 'x')])
        if not self.early:
            declare()


def arguments(g, N, Z):
    "name, object, wrapped class and value (None: no such class)"
    for k in ABC:
        cls = getattr(N, k)
        yield k, cls(), k, START[k]
        yield k + ' subclass', type('P', (cls,), {})(), k, START[k]
        sp = type('Spoof', (object,), {'__class__': property(lambda self, cls=cls: cls), 'v': 1, 'get': lambda self: 1})()
        yield k + ' spoofed', sp, None, None
        yield k + ' type', cls, None, None
        if k in g.par:
            b = getattr(N, g.par[k])
            yield k + ' subclass subclass', type('P2', (type('P', (cls,), {}),), {})(), k, START[k]
    yield 'two bases', two_bases(N), 'A', START['A']
    for n, o in (('None', None), ('int', 5), ('text', 'x'), ('other', Z), ('object', object())):
        yield n, o, None, None


def two_bases(N):
    class Mixin(object):
        pass
    return type('PM', (Mixin, N.A), {})()


def graphs_explore(gs):
    def explore(M, x):
        gc.collect()
        gc.freeze()
        lib = x.clib(M.__file__)

        def call(fn, args, want, alts=None):
            live = lib.pbmc_live()
            try:
                r = fn(*args)
                if not isinstance(r, int):
                    r = r.get()
            except TypeError:
                r = None
            x.step()
            x.eq(r, want, 'value received')
            x.eq(lib.pbmc_live(), live, 'objects')
            x.eq(lib.pbmc_bad(), 0, 'bad accesses')

        for g in gs:
            N = getattr(M, 'g%d' % g.n)
            Z = M.Z()
            args = list(arguments(g, N, Z))
            h = N.H()
            for t in ABC:
                for n, o, k, v in args:
                    conv = None if k is None else g.convert(k, t, v)
                    same = v if k is not None and t in ancestors(g.par, k) else None
                    x.state((g.key, t, n))
                    for f, a, want in (('val_', (o,), conv), ('ref_', (o,), conv), ('nref_', (o,), same), ('ptr_', (o,), same), ('cptr_', (o,), same),
                                       ('opt_', (3, o), None if conv is None else conv * 10 + 3)):
                        x.run('%s: %s%s %s' % (g.key, f, t, n), call, getattr(N, f + t), a, want)
                    x.run('%s: keyword %s %s' % (g.key, t, n), call, lambda o=o, t=t: getattr(N, 'ref_' + t)(x=o), (), conv)
                    x.run('%s: method %s %s' % (g.key, t, n), call, getattr(h, 'm' + t), (o, 4), None if conv is None else conv * 10 + 4)
                    x.run('%s: method bad %s %s' % (g.key, t, n), call, getattr(h, 'm' + t), (o, 'x'), None)
                    x.run('%s: static %s %s' % (g.key, t, n), call, getattr(N.H, 's' + t), (o,), conv)
                    x.run('%s: constructor %s %s' % (g.key, t, n), call, getattr(N, 'H' + t), (o,), conv)
                    for l in ABC:
                        if l != t:
                            second = None if k is None else g.convert(k, l, v)
                            want = conv if conv is not None else None if second is None else -second
                            x.run('%s: over_%s%s %s' % (g.key, t, l, n), call, getattr(N, 'over_' + t + l), (o,), want)
                x.run('%s: opt_%s omitted' % (g.key, t), call, getattr(N, 'opt_' + t), (3,), 73)
            small = [a for a in args if a[0] in ('A', 'B', 'C', 'B subclass', 'None', 'other')]
            for t in ABC:
                for l in ABC:
                    for a, b in itertools.product(small, small):
                        p = None if a[2] is None else g.convert(a[2], t, a[3])
                        q = None if b[2] is None else g.convert(b[2], l, b[3])
                        x.run('%s: two_%s%s %s, %s' % (g.key, t, l, a[0], b[0]), call, getattr(N, 'two_' + t + l), (a[1], b[1]), None if p is None or q is None else p * 100000 + q)
    return explore


def graphs_gen(gs):
    def gen(mod):
        z = mod.add_class('Z')
        z.add_constructor([])
        for g in gs:
            g.gen(mod)
    return gen


def all_graphs(thorough):
    out = []
    for shape in sorted(SHAPES):
        par = SHAPES[shape]
        edges = [e for e in EDGES if e[1] not in ancestors(par, e[0])]
        for mode in ('operator', 'constructor'):
            for n in range(len(edges) + 1):
                for sub in itertools.combinations(edges, n):
                    for early in ((True, False) if thorough else (True,)):
                        orders = [list(sub)]
                        if len(set(t for s, t in sub)) < len(sub) and (thorough or shape in ('CB', 'CBA')):
                            orders.append(list(sub)[::-1])
                        for o in orders:
                            out.append((shape, mode, o, early))
    return out


# -- kinds of classes, spellings of the parameter, other modules

KINDS = ('plain', 'counted', 'virtual')
SPELL = ['%s', 'const %s', '::%s', '%s const &', 'const %s &', 'const %s&', '%s const&', 'Alias%s', 'Alias%s const &']


def kind_class(name, kind, extra):
    body = {'plain': '', 'counted': 'int refs; void Ref() { t.use(); refs++; } void Unref() { t.use(); if (--refs == 0) delete this; }', 'virtual': 'virtual ~%s() {} virtual int m() const { t.use(); return v; }' % name}[kind]
    init = ', refs(1)' if kind == 'counted' else ''
    asg = 'Track t; int v; %s %s(int x = 0) : v(x)%s {} %s(%s const &o) : t(o.t), v(o.v)%s {} %s &operator=(%s const &o) { o.t.use(); v = o.v; return *this; } int get() const { t.use(); return v; } %s' % (
        body, name, init, name, name, init, name, name, extra)
    return 'struct %s { %s };' % (name, asg)


def kinds_header(pairs):
    out = []
    for i, (a, b) in enumerate(pairs):
        out.append('namespace k%d {' % i)
        out.append(kind_class('A', a, ''))
        out.append(kind_class('B', b, 'operator A() const { return A(get() * 10 + 1); }'))
        out.append('typedef A AliasA;')
        for n, sp in enumerate(SPELL):
            t = sp % ('k%d::A' % i) if '::' in sp else sp % 'A'
            out.append('inline int f%d(%s x) { return x.get(); }' % (n, t))
        out.append('struct V { virtual ~V() {} virtual int p(A const &x) { return x.get() + 2; } int run(A x) { return p(x); } protected: int q(A x) const { return x.get() + 3; } };')
        out.append('}')
    return '\n'.join(out)


def kinds_gen(pairs):
    def gen(mod):
        from pybindgen import param, retval, cppclass
        from pybindgen.typehandlers import base
        for i, kinds in enumerate(pairs):
            ns = mod.add_cpp_namespace('k%d' % i)
            ks = []
            for name, kind in zip('AB', kinds):
                kw = {'allow_subclassing': True}
                if kind == 'counted':
                    kw['memory_policy'] = cppclass.ReferenceCountingMethodsPolicy(incref_method='Ref', decref_method='Unref')
                c = ns.add_class(name, **kw)
                c.add_constructor([param('int', 'x', default_value='0')])
                c.add_copy_constructor()
                c.add_method('get', retval('int'), [], is_const=True)
                if kind == 'virtual':
                    c.add_method('m', retval('int'), [], is_const=True, is_virtual=True)
                ks.append(c)
            ks[1].implicitly_converts_to(ks[0])
            for m in ('', ' &'):
                base.add_type_alias('k%d::A%s' % (i, m), 'k%d::AliasA%s' % (i, m))
            for n, sp in enumerate(SPELL):
                t = sp % ('k%d::AliasA' % i) if 'Alias' not in sp else sp.replace('Alias%s', 'k%d::AliasA' % i)
                t = t.replace('AliasA', 'A') if 'Alias' not in sp else t
                ns.add_function('f%d' % n, retval('int'), [param(t, 'x')])
            V = ns.add_class('V', allow_subclassing=True)
            V.add_constructor([])
            V.add_method('p', retval('int'), [param('k%d::A const &' % i, 'x')], is_virtual=True)
            V.add_method('run', retval('int'), [param('k%d::A' % i, 'x')])
            V.add_method('q', retval('int'), [param('k%d::A' % i, 'x')], is_const=True, visibility='protected')
    return gen


def kinds_explore(pairs):
    def explore(M, x):
        gc.collect()
        gc.freeze()
        lib = x.clib(M.__file__)

        def call(fn, o, want):
            gc.collect()
            live = lib.pbmc_live()
            for _ in range(3):
                try:
                    r = fn(o)
                except TypeError:
                    r = None
                x.step()
                x.eq(r, want, 'value received')
            gc.collect()
            x.eq(lib.pbmc_live(), live, 'objects')
            x.eq(lib.pbmc_bad(), 0, 'bad accesses')

        for i, kinds in enumerate(pairs):
            N = getattr(M, 'k%d' % i)
            pa, pb = type('PA', (N.A,), {}), type('PB', (N.B,), {})

            class PV(N.V):
                def p(self, a):
                    assert type(a) is N.A
                    return a.get() + 100

                def callq(self, o):
                    return self.q(o)

                def callp(self, o):
                    return N.V.p(self, o)
            args = [('A', N.A(5), 5), ('B', N.B(6), 61), ('A subclass', pa(7), 7), ('B subclass', pb(8), 81), ('None', None, None), ('V', N.V(), None), ('int', 1, None)]
            v, pv = N.V(), PV()
            for n, o, val in args:
                x.state((i, n))
                key = '%s to %s: ' % (kinds[1], kinds[0])
                for f in range(len(SPELL)):
                    x.run(key + 'f%d %s' % (f, n), call, getattr(N, 'f%d' % f), o, val)
                x.run(key + 'virtual %s' % n, call, v.p, o, None if val is None else val + 2)
                x.run(key + 'parent of override %s' % n, call, pv.callp, o, None if val is None else val + 2)
                x.run(key + 'run %s' % n, call, v.run, o, None if val is None else val + 2)
                x.run(key + 'run override %s' % n, call, pv.run, o, None if val is None else val + 100)
                x.run(key + 'protected %s' % n, call, pv.callq, o, None if val is None else val + 3)
    return explore


# -- transformations: the same functions with pointers and with holders of pointers

STYLES = ('aggregate', 'class')
# name of the holder: arguments of the handler as a parameter and as a result
OWN = {'Own': (dict(transfer_ownership=True), dict(caller_owns_return=True)),
       'Bor': (dict(transfer_ownership=False), dict(reference_existing_object=True)),
       'Cpy': (dict(transfer_ownership=False, null_ok=True), dict(caller_owns_return=False))}


def holder_def(name, style):
    if style == 'aggregate':
        return 'template <class T> struct %s { T *p; };' % name
    return 'template <class T> struct %s { T *p; explicit %s(T *p_ = 0) : p(p_) {} T *get() const { return p; } };' % (name, name)


def tr_class(name, kind):
    if kind == 'plain':
        x = ''
    elif kind == 'counted':
        x = 'int refs; void Ref() { t.use(); refs++; } void Unref() { t.use(); if (--refs == 0) delete this; }'
    else:
        x = 'virtual ~%s() {} virtual int m() const { t.use(); return v; }' % name
    i = ', refs(1)' if kind == 'counted' else ''
    return 'struct %s { Track t; int v; %s %s(int x = 0) : v(x)%s {} %s(%s const &o) : t(o.t), v(o.v)%s {} int get() const { t.use(); return v; } void set(int x) { t.use(); v = x; } };' % (name, x, name, i, name, name, i)


def tr_functions(suffix, kind, wrap, unwrap):
    "wrap(holder, expr), unwrap(holder, expr); types by typ(holder)"
    counted = kind == 'counted'
    drop = '{0}->Unref()' if counted else 'delete {0}'
    ref = '{0}->Ref()' if counted else '(void) 0'
    o = []

    def typ(h):
        return 'K *' if suffix == 'r' else h + '<K>'
    o.append('inline %s make_%s(int x) { K *k = new K(x); return %s; }' % (typ('Own'), suffix, wrap('Own', 'k')))
    o.append('inline void put_%s(%s h) { K *k = %s; if (slot()) { %s; } slot() = k; }' % (suffix, typ('Own'), unwrap('Own', 'h'), drop.format('slot()')))
    o.append('inline %s take_%s() { K *k = slot(); slot() = 0; return %s; }' % (typ('Own'), suffix, wrap('Own', 'k')))
    o.append('inline %s peek_%s() { K *k = slot(); return %s; }' % (typ('Bor'), suffix, wrap('Bor', 'k')))
    o.append('inline %s copy_%s() { K *k = slot(); return %s; }' % (typ('Cpy'), suffix, wrap('Cpy', 'k')))
    o.append('inline int use_%s(%s h, int n) { K *k = %s; k->set(k->get() + n); return k->get(); }' % (suffix, typ('Bor'), unwrap('Bor', 'h')))
    o.append('inline int null_%s(%s h) { K *k = %s; return k ? k->get() : -1; }' % (suffix, typ('Cpy'), unwrap('Cpy', 'h')))
    o.append('inline int over_%s(%s h) { return 1; } inline int over_%s(%s h) { return 2; } inline int over_%s(int) { return 3; }' % (suffix, typ('Bor'), suffix, typ('Bor').replace('K', 'Other'), suffix))
    o.append('struct V%s { virtual ~V%s() {}' % (suffix, suffix))
    o.append('virtual int own(%s h) { K *k = %s; int r = k ? k->get() : -1; if (k) { %s; } return r; }' % (typ('Own'), unwrap('Own', 'h'), drop.format('k')))
    o.append('virtual int bor(%s h) { K *k = %s; return k ? k->get() : -1; }' % (typ('Bor'), unwrap('Bor', 'h')))
    o.append('virtual %s give(int x) { K *k = new K(x); return %s; }' % (typ('Own'), wrap('Own', 'k')))
    o.append('int run_own(int x) { K *k = x ? new K(x) : 0; return own(%s); }' % wrap('Own', 'k'))
    o.append('int run_bor() { K *k = slot(); return bor(%s); }' % wrap('Bor', 'k'))
    o.append('int run_give(int x) { %s h = give(x); K *k = %s; int r = k ? k->get() : -1; if (k) { %s; } return r; }' % (typ('Own'), unwrap('Own', 'h'), drop.format('k')))
    o.append('};')
    return '\n'.join(o)


def tr_header(kind, style):
    o = [holder_def(h, style) for h in sorted(OWN)]
    o.append(tr_class('K', kind))
    o.append(tr_class('Other', kind))
    o.append('inline K *&slot() { static K *k; return k; } inline void clear() { if (slot()) { %s; } slot() = 0; } inline int peek() { return slot() ? slot()->get() : -1; }' % ('slot()->Unref()' if kind == 'counted' else 'delete slot()'))
    o.append(tr_functions('r', kind, lambda h, e: e, lambda h, e: e))
    if style == 'aggregate':
        o.append('template <class H, class T> H mk(T *p) { H h = { p }; return h; }')
        o.append(tr_functions('h', kind, lambda h, e: 'mk<%s<K> >(%s)' % (h, e), lambda h, e: e + '.p'))
    else:
        o.append(tr_functions('h', kind, lambda h, e: '%s<K>(%s)' % (h, e), lambda h, e: e + '.get()'))
    return '\n'.join(o)


def register(style):
    from pybindgen.typehandlers import base
    from pybindgen import Parameter

    class Transformation(base.TypeTransformation):
        def __init__(self, holder):
            self.holder, self.kw = holder, OWN[holder]
            self.rx = re.compile(r'^(?:::)?%s<\s*(.+?)\s*>$' % holder)

        def get_untransformed_name(self, name):
            m = self.rx.match(name)
            return m and m.group(1) + ' *'

        def create_type_handler(self, handler_class, *args, **kwargs):
            kwargs.update(self.kw[0 if issubclass(handler_class, Parameter) else 1])
            h = handler_class(*args, **kwargs)
            h.set_transformation(self, self.get_untransformed_name(args[0]))
            return h

        def transform(self, handler, declarations, code_block, value):
            ctype = '%s<%s>' % (self.holder, handler.untransformed_ctype.rstrip(' *'))
            if style == 'aggregate':
                var = declarations.declare_variable(ctype, 'tmp')
                return '(%s.p = (%s), %s)' % (var, value, var)
            return '%s(%s)' % (ctype, value)

        def untransform(self, handler, declarations, code_block, value):
            return '(%s).%s' % (value, 'p' if style == 'aggregate' else 'get()')
    for h in sorted(OWN):
        t = Transformation(h)
        base.return_type_matcher.register_transformation(t)
        base.param_type_matcher.register_transformation(t)


def tr_gen(kind, style):
    def gen(mod):
        from pybindgen import param, retval, cppclass
        register(style)
        kw = {'allow_subclassing': True}
        if kind == 'counted':
            kw['memory_policy'] = cppclass.ReferenceCountingMethodsPolicy(incref_method='Ref', decref_method='Unref')
        for n in ('K', 'Other'):
            K = mod.add_class(n, **kw)
            K.add_constructor([param('int', 'x', default_value='0')])
            K.add_copy_constructor()
            K.add_method('get', retval('int'), [], is_const=True)
            K.add_method('set', retval('void'), [param('int', 'x')])
            if kind == 'virtual':
                K.add_method('m', retval('int'), [], is_const=True, is_virtual=True)
        mod.add_function('clear', retval('void'), [])
        mod.add_function('peek', retval('int'), [])
        for s in 'rh':
            def P(h, name, cls='K', s=s):
                return param('%s<%s>' % (h, cls), name) if s == 'h' else param(cls + ' *', name, **OWN[h][0])

            def R(h, s=s):
                return retval(h + '<K>') if s == 'h' else retval('K *', **OWN[h][1])
            mod.add_function('make_' + s, R('Own'), [param('int', 'x')])
            mod.add_function('put_' + s, retval('void'), [P('Own', 'h')])
            mod.add_function('take_' + s, R('Own'), [])
            mod.add_function('peek_' + s, R('Bor'), [])
            mod.add_function('copy_' + s, R('Cpy'), [])
            mod.add_function('use_' + s, retval('int'), [P('Bor', 'h'), param('int', 'n')])
            mod.add_function('null_' + s, retval('int'), [P('Cpy', 'h')])
            mod.add_function('over_' + s, retval('int'), [P('Bor', 'h')])
            mod.add_function('over_' + s, retval('int'), [P('Bor', 'h', 'Other')])
            mod.add_function('over_' + s, retval('int'), [param('int', 'h')])
            V = mod.add_class('V' + s, allow_subclassing=True)
            V.add_constructor([])
            V.add_method('own', retval('int'), [P('Own', 'h')], is_virtual=True)
            V.add_method('bor', retval('int'), [P('Bor', 'h')], is_virtual=True)
            V.add_method('give', R('Own'), [param('int', 'x')], is_virtual=True)
            V.add_method('run_own', retval('int'), [param('int', 'x')])
            V.add_method('run_bor', retval('int'), [])
            V.add_method('run_give', retval('int'), [param('int', 'x')])
    return gen


def tr_world(M, s, sub):
    "the operations on one side; kept: the objects that Python holds"
    f = lambda n: getattr(M, n + '_' + s)
    kept, seen = [], []
    cls = type('PK', (M.K,), {}) if sub else M.K

    class W(getattr(M, 'V' + s)):
        mode = 'keep'

        def own(self, k):
            return self.arg(k)

        def bor(self, k):
            return self.arg(k)

        def arg(self, k):
            if k is None:
                return -5
            if self.mode == 'set':
                k.set(k.get() + 50)
            if self.mode == 'keep':
                kept.append(k)
            return k.get() + 1000

        def give(self, n):
            if self.mode == 'none':
                return None
            if self.mode == 'bad':
                return M.Other()
            if self.mode == 'kept' and kept:
                return kept[-1]
            return M.K(n + 7)
    w, v = W(), getattr(M, 'V' + s)()

    def last(n=1):
        return kept[-n] if len(kept) >= n else None

    def keep(o):
        if o is None:
            return None
        i = next((i for i, k in enumerate(kept) if k is o), None)
        kept.append(o)
        return ('same as', i, type(o) is M.K, o.get())

    def run(method, mode, *args):
        w.mode = mode
        return getattr(w, method)(*args)

    def put():
        o = last()
        if o is None:
            return None
        r = f('put')(o)
        kept[:] = [k for k in kept if k is not o]
        return r
    ops = [('new', lambda: keep(cls(3))), ('make', lambda: keep(f('make')(4))), ('put', put), ('take', lambda: keep(f('take')())), ('peek', lambda: keep(f('peek')())),
           ('copy', lambda: keep(f('copy')())), ('use', lambda: f('use')(last(), 2)), ('use first', lambda: f('use')(kept[0], 2)), ('use other', lambda: f('use')(M.Other(), 2)), ('null', lambda: f('null')(None)),
           ('null object', lambda: f('null')(last())), ('over', lambda: f('over')(last())), ('over other', lambda: f('over')(M.Other())), ('over int', lambda: f('over')(5)), ('drop', lambda: kept.pop() and None),
           ('use int', lambda: f('use')(5, 2)), ('put None', lambda: f('put')(None)),
           ('give none', lambda: run('run_give', 'none', 3)), ('give bad', lambda: run('run_give', 'bad', 3)), ('give kept', lambda: run('run_give', 'kept', 3)), ('give new', lambda: run('run_give', 'new', 3)),
           ('own keep', lambda: run('run_own', 'keep', 6)), ('own set', lambda: run('run_own', 'set', 6)), ('own null', lambda: run('run_own', 'keep', 0)),
           ('bor keep', lambda: run('run_bor', 'keep')), ('bor set', lambda: run('run_bor', 'set')), ('bor look', lambda: run('run_bor', 'look')),
           ('base bor', lambda: v.bor(last())), ('base give', lambda: keep(v.give(9)))]
    return ops, kept


def tr_explore(kind, depth):
    def explore(M, x):
        gc.collect()
        gc.freeze()
        lib = x.clib(M.__file__)

        def history(s, sub, seq):
            gc.collect()
            M.clear()
            live = lib.pbmc_live()
            ops, kept = tr_world(M, s, sub)
            ops = dict(ops)
            out = []
            for name in seq:
                try:
                    with quiet_errors(x):
                        r = ops[name]()
                except (TypeError, IndexError) as e:
                    r = type(e).__name__
                    del e
                x.step()
                gc.collect()
                out.append((name, r, [k.get() for k in kept], M.peek(), lib.pbmc_live() - live))
            del kept[:]
            ops.clear()
            gc.collect()
            M.clear()
            gc.collect()
            out.append(('end', lib.pbmc_live() - live, lib.pbmc_bad()))
            return out

        def both(sub, seq):
            a = history('r', sub, seq)
            b = history('h', sub, seq)
            x.eq(b, a, 'with holders and with pointers')
            x.eq(b[-1], ('end', 0, 0), 'objects at the end')
        names = [n for n, f in tr_world(M, 'r', False)[0]]
        for sub in ((False, True) if kind == 'virtual' else (False,)):
            for d in range(1, depth + 1):
                for seq in itertools.product(names, repeat=d):
                    if not valid(seq, kind, sub):
                        continue
                    x.run('%s%s: %s' % (kind, ' subclass' if sub else '', ', '.join(seq)), both, sub, seq)
    return explore


def valid(seq, kind, sub):
    "no object is used by Python after C++ has deleted it"
    holders, slot = [], None   # names of objects kept by Python; in the slot
    n = 0
    for name in seq:
        if name in ('new', 'make', 'copy', 'take', 'peek', 'own keep', 'bor keep', 'base give'):
            if name in ('take', 'peek', 'copy', 'bor keep') and slot is None:
                return False
            n += 1
            # an object of a Python subclass comes back as itself where others are copied
            o = slot if name in ('take', 'peek') or (sub and name in ('copy', 'bor keep')) else n
            if name == 'take':
                slot = None
            holders.append(o)
        elif name in ('put', 'use', 'null object', 'over', 'base bor', 'give kept', 'drop', 'use first'):
            if not holders:
                return False
            if name == 'drop':
                holders.pop()
            if name == 'put':
                o = holders[-1]
                if o == slot:
                    return False
                if slot is not None and slot in holders and kind != 'counted':
                    return False
                slot = o
                holders = [h for h in holders if h != o]
        elif name in ('bor set', 'bor look') and slot is None:
            return False
    return True


# -- which transformation is used for a type

def tr_kinds():
    from pybindgen.typehandlers import base

    class T(base.TypeTransformation):
        def __init__(self, name, rx, to):
            self.name, self.rx, self.to = name, re.compile(rx), to

        def get_untransformed_name(self, name):
            m = self.rx.match(name)
            return self.to.replace('T', m.group(1)) if m else None

        def create_type_handler(self, handler_class, *args, **kwargs):
            h = handler_class(*args, **kwargs)
            h.set_transformation(self, self.get_untransformed_name(args[0]))
            h.created_by = self.name
            return h
    return [T('own', r'^(?:const )?(?:::)?Own<\s*(\w+)\s*>$', 'T *'), T('both', r'^(?:::)?(?:Own|Bor)<\s*(\w+)\s*>$', 'T *'), T('only', r'^Own<(K)>$', 'T *'),
            T('never', r'^(Own)$', 'T *'), T('missing', r'^(?:Own|K)<?\s*(\w*)\s*>?$', 'Missing *')]


NAMES = ['Own<K>', 'Bor<K>', 'Own<Other>', 'Bor<Other>', 'Own<Missing>', '::Own<K>', 'Own< K >', 'const Own<K>', 'K *', 'Other *', 'Missing *', 'Bor<Nothing>', 'int', 'OwnK']


def lookup_world(tnames, direct, where):
    "registers the transformations and looks everything up"
    import pybindgen
    from pybindgen.typehandlers import base
    ts = dict((t.name, t) for t in tr_kinds())
    mod = pybindgen.Module('m')
    ks = {}
    for n in ('K', 'Other'):
        ks[n] = mod.add_class(n)
    if direct:
        d = mod.add_class('Own', template_parameters=['K'])
        ks['Own<K>'] = d
    for n in tnames:
        if 'param' in where:
            base.param_type_matcher.register_transformation(ts[n])
        if 'return' in where:
            base.return_type_matcher.register_transformation(ts[n])
    out = {}
    for n in NAMES:
        for kind in ('param', 'return'):
            try:
                if kind == 'param':
                    h = pybindgen.Parameter.new(n, 'x', **({} if n == 'int' or (direct and 'Own<K>' in n.replace(' ', '')) else {'transfer_ownership': False}))
                else:
                    h = pybindgen.ReturnValue.new(n, **({} if n == 'int' or (direct and 'Own<K>' in n.replace(' ', '')) else {'caller_owns_return': True}))
            except base.TypeLookupError:
                out[n, kind] = 'unknown'
                continue
            except TypeError:
                out[n, kind] = 'unknown'
                continue
            cls = getattr(h, 'cpp_class', None)
            out[n, kind] = (getattr(h, 'created_by', None), next((k for k in ks if ks[k] is cls), None))
    return out


def lookup_model(tnames, direct, where):
    ts = dict((t.name, t) for t in tr_kinds())
    out = {}
    for n in NAMES:
        for kind in ('param', 'return'):
            flat = n.replace(' ', '').replace('const', '').lstrip(':')
            if flat in ('K*', 'Other*'):
                r = (None, flat[:-1])
            elif flat == 'int':
                r = (None, None)
            elif flat == 'Own<K>' and direct:
                r = (None, 'Own<K>')
            else:
                r = 'unknown'
                for t in tnames:
                    u = ts[t].get_untransformed_name(n) if kind in where else None
                    if u in ('K *', 'Other *'):
                        r = (t, u[:-2])
                        break
            out[n, kind] = r
    return out


def lookup_explore(M, x):
    import os
    import pickle
    import sys
    sys.path.insert(0, REPO)
    import pybindgen  # noqa: F401

    def one(tnames, direct, where):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                data = pickle.dumps(lookup_world(tnames, direct, where))
            except Exception as e:
                data = pickle.dumps(repr(e))
            os.write(w, data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            got = pickle.loads(f.read())
        os.waitpid(pid, 0)
        if not isinstance(got, dict):
            x.fail(got)
            return
        want = lookup_model(tnames, direct, where)
        for k in sorted(want):
            x.step()
            x.eq(got[k], want[k], '%s as %s' % k)
    names = [t.name for t in tr_kinds()]
    for n in range(len(names) + 1):
        for ts in itertools.permutations(names, n):
            for direct in (False, True):
                for where in ('param return', 'param', 'return') if n else ('',):
                    x.state((ts, direct, where))
                    x.run('%s%s registered for %s' % (' '.join(ts) or 'none', ' and the type itself' if direct else '', where), one, ts, direct, where)


class quiet_errors(object):
    def __init__(self, x):
        pass

    def __enter__(self):
        import sys
        self.hook, sys.excepthook = sys.excepthook, lambda *a: None

    def __exit__(self, *a):
        import sys
        sys.excepthook = self.hook
        for n in ('last_exc', 'last_value', 'last_traceback', 'last_type'):
            if hasattr(sys, n):
                delattr(sys, n)


def scenarios(tier):
    thorough = tier == 'thorough'
    out = []
    out.append(Scenario('lookup', '', None, lookup_explore, build=lambda sc, wd: [], compile=False, shards=8))
    for kind in KINDS:
        for style in STYLES:
            out.append(Scenario('transform_%s_%s' % (kind, style), tr_header(kind, style), tr_gen(kind, style), tr_explore(kind, 4 if thorough else 3), shards=4))
    pairs = list(itertools.product(KINDS, repeat=2))
    out.append(Scenario('kinds', kinds_header(pairs), kinds_gen(pairs), kinds_explore(pairs), asan=thorough))
    gs = all_graphs(thorough)
    size = 12
    for n in range(0, len(gs), size):
        part = [Graph(i, *a) for i, a in enumerate(gs[n:n + size])]
        out.append(Scenario('graphs%d' % (n // size), 'struct Z { int v; Z() : v(0) {} };\n' + '\n'.join(g.header() for g in part), graphs_gen(part), graphs_explore(part)))
    return out
