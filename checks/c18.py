"""C18: containers convert, hold and iterate exactly their elements."""
import gc
import itertools
import sys
from pbmc import Scenario
from pbmc.explore import explore_model

LEVEL = 'model_checking'
BOUNDS = {'quick': 'seven kinds of container x eight element types; every element sequence of up to 3 elements over three values (short ones for nested '
                   'and mapped types), given as list and as container, through every kind of parameter, result, attribute and override; each refused '
                   'element at each position; every history of up to 6 operations over one container, two iterators and their end',
          'thorough': 'sequences of up to 4 elements; histories of up to 7 operations; iteration histories again under AddressSanitizer'}
ASSUMPTIONS = ['of several pairs with one key the first counts, as insert() has it',
               'queue, stack and priority_queue have no iterators and do not compile; a container is not changed by C++ while it is iterated, '
               'unless its iterators stay valid']

PRE = r'''
#include <list>
#include <deque>
#include <set>
#include <map>
#include <unordered_map>
#include <memory>
#include <sstream>
#include <stdint.h>
struct K { Track t; int v; K(int v_ = 0) : v(v_) {} K(K const &o) : t(o.t), v(o.v) {} K &operator=(K const &o) { o.t.use(); t.use(); v = o.v; return *this; }
  int get() const { t.use(); return v; } };
inline bool operator<(K const &a, K const &b) { return a.get() < b.get(); }
struct P { Track t; int v; P(int v_ = 0) : v(v_) {} int get() const { t.use(); return v; } };
enum E { E0, E1 = 5, E2 = -3 };
inline void sh(std::ostream &o, int v) { o << v; }
inline void sh(std::ostream &o, bool v) { o << (v ? "T" : "F"); }
inline void sh(std::ostream &o, uint8_t v) { o << int(v); }
inline void sh(std::ostream &o, double v) { o << v; }
inline void sh(std::ostream &o, E v) { o << int(v); }
inline void sh(std::ostream &o, std::string const &v) { o << '"'; for (size_t i = 0; i < v.size(); i++) { if (v[i]) o << v[i]; else o << "~"; } o << '"'; }
inline void sh(std::ostream &o, K const &v) { o << "K" << v.get(); }
inline void sh(std::ostream &o, std::shared_ptr<P> const &v) { if (v) o << "P" << v->get(); else o << "null"; }
template <class A, class B> void sh(std::ostream &o, std::pair<A, B> const &v);
template <class T> void sh(std::ostream &o, std::vector<T> const &v);
inline void sh1(std::ostream &o, bool v) { sh(o, v); }
template <class T> void sh1(std::ostream &o, T const &v) { sh(o, v); }
template <class C> std::string seq(C const &c) {
    std::ostringstream o; o << "[";
    for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) { if (i != c.begin()) o << ","; typename C::value_type const &e = *i; sh(o, e); }
    o << "]"; return o.str();
}
template <class A, class B> void sh(std::ostream &o, std::pair<A, B> const &v) { sh(o, v.first); o << ":"; sh(o, v.second); }
template <class T> void sh(std::ostream &o, std::vector<T> const &v) { o << seq(v); }
inline std::string &tr() { static std::string s; return s; }
inline std::string trace() { std::string s = tr(); tr() = ""; return s; }
'''

# name: (C++ type, values, what the element converter has to refuse)
ELEMS = {
    'int': ('int', [1, 2, -3], ['x', None, 2 ** 40, [1]]),
    'bool': ('bool', [True, False], []),
    'u8': ('uint8_t', [0, 255, 7], [256, -1, 'x', None]),
    'dbl': ('double', [0.5, -1.0, 2.0], ['x', None]),
    'str': ('std::string', ['a', '', 'b\0c'], [3, None, ['a']]),
    'E': ('E', [0, 5, -3], ['x', None]),
    'K': ('K', [('K', 1), ('K', 2), ('K', 3)], [3, None, ('P', 1)]),
    'P': ('std::shared_ptr< P >', [('P', 1), ('P', 2), ('P', 3)], [3, None, ('K', 1)]),
    'V': ('std::vector< int >', [(), (1,), (2, 1)], [3, None, ['x'], (1, 2)]),
}
SEQ = ['vector', 'list', 'deque', 'set', 'multiset']
NOT = {('set', 'P'), ('multiset', 'P'), ('set', 'E')}
MAPS = [('int', 'str'), ('str', 'int'), ('str', 'K'), ('int', 'V'), ('E', 'dbl'), ('K', 'bool'), ('str', 'P')]


def configs():
    out = []
    for kind in SEQ:
        for e in sorted(ELEMS):
            if (kind, e) not in NOT:
                out.append((kind, e))
    for kind in ('map', 'unordered_map'):
        for ke in MAPS:
            if kind == 'map' or ke[0] in ('int', 'str'):
                out.append((kind, ke))
    return out


def ctype(cfg):
    kind, e = cfg
    if isinstance(e, tuple):
        return 'std::%s< %s, %s >' % (kind, ELEMS[e[0]][0], ELEMS[e[1]][0])
    return 'std::%s< %s >' % (kind, ELEMS[e][0])


def name(cfg):
    kind, e = cfg
    return '%s_%s' % (kind, e if isinstance(e, str) else '_'.join(e))


def header(cfgs):
    out = [PRE]
    for cfg in cfgs:
        C, n = ctype(cfg), name(cfg)
        out.append('typedef %s T_%s;' % (C, n))
        out.append(r'''
inline std::string v_N(T_N c) { return seq(c); }
inline std::string r_N(T_N const &c) { return seq(c); }
inline std::string p_N(T_N *c) { return seq(*c); }
inline std::string t_N(T_N *c) { std::string s = seq(*c); delete c; return s; }
inline std::string d_N(int n, T_N const &c = T_N()) { std::ostringstream o; o << n << seq(c); return o.str(); }
inline T_N e_N(T_N const &c) { return c; }
inline T_N const &cr_N(T_N const &c) { static T_N s; s = c; return s; }
inline void o_N(T_N const &c, T_N &out) { out = c; }
inline void op_N(T_N const &c, T_N *out) { *out = c; }
inline void io_N(T_N &c, T_N const &d) { c = d; }
inline int two_N(T_N const &c, int n) { return n; }
struct A_N { T_N a; static T_N &s() { static T_N x; return x; } std::string show() const { return seq(a); } };
struct H_N {
    virtual ~H_N() {}
    virtual T_N hv(T_N c) { return c; }
    virtual T_N hr(T_N const &c) { return c; }
    virtual void ho(T_N const &c, T_N &out) { out = c; }
    virtual void hio(T_N &c) { (void) c; }
};
inline std::string call_N(H_N *h, T_N const &c) {
    T_N o, io = c; h->ho(c, o); h->hio(io);
    return seq(h->hv(c)) + seq(h->hr(c)) + seq(o) + seq(io);
}
'''.replace('_N', '_' + n))
    return '\n'.join(out)


def base_gen(mod):
    from pybindgen import param, retval
    from pybindgen.typehandlers.smart_ptr import StdSharedPtr
    K = mod.add_class('K')
    K.add_constructor([param('int', 'v')])
    K.add_copy_constructor()
    K.add_constructor([])
    K.add_method('get', 'int', [], is_const=True)
    P = mod.add_class('P', memory_policy=StdSharedPtr('P'))
    P.add_constructor([param('int', 'v')])
    P.add_method('get', 'int', [], is_const=True)
    mod.add_enum('E', ['E0', 'E1', 'E2'])
    mod.add_function('trace', 'std::string', [])


def make_gen(cfgs):
    def gen(mod):
        from pybindgen import param, retval
        base_gen(mod)
        mod.add_container('std::vector< int >', 'int', 'vector', custom_name='VI')
        for cfg in cfgs:
            kind, e = cfg
            C, n = ctype(cfg), name(cfg)
            if C != 'std::vector< int >':
                if isinstance(e, tuple):
                    el = (retval(ELEMS[e[0]][0]), retval(ELEMS[e[1]][0]))
                else:
                    el = retval(ELEMS[e][0])
                mod.add_container(C, el, kind, custom_name='C_' + n)
            f = mod.add_function
            ref, cref, ptr = C + ' &', C + ' const &', C + ' *'
            f('v_' + n, 'std::string', [param(C, 'c')])
            f('r_' + n, 'std::string', [param(cref, 'c')])
            f('p_' + n, 'std::string', [param(ptr, 'c', transfer_ownership=False)])
            f('t_' + n, 'std::string', [param(ptr, 'c', transfer_ownership=True)])
            f('d_' + n, 'std::string', [param('int', 'n'), param(cref, 'c', default_value='T_%s()' % n)])
            f('e_' + n, retval(C), [param(cref, 'c')])
            f('cr_' + n, retval(cref), [param(cref, 'c')])
            f('o_' + n, None, [param(cref, 'c'), param(ref, 'out', direction=2)])
            f('op_' + n, None, [param(cref, 'c'), param(ptr, 'out', direction=2)])
            f('io_' + n, None, [param(ref, 'c', direction=3), param(cref, 'd')])
            f('two_' + n, 'int', [param(cref, 'c'), param('int', 'n')])
            A = mod.add_class('A_' + n)
            A.add_constructor([])
            A.add_instance_attribute('a', C)
            A.add_method('show', 'std::string', [], is_const=True)
            H = mod.add_class('H_' + n, allow_subclassing=True)
            H.add_constructor([])
            H.add_method('hv', retval(C), [param(C, 'c')], is_virtual=True)
            H.add_method('hr', retval(C), [param(cref, 'c')], is_virtual=True)
            H.add_method('ho', None, [param(cref, 'c'), param(ref, 'out', direction=2)], is_virtual=True)
            H.add_method('hio', None, [param(ref, 'c', direction=3)], is_virtual=True)
            f('call_' + n, 'std::string', [param('H_%s *' % n, 'h', transfer_ownership=False), param(cref, 'c')])
    return gen


def real(M, v):
    """the Python object for a value of ELEMS"""
    if isinstance(v, tuple) and v and v[0] in ('K', 'P'):
        return getattr(M, v[0])(v[1])
    if isinstance(v, tuple):
        return list(v)
    return v


def plain(v):
    """and back"""
    if type(v).__name__ in ('K', 'P'):
        return (type(v).__name__, v.get())
    if type(v).__name__ == 'VI':
        return tuple(v)
    return v


def show(e, v):
    if isinstance(v, bool):
        return 'T' if v else 'F'
    if isinstance(v, float):
        return '%g' % v
    if isinstance(v, str):
        return '"%s"' % v.replace('\0', '~')
    if v is None:
        return 'null'
    if isinstance(v, tuple) and v and v[0] in ('K', 'P'):
        return '%s%d' % v
    if isinstance(v, tuple):
        return '[%s]' % ','.join(map(str, v))
    return str(v)


def canon(kind, elems):
    """what the container holds, in its order"""
    key = lambda v: v if not isinstance(v, str) else v.encode()
    if kind == 'set':
        return sorted(set(elems), key=key)
    if kind == 'multiset':
        return sorted(elems, key=key)
    if kind in ('map', 'unordered_map'):
        d = {}
        for k, v in elems:
            d.setdefault(k, v)
        return sorted(d.items(), key=lambda kv: key(kv[0]))
    return list(elems)


def sequences(cfg, thorough):
    kind, e = cfg
    n = 4 if thorough else 3
    if isinstance(e, tuple):
        ks, vs = ELEMS[e[0]][1], ELEMS[e[1]][1]
        alpha = list(itertools.product(ks[:2], vs[:2])) + [(ks[-1], vs[-1])]
        n -= 1
    else:
        alpha = ELEMS[e][1]
    for length in range(n + 1):
        for s in itertools.product(alpha, repeat=length):
            yield s


def make_explore(cfgs):
    def explore(M, x):
        lib = x.clib()
        hooked = []
        gc.freeze()
        old = sys.excepthook
        sys.excepthook = lambda t, v, tb: hooked.append('%s: %s' % (t.__name__, v))
        for cfg in cfgs:
            explore_one(M, x, lib, cfg, hooked)
        sys.excepthook = old
    return explore


def explore_one(M, x, lib, cfg, hooked):
    kind, e = cfg
    n = name(cfg)
    CT = M.VI if n == 'vector_int' else getattr(M, 'C_' + n)
    F = lambda p: getattr(M, p + '_' + n)
    mapping = isinstance(e, tuple)
    unordered = kind == 'unordered_map'

    def make(s):
        if mapping:
            return [(real(M, k), real(M, v)) for k, v in s]
        return [real(M, v) for v in s]

    def text(s):
        c = canon(kind, s)
        parts = [show(e[0], k) + ':' + show(e[1], v) for k, v in c] if mapping else [show(e, v) for v in c]
        if unordered:
            parts.sort()
        return parts

    def split(t):
        # [a,b,[c,d]] -> parts of the outermost level
        parts, depth, cur, quote = [], 0, '', False
        for ch in t[1:-1]:
            if ch == '"':
                quote = not quote
            if ch == '[':
                depth += 1
            if ch == ']':
                depth -= 1
            if ch == ',' and not depth and not quote:
                parts.append(cur)
                cur = ''
            else:
                cur += ch
        if cur:
            parts.append(cur)
        return sorted(parts) if unordered else parts

    def items(c):
        out = [(plain(i[0]), plain(i[1])) if mapping else plain(i) for i in c]
        key = lambda kv: kv[0] if not isinstance(kv[0], str) else kv[0].encode()
        return sorted(out, key=key) if unordered else out

    class S(M.__dict__['H_' + n]):
        mode = None

        def hv(self, c):
            return self.result(c)

        def hr(self, c):
            return self.result(c)

        def ho(self, c):
            return self.result(c)

        def hio(self, c):
            return self.result(c)

        def result(self, c):
            self.got.append(items(c))
            return list(self.ret) if self.mode == 'list' else CT(self.ret)

    seqs = list(sequences(cfg, x.thorough))
    other = seqs[1]

    def clean():
        gc.collect()
        x.eq(lib.pbmc_live() - base[0], 0, 'C++ objects left')
        x.eq(lib.pbmc_bad(), 0, 'use of dead objects')
    base = [0]

    def check_show(t, want, what):
        x.check(split(t) == want, '%s: C++ holds %s, expected %r' % (what, t, want))
    for s in seqs:
        def one():
            want, held = text(s), canon(kind, s)
            lst = make(s)
            c = CT(lst)
            x.eq(items(c), held, 'iteration')
            x.eq(items(c), held, 'second iteration')
            for form, a in (('list', lst), ('container', c)):
                for p in ('v', 'r', 'p', 't'):
                    check_show(F(p)(a), want, '%s by %s' % (form, p))
                d = F('d')(7, a)
                x.check(d[:1] == '7', d)
                check_show(d[1:], want, 'argument with default')
                x.eq(items(F('e')(a)), held, 'result')
                x.eq(items(F('cr')(a)), held, 'result by reference')
                x.eq(items(F('o')(a)), held, 'output')
                x.eq(items(F('op')(a)), held, 'output pointer')
                x.eq(items(F('io')(make(other), a)), held, 'in-out')
                o = getattr(M, 'A_' + n)()
                o.a = a
                x.eq(items(o.a), held, 'attribute')
                check_show(o.show(), want, 'attribute')
                x.step(12)
                h = S()
                h.got, h.ret, h.mode = [], list(lst), form
                t = F('call')(h, make(other))
                x.check(not hooked, 'reported %r' % (hooked,))
                del hooked[:]
                x.eq(h.got, [canon(kind, other)] * 4, 'what the overrides got')
                full = split_many(t)
                x.check(len(full) == 4 and all(split(u) == want for u in full), 'overrides returning a %s: C++ got %s, expected 4 x %r' % (form, t, want))
                t = F('call')(getattr(M, 'H_' + n)(), a)
                full = split_many(t)
                x.check(len(full) == 4 and all(split(u) == want for u in full), 'own implementation: C++ got %s' % t)
                del h, o
            x.eq(items(c), held, 'the container afterwards')
            x.eq(make_plain(lst), make_plain(make(s)), 'the list afterwards')
            x.eq(F('d')(7), '7[]', 'default')
            del c, lst, a
        x.state((n, len(s), len(canon(kind, s))))
        x.run('%s%r' % (n, s), one)
        if not base[0]:
            F('cr')([])
            gc.collect()
            base[0] = lib.pbmc_live()
        x.run('%s%r-left' % (n, s), lambda: (F('cr')([]), clean()))

    # elements that are refused
    if mapping:
        bads = [('pair', [(('bad', b), ELEMS[e[1]][1][0]) for b in ELEMS[e[0]][2]] + [(ELEMS[e[0]][1][0], ('bad', b)) for b in ELEMS[e[1]][2]])]
        bad = [b for _, l in bads for b in l] + [('raw', 3), ('raw', ()), ('raw', (1,)), ('raw', (1, 2, 3)), ('raw', [1, 2]), ('raw', None)]
    else:
        bad = [('bad', b) for b in ELEMS[e][2]]

    def mk(b):
        if isinstance(b, tuple) and len(b) == 2 and b[0] in ('bad', 'raw'):
            v = b[1]
            return real(M, v) if isinstance(v, tuple) and v and v[0] in ('K', 'P') else v
        if isinstance(b, tuple) and mapping and len(b) == 2 and any(isinstance(p, tuple) and p[:1] == ('bad',) for p in b):
            return (mk(b[0]), mk(b[1]))
        return real(M, b)
    for b, length in itertools.product(bad, (1, 2, 3)):
        for pos in range(length):
            def one():
                good = make((seqs[1] * length)[:length])
                lst = list(good)
                lst[pos] = mk(b)
                refs = sys.getrefcount(lst[pos])
                o = getattr(M, 'A_' + n)()
                o.a = good
                before = o.show()
                h = S()
                h.got, h.ret, h.mode = [], lst, 'list'
                calls = [('construct', lambda: CT(lst)), ('attribute', lambda: setattr(o, 'a', lst))]
                for p in ('v', 'r', 'p', 't', 'e', 'o', 'op'):
                    calls.append((p, lambda p=p: F(p)(lst)))
                calls += [('io', lambda: F('io')(lst, good)), ('io2', lambda: F('io')(good, lst)), ('two', lambda: F('two')(lst, 3))]
                for what, call in calls:
                    try:
                        r = call()
                    except (TypeError, ValueError, OverflowError):
                        r = None
                    except Exception as exc:
                        x.fail('%s: raised %r' % (what, exc))
                    else:
                        x.fail('%s: accepted as %r' % (what, r))
                    sys.last_exc = None
                x.eq(o.show(), before, 'the attribute after a refused assignment')
                x.step(len(calls))
                del hooked[:]
                F('call')(h, good)
                x.eq(len(hooked), 4, 'errors reported for overrides')
                del hooked[:]
                sys.last_exc = sys.last_value = sys.last_traceback = None
                x.eq(sys.getrefcount(lst[pos]), refs, 'references to the refused element')
                del calls, call, h, o, lst, good
                clean()
            x.state((n, 'bad', repr(b), length))
            x.run('%s bad %r at %d of %d' % (n, b, pos, length), one)

    # what is no container at all
    class Raises(object):
        @property
        def __class__(self):
            raise RuntimeError('no class')

    class Fakes(object):
        @property
        def __class__(self):
            return CT
    for what, v in [('int', 3), ('None', None), ('str', 'ab'), ('tuple', ()), ('dict', {}), ('other', M.VI([1])), ('iter', iter(())),
                    ('raises', Raises()), ('fakes', Fakes())]:
        if what == 'other' and CT is M.VI:
            continue

        def one():
            for call in ([lambda: CT(v), lambda: setattr(getattr(M, 'A_' + n)(), 'a', v), lambda: F('two')(v, 1)]
                         + [lambda p=p: F(p)(v) for p in ('v', 'r', 'p', 't', 'e', 'o', 'op')]):
                try:
                    call()
                except (TypeError, RuntimeError):
                    pass
                else:
                    x.fail('%s accepted' % what)
            clean()
        x.run('%s given %s' % (n, what), one)

    # a later argument is refused
    def later():
        lst = make(seqs[-1])
        for _ in range(3):
            try:
                F('two')(lst, 'x')
            except TypeError:
                pass
            else:
                x.fail('accepted')
        x.eq(F('two')(lst, 4), 4)
        del lst
        clean()
    x.run('%s later argument' % n, later)


def make_plain(lst):
    return [tuple(map(plain, v)) if isinstance(v, tuple) else plain(v) for v in lst]


def split_many(t):
    out, depth, cur, quote = [], 0, '', False
    for ch in t:
        cur += ch
        if ch == '"':
            quote = not quote
        if not quote:
            if ch == '[':
                depth += 1
            if ch == ']':
                depth -= 1
                if not depth:
                    out.append(cur)
                    cur = ''
    return out


# ---------------------------------------------------------------- iteration histories

ITER_HEADER = r'''
#include <list>
#include <map>
struct K { Track t; int v; K(int v_ = 0) : v(v_) {} K(K const &o) : t(o.t), v(o.v) {} int get() const { t.use(); return v; } };
typedef std::list<K> L;
// a container whose iterators notice when it is gone
struct B {
    REFS
    Track t; std::list<K> l; std::map<int, K> m; long iters;
    B() : REFINIT iters(0) {}
    ~B() { if (iters) pbmc_get()->bad++; }
    struct It {
        B const *b; std::list<K>::const_iterator i;
        It() : b(NULL) {}
        It(B const *b_, std::list<K>::const_iterator i_) : b(b_), i(i_) { ref(1); }
        It(It const &o) : b(o.b), i(o.i) { ref(1); }
        It &operator=(It const &o) { o.ref(1); ref(-1); b = o.b; i = o.i; return *this; }
        ~It() { ref(-1); }
        void ref(int d) const { if (b) { b->t.use(); const_cast<B *>(b)->iters += d; } }
        bool operator==(It const &o) const { return i == o.i; }
        It &operator++() { b->t.use(); ++i; return *this; }
        K const &operator*() const { b->t.use(); return *i; }
    };
    It first() const { return It(this, l.begin()); }
    It last() const { return It(this, l.end()); }
    void push(int v) { l.push_back(K(v)); }
    int size() const { return l.size(); }
private: B(B const &);
};
struct D {
    REFS
    Track t; std::map<int, K> m;
    typedef std::map<int, K>::iterator iterator;
    D() REFINIT2 {}
    iterator begin() { t.use(); return m.begin(); }
    iterator end() { t.use(); return m.end(); }
    void push(int v) { int n = m.size(); m.insert(std::make_pair(n, K(v))); }
    int size() const { return m.size(); }
private: D(D const &);
};
struct Out { struct In { typedef std::list<K>::iterator iterator; std::list<K> l; iterator begin() { return l.begin(); } iterator end() { return l.end(); }
  void push(int v) { l.push_back(K(v)); } int size() const { return l.size(); } }; };
'''


def iter_gen(v):
    def gen(mod):
        from pybindgen import param, retval, cppclass
        K = mod.add_class('K')
        K.add_constructor([param('int', 'v')])
        K.add_copy_constructor()
        K.add_method('get', 'int', [], is_const=True)
        kw = {'allow_subclassing': True} if v.get('sub') else {}
        if v.get('rc'):
            kw['memory_policy'] = cppclass.ReferenceCountingMethodsPolicy(incref_method='ref', decref_method='unref')
        mod.add_container('std::list< K >', retval('K'), 'list', custom_name='L')
        B = mod.add_class('B', **kw)
        D = mod.add_class('D', **kw)
        Out = mod.add_class('Out')
        In = mod.add_class('In', outer_class=Out)
        B.add_container_traits(retval('K'), begin_method='first', end_method='last', iterator_type='It')
        D.add_container_traits((retval('int'), retval('K')), is_mapping=True)
        In.add_container_traits(retval('K const &', caller_owns_return=False) if False else retval('K'))
        for c in (B, D, In):
            c.add_constructor([])
            c.add_method('push', None, [param('int', 'v')])
            c.add_method('size', 'int', [], is_const=True)
    return gen


class IterModel(object):
    """(container elements or None, container variable alive, iterator positions or None)"""

    def __init__(self, growing):
        self.growing = growing

    def init(self):
        return (None, False, None, None)

    def ops(self, s):
        el, alive, i0, i1 = s
        out = []
        if el is None:
            return [('new', 0), ('new', 1), ('new', 2)]
        if alive:
            out += [('iter', 2), ('iter', 3), ('drop',), ('all',)]
            if self.growing and el < 4:
                out.append(('push',))
        for k in (2, 3):
            if s[k] is not None:
                out += [('next', k), ('end', k)]
        if s[2] is not None:
            out.append(('self', 2))
        return out

    def step(self, s, op):
        el, alive = s[0], s[1]
        its = {2: s[2], 3: s[3]}
        n, ret = op[0], None
        if n == 'new':
            el, alive = op[1], True
        elif n == 'push':
            # the past-the-end iterator of a list stays past the end
            its = {k: v for k, v in its.items()}
            el += 1
        elif n == 'all':
            ret = tuple(range(el))
        elif n == 'iter':
            its[op[1]] = 0 if el else 'end'
        elif n == 'drop':
            alive = False
        elif n == 'end':
            its[op[1]] = None
        elif n == 'self':
            ret = True
        elif n == 'next':
            p = its[op[1]]
            if p != 'end':
                ret = p
                its[op[1]] = p + 1 if p + 1 < el else 'end'
            else:
                ret = 'stop'
        if not alive and its[2] is None and its[3] is None:
            live = 0
            el2 = None
        else:
            live = 1
            el2 = el
        if n != 'new' and not live:
            el2 = None
        return (el2, alive and live == 1, its[2], its[3]), (ret, el * live if el is not None else 0)


class IterImpl(object):
    def __init__(self, M, x, cls, lib):
        self.M, self.x, self.cls, self.lib = M, x, cls, lib
        self.mapping = cls == 'D'
        self.c = None
        self.it = {2: None, 3: None}
        gc.collect()
        self.base = lib.pbmc_live()

    def val(self, v):
        if self.mapping:
            assert v[0] == v[1].get()
            return v[0]
        return v.get()

    def do(self, op):
        M, n, ret = self.M, op[0], None
        if n == 'new':
            if self.cls == 'L':
                self.c = M.L([M.K(i) for i in range(op[1])])
            else:
                self.c = self.make()
                for i in range(op[1]):
                    self.c.push(i)
        elif n == 'push':
            self.c.push(self.c.size())
        elif n == 'all':
            ret = tuple(self.val(v) for v in self.c)
        elif n == 'iter':
            self.it[op[1]] = iter(self.c)
        elif n == 'drop':
            self.c = None
        elif n == 'end':
            self.it[op[1]] = None
        elif n == 'self':
            ret = iter(self.it[2]) is self.it[2]
        elif n == 'next':
            try:
                ret = self.val(next(self.it[op[1]]))
            except StopIteration:
                ret = 'stop'
        gc.collect()
        n = self.lib.pbmc_live() - self.base
        if self.cls in ('B', 'D') and (self.c is not None or self.it[2] is not None or self.it[3] is not None):
            n -= 1
        return ret, n

    def end(self, state):
        self.c = None
        self.it = None
        gc.collect()
        assert self.lib.pbmc_live() == self.base, 'objects left'
        assert self.lib.pbmc_bad() == 0, 'dead objects used'


def iter_explore(v):
    def explore(M, x):
        lib = x.clib()
        gc.freeze()
        gc.disable()
        for cls in ('L', 'B', 'D', 'In'):
            T = {'L': None, 'B': M.B, 'D': M.D, 'In': M.Out.In}[cls]
            if v.get('sub') and cls in 'BD':
                class T(T):
                    pass
            Im = type('Im', (IterImpl,), {'make': lambda self, T=T: T()})
            explore_model(x, IterModel(cls != 'L'), lambda: Im(M, x, cls, lib), 7 if x.thorough and not v.get('asan') else 6, label=cls, max_cover=400)

        def cycle():
            """an iterator that its own container refers to"""
            if not v.get('sub'):
                return
            for cls in (M.B, M.D):
                class T(cls):
                    pass
                base = lib.pbmc_live()
                for started in (0, 1, 2, 3):
                    c = T()
                    c.push(0)
                    c.push(1)
                    c.it = iter(c)
                    for _ in range(started):
                        next(c.it, None)
                    gc.collect()
                    x.check(len(list(c)) == 2)
                    it = c.it
                    del c
                    gc.collect()
                    x.eq(len(list(it)), max(0, 2 - started))
                    del it
                    gc.collect()
                    x.eq(lib.pbmc_live(), base)
                    x.eq(lib.pbmc_bad(), 0)
        x.run('cycle', cycle)
        gc.enable()
    return explore


def iter_header(v):
    if v.get('rc'):
        return ITER_HEADER.replace('REFS', 'int refs; void ref() { refs++; } void unref() { if (!--refs) delete this; }') \
            .replace('REFINIT2', ': refs(1)').replace('REFINIT', 'refs(1),')
    return ITER_HEADER.replace('REFS', '').replace('REFINIT2', '').replace('REFINIT', '')


# ---------------------------------------------------------------- a list that changes while it is converted

MUT_HEADER = r'''
#include <map>
inline std::string sum(std::vector<int> const &c) { std::string s; for (size_t i = 0; i < c.size(); i++) s += std::to_string(c[i]) + ","; return s; }
inline std::string msum(std::map<int, int> const &c) { std::string s; for (std::map<int, int>::const_iterator i = c.begin(); i != c.end(); ++i)
  s += std::to_string(i->first) + "=" + std::to_string(i->second) + ","; return s; }
'''


def mut_gen(mod):
    from pybindgen import param
    mod.add_container('std::vector< int >', 'int', 'vector', custom_name='V')
    mod.add_container('std::map< int, int >', ('int', 'int'), 'map', custom_name='D')
    mod.add_function('sum', 'std::string', [param('std::vector< int > const &', 'c')])
    mod.add_function('msum', 'std::string', [param('std::map< int, int > const &', 'c')])


def mut_explore(M, x):
    acts = ['pop', 'clear', 'append', 'insert', 'replace', 'raise', 'none']

    def run(mapping, length, pos, act, rep):
        lst = []
        ran = []

        class Evil(object):
            def __init__(self, v):
                self.v = v

            def __index__(self):
                ran.append(1)
                if len(ran) > 1:
                    return self.v
                if act == 'pop':
                    lst.pop()
                elif act == 'clear':
                    del lst[:]
                elif act == 'append':
                    lst.append((8, 8) if mapping else 8)
                elif act == 'insert':
                    lst.insert(0, (9, 9) if mapping else 9)
                elif act == 'replace':
                    lst[:] = [(i + 20, i) if mapping else i + 20 for i in range(len(lst))]
                elif act == 'raise':
                    raise KeyError('x')
                gc.collect()
                junk = [object() for _ in range(50)]
                del junk
                return self.v
        for i in range(length):
            v = Evil(i) if i == pos else i
            lst.append(((i, v) if rep else (v, i)) if mapping else v)
        # what a careful reader of the list sees: each item as it is when its turn comes
        want = []
        model = list(range(length))
        i = 0
        while i < len(model):
            m = model[i]
            if i == pos and not ran:
                ran.append(1)
                if act == 'pop':
                    model.pop()
                elif act == 'clear':
                    del model[:]
                elif act == 'append':
                    model.append(8)
                elif act == 'insert':
                    model.insert(0, 9)
                elif act == 'replace':
                    model[:] = [j + 20 for j in range(len(model))]
            want.append(m)
            i += 1
        del ran[:]
        try:
            r = (M.msum if mapping else M.sum)(lst)
        except KeyError:
            x.check(act == 'raise', 'raised')
            return
        except Exception as e:
            x.check(act not in ('append', 'none'), 'raised %r' % e)
            return
        x.check(act != 'raise', 'the error was lost')
        got = [p for p in r.split(',') if p]
        if not mapping:
            # anything it reports was in the list at some time; what came first is right, and nothing is made up
            x.check(got[:pos + 1] == [str(i) for i in range(length)][:pos + 1], 'read %r' % (got,))
            x.check(all(int(g) in set(range(length)) | {8, 9} | set(range(20, 20 + length)) for g in got), 'read %r' % (got,))
            if act in ('append', 'none'):
                x.check(got[:length] == [str(i) for i in range(length)], 'read %r' % (got,))
        else:
            x.check(all(abs(int(g.split('=')[0])) < 30 for g in got), 'read %r' % (got,))
    for mapping in (False, True):
        for length in (1, 2, 3, 4):
            for pos in range(length):
                for act in acts:
                    for rep in ((False, True) if mapping else (False,)):
                        x.state((mapping, length, pos, act, rep))
                        x.step()
                        x.run('%s length %d, element %d does %s %s' % ('map' if mapping else 'vector', length, pos, act, rep), run,
                              mapping, length, pos, act, rep)


def scenarios(tier):
    th = tier == 'thorough'
    out = []
    for i, cfg in enumerate(configs()):
        out.append(Scenario('conv_' + name(cfg), header([cfg]), make_gen([cfg]), make_explore([cfg])))
    vs = [('plain', {}), ('sub', {'sub': True}), ('rc', {'rc': True, 'sub': True})]
    for n, v in vs:
        out.append(Scenario('iter_' + n, iter_header(v), iter_gen(v), iter_explore(v), shards=8 if th else 1))
        if th:
            out.append(Scenario('iter_%s_asan' % n, iter_header(v), iter_gen(v), iter_explore(dict(v, asan=True)), shards=8, asan=True))
    out.append(Scenario('mutate', MUT_HEADER, mut_gen, mut_explore))
    if th:
        out.append(Scenario('mutate_asan', MUT_HEADER, mut_gen, mut_explore, asan=True))
    return out
