"""C13: class hierarchies in Python mirror C++: subtyping, addresses, dynamic type."""
import gc
import itertools
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('every object of every wrapped class (and of Python subclasses) is given to every parameter kind of every class and to every inherited '
        'method and attribute, and the address, the members and the refusals are compared with the C++ relation; every subset of a C++ hierarchy '
        'is wrapped and every dynamic type is returned through every declared type in every ownership mode (and through every two declared types one after the other) and compared with the nearest wrapped class')
BOUNDS = {'quick': 'hierarchies of up to 9 classes, 32 wrapped subsets, 6 return modes, 8 choices of subclassable classes',
          'thorough': 'the same, with and without the wrapper registry, and address sanitizer'}
ASSUMPTIONS = ['automatic type narrowing is asked for where narrowed results are expected, and results are narrowed only when the wrapper refers to the object returned (copies have the declared type)']


# -- 1: the subtype relation and the members

CH = {'R': None, 'A': 'R', 'B': 'A', 'C': 'R', 'N0': None, 'N1': 'N0', 'N2': 'N1', 'O': None}


def chain(c, rel=CH):
    out = []
    while c:
        out.append(c)
        c = rel[c]
    return out


def rel_header():
    h = ['#include <string>\n#include <stdint.h>']
    for i, c in enumerate(sorted(CH, key=lambda c: (len(chain(c)), c))):
        p = CH[c]
        v = c[0] not in 'NO'
        h.append('''struct %(c)s %(inh)s {
    Track t_%(c)s; int m_%(c)s; int pad_%(c)s[%(n)d];
    %(c)s() : m_%(c)s(%(i)d) {}
    %(dtor)s
    int own_%(c)s() { t_%(c)s.use(); return m_%(c)s * 100 + %(i)d; }
    static int st_%(c)s(int x) { return x + %(i)d; }
    std::string name() { return "%(c)s"; }
    %(virt)s
};
inline long r_%(c)s(%(c)s &o) { o.t_%(c)s.use(); return o.m_%(c)s; }
inline long cr_%(c)s(const %(c)s &o) { o.t_%(c)s.use(); return o.m_%(c)s; }
inline long p_%(c)s(%(c)s *o) { o->t_%(c)s.use(); return o->m_%(c)s; }
inline long cp_%(c)s(const %(c)s *o) { o->t_%(c)s.use(); return o->m_%(c)s; }
inline long np_%(c)s(%(c)s *o) { if (!o) return -5; o->t_%(c)s.use(); return o->m_%(c)s; }
inline long v_%(c)s(%(c)s o) { o.t_%(c)s.use(); return o.m_%(c)s; }
inline long k_%(c)s(%(c)s &o, int x) { return o.m_%(c)s + x; }
inline void w_%(c)s(%(c)s &o, int x) { o.m_%(c)s = x; }
''' % dict(c=c, inh=': public ' + p if p else '', i=i + 10, n=i % 3 + 1, dtor='virtual ~%s() {}' % c if v else '',
           virt='virtual std::string who() { return "%s"; }' % c if v else ''))
    return '\n'.join(h)


def gen_rel(subclassing):
    def gen(mod):
        from pybindgen import param, retval
        for c in sorted(CH, key=lambda c: (len(chain(c)), c)):
            K = mod.add_class(c, parent=mod[CH[c]] if CH[c] else None, allow_subclassing=subclassing)
            K.add_constructor([])
            K.add_copy_constructor()
            K.add_method('own_' + c, 'int', [])
            K.add_method('st_' + c, 'int', [param('int', 'x')], is_static=True)
            K.add_method('name', retval('std::string'), [])
            if c[0] not in 'NO':
                K.add_method('who', retval('std::string'), [], is_virtual=True)
            K.add_instance_attribute('m_' + c, 'int')
            for f, t, kw in (('r_', '%s &', {}), ('cr_', 'const %s &', {}), ('p_', '%s *', dict(transfer_ownership=False)),
                             ('cp_', 'const %s *', dict(transfer_ownership=False)), ('np_', '%s *', dict(transfer_ownership=False, null_ok=True)), ('v_', '%s', {})):
                mod.add_function(f + c, 'long', [param(t % c, 'o', **kw)])
            mod.add_function('k_' + c, 'long', [param(c + ' &', 'o'), param('int', 'x')])
            mod.add_function('w_' + c, None, [param(c + ' &', 'o'), param('int', 'x')])
    return gen


FORMS = ['r_', 'cr_', 'p_', 'cp_', 'np_', 'v_', 'k_', 'w_']


def explore_rel(subclassing):
    def explore(M, x):
        idx = dict((c, i + 10) for i, c in enumerate(sorted(CH, key=lambda c: (len(chain(c)), c))))
        lib = x.clib()

        def make(c, sub):
            cls = getattr(M, c)
            for i in range(sub):
                cls = type('P%d' % i, (cls,), {})
            return cls()

        def relation(c):
            cls = getattr(M, c)
            x.eq([k.__name__ for k in cls.__mro__], chain(c) + ['object'], 'bases')
            for d in CH:
                x.eq(issubclass(cls, getattr(M, d)), d in chain(c), 'issubclass %s' % d)
        for c in sorted(CH):
            x.run('bases %s' % c, relation, c)

        def accept(c, sub, d, f):
            live = lib.pbmc_live()
            o = make(c, sub)
            fn = getattr(M, f + d)
            args = (3,) if f in ('k_', 'w_') else ()
            x.step()
            x.state((c, sub, d, f))
            if d in chain(c):
                got = fn(o, *args)
                x.eq(got, {'k_': idx[d] + 3, 'w_': None}.get(f, idx[d]), 'result')
                x.eq(fn(o=o, **({'x': 3} if args else {})), {'k_': idx[d] + 3, 'w_': None}.get(f, idx[d]), 'result with a keyword')
                if f == 'w_':
                    for e in chain(c):
                        x.eq(getattr(o, 'm_' + e), 3 if e == d else idx[e], 'member of %s' % e)
            else:
                try:
                    got = fn(o, *args)
                except TypeError:
                    pass
                else:
                    x.fail('accepted: %r' % (got,))
            del o
            if sub:
                gc.collect()
            x.eq(lib.pbmc_live(), live, 'live objects')
            x.eq(lib.pbmc_bad(), 0, 'bad uses')
        for c in sorted(CH):
            for sub in (0, 1, 2) if subclassing else (0,):
                for d in sorted(CH):
                    for f in FORMS:
                        x.run('%s%s as %s%s' % (c, "'" * sub, f, d), accept, c, sub, d, f)

        def other(d, f, name, value):
            args = (3,) if f in ('k_', 'w_') else ()
            try:
                got = getattr(M, f + d)(value, *args)
            except TypeError:
                x.check(not (f == 'np_' and value is None), 'None refused')
            else:
                x.check(f == 'np_' and value is None and got == -5, 'accepted: %r' % (got,))

        class Fake(object):
            obj = 5
        for d in sorted(CH):
            for f in FORMS:
                for name, value in (('None', None), ('int', 7), ('class', getattr(M, d)), ('str', 'x'), ('fake', Fake()), ('fn', M.r_R), ('module', M)):
                    x.run('%s as %s%s' % (name, f, d), other, d, f, name, value)

        def members(c, sub):
            o = make(c, sub)
            for d in CH:
                x.eq(hasattr(o, 'own_' + d), d in chain(c), 'has own_' + d)
                x.eq(hasattr(o, 'm_' + d), d in chain(c), 'has m_' + d)
                x.eq(hasattr(type(o), 'st_' + d), d in chain(c), 'has st_' + d)
            for d in chain(c):
                x.eq(getattr(o, 'own_' + d)(), idx[d] * 100 + idx[d], 'own_' + d)
                x.eq(getattr(M, d).__dict__['own_' + d].__get__(o)(), idx[d] * 101, 'unbound own_' + d)
                x.eq(getattr(o, 'st_' + d)(1), idx[d] + 1, 'st_' + d)
                setattr(o, 'm_' + d, 7)
                x.eq(getattr(M, 'r_' + d)(o), 7, 'C++ sees m_' + d)
                x.eq([getattr(o, 'm_' + e) for e in chain(c) if e != d], [idx[e] for e in chain(c) if e != d], 'other members')
                setattr(o, 'm_' + d, idx[d])
                x.eq(getattr(M, d).name(o), d, '%s.name' % d)
                # the method of a class on an instance that is not one
                for e in CH:
                    if d not in chain(e):
                        try:
                            getattr(M, d).name(make(e, sub))
                        except TypeError:
                            pass
                        else:
                            x.fail('%s.name accepted %s' % (d, e))
            x.eq(o.name(), c, 'name')
            if c[0] not in 'NO':
                x.eq(o.who(), c, 'who')
        for c in sorted(CH):
            for sub in (0, 1, 2) if subclassing else (0,):
                x.run("members %s%s" % (c, "'" * sub), members, c, sub)
        if not subclassing:
            def nosub(c):
                try:
                    type('P', (getattr(M, c),), {})
                except TypeError:
                    pass
                else:
                    x.fail('a class that does not allow subclassing was subclassed')
            for c in sorted(CH):
                x.run('subclass %s' % c, nosub, c)
    return explore


# -- 2: narrowing over every wrapped subset

DYN = {'R': [], 'A': ['R'], 'B': ['A'], 'C': ['R'], 'U': ['Mix', 'B'], 'W': ['B', 'Mx'], 'X': ['W'], 'V': ['Mx', 'B'], 'H': ['C'], 'Mix': [], 'Mx': []}
# of a V the bases do not share its address: it is seen as the type declared
ORDER = ['R', 'A', 'B', 'C', 'U', 'W', 'X', 'V', 'H']
WRAPPABLE = ['A', 'B', 'C', 'W', 'X']


def primary(c):
    b = [p for p in DYN[c] if p not in ('Mix', 'Mx')]
    return b[0] if b else None


def pchain(c):
    out = []
    while c:
        out.append(c)
        c = primary(c)
    return out


def narrow_header(refcount):
    h = ['#include <string>\nstruct Mix {};\nstruct Mx { int q; virtual ~Mx() {} Mx() : q(5) {} };']
    for i, c in enumerate(ORDER):
        rc = ''
        if c == 'R':
            rc = 'Track t; int rc; void ref() { t.use(); rc++; } void unref() { t.use(); if (--rc == 0) delete this; }'
        h.append('%s struct %s %s { %s int m_%s; %s() : %s m_%s(%d) {} virtual ~%s() {} virtual std::string dyn() const { return "%s"; } int get_%s() { return m_%s; } };%s'
                 % ('namespace {' if c == 'H' else '', c, (': ' + ', '.join('public ' + b for b in DYN[c])) if DYN[c] else '', rc, c, c, 'rc(1),' if c == 'R' else '', c, i + 20, c, c, c, c, '}' if c == 'H' else ''))
    h.append('inline R *&keep() { static R *r; return r; }')
    h.append('inline R *mk(int i) { switch (i) { %s } return NULL; }' % ' '.join('case %d: return new %s;' % (i, c) for i, c in enumerate(ORDER)))
    free = 'if (keep()) %s; ' % ('keep()->unref()' if refcount else 'delete keep()')
    h.append('inline void reset() { %s keep() = NULL; }' % free)
    h.append('inline void prep(int i) { reset(); keep() = mk(i); }')
    h.append('inline void put(R &r) { keep() = &r; }\ninline void forget() { keep() = NULL; }\ninline std::string dynr(R const &r) { return r.dyn(); }')
    for c in ORDER[:-1]:
        h.append('''inline %(c)s *take_%(c)s() { %(c)s *o = static_cast<%(c)s *>(keep()); keep() = NULL; return o; }
inline %(c)s *ref_%(c)s() { return static_cast<%(c)s *>(keep()); }
inline %(c)s const *cref_%(c)s() { return static_cast<%(c)s *>(keep()); }
inline %(c)s &rr_%(c)s() { return *static_cast<%(c)s *>(keep()); }
inline %(c)s const &crr_%(c)s() { return *static_cast<%(c)s *>(keep()); }
inline %(c)s *copy_%(c)s() { return static_cast<%(c)s *>(keep()); }
inline %(c)s val_%(c)s() { return *static_cast<%(c)s *>(keep()); }
struct L_%(c)s { virtual ~L_%(c)s() {} virtual std::string on(%(c)s *o) { return "none"; } %(c)s *at; L_%(c)s() : at(static_cast<%(c)s *>(keep())) {} %(c)s *give() { return at; } };
inline std::string call_%(c)s(L_%(c)s &l) { return l.on(static_cast<%(c)s *>(keep())); }
''' % dict(c=c))
    return '\n'.join(h)


def wrapped_of(subset):
    return [c for c in ORDER if c == 'R' or c in subset]


def wparent(c, subset):
    for p in pchain(c)[1:]:
        if p in wrapped_of(subset):
            return p
    return None


def gen_narrow(subset, refcount, narrowing=True):
    def gen(mod):
        from pybindgen import param, retval, cppclass
        mod.add_function('prep', None, [param('int', 'i')])
        mod.add_function('reset', None, [])
        mod.add_function('forget', None, [])
        for c in wrapped_of(subset):
            p = wparent(c, subset)
            kw = {}
            if p is None:
                if refcount:
                    kw['memory_policy'] = cppclass.ReferenceCountingMethodsPolicy('ref', 'unref')
                kw['automatic_type_narrowing'] = narrowing
            K = mod.add_class(c, parent=mod[p] if p else None, allow_subclassing=True, **kw)
            K.add_constructor([])
            if not refcount:
                K.add_copy_constructor()
            K.add_method('dyn', retval('std::string'), [], is_virtual=True, is_const=True)
            K.add_method('get_' + c, 'int', [])
            K.add_instance_attribute('m_' + c, 'int')
            mod.add_function('take_' + c, retval(c + ' *', caller_owns_return=True), [])
            if not refcount:
                mod.add_function('ref_' + c, retval(c + ' *', reference_existing_object=True), [])
                mod.add_function('cref_' + c, retval('const %s *' % c, reference_existing_object=True), [])
                mod.add_function('rr_' + c, retval(c + ' &', reference_existing_object=True), [])
                mod.add_function('crr_' + c, retval('const %s &' % c, reference_existing_object=True), [])
                mod.add_function('copy_' + c, retval(c + ' *', caller_owns_return=False), [])
                mod.add_function('val_' + c, retval(c), [])
            else:
                mod.add_function('ref_' + c, retval(c + ' *', caller_owns_return=False), [])
            L = mod.add_class('L_' + c, allow_subclassing=True)
            L.add_constructor([])
            L.add_method('on', retval('std::string'), [param(c + ' *', 'o', transfer_ownership=False)], is_virtual=True)
            if not refcount:
                L.add_method('give', retval(c + ' *', reference_existing_object=True), [])
            mod.add_function('call_' + c, retval('std::string'), [param('L_%s &' % c, 'l')])
        mod.add_function('put', None, [param('R &', 'r')])
        mod.add_function('dynr', retval('std::string'), [param('const R &', 'r')])
    return gen


def explore_narrow(subset, refcount, narrowing=True):
    def explore(M, x):
        lib = x.clib()
        W = wrapped_of(subset)

        def expected(c, stat):
            if not narrowing or c == 'V':
                return stat
            for p in pchain(c):
                if p in W:
                    return p

        def check(o, c, stat, what, copied=False):
            want = stat if copied else expected(c, stat)
            x.eq(type(o).__name__, want, what + ': type')
            x.eq(o.dyn(), stat if copied else c, what + ': dynamic type')
            for p in W:
                if p in pchain(want):
                    x.eq((getattr(o, 'get_' + p)(), getattr(o, 'm_' + p)), (20 + ORDER.index(p),) * 2, what + ': member of ' + p)
            x.eq(M.dynr(o), stat if copied else c, what + ': given back')

        def one(c, stat, mode):
            M.reset()
            live = lib.pbmc_live()
            M.prep(ORDER.index(c))
            x.step()
            x.state((tuple(W), c, stat, mode))
            if mode == 'override':
                seen = []

                class P(getattr(M, 'L_' + stat)):
                    def on(self, o):
                        seen.append(type(o).__name__)
                        return o.dyn()
                # without reference counting overrides see a copy
                x.eq(getattr(M, 'call_' + stat)(P()), c if refcount else stat, 'seen by the override')
                x.eq(seen, [expected(c, stat) if refcount else stat], 'type given to the override')
            elif mode == 'give':
                l = getattr(M, 'L_' + stat)()
                check(l.give(), c, stat, mode)
                del l
            else:
                o = getattr(M, mode + '_' + stat)()
                check(o, c, stat, mode, mode in ('copy', 'val'))
                del o
            M.reset()
            gc.collect()
            x.eq(lib.pbmc_live(), live, 'live objects')
            x.eq(lib.pbmc_bad(), 0, 'bad uses')
        modes = ['take', 'ref', 'override'] + ([] if refcount else ['cref', 'rr', 'crr', 'copy', 'val', 'give'])
        for c in ORDER:
            for stat in W:
                if stat in pchain(c):
                    for mode in modes:
                        x.run('%s as %s %s' % (c, mode, stat), one, c, stat, mode)

        # what one return shows leaves the next as it was
        def two(c, first, second, mode):
            M.reset()
            M.prep(ORDER.index(c))
            x.step(2)
            x.state((tuple(W), c, first, second, mode))
            for again in (first, second, first):
                o = getattr(M, mode + '_' + again)()
                check(o, c, again, mode)
                del o
            M.reset()
            x.eq(lib.pbmc_bad(), 0, 'bad uses')
        if not refcount:
            for c in ORDER:
                for first, second in itertools.permutations([p for p in W if p in pchain(c)], 2):
                    for mode in ('ref', 'rr', 'cref'):
                        x.run('%s as %s, then %s, %s' % (c, first, second, mode), two, c, first, second, mode)

        def python(c, stat, mode):
            # an instance of a Python subclass seen through a base pointer
            P = type('P', (getattr(M, c),), {'dyn': lambda self: 'P'})
            live = lib.pbmc_live()
            o = P()
            M.put(o)
            x.step()
            r = getattr(M, mode + '_' + stat)()
            copied = mode in ('copy', 'val')
            if r is not o:
                x.eq(type(r).__name__, stat if copied or not narrowing else c, 'type')
            if mode == 'val':
                x.eq(r.dyn(), stat, 'dynamic type of the copy')
            elif not (copied and r is not o):
                x.eq(M.dynr(r), 'P', 'dynamic type')
            for p in pchain(stat):
                if p in W:
                    x.eq(getattr(r, 'm_' + p), 20 + ORDER.index(p), 'member of ' + p)
            del r
            x.eq(M.dynr(o), 'P', 'the object afterwards')
            M.forget()
            del o
            gc.collect()
            x.eq(lib.pbmc_live(), live, 'live objects')
            x.eq(lib.pbmc_bad(), 0, 'bad uses')
        for c in W:
            for stat in W:
                if stat in pchain(c):
                    for mode in modes:
                        if mode not in ('take', 'override', 'give'):
                            x.run('python %s as %s %s' % (c, mode, stat), python, c, stat, mode)
    return explore


# -- 3: several bases and offsets

MI = '''
#include <string>
struct A { int a; A() : a(11) {} virtual ~A() {} int geta() { return a; } virtual std::string va() { return "A"; } };
struct E { double pad; int e; E() : pad(0), e(22) {} virtual ~E() {} int gete() { return e; } virtual std::string ve() { return "E"; } };
struct N { int n; N() : n(33) {} int getn() { return n; } };
struct F { int f; F() : f(44) {} int getf() { return f; } };
struct AE : A, E { int x; AE() : x(55) {} int getx() { return x; } };
struct EA : E, A { int x; EA() : x(56) {} int getx() { return x; } };
struct NF : N, F { int x; NF() : x(57) {} int getx() { return x; } };
struct NA : N, A { int x; NA() : x(58) {} int getx() { return x; } };
struct AEN : A, E, N { int x; AEN() : x(59) {} int getx() { return x; } };
struct AEX : AE { int y; AEX() : y(60) {} int gety() { return y; } };
struct NV : N { int x; NV() : x(61) {} virtual ~NV() {} int getx() { return x; } };
struct AEF : AE, F { int y; AEF() : y(62) {} int gety() { return y; } };
inline int on_A(A &o) { return o.a; }
inline int on_E(E &o) { return o.e; }
inline int on_N(N &o) { return o.n; }
inline int on_F(F &o) { return o.f; }
inline int p_A(A *o) { return o->a; }
inline int p_E(E *o) { return o->e; }
inline int p_N(N *o) { return o->n; }
inline int p_F(F *o) { return o->f; }
inline int v_A(A o) { return o.a; }
inline int v_E(E o) { return o.e; }
inline int v_N(N o) { return o.n; }
inline int v_F(F o) { return o.f; }
'''
MIB = {'A': [], 'E': [], 'N': [], 'F': [], 'AE': ['A', 'E'], 'EA': ['E', 'A'], 'NF': ['N', 'F'], 'NA': ['N', 'A'], 'AEN': ['A', 'E', 'N'],
       'AEX': ['AE'], 'NV': ['N'], 'AEF': ['AE', 'F']}
MIV = {'A': ('a', 11), 'E': ('e', 22), 'N': ('n', 33), 'F': ('f', 44), 'AE': ('x', 55), 'EA': ('x', 56), 'NF': ('x', 57), 'NA': ('x', 58), 'AEN': ('x', 59),
       'AEX': ('y', 60), 'NV': ('x', 61), 'AEF': ('y', 62)}
MIO = ['A', 'E', 'N', 'F', 'AE', 'EA', 'NF', 'NA', 'AEN', 'AEX', 'NV', 'AEF']


def gen_mi(mod):
    from pybindgen import param, retval
    for c in MIO:
        b = [mod[p] for p in MIB[c]]
        K = mod.add_class(c, parent=(b if len(b) > 1 else b[0] if b else None), allow_subclassing=True)
        K.add_constructor([])
        K.add_copy_constructor()
        K.add_method('get' + MIV[c][0], 'int', [])
        K.add_instance_attribute(MIV[c][0], 'int')
        if c in 'AE' and len(c) == 1:
            K.add_method('v' + c.lower(), retval('std::string'), [], is_virtual=True)
        if len(c) == 1:
            mod.add_function('on_' + c, 'int', [param(c + ' &', 'o')])
            mod.add_function('p_' + c, 'int', [param(c + ' *', 'o', transfer_ownership=False)])
            mod.add_function('v_' + c, 'int', [param(c, 'o')])


def mi_bases(c):
    out = [c]
    for b in MIB[c]:
        for d in mi_bases(b):
            if d not in out:
                out.append(d)
    return out


def explore_mi(M, x):
    def rel(c):
        for d in MIO:
            x.eq(issubclass(getattr(M, c), getattr(M, d)), d in mi_bases(c), 'issubclass %s' % d)
    for c in MIO:
        x.run('bases %s' % c, rel, c)

    def one(c, d, how, sub):
        K = getattr(M, c)
        o = type('P', (K,), {})() if sub else K()
        at, val = MIV[d]
        x.step()
        x.state((c, d, how, sub))
        if how in ('on', 'p', 'v'):
            fn = getattr(M, '%s_%s' % (how, d))
            if d in mi_bases(c):
                x.eq(fn(o), val, 'result')
            else:
                try:
                    r = fn(o)
                except TypeError:
                    pass
                else:
                    x.fail('accepted: %r' % r)
        elif how == 'method':
            x.eq(getattr(o, 'get' + at)(), val, 'get' + at)
            if d in ('A', 'E'):
                x.eq(getattr(o, 'v' + d.lower())(), d, 'v' + d.lower())
        elif how == 'attribute':
            x.eq(getattr(o, at), val, at)
        elif how == 'set':
            if getattr(o, at) != val:       # the write would go astray
                x.fail('reads %r' % getattr(o, at))
                return
            setattr(o, at, 99)
            for e in mi_bases(c):
                x.eq(getattr(o, 'get' + MIV[e][0])(), 99 if e == d else MIV[e][1], 'get' + MIV[e][0])
    for c in MIO:
        for d in MIO:
            for how in ('on', 'p', 'v', 'method', 'attribute', 'set'):
                if how in ('on', 'p', 'v') and len(d) > 1 or how in ('method', 'attribute', 'set') and d not in mi_bases(c):
                    continue
                for sub in (0, 1):
                    x.run('%s%s %s %s' % (c, "'" * sub, how, d), one, c, d, how, sub)


# -- 4: any choice of subclassable classes in a chain

MIXED = '''
#include <string>
struct A { Track t; int a; A() : a(1) {} virtual ~A() {} virtual std::string f() { return "A"; } std::string cf() { return f(); } };
struct B : A { int b; B() : b(2) {} virtual std::string f() { return "B"; } };
struct C : B { int c; C() : c(3) {} virtual std::string f() { return "C"; } };
inline A *&keep() { static A *a; return a; }
inline void give(A *a) { keep() = a; }
inline A *peek() { return keep(); }
inline void drop() { delete keep(); keep() = NULL; }
inline A *mk(int i) { return i == 0 ? new A : i == 1 ? new B : new C; }
inline int on_A(A &o) { return o.a; }
'''


def gen_mixed(flags):
    def gen(mod):
        from pybindgen import param, retval
        prev = None
        for c, fl in zip('ABC', flags):
            K = mod.add_class(c, parent=prev, allow_subclassing=fl, automatic_type_narrowing=True)
            prev = K
            K.add_constructor([])
            K.add_copy_constructor()
            K.add_method('f', retval('std::string'), [], is_virtual=True)
            if c == 'A':
                K.add_method('cf', retval('std::string'), [])
            K.add_instance_attribute(c.lower(), 'int')
        mod.add_function('mk', retval('A *', caller_owns_return=True), [param('int', 'i')])
        mod.add_function('on_A', 'int', [param('A &', 'o')])
        mod.add_function('give', None, [param('A *', 'a', transfer_ownership=True)])
        mod.add_function('peek', retval('A *', reference_existing_object=True), [])
        mod.add_function('drop', None, [])
    return gen


def explore_mixed(flags):
    def explore(M, x):
        lib = x.clib()

        def one(c, how):
            gc.collect()
            live = lib.pbmc_live()
            fl = flags['ABC'.index(c)]
            K = getattr(M, c)
            x.step()
            x.state((flags, c, how))
            if how == 'plain':
                o = K()
            elif how == 'narrowed':
                o = M.mk('ABC'.index(c))
                x.eq(type(o).__name__, c, 'narrowed type')
            elif how == 'python':
                if not fl:
                    try:
                        type('P', (K,), {})
                    except TypeError:
                        return
                    x.fail('subclassing was not refused')
                    return
                P = type('P', (K,), {'f': lambda self: 'P' + super(P, self).f()})
                o = P()
                x.eq(o.cf(), 'P' + c, 'override')
            elif how in ('given', 'given away'):
                o = K()
                if fl:
                    o.extra = 5
                M.give(o)
                if how == 'given':
                    del o
                    gc.collect()
                    x.eq(lib.pbmc_live(), live + 1, 'live objects')
                    o = M.peek()
                    x.eq(type(o).__name__, c, 'narrowed type')
            for d in 'ABC'[:'ABC'.index(c) + 1] if how != 'given away' else ():
                x.eq(getattr(o, d.lower()), 'ABC'.index(d) + 1, 'attribute ' + d.lower())
            if how != 'given away':     # nothing may be asked of it any more
                x.eq(M.on_A(o), 1, 'as A')
            gc.collect()
            if fl and how == 'given away':
                x.eq(o.extra, 5, 'instance attribute')
            elif fl:
                o.extra = o         # a cycle through the instance dictionary
                x.check(o.extra is o, 'instance attribute')
                gc.collect()
                x.eq(o.a, 1, 'a after a collection')
                if how == 'narrowed':
                    del o.extra
            del o
            gc.collect()
            if how.startswith('given'):
                x.eq(lib.pbmc_live(), live + 1, 'live objects')
                M.drop()
            x.eq(lib.pbmc_live(), live, 'live objects')
            x.eq(lib.pbmc_bad(), 0, 'bad uses')
        for c in 'ABC':
            for how in ('plain', 'narrowed', 'python', 'given', 'given away'):
                x.run('%s %s' % (c, how), one, c, how)
    return explore


def scenarios(tier):
    out = []
    for sub in (False, True):
        out.append(Scenario('relation' + ('_subclassing' if sub else ''), rel_header(), gen_rel(sub), explore_rel(sub)))
    subsets = [s for n in range(len(WRAPPABLE) + 1) for s in itertools.combinations(WRAPPABLE, n)]
    for s in subsets:
        for rc in (False, True):
            if rc and len(s) % 2 == 0 and tier != 'thorough':
                continue
            out.append(Scenario('narrow_%s%s' % (''.join(s) or 'R', '_rc' if rc else ''), narrow_header(rc), gen_narrow(s, rc), explore_narrow(s, rc)))
    for s in (tuple(WRAPPABLE), ('A', 'C')):
        out.append(Scenario('wide_%s' % ''.join(s), narrow_header(False), gen_narrow(s, False, False), explore_narrow(s, False, False)))
    out.append(Scenario('bases', MI, gen_mi, explore_mi))
    for flags in itertools.product((False, True), repeat=3):
        if list(flags) != sorted(flags):
            continue        # refused when the class is added
        out.append(Scenario('mixed_' + ''.join('ny'[f] for f in flags), MIXED, gen_mixed(flags), explore_mixed(flags)))
    if tier == 'thorough':
        for sc in list(out):
            out.append(Scenario(sc.name + '_reg', sc.header, sc.gen, sc.explore, settings={'wrapper_registry': 'StdMapWrapperRegistry'}))
    return out
