"""C06: an overloaded call runs the first declared overload that accepts the arguments."""
import itertools
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('every ordered set of overloads over the alphabet of parameter types up to the bound x kind of callable x every '
        'argument value (positional, keyword, too many, too few) x whether the body returns, throws or returns an unconvertible '
        'result, against a reference dispatcher; distinct_nontrivial counts distinct (overload set, arguments, outcome)')
BOUNDS = {'quick': 'all ordered pairs of 16 parameter types, 224 triples, all pairs of 12 signatures of 0 to 3 parameters; 9 kinds of callables',
          'thorough': 'all ordered triples of 16 parameter types, all triples of 12 signatures of 0 to 3 parameters'}

HEADER = r'''
#include <stdint.h>
#include <memory>
struct A { int v; A(int x = 0) : v(x) {} };
struct DA : A { DA(int x = 0) : A(x) {} };
struct B { int v; B(int x = 0) : v(x) {} };
struct C { int v; C(int x = 0) : v(x) {} C(A const &a) : v(a.v + 100) {} };
struct Z { int v; Z(int x = 0) : v(x) {} };
enum E { E_ZERO, E_ONE, E_TWO };
struct Err { int x; };
typedef std::vector<int> IVec;
PBMC_C std::string *pbmc_rec(); PBMC_C std::string *pbmc_rec() { static std::string s; return &s; }
PBMC_C const char *pbmc_trace(); PBMC_C const char *pbmc_trace() { return pbmc_rec()->c_str(); }
PBMC_C void pbmc_clear(); PBMC_C void pbmc_clear() { pbmc_rec()->clear(); }
PBMC_C int *pbmc_mode(); PBMC_C int *pbmc_mode() { static int m; return &m; }
PBMC_C void pbmc_setmode(int); PBMC_C void pbmc_setmode(int m) { *pbmc_mode() = m; }
struct R {
    R(int n) { *pbmc_rec() += std::to_string(n) + "("; }
    R &add(std::string const &s) { for (char c : s) *pbmc_rec() += c ? c : '0'; *pbmc_rec() += ";"; return *this; }
    R &operator,(int x) { return add("int " + std::to_string(x)); }
    R &operator,(int8_t x) { return add("int8 " + std::to_string(x)); }
    R &operator,(uint16_t x) { return add("uint16 " + std::to_string(x)); }
    R &operator,(bool x) { return add(x ? "true" : "false"); }
    R &operator,(double x) { char b[64]; snprintf(b, 64, "%.2f", x); return add(b); }
    R &operator,(char x) { return add(std::string("'") + x + "'"); }
    R &operator,(std::string const &x) { return add('"' + x + '"'); }
    R &operator,(const char *x) { return add("*\"" + std::string(x) + '"'); }
    R &operator,(A const &x) { return add("A" + std::to_string(x.v)); }
    R &operator,(DA const &x) { return add("DA" + std::to_string(x.v)); }
    R &operator,(C const &x) { return add("C" + std::to_string(x.v)); }
    R &operator,(A *x) { return add(x ? "*A" + std::to_string(x->v) : "NULL"); }
    R &operator,(B *x) { return add(x ? "*B" + std::to_string(x->v) : "NULL"); }
    R &operator,(E x) { return add("E" + std::to_string(int(x))); }
    R &operator,(std::shared_ptr<Z> const &x) { return add(x ? "Z" + std::to_string(x->v) : "NULL"); }
    R &operator,(IVec const &x) {
        std::string s = "[";
        for (size_t i = 0; i < x.size(); ++i) s += (i ? "," : "") + std::to_string(x[i]);
        return add(s + "]");
    }
};
inline const char *fin(const char *n) {
    if (*pbmc_mode() == 1) throw Err();
    return *pbmc_mode() == 2 ? "\xff\xfe" : n;
}
'''
# key: (C++ type, param keywords, default as C++, as the body sees it)
T = {
    'i': ('int', {}, '41', 'int 41'),
    'y': ('int8_t', {}, '42', 'int8 42'),
    'H': ('uint16_t', {}, '43', 'uint16 43'),
    'b': ('bool', {}, 'true', 'true'),
    'd': ('double', {}, '4.5', '4.50'),
    's': ('std::string', {}, '"dd"', '"dd"'),
    'c': ('const char *', {}, '"dc"', '*"dc"'),
    'x': ('char', {}, None, None),
    'A': ('A const &', {}, 'A(44)', 'A44'),
    'D': ('DA const &', {}, None, None),
    'C': ('C const &', {}, None, None),
    'P': ('A *', {'transfer_ownership': False, 'null_ok': True}, None, None),
    'p': ('B *', {'transfer_ownership': False}, None, None),
    'e': ('E', {}, 'E_TWO', 'E2'),
    'V': ('IVec', {}, None, None),
    'Z': ('std::shared_ptr<Z>', {}, None, None),
}


class Raiser(object):
    """Refuses every conversion with an error of its own."""
    def __index__(self):
        raise KeyError('index')
    __int__ = __index__
    def __bool__(self):
        raise KeyError('bool')
    def __float__(self):
        raise KeyError('float')


class Mute(Exception):
    def __str__(self):
        raise RuntimeError('no text')


class MuteRaiser(Raiser):
    def __index__(self):
        raise Mute()
    __bool__ = __float__ = __int__ = __index__


class Idx(object):
    def __index__(self):
        return 6


class Flt(object):
    def __float__(self):
        return 6.5


def values(M):
    return [0, 5, -3, True, 300, 70000, 2 ** 31, 2 ** 70, 1.5, float(2 ** 40), 'x', 'x\0y', '\u20ac', b'b', b'bytes', None,
            M.A(1), M.DA(2), M.B(3), M.C(4), M.Z(5), [], [1, 2], ['x'], M.IVec([7]), (1,), object(), Idx(), Flt(), Raiser(), MuteRaiser()]


def accept(M, k, v):
    """How a parameter of kind k sees v, or None if it refuses it."""
    def as_int():
        if isinstance(v, int):
            return int(v)
        return 6 if isinstance(v, Idx) else None
    def rng(lo, hi):
        n = as_int()
        return n if n is not None and lo <= n <= hi else None
    if k == 'i':
        n = rng(-2 ** 31, 2 ** 31 - 1)
        return None if n is None else 'int %d' % n
    if k == 'y':
        n = rng(-128, 127)
        return None if n is None else 'int8 %d' % n
    if k == 'H':
        n = rng(0, 65535)
        return None if n is None else 'uint16 %d' % n
    if k == 'e':
        n = rng(-2 ** 31, 2 ** 31 - 1)
        return None if n is None else 'E%d' % n
    if k == 'b':
        return None if isinstance(v, Raiser) else 'true' if v else 'false'
    if k == 'd':
        if isinstance(v, (int, float)):
            return '%.2f' % v
        return '6.00' if isinstance(v, Idx) else '6.50' if isinstance(v, Flt) else None
    if k == 's':
        b = v if isinstance(v, bytes) else v.encode() if isinstance(v, str) else None
        return None if b is None else '"%s"' % b.decode().replace('\0', '0')
    if k == 'c':
        return '*"%s"' % v if isinstance(v, str) and '\0' not in v else None
    if k == 'x':
        return "'%s'" % v.decode() if isinstance(v, bytes) and len(v) == 1 else None
    if k == 'A':
        return 'A%d' % v.v if isinstance(v, M.A) else None
    if k == 'D':
        return 'DA%d' % v.v if isinstance(v, M.DA) else None
    if k == 'C':
        return 'C%d' % v.v if isinstance(v, M.C) else 'C%d' % (v.v + 100) if isinstance(v, M.A) else None
    if k == 'P':
        return 'NULL' if v is None else '*A%d' % v.v if isinstance(v, M.A) else None
    if k == 'p':
        return '*B%d' % v.v if isinstance(v, M.B) else None
    if k == 'Z':
        return 'Z%d' % v.v if isinstance(v, M.Z) else None
    if k == 'V':
        if isinstance(v, M.IVec):
            return '[%s]' % ','.join(map(str, v))
        return '[%s]' % ','.join(map(str, v)) if isinstance(v, list) and all(isinstance(e, int) for e in v) else None


# a signature is (types, number of defaults, prefix of the parameters' names)
def sig(types, d=0, pre='p'):
    return (types, d, pre)


ARITY = [sig(''), sig('i'), sig('s'), sig('A'), sig('ii'), sig('is'), sig('si'), sig('sA'), sig('ii', 1), sig('d', 1, 'q'),
         sig('ib', 0, 'q'), sig('sAe', 2)]


def overload_sets(kind, tier):
    """-> list of tuples of signatures"""
    ks = sorted(T)
    out = []
    if kind in ('func', 'alias', 'ctor', 'meth') or tier == 'thorough':
        out += [tuple(sig(k) for k in t) for t in itertools.permutations(ks, 2)]
    else:
        out += [tuple(sig(k) for k in t) for i, t in enumerate(itertools.permutations(ks, 2)) if i % 5 == KINDS.index(kind) % 5]
    if tier == 'thorough' and kind in ('alias', 'meth'):
        out += [tuple(sig(k) for k in t) for t in itertools.permutations(ks, 3)]
    elif kind in ('alias', 'ctor') or tier == 'thorough':
        for i in range(len(ks)):
            for a, b in itertools.product((1, 3, 6, 10), (2, 5, 9, 13)):
                if (a + b) % 2 == (0 if kind == 'alias' else 1):
                    t = (ks[i], ks[(i + a) % len(ks)], ks[(i + b) % len(ks)])
                    if len(set(t)) == 3:
                        out.append(tuple(sig(k) for k in t))
    if kind == 'alias':
        out += list(itertools.permutations(ARITY, 2))
        out += [t for i, t in enumerate(itertools.permutations(ARITY, 3)) if tier == 'thorough' or i % 11 == 0]
    elif kind in ('ctor', 'meth', 'smeth', 'func'):
        # sets without defaults do not depend on C++ overload resolution
        out += [t for t in itertools.permutations([s for s in ARITY if not s[1]], 2)]
    return out


KINDS = ['func', 'alias', 'meth', 'smeth', 'vmeth', 'fmeth', 'ctor', 'amet', 'inh']


def header(kind, sets):
    h = [HEADER]
    for n, st in enumerate(sets):
        members = []
        for j, (types, d, pre) in enumerate(st):
            ps = ', '.join('%s %s%d' % (T[k][0], pre, i) for i, k in enumerate(types))
            run = '{ R r(%d); (r%s); return fin("%d"); }' % (j, ''.join(', %s%d' % (pre, i) for i in range(len(types))), j)
            if kind in ('func', 'alias'):
                h.append('inline const char *%s(%s) %s' % (cname(kind, n, j), ps, run))
            elif kind == 'fmeth':
                h.append('struct H%d; inline const char *%s(H%d &%s) %s' % (n, cname(kind, n, j), n, ', ' + ps if ps else '', run))
            elif kind == 'ctor':
                members.append((j, 'H%d(%s) : idx(%d) %s' % (n, ps, j, run.replace('return fin("%d")' % j, 'fin("")'))))
            else:
                members.append((j, '%s const char *%s(%s) %s' % ({'smeth': 'static', 'vmeth': 'virtual'}.get(kind, ''), cname(kind, n, j), ps, run)))
        if kind == 'inh':
            h.append('struct HB%d { %s };' % (n, '\n'.join(m for j, m in members if j)))
            h.append('struct H%d : HB%d { %s };' % (n, n, '\n'.join(m for j, m in members if not j)))
        elif kind == 'ctor':
            h.append('struct H%d { Track t; int idx; %s H%d(H%d const &o) : t(o.t), idx(o.idx) {} };' % (n, '\n'.join(m for j, m in members), n, n))
        elif members:
            h.append('struct H%d { %s %s };' % (n, 'virtual ~H%d() {}' % n if kind == 'vmeth' else '', '\n'.join(m for j, m in members)))
        elif kind == 'fmeth':
            h.append('struct H%d {};' % n)
    return '\n'.join(h)


def cname(kind, n, j):
    return 'f%d_%d' % (n, j) if kind in ('alias', 'fmeth', 'amet') else 'f%d' % n


def make_gen(kind, sets):
    def gen(mod):
        from pybindgen import param
        from pybindgen.typehandlers.smart_ptr import StdSharedPtr
        x = [param('int', 'x', default_value='0')]
        A = mod.add_class('A')
        for name in ('A', 'DA', 'B', 'C'):
            k = A if name == 'A' else mod.add_class(name, parent=A if name == 'DA' else None)
            k.add_constructor(list(x))
            k.add_copy_constructor()
            if name != 'DA':
                k.add_instance_attribute('v', 'int')
            if name == 'C':
                A.implicitly_converts_to(k)
        Z = mod.add_class('Z', memory_policy=StdSharedPtr('Z'))
        Z.add_constructor(list(x))
        Z.add_instance_attribute('v', 'int')
        mod.add_enum('E', ['E_ZERO', 'E_ONE', 'E_TWO'])
        mod.add_container('IVec', 'int', 'vector')
        err = mod.add_exception('Err', message_rvalue='"err"')
        for n, st in enumerate(sets):
            H = None
            if kind not in ('func', 'alias'):
                base = None
                if kind == 'inh':
                    base = mod.add_class('HB%d' % n)
                    base.add_constructor([])
                H = mod.add_class('H%d' % n, parent=base, allow_subclassing=kind == 'vmeth')
                if kind == 'ctor':
                    H.add_instance_attribute('idx', 'int')
                else:
                    H.add_constructor([])
            order = list(enumerate(st))
            if kind == 'inh':
                order = order[1:] + order[:1]
            for j, (types, d, pre) in order:
                ps = []
                for i, k in enumerate(types):
                    kw = dict(T[k][1])
                    if i >= len(types) - d:
                        kw['default_value'] = T[k][2]
                    ps.append(param(T[k][0], '%s%d' % (pre, i), **kw))
                cn = cname(kind, n, j)
                ret = 'const char *'
                kw = dict(throw=[err])
                if cn != 'f%d' % n:
                    kw['custom_name'] = 'f%d' % n
                if kind in ('func', 'alias'):
                    mod.add_function(cn, ret, ps, **kw)
                elif kind == 'fmeth':
                    H.add_function_as_method(cn, ret, [param('H%d &' % n, 'self')] + ps, **kw)
                elif kind == 'ctor':
                    H.add_constructor(ps, throw=[err])
                elif kind == 'inh':
                    (base if j else H).add_method(cn, ret, ps, **kw)
                else:
                    H.add_method(cn, ret, ps, is_static=kind == 'smeth', is_virtual=kind == 'vmeth', **kw)
    return gen


def make_explore(kind, sets):
    def explore(M, x):
        import ctypes
        import gc
        lib = x.clib()
        lib.pbmc_trace.restype = ctypes.c_char_p
        lib.pbmc_clear.restype = None
        vals = values(M)
        gc.disable()

        def bind(sg, pos, kw):
            types, d, pre = sg
            names = ['%s%d' % (pre, i) for i in range(len(types))]
            if len(pos) > len(types) or any(k not in names for k in kw) or any(k in names[:len(pos)] for k in kw):
                return None
            out = []
            for i, k in enumerate(types):
                if i < len(pos):
                    r = accept(M, k, pos[i])
                elif names[i] in kw:
                    r = accept(M, k, kw[names[i]])
                elif i >= len(types) - d:
                    r = T[k][3]
                else:
                    return None
                if r is None:
                    return None
                out.append(r)
            return out

        def one(fn, what, pos, kw, st, modes):
            want = None
            for j, sg in st:
                seen = bind(sg, pos, kw)
                if seen is not None:
                    want = '%d(%s' % (j, ''.join(s + ';' for s in seen))
                    break
            for mode in modes if want else (0,):
                lib.pbmc_setmode(mode)
                lib.pbmc_clear()
                x.step()
                x.state((what, tuple(map(type, pos)), repr(pos)[:30] if mode == 0 and len(pos) == 1 and isinstance(pos[0], (int, str)) else '', tuple(kw), mode))
                err = res = None
                live = lib.pbmc_live()
                try:
                    res = fn(*pos, **kw)
                except BaseException as e:
                    err = e
                got = lib.pbmc_trace().decode()
                call = '%s, arguments %r %r, mode %d' % (what, pos, kw, mode)
                if want is None:
                    if got:
                        x.fail('%s: ran %s, expected nothing (%r)' % (call, got, err))
                    if not isinstance(err, TypeError if len(st) > 1 else Exception):
                        x.fail('%s: got %r / %r instead of TypeError' % (call, res, err))
                elif got != want:
                    x.fail('%s: ran %s, expected %s (%r)' % (call, got, want, err))
                elif mode == 0:
                    r = res.idx if kind == 'ctor' and err is None else res
                    w = int(want[0]) if kind == 'ctor' else want[0]
                    if err is not None or r != w:
                        x.fail('%s: got %r / %r, expected %r' % (call, res, err, w))
                elif mode == 1:
                    if type(err) is not M.Err or err.args != ('err',):
                        x.fail('%s: got %r / %r, expected the C++ exception' % (call, res, err))
                elif not isinstance(err, UnicodeDecodeError):
                    x.fail('%s: got %r / %r, expected the decoding error' % (call, res, err))
                res = err = None
                lib.pbmc_setmode(0)
                if kind == 'ctor' and lib.pbmc_live() != live:
                    x.fail('%s: left %d C++ objects alive' % (call, lib.pbmc_live() - live))

        for n, st in enumerate(sets):
            what = '/'.join('%s%s%s' % (s[0], '-%d' % s[1] if s[1] else '', s[2] if s[2] != 'p' else '') for s in st)
            full = st
            st = list(enumerate(st))
            if kind == 'inh':
                # as in C++, a method of the derived class hides those of its base
                what += ' via derived'
                st = st[:1]
            if not x.case('%s %s' % (kind, what)):
                continue
            if kind in ('func', 'alias'):
                fn = getattr(M, 'f%d' % n)
            elif kind == 'ctor':
                fn = getattr(M, 'H%d' % n)
            else:
                H = getattr(M, 'H%d' % n)
                fn = getattr(H, 'f%d' % n) if kind == 'smeth' else getattr(H(), 'f%d' % n)
            modes = (0, 1) if kind == 'ctor' else (0, 1, 2)
            one(fn, what, [], {}, st, modes)
            m = max(len(s[0]) for s in full)
            if m == 1:
                for v in vals:
                    one(fn, what, [v], {}, st, modes)
                for v in vals[:17] if x.thorough else vals[1:17:5]:
                    one(fn, what, [], {'p0': v}, st, modes)
                    one(fn, what, [], {'q0': v}, st, modes)
                    one(fn, what, [v, 1], {}, st, modes)
            else:
                few = [7, 's', vals[16], 2.5]
                for k in range(1, m + 2):
                    for pos in itertools.product(few, repeat=k):
                        for nk in range(k + 1):
                            for pre in ('p', 'q') if nk else ('p',):
                                if nk and k > 2 and not x.thorough and (nk != 1 or pre == 'q'):
                                    continue
                                one(fn, what, list(pos[:k - nk]), {'%s%d' % (pre, i): pos[i] for i in range(k - nk, k)}, st, (0,) if k > 1 else modes)
    return explore


def scenarios(tier):
    out = []
    for kind in KINDS:
        sets = overload_sets(kind, tier)
        if kind == 'inh':
            sets = [s for s in sets if len(s) == 2]
        step = 60
        for i in range(0, len(sets), step):
            part = sets[i:i + step]
            out.append(Scenario('%s_%d' % (kind, i // step), header(kind, part), make_gen(kind, part), make_explore(kind, part)))
    return out
