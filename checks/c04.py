"""C04: argument binding; every signature shape x every call shape."""
import itertools
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('every signature (number of parameters, how many defaulted, types) x kind of callable x every call: number of '
        'positional arguments, set of keywords (repeated and unknown ones too), keyword order; distinct_nontrivial counts '
        'distinct (callable, call shape) pairs compared')
BOUNDS = {'quick': 'up to 4 parameters; all pairs of types, rotations beyond; 7 kinds of callables',
          'thorough': 'up to 5 parameters; all triples of a smaller set of types'}

# key: (C++ type, kwargs of param(), default expression, default as recorded, [(python expression, as recorded)])
T = {
    'i': ('int', {}, '41', '41', ['7:7', '-9:-9']),
    'u': ('unsigned int', {}, '42u', '42', ['7:7', '4000000000:4000000000']),
    'd': ('double', {}, '4.5', '4.5', ['1.25:1.25', '-3:-3']),
    'f': ('float', {}, '4.25f', '4.25', ['1.25:1.25', '-3:-3']),
    'b': ('bool', {}, 'true', 'true', ['False:false', '0:false']),
    'B': ('bool', {}, 'false', 'false', ['True:true', '[1]:true']),
    'y': ('int8_t', {}, '-43', '-43', ['7:7', '-9:-9']),
    'Y': ('uint8_t', {}, '43', '43', ['7:7', '200:200']),
    'h': ('int16_t', {}, '-44', '-44', ['7:7', '-9:-9']),
    'H': ('uint16_t', {}, '44', '44', ['7:7', '60000:60000']),
    'l': ('long', {}, '45', '45', ['7:7', '-9:-9']),
    'k': ('unsigned long', {}, '46', '46', ['7:7', '2**63:9223372036854775808']),
    'q': ('int64_t', {}, '47', '47', ['7:7', '-2**62:-4611686018427387904']),
    'Q': ('uint64_t', {}, '48', '48', ['7:7', '2**63:9223372036854775808']),
    'z': ('size_t', {}, '49', '49', ['7:7', '2**40:1099511627776']),
    's': ('std::string', {}, 'std::string("def")', '"def"', ['"ab":"ab"', '"":""']),
    'S': ('const std::string &', {}, 'std::string("rdef")', '"rdef"', ['"ab":"ab"', '"":""']),
    'c': ('const char *', {}, '"cdef"', '"cdef"', ['"ab":"ab"', '"":""']),
    'r': ('char', {}, "'r'", "'r'", ["b'x':'x'", "b'y':'y'"]),
    'A': ('A', {}, 'A(77)', 'A77', ['a5:A5', 'a6:A6']),
    'a': ('const A &', {}, 'A(78)', 'A78', ['a5:A5', 'a6:A6']),
    'p': ('A *', {'transfer_ownership': False}, 'NULL', 'NULL', ['a5:A5', 'a6:A6']),
    'P': ('A *', {'transfer_ownership': False, 'null_ok': True}, 'defA()', 'A79', ['a5:A5', 'None:NULL']),
    'e': ('E', {}, 'E_TWO', 'E2', ['M.E_ZERO:E0', 'M.E_ONE:E1']),
    'V': ('IVec', {}, None, None, ['[1]:[1]', '[3,4]:[3,4]']),
    'v': ('IVec const &', {}, 'defv()', '[8,9]', ['[1]:[1]', '[3,4]:[3,4]']),
    'x': ('std::shared_ptr<Z>', {}, 'defz()', 'Z80', ['z5:Z5', 'z6:Z6']),
    'X': ('std::shared_ptr<Z>', {'null_ok': True}, 'defz()', 'Z80', ['z5:Z5', 'None:NULL']),
    'g': ('G *', {'transfer_ownership': False}, 'defG()', 'G82', ['g5:G5', 'g6:G6']),
    'w': ('G *', {'transfer_ownership': False, 'null_ok': True}, 'defG()', 'G82', ['g5:G5', 'None:NULL']),
    'm': ('C', {}, 'C(81)', 'C81', ['c5:C5', 'a6:C106']),
    '1': ('const int &', {}, '51', '51', ['7:7', '-9:-9']),
    '2': ('const unsigned int &', {}, '52', '52', ['7:7', '4000000000:4000000000']),
    '3': ('const double &', {}, '5.5', '5.5', ['1.25:1.25', '-3:-3']),
    '4': ('const float &', {}, '5.25f', '5.25', ['1.25:1.25', '-3:-3']),
    '5': ('const bool &', {}, 'true', 'true', ['False:false', '0:false']),
    '6': ('const int8_t &', {}, '-53', '-53', ['7:7', '-9:-9']),
    '7': ('const uint8_t &', {}, '53', '53', ['7:7', '200:200']),
    '8': ('const int16_t &', {}, '-54', '-54', ['7:7', '-9:-9']),
    '9': ('const uint16_t &', {}, '54', '54', ['7:7', '60000:60000']),
    '0': ('const long &', {}, '55', '55', ['7:7', '-9:-9']),
    'L': ('const uint64_t &', {}, '56', '56', ['7:7', '2**63:9223372036854775808']),
    'I': ('const int *', {'direction': 1}, 'NULL', 'NULL', ['7:*7', '-9:*-9']),
    # no default: required only
    'R': ('int &', {'direction': 1}, None, None, ['7:7', '-9:-9']),
    'o': ('PyObject *', {'transfer_ownership': False}, None, None, ['7:py7', 'None:pyNone']),
    'n': ('A &', {}, None, None, ['a5:A5', 'a6:A6']),
}
KINDS = 'func meth smeth ctor vmeth fmeth over'.split()

HEADER = r'''
#include <stdint.h>
#include <stdio.h>
#include <memory>
struct A { int v; A(int x = 0) : v(x) {} };
struct C { int v; C(int x = 0) : v(x) {} C(A const &a) : v(a.v + 100) {} };
struct Z { int v; Z(int x = 0) : v(x) {} };
struct G { int v; int rc; G(int x = 0) : v(x), rc(1) {} void ref() { rc++; } void unref() { if (--rc == 0) delete this; } };
enum E { E_ZERO, E_ONE, E_TWO };
typedef std::vector<int> IVec;
inline IVec defv() { IVec v; v.push_back(8); v.push_back(9); return v; }
inline A *defA() { static A a(79); return &a; }
inline G *defG() { static G a(82); return &a; }
inline std::shared_ptr<Z> defz() { return std::shared_ptr<Z>(new Z(80)); }
PBMC_C std::string *pbmc_rec(); PBMC_C std::string *pbmc_rec() { static std::string s; return &s; }
PBMC_C const char *pbmc_trace(); PBMC_C const char *pbmc_trace() { return pbmc_rec()->c_str(); }
PBMC_C void pbmc_clear(); PBMC_C void pbmc_clear() { pbmc_rec()->clear(); }
struct R {
    R(const char *n) { *pbmc_rec() += n; *pbmc_rec() += '('; }
    ~R() { *pbmc_rec() += ")"; }
    template <class I> R &num(I x) { char b[64]; sprintf(b, x < 0 ? "%lld" : "%llu", (long long) x); return add(b); }
    R &add(std::string const &s) { *pbmc_rec() += s + ";"; return *this; }
    R &operator,(int x) { return num(x); }
    R &operator,(const int *x) { return x ? add("*" + std::to_string(*x)) : add("NULL"); }
    R &operator,(unsigned x) { return num(x); }
    R &operator,(int8_t x) { return num(x); }
    R &operator,(uint8_t x) { return num(x); }
    R &operator,(int16_t x) { return num(x); }
    R &operator,(uint16_t x) { return num(x); }
    R &operator,(long x) { return num(x); }
    R &operator,(unsigned long x) { return num(x); }
    R &operator,(bool x) { return add(x ? "true" : "false"); }
    R &operator,(double x) { char b[64]; sprintf(b, "%g", x); return add(b); }
    R &operator,(float x) { char b[64]; sprintf(b, "%g", x); return add(b); }
    R &operator,(char x) { return add(std::string("'") + x + "'"); }
    R &operator,(std::string const &x) { return add('"' + x + '"'); }
    R &operator,(const char *x) { return add('"' + std::string(x) + '"'); }
    R &operator,(A const &x) { return add("A" + std::to_string(x.v)); }
    R &operator,(C const &x) { return add("C" + std::to_string(x.v)); }
    R &operator,(A *x) { return add(x ? "A" + std::to_string(x->v) : "NULL"); }
    R &operator,(G *x) { return add(x ? "G" + std::to_string(x->v) : "NULL"); }
    R &operator,(PyObject *x) { return add(x == Py_None ? "pyNone" : "py" + std::to_string(PyLong_AsLong(x))); }
    R &operator,(E x) { return add("E" + std::to_string(int(x))); }
    R &operator,(std::shared_ptr<Z> const &x) { return add(x ? "Z" + std::to_string(x->v) : "NULL"); }
    R &operator,(IVec const &x) {
        std::string s = "[";
        for (size_t i = 0; i < x.size(); ++i) s += (i ? "," : "") + std::to_string(x[i]);
        return add(s + "]");
    }
};
'''


def base(mod):
    from pybindgen import param, cppclass
    from pybindgen.typehandlers.smart_ptr import StdSharedPtr
    A = mod.add_class('A')
    A.add_constructor([param('int', 'x', default_value='0')])
    A.add_copy_constructor()
    C = mod.add_class('C')
    C.add_constructor([param('int', 'x', default_value='0')])
    C.add_copy_constructor()
    A.implicitly_converts_to(C)
    Z = mod.add_class('Z', memory_policy=StdSharedPtr('Z'))
    Z.add_constructor([param('int', 'x', default_value='0')])
    G = mod.add_class('G', memory_policy=cppclass.ReferenceCountingMethodsPolicy('ref', 'unref'))
    G.add_constructor([param('int', 'x', default_value='0')])
    mod.add_enum('E', ['E_ZERO', 'E_ONE', 'E_TWO'])
    mod.add_container('IVec', 'int', 'vector')


def signatures(tier):
    """-> list of (types string, number of defaulted parameters)"""
    keys = sorted(T)
    dflt = [k for k in keys if T[k][2] is not None]
    out = [('', 0)]
    out += [(k, d) for k in keys for d in (0, 1) if not d or k in dflt]
    for a, b in itertools.product(keys, repeat=2):
        for d in (0, 1, 2) if tier == 'thorough' else (2, ) if b in dflt and a in dflt else (1,) if b in dflt else (0,):
            if all(k in dflt for k in (a + b)[2 - d:]):
                out.append((a + b, d))
    rot = dflt
    for n in (3, 4) + ((5, 6) if tier == 'thorough' else ()):
        for i in range(len(rot)):
            s = ''.join(rot[(i + 5 * j) % len(rot)] for j in range(n))
            for d in range(n + 1):
                out.append((s, d))
    if tier == 'thorough':
        for t in itertools.product('idsbApev', repeat=3):
            for d in range(4):
                out.append((''.join(t), d))
    return out


def name_of(sig):
    return 'f_%s_%d' % (''.join('%02d' % sorted(T).index(k) for k in sig[0]), sig[1])


def decl(sig):
    s, d = sig
    ps = []
    for i, k in enumerate(s):
        p = '%s p%d' % (T[k][0], i)
        if i >= len(s) - d:
            p += ' = ' + T[k][2]
        ps.append(p)
    return ', '.join(ps)


def header(kind, sigs):
    h = [HEADER]
    body = lambda s: '{ R r("%s"); (r%s); }' % (name_of(s), ''.join(', p%d' % i for i in range(len(s[0]))))
    if kind == 'func':
        for s in sigs:
            h.append('inline void %s(%s) %s' % (name_of(s), decl(s), body(s)))
    elif kind == 'over':
        for s in sigs:
            h.append('struct OV_%s {}; inline void %s(OV_%s const &) { R r("ov"); }' % (name_of(s), name_of(s), name_of(s)))
            h.append('inline void %s(%s) %s' % (name_of(s), decl(s), body(s)))
    elif kind in ('meth', 'smeth', 'vmeth'):
        h.append('struct H { virtual ~H() {}')
        for s in sigs:
            h.append('%s void %s(%s) %s' % ({'meth': '', 'smeth': 'static', 'vmeth': 'virtual'}[kind], name_of(s), decl(s), body(s)))
        h.append('};')
    elif kind == 'fmeth':
        h.append('struct H {};')
        for s in sigs:
            h.append('inline void %s(H &h%s) %s' % (name_of(s), ', ' + decl(s) if s[0] else '', body(s)))
    elif kind == 'ctor':
        for s in sigs:
            h.append('struct K_%s { K_%s(%s) %s };' % (name_of(s), name_of(s), decl(s), body(s)))
    return '\n'.join(h)


def make_gen(kind, sigs):
    def gen(mod):
        from pybindgen import param
        base(mod)

        def params(sig):
            s, d = sig
            ps = []
            for i, k in enumerate(s):
                kw = dict(T[k][1])
                if i >= len(s) - d:
                    kw['default_value'] = T[k][2]
                ps.append(param(T[k][0], 'p%d' % i, **kw))
            return ps
        if kind in ('meth', 'smeth', 'vmeth', 'fmeth'):
            H = mod.add_class('H', allow_subclassing=(kind == 'vmeth'))
            H.add_constructor([])
        for s in sigs:
            n = name_of(s)
            if kind == 'func':
                mod.add_function(n, None, params(s))
            elif kind == 'over':
                O = mod.add_class('OV_' + n)
                O.add_constructor([])
                mod.add_function(n, None, params(s))
                mod.add_function(n, None, [param('OV_%s const &' % n, 'ov')])
            elif kind == 'meth':
                H.add_method(n, None, params(s))
            elif kind == 'smeth':
                H.add_method(n, None, params(s), is_static=True)
            elif kind == 'vmeth':
                H.add_method(n, None, params(s), is_virtual=True)
            elif kind == 'fmeth':
                H.add_function_as_method(n, None, [param('H &', 'self')] + params(s))
            elif kind == 'ctor':
                mod.add_class('K_' + n).add_constructor(params(s))
    return gen


def make_explore(kind, sigs):
    def explore(M, x):
        import ctypes
        lib = x.clib()
        lib.pbmc_trace.restype = ctypes.c_char_p
        lib.pbmc_clear.restype = None
        env = {'M': M, 'a5': M.A(5), 'a6': M.A(6), 'c5': M.C(5), 'z5': M.Z(5), 'z6': M.Z(6), 'g5': M.G(5), 'g6': M.G(6)}
        vals = {}
        for k, row in T.items():
            vals[k] = []
            for v in row[4]:
                e, r = v.rsplit(':', 1)
                vals[k].append((eval(e, env), r))
        objs = []
        if kind in ('meth', 'smeth', 'fmeth'):
            objs = [M.H()]
        elif kind == 'vmeth':
            class S(M.H):
                pass
            objs = [M.H(), S()]
        full = x.thorough
        for sig in sigs:
            s, d = sig
            n = len(s)
            nm = name_of(sig)
            if not x.case('%s %s' % (kind, sig)):
                continue
            if kind in ('func', 'over'):
                fns = [getattr(M, nm)]
            elif kind == 'ctor':
                K = getattr(M, 'K_' + nm)
                if n == 1:
                    # the same as the copy constructor is never called here
                    pass
                fns = [K]
            elif kind == 'smeth':
                fns = [getattr(M.H, nm), getattr(objs[0], nm)]
            else:
                fns = [getattr(o, nm) for o in objs]
            names = ['p%d' % i for i in range(n)]
            given = [(vals[k][i % 2], vals[k][(i + 1) % 2]) for i, k in enumerate(s)]
            for fi, fn in enumerate(fns):
                for npos in range(n + 2):
                    for r in range(n + 2):
                        for kws in itertools.combinations(names + ['zz'], r):
                            if n >= 3 and not full and len(set(kws) & set(names[:npos])) + ('zz' in kws) > 1:
                                continue
                            orders = [kws] if r < 2 else itertools.permutations(kws) if r < 3 or full and r < 4 else [kws, kws[::-1]]
                            for order in orders:
                                pos = [given[i][0][0] if i < n else 3 for i in range(npos)]
                                kw = {}
                                for k in order:
                                    kw[k] = 3 if k == 'zz' else given[int(k[1:])][1 if int(k[1:]) >= npos else 0][0]
                                missing = [i for i in range(n - d) if i >= npos and names[i] not in kws]
                                bad = npos > n or 'zz' in kws or set(kws) & set(names[:npos]) or missing
                                lib.pbmc_clear()
                                x.step()
                                x.state((kind, sig, fi, npos, order))
                                err = None
                                try:
                                    res = fn(*pos, **kw)
                                except Exception as e:
                                    err = e
                                got = lib.pbmc_trace().decode()
                                if bad:
                                    if not isinstance(err, TypeError):
                                        x.fail('call with %d positional, keywords %s: %r instead of TypeError' % (npos, order, err))
                                    if got:
                                        x.fail('call with %d positional, keywords %s raised %r but ran %s' % (npos, order, err, got))
                                    continue
                                want = nm + '('
                                for i in range(n):
                                    if i < npos:
                                        want += given[i][0][1] + ';'
                                    elif names[i] in kws:
                                        want += given[i][1][1] + ';'
                                    else:
                                        want += T[s[i]][3] + ';'
                                want += ')'
                                if err is not None or got != want:
                                    x.fail('call with %d positional, keywords %s: expected %s, got %r %s' % (npos, order, want, err, got))
    return explore


def scenarios(tier):
    sigs = signatures(tier)
    out = []
    for kind in KINDS:
        mine = sigs
        if kind != 'func' and tier != 'thorough':
            mine = [s for s in sigs if len(s[0]) != 2 or (sorted(T).index(s[0][0]) + sorted(T).index(s[0][1])) % 9 == 0]
        if kind == 'fmeth':
            pass
        step = 200
        for i in range(0, len(mine), step):
            part = mine[i:i + step]
            out.append(Scenario('%s_%d' % (kind, i // step), header(kind, part), make_gen(kind, part), make_explore(kind, part), shards=1))
    return out
