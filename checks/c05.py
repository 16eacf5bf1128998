"""C05: order and shape of results, forwards and from overrides."""
import itertools
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('every return type x every list of in, out and in-out parameters up to the bound x kind of callable, and every '
        'virtual signature x every shape of an override result; distinct_nontrivial counts distinct (callable, shape) pairs')
BOUNDS = {'quick': 'all single parameters and pairs; triples by rotation; void and 14 return types; 5 kinds of callables',
          'thorough': 'all triples of a smaller set of kinds of parameters, quadruples by rotation'}

HEADER = r'''
#include <stdint.h>
#include <memory>
struct A { int v; A(int x = 0) : v(x) {} };
struct Z { int v; Z(int x = 0) : v(x) {} };
enum E { E_ZERO, E_ONE, E_TWO, E_THREE, E_FOUR };
typedef std::vector<int> IVec;
inline IVec mkv(int i) { IVec v; v.push_back(100 + i); v.push_back(i); return v; }
PBMC_C std::string *pbmc_rec(); PBMC_C std::string *pbmc_rec() { static std::string s; return &s; }
PBMC_C const char *pbmc_trace(); PBMC_C const char *pbmc_trace() { return pbmc_rec()->c_str(); }
PBMC_C void pbmc_clear(); PBMC_C void pbmc_clear() { pbmc_rec()->clear(); }
inline const char *cs(int i) { static std::string s; s = "c" + std::to_string(i); return s.c_str(); }
inline void got(std::string const &s) { *pbmc_rec() += s + ";"; }
inline void tr(int x) { got(std::to_string(x)); }
inline void tr(uint8_t x) { got(std::to_string(x)); }
inline void tr(int8_t x) { got(std::to_string(x)); }
inline void tr(uint16_t x) { got(std::to_string(x)); }
inline void tr(int16_t x) { got(std::to_string(x)); }
inline void tr(unsigned x) { got(std::to_string(x)); }
inline void tr(long x) { got(std::to_string(x)); }
inline void tr(unsigned long x) { got(std::to_string(x)); }
inline void tr(bool x) { got(x ? "True" : "False"); }
inline void tr(char x) { got(std::string("b'") + x + "'"); }
inline void tr(double x) { char b[64]; snprintf(b, 64, "%.2f", x); got(b); }
inline void tr(float x) { tr(double(x)); }
inline void tr(std::string const &x) { got("'" + x + "'"); }
inline void tr(const char *x) { got(x ? "'" + std::string(x) + "'" : "NULL"); }
inline void tr(A const &x) { got("A" + std::to_string(x.v)); }
inline void tr(E x) { got(std::to_string(int(x))); }
inline void tr(IVec const &x) { std::string s = "["; for (size_t i = 0; i < x.size(); ++i) s += (i ? ", " : "") + std::to_string(x[i]); got(s + "]"); }
inline void tr(std::shared_ptr<Z> const &x) { got(x ? "Z" + std::to_string(x->v) : "NULL"); }
inline void tr(A *x) { if (x) tr(*x); else got("NULL"); }
template <class T> struct V {};
'''
# parameter kinds: key: (C++ type, direction, statement setting it, its new value, its Python input value, how C++ sees the input)
IN, OUT, IO = 1, 2, 3
P = {
    'i': ('int', IN, '', None, '7', '7'),
    's': ('std::string', IN, '', None, '"in"', "'in'"),
    'a': ('A const &', IN, '', None, 'M.A(7)', 'A7'),
    'n': ('A &', IO, '', None, 'M.A(7)', 'A7'),
    'I': ('int &', OUT, '@ = 50 + #;', '50 + #', None, None),
    'J': ('int &', IO, '@ = 50 + #;', '50 + #', '8', '8'),
    'K': ('int *', OUT, '*@ = 50 + #;', '50 + #', None, None),
    'L': ('int *', IO, '*@ = 50 + #;', '50 + #', '8', '8'),
    'D': ('double &', OUT, '@ = # + .5;', '# + .5', None, None),
    'F': ('double *', IO, '*@ = # + .5;', '# + .5', '1.5', '1.50'),
    'G': ('float &', IO, '@ = # + .25f;', '# + .25', '1.5', '1.50'),
    'B': ('bool &', OUT, '@ = true;', 'True', None, None),
    'C': ('bool *', IO, '*@ = false;', 'False', 'True', 'True'),
    'S': ('std::string &', OUT, '@ = "o#";', '"o#"', None, None),
    'T': ('std::string &', IO, '@ = "o#";', '"o#"', '"x"', "'x'"),
    'U': ('std::string *', OUT, '*@ = "o#";', '"o#"', None, None),
    'A': ('A &', OUT, '@.v = 60 + #;', 'M.A(60 + #)', None, None),
    'Y': ('uint8_t &', OUT, '@ = 70 + #;', '70 + #', None, None),
    'H': ('int16_t &', IO, '@ = 70 + #;', '70 + #', '9', '9'),
    'Q': ('unsigned int &', OUT, '@ = 3000000000u + #;', '3000000000 + #', None, None),
    'l': ('uint16_t *', IO, '*@ = 70 + #;', '70 + #', '9', '9'),
    'v': ('IVec &', OUT, '@ = mkv(#);', '[100 + #, #]', None, None),
    'w': ('IVec &', IO, '@ = mkv(#);', '[100 + #, #]', '[4]', '[4]'),
}
# return kinds: key: (C++ type, expression, value)
R = {
    'v': ('void', '', None),
    'i': ('int', '1000', '1000'),
    'y': ('int8_t', '-100', '-100'),
    'H': ('uint16_t', '60000', '60000'),
    'q': ('uint64_t', '10000000000ul', '10000000000'),
    'd': ('double', '1000.5', '1000.5'),
    'f': ('float', '1000.5f', '1000.5'),
    'b': ('bool', 'true', 'True'),
    'c': ('char', "'c'", "b'c'"),
    'C': ('const char *', '"cret"', '"cret"'),
    's': ('std::string', 'std::string("sret")', '"sret"'),
    'A': ('A', 'A(90)', 'M.A(90)'),
    'P': ('A *', 'new A(91)', 'M.A(91)'),
    'e': ('E', 'E_THREE', '3'),
    'V': ('IVec', 'mkv(5)', '[105, 5]'),
    'z': ('std::shared_ptr<Z>', 'std::shared_ptr<Z>(new Z(92))', 'M.Z(92)'),
}
RKW = {'P': {'caller_owns_return': True}}
KINDS = 'func meth smeth vmeth fmeth over'.split()


def base(mod):
    from pybindgen import param
    from pybindgen.typehandlers.smart_ptr import StdSharedPtr
    A = mod.add_class('A')
    A.add_constructor([param('int', 'x', default_value='0')])
    A.add_copy_constructor()
    A.add_instance_attribute('v', 'int')
    Z = mod.add_class('Z', memory_policy=StdSharedPtr('Z'))
    Z.add_constructor([param('int', 'x', default_value='0')])
    Z.add_instance_attribute('v', 'int')
    mod.add_enum('E', ['E_ZERO', 'E_ONE', 'E_TWO', 'E_THREE', 'E_FOUR'])
    mod.add_container('IVec', 'int', 'vector')


def signatures(tier, rev=False):
    ks = [k for k in sorted(P) if not (rev and k in REV_NO)]
    rs = [k for k in sorted(R) if not (rev and k in REVR_NO)]
    out = [(r, '') for r in rs]
    out += [(r, k) for r in rs for k in ks]
    for i, t in enumerate(itertools.product(ks, repeat=2)):
        out.append(('v', ''.join(t)))
        out.append((rs[i % len(rs)], ''.join(t)))
    for n in (3, 4, 5) if tier == 'thorough' else (3, 4):
        for i in range(len(ks)):
            for j in (1, 4, 9):
                s = ''.join(ks[(i + j * m) % len(ks)] for m in range(n))
                out.append((rs[(i + j) % len(rs)], s))
                out.append(('v', s))
    if tier == 'thorough':
        for t in itertools.product('iJKTASw', repeat=3):
            if rev and set(t) & set(REV_NO):
                continue
            for r in 'viCA':
                out.append((r, ''.join(t)))
    return sorted(set(out))


REV_NO = ''      # parameter kinds that virtual methods overridden in Python do not support
REVR_NO = ''


def nm(sig):
    ks = sorted(P)
    return 'f%02d_%s' % (sorted(R).index(sig[0]), ''.join('%02d' % ks.index(k) for k in sig[1]))


def decl(sig):
    return ', '.join('%s p%d' % (P[k][0], i) for i, k in enumerate(sig[1]))


def body(sig):
    b = ''
    for i, k in enumerate(sig[1]):
        if P[k][1] & IN:
            b += 'tr(%sp%d); ' % ('*' if P[k][0].endswith('*') else '', i)
    for i, k in enumerate(sig[1]):
        b += P[k][2].replace('@', 'p%d' % i).replace('#', str(i + 1)) + ' '
    if sig[0] != 'v':
        b += 'return %s; ' % R[sig[0]][1]
    return '{ %s}' % b


def header(kind, sigs):
    h = [HEADER]
    if kind in ('func', 'over'):
        for s in sigs:
            if kind == 'over':
                h.append('struct OV_%s {}; inline int %s(OV_%s const &) { return -1; }' % (nm(s), nm(s), nm(s)))
            h.append('inline %s %s(%s) %s' % (R[s[0]][0], nm(s), decl(s), body(s)))
    elif kind == 'fmeth':
        h.append('struct H {};')
        for s in sigs:
            h.append('inline %s %s(H &h%s) %s' % (R[s[0]][0], nm(s), ', ' + decl(s) if s[1] else '', body(s)))
    else:
        h.append('struct H { virtual ~H() {}')
        pre = {'meth': '', 'smeth': 'static ', 'vmeth': 'virtual ', 'rev': 'virtual '}[kind]
        for s in sigs:
            h.append('%s%s %s(%s) %s' % (pre, R[s[0]][0], nm(s), decl(s), body(s)))
        h.append('};')
    if kind == 'rev':
        for s in sigs:
            b = ''
            args = []
            after = ''
            for i, k in enumerate(s[1]):
                t = P[k][0].replace('const', '').rstrip('&* ').strip()
                init = {'std::string': '("in%d")' % i, 'A': '(%d)' % (i + 7), 'IVec': '(mkv(%d))' % i, 'bool': '(true)'}.get(t, '(%d)' % (i + 20))
                b += '%s p%d%s; ' % (t, i, init)
                args.append(('&' if P[k][0].endswith('*') else '') + 'p%d' % i)
                if P[k][1] & OUT:
                    after += 'tr(p%d); ' % i
            if s[0] == 'v':
                b += 'h.%s(%s); ' % (nm(s), ', '.join(args))
            elif s[0] == 'C':
                b += 'std::string r = h.%s(%s); tr(r); ' % (nm(s), ', '.join(args))
            elif s[0] == 'P':
                b += 'A *r = h.%s(%s); tr(r); delete r; ' % (nm(s), ', '.join(args))
            else:
                b += '%s r = h.%s(%s); tr(r); ' % (R[s[0]][0], nm(s), ', '.join(args))
            h.append('inline void call_%s(H &h) { %s%s}' % (nm(s), b, after))
    return '\n'.join(h)


def make_gen(kind, sigs):
    def gen(mod):
        from pybindgen import param, retval
        base(mod)

        def params(s):
            out = []
            for i, k in enumerate(s[1]):
                ct, d = P[k][:2]
                kw = {'direction': d} if d != IN or '&' in ct or '*' in ct else {}
                out.append(param(ct, 'p%d' % i, **kw))
            return out

        def ret(s):
            return None if s[0] == 'v' else retval(R[s[0]][0], **RKW.get(s[0], {}))
        if kind in ('meth', 'smeth', 'vmeth', 'fmeth', 'rev'):
            H = mod.add_class('H', allow_subclassing=kind in ('vmeth', 'rev'))
            H.add_constructor([])
        for s in sigs:
            n = nm(s)
            if kind == 'func':
                mod.add_function(n, ret(s), params(s))
            elif kind == 'over':
                mod.add_class('OV_' + n).add_constructor([])
                mod.add_function(n, retval('int'), [param('OV_%s const &' % n, 'ov')])
                mod.add_function(n, ret(s), params(s))
            elif kind == 'fmeth':
                H.add_function_as_method(n, ret(s), [param('H &', 'self')] + params(s))
            else:
                H.add_method(n, ret(s), params(s), is_static=kind == 'smeth', is_virtual=kind in ('vmeth', 'rev'))
            if kind == 'rev':
                mod.add_function('call_' + n, None, [param('H &', 'h')])
    return gen


def plain(v):
    """wrapped objects as plain values"""
    if type(v).__name__ == 'A':
        return ('A', v.v)
    if type(v).__name__ == 'Z':
        return ('Z', v.v)
    if type(v).__name__ == 'IVec':
        return list(v)
    if isinstance(v, tuple):
        return tuple(plain(e) for e in v)
    return v


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    return a == b


def make_explore(kind, sigs):
    def explore(M, x):
        import ctypes
        lib = x.clib()
        lib.pbmc_trace.restype = ctypes.c_char_p
        lib.pbmc_clear.restype = None
        env = {'M': M}
        if kind in ('meth', 'smeth', 'fmeth'):
            objs = [M.H()]
        elif kind == 'vmeth':
            class S(M.H):
                pass

            class U(S):
                def __getattribute__(self, n):
                    if n[0] != 'f':
                        return object.__getattribute__(self, n)
                    return lambda *a: getattr(M.H, n)(self, *a)
            objs = [M.H(), S(), U()]
        for s in sigs:
            if not x.case('%s %s %s' % (kind, R[s[0]][0], [(P[k][0], P[k][1]) for k in s[1]])):
                continue
            n = nm(s)
            if kind in ('func', 'over'):
                fns = [getattr(M, n)]
            elif kind == 'smeth':
                fns = [getattr(M.H, n), getattr(objs[0], n)]
            else:
                fns = [getattr(o, n) for o in objs]
            want = [eval(R[s[0]][2], env)] if s[0] != 'v' else []
            args = []
            trace = ''
            for i, k in enumerate(s[1]):
                if P[k][1] & IN:
                    args.append(eval(P[k][4], env))
                    trace += P[k][5] + ';'
                if P[k][3] is not None:
                    want.append(eval(P[k][3].replace('#', str(i + 1)), env))
            w = plain(None if not want else want[0] if len(want) == 1 else tuple(want))
            for fi, fn in enumerate(fns):
                lib.pbmc_clear()
                x.step()
                x.state((kind, s, fi))
                try:
                    r = fn(*args)
                except Exception as e:
                    x.fail('raised %r' % e)
                    continue
                t = lib.pbmc_trace().decode()
                x.check(t == trace, 'C++ saw %s, not %s' % (t, trace))
                x.check(same(plain(r), w), 'returned %r, expected %r' % (plain(r), w))
    return explore


def rev_explore(sigs):
    def explore(M, x):
        import ctypes
        import sys
        lib = x.clib()
        lib.pbmc_trace.restype = ctypes.c_char_p
        lib.pbmc_clear.restype = None
        env = {'M': M}
        hooked = []
        sys.excepthook = lambda t, e, tb: hooked.append(e)
        for s in sigs:
            if not x.case('rev %s %s' % (R[s[0]][0], [(P[k][0], P[k][1]) for k in s[1]])):
                continue
            n = nm(s)
            outs = [eval(R[s[0]][2], env)] if s[0] != 'v' else []
            ins = []
            inplace = []
            for i, k in enumerate(s[1]):
                ct, d = P[k][:2]
                t = ct.replace('const', '').rstrip('&* ').strip()
                init = {'std::string': 'in%d' % i, 'A': ('A', i + 7), 'IVec': [100 + i, i], 'bool': True,
                        'double': float(i + 20), 'float': float(i + 20)}.get(t, i + 20)
                if t == 'A' and d & OUT:
                    # objects are passed for the override to change them in place
                    ins.append(init)
                    inplace.append((len(ins) - 1, 200 + i))
                    continue
                if d & IN:
                    ins.append(init)
                if d & OUT:
                    outs.append(eval(P[k][3].replace('#', str(i + 1)), env))
            tr = ''
            no = 0
            if s[0] != 'v':
                tr += show(plain(outs[0])) + ';'
                no = 1
            for i, k in enumerate(s[1]):
                if P[k][1] & OUT:
                    if P[k][0].startswith('A'):
                        tr += 'A%d;' % (200 + i)
                    else:
                        tr += show(plain(outs[no])) + ';'
                        no += 1
            good = None if not outs else outs[0] if len(outs) == 1 else tuple(outs)
            results = [('right', good)]
            results.append(('surplus', tuple(outs) + (1, 2) if outs else 1))
            if len(outs) > 1:
                results += [('short', tuple(outs[:-1])), ('bare', outs[0]), ('list', list(outs)), ('nested', (tuple(outs),)), ('None', None),
                            ('empty', ())]
            elif outs:
                results += [('tuple', (outs[0],)), ('None', None), ('empty', ())]
            if s[0] == 'b' or [k for k in s[1] if P[k][0].startswith('bool')]:
                results = [r for r in results if r[0] in ('right', 'short', 'bare')] if len(outs) > 1 else results[:1]
            for label, res in results:
                got = []

                class S(M.H):
                    pass

                def m(self, *a):
                    got.append(tuple(plain(e) for e in a))
                    for j, v in inplace:
                        a[j].v = v
                    return res
                setattr(S, n, m)
                o = S()
                del hooked[:]
                lib.pbmc_clear()
                x.step()
                x.state(('rev', s, label))
                try:
                    getattr(M, 'call_' + n)(o)
                except Exception as e:
                    x.fail('%s: call raised %r' % (label, e))
                    continue
                t = lib.pbmc_trace().decode()
                x.check(len(got) == 1 and same(got[0], tuple(ins)), '%s: override got %r, expected %r' % (label, got, ins))
                if label == 'right':
                    x.check(t == tr and not hooked, 'override returned %r: C++ saw %s, expected %s, errors %r' % (plain(res), t, tr, hooked))
                else:
                    x.check(len(hooked) == 1, '%s: override returned %r: reported %r, C++ saw %s' % (label, res, hooked, t))
    return explore


def show(v):
    if isinstance(v, tuple):
        return '%s%d' % v
    if isinstance(v, float):
        return '%.2f' % v
    return repr(v)


def scenarios(tier):
    out = []
    sigs = signatures(tier)
    for kind in KINDS:
        mine = sigs
        if kind != 'func' and tier != 'thorough':
            mine = [s for i, s in enumerate(sigs) if len(s[1]) < 2 or len(s[1]) > 2 or i % 6 == 0]
        if kind == 'over':
            mine = [s for s in mine if len(s[1]) < 3]
        for i in range(0, len(mine), 200):
            part = mine[i:i + 200]
            out.append(Scenario('%s_%d' % (kind, i // 200), header(kind, part), make_gen(kind, part), make_explore(kind, part)))
    sigs = signatures(tier, True)
    for i in range(0, len(sigs), 150):
        part = sigs[i:i + 150]
        out.append(Scenario('rev_%d' % (i // 150), header('rev', part), make_gen('rev', part), rev_explore(part)))
    out.append(Scenario('nulls', NULLS_HEADER, nulls_gen, nulls_explore))
    return out


NULLS_HEADER = r'''
#include <memory>
struct K { Track t; int v; K(int v_ = 0) : v(v_) {} K(K const &o) : t(o.t), v(o.v) {} int get() const { t.use(); return v; } };
struct P { Track t; int v; P(int v_ = 0) : v(v_) {} int get() const { t.use(); return v; } };
inline K *own(int n, int *out) { *out = n + 1; return n < 0 ? NULL : new K(n); }
inline K *ref(int n, int *out) { static K k; k.v = n; *out = n + 1; return n < 0 ? NULL : &k; }
inline K *freed(int n, int *out) { *out = n + 1; return n < 0 ? NULL : new K(n); }
inline std::shared_ptr<P> share(int n, int *out) { *out = n + 1; return n < 0 ? std::shared_ptr<P>() : std::shared_ptr<P>(new P(n)); }
inline K *text(int n, const char *, int *out, int *out2) { *out = n + 1; *out2 = n + 2; return n < 0 ? NULL : new K(n); }
'''


def nulls_gen(mod):
    from pybindgen import param, retval
    from pybindgen.typehandlers.smart_ptr import StdSharedPtr
    K = mod.add_class('K')
    K.add_constructor([])
    K.add_copy_constructor()
    K.add_method('get', 'int', [], is_const=True)
    P = mod.add_class('P', memory_policy=StdSharedPtr('P'))
    P.add_constructor([])
    P.add_method('get', 'int', [], is_const=True)
    ps = [param('int', 'n'), param('int *', 'out', direction=2)]
    mod.add_function('own', retval('K *', caller_owns_return=True), list(ps))
    mod.add_function('ref', retval('K *', reference_existing_object=True), list(ps))
    mod.add_function('freed', retval('K *', free_after_copy=True), list(ps))
    mod.add_function('share', retval('std::shared_ptr< P >'), list(ps))
    mod.add_function('text', retval('K *', caller_owns_return=True),
                     [param('int', 'n'), param('const char *', 's'), param('int *', 'out', direction=2), param('int *', 'out2', direction=2)])


def nulls_explore(M, x):
    """A NULL result takes its place as None, the outputs after it are still there."""
    lib = x.clib()
    import itertools
    for f in ('own', 'ref', 'freed', 'share', 'text'):
        for seq in itertools.product((-1, 0, 5), repeat=3 if x.thorough else 2):
            def one():
                base = None
                for n in seq:
                    r = getattr(M, f)(n, *(('x',) if f == 'text' else ()))
                    x.step()
                    x.check(isinstance(r, tuple) and len(r) == (3 if f == 'text' else 2), 'returned %r' % (r,))
                    if n < 0:
                        x.check(r[0] is None, 'NULL came as %r' % (r[0],))
                    else:
                        x.eq(r[0].get(), n)
                    x.eq(r[1:], (n + 1, n + 2)[:len(r) - 1])
                    r = None
                    if base is None and (f != 'ref'):
                        base = 0
                x.eq(lib.pbmc_bad(), 0)
                if f != 'ref':
                    x.eq(lib.pbmc_live() - (1 if x.refcreated else 0), 0, 'objects left')
                else:
                    x.refcreated = True
            x.refcreated = getattr(x, 'refcreated', False)
            x.state((f, seq))
            x.run('%s%r' % (f, seq), one)
