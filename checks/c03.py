"""C03: strings and bytes, every handler x direction x every string up to a length."""
import itertools
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('every string up to the length bound over the alphabet (ASCII, DEL, NUL, 2-, 3- and 4-byte characters) plus long '
        'ones, through every string handler, direction and attribute kind; distinct_nontrivial counts distinct '
        '(entry point, string) pairs compared')
BOUNDS = {'quick': 'strings of up to 3 characters over 6 letters, lengths around 2^8, 2^12 and 2^16',
          'thorough': 'strings of up to 5 characters over 6 letters'}

HEADER = r'''
struct Buf { std::string s; bool set; };
PBMC_C Buf *pbmc_in(); PBMC_C Buf *pbmc_in() { static Buf b; return &b; }      // what C++ received
PBMC_C Buf *pbmc_cur(); PBMC_C Buf *pbmc_cur() { static Buf b; return &b; }    // what C++ hands out
PBMC_C void pbmc_setcur(const char *p, long n); PBMC_C void pbmc_setcur(const char *p, long n) { pbmc_cur()->s.assign(p, n); }
PBMC_C const char *pbmc_inptr(); PBMC_C const char *pbmc_inptr() { return pbmc_in()->s.data(); }
PBMC_C long pbmc_inlen(); PBMC_C long pbmc_inlen() { return pbmc_in()->s.size(); }
#define GOT(x) do { pbmc_get()->calls++; pbmc_in()->s = (x); } while (0)
#define CUR (pbmc_cur()->s)
namespace Glib {
class ustring {
    std::string m;
public:
    ustring() {}
    ustring(const char *p) : m(p) {}
    ustring(std::string const &s) : m(s) {}
    const char *c_str() const { return m.c_str(); }
    size_t bytes() const { return m.size(); }
    std::string const &raw() const { return m; }
};
}
inline int cs_in(const char *s) { GOT(s); return 1; }
inline int cs_in2(char *s) { GOT(s); return 1; }
inline int cs_def(const char *s = "d\xc3\xa9" "f") { GOT(s); return 1; }
inline const char *cs_ret() { return CUR.c_str(); }
inline char *cs_free() { return strdup(CUR.c_str()); }
inline char ch_echo(char c) { GOT(std::string(1, c)); return c; }
inline char ch_def(char c = 'q') { GOT(std::string(1, c)); return c; }
inline int st_in(std::string s) { GOT(s); return 1; }
inline int st_cref(const std::string &s) { GOT(s); return 1; }
inline int st_ref(std::string &s) { GOT(s); return 1; }
inline int st_ptr(std::string *s) { GOT(*s); return 1; }
inline int st_cptr(const std::string *s) { GOT(*s); return 1; }
inline int st_own(std::string *s) { GOT(*s); delete s; return 1; }
inline int st_def(std::string s = std::string("x\0y", 3)) { GOT(s); return 1; }
inline int st_rdef(const std::string &s = "rdef") { GOT(s); return 1; }
inline std::string st_ret() { return CUR; }
inline const std::string st_kret() { return CUR; }
inline std::string const &st_rret() { return CUR; }
inline void st_out(std::string &s) { s = CUR; }
inline void st_outp(std::string *s) { *s = CUR; }
inline void st_io(std::string &s) { GOT(s); s = std::string(s.rbegin(), s.rend()); s = CUR + "|" + CUR; }
inline void st_iop(std::string *s) { GOT(*s); *s = CUR + "|" + CUR; }
inline int gl_in(Glib::ustring s) { GOT(s.raw()); return 1; }
inline int gl_def(Glib::ustring s = Glib::ustring("gdef")) { GOT(s.raw()); return 1; }
inline int gl_ref(Glib::ustring &s) { GOT(s.raw()); return 1; }
inline int gl_ptr(Glib::ustring *s) { GOT(s->raw()); return 1; }
inline Glib::ustring gl_ret() { return Glib::ustring(CUR); }
inline void gl_out(Glib::ustring &s) { s = Glib::ustring(CUR); }
inline void gl_outp(Glib::ustring *s) { *s = Glib::ustring(CUR); }
inline void gl_io(Glib::ustring &s) { GOT(s.raw()); s = Glib::ustring(CUR + "|" + CUR); }
class A {
public:
    std::string s; const char *c; char ch; std::string m_g;
    static std::string st;
    A() : c("init"), ch('i') {}
    A(std::string const &x) : s(x), c("init"), ch('i') { GOT(x); }
    std::string const &GetG() const { return m_g; }
    void SetG(std::string const &x) { GOT(x); m_g = x; }
    std::string meth(std::string const &x) { GOT(x); return x + x; }
    static std::string smeth(const char *x) { GOT(x); return x; }
};
__attribute__((weak)) std::string A::st;
inline void a_load(A &a) { a.s = CUR; a.m_g = CUR; A::st = CUR; a.c = CUR.c_str(); }
inline int a_store_s(A &a) { GOT(a.s); return 1; }
inline int a_store_st() { GOT(A::st); return 1; }
class V {
public:
    virtual ~V() {}
    virtual void va(std::string x) { GOT("parent"); }
    virtual void vb(const std::string &x) { GOT("parent"); }
    virtual void vc(const char *x) { GOT("parent"); }
    virtual void vd(char x) { GOT("parent"); }
    virtual void ve(std::string *x) { GOT("parent"); }
    virtual std::string ra() { return "parent"; }
    virtual const char *rb() { return "parent"; }
    virtual char rc() { return 'P'; }
    virtual void oa(std::string &x) {}
    virtual void ob(std::string *x) {}
    virtual void ia(std::string &x) {}
    virtual int rs(std::string &x) { return -1; }
};
inline void call_va(V &v) { v.va(CUR); }
inline void call_vb(V &v) { v.vb(CUR); }
inline void call_vc(V &v) { v.vc(CUR.c_str()); }
inline void call_vd(V &v) { v.vd(CUR[0]); }
inline void call_ve(V &v) { std::string s(CUR); v.ve(&s); }
inline void call_ra(V &v) { GOT(v.ra()); }
inline void call_rb(V &v) { const char *p = v.rb(); GOT(p ? p : "NULL"); }
inline void call_rc(V &v) { GOT(std::string(1, v.rc())); }
inline void call_oa(V &v) { std::string s("init"); v.oa(s); GOT(s); }
inline void call_ob(V &v) { std::string s("init"); v.ob(&s); GOT(s); }
inline void call_ia(V &v) { std::string s(CUR); v.ia(s); GOT(s); }
inline void call_rs(V &v) { std::string s("init"); int r = v.rs(s); GOT(s + (r == 7 ? "7" : "?")); }
'''


def gen(mod):
    from pybindgen import param, retval, Parameter
    IN, OUT, IO = Parameter.DIRECTION_IN, Parameter.DIRECTION_OUT, Parameter.DIRECTION_INOUT
    f = mod.add_function
    f('cs_in', retval('int'), [param('const char *', 's')])
    f('cs_in2', retval('int'), [param('char *', 's')])
    f('cs_def', retval('int'), [param('const char *', 's', default_value='"d\\xc3\\xa9" "f"')])
    f('cs_ret', retval('const char *'), [])
    f('cs_free', retval('char *', free_after_copy=True), [])
    f('ch_echo', retval('char'), [param('char', 'c')])
    f('ch_def', retval('char'), [param('char', 'c', default_value="'q'")])
    f('st_in', retval('int'), [param('std::string', 's')])
    f('st_cref', retval('int'), [param('const std::string &', 's')])
    f('st_ref', retval('int'), [param('std::string &', 's', direction=IN)])
    f('st_ptr', retval('int'), [param('std::string *', 's', direction=IN)])
    f('st_cptr', retval('int'), [param('const std::string *', 's', direction=IN)])
    f('st_own', retval('int'), [param('std::string *', 's', direction=IN, transfer_ownership=True)])
    f('st_def', retval('int'), [param('std::string', 's', default_value='std::string("x\\0y", 3)')])
    f('st_rdef', retval('int'), [param('const std::string &', 's', default_value='"rdef"')])
    f('st_ret', retval('std::string'), [])
    f('st_kret', retval('const std::string'), [])
    f('st_rret', retval('std::string const &'), [])
    f('st_out', None, [param('std::string &', 's', direction=OUT)])
    f('st_outp', None, [param('std::string *', 's', direction=OUT)])
    f('st_io', None, [param('std::string &', 's', direction=IO)])
    f('st_iop', None, [param('std::string *', 's', direction=IO)])
    f('gl_in', retval('int'), [param('Glib::ustring', 's')])
    f('gl_def', retval('int'), [param('Glib::ustring', 's', default_value='Glib::ustring("gdef")')])
    f('gl_ref', retval('int'), [param('Glib::ustring &', 's', direction=IN)])
    f('gl_ptr', retval('int'), [param('Glib::ustring *', 's', direction=IN)])
    f('gl_ret', retval('Glib::ustring'), [])
    f('gl_out', None, [param('Glib::ustring &', 's', direction=OUT)])
    f('gl_outp', None, [param('Glib::ustring *', 's', direction=OUT)])
    f('gl_io', None, [param('Glib::ustring &', 's', direction=IO)])
    A = mod.add_class('A')
    A.add_constructor([])
    A.add_constructor([param('std::string const &', 'x')])
    A.add_instance_attribute('s', 'std::string')
    A.add_instance_attribute('c', 'const char *')
    A.add_instance_attribute('ch', 'char')
    A.add_instance_attribute('g', 'std::string', getter='GetG', setter='SetG')
    A.add_static_attribute('st', 'std::string')
    A.add_method('meth', retval('std::string'), [param('std::string const &', 'x')])
    A.add_method('smeth', retval('std::string'), [param('const char *', 'x')], is_static=True)
    f('a_load', None, [param('A &', 'a')])
    f('a_store_s', retval('int'), [param('A &', 'a')])
    f('a_store_st', retval('int'), [])
    V = mod.add_class('V', allow_subclassing=True)
    V.add_constructor([])
    for n, ct in (('va', 'std::string'), ('vb', 'const std::string &'), ('vc', 'const char *'), ('vd', 'char')):
        V.add_method(n, None, [param(ct, 'x')], is_virtual=True)
    V.add_method('ve', None, [param('std::string *', 'x', direction=IN)], is_virtual=True)
    V.add_method('ra', retval('std::string'), [], is_virtual=True)
    V.add_method('rb', retval('const char *'), [], is_virtual=True)
    V.add_method('rc', retval('char'), [], is_virtual=True)
    V.add_method('oa', None, [param('std::string &', 'x', direction=OUT)], is_virtual=True)
    V.add_method('ob', None, [param('std::string *', 'x', direction=OUT)], is_virtual=True)
    V.add_method('ia', None, [param('std::string &', 'x', direction=IO)], is_virtual=True)
    V.add_method('rs', retval('int'), [param('std::string &', 'x', direction=OUT)], is_virtual=True)
    for n in 'va vb vc vd ve ra rb rc oa ob ia rs'.split():
        f('call_' + n, None, [param('V &', 'v')])


def explore(M, x):
    import ctypes
    import sys
    lib = x.clib()
    lib.pbmc_inptr.restype = ctypes.c_void_p
    lib.pbmc_inlen.restype = ctypes.c_long
    lib.pbmc_calls.restype = ctypes.c_long
    lib.pbmc_setcur.argtypes = [ctypes.c_char_p, ctypes.c_long]
    lib.pbmc_setcur.restype = None

    def received():
        return ctypes.string_at(lib.pbmc_inptr(), lib.pbmc_inlen())

    def setcur(b):
        lib.pbmc_setcur(b, len(b))

    alpha = ['a', '\x7f', '\0', '\xe9', '\u20ac', '\U0001f600']
    strs = []
    for n in range(0, 6 if x.thorough else 4):
        strs += [''.join(t) for t in itertools.product(alpha, repeat=n)]
    for n in (254, 255, 256, 257, 4095, 4096, 65535, 65536, 65537):
        strs += ['x' * n, '\u20ac' * n, 'x' * (n - 1) + '\0', '\0' * n]
    bad_common = [None, 1, 1.5, [], {}, object(), ['a'], ('a',), str, '\ud800', 'a\udcff']

    hooked = []
    sys.excepthook = lambda t, e, tb: hooked.append(e)
    A = M.A

    # entry points taking a string: (name, call, NUL allowed, bytes allowed)
    def setter(obj, name):
        def f(v):
            setattr(obj, name, v)
        return f

    takes = []
    for n in 'st_in st_cref st_ref st_ptr st_cptr st_own st_def st_rdef'.split():
        takes.append((n, getattr(M, n), True, True, 1))
    for n in 'cs_in cs_in2 cs_def'.split():
        takes.append((n, getattr(M, n), False, False, 1))
    for n in 'gl_in gl_def gl_ref gl_ptr'.split():
        takes.append((n, getattr(M, n), False, True, 1))
    a = A()
    takes.append(('A()', lambda v: type(A(v)) is A, True, True, True))
    takes.append(('a.g=', setter(a, 'g'), True, True, None))
    takes.append(('A.smeth', A.smeth, False, False, 'same'))
    takes.append(('a.meth', a.meth, True, True, 'twice'))

    def set_s(v):
        a.s = v
        M.a_store_s(a)

    def set_st(v):
        A.st = v
        M.a_store_st()
    takes.append(('a.s=', set_s, True, True, None))
    takes.append(('A.st=', set_st, True, True, None))

    for name, fn, nul, byts, want in takes:
        if not x.case('takes ' + name):
            continue
        for s in strs:
            b = s.encode('utf8')
            w = s if want == 'same' else s + s if want == 'twice' else want
            for v in (s, b) if byts else (s,):
                if v is b and want in ('same', 'twice'):
                    pass
                c = lib.pbmc_calls()
                x.step()
                x.state((name, s))
                try:
                    r = fn(v)
                except Exception as e:
                    if '\0' in s and not nul:
                        x.check(isinstance(e, (ValueError, TypeError)), '%r raised %r' % (v[:20], e))
                        x.check(lib.pbmc_calls() == c, 'ran in spite of %r' % e)
                    else:
                        x.fail('%s(%r) raised %r' % (name, v[:40], e))
                    continue
                if '\0' in s and not nul:
                    x.fail('%s accepted %r, which has a NUL inside' % (name, v[:40]))
                    continue
                got = received()
                x.check(got == b, '%s(%r): C++ received %r' % (name, v[:40], got[:60]))
                x.check(type(r) is type(w) and r == w, '%s(%r) returned %r, expected %r' % (name, v[:40], r, w))
        for v in bad_common + ([] if byts else [b'a']):
            c = lib.pbmc_calls()
            before = received()
            x.step()
            x.state((name, repr(v)))
            try:
                r = fn(v)
            except (TypeError, ValueError):
                x.check(lib.pbmc_calls() == c, '%s(%r) ran' % (name, v))
            else:
                x.fail('%s accepted %r and returned %r' % (name, v, r))
    for name, fn, dflt in (('cs_def', M.cs_def, b'd\xc3\xa9f'), ('st_def', M.st_def, b'x\0y'), ('st_rdef', M.st_rdef, b'rdef'),
                           ('gl_def', M.gl_def, b'gdef')):
        if x.case('default ' + name):
            fn()
            x.check(received() == dflt, 'default of %s: C++ received %r' % (name, received()))

    # entry points giving a string
    gives = [(n, getattr(M, n), True) for n in 'st_ret st_kret st_rret st_out st_outp gl_ret gl_out gl_outp'.split()]
    gives += [('cs_ret', M.cs_ret, False), ('cs_free', M.cs_free, False)]
    gives.append(('a.s', lambda: (M.a_load(a), a.s)[1], True))
    gives.append(('a.g', lambda: (M.a_load(a), a.g)[1], True))
    gives.append(('A.st', lambda: (M.a_load(a), A.st)[1], True))
    gives.append(('a.c', lambda: (M.a_load(a), a.c)[1], False))
    for name, fn, nul in gives:
        if not x.case('gives ' + name):
            continue
        for s in strs:
            setcur(s.encode('utf8'))
            w = s if nul else s.split('\0')[0]
            x.step()
            x.state((name, s))
            try:
                r = fn()
            except Exception as e:
                x.fail('%s for %r raised %r' % (name, s[:40], e))
                continue
            x.check(type(r) is str and r == w, '%s for %r gave %r' % (name, s[:40], r if not isinstance(r, str) else r[:60]))
        for b in (b'\xff', b'a\x80', b'\xc3'):
            setcur(b)
            try:
                r = fn()
            except UnicodeDecodeError:
                pass
            else:
                x.fail('%s for undecodable %r gave %r' % (name, b, r))

    for name, fn, nul in (('st_io', M.st_io, True), ('st_iop', M.st_iop, True), ('gl_io', M.gl_io, False)):
        if not x.case('inout ' + name):
            continue
        for s in strs:
            for o in ('', 'z\0\xe9'):
                if not nul and '\0' in s:
                    continue
                setcur(o.encode('utf8'))
                x.step()
                x.state((name, s, o))
                r = fn(s)
                x.check(received() == s.encode('utf8'), '%s(%r): C++ received %r' % (name, s[:40], received()[:60]))
                x.check(type(r) is str and r == o + '|' + o, '%s(%r) returned %r' % (name, s[:40], r))

    if x.case('char'):
        for i in range(256):
            b = bytes([i])
            x.step()
            x.state(('char', i))
            r = M.ch_echo(b)
            x.check(received() == b and r == b and type(r) is bytes, 'ch_echo(%r): C++ received %r, returned %r' % (b, received(), r))
        x.check(M.ch_def() == b'q' and received() == b'q', 'char default')
        for v in (None, b'', b'ab', 1, [], 'ab', '', '\u20ac'):
            c = lib.pbmc_calls()
            try:
                r = M.ch_echo(v)
            except (TypeError, ValueError):
                x.check(lib.pbmc_calls() == c, 'ran')
            else:
                x.fail('ch_echo(%r) returned %r' % (v, r))
        for i in range(256):
            a.ch = bytes([i])
            x.check(a.ch == bytes([i]), 'attribute char %d reads %r' % (i, a.ch))

    # overrides
    got = []
    ret = [None]

    class S(M.V):
        def m(self, *args):
            got.append(args)
            return ret[0]
        va = vb = vc = vd = ve = ra = rb = rc = oa = ob = ia = rs = m
    v = S()
    plain = M.V()
    for name, nul in (('va', True), ('vb', True), ('vc', False), ('ve', True)):
        if not x.case('override argument ' + name):
            continue
        for s in strs:
            del got[:], hooked[:]
            ret[0] = None
            setcur(s.encode('utf8'))
            x.step()
            x.state((name, s))
            getattr(M, 'call_' + name)(v)
            w = s if nul else s.split('\0')[0]
            x.check(got == [(w,)] and not hooked, '%s passed %r, override got %r %r' % (name, s[:40], got, hooked))
    if x.case('override argument vd'):
        for i in range(256):
            del got[:], hooked[:]
            ret[0] = None
            setcur(bytes([i]))
            M.call_vd(v)
            x.step()
            x.state(('vd', i))
            x.check(got == [(bytes([i]),)] and not hooked, 'passed %d, override got %r %r' % (i, got, hooked))
    for name, nul, fallback in (('ra', True, b'parent'), ('oa', True, b'init'), ('ob', True, b'init'), ('ia', True, None),
                                ('rs', True, b'init?'), ('rb', False, b'parent')):
        if not x.case('override result ' + name):
            continue
        pre = b'pre\0x'
        for s in strs:
            del got[:], hooked[:]
            setcur(pre)
            # a fresh object nobody else holds, and one that lives on
            keep = s + ''
            ret[0] = (7, keep) if name == 'rs' else keep
            x.step()
            x.state((name, s))
            getattr(M, 'call_' + name)(v)
            w = s.encode('utf8') + (b'7' if name == 'rs' else b'')
            if '\0' in s and not nul:
                x.check(len(hooked) == 1 and received() == fallback, 'override returned %r: %r, C++ received %r' % (s[:40], hooked, received()[:60]))
                continue
            x.check(not hooked and received() == w, '%s: override returned %r, C++ received %r, errors %r' % (name, s[:40], received()[:60], hooked))
            if name == 'ia':
                x.check(got == [(pre.decode(),)], 'override got %r' % (got,))
        for b in [None, 1, 1.5, [], '\ud800', (1, 2)]:
            del got[:], hooked[:]
            setcur(pre)
            ret[0] = (7, b) if name == 'rs' else b
            getattr(M, 'call_' + name)(v)
            f = pre if fallback is None else fallback
            if name == 'rs':
                ok = received() in (b'init?', b'init7')
            else:
                ok = received() == f
            x.check(len(hooked) == 1 and ok, '%s: override returned %r: reported %r, C++ received %r' % (name, b, hooked, received()))
    if x.case('override result rb fresh'):
        for s in strs:
            if '\0' in s or len(s) > 300:
                continue
            del hooked[:]
            ret[0] = None

            class T(M.V):
                def rb(self):
                    return ''.join(['\u20ac', s, 'tail'])
            t = T()
            M.call_rb(t)
            junk = [''.join(['\u2020', 'zzzz' * 3, str(i)]) for i in range(3)]
            x.step()
            x.state(('rb fresh', s))
            x.check(received() == ('\u20ac' + s + 'tail').encode('utf8') and not hooked,
                    'override returned %r, C++ received %r %r' % (s[:40], received()[:60], hooked))
    if x.case('override result rc'):
        for i in range(256):
            del hooked[:]
            ret[0] = bytes([i])
            M.call_rc(v)
            x.check(received() == bytes([i]) and not hooked, 'rc %d: %r %r' % (i, received(), hooked))
        for b in (None, b'', b'ab', 1, 'ab'):
            del hooked[:]
            ret[0] = b
            M.call_rc(v)
            x.check(received() == b'P' and len(hooked) == 1, 'rc %r: %r %r' % (b, received(), hooked))


def scenarios(tier):
    return [Scenario('strings', HEADER, gen, explore, shards=8)]
