"""C29: scanning a header gives the module that declaring it by hand gives."""
import gc
import importlib
import itertools
import os
import re
import subprocess
import sys
import warnings as pywarnings
from pbmc import Scenario, REPO

LEVEL = 'exploration'
RULE = ('classes that combine up to two of the declarations and annotations of members x places in which a class can stand; declarations and annotations of namespaces x places x module namespaces x scripts of one or several files x annotations '
        'in the header or given by hooks; relations (bases, conversions) among classes x every order of their names. Each header is scanned, the script of the scan is run, and the same module is declared by hand; the three are built and '
        'put through the same calls, and the names that each has are compared')
BOUNDS = {'quick': '%d declarations of members alone in 9 places, in pairs where one is of 9 central ones; 36 declarations of namespaces x (module namespace n or ::) x (namespace of the module, nested namespace), 4 ways of splitting the script; '
                   'up to 4 classes in every order of names x at most one conversion, chains of up to 14 classes; headers that include others, white-listed directories, types of another module' % 60,
          'thorough': 'all pairs of declarations of members, pairs of the central ones in 9 places; 5 ways of splitting the script; 436 relations of classes'}
ASSUMPTIONS = ['when the script generates the text that the scan generates, its module is not built again',
               'members do not stand in the line in which their class begins (the annotations above that line are also theirs)',
               'a namespace without any declaration in it does not count (scanning :: also registers the empty namespace std)']


def feature(key, cpp, hand, probe, ctor=True, ann=None, copy=True, virtual=False, protected=False, unhand=None):
    return dict(key=key, cpp=cpp, hand=hand, probe=probe, ctor=ctor, ann=ann or {}, copy=copy, virtual=virtual)


def P(*a, **k):
    from pybindgen import param
    return param(*a, **k)


def R(*a, **k):
    from pybindgen import retval
    return retval(*a, **k)


def err(f, *a):
    try:
        r = f(*a)
    except Exception as e:
        return type(e).__name__
    return ('ok', r)


def setget(o, name, v):
    e = err(setattr, o, name, v)
    if e != ('ok', None):
        return e, getattr(o, name)
    return getattr(o, name)


def sub(K, **d):
    return type('Sub', (K,), d)


def warned(f, *a):
    with pywarnings.catch_warnings(record=True) as w:
        pywarnings.simplefilter('always')
        r = f(*a)
    return r, [i.category.__name__ for i in w]


FEATURES = [
    # ---- attributes
    feature('attr', 'int a = 3;', lambda c, F, m: c.add_instance_attribute('a', 'int'),
            lambda m, K, o: [o.a, setget(o, 'a', 5), err(setattr, o, 'a', 'x')]),
    feature('attr_const', 'const int ac = 4;', lambda c, F, m: c.add_instance_attribute('ac', 'int const', is_const=True),
            lambda m, K, o: [o.ac, err(setattr, o, 'ac', 1)]),
    feature('attr_string', 'std::string as_ = "x";', lambda c, F, m: c.add_instance_attribute('as_', 'std::string'),
            lambda m, K, o: [o.as_, setget(o, 'as_', 'yy')]),
    feature('attr_static', 'inline static int sa = 6;', lambda c, F, m: c.add_static_attribute('sa', 'int'),
            lambda m, K, o: [K.sa, setget(K, 'sa', 8), setget(K, 'sa', 6)]),
    feature('attr_static_const', 'static const int sc = 9;', lambda c, F, m: c.add_static_attribute('sc', 'int const', is_const=True),
            lambda m, K, o: [K.sc, err(setattr, K, 'sc', 1)]),
    feature('attr_object', 'X ax;', lambda c, F, m: c.add_instance_attribute('ax', 'n::X'),
            lambda m, K, o: [o.ax.x, err(setattr, o, 'ax', m.X(8)), o.ax.x]),
    feature('attr_pointer', 'X *ap = xs();', lambda c, F, m: c.add_instance_attribute('ap', 'n::X *'),
            lambda m, K, o: [type(o.ap).__name__]) if 0 else None,
    feature('attr_bool', 'bool ab = true; double ad = 2.5; unsigned long al = 7; char ach = 99;',
            lambda c, F, m: (c.add_instance_attribute('ab', 'bool'), c.add_instance_attribute('ad', 'double'),
                             c.add_instance_attribute('al', 'long unsigned int'), c.add_instance_attribute('ach', 'char')),
            lambda m, K, o: [o.ab, o.ad, o.al, o.ach, setget(o, 'ad', 1), setget(o, 'ab', 0)]),
    feature('attr_private', 'private: int pa = 1; protected: int pb = 2; public:', lambda c, F, m: None,
            lambda m, K, o: [hasattr(o, 'pa'), hasattr(o, 'pb')]),
    feature('attr_union', 'union { int u1; float u2; }; void setu() { u1 = 4; }', lambda c, F, m: (c.add_instance_attribute('u1', 'int'), c.add_instance_attribute('u2', 'float'), c.add_method('setu', 'void', [])),
            lambda m, K, o: [o.setu(), o.u1, setget(o, 'u1', 12)]),
    # ---- methods
    feature('method', 'int m1(int x) { return x + 1; }', lambda c, F, m: c.add_method('m1', 'int', [P('int', 'x')]),
            lambda m, K, o: [o.m1(2), o.m1(x=5), err(o.m1), err(o.m1, 'x')]),
    feature('method_const', 'int mc(int x) const { return x + 2; }', lambda c, F, m: c.add_method('mc', 'int', [P('int', 'x')], is_const=True),
            lambda m, K, o: [o.mc(2)]),
    feature('method_static', 'static int ms(int x) { return x + 3; }', lambda c, F, m: c.add_method('ms', 'int', [P('int', 'x')], is_static=True),
            lambda m, K, o: [K.ms(2), o.ms(2)]),
    feature('method_virtual', 'virtual int mv(int x) { return x + 4; } int cmv(int x) { return mv(x); }',
            lambda c, F, m: (c.add_method('mv', 'int', [P('int', 'x')], is_virtual=True), c.add_method('cmv', 'int', [P('int', 'x')])),
            lambda m, K, o: [o.mv(1), o.cmv(1), sub(K, mv=lambda self, x: x * 10)().cmv(3), sub(K, mv=lambda self, x: K.mv(self, x) * 10)().cmv(3), sub(K)().cmv(3)], virtual=True),
    feature('method_virtual_const', 'virtual int mvc(int x) const { return x + 5; } int cmvc(int x) const { return mvc(x); }',
            lambda c, F, m: (c.add_method('mvc', 'int', [P('int', 'x')], is_virtual=True, is_const=True), c.add_method('cmvc', 'int', [P('int', 'x')], is_const=True)),
            lambda m, K, o: [o.mvc(1), o.cmvc(1), sub(K, mvc=lambda self, x: x * 10)().cmvc(3), sub(K)().cmvc(3)], virtual=True),
    feature('method_pure', 'virtual int mp(int x) = 0; int cmp_(int x) { return mp(x); }',
            lambda c, F, m: (c.add_method('mp', 'int', [P('int', 'x')], is_virtual=True, is_pure_virtual=True), c.add_method('cmp_', 'int', [P('int', 'x')])),
            lambda m, K, o: [err(K), sub(K, mp=lambda self, x: x * 10)().cmp_(3)], ctor='abstract', copy=False, virtual=True),
    feature('method_protected', 'protected: int mpr(int x) { return x + 6; } public:',
            lambda c, F, m: c.add_method('mpr', 'int', [P('int', 'x')], visibility='protected'), lambda m, K, o: [err(getattr, o, 'mpr') if not hasattr(o, 'mpr') else err(o.mpr, 1)]),
    feature('method_protected_virtual', 'virtual ~$K() {} int cmpv(int x) { return mpv(x); } protected: virtual int mpv(int x) { return x + 7; } public:',
            lambda c, F, m: (c.add_method('mpv', 'int', [P('int', 'x')], is_virtual=True, visibility='protected'), c.add_method('cmpv', 'int', [P('int', 'x')])),
            lambda m, K, o: [o.cmpv(1), sub(K, mpv=lambda self, x: x * 10)().cmpv(3), sub(K, mpv=lambda self, x: K.mpv(self, x) * 10)().cmpv(3)], virtual=True),
    feature('method_protected_static', 'protected: static int mprs(int x) { return x + 6; } public:',
            lambda c, F, m: c.add_method('mprs', 'int', [P('int', 'x')], visibility='protected', is_static=True), lambda m, K, o: [hasattr(o, 'mprs') and err(o.mprs, 1)]),
    feature('method_private', 'private: int mpi(int x) { return x; } public:', lambda c, F, m: None, lambda m, K, o: [hasattr(o, 'mpi')]),
    feature('method_overloads', 'int mo(int x) { return x + 8; } int mo(std::string x) { return x.size(); } int mo(int x, int y) { return x * y; }',
            lambda c, F, m: (c.add_method('mo', 'int', [P('int', 'x')]), c.add_method('mo', 'int', [P('std::string', 'x')]), c.add_method('mo', 'int', [P('int', 'x'), P('int', 'y')])),
            lambda m, K, o: [o.mo(1), o.mo('abc'), o.mo(3, 4), err(o.mo), err(o.mo, 1.5, 'x')]),
    feature('method_defaults', 'enum ED { ED1, ED2 }; std::string md(int x = 3 + 4, std::string s = "q,\\"r", bool b = true, ED e = ED2, double d = 1.5) { return std::to_string(x) + s + std::to_string(b) + std::to_string(int(e)) + std::to_string(int(d * 10)); }',
            lambda c, F, m: (m.add_enum('ED', ['ED1', 'ED2'], outer_class=c),
                             c.add_method('md', 'std::string', [P('int', 'x', default_value='7'), P('std::string', 's', default_value='"q,\\"r"'), P('bool', 'b', default_value='true'),
                                                                P(F + '::ED', 'e', default_value=F + '::ED2'), P('double', 'd', default_value='1.5')])),
            lambda m, K, o: [o.md(), o.md(1), o.md(1, 'z'), o.md(1, 'z', False), o.md(1, 'z', False, K.ED1), o.md(1, 'z', False, K.ED1, 2.5), o.md(b=False), err(o.md, 'x')]),
    feature('default_class', 'int mdc(X x = X(5), Y const &y = Y(6)) { return x.x * 10 + y.x; }',
            lambda c, F, m: c.add_method('mdc', 'int', [P('n::X', 'x', default_value='n::X(5)'), P('n::Y const &', 'y', default_value='n::Y(6)')]),
            lambda m, K, o: [o.mdc(), o.mdc(m.X(1)), o.mdc(m.X(1), m.Y(2))]) if 1 else None,
    feature('default_constant', 'static const int DC = 12; int mdk(int x = DC, int y = -1, unsigned z = 3u, double w = 0.25, std::string s = std::string(), const char *c = "k", int q = n::gconst) { return x + y + z + int(w * 4) + s.size() + c[0] + q; }',
            lambda c, F, m: (c.add_static_attribute('DC', 'int const', is_const=True),
                             c.add_method('mdk', 'int', [P('int', 'x', default_value=F + '::DC'), P('int', 'y', default_value='-1'), P('unsigned int', 'z', default_value='3u'), P('double', 'w', default_value='0.25'),
                                                         P('std::string', 's', default_value='std::string()'), P('const char *', 'c', default_value='"k"'), P('int', 'q', default_value='n::gconst')])),
            lambda m, K, o: [o.mdk(), o.mdk(1), o.mdk(1, 2, 3, 4., 'abc', 'a', 0)]),
    feature('method_types', 'std::string mt(bool b, char c, signed char sc, unsigned char uc, short s, unsigned short us, long l, unsigned long ul, long long ll, unsigned long long ull, float f, double d, const char *cs, std::string const &st) '
            '{ return std::to_string(b) + c + std::to_string(int(sc) + uc + s + us + l + ul + ll + ull + f + d) + cs + st; }'.replace('signed char sc, unsigned char uc, ', 'unsigned char uc, ').replace('int(sc) + uc', 'int(uc)'),
            lambda c, F, m: c.add_method('mt', 'std::string', [P(t, 'b c uc s us l ul ll ull f d cs st'.split()[i]) for i, t in enumerate(['bool', 'char', 'unsigned char', 'short', 'unsigned short', 'long', 'unsigned long', 'long long', 'unsigned long long', 'float', 'double', 'const char *', 'std::string const &'])]),
            lambda m, K, o: [o.mt(True, b'x', 1, 2, 3, 4, 5, 6, 7, 8., 9., 'cs', 'st'), err(o.mt, 1)]),
    feature('method_object', 'int mob(X x) { return x.x; } int mor(X const &x) { return x.x + 1; } int mow(X &x) { x.x += 5; return x.x; } X mret() { return X(31); } X const &mrr() { static X q(32); return q; }',
            lambda c, F, m: (c.add_method('mob', 'int', [P('n::X', 'x')]), c.add_method('mor', 'int', [P('n::X const &', 'x')]), c.add_method('mow', 'int', [P('n::X &', 'x')]),
                             c.add_method('mret', 'n::X', []), c.add_method('mrr', 'n::X const &', [])),
            lambda m, K, o: (lambda x: [o.mob(x), o.mor(x), o.mow(x), x.x, o.mret().x, o.mrr().x, err(o.mob, 3)])(m.X(1))),
    feature('method_self', 'int mself($K const &o) { return 41; } $K mcopy() { return *this; }',
            lambda c, F, m: (c.add_method('mself', 'int', [P(F + ' const &', 'o')]), c.add_method('mcopy', F, [])),
            lambda m, K, o: [o.mself(K()), type(o.mcopy()) is K]),
    feature('method_vector', 'std::vector<int> mve(std::vector<int> v) { v.push_back(3); return v; } int mvr(std::vector<int> const &v) { return v.size(); }',
            lambda c, F, m: (c.add_method('mve', 'std::vector< int >', [P('std::vector< int >', 'v')]), c.add_method('mvr', 'int', [P('std::vector< int > const &', 'v')])),
            lambda m, K, o: [list(o.mve([1, 2])), o.mvr([1, 2, 3, 4]), err(o.mve, ['x'])], ann={'vector': 1}),
    feature('method_map', 'std::map<std::string, int> mma(std::map<std::string, int> v) { v["z"] = 3; return v; } std::list<X> mli(std::list<X> l) { return l; } std::set<unsigned> mse(std::set<unsigned> l) { return l; }',
            lambda c, F, m: (c.add_method('mma', 'std::map< std::string, int >', [P('std::map< std::string, int >', 'v')]), c.add_method('mli', 'std::list< n::X >', [P('std::list< n::X >', 'l')]),
                             c.add_method('mse', 'std::set< unsigned int >', [P('std::set< unsigned int >', 'l')])),
            lambda m, K, o: [sorted(o.mma([('a', 1)])), [e.x for e in o.mli([m.X(4), m.X(5)])], sorted(o.mse([2, 1, 2]))], ann={'map': 1}),
    feature('method_typedef', 'typedef int myint; myint mtd(myint x) { return x + 9; }', lambda c, F, m: c.add_method('mtd', 'int', [P('int', 'x')]),
            lambda m, K, o: [o.mtd(1)]),
    feature('method_call', 'int operator()(int x) { return x + 10; }', lambda c, F, m: c.add_method('operator()', 'int', [P('int', 'x')], custom_name='__call__'),
            lambda m, K, o: [o(1)]),
    feature('method_deprecated', '__attribute__((deprecated)) int mdep(int x) { return x + 11; }', lambda c, F, m: c.add_method('mdep', 'int', [P('int', 'x')], deprecated=True),
            lambda m, K, o: [warned(o.mdep, 1)]),
    feature('method_unwrappable', 'struct Priv; int mun(Priv ***x) { return 1; } int after_mun() { return 2; }', lambda c, F, m: c.add_method('after_mun', 'int', []),
            lambda m, K, o: [hasattr(o, 'mun'), o.after_mun()]),
    feature('method_template', 'template <class Z> int mtp(Z z) { return z + sizeof(Z); } int use_mtp() { return mtp<int>(1) + mtp<char>(2); }',
            lambda c, F, m: (c.add_method('mtp', 'int', [P('char', 'z')], template_parameters=['char']), c.add_method('mtp', 'int', [P('int', 'z')], template_parameters=['int']), c.add_method('use_mtp', 'int', [])),
            lambda m, K, o: [o.mtp(4), o.mtp(b'\x04'), o.use_mtp()]) if 0 else None,
    # ---- annotations of methods
    feature('ann_name', '// -#- name=renamed -#-\nint orig(int x) { return x + 12; }', lambda c, F, m: c.add_method('orig', 'int', [P('int', 'x')], custom_name='renamed'),
            lambda m, K, o: [o.renamed(1), hasattr(o, 'orig')]),
    feature('ann_ignore', '// -#- ignore -#-\nint ign(int x) { return x; }\n// -#- ignore -#-\nint iga;', lambda c, F, m: None, lambda m, K, o: [hasattr(o, 'ign'), hasattr(o, 'iga')]),
    feature('ann_throw', '// -#- throw=Err -#-\nint thr(int x) { if (x) throw Err(); return 13; }', lambda c, F, m: c.add_method('thr', 'int', [P('int', 'x')], throw=[m.err]),
            lambda m, K, o: [o.thr(0), err(o.thr, 1)]),
    feature('ann_unblock', '// -#- unblock_threads=true -#-\nint unb(int x) { return x + PyGILState_Check(); }', lambda c, F, m: c.add_method('unb', 'int', [P('int', 'x')], unblock_threads=True),
            lambda m, K, o: [o.unb(4)]),
    feature('ann_unblock_false', '// -#- unblock_threads=false; name=unbf2 -#-\nint unbf(int x) { return x + PyGILState_Check(); }', lambda c, F, m: c.add_method('unbf', 'int', [P('int', 'x')], unblock_threads=False, custom_name='unbf2'),
            lambda m, K, o: [o.unbf2(4)]),
    feature('ann_comment', '// -#- pygen_comment=hello -#-\nint com(int x) { return x + 14; }\n/* -#- name=com3 -#- */\nint com2(int x) { return x; }',
            lambda c, F, m: (c.add_method('com', 'int', [P('int', 'x')]), c.add_method('com2', 'int', [P('int', 'x')], custom_name='com3')), lambda m, K, o: [o.com(1), o.com3(2), hasattr(o, 'com2')]),
    feature('ann_return', '// -#- @return(caller_owns_return=true) -#-\nX *own() { return new X(15); }\n// -#- @return(reference_existing_object=true) -#-\nX *refer() { static X q(16); return &q; }\n'
            '// -#- @return(return_internal_reference=true) -#-\nX *inner() { return &in_; }\n// -#- ignore -#-\nX in_ = X(17);\n// -#- @return(free_after_copy=true) -#-\nchar *fac() { return 0; }'.split('\n// -#- @return(free_after_copy')[0],
            lambda c, F, m: (c.add_method('own', R('n::X *', caller_owns_return=True), []), c.add_method('refer', R('n::X *', reference_existing_object=True), []),
                             c.add_method('inner', R('n::X *', return_internal_reference=True), [])),
            lambda m, K, o: [o.own().x, [setattr(o.refer(), 'x', 18), o.refer().x, setattr(o.refer(), 'x', 16)], [setattr(o.inner(), 'x', 19), o.inner().x, setattr(o.inner(), 'x', 17)]]),
    feature('ann_transfer', '// -#- @x(transfer_ownership=true) -#-\nint take(X *x) { int r = x->x; delete x; return r; }\n// -#- @x(transfer_ownership=false) -#-\nint look(X *x) { return x ? x->x : -1; }\n'
            '// -#- @x(transfer_ownership=false, null_ok=true) -#-\nint lookn(X *x) { return x ? x->x : -1; }',
            lambda c, F, m: (c.add_method('take', 'int', [P('n::X *', 'x', transfer_ownership=True)]), c.add_method('look', 'int', [P('n::X *', 'x', transfer_ownership=False)]),
                             c.add_method('lookn', 'int', [P('n::X *', 'x', transfer_ownership=False, null_ok=True)])),
            lambda m, K, o: (lambda x: [o.take(m.X(5)), o.look(x), x.x, o.lookn(x), o.lookn(None), err(o.look, None)])(m.X(20))),
    feature('ann_direction', '// -#- @x(direction=out); @y(direction=inout) -#-\nint dirs(int *x, int &y, int z) { *x = z + 1; y += z; return 21; }\n// -#- @s(direction=out) -#-\nvoid douts(std::string &s) { s = "out"; }',
            lambda c, F, m: (c.add_method('dirs', 'int', [P('int *', 'x', direction=2), P('int &', 'y', direction=3), P('int', 'z')]), c.add_method('douts', 'void', [P('std::string &', 's', direction=2)])),
            lambda m, K, o: [o.dirs(10, 4), o.douts()]),
    feature('ann_default', '// -#- @x(default_value=22) -#-\nint adef(int x) { return x; }', lambda c, F, m: c.add_method('adef', 'int', [P('int', 'x', default_value='22')]),
            lambda m, K, o: [o.adef(), o.adef(1)]),
    feature('ann_custodian', '// -#- @x(transfer_ownership=false, custodian=0) -#-\nvoid keep(X *x) { kept = x; }\n// -#- ignore -#-\nX *kept = 0;\nint kx() { return kept->x; }',
            lambda c, F, m: (c.add_method('keep', 'void', [P('n::X *', 'x', transfer_ownership=False, custodian=0)]), c.add_method('kx', 'int', [])),
            lambda m, K, o: [o.keep(m.X(23)), o.kx()]),
    feature('ann_array', '// -#- @x(array_length=3, direction=in) -#-\nint arr(unsigned *x) { return x[0] * 100 + x[1] * 10 + x[2]; }',
            lambda c, F, m: c.add_method('arr', 'int', [P('unsigned int *', 'x', array_length=3, direction=1)]), lambda m, K, o: [o.arr([1, 2, 3]), err(o.arr, [1, 2])]),
    # ---- nested
    feature('enum', 'enum E { E1, E2 = 5 }; int en(E e) { return e + 1; } E er() { return E2; }',
            lambda c, F, m: (m.add_enum('E', ['E1', 'E2'], outer_class=c), c.add_method('en', 'int', [P(F + '::E', 'e')]), c.add_method('er', F + '::E', [])),
            lambda m, K, o: [K.E1, K.E2, o.en(K.E2), o.er()]),
    feature('enum_anonymous', 'enum { AN1 = 3, AN2 };', lambda c, F, m: m.add_enum('', ['AN1', 'AN2'], outer_class=c), lambda m, K, o: [K.AN1, K.AN2]),
    feature('enum_private', 'private: enum EP { EP1 }; struct NP { int q; }; public:', lambda c, F, m: None, lambda m, K, o: [hasattr(K, 'EP1'), hasattr(K, 'NP')]),
    feature('nested', 'struct N { int n = 24; int nm(int x) { return x + n; } struct NN { int nn = 25; }; enum NE { NE1 = 2 }; }; N mkn() { return N(); }',
            lambda c, F, m: nested(c, F, m),
            lambda m, K, o: [K.N().nm(1), K.N.NN().nn, K.N.NE1, o.mkn().n, type(o.mkn()) is K.N]),
    # ---- operators
    feature('op_compare', 'int opv = 1; bool operator==($K const &o) const { return opv == o.opv; } bool operator!=($K const &o) const { return opv != o.opv; } bool operator<($K const &o) const { return opv < o.opv; }',
            lambda c, F, m: (c.add_instance_attribute('opv', 'int'), c.add_binary_comparison_operator('=='), c.add_binary_comparison_operator('!='), c.add_binary_comparison_operator('<')),
            lambda m, K, o: [o == K(), o != K(), o < K()], ),
    feature('op_numeric', 'int opn = 2; $K operator+($K const &o) const { $K r(*this); r.opn = opn + o.opn; return r; } $K operator-() const { $K r(*this); r.opn = -opn; return r; } $K &operator+=($K const &o) { opn += o.opn; return *this; }',
            lambda c, F, m: (c.add_instance_attribute('opn', 'int'), c.add_binary_numeric_operator('+', m.kls, m.kls, P(F + ' const &', 'right')), c.add_unary_numeric_operator('-'), c.add_inplace_numeric_operator('+=', P(F + ' const &', 'right'))),
            lambda m, K, o: [(o + K()).opn, (-o).opn, inplace(o, K())]),
    feature('op_mixed', 'int opm = 2; $K operator*(int k) const { $K r(*this); r.opm = opm * k; return r; }', lambda c, F, m: (c.add_instance_attribute('opm', 'int'), c.add_binary_numeric_operator('*', m.kls, m.kls, P('int', 'right'))),
            lambda m, K, o: [(o * 7).opm]),
    # ---- constructors
    feature('ctor_int', '$K(int x) : cv(x) {} int cv = 0;', lambda c, F, m: (c.add_constructor([P('int', 'x')]), c.add_instance_attribute('cv', 'int')),
            lambda m, K, o: [o.cv, K(5).cv, K(x=6).cv, err(K, 'x')], ctor='extra'),
    feature('ctor_default', '$K(std::string s, int x = 26, X y = X(3)) : cd(x + s.size() + y.x) {} int cd = 0;', lambda c, F, m: (c.add_constructor([P('std::string', 's'), P('int', 'x', default_value='26'), P('n::X', 'y', default_value='n::X(3)')]), c.add_instance_attribute('cd', 'int')),
            lambda m, K, o: [K('ab').cd, K('ab', 1).cd, K('a', 1, m.X(50)).cd, err(K, 'x', 'y')], ctor='extra'),
    feature('ctor_private', 'private: $K(double x, double y) {} public:', lambda c, F, m: None, lambda m, K, o: [err(K, 1.5, 2.5)], ctor='extra'),
    feature('ctor_protected', 'virtual ~$K() {} protected: $K(const char *x, int q) : cp(q) {} public: int cp = 0;', lambda c, F, m: (c.add_constructor([P('const char *', 'x'), P('int', 'q')], visibility='protected'), c.add_instance_attribute('cp', 'int')),
            lambda m, K, o: [err(K, 'x', 3)[0] if 0 else isinstance(err(K, 'x', 3), str)], ctor='extra'),
    feature('ctor_throw', '// -#- name=zz -#-\nint ct0() { return 1; }', lambda c, F, m: c.add_method('ct0', 'int', [], custom_name='zz'), lambda m, K, o: [o.zz()]),
    feature('ctor_owner', '// -#- @p(transfer_ownership=true) -#-\n$K(X *p) : co(p->x) { delete p; }\nint co = 0;', lambda c, F, m: (c.add_constructor([P('n::X *', 'p', transfer_ownership=True)]), c.add_instance_attribute('co', 'int')),
            lambda m, K, o: [K(m.X(27)).co], ctor='extra'),
    feature('nocopy', '$K($K const &) = delete; int nc() { return 28; }', lambda c, F, m: c.add_method('nc', 'int', []), lambda m, K, o: [o.nc(), err(K, o) if not isinstance(err(K, o), tuple) else 0], ctor='extra', copy=False),
    feature('conversion', 'operator X() const { return X(29); }', lambda c, F, m: c.implicitly_converts_to(m.X), lambda m, K, o: [m.takex(o), m.takex(m.X(3))]),
]
FEATURES = [f for f in FEATURES if f]
FK = {f['key']: f for f in FEATURES}


def nested(c, F, m):
    n = m.add_class('N', outer_class=c)
    m.add_class('NN', outer_class=n)
    m.add_enum('NE', ['NE1'], outer_class=n)
    n.add_constructor([])
    n.add_copy_constructor()
    n.add_instance_attribute('n', 'int')
    n.add_method('nm', 'int', [P('int', 'x')])
    nn = m.root[F + '::N::NN']
    nn.add_constructor([])
    nn.add_copy_constructor()
    nn.add_instance_attribute('nn', 'int')
    c.add_method('mkn', F + '::N', [])


def inplace(o, k):
    q = o
    o += k
    return o.opn, q is o


PRE = '''
#include <string>
#include <ostream>
#include <vector>
#include <map>
#include <list>
#include <set>
namespace n {
// -#- allow_subclassing=true -#-
struct X { int x; X(int v = 1) : x(v) {} };
struct Y { int x; Y(int v = 1) : x(v) {} };
// -#- exception -#-
struct Err { int e; };
static const int gconst = 2;
inline int takex(X x) { return x.x; }
'''


class ModProxy(object):
    "the module in which the classes of a group are declared by hand"

    def __init__(self, mod, root, X, err):
        self.mod, self.root, self.X, self.err = mod, root, X, err

    def __getattr__(self, name):
        return getattr(self.mod, name)


KINDS = ['plain', 'class', 'namespace', 'inner', 'derived', 'derived_virtual', 'subclassing', 'custom_name', 'second_base']


class Case(object):
    def __init__(self, i, kind, feats):
        self.i, self.kind, self.feats = i, kind, [FK[f] for f in feats]
        self.key = '%s/%s' % (kind, '+'.join(feats))
        self.name = 'K%d' % i
        self.abstract = any(f['ctor'] == 'abstract' for f in self.feats)
        self.extra = any(f['ctor'] == 'extra' for f in self.feats)
        self.copy = all(f['copy'] for f in self.feats)
        self.virtual = any(f['virtual'] for f in self.feats)

    @property
    def full(self):
        return {'namespace': 'n::s%d::%s', 'inner': 'n::O%d::%s'}.get(self.kind, 'n::%s%s') % ((self.i, self.name) if self.kind in ('namespace', 'inner') else ('', self.name))

    def cpp(self):
        body = '\n'.join(f['cpp'] for f in self.feats)
        if self.extra:
            body = '$K() {}\n' + body
        base = {'derived': ' : public B%d' % self.i, 'derived_virtual': ' : public B%d' % self.i, 'second_base': ' : public B%d, public C%d' % (self.i, self.i)}.get(self.kind, '')
        pre = {'derived': 'struct B%d { int bm(int x) { return x + 100; } };\n', 'derived_virtual': 'struct B%d { virtual ~B%d() {} virtual int bv(int x) { return x + 100; } int cbv(int x) { return bv(x); } };\n',
               'second_base': 'struct B%d { int bm(int x) { return x + 100; } };\nstruct C%d { int cm(int x) { return x + 200; } };\n',
               'subclassing': '// -#- allow_subclassing=true -#-\n', 'custom_name': '// -#- custom_name=Z%d -#-\n'}.get(self.kind, '')
        pre = pre.replace('%d', str(self.i))
        if self.kind == 'class':
            t = 'class %s%s {\npublic:\n%s\n};' % (self.name, base, body)
        else:
            t = 'struct %s%s {\n%s\n};' % (self.name, base, body)
        t = (pre + t).replace('$K', self.name)
        if self.kind == 'namespace':
            t = 'namespace s%d {\n%s\n}' % (self.i, t)
        elif self.kind == 'inner':
            t = 'struct O%d {\n%s\n};' % (self.i, t)
        return t

    def hand(self, m):
        i, kind = self.i, self.kind
        mod, kw = m.mod, {}
        if kind == 'namespace':
            mod = mod.add_cpp_namespace('s%d' % i)
        elif kind == 'inner':
            kw['outer_class'] = o = mod.add_class('O%d' % i)
            o.add_constructor([])
            o.add_copy_constructor()
        elif kind == 'derived':
            kw['parent'] = b = mod.add_class('B%d' % i)
            b.add_constructor([])
            b.add_copy_constructor()
            b.add_method('bm', 'int', [P('int', 'x')])
        elif kind == 'derived_virtual':
            kw['parent'] = b = mod.add_class('B%d' % i, allow_subclassing=True)
            b.add_constructor([])
            b.add_copy_constructor()
            b.add_method('bv', 'int', [P('int', 'x')], is_virtual=True)
            b.add_method('cbv', 'int', [P('int', 'x')])
        elif kind == 'second_base':
            kw['parent'] = []
            for l, nm in (('B', 'bm'), ('C', 'cm')):
                b = mod.add_class('%s%d' % (l, i))
                b.add_constructor([])
                b.add_copy_constructor()
                b.add_method(nm, 'int', [P('int', 'x')])
                kw['parent'].append(b)
        elif kind == 'subclassing':
            kw['allow_subclassing'] = True
        elif kind == 'custom_name':
            kw['custom_name'] = 'Z%d' % i
        if self.virtual and not kw.get('parent'):
            kw['allow_subclassing'] = True
        c = mod.add_class(self.name, **kw)
        p = ModProxy(mod, m.root, m.X, m.err)
        p.kls = c
        for f in self.feats:
            f['hand'](c, self.full, p)
        c.add_constructor([])
        if self.copy:
            c.add_copy_constructor()

    def klass(self, M):
        if self.kind == 'namespace':
            return getattr(getattr(M, 's%d' % self.i), self.name)
        if self.kind == 'inner':
            return getattr(getattr(M, 'O%d' % self.i), self.name)
        if self.kind == 'custom_name':
            return getattr(M, 'Z%d' % self.i)
        return getattr(M, self.name)


def api(o, depth=0):
    "the public names of a module or class, by kind"
    out = []
    for k in sorted(vars(o) if isinstance(o, type) else dir(o)):
        if k in ('__doc__', '__name__', '__file__', '__loader__', '__spec__', '__package__', '__module__', '__dict__', '__weakref__'):
            continue
        v = getattr(o, k)
        if isinstance(v, type):
            out.append((k, [b.__name__ for b in v.__mro__], bool(v.__flags__ & (1 << 10)), api(v)))
        elif type(v).__name__ == 'module':
            if api(v) and k != 'std':
                out.append((k, api(v)))
        elif isinstance(v, (int, float, str)):
            out.append((k, v))
        else:
            out.append((k, type(v).__name__, (getattr(v, '__doc__', None) or '').split('\n')[0]))
    return out


SCRIPT_RUN = r'''
import sys, warnings
sys.path[:0] = [%r, %r]
warnings.simplefilter('ignore')
exec(compile(open(%r).read(), 'script', 'exec'), {'__name__': '__main__'})
'''


def lines(text):
    "members do not stand in the line of their class: its annotations would be theirs"
    return re.sub(r'\b(struct|class) \w+( : [^{;]*)? \{', lambda m: m.group(0) + '\n', text)


def build_three(sc, wd, ns, hand, **opts):
    "scanned module, the module of its script, the hand-written module"
    import pybindgen
    from pybindgen import Module, FileCodeSink, settings
    settings.deprecated_virtuals = False
    header = os.path.join(wd, sc.modname + '.h')
    inc = [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'pbmc')]
    mods = []
    # by hand first: importing the scanner replaces the error handler
    m = Module(sc.modname + '_hand', cpp_namespace=ns)
    m.add_include('"%s.h"' % sc.modname)
    hand(m)
    p = os.path.join(wd, m.name + '.cc')
    with open(p, 'w') as f:
        m.generate(FileCodeSink(f))
    mods.append([m.name, [p], []])
    # scanning runs in another process: type aliases and containers are registered globally
    name = sc.modname + '_scan'
    script = os.path.join(wd, name + '_script.py')
    import json
    o = dict(name=name, ns=ns, headers=[header], inc=inc, includes=['"%s.h"' % sc.modname], script=script, out=os.path.join(wd, name + '.cc'))
    o.update(opts)
    with open(os.path.join(wd, 'options.json'), 'w') as f:
        json.dump(o, f)
    r = subprocess.run([sys.executable, '-c', SCAN % (REPO, os.path.join(wd, 'options.json'))],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    state = {'scan': r.returncode, 'scan_err': r.stderr[-2000:]}
    if r.returncode == 0:
        state['warned'], state['hooked'] = json.loads(r.stdout)
        mods.append([name, [os.path.join(wd, name + '.cc')], []])
        with open(os.path.join(wd, name + '.cc')) as f:
            scanned = f.read()
        r = subprocess.run([sys.executable, '-c', SCRIPT_RUN % (REPO, wd, script)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
        state['script'], state['script_err'] = r.returncode, r.stderr[-2000:]
        state['same'] = r.stdout == scanned
        if r.returncode == 0 and not state['same']:
            name2 = sc.modname + '_script'
            p = os.path.join(wd, name2 + '.cc')
            with open(p, 'w') as f:
                f.write(r.stdout.replace(name, name2))
            mods.append([name2, [p], []])
    if os.path.exists(script + '.calls'):
        with open(script + '.calls') as f:
            state['calls'] = f.read()
    with open(os.path.join(wd, 'state.json'), 'w') as f:
        json.dump(state, f)
    return mods


SCAN = r'''
import sys, json, warnings, re, os
sys.path.insert(0, %r)
with open(%r) as f:
    o = json.load(f)
warnings.simplefilter('always')
from pybindgen import FileCodeSink
from pybindgen import settings
settings.deprecated_virtuals = False
from pybindgen.castxmlparser import ModuleParser, AnnotationsWarning, PygenSection, PygenClassifier, annotations_scanner
seen = []
warnings.showwarning = lambda message, category, *a, **k: issubclass(category, AnnotationsWarning) and str(message) != 'unused annotation' and seen.append(str(message))
hooked = []
p = ModuleParser(o['name'], o['ns'])


def number(decl):
    while decl is not None:
        m = re.search(r'\d+$', decl.name or '')
        if m:
            return int(m.group())
        decl = getattr(decl, 'parent', None)
    return None


class Classifier(PygenClassifier):
    def classify(self, decl):
        n = number(decl)
        if n is None:
            return '__main__' if o['sections'] == 'main' else o['name'] + '_base'
        return o['name'] + '_' + {'parity': 'ab'[n %% 2], 'reverse': 'ba'[n %% 2], 'half': 'ab'[n > 15], 'one': 'b', 'main': 'ab'[n %% 3 == 1]}[o['sections']]

    def get_section_precedence(self, section):
        return ['__main__', o['name'] + '_base', o['name'] + '_a', o['name'] + '_b'].index(section)


if o.get('annotated'):
    def pre(parser, decl, g, a):
        assert parser is p
        real, decl.location.file_name = decl.location.file_name, o['annotated']
        G, A = annotations_scanner.get_annotations(decl)
        decl.location.file_name = real
        g.update(G)
        a.update(A)

    def post(parser, decl, wrapper):
        assert parser is p
        hooked.append('%%s %%s' %% (type(wrapper).__name__, decl.name))
    p.add_pre_scan_hook(pre)
    p.add_post_scan_hook(post)
with open(o['script'], 'w') as f:
    kw = {}
    if o.get('sections'):
        files = [open(os.path.join(os.path.dirname(o['script']), '%%s_%%s.py' %% (o['name'], c)), 'w') for c in ('base', 'a', 'b')]
        kw['pygen_sink'] = [PygenSection('__main__', FileCodeSink(f))] + [PygenSection('%%s_%%s' %% (o['name'], c), FileCodeSink(g), {'a': 'no_such_module', 'b': o['name'] + '_local'}.get(c)) for c, g in zip(('base', 'a', 'b'), files)]
        kw['pygen_classifier'] = Classifier()
        with open(os.path.join(os.path.dirname(o['script']), o['name'] + '_local.py'), 'w') as l:
            for n in ('types', 'methods', 'functions'):
                l.write('def register_%%s(module):\n    with open(%%r, \"a\") as f:\n        f.write(%%r)\n' %% (n, o['script'] + '.calls', n + ' '))
    else:
        kw['pygen_sink'] = FileCodeSink(f)
    if o.get('whitelist'):
        kw['whitelist_paths'] = o['whitelist']
    m = p.parse(o['headers'], includes=o['includes'], castxml_options=dict(include_paths=o['inc'] + [__import__('sysconfig').get_paths()['include']], cflags='-std=c++17'), **kw)
    if o.get('sections'):
        for g in files:
            g.close()
with open(o['out'], 'w') as f:
    m.generate(FileCodeSink(f))
sys.stdout.write(json.dumps([seen, hooked]))
'''


def observe(case, M):
    import traceback
    try:
        K = case.klass(M)
        o = None if case.abstract else K()
    except Exception as e:
        return ['no class: %r' % (e,)]
    out = []
    if case.abstract:
        out.append(err(K))
        body = {'mp': lambda self, x: x * 10}
        K0 = K
        o = type('Impl', (K,), body)()
        class Maker(object):
            pass
    for f in case.feats:
        try:
            r = f['probe'](M, AbstractK(K, body) if case.abstract and f['key'] != 'method_pure' else K, o)
        except Exception as e:
            r = '%s: %s' % (type(e).__name__, e)
        out.append((f['key'], r))
    if case.kind in ('derived', 'second_base'):
        out.append(err(lambda: o.bm(1)))
    if case.kind == 'second_base':
        out.append(err(lambda: o.cm(1)))
    if case.kind == 'derived_virtual':
        out.append(err(lambda: (o.cbv(1), sub(K, bv=lambda self, x: 5, **(body if case.abstract else {}))().cbv(1))))
    if not case.abstract:
        out.append(err(lambda: type(__import__('copy').copy(o)).__name__) if case.copy else err(lambda: type(__import__('copy').copy(o)).__name__))
    return out


def plain(r, M):
    return re.sub(' at 0x[0-9a-f]+', '', repr(r).replace(M.__name__, 'M'))


def AbstractK(K, body):
    return type('Impl', (K,), body)


def module_scenario(name, cases):
    cs = [Case(i, k, f) for i, (k, f) in enumerate(cases)]
    text = [PRE] + [c.cpp() for c in cs] + ['}']

    def hand(m):
        from pybindgen import param
        X, E = base(m)
        if any(f['ann'].get('vector') for c in cs for f in c.feats):
            m.add_container('std::vector< int >', 'int', 'vector')
        if any(f['ann'].get('map') for c in cs for f in c.feats):
            m.add_container('std::map< std::string, int >', ('std::string', 'int'), 'map')
            m.add_container('std::list< n::X >', 'n::X', 'list')
            m.add_container('std::set< unsigned int >', 'unsigned int', 'set')
        for c in cs:
            c.hand(ModProxy(m, m, X, E))

    def check(x, c, ms):
        x.state((c.key,))
        want = plain(observe(c, ms['hand']), ms['hand'])
        x.step(len(want))
        for n in ms:
            if n == 'hand':
                continue
            got = plain(observe(c, ms[n]), ms[n])
            x.check(got == want, '%s: %s, by hand: %s' % (n, got, want))
            kd, kn = c.klass(ms['hand']), c.klass(ms[n])
            x.check(api(kd) == api(kn), '%s API: %r, by hand: %r' % (n, api(kn), api(kd)))

    def explore(M, x):
        ms = load(sc, x)
        for c in cs:
            x.run(c.key, check, x, c, ms)
    sc = Scenario(name, lines('\n'.join(text)), None, explore, build=lambda sc, wd: build_three(sc, wd, 'n', hand), cxxflags=['-std=c++17'])
    sc.noimport = True
    return sc


class Modules(dict):
    pass


def load(sc, x):
    import json
    with open(os.path.join(x.workdir, 'state.json')) as f:
        st = json.load(f)
    x.case('scan')
    x.check(st['scan'] == 0, 'scanning fails: %s' % st['scan_err'][-600:])
    x.check(not st.get('warned'), 'warnings about annotations: %r' % (st.get('warned'),))
    x.check(st.get('script', 0) == 0, 'the script fails: %s' % st.get('script_err', '')[-600:])
    if x.workdir not in sys.path:
        sys.path.insert(0, x.workdir)
    ms = Modules()
    ms.state = st
    ms['hand'] = importlib.import_module(sc.modname + '_hand')
    for n in ('scan', 'script'):
        if os.path.exists(os.path.join(x.workdir, '%s_%s.cc' % (sc.modname, n))):
            ms[n] = importlib.import_module('%s_%s' % (sc.modname, n))
    return ms


# ---- declarations of a namespace: cpp and hand get $N, the namespace they are in (n or n::s<i>), and $i, a number
def item(key, cpp, hand, probe):
    return dict(key=key, cpp=cpp, hand=hand, probe=probe)


def pol(c, name):
    import pybindgen.cppclass as cc
    return cc


ITEMS = [
    item('fun', 'inline int f$i(int x) { return x + 1; }', lambda m, N, i, r: m.add_function('f' + i, 'int', [P('int', 'x')]),
         lambda m, g, i: [g('f')(1), err(g('f')), err(g('f'), 'x')]),
    item('fun_overloads', 'inline int fo$i(int x) { return x + 1; } inline int fo$i(std::string x) { return x.size(); } inline int fo$i(int x, int y) { return x * y; }',
         lambda m, N, i, r: (m.add_function('fo' + i, 'int', [P('int', 'x')]), m.add_function('fo' + i, 'int', [P('int', 'x'), P('int', 'y')]), m.add_function('fo' + i, 'int', [P('std::string', 'x')])),
         lambda m, g, i: [g('fo')(1), g('fo')('abc'), g('fo')(3, 4), err(g('fo'), 1.5)[:2]]),
    item('fun_defaults', 'enum FE$i { FA$i, FB$i = 7 }; inline std::string fd$i(int x = 4, std::string s = "a,b", FE$i e = FB$i, X z = X(9), bool b = false) { return std::to_string(x) + s + std::to_string(int(e)) + std::to_string(z.x) + std::to_string(b); }',
         lambda m, N, i, r: (m.add_enum('FE' + i, ['FA' + i, 'FB' + i]),
                             m.add_function('fd' + i, 'std::string', [P('int', 'x', default_value='4'), P('std::string', 's', default_value='"a,b"'), P('%s::FE%s' % (N, i), 'e', default_value='%s::FB%s' % (N, i)),
                                                                      P('n::X', 'z', default_value='n::X(9)'), P('bool', 'b', default_value='false')])),
         lambda m, g, i: [g('fd')(), g('fd')(1), g('fd')(1, 'z', g('FA')), g('fd')(z=m.X(2), b=True), g('FB')]),
    item('fun_name', '// -#- name=fnew$i -#-\ninline int fold$i(int x) { return x + 2; }', lambda m, N, i, r: m.add_function('fold' + i, 'int', [P('int', 'x')], custom_name='fnew' + i),
         lambda m, g, i: [g('fnew')(1), g('fold')]),
    item('fun_ignore', '// -#- ignore -#-\ninline int fi$i(int x) { return x + 2; }\n// -#- ignore -#-\nstruct CI$i { int q; };\n// -#- ignore -#-\nenum EI$i { EIV$i };', lambda m, N, i, r: None,
         lambda m, g, i: [g('fi'), g('CI'), g('EIV')]),
    item('fun_throw', '// -#- throw=$QErr -#-\ninline int ft$i(int x) { if (x) throw Err(); return 3; }', lambda m, N, i, r: m.add_function('ft' + i, 'int', [P('int', 'x')], throw=[r.err]),
         lambda m, g, i: [g('ft')(0), err(g('ft'), 1)]),
    item('fun_unblock', '// -#- unblock_threads=true -#-\ninline int fu$i(int x) { return x + PyGILState_Check(); }\n// -#- unblock_threads=false -#-\ninline int fw$i(int x) { return x + PyGILState_Check(); }',
         lambda m, N, i, r: (m.add_function('fu' + i, 'int', [P('int', 'x')], unblock_threads=True), m.add_function('fw' + i, 'int', [P('int', 'x')], unblock_threads=False)),
         lambda m, g, i: [g('fu')(4), g('fw')(4)]),
    item('fun_deprecated', '__attribute__((deprecated)) inline int fdep$i(int x) { return x + 5; }', lambda m, N, i, r: m.add_function('fdep' + i, 'int', [P('int', 'x')], deprecated=True),
         lambda m, g, i: [warned(g('fdep'), 1)]),
    item('fun_template', 'template <class T> T fm$i(T x) { return x + 6; }\n// -#- template_instance_names=int=>fmi$i|double=>fmd$i -#-\ntemplate <class T> T fn$i(T x) { return x + T(1.5); }\ntemplate int fm$i<int>(int); template int fn$i<int>(int); template double fn$i<double>(double);',
         lambda m, N, i, r: (m.add_function('fm' + i, 'int', [P('int', 'x')], template_parameters=['int']), m.add_function('fn' + i, 'double', [P('double', 'x')], template_parameters=['double'], custom_name='fmd' + i),
                             m.add_function('fn' + i, 'int', [P('int', 'x')], template_parameters=['int'], custom_name='fmi' + i)),
         lambda m, g, i: [g('fm') and err(g('fm'), 2), g('fmi') and err(g('fmi'), 2), g('fmd') and err(g('fmd'), 2.)]),
    item('fun_params', '// -#- @x(direction=out); @y(direction=inout); @return(caller_owns_return=true) -#-\ninline X *fp$i(int *x, int &y, int z) { *x = z + 1; y += z; return new X(y); }\n'
         '// -#- @a(transfer_ownership=true); @b(transfer_ownership=false, null_ok=true) -#-\ninline int fq$i(X *a, X *b) { int r = a->x * 100 + (b ? b->x : -1); delete a; return r; }',
         lambda m, N, i, r: (m.add_function('fp' + i, R('n::X *', caller_owns_return=True), [P('int *', 'x', direction=2), P('int &', 'y', direction=3), P('int', 'z')]),
                             m.add_function('fq' + i, 'int', [P('n::X *', 'a', transfer_ownership=True), P('n::X *', 'b', transfer_ownership=False, null_ok=True)])),
         lambda m, g, i: [(lambda t: (t[0].x, t[1:]))(g('fp')(10, 4)), g('fq')(m.X(3), m.X(4)), g('fq')(m.X(3), None)]),
    item('as_method', 'struct AM$i { int v = 8; };\n// -#- as_method=added; of_class=$R::AM$i -#-\ninline int am$i(AM$i *self, int x) { return self->v + x; }\n// -#- as_method=added2; of_class=$R::AM$i -#-\ninline int am2$i(AM$i const &self) { return self.v; }',
         lambda m, N, i, r: (lambda c: (c.add_constructor([]), c.add_copy_constructor(), c.add_instance_attribute('v', 'int'), c.add_function_as_method('am' + i, 'int', [P('%s::AM%s *' % (N, i), 'self', transfer_ownership=False), P('int', 'x')], custom_name='added'),
                                        c.add_function_as_method('am2' + i, 'int', [P('%s::AM%s const &' % (N, i), 'self')], custom_name='added2')))(m.add_class('AM' + i)),
         lambda m, g, i: [g('AM')().added(2), g('AM')().added2(), g('am')]),
    item('constructor_of', 'struct CO$i { int v = 9; CO$i(int a, int b, int c) : v(a + b + c) {} };\n// -#- is_constructor_of=$R::CO$i -#-\ninline CO$i *mkco$i(int x) { return new CO$i(x, 1, 1); }',
         lambda m, N, i, r: (lambda c: (c.add_constructor([P('int', 'a'), P('int', 'b'), P('int', 'c')]), c.add_copy_constructor(), c.add_instance_attribute('v', 'int'),
                                        c.add_function_as_constructor('%s::mkco%s' % (N, i), R('%s::CO%s *' % (N, i), caller_owns_return=True), [P('int', 'x')])))(m.add_class('CO' + i)),
         lambda m, g, i: [g('CO')(5).v, g('CO')(1, 2, 3).v, g('mkco')]),
    item('enum', 'enum E$i { EA$i, EB$i = 5 }; inline E$i fe$i(E$i e) { return e == EA$i ? EB$i : EA$i; }', lambda m, N, i, r: (m.add_enum('E' + i, ['EA' + i, 'EB' + i]), m.add_function('fe' + i, '%s::E%s' % (N, i), [P('%s::E%s' % (N, i), 'e')])),
         lambda m, g, i: [g('EA'), g('EB'), g('fe')(0), g('fe')(5)]),
    item('enum_anonymous', 'enum { EN$i = 12, EM$i };', lambda m, N, i, r: m.add_enum('', ['EN' + i, 'EM' + i]), lambda m, g, i: [g('EN'), g('EM')]),
    item('typedef', 'typedef int ti$i; typedef ti$i tj$i; inline tj$i fti$i(ti$i x) { return x + 1; } typedef X tx$i; inline int ftx$i(tx$i const &x) { return x.x; } inline tx$i fty$i() { return X(11); }',
         lambda m, N, i, r: (m.add_typedef(r.X, 'tx' + i), m.add_function('fti' + i, 'int', [P('int', 'x')]), m.add_function('ftx' + i, 'int', [P('n::X const &', 'x')]), m.add_function('fty' + i, 'n::X', [])),
         lambda m, g, i: [g('fti')(1), g('ftx')(m.X(4)), g('fty')().x, type(g('fty')()) is m.X, g('tx') is m.X]),
    item('opaque', 'struct _Op$i; typedef struct _Op$i Op$i; struct _Op$i { int q; }; ', lambda m, N, i, r: (lambda c: (c.add_constructor([]), c.add_copy_constructor(), c.add_instance_attribute('q', 'int'), m.add_typedef(c, 'Op' + i)))(m.add_class('_Op' + i)),
         lambda m, g, i: [g('_Op') is g('Op')]),
    item('exception', '// -#- exception -#-\nstruct Ex$i { int q; };\n// -#- exception -#-\nstruct Ey$i : public Ex$i { };\n// -#- throw=$R::Ey$i,$R::Ex$i -#-\ninline int fx$i(int x) { if (x == 1) throw Ex$i(); if (x == 2) throw Ey$i(); return x; }',
         lambda m, N, i, r: (lambda a: (lambda b: m.add_function('fx' + i, 'int', [P('int', 'x')], throw=[b, a]))(m.add_exception('Ey' + i, parent=a)))(m.add_exception('Ex' + i)),
         lambda m, g, i: [g('fx')(0), err(g('fx'), 1), err(g('fx'), 2), issubclass(g('Ey'), g('Ex'))]),
    item('containers', 'inline std::vector<X> fv$i(std::vector<X> const &v) { std::vector<X> r(v); r.push_back(X(40)); return r; } inline std::map<int, X> fmp$i(std::map<int, X> m) { m[3] = X(41); return m; } inline std::list<std::string> fl$i(std::list<std::string> l) { l.push_back("z"); return l; }',
         lambda m, N, i, r: (r.cont(m), m.add_function('fv' + i, 'std::vector< n::X >', [P('std::vector< n::X > const &', 'v')]), m.add_function('fmp' + i, 'std::map< int, n::X >', [P('std::map< int, n::X >', 'm')]),
                             m.add_function('fl' + i, 'std::list< std::string >', [P('std::list< std::string >', 'l')])),
         lambda m, g, i: [[e.x for e in g('fv')([m.X(1)])], [(k, v.x) for k, v in g('fmp')([(1, m.X(2))])], list(g('fl')(['a', 'b']))]),
    item('template_class', 'template <class T> struct TC$i { T v; TC$i() : v(50) {} T get(T d) const { return v + d; } }; typedef TC$i<int> TI$i; template struct TC$i<int>; inline int ftc$i(TI$i const &t) { return t.get(1); }',
         lambda m, N, i, r: (lambda c: (c.add_constructor([]), c.add_copy_constructor(), c.add_instance_attribute('v', 'int'), c.add_method('get', 'int', [P('int', 'd')], is_const=True), m.add_function('ftc' + i, 'int', [P('%s::TI%s const &' % (N, i), 't')])))(m.add_class('TI' + i)),
         lambda m, g, i: [g('TI')().get(2), g('ftc')(g('TI')())]),
    item('template_named', '// -#- template_instance_names=int=>TNi$i|double=>TNd$i -#-\ntemplate <class T> struct TN$i { T v; TN$i() : v(51) {} T get() const { return v; } }; inline int ftn$i(TN$i<int> t) { return t.v; } inline int fto$i(TN$i<double> t) { return t.v; }',
         lambda m, N, i, r: [(lambda c: (c.add_constructor([]), c.add_copy_constructor(), c.add_instance_attribute('v', t), c.add_method('get', t, [], is_const=True)))(m.add_class('TN' + i, template_parameters=[t], custom_name='TN%s%s' % (t[0], i))) for t in ('int', 'double')]
         + [m.add_function('ft%s%s' % (k, i), 'int', [P('%s::TN%s< %s >' % (N, i, t), 't')]) for k, t in (('n', 'int'), ('o', 'double'))],
         lambda m, g, i: [g('TNi')().get(), g('TNd')().get(), g('ftn')(g('TNi')())]),
    item('refcount', '// -#- incref_method=Ref; decref_method=Unref; peekref_method=Count -#-\nstruct RC$i { int c = 1; int v = 60; void Ref() { ++c; } void Unref() { if (!--c) delete this; } int Count() { return c; } };\n'
         '// -#- @return(caller_owns_return=true) -#-\ninline RC$i *frc$i() { return new RC$i(); }\n// -#- @p(transfer_ownership=false) -#-\ninline int frd$i(RC$i *p) { return p->v * 10 + p->c; }',
         lambda m, N, i, r: (lambda c: (c.add_constructor([]), c.add_copy_constructor(), c.add_instance_attribute('c', 'int'), c.add_instance_attribute('v', 'int'), m.add_function('frc' + i, R('%s::RC%s *' % (N, i), caller_owns_return=True), []),
                                        m.add_function('frd' + i, 'int', [P('%s::RC%s *' % (N, i), 'p', transfer_ownership=False)])))(m.add_class('RC' + i, memory_policy=r.cc.ReferenceCountingMethodsPolicy(incref_method='Ref', decref_method='Unref', peekref_method='Count'))),
         lambda m, g, i: [g('frd')(g('frc')()), g('frd')(g('RC')()), hasattr(g('RC'), 'Ref'), hasattr(g('RC'), 'Count')]),
    item('free_function', 'struct FF$i; inline void ff_free$i(FF$i *);\n// -#- free_function=$R::ff_free$i -#-\nstruct FF$i { int v = 61; FF$i() {} private: ~FF$i() {} friend void ff_free$i(FF$i *); FF$i(FF$i const &); };\n// -#- ignore -#-\ninline int *ffc$i() { static int n = 0; return &n; }\n// -#- ignore -#-\ninline void ff_free$i(FF$i *p) { ++*ffc$i(); delete p; }\ninline int ffn$i() { return *ffc$i(); }',
         lambda m, N, i, r: (lambda c: (c.add_constructor([]), c.add_instance_attribute('v', 'int'), m.add_function('ffn' + i, 'int', [])))(m.add_class('FF' + i, destructor_visibility='private', memory_policy=r.cc.FreeFunctionPolicy('%s::ff_free%s' % (N, i)))),
         lambda m, g, i: [g('FF')().v, g('ffn')() > 0]),
    item('refcount_functions', 'struct RF$i; inline void rf_ref$i(RF$i *); inline void rf_unref$i(RF$i *);\n// -#- incref_function=$R::rf_ref$i; decref_function=$R::rf_unref$i -#-\nstruct RF$i { int c = 1; int v = 62; };\n// -#- ignore -#-\ninline void rf_ref$i(RF$i *p) { ++p->c; }\n'
         '// -#- ignore -#-\ninline void rf_unref$i(RF$i *p) { if (!--p->c) delete p; }\n// -#- @p(transfer_ownership=false) -#-\ninline int rfc$i(RF$i *p) { return p->c; }',
         lambda m, N, i, r: (lambda c: (c.add_constructor([]), c.add_copy_constructor(), c.add_instance_attribute('c', 'int'), c.add_instance_attribute('v', 'int'), m.add_function('rfc' + i, 'int', [P('%s::RF%s *' % (N, i), 'p', transfer_ownership=False)])))(
             m.add_class('RF' + i, memory_policy=r.cc.ReferenceCountingFunctionsPolicy(incref_function='%s::rf_ref%s' % (N, i), decref_function='%s::rf_unref%s' % (N, i)))),
         lambda m, g, i: [g('RF')().v, g('rfc')(g('RF')())]),
    item('singleton', '// -#- is_singleton=true -#-\nclass SG$i { public: int v = 63; // -#- @return(reference_existing_object=true) -#-\n// -#- @return(reference_existing_object=true) -#-\nstatic SG$i *get() { static SG$i *s = new SG$i(); return s; } private: SG$i() {} ~SG$i() {} SG$i(SG$i const &); };',
         lambda m, N, i, r: (lambda c: (c.add_instance_attribute('v', 'int'), c.add_method('get', R('%s::SG%s *' % (N, i), reference_existing_object=True), [], is_static=True)))(m.add_class('SG' + i, is_singleton=True, destructor_visibility='private')),
         lambda m, g, i: [g('SG').get().v, err(g('SG')), setget(g('SG').get(), 'v', 64), g('SG').get().v, setget(g('SG').get(), 'v', 63)]),
    item('narrowing', 'struct NA$i { virtual ~NA$i() {} int v = 65; virtual int who() { return 1; } }; struct NB$i : public NA$i { int who() override { return 2; } int only() { return 66; } };\n// -#- automatic_type_narrowing=true -#-\nstruct NC$i { virtual ~NC$i() {} }; struct ND$i : public NC$i { int only() { return 67; } };\n'
         '// -#- @return(caller_owns_return=true) -#-\ninline NA$i *fna$i() { return new NB$i(); }\n// -#- @return(caller_owns_return=true) -#-\ninline NC$i *fnc$i() { return new ND$i(); }',
         lambda m, N, i, r: narrowing(m, N, i, r),
         lambda m, g, i: [type(g('fna')()).__name__.replace(i, ''), g('fna')().who(), type(g('fnc')()).__name__.replace(i, ''), err(lambda: g('fnc')().only())]),
    item('deep', 'namespace d$i { struct D { int v = 68; enum DE { DV = 3 }; }; inline int df(D const &d) { return d.v; } namespace e { inline int ef(d$i::D d) { return d.v + 1; } struct D { int w = 69; }; inline int eg(D d) { return d.w; } } }',
         lambda m, N, i, r: deep(m, N, i, r),
         lambda m, g, i: [g('d').df(g('d').D()), g('d').e.ef(g('d').D()), g('d').e.eg(g('d').e.D()), g('d').D.DV, err(g('d').e.eg, g('d').D())]),
    item('ostream', 'struct OS$i { int v = 70; }; inline std::ostream &operator<<(std::ostream &o, OS$i const &s) { return o << "os" << s.v; }',
         lambda m, N, i, r: (lambda c: (c.add_constructor([]), c.add_copy_constructor(), c.add_instance_attribute('v', 'int'), c.add_output_stream_operator()))(m.add_class('OS' + i)),
         lambda m, g, i: [str(g('OS')())]),
    item('free_operators', 'struct FO$i { int v = 71; }; inline bool operator==(FO$i const &a, FO$i const &b) { return a.v == b.v; } inline FO$i operator+(FO$i const &a, FO$i const &b) { FO$i r; r.v = a.v + b.v; return r; } inline FO$i operator-(FO$i const &a) { FO$i r; r.v = -a.v; return r; }',
         lambda m, N, i, r: (lambda c: (c.add_constructor([]), c.add_copy_constructor(), c.add_instance_attribute('v', 'int'), c.add_binary_comparison_operator('=='),
                                        c.add_binary_numeric_operator('+', c, c, P('%s::FO%s const &' % (N, i), 'right')), c.add_unary_numeric_operator('-')))(m.add_class('FO' + i)),
         lambda m, g, i: [g('FO')() == g('FO')(), (g('FO')() + g('FO')()).v, (-g('FO')()).v]),
    item('forward', 'struct FW$i; inline int fw1$i(FW$i const &f); struct FX$i { FW$i *p = 0; int q = 72; }; struct FW$i : public FX$i { int z = 73; }; inline int fw1$i(FW$i const &f) { return f.z + f.q; }',
         lambda m, N, i, r: (lambda a: (lambda b: (a.add_constructor([]), a.add_copy_constructor(), a.add_instance_attribute('p', '%s::FW%s *' % (N, i)), a.add_instance_attribute('q', 'int'),
                                                   b.add_constructor([]), b.add_copy_constructor(), b.add_instance_attribute('z', 'int'), m.add_function('fw1' + i, 'int', [P('%s::FW%s const &' % (N, i), 'f')])))(m.add_class('FW' + i, parent=a)))(m.add_class('FX' + i)),
         lambda m, g, i: [g('fw1')(g('FW')()), g('FW')().q]),
    item('static_inline', 'static inline int si$i(int x) { return x + 7; } int external$i(int x); inline int external$i(int x) { return x + 8; } inline int noname$i(int, int b) { return b; } inline void fvoid$i(void) {}',
         lambda m, N, i, r: (m.add_function('external' + i, 'int', [P('int', 'x')]), m.add_function('fvoid' + i, 'void', []), m.add_function('noname' + i, 'int', [P('int', 'arg0'), P('int', 'b')]), m.add_function('si' + i, 'int', [P('int', 'x')])),
         lambda m, g, i: [g('si')(1), g('external')(1), g('noname')(1, 2), g('fvoid')()]),
    item('comments', '/* -#- name=cm1$i -#- */\ninline int ca$i(int x) { return x; }\n//  -#-name=cm2$i;pygen_comment=abc -#-\ninline int cb$i(int x) { return x; }\n// -#- name=cm3$i -#-\n// -#- unblock_threads=true -#-\ninline int cc$i(int x) { return x + PyGILState_Check(); }\n  // -#- @x(default_value=5);name=cm4$i -#-\n  inline int cd$i(int x) { return x; }\n// -#- name=cm5$i -#-\n\ninline int ce$i(int x) { return x; }',
         lambda m, N, i, r: (m.add_function('ca' + i, 'int', [P('int', 'x')], custom_name='cm1' + i), m.add_function('cb' + i, 'int', [P('int', 'x')], custom_name='cm2' + i),
                             m.add_function('cc' + i, 'int', [P('int', 'x')], custom_name='cm3' + i, unblock_threads=True), m.add_function('cd' + i, 'int', [P('int', 'x', default_value='5')], custom_name='cm4' + i),
                             m.add_function('ce' + i, 'int', [P('int', 'x')])),
         lambda m, g, i: [g('cm1')(1), g('cm2')(1), g('cm3')(1), g('cm4')(), g('ce')(1), g('cm5'), g('ca')]),
    item('relative_names', 'struct RN$i { int v = 8; RN$i(int a, int b, int c) : v(a + b + c) {} };\n// -#- as_method=added; of_class=$LRN$i -#-\ninline int rn$i(RN$i *self, int x) { return self->v + x; }\n// -#- is_constructor_of=$LRN$i -#-\ninline RN$i *mkrn$i(int x) { return new RN$i(x, 1, 1); }',
         lambda m, N, i, r: (lambda c: (c.add_constructor([P('int', 'a'), P('int', 'b'), P('int', 'c')]), c.add_copy_constructor(), c.add_instance_attribute('v', 'int'), c.add_function_as_method('rn' + i, 'int', [P('%s::RN%s *' % (N, i), 'self', transfer_ownership=False), P('int', 'x')], custom_name='added'),
                                        c.add_function_as_constructor('%s::mkrn%s' % (N, i), R('%s::RN%s *' % (N, i), caller_owns_return=True), [P('int', 'x')])))(m.add_class('RN' + i)),
         lambda m, g, i: [g('RN')(5).added(2), g('RN')(1, 2, 3).added(1), g('rn'), g('mkrn')]),
    item('pure_unwrappable', 'struct Odd$i; struct PU$i { virtual ~PU$i() {} virtual int good(int x) { return x; } virtual int odd(Odd$i ***x) = 0; static int st(int x) { return x + 1; } }; struct PV$i : public PU$i { int odd(Odd$i ***x) override { return 0; } int pv() { return 75; } };',
         lambda m, N, i, r: unwrappable(m, N, i, r),
         lambda m, g, i: [err(g('PU')), g('PU').st(1), subclassed(g('PU')), g('PV')().pv(), g('PV')().good(4), hasattr(g('PU'), 'odd')]),
    item('pure_inherited', 'struct PA$i { virtual ~PA$i() {} virtual int p() const = 0; virtual int q(int x) = 0; int call() { return q(p()); } }; struct PB$i : public PA$i { int p() const override { return 3; } }; struct PC$i : public PB$i { int q(int x) override { return x * 10; }\n// -#- @o(transfer_ownership=false) -#-\nint call2(PA$i *o) { return o->call() + 1; } };',
         lambda m, N, i, r: pure_inherited(m, N, i, r),
         lambda m, g, i: [err(g('PA')), err(g('PB')), g('PC')().call(), type('S', (g('PA'),), {'p': lambda self: 4, 'q': lambda self, x: x + 1})().call(), type('S', (g('PB'),), {'q': lambda self, x: x + 1})().call(),
                          type('S', (g('PC'),), {'p': lambda self: 7})().call(), g('PC')().call2(type('S', (g('PC'),), {'p': lambda self: 8})())]),
    item('no_subclassing', '// -#- allow_subclassing=false -#-\nstruct NS$i { virtual ~NS$i() {} virtual int v(int x) { return x + 1; } };\n// -#- allow_subclassing=false -#-\nstruct NP$i { virtual ~NP$i() {} virtual int v(int x) = 0; int w(int x) { return v(x); } }; struct NQ$i : public NP$i { int v(int x) override { return x + 2; } };',
         lambda m, N, i, r: no_subclassing(m, N, i, r),
         lambda m, g, i: [g('NS')().v(1), subclassed(g('NS')), err(g('NP')), g('NQ')().v(1), g('NQ')().w(1), subclassed(g('NQ'))]),
    item('bases', 'struct BA$i { int a = 1; int fa(int x) { return x + a; } }; struct BB$i { int b = 2; virtual ~BB$i() {} virtual int fb(int x) { return x + b; } }; struct BC$i : public BA$i { int c = 3; }; struct BD$i : public BC$i, private BB$i { int d = 4; };',
         lambda m, N, i, r: None,
         lambda m, g, i: [g('BC')().fa(1), g('BC')().c, issubclass(g('BC'), g('BA'))]) if 0 else None,
    item('hidden', 'class HI$i { int v; class In { public: int q; }; enum HE { HV$i }; typedef int ht; protected: class Ip { }; public: HI$i() : v(1) {} int get() const { return v; } class Out { public: int o; Out() : o(76) {} }; }; class HJ$i : public HI$i { int w; public: HJ$i(int x) : w(x) {} int both() { return w + get(); } };',
         lambda m, N, i, r: hidden(m, N, i, r),
         lambda m, g, i: [g('HI')().get(), hasattr(g('HI'), 'In'), hasattr(g('HI'), 'Ip'), hasattr(g('HI'), 'HV' + i), g('HI').Out().o, g('HJ')(5).both(), g('HJ')(5).get(), hasattr(g('HJ'), 'Out')]),
    item('nested_conversion', 'struct NO$i { int z = 1; struct Src { operator X() const { return X(77); } operator Dst$i() const; bool operator==(Src const &) const { return true; } }; };',
         lambda m, N, i, r: None, None) if 0 else None,
    item('nested_operators', 'struct NR$i { struct In { int v = 78; In operator+(In const &o) const { In r; r.v = v + o.v; return r; } In operator-() const { return *this; } bool operator<(In const &o) const { return v < o.v; } operator X() const { return X(79); } In &operator+=(int k) { v += k; return *this; } int operator()(int x) { return x; } }; int z = 1; };',
         lambda m, N, i, r: nested_operators(m, N, i, r),
         lambda m, g, i: [(g('NR').In() + g('NR').In()).v, (-g('NR').In()).v, g('NR').In() < g('NR').In(), m.takex(g('NR').In()), g('NR').In()(3), err(lambda: g('NR')() + g('NR')()), err(lambda: -g('NR')()), err(m.takex, g('NR')()),
                          err(lambda: g('NR')()(3)), err(lambda: inplace(g('NR')(), 3)), err(lambda: g('NR')() < g('NR')())]),
]
ITEMS = [f for f in ITEMS if f]
IK = {f['key']: f for f in ITEMS}


def subclassed(K):
    "whether Python may derive from the class"
    try:
        type('S', (K,), {})
    except TypeError:
        return False
    return True


def basics(m, *cs):
    for c in cs:
        c.add_constructor([])
        c.add_copy_constructor()


def unwrappable(m, N, i, r):
    a = m.add_class('PU' + i, allow_subclassing=True)
    b = m.add_class('PV' + i, parent=a)
    a.add_constructor([])
    a.set_cannot_be_constructed('pure virtual method not wrapped')
    a.set_helper_class_disabled(True)
    a.add_method('good', 'int', [P('int', 'x')], is_virtual=True)
    a.add_method('st', 'int', [P('int', 'x')], is_static=True)
    basics(m, b)
    b.add_method('pv', 'int', [])


def pure_inherited(m, N, i, r):
    a = m.add_class('PA' + i, allow_subclassing=True)
    b = m.add_class('PB' + i, parent=a)
    c = m.add_class('PC' + i, parent=b)
    a.add_constructor([])
    b.add_constructor([])
    basics(m, c)
    a.add_method('p', 'int', [], is_const=True, is_virtual=True, is_pure_virtual=True)
    a.add_method('q', 'int', [P('int', 'x')], is_virtual=True, is_pure_virtual=True)
    a.add_method('call', 'int', [])
    b.add_method('p', 'int', [], is_const=True, is_virtual=True)
    c.add_method('q', 'int', [P('int', 'x')], is_virtual=True)
    c.add_method('call2', 'int', [P('%s::PA%s *' % (N, i), 'o', transfer_ownership=False)])


def no_subclassing(m, N, i, r):
    a = m.add_class('NS' + i, allow_subclassing=False)
    b = m.add_class('NP' + i, allow_subclassing=False)
    c = m.add_class('NQ' + i, parent=b)
    basics(m, a, c)
    a.add_method('v', 'int', [P('int', 'x')], is_virtual=True)
    b.set_cannot_be_constructed('abstract')
    b.add_method('v', 'int', [P('int', 'x')], is_virtual=True, is_pure_virtual=True)
    b.add_method('w', 'int', [P('int', 'x')])
    c.add_method('v', 'int', [P('int', 'x')], is_virtual=True)


def hidden(m, N, i, r):
    a = m.add_class('HI' + i)
    b = m.add_class('HJ' + i, parent=a)
    o = m.add_class('Out', outer_class=a)
    basics(m, a, o)
    a.add_method('get', 'int', [], is_const=True)
    o.add_instance_attribute('o', 'int')
    b.add_constructor([P('int', 'x')])
    b.add_copy_constructor()
    b.add_method('both', 'int', [])


def nested_operators(m, N, i, r):
    a = m.add_class('NR' + i)
    b = m.add_class('In', outer_class=a)
    F = '%s::NR%s::In' % (N, i)
    basics(m, a, b)
    a.add_instance_attribute('z', 'int')
    b.add_instance_attribute('v', 'int')
    b.add_binary_numeric_operator('+', b, b, P(F + ' const &', 'right'))
    b.add_unary_numeric_operator('-')
    b.add_binary_comparison_operator('<')
    b.add_inplace_numeric_operator('+=', P('int', 'right'))
    b.add_method('operator()', 'int', [P('int', 'x')], custom_name='__call__')
    b.implicitly_converts_to(r.X)


def narrowing(m, N, i, r):
    a = m.add_class('NA' + i, allow_subclassing=True)
    b = m.add_class('NB' + i, parent=a)
    c = m.add_class('NC' + i, automatic_type_narrowing=True)
    d = m.add_class('ND' + i, parent=c)
    for k in (a, b, c, d):
        k.add_constructor([])
        k.add_copy_constructor()
    a.add_instance_attribute('v', 'int')
    a.add_method('who', 'int', [], is_virtual=True)
    b.add_method('who', 'int', [], is_virtual=True)
    b.add_method('only', 'int', [])
    d.add_method('only', 'int', [])
    m.add_function('fna' + i, R('%s::NA%s *' % (N, i), caller_owns_return=True), [])
    m.add_function('fnc' + i, R('%s::NC%s *' % (N, i), caller_owns_return=True), [])


def deep(m, N, i, r):
    s = m.add_cpp_namespace('d' + i)
    e = s.add_cpp_namespace('e')
    N = '%s::d%s' % (N, i)
    D = s.add_class('D')
    s.add_enum('DE', ['DV'], outer_class=D)
    D.add_constructor([])
    D.add_copy_constructor()
    D.add_instance_attribute('v', 'int')
    s.add_function('df', 'int', [P(N + '::D const &', 'd')])
    D = e.add_class('D')
    D.add_constructor([])
    D.add_copy_constructor()
    D.add_instance_attribute('w', 'int')
    e.add_function('ef', 'int', [P(N + '::D', 'd')])
    e.add_function('eg', 'int', [P(N + '::e::D', 'd')])


def items_scenario(name, place, keys, root='n', sections=None, hooks=False):
    """place: top (namespace of the module) or sub (a nested namespace)"""
    text = [PRE]
    for i, k in enumerate(keys):
        cpp = IK[k]['cpp'].replace('$i', str(i)).replace('$N', 'n' if place == 'top' else 'n::s%d' % i)
        full, local = {'top': ('n', ''), 'sub': ('n::s%d' % i, 's%d::' % i)}[place]
        cpp = cpp.replace('$R', full).replace('$Q', '' if root == 'n' else 'n::').replace('$L', local if root == 'n' else full + '::')
        text.append(cpp if place == 'top' else 'namespace s%d {\n%s\n}' % (i, cpp))
    text.append('}')

    def hand(m):
        import pybindgen.cppclass as cc
        if root == '::':
            m = m.add_cpp_namespace('n')
        r = base(m)

        class Root(object):
            pass
        o = Root()
        o.X, o.err = r
        o.cc = cc
        def cont(m):
            m.add_container('std::vector< n::X >', 'n::X', 'vector')
            m.add_container('std::map< int, n::X >', ('int', 'n::X'), 'map')
            m.add_container('std::list< std::string >', 'std::string', 'list')
        o.cont = cont
        for i, k in enumerate(keys):
            IK[k]['hand'](m if place == 'top' else m.add_cpp_namespace('s%d' % i), 'n' if place == 'top' else 'n::s%d' % i, str(i), o)

    def see(M, i, k):
        if root == '::':
            M = M.n
        ns = M if place == 'top' else getattr(M, 's%d' % i)

        def g(name):
            return getattr(ns, name + str(i), None)
        try:
            return IK[k]['probe'](M, g, str(i))
        except Exception as e:
            return '%s: %s' % (type(e).__name__, e)

    def check(x, i, k, ms):
        x.state((k, place))
        want = see(ms['hand'], i, k)
        for n in ms:
            if n != 'hand':
                got = see(ms[n], i, k)
                x.step(len(got))
                x.check(plain(got, ms[n]) == plain(want, ms['hand']), '%s: %s, by hand: %s' % (n, plain(got, ms[n]), plain(want, ms['hand'])))

    def whole(x, ms):
        a = api(ms['hand'])
        for n in ms:
            if n != 'hand':
                b = api(ms[n])
                x.step(len(b))
                x.check(a == b, '%s: only there %r, only by hand %r' % (n, [e for e in b if e not in a], [e for e in a if e not in b]))

    def hooked(x, ms):
        got = ms.state['hooked']
        for want in wrappers:
            x.check(got.count(want) == 1, 'the post scan hook is called for %s %d times' % (want, got.count(want)))
        x.step(len(wrappers))
        x.check(not any('ignored' in g for g in got), 'the post scan hook is called for what is ignored')

    wrappers = ['CppClass X', 'CppClass Y', 'CppException Err', 'Function takex']
    for i, k in enumerate(keys):
        wrappers += {'fun': ['Function f%d'], 'fun_name': ['Function fold%d'], 'refcount': ['CppClass RC%d'], 'exception': ['CppException Ex%d', 'CppException Ey%d']}.get(k, [])
        wrappers = [w % i if '%' in w else w for w in wrappers]
    header = lines('\n'.join(text))

    def build(sc, wd):
        opts = {}
        if sections:
            opts['sections'] = sections
        if hooks:
            opts['annotated'] = os.path.join(wd, 'annotated.h')
            with open(os.path.join(wd, sc.modname + '.h')) as f:
                h = f.read()
            with open(opts['annotated'], 'w') as f:
                f.write(h)
            with open(os.path.join(wd, sc.modname + '.h'), 'w') as f:
                f.write(re.sub(r'//.*-#-.*|/\*.*-#-.*\*/', '', h))
        return build_three(sc, wd, root, hand, **opts)

    def explore(M, x):
        ms = load(sc, x)
        if sections:
            x.run('local', lambda: x.eq(ms.state.get('calls'), 'types methods functions ', 'customizations of a section'))
        if hooks:
            x.run('hooks', hooked, x, ms)
        for i, k in enumerate(keys):
            x.run('%s%s/%s' % ('' if root == 'n' else 'root/', place, k), check, x, i, k, ms)
        x.run('api', whole, x, ms)
    sc = Scenario(name, header, None, explore, build=build, cxxflags=['-std=c++17', '-Wno-deprecated-declarations'])
    sc.noimport = True
    return sc


# ---- relations among classes: the order of names is not the order of dependence
def relation_cases(thorough):
    out = []
    trees = [((), ()), ((0,), (0,)), ((0,), (1,)), ((0,), ()), ((), (0, 1))]
    for t in [(), (0,)]:
        out.append([(), t])
    for b in trees:
        out.append([()] + list(b))
    four = [[(), (0,), (1,), (2,)], [(), (0,), (0,), (1,)], [(), (0,), (1,), (1,)], [(), (), (0, 1), (2,)]]
    cases = []
    for parents in out + four:
        n = len(parents)
        if n > 3 and not thorough and parents not in four[:2]:
            continue
        for perm in itertools.permutations(range(n)):
            # conversions: every class to at most one class that is not its ancestor
            for conv in [None] + [(a, b) for a in range(n) for b in range(n) if a != b and b not in ancestors(parents, a)]:
                if n > 3 and conv is not None and not (thorough and conv[0] == n - 1 or conv == (0, n - 1)):
                    continue
                cases.append((parents, perm, conv))
    for n in (6, 9, 10, 11, 12, 14):
        chain = [()] + [(i,) for i in range(n - 1)]
        cases.append((chain, tuple(reversed(range(n))), None))
        cases.append((chain, tuple((i * 5) % n for i in range(n)) if n % 5 else tuple(range(n)), None))
        cases.append(([()] * n, tuple(range(n)), [(i, i + 1) for i in range(n - 1)]))
        cases.append(([()] * n, tuple(reversed(range(n))), [(i, i + 1) for i in range(n - 1)]))
    return cases


def ancestors(parents, a):
    r = set()
    for p in parents[a]:
        r |= {p} | ancestors(parents, p)
    return r


def relations_scenario(name, cases):
    LET = 'ABCDEFGHIJKLMNOPQ'
    text = ['namespace n {']
    info = []
    for i, (parents, perm, conv) in enumerate(cases):
        nm = [LET[p] for p in perm]
        conv = conv if isinstance(conv, list) else [conv] if conv else []
        t = ['namespace s%d {' % i, ' '.join('struct %s;' % x for x in nm)]
        for k, ps in enumerate(parents):
            body = ['int f%d() const { return %d; }' % (k, k), '%s() {}' % nm[k]]
            for a, b in conv:
                if a == k:
                    body.append('operator %s() const;' % nm[b])
            t.append('struct %s%s {\n%s\n};' % (nm[k], ' : ' + ', '.join('public ' + nm[p] for p in ps) if ps else '', ' '.join(body)))
        for a, b in conv:
            t.append('inline %s::operator %s() const { return %s(); }' % (nm[a], nm[b], nm[b]))
        for k in range(len(parents)):
            t.append('inline int take%d(%s) { return %d; }' % (k, nm[k] + ' x', k))
        t.append('}')
        text.append('\n'.join(t))
        info.append((parents, nm, conv))
    text.append('}')

    def hand(m):
        for i, (parents, nm, conv) in enumerate(info):
            s = m.add_cpp_namespace('s%d' % i)
            cs = []
            for k, ps in enumerate(parents):
                ps = [cs[p] for p in ps]
                cs.append(s.add_class(nm[k], **({'parent': ps if len(ps) > 1 else ps[0]} if ps else {})))
            for k, c in enumerate(cs):
                c.add_constructor([])
                c.add_copy_constructor()
                c.add_method('f%d' % k, 'int', [], is_const=True)
                s.add_function('take%d' % k, 'int', [P('n::s%d::%s' % (i, nm[k]), 'x')])
            for a, b in conv:
                cs[a].implicitly_converts_to(cs[b])

    def see(M, i):
        parents, nm, conv = info[i]
        ns = getattr(M, 's%d' % i)
        K = [getattr(ns, c, None) for c in nm]
        r = []
        for a in range(len(nm)):
            r.append(nm[a])
            if K[a] is None:
                continue
            o = K[a]()
            r.append([b.__name__ for b in K[a].__mro__])
            for b in range(len(nm)):
                r.append(err(lambda: getattr(o, 'f%d' % b)()))
                r.append(err(lambda: getattr(ns, 'take%d' % b)(o)))
        return r

    def check(x, i, ms):
        parents, nm, conv = info[i]
        x.state((i,))
        want = see(ms['hand'], i)
        # the declarations by hand mean what they say
        for a in range(len(nm)):
            anc = ancestors(parents, a) | {a}
            x.check(set(b for b in range(len(nm)) if hasattr(getattr(getattr(ms['hand'], 's%d' % i), nm[a]), 'f%d' % b)) == anc, 'methods of %s' % nm[a])
        for n in ms:
            if n != 'hand':
                got = see(ms[n], i)
                x.step(len(got))
                x.check(plain(got, ms[n]) == plain(want, ms['hand']), '%s: %s, by hand: %s' % (n, plain(got, ms[n]), plain(want, ms['hand'])))

    def explore(M, x):
        ms = load(sc, x)
        for i, (parents, nm, conv) in enumerate(info):
            x.run('relations/%s %s %s' % (' '.join('%s<%s' % (nm[k], ''.join(nm[p] for p in ps)) for k, ps in enumerate(parents)), 'converts' if conv else '', ' '.join(nm[a] + nm[b] for a, b in conv)), check, x, i, ms)
    sc = Scenario(name, '\n'.join(text), None, explore, build=lambda sc, wd: build_three(sc, wd, 'n', hand), cxxflags=['-std=c++17'])
    sc.noimport = True
    return sc


def base(m):
    for n in 'YX':
        X = m.add_class(n, allow_subclassing=n == 'X')
        X.add_constructor([P('int', 'v', default_value='1')])
        X.add_copy_constructor()
        X.add_instance_attribute('x', 'int')
    E = m.add_exception('Err')
    m.add_function('takex', 'int', [P('n::X', 'x')])
    return X, E


def simple_scenario(name, header, hand, probe, build, more=()):
    def check(x, ms):
        want = probe(ms['hand'])
        x.state(())
        for n in ms:
            if n != 'hand':
                got = probe(ms[n])
                x.step(len(got))
                x.check(plain(got, ms[n]) == plain(want, ms['hand']), '%s: %s, by hand: %s' % (n, plain(got, ms[n]), plain(want, ms['hand'])))
                x.check(api(ms[n]) == api(ms['hand']), '%s: %s, by hand: %s' % (n, api(ms[n]), api(ms['hand'])))

    def explore(M, x):
        sys.path.insert(0, x.workdir)
        for m in more:
            importlib.import_module(m)
        ms = load(sc, x)
        x.run('module', check, x, ms)
    sc = Scenario(name, header, None, explore, build=build, cxxflags=['-std=c++17'])
    sc.noimport = True
    return sc


def files_scenario():
    "only what the given headers and the white-listed directories declare is scanned"
    def decls(s):
        return """
namespace n { struct K%(s)s { int v; K%(s)s() : v(%(n)d) {} int m() { return v + 1; } };
enum E%(s)s { V%(s)s = %(n)d };
inline int f%(s)s(int x) { return x + %(n)d; }
namespace in { inline int g%(s)s(K%(s)s const &k) { return k.v; } } }
""" % {'s': s, 'n': ord(s)}

    def build(sc, wd):
        for d in ('white/deep', 'other'):
            os.makedirs(os.path.join(wd, d), exist_ok=True)
        for path, l in (('other/b.h', 'B'), ('white/deep/c.h', 'C'), ('white/d.h', 'D'), ('e.h', 'E'), ('whiter.h', 'F')):
            with open(os.path.join(wd, path), 'w') as f:
                f.write('#pragma once\n' + decls(l))
        with open(os.path.join(wd, sc.modname + '.h'), 'w') as f:
            f.write('#pragma once\n#include "pbmc.h"\n' + ''.join('#include "%s"\n' % h for h in ('other/b.h', 'white/deep/c.h', 'white/d.h')) + decls('A'))
        with open(os.path.join(wd, 'both.h'), 'w') as f:
            f.write('#include "%s.h"\n#include "e.h"\n' % sc.modname)
        def hand(m):
            for l in 'ACDE':
                k = m.add_class('K' + l)
                k.add_constructor([])
                k.add_copy_constructor()
                k.add_instance_attribute('v', 'int')
                k.add_method('m', 'int', [])
                m.add_enum('E' + l, ['V' + l])
                m.add_function('f' + l, 'int', [P('int', 'x')])
                m.add_cpp_namespace('in').add_function('g' + l, 'int', [P('n::K%s const &' % l, 'k')])
            m.add_include('"both.h"')
        return build_three(sc, wd, 'n', hand, headers=[os.path.join(wd, sc.modname + '.h'), os.path.join(wd, 'e.h')], whitelist=[os.path.join(wd, 'white')], includes=['"both.h"'])

    def probe(M):
        return [(l, hasattr(M, 'K' + l), hasattr(M, 'V' + l), hasattr(M, 'f' + l) and getattr(M, 'f' + l)(1), hasattr(getattr(M, 'in'), 'g' + l) and getattr(getattr(M, 'in'), 'g' + l)(getattr(M, 'K' + l)())) for l in 'ABCDEF']
    return simple_scenario('files', '', None, probe, build)


def imports_scenario():
    "classes and enumerations of another module"
    header = """
namespace n {
// -#- import_from_module=m_imports_prov -#-
struct PK {
int v; PK() : v(3) {}
int m() { return v + 1; } };
// -#- import_from_module=m_imports_prov -#-
enum PE { PV = 7 };
struct L : public PK { int z = 4; };
inline int f(PK const &k) { return k.v; }
inline PK mk() { PK k; k.v = 9; return k; }
inline PE g(PE e) { return e; }
inline int h(PE e = PV) { return e + 1; }
}
"""

    def build(sc, wd):
        from pybindgen import Module, FileCodeSink

        def prov(m):
            k = m.add_class('PK')
            k.add_constructor([])
            k.add_copy_constructor()
            k.add_instance_attribute('v', 'int')
            k.add_method('m', 'int', [])
            m.add_enum('PE', ['PV'])

        def hand(m):
            k = m.add_class('PK', import_from_module='m_imports_prov')
            e = m.add_enum('PE', ['PV'], import_from_module='m_imports_prov')
            l = m.add_class('L', parent=k)
            for c in (k, l):
                c.add_constructor([])
                c.add_copy_constructor()
            k.add_instance_attribute('v', 'int')
            k.add_method('m', 'int', [])
            l.add_instance_attribute('z', 'int')
            m.add_function('f', 'int', [P('n::PK const &', 'k')])
            m.add_function('mk', 'n::PK', [])
            m.add_function('g', 'n::PE', [P('n::PE', 'e')])
            m.add_function('h', 'int', [P('n::PE', 'e', default_value='n::PV')])
        if os.fork() == 0:
            m = Module('m_imports_prov', cpp_namespace='n')
            m.add_include('"%s.h"' % sc.modname)
            prov(m)
            with open(os.path.join(wd, 'm_imports_prov.cc'), 'w') as f:
                m.generate(FileCodeSink(f))
            os._exit(0)
        os.wait()
        return [['m_imports_prov', [os.path.join(wd, 'm_imports_prov.cc')], []]] + build_three(sc, wd, 'n', hand)

    def probe(M):
        p = sys.modules['m_imports_prov']
        return [type(M.mk()) is p.PK, M.mk().v, M.f(p.PK()), M.f(M.L()), M.L().m(), isinstance(M.L(), p.PK), M.g(p.PV), M.h(), M.h(1), hasattr(M, 'PV')]
    return simple_scenario('imports', header, None, probe, build, ['m_imports_prov'])


CENTRAL = ['method_virtual', 'method_pure', 'method_overloads', 'ctor_int', 'nocopy', 'op_numeric', 'nested', 'ann_ignore', 'conversion']


def excluded(k, feats):
    if 'method_pure' in feats and k in ('derived', 'second_base'):
        return True  # a class that Python cannot derive from can only be abstract
    if len(feats) == 2:
        a, b = sorted(feats)
        copies = ('method_self', 'op_mixed', 'op_numeric')
        if (a, b) in (('method_pure', 'nocopy'), ('ctor_protected', 'method_protected_virtual')):
            return True
        if any(f in ('op_mixed', 'op_numeric') for f in feats) and 'attr_const' in feats:
            return True  # results of operators are assigned
        if any(f in copies for f in feats) and any(not FK[f]['copy'] for f in feats):
            return True
    if k == 'subclassing' and ('method_protected' in feats or 'method_protected_static' in feats):
        return True  # protected members of classes that have no virtual method: the generated code does not compile
    return False


def scenarios(tier):
    thorough = tier == 'thorough'
    out = []
    for k in KINDS:
        out.append(module_scenario('kind_' + k, [(k, [f['key']]) for f in FEATURES if not excluded(k, [f['key']])]))
    fk = [f['key'] for f in FEATURES]
    pairs = [('plain', p) for p in itertools.combinations(fk, 2) if (thorough or p[0] in CENTRAL or p[1] in CENTRAL)]
    if thorough:
        pairs += [(k, p) for k in KINDS if k != 'plain' for p in itertools.combinations(fk, 2) if p[0] in CENTRAL and p[1] in CENTRAL]
    pairs = [p for p in pairs if not excluded(*p)]
    for i in range(0, len(pairs), 45):
        out.append(module_scenario('pairs_%d' % (i // 45), pairs[i:i + 45]))
    keys = [f['key'] for f in ITEMS]
    for place in ('top', 'sub'):
        out.append(items_scenario('items_' + place, place, keys))
        out.append(items_scenario('root_' + place, place, keys, '::'))
    for v in ('parity', 'half', 'one', 'main') + (('reverse',) if thorough else ()):
        out.append(items_scenario('sections_' + v, 'top', keys, sections=v))
    out.append(items_scenario('hooks', 'top', keys, hooks=True))
    out.append(files_scenario())
    out.append(imports_scenario())
    rc = relation_cases(thorough)
    size = 70
    for i in range(0, len(rc), size):
        out.append(relations_scenario('relations_%d' % (i // size), rc[i:i + size]))
    return out
