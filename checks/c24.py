"""C24: a definition that cannot be wrapped is reported, skipped, and leaves no trace in the rest of the module."""
import io
import itertools
import json
import os
import sys
from pbmc import Scenario, REPO

LEVEL = 'exploration'
RULE = ('a module using every kind of declaration; every way a definition can be bad (types that are unknown, configurations that are missing or wrong, code that cannot be '
        'generated) at every kind of declaration and every place among its overloads; three error handlers')
BOUNDS = {'quick': 'every (site, kind) described and generated under the three handlers; every site built with each kind of failure at description and at generation',
          'thorough': 'the same with every (site, kind) built on its own, and every pair of sites built together'}
NOTE = 'names used by bad definitions do not exist in C++, so that whatever is left of them does not compile'

HEADER = r'''
#include "pbmc.h"
#include <string>
#include <vector>
#include <stdexcept>
enum E { E0 = 3, E1 = 5 };
struct NC { int n; NC() : n(3) {} NC(NC const &o) : n(o.n) {} int get() const { return n; } };
struct X;
struct X
{
    int v; std::string s; static int st; Track t;
    X() : v(1) {} X(int a) : v(a) {} X(std::string const &q) : v(100), s(q) {} X(X const &o) : v(o.v), s(o.s) {}
    virtual ~X() {}
    int m(int a) { return v + a; }
    int m(std::string const &q) { return v + 1000 * (int) q.size(); }
    int c() const { return v; }
    static int sm(int a) { return a + 7; }
    static int sm(std::string const &q) { return 70 + (int) q.size(); }
    virtual int vm(int a) { return v * a; }
    int callvm(int a) { return vm(a); }
    virtual int vo(int a) { return v + 2 * a; }
    virtual int vo(std::string const &q) { return v + 3 * (int) q.size(); }
    int callvo(int a) { return vo(a); }
    int callvos(std::string const &q) { return vo(q); }
    int operator()(int a) { return v - a; }
    bool operator==(X const &o) const { return v == o.v; }
    bool operator<(X const &o) const { return v < o.v; }
    X operator+(X const &o) const { return X(v + o.v); }
    X operator+(int o) const { return X(v + 10 * o); }
    X operator-() const { return X(-v); }
    X &operator*=(X const &o) { v *= o.v; return *this; }
    typedef std::vector<int>::const_iterator Iter;
    std::vector<int> items; std::vector<int>::const_iterator begin() const { return items.begin(); } std::vector<int>::const_iterator end() const { return items.end(); }
    void push(int a) { items.push_back(a); }
  protected:
    virtual int pv(int a) { return a + 1; }
  public:
    int callpv(int a) { return pv(a); }
    /*X*/
};
int X::st = 11;
struct Y : X { Y() : X(2) {} Y(int a) : X(a) {} int ym() { return v + 5; } virtual int vm(int a) { return v * a + 1; } /*Y*/ };
struct Z { int z; Z() : z(9) {} Z(std::string const &q) : z(10 + q.size()) {} int zm(int a) { return z + a; } };
struct W : Y, Z { W() : Y(4) {} int wm() { return v * 100 + z; } };
struct P
{
    virtual ~P() {} int q() { return 21; } virtual int pure() = 0; /*P*/ static int ps(int a) { return a * 2; }
};
struct Q : P { Q() {} virtual int pure() { return 8; } /*Q*/ };
int callpure(P *p) { return p->pure(); }
int asx(X &x, int a) { return x.v * 3 + a; }
Z *mkz(int a, int b) { Z *r = new Z(); r->z = a * b; return r; }
int f(int a) { return a + 1; }
int f(std::string const &q) { return 50 + (int) q.size(); }
int usee(E e) { return (int) e; }
int takex(X *x) { return x->v; }
X retx(int a) { return X(a); }
std::vector<int> vec(int n) { std::vector<int> r; for (int i = 0; i < n; i++) r.push_back(i * i); return r; }
int sumv(std::vector<int> const &v) { int r = 0; for (auto i : v) r += i; return r; }
struct Err { };
int thrower(int a) { if (a) throw Err(); return 6; }
namespace sub { int f(int a) { return a + 2; } int f(std::string const &q) { return 60 + (int) q.size(); } struct S { int a; S() : a(13) {} int g() { return a; } }; }
'''


def ops():
    """[(id, fn(s, param, retval))] of the good declarations"""
    def op(name):
        def deco(fn):
            out.append((name, fn))
            return fn
        return deco
    out = []

    @op('classes')
    def _(s):
        s.NC = s.mod.add_class('NC')
        s.X = s.mod.add_class('X', allow_subclassing=True)
        s.Y = s.mod.add_class('Y', parent=s.X, allow_subclassing=True)
        s.Z = s.mod.add_class('Z')
        s.W = s.mod.add_class('W', parent=[s.Y, s.Z])
        s.P = s.mod.add_class('P', allow_subclassing=True)
        s.Q = s.mod.add_class('Q', parent=s.P)
        s.sub = s.mod.add_cpp_namespace('sub')
        s.S = s.sub.add_class('S')
        s.Err = s.mod.add_exception('Err')
        s.mod.add_enum('E', ['E0', 'E1'])
        s.NC.add_constructor([])
        s.NC.add_method('get', 'int', [], is_const=True)
        s.S.add_constructor([])
        s.S.add_method('g', 'int', [])

    for n, ps in enumerate(([], ['int'], ['std::string const &'])):
        @op('ctor%d' % n)
        def _(s, ps=ps):
            s.X.add_constructor([s.param(p, 'a') for p in ps])

    @op('copy')
    def _(s):
        s.X.add_copy_constructor()

    for n, p in enumerate(('int', 'std::string const &')):
        @op('m%d' % n)
        def _(s, p=p):
            s.X.add_method('m', 'int', [s.param(p, 'a')])

        @op('sm%d' % n)
        def _(s, p=p):
            s.X.add_method('sm', 'int', [s.param(p, 'a')], is_static=True)

        @op('vo%d' % n)
        def _(s, p=p):
            s.X.add_method('vo', 'int', [s.param(p, 'a')], is_virtual=True)

        @op('f%d' % n)
        def _(s, p=p):
            s.mod.add_function('f', 'int', [s.param(p, 'a')])

        @op('subf%d' % n)
        def _(s, p=p):
            s.sub.add_function('f', 'int', [s.param(p, 'a')])

    @op('methods')
    def _(s):
        s.X.add_method('c', 'int', [], is_const=True)
        s.X.add_method('vm', 'int', [s.param('int', 'a')], is_virtual=True)
        s.X.add_method('callvm', 'int', [s.param('int', 'a')])
        s.X.add_method('callvo', 'int', [s.param('int', 'a')])
        s.X.add_method('callvos', 'int', [s.param('std::string const &', 'a')])
        s.X.add_method('operator()', 'int', [s.param('int', 'a')], custom_name='__call__')
        s.X.add_method('push', 'void', [s.param('int', 'a')])
        s.X.add_method('pv', 'int', [s.param('int', 'a')], is_virtual=True, visibility='protected')
        s.X.add_method('callpv', 'int', [s.param('int', 'a')])
        s.X.add_function_as_method('asx', 'int', [s.param('X &', 'self'), s.param('int', 'a')])


    @op('operators')
    def _(s):
        s.X.add_binary_comparison_operator('==')
        s.X.add_binary_comparison_operator('<')
        s.X.add_binary_numeric_operator('+')

    @op('plusint')
    def _(s):
        s.X.add_binary_numeric_operator('+', s.X, s.X, s.param('int', 'right'))

    @op('operators2')
    def _(s):
        s.X.add_unary_numeric_operator('-')
        s.X.add_inplace_numeric_operator('*=', s.param('X const &', 'right'))
        s.X.add_container_traits('int', 'begin', 'end', 'Iter')

    @op('attributes')
    def _(s):
        s.X.add_instance_attribute('v', 'int')
        s.X.add_instance_attribute('s', 'std::string')
        s.X.add_static_attribute('st', 'int')

    for n, p in enumerate(([], ['std::string const &'])):
        @op('zctor%d' % n)
        def _(s, p=p):
            s.Z.add_constructor([s.param(q, 'a') for q in p])

    @op('zfn')
    def _(s):
        s.Z.add_function_as_constructor('mkz', s.retval('Z *', caller_owns_return=True), [s.param('int', 'a'), s.param('int', 'b')])

    @op('derived')
    def _(s):
        s.Y.add_constructor([])
        s.Y.add_constructor([s.param('int', 'a')])
        s.Y.add_copy_constructor()
        s.Y.add_method('ym', 'int', [])
        s.Y.add_method('vm', 'int', [s.param('int', 'a')], is_virtual=True)
        s.Z.add_method('zm', 'int', [s.param('int', 'a')])
        s.Z.add_instance_attribute('z', 'int')
        s.W.add_constructor([])
        s.W.add_method('wm', 'int', [])
        s.P.add_constructor([])
        s.P.add_method('q', 'int', [])
        s.P.add_method('pure', 'int', [], is_virtual=True, is_pure_virtual=True)
        s.P.add_method('ps', 'int', [s.param('int', 'a')], is_static=True)
        s.Q.add_constructor([])
        s.Q.add_method('pure', 'int', [], is_virtual=True)

    @op('functions')
    def _(s):
        s.mod.add_function('callpure', 'int', [s.param('P *', 'p', transfer_ownership=False)])
        s.mod.add_function('usee', 'int', [s.param('E', 'e')])
        s.mod.add_function('takex', 'int', [s.param('X *', 'x', transfer_ownership=False)])
        s.mod.add_function('retx', 'X', [s.param('int', 'a')])
        s.mod.add_container('std::vector<int>', 'int', 'vector', custom_name='VecInt')
        s.mod.add_function('vec', 'std::vector<int>', [s.param('int', 'n')])
        s.mod.add_function('sumv', 'int', [s.param('std::vector<int> const &', 'v')])
        s.mod.add_function('thrower', 'int', [s.param('int', 'a')], throw=[s.Err])
    return out


# ------------------------------------------------------------------ bad signatures: (return, parameters)
KINDS = [
    ('ret-unknown', 'd', lambda s: ('Unknown', [])),
    ('ret-unknown-ptr', 'd', lambda s: (s.retval('Unknown *', caller_owns_return=True), [s.param('int', 'a')])),
    ('par-unknown', 'd', lambda s: ('int', [s.param('Unknown const &', 'u')])),
    ('par2-unknown', 'd', lambda s: ('int', [s.param('int', 'a'), s.param('std::vector<Unknown>', 'u')])),
    ('par-nodirection', 'd', lambda s: ('int', [s.param('int *', 'p')])),

    ('ret-gen', 'g', lambda s: ('NC', [])),
    ('ret-gen2', 'g', lambda s: ('NC', [s.param('int', 'a'), s.param('std::string', 'b')])),
    ('par-owner', 'g', lambda s: ('int', [s.param('X *', 'x')])),
    ('par-custodian', 'g', lambda s: ('int', [s.param('int', 'a'), s.param('X *', 'x', transfer_ownership=False, custodian=7)])),
]
BYKIND = {k: (w, f) for k, w, f in KINDS}


CSIG = {'ret-gen': 'NC %s() { return NC(); }', 'ret-gen2': 'NC %s(int, std::string) { return NC(); }', 'par-owner': 'int %s(X *) { return 0; }',
        'par-custodian': 'int %s(int, X *) { return 0; }'}


def cxx(bads):
    """the C++ side of definitions that are only bad for the wrappers of one direction: {class: text}"""
    out = {}
    for key in bads:
        site, kind = key.split('/')
        when, name = BADS[key][:2]
        if when != 'g':
            continue
        if site.startswith('ctor'):
            if kind in CSIG:
                out.setdefault('X', set()).add(CSIG[kind].replace('int %s', 'X').replace('{ return 0; }', ': v(0) {}'))
        elif 'static-attribute' in key:
            out.setdefault('X', set()).add('static NC %s;' % name)
        elif 'attribute' in key:
            out.setdefault('X', set()).update(['NC %s;' % name, 'NC getbad() { return NC(); } void setbad(NC const &) {}'])
        elif kind in CSIG and ('virtual' in site or site.startswith('pure')):
            t = 'virtual ' + CSIG[kind] % name
            if 'const' in site:
                t = t.replace(') {', ') const {')
            if 'protected' in site:
                t = 'protected: %s public:' % t
            if site.startswith('pure'):
                out.setdefault('Q', set()).add(t)
                out.setdefault('P', set()).add(t[:t.index('{')] + '= 0;' + (' public:' if 'protected' in site else ''))
            else:
                out.setdefault('Y' if 'derived' in site else 'X', set()).add(t)
    return out


def sites():
    """(site, bad name, anchor op or None for the end, add(s, name, ret, params))"""
    def meth(**kw):
        return lambda s, n, r, p: s.X.add_method(n, r, p, **kw)
    out = []
    for pos, a in (('first', 'f0'), ('middle', 'f1'), ('last', None)):
        out.append(('function-' + pos, 'f', a, lambda s, n, r, p: s.mod.add_function(n, r, p)))
    out.append(('function', 'bad', 'methods', lambda s, n, r, p: s.mod.add_function(n, r, p)))
    out.append(('function-renamed', 'f', None, lambda s, n, r, p: s.mod.add_function('unknown_f', r, p, custom_name='f')))
    out.append(('subfunction', 'bad', 'methods', lambda s, n, r, p: s.sub.add_function(n, r, p)))
    out.append(('subfunction-first', 'f', 'subf0', lambda s, n, r, p: s.sub.add_function(n, r, p)))
    out.append(('subfunction-last', 'f', None, lambda s, n, r, p: s.sub.add_function(n, r, p)))
    for pos, a in (('first', 'm0'), ('middle', 'm1'), ('last', None)):
        out.append(('method-' + pos, 'm', a, meth()))
        out.append(('static-' + pos, 'sm', 's' + a if a else None, meth(is_static=True)))
    for pos, a in (('first', 'vo0'), ('middle', 'vo1'), ('last', None)):
        out.append(('virtual-' + pos, 'vo', a, meth(is_virtual=True)))
        out.append(('virtual-%s-const' % pos, 'vo', a, meth(is_virtual=True, is_const=True)))
    for pos, a in (('first', 'ctor0'), ('second', 'ctor1'), ('last', None)):
        out.append(('ctor-' + pos, 'X', a, lambda s, n, r, p: s.X.add_constructor(p)))
    for pos, a in (('first', 'zctor0'), ('second', 'zctor1'), ('last', None)):
        out.append(('fnctor-' + pos, 'Z', a, lambda s, n, r, p: s.Z.add_function_as_constructor('bad', s.retval('Z *', caller_owns_return=True), p)))
    for key, kw in (('method', {}), ('static', {'is_static': True}), ('const', {'is_const': True}), ('virtual', {'is_virtual': True}),
                    ('virtual-const', {'is_virtual': True, 'is_const': True}), ('protected-virtual', {'is_virtual': True, 'visibility': 'protected'}),
                    ('private-virtual', {'is_virtual': True, 'visibility': 'private'}), ('throwing', {'throw': 'Err'}), ('unblock', {'unblock_threads': True})):
        def add(s, n, r, p, kw=kw):
            k2 = dict(kw)
            if 'throw' in k2:
                k2['throw'] = [s.Err]
            return s.X.add_method(n, r, p, **k2)
        out.append((key, 'bad', 'operators', add))
    out.append(('call-first', '__call__', 'methods', lambda s, n, r, p: s.X.add_method('operator()', r, p, custom_name='__call__')))
    out.append(('call-last', '__call__', None, lambda s, n, r, p: s.X.add_method('operator()', r, p, custom_name='__call__')))
    out.append(('getitem', '__getitem__', None, lambda s, n, r, p: s.X.add_method('bad', r, p, custom_name='__getitem__')))
    out.append(('len', '__len__', None, lambda s, n, r, p: s.X.add_method('bad', r, p, custom_name='__len__')))
    out.append(('derived', 'bad', None, lambda s, n, r, p: s.Y.add_method(n, r, p)))
    out.append(('derived-hides', 'm', None, lambda s, n, r, p: s.Y.add_method(n, r, p)))
    out.append(('derived-virtual', 'vm', None, lambda s, n, r, p: s.Y.add_method(n, r, p, is_virtual=True)))
    out.append(('second-base', 'bad', None, lambda s, n, r, p: s.Z.add_method(n, r, p)))
    out.append(('second-base-overload', 'zm', None, lambda s, n, r, p: s.Z.add_method(n, r, p)))
    out.append(('mi', 'bad', None, lambda s, n, r, p: s.W.add_method(n, r, p)))
    out.append(('fnmethod', 'bad', 'operators', lambda s, n, r, p: s.X.add_function_as_method(n, r, [s.param('X &', 'self')] + p)))
    out.append(('fnmethod-overload', 'm', None, lambda s, n, r, p: s.X.add_function_as_method(n, r, [s.param('X &', 'self')] + p)))
    def pure(**kw):
        def add(s, n, r, p):
            s.P.add_method(n, r, p, is_virtual=True, is_pure_virtual=True, **kw)
            s.Q.add_method(n, r, p, is_virtual=True, **kw)
        return add
    out.append(('pure', 'badpure', None, pure()))
    out.append(('pure-const', 'badpure', None, pure(is_const=True)))
    out.append(('pure-protected', 'badpure', None, pure(visibility='protected')))
    return out


def other_bad():
    """bad definitions that are not signatures: (key, when, name, anchor, fn(s))"""
    out = []
    for n, (t, when) in enumerate((('Unknown', 'd'), ('Unknown *', 'd'), ('std::vector<Unknown>', 'd'), ('NC', 'g'))):
        k = t.replace(' *', 'ptr').replace('std::vector<Unknown>', 'vec')
        for kind, anchor, fn in (('attribute', None, lambda s, t, n: s.X.add_instance_attribute(n, t)),
                                 ('attribute-const', 'attributes', lambda s, t, n: s.X.add_instance_attribute(n, t, is_const=True)),
                                 ('attribute-getter', None, lambda s, t, n: s.X.add_instance_attribute(n, t, getter='getbad', setter='setbad')),
                                 ('static-attribute', 'attributes', lambda s, t, n: s.X.add_static_attribute(n, t)),
                                 ('custom-attribute', None, lambda s, t, n: s.X.add_custom_instance_attribute(n, t, 'getbad', is_const=True))):
            name = ('bad_%s_%d' % (kind, n)).replace('-', '_')
            out.append((kind + '-' + k, when, name, anchor, lambda s, t=t, name=name, fn=fn: fn(s, t, name)))
    for t in ('Unknown', 'Unknown *', 'Unknown const &'):
        k = t.replace(' *', 'ptr').replace(' const &', 'ref')
        out.append(('inplace-' + k, 'd', '-=', None, lambda s, t=t: s.X.add_inplace_numeric_operator('-=', s.param(t, 'right'))))
        out.append(('inplace-overload-' + k, 'd', '*=', 'operators2', lambda s, t=t: s.X.add_inplace_numeric_operator('*=', s.param(t, 'right'))))
        out.append(('binary-' + k, 'd', '-', None, lambda s, t=t: s.X.add_binary_numeric_operator('-', s.X, s.X, s.param(t, 'right'))))
        out.append(('binary-overload-' + k, 'd', '+', 'operators', lambda s, t=t: s.X.add_binary_numeric_operator('+', s.X, s.X, s.param(t, 'right'))))
        out.append(('binary-overload2-' + k, 'd', '+', 'plusint', lambda s, t=t: s.X.add_binary_numeric_operator('+', s.X, s.X, s.param(t, 'right'))))
    out.append(('binary-noncopyable', 'g', '-', None, lambda s: s.X.add_binary_numeric_operator('-', s.NC, s.X, s.param('int', 'right'))))
    out.append(('container-unknown', 'd', 'std::vector<Unknown>', None, lambda s: s.mod.add_container('std::vector<Unknown>', 'Unknown', 'vector')))
    out.append(('container-key', 'd', 'std::map<Unknown, int>', None, lambda s: s.mod.add_container('std::map<Unknown, int>', ('Unknown', 'int'), 'map')))
    out.append(('container-value', 'd', 'std::map<int, Unknown>', None, lambda s: s.mod.add_container('std::map<int, Unknown>', ('int', 'Unknown'), 'map')))
    out.append(('container-sub', 'd', 'std::list<Unknown>', 'methods', lambda s: s.sub.add_container('std::list<Unknown>', 'Unknown', 'list')))
    out.append(('container-noncopyable', 'g', 'std::list<NC>', None, lambda s: s.mod.add_container('std::list<NC>', 'NC', 'list')))
    out.append(('container-map-noncopyable', 'g', 'std::map<int, NC>', None, lambda s: s.mod.add_container('std::map<int, NC>', ('int', 'NC'), 'map')))
    out.append(('traits-unknown', 'd', None, None, lambda s: s.Z.add_container_traits('Unknown', 'begin', 'end', 'iterator')))
    out.append(('traits-noncopyable', 'g', None, None, lambda s: s.Z.add_container_traits('NC', 'begin', 'end', 'iterator')))
    out.append(('method-flags', 'g', 'm', None, lambda s: s.X.add_method('m', 'int', [s.param('double', 'a'), s.param('int', 'b')], is_static=True)))
    out.append(('method-flags2', 'g', 'sm', None, lambda s: s.X.add_method('sm', 'int', [s.param('double', 'a'), s.param('int', 'b')])))
    return out


def all_bads():
    """{key: (when, name, anchor, fn(s))}"""
    out = {}
    for site, name, anchor, add in sites():
        for k, when, sig in KINDS:
            if 'ctor' in site and k.startswith('ret-'):
                continue
            if site == 'private-virtual' and when == 'g':
                continue                                    # not generated at all

            def fn(s, add=add, name=name, sig=sig):
                r, p = sig(s)
                add(s, name, r, p)
            out['%s/%s' % (site, k)] = (when, name, anchor, fn)
    for key, when, name, anchor, fn in other_bad():
        out['other/' + key] = (when, name, anchor, fn)
    return out


BADS = all_bads()


class S(object):
    pass


def describe(mod, bads):
    from pybindgen import param, retval
    s = S()
    s.mod, s.param, s.retval = mod, param, retval
    seq = ops()
    for key in bads:
        when, name, anchor, fn = BADS[key]
        i = [n for n, (o, f) in enumerate(seq) if o == anchor][0] if anchor else len(seq)
        seq.insert(i, (key, fn))
    for n, fn in seq:
        fn(s)


def handler(accept, log):
    from pybindgen.settings import ErrorHandler

    class H(ErrorHandler):
        def handle_error(self, wrapper, exception, traceback_):
            log.append((wrapper, exception))
            return accept
    return H()


# ------------------------------------------------------------------ the good module, as seen from Python
PUBLIC = ['E', 'E0', 'E1', 'Err', 'NC', 'P', 'Q', 'VecInt', 'VecIntIter', 'W', 'X', 'XIter', 'Y', 'Z', 'callpure', 'f', 'retx', 'sub', 'sumv', 'takex', 'thrower', 'usee', 'vec']
XNAMES = ['asx', 'c', 'callpv', 'callvm', 'callvo', 'callvos', 'm', 'push', 's', 'sm', 'v', 'vm', 'vo', 'pv']


def outcome(fn, *a):
    try:
        return fn(*a)
    except Exception as e:
        return type(e).__name__


def trace(M, x, purebad):
    pub = sorted(n for n in vars(M) if not n.startswith('__'))
    x.eq(sorted(set(pub) - {'E', '_PyBindGen'}), sorted(set(PUBLIC) - {'E'}), 'public names')
    x.eq(sorted(n for n in vars(M.X) if not n.startswith('_')), sorted(XNAMES), 'names of X')
    x.eq(sorted(n for n in vars(M.X) if n.startswith('__') and n not in ('__module__', '__doc__', '__dict__', '__weakref__', '__new__', '__init__', '__hash__', '__delattr__',
                                                                           '__setattr__', '__getattribute__', '__firstlineno__', '__static_attributes__')),
         ['__add__', '__call__', '__copy__', '__eq__', '__ge__', '__gt__', '__imul__', '__iter__', '__le__', '__lt__', '__ne__', '__neg__', '__radd__'], 'special names of X')
    x.eq(sorted(n for n in vars(M.Y) if not n.startswith('_')), ['pv', 'vm', 'ym'], 'names of Y')
    x.eq(sorted(n for n in vars(M.Z) if not n.startswith('_')), ['z', 'zm'], 'names of Z')
    x.eq([hasattr(M.Z(), n) for n in ('__iter__', '__len__')], [False, False], 'Z is no container')
    x.eq(sorted(n for n in vars(M.sub) if not n.startswith('__')), ['S', 'f'], 'names of sub')
    for fn, base in ((M.f, (4, 52)), (M.sub.f, (5, 62)), (M.X.sm, (10, 72)), (M.X().m, (4, 2001)), (M.X().vo, (7, 7)), (M.Y().m, (5, 2002)), (M.W().m, (7, 2004))):
        n = getattr(fn, '__name__', '')
        x.eq(outcome(fn, 3), base[0], n)
        x.eq(outcome(fn, 'ab'), base[1], n)
        x.eq(outcome(fn), 'TypeError', n)
        x.eq(outcome(fn, None), 'TypeError', n)
        x.eq(outcome(fn, M.X()), 'TypeError', n)
        x.eq(outcome(fn, 1, 'x'), 'TypeError', n)
        x.eq(outcome(fn, 1, M.X()), 'TypeError', n)
        x.step(7)
    x.eq([M.X().v, M.X(5).v, M.X('ab').v, M.X(M.X(6)).v], [1, 5, 100, 6], 'constructors')
    x.eq([M.Z().z, M.Z('ab').z, M.Z(3, 4).z, outcome(M.Z, 1), outcome(M.Z, 1, M.X()), outcome(M.Z, None)], [9, 12, 12, 'TypeError', 'TypeError', 'TypeError'], 'constructors of Z')
    for a in ((None,), (M.NC(),), (1, 2), (1, M.X()), ([],)):
        x.eq(outcome(M.X, *a), 'TypeError', 'X%r' % (a,))
    o = M.X(7)
    x.eq([o.c(), o.vm(3), o.callvm(3), o.callvo(2), o.callvos('ab'), o(2), o.callpv(4), o.asx(1)], [7, 21, 21, 11, 13, 5, 5, 22], 'methods')
    x.eq(outcome(o, 'a'), 'TypeError', '__call__')
    x.eq(outcome(o), 'TypeError', '__call__')
    x.eq([o == M.X(7), o == M.X(8), o != M.X(8), o < M.X(8), (o + M.X(2)).v, (o + 2).v, (-o).v], [True, False, True, True, 9, 27, -7], 'operators')
    x.eq([outcome(lambda: o + 'a'), outcome(lambda: o - o), outcome(lambda: o[0]), outcome(len, o), outcome(lambda: o - 1)], ['TypeError'] * 5, 'no such operators')
    p = M.X(3)
    p *= M.X(5)
    x.eq(p.v, 15, '*=')
    p.push(4)
    p.push(6)
    x.eq(list(p), [4, 6], 'iteration')
    p.s = 'new'
    x.eq((p.s, M.X.st, hasattr(p, 'bad'), hasattr(M.X, 'bad')), ('new', 11, False, False), 'attributes')
    M.X.st = 12
    x.eq(M.X.st, 12, 'static')
    M.X.st = 11

    for base in (M.X, M.Y):
        class D(base):
            def vm(self, a):
                return a + 1000

            def vo(self, a):
                return 2000 if isinstance(a, str) else a + 3000

            def pv(self, a):
                return base.pv(self, a) + 4000 if hasattr(base, 'pv') else a + 4001
        d = D()
        x.eq([d.callvm(1), d.callvo(1), d.callvos('a'), d.callpv(1), d.c(), d.m(1), base.vm(d, 1)], [1001, 3001, 2000, 4002, 1 if base is M.X else 2, 2 if base is M.X else 3, 1 if base is M.X else 3], 'overrides of ' + base.__name__)

        class D2(base):
            pass
        d = D2(5)
        x.eq([d.callvm(1), d.callvo(1), d.callvos('a'), d.callpv(1)], [5 + (base is M.Y), 7, 8, 2], 'no overrides of ' + base.__name__)
        x.step(12)
    w = M.W()
    x.eq([w.wm(), w.ym(), w.zm(1), w.vm(2), w.callvm(2), w.sm(1), M.takex(w)], [409, 9, 10, 9, 9, 8, 4], 'multiple inheritance')
    x.eq([M.Q().q(), M.Q().pure(), M.callpure(M.Q()), M.P.ps(4), M.Q.ps(5)], [21, 8, 8, 8, 10], 'abstract class')
    x.eq(outcome(M.P), 'TypeError', 'P()')

    class DP(M.P):
        def pure(self):
            return 77

        def badpure(self, *a):
            return 1
    if purebad:
        # the method cannot be called from Python; whether it can be overridden depends on what is wrong with it
        d = outcome(DP)
        if d != 'TypeError':
            x.eq(isinstance(d, DP) and M.callpure(d), 77, 'override of pure, next to a bad pure virtual method')
    else:
        x.eq(M.callpure(DP()), 77, 'override of pure')
    x.eq([M.usee(M.E1), M.takex(M.X(3)), M.retx(8).v, list(M.vec(3)), M.sumv([1, 2]), M.thrower(0), M.NC().get(), M.sub.S().g(), M.E0], [5, 3, 8, [0, 1, 4], 3, 6, 3, 13, 3], 'functions')
    x.eq(outcome(M.thrower, 1), 'Err', 'exception')


def explore_built(M, x, bads):
    x.case('/'.join(bads) or 'none')
    trace(M, x, any(BADS[b][1] == 'badpure' for b in bads))
    x.state(tuple(bads))
    x.step()


def built(name, bads):
    def gen(mod):
        import pybindgen.settings as st
        st.error_handler = handler(True, [])
        describe(mod, bads)
    hdr = HEADER
    extra = cxx(bads)
    for c in 'XYPQ':
        hdr = hdr.replace('/*%s*/' % c, ' '.join(sorted(extra.get(c, ()))))
    for t in extra.get('X', ()):
        if t.startswith('static NC'):
            hdr += '\nNC X::%s;\n' % t.split()[-1].rstrip(';')
    return Scenario(name, hdr, gen, lambda M, x: explore_built(M, x, bads))


# ------------------------------------------------------------------ reports
def forked(fn, *args):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                res = ['ok', fn(*args)]
            except BaseException as e:
                res = ['error', type(e).__name__, str(e)]
            with os.fdopen(w, 'w') as f:
                json.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        t = f.read()
    os.waitpid(pid, 0)
    return json.loads(t) if t else ['error', 'child died', '']


def name_of(w):
    from pybindgen import cppmethod, overloading, container
    if w is None:
        return None
    if isinstance(w, overloading.OverloadedWrapper):
        w = w.all_wrappers[0] if w.all_wrappers else None
    if isinstance(w, (cppmethod.CppConstructor, cppmethod.CppFunctionAsConstructor)):
        return w._class.name if getattr(w, '_class', None) else None
    if isinstance(w, (container.Container,)):
        return w.full_name
    for o in (w, getattr(w, 'method', None)):
        for a in ('custom_name', 'method_name', 'function_name', 'name'):
            v = getattr(o, a, None)
            if v:
                return v
    return None


def work(bads, mode):
    import pybindgen.settings as st
    from pybindgen import Module, FileCodeSink
    log = []
    st.error_handler = None if mode == 'none' else handler(mode == 'accept', log)
    mod = Module('m')
    try:
        describe(mod, bads)
        mod.generate(FileCodeSink(io.StringIO()))
        raised = None
    except Exception as e:
        raised = [type(e).__name__, str(e)[:200]]
    seen = []
    twice = []
    for w, e in log:
        if w is not None and any(w is o for o in seen):
            twice.append(repr(w)[:80])
        seen.append(w)
    return {'raised': raised, 'twice': twice, 'names': [name_of(w) for w, e in log], 'types': [type(w).__name__ for w, e in log], 'errors': [type(e).__name__ for w, e in log]}


ERRORS = ('TypeLookupError', 'TypeConfigurationError', 'CodeGenerationError', 'NotSupportedError', 'SkipWrapper')


def check_report(x, key, mode):
    when, name, anchor, fn = BADS[key]
    res = forked(work, [key], mode)
    x.step()
    if res[0] != 'ok':
        x.fail('raised %s' % (res,))
        return
    r = res[1]
    x.state((key, mode, tuple(r['errors']), tuple(r['types']), tuple(r['raised'] or ())[:1]))
    if mode == 'accept':
        if r['raised']:
            x.fail('raised %s though the handler accepts' % (r['raised'],))
        elif not r['names']:
            x.fail('not reported')
        if r['twice']:
            x.fail('reported more than once: %s' % (r['twice'],))
    else:
        if not r['raised']:
            x.fail('nothing was raised (%s)' % (r,))
        elif r['raised'][0] not in ERRORS:
            x.fail('raised %s' % (r['raised'],))
    if mode == 'decline' and len(r['names']) != 1:
        x.fail('declined, and reported %d times' % len(r['names']))
    for n, t in zip(r['names'], r['types']):
        if n is not None and name is not None and n != name and n not in ('unknown_f', 'operator()', 'bad'):
            x.fail('reported for %s %r instead of %r' % (t, n, name))


def explore_reports(x):
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import pybindgen  # noqa
    for key in BADS:
        for mode in ('accept', 'decline', 'none'):
            x.run('%s/%s' % (key, mode), check_report, x, key, mode)


# known findings: generation stops with an exception, so there is no module to build
NOT_BUILT = ['other/container-noncopyable', 'other/container-map-noncopyable', 'other/traits-noncopyable', 'other/binary-noncopyable']


def ident(k):
    return ''.join(c if c.isalnum() else '_' for c in k)


def scenarios(tier):
    out = [built('base', []),
           Scenario('reports', '', None, lambda M, x: explore_reports(x), build=lambda sc, wd: [], compile=False, shards=8)]
    if tier == 'thorough':
        for k in BADS:
            if k not in NOT_BUILT:
                out.append(built(ident(k), [k]))
        names = [s[0] for s in sites()]
        for n, (a, b) in enumerate(itertools.combinations(names, 2)):
            ks = [[k for k in BADS if k.startswith(s + '/')] for s in (a, b)]
            out.append(built('pair_%s_%s' % (ident(a), ident(b)), [ks[0][n % len(ks[0])], ks[1][(n // 3) % len(ks[1])]]))
        return out
    for s in sites():
        for when in 'dg':
            ks = [k for k in BADS if k.startswith(s[0] + '/') and BADS[k][0] == when]
            out.append(built(ident(s[0]) + '_' + when, ks))
    oth = [k for k in BADS if k.startswith('other/') and k not in NOT_BUILT]
    groups = {}
    for k in oth:
        groups.setdefault(k.split('/')[1].split('-')[0] + '_' + BADS[k][0], []).append(k)
    for g, ks in groups.items():
        out.append(built('other_' + ident(g), ks))
    return out
