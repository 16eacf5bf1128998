"""C22: every declaration is reachable in Python at exactly its declared place."""
import importlib
import importlib.util
import itertools
import os
import sys
import types
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('scope trees (module, C++ namespaces, submodules, nested classes) x what each scope declares under the same and under confusable names; every declaration '
        'has a number of its own in C++, and every public name found in Python is compared with the tree')
BOUNDS = {'quick': 'trees of five scopes, every pair of scopes x every pair of kinds of declarations of one name (and every way of giving it another name); every kind of '
                   'declaration x every kind of scope x five namespaces of the root module; module names with dots and other file names; a ninth of the permutations of naming rules (prefix to take off, transformer) '
                   'over three nested scopes x eleven C names',
          'thorough': 'the same with every assignment of a kind of declaration, or none, to every scope (3125 trees), every pair of renamed declarations, and every assignment of naming rules to three scopes'}


class Scope(object):
    """kind: root, ns (C++ namespace), sub (submodule: its C++ namespace is `cname`, possibly none), cls (class)"""

    def __init__(self, kind, cname, pname=None):
        self.kind, self.cname, self.pname = kind, cname, pname or cname
        self.kids, self.ents = [], []
        self.parent = None

    def add(self, kid):
        kid.parent = self
        self.kids.append(kid)
        return kid

    def cpath(self):
        p = self.parent.cpath() if self.parent else []
        return p + [c for c in (self.cname or '').split('::') if c]

    def ppath(self):
        return self.parent.ppath() + [self.pname] if self.parent else []

    def walk(self):
        yield self
        for k in self.kids:
            for s in k.walk():
                yield s


class Ent(object):
    N = [1000]

    def __init__(self, kind, name, custom=None, **kw):
        self.kind, self.name, self.custom, self.kw = kind, name, custom, kw
        Ent.N[0] += 10
        self.id = Ent.N[0]

    @property
    def py(self):
        return self.custom or self.name


SIZES = {'char': 1, 'int': 4, 'long long': 8}
# kinds of declarations that a module can hold, and a class
MOD_KINDS = ['func', 'over', 'class', 'enum', 'exc']
CLS_KINDS = ['method', 'smethod', 'class', 'enum', 'sattr', 'fmethod']


def nested(cpath, text):
    for c in reversed(cpath):
        text = 'namespace %s { %s }' % (c, text)
    return text


def q(scope, name):
    return '::'.join(scope.cpath() + [name])


class Tree(object):
    def __init__(self, root):
        self.root = root
        self.late = []

    # ---- C++
    def header(self):
        self.late = []
        out = ['#include <vector>', '#include <exception>']
        out += self.scope_text(self.root, self.root.cpath())
        return '\n'.join(out + self.late)

    def scope_text(self, s, cpath):
        out = []
        for k in s.kids:
            if k.kind == 'cls':
                out.append(nested(cpath, self.class_text(k)))
            else:
                out += self.scope_text(k, k.cpath())
        for e in s.ents:
            t = self.ent_text(s, e)
            if t:
                out.append(nested(e.kw['where'].split('::') if e.kw.get('where') else cpath, t))
        return out

    def ent_text(self, s, e):
        n, i = e.name, e.id
        if e.kind == 'func':
            return 'inline int %s() { return %d; }' % (n, i)
        if e.kind == 'over':
            return 'inline int %s() { return %d; } inline int %s(int) { return %d; }' % (n, i, n, i + 1)
        if e.kind == 'tmpl':
            return 'template <class P> inline int %s() { return %d + sizeof(P); }' % (n, i) if not e.kw.get('again') else ''
        if e.kind in ('class', 'tclass'):
            t = 'struct %s { int d; %s() : d(%d) {} int id() { return d; } static int sid() { return %d; } };' % (n, n, i, i)
            if e.kind == 'tclass':
                t = 'template <class P> ' + t.replace('d(%d)' % i, 'd(%d + (int) sizeof(P))' % i).replace('return %d' % i, 'return %d + (int) sizeof(P)' % i)
                return '' if e.kw.get('again') else t
            return t + 'inline %s make_%s() { return %s(); } inline int take_%s(%s const &k) { return k.d; }' % (n, n, n, n, n)
        if e.kind == 'enum':
            return 'enum %s { %s_A = %d, %s_B = %d }; inline int en_%s(%s v) { return v; }' % (n, n, i, n, i + 1, n, n)
        if e.kind == 'exc':
            return 'struct %s : public std::exception {}; inline int throw_%s() { throw %s(); }' % (n, n, n)
        if e.kind == 'citer':
            return ('struct %s { int d[2]; %s() { d[0] = %d; d[1] = %d; } typedef int const *iterator; iterator begin() const { return d; } '
                    'iterator end() const { return d + 2; } };' % (n, n, i, i + 1))
        if e.kind == 'cont':
            return 'typedef std::vector<int> %s; inline std::vector<int> cont_%s() { return std::vector<int>(3, %d); }' % (n, n, i)
        return ''

    def class_text(self, s):
        body = ['int d; %s() : d(0) {}' % s.cname]
        for k in s.kids:
            body.append(self.class_text(k))
        full = '::'.join(s.cpath())
        for e in s.ents:
            n, i = e.name, e.id
            if e.kind == 'method':
                body.append('int %s() { return %d; }' % (n, i))
            elif e.kind == 'smethod':
                body.append('static int %s() { return %d; }' % (n, i))
            elif e.kind == 'sattr':
                body.append('static int %s;' % n)
                self.late.append('int %s::%s = %d;' % (full, n, i))
            elif e.kind == 'iattr':
                body[0] = body[0].replace('int d;', 'int d; int %s;' % n).replace('d(0)', 'd(0), %s(%d)' % (n, i))
            elif e.kind == 'class':
                body.append(self.ent_text(s, e).split('inline')[0])
            elif e.kind == 'enum':
                body.append('enum %s { %s_A = %d, %s_B = %d }; int en_%s(%s v) { return v; }' % (n, n, i, n, i + 1, n, n))
            elif e.kind == 'fmethod':
                self.late.append('namespace fm { inline int %s(%s &self) { return %d; } }' % (n, full, i))
        return 'struct %s { %s };' % (s.cname, ' '.join(body))

    # ---- pybindgen
    def gen(self, mod):
        self.done = {}
        self.mods = {id(self.root): mod}
        self.gen_scope(self.root, mod)
        for s in self.root.walk():
            for e in s.ents:
                if e.kind == 'typedef':
                    self.mods[id(s)].add_typedef(self.done[id(e.kw['of'])], e.name)

    def gen_scope(self, s, mod):
        from pybindgen import param
        from pybindgen.module import SubModule
        for k in s.kids:
            if k.kind == 'cls':
                m = mod.add_class(k.cname, custom_name=k.pname if k.pname != k.cname else None)
                m.add_constructor([])
                self.done[id(k)] = m
            elif k.kind == 'ns':
                m = mod.add_cpp_namespace(k.cname)
            else:
                m = SubModule(k.pname, mod, cpp_namespace=k.cname)
            self.mods[id(k)] = m
            self.gen_scope(k, m)
        for e in s.ents:
            kw = {'custom_name': e.custom} if e.custom else {}
            if e.kw.get('where'):
                kw['foreign_cpp_namespace'] = e.kw['where']
            if e.kind in ('func', 'over'):
                if e.kw.get('other'):
                    kw['custom_name'] = e.py
                mod.add_function(e.name, 'int', [], **kw)
                if e.kind == 'over':
                    mod.add_function(e.name, 'int', [param('int', 'a')], **kw)
            elif e.kind == 'tmpl':
                mod.add_function(e.name, 'int', [], template_parameters=[e.kw['t']], **kw)
            elif e.kind in ('class', 'tclass'):
                if e.kind == 'tclass':
                    kw['template_parameters'] = [e.kw['t']]
                c = mod.add_class(e.name, **kw)
                self.done[id(e)] = c
                c.add_constructor([])
                c.add_copy_constructor()
                c.add_method('id', 'int', [])
                c.add_method('sid', 'int', [], is_static=True)
                if e.kind == 'class' and s.kind != 'cls':
                    f = {'foreign_cpp_namespace': e.kw['where']} if e.kw.get('where') else {}
                    mod.add_function('make_' + e.name, c.full_name, [], **f)
                    mod.add_function('take_' + e.name, 'int', [param(c.full_name + ' const &', 'k')], **f)
            elif e.kind == 'enum':
                mod.add_enum(e.name, [e.name + '_A', e.name + '_B'])
                if s.kind == 'cls':
                    mod.add_method('en_' + e.name, 'int', [param(q(s, e.name), 'v')])
                else:
                    mod.add_function('en_' + e.name, 'int', [param(q(s, e.name), 'v')])
            elif e.kind == 'exc':
                x = mod.add_exception(e.name, **kw)
                f = {'foreign_cpp_namespace': e.kw['where']} if e.kw.get('where') else {}
                mod.add_function('throw_' + e.name, 'int', [], throw=[x], **f)
            elif e.kind == 'citer':
                c = mod.add_class(e.name)
                c.add_constructor([])
                c.add_copy_constructor()
                c.add_container_traits('int')
            elif e.kind == 'cont':
                mod.add_container(q(s, e.name), 'int', 'vector', custom_name=e.py)
                mod.add_function('cont_' + e.name, q(s, e.name), [])
            elif e.kind in ('method', 'smethod'):
                mod.add_method(e.name, 'int', [], is_static=e.kind == 'smethod', **kw)
            elif e.kind == 'sattr':
                mod.add_static_attribute(e.name, 'int')
            elif e.kind == 'iattr':
                mod.add_instance_attribute(e.name, 'int', **kw)
            elif e.kind == 'fmethod':
                mod.add_function_as_method(e.name, 'int', [param('::'.join(s.cpath()) + ' &', 'self')],
                                           foreign_cpp_namespace='fm', **kw)

    # ---- Python
    def public(self, s):
        names = set(k.pname for k in s.kids)
        for e in s.ents:
            n = e.name
            if e.kind == 'sattr':
                continue                                   # kept in the metaclass
            if e.kind == 'enum':
                names |= {e.name + '_A', e.name + '_B', 'en_' + n}
                continue
            names.add(self.pyname(e))
            if s.kind != 'cls':
                names |= {'class': {'make_' + n, 'take_' + n}, 'exc': {'throw_' + n}, 'cont': {'cont_' + n, e.py + 'Iter'}, 'citer': {n + 'Iter'}}.get(e.kind, set())
        return names

    @staticmethod
    def pyname(e):
        if not e.custom and e.kind in ('tmpl', 'tclass'):
            t = e.kw['t']
            if e.kind == 'tmpl':
                return '%s__lt__%s__gt__' % (e.name, t.replace(' ', '_'))
            t = t.replace(' ', '_')
            return '%s__%s' % (e.name, t[0].upper() + t[1:])
        return e.py

    def explore(self, M, x):
        classes = []
        for s in self.root.walk():
            try:
                o = M
                for p in s.ppath():
                    o = getattr(o, p)
            except AttributeError as err:
                x.case('/'.join(s.ppath()))
                x.fail('not reachable: %s' % err)
                continue
            x.run('/'.join(s.ppath()) + '#names', self.names, M, s, o, x)
            for e in s.ents:
                key = '/'.join(s.ppath() + [e.kind, self.pyname(e)])
                x.run(key, self.ent, M, s, o, e, x)
                if e.kind == 'class':
                    classes.append((s, o, e, key))
        # objects of same-named classes are told apart
        for (s, o, e, key), (s2, o2, e2, key2) in itertools.product(classes, repeat=2):
            if e is e2 or s.kind == 'cls' or abs(classes.index((s, o, e, key)) - classes.index((s2, o2, e2, key2))) > 12:
                continue
            x.run('take/%s/%s' % (key, key2), self.take, o, e, getattr(o2, e2.py, None), x)

    def names(self, M, s, o, x):
        got = set(n for n in vars(o) if not n.startswith('__'))
        want = self.public(s)
        x.state((tuple(s.ppath()), tuple(sorted(want))))
        if s.kind == 'cls':
            x.check(isinstance(o, type), 'not a class')
        else:
            x.check(isinstance(o, types.ModuleType), 'not a module')
            got = set(n for n in got if not n.startswith('_'))
            name = '.'.join([M.__name__] + s.ppath())
            x.eq(o.__name__, name, '__name__')
            m = importlib.import_module(name)
            x.check(m is o, 'import %s gives another module' % name)
            from_ = __import__('.'.join([M.__name__] + s.ppath()[:-1]), fromlist=[s.ppath()[-1]]) if s.ppath() else M
            x.check(getattr(from_, s.ppath()[-1]) is o if s.ppath() else True, 'from ... import')
        x.eq(sorted(got), sorted(want), 'public names')

    def take(self, o, e, cls2, x):
        t = getattr(o, 'take_' + e.name)
        if cls2 is None:
            return
        try:
            t(cls2())
        except TypeError:
            return
        x.fail('takes an object of the class of the same name in another scope')

    def ent(self, M, s, o, e, x):
        n = self.pyname(e)
        v = getattr(o, n) if e.kind != 'enum' else None
        i = e.id
        x.step()
        if e.kind == 'func':
            x.eq(v(), i, 'result')
        elif e.kind == 'over':
            x.eq((v(), v(5)), (i, i + 1), 'results')
        elif e.kind == 'tmpl':
            x.eq(v(), i + SIZES[e.kw['t']], 'result')
        elif e.kind in ('class', 'tclass'):
            i += SIZES[e.kw['t']] if e.kind == 'tclass' else 0
            k = v()
            x.eq((k.id(), k.sid(), v.sid()), (i, i, i), 'identity')
            x.eq(sorted(m for m in vars(v) if not m.startswith('__')), ['id', 'sid'], 'members')
            x.check(type(k) is v, 'type')
            if not (e.custom and e.kind == 'tclass'):
                x.eq(v.__name__, n, '__name__')
                x.eq(v.__module__ if s.kind != 'cls' else None, o.__name__ if s.kind != 'cls' else None, '__module__')
            if e.kind == 'class' and s.kind != 'cls':
                m = getattr(o, 'make_' + e.name)()
                x.check(type(m) is v, 'type of the returned object')
                x.eq((m.id(), getattr(o, 'take_' + e.name)(m)), (i, i), 'returned object')
        elif e.kind == 'enum':
            a, b = getattr(o, e.name + '_A'), getattr(o, e.name + '_B')
            x.eq((a, b), (i, i + 1), 'values')
            f = getattr(o if s.kind != 'cls' else o(), 'en_' + e.name)
            x.eq((f(a), f(b)), (i, i + 1), 'passed values')
        elif e.kind == 'exc':
            x.check(issubclass(v, Exception), 'no exception')
            x.eq((v.__name__, v.__module__), (n, o.__name__), 'name')
            try:
                getattr(o, 'throw_' + e.name)()
            except Exception as err:
                x.check(type(err) is v, 'other exception %r' % err)
            else:
                x.fail('nothing raised')
        elif e.kind == 'citer':
            x.eq(list(v()), [i, i + 1], 'contents')
        elif e.kind == 'cont':
            x.check(isinstance(v, type), 'no type')
            c = getattr(o, 'cont_' + e.name)()
            x.check(type(c) is v, 'type')
            x.eq(list(c), [i] * 3, 'contents')
        elif e.kind == 'typedef':
            t, ts = e.kw['of'], e.kw['ofscope']
            w = M
            for p in ts.ppath():
                w = getattr(w, p)
            x.check(v is getattr(w, t.py), 'other class')
            x.eq(v().id(), t.id, 'identity')
        elif e.kind == 'method':
            x.eq(o().__getattribute__(n)(), i, 'result')
        elif e.kind == 'smethod':
            x.eq((v(), getattr(o(), n)()), (i, i), 'result')
        elif e.kind == 'fmethod':
            x.eq(getattr(o(), n)(), i, 'result')
        elif e.kind == 'sattr':
            x.eq(v, i, 'value')
        elif e.kind == 'iattr':
            x.eq(getattr(o(), n), i, 'value')


# ------------------------------------------------------------------ repeated names

def five(root, t):
    """a tree of five scopes below a namespace of its own; the names repeat"""
    top = root.add(Scope('ns', t))
    a = top.add(Scope('ns', 'a'))
    aa = a.add(Scope('ns', 'a'))
    k = top.add(Scope('cls', 'K'))
    ak = a.add(Scope('cls', 'K'))
    return [top, a, aa, k, ak]


def kinds_of(s):
    return CLS_KINDS if s.kind == 'cls' else MOD_KINDS


def repeated(pairs):
    root = Scope('root', None)
    for n, assignment in enumerate(pairs):
        scopes = five(root, 't%d' % n)
        for i, kind in assignment:
            if kind:
                scopes[i].ents.append(Ent(kind, 'N'))
    return Tree(root)


def pair_assignments():
    proto = five(Scope('root', None), 't')
    for i, j in itertools.combinations(range(5), 2):
        for ki in kinds_of(proto[i]):
            for kj in kinds_of(proto[j]):
                yield [(i, ki), (j, kj)]


def all_assignments():
    proto = five(Scope('root', None), 't')
    choices = [[None] + kinds_of(s)[:4] for s in proto]
    for c in itertools.product(*choices):
        if sum(1 for k in c if k) >= 3:
            yield list(enumerate(c))


# ------------------------------------------------------------------ confusable names

# groups of declarations whose C++ names differ and whose paths look alike once flattened
def confusable():
    def ns(p, *ents):
        return ('ns', p, ents)

    def cls(p, *ents):
        return ('cls', p, ents)
    E = Ent
    yield 'ns-func', [ns('', E('func', 'b_f')), ns('b', E('func', 'f'))]
    yield 'ns-ns', [ns('a::b', E('func', 'f')), ns('a_b', E('func', 'f')), ns('a', E('func', 'b_f'))]
    yield 'ns-class', [ns('a', E('class', 'B')), ns('', E('class', 'AB'), E('class', 'aB'))]
    yield 'cls-nested', [cls('Foo', E('class', 'Bar')), ns('', E('class', 'FooBar'))]
    yield 'case', [ns('', E('class', 'foo'), E('class', 'Foo'))]
    yield 'ns-case', [ns('Ab', E('class', 'C')), ns('ab', E('class', 'C')), ns('', E('class', 'AbC'))]
    yield 'type-suffix', [ns('', E('class', 'K'), E('class', 'K_Type'))]
    yield 'meta', [cls('K', E('sattr', 's')), cls('KMeta', E('sattr', 's'))]
    yield 'meta-type', [cls('K', E('sattr', 's')), cls('KMeta', E('method', 's'))]
    yield 'method', [cls('K', E('method', 'f_g')), cls('K_f', E('method', 'g'))]
    yield 'method-nested', [cls('K', E('class', 'f')), cls('Kf', E('method', 'id'))]
    yield 'method-static', [cls('K', E('method', 'g')), cls('K2', E('smethod', 'g'), E('fmethod', 'h'))]
    yield 'fmethods', [cls('K', E('fmethod', 'g')), cls('L', E('fmethod', 'g')), ns('', E('func', 'g'))]
    yield 'fmethod-prefix', [cls('K', E('fmethod', 'g_h')), cls('K_g', E('fmethod', 'h'))]
    yield 'exc', [ns('a', E('exc', 'B')), ns('', E('exc', 'AB'), E('exc', 'a_B'))]
    yield 'exc-class', [ns('a', E('exc', 'X')), ns('', E('class', 'a__X'), E('class', 'AX'))]
    yield 'exc-class-same', [ns('a', E('exc', 'X')), ns('b', E('class', 'X')), ns('', E('class', 'X'))]
    yield 'enum', [ns('a', E('enum', 'B')), ns('', E('enum', 'AB'), E('enum', 'a_B'))]
    yield 'cont', [ns('a', E('cont', 'V')), ns('', E('func', 'V'))]
    yield 'cont-iter', [ns('', E('cont', 'V'), E('class', 'VIter'))]
    yield 'traits-iter', [ns('', E('citer', 'V'), E('class', 'VIter'), E('class', 'V_Iter'), E('class', 'V_IterType'))]
    yield 'iter-traits', [ns('', E('class', 'VIter'), E('class', 'V_Iter'), E('class', 'V_IterType'), E('citer', 'V'))]
    yield 'functions', [ns('', E('func', 'functions'), E('func', 'moduledef'), E('func', 'f__0'), E('over', 'f'))]
    yield 'sub-functions', [ns('functions', E('func', 'f')), ns('moduledef', E('func', 'f'))]
    yield 'init', [ns('', E('func', 'Init'), E('class', 'Py')), ns('init', E('func', 'init'))]
    yield 'slots', [cls('K', E('method', 'tp_init'), E('method', 'tp_new'), E('method', 'tp_dealloc'), E('smethod', 'tp_str'), E('method', 'tp_clear'))]
    yield 'slots-attr', [cls('K', E('iattr', 'set'), E('iattr', 'get'), E('sattr', 'getsets'), E('method', 'get_set'))]
    yield 'attr-method', [cls('K', E('iattr', 'v')), cls('Kv', E('iattr', 'v')), cls('K_get', E('iattr', 'v'))]
    yield 'attr-nested', [cls('K', E('sattr', 'v')), ('cls', 'K::Meta', [E('sattr', 'v')]), cls('KMeta', E('iattr', 'v'))]
    yield 'dunder-copy', [cls('K', E('method', 'copy')), cls('K_', E('method', 'copy'), E('method', '_copy'))]


def confusable_tree(groups, pre):
    root = Scope('root', None)
    for gname, decls in groups:
        top = root
        if pre:
            top = root.add(Scope('ns', pre + gname.replace('-', '')))
        for kind, path, ents in decls:
            s = top
            comps = [c for c in path.split('::') if c]
            for n, c in enumerate(comps):
                found = [k for k in s.kids if k.cname == c]
                s = found[0] if found else s.add(Scope('cls' if kind == 'cls' else 'ns', c))
            s.ents += ents
    return Tree(root)


# ------------------------------------------------------------------ every kind of declaration in every kind of scope

def everything(ns):
    root = Scope('root', ns)
    far = root.add(Scope('sub', None, 'plain'))           # submodule that is no namespace
    sub = root.add(Scope('sub', 'cpp', 'pyth'))           # submodule with another name than its namespace
    deep = sub.add(Scope('sub', 'x::y', 'xy'))
    a = root.add(Scope('ns', 'a'))
    b = a.add(Scope('ns', 'b'))
    sb = b.add(Scope('sub', None, 's'))
    k = root.add(Scope('cls', 'K'))
    kk = k.add(Scope('cls', 'In'))
    kkk = kk.add(Scope('cls', 'K2'))
    ak = a.add(Scope('cls', 'K'))
    ren = b.add(Scope('cls', 'R', 'Renamed'))
    ents = [('func', 'f', None), ('func', 'g', 'gg'), ('over', 'o', None), ('over', 'p', 'pp'), ('class', 'C', None), ('class', 'D', 'Dd'),
            ('enum', 'E', None), ('exc', 'X', None), ('exc', 'Y', 'Yy'), ('cont', 'V', 'Vec')]
    for n, s in enumerate([root, far, sub, deep, a, b, sb]):
        u = '' if s.cname else '_%d' % n                   # these share a namespace with their parents
        for kind, name, custom in ents:
            s.ents.append(Ent(kind, name + u, custom))
        if not u or s is root:
            s.ents.append(Ent('tmpl', 't', None, t='char'))
            s.ents.append(Ent('tmpl', 't', 'tt', t='int', again=1))
            s.ents[-1].id = s.ents[-2].id
            s.ents.append(Ent('tclass', 'T', None, t='char'))
            s.ents.append(Ent('tclass', 'T', 'Tt', t='int', again=1))
            s.ents[-1].id = s.ents[-2].id
            s.ents.append(Ent('tclass', 'T', None, t='long long', again=1))
            s.ents[-1].id = s.ents[-2].id
        s.ents.append(Ent('func', 'far_f%d' % n, None, where='w::z'))
        s.ents.append(Ent('class', 'far_C%d' % n, None, where='w::z'))
        s.ents.append(Ent('exc', 'far_X%d' % n, None, where='w'))
        for t in s.ents[:8]:
            if t.kind == 'class' and not t.custom:
                s.ents.append(Ent('typedef', 'Also', None, of=t, ofscope=s))
                root.ents.append(Ent('typedef', 'Root%d' % n, None, of=t, ofscope=s))
    # other ways to spell the prefix that is taken off
    for s in (a, b, sub):
        pre = s.pname + '_'
        for kind in ('func', 'over'):
            for form, want in (('%(p)s@short', '@short'), ('x_%(p)s@mid', 'x_%(p)s@mid'), ('%(p)s%(p)s@twice', '%(p)s@twice'), (s.pname + '@none', s.pname + '@none'),
                               ('@end_' + s.pname, '@end_' + s.pname), ('u_%(p)s@under', 'u_%(p)s@under'), (s.pname.upper() + '_@upper', s.pname.upper() + '_@upper')):
                e = Ent(kind, (form % dict(p=pre)).replace('@', kind), None)
                e.strip = (want % dict(p=pre)).replace('@', kind)
                s.ents.append(e)
    for s in (k, kk, kkk, ak, ren):
        for kind in ('method', 'smethod', 'class', 'enum', 'sattr', 'iattr'):
            s.ents.append(Ent(kind, kind[0] + kind[1].upper(), None))
        for kind in ('method', 'smethod', 'iattr'):
            s.ents.append(Ent(kind, kind + '_c', 'c_' + kind))
        s.ents.append(Ent('fmethod', 'fm_%s' % '_'.join(s.cpath()), 'fm'))
        s.ents.append(Ent('fmethod', 'same', None))
    return Tree(root)


_pyname = Tree.pyname


def pyname(e):
    if getattr(e, 'strip', None):
        return e.strip
    return _pyname(e)


Tree.pyname = staticmethod(pyname)


# ------------------------------------------------------------------ names made by the user's rules

RULES_F = ['lib_a', 'my_lib_b', 'lib_lib_c', 'd', 'LIB_e', 'libf', 'g_lib_', '_lib_h', 'lib_I', 'lib_j', 'j']
RULES = {
    'strip': (lambda m: m.set_strip_prefix('lib_'), lambda n: n[4:] if n.startswith('lib_') else n),
    'nothing': (lambda m: m.set_strip_prefix(''), lambda n: n),
    'other': (lambda m: m.set_strip_prefix('my_'), lambda n: n[3:] if n.startswith('my_') else n),
    'lower': (lambda m: m.set_c_function_name_transformer(lambda n: n.lower()), lambda n: n.lower()),
    'reverse': (lambda m: m.set_c_function_name_transformer(lambda n: n[::-1]), lambda n: n[::-1]),
    'default': (lambda m: None, lambda n: n),
}
RULES_T = ['double', 'int']       # j and lib_j may become overloads of each other; the one declared first refuses 1.5


def rules_header():
    out = []
    for ns in ('', 'na', 'na::nb'):
        text = ''.join('inline int %s(%s) { return %d; }\n' % (f, RULES_T[n % 2] if f.endswith('j') else '', n + 100 * len(ns)) for n, f in enumerate(RULES_F))
        for c in reversed([c for c in ns.split('::') if c]):
            text = 'namespace %s { %s }' % (c, text)
        out.append(text)
    return '\n'.join(out)


def rules_gen(names):
    def gen(mod):
        from pybindgen import param
        a = mod.add_cpp_namespace('na')
        for m, name in zip((mod, a, a.add_cpp_namespace('nb')), names):
            RULES[name][0](m)
            for n, f in enumerate(RULES_F):
                args = [param(RULES_T[n % 2], 'x')] if f.endswith('j') else []
                m.add_function(f, 'int', args)
                m.add_function(f, 'int', args, custom_name='lib_My_' + f)
    return gen


def rules_explore(names):
    def explore(M, x):
        for m, name, ns in zip((M, M.na, M.na.nb), names, ('', 'na', 'na::nb')):
            want = {}
            for n, f in enumerate(RULES_F):
                want.setdefault(RULES[name][1](f), []).append(n)
                want['lib_My_' + f] = [n]

            def place(py, which):
                x.step()
                x.state((names, ns, py))
                for n in which:
                    args = ((1.5,), (1,))[n % 2] if RULES_F[n].endswith('j') else ()
                    x.eq(getattr(m, py)(*args), n + 100 * len(ns), 'result of ' + RULES_F[n])
            for py, which in sorted(want.items()):
                x.run('%s: %s in %r' % (' '.join(names), py, ns), place, py, which)
            x.run('%s: names in %r' % (' '.join(names), ns),
                  lambda: x.eq(sorted(n for n, v in vars(m).items() if isinstance(v, types.BuiltinFunctionType) and not n.startswith(('pbmc', '__'))), sorted(want), 'functions'))
    return explore


# ------------------------------------------------------------------ names of modules and files

def named(sc, workdir, modname, base, filename):
    from pybindgen import Module, FileCodeSink
    mod = Module(modname)
    mod.add_include('"%s.h"' % sc.modname)
    mod.add_function('f', 'int', [])
    c = mod.add_class('K')
    c.add_constructor([])
    c.add_method('id', 'int', [])
    a = mod.add_cpp_namespace('a')
    a.add_function('f', 'int', [])
    b = a.add_cpp_namespace('b')
    b.add_function('f', 'int', [])
    path = os.path.join(workdir, filename + '.cc')
    with open(path, 'w') as f:
        if base:
            mod.generate(FileCodeSink(f), base)
        else:
            mod.generate(f)
    return [[filename, [path], []]]


def named_explore(modname, base, filename, x):
    from pbmc.run import EXT
    so = os.path.join(x.workdir, filename + EXT)
    pkg = '.'.join(modname.split('.')[:-1])
    full = (pkg + '.' if pkg else '') + filename
    if pkg:
        p = types.ModuleType(pkg)
        p.__path__ = [x.workdir]
        sys.modules[pkg] = p
    x.case('import')
    try:
        M = importlib.import_module(full)
    except Exception as e:
        x.fail('%s: %s' % (type(e).__name__, e))
        return
    x.eq((M.f(), M.K().id(), M.a.f(), M.a.b.f()), (1, 4, 2, 3), 'results')
    x.eq(M.K.__module__, modname, '__module__')
    x.eq(sorted(n for n in vars(M) if not n.startswith('_')), ['K', 'a', 'f'], 'names')
    for p, o in (('a', M.a), ('a.b', M.a.b)):
        x.case(p)
        if base is None:
            x.check(importlib.import_module(full + '.' + p) is o, 'import')
        x.check(importlib.util.find_spec is not None)


NAMED = [('plain', 'm1', None, 'm1'), ('dotted', 'pkg.m2', None, 'm2'), ('deep', 'pkg.sub.m3', None, 'm3'),
         ('base', 'm4', '_m4', '_m4'), ('dotbase', 'pkg.m5', '_m5', '_m5'), ('under', '_m6_x', None, '_m6_x')]
NAMED_H = 'inline int f() { return 1; } namespace a { inline int f() { return 2; } namespace b { inline int f() { return 3; } } } struct K { int id() { return 4; } };'


def scenarios(tier):
    out = []

    def tree(name, t, ns=None):
        out.append(Scenario(name, t.header(), t.gen, t.explore, cpp_namespace=ns))
    pairs = list(pair_assignments())
    per = 24
    for n in range(0, len(pairs), per):
        tree('pairs%d' % (n // per), repeated(pairs[n:n + per]))
    groups = list(confusable())
    for g in groups:
        tree('like_' + g[0].replace('-', '_'), confusable_tree([g], ''))
    tree('like_together', confusable_tree(list(confusable()), 'g'))
    for n, ns in enumerate([None, 'top', '::top', 'top::deep', '::']):
        tree('every%d' % n, everything(ns), ns)
    for names in itertools.product(sorted(RULES), repeat=3) if tier == 'thorough' else [(a, b, c) for i, (a, b, c) in enumerate(itertools.permutations(sorted(RULES), 3)) if i % 9 == 0]:
        out.append(Scenario('rules_' + '_'.join(names), rules_header(), rules_gen(names), rules_explore(names)))
    for name, modname, base, filename in NAMED:
        sc = Scenario('named_' + name, NAMED_H, None,
                      lambda M, x, a=(modname, base, filename): named_explore(*(a + (x,))),
                      build=lambda sc, wd, a=(modname, base, filename): named(sc, wd, *a))
        sc.noimport = True
        out.append(sc)
    if tier == 'thorough':
        al = list(all_assignments())
        for n in range(0, len(al), 40):
            tree('all%d' % (n // 40), repeated(al[n:n + 40]))
    return out
