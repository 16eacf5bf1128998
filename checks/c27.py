"""C27: whatever legal names an API uses, its wrapper compiles and each name means the right thing."""
import itertools
import keyword
import os
import re
from pbmc import Scenario

LEVEL = 'exploration'
RULE = ('names of parameters: every name of a pool (names that generated code uses for itself, names made from each other by adding what generated code adds, names of the types and functions '
        'involved, python keywords) with every kind of parameter in every kind of function, and all pairs of names; names of entities: every name of the pool for every kind of entity')
BOUNDS = {'quick': '97 names x 14 kinds of parameter x 10 kinds of function; all pairs of 44 names in a function and in a virtual method; 81 names x 9 kinds of entity',
          'thorough': 'all pairs of all the names, with every pair of 5 kinds; all triples of 16 names'}
NOTE = 'excluded: identifiers of the Python C API, C++ keywords and macros; virtual methods named m_pyself; classes outside of any namespace with one of 17 names of variables of the functions of types (self, args, value...)'

# names that generated code uses, and those that are made from others
LOCALS = '''self args kwargs _args _kwargs keywords retval py_retval retval2 py_retval2 return_exception return_exceptions exceptions exc obj value name type tmp_value m i j key iter item
container arg ctor_arg exc_type exc_value traceback py_method py_self _self self_obj_before helper inst_dict flags wrapper wrapper_type wrapper_lookup_iter py_thread_state
error_list stream oss other left right result m_pyself python_helper submodule d error e p t s tmp ok idx cmp_name ward custodian result_len ret index wrapper_type2 py_type base'''.split()
DERIVED = 'x x2 x3 py_x py_x2 x_ptr x_len x_obj x_name x_value py_name x_'.split()
KEYWORDS = 'lambda None from print pass is def True exec async await'.split()
TYPES = ['K', 'E', 'SP', 'ns', 'std', 'fun', 'show', 'string', 'vector']
# parameters and variables of the functions that are the slots of types: a class at the global scope (not in a namespace) with such a name is excluded
FUNCTION_PARAMETERS = 'self args kwargs _args _kwargs _self retval py_retval return_exception value tmp m_pyself other obj left right result'.split()
POOL = LOCALS + DERIVED + KEYWORDS
# with Py in front and _Type or nothing behind, these are identifiers of the Python C API
API = '''Type Object ASCIIObject BaseObject Bool Bytes BytesObject ByteArray Capsule CFunction Cell CellObject Code CodeObject Complex Config Context ContextVar Dict DictKeys DictObject Enum Ellipsis Filter Float
FloatObject Frame FrameObject FrozenSet Function FunctionObject Gen GetSetDef InterpreterState List ListIter ListObject LockStatus Long LongObject Map MemberDef MemoryView Method MethodDef MethodObject Module
ModuleDef Object_Type ODict Property Range Set SetObject Slice SliceObject Status Super ThreadState TraceBack Tuple TupleObject TypeObject Unicode UnicodeObject VarObject WeakReference Zip Int String File Class
Arg Err BindGenWrapperFlags Mapping Sequence Number Import Sys Eval Mem Callable Iter'''.split()
PAIRED = '''self args kwargs keywords retval py_retval retval2 py_retval2 return_exception value name tmp_value exc helper py_method m_pyself wrapper_type wrapper_lookup_iter
obj i iter type py_thread_state self_obj_before result container'''.split() + DERIVED + ['K', 'fun', 'std', 'lambda', 'E', 'ns']
assert len(set(POOL)) == len(POOL)

HEADER = r'''
#include "pbmc.h"
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
enum E { E0 = 3, E1 = 5 };
struct K { int v; Track tr__; K() : v(1) {} K(int a) : v(a) {} K(K const &o) : v(o.v) {} };
struct SP { int v; SP(int a) : v(a) {} };
struct Error : std::exception { int v; Error(int a = 0) : v(a) {} const char *what() const noexcept { return "error"; } };
inline std::string show(int v) { return "i" + std::to_string(v); }
inline std::string show(char v) { return std::string("c") + v; }
inline std::string show(bool v) { return v ? "T" : "F"; }
inline std::string show(double v) { return "d" + std::to_string(int(v * 4)); }
inline std::string show(std::string const &v) { return "s" + v; }
inline std::string show(char const *v) { return std::string("z") + v; }
inline std::string show(E v) { return "e" + std::to_string(int(v)); }
inline std::string show(K const &v) { return "K" + std::to_string(v.v); }
inline std::string show(K const *v) { return "P" + std::to_string(v->v); }
inline std::string show(std::vector<int> const &v) { std::string r = "v"; for (auto a : v) r += std::to_string(a) + "."; return r; }
inline std::string show(std::shared_ptr<SP> const &v) { return "h" + std::to_string(v->v); }
inline std::string show(uint16_t v) { return "u" + std::to_string(v); }
'''


class Kind(object):
    """a kind of parameter"""
    def __init__(self, tag, ctype, text, make, shown, kw=None, out=None, rev=True, default=None):
        self.tag, self.ctype, self.text, self.make, self.shown = tag, ctype, text, make, shown
        self.kw = kw or {}
        self.out = out          # what python gets back, if it is an output
        self.rev = rev          # supported in virtual methods
        self.default = default  # (text, shown)


KINDS = [
    Kind('i', 'int', 'int', lambda M: 7, 'i7', default=('1 + 3', 'i4')),
    Kind('c', 'char', 'char', lambda M: b'q', 'cq'),
    Kind('b', 'bool', 'bool', lambda M: True, 'T', default=('false', 'F')),
    Kind('d', 'double', 'double', lambda M: 1.5, 'd6', default=('0.25', 'd1')),
    Kind('u', 'uint16_t', 'uint16_t', lambda M: 9, 'u9'),
    Kind('s', 'std::string', 'std::string', lambda M: 'st', 'sst', default=('"ab"', 'sab')),
    Kind('z', 'const char *', 'char const *', lambda M: 'ch', 'zch', default=('"cd"', 'zcd')),
    Kind('e', 'E', 'E', lambda M: M.E1, 'e5', default=('E0', 'e3')),
    Kind('k', 'K', 'K', lambda M: M.K(4), 'K4', default=('K(9)', 'K9')),
    Kind('r', 'K &', 'K &', lambda M: M.K(5), 'K5'),
    Kind('p', 'K *', 'K *', lambda M: M.K(6), 'P6', kw={'transfer_ownership': False}),
    Kind('v', 'std::vector<int>', 'std::vector<int>', lambda M: [1, 2], 'v1.2.'),
    Kind('h', 'std::shared_ptr<SP>', 'std::shared_ptr<SP>', lambda M: M.SP(8), 'h8'),
    Kind('o', 'int *', 'int *', None, None, kw={'direction': 2}, out=42),
    Kind('x', 'int &', 'int &', lambda M: 3, 'i3', kw={'direction': 3}, out=43),
]
KD = dict((k.tag, k) for k in KINDS)
RETS = [('std::string', lambda M, r: r), ('int', None), ('K', None), ('std::vector<int>', None), ('void', None), ('K *', None)]


def body(kinds):
    """the body of a function with parameters a0, a1...: shows them"""
    r = 'std::string r; '
    for i, k in enumerate(kinds):
        if k.tag == 'o':
            r += '*a%d = 42; ' % i
        elif k.tag == 'x':
            r += 'r += show(a%d) + "|"; a%d = 43; ' % (i, i)
        else:
            r += 'r += show(a%d) + "|"; ' % i
    return r


def plist(kinds):
    return ', '.join('%s a%d' % (k.text, i) for i, k in enumerate(kinds))


def tags(kinds):
    return ''.join(k.tag for k in kinds)


def params(names, kinds, default_from=None):
    from pybindgen import param
    out = []
    for i, (n, k) in enumerate(zip(names, kinds)):
        kw = dict(k.kw)
        if default_from is not None and i >= default_from:
            kw['default_value'] = k.default[0]
        out.append(param(k.ctype, n, **kw))
    return out


def common(mod):
    import pybindgen.settings as st
    st.error_handler = None
    from pybindgen.typehandlers.smart_ptr import StdSharedPtr
    mod.add_enum('E', ['E0', 'E1'])
    K = mod.add_class('K')
    K.add_constructor([])
    K.add_constructor([__import__('pybindgen').param('int', 'a')])
    K.add_copy_constructor()
    K.add_instance_attribute('v', 'int')
    S = mod.add_class('SP', memory_policy=StdSharedPtr('SP'))
    S.add_constructor([__import__('pybindgen').param('int', 'a')])
    S.add_instance_attribute('v', 'int')
    mod.add_container('std::vector<int>', 'int', 'vector')
    mod.add_exception('Error', message_rvalue='"error"')
    return K


# kinds of function; each gives (C++ text, how to declare, how to call)
#   decl(mod, cls, pyname, names, kinds);  call(M) -> callable
CONTEXTS = ['function', 'method', 'static', 'constructor', 'call', 'overload', 'default', 'unblock', 'throw', 'policy', 'asmethod', 'retval']


class Case(object):
    def __init__(self, ctx, names, kinds, n):
        self.ctx, self.names, self.kinds, self.n = ctx, names, kinds, n
        self.key = '%s/%s/%s' % (ctx, tags(kinds), ','.join(names))
        # the name of the function is also a name that parameters may have
        self.names = [('f_%s_%s' % (ctx, tags(kinds)) if a == 'fun' else a) for a in names]


def usable(ctx, kinds):
    if ctx == 'default':
        return all(k.default for k in kinds)
    if ctx == 'virtual':
        return all(k.rev for k in kinds)
    if ctx == 'policy':
        return any(k.tag == 'p' for k in kinds)
    return True


def ctext(ctx, kinds):
    """C++ text of what is called, shared by the cases with the same kinds"""
    t = tags(kinds)
    p = plist(kinds)
    f = 'f_%s_%s' % (ctx, t)
    if ctx in ('function', 'overload', 'default', 'unblock', 'policy'):
        o = 'inline std::string %s(%s) { %s return r; }' % (f, p, body(kinds))
        if ctx == 'overload':
            o += ' inline std::string %s(%s, int, int) { return "other"; }' % (f, p)
        return o
    if ctx == 'throw':
        return 'inline std::string %s(%s) { %s if (r.find("i7") != std::string::npos) throw Error(1); return r; }' % (f, p, body(kinds))
    if ctx == 'method':
        return 'struct C_%s { std::string %s(%s) const { %s return r; } };' % (f, f, p, body(kinds))
    if ctx == 'static':
        return 'struct C_%s { static std::string %s(%s) { %s return r; } };' % (f, f, p, body(kinds))
    if ctx in ('constructor', 'call'):
        return None     # one class for each case
    if ctx == 'asmethod':
        return 'struct C_%s { }; inline std::string %s(C_%s &me, %s) { %s return r; }' % (f, f, f, p, body(kinds))
    if ctx == 'retval':
        o = ''
        for i, (r, _) in enumerate(RETS):
            v = {'std::string': 'r', 'int': 'int(r.size())', 'K': 'K(r.size())', 'K *': 'new K(r.size())', 'std::vector<int>': 'std::vector<int>(2, r.size())', 'void': ''}[r]
            o += 'inline %s %s_%d(%s) { %s return %s; } ' % (r, f, i, p, body(kinds), v)
        return o
    if ctx == 'virtual':
        o = 'struct C_%s { virtual ~C_%s() {} ' % (f, f)
        for r, expr in VRETS:
            o += 'virtual %s v%s(%s) { %s %s } ' % (r, VRETS.index((r, expr)), p, body(kinds), expr)
        args = []
        pre = ''
        for i, k in enumerate(kinds):
            pre += {'i': 'int a%d = 7; ', 'c': "char a%d = 'q'; ", 'b': 'bool a%d = true; ', 'd': 'double a%d = 1.5; ', 'u': 'uint16_t a%d = 9; ', 's': 'std::string a%d("st"); ', 'z': 'const char *a%d = "ch"; ',
                    'e': 'E a%d = E1; ', 'k': 'K a%d(4); ', 'r': 'K a%d(5); ', 'p': 'K q%d(6); K *a%d = &q%d; ', 'v': 'std::vector<int> a%d; a%d.push_back(1); a%d.push_back(2); ',
                    'h': 'std::shared_ptr<SP> a%d(new SP(8)); ', 'o': 'int q%d = 0; int *a%d = &q%d; ', 'x': 'int a%d = 3; '}[k.tag].replace('%d', str(i))
            args.append('a%d' % i)
        for j, (r, expr) in enumerate(VRETS):
            post = ''.join(' + "|" + show(%s)' % ('q%d' % i if k.tag == 'o' else 'a%d' % i) for i, k in enumerate(kinds) if k.out)
            if r == 'void':
                o += 'std::string c%d() { %s v%d(%s); return std::string("void")%s; } ' % (j, pre, j, ', '.join(args), post)
            else:
                o += 'std::string c%d() { %s std::string r = show(v%d(%s)); return r%s; } ' % (j, pre, j, ', '.join(args), post)
        return o + '};'
    raise AssertionError(ctx)


VRETS = [('std::string', 'return r;'), ('int', 'return int(r.size());'), ('void', ''), ('K', 'return K(r.size());')]


def declare(mod, case):
    """declare the case, named by its number"""
    from pybindgen import retval
    c = case
    f = 'f_%s_%s' % (c.ctx, tags(c.kinds))
    n = 'n%d' % c.n
    P = lambda d=None: params(c.names, c.kinds, d)
    if c.ctx in ('function', 'unblock', 'throw', 'policy'):
        kw = {'unblock_threads': True} if c.ctx == 'unblock' else {'throw': [mod.exc]} if c.ctx == 'throw' else {}
        fn = mod.add_function(f, 'std::string', P(), custom_name=n, **kw)
    elif c.ctx == 'default':
        mod.add_function(f, 'std::string', P(0), custom_name=n)
    elif c.ctx == 'overload':
        from pybindgen import param
        mod.add_function(f, 'std::string', P(), custom_name=n)
        mod.add_function(f, 'std::string', P() + [param('int', 'yy'), param('int', 'zz')], custom_name=n)
    elif c.ctx == 'retval':
        for i, (r, _) in enumerate(RETS):
            mod.add_function('%s_%d' % (f, i), retval(r, caller_owns_return=True) if r == 'K *' else retval(r), P(), custom_name='%s_%d' % (n, i))
    elif c.ctx == 'constructor':
        C = mod.add_class('C%d' % c.n)
        C.add_constructor(P())
        C.add_instance_attribute('r', 'std::string', is_const=True)
    elif c.ctx == 'call':
        C = mod.add_class('C%d' % c.n)
        C.add_constructor([])
        C.add_method('operator()', 'std::string', P(), custom_name='__call__')
    else:
        key = 'C_' + f
        if key not in mod.classes_:
            C = mod.classes_[key] = mod.add_class(key)
            C.add_constructor([])
        C = mod.classes_[key]
        if c.ctx == 'asmethod':
            from pybindgen import param
            C.add_function_as_method(f, 'std::string', [param('C_%s &' % f, 'me')] + P(), custom_name=n)
        else:
            C.add_method(f, 'std::string', P(), is_static=c.ctx == 'static', is_const=c.ctx == 'method', custom_name=n)


def expected(kinds, skip=()):
    return ''.join(k.shown + '|' for i, k in enumerate(kinds) if k.shown)


def with_outs(ret, kinds):
    outs = [k.out for k in kinds if k.out]
    if not outs:
        return ret
    return tuple(([ret] if ret is not None else []) + outs) if (ret is not None or len(outs) > 1) else outs[0]


def check_call(x, f, M, c, names, kinds, want, extra=()):
    """positional, keywords (both orders) and wrong keyword"""
    ins = [(n, k) for n, k in zip(names, kinds) if k.make]
    pos = [k.make(M) for n, k in ins]
    x.eq(f(*pos), want, 'positional')
    x.eq(f(**dict((n, k.make(M)) for n, k in ins)), want, 'keywords')
    x.eq(f(**dict((n, k.make(M)) for n, k in reversed(ins))), want, 'reversed keywords')
    x.step(3)
    for n, k in ins:
        kw = dict((m, q.make(M)) for m, q in ins)
        kw['no_' + n] = kw.pop(n)
        try:
            r = f(**kw)
            x.fail('accepted no_%s: %r' % (n, r))
        except TypeError:
            pass
        x.step()


def check(M, x, c):
    want = with_outs(expected(c.kinds), c.kinds)
    n = 'n%d' % c.n
    f = 'f_%s_%s' % (c.ctx, tags(c.kinds))
    x.state((c.ctx, tags(c.kinds), repr(want)))
    if c.ctx in ('function', 'overload', 'unblock', 'policy'):
        check_call(x, getattr(M, n), M, c, c.names, c.kinds, want)
    elif c.ctx == 'throw':
        if 'i' in tags(c.kinds):
            for kw in (False, True):
                try:
                    ins = [(m, k) for m, k in zip(c.names, c.kinds) if k.make]
                    if kw:
                        getattr(M, n)(**dict((m, k.make(M)) for m, k in ins))
                    else:
                        getattr(M, n)(*[k.make(M) for m, k in ins])
                    x.fail('no error')
                except M.Error:
                    pass
        else:
            check_call(x, getattr(M, n), M, c, c.names, c.kinds, want)
    elif c.ctx == 'default':
        f = getattr(M, n)
        for sub in itertools.product((False, True), repeat=len(c.kinds)):
            w = ''.join((k.shown if given else k.default[1]) + '|' for k, given in zip(c.kinds, sub))
            x.eq(f(**dict((m, k.make(M)) for m, k, given in zip(c.names, c.kinds, sub) if given)), w, 'given %s' % (sub,))
            x.step()
    elif c.ctx == 'retval':
        base = expected(c.kinds)
        L = len(base)
        for i, (r, _) in enumerate(RETS):
            g = getattr(M, '%s_%d' % (n, i))
            show = lambda v, first=True: (list(v) if r.startswith('std::vector') else v.v if r.startswith('K') else v)
            w = {'std::string': base, 'int': L, 'K': L, 'K *': L, 'std::vector<int>': [L, L], 'void': None}[r]

            def conv(*a, **k):
                v = g(*a, **k)
                outs = [q.out for q in c.kinds if q.out]
                if outs and r != 'void':
                    return (show(v[0]),) + v[1:]
                return v if r == 'void' else show(v)
            check_call(x, conv, M, c, c.names, c.kinds, with_outs(w, c.kinds))
    elif c.ctx == 'constructor':
        C = getattr(M, 'C%d' % c.n)
        check_call(x, lambda *a, **k: with_outs(C(*a, **k).r, c.kinds), M, c, c.names, c.kinds, want)
    elif c.ctx == 'call':
        check_call(x, getattr(M, 'C%d' % c.n)(), M, c, c.names, c.kinds, want)
    else:
        C = getattr(M, 'C_' + f)
        check_call(x, getattr(C if c.ctx == 'static' else C(), n), M, c, c.names, c.kinds, want)


def build_cases(name, cases, cxx=()):
    """a scenario with the given (ctx, names, kinds)"""
    cs = [Case(ctx, names, kinds, i) for i, (ctx, names, kinds) in enumerate(cases)]
    text = [HEADER]
    seen = set()
    for c in cs:
        k = (c.ctx, tags(c.kinds))
        if c.ctx == 'constructor':
            text.append('struct C%d { std::string r; C%d(%s) { %s this->r = r; } };' % (c.n, c.n, plist(c.kinds), body(c.kinds)))
        elif c.ctx == 'call':
            text.append('struct C%d { std::string operator()(%s) { %s return r; } };' % (c.n, plist(c.kinds), body(c.kinds)))
        elif k not in seen:
            seen.add(k)
            text.append(ctext(c.ctx, c.kinds))

    def gen(mod):
        common(mod)
        mod.exc = [e for e in mod.exceptions][0]
        mod.classes_ = {}
        for c in cs:
            declare(mod, c)

    def explore(M, x):
        for c in cs:
            x.run(c.key, check, M, x, c)
    return Scenario(name, '\n'.join(text), gen, explore)


# ------------------------------------------------------------------ virtual methods
def build_virtual(name, cases):
    """(names, kinds): one class for the kinds; each case is a class of its own, derived from it, that declares its methods with the names"""
    text = [HEADER]
    cs = []
    for i, (names, kinds) in enumerate(cases):
        t = tags(kinds)
        text.append(ctext('virtual', kinds).replace('C_f_virtual_%s' % t, 'V%d' % i))
        cs.append(('virtual/%s/%s' % (t, ','.join(names)), ['V%d' % i if a == 'fun' else a for a in names], kinds, i))

    def gen(mod):
        common(mod)
        for key, names, kinds, i in cs:
            C = mod.add_class('V%d' % i, allow_subclassing=True)
            C.add_constructor([])
            for j, (r, _) in enumerate(VRETS):
                C.add_method('v%d' % j, r, params(names, kinds), is_virtual=True)
                C.add_method('c%d' % j, 'std::string', [])

    def explore(M, x):
        for c in cs:
            x.run(c[0], check_virtual, M, x, c)
    return Scenario(name, '\n'.join(text), gen, explore)


def seen_value(k, v):
    if k.tag in 'krp':
        return k.tag.upper().replace('R', 'K').replace('P', 'P') + str(v.v) if k.tag != 'p' else 'P' + str(v.v)
    if k.tag == 'h':
        return 'h%d' % v.v
    if k.tag == 'v':
        return 'v' + ''.join('%d.' % q for q in v)
    if k.tag in 'iux':
        return ('i' if k.tag == 'x' else k.tag) + str(v)
    if k.tag == 'e':
        return 'e%d' % v
    if k.tag == 'b':
        return 'T' if v else 'F'
    if k.tag == 'd':
        return 'd%d' % int(v * 4)
    if k.tag == 'c':
        return 'c' + (v.decode() if isinstance(v, bytes) else v)
    return k.tag + (v.decode() if isinstance(v, bytes) else v)


def check_virtual(M, x, c):
    key, names, kinds, i = c
    C = getattr(M, 'V%d' % i)
    base = expected(kinds)
    post = ''.join('|i%d' % k.out for k in kinds if k.out)
    for j, (r, _) in enumerate(VRETS):
        w = {'std::string': base, 'int': len(base), 'K': len(base), 'void': None}[r]
        sh = {'std::string': 's' + base, 'int': 'i%d' % len(base), 'K': 'K%d' % len(base), 'void': 'void'}[r]
        # called from python
        def conv(*a, **k):
            v = getattr(C(), 'v%d' % j)(*a, **k)
            outs = [q.out for q in kinds if q.out]
            if r == 'K':
                v = (v[0].v,) + v[1:] if outs else v.v
            return v
        check_call(x, conv, M, c, names, kinds, with_outs(w, kinds))
        # not overridden
        x.eq(getattr(C(), 'c%d' % j)(), sh + post, 'c%d, not overridden' % j)
        # overridden
        got = []

        def override(self, *args):
            ins = [k for k in kinds if k.make]
            got.append(''.join(seen_value(k, v) + '|' for k, v in zip(ins, args)) if len(ins) == len(args) else 'arguments: %r' % (args,))
            rv = {'std::string': 'over', 'int': 77, 'K': M.K(78), 'void': None}[r]
            outs = [k.out + 5 for k in kinds if k.out]
            if not outs:
                return rv
            return tuple(([] if r == 'void' else [rv]) + outs) if (r != 'void' or len(outs) > 1) else outs[0]
        D = type('D', (C,), {'v%d' % j: override})
        d = D()
        post2 = ''.join('|i%d' % (k.out + 5) for k in kinds if k.out)
        x.eq(getattr(d, 'c%d' % j)(), {'std::string': 'sover', 'int': 'i77', 'K': 'K78', 'void': 'void'}[r] + post2, 'c%d, overridden' % j)
        x.eq(got, [base], 'arguments of the override v%d' % j)
        # from the override to the parent
        D2 = type('D2', (C,), {'v%d' % j: lambda self, *a: getattr(C, 'v%d' % j)(self, *a)})
        x.eq(getattr(D2(), 'c%d' % j)(), sh + post, 'c%d, through python' % j)
        x.step(3)
        x.state((tags(kinds), j, base))


# ------------------------------------------------------------------ names of entities
def build_entities(name, names, kind):
    """the names as functions, methods, attributes, classes..."""
    cpp = []
    for i, n in enumerate(names):
        if kind == 'functions':
            for j, (r, v) in enumerate((('int', str(i)), ('std::string', '"q%d"' % i), ('K', 'K(%d)' % i), ('void', ''), ('K *', 'new K(%d)' % i), ('std::vector<int>', 'std::vector<int>(1, %d)' % i))):
                cpp.append('namespace r%d { inline %s %s(int a, K const &k) { return %s; } }' % (j, r, n, v))
        elif kind == 'globals':
            cpp.append('inline int %s(int a) { return a + %d; }' % (n, i * 100))
        elif kind == 'methods':
            pass
        elif kind in ('classes', 'gclasses'):
            cpp.append(('namespace cl { %s }' if kind == 'classes' else '%s') % 'struct %s { int v; Track tr__; %s(int a = %d) : v(a) {} %s(%s const &o) : v(o.v) {} virtual ~%s() {} virtual int vm(int a) { return v + a; } int call(int a) { return vm(a); } '
                       'int take(%s const &o) const { return v * 1000 + o.v; } %s make() { return %s(v + 1); } %s *make2() { return new %s(v + 2); } bool operator==(%s const &o) const { return v == o.v; } '
                       '%s operator+(%s const &o) const { return %s(v + o.v); } static int st() { return %d; } };' % ((n, n, i) + (n,) * 12 + (i,)))
        elif kind == 'namespaces':
            cpp.append('namespace %s_ { } namespace in { namespace %s { inline int f(int a) { return a + %d; } struct C { int v; C(int a) : v(a + %d) {} }; enum En { V = %d }; } }' % (n, n, i, i, i))
        elif kind == 'enums':
            cpp.append('namespace en { namespace h%d { enum %s { %s_v = %d }; inline int f(%s a) { return a + 1; } enum Named { %s = %d }; inline int g(Named a) { return a + 2; } } }' % (i, n, n, i, n, n + 'q', i + 5))
        elif kind == 'values':
            cpp.append('namespace va { enum V%d { %s = %d }; struct C%d { enum In { %s = %d }; }; }' % (i, n, i, i, n, i + 50))
        elif kind == 'exceptions':
            cpp.append('namespace ex { struct %s : std::exception { const char *what() const noexcept { return "m%d"; } }; inline int f%d(int a) { if (a) throw %s(); return a; } }' % (n, i, i, n))
        elif kind == 'gexceptions':
            cpp.append('struct %s : std::exception { const char *what() const noexcept { return "m%d"; } }; namespace ex { inline int f%d(int a) { if (a) throw %s(); return a; } }' % (n, i, i, n))
        elif kind == 'containers':
            cpp.append('typedef std::vector<K%d> %s; inline int sum%d(%s const &a) { int r = 0; for (auto &k : a) r += k.v; return r; } inline %s mk%d(int n) { return %s(n, K%d(%d)); }' % (i, n, i, n, n, i, n, i, i))
    if kind == 'containers':
        cpp[:0] = ['struct K%d { int v; K%d(int a = 0) : v(a) {} };' % (i, i) for i in range(len(names))]
    if kind == 'methods':
        cpp.append('namespace me { struct A { ')
        for i, n in enumerate(names):
            cpp.append('virtual int %s(int a) { return a + %d; } int call_%s(int a) { return %s(a); }' % (n, i, n, n))
        cpp.append('virtual ~A() {} }; struct S { ')
        for i, n in enumerate(names):
            cpp.append('static std::string %s(K const &k) { return show(k) + "_%d"; }' % (n, i))
        cpp.append('}; struct I { ')
        for i, n in enumerate(names):
            cpp.append('int %s; ' % n)
        cpp.append('I() : %s {} }; struct T { ' % ', '.join('%s(%d)' % (n, i) for i, n in enumerate(names)))
        for i, n in enumerate(names):
            cpp.append('static std::string %s; ' % n)
        cpp.append('}; %s }' % ' '.join('std::string T::%s("%d");' % (n, i) for i, n in enumerate(names)))

    def gen(mod):
        from pybindgen import param, retval
        common(mod)
        if kind == 'functions':
            for j, r in enumerate(('int', 'std::string', 'K', 'void', 'K *', 'std::vector<int>')):
                ns = mod.add_cpp_namespace('r%d' % j)
                for n in names:
                    ns.add_function(n, retval(r, caller_owns_return=True) if r == 'K *' else retval(r), [param('int', n), param('K const &', 'k')])
        elif kind == 'globals':
            for n in names:
                mod.add_function(n, 'int', [param('int', n)])
        elif kind == 'methods':
            ns = mod.add_cpp_namespace('me')
            A = ns.add_class('A', allow_subclassing=True)
            A.add_constructor([])
            S = ns.add_class('S')
            I = ns.add_class('I')
            I.add_constructor([])
            T = ns.add_class('T')
            for n in names:
                A.add_method(n, 'int', [param('int', n)], is_virtual=True)
                A.add_method('call_' + n, 'int', [param('int', 'a')])
                S.add_method(n, 'std::string', [param('K const &', n)], is_static=True)
                I.add_instance_attribute(n, 'int')
                T.add_static_attribute(n, 'std::string')
        elif kind in ('classes', 'gclasses'):
            ns = mod.add_cpp_namespace('cl') if kind == 'classes' else mod
            pre = 'cl::' if kind == 'classes' else ''
            for n in names:
                C = ns.add_class(n, allow_subclassing=True)
                C.add_constructor([param('int', n)])
                C.add_copy_constructor()
                C.add_instance_attribute('v', 'int')
                C.add_method('vm', 'int', [param('int', n)], is_virtual=True)
                C.add_method('call', 'int', [param('int', 'a')])
                C.add_method('take', 'int', [param(pre + '%s const &' % n, n)], is_const=True)
                C.add_method('make', pre + n, [])
                C.add_method('make2', retval(pre + '%s *' % n, caller_owns_return=True), [])
                C.add_method('st', 'int', [], is_static=True)
                C.add_binary_comparison_operator('==')
                C.add_binary_numeric_operator('+')
        elif kind == 'namespaces':
            top = mod.add_cpp_namespace('in')
            for n in names:
                ns = top.add_cpp_namespace(n)
                ns.add_function('f', 'int', [param('int', 'a')])
                C = ns.add_class('C')
                C.add_constructor([param('int', 'a')])
                C.add_instance_attribute('v', 'int')
                ns.add_enum('En', ['V'])
        elif kind == 'enums':
            top = mod.add_cpp_namespace('en')
            for i, n in enumerate(names):
                h = top.add_cpp_namespace('h%d' % i)
                h.add_enum(n, [n + '_v'])
                h.add_function('f', 'int', [param('en::h%d::%s' % (i, n), n)])
                h.add_enum('Named', [n + 'q'])
                h.add_function('g', 'int', [param('en::h%d::Named' % i, 'a')])
        elif kind == 'values':
            top = mod.add_cpp_namespace('va')
            for i, n in enumerate(names):
                top.add_enum('V%d' % i, [n])
                top.add_class('C%d' % i).add_enum('In', [n])
        elif kind == 'containers':
            for i, n in enumerate(names):
                C = mod.add_class('K%d' % i)
                C.add_constructor([param('int', 'a')])
                C.add_copy_constructor()
                C.add_instance_attribute('v', 'int')
                mod.add_container(n, 'K%d' % i, 'vector', custom_name=n)
                mod.add_function('sum%d' % i, 'int', [param(n + ' const &', n)])
                mod.add_function('mk%d' % i, n, [param('int', 'n')])
        elif kind in ('exceptions', 'gexceptions'):
            top = mod.add_cpp_namespace('ex')
            for i, n in enumerate(names):
                e = (top if kind == 'exceptions' else mod).add_exception(n, message_rvalue='exc.what()')
                top.add_function('f%d' % i, 'int', [param('int', 'a')], throw=[e])

    def explore(M, x):
        for i, n in enumerate(names):
            x.run('%s/%s' % (kind, n), check_entity, M, x, i, n)

    def check_entity(M, x, i, n):
        x.state((kind, i))
        x.step(5)
        if kind == 'functions':
            flat = lambda v: v.v if hasattr(v, 'v') else list(v) if not isinstance(v, (int, str, type(None))) else v
            for j, w in enumerate((i, 'q%d' % i, i, None, i, [i])):
                f = getattr(getattr(M, 'r%d' % j), n)
                x.eq(flat(f(1, M.K(2))), w, 'r%d' % j)
                x.eq(flat(f(k=M.K(2), **{n: 1})), w, 'r%d, keywords' % j)
        elif kind == 'globals':
            f = getattr(M, n)
            x.eq(f(5), i * 100 + 5, 'call')
            x.eq(f(**{n: 5}), i * 100 + 5, 'call')
        elif kind == 'methods':
            A = M.me.A
            a = A()
            x.eq(getattr(a, n)(3), i + 3, 'method')
            x.eq(getattr(a, n)(**{n: 3}), i + 3, 'method, keyword')
            x.eq(getattr(a, 'call_' + n)(3), i + 3, 'call')
            D = type('D', (A,), {n: lambda self, q: q * 1000})
            x.eq(getattr(D(), 'call_' + n)(3), 3000, 'overridden')
            D = type('D', (A,), {n: lambda self, q: getattr(A, n)(self, q) + 500})
            x.eq(getattr(D(), 'call_' + n)(3), i + 503, 'overridden, calls the parent')
            x.eq(getattr(M.me.S, n)(M.K(4)), 'K4_%d' % i, 'static method')
            o = M.me.I()
            x.eq(getattr(o, n), i, 'attribute')
            setattr(o, n, 12345)
            x.eq(getattr(o, n), 12345, 'attribute')
            x.eq([m for k, m in enumerate(names) if k != i and getattr(o, m) != k], [], 'other attributes')
            x.eq(getattr(M.me.T, n), str(i), 'static attribute')
            setattr(M.me.T, n, 'set%d' % i)
            x.eq(getattr(M.me.T, n), 'set%d' % i, 'static attribute')
            setattr(M.me.T, n, str(i))
        elif kind in ('classes', 'gclasses'):
            cl = M.cl if kind == 'classes' else M
            C = getattr(cl, n)
            x.eq(C.__name__, n, 'name')
            a, b = C(3), C(**{n: 4})
            x.eq((a.v, b.v), (3, 4), 'constructed')
            x.eq((type(a) is C, a.take(b), a.take(**{n: b}), a.make().v, type(a.make2()) is C, a.make2().v), (True, 3004, 3004, 4, True, 5), 'methods')
            x.eq((a == C(3), a == b, (a + b).v, C.st(), a.vm(2), a.call(2), C(a).v), (True, False, 7, i, 5, 5, 3), 'operators')
            D = type('D', (C,), {'vm': lambda self, q: q * 1000})
            x.eq(D(1).call(3), 3000, 'overridden')
            import copy
            x.eq(copy.copy(a).v, 3, 'copy')
            try:
                a.take(getattr(cl, names[i - 1])(3))
                x.fail('takes an object of another class')
            except TypeError:
                pass
        elif kind == 'namespaces':
            N = getattr(getattr(M, 'in'), n)
            x.eq((N.f(3), N.C(4).v, N.V), (i + 3, i + 4, i), 'contents')
        elif kind == 'enums':
            h = getattr(M.en, 'h%d' % i)
            x.eq((getattr(h, n + '_v'), h.f(getattr(h, n + '_v')), getattr(h, n + 'q'), h.g(getattr(h, n + 'q'))), (i, i + 1, i + 5, i + 7), 'values')
        elif kind == 'values':
            x.eq((getattr(M.va, n), getattr(getattr(M.va, 'C%d' % i), n)), (i, i + 50), 'values')
        elif kind == 'containers':
            C = getattr(M, n)
            Ki = getattr(M, 'K%d' % i)
            a = getattr(M, 'mk%d' % i)(3)
            x.eq((type(a) is C, C.__name__, [k.v for k in a], getattr(M, 'sum%d' % i)(a), getattr(M, 'sum%d' % i)([Ki(5), Ki(6)]), getattr(M, 'sum%d' % i)(C([Ki(4)]))), (True, n, [i] * 3, 3 * i, 11, 4), 'container')
            x.eq([k.v for k in C([Ki(2), Ki(3)])], [2, 3], 'made in python')
            try:
                getattr(M, 'sum%d' % i)([3])
                x.fail('takes integers')
            except TypeError:
                pass
        elif kind in ('exceptions', 'gexceptions'):
            E = getattr((M.ex if kind == 'exceptions' else M), n)
            f = getattr(M.ex, 'f%d' % i)
            x.eq(f(0), 0, 'no error')
            try:
                f(1)
                x.fail('no error')
            except Exception as e:
                x.eq((type(e) is E, e.args, E.__name__), (True, ('m%d' % i,), n), 'error')
    return Scenario('entities_%s' % name, HEADER + '\n'.join(cpp), gen, explore)


def modules(names):
    """the name of the module itself"""
    def build(sc, wd):
        from pybindgen import Module, FileCodeSink, param
        import pybindgen.settings as st
        st.error_handler = None
        out = []
        for n in names:
            with open(os.path.join(wd, 'h_%s.h' % n), 'w') as f:
                f.write('#include <string>\nnamespace q { struct K { int v; K(int a) : v(a) {} virtual ~K() {} virtual int m(int a) { return v + a; } int c(int a) { return m(a); } }; inline int f(int a, K const &k) { return a + k.v; } }')
            mod = Module(n, cpp_namespace='::q')
            mod.add_include('"h_%s.h"' % n)
            K = mod.add_class('K', allow_subclassing=True)
            K.add_constructor([param('int', n)])
            K.add_instance_attribute('v', 'int')
            K.add_method('m', 'int', [param('int', n)], is_virtual=True)
            K.add_method('c', 'int', [param('int', n)])
            mod.add_function('f', 'int', [param('int', n), param('q::K const &', 'k')])
            p = os.path.join(wd, n + '.cc')
            with open(p, 'w') as f:
                mod.generate(FileCodeSink(f))
            out.append([n, [p], []])
        return out

    def check(x, n):
        import importlib.util
        p = [f for f in os.listdir(x.workdir) if re.match(r'^%s\.(cpython.*\.)?so$' % re.escape(n), f)]
        spec = importlib.util.spec_from_file_location(n, os.path.join(x.workdir, p[0]))
        M = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(M)
        k = M.K(**{n: 4})
        x.eq((M.__name__, M.K.__module__, M.f(1, k), M.f(k=k, **{n: 1}), k.c(2)), (n, n, 5, 5, 6), 'module')
        D = type('D', (M.K,), {'m': lambda self, a: 1000 * a})
        x.eq(D(1).c(2), 2000, 'override')
        x.step(5)

    def explore(M, x):
        for n in names:
            x.run('module/%s' % n, check, x, n)
    sc = Scenario('modules', '', None, explore, build=build)
    sc.noimport = True
    return sc


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def scenarios(tier):
    thorough = tier == 'thorough'
    out = []
    # every name with every kind in every kind of function
    cases = []
    vcases = []
    names = POOL + TYPES
    I = KD['i']
    for ctx in CONTEXTS:
        for k in KINDS:
            if ctx == 'overload' and k.tag == 'o':
                continue
            if ctx == 'default' and not k.default:
                continue
            if ctx == 'constructor' and k.out:
                continue
            if ctx == 'policy' and k.tag != 'p':
                continue
            if ctx == 'constructor' and not thorough and k.tag not in 'iskpvz':
                continue
            for n in names:
                cases.append((ctx, [n], [k]))
    for k in KINDS:
        for n in names:
            vcases.append(([n], [k]))
    for i, c in enumerate(chunks(cases, 260)):
        out.append(build_cases('single_%d' % i, c))
    for i, c in enumerate(chunks(vcases, 60)):
        out.append(build_virtual('virtual_%d' % i, c))
    # pairs of names
    kps = [('i', 's'), ('k', 'p'), ('z', 'e'), ('v', 'i'), ('s', 'x'), ('h', 'd'), ('o', 'k'), ('r', 'b')]
    pool = names if thorough else PAIRED
    cases = []
    vcases = []
    for n, (a, b) in enumerate(itertools.permutations(pool, 2)):
        ks = kps if thorough else [kps[n % len(kps)]]
        for k in ks:
            kinds = [KD[k[0]], KD[k[1]]]
            cases.append(('function', [a, b], kinds))
            if not thorough or k in kps[:3]:
                vcases.append(([a, b], kinds))
    for i, c in enumerate(chunks(cases, 260)):
        out.append(build_cases('pair_%d' % i, c))
    for i, c in enumerate(chunks(vcases, 60)):
        out.append(build_virtual('vpair_%d' % i, c))
    if thorough:
        few = ['x', 'x2', 'x3', 'py_x', 'x_ptr', 'retval', 'retval2', 'py_retval', 'value', 'name', 'args', 'self', 'K', 'keywords', 'py_x2', 'x_len']
        cases = [('function', list(t), [KD[k] for k in ('sik', 'kpz', 'zxe')[n % 3]]) for n, t in enumerate(itertools.permutations(few, 3))]
        for i, c in enumerate(chunks(cases, 260)):
            out.append(build_cases('triple_%d' % i, c))
    ents = [n for n in POOL if n not in ('True',)]
    for kind in ('functions', 'globals', 'methods', 'classes', 'gclasses', 'namespaces', 'enums', 'values', 'exceptions', 'gexceptions', 'containers'):
        ok = ents
        if kind in ('gclasses', 'gexceptions', 'containers'):
            ok = ents + API
        if kind in ('globals', 'gclasses', 'gexceptions', 'containers'):
            ok = [n for n in ok if n not in ('index', 'exp')]
        if kind in ('gclasses', 'gexceptions', 'containers'):
            ok = [n for n in ok if n not in FUNCTION_PARAMETERS]
        if kind == 'containers':
            ok = [n for n in ok if n not in ('arg', 'container', 'keywords', 'ListIter')]
        if kind == 'methods':
            ok = [n for n in ents if n != 'm_pyself']       # the one member of the helper classes that overrides virtual methods
        for i, c in enumerate(chunks(ok, 45)):
            out.append(build_entities('%s_%d' % (kind, i), c, kind))
    out.append(modules([n for n in POOL if n not in KEYWORDS]))
    return out
