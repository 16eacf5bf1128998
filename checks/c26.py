"""C26: any legal spelling of a C++ type denotes the same handler."""
import itertools
import os
import re
import subprocess
import sys
from pbmc import Scenario, REPO

LEVEL = 'exploration'
RULE = ('a model of C++ type syntax (base, template arguments, const at every level, pointers and references) enumerates all spellings of each type within the bounds; the compiler '
        'decides that each one means what the parser printed back and what TypeTraits says of it; every spelling is looked up in every role, and compiled into functions that are called')
BOUNDS = {'quick': '30 base types (all word orders of integer types, names with and without ::, nested templates), up to 3 pointer/reference levels with const at every level, 4 spacings of every spelling, '
                   'all orders of words and positions of const; 14 kinds of role; all sequences of up to 3 aliases between 4 names; all accepted spellings compiled as parameter and result by value, const, reference, const reference and pointer',
          'thorough': 'up to 4 levels, 4 aliases and every combination of spaces between the tokens of each spelling'}
NOTE = 'that two spellings denote the same type is decided by std::is_same in the compiler, not by the model'

HEADER = '''
#include <map>
#include <list>
#include <memory>
#include <cstdint>
#include <cstddef>
#include <sstream>
#include <type_traits>
struct K { int v; K(int a = 0) : v(a) {} };
struct SP { int v; SP(int a = 0) : v(a) {} };
enum E { E0, E1 };
namespace ns { struct K { int v; K(int a = 0) : v(a + 1000) {} }; enum E { F0 = 10, F1 }; namespace in { struct D { int v; D(int a = 0) : v(a + 2000) {} }; } }
struct Out { struct In { int v; In(int a = 0) : v(a + 3000) {} }; };
template <class T> struct Tp { T t; typedef T type; }; template <class A, class B> struct T2 { typedef A type; }; template <int N> struct Num { }; template <bool N, char C> struct BC { };
typedef K KAlias; typedef unsigned short ushrt;
struct Unknown {};
'''


# ------------------------------------------------------------------ model of spellings
def perms(words):
    return sorted(set(itertools.permutations(words)))


class Base(object):
    """a type without declarators: list of alternative token lists (each token list is one spelling without const)"""
    def __init__(self, key, forms):
        self.key = key
        self.forms = forms


def words(*ws):
    """all orders of the words with optional int and signed where they change nothing"""
    ws = list(ws)
    sets = [ws]
    if ws[-1] != 'int' and 'char' not in ws:
        sets.append(ws + ['int'])
    if 'unsigned' not in ws and 'char' not in ws:
        sets += [s + ['signed'] for s in sets]
    if ws == ['int']:
        sets.append(['signed'])
    if ws == ['unsigned', 'int']:
        sets.append(['unsigned'])
    out = []
    for s in sets:
        for p in perms(s):
            if list(p) not in out:
                out.append(list(p))
    return Base(' '.join(ws), out)


def name(n, alts=()):
    out = [[n], ['::' + n]]
    if '::' in n:
        parts = n.split('::')
        out.append(sum([['::', p] for p in parts], [])[1:])     # tokens that may be apart
        out.append([parts[0]] + ['::' + p for p in parts[1:]])
    for a in alts:
        out.append([a])
    return Base(n, out)


def template(n, *args, **kw):
    """args: list of (Base, declarator) or a literal token list"""
    tail = kw.get('tail')
    alts = []
    for a in args:
        if isinstance(a, list):
            alts.append([a])
        else:
            alts.append(some(spell(a[0], a[1]), 5))
    out = []
    for pre in (n, '::' + n):
        combos = list(itertools.product(*alts))
        for c in (combos if pre == n else combos[:1]):
            toks = [pre, '<']
            for i, a in enumerate(c):
                if i:
                    toks.append(',')
                toks += a
            toks.append('>')
            if tail:
                toks += tail
            out.append(toks)
    return Base('%s<%s>%s' % (n, ', '.join(' '.join(a) if isinstance(a, list) else a[0].key + decl_key(a[1]) for a in args), ''.join(tail or [])), out)


def some(l, n):
    """n of the list, with the first and the last"""
    if len(l) <= n:
        return l
    return [l[round(i * (len(l) - 1) / (n - 1.0))] for i in range(n)]


# a declarator is (const of the base, ((op, const), ...))
def decl_key(d):
    return (' const' if d[0] else '') + ''.join(op + (' const' if c else '') for op, c in d[1])


def spell(base, d):
    """all token lists: const of the base at every place among the words"""
    out = []
    tail = []
    for op, c in d[1]:
        tail.append(op)
        if c:
            tail.append('const')
    for form in base.forms:
        if not d[0]:
            out.append(form + tail)
            continue
        ints = all(re.match(r'^(unsigned|signed|short|long|int|char)$', t) for t in form)
        for pos in (range(len(form) + 1) if ints else (0, len(form))):
            out.append(form[:pos] + ['const'] + form[pos:] + tail)
    return out


def glue(a, b):
    """whether the tokens may be written without a space"""
    w = re.compile(r'[A-Za-z0-9_]')
    if w.match(a[-1]) and w.match(b[0]):
        return False
    if b.startswith('::'):
        return a in (',', '<', '*', '(') and a != '<' or bool(w.match(a[-1])) and not KEYWORD.match(a) or a == '>'
    if a == '::':
        return True
    if a in '*&' and b in '*&' and a == '&':
        return False
    return True


KEYWORD = re.compile(r'^(const|unsigned|signed|short|long|int|char)$')


def need(a, b):
    """whether a space would change the meaning (never) -- kept for symmetry"""
    return False


def spacings(toks, every):
    n = len(toks) - 1
    if n <= 0:
        return [''.join(toks), ' ' + ''.join(toks) + ' '] if every else [''.join(toks)]
    gl = [glue(a, b) for a, b in zip(toks, toks[1:])]
    seps = []
    if every and n <= 7:
        for c in itertools.product(*[('', ' ') if g else (' ',) for g in gl]):
            seps.append(c)
    else:
        seps.append([' '] * n)
        seps.append(['' if g else ' ' for g in gl])
        seps.append(['  ' if i % 2 else '\t' for i in range(n)])
        seps.append([' ' if i % 2 or not g else '' for i, g in enumerate(gl)])
    out = []
    for s in seps:
        t = toks[0] + ''.join(x + y for x, y in zip(s, toks[1:]))
        if t not in out:
            out.append(t)
    return out


INTS = [words('short'), words('unsigned', 'short'), words('int'), words('unsigned', 'int'), words('long'), words('unsigned', 'long'), words('long', 'long'), words('unsigned', 'long', 'long'),
        words('signed', 'char'), words('unsigned', 'char'), words('char')]
NAMES = [name(n) for n in ('bool', 'float', 'double', 'size_t', 'std::size_t', 'int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t', 'std::string', 'PyObject',
                           'K', 'ns::K', 'ns::in::D', 'Out::In', 'E', 'ns::E', 'KAlias')]
for b in NAMES:
    if b.key in ('bool', 'float', 'double'):
        b.forms = [[b.key]]
V = (False, ())
C = (True, ())
P = (False, (('*', False),))
CP = (True, (('*', False),))


def byname(k):
    return [b for b in INTS + NAMES if b.key == k][0]


TEMPLATES = [template('std::vector', (byname('int'), V)), template('std::vector', (byname('unsigned long'), V)), template('std::map', (byname('std::string'), V), (byname('K'), V)),
             template('std::vector', (byname('ns::K'), V)), template('std::shared_ptr', (name('SP'), V))]
TEMPLATES.append(template('std::list', (TEMPLATES[0], V)))
# only for the parser
PARSED = [template('Tp', (byname('K'), CP)), template('T2', (byname('unsigned long'), C), (byname('ns::K'), (True, (('*', True), ('&', False))))), template('Tp', (TEMPLATES[1], CP)),
          template('Num', ['3']), template('Num', ['-', '1']), template('BC', ['true'], ["'a'"]), template('Num', ['0x1F']), template('Num', ['(', '1', '+', '2', ')']),
          template('Tp', (template('T2', (byname('K'), CP), (byname('int'), V)), V), tail=['::type']), template('T2', (byname('int'), V), (template('Tp', (byname('K'), P), tail=['::type']), C), tail=['::type']),
          template('std::vector', (byname('int'), V), tail=['::iterator']), template('Tp', (template('Tp', (template('Tp', (byname('int'), C)), V)), V)), name('Unknown'),
          Base('void(*)(int, K)', [['void', '(', '*', ')', '(', 'int', ',', 'K', ')']]), Base('void', [['void']]), Base('long double', [['long', 'double'], ['double', 'long']])]
UNSUPPORTED = [name('Unknown'), Base('long double', [['long', 'double'], ['double', 'long']]), name('wchar_t'), template('Tp', (byname('int'), V)), template('std::vector', (name('Unknown'), V)),
               template('Tp', (byname('K'), V), tail=['::type']), name('NoSuch::K'), name('ns::Unknown'), name('in::D'), name('ns::SP')]


def declarators(depth):
    """all (const of the base, levels) with references last"""
    out = []
    for n in range(depth + 1):
        for ops in itertools.product('*&', repeat=n):
            if '&' in ops[:-1]:
                continue
            for cs in itertools.product((False, True), repeat=n):
                if ops and ops[-1] == '&' and cs[-1]:
                    continue
                for bc in (False, True):
                    out.append((bc, tuple(zip(ops, cs))))
        if n:
            for cs in itertools.product((False, True), repeat=n - 1):
                for bc in (False, True):
                    out.append((bc, tuple([('*', c) for c in cs] + [('&&', False)])))
    return out


# ------------------------------------------------------------------ the parser against the compiler
TEMPL = '''
template <class T> struct strip { typedef typename std::remove_cv<T>::type type; };
template <class T> struct strip<T *> { typedef typename strip<T>::type *type; };
template <class T> struct strip<T *const> { typedef typename strip<T>::type *type; };
template <class T> struct strip<T &> { typedef typename strip<T>::type &type; };
template <class T> struct strip<T &&> { typedef typename strip<T>::type &&type; };
template <class T> struct target { typedef void none; };
template <class T> struct target<T *> { typedef typename strip<T>::type type; };
template <class T> struct target<T *const> { typedef typename strip<T>::type type; };
template <class T> struct target<T &> { typedef typename strip<T>::type type; };
template <class T> struct target<T &&> { typedef typename strip<T>::type type; };
template <class T> struct mktarget { typedef T type; };
template <class T> struct mktarget<T *> { typedef typename std::add_const<T>::type *type; };
template <class T> struct mktarget<T *const> { typedef typename std::add_const<T>::type *const type; };
template <class T> struct mktarget<T &> { typedef typename std::add_const<T>::type &type; };
template <class T> struct tconst { static const bool value = std::is_const<typename std::remove_pointer<typename std::remove_reference<T>::type>::type>::value; };
template <class T> struct tconst<T &&> { static const bool value = std::is_const<T>::value; };
template <class T> struct tconst<T &> { static const bool value = std::is_const<T>::value; };
#define SAME(a, ...) static_assert(std::is_same<a, std::remove_pointer<void (*)(__VA_ARGS__)>::type>::value, "")
template <class T> struct id { typedef T type; };
'''


def explore_parser(x, bases, depth, every):
    sys.path.insert(0, REPO)
    from pybindgen.typehandlers.ctypeparser import TypeTraits, normalize_type_string
    lines = []      # (case, what, text)
    for base in bases:
        for d in declarators(depth):
            if base.key == 'void' and d[1][:1] in ((('&', False),), (('&&', False),)):
                continue
            if base.key.startswith('void(') and (d[0] or d[1]):
                continue
            key = base.key + decl_key(d)
            if not x.case(key):
                continue
            by_form = {}
            for toks in spell(base, d):
                ident = tuple(t for t in toks if t != 'const' and t != '::')
                ident = (''.join(ident) if '<' not in ident else None)
                for s in spacings(toks, every):
                    x.step()
                    try:
                        t = TypeTraits(s)
                        norm = normalize_type_string(s)
                        again = normalize_type_string(norm)
                    except Exception as e:
                        x.fail('%r: %s: %s' % (s, type(e).__name__, e))
                        continue
                    x.eq(again, norm, 'normalize_type_string of %r twice' % s)
                    x.state((key, norm))
                    by_form.setdefault(tuple(w for w in re.split(r'\s+|(::)|([<>,*&()])', s) if w and w not in ('const', '::')), set()).add(norm)
                    r = []
                    r.append(('normalize_type_string', 'std::is_same<X, id<%s>::type>::value' % norm))
                    r.append(('ctype', 'std::is_same<X, id<%s>::type>::value' % t.ctype))
                    r.append(('ctype_no_const', 'std::is_same<std::remove_const<X>::type, id<%s>::type>::value' % t.ctype_no_const))
                    r.append(('ctype_no_modifiers', 'std::is_same<strip<X>::type, id<%s>::type>::value' % t.ctype_no_modifiers))
                    r.append(('ctype_no_const_no_ref', 'std::is_same<std::remove_cv<std::remove_reference<X>::type>::type, id<%s>::type>::value' % t.ctype_no_const_no_ref))
                    r.append(('type_is_const', '%sstd::is_const<X>::value' % ('' if t.type_is_const else '!')))
                    r.append(('type_is_pointer', '%sstd::is_pointer<X>::value' % ('' if t.type_is_pointer else '!')))
                    r.append(('type_is_reference', '%sstd::is_reference<X>::value' % ('' if t.type_is_reference else '!')))
                    if d[1]:
                        r.append(('target_is_const', '%stconst<X>::value' % ('' if t.target_is_const else '!')))
                        r.append(('target', 'std::is_same<target<X>::type, id<%s>::type>::value' % t.target))
                        if d[1][-1][0] != '&&':
                            t2 = TypeTraits(s)
                            t2.make_target_const()
                            r.append(('make_target_const', 'std::is_same<mktarget<X>::type, id<%s>::type>::value && %s' % (t2.ctype, 'true' if t2.target_is_const else 'false')))
                    else:
                        if t.target is not None:
                            x.fail('%r: target %s' % (s, t.target))
                    if not d[1] or d[1][-1][0] == '*':
                        t3 = TypeTraits(s)
                        t3.make_const()
                        r.append(('make_const', 'std::is_same<std::add_const<X>::type, id<%s>::type>::value' % t3.ctype))
                    if base.key == 'void' and not d[1]:
                        r = [q for q in r if 'target' not in q[0]]
                    if base.key.startswith('void('):
                        r = [q for q in r if 'is_same' in q[1] and 'make' not in q[0]]
                    lines.append((key, s, [(w, e) for w, e in r]))
            for f, norms in by_form.items():
                if len(norms) != 1:
                    x.fail('spellings of %s (%s) have different canonical forms: %s' % (key, ' '.join(f), sorted(norms)[:4]))
    # one translation unit; each assertion on a line of its own
    path = os.path.join(x.workdir, 'asserts%d.cc' % x.shard)
    where = {}
    seen = set()
    with open(path, 'w') as f:
        text = '#include <Python.h>\n#include <string>\n#include <vector>\n' + HEADER + TEMPL
        f.write(text)
        ln = text.count('\n') + 1
        for i, (key, s, r) in enumerate(lines):
            todo = [(w, e) for w, e in r if (key, e) not in seen]
            if not todo:
                continue
            ref = re.sub(r'\s', ' ', s)
            f.write('namespace n%d { typedef id<%s>::type X;\n' % (i, ref))
            where[ln] = (key, s, 'the spelling itself')
            ln += 1
            for w, e in todo:
                seen.add((key, e))
                f.write('static_assert(%s, "");\n' % e)
                where[ln] = (key, s, '%s: %s' % (w, e))
                ln += 1
            f.write('}\n')
            ln += 1
    import sysconfig
    r = subprocess.run(['g++', '-std=gnu++14', '-fsyntax-only', '-w', '-fmax-errors=0', '-I' + sysconfig.get_path('include'), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
    bad = {}
    for m in re.finditer(r'asserts\d+\.cc:(\d+):\d+: error: (.*)', r.stdout):
        w = where.get(int(m.group(1)))
        if w:
            bad.setdefault(w, m.group(2))
    if r.returncode and not bad:
        x.case('compiler')
        x.fail(r.stdout[:1000])
    n = {}
    for (key, s, what), msg in sorted(bad.items()):
        n[key] = n.get(key, 0) + 1
        if n[key] > 3:
            continue
        x.key = key
        x.fail('[%s] %r: %s' % (key, s, what))


# ------------------------------------------------------------------ lookup in every role
def declare(mod, cls=None):
    from pybindgen.typehandlers import smart_ptr, add_type_alias
    import pybindgen
    for n in ('K', 'SP'):
        c = mod.add_class(n, **({'memory_policy': smart_ptr.StdSharedPtr('SP')} if n == 'SP' else {}))
        c.add_constructor([])
        c.add_constructor([pybindgen.param('int', 'a')])
        c.add_copy_constructor()
        c.add_instance_attribute('v', 'int')
    ns = mod.add_cpp_namespace('ns')
    inn = ns.add_cpp_namespace('in')
    out = mod.add_class('Out')
    out.add_constructor([])
    for m, n, kw in ((ns, 'K', {}), (inn, 'D', {}), (mod, 'In', {'outer_class': out})):
        c = m.add_class(n, **kw)
        c.add_constructor([])
        c.add_constructor([pybindgen.param('int', 'a')])
        c.add_copy_constructor()
        c.add_instance_attribute('v', 'int')
    mod.add_enum('E', ['E0', 'E1'])
    ns.add_enum('E', ['F0', 'F1'])
    for q in ('', '*', '&'):
        add_type_alias('K' + q, 'KAlias' + q)
    add_type_alias('unsigned short', 'ushrt')
    mod.add_container('std::vector<int>', 'int', 'vector')
    mod.add_container('std::vector<unsigned long>', 'unsigned long', 'vector')
    mod.add_container('std::map<std::string, K>', ('std::string', 'K'), 'map')
    mod.add_container('std::vector<ns::K>', 'ns::K', 'vector')
    mod.add_container('std::list<std::vector<int> >', 'std::vector<int>', 'list')


ROLES = [('param', {}), ('param', {'direction': 1}), ('param', {'direction': 2}), ('param', {'direction': 3}), ('param', {'transfer_ownership': False}), ('param', {'transfer_ownership': True}),
         ('param', {'default_value': '0'}), ('retval', {}), ('retval', {'caller_owns_return': True}), ('retval', {'caller_owns_return': False}), ('retval', {'reference_existing_object': True}),
         ('attribute', {}), ('static', {}), ('container', {})]


def look(role, s, kw, n):
    import pybindgen
    from pybindgen.typehandlers.base import Parameter, ReturnValue
    try:
        if role == 'param':
            h = Parameter.new(s, 'x', **kw)
        elif role == 'retval':
            h = ReturnValue.new(s, **kw)
        elif role == 'attribute':
            K = MOD[0].add_class('Attr%d' % n)
            K.add_instance_attribute('a', s)
            return 'ok'
        elif role == 'static':
            K = MOD[0].add_class('Attr%d' % n)
            K.add_static_attribute('a', s)
            return 'ok'
        else:
            MOD[0].add_container('std::deque%d<%s>' % (n, s), s, 'deque')
            return 'ok'
    except Exception as e:
        return type(e).__name__
    c = getattr(h, 'cpp_class', None)
    return (type(h).__name__, getattr(c, 'full_name', None), getattr(getattr(h, 'enum', None), 'full_name', None), getattr(getattr(h, 'container_type', None), 'full_name', None))


MOD = []


def explore_lookup(x, bases, depth, every, supported):
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    from pybindgen import Module
    import pybindgen.settings as st
    st.error_handler = None
    MOD[:] = [Module('m')]
    declare(MOD[0])
    n = 0
    for base in bases:
        for d in declarators(depth):
            key = base.key + decl_key(d)
            for role, kw in ROLES:
                k = '%s/%s/%s' % (key, role, ','.join('%s=%s' % i for i in kw.items()))
                if not x.case(k):
                    continue
                first = None
                for toks in spell(base, d):
                    for s in spacings(toks, every):
                        n += 1
                        r = look(role, s, kw, n)
                        x.step()
                        if first is None:
                            first = (s, r)
                            x.state((k, r))
                        if not supported:
                            # whatever else may be wrong with the role, an unknown type is a type lookup error
                            if r != 'TypeLookupError':
                                x.fail('%r: %s, though the type is not supported' % (s, r))
                        elif r != first[1]:
                            x.fail('%r: %s, but %r: %s' % (s, r, first[0], first[1]))


# ------------------------------------------------------------------ aliases: every graph of them
def explore_aliases(x, depth):
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    from pybindgen import Module
    from pybindgen.typehandlers.base import add_type_alias, Parameter, ReturnValue, TypeLookupError
    import pybindgen.settings as st
    st.error_handler = None
    mod = Module('m')
    count = 0
    forms = ('%s', '::%s', '  %s ', 'const %s')
    pairs = [(a, b) for a in 'abcd' for b in 'abcd' if a != b]
    for n in range(depth + 1):
        for seq in itertools.product(pairs, repeat=n):
            for order in ((0, 1) if n else (0,)):
                key = 'aliases/%s/%d' % (','.join(a + b for a, b in seq), order)
                if not x.case(key):
                    continue
                count += 1
                nm = lambda c: 'Al%d%s' % (count, c)
                if not order:
                    K = mod.add_class(nm('a'))
                for a, b in seq:
                    add_type_alias(nm(a), nm(b))
                    x.step()
                if order:
                    K = mod.add_class(nm('a'))
                reach = {'a'}
                for _ in seq:
                    for a, b in seq:
                        if a in reach or b in reach:
                            reach |= {a, b}
                x.state(tuple(sorted(reach)))
                for c in 'abcd':
                    for f in forms:
                        for new in (lambda s: Parameter.new(s, 'x'), ReturnValue.new):
                            try:
                                got = new(f % nm(c)).cpp_class is K
                            except TypeLookupError:
                                got = False
                            x.eq(got, c in reach, '%s taken for the class (%s)' % (c, key))
                            x.step()
    for base in INTS + [byname(k) for k in ('double', 'std::string', 'bool')]:
        for i, toks in enumerate(base.forms):
            if not x.case('of/%s' % ' '.join(toks)):
                continue
            new = 'New%d_%d' % (INTS.index(base) if base in INTS else 99 + len(base.key), i)
            add_type_alias(' '.join(toks), new)
            try:
                x.eq(type(Parameter.new(new, 'x')), type(Parameter.new(base.key, 'x')), 'handler of an alias')
            except TypeLookupError as e:
                x.fail('an alias of %s: %s' % (' '.join(toks), e))


# ------------------------------------------------------------------ compiled: each spelling as parameter and result
INT_RANGE = {'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1), 'int': (-2**31, 2**31 - 1), 'long': (-2**63, 2**63 - 1), 'unsigned long': (0, 2**64 - 1),
             'long long': (-2**63, 2**63 - 1), 'unsigned long long': (0, 2**64 - 1), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'unsigned int': (0, 2**32 - 1)}
SHOW = '''
template <class T> std::string show(T const &v) { std::ostringstream o; o << +v; return o.str(); }
inline std::string show(bool v) { return v ? "T" : "F"; } inline std::string show(std::string const &v) { return v; } inline std::string show(K const &v) { return show(v.v); } inline std::string show(ns::K const &v) { return show(v.v); }
inline std::string show(ns::in::D const &v) { return show(v.v); } inline std::string show(Out::In const &v) { return show(v.v); } inline std::string show(std::shared_ptr<SP> const &v) { return v ? show(v->v) : "null"; }
inline std::string show(E v) { return show(int(v)); } inline std::string show(ns::E v) { return show(int(v)); }
template <class T> std::string show(std::vector<T> const &v) { std::string r; for (auto &a : v) r += show(a) + ","; return r; }
template <class T> std::string show(std::list<T> const &v) { std::string r; for (auto &a : v) r += show(a) + ";"; return r; }
template <class T, class U> std::string show(std::map<T, U> const &v) { std::string r; for (auto &a : v) r += show(a.first) + "=" + show(a.second) + ","; return r; }
template <class T> T &keep(T const &v) { static T k; k = v; return k; }
template <class T> struct plain { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
'''

# how a spelling is used: (tag, declarator, keywords, kind)
USES = [('v', (False, ()), {}, 'param'), ('c', (True, ()), {}, 'param'), ('cr', (True, (('&', False),)), {}, 'param'), ('r', (False, (('&', False),)), {'direction': 1}, 'param'),
        ('rio', (False, (('&', False),)), {'direction': 3}, 'inout'), ('ro', (False, (('&', False),)), {'direction': 2}, 'out'), ('pio', (False, (('*', False),)), {'direction': 3}, 'pinout'),
        ('po', (False, (('*', False),)), {'direction': 2}, 'pout'), ('p', (False, (('*', False),)), {'transfer_ownership': False}, 'pparam'), ('cp', (True, (('*', True),)), {'transfer_ownership': False}, 'pparam'),
        ('rv', (False, ()), {}, 'ret'), ('rc', (True, ()), {}, 'ret'), ('rcr', (True, (('&', False),)), {}, 'retref'), ('rp', (False, (('*', False),)), {'caller_owns_return': True}, 'retptr')]


def accepted(base, d, kw, kind, Parameter, ReturnValue):
    s = ' '.join(spell(base, d)[0])
    try:
        if kind.startswith('ret'):
            ReturnValue.new(s, **kw)
        else:
            Parameter.new(s, 'x', **kw)
    except Exception:
        return False
    return True


def values(M, base):
    k = base.key
    if k in INT_RANGE:
        lo, hi = INT_RANGE[k]
        return [lo, hi, lo - 1, hi + 1, 0, 7, 'x', 1.5, None]
    if k == 'char':
        return [b'a', b'\xff', b'', 'x', 3]
    m = re.match(r'^(u?)int(\d+)_t$', k)
    if m:
        b = int(m.group(2))
        lo, hi = (0, 2**b - 1) if m.group(1) else (-2**(b - 1), 2**(b - 1) - 1)
        return [lo, hi, lo - 1, hi + 1, 7, 'x']
    if k.endswith('size_t'):
        return [0, 2**64 - 1, -1, 2**64, 'x']
    if k in ('float', 'double'):
        return [1.5, -0.25, 1e30, 'x', 3]
    if k == 'bool':
        return [True, False, 0, 3, [], 'x']
    if k == 'std::string':
        return ['', 'a', b'x', 'x' * 99, 3]
    if k == 'E':
        return [M.E0, M.E1, 'x', 1.5]
    if k == 'ns::E':
        return [M.ns.F0, M.ns.F1, 'x', 1.5]
    ks = {'K': M.K, 'KAlias': M.K, 'ns::K': M.ns.K, 'ns::in::D': getattr(M.ns, 'in').D, 'Out::In': M.Out.In, 'std::shared_ptr<SP>': M.SP}
    if k in ks:
        return [ks[k](3), M.K(5), M.ns.K(6), getattr(M.ns, 'in').D(7), M.Out.In(8), M.SP(9), 3, None]
    if k in ('std::vector<int>', 'std::vector<unsigned long>'):
        return [[1, 2], [], [-1], [2**63], ['a'], 3, None]
    if k == 'std::vector<ns::K>':
        return [[M.ns.K(3)], [M.K(3)], [], 3]
    if k == 'std::list<std::vector<int>>' or k.startswith('std::list'):
        return [[[1], []], [1], 3]
    if k.startswith('std::map'):
        return [[('a', M.K(3))], [(1, M.K(3))], [], 3]
    raise AssertionError(k)


def flat(v):
    if isinstance(v, (int, float, str, bytes, bool)) or v is None:
        return v
    if isinstance(v, (tuple, list)):
        return [flat(e) for e in v]
    if hasattr(v, 'v'):
        return [type(v).__qualname__, v.v]
    return [type(v).__name__] + [flat(e) for e in v]


def outcome(f, *a):
    try:
        return ['ok', flat(f(*a))]
    except Exception as e:
        return [type(e).__name__]


COMPILED = INTS + [b for b in NAMES if b.key != 'PyObject'] + TEMPLATES


def compiled(bi, every, part=0, parts=1):
    base = COMPILED[bi]

    def plan():
        sys.path.insert(0, REPO)
        from pybindgen.typehandlers.base import Parameter, ReturnValue
        out = []
        for tag, d, kw, kind in USES:
            if not accepted(base, d, kw, kind, Parameter, ReturnValue):
                continue
            if kind == 'retref' and base.key in INT_RANGE:
                pass
            l = spell(base, d)
            if not every:
                l = some(l, 40)
            for i, toks in enumerate(l):
                sp = spacings(toks, False)
                s = sp[i % len(sp)]
                if i % parts == part or i == 0:
                    out.append((tag, kind, kw, i, s))
        return out

    def build(sc, wd):
        import warnings
        warnings.simplefilter('ignore')
        import pybindgen
        from pybindgen import Module, FileCodeSink
        import pybindgen.settings as st
        st.error_handler = None
        mod = Module(sc.modname)
        mod.add_include('"%s.h"' % sc.modname)
        declare(mod)
        decls = []
        names = []
        for tag, kind, kw, i, s in plan():
            f = '%s_%d' % (tag, i)
            t = re.sub(r'\s', ' ', s)
            names.append((tag, kind, i, s))
            p = 'plain<%s>::type' % t
            pp = 'plain<std::remove_pointer<plain<%s>::type>::type>::type' % t
            if kind == 'param':
                decls.append('inline std::string %s(%s a) { return show(a); }' % (f, t))
                mod.add_function(f, 'std::string', [pybindgen.param(s, 'a', **kw)])
            elif kind == 'pparam':
                decls.append('inline std::string %s(%s a) { return a ? show(*a) : "null"; }' % (f, t))
                mod.add_function(f, 'std::string', [pybindgen.param(s, 'a', **kw)])
            elif kind == 'inout':
                decls.append('inline std::string %s(%s a) { std::string r = show(a); a = %s(); return r; }' % (f, t, p))
                mod.add_function(f, 'std::string', [pybindgen.param(s, 'a', **kw)])
            elif kind == 'pinout':
                decls.append('inline std::string %s(%s a) { std::string r = show(*a); *a = %s(); return r; }' % (f, t, pp))
                mod.add_function(f, 'std::string', [pybindgen.param(s, 'a', **kw)])
            elif kind == 'out':
                decls.append('inline void %s(%s a) { a = keep(%s()); }' % (f, t, p))
                mod.add_function(f, None, [pybindgen.param(s, 'a', **kw)])
            elif kind == 'pout':
                decls.append('inline void %s(%s a) { *a = keep(%s()); }' % (f, t, pp))
                mod.add_function(f, None, [pybindgen.param(s, 'a', **kw)])
            else:
                arg = '' if kind != 'retptr' else ''
                if kind == 'retptr':
                    decls.append('inline %s %s() { return new %s(); }' % (t, f, pp))
                elif kind == 'retref':
                    decls.append('inline %s %s() { return keep(%s()); }' % (t, f, p))
                else:
                    decls.append('inline %s %s() { return %s(); }' % (t, f, p))
                mod.add_function(f, pybindgen.retval(s, **kw), [])
            del kw
        with open(os.path.join(wd, sc.modname + '_f.h'), 'w') as o:
            o.write('\n'.join(decls))
        mod.add_include('"%s_f.h"' % sc.modname)
        path = os.path.join(wd, sc.modname + '.cc')
        with open(path, 'w') as o:
            mod.generate(FileCodeSink(o))
        return [[sc.modname, [path], []]]

    def check(M, x, names, ref):
        for f in names:
            vals = values(M, base)      # anew: the function may change them
            fn = getattr(M, f, None)
            if fn is None:
                x.fail('%s is missing' % f)
                continue
            tag = f.rsplit('_', 1)[0]
            args = vals
            if tag in ('rv', 'rc', 'rcr', 'rp', 'ro', 'po'):
                r = [outcome(fn)]
            else:
                r = [outcome(fn, v) for v in args]
            x.step(len(r))
            x.state((base.key, tag, repr(r)))
            if tag not in ref:
                ref[tag] = r
                if not any(q[0] == 'ok' for q in r):
                    x.fail('%s: no value is accepted: %s' % (f, r))
            elif r != ref[tag]:
                x.fail('%s behaves unlike %s_0: %s, not %s' % (f, tag, r, ref[tag]))

    def explore(M, x):
        names = [n for n in dir(M) if re.match(r'^(%s)_\d+$' % '|'.join(u[0] for u in USES), n)]
        names.sort(key=lambda n: (n.rsplit('_', 1)[0], int(n.rsplit('_', 1)[1])))
        tags = {}
        for n in names:
            tags.setdefault(n.rsplit('_', 1)[0], []).append(n)
        for tag, l in tags.items():
            x.run('%s/%s' % (base.key, tag), check, M, x, l, {})
    nm = 'built_' + re.sub(r'\W+', '_', base.key) + ('_%d' % part if parts > 1 else '')
    return Scenario(nm, HEADER + SHOW, None, explore, build=build)


def scenarios(tier):
    thorough = tier == 'thorough'
    depth = 4 if thorough else 3
    nothing = lambda sc, wd: []
    out = []
    for i, bases in enumerate((INTS, NAMES, TEMPLATES, PARSED)):
        out.append(Scenario('parser_%d' % i, '', None, lambda M, x, bases=bases: explore_parser(x, bases, depth, thorough), build=nothing, compile=False, shards=8))
    for i, bases in enumerate((INTS, NAMES, TEMPLATES)):
        out.append(Scenario('lookup_%d' % i, '', None, lambda M, x, bases=bases: explore_lookup(x, bases, 2, thorough, True), build=nothing, compile=False, shards=8))
    out.append(Scenario('unsupported', '', None, lambda M, x: explore_lookup(x, UNSUPPORTED, 2, thorough, False), build=nothing, compile=False, shards=8))
    out.append(Scenario('aliases', '', None, lambda M, x: explore_aliases(x, 4 if thorough else 3), build=nothing, compile=False, shards=8))
    for i in range(len(COMPILED)):
        out.append(compiled(i, thorough))
    return out
