"""C19: operators and protocols compute exactly what the C++ operators compute."""
import gc
import itertools
import operator
import sys
from pbmc import Scenario

LEVEL = 'exploration'
BOUNDS = {'quick': 'a class for every single operator, every pair of operators and all but one of the sixteen declarable ones; every ordered choice of up to two of '
                   'six overloads of a binary, of an in-place operator; base and derived class with every split of six operators; each x all ordered pairs '
                   'of thirteen operands; sequence protocol: each of its methods alone, with one other and all together, every index around each '
                   'bound, word size and type; str() of ten texts',
          'thorough': 'ordered choices of up to three overloads, and the same spaces again under AddressSanitizer'}
ASSUMPTIONS = ['an in-place operator may leave its result in a new object, as Python lets it',
               'operands are default constructible and copyable; the C++ operators do not throw']

BIN = ['+', '-', '*', '/']
INP = ['+=', '-=', '*=', '/=']
CMP = ['<', '<=', '==', '!=', '>=', '>']
OPS = BIN + INP + ['neg'] + CMP + ['str']
PYOP = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
        '+=': operator.iadd, '-=': operator.isub, '*=': operator.imul, '/=': operator.itruediv,
        '<': operator.lt, '<=': operator.le, '==': operator.eq, '!=': operator.ne, '>=': operator.ge, '>': operator.gt}
REFL = {'<': '>', '<=': '>=', '==': '==', '!=': '!=', '>=': '<=', '>': '<'}

# the operators are made so that no two of them, nor the two orders of
# operands, agree on the values used
PRE = r'''
#include <sstream>
struct V0 { Track t; int v; V0(int v_ = 0) : v(v_) {} int get() const { t.use(); return v; } };
'''
DEFV = r'''
struct N : V0 { N(int v_ = 0) : V0(v_) {} };
inline N operator+(N const &a, N const &b) { return N(a.get() * 7 + b.get() * 3 + 1); }
inline N operator-(N const &a, N const &b) { return N(a.get() * 7 - b.get() * 3 + 2); }
inline N operator*(N const &a, N const &b) { return N(a.get() * 11 - b.get() * 5 + 3); }
inline N operator/(N const &a, N const &b) { return N(a.get() * 13 - b.get() * 2 + 4); }
inline N &operator+=(N &a, N const &b) { a.v = a.get() * 17 + b.get() * 3 + 5; return a; }
inline N &operator-=(N &a, N const &b) { a.v = a.get() * 17 - b.get() * 3 + 6; return a; }
inline N &operator*=(N &a, N const &b) { a.v = a.get() * 19 - b.get() * 5 + 7; return a; }
inline N &operator/=(N &a, N const &b) { a.v = a.get() * 23 - b.get() * 2 + 8; return a; }
inline N operator-(N const &a) { return N(-a.get() * 2 + 9); }
inline bool operator<(N const &a, N const &b) { return a.get() % 4 < b.get() % 4; }
inline bool operator<=(N const &a, N const &b) { return a.get() % 3 <= b.get() % 3; }
inline bool operator==(N const &a, N const &b) { return a.get() % 2 == b.get() % 2; }
inline bool operator!=(N const &a, N const &b) { return a.get() % 3 != b.get() % 3; }
inline bool operator>=(N const &a, N const &b) { return a.get() % 5 >= b.get() % 5; }
inline bool operator>(N const &a, N const &b) { return a.get() > b.get(); }
inline std::ostream &operator<<(std::ostream &o, N const &a) { return o << "N<" << a.get() << ">"; }
'''


def rem(a, n):
    return a - n * int(a / n)


FN = {'+': lambda a, b: a * 7 + b * 3 + 1, '-': lambda a, b: a * 7 - b * 3 + 2, '*': lambda a, b: a * 11 - b * 5 + 3, '/': lambda a, b: a * 13 - b * 2 + 4,
      '+=': lambda a, b: a * 17 + b * 3 + 5, '-=': lambda a, b: a * 17 - b * 3 + 6, '*=': lambda a, b: a * 19 - b * 5 + 7,
      '/=': lambda a, b: a * 23 - b * 2 + 8, 'neg': lambda a: -a * 2 + 9,
      '<': lambda a, b: rem(a, 4) < rem(b, 4), '<=': lambda a, b: rem(a, 3) <= rem(b, 3), '==': lambda a, b: rem(a, 2) == rem(b, 2),
      '!=': lambda a, b: rem(a, 3) != rem(b, 3), '>=': lambda a, b: rem(a, 5) >= rem(b, 5), '>': lambda a, b: a > b,
      'str': lambda a: '<%d>' % a}


def declare(c, ops):
    for op in ops:
        if op in BIN:
            c.add_binary_numeric_operator(op)
        elif op in INP:
            c.add_inplace_numeric_operator(op)
        elif op == 'neg':
            c.add_unary_numeric_operator('-')
        elif op == 'str':
            c.add_output_stream_operator()
        else:
            c.add_binary_comparison_operator(op)


def subsets():
    out = [()] + [(o,) for o in OPS] + list(itertools.combinations(OPS, 2))
    out += [tuple(o for o in OPS if o != d) for d in OPS] + [tuple(OPS)]
    return out


def outcome(f, *args):
    try:
        return ('ok', f(*args))
    except Exception as e:
        return ('exc', type(e).__name__)


class Foreign(object):
    pass


class Friendly(object):
    """an operand that knows what to do with everything"""
    def __radd__(self, o):
        return 'radd'
    __rsub__ = __rmul__ = __rtruediv__ = __radd__
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = lambda self, o: 'cmp'
    __hash__ = None


def expected(ops, op, a, b, same):
    """a, b: int values of two N, or None; returns 'V' value, bool, or TypeError"""
    if op in BIN:
        return ('V', FN[op](a, b)) if op in ops else TypeError
    if op in INP:
        if op in ops:
            return ('V', FN[op](a, b))
        return expected(ops, op[0], a, b, same)
    if op in ops:
        return FN[op](a, b)
    if REFL[op] in ops:
        return FN[REFL[op]](b, a)
    if op == '==':
        return same
    if op == '!=':
        # what is not equal is different, declared or not
        return same is False if '==' not in ops else None
    return TypeError


def check_ops(x, m, n, ops, gil=False):
    C = getattr(m, n)
    values = [-3, 0, 1, 4, 5]
    label = ','.join(ops)
    objs = [C(v) for v in values]
    other = m.Other(4)
    foreign = [('int', 3), ('float', 1.5), ('None', None), ('str', 'a'), ('foreign', Foreign()), ('other', other), ('type', C), ('module', m)]
    friendly = Friendly()
    lib_live = m.live()
    for op in BIN + INP + CMP:
        f = PYOP[op]
        for i, a in enumerate(objs):
            for j, b in enumerate(objs):
                x.case('%s %s(%d %s %d)' % (label, 'same' if i == j else '', values[i], op, values[j]))
                x.step()
                exp = expected(ops, op, values[i], values[j], i == j)
                got = outcome(f, a, b)
                if exp is TypeError:
                    x.eq(got, ('exc', 'TypeError'), 'no such operator')
                elif exp is None:
                    x.check(got[0] == 'ok' and isinstance(got[1], bool), 'got %r' % (got,))
                elif isinstance(exp, tuple):
                    if not x.check(got[0] == 'ok' and type(got[1]) is C, 'got %r' % (got,)):
                        continue
                    x.eq(got[1].get(), exp[1], 'value')
                    if op in INP and got[1] is a:
                        # the in-place result may be the object itself
                        objs[i] = a = C(values[i])
                    else:
                        x.eq(a.get(), values[i], 'left operand afterwards')
                else:
                    x.check(got[0] == 'ok' and got[1] is exp, 'got %r, expected %r' % (got, exp))
                x.eq(b.get() if i != j else values[j], values[j], 'right operand afterwards')
                got = None
        for i, a in enumerate(objs[:2]):
            for fname, o in foreign:
                for left in (False, True):
                    x.case('%s %s' % (label, '%s %s %d' % (fname, op, values[i]) if left else '%d %s %s' % (values[i], op, fname)))
                    x.step()
                    if fname == 'str' and left and op in ('%', '*'):
                        pass
                    got = outcome(f, o, a) if left else outcome(f, a, o)
                    if op in ('==', '!='):
                        x.check(got == ('ok', op == '!='), 'got %r' % (got,))
                    else:
                        x.eq(got, ('exc', 'TypeError'), 'foreign operand')
                    x.eq(a.get(), values[i], 'operand afterwards')
            x.case('%s %d %s friendly' % (label, values[i], op))
            x.eq(outcome(f, a, friendly), ('ok', 'cmp' if op in CMP else 'radd'), 'an operand that accepts the other')
    for i, a in enumerate(objs):
        x.case('%s -(%d)' % (label, values[i]))
        x.step()
        got = outcome(operator.neg, a)
        if 'neg' in ops:
            if x.check(got[0] == 'ok' and type(got[1]) is C, 'got %r' % (got,)):
                x.eq(got[1].get(), FN['neg'](values[i]), 'value')
        else:
            x.eq(got, ('exc', 'TypeError'), 'no such operator')
        got = None
        for un in (operator.pos, operator.invert, abs, int, float):
            x.eq(outcome(un, a), ('exc', 'TypeError'), 'never declared')
        x.case('%s str(%d)' % (label, values[i]))
        x.step()
        if 'str' in ops:
            x.eq(outcome(str, a), ('ok', n + FN['str'](values[i])), 'str')
            x.eq(outcome('{}'.format, a), ('ok', n + FN['str'](values[i])), 'format')
        else:
            x.check(str(a) == repr(a), 'str')
        x.check('<' in repr(a) and n in repr(a), 'repr')
        x.eq(a.get(), values[i], 'operand afterwards')
    gc.collect()
    x.eq(m.live(), lib_live, '%s: C++ objects alive afterwards' % label)
    x.eq(m.bad(), 0, '%s: uses of dead objects' % label)


def subset_scenarios():
    allsub = subsets()
    out = []
    k = 8
    for i in range(k):
        mine = [(j, s) for j, s in enumerate(allsub) if j % k == i]

        def gen(mod, mine=mine):
            from pybindgen import param
            mod.add_function('pbmc_live', 'int', [], custom_name='live')
            mod.add_function('pbmc_bad', 'int', [], custom_name='bad')
            o = mod.add_class('Other')
            o.add_constructor([param('int', 'v', default_value='0')])
            for j, s in mine:
                c = mod.add_class('N%d' % j)
                c.add_constructor([param('int', 'v', default_value='0')])
                c.add_copy_constructor()
                c.add_method('get', 'int', [], is_const=True)
                declare(c, s)

        def explore(m, x, mine=mine):
            for j, s in mine:
                x.state(s)
                check_ops(x, m, 'N%d' % j, s)

        header = PRE + 'struct Other { int v; Other(int v_ = 0) : v(v_) {} };\n' + '\n'.join(
            DEFV.replace('"N<"', '"N%d<"' % j).replace('N ', 'N%d ' % j).replace('N(', 'N%d(' % j).replace('N :', 'N%d :' % j) for j, s in mine)
        out.append(Scenario('subset%d' % i, header, gen, explore))
    return out


# --- overloads with several operand types ---------------------------------

OVER_PRE = r'''
struct W : V0 { W(int v_ = 0) : V0(v_) {} };
struct R : V0 { R(int v_ = 0) : V0(v_) {} };
struct DM;
'''
# overload: (result, left, right) and what the C++ operator computes
OVER = {
    'self': ('M', 'M', 'M', lambda a, b: a * 3 + b + 1),
    'int': ('M', 'M', 'int', lambda a, b: a * 5 + b + 2),
    'dbl': ('R', 'M', 'double', lambda a, b: a * 7 + int(-1 if b > 1e6 else b * 4) + 3),
    'w': ('W', 'M', 'W', lambda a, b: a * 11 + b + 4),
    'wl': ('M', 'W', 'M', lambda a, b: a * 13 + b + 5),
    'str': ('M', 'M', 'std::string', lambda a, b: a * 17 + len(b) + 6),
    'bool': ('R', 'M', 'bool', lambda a, b: a * 19 + int(bool(b)) + 7),
}
DEFM = r'''
struct M : V0 { M(int v_ = 0) : V0(v_) {} };
inline M operator+(M const &a, M const &b) { return M(a.get() * 3 + b.get() + 1); }
inline M operator+(M const &a, int b) { return M(a.get() * 5 + b + 2); }
inline R operator+(M const &a, double b) { return R(a.get() * 7 + int(b > 1e6 ? -1 : b * 4) + 3); }
inline W operator+(M const &a, W const &b) { return W(a.get() * 11 + b.get() + 4); }
inline M operator+(W const &a, M const &b) { return M(a.get() * 13 + b.get() + 5); }
inline M operator+(M const &a, std::string const &b) { return M(a.get() * 17 + int(b.size()) + 6); }
inline R operator+(M const &a, bool b) { return R(a.get() * 19 + int(b) + 7); }
inline M &operator+=(M &a, M const &b) { a.v = a.get() * 3 + b.get() + 1; return a; }
inline M &operator+=(M &a, int b) { a.v = a.get() * 5 + b + 2; return a; }
inline M &operator+=(M &a, double b) { a.v = a.get() * 7 + int(b > 1e6 ? -1 : b * 4) + 3; return a; }
inline M &operator+=(M &a, W const &b) { a.v = a.get() * 11 + b.get() + 4; return a; }
inline M &operator+=(M &a, std::string const &b) { a.v = a.get() * 17 + int(b.size()) + 6; return a; }
inline M &operator+=(M &a, bool b) { a.v = a.get() * 19 + int(b) + 7; return a; }
'''


def takes(kind, val):
    """does the converter of this right operand accept the value?"""
    t = type(val).__name__
    if kind in ('self', 'wl'):
        return t == 'M' or t == 'MSub'
    if kind == 'w':
        return t == 'W'
    if kind == 'int':
        return isinstance(val, int) and -2 ** 31 <= val < 2 ** 31
    if kind == 'dbl':
        return isinstance(val, (int, float)) and abs(val) < 1e300
    if kind == 'str':
        return isinstance(val, str)
    return True


def over_scenarios(thorough):
    kinds = sorted(OVER)
    seqs = []
    for inplace in (False, True):
        ks = [k for k in kinds if not (inplace and k == 'wl')]
        for n in (1, 2) + ((3,) if thorough else ()):
            for s in itertools.permutations(ks, n):
                seqs.append((inplace, s))
        # the same declared twice
        seqs.append((inplace, ('self', 'int', 'self')))
    k = 8 if thorough else 4
    out = []
    for i in range(k):
        mine = [(j, s) for j, s in enumerate(seqs) if j % k == i]

        def gen(mod, mine=mine):
            from pybindgen import param, Parameter
            mod.add_function('pbmc_live', 'int', [], custom_name='live')
            mod.add_function('pbmc_bad', 'int', [], custom_name='bad')
            cl = {}
            for n in ('W', 'R'):
                c = cl[n] = mod.add_class(n)
                c.add_constructor([param('int', 'v', default_value='0')])
                c.add_copy_constructor()
                c.add_method('get', 'int', [], is_const=True)
            for j, (inplace, s) in mine:
                c = cl['M'] = mod.add_class('M', foreign_cpp_namespace='n%d' % j, custom_name='M%d' % j)
                c.add_constructor([param('int', 'v', default_value='0')])
                c.add_copy_constructor()
                c.add_method('get', 'int', [], is_const=True)
                for pos, kind in enumerate(s):
                    res, left, right, fn = OVER[kind]
                    if right in cl:
                        right = cl[right]
                    elif (pos + j) % 3 == 0:
                        right = param(right, 'right')
                    elif (pos + j) % 3 == 1:
                        right = Parameter.new(right, 'right')
                    if inplace:
                        c.add_inplace_numeric_operator('+=', *([] if right is c and pos % 2 else [right]))
                    else:
                        kw = {}
                        if res != 'M' or pos % 2:
                            kw['result_cppclass'] = cl[res]
                        if left != 'M' or pos % 2:
                            kw['left_cppclass'] = cl[left]
                        if not (right is c and pos % 2):
                            kw['right'] = right
                        c.add_binary_numeric_operator('+', **kw)

        def explore(m, x, mine=mine):
            live0 = m.live()
            for j, (inplace, s) in mine:
                M = getattr(m, 'M%d' % j)
                vals = [M(2), M(-3), m.W(4), m.R(6), 5, -1, True, 0, 2 ** 31 - 200, 2 ** 40, 1.5, -0.25, 'abc', '', None, [], Foreign()]
                label = ('+= ' if inplace else '+ ') + ','.join(s)
                x.state(label)

                def raw(v):
                    return v.get() if hasattr(v, 'get') else v

                def kindof(v):
                    return 'M' if type(v) is M else type(v).__name__

                for ai, a in enumerate(vals):
                    for bi, b in enumerate(vals):
                        if M not in (type(a), type(b)):
                            continue
                        x.case('%s: %s %s' % (label, ai, bi))
                        x.step()
                        exp = None
                        for kind in s:
                            res, left, right, fn = OVER[kind]
                            if kindof(a) != left:
                                continue
                            if right in ('M', 'W'):
                                if kindof(b) != right:
                                    continue
                            elif not takes(kind, b):
                                continue
                            exp = ('M' if inplace else res, fn(raw(a), (raw(b))))
                            if kind == 'bool':
                                exp = (exp[0], fn(raw(a), bool(b)))
                            break
                        before = [raw(v) for v in vals[:4]]
                        got = outcome(operator.iadd if inplace else operator.add, a, b)
                        if exp is None:
                            x.eq(got, ('exc', 'TypeError'), 'no overload takes this')
                        else:
                            R = M if exp[0] == 'M' else getattr(m, exp[0])
                            if x.check(got[0] == 'ok' and type(got[1]) is R, 'got %r, expected %r' % (got, exp)):
                                x.eq(got[1].get(), exp[1], 'value')
                                if got[1] is a:
                                    vals[ai] = a = M(before[ai])
                        got = None
                        x.eq([raw(v) for v in vals[:4]], before, 'operands afterwards')
                del a, b, vals
                gc.collect()
                x.eq(m.live(), live0, '%s: C++ objects alive afterwards' % label)
                x.eq(m.bad(), 0, '%s: uses of dead objects' % label)

        header = PRE + OVER_PRE + '\n'.join('namespace n%d {\n%s\n}' % (j, DEFM) for j, s in mine)
        out.append(Scenario('over%d' % i, header, gen, explore))
    return out


# --- base and derived classes ------------------------------------------------

INH = ['+', '+=', 'neg', '<', '==', 'str']


def inherit_pairs():
    out = []
    for r in range(3 ** len(INH)):
        who = []
        for o in INH:
            who.append(r % 3)
            r //= 3
        out.append(tuple(who))        # 0: base only, 1: derived only, 2: both
    # every operator in each state, with every pair of operators in every pair of states
    keep = []
    seen = set()
    for w in out:
        new = {(i, j, w[i], w[j]) for i in range(len(INH)) for j in range(i)}
        if not new <= seen or len(set(w)) == 1:
            seen |= new
            keep.append(w)
    return keep


def inherit_scenarios():
    pairs = inherit_pairs()
    out = []
    k = 4
    D = DEFV.replace('struct N : V0 { N(int v_ = 0) : V0(v_) {} };', 'struct N : B { N(int v_ = 0) : B(v_) {} };').replace('+ 1)', '+ 101)') \
        .replace('+ 5; return', '+ 105; return').replace('* 2 + 9', '* 2 + 109').replace('% 4 < b.get() % 4', '% 7 < b.get() % 7') \
        .replace('% 2 == b.get() % 2', '% 3 == b.get() % 3').replace('N<', 'D<')
    DFN = {'+': lambda a, b: a * 7 + b * 3 + 101, '+=': lambda a, b: a * 17 + b * 3 + 105, 'neg': lambda a: -a * 2 + 109,
           '<': lambda a, b: rem(a, 7) < rem(b, 7), '==': lambda a, b: rem(a, 3) == rem(b, 3), 'str': lambda a: 'D<%d>' % a}
    for i in range(k):
        mine = [(j, s) for j, s in enumerate(pairs) if j % k == i]

        def gen(mod, mine=mine):
            from pybindgen import param
            mod.add_function('pbmc_live', 'int', [], custom_name='live')
            mod.add_function('pbmc_bad', 'int', [], custom_name='bad')
            for j, s in mine:
                sub = bool(j % 2)
                ns = 'n%d' % j
                b = mod.add_class('B', foreign_cpp_namespace=ns, custom_name='B%d' % j, allow_subclassing=sub)
                d = mod.add_class('D', parent=b, foreign_cpp_namespace=ns, custom_name='D%d' % j, allow_subclassing=sub)
                for c in (b, d):
                    c.add_constructor([param('int', 'v', default_value='0')])
                    c.add_copy_constructor()
                    c.add_method('get', 'int', [], is_const=True)
                declare(b, [o for o, w in zip(INH, s) if w != 1])
                declare(d, [o for o, w in zip(INH, s) if w != 0])

        def explore(m, x, mine=mine):
            live0 = m.live()
            for j, s in mine:
                B, D = getattr(m, 'B%d' % j), getattr(m, 'D%d' % j)
                bops = {o for o, w in zip(INH, s) if w != 1}
                dops = {o for o, w in zip(INH, s) if w != 0}
                label = 'base %s derived %s' % (','.join(sorted(bops)), ','.join(sorted(dops)))
                x.state(label)
                kinds = [B, D]
                if j % 2:
                    class PB(B):
                        pass

                    class PD(D):
                        pass
                    kinds += [PB, PD]
                objs = [(c, v, c(v)) for c in kinds for v in (-2, 1, 3)]
                for ca, va, a in objs:
                    der = issubclass(ca, D)
                    for un, op in ((operator.neg, 'neg'), (str, 'str')):
                        x.case('%s: %s %s(%d)' % (label, op, ca.__name__, va))
                        x.step()
                        got = outcome(un, a)
                        if der and op in dops:
                            exp = (D, DFN[op](va))
                        elif op in bops:
                            exp = (B, FN[op](va))
                        else:
                            exp = None
                        if op == 'str':
                            if exp is None:
                                x.check(got == ('ok', repr(a)), 'got %r' % (got,))
                            else:
                                want = exp[1] if exp[0] is D else 'B' + exp[1]
                                x.eq(got, ('ok', want), 'str')
                        elif exp is None:
                            x.eq(got, ('exc', 'TypeError'), 'no such operator')
                        elif x.check(got[0] == 'ok' and type(got[1]) is exp[0], 'got %r expected %r' % (got, exp)):
                            x.eq(got[1].get(), exp[1], 'value')
                        got = None
                    for cb, vb, b in objs:
                        both = der and issubclass(cb, D)
                        for op in ('+', '+=', '<', '==', '>', '!='):
                            x.case('%s: %s(%d) %s %s(%d)' % (label, ca.__name__, va, op, cb.__name__, vb))
                            x.step()
                            exp = None

                            def declared(o, p, q):
                                if both and o in dops:
                                    return (D, DFN[o](p, q))
                                if o in bops:
                                    return (B, FN[o](p, q))
                            if op == '+=':
                                exp = declared('+=', va, vb) or declared('+', va, vb)
                            elif op == '>':
                                exp = declared('<', vb, va)
                            elif op != '!=':
                                exp = declared(op, va, vb)
                            got = outcome(PYOP[op], a, b)
                            if op in ('+', '+='):
                                if exp is None:
                                    # what CPython makes of an in-place slot a Python class inherits
                                    if not (op == '+=' and ca.__name__[0] == 'P' and got[1] is NotImplemented):
                                        x.eq(got, ('exc', 'TypeError'), 'no such operator')
                                elif x.check(got[0] == 'ok' and type(got[1]) is exp[0], 'got %r expected %r' % (got, exp)):
                                    x.eq(got[1].get(), exp[1], 'value')
                            elif op == '!=':
                                x.check(got[0] == 'ok' and isinstance(got[1], bool), 'got %r' % (got,))
                            elif exp is None:
                                x.eq(got, ('ok', a is b) if op == '==' else ('exc', 'TypeError'), 'no such operator')
                            else:
                                x.eq(got, ('ok', exp[1]), 'value')
                            got = None
                            x.eq((a.get(), b.get()), (va, vb), 'operands afterwards')
                del a, b, objs
                gc.collect()
                x.eq(m.live(), live0, '%s: C++ objects alive afterwards' % label)
                x.eq(m.bad(), 0, '%s: uses of dead objects' % label)

        def ren(text, n):
            return text.replace('N ', n + ' ').replace('N(', n + '(').replace('N<', n + '<')
        header = PRE + '\n'.join('namespace n%d {\n%s\n%s\n}' % (j, ren(DEFV, 'B'), ren(D, 'D')) for j, s in mine)
        out.append(Scenario('inherit%d' % i, header, gen, explore))
    return out


# --- str -------------------------------------------------------------------

STR_H = r'''
#include <sstream>
struct S { std::string s; S(std::string const &s_) : s(s_) {} };
inline std::ostream &operator<<(std::ostream &o, S const &s) { return o << s.s; }
struct D : S { D(std::string const &s_) : S(s_) {} };
struct T : S { T(std::string const &s_) : S(s_) {} virtual ~T() {} virtual int f() { return 1; } };
inline std::ostream &operator<<(std::ostream &o, T const &s) { return o << "T" << s.s; }
struct Bad { Bad() {} };
inline std::ostream &operator<<(std::ostream &o, Bad const &) { return o << "a\xff\xfe"; }
'''


def str_gen(mod):
    from pybindgen import param
    S = mod.add_class('S')
    D = mod.add_class('D', parent=S)
    T = mod.add_class('T', allow_subclassing=True)
    T.add_method('f', 'int', [], is_virtual=True)
    for c in (S, D, T):
        c.add_constructor([param('std::string', 's')])
    S.add_output_stream_operator()
    T.add_output_stream_operator()
    B = mod.add_class('Bad')
    B.add_constructor([])
    B.add_output_stream_operator()


def str_explore(m, x):
    class PT(m.T):
        pass

    class QT(m.T):
        def __str__(self):
            return 'mine'
    alphabet = ['', 'a', '\0', '\xe9', '\u20ac', '\U0001f600', '\n', '%s', ' ', 'z' * 5000]
    for n in range(4):
        for parts in itertools.product(alphabet[1:9], repeat=n) if n < 3 else [(a, b, c) for a in alphabet for b in alphabet for c in alphabet]:
            t = ''.join(parts)
            x.case('str %s' % ascii(t)[:80])
            x.step()
            for c, pre in ((m.S, ''), (m.D, ''), (m.T, 'T'), (PT, 'T')):
                o = c(t)
                x.eq(outcome(str, o), ('ok', pre + t), c.__name__)
                x.eq(outcome('%s'.__mod__, (o,)), ('ok', pre + t), c.__name__ + ' %s')
            x.eq(str(QT(t)), 'mine', 'overridden')
            x.eq(m.T.__str__(QT(t)), 'T' + t, 'the inherited')
    x.case('not utf-8')
    x.eq(outcome(str, m.Bad()), ('exc', 'UnicodeDecodeError'), 'str')
    for i in range(200):
        outcome(str, m.Bad())


# --- sequences -------------------------------------------------------------

SEQ_H = r'''
struct Vec {
    Track t; std::vector<int> d; std::string log;
    Vec(int n = 0) { for (int i = 0; i < n; i++) d.push_back(10 * (i + 1)); }
    std::string show() const { t.use(); std::ostringstream o; for (size_t i = 0; i < d.size(); i++) o << d[i] << ","; return o.str(); }
    void push(int v) { d.push_back(v); }
    std::string seen() { std::string s = log; log = ""; return s; }
    void note(char const *w, long v) { std::ostringstream o; o << w << v << ";"; log += o.str(); }
    size_t len() const { t.use(); return d.size(); }
    int get(int i) { note("get", i); if (i < 0) i += d.size(); if (i < 0 || i >= (int) d.size()) { PyErr_SetString(PyExc_IndexError, "range"); return -7; } return d[i]; }
    int getk(int i) { note("get", i); if (i < 0) i += d.size(); if (i < 0 || i >= (int) d.size()) { PyErr_SetString(PyExc_KeyError, "range"); return -7; } return d[i]; }
    int getl(long long i) { note("get", i); if (i < 0) i += d.size(); if (i < 0 || i >= (long long) d.size()) { PyErr_SetString(PyExc_IndexError, "range"); return -7; } return d[i]; }
    int set(int i, int v) { note("set", i); if (i < 0) i += d.size(); if (i < 0 || i >= (int) d.size()) return -1; d[i] = v; return 0; }
    int set1(int i, int v) { note("set", i); if (i < 0) i += d.size(); if (i < 0 || i >= (int) d.size()) return 1; d[i] = v; return 0; }
    int sete(int i, int v) { note("set", i); if (i < 0) i += d.size(); if (i < 0 || i >= (int) d.size()) { PyErr_SetString(PyExc_KeyError, "range"); return -1; } d[i] = v; return 0; }
    int has(int v) const { t.use(); int n = 0; for (size_t i = 0; i < d.size(); i++) if (d[i] == v) n++; return n; }
    int hasn(int v) const { t.use(); for (size_t i = 0; i < d.size(); i++) if (d[i] == v) return -1; return 0; }
    bool hasb(int v) const { return has(v) > 0; }
    Vec cat(Vec const &o) const { o.t.use(); Vec r(*this); r.d.insert(r.d.end(), o.d.begin(), o.d.end()); return r; }
    Vec cati(int v) const { Vec r(*this); r.d.push_back(v); return r; }
    Vec icat(Vec const &o) { Vec r(cat(o)); r.d.push_back(-1); return r; }
    Vec rep(int n) const { Vec r; for (int i = 0; i < n; i++) r.d.insert(r.d.end(), d.begin(), d.end()); return r; }
    Vec repu(unsigned int n) const { return rep(int(n)); }
    Vec irep(int n) { Vec r(rep(n)); r.d.push_back(-2); return r; }
    int call(int v) { return v + int(d.size()); }
    int call0() { return int(d.size()); }
    int call2(int a, std::string const &s) { return a + int(s.size()) + int(d.size()); }
    int err(int) const { t.use(); PyErr_SetString(PyExc_KeyError, "mine"); return -1; }
};
inline int f_len(Vec &v) { return v.len(); }
inline int f_get(Vec &v, int i) { return v.get(i); }
inline int f_set(Vec &v, int i, int x) { return v.set(i, x); }
inline int f_has(Vec &v, int x) { return v.has(x); }
inline Vec f_cat(Vec &v, Vec const &o) { return v.cat(o); }
inline Vec f_rep(Vec &v, int n) { return v.rep(n); }
inline int f_call(Vec &v, int n) { return v.call(n); }
inline int f_call0(Vec &v) { return v.call0(); }
'''
# slot: variants
SLOTS = {
    '__len__': ['len', 'f_len'],
    '__getitem__': ['get', 'f_get', 'over', 'getk', 'getl'],
    '__setitem__': ['set', 'f_set', 'over', 'set1', 'sete'],
    '__contains__': ['has', 'f_has', 'over', 'hasb', 'hasn'],
    '__add__': ['cat', 'f_cat', 'over'],
    '__iadd__': ['icat'],
    '__mul__': ['rep', 'f_rep', 'repu'],
    '__imul__': ['irep'],
    '__call__': ['call', 'call0', 'f_call', 'f_call0', 'over', 'over0'],
}


def seq_configs():
    out = [{}]
    names = sorted(SLOTS)
    for n in names:
        for v in SLOTS[n]:
            out.append({n: v})
    for a, b in itertools.combinations(names, 2):
        for va in SLOTS[a]:
            for vb in SLOTS[b]:
                if '__call__' in (a, b) and (va, vb) != (SLOTS[a][0], SLOTS[b][0]):
                    continue
                if {a, b} <= {'__len__', '__getitem__', '__setitem__', '__contains__'} or (va, vb) == (SLOTS[a][0], SLOTS[b][0]):
                    out.append({a: va, b: vb})
    for i in range(3):
        out.append({n: SLOTS[n][i % len(SLOTS[n])] for n in names})
        for skip in names:
            if i == 0:
                out.append({n: SLOTS[n][0] for n in names if n != skip})
    return out


def add_slot(c, slot, v, ns):
    from pybindgen import param
    one = lambda t: [param(t, 'v')]
    selfp = param('%s::Vec &' % ns, 'self')
    vec, vecr = '%s::Vec' % ns, '%s::Vec const &' % ns
    if slot == '__len__':
        if v == 'len':
            c.add_method('len', 'size_t', [], is_const=True, custom_name=slot)
        else:
            c.add_function_as_method('f_len', 'int', [selfp], custom_name=slot, foreign_cpp_namespace=ns)
    elif slot == '__getitem__':
        if v == 'f_get':
            c.add_function_as_method(v, 'int', [selfp, param('int', 'i')], custom_name=slot, foreign_cpp_namespace=ns)
        elif v == 'over':
            c.add_method('call2', 'int', [param('int', 'a'), param('std::string', 's')], custom_name=slot)
            c.add_method('get', 'int', one('int'), custom_name=slot)
        else:
            c.add_method(v, 'int', one('long long' if v == 'getl' else 'int'), custom_name=slot)
    elif slot == '__setitem__':
        if v == 'f_set':
            c.add_function_as_method(v, 'int', [selfp, param('int', 'i'), param('int', 'x')], custom_name=slot, foreign_cpp_namespace=ns)
        elif v == 'over':
            c.add_method('call2', 'int', [param('int', 'a'), param('std::string', 's')], custom_name=slot)
            c.add_method('set', 'int', [param('int', 'i'), param('int', 'x')], custom_name=slot)
        else:
            c.add_method(v, 'int', [param('int', 'i'), param('int', 'x')], custom_name=slot)
    elif slot == '__contains__':
        if v == 'f_has':
            c.add_function_as_method(v, 'int', [selfp, param('int', 'x')], custom_name=slot, foreign_cpp_namespace=ns)
        elif v == 'over':
            c.add_method('call2', 'int', [param('int', 'a'), param('std::string', 's')], custom_name=slot)
            c.add_method('has', 'int', one('int'), is_const=True, custom_name=slot)
        else:
            c.add_method(v, 'bool' if v == 'hasb' else 'int', one('int'), is_const=True, custom_name=slot)
    elif slot == '__add__':
        if v == 'f_cat':
            c.add_function_as_method(v, vec, [selfp, param(vecr, 'o')], custom_name=slot, foreign_cpp_namespace=ns)
        else:
            if v == 'over':
                c.add_method('cati', vec, one('int'), is_const=True, custom_name=slot)
            c.add_method('cat', vec, one(vecr), is_const=True, custom_name=slot)
    elif slot == '__iadd__':
        c.add_method('icat', vec, one(vecr), custom_name=slot)
    elif slot == '__mul__':
        if v == 'f_rep':
            c.add_function_as_method(v, vec, [selfp, param('int', 'n')], custom_name=slot, foreign_cpp_namespace=ns)
        else:
            c.add_method(v, vec, one('unsigned int' if v == 'repu' else 'int'), is_const=True, custom_name=slot)
    elif slot == '__imul__':
        c.add_method('irep', vec, one('int'), custom_name=slot)
    else:
        if v == 'f_call':
            c.add_function_as_method(v, 'int', [selfp, param('int', 'n')], custom_name=slot, foreign_cpp_namespace=ns)
        elif v == 'f_call0':
            c.add_function_as_method(v, 'int', [selfp], custom_name=slot, foreign_cpp_namespace=ns)
        elif v == 'over':
            c.add_method('call', 'int', one('int'), custom_name=slot)
            c.add_method('call2', 'int', [param('int', 'a'), param('std::string', 's')], custom_name=slot)
        elif v == 'over0':
            c.add_method('call', 'int', one('int'), custom_name=slot)
            c.add_method('call0', 'int', [], custom_name=slot)
        else:
            c.add_method(v, 'int', one('int') if v == 'call' else [], custom_name=slot)


INDEXES = [0, 1, 2, 3, -1, -2, -3, -4, 4, 100, -100, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 32 + 1, -2 ** 32, 1 - 2 ** 32,
           2 ** 63 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 2 ** 64, True, 'x', 1.0, None, slice(0, 2)]


def check_seq(x, m, n, cfg):
    C = getattr(m, n)
    label = ','.join('%s=%s' % (k.strip('_'), v) for k, v in sorted(cfg.items()))

    def content(o):
        return [int(p) for p in o.show().split(',')[:-1]]

    def raises(got, *names):
        x.check(got[0] == 'exc' and got[1] in names, 'got %r, expected one of %s' % (got, names))

    live0 = m.live()
    for size in (0, 1, 3):
        o = C(size)
        ref = [10 * (i + 1) for i in range(size)]
        lenv = cfg.get('__len__')
        x.case('%s size %d: len' % (label, size))
        x.step()
        if lenv:
            x.eq(outcome(len, o), ('ok', size), 'len')
            x.eq(outcome(bool, o), ('ok', size != 0), 'truth')
        else:
            raises(outcome(len, o), 'TypeError')
            x.eq(outcome(bool, o), ('ok', True), 'truth')

        getv = cfg.get('__getitem__')
        setv = cfg.get('__setitem__')
        for i in INDEXES:
            x.case('%s size %d: [%r]' % (label, size, i))
            x.step()
            got = outcome(operator.getitem, o, i)
            log = o.seen()
            isint = isinstance(i, int)
            # Python itself adds the length, if there is one, to what is negative
            k = i + size if isint and lenv and i < 0 else i
            at = k + size if isint and k < 0 else k
            inside = isint and 0 <= at < size
            if not getv:
                raises(got, 'TypeError', *(('IndexError',) if isint and not -2 ** 63 <= i < 2 ** 63 else ()))
            elif not isint:
                raises(got, 'TypeError')
            elif inside:
                x.eq(got, ('ok', ref[at]), 'element')
            else:
                raises(got, *(('KeyError',) if getv == 'getk' and -2 ** 31 <= k < 2 ** 31 else
                              ('IndexError', 'OverflowError', 'TypeError', 'KeyError')))
            if log and isint:
                x.eq(log, 'get%d;' % k, 'what C++ was given')
            for val in (5, -1, 'x', None):
                x.case('%s size %d: [%r] = %r' % (label, size, i, val))
                x.step()
                got = outcome(operator.setitem, o, i, val)
                log = o.seen()
                want = list(ref)
                if not setv or not isint:
                    # what no index can be is refused before the object is asked
                    raises(got, 'TypeError', *(('IndexError',) if isint and not -2 ** 63 <= i < 2 ** 63 else ()))
                elif setv == 'over' and val == 'x':
                    pass
                elif not isinstance(val, int):
                    if -2 ** 31 <= i < 2 ** 31 - 4:
                        raises(got, 'TypeError')
                    else:
                        raises(got, 'TypeError', 'IndexError', 'OverflowError', 'ValueError')
                elif inside:
                    x.eq(got, ('ok', None), 'assignment')
                    want[at] = val
                else:
                    raises(got, *(('KeyError',) if setv == 'sete' and -2 ** 31 <= k < 2 ** 31 else
                                  ('IndexError', 'OverflowError', 'TypeError', 'KeyError')))
                if log and isint:
                    x.eq(log, 'set%d;' % k, 'what C++ was given')
                x.eq(content(o), want, 'content')
                if content(o) != ref:
                    o = C(size)
                got = None
            x.case('%s size %d: del [%r]' % (label, size, i))
            x.step()
            raises(outcome(operator.delitem, o, i), 'TypeError', *(('IndexError',) if isint and abs(i) > 2 ** 62 else ()))
            x.eq(content(o), ref, 'content')

        x.case('%s size %d: iteration' % (label, size))
        x.step()
        if getv == 'getk':
            raises(outcome(list, o), 'KeyError')
        elif getv:
            x.eq(outcome(list, o), ('ok', ref), 'list()')
            if lenv:
                x.eq(outcome(lambda: list(reversed(o))), ('ok', ref[::-1]), 'reversed()')
        else:
            raises(outcome(list, o), 'TypeError')
        o.seen()

        hasv = cfg.get('__contains__')
        for val in (10, 20, 30, 0, -1, True, 2 ** 40, 'x', None, 10.0, o):
            x.case('%s size %d: %s in' % (label, size, 'self' if val is o else repr(val)))
            x.step()
            got = outcome(lambda: val in o)
            gotn = outcome(lambda: val not in o)
            if hasv:
                if isinstance(val, int) and abs(val) < 2 ** 31:
                    x.eq(got, ('ok', val in ref), 'in')
                    x.eq(gotn, ('ok', val not in ref), 'not in')
                else:
                    raises(got, *(('OverflowError', 'TypeError') if val == 2 ** 40 else ('TypeError',)))
            elif getv == 'getk':
                if size and val == 10:
                    x.eq(got, ('ok', True), 'in')
                elif val not in ref:
                    raises(got, 'KeyError')
            elif getv:
                x.eq(got, ('ok', val in ref), 'in')
            else:
                raises(got, 'TypeError')
            o.seen()
        p = C(2)
        p.push(10)
        p.push(10)
        addv, iaddv, mulv, imulv, callv = [cfg.get(k) for k in ('__add__', '__iadd__', '__mul__', '__imul__', '__call__')]
        if hasv:
            x.case('%s size %d: duplicates' % (label, size))
            x.eq(outcome(lambda: (10 in p, 10 not in p, not (10 in p), [10 in p, 11 in p])), ('ok', (True, False, False, [True, False])), 'in')

        def result(got, want):
            if x.check(got[0] == 'ok' and type(got[1]) is C, 'got %r' % (got,)):
                x.eq(content(got[1]), want, 'result')
        pref = [10, 20, 10, 10]
        for val in (p, o, 3, None, 'a', [1], m.Other()):
            kind = 'p' if val is p else 'self' if val is o else type(val).__name__
            vref = pref if val is p else ref
            x.case('%s size %d: + %s' % (label, size, kind))
            x.step(2)
            got = outcome(operator.add, o, val)
            if addv and kind in ('p', 'self'):
                result(got, ref + vref)
            elif addv == 'over' and kind == 'int':
                result(got, ref + [3])
            else:
                raises(got, 'TypeError')
            x.case('%s size %d: += %s' % (label, size, kind))
            got = outcome(operator.iadd, C(size) if val is p else o, val)
            if iaddv and kind in ('p', 'self'):
                result(got, ref + vref + [-1])
            elif addv and not iaddv and kind in ('p', 'self'):
                result(got, ref + vref)
            elif addv == 'over' and not iaddv and kind == 'int':
                result(got, ref + [3])
            else:
                raises(got, 'TypeError')
            got = None
            x.eq((content(o), content(p)), (ref, pref), 'operands afterwards')
        for k in (0, 1, 3, -1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 64, 'x', 1.5, None, p):
            x.case('%s size %d: * %s' % (label, size, 'p' if k is p else repr(k)))
            x.step(3)
            isint = isinstance(k, int)
            for f, v, extra in ((lambda: o * k, mulv, []), (lambda: k * o, mulv, []), (lambda: operator.imul(o, k), imulv or mulv, [-2] if imulv else [])):
                got = None
                if isint and not 0 <= k < 2 ** 31 and v == 'repu':
                    continue
                got = outcome(f)
                if not v or not isint:
                    raises(got, 'TypeError')
                elif -1 <= k <= 3 and not (v == 'repu' and k < 0):
                    result(got, ref * k + extra)
                else:
                    raises(got, 'OverflowError', 'TypeError', 'ValueError')
            got = None
            x.eq(content(o), ref, 'operand afterwards')
        for args, kw in (((), {}), ((1,), {}), ((1, 'ab'), {}), ((1, 2), {}), (('x',), {}), ((), {'v': 4}), ((1,), {'v': 4}), ((), {'w': 4}), ((), {'n': 5}),
                         ((), {'a': 1, 's': 'xyz'})):
            x.case('%s size %d: call%r%r' % (label, size, args, sorted(kw.items())))
            x.step()
            got = outcome(lambda: o(*args, **kw))
            want = None
            if callv in ('call', 'over', 'over0', 'f_call'):
                key = 'n' if callv == 'f_call' else 'v'
                if len(args) == 1 and not kw and isinstance(args[0], int):
                    want = args[0] + size
                elif not args and set(kw) == {key}:
                    want = kw[key] + size
            if callv == 'over':
                if len(args) == 2 and isinstance(args[1], str):
                    want = args[0] + len(args[1]) + size
                elif set(kw) == {'a', 's'}:
                    want = 1 + 3 + size
            if callv in ('call0', 'f_call0', 'over0') and not args and not kw:
                want = size
            if want is None:
                raises(got, 'TypeError')
            else:
                x.eq(got, ('ok', want), 'call')
            x.eq(callable(o), bool(callv), 'callable()')
    # the methods can be called by their names, too, and overridden
    x.case('%s: by name' % label)
    o = C(2)
    for slot in sorted(SLOTS):
        x.eq(hasattr(o, slot), slot in cfg or (slot == '__rmul__'), slot)
    if '__len__' in cfg:
        x.eq(outcome(o.__len__), ('ok', 2), '__len__()')
        raises(outcome(o.__len__, 1), 'TypeError')

        class P(C):
            def __len__(self):
                return 40 + C.__len__(self)
        x.eq(outcome(len, P(2)), ('ok', 42), 'overridden')
    if '__getitem__' in cfg:
        x.eq(outcome(o.__getitem__, 1), ('ok', 20), '__getitem__()')

        class P(C):
            def __getitem__(self, i):
                return 'mine', C.__getitem__(self, i)
        x.eq(outcome(lambda: P(2)[1]), ('ok', ('mine', 20)), 'overridden')
    P = got = o = p = k = val = None
    gc.collect()
    x.eq(m.live(), live0, '%s: C++ objects alive afterwards' % label)
    x.eq(m.bad(), 0, '%s: uses of dead objects' % label)


def check_refs(x, m, n, cfg):
    """no operation, refused or not, keeps or loses references to what it was given"""
    C = getattr(m, n)
    label = ','.join('%s=%s' % (k.strip('_'), v) for k, v in sorted(cfg.items()))
    o = C(2)
    big, arg, sub = 2 ** 20 + 1, 'text not interned'.upper(), C(1)
    ops = [lambda: o[1], lambda: o[7], lambda: o[2 ** 40], lambda: o[arg], lambda: operator.setitem(o, 1, big), lambda: operator.setitem(o, 9, big),
           lambda: operator.setitem(o, 0, arg), lambda: operator.delitem(o, 0), lambda: big in o, lambda: 10 in o, lambda: arg in o, lambda: o + sub, lambda: o + arg,
           lambda: o * 2, lambda: 2 * o, lambda: o * arg, lambda: operator.iadd(o, sub), lambda: operator.imul(o, 2), lambda: len(o),
           lambda: o(big), lambda: o(), lambda: o(arg), lambda: list(o) if cfg.get('__getitem__') != 'x' else None]
    for i, f in enumerate(ops):
        outcome(f), outcome(f)
        x.case('%s: references, operation %d' % (label, i))
        x.step()
        before = sys.getrefcount(o), sys.getrefcount(big), sys.getrefcount(arg), sys.getrefcount(sub), sys.getrefcount(None)
        growth = []
        for t in range(4):
            blocks = sys.getallocatedblocks()
            for r in range(40):
                outcome(f)
            growth.append(sys.getallocatedblocks() - blocks)
            if growth[-1] < 20:
                break
        after = sys.getrefcount(o), sys.getrefcount(big), sys.getrefcount(arg), sys.getrefcount(sub), sys.getrefcount(None)
        x.eq(after, before, 'reference counts afterwards')
        x.check(min(growth) < 20, 'blocks more after 40 times: %r' % growth)


def seq_explore_for(mine):
    def explore(m, x):
        for j, cfg in mine:
            x.state(str(sorted(cfg.items())))
            check_seq(x, m, 'V%d' % j, cfg)
            check_refs(x, m, 'V%d' % j, cfg)
    return explore


def seq_scenarios():
    cfgs = seq_configs()
    out = []
    k = 8
    for i in range(k):
        mine = [(j, c) for j, c in enumerate(cfgs) if j % k == i]

        def gen(mod, mine=mine):
            from pybindgen import param
            mod.add_function('pbmc_live', 'int', [], custom_name='live')
            mod.add_function('pbmc_bad', 'int', [], custom_name='bad')
            o = mod.add_class('Other')
            o.add_constructor([])
            for j, cfg in mine:
                c = mod.add_class('Vec', foreign_cpp_namespace='n%d' % j, custom_name='V%d' % j, allow_subclassing=True)
                c.add_constructor([param('int', 'n', default_value='0')])
                c.add_copy_constructor()
                c.add_method('show', 'std::string', [], is_const=True)
                c.add_method('seen', 'std::string', [])
                c.add_method('push', 'void', [param('int', 'v')])
                for slot in sorted(cfg):
                    add_slot(c, slot, cfg[slot], 'n%d' % j)

        header = '#include <sstream>\n#include <vector>\nstruct Other { Other() {} };\n' + '\n'.join('namespace n%d {\n%s\n}' % (j, SEQ_H) for j, c in mine)
        out.append(Scenario('seq%d' % i, header, gen, seq_explore_for(mine)))
    return out


def scenarios(tier):
    out = subset_scenarios() + over_scenarios(tier == 'thorough') + inherit_scenarios() + seq_scenarios()
    out.append(Scenario('text', STR_H, str_gen, str_explore))
    return out
