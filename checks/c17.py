"""C17: attributes read and write exactly the member they name."""
import itertools
from pbmc import Scenario
import nums

LEVEL = 'exploration'
RULE = ('per attribute every sequence of 3 operations (assign each value, assign each bad value, delete, change from C++) on two objects, and '
        'every pair of operations on two attributes; after each operation every attribute of both objects is read and compared with a '
        'record model and with what C++ itself prints')
BOUNDS = {'quick': 'about 75 attributes of 11 kinds, up to 6 good and 6 bad values each, sequences of 2 operations, all pairs of attributes',
          'thorough': 'sequences of 3 operations'}
ASSUMPTIONS = ['unsigned types of 32 bits and more may wrap silently (documented by the conversion they use)']


def attrs():
    """(name, C type, kind, default, values, bad values); a value is (python, C expression, text C++ prints)"""
    out = []
    i = 0
    for t, rng, forms in nums.INTS:
        if 'r' not in forms.split():
            continue
        i += 1
        lo, hi = rng
        vals = [lo, hi, 42, lo // 3 + 1]
        bad = ['x', None, 1.5, [], b'1']
        if nums.strict(rng):
            bad += [hi + 1, lo - 1, 2**70]
        suf = 'ULL' if hi > 2**63 else 'LL'
        kind = ['plain', 'acc', 'static', 'custom', 'tcustom'][i % 5]
        k = [kind] if kind == 'plain' else [kind, 'plain']
        for kd in k:
            out.append(('a%d%s' % (i, kd[0]), t, kd, [(v, '(%s)(%s)' % (t, '-%dLL-1' % (hi) if v == lo and lo < 0 else '%d%s' % (v, suf)), str(v)) for v in vals], bad))
    for t in ('double', 'float'):
        vals = [0.5, -1e10 if t == 'double' else -1024.0, 3.0, 2.0**-100]
        for kd in ('plain', 'acc', 'static', 'custom', 'const', 'getonly'):
            out.append((t[0] + kd, t, kd, [(v, repr(v), float.hex(v)) for v in vals], ['x', None, [], 1j]))
    # every object has a truth value
    for kd in ('plain', 'acc', 'static', 'const'):
        out.append(('b' + kd, 'bool', kd, [(False, 'false', '0'), (True, 'true', '1')], ['RAISES']))
    strs = [('', '""', '<>'), ('hello', '"hello"', '<hello>'), (u'\xe9\u20ac', '"\\xc3\\xa9\\xe2\\x82\\xac"', u'<\xe9\u20ac>'),
            ('a\0b', 'std::string("a\\0b", 3)', '<a\0b>')]
    for kd in ('plain', 'acc', 'static', 'custom', 'const', 'getonly', 'conststatic'):
        out.append(('s' + kd, 'std::string', kd, strs, [3, None, ['a'], 1.0]))
    enums = [(0, 'E_A', '0'), (5, 'E_B', '5'), (-3, 'E_C', '-3')]
    for kd in ('plain', 'acc', 'static', 'custom', 'const'):
        out.append(('e' + kd, 'E', kd, enums, ['x', None, 2.5, 2**40]))
    ks = [(('K', n), 'K(%d)' % n, '{%d}' % n) for n in (0, 3, 8)]
    for kd in ('plain', 'acc', 'static', 'custom', 'const', 'getonly'):
        out.append(('k' + kd, 'K', kd, ks, [3, None, 'x', ('OTHER',)]))
    vs = [([], 'Vec()', '[]'), ([1, 2], 'vec(1, 2)', '[1,2]'), ([7, -1], 'vec(7, -1)', '[7,-1]')]
    for kd in ('plain', 'acc', 'const', 'custom'):
        out.append(('v' + kd, 'Vec', kd, vs, [3, None, 'x', [1, 'x'], [5, 6, None], [2**40], {}]))
    return out


def header():
    h = ['''#include <string>
#include <vector>
#include <map>
#include <cstdio>
#include <stdint.h>
enum E { E_A = 0, E_B = 5, E_C = -3 };
struct K { int v; K(int v_ = 0) : v(v_) {} int get() const { return v; } };
struct Other { int x; };
typedef std::vector<int> Vec;
static inline Vec vec(int a, int b) { Vec v; v.push_back(a); v.push_back(b); return v; }
static inline std::string str(bool v) { return v ? "1" : "0"; }
static inline std::string str(E v) { return std::to_string((int) v); }
static inline std::string str(std::string const &v) { return "<" + v + ">"; }
static inline std::string str(K const &v) { return "{" + std::to_string(v.v) + "}"; }
static inline std::string str(Vec const &v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]); return s + "]"; }
template <class T> static inline std::string flt(T v) { return std::to_string((double) v); }
static inline std::string hexf(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; }
static inline std::string str(double v) { return hexf(v); }
static inline std::string str(float v) { return hexf(v); }
template <class T> static inline std::string str(T v) { return std::to_string((long long) v >= 0 && (T) -1 > (T) 0 ? 0 : 0) == "" ? "" : std::to_string(+v); }
template <class T> struct Dump;
struct R {
    int pad0;''']
    body, init, dump, poke, free, statics = [], [], [], [], [], []
    for i, (n, t, kd, vals, bad) in enumerate(attrs()):
        m = 'm_' + n
        decl = 'static %s %s;' if 'static' in kd else '%s %s;'
        body.append('    ' + decl % (t, m))
        if 'static' in kd:
            statics.append('%s R::%s = %s;' % (t, m, vals[0][1]))
        else:
            init.append('%s = %s;' % (m, vals[0][1]))
        if kd in ('acc', 'getonly'):
            body.append('    %s get_%s() const { return %s; }' % (t, n, m))
        if kd == 'acc':
            body.append('    void set_%s(%s x) { %s = x; }' % (n, t, m))
        if kd == 'custom':
            free.append('inline %s cget_%s(R &r) { return r.%s; }\ninline void cset_%s(R &r, %s x) { r.%s = x; }' % (t, n, m, n, t, m))
        if kd == 'tcustom':
            free.append('template <class A, int B> inline %s cget_%s(R &r) { return r.%s; }\n'
                        'template <class A> inline void cset_%s(R &r, %s x) { r.%s = (A) x; }' % (t, n, m, n, t, m))
        dump.append('s.push_back(str(%s));' % m)
        poke.append('case %d: %s = j == 0 ? %s : %s; break;' % (i, m, vals[-1][1], vals[1][1]))
    h += body
    h.append('    int pad1;\n    R() : pad0(77), pad1(88) { %s }' % '\n        '.join(init))
    h.append('    std::string dump(int i) const { std::vector<std::string> s; %s return s[i]; }' % '\n        '.join(dump))
    h.append('    void poke(int i, int j) { switch (i) { %s } }' % '\n        '.join(poke))
    h.append('    int pads() const { return pad0 * 1000 + pad1; }\n};')
    h.append('\n'.join(statics) + '\n' + '\n'.join(free))
    h.append('''struct Mid { double other; virtual ~Mid() {} Mid() : other(1) {} };
struct D : R { int extra; D() : extra(1) {} };
struct DD : D { static int s2; };
int DD::s2 = 4;''')
    return '\n'.join(h)


def gen(mod):
    from pybindgen import param, retval
    mod.add_enum('E', ['E_A', 'E_B', 'E_C'])
    K = mod.add_class('K')
    K.add_constructor([param('int', 'v')])
    K.add_copy_constructor()
    K.add_method('get', 'int', [], is_const=True)
    O = mod.add_class('Other')
    O.add_constructor([])
    mod.add_container('Vec', 'int', 'vector')
    R = mod.add_class('R')
    R.add_constructor([])
    R.add_copy_constructor()
    for n, t, kd, vals, bad in attrs():
        rv = lambda: retval(t)
        if kd in ('plain', 'const'):
            R.add_instance_attribute('m_' + n, rv(), is_const=kd == 'const', custom_name='c_' + n if len(n) % 2 else None)
        elif kd == 'acc':
            R.add_instance_attribute('m_' + n, rv(), getter='get_' + n, setter='set_' + n)
        elif kd == 'getonly':
            R.add_instance_attribute('m_' + n, rv(), is_const=True, getter='get_' + n)
        elif kd in ('static', 'conststatic'):
            R.add_static_attribute('m_' + n, rv(), is_const=kd != 'static')
        elif kd == 'custom':
            R.add_custom_instance_attribute('m_' + n, rv(), 'cget_' + n, setter='cset_' + n)
        elif kd == 'tcustom':
            R.add_custom_instance_attribute('m_' + n, rv(), 'cget_' + n, setter='cset_' + n,
                                            getter_template_parameters=[t, '3'], setter_template_parameters=[t])
    R.add_method('dump', retval('std::string'), [param('int', 'i')], is_const=True)
    R.add_method('poke', None, [param('int', 'i'), param('int', 'j')])
    R.add_method('pads', 'int', [], is_const=True)
    D = mod.add_class('D', parent=R, allow_subclassing=False)
    D.add_constructor([])
    D.add_instance_attribute('extra', 'int')
    DD = mod.add_class('DD', parent=D)
    DD.add_constructor([])
    DD.add_static_attribute('s2', 'int')


def pyname(a):
    n, kd = a[0], a[2]
    return 'c_' + n if kd in ('plain', 'const') and len(n) % 2 else 'm_' + n


class Raises(object):
    def __bool__(self):
        raise ZeroDivisionError()


def explore(M, x):
    A = attrs()
    names = [pyname(a) for a in A]
    READONLY = ('const', 'getonly', 'conststatic')
    static = [i for i, a in enumerate(A) if 'static' in a[2]]

    def topy(v):
        if isinstance(v, tuple):
            return M.Other() if v[0] == 'OTHER' else M.K(v[1])
        if v == 'RAISES':
            return Raises()
        return v

    def norm(v):
        if isinstance(v, M.K):
            return ('K', v.get())
        if isinstance(v, M.Vec):
            return list(v)
        return v

    def ops_of(i):
        n, t, kd, vals, bad = A[i]
        out = []
        if kd in READONLY:
            out = [('bad', i, 0), ('setro', i, 1)]
        else:
            out = [('set', i, j) for j in range(len(vals))] + [('bad', i, j) for j in range(len(bad))]
        return out + [('del', i, 0), ('poke', i, 0), ('poke', i, 1)]

    class World(object):
        def __init__(self, cls):
            self.objs = [cls(), M.R()]
            self.rec = [[0] * len(A), [0] * len(A)]
            for i in static:
                self.objs[0].poke(i, 1)
                self.rec[0][i] = self.rec[1][i] = 1
            for i in range(len(A)):
                if i not in static and A[i][2] not in READONLY:
                    # distinct values in the two objects
                    self.objs[1].poke(i, 1)
                    self.rec[1][i] = 1

        def put(self, o, i, j):
            for k in ((0, 1) if i in static else (o,)):
                self.rec[k][i] = j

        def do(self, op, o):
            what, i, j = op
            n, t, kd, vals, bad = A[i]
            obj = self.objs[o]
            target = type(obj) if i in static else obj
            if what == 'set':
                setattr(target, names[i], topy(vals[j][0]))
                self.put(o, i, j)
            elif what == 'poke':
                obj.poke(i, j)
                self.put(o, i, len(vals) - 1 if j == 0 else 1)
            else:
                try:
                    if what == 'del':
                        delattr(target, names[i])
                    elif what == 'setro':
                        setattr(target, names[i], topy(vals[j][0]))
                    else:
                        setattr(target, names[i], topy(bad[j]))
                except (TypeError, ValueError, OverflowError, AttributeError, ZeroDivisionError) as e:
                    if what in ('del', 'setro') and not isinstance(e, (AttributeError, TypeError)):
                        x.fail('%s %s: %r' % (what, names[i], e))
                else:
                    x.fail('%s of %s with %r was accepted' % (what, names[i], bad[j] if what == 'bad' else None))

        def compare(self, only=None, what=''):
            for o in (0, 1):
                obj = self.objs[o]
                for i in range(len(A)) if only is None else only:
                    want = A[i][3][self.rec[o][i]]
                    got = norm(getattr(type(obj) if i in static else obj, names[i]))
                    if got != want[0] or type(got) is not type(want[0]):
                        x.fail('%s: object %d: %s is %r, expected %r' % (what, o, names[i], got, want[0]))
                        return
                    d = obj.dump(i)
                    wd = want[2]
                    if d != wd and not (wd[:2] in ('0x', '-0') and float.fromhex(d) == float.fromhex(wd)):
                        x.fail('%s: object %d: C++ has %s = %s, expected %s' % (what, o, names[i], d, wd))
                        return
                if obj.pads() != 77088:
                    x.fail('%s: memory around the members changed' % what)
                    return
    reads = {}

    def sequence(cls, seq):
        w = World(cls)
        for op, o in seq:
            w.do(op, o)
            x.step()
            x.state((op, o))
            idx = sorted(set(p[0][1] for p in seq))
            near = [k for i in idx for k in (i - 1, i, i + 1) if 0 <= k < len(A)]
            w.compare(near, '%s %s' % (op[0], names[op[1]]))
        w.compare(None, 'after %r' % (seq,))
    depth = 3 if x.thorough else 2
    for cls in (M.R, M.D, M.DD):
        for i in range(len(A)):
            ops = [(op, o) for op in ops_of(i) for o in (0, 1)]
            d = depth if cls is M.R else depth - 1
            for seq in itertools.product(ops, repeat=d):
                x.run('%s %s %s' % (cls.__name__, names[i], ' '.join('%s%d@%d' % (op[0], op[2], o) for op, o in seq)), sequence, cls, seq)
    # pairs of attributes
    for i in range(len(A)):
        for k in range(len(A)):
            if i == k:
                continue
            a, b = ops_of(i), ops_of(k)
            for o in (0, 1):
                seq = ((a[1], 0), (b[1], o), (a[2], 0), (b[-3], o))
                x.run('pair %s %s %d' % (names[i], names[k], o), sequence, M.R, seq)

    def inherited():
        d, e = M.D(), M.DD()
        d.extra, e.extra = 5, 6
        x.eq((d.extra, e.extra), (5, 6), 'extra')
        M.DD.s2 = 9
        x.eq(M.DD.s2, 9, 's2')
        x.check(not hasattr(M.D, 's2') and not hasattr(M.R, 's2') and not hasattr(M.R, 'extra') and not hasattr(M.R(), 'extra'), 'attribute leaked to a base')
        n = names[static[0]]
        for c in (M.R, M.D, M.DD):
            for c2 in (M.R, M.D, M.DD):
                for v in A[static[0]][3]:
                    setattr(c, n, topy(v[0]))
                    x.eq(norm(getattr(c2, n)), v[0], 'static through %s and %s' % (c.__name__, c2.__name__))
    x.run('inherited', inherited)


def scenarios(tier):
    return [Scenario('attr', header(), gen, explore, shards=8)]


# ------------------------------------------------------------------ static attributes inherited from several bases
SHAPES = [('single', [('A', ''), ('B', 'A'), ('C', 'B')]), ('two', [('A', ''), ('B', ''), ('C', 'AB')]), ('three', [('A', ''), ('B', ''), ('C', ''), ('D', 'ABC')]),
          ('diamond', [('A', ''), ('B', 'A'), ('C', 'A'), ('D', 'BC')]), ('deep', [('A', ''), ('B', ''), ('C', 'AB'), ('D', 'C')]),
          ('chain', [('A', ''), ('B', 'A'), ('C', ''), ('D', 'BC')]), ('chain2', [('A', ''), ('B', 'A'), ('C', ''), ('D', 'CB')]),
          ('twice', [('A', ''), ('B', ''), ('C', ''), ('D', 'AB'), ('E', 'DC')])]


def static_variants():
    for shape, classes in SHAPES:
        for mask in range(1 << len(classes)):
            for sub in (0, 1):
                yield shape, classes, mask, sub, '%s%d%s' % (shape, mask, 's' if sub else '')


def static_header():
    out = ['#include "pbmc.h"']
    for shape, classes, mask, sub, pre in static_variants():
        for n, (c, bases) in enumerate(classes):
            virt = 'virtual ' if shape == 'diamond' else ''
            out.append('struct %s_%s%s { int i%s; static int s_%s; %s_%s() : i%s(%d) {} int m%s() { return %d; } };' % (
                pre, c, ' : ' + ', '.join('%s%s_%s' % (virt, pre, b) for b in bases) if bases else '', c, c, pre, c, c, n, c, n))
            out.append('int %s_%s::s_%s = %d;' % (pre, c, c, 100 + n))
            out.append('PBMC_C int get_%s_%s() { return %s_%s::s_%s; }' % (pre, c, pre, c, c))
    return '\n'.join(out)


def static_gen(mod):
    for shape, classes, mask, sub, pre in static_variants():
        k = {}
        for n, (c, bases) in enumerate(classes):
            kw = {'parent': [k[b] for b in bases] if len(bases) > 1 else k[bases]} if bases else {}
            k[c] = mod.add_class('%s_%s' % (pre, c), allow_subclassing=bool(sub), **kw)
            k[c].add_constructor([])
            k[c].add_method('m' + c, 'int', [])
            if mask >> n & 1:
                k[c].add_static_attribute('s_' + c, 'int')


def static_case(M, x, classes, mask, sub, pre):
    lib = x.clib()
    anc = {}
    for c, bases in classes:
        anc[c] = {c}.union(*[anc[b] for b in bases])
    has = {c for n, (c, b) in enumerate(classes) if mask >> n & 1}
    num = {c: n for n, (c, b) in enumerate(classes)}
    for c, b in classes:
        K = getattr(M, '%s_%s' % (pre, c))
        kinds = [K]
        if sub:
            class P(K):
                pass
            kinds.append(P)
        for k in kinds:
            for a in num:
                want = a in anc[c] and a in has
                x.eq(hasattr(k, 's_' + a), want, '%s.s_%s exists' % (c, a))
                x.step()
                if want:
                    x.eq(getattr(k, 's_' + a), 100 + num[a], '%s.s_%s' % (c, a))
                    setattr(k, 's_' + a, 7)
                    x.eq(getattr(lib, 'get_%s_%s' % (pre, a))(), 7, 'C++ value of s_%s set through %s' % (a, c))
                    setattr(k, 's_' + a, 100 + num[a])
            o = k()
            for a in anc[c]:
                x.eq(getattr(o, 'm' + a)(), num[a], 'method of %s on %s' % (a, c))
            x.eq(all(isinstance(o, getattr(M, '%s_%s' % (pre, a))) for a in anc[c]), True, 'isinstance')
        x.state((pre, c, type(K).__name__))


def explore_static(M, x):
    for shape, classes, mask, sub, pre in static_variants():
        x.run('static/%s' % pre, static_case, M, x, classes, mask, sub, pre)


_scenarios = scenarios


def scenarios(tier):
    return _scenarios(tier) + [Scenario('statics', static_header(), static_gen, explore_static, cxxflags=['-O0'])]
