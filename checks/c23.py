"""C23: generation is a pure function of the module description."""
import hashlib
import inspect
import io
import itertools
import json
import os
import re
import subprocess
import sys
from pbmc import Scenario, REPO

LEVEL = 'model_checking'
RULE = ('descriptions that declare the same names for different things, as sequences of steps; every bounded interleaving of the steps of two of them (and of whole '
        'descriptions before) in one process; every iteration order of sets that a switch at one place can give; environments of the process')
BOUNDS = {'quick': '12 descriptions of 4-7 steps: all ordered pairs (the second with other names) x all interleavings with at most 2 switches; all sequences of 2 descriptions before a third for 6; 1 or 2 descriptions that fail or need other settings before; '
                   '4 orders of all sets and the reversal of each single iteration; 16 hash seeds, 5 locales, -O, -OO, 6 kinds of output object',
          'thorough': 'the same with at most 4 switches, sequences of 3, pairs of reversed iterations, 128 hash seeds'}
NOTE = 'each history runs in a process forked from one that has only imported pybindgen; the reference is the description alone'


# ------------------------------------------------------------------ descriptions: lists of steps on a state (namespace object)
def D_numbers():
    def s1(s):
        s.mod = s.Module('m')
        s.mod.add_include('"a.h"')

    def s2(s):
        s.mod.add_function('f', 'int', [s.param('int', 'a'), s.param('std::string', 'b', default_value='"x"')])
        s.mod.add_function('f', 'int', [s.param('double', 'a')])

    def s3(s):
        s.mod.add_function('g', 'uint64_t', [s.param('bool &', 'o', direction=2), s.param('int *', 'p', direction=3)])

    def s4(s):
        s.mod.add_cpp_namespace('ns').add_function('f', None, [s.param('PyObject *', 'o', transfer_ownership=False)])
    return [s1, s2, s3, s4]


def D_plain():
    def s1(s):
        s.mod = s.Module('m')
        s.X = s.mod.add_class('X')

    def s2(s):
        s.mod.add_enum('E', ['A', 'B'])
        s.X.add_constructor([])
        s.X.add_constructor([s.param('E', 'e')])
        s.X.add_copy_constructor()

    def s3(s):
        s.X.add_method('m', 'X', [s.param('X &', 'x'), s.param('E', 'e', default_value='A')])

    def s4(s):
        s.mod.add_function('f', s.retval('X *', caller_owns_return=True), [s.param('X *', 'x', transfer_ownership=True)])
        s.mod.add_function('g', 'E', [s.param('X', 'x')])
    return [s1, s2, s3, s4]


def D_virtual():
    def s1(s):
        s.mod = s.Module('m')
        s.X = s.mod.add_class('X', allow_subclassing=True, memory_policy=s.cppclass.ReferenceCountingMethodsPolicy('Ref', 'Unref', 'Peek'))

    def s2(s):
        s.mod.add_enum('E', ['C', 'D', 'F'])
        s.X.add_constructor([])

    def s3(s):
        s.X.add_method('v', 'int', [s.param('E', 'e')], is_virtual=True)
        s.X.add_method('w', s.retval('X *', caller_owns_return=True), [], is_virtual=True, is_pure_virtual=True, is_const=True)
        s.X.add_method('p', 'void', [s.param('X *', 'x', transfer_ownership=False)], is_virtual=True, visibility='protected')

    def s4(s):
        s.Y = s.mod.add_class('Y', parent=s.X)
        s.Y.add_constructor([])
        s.mod.add_function('f', 'void', [s.param('X *', 'x', transfer_ownership=False)])
    return [s1, s2, s3, s4]


def D_namespace():
    def s1(s):
        s.mod = s.Module('m', cpp_namespace='ns')
        s.X = s.mod.add_class('X')

    def s2(s):
        s.mod.add_enum('E', ['A', 'Z'])
        s.X.add_constructor([])
        s.X.add_copy_constructor()
        s.mod.add_container('std::vector<int>', 'int', 'vector')

    def s3(s):
        s.mod.add_container('std::map<std::string, int>', ('std::string', 'int'), 'map')
        s.mod.add_function('f', 'std::vector<int>', [s.param('X', 'x'), s.param('E', 'e')])

    def s4(s):
        s.mod.add_function('g', 'std::map<std::string, int>', [s.param('std::vector<int>', 'v'), s.param('ns::X &', 'x')])
    return [s1, s2, s3, s4]


def D_containers():
    def s1(s):
        s.mod = s.Module('m')
        s.mod.add_container('std::vector<int>', 'int', 'vector', custom_name='Ints')

    def s2(s):
        s.X = s.mod.add_class('X')
        s.X.add_constructor([])
        s.X.add_copy_constructor()

    def s3(s):
        s.mod.add_container('std::list<X>', 'X', 'list')
        s.mod.add_function('f', 'std::list<X>', [s.param('std::vector<int> &', 'v')])

    def s4(s):
        s.mod.add_class('Z').add_method('m', 'std::vector<int>', [s.param('std::list<X>', 'l')])
    return [s1, s2, s3, s4]


def D_shared():
    def s1(s):
        s.mod = s.Module('m')
        s.X = s.mod.add_class('X', memory_policy=s.smart_ptr.StdSharedPtr('X'))

    def s2(s):
        s.X.add_constructor([s.param('int', 'a')])

    def s3(s):
        s.mod.add_function('f', 'std::shared_ptr<X>', [s.param('std::shared_ptr<X>', 'x')])

    def s4(s):
        s.mod.add_function('g', 'void', [s.param('X &', 'x')])
    return [s1, s2, s3, s4]


def D_many():
    def s1(s):
        s.mod = s.Module('m')
        s.A = s.mod.add_class('A', allow_subclassing=True)
        s.B = s.mod.add_class('B', allow_subclassing=True)

    def s2(s):
        s.X = s.mod.add_class('X', parent=[s.A, s.B])
        for k in (s.A, s.B, s.X):
            k.add_constructor([])
            k.add_copy_constructor()
        s.A.add_method('v', 'int', [], is_virtual=True)
        s.B.add_method('v', 'int', [s.param('int', 'a')], is_virtual=True)

    def s3(s):
        for k in (s.A, s.X):
            k.add_static_attribute('sa', 'int')
            k.add_instance_attribute('ia', 'std::string')
            for op in ('==', '!=', '<', '<=', '>', '>='):
                k.add_binary_comparison_operator(op)
            for op in '+-*/':
                k.add_binary_numeric_operator(op)
            k.add_inplace_numeric_operator('+=', 'int')
            k.add_unary_numeric_operator('-')
            k.add_output_stream_operator()

    def s4(s):
        s.E = s.mod.add_exception('E', message_rvalue='%(EXC)s.what()')
        s.mod.add_function('f', 'X', [s.param('A *', 'a', transfer_ownership=False)], throw=[s.E])
        s.X.add_method('t', 'int', [], throw=[s.E], unblock_threads=True)

    def s5(s):
        s.B.implicitly_converts_to(s.A)
        s.mod.add_function('take', 'int', [s.param('A', 'a')])
        s.mod.add_typedef(s.X, 'Also')
        s.mod.add_function('also', 'Also', [])
    return [s1, s2, s3, s4, s5]


def D_import():
    def s1(s):
        s.mod = s.Module('m')
        s.X = s.mod.add_class('X', import_from_module='other', automatic_type_narrowing=True)

    def s2(s):
        s.Y = s.mod.add_class('Y', parent=s.X, automatic_type_narrowing=True)
        s.Y.add_constructor([])

    def s3(s):
        s.mod.add_enum('E', ['A', 'B'], import_from_module='other')
        s.mod.add_function('f', s.retval('X *', caller_owns_return=True), [s.param('E', 'e'), s.param('Y &', 'y')])
    return [s1, s2, s3]


def D_short():
    def s1(s):
        s.mod = s.Module('m')
        s.n = s.mod.add_cpp_namespace('n1')
        s.o = s.mod.add_cpp_namespace('n2')

    def s2(s):
        s.X = s.n.add_class('X')
        s.X.add_constructor([])
        s.X.add_copy_constructor()
        s.o.add_enum('E', ['Q'])

    def s3(s):
        s.mod.add_function('f', 'X', [s.param('E', 'e')])
        s.n.add_function('g', 'X', [s.param('n1::X *', 'x', transfer_ownership=False), s.param('const X &', 'y')])
    return [s1, s2, s3]


def D_nested():
    def s1(s):
        s.mod = s.Module('m')
        s.O = s.mod.add_class('O')
        s.X = s.mod.add_class('X', outer_class=s.O)

    def s2(s):
        s.mod.add_enum('E', ['A'], outer_class=s.O)
        s.T = s.mod.add_class('T', template_parameters=['X'])
        s.T2 = s.mod.add_class('T', template_parameters=['int'], custom_name='TI')

    def s3(s):
        s.X.add_constructor([])
        s.X.add_copy_constructor()
        s.T.add_constructor([s.param('O::X', 'x')])
        s.T2.add_constructor([s.param('T<int> const &', 'x')])
        s.O.add_method('m', 'O::X', [s.param('O::E', 'e'), s.param('T< int > *', 't', transfer_ownership=False)])

    def s4(s):
        s.mod.add_function('f', 'void', [s.param('T< X > &', 't')], template_parameters=['X'])
        s.mod.add_function('f', 'void', [s.param('X &', 't')], custom_name='ff')
    return [s1, s2, s3, s4]


def D_sub():
    def s1(s):
        s.mod = s.Module('m', docstring='doc')
        s.a = s.mod.add_cpp_namespace('a')
        s.b = s.a.add_cpp_namespace('b')

    def s2(s):
        for m in (s.mod, s.a, s.b):
            X = m.add_class('X', automatic_type_narrowing=True, allow_subclassing=True)
            X.add_constructor([])
            X.add_method('v', 'void', [], is_virtual=True)
            m.add_enum('E', ['A', 'B'])

    def s3(s):
        for m, p in ((s.mod, ''), (s.a, 'a::'), (s.b, 'a::b::')):
            m.add_function('f', 'void', [s.param(p + 'X *', 'x', transfer_ownership=False), s.param(p + 'E', 'e')])
    return [s1, s2, s3]


def D_custodians():
    def s1(s):
        s.mod = s.Module('m')
        s.X = s.mod.add_class('X', foreign_cpp_namespace='ns')
        s.K = s.mod.add_class('K')

    def s2(s):
        s.X.add_constructor([])
        s.K.add_constructor([s.param('ns::X *', 'x', custodian=0, transfer_ownership=False)])
        s.K.add_method('r', s.retval('ns::X *', reference_existing_object=True), [])

    def s3(s):
        m = s.K.add_method('m', s.retval('ns::X *', caller_owns_return=True), [])
        m.add_custodian_and_ward(-1, 0)
        s.K.add_container_traits('int', 'begin', 'end', 'iterator')

    def s4(s):
        s.K.add_method('d', 'int', [], deprecated='old', is_static=True)
        s.K.add_custom_instance_attribute('c', 'int', 'getc', is_const=True)
        s.mod.add_custom_function_wrapper('cust', '_wrap_cust', 'PyObject *_wrap_cust(PyObject *, PyObject *, PyObject *, PyObject **) { return NULL; }')
    return [s1, s2, s3, s4]


def B_lookup():
    def s1(s):
        s.mod = s.Module('m')
        s.X = s.mod.add_class('X', allow_subclassing=True)
        s.X.add_method('v', 'int', [], is_virtual=True)
        s.X.add_method('v', 'int', [s.param('Unknown', 'u')], is_virtual=True)
    return [s1]


def B_generate():
    def s1(s):
        s.mod = s.Module('m', cpp_namespace='ns')
        s.X = s.mod.add_class('X', allow_subclassing=True, automatic_type_narrowing=True)
        s.mod.add_enum('E', ['Q'])
        s.X.add_constructor([s.param('E', 'e')])
        s.X.add_method('v', 'int', [], is_virtual=True)
        s.mod.add_function('f', 'X', [])                # no copy constructor
        s.mod.add_function('g', 'int', [s.param('X', 'a')])
    return [s1]


def B_settings():
    def s1(s):
        import pybindgen.settings as st
        old = {k: getattr(st, k) for k in ('name_prefix', 'automatic_type_narrowing', 'allow_subclassing', 'unblock_threads', 'error_handler', 'wrapper_registry')}
        try:
            class H(st.ErrorHandler):
                def handle_error(self, wrapper, exc, tb):
                    return True
            st.name_prefix, st.automatic_type_narrowing, st.allow_subclassing, st.unblock_threads, st.error_handler = 'Pre', True, True, True, H()
            from pybindgen.wrapper_registry import StdMapWrapperRegistry
            st.wrapper_registry = StdMapWrapperRegistry
            for step in D_virtual() + D_namespace() + D_shared():
                step(s)
            s.mod.add_function('f', 'Unknown', [s.param('Unknown', 'a')])
            generate(s)
        finally:
            for k, v in old.items():
                setattr(st, k, v)
    return [s1]


BEFORE = [('no-such-type', B_lookup), ('cannot-generate', B_generate), ('other-settings', B_settings)]
DESCS = [('numbers', D_numbers), ('plain', D_plain), ('virtual', D_virtual), ('namespace', D_namespace), ('containers', D_containers), ('shared', D_shared),
         ('many', D_many), ('import', D_import), ('short', D_short), ('nested', D_nested), ('sub', D_sub), ('custodians', D_custodians)]
BYNAME = dict(DESCS + BEFORE)


def disjoint(f):
    """the same description with other names for everything it declares"""
    t = inspect.getsource(f).replace('std::vector<int>', 'std::vector<long>').replace('std::map<std::string, int>', 'std::map<std::string, long>')
    t = t.replace("'std::map<std::string, long>', ('std::string', 'int')", "'std::map<std::string, long>', ('std::string', 'long')")
    t = t.replace("'std::vector<long>', 'int'", "'std::vector<long>', 'long'")
    t = re.sub(r"'(?:[^'\\]|\\.)*'", lambda m: re.sub(r'\b([A-Z]|TI)\b', r'\g<1>_', m.group(0)) if m.group(0)[1:2] not in '"' else m.group(0), t)
    env = {}
    exec(compile(t, f.__name__ + '_', 'exec'), env)
    return env[f.__name__]


OTHERS = [(d + '_', disjoint(f)) for d, f in DESCS]
BYNAME.update(OTHERS)


class State(object):
    pass


def start():
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import pybindgen  # noqa
    import pybindgen.typehandlers.smart_ptr  # noqa


def new_state():
    import pybindgen
    from pybindgen import cppclass
    from pybindgen.typehandlers import smart_ptr
    s = State()
    s.Module, s.param, s.retval = pybindgen.Module, pybindgen.param, pybindgen.retval
    s.cppclass, s.smart_ptr = cppclass, smart_ptr
    return s


def generate(s, how='sink', path=None):
    from pybindgen import FileCodeSink
    if how == 'stringio':
        f = io.StringIO()
        s.mod.generate(f)
        return f.getvalue()
    if how == 'sink':
        f = io.StringIO()
        s.mod.generate(FileCodeSink(f))
        return f.getvalue()
    if how == 'custom':
        class W(object):
            def __init__(self):
                self.parts = []

            def write(self, t):
                self.parts.append(t)

            def flush(self):
                pass

            def close(self):
                pass
        w = W()
        s.mod.generate(w)
        return ''.join(w.parts)
    if how == 'memory':
        from pybindgen.typehandlers.codesink import MemoryCodeSink
        m = MemoryCodeSink()
        s.mod.generate(m)
        f = io.StringIO()
        m.flush_to(FileCodeSink(f))
        return f.getvalue()
    if how == 'file':
        with open(path, 'w') as f:
            s.mod.generate(f)
    elif how == 'filesink':
        with open(path, 'w') as f:
            s.mod.generate(FileCodeSink(f))
    with open(path) as f:
        return f.read()


def history(events):
    """events: list of (instance, description) in the order the steps run; the step after the last one generates.  Gives {instance: text}."""
    insts = {}
    out = {}
    for i, d in events:
        if i not in insts:
            insts[i] = [new_state(), BYNAME[d](), 0]
        st = insts[i]
        try:
            if st[2] < len(st[1]):
                st[1][st[2]](st[0])
            else:
                out[i] = generate(st[0])
        except Exception:
            if d not in dict(BEFORE):
                raise
        st[2] += 1
    return out


def digest(t):
    return hashlib.sha1(t.encode('utf8')).hexdigest()


def forked(fn, *args):
    """fn(*args) in a forked child; the result comes back as JSON"""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            try:
                res = ['ok', fn(*args)]
            except BaseException as e:
                import traceback
                res = ['error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-700:])]
            with os.fdopen(w, 'w') as f:
                json.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        t = f.read()
    os.waitpid(pid, 0)
    return json.loads(t) if t else ['error', 'child died']


def solo(d):
    return forked(lambda: history([(0, d)] * (len(BYNAME[d]()) + 1))[0])


def run_history(events):
    return {str(i): [digest(t), t] for i, t in history(events).items()}


def first_diff(a, b):
    for n, (p, q) in enumerate(itertools.zip_longest(a.splitlines(), b.splitlines())):
        if p != q:
            return 'line %d: %r, alone %r' % (n + 1, p, q)
    return 'same lines'


def compare(x, events, ref):
    st, res = forked(run_history, events)
    x.step(len(events))
    if st == 'error':
        x.fail('raised: ' + res)
        return
    for i, d in sorted(set(events)):
        if d in dict(BEFORE):
            continue
        h, t = res[str(i)]
        x.state((d, h))
        if h != ref[d][0]:
            x.fail('the output for %s differs: %s' % (d, first_diff(t, ref[d][1])))


def references(x):
    ref = {}
    for d, f in DESCS + OTHERS:
        st, t = solo(d)
        if st != 'ok':
            x.case('solo/' + d)
            x.fail('raised: ' + t)
            return None
        ref[d] = (digest(t), t)
    return ref


def interleavings(n, m, switches):
    """words over a^n b^m with at most `switches` changes of letter"""
    def rec(a, b, last, left):
        if not a and not b:
            yield ()
            return
        for c, k in (('a', a), ('b', b)):
            if not k:
                continue
            if last is not None and c != last:
                if not left:
                    continue
                l2 = left - 1
            else:
                l2 = left
            for w in rec(a - (c == 'a'), b - (c == 'b'), c, l2):
                yield (c,) + w
    return rec(n, m, None, switches)


def explore_pairs(names, x):
    start()
    ref = references(x)
    if ref is None:
        return
    sw = 4 if x.thorough else 2
    for d1 in names:
        for d2, f2 in OTHERS:
            n1, n2 = len(BYNAME[d1]()) + 1, len(f2()) + 1
            for w in interleavings(n1, n2, sw):
                key = 'pair/%s/%s/%s' % (d1, d2, ''.join(w))
                x.run(key, compare, x, [(0, d1) if c == 'a' else (1, d2) for c in w], ref)


def explore_sequences(x):
    start()
    ref = references(x)
    if ref is None:
        return
    names = [d for d, f in DESCS] if x.thorough else ['plain', 'virtual', 'namespace', 'shared', 'short', 'nested']
    before = [b for b, f in BEFORE]
    broken = [tuple(b) + (d,) for d, f in DESCS for n in (1, 2) for b in itertools.product(before, repeat=n)]
    for seq in broken + list(itertools.product(names, repeat=3)):
        ev = []
        for i, d in enumerate(seq):
            ev += [(i, d)] * (len(BYNAME[d]()) + 1)
        x.run('seq/' + '/'.join(seq), compare, x, ev, ref)


# ------------------------------------------------------------------ the order of sets
class Orders(object):
    count = 0
    flips = ()
    policy = None


class OSet(set):
    """a set with an iteration order of our choosing"""

    def __init__(self, it=()):
        it = list(it)
        set.__init__(self, it)
        self._o = []
        for i in it:
            if i not in self._o:
                self._o.append(i)

    def __iter__(self):
        items = [i for i in self._o]
        Orders.count += 1
        p = Orders.policy
        if p == 'reverse' or Orders.count in Orders.flips:
            items.reverse()
        elif p == 'rotate':
            items = items[1:] + items[:1]
        elif p == 'repr':
            items.sort(key=lambda i: str(i)[::-1])
        return iter(items)

    def add(self, i):
        if i not in self:
            self._o.append(i)
        set.add(self, i)

    def remove(self, i):
        set.remove(self, i)
        self._o.remove(i)

    def discard(self, i):
        if i in self:
            self.remove(i)

    def update(self, *its):
        for it in its:
            for i in it:
                self.add(i)

    def copy(self):
        return OSet(self)

    def pop(self):
        i = next(iter(self))
        self.remove(i)
        return i

    def _make(name):
        def op(self, *others):
            r = getattr(set(self._o), name)(*[set(o) for o in others])
            order = self._o + [i for o in others for i in o]
            return OSet([i for i in order if i in r])
        return op
    union, difference, intersection = _make('union'), _make('difference'), _make('intersection')
    symmetric_difference = _make('symmetric_difference')
    __or__, __sub__, __and__, __xor__ = union, difference, intersection, symmetric_difference

    def __ior__(self, o):
        self.update(o)
        return self


def ordered(d, policy, flips):
    for n, m in list(sys.modules.items()):
        if n.startswith('pybindgen') and m is not None:
            m.set = OSet
    Orders.policy, Orders.flips, Orders.count = policy, flips, 0
    s = new_state()
    for step in BYNAME[d]():
        step(s)
    t = generate(s)
    return [digest(t), t, Orders.count]


def check_order(x, d, policy, flips, ref):
    st, res = forked(ordered, d, policy, flips)
    x.step()
    if st == 'error':
        x.fail('raised: ' + res)
        return 0
    if res[0] != ref[d][0]:
        x.fail('the output for %s differs: %s' % (d, first_diff(res[1], ref[d][1])))
    return res[2]


def explore_orders(x):
    start()
    ref = references(x)
    if ref is None:
        return
    for d, f in DESCS:
        st, res = forked(ordered, d, None, ())
        n = res[2] if st == 'ok' else 0
        x.state((d, n))
        cases = [(str(p), p, ()) for p in (None, 'reverse', 'rotate', 'repr')] + [('flip%d' % k, None, (k,)) for k in range(1, n + 1)]
        if x.thorough:
            cases += [('flips%d-%d' % k, None, k) for k in itertools.combinations(range(1, min(n, 40) + 1), 2)]
        for key, policy, flips in cases:
            x.run('order/%s/%s' % (d, key), check_order, x, d, policy, flips, ref)


# ------------------------------------------------------------------ the environment of the process
CHILD = '''
import sys
sys.path[:0] = [%r, %r]
import c23
c23.child()
'''


def child():
    start()
    out = {}
    for d, f in DESCS:
        st, t = solo(d)
        out[d] = digest(t) if st == 'ok' else 'error ' + t
    sys.stdout.write('\n@@' + json.dumps(out))


def environment(x, env, flags, ref):
    e = dict(os.environ, **env)
    here = os.path.dirname(os.path.abspath(__file__))
    p = subprocess.run([sys.executable] + flags + ['-c', CHILD % (here, os.path.join(os.path.dirname(here), 'lib'))], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=300, cwd=x.workdir)
    x.step(len(DESCS))
    if p.returncode or '\n@@' not in p.stdout:
        x.fail('raised: ' + p.stderr[-600:])
        return
    out = json.loads(p.stdout[p.stdout.rindex('\n@@') + 3:])
    for d in out:
        x.state((d, out[d]))
        if out[d] != ref[d][0]:
            x.fail('the output for %s differs %s' % (d, out[d][:300] if out[d].startswith('error') else ''))


def explore_environment(x):
    start()
    ref = references(x)
    if ref is None:
        return
    cases = [('hash%d' % n, {'PYTHONHASHSEED': str(n)}, []) for n in range(1, 129 if x.thorough else 17)]
    cases += [('locale-' + str(n), dict(l), []) for n, l in enumerate([
        {'LC_ALL': 'C', 'LANG': 'C'}, {'LC_ALL': 'C.UTF-8'}, {'LC_ALL': 'POSIX', 'PYTHONUTF8': '0', 'PYTHONCOERCECLOCALE': '0'},
        {'LANG': 'tr_TR.UTF-8', 'LC_ALL': ''}, {'PYTHONIOENCODING': 'ascii'}])]
    cases += [('flag-O', {}, ['-O']), ('flag-OO', {}, ['-OO']), ('flag-B', {}, ['-B']), ('flag-X', {}, ['-X', 'dev'])]
    for key, env, flags in cases:
        x.run(key, environment, x, env, flags, ref)


def output(x, d, how, ref):
    path = os.path.join(x.workdir, 'out-%s-%s' % (d, how))

    def work():
        s = new_state()
        for step in BYNAME[d]():
            step(s)
        return generate(s, how, path)
    st, t = forked(work)
    x.step()
    if st == 'error':
        x.fail('raised: ' + t)
    elif digest(t) != ref[d][0]:
        x.fail('differs: ' + first_diff(t, ref[d][1]))


def explore_outputs(x):
    start()
    ref = references(x)
    if ref is None:
        return
    for d, f in DESCS:
        for how in ('sink', 'stringio', 'custom', 'memory', 'file', 'filesink'):
            x.run('output/%s/%s' % (d, how), output, x, d, how, ref)


def scenarios(tier):
    def sc(name, explore, shards=1):
        return Scenario(name, '', None, lambda M, x: explore(x), build=lambda sc, wd: [], compile=False, shards=shards)
    out = [sc('pairs_' + d, lambda x, d=d: explore_pairs([d], x), 8 if tier == 'thorough' else 2) for d, f in DESCS]
    out += [sc('sequences', explore_sequences, 8), sc('orders', explore_orders, 8), sc('environment', explore_environment, 8),
            sc('outputs', explore_outputs)]
    return out
