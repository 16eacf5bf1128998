"""Runs inside the driver subprocess: case bookkeeping and the model explorer."""
import ctypes
import itertools
import json
import mmap
import os
import struct
import sys
import traceback


class Violation(Exception):
    pass


class _Budget(Exception):
    pass


class Ctx(object):
    """Bookkeeping of one exploration: every case is announced before it runs."""

    MAXVIOL = 200       # cases with a violation before a driver gives up
    MAXPERCASE = 200

    def __init__(self, progress_path, tier='quick', shard=0, shards=1, only=None, skip=(), so=None):
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.shard, self.shards = shard, shards
        self.only = only
        self.skip = set(skip)
        self.violations = []
        self.badcases = {}
        self.cases = 0
        self.index = -1
        self.transitions = 0
        self.states = set()
        self.traces = 0
        self.nontrivial = set()
        self.samples = []
        self.notes = {}
        self.key = '<import>'
        self._pf = None
        if progress_path:
            f = open(progress_path, 'r+b')
            self._pf = mmap.mmap(f.fileno(), 8192)
            f.close()
        self._count = 0
        self.lib = None
        self.so = so
        self._announce('<import>')

    # -- progress
    def _announce(self, key):
        self.key = key
        if self._pf is not None:
            b = key.encode('utf8', 'backslashreplace')[:8000]
            self._count += 1
            self._pf[0:12] = struct.pack('<QI', self._count, len(b))
            self._pf[12:12 + len(b)] = b

    def case(self, key):
        """True if this shard has to run the case called key."""
        self.index += 1
        if self.only is not None:
            if key != self.only:
                return False
        elif self.index % self.shards != self.shard:
            return False
        if key in self.skip:
            return False
        if len(self.badcases) >= self.MAXVIOL:
            raise _Budget()
        self._announce(key)
        self.cases += 1
        if len(self.samples) < 3 or self.cases in (50, 500, 5000):
            self.samples.append(key[:400])
        return True

    def mine(self, key):
        """Like case() but does not count: for setting up a group of cases."""
        return True

    # -- verdicts
    def fail(self, msg):
        n = self.badcases[self.key] = self.badcases.get(self.key, 0) + 1
        if n <= self.MAXPERCASE:
            self.violations.append({'case': self.key, 'msg': str(msg)[:2000]})

    def check(self, cond, msg=''):
        if not cond:
            self.fail(msg)
        return cond

    def eq(self, got, want, what=''):
        same = type(got) is type(want) and (got == want or (got != got and want != want))
        if not same:
            self.fail('%s: got %r, expected %r' % (what, got, want))
        return same

    # -- coverage
    def state(self, s):
        self.states.add(s)

    def step(self, n=1):
        self.transitions += n

    def result(self):
        return {'cases': self.cases, 'transitions': self.transitions, 'states': len(self.states),
                'traces': self.traces, 'violations': self.violations, 'samples': self.samples,
                'notes': self.notes}

    # -- access to extern "C" probes of the extension under test
    def clib(self, so=None):
        if self.lib is None or so:
            self.lib = ctypes.PyDLL(so or self.so)
        return self.lib

    def run(self, key, fn, *args):
        """Run fn as one case; an unexpected exception is a violation."""
        if not self.case(key):
            return
        try:
            fn(*args)
        except Violation as e:
            self.fail(e)
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            self.fail('unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))


def product_cases(*pools):
    return itertools.product(*pools)


def explore_model(x, model, impl, depth, cover=True, label='', max_cover=None):
    """Explore every operation sequence of the model up to `depth`, in lock step with the code.

    model.init()          -> hashable state
    model.ops(state)      -> list of enabled operations (tuples)
    model.step(state, op) -> (state', expected observation)
    impl()                -> object with do(op) -> observation, end(state) -> None

    Every maximal path of at most `depth` operations is replayed against a fresh
    impl and every observation compared.  With `cover`, the model's graph is then
    explored breadth first to its fixpoint (or max_cover states) and every edge
    not already taken is replayed too, by way of a shortest path.
    """
    pre = label + ':' if label else ''
    seen_states = set()
    seen_edges = set()

    def replay(path):
        key = pre + ' '.join('.'.join(map(str, op)) for op in path)
        if not x.case(key):
            return
        s = model.init()
        try:
            im = impl()
            for i, op in enumerate(path):
                s, want = model.step(s, op)
                got = im.do(op)
                x.transitions += 1
                if got != want:
                    raise Violation('after %s: observed %r, model says %r'
                                    % (' '.join('.'.join(map(str, o)) for o in path[:i + 1]), got, want))
            im.end(s)
            x.traces += 1
        except Violation as e:
            x.fail(e)
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            x.fail('unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1200:]))

    init = model.init()
    # depth-first over the model, iteratively so deep bounds are fine
    def dfs(s, path):
        seen_states.add(s)
        ops = model.ops(s) if len(path) < depth else ()
        if not ops:
            if path:
                replay(path)
            return
        for op in ops:
            s2, _ = model.step(s, op)
            seen_edges.add((s, op))
            path.append(op)
            dfs(s2, path)
            path.pop()

    dfs(init, [])
    if cover:
        best = {init: []}
        queue = [init]
        while queue:
            nq = []
            for s in queue:
                for op in model.ops(s):
                    s2, _ = model.step(s, op)
                    if s2 not in best and (max_cover is None or len(best) < max_cover):
                        best[s2] = best[s] + [op]
                        nq.append(s2)
            queue = nq
        for s, path in best.items():
            seen_states.add(s)
            for op in model.ops(s):
                if (s, op) not in seen_edges:
                    seen_edges.add((s, op))
                    replay(path + [op])
    x.states.update((label, s) for s in seen_states)
    x.notes[label + ':model_states'] = len(seen_states)
    x.notes[label + ':model_edges'] = len(seen_edges)
