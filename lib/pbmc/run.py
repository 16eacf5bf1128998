"""python run.py <check id> [--tier quick|thorough] [--replay file] [--scenario name] [--keep]

Exit 0: the property held on everything explored.  Exit 1: VIOLATION lines.
"""
import argparse
import concurrent.futures
import fnmatch
import json
import os
import shutil
import struct
import subprocess
import sys
import sysconfig
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from pbmc.scenario import VERIF, REPO  # noqa: E402
from pbmc.loader import load_check, load_scenarios  # noqa: E402

EXT = sysconfig.get_config_var('EXT_SUFFIX')
JOBS = int(os.environ.get('PBMC_JOBS') or os.cpu_count() or 4)
STALL = 120          # seconds without a new case before a driver counts as hung
MAXCRASH = 4


class Run(object):
    def __init__(self, check, tier, args):
        self.check = check
        self.tier = tier
        self.args = args
        self.path = os.path.join(VERIF, 'checks', check.lower() + '.py')
        self.mod = load_check(self.path)
        self.scs = load_scenarios(self.path, tier)
        self.work = tempfile.mkdtemp(prefix='pbmc-%s-' % check)
        self.viol = []
        self.results = []
        self.programs = 0
        self.timing = {}

    def env(self, sc):
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env.setdefault('PYTHONHASHSEED', '0')
        tools = '/opt/pybindgen-tools/bin'
        if os.path.isdir(tools):
            env['PATH'] = tools + os.pathsep + env.get('PATH', '')
        env.pop('PYTHONPATH', None)
        env.update(sc.driver_env)
        return env

    def add_violation(self, sc, case, msg):
        self.viol.append({'scenario': sc.name, 'case': case, 'msg': msg})

    def compile(self, sc, wd, modname, sources, flags):
        so = os.path.join(wd, modname + EXT)
        objs = []
        base = ['g++', '-std=gnu++14', '-O0', '-fPIC', '-w', '-I' + os.path.join(HERE, 'shim'),
                '-I' + HERE, '-I' + sysconfig.get_path('include'), '-I' + wd]
        if sc.asan:
            base += ['-fsanitize=address', '-g']
        base += sc.cxxflags + list(flags)
        for s in sources:
            o = s + '.%s.o' % modname
            r = subprocess.run(base + ['-c', s, '-o', o], cwd=wd, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, universal_newlines=True, timeout=300)
            if r.returncode:
                errs = [ln for ln in r.stdout.splitlines() if 'error' in ln][:6]
                return None, 'generated code of %s does not compile: ' % modname + ' | '.join(errs)[:1500]
            objs.append(o)
        r = subprocess.run(base + ['-shared'] + objs + ['-o', so, '-pthread'], cwd=wd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True, timeout=300)
        if r.returncode:
            return None, 'generated code of %s does not link: ' % modname + r.stdout[-800:]
        return so, None

    def prepare(self, sc):
        wd = os.path.join(self.work, sc.name)
        os.makedirs(wd)
        t0 = time.time()
        r = subprocess.run([sys.executable, os.path.join(HERE, 'gen.py'), self.path, sc.name, self.tier, wd],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True,
                           env=self.env(sc), timeout=600, cwd=wd)
        if r.returncode:
            self.add_violation(sc, 'generate', 'generation failed: %s\n%s' % ((r.stderr.strip().splitlines() or [''])[-1], r.stderr[-1500:]))
            return None
        mods = json.loads(r.stdout[r.stdout.rindex('\n@@') + 3:])
        t1 = time.time()
        so = None
        if sc.compile:
            for modname, sources, flags in mods:
                so1, err = self.compile(sc, wd, modname, sources, flags)
                if err:
                    self.add_violation(sc, 'compile', err)
                    return None
                self.programs += 1
                if modname == sc.modname or so is None:
                    so = so1
        self.timing[sc.name] = [round(t1 - t0, 2), round(time.time() - t1, 2)]
        return wd, so, mods

    def drive(self, sc, wd, so, mods, shard):
        skip = []
        t0 = time.time()
        for attempt in range(MAXCRASH + 1):
            tag = os.path.join(wd, 'shard%d.%d' % (shard, attempt))
            spec = {'check': self.path, 'scenario': sc.name, 'tier': self.tier, 'shard': shard,
                    'shards': sc.shards, 'progress': tag + '.progress', 'out': tag + '.json', 'workdir': wd,
                    'so': so, 'mods': mods, 'skip': skip, 'only': self.args.only_case,
                    'autoimport': not hasattr(sc, 'noimport')}
            with open(tag + '.spec', 'w') as f:
                json.dump(spec, f)
            with open(spec['progress'], 'wb') as f:
                f.write(b'\0' * 8192)
            env = self.env(sc)
            env['PYTHONFAULTHANDLER'] = '1'
            if sc.asan:
                libs = [subprocess.check_output(['g++', '-print-file-name=' + n], universal_newlines=True).strip() for n in ('libasan.so', 'libstdc++.so.6')]
                env.update(LD_PRELOAD=' '.join(os.path.realpath(n) for n in libs), PYTHONMALLOC='malloc',
                           ASAN_OPTIONS='detect_leaks=0:detect_odr_violation=0:abort_on_error=0')
            log = open(tag + '.log', 'wb')
            p = subprocess.Popen([sys.executable, os.path.join(HERE, 'driver.py'), tag + '.spec'],
                                 stdout=log, stderr=subprocess.STDOUT, env=env, cwd=wd)
            log.close()
            last, lastt, hung = None, time.time(), False
            while True:
                try:
                    p.wait(timeout=0.5 if time.time() - t0 > 2 else 0.05)
                    break
                except subprocess.TimeoutExpired:
                    pass
                with open(spec['progress'], 'rb') as f:
                    n = f.read(8)
                if n != last:
                    last, lastt = n, time.time()
                elif time.time() - lastt > (sc.timeout or STALL):
                    hung = True
                    p.kill()
                    p.wait()
                    break
            if os.path.exists(spec['out']):
                with open(spec['out']) as f:
                    res = json.load(f)
                for v in res['violations']:
                    self.add_violation(sc, v['case'], v['msg'])
                res['scenario'] = sc.name
                self.results.append(res)
                break
            with open(spec['progress'], 'rb') as f:
                b = f.read()
            n = struct.unpack('<QI', b[:12])[1]
            case = b[12:12 + n].decode('utf8', 'replace')
            with open(tag + '.log', 'rb') as f:
                tail = f.read().decode('utf8', 'replace')
            if hung:
                why = 'no progress for %d s' % (sc.timeout or STALL)
            else:
                why = 'process ended with status %s' % p.returncode
            i = tail.find('ERROR: AddressSanitizer')
            self.add_violation(sc, case, '%s: %s' % (why, tail[i:i + 1500] if i >= 0 else tail[-1500:]))
            if case == '<import>' or case in skip:
                break
            skip = skip + [case]
        self.timing[sc.name + '/%d' % shard] = round(time.time() - t0, 2)

    def run(self):
        todo = [s for s in self.scs.values() if self.args.scenario in (None, s.name)]
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            prep = {ex.submit(self.prepare, s): s for s in todo}
            drv = []
            for f in concurrent.futures.as_completed(prep):
                s = prep[f]
                r = f.result()
                if r is None or s.explore is None:
                    continue
                for k in range(1 if self.args.only_case else s.shards):
                    drv.append(ex.submit(self.drive, s, r[0], r[1], r[2], k))
            for f in drv:
                f.result()


def load_known():
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for ln in f:
                if ln.startswith('known: '):
                    # known: property=Cxx scenario=<glob> case=<glob> what=<text>
                    d = {}
                    rest = ln[len('known: '):].strip()
                    rest, d['what'] = rest.split(' what=', 1)
                    rest, d['case'] = rest.split(' case=', 1)
                    for kv in rest.split():
                        k, v = kv.split('=', 1)
                        d[k] = v
                    known.append(d)
    return known


def known_match(known, prop, v):
    for k in known:
        if k['property'] == prop and fnmatch.fnmatchcase(v['scenario'], k['scenario']) \
                and fnmatch.fnmatchcase(v['case'], k['case']) \
                and (('msg' not in k) or k['msg'].replace('_', ' ') in v['msg']):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('check')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--scenario')
    ap.add_argument('--only-case', dest='only_case')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--dump')
    ap.add_argument('--verbose', '-v', action='store_true')
    args = ap.parse_args()
    args.check = args.check.upper()
    if args.replay:
        with open(args.replay) as f:
            rp = json.load(f)
        args.scenario = rp['scenario']
        args.tier = rp['tier']
        if rp['case'] not in ('generate', 'compile', '<import>'):
            args.only_case = rp['case']
    t0 = time.time()
    run = Run(args.check, args.tier, args)
    try:
        run.run()
    finally:
        if args.keep:
            print('kept', run.work)
        else:
            shutil.rmtree(run.work, ignore_errors=True)
    wall = time.time() - t0

    known = load_known()
    fresh, knownhit = [], {}
    for v in run.viol:
        k = known_match(known, args.check, v)
        if k is None:
            fresh.append(v)
        else:
            knownhit.setdefault(k['what'], []).append(v)

    tot = {k: sum(r[k] for r in run.results) for k in ('cases', 'transitions', 'states', 'traces')}
    level = getattr(run.mod, 'LEVEL', 'model_checking')
    samples = []
    for r in run.results:
        for s in r['samples'][:2]:
            if len(samples) < 12:
                samples.append('%s: %s' % (r['scenario'], s))
    cov = {'programs_generated_and_compiled': run.programs, 'scenarios': len(set(r['scenario'] for r in run.results)),
           'cases': tot['cases'], 'samples': samples, 'exhaustive': not fresh,
           'bounds': getattr(run.mod, 'BOUNDS', {}).get(args.tier, '') if isinstance(getattr(run.mod, 'BOUNDS', None), dict) else getattr(run.mod, 'BOUNDS', ''),
           'known_findings_seen': sum(len(v) for v in knownhit.values())}
    if level == 'model_checking':
        cov.update(states=tot['states'], transitions=tot['transitions'], traces_validated_against_impl=tot['traces'])
    else:
        cov.update(evaluations=tot['cases'], distinct_nontrivial=tot['states'], rule=getattr(run.mod, 'RULE', ''))
    ev = {'property': args.check, 'tier': args.tier, 'seed': int(os.environ.get('VERIF_SEED') or 1), 'level': level,
          'coverage': cov, 'wall_s': round(wall, 2), 'assumptions': list(getattr(run.mod, 'ASSUMPTIONS', [])),
          'violations': len(fresh)}
    if not args.replay and not args.scenario:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', args.check + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if args.verbose:
        for k, v in sorted(run.timing.items(), key=lambda kv: str(kv[1])):
            print('  time', k, v)
        for r in run.results:
            print('  ', r['scenario'], {k: r[k] for k in ('cases', 'transitions', 'states', 'traces')}, r['notes'])
    for what, vs in sorted(knownhit.items()):
        print('KNOWN-FINDING: property=%s %s (%d cases)' % (args.check, what, len(vs)))
    print('%s %s: %d scenarios, %d cases, %d states, %d transitions, %d traces, %.1f s' % (
        args.check, args.tier, cov['scenarios'], tot['cases'], tot['states'], tot['transitions'], tot['traces'], wall))
    if args.dump:
        with open(args.dump, 'w') as f:
            for v in fresh:
                f.write('%s | %s | %s\n' % (v['scenario'], v['case'], v['msg'].replace('\n', ' ')[:300]))
    if fresh:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        seen = {}
        shown = 0
        for v in fresh:
            d = seen.setdefault(v['scenario'], {})
            d[v['case']] = d.get(v['case'], 0) + 1
            if d[v['case']] > (3 if args.verbose else 1) or len(d) > (20 if args.verbose else 4) or shown >= (100 if args.verbose else 25):
                continue
            path = os.path.join(rd, '%s-%d.json' % (args.check, shown))
            with open(path, 'w') as f:
                json.dump(dict(v, property=args.check, tier=args.tier), f, indent=1)
            print('VIOLATION property=%s replay=%s' % (args.check, path))
            print('   scenario %s case %s\n   %s' % (v['scenario'], v['case'][:600], v['msg'][:1200]))
            shown += 1
        print('%d violations' % len(fresh))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
