"""Runs the checks: builds the harness from /repo's working tree, lets TLC generate
programs, drives the real code, lets TLC validate the recorded traces against the
specifications and model-check the design models."""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
REPO = '/repo'
TLAJ = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class Infra(Exception):
    """The check could not be carried out (not a verdict)."""


def goenv(extra=None):
    e = dict(os.environ)
    for d in ('/opt/veriftools/go1.27.3/bin', '/usr/local/go/bin'):
        if os.path.isdir(d):
            e['PATH'] = d + ':' + e.get('PATH', '')
            break
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GOWORK='off')
    e.setdefault('HOME', '/root')
    e.pop('GODEBUG', None)
    if extra:
        e.update(extra)
    return e


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.lock = threading.Lock()
        self.sem = threading.Semaphore(NCPU)
        self.violations = []
        self.known = []
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.stats = {}
        self.assumptions = []
        self.notes = []
        self.bins = {}
        self.binlock = threading.Lock()
        self.knownlist = self.load_known()
        self.rng = random.Random('%s/%d' % (pid, seed))
        self.exhaustive = []
        threading.Thread(target=self.prebuild, daemon=True).start()

    # ---------------------------------------------------------------- basics
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, q, t):
        return t if self.thorough() else q

    def load_known(self):
        p = os.path.join(VERIF, 'known_findings.json')
        if not os.path.exists(p):
            return []
        return [k for k in json.load(open(p)).get('findings', []) if k['property'] == self.pid]

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def sub(self, cmd, env=None, cwd=None, timeout=800):
        try:
            return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True, errors='replace')
        except subprocess.TimeoutExpired as ex:
            raise Infra('timeout: %s\n%s' % (' '.join(map(str, cmd))[:300], str(ex.stdout)[-2000:]))

    # ---------------------------------------------------------------- build
    def build(self, variant='default'):
        with self.binlock:
            if variant in self.bins:
                return self.bins[variant]
            out = os.path.join(self.work, 'vdrv-' + variant)
            cmd = ['go', 'build', '-o', out]
            if variant == 'purego':
                cmd += ['-tags', 'purego']
            if variant == 'race':
                cmd += ['-race']
            src = os.path.join(self.work, 'src')
            if not os.path.isdir(src):
                shutil.copytree(HARNESS, src)
            env = goenv()
            if variant == 'race':
                env['CGO_ENABLED'] = '1'
            r = self.sub(cmd + ['.'], env=env, cwd=src)
            if r.returncode != 0:
                raise Infra('harness does not build (%s):\n%s' % (variant, r.stdout[-4000:]))
            self.bins[variant] = out
            return out

    def prebuild(self):
        try:
            self.build()
        except Exception:
            pass

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, args=(), mem='2g', workers=1, timeout=800, big=False):
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-XX:TieredStopAtLevel=%d' % (4 if workers > 1 or big else 1),
               '-Xmx' + mem, '-Xss64m', '-Djava.io.tmpdir=' + d, '-cp', TLAJ, 'tlc2.TLC', '-metadir', d, '-noGenerateSpecTE',
               '-workers', str(workers), '-config', os.path.join(SPEC, cfg), *args, os.path.join(SPEC, module + '.tla')]
        with self.sem:
            t = time.time()
            r = self.sub(cmd, env=e, cwd=SPEC, timeout=timeout)
            if os.environ.get('VERIF_TIMES'):
                self.log('tlc %s %s %.1fs' % (module, ' '.join(args)[:40], time.time() - t))
        shutil.rmtree(d, ignore_errors=True)
        return r

    @staticmethod
    def counts(out):
        m = None
        for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', out):
            pass
        if not m:
            return 0, 0
        return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))

    def model(self, module, cfg=None, env=None, workers=4, timeout=800, expect='ok', args=(), mem='6g'):
        """Model-checks a design model exhaustively.  A failure of a design model is a defect of
        the specification (it does not depend on /repo), hence an infrastructure error."""
        cfg = cfg or module + '.cfg'
        r = self.tlc(module, cfg, env=env, workers=workers, timeout=timeout, args=args, mem=mem)
        g, dist = self.counts(r.stdout)
        if expect != 'ok':
            # a deliberately broken variant: the model must be able to see the breakage
            if ('Invariant %s is violated' % expect) not in r.stdout:
                raise Infra('design model %s/%s was expected to violate %s:\n%s' % (module, cfg, expect, r.stdout[-2000:]))
        elif 'Model checking completed. No error has been found' not in r.stdout:
            raise Infra('design model %s/%s failed:\n%s' % (module, cfg, (r.stdout[r.stdout.find("Error"):][:2500] if "Error" in r.stdout else r.stdout[-2500:])))
        with self.lock:
            self.states += dist
            self.transitions += g
            self.models.append(dict(model=module, cfg=cfg, distinct_states=dist, transitions=g, **({} if expect == 'ok' else dict(expected_violation=expect))))
        self.log('model %s %s: %d distinct states, %d transitions' % (module, cfg, dist, g))

    def generate(self, name, cfgd, num, depth, parts=None, module='MachineGen'):
        """Lets TLC simulate the specification and write the generated programs."""
        cfgd = dict(cfgd)
        cfgd['depth'] = depth
        cpath = os.path.join(self.work, name + '.cfg.json')
        with open(cpath, 'w') as f:
            f.write(json.dumps(cfgd) + '\n')
        parts = parts or max(1, min(NCPU // 2, num // 60))
        outs = []

        def one(i):
            out = os.path.join(self.work, '%s.prog.%d' % (name, i))
            open(out, 'w').close()
            n = (num + parts - 1) // parts
            r = self.tlc(module, module + '.cfg', env=dict(CFG=cpath, OUT=out), mem='1g',
                         args=['-simulate', 'num=%d' % n, '-depth', str(depth + 2), '-seed', str(self.seed * 100000 + i + 7 + sum(ord(ch) * (k + 1) for k, ch in enumerate(name)) * 10)])
            if 'Error' in r.stdout and 'The following' not in r.stdout:
                raise Infra('program generation failed (%s):\n%s' % (name, (r.stdout[r.stdout.find("Error"):][:2500] if "Error" in r.stdout else r.stdout[-2500:])))
            if os.path.getsize(out) == 0:
                raise Infra('program generation produced nothing (%s):\n%s' % (name, (r.stdout[r.stdout.find("Error"):][:2500] if "Error" in r.stdout else r.stdout[-2500:])))
            return out

        with cf.ThreadPoolExecutor(parts) as ex:
            outs = list(ex.map(one, range(parts)))
        path = os.path.join(self.work, name + '.progs')
        with open(path, 'w') as f:
            for o in outs:
                f.write(open(o).read())
        return cpath, path

    # ---------------------------------------------------------------- drivers
    def drive(self, driver, name, args=(), progs='', shards=1, variant='default', env=None, timeout=500, seed=None):
        binv = self.build('race' if variant == 'race' else ('purego' if variant == 'purego' else 'default'))
        base = os.path.join(self.work, name)
        e = goenv(env)
        dbg = dict(nosimd='cpu.all=off', noavx2='cpu.avx2=off', nofma='cpu.fma=off').get(variant)
        if dbg:
            e['GODEBUG'] = dbg
        cmd = [binv, '-d', driver, '-seed', str(self.seed if seed is None else seed), '-tier', self.tier, '-out', base,
               '-shards', str(shards), '-variant', variant]
        if progs:
            cmd += ['-progs', progs]
        cmd += list(map(str, args))
        t = time.time()
        pre = None
        if variant.startswith('cpu'):          # the Go runtime sees this many processors
            cpus = sorted(os.sched_getaffinity(0))[:int(variant[3:])]
            pre = lambda: os.sched_setaffinity(0, cpus)
        try:
            r = subprocess.run(cmd, env=e, cwd=self.work, timeout=timeout, preexec_fn=pre, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors='replace')
        except subprocess.TimeoutExpired as ex:
            # the drivers need seconds on the real code: an operation does not terminate
            out = ex.stdout.decode(errors='replace') if isinstance(ex.stdout, bytes) else (ex.stdout or '')
            self.violation('driver %s: an operation did not terminate within %d s' % (driver, timeout), dict(output=out[-20000:]))
            return []
        if os.environ.get('VERIF_TIMES'):
            self.log('drive %s %s %.1fs' % (driver, name, time.time() - t))
        if r.returncode != 0:
            if variant == 'race' and 'WARNING: DATA RACE' in r.stdout:
                self.violation('data race reported by the Go race detector in driver %s' % driver,
                               dict(output=r.stdout[:20000]))
                return []
            if 'fatal error: all goroutines are asleep - deadlock' in r.stdout or 'concurrent map' in r.stdout:
                self.violation('driver %s: %s' % (driver, r.stdout[:200]), dict(output=r.stdout[:20000]))
                return []
            if re.search(r'^fatal error: ', r.stdout, re.M) and 'sp301415/tfhe-go/' in r.stdout:
                self.violation('driver %s: the library crashed: %s' % (driver, r.stdout[r.stdout.find('fatal error: '):][:200]),
                               dict(output=r.stdout[:20000]))
                return []
            if re.search(r'^panic: ', r.stdout, re.M) and 'sp301415/tfhe-go/' in r.stdout:
                self.violation('driver %s: the library panicked: %s' % (driver, r.stdout[r.stdout.find('panic: '):][:200]),
                               dict(output=r.stdout[:20000]))
                return []
            raise Infra('driver %s (%s) failed:\n%s' % (driver, name, r.stdout[-4000:]))
        st = json.load(open(base + '.stats.json'))
        with self.lock:
            for k, v in (st['stats'] or {}).items():
                self.stats[k] = self.stats.get(k, 0) + v
            if len(self.samples) < 4:
                self.samples += (st['samples'] or [])[:2]
        return sorted(glob.glob(base + '.*.ndjson'))

    # ---------------------------------------------------------------- validation
    def validate1(self, module, path, env=None, cfg='Trace.cfg', timeout=800, mem='2g'):
        n = sum(1 for _ in open(path))
        if n == 0:
            return
        e = dict(TRACE=path)
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, timeout=timeout, mem=mem)
        m = re.search(r'<<"VT", (\d+), (\d+)>>', r.stdout)
        if not m or 'Model checking completed' not in r.stdout:
            # the specification cannot even evaluate the event (e.g. a vector of the wrong length):
            # the observation is not one the specification allows
            ls = re.findall(r'^(?:/\\ )?l = (\d+)', r.stdout, re.M)
            if ls and 'Error: Parsing' not in r.stdout and 'OutOfMemory' not in r.stdout and 'StackOverflow' not in r.stdout:
                idx = int(ls[-1]) - 1
                lines = open(path).read().splitlines()
                if 0 <= idx < len(lines):
                    self.log('evaluation error at event %d:\n%s' % (idx, r.stdout[-1800:]))
                    self.reject(module, path, idx, json.loads(lines[idx]), lines[max(0, idx - 12):idx + 1], env)
                    return
            raise Infra('trace validation with %s did not complete (%s):\n%s' % (module, path, r.stdout[-3500:]))
        matched, total = int(m.group(1)), int(m.group(2))
        g, dist = self.counts(r.stdout)
        with self.lock:
            self.states += dist
            self.transitions += g
            self.events += matched
            self.traces += 1
        if matched < total:
            lines = open(path).read().splitlines()
            bad = json.loads(lines[matched])
            lo = max(0, matched - 12)
            self.reject(module, path, matched, bad, lines[lo:matched + 1], env)

    def reject(self, module, path, idx, bad, ctx, env):
        for k in self.knownlist:
            if all(bad.get(f) == v for f, v in k['match'].items()):
                with self.lock:
                    if k['what'] not in self.known:
                        self.known.append(k['what'])
                return self.continue_after(module, path, idx, env)
        desc = '%s rejects event %d: %s' % (module, idx, json.dumps(bad)[:600])
        self.violation(desc, dict(spec=module, trace=path, index=idx, event=bad, context=[json.loads(x) for x in ctx],
                                  env={k: v for k, v in (env or {}).items()}), trace=path)

    def continue_after(self, module, path, idx, env):
        lines = open(path).read().splitlines()
        del lines[idx]
        p2 = path + '.rest'
        open(p2, 'w').write('\n'.join(lines) + '\n')
        self.validate1(module, p2, env)

    def validate(self, module, files, env=None, cfg='Trace.cfg', timeout=800, mem='2g'):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda p: self.validate1(module, p, env, cfg, timeout, mem), files))

    def violation(self, desc, payload, trace=None):
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        with self.lock:
            n = len(self.violations)
            p = os.path.join(d, '%s-%d-%d.json' % (self.pid, self.seed, n))
            payload = dict(payload, property=self.pid, tier=self.tier, seed=self.seed, description=desc)
            if trace and os.path.exists(trace) and os.path.getsize(trace) < 64 << 20:
                tp = p[:-5] + '.trace.ndjson'
                shutil.copy(trace, tp)
                payload['trace'] = tp
            json.dump(payload, open(p, 'w'), indent=1)
            self.violations.append((desc, p))

    # ---------------------------------------------------------------- parallel stages
    def par(self, *fns):
        with cf.ThreadPoolExecutor(len(fns)) as ex:
            fs = [ex.submit(f) for f in fns]
            for f in fs:
                f.result()

    def machine(self, name, cfgd, num, depth, shards=2, variant='default', timeout=300):
        cpath, progs = self.generate(name, cfgd, num, depth)
        files = self.drive('machine', name, args=[cpath], progs=progs, shards=shards, variant=variant, timeout=timeout)
        self.validate('MachineTrace', files, env=dict(CFG=cpath))

    def simple(self, driver, module, name=None, args=(), shards=4, variant='default', env=None, timeout=300, mem='2g', seed=None):
        name = name or driver + '-' + variant
        files = self.drive(driver, name, args=args, shards=shards, variant=variant, timeout=timeout, seed=seed)
        self.validate(module, files, env=env, mem=mem)

    # ---------------------------------------------------------------- result
    def finish(self, level, rule):
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        for desc, p in self.violations[:5]:
            print('  ' + desc[:1500])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                evaluations=self.events, distinct_nontrivial=self.stats.get('distinct', self.events),
                                rule=rule, models=self.models, stats=self.stats,
                                samples=self.samples[:4] or ['none']),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for desc, p in self.violations[:1]:
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        self.log('done: %d events validated, %d states, %d violations' % (self.events, self.states, len(self.violations)))

    def cleanup(self):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.work, ignore_errors=True)
        else:
            print('kept', self.work)
