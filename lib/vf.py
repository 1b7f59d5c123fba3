"""Framework of the checks: build, drive the real code, let TLC judge what was recorded.

A check is a python function in lib/checks.py that receives a Ctx.  It calls
  ctx.drive(driver, ...)   run a driver (drivers/*.py) against /repo in a scratch folder; the
                           driver writes a list of scenarios (recorded behaviours) as JSON
  ctx.trace(spec, scenarios)  let TLC decide, with specs/<spec>.tla, whether every recorded
                           behaviour is one the specification allows
  ctx.model(spec, cfg)     let TLC explore a design-level specification exhaustively
Verdicts are total: a driver that dies or hangs is a violation of the property (the code under
test did that), a failing build or TLC error is an error of the check (exit 2).
"""
import itertools, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, uuid
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'


class CheckError(Exception):
    pass


def env_for_repo():
    e = dict(os.environ)
    out = subprocess.run(['bash', '-c', 'source /opt/vp/env.sh; env -0'], capture_output=True, text=True).stdout
    for kv in out.split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            e[k] = v
    e['PYTHONPATH'] = '/repo:' + V + '/drivers'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['TMPDIR'] = '/tmp'
    return e


NOSTART = ('ompi_rte_init failed', 'orte_init failed', 'orte_ess_init failed', 'orte_session_dir', 'ORTE was unable to reliably start')


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.env = env_for_repo()
        self.states = self.transitions = 0
        self.ntraces = 0
        self.samples = []
        self.notes = []
        self.models = []
        self.violations = []        # (key, description, replay data)
        self.njob = itertools.count(1)      # (next() is atomic)
        self.thorough = tier == 'thorough'

    # ---- driving the real code -------------------------------------------------
    def drive(self, driver, *args, attempts=4, **kw):
        """Run drivers/<driver>.py OUT SEED TIER args...; return the list of scenarios it wrote."""
        for left in reversed(range(attempts)):
            sc = self._drive(driver, *args, last=not left, **kw)
            if sc is not None:
                return sc
            time.sleep(1)

    def _drive(self, driver, *args, np=0, timeout=None, key=None, fail_is_violation=True, env=None, stdin=None, last=True):
        timeout = timeout or (1500 if self.thorough else 300)
        d = os.path.join(self.scratch, 'job%d' % next(self.njob))
        os.makedirs(d)
        out = os.path.join(d, 'out.json')
        cwd = os.path.join(d, 'cwd')
        os.makedirs(cwd)
        cmd = [PY, os.path.join(V, 'drivers', driver + '.py'), out, str(self.seed), self.tier] + [str(a) for a in args]
        if np:
            cmd = ['mpirun', '-n', str(np)] + cmd
        e = dict(self.env)
        # processes started at the same time must not meet in Open MPI's session directory
        e['OMPI_MCA_orte_tmpdir_base'] = d
        if not np:
            e['OMPI_MCA_ess_singleton_isolated'] = '1'
        if env:
            e.update(env)
        log = os.path.join(d, 'log')
        with open(log, 'w') as f:
            p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = 'timeout'
        sc = None
        if os.path.exists(out):
            try:
                sc = json.load(open(out))
            except ValueError:
                sc = None
        text = open(log, errors='replace').read()
        if 'DRIVER-ERROR' in text:
            raise CheckError('driver %s: %s' % (driver, text[-2000:]))
        # MPI itself did not start: nothing of the program under test has run
        if rc != 0 and sc is None and 'Traceback' not in text and any(w in text for w in NOSTART):
            if last:
                raise CheckError('MPI does not start: %s' % text[-2000:])
            return None
        if rc != 0 or sc is None:
            k = key or '%s(%s)' % (driver, ','.join(str(a) for a in args))
            if not fail_is_violation:
                raise CheckError('driver %s failed (%s): %s' % (driver, rc, text[-2000:]))
            self.violations.append((k + '/died', 'the program under test ended with %s while driven by: %s\n%s' % (rc, ' '.join(cmd), text[-1500:]), None))
            sc = sc or []
        return sc

    def drive_many(self, jobs, workers=8):
        """jobs: list of (driver, args, kwargs); runs them in parallel, returns concatenated scenarios."""
        # job numbers are handed out under the GIL before the work starts
        with ThreadPoolExecutor(workers) as ex:
            fs = []
            for (d, a, k) in jobs:
                fs.append(ex.submit(self.drive, d, *a, **k))
                time.sleep(0.02)
            return [s for f in fs for s in f.result()]

    # ---- TLC --------------------------------------------------------------------
    def tlc(self, spec, cfg, env=None, workers=8, timeout=800, extra=(), heap='10g', props=()):
        timeout = timeout or (1500 if self.thorough else 300)
        d = os.path.join(self.scratch, 'tlc%d-%s' % (next(self.njob), uuid.uuid4().hex[:8]))
        os.makedirs(d)
        for f in glob.glob(os.path.join(V, 'specs', '*.*')):
            shutil.copy(f, d)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        if env:
            e.update(env)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m'] + list(props) + ['-cp', JARS + ':' + V + '/build/classes', 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-config', cfg] + list(extra) + [spec + '.tla']
        log = os.path.join(d, 'out')
        with open(log, 'w') as f:
            p = subprocess.Popen(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                raise CheckError('TLC did not finish %s/%s in %d s' % (spec, cfg, timeout))
        return rc, open(log, errors='replace').read(), d

    @staticmethod
    def counts(text):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
        if not m:
            return None
        return int(m[-1][0]), int(m[-1][1])

    def model(self, spec, cfg=None, **kw):
        """Exhaustive check of a design-level specification; any violation there is an error of ours,
        because it does not depend on /repo."""
        cfg = cfg or spec + '.cfg'
        rc, text, d = self.tlc(spec, cfg, **kw)
        c = self.counts(text)
        if rc != 0 or c is None or 'No error has been found' not in text:
            raise CheckError('model %s/%s: TLC exit %s\n%s' % (spec, cfg, rc, text[-3000:]))
        self.states += c[1]
        self.transitions += c[0]
        self.models.append({'spec': spec, 'cfg': cfg, 'states_generated': c[0], 'distinct_states': c[1]})
        return text, d

    def scripts(self, spec, cfg, tag='SCRIPT', **kw):
        """Complete behaviours of a specification, printed by TLC."""
        text, d = self.model(spec, cfg, **kw)
        out = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'<<"%s", "(.*)">>' % tag, text)]
        if len(out) != text.count('"%s"' % tag):
            raise CheckError('unreadable output of TLC')
        out = [json.loads(x) for x in sorted(set(json.dumps(o, sort_keys=True) for o in out))]
        return out

    def file(self, name, obj):
        f = os.path.join(self.scratch, name)
        json.dump(obj, open(f, 'w'))
        return f

    @staticmethod
    def cannot_evaluate(text):
        return ('Error:' in text and any(w in text for w in ('valuating', 'ttempted to', 'produced the following error')) and
                not any(w in text for w in ('OutOfMemory', 'StackOverflow', 'Semantic error', 'Parsing or semantic')))

    def trace(self, spec, scenarios, cfg=None, timeout=850, heap='10g', sample=1, alone=None):
        """Trace validation: every scenario is a recorded behaviour {name, key, events:[...]}.
        The trace specs consume one event per step and collect the failing clauses in `bad`."""
        cfg = cfg or spec + '.cfg'
        if not scenarios:
            return
        f = os.path.join(self.scratch, 'trace%d.json' % next(self.njob) if alone is None else 'trace-%s.json' % uuid.uuid4().hex)
        for s in scenarios:
            s.setdefault('key', s['name'])
        json.dump(scenarios, open(f, 'w'))
        rc, text, d = self.tlc(spec, cfg, env={'TRACE': f}, timeout=timeout, extra=('-continue',), heap=heap)
        if alone is None and self.cannot_evaluate(text):
            # one by one, to tell which recordings the specification has no meaning for
            print('the specification cannot evaluate a recorded value; scenarios one by one')
            t0 = time.time()
            with ThreadPoolExecutor(3) as ex:
                todo = [ex.submit(self.trace, spec, [s], cfg, 200, '3g', 0, s) for s in scenarios]
                for r in todo:
                    if not r.cancelled():
                        r.result()
                    if self.violations and time.time() - t0 > 100:
                        [x.cancel() for x in todo]
            return
        if alone and self.cannot_evaluate(text):
            self.violations.append(('%s/meaningless' % alone['key'], '%s: a value recorded in scenario %s has no meaning in %s (wrong shape or not a number)'
                                    % (alone['key'], alone['name'], spec), {'spec': spec, 'cfg': cfg, 'scenarios': [alone]}))
            return
        c = self.counts(text)
        mism = {}
        found = list(re.finditer(r'"MISMATCH <<(\d+), (\d+), (.*)>>"', text))
        if len(found) != text.count('MISMATCH'):
            raise CheckError('unreadable output of TLC')
        for m in found:
            mism.setdefault((int(m.group(1)), int(m.group(2))), set()).update(re.findall(r'"([^"]*)"', m.group(3).replace('\\"', '"')))
        want = sum(len(s['events']) + 1 for s in scenarios)
        bad_rc = rc not in (0, 12)
        if bad_rc or c is None or c[1] != want or (rc == 12 and not mism):
            keep = os.path.join(V, 'work')
            os.makedirs(keep, exist_ok=True)
            shutil.copy(f, os.path.join(keep, 'trace_error.json'))
            k = text.find('Error:') if 'Semantic error' not in text else text.find('Semantic error')
            raise CheckError('trace spec %s: TLC exit %s, states %s, wanted %d\n%s' % (spec, rc, c, want, text[k if k > 0 else -3000:][:3000]))
        self.states += c[1]
        self.transitions += c[0]
        self.ntraces += len(scenarios)
        for s in scenarios[:sample]:
            t = json.dumps(s)
            self.samples.append({'spec': spec, 'scenario': s['name'], 'events': len(s['events']), 'recorded': t[:1500] + ('...' if len(t) > 1500 else '')})
        for (si, ei), clauses in sorted(mism.items()):
            s = scenarios[si - 1]
            for cl in sorted(clauses):
                self.violations.append(('%s/%s' % (s['key'], cl), '%s: event %d of scenario %s is not a step of %s: %s'
                                        % (s['key'], ei, s['name'], spec, cl), {'spec': spec, 'cfg': cfg, 'scenarios': [s]}))

    def violation(self, key, text, replay=None):
        self.violations.append((key, text, replay))

    # ---- verdict -----------------------------------------------------------------
    def known(self):
        out = []
        f = os.path.join(V, 'known_findings.txt')
        if os.path.exists(f):
            for l in open(f):
                m = re.match(r'known: property=(\w+) key=(\S+) (.*)', l)
                if m and m.group(1) == self.prop:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self, level='model_checking', assumptions=()):
        known = self.known()
        new = []
        seen = {}
        for key, text, rep in self.violations:
            hit = [k for k in known if key.startswith(k[0])]
            if hit:
                seen[hit[0]] = True
            else:
                new.append((key, text, rep))
        for k in known:
            # a listed finding is reported whether or not this tier happened to reach it
            print('KNOWN-FINDING: property=%s %s %s' % (self.prop, k[0], k[1]))
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.ntraces,
               'samples': self.samples[:6] or self.models, 'models': self.models, 'notes': self.notes}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 1), 'violations': len(new)}
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', self.prop + '.json'), 'w'), indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if not new:
            print('%s: held (%d traces, %d states, %.0f s)' % (self.prop, self.ntraces, self.states, time.time() - self.t0))
            return 0
        rd = os.path.join(V, 'replays', self.prop)
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd, exist_ok=True)
        total, first = len(new), {}
        for v in new:               # one report per scenario class and clause
            first.setdefault(v[0], v)
        new = list(first.values())
        print('%s: %d violating events, %d different kinds' % (self.prop, total, len(new)))
        for i, (key, text, rep) in enumerate(new[:40]):
            path = os.path.join(rd, 'v%d.json' % i)
            json.dump({'property': self.prop, 'key': key, 'what': text, 'seed': self.seed, 'tier': self.tier, 'replay': rep}, open(path, 'w'))
            if i < 5:
                print('  ' + text.replace('\n', '\n  ')[:1500])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1


def main():
    sys.modules["vf"] = sys.modules["__main__"]
    import checks
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    r = subprocess.run([os.path.join(V, 'lib', 'build.sh')], capture_output=True, text=True)
    if r.returncode:
        print(r.stdout[-3000:], r.stderr[-3000:])
        print('ERROR: build failed')
        return 2
    ctx = Ctx(prop, tier, seed)
    try:
        fn = getattr(checks, prop)
        fn(ctx)
    except CheckError as e:
        print('ERROR:', e)
        if ctx.violations:
            return ctx.finish()
        shutil.rmtree(ctx.scratch, ignore_errors=True)
        return 2
    return ctx.finish(assumptions=getattr(fn, 'assumptions', ()))


if __name__ == '__main__':
    sys.exit(main())
