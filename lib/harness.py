"""Common machinery of the checks: TLC runs, driver runs, trace validation, evidence.

A check of one property consists of
  1. model checking: TLC explores the specification (spec/MC*.tla) and checks its laws;
  2. plans: histories of calls, from TLC (behaviours of the specification) and/or from seeded,
     stratified argument data;
  3. a driver (drivers/*.py) that executes the plans on the code in /repo and records every call;
  4. trace validation: TLC reads the recorded histories as behaviours of the specification
     (spec/T*.tla) and rejects every step the specification does not allow.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class Broken(Exception):
    """The machinery itself failed (neither held nor violated)."""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what, self.replay = what, replay


def findings():
    """Known findings: lines 'finding: property=<id> key=<key> <what>'."""
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m:
                out[m.group(1), m.group(2)] = m.group(3).strip()
    return out


def parts(rec, n):
    for e in rec['ev']:
        if isinstance(e.get('r'), list):
            e.update(off=0, n=len(e['r']))
    e = rec['ev'][0]
    if len(rec['ev']) > 1 or not isinstance(e.get('r'), list) or len(e['r']) <= n:
        return [rec]
    return [dict(h=rec['h'], ev=[dict(e, off=i, r=e['r'][i:i+n])]) for i in range(0, len(e['r']), n)]


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % pid)
        self.spec = os.path.join(self.scratch, 'spec')
        shutil.copytree(os.path.join(VERIF, 'spec'), self.spec)
        self.lock = threading.Lock()
        self.java_ready = threading.Event()
        self.states = self.transitions = 0
        self.validated = self.events = self.points = 0
        self.samples, self.notes, self.models = [], [], []
        self.violations, self.known = [], {}
        self.compile_java()

    def log(self, *a):
        print('[%s %5.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # ------------------------------------------------------------------ TLC
    def compile_java(self):
        cls = os.path.join(self.scratch, 'cls')
        os.makedirs(cls)
        r = subprocess.run(['javac', '-cp', JARS.split(':')[0], '-d', cls, os.path.join(VERIF, 'java', 'Big.java')],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken('javac failed: ' + r.stderr)
        self.cls = cls

    def tlc(self, module, cfg=None, workers=None, args=(), files=None, timeout=3000, mem='6g', text=None):
        """Run TLC on a module in its own copy of the spec directory; return its output."""
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.scratch)
        for f in os.listdir(self.spec):
            os.symlink(os.path.join(self.spec, f), os.path.join(d, f))
        for name, src in (files or {}).items():
            os.symlink(src, os.path.join(d, name))
        if text:
            for name, t in text.items():
                p = os.path.join(d, name)
                if os.path.lexists(p):
                    os.remove(p)
                open(p, 'w').write(t)
        cmd = ['java', '-Xss64m', '-Xmx' + mem, '-XX:+UseParallelGC', '-cp', self.cls + ':' + JARS, 'tlc2.TLC',
               '-workers', str(workers or NCPU), '-metadir', os.path.join(d, 'meta'), '-lncheck', 'final',
               '-config', (cfg or module) + '.cfg', *args, module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken('TLC timed out on ' + module)
        out = '\n'.join(x for x in (r.stdout + r.stderr).splitlines() if not re.match(
            r'(Parsing file|Semantic processing|Linting|TLC2 Version|Running|Progress|\s*$)', x))
        shutil.rmtree(d, ignore_errors=True)
        return r.returncode, out

    def model_check(self, module, cfg=None, workers=4, text=None, timeout=3000):
        """Model-check the specification itself; its laws must hold (they do not depend on /repo)."""
        rc, out = self.tlc(module, cfg, workers=workers, text=text, timeout=timeout)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        if rc != 0 or not m or 'No error has been found' not in out:
            raise Broken('model checking %s failed:\n%s' % (cfg or module, out[-2500:]))
        gen, distinct = int(m.group(1)), int(m.group(2))
        with self.lock:
            self.states += distinct
            self.transitions += gen
            self.models.append('%s: %d distinct states, %d generated' % (cfg or module, distinct, gen))
        self.log('model', cfg or module, 'ok:', distinct, 'states,', gen, 'generated')
        return out

    def refuted(self, module, cfg, what):
        """TLC must find this variant of a model wrong: the law can tell right from wrong."""
        rc, out = self.tlc(module, cfg, workers=2)
        if 'Invariant %s is violated' % what not in out:
            raise Broken('%s is not refuted:\n%s' % (cfg, out[-1500:]))
        self.log('model', cfg, 'is refuted, as it should be')

    def simulate(self, module, cfg, num, depth, seed, text=None):
        """Random behaviours of the specification (its invariants are checked on the way)."""
        rc, out = self.tlc(module, cfg, workers=1, args=('-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)), text=text)
        if 'Error:' in out or rc != 0:
            raise Broken('simulating %s failed:\n%s' % (cfg, '\n'.join(x for x in out.splitlines() if 'PLAN' not in x)[-2500:]))
        m = re.search(r'number of states generated: (\d+)', out) or re.search(r'(\d+) states checked', out)
        with self.lock:
            self.transitions += int(m.group(1)) if m else 0
            self.models.append('%s: %d random behaviours of %d steps' % (cfg, num, depth))
        return out

    def background(self, f, *a, **k):
        """Run f in a thread; join() re-raises what it raised."""
        box = {}

        def run():
            try:
                box['r'] = f(*a, **k)
            except BaseException as e:
                box['e'] = e
        t = threading.Thread(target=run)
        t.start()

        class H:
            def join(_):
                t.join()
                if 'e' in box:
                    raise box['e']
                return box['r']
        return H()

    # -------------------------------------------------------------- drivers
    def drive(self, driver, plan, shards=2, timeout=600, env=None):
        """Execute the plan (list of histories, each a dict with 'h') on /repo; return the records."""
        d = tempfile.mkdtemp(prefix='drv-', dir=self.scratch)
        e = dict(os.environ)
        for v in ('NUMBA_DISABLE_JIT', 'NUMBA_BOUNDSCHECK', 'PYTHONPATH'):
            e.pop(v, None)
        e.update(PYTHONPATH=REPO, PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg',
                 NUMBA_NUM_THREADS='1', MALLOC_PERTURB_='128', PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', HOME=d,
                 PYTHONPYCACHEPREFIX=os.path.join(d, 'pyc'))
        e.update(env or {})
        procs = []
        # histories with a group 'g' stay together; the others are dealt round
        groups = sorted({x['g'] for x in plan if 'g' in x})
        rest = [x for x in plan if 'g' not in x]
        shares = [[x for x in plan if x.get('g') == g] for g in groups]
        shares += [rest[i::shards] for i in range(min(shards, len(rest)))]
        for i, mine in enumerate(shares):
            p, l, q = (os.path.join(d, '%s%d' % (n, i)) for n in ('plan', 'log', 'err'))
            with open(p, 'w') as f:
                for x in mine:
                    f.write(json.dumps(x) + '\n')
            ee = dict(e, NUMBA_CACHE_DIR=(os.environ.get('VERIF_DEV_CACHE', '') and os.environ['VERIF_DEV_CACHE'] + e.get('NUMBA_BOUNDSCHECK', '')) or os.path.join(d, 'numba%d' % i), VERIF_REPO=REPO)
            procs.append((mine, l, q, subprocess.Popen(
                [PY, '-W', 'ignore', os.path.join(VERIF, 'drivers', 'run.py'), driver, p, l],
                env=ee, cwd=d, stdout=open(q, 'w'), stderr=subprocess.STDOUT, start_new_session=True)))
        recs = []
        deadline = time.time() + timeout
        for mine, l, q, pr in procs:
            try:
                rc = pr.wait(max(1, deadline - time.time()))
                why = None if rc == 0 else 'died with exit status %d' % rc
            except subprocess.TimeoutExpired:
                why = 'did not finish in %d s' % timeout
                os.killpg(pr.pid, 9)
                pr.wait()
            got = []
            if os.path.exists(l):
                for line in open(l):
                    try:
                        got.append(json.loads(line))
                    except ValueError:
                        break
            recs += got
            if why is None and len(got) != len(mine):
                why = 'recorded %d of %d histories' % (len(got), len(mine))
            if why:
                tail = open(q).read()[-3000:]
                sys.stderr.write(tail + '\n')
                if 'DRIVER BUG' in tail:
                    raise Broken('driver bug: ' + tail)
                cur = mine[len(got)] if len(got) < len(mine) else mine[-1]
                self.violate('the process executing the code %s in history %s: %s' % (
                    why, cur.get('h'), tail.strip().splitlines()[-1:] or ''), driver, cur, None)
        shutil.rmtree(d, ignore_errors=True)
        recs.sort(key=lambda r: r['h'])
        self.log('driver', driver, 'recorded', len(recs), 'histories,', sum(len(r['ev']) for r in recs), 'events')
        return recs

    # ----------------------------------------------------- trace validation
    def validate(self, module, recs, plan, driver, cfg=None, text=None, workers=None, split=None):
        """Read the recorded histories as behaviours of the specification.

        With split=n, a history of a single event with more than n result elements is handed over as
        several histories, each with a part of the elements, so that TLC's workers share the work.
        """
        recs = [r for r in recs if r['ev']]
        hists = len(recs)
        if split:
            recs = [q for r in recs for q in parts(r, split)]
        if not recs:
            return
        path = os.path.join(self.scratch, 'trace-%s-%d.ndjson' % (module, time.time_ns()))
        with open(path, 'w') as f:
            for r in recs:
                f.write(json.dumps(r) + '\n')
        rc, out = self.tlc(module, cfg, files={'trace.ndjson': path}, text=text, workers=workers)
        os.remove(path)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        want = sum(len(r['ev']) + 1 for r in recs)
        if re.search(r'Attempted to|not in its domain|In applying the function', out) and not re.search(r'OutOfMemory|StackOverflow', out):
            # what the code returned is not even of the kind the specification speaks of
            why = '; '.join(x.strip() for x in out.splitlines() if re.search('Attempted to|domain|In applying', x))[:300]
            self.violate('a recorded history cannot be read as a behaviour of %s: %s' % (module, why), driver, None, None)
            self.log('reading the histories with', module, 'failed:', why)
            return
        if rc != 0 or not m or 'No error has been found' not in out:
            raise Broken("trace validation with %s failed:\n%s\n%s" % (module, "\n".join(re.findall("REJECT.*", out)[:9]), out[-2500:]))
        if int(m.group(2)) != want:
            raise Broken('%s: %s distinct states for %d recorded ones' % (module, m.group(2), want))
        self.states += int(m.group(2))
        self.transitions += int(m.group(1))
        self.validated += hists
        self.events += want - len(recs)
        byh = plan if isinstance(plan, dict) else {p['h']: p for p in plan}
        rbyh = {r['h']: r for r in recs}
        n = 0
        for h, l, why in re.findall(r'"REJECT (\d+) (\d+) (.*)"', out):
            h, l = int(h), int(l)
            ev = rbyh[h]['ev'][l-1]
            k = re.search(r'finding:(\S+)', why)
            if k and (self.pid, k.group(1)) in findings():
                self.known[k.group(1)] = self.known.get(k.group(1), 0) + 1
                continue
            n += 1
            self.violate('history %d, event %d (%s): %s' % (h, l, ev.get('op'), why), driver, byh.get(h), ev)
        self.log('validated', len(recs), 'histories,', want - len(recs), 'events with', module, '-', n, 'rejected')
        if recs and len(self.samples) < 3:
            s = json.dumps(recs[len(recs)//2])
            self.samples.append(s if len(s) < 1500 else s[:1500] + '...')

    # -------------------------------------------------------------- verdict
    def violate(self, what, driver, plan, ev):
        self.violations.append((what, driver, plan, ev))

    def finish(self, level, assumptions=(), extra=None):
        viol = len(self.violations)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.validated, events_validated=self.events,
                                models=self.models, samples=self.samples[:3], **(extra or {})),
                  assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 1), violations=viol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, n in sorted(self.known.items()):
            print('KNOWN-FINDING: property=%s %s (key=%s, %d times)' % (self.pid, findings()[self.pid, k], k, n))
        if not viol:
            self.log('property held on everything explored')
            return 0
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s.json' % self.pid)
        with open(rp, 'w') as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, how='python3 check.py %s --replay <this file>' % self.pid,
                           violations=[dict(what=w, driver=d, plan=p, event=e) for w, d, p, e in self.violations[:20]]),
                      f, indent=1)
        for w, d, p, e in self.violations[:10]:
            print('  ', w)
        print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        return 1
