"""Bootstrap of the monitored process: random tap, import of the code under test, case runner, evidence, verdicts.

The code under test is imported from $VERIF_REPO (default /repo), always from source.  Before it is imported the
module-level functions of `random` are rebound to one instance of TapRandom, so every draw the library makes passes
through the tap, which can count draws (logical step budget), feed legal but extreme values, and make unseeded runs
replayable.  The harness itself only uses private random.Random instances.
"""
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent-verif-pycache'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Budget(BaseException):
    """A logical step budget (random draws or objective calls) ran out."""


class WallClock(BaseException):
    """The wall-clock watchdog fired: inconclusive."""


class TapRandom(random.Random):
    """The process-wide generator seen by the library."""
    draws = 0
    limit = None
    mode = 'plain'        # plain | extreme
    entropy = None        # seed used instead of OS entropy when the library seeds with None
    seed_events = 0

    def seed(self, a=None, version=2):
        self.seed_events += 1
        if a is None and self.entropy is not None:
            a = 'entropy:%s:%d' % (self.entropy, self.seed_events)
        super().seed(a, version)

    def _count(self):
        self.draws += 1
        if self.limit is not None and self.draws > self.limit:
            raise Budget('more than %d random draws' % self.limit)

    def random(self):
        self._count()
        v = super().random()
        if self.mode == 'extreme':
            h = int(v * 2 ** 53) % 8
            if h == 0:
                return 0.0
            if h == 1:
                return 1.0 - 2.0 ** -53
            if h == 2:
                return 1.0 - 2.0 ** -20 * v
        return v

    def getrandbits(self, k):
        self._count()
        v = super().getrandbits(k)
        if self.mode == 'extreme' and k > 1:
            h = super().getrandbits(3)
            if h == 0:
                return 0
            if h == 1:
                return (1 << k) - 1
            if h == 2:
                return v & 1
        return v


TAP = TapRandom(12345)


def install_tap():
    for name in ('seed', 'random', 'uniform', 'triangular', 'randint', 'choice', 'randrange', 'sample', 'shuffle',
                 'choices', 'normalvariate', 'lognormvariate', 'expovariate', 'vonmisesvariate', 'gammavariate',
                 'gauss', 'binomialvariate', 'betavariate', 'paretovariate', 'weibullvariate', 'getstate', 'setstate',
                 'getrandbits', 'randbytes'):
        if hasattr(TAP, name):
            setattr(random, name, getattr(TAP, name))
    random._inst = TAP


DEFAULT_DRAWS = 40_000_000      # far above what any generated case draws; turns an endless redraw into a verdict


def reset_tap(entropy, mode='plain', limit=None):
    TAP.mode = mode
    TAP.limit = None
    TAP.entropy = entropy
    TAP.seed_events = 0
    TAP.seed('case:%s' % entropy)
    TAP.draws = 0
    TAP.limit = DEFAULT_DRAWS if limit is None else limit


def load_repo(tap=True):
    if tap:
        install_tap()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import baumeva
    assert os.path.realpath(baumeva.__file__).startswith(os.path.realpath(REPO) + os.sep), baumeva.__file__
    return baumeva


class Violation(Exception):
    pass


class Obs:
    """What one case observed."""

    def __init__(self):
        self.count = {}
        self.sigs = set()
        self.violations = []
        self.findings = []
        self.sample = None

    def add(self, key, n=1):
        self.count[key] = self.count.get(key, 0) + n

    def sig(self, *key):
        """Signature of a non-trivial, distinct situation in which the oracle decided something."""
        self.sigs.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def bad(self, msg):
        if len(self.violations) < 20:
            self.violations.append(str(msg)[:600])

    def check(self, cond, msg):
        self.add('oracle_evaluations')
        if not cond:
            self.bad(msg() if callable(msg) else msg)
        return cond


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=12).hexdigest()


def from_repo(exc):
    """True if the traceback of exc passes through the code under test."""
    tb = exc.__traceback__
    root = os.path.realpath(REPO) + os.sep
    while tb:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def short_tb(exc):
    return ' <- '.join('%s:%s' % (os.path.basename(f.filename), f.name)
                       for f in reversed(traceback.extract_tb(exc.__traceback__)[-4:]))


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


CASE_SECONDS = float(os.environ.get('VERIF_CASE_SECONDS', '60'))
JUMP_BUDGET = 40_000_000   # loop iterations inside the code under test in one case


@contextlib.contextmanager
def jump_budget(limit):
    """Count taken jumps (loop iterations) in the code under test; more than the limit raises Budget.

    This is the logical clock used after the wall-clock watchdog fired: it tells a loop without end from a slow machine.
    """
    mon = sys.monitoring
    tool = mon.DEBUGGER_ID
    root = os.path.realpath(REPO) + os.sep
    inside, left = {}, LEFT
    left[0] = limit

    def jump(code, src, dst):
        ok = inside.get(code)
        if ok is None:
            ok = inside[code] = os.path.realpath(code.co_filename).startswith(root)
        if not ok:
            return mon.DISABLE
        left[0] -= 1
        if left[0] < 0:
            raise Budget('more than %d loop iterations' % limit)
    mon.use_tool_id(tool, 'verif-jumps')
    mon.register_callback(tool, mon.events.JUMP, jump)
    mon.register_callback(tool, mon.events.BRANCH, jump)
    mon.set_events(tool, mon.events.JUMP | mon.events.BRANCH)
    try:
        yield
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.JUMP, None)
        mon.register_callback(tool, mon.events.BRANCH, None)
        mon.free_tool_id(tool)


LEFT = [0]


def _alarm(signum, frame):
    raise WallClock('case exceeded its wall-clock limit')


def run_one(mod, case):
    """Run one case; returns (Obs, status) with status ok | inconclusive | harness-error."""
    seconds = getattr(mod, 'SECONDS', CASE_SECONDS)
    obs, status = _run_one(mod, case, seconds)
    if status.startswith('inconclusive'):
        with jump_budget(getattr(mod, 'JUMPS', JUMP_BUDGET)):
            obs, status = _run_one(mod, case, 4 * seconds)
    return obs, status


def _run_one(mod, case, seconds):
    obs = Obs()
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, seconds)        # processor time: a loaded machine does not count
    signal.setitimer(signal.ITIMER_REAL, 5 * seconds)    # a run that only waits
    status = 'ok'
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.run_case(case, obs)
    except WallClock as e:
        status = 'inconclusive: %s (%s)' % (e, short_tb(e))
    except Budget as e:
        obs.bad('no progress: %s (%s)' % (e, short_tb(e)))
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt) and not from_repo(e):
            raise
        if from_repo(e):
            obs.bad('unexpected %s: %s (%s)' % (type(e).__name__, e, short_tb(e)))
        else:
            status = 'harness-error: ' + ''.join(traceback.format_exception(e))[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        TAP.limit = None
        TAP.mode = 'plain'
    return obs, status


def case_rng(prop, seed, idx):
    return random.Random('%s/%s/%s' % (prop, seed, idx))


def make_case(mod, prop, seed, tier, idx):
    return mod.gen_case(case_rng(prop, seed, idx), idx, tier)


def _worker(arg):
    name, prop, seed, tier, idxs = arg
    mod = importlib.import_module('checks.' + name)
    out = []
    for i in idxs:
        case = make_case(mod, prop, seed, tier, i)
        obs, status = run_one(mod, case)
        out.append((i, obs.count, obs.sigs, obs.violations, obs.findings, obs.sample, status))
        if status != 'ok':
            break
    return out


def jdump(obj, path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, default=repr)
        f.write('\n')
    os.replace(tmp, path)


def load_findings(prop):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d['property'] == prop and d['status'] == 'known':
                    out[d['key']] = d
    return out


def main(prop):
    import multiprocessing as mp
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    jobs = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 1))))
    t0 = time.time()
    load_repo()
    name = prop.lower()
    mod = importlib.import_module('checks.' + name)
    n = mod.CASES[tier]
    if os.environ.get('VERIF_CASES'):
        n = int(os.environ['VERIF_CASES'])
    known = load_findings(prop)
    total, sigs, viol, findings, samples, bad = {}, set(), [], {}, [], []
    chunk = max(1, min(getattr(mod, 'CHUNK', 8), (n + jobs - 1) // jobs))
    work = [(name, prop, seed, tier, list(range(i, min(n, i + chunk)))) for i in range(0, n, chunk)]
    done = 0
    ctx = mp.get_context('fork')
    pool = ctx.Pool(jobs)
    stop = False
    budget = getattr(mod, 'WALL', {'quick': 600, 'thorough': 3600})[tier]
    try:
        for res in pool.imap_unordered(_worker, work):
            for (i, count, s, v, f, sample, status) in res:
                done += 1
                for k, c in count.items():
                    total[k] = total.get(k, 0) + c
                sigs |= s
                for key, what in f:
                    findings.setdefault(key, (what, i))
                if v:
                    viol.append((i, v))
                if status != 'ok':
                    bad.append((i, status))
                if sample is not None and len(samples) < 4:
                    samples.append(sample)
            if len(viol) >= 3 or (viol and time.time() - t0 > 60) or any(b[1].startswith('harness') for b in bad) or time.time() - t0 > budget:
                stop = True
                break
    finally:
        pool.terminate()
        pool.join()
    # final, whole-run oracle (distribution tests over pooled counts)
    if hasattr(mod, 'finish') and not stop:
        o = Obs()
        mod.finish(total, o, tier)
        for k, c in o.count.items():
            total[k] = total.get(k, 0) + c
        if o.violations:
            viol.append((-1, o.violations))
    for key, (what, i) in list(findings.items()):
        if key not in known:
            viol.append((i, ['unlisted finding %s: %s' % (key, what)]))
    missing = [k for k in getattr(mod, 'REQUIRED', []) if not total.get(k)]
    wall = round(time.time() - t0, 2)
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=dict(evaluations=done, distinct_nontrivial=len(sigs), rule=mod.RULE,
                            samples=samples or [make_case(mod, prop, seed, tier, 0)],
                            observed={k: total[k] for k in sorted(total) if not k.startswith('_')},
                            planned=n, stopped_early=stop, missing_observations=missing,
                            inconclusive=len(bad)),
              assumptions=getattr(mod, 'ASSUMPTIONS', []) + [
                  'monitoring decides only the executions produced; cases are drawn from VERIF_SEED'],
              wall_s=wall, violations=len(viol))
    jdump(ev, os.path.join(VERIF, 'evidence', prop + '.json'))
    print('%s %s: %d cases, %d distinct situations, %d oracle evaluations, %.1f s' % (
        prop, tier, done, len(sigs), total.get('oracle_evaluations', 0), wall))
    for key, (what, i) in sorted(findings.items()):
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[key]['what']))
    if viol:
        viol.sort()
        for i, v in viol[:3]:
            path = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.json' % (prop, 'pooled' if i < 0 else i))
            jdump(dict(property=prop, seed=seed, tier=tier, index=i, violations=v,
                       case=None if i < 0 else make_case(mod, prop, seed, tier, i)), path)
            for m in v[:3]:
                print('  case %s: %s' % (i, m))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if bad:
        print('INCONCLUSIVE: %d case(s); first: %s' % (len(bad), bad[0]))
        return 2
    if stop and not missing and done >= n // 2:
        print('stopped after %d s: the property held in all %d of %d cases executed' % (wall, done, n))
        return 0
    if missing or done < n:
        print('INCONCLUSIVE: never observed %s, %d of %d cases' % (missing, done, n))
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    load_repo()
    mod = importlib.import_module('checks.' + d['property'].lower())
    if d['case'] is None:
        print('pooled violation; rerun the check with VERIF_SEED=%s VERIF_TIER=%s' % (d['seed'], d['tier']))
        return 2
    obs, status = run_one(mod, make_case(mod, d['property'], d['seed'], d['tier'], d['index']))
    print(json.dumps(d['case'], default=repr)[:2000])
    print('status', status)
    for v in obs.violations:
        print('  ', v)
    if obs.violations:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
    return 1 if obs.violations else 0
