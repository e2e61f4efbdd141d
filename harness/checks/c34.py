"""C34 long runs: memory held and work per generation do not grow with the number of generations made."""
import collections
import gc
import sys
import tracemalloc
import core
import world as w

CASES = {'quick': 300, 'thorough': 3600}
CHUNK = 2
RULE = 'distinct (run shape, length, number of individuals) of long runs whose memory and work were measured along the way'
REQUIRED = ['runs', 'memory_comparisons', 'work_comparisons', 'element_comparisons', 'bin_runs', 'gray_runs', 'cat_runs', 'order_runs', 'vega_runs', 'constrained_runs', 'class_runs', 'collector_runs', 'modular_runs',
            'improving_runs', 'worsening_runs', 'random_transfer_runs', 'adaptive_runs', 'dynamic_runs', 'static_runs']
A, B, C = 30, 60, 30       # early window: generations A to B; late window: the last C


def gen_case(rng, idx, tier):
    # FFGA populations may grow with their front (known finding of C09)
    algo = ['single', 'single', 'single', 'vega', 'single'][idx % 5]
    s = w.gen_run(rng, tier, algo=algo, max_n=9 if algo == 'single' else 7, max_G=10, big=0.0, early=100000)
    s['G'] = w.pick(rng, [150, 200, 300] if algo == 'single' else [130, 160])
    s['mut']['lvl'] = w.pick(rng, [0.3, 0.5, 1.0])
    s['rng'] = 'plain'
    s['print'] = False
    # drift: every evaluation gives a better (or worse) value than all before it, or the run stays as it is
    drift = w.pick(rng, [0, 0, 1, 1, -1]) if algo == 'single' else 0
    if drift:
        s['target'] = None
    measure = ['memory', 'work', 'elements'][idx // 5 % 3]
    if drift:
        s['G'] = w.pick(rng, [300, 800, 1200] if measure == 'work' else [300, 700, 1000] if measure == 'memory' else [300, 400])
    return dict(spec=s, measure=measure, drift=drift)


class Sink(list):
    """Takes the place of the list of recorded generations."""

    def __init__(self, at):
        super().__init__()
        self.at, self.n = at, 0

    def append(self, g):
        self.n += 1
        self.at(self.n)

    def __len__(self):
        return self.n


def size_of(v, seen):
    """Bytes held by a history: containers and what is in them, each object once."""
    if id(v) in seen:
        return 0
    seen.add(id(v))
    if isinstance(v, dict):
        return sys.getsizeof(v) + sum(size_of(e, seen) for e in v.values())
    if isinstance(v, (list, tuple)):
        return sys.getsizeof(v) + sum(size_of(e, seen) for e in v)
    return sys.getsizeof(v) if not isinstance(v, (bool, type(None), str)) else 0


KINDS = (list, dict, set, frozenset, tuple, bytearray, str, bytes, collections.deque)


def elements(d):
    """Number of elements of all containers of the process, the histories and the best solution of the run not counted."""
    hist = [h for h in (d.historical_best, d.historical_mediocre, d.historical_worst, d.best_solution) if isinstance(h, (list, dict))]     # the size of a Pareto set varies
    skip, todo = {id(hist)}, list(hist)
    while todo:
        v = todo.pop()
        if id(v) in skip:
            continue
        if isinstance(v, (list, tuple, dict)):
            skip.add(id(v))
            todo.extend(v.values() if isinstance(v, dict) else v)
    objects = gc.get_objects()
    skip.add(id(objects))
    seen, n = set(), 0
    skip.update((id(seen), id(skip)))
    for o in objects:
        if id(o) in skip or isinstance(o, Sink):
            continue
        if isinstance(o, KINDS):
            n += len(o)
        for e in gc.get_referents(o):         # containers of numbers and strings are not tracked themselves
            if isinstance(e, KINDS) and not gc.is_tracked(e) and id(e) not in seen and id(e) not in skip:
                seen.add(id(e))
                n += len(e)
    return n


def run_case(case, obs):
    s = case['spec']
    data = w.input_object(s['input_data'])
    inner = w.Objective(s, data)

    state = dict(d=None, work=0, calls=0)

    def f(*args):
        r = inner.function(*args)
        if case['drift']:
            state['calls'] += 1
            vals = list(inner.calls[-1][1])
            j = s['conds'].index('optimize') if s['conds'] else 0
            vals[j] = vals[j] % 1 - case['drift'] * 1000.0 * state['calls']
            r = w.shape(s, vals)
        del inner.calls[:]
        return r
    points = []
    memory = case['measure'] == 'memory'
    count = case['measure'] == 'elements'

    def at(n):
        if memory:
            if n % 10 == 0 or n == 1:
                gc.collect()
                d = state['d']
                seen = set()
                hist = size_of(d.historical_best, seen) + size_of(d.historical_mediocre, seen) + size_of(d.historical_worst, seen)
                del seen
                points.append((n, tracemalloc.get_traced_memory()[0] - hist))
        elif count:
            if n in (B, s['G'] - 2):
                gc.collect()
                points.append((n, elements(state['d'])))
        else:
            points.append((n, state['work']))
    t = w.Trace()
    t.light = True
    t.gens = Sink(at)
    t.steps = Sink(lambda n: None)
    t.obj = None
    w.install()
    orig = w.on_update

    def on_update(t, d):
        state['d'] = d
        t.gens.append(None)
    w.generator.rnd_seed = s['seed']
    core.reset_tap(s['entropy'], 'plain', None)
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    here = {}

    def jump(code, *rest):
        skip = here.get(code)
        if skip is None:
            skip = here[code] = code.co_filename.startswith(core.VERIF)
        if skip:
            return mon.DISABLE
        state['work'] += 1
    w.on_update = on_update
    try:
        if memory:
            gc.collect()
            tracemalloc.start(1)
        elif not count:
            mon.use_tool_id(tool, 'verif-work')
            for e in (mon.events.JUMP, mon.events.BRANCH, mon.events.PY_START):
                mon.register_callback(tool, e, jump)
            mon.set_events(tool, mon.events.JUMP | mon.events.BRANCH | mon.events.PY_START)
        with w.recording(t), core.quiet():
            w.drive(s, f, data)
    finally:
        w.on_update = orig
        if memory:
            tracemalloc.stop()
        elif not count:
            mon.set_events(tool, 0)
            mon.free_tool_id(tool)
            mon.restart_events()
        core.TAP.limit = None
        w.generator.rnd_seed = None
    what = '%s %s %s, %d individuals' % (s['algo'], s['pop'], s['mode'], s['n'])
    obs.add('runs')
    obs.check(t.gens.n == s['G'], lambda: '%s: %d of %d generations' % (what, t.gens.n, s['G']))
    if t.gens.n != s['G']:
        return
    G = s['G']
    if memory:
        early = max(m for n, m in points if A <= n <= B)
        late = min(m for n, m in points if n > G - C)
        bound = 12000 + 12 * (G - B)
        obs.add('memory_comparisons')
        obs.check(late - early <= bound, lambda: '%s: %d bytes more are held after %d generations than after %d, histories not counted' % (what, late - early, G, B))
        r = late - early
    elif count:
        (_, early), (_, late) = points
        obs.add('element_comparisons')
        r = late - early
        obs.check(r <= 20 + 0.45 * (G - B), lambda: '%s: the containers hold %d elements more after %d generations than after %d, histories not counted' % (what, r, G, B))
    else:
        w0 = dict(points)
        early, late = (w0[B] - w0[A]) / (B - A), (w0[G] - w0[G - C]) / C
        obs.add('work_comparisons')
        obs.check(late <= 1.35 * early + 100, lambda: '%s: %.0f loop iterations and calls per generation at the end of %d generations, %.0f at the beginning' % (what, late, G, early))
        r = late / early
    if core.os.environ.get('C34_DEBUG'):
        print(case['measure'], r, early, late, s['n'], G, case['drift'], file=sys.stderr)
    obs.add(s['pop'] + '_runs')
    obs.add(s['mode'] + '_runs')
    obs.add('improving_runs', case['drift'] == 1)
    obs.add('worsening_runs', case['drift'] == -1)
    obs.add('vega_runs', s['algo'] == 'vega')
    obs.add('constrained_runs', bool(s['conds']))
    obs.add('random_transfer_runs', s['transfer'] == 'random')
    if s['penalty']:
        obs.add(s['penalty']['kind'] + '_runs')
    obs.sig(w.shape_sig(s), s['n'], G, case['measure'], case['drift'])
    if obs.sample is None or obs.sample['growth'] < r:
        obs.sample = dict(spec=s, measure=case['measure'], growth=r)
