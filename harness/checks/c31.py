"""C31 simultaneous runs: threads preempted at source lines, runs alternating step by step, runs inside objective functions."""
import os
import random
import sys
import threading
import core
import world as w

CASES = {'quick': 1200, 'thorough': 10000}
CHUNK = 6
RULE = 'distinct (ways the runs met, run shapes, interleaving) of groups of simultaneous runs compared with the same runs alone'
REQUIRED = ['groups', 'generations_compared', 'thread_groups', 'step_groups', 'nested_groups', 'doubly_nested', 'thread_switches', 'step_switches', 'nested_runs', 'groups_of_three', 'same_problem_groups',
            'shared_parts_groups', 'vega_runs', 'ffga_runs', 'constrained_runs', 'bin_runs', 'gray_runs', 'cat_runs', 'order_runs', 'class_runs', 'collector_runs', 'modular_runs', 'switches_inside_parts']
ROOT = os.path.realpath(core.REPO) + os.sep


def gen_case(rng, idx, tier):
    how = ['threads', 'threads', 'steps', 'nested'][idx % 4]
    kw = dict(max_n=24, max_G=8, big=0.0)
    base = None
    shared = False
    if how == 'steps' and rng.random() < 0.5 or rng.random() < 0.3:
        base = dict(pop=w.pick(rng, ['bin', 'gray', 'cat', 'order']), algo=w.pick(rng, ['single', 'single', 'single', 'vega', 'ffga']))
    specs = []
    for k in range(w.pick(rng, [2, 2, 3])):
        algo = (base or {}).get('algo') or w.pick(rng, ['single', 'single', 'single', 'vega', 'ffga'])
        mode = 'modular' if how == 'steps' else w.pick(rng, ['class', 'class', 'collector', 'modular'])
        s = w.gen_run(rng, tier, algo=algo, pop=(base or {}).get('pop'), mode=mode, **dict(kw, max_G=8 if algo == 'single' else 4, max_n=24 if algo == 'single' else 12))
        s['rng'] = 'plain'
        s['print'] = False
        s['G'] = min(s['G'], 12)
        specs.append(s)
    if base and rng.random() < 0.5:
        specs = [dict(specs[0], seed=s['seed'], entropy=s['entropy']) for s in specs]
    if how == 'steps' and base and rng.random() < 0.7:
        shared = True
        if base['algo'] == 'vega' or min(map(w.genotype_length, specs)) < 3:   # a selection made for a number of objectives, a crossover for longer genotypes
            specs = [dict(specs[0], seed=s['seed'], entropy=s['entropy']) for s in specs]
        for s in specs[1:]:
            for f in ('sel', 'cross', 'off', 'mut', 'lvl', 'transfer'):
                if f in s:
                    s[f] = specs[0][f]
        n = max(s['n'] for s in specs)
        for s in specs:
            s['n'] = n
            s['cp'] = specs[0]['cp']
    return dict(specs=specs, how=how, shared=shared, salt=rng.getrandbits(40), pace=w.pick(rng, [3, 20, 20, 100, 400]))


class Own:
    """The context of one run: random numbers, seed setting, recorder."""

    def __init__(self, spec):
        self.spec = spec
        t = self.trace = w.Trace()
        t.light = True
        self.data = w.input_object(spec.get('input_data'))
        t.obj = w.Objective(spec, self.data, limit=w.call_limit(spec))
        self.error = None
        self.tap = None

    def enter(self):
        T = core.TAP
        if self.tap is None:
            w.generator.rnd_seed = self.spec.get('seed')
            core.reset_tap(self.spec['entropy'], 'plain', w.draw_limit(self.spec))
            w._REC = self.trace
            w._ACTIVE[:] = []
        else:
            state, T.draws, T.limit, T.entropy, T.seed_events, w.generator.rnd_seed, active = self.tap
            T.setstate(state)
            w._REC = self.trace
            w._ACTIVE[:] = active

    def leave(self):
        T = core.TAP
        self.tap = (T.getstate(), T.draws, T.limit, T.entropy, T.seed_events, w.generator.rnd_seed, list(w._ACTIVE))


def in_repo(code, known={}):
    r = known.get(code)
    if r is None:
        r = known[code] = os.path.realpath(code.co_filename).startswith(ROOT)
    return r


class Baton:
    """Real threads of which exactly one runs; it is passed on after a drawn number of source lines of the library."""

    def __init__(self, runs, rng, pace):
        self.runs, self.rng, self.pace = runs, rng, pace
        self.locks = [threading.Semaphore(0) for _ in runs]
        self.live = set(range(len(runs)))
        self.switches, self.inside = 0, 0
        self.places = []
        self.over = threading.Event()
        self.left = [0] * len(runs)

    def next(self, me):
        others = sorted(self.live - {me})
        return others[self.rng.randrange(len(others))] if others else None

    def switch(self, me, frame):
        k = self.next(me)
        self.left[me] = 1 + self.rng.randrange(2 * self.pace)
        if k is None:
            return
        self.switches += 1
        self.inside += bool(w._ACTIVE)
        if len(self.places) < 12:
            self.places.append((frame.f_code.co_name, frame.f_lineno))
        own = self.runs[me]
        own.leave()
        self.locks[k].release()
        self.locks[me].acquire()
        own.enter()

    def body(self, me):
        own = self.runs[me]
        self.locks[me].acquire()
        own.enter()
        self.left[me] = 1 + self.rng.randrange(2 * self.pace)

        def line(frame, event, arg):
            if event == 'line':
                self.left[me] -= 1
                if self.left[me] <= 0:
                    self.switch(me, frame)
            return line

        def call(frame, event, arg):
            return line if in_repo(frame.f_code) else None
        try:
            sys.settrace(call)
            own.trace.result = w.drive(own.spec, own.trace.obj.function, own.data)
        except BaseException as e:
            own.error = e
        finally:
            sys.settrace(None)
            k = self.next(me)
            self.live.discard(me)
            if k is None:
                self.over.set()
            else:
                self.locks[k].release()

    def go(self):
        for i in range(len(self.runs)):
            threading.Thread(target=self.body, args=(i,), daemon=True).start()
        self.locks[0].release()
        self.over.wait()


def stepwise(own, parts):
    """The documented modular loop, one step at a time."""
    s = own.spec
    d = w.storage_of(s)(num_generations=s['G'], children_percent=s['cp'], early_stop=s['early'])
    pop = w.make_population(s)
    yield
    pop.fill()
    d.population = pop
    yield
    parts['fitness'].execute(d)
    yield
    d.update()
    yield
    for _ in range(1, d.num_generations):
        for x in ('selection', 'crossover', 'mutation', 'new_generation', 'fitness'):
            parts[x].execute(d)
            yield
        d.update()
        yield
        if d.num_generation_no_improve > d.early_stop:
            break
    own.trace.result = d


def nest(runs, rng):
    """The second run inside an objective call of the first one, the third inside one of the second."""
    for a, b in zip(runs, runs[1:]):
        inner = a.trace.obj.function
        at = {rng.choice([0, 1, 2, a.spec['n'] - 1, a.spec['n'], a.spec['n'] + 1, 2 * a.spec['n'] + rng.randrange(10)])}
        a.done = False

        def f(*args, a=a, b=b, inner=inner, at=at):
            if len(a.trace.obj.calls) in at and not a.done:
                a.done = True
                a.leave()
                b.enter()
                try:
                    b.trace.result = w.drive(b.spec, b.call, b.data)
                finally:
                    b.leave()
                    a.enter()
            return inner(*args)
        a.call = f
    runs[-1].call = runs[-1].trace.obj.function
    a = runs[0]
    a.enter()
    a.trace.result = w.drive(a.spec, a.call, a.data)


def gens_of(t):
    return [core.digest([(i.g, i.p, i.score, i.obj, i.feasible, i.rank) for i in g['pop']] + [g['no_improve'], g['idx'], w.freeze(g['best']), g['hb'], g['hm'], g['hw']]) for g in t.gens]


def run_case(case, obs):
    specs, how = case['specs'], case['how']
    alone = [w.run(s, light=True) for s in specs]
    rng = random.Random(case['salt'])
    runs = [Own(s) for s in specs]
    w.install()
    inter = ()
    try:
        with core.quiet():
            if how == 'threads':
                b = Baton(runs, rng, case['pace'])
                b.go()
                obs.add('thread_switches', b.switches)
                obs.add('switches_inside_parts', b.inside)
                inter = tuple(b.places)
                for o in runs:
                    if o.error is not None:
                        raise o.error
            elif how == 'steps':
                gens = []
                parts = None
                for o in runs:
                    p = w.make_parts(o.spec, o.trace.obj.function, o.data)
                    if case['shared']:
                        if parts is not None:
                            p = dict(parts, fitness=p['fitness'])
                        parts = p
                    gens.append(stepwise(o, p))
                live = list(range(len(runs)))
                order = []
                while live:
                    k = live[rng.randrange(len(live))]
                    runs[k].enter()
                    try:
                        next(gens[k])
                    except StopIteration:
                        live.remove(k)
                    finally:
                        runs[k].leave()
                    order.append(k)
                obs.add('step_switches', sum(x != y for x, y in zip(order, order[1:])))
                inter = tuple(order[:40])
            else:
                nest(runs, rng)
    finally:
        core.TAP.limit = None
        w.generator.rnd_seed = None
        w._REC = None
        w._ACTIVE[:] = []
    obs.add('groups')
    obs.add({'threads': 'thread_groups', 'steps': 'step_groups', 'nested': 'nested_groups'}[how])
    obs.add('shared_parts_groups', case['shared'])
    obs.add('groups_of_three', len(runs) > 2)
    obs.add('same_problem_groups', all(s['gens'] == specs[0]['gens'] for s in specs))
    ran = 0
    for k, (a, o) in enumerate(zip(alone, runs)):
        s, t = o.spec, o.trace
        if how == 'nested' and t.result is None:
            continue                 # the call in which it should have run was never made
        ran += 1
        what = '%s %s %s, one of %d runs (%s%s)' % (s['algo'], s['pop'], s['mode'], len(runs), how, ' with shared parts' if case['shared'] else '')
        x, y = gens_of(a), gens_of(t)
        if not obs.check(len(x) == len(y), lambda: '%s: %d generations, alone %d' % (what, len(y), len(x))):
            continue
        for g, (p, q) in enumerate(zip(x, y)):
            obs.add('generations_compared')
            if not obs.check(p == q, lambda: '%s: generation %d differs from that of the run alone' % (what, g)):
                break
        obs.check(core.digest([c[0] for c in a.obj.calls]) == core.digest([c[0] for c in t.obj.calls]), lambda: '%s: other objective calls than alone' % what)
        obs.check(not t.obj.bad_args, lambda: '%s: %s' % (what, t.obj.bad_args[0]))
        obs.check(core.digest(w.freeze(a.result.best_solution)) == core.digest(w.freeze(t.result.best_solution)), lambda: '%s: best solution read at the end differs from that of the run alone' % what)
        obs.add('vega_runs', s['algo'] == 'vega')
        obs.add('ffga_runs', s['algo'] == 'ffga')
        obs.add(s['pop'] + '_runs')
        obs.add(s['mode'] + '_runs')
        obs.add('constrained_runs', bool(s['conds']))
    if how == 'nested':
        obs.add('nested_runs', ran - 1)
        obs.add('doubly_nested', ran > 2)
    obs.sig(how, [w.shape_sig(s) for s in specs], inter)
    if obs.sample is None and ran > 1:
        obs.sample = dict(how=how, shared=case['shared'], specs=specs, interleaving=repr(inter))
