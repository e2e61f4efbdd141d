"""C15 isolation: user data compared before and after, earlier results re-read later, reuse compared with fresh objects."""
import copy
import json
import os
import subprocess
import sys
import core
import world as w
from baumeva import CollectorGA
import baumeva.ga as ga

CASES = {'quick': 1200, 'thorough': 12000}
CHUNK = 8
RULE = 'distinct (scenario, run shape) whose data or traces were compared'
REQUIRED = ['arguments_compared', 'earlier_results_compared', 'second_optimize_compared', 'parts_reused', 'collector_reused', 'interleaved_steps', 'penalty_objects_shared',
            'constrained_arguments', 'points_reread', 'returned_lists_reread', 'input_populations_compared', 'multi_cases', 'orders_compared']


def gen_case(rng, idx, tier):
    kind = ['args', 'results', 'twice', 'reuse', 'collector', 'interleave'][idx % 6]
    kw = dict(max_n=24, max_G=10)
    kw['algo'] = w.pick(rng, ['single'] * 4 + ['vega', 'ffga'])
    kw['constrained'] = rng.random() < 0.5
    if kind == 'twice':
        kw['mode'] = 'class'
        if kw['algo'] != 'single':
            kw['pop'] = w.pick(rng, ['bin', 'gray'])
    if kind in ('reuse', 'interleave'):
        kw['mode'] = 'modular'
    if kind == 'collector':
        kw['mode'] = 'collector'
    a = w.gen_run(rng, tier, **kw)
    a['rng'] = 'plain'
    a['seed'] = w.pick(rng, [0, 3, 11, -2])
    if a['input_data'] == 'awkward':
        a['input_data'] = None
    if kind == 'args' and a['input_pop'] is None and rng.random() < 0.6:
        a['input_pop'] = [w.random_point(rng, a) for _ in range(w.pick(rng, [1, a['n']]))]
    # another problem of another size for the same parts
    b = copy.deepcopy(a)
    b['gens'] = w.gen_genes(rng, a['pop'], w.pick(rng, ['s', 'm', 'l']), 3)
    r = rng.random()
    if r < 0.3 and w.genotype_length(a) >= 3:
        b['gens'] = similar(a)
    b['n'] = max(a['n'] + w.pick(rng, [-3, 0, 5, 9]), 3 + a['sel'].get('k', 2), w.num_objectives(a) + 2)
    b['cp'] = w.pick(rng, [0.9, 0.5, 1.0, 0.7])
    if a['algo'] == 'vega' and int(b['cp'] * b['n'] / w.num_objectives(a)) < 1:
        b['cp'] = 1.0       # at least one child per objective
    b['G'] = w.pick(rng, [3, 6, 9])
    b['early'] = w.pick(rng, [1, 5, 1000])
    b['input_pop'] = None
    b['seed'] = w.pick(rng, [1, 5, 0])
    b['entropy'] = '%x' % rng.getrandbits(48)
    if idx % 24 in (7, 13):
        specs = [a, b]
        for _ in range(2):
            x = w.gen_run(rng, tier, max_n=16, max_G=8, pop=w.pick(rng, ['bin', 'gray', 'cat', 'order']), size='s', big=0)
            x.update(rng='plain', seed=w.pick(rng, [0, 3, 11]))
            if x['input_data'] == 'awkward':
                x['input_data'] = 'num'
            y = copy.deepcopy(x)
            y.update(gens=similar(x), input_pop=None)
            if w.genotype_length(y) != w.genotype_length(x):
                y['gens'] = x['gens']
            specs += [x, y]
        return dict(kind='orders', a=a, b=b, specs=specs)
    return dict(kind=kind, a=a, b=b)


def similar(a):
    """Genes of the same shape with other values."""
    if a['pop'] in ('bin', 'gray'):
        return [[lo + 1, hi + 1, st] for lo, hi, st in a['gens']]
    if a['pop'] == 'order':
        return [a['gens'][0] + 1, a['gens'][1] + 1, a['gens'][2]]
    return a['gens'][1:] + a['gens'][:1]


def orders(specs, obs):
    """The same runs in new processes in two orders: what ran before must not matter."""
    outs = []
    for back in (False, True):
        seq = specs[::-1] if back else specs
        r = subprocess.run([sys.executable, '-B', os.path.join(core.VERIF, 'harness', 'digest_child.py')], input='\n'.join(json.dumps(s) for s in seq) + '\n', capture_output=True, text=True,
                           env=dict(os.environ, PYTHONHASHSEED='0'), timeout=200)
        lines = r.stdout.split('\n')[:-1]
        if len(lines) != len(specs):
            raise RuntimeError('digest child failed: %s' % r.stderr[-800:])
        outs.append(lines[::-1] if back else lines)
    for s, a, b in zip(specs, *outs):
        for x in (a, b):
            if x.startswith('E'):
                if not x.endswith('repo'):
                    raise RuntimeError(x)
                obs.bad('unexpected %s' % x)
                return
        obs.add('orders_compared')
        obs.check(a == b, lambda: 'a run (%s %s %s, genes %r) depends on the runs made before it in the same process' % (s['algo'], s['pop'], s['mode'], s['gens']))


class Switch:
    """One objective function object for two problems (the values only depend on the point)."""

    def __init__(self, spec, data):
        self.inner = w.Objective(spec, data)
        self.function = self.inner.function

    def reset(self):
        self.inner.calls = []


def data_digest(d):
    return core.digest([[(i.g, i.p, i.score, i.obj, i.feasible, i.rank) for i in w.snap(d.population)], w.freeze(d.best_solution), w.freeze(d.historical_best),
                        w.freeze(d.historical_mediocre), w.freeze(d.historical_worst), d.idx_generation, d.num_generation_no_improve,
                        [i.g for i in w.snap(d.parents)] if d.parents is not None else None])


def seeded(s, f):
    w.generator.rnd_seed = s['seed']
    core.reset_tap(s['entropy'], 'plain', w.draw_limit(s))
    try:
        with core.quiet():
            return f()
    finally:
        core.TAP.limit = None
        w.generator.rnd_seed = None


def args(s, obs):
    data = {'zero': 0, None: None}.get(s['input_data'], {'k': [1, 2], 'm': {'x': 3}})
    if s['input_data'] == 'arr':
        data = w.np.arange(4.0)
    gens, ipop = w.real_gens(s), w.real_input_population(s)
    if s['pop'] == 'cat' and len(repr(s['gens'])) % 2:
        gens = list(gens)
    conds = list(s['conds']) if s['conds'] else None
    pen = w.make_penalty(s['penalty'])
    pen_tables = copy.deepcopy({k: v for k, v in vars(pen).items() if isinstance(v, dict)}) if pen else None
    keep = copy.deepcopy((gens, ipop, conds)), repr(data)
    o = w.Objective(s, data)
    points, memo = [], {}

    def remembering(*x):
        # keeps the lists it is given and returns the same object for the same point
        points.append((x[-1], tuple(x[-1])))
        k = tuple(map(repr, x[-1]))
        if k not in memo:
            v = inner(*x)
            memo[k] = v, copy.deepcopy(v)
        else:
            o.calls.append(None)
        return memo[k][0]
    inner, o.function = o.function, remembering

    def go():
        if s['mode'] == 'class':
            return w.make_class(s, o.function, data, penalty=pen, conds=conds, gens=gens, ipop=ipop).optimize()
        parts = w.make_parts(s, o.function, data, penalty=pen, conds=conds)
        if s['mode'] == 'modular':
            return w.modular(s, parts, gens=gens, ipop=ipop)
        c = CollectorGA(storage=w.storage_of(s), **parts)
        c.set_population(getattr(ga, w.POPS[s['pop']]), num_individ=s['n'], num_generations=s['G'], gens=gens, input_population=ipop, children_percent=s['cp'], early_stop=s['early'])
        c.optimize()
        return c.ga_data
    d = seeded(s, go)
    obs.add('arguments_compared')
    obs.add('constrained_arguments', bool(conds))
    obs.add('input_populations_compared', ipop is not None)
    obs.check(gens == keep[0][0], lambda: 'genes changed: %r -> %r' % (keep[0][0], gens))
    obs.check(ipop == keep[0][1], lambda: 'input population changed: %r -> %r' % (keep[0][1], ipop))
    obs.check(conds == keep[0][2], lambda: 'conditions changed: %r -> %r' % (keep[0][2], conds))
    obs.check(repr(data) == keep[1], lambda: 'input data changed: %s -> %r' % (keep[1], data))
    for x, was in points:
        if not obs.check(tuple(x) == was, lambda: 'a list handed to the objective function was changed afterwards: %r -> %r' % (was, x)):
            break
    for v, was in memo.values():
        if not obs.check(repr(v) == repr(was), lambda: 'a value returned by the objective function was changed: %r -> %r' % (was, v)):
            break
    obs.add('points_reread', len(points))
    obs.add('returned_lists_reread', sum(isinstance(v, list) for v, _ in memo.values()))
    if pen:
        obs.check({k: v for k, v in vars(pen).items() if isinstance(v, dict)} == pen_tables, 'penalty tables changed')
    if ipop is not None:
        ids = {id(x) for x in ipop}
        obs.check(not any(id(i['genotype']) in ids for i in d.population), 'the population shares a genotype with the input population')


def run_case(case, obs):
    a, b = case['a'], case['b']
    kind = case['kind']
    obs.add('multi_cases', a['algo'] != 'single')
    obs.sig(kind, w.shape_sig(a))
    if obs.sample is None:
        obs.sample = dict(kind=kind, spec=a)
    if kind == 'args':
        return args(a, obs)
    if kind == 'orders':
        return orders(case['specs'], obs)
    data = w.input_object(a['input_data'])
    if kind == 'results':
        first = w.run(a, light=True).result
        before = data_digest(first)
        second = w.run(b, light=True).result
        third = w.run(a, light=True).result
        obs.add('earlier_results_compared')
        obs.check(data_digest(first) == before, 'a later run changed the result of an earlier one')
        obs.check(data_digest(third) == before, 'the same run gives another result after a different run in between')
        shared = {id(i) for i in first.population} & {id(i) for i in third.population}
        obs.check(not shared, 'two runs share individuals')
        return
    if kind == 'twice':
        o = Switch(a, data)
        pen = w.make_penalty(a['penalty'])
        obj = w.make_class(a, o.function, data, penalty=pen)
        first = seeded(a, obj.optimize)
        before = data_digest(first)
        calls = core.digest(o.inner.calls)
        o.reset()
        if pen is not None:
            # the same penalty object used for another problem in between
            obs.add('penalty_objects_shared')
            o2 = w.Objective(b, data)
            seeded(b, w.make_class(b, o2.function, data, penalty=pen).optimize)
        second = seeded(a, obj.optimize)
        obs.add('second_optimize_compared')
        obs.check(data_digest(first) == before, 'the second optimize() changed the result of the first')
        obs.check(data_digest(second) == before and core.digest(o.inner.calls) == calls, lambda: 'the second optimize() of the same object differs from the first under the same seed (%s %s)' % (a['algo'], a['pop']))
        return
    if kind == 'reuse':
        o = Switch(a, data)
        parts = w.make_parts(a, o.function, data)
        seeded(a, lambda: w.modular(a, parts))
        o.reset()
        again = data_digest(seeded(b, lambda: w.modular(b, parts)))
        calls = core.digest(o.inner.calls)
        o.reset()
        fresh = data_digest(seeded(b, lambda: w.modular(b, w.make_parts(b, o.function, data))))
        obs.add('parts_reused')
        obs.check(again == fresh and calls == core.digest(o.inner.calls), lambda: 'reused parts behave differently from fresh ones: genes %r then %r (%s, %s, %s)' % (a['gens'], b['gens'], a['sel'], a['cross'], a['mut']))
        return
    if kind == 'collector':
        o = Switch(a, data)
        c = CollectorGA(storage=w.storage_of(a), **w.make_parts(a, o.function, data))

        def go(c, s):
            c.set_population(getattr(ga, w.POPS[s['pop']]), num_individ=s['n'], num_generations=s['G'], gens=w.real_gens(s), input_population=w.real_input_population(s), children_percent=s['cp'], early_stop=s['early'])
            c.optimize()
            return c.ga_data
        r1 = seeded(a, lambda: go(c, a))
        before = data_digest(r1)
        again = data_digest(seeded(b, lambda: go(c, b)))
        fresh = data_digest(seeded(b, lambda: go(CollectorGA(storage=w.storage_of(b), **w.make_parts(b, o.function, data)), b)))
        obs.add('collector_reused')
        obs.check(data_digest(r1) == before, 'a second population of the collector changed the first result')
        obs.check(again == fresh, lambda: 'reused collector behaves differently from a fresh one: genes %r then %r' % (a['gens'], b['gens']))
        return
    # two runs in lockstep, operation by operation, with shared parts, against each run alone with fresh parts
    o = Switch(a, data)

    def stepper(s, parts, tag):
        d = w.storage_of(s)(num_generations=s['G'], children_percent=s['cp'], early_stop=s['early'])

        def seed(j):
            core.reset_tap('%s/%s/%d' % (s['entropy'], tag, j), 'plain', w.draw_limit(s))
        w.generator.rnd_seed = s['seed']
        pop = w.make_population(s)
        w.generator.rnd_seed = None
        seed(0)
        pop.fill()
        d.population = pop
        yield d
        j = 1
        parts['fitness'].execute(d)
        d.update()
        yield d
        for g in range(4):
            for name in ('selection', 'crossover', 'mutation', 'new_generation', 'fitness'):
                seed(j)
                j += 1
                parts[name].execute(d)
                yield d
            d.update()

    def finish(*its):
        its = list(its)
        last = [None] * len(its)
        live = set(range(len(its)))
        while live:
            for k in sorted(live):
                others = [(m, data_digest(last[m])) for m in live if m != k and last[m] is not None and last[m].best_solution is not None and 'rank' in last[m].population[0]] if len(its) > 1 else []
                try:
                    last[k] = next(its[k])
                except StopIteration:
                    live.discard(k)
                    continue
                if len(its) > 1:
                    obs.add('interleaved_steps')
                    for m, dg in others:
                        obs.check(data_digest(last[m]) == dg, 'a step of one run changed the data of another run')
        return [data_digest(d) for d in last]
    try:
        shared = w.make_parts(a, o.function, data)
        x, y = finish(stepper(a, shared, 'a'), stepper(b, shared, 'b'))
        ax, = finish(stepper(a, w.make_parts(a, o.function, data), 'a'))
        by, = finish(stepper(b, w.make_parts(b, o.function, data), 'b'))
        obs.check(x == ax and y == by, lambda: 'two interleaved runs sharing their parts differ from the same runs alone (%s, %s, %s; genes %r and %r)' % (a['sel'], a['cross'], a['mut'], a['gens'], b['gens']))
    finally:
        core.TAP.limit = None
        w.generator.rnd_seed = None
