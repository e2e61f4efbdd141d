"""C23 efficacy: easy problems with known optima, success counted over repeated runs against calibrated minimum shares."""
import math
import core
import world as w
import baumeva.ga as ga
from baumeva import BinaryGA, CategoricalGA, CombinatoryGA, VEGA, FFGA, CollectorGA

REPS = {'quick': 30, 'thorough': 200}
RULE = 'distinct (problem, algorithm assembly, seed) solved; a problem passes when the share of successful runs reaches the calibrated minimum'


def sphere(c):
    return lambda x: sum((v - c) ** 2 for v in x)


def words(x):
    return sum(a != b for a, b in zip(x, ['d', 2, 'b', 40, 'a', 1, 'c', 30]))


CATG = (['a', 'b', 'c', 'd'], (0, 5, 1), ['a', 'b', 'c'], (10, 50, 10), ['a', 'z'], (0, 3, 1), ['a', 'b', 'c', 'd', 'e'], (0, 40, 10))


def sortedness(x):
    return sum(i != v for i, v in enumerate(x))


def tour(x):
    return sum(abs(a - b) for a, b in zip(x, x[1:]))


def static(kind):
    iv = [(0, 1), (1, 10), (10, math.inf)]
    if kind == '<=':
        return ga.StaticPenalty({}, {}, {0: iv}, {0: [50, 100, 200]})
    return ga.StaticPenalty({0: iv}, {0: [50, 100, 200]}, {}, {})


def collector(pop, gens, f, sel, cross, mut, n=40, G=80, target=None, storage=ga.GaData, fit=ga.HyperbolaFitness, new=ga.NewGeneration, **kw):
    c = CollectorGA(fitness=fit(obj_function=f, obj_value=target), selection=sel, crossover=cross, mutation=mut, new_generation=new('best'), storage=storage)
    c.set_population(pop, num_individ=n, num_generations=G, gens=gens, early_stop=1000, **kw)
    c.optimize()
    return c.ga_data


def best(d):
    return d.best_solution['obj_score']


def within(v):
    return lambda d: abs(best(d)) <= v


B3 = ((-5, 5, 0.01),) * 3
I3 = ((0, 255, 1),) * 3


def front(lo, hi, tol, share):
    def ok(d):
        xs = [s['phenotype'][0] for s in d.best_solution['pareto_set']]
        return sum(lo - tol <= x <= hi + tol for x in xs) >= share * len(xs) and len(xs) >= 1
    return ok


def schaffer(x):
    return x[0] ** 2, (x[0] - 2) ** 2


def P(name, run, ok, share):
    return dict(name=name, run=run, ok=ok, share=share)


COMMON = dict(is_print=False, early_stop=None)
PROBLEMS = [
    P('binary sphere', lambda: BinaryGA(80, 40, B3, sphere(1.0), **COMMON).optimize(), within(0.3), 0.55),
    P('gray sphere', lambda: BinaryGA(80, 40, B3, sphere(1.0), is_gray=True, **COMMON).optimize(), within(0.05), 0.55),
    P('binary target', lambda: BinaryGA(80, 40, I3, lambda x: sum(x), obj_value=300, **COMMON).optimize(), lambda d: best(d) == 300, 0.55),
    P('binary maximum by target', lambda: BinaryGA(80, 40, I3, lambda x: sum(x), obj_value=765, mutation_lvl=0.05, **COMMON).optimize(), lambda d: best(d) >= 740, 0.55),
    P('binary random transfer', lambda: BinaryGA(80, 40, B3, sphere(-2.0), transfer_parents='random', **COMMON).optimize(), within(0.5), 0.55),
    P('binary linear minimum', lambda: BinaryGA(80, 40, I3, lambda x: sum(x), **COMMON).optimize(), lambda d: best(d) <= 20, 0.55),
    P('binary <= constraint', lambda: BinaryGA(80, 40, I3, lambda x: (-sum(x), x[0] + x[1] - 100), penalty=static('<='), conditions=['optimize', '<='], **COMMON).optimize(),
      lambda d: d.best_solution['feasible'] and best(d) <= -300, 0.55),
    P('binary != constraint', lambda: BinaryGA(80, 40, I3, lambda x: (-x[2], x[0] - x[1]), penalty=static('!='), conditions=['optimize', '!='], **COMMON).optimize(),
      lambda d: d.best_solution['feasible'] and best(d) <= -150, 0.55),
    P('categorical word', lambda: CategoricalGA(60, 40, CATG, words, **COMMON).optimize(), within(0), 0.55),
    P('categorical word by target', lambda: CategoricalGA(60, 40, CATG, words, obj_value=0, **COMMON).optimize(), within(0), 0.55),
    P('combinatory sorting', lambda: CombinatoryGA(150, 60, (0, 6, 7), sortedness, mutation_lvl='strong', **COMMON).optimize(), within(0), 0.55),
    P('combinatory tour', lambda: CombinatoryGA(150, 60, (0, 7, 8), tour, mutation_lvl='strong', **COMMON).optimize(), lambda d: best(d) <= 9, 0.55),
    P('combinatory subset', lambda: CombinatoryGA(120, 60, (0, 20, 5), sum, mutation_lvl='normal', **COMMON).optimize(), lambda d: best(d) <= 30, 0.55),
    P('balanced one-point', lambda: collector(ga.BinaryPopulation, B3, sphere(0.5), ga.BalancedSelection(), ga.OnePointCrossover(), ga.BinStringMutation('normal'), G=120), within(0.3), 0.55),
    P('balanced two-point target', lambda: collector(ga.BinaryPopulation, B3, sphere(0.5), ga.BalancedSelection(), ga.TwoPointCrossover(), ga.BinStringMutation('normal'), target=0), within(0.3), 0.55),
    P('ranked uniform', lambda: collector(ga.BinaryGrayPopulation, B3, sphere(0.5), ga.RankedSelection(), ga.UniformCrossover(), ga.BinStringMutation('normal'), G=120), within(0.3), 0.55),
    P('ranked categorical', lambda: collector(ga.CatPopulation, CATG, words, ga.RankedSelection(), ga.TwoPointCrossover(), ga.CategoricalMutation('normal')), within(0), 0.55),
    P('tournament swap', lambda: collector(ga.OrderCatPopulation, (0, 6, 7), sortedness, ga.TournamentSelection(3), ga.OrderCrossover(), ga.SwapMutation(0.3), n=60, G=150), within(0), 0.55),
    P('tournament inversion', lambda: collector(ga.OrderCatPopulation, (0, 7, 8), tour, ga.TournamentSelection(3), ga.OrderCrossover(), ga.InversionMutation(0.3), n=60, G=150), lambda d: best(d) <= 9, 0.55),
    P('tournament shift', lambda: collector(ga.OrderCatPopulation, (0, 6, 7), sortedness, ga.TournamentSelection(3), ga.OrderCrossover(), ga.ShiftMutation(0.3), n=60, G=150), within(0), 0.55),
    P('VEGA Schaffer', lambda: VEGA(40, 30, ((-10, 10, 0.01),), schaffer, **COMMON).optimize(), front(0, 2, 0.3, 0.8), 0.55),
    P('VEGA targets', lambda: VEGA(40, 30, ((-10, 10, 0.01),), schaffer, obj_value=[0, 0], **COMMON).optimize(), front(0, 2, 0.3, 0.8), 0.55),
    P('FFGA Schaffer', lambda: FFGA(15, 24, ((-10, 10, 0.01),), schaffer, **COMMON).optimize(), front(0, 2, 0.3, 0.9), 0.55),
    P('FFGA spread', lambda: FFGA(15, 24, ((-10, 10, 0.01),), schaffer, is_gray=True, **COMMON).optimize(), lambda d: len(d.best_solution['pareto_set']) >= 8, 0.55),
]
FIXED = len(PROBLEMS) * 3
CASES = {'quick': FIXED + 160, 'thorough': FIXED + 1600}
PER = 5         # random problems per case
MIN_SHARE = 0.85        # below every share calibrated on the unchanged tree (0.90 to 1.0)
CHUNK = 1
SECONDS, JUMPS = 300, 10 ** 9
REQUIRED = ['runs', 'successes', 'random_problems', 'features_judged'] + ['solved ' + p['name'] for p in PROBLEMS]
ASSUMPTIONS = ['the minimum shares were calibrated on the unchanged tree, where every share is far higher; a run of bad luck of that size has a chance below 1e-9']


GENES = [[0, 255, 1], [-5, 5, 0.01], [-100, 100, 0.1], [0, 1, 0.001], [1000, 2000, 1], [-9, -1, 0.05], [0, 65535, 1], [-0.3, 0.7, 0.01], [0, 15, 1], [3, 250, 1], [-2, 2, 1e-6], [0, 1000000, 1]]


def random_problem(rng):
    """A separable problem with a random optimum, and the features under which its outcome is counted."""
    pop = w.pick(rng, ['bin', 'gray', 'cat', 'order'])
    r = dict(pop=pop, n=w.pick(rng, [36, 50, 41]), G=w.pick(rng, [70, 90]), transfer=w.pick(rng, ['best', 'best', 'random']), seed=w.pick(rng, [None, 0, rng.getrandbits(16)]),
             form=w.pick(rng, ['min', 'target', 'target0', 'negative']), data=rng.random() < 0.3, cp=w.pick(rng, [0.95, 0.9, 0.8]), con=None, ipop=rng.random() < 0.2)
    if pop in ('bin', 'gray'):
        k = w.pick(rng, [1, 2, 3, 4])
        r['gens'] = [list(w.pick(rng, GENES)) for _ in range(k)]
        r['opt'] = [w.pick(rng, [g[0], g[1], rng.uniform(g[0], g[1])]) for g in r['gens']]
        r['sel'] = w.pick(rng, ['class', 'class', 'tour', 'bal', 'rank'])
        r['cross'] = w.pick(rng, ['one', 'two', 'uni'])
        r['mut'] = 'bit'
        r['lvl'] = w.pick(rng, ['normal', 'normal', 'strong', 'weak'])
    elif pop == 'cat':
        k = w.pick(rng, [3, 5, 8])
        r['gens'] = [w.pick(rng, [{'r': [0, 5, 1]}, {'r': [10, 50, 10]}, {'l': ['a', 'b', 'c', 'd']}, {'l': [None, 'x', 3]}, {'r': [-4, 4, 2]}]) for _ in range(k)]
        r['opt'] = [w.pick(rng, w.cat_options(tuple(g['r']) if 'r' in g else g['l'])) for g in r['gens']]
        r['sel'] = w.pick(rng, ['class', 'class', 'tour', 'bal', 'rank'])
        r['cross'] = w.pick(rng, ['one', 'two', 'uni'])
        r['mut'] = 'cat'
        r['lvl'] = w.pick(rng, ['normal', 'normal', 'strong'])
    else:
        L = w.pick(rng, [5, 6, 7])
        a = w.pick(rng, [0, 1, -3])
        r['gens'] = [a, a + L - 1 + w.pick(rng, [0, 0, 3]), L]
        r['opt'] = rng.sample(range(r['gens'][0], r['gens'][1] + 1), L)
        r['sel'] = w.pick(rng, ['class', 'class', 'tour', 'rank'])
        r['cross'] = 'ord'
        r['mut'] = w.pick(rng, ['swap', 'inv', 'move', 'shift'])
        r['lvl'] = w.pick(rng, ['strong', 0.4])
        r['n'], r['G'] = 60, 150
    if r['sel'] == 'class':
        r['cross'], r['mut'] = {'bin': ('one', 'bit'), 'gray': ('one', 'bit'), 'cat': ('uni', 'cat'), 'order': ('ord', 'move')}[pop]
        if pop in ('bin', 'gray') and rng.random() < 0.3:
            r['con'] = w.pick(rng, ['<=', '!='])
    return r


def gap(r, x):
    """Distance from the optimum, scaled to about [0, 1] per gene (independent of the code under test)."""
    if r['pop'] in ('bin', 'gray'):
        return sum(abs(v - o) / (g[1] - g[0]) for v, o, g in zip(x, r['opt'], r['gens']))
    if r['pop'] == 'cat':
        return sum(not w.same_value(v, o) for v, o in zip(x, r['opt']))
    return sum(v != o for v, o in zip(x, r['opt']))


def solve(r):
    gens = w.real_gens(r)
    scale = 10.0
    base, target = {'min': (0.0, None), 'target': (25.0, 25.0), 'target0': (0.0, 0), 'negative': (-70.0, None)}[r['form']]
    # a constraint that is violated for values far from the optimum only
    def f(*a):
        v = base + scale * gap(r, a[-1])
        if r['con'] == '<=':
            return v, gap(r, a[-1]) - 0.4
        if r['con'] == '!=':
            return v, max(0.0, gap(r, a[-1]) - 0.3)
        return v
    data = [1, 2, 3] if r['data'] else None
    pen, conds = (static(r['con']), ['optimize', r['con']]) if r['con'] else (None, None)
    ipop = None
    if r['ipop']:
        s = dict(pop=r['pop'], gens=r['gens'])
        import random
        rg = random.Random(repr(r['opt']))
        ipop = [w.random_point(rg, s) for _ in range(3)]
    kw = dict(obj_function=f, obj_value=target, input_data=data, penalty=pen, conditions=conds)
    if r['sel'] == 'class':
        cls = {'cat': CategoricalGA, 'order': CombinatoryGA}.get(r['pop'], BinaryGA)
        if cls is BinaryGA:
            kw['is_gray'] = r['pop'] == 'gray'
        return cls(num_generations=r['G'], num_individ=r['n'], gens=gens, children_percent=r['cp'], early_stop=None, input_population=ipop, mutation_lvl=r['lvl'], transfer_parents=r['transfer'],
                   is_print=False, **kw).optimize()
    c = CollectorGA(fitness=ga.HyperbolaFitness(**kw), selection={'tour': ga.TournamentSelection, 'bal': ga.BalancedSelection, 'rank': ga.RankedSelection}[r['sel']](),
                    crossover=getattr(ga, w.CROSS[r['cross']])(), mutation=getattr(ga, w.MUT[r['mut']])(r['lvl']), new_generation=ga.NewGeneration(r['transfer']))
    c.set_population(getattr(ga, w.POPS[r['pop']]), num_individ=r['n'], num_generations=r['G'], gens=gens, input_population=ipop, children_percent=r['cp'], early_stop=1000)
    c.optimize()
    return c.ga_data


def features(r):
    out = [(k, r[k]) for k in ('pop', 'transfer', 'form', 'data', 'cp', 'sel', 'cross', 'mut', 'con', 'ipop')]
    out += [('pop+sel', r['pop'], r['sel']), ('pop+cross', r['pop'], r['cross']), ('pop+lvl', r['pop'], r['lvl']), ('pop+form', r['pop'], r['form']), ('seeded', r['seed'] is not None)]
    if r['pop'] in ('bin', 'gray'):
        out += [('genes', len(r['gens'])), ('wide', r['pop'], any(w.grid(g)[0] > 12 for g in r['gens'])), ('at edge', any(o in (g[0], g[1]) for o, g in zip(r['opt'], r['gens']))),
                ('negative range', any(g[0] < 0 for g in r['gens']))]
    return ['f:' + '/'.join(map(str, f)) for f in out]


def random_case(case, obs):
    core.reset_tap(case['entropy'], 'plain', None)
    for r in case['runs']:
        w.generator.rnd_seed = r['seed']
        core.TAP.draws = 0
        core.TAP.limit = 10 ** 8
        try:
            with core.quiet():
                d = solve(r)
        finally:
            w.generator.rnd_seed = None
            core.TAP.limit = None
        b = d.best_solution
        x = b.get('phenotype', b['genotype'])
        g = gap(r, x)
        tol = {'bin': 0.08 * len(r['gens']), 'gray': 0.05 * len(r['gens']), 'cat': 0, 'order': 0}[r['pop']]
        if r['pop'] in ('bin', 'gray'):
            tol += sum(0.5 / w.grid(q)[1] for q in r['gens'])
        ok = g <= tol and (b['feasible'] or not r['con'])
        obs.add('random_problems')
        obs.add('random_problems_solved', ok)
        for f in features(r):
            obs.add('_n ' + f)
            obs.add('_k ' + f, ok)
        obs.sig(tuple(features(r)))


def gen_case(rng, idx, tier):
    if idx >= FIXED:
        return dict(problem=None, runs=[random_problem(rng) for _ in range(PER)], entropy='%x' % rng.getrandbits(40))
    return dict(problem=PROBLEMS[idx % len(PROBLEMS)]['name'], reps=REPS[tier] // 3, entropy='%x' % rng.getrandbits(40), seed=rng.getrandbits(20) if idx >= len(PROBLEMS) else None)


def run_case(case, obs):
    if case['problem'] is None:
        return random_case(case, obs)
    p = next(x for x in PROBLEMS if x['name'] == case['problem'])
    good = 0
    core.reset_tap(case['entropy'], 'plain', None)
    for r in range(case['reps']):
        w.generator.rnd_seed = None if case['seed'] is None else case['seed'] + r
        core.TAP.draws = 0
        core.TAP.limit = 10 ** 8
        try:
            with core.quiet():
                d = p['run']()
        finally:
            w.generator.rnd_seed = None
            core.TAP.limit = None
        obs.add('runs')
        obs.sig(p['name'], r, case['seed'])
        if p['ok'](d):
            good += 1
    obs.add('successes', good)
    obs.add('solved ' + p['name'], good)
    obs.add('_runs ' + p['name'], case['reps'])
    if obs.sample is None:
        obs.sample = dict(problem=p['name'], runs=case['reps'], solved=good)


def finish(total, obs, tier):
    for key in sorted(total):
        if key.startswith('_n '):
            n, k = total[key], total.get('_k ' + key[3:], 0)
            obs.add('features_judged')
            obs.check(w.rate_ok(k, n, MIN_SHARE, 1.0), 'random easy problems with %s: solved in %d of %d runs, a share of at least %.2f expected' % (key[5:], k, n, MIN_SHARE))
    for p in PROBLEMS:
        n, k = total.get('_runs ' + p['name'], 0), total.get('solved ' + p['name'], 0)
        obs.check(k >= p['share'] * n, '%s: solved in %d of %d runs, at least %d%% expected' % (p['name'], k, n, 100 * p['share']))
