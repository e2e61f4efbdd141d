"""C16 Pareto ranks and sets: recomputed by the definition for every generation of runs and for table-valued populations."""
import core
import world as w
import parts
import baumeva.ga as ga

CASES = {'quick': 6000, 'thorough': 40000}
CHUNK = 8
RULE = 'distinct (run shape or table shape, number of objectives, rank profile class) whose ranks and Pareto sets were recomputed'
REQUIRED = ['ranks_recomputed', 'pareto_sets_recomputed', 'equal_vectors', 'fronts_of_one', 'fronts_over_three', 'history_entries_reread', 'kept_sets_compared', 'constrained_ranks', 'table_populations',
            'ranks_over_three', 'one_objective_cases', 'four_objective_cases', 'unchanged_fronts', 'aliased_records', 'late_states']


def gen_case(rng, idx, tier):
    if idx % 3 == 2:
        n = w.pick(rng, [3, 4, 6, 9, 15, 25])
        k = w.pick(rng, [1, 2, 2, 3, 4])
        vals = w.pick(rng, [[0, 1], [0, 1, 2], [-1, 0, 1, 5], [0.1, 0.2, 0.30000000000000004, 0.3], [float(i) for i in range(20)], [1e-300, 0.0, -1e-300, 1e300],
                            [0, 0.0, -0.0, 1]])
        tab = [[w.pick(rng, vals) for _ in range(k)] for _ in range(n)]
        if rng.random() < 0.3:
            tab[-1] = list(tab[0])
        if rng.random() < 0.15:
            tab = [list(tab[0])] * n
        if rng.random() < 0.15:         # a chain
            tab = [[float(i)] * k for i in range(n)]
            rng.shuffle(tab)
        return dict(type='table', tab=tab, algo=w.pick(rng, ['vega', 'ffga']), alias=rng.random() < 0.2, entropy='%x' % rng.getrandbits(40), ret=w.pick(rng, ['tuple', 'list']))
    s = w.gen_run(rng, tier, algo=w.pick(rng, ['vega', 'ffga']), max_n=16, max_G=10)
    if rng.random() < 0.4:
        s['early'] = 1000
    return dict(type='run', spec=s)


def ranks_of(vecs):
    return [1 + sum(w.dominates(q, p) for q in vecs) for p in vecs]


FIELDS = ('genotype', 'phenotype', 'obj_score', 'score', 'rank', 'feasible')


def full(entry):
    """All documented fields of the solutions of a recorded Pareto set (frozen or live)."""
    out = []
    for x in entry:
        d = dict(x)
        out.append(tuple((k, w.freeze(d.get(k))) for k in FIELDS))
    return sorted(out, key=repr)


def describe(ind):
    return (tuple(ind['genotype']), tuple(ind['obj_score']))


def check_population(pop, vec, obs, where):
    """pop: Ind list, vec: genotype/point -> full vector; returns the reference ranks."""
    vecs = [tuple(vec(i)) for i in pop]
    ref = ranks_of(vecs)
    obs.add('ranks_recomputed', len(pop))
    obs.add('equal_vectors', len(set(vecs)) < len(vecs))
    obs.add('ranks_over_three', max(ref) > 3)
    front = sum(r == 1 for r in ref)
    obs.add('fronts_of_one', front == 1)
    obs.add('fronts_over_three', front > 3)
    for i, v, r in zip(pop, vecs, ref):
        if not obs.check(i.rank == r, lambda: '%s: individual with values %r has rank %r, %d individuals dominate it' % (where, v, i.rank, r - 1)):
            return None
    return ref


def run_case(case, obs):
    if case['type'] == 'table':
        return table(case, obs)
    s = case['spec']
    t = w.run(s, light=True)
    k = w.num_objectives(s)
    obs.add('one_objective_cases', k == 1)
    obs.add('four_objective_cases', k == 4)
    expected = []

    def vec(i):
        return w.values_of(s, list(i.point()))
    prev = None
    for g, rec in enumerate(t.gens):
        ref = check_population(rec['pop'], vec, obs, 'generation %d' % g)
        if ref is None:
            return
        obs.add('constrained_ranks', bool(s['conds']))
        obs.add('aliased_records', len({i.oid for i in rec['pop']}) < len(rec['pop']))
        front = {(i.g, tuple(w.split(s, vec(i))[0])) for i, r in zip(rec['pop'], ref) if r == 1}
        expected.append(front)
        shown = [(dict(x)['genotype'], dict(x)['obj_score']) for x in dict(rec['best'])['pareto_set']]
        obs.add('pareto_sets_recomputed')
        obs.add('unchanged_fronts', front == prev)
        prev = front
        if not obs.check(set(shown) == front, lambda: 'generation %d: reported Pareto set %s, rank 1 of the population is %s' % (g, sorted(map(repr, shown))[:6], sorted(map(repr, front))[:6])):
            return
    d = t.result
    if not obs.check(len(d.historical_best) == len(expected), 'one Pareto set per generation expected'):
        return
    for g, (h, e) in enumerate(zip(d.historical_best, expected)):
        obs.add('history_entries_reread')
        if not obs.check({describe(x) for x in h} == e, lambda: 'Pareto set recorded for generation %d reads differently after the run' % g):
            return
        was, now = full(t.gens[g]['hb']), full(h)
        if not obs.check(was == now, lambda: 'the solutions recorded for generation %d changed afterwards: %r became %r' % (g, [a for a in was if a not in now][:2], [a for a in now if a not in was][:2])):
            return
    obs.check({describe(x) for x in d.best_solution['pareto_set']} == expected[-1], 'the returned Pareto set is not that of the last generation')
    # the set kept as best is not changed by what happens to the population later
    kept = [full(h) for h in d.historical_best if {tuple(x['genotype']) for x in h} == {tuple(x['genotype']) for x in d.best_solution['pareto_set']}]
    obs.add('kept_sets_compared', len(kept) > 1)
    obs.check(full(d.best_solution['pareto_set']) in kept, lambda: 'the solutions of the returned Pareto set are recorded in no generation as they are now: %r' % (full(d.best_solution['pareto_set'])[:2],))
    if s.get('print') or s['mode'] == 'collector':
        if s['mode'] != 'modular':
            miss = [x for x in d.best_solution['pareto_set'] if repr(x['obj_score']) not in t.stdout]
            obs.check(not miss, lambda: 'a solution of the Pareto set is not printed: %r' % (miss[0]['obj_score'],))
    obs.sig(w.shape_sig(s), k, min(len(expected[-1]), 5))
    if obs.sample is None:
        obs.sample = dict(spec=s, front_sizes=[len(e) for e in expected])


def table(case, obs):
    tab = case['tab']
    n, k = len(tab), len(tab[0])
    genos = [[i] for i in range(n)]
    core.reset_tap(case['entropy'])

    def f(x):
        v = tab[x[0]]
        return list(v) if case['ret'] == 'list' else tuple(v)
    pop = parts.population('cat', genos, gens=((0, n, 1),))
    if case['alias']:
        pop.append(pop[n // 2])
        obs.add('aliased_records')
    d = parts.data(pop, multi=True)
    obs.add('late_states', parts.later(d, int(case['entropy'][:4], 16), best=False) > 0)
    fit = (ga.VEGAHyperbolaFitness if case['algo'] == 'vega' else ga.FFGAFitness)(obj_function=f)
    vec = lambda i: tab[i.g[0]]
    for rnd in range(2):
        fit.execute(d)
        obs.add('table_populations')
        obs.add('one_objective_cases', k == 1)
        obs.add('four_objective_cases', k == 4)
        snap = w.snap(d.population)
        if not case['alias']:
            if check_population(snap, vec, obs, '%s table %r' % (case['algo'], tab)) is None:
                return
        d.update()
        vecs = [tuple(tab[i.g[0]]) for i in snap]
        # a record that occurs twice counts as often for the others; it never dominates itself
        ref = ranks_of(vecs)
        front = {(i.g, v) for i, v, r in zip(snap, vecs, ref) if r == 1}
        obs.add('pareto_sets_recomputed')
        if not obs.check({describe(x) for x in d.best_solution['pareto_set']} == front, lambda: '%s table %r: Pareto set %r, expected %r' % (case['algo'], tab, [describe(x) for x in d.best_solution['pareto_set']], sorted(front))):
            return
        obs.check({describe(x) for x in d.historical_best[rnd]} == front, 'recorded Pareto set differs from the reported one')
        d.population.is_sorted = False
        obs.add('history_entries_reread')
    obs.sig('table', case['algo'], n, k, tuple(sorted(ref)))
