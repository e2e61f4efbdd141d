"""C13 penalties: the penalty is recovered from the scores the fitness part assigns and compared with the documented formula."""
import math
import core
import world as w
import parts
import baumeva.ga as ga

CASES = {'quick': 7800, 'thorough': 30000}
CHUNK = 16
RULE = 'distinct (penalty kind and parameters, signs, position of the optimized value, generation, which constraints are violated)'
REQUIRED = ['scores_dynamic', 'scores_adaptive', 'scores_static', 'feasible_scores', 'violated_eq', 'violated_le', 'two_violations', 'generation_over_0',
            'multi_scores', 'reused_object_executions', 'run_scores', 'interval_borders', 'target_scores', 'best_infeasible_adaptive', 'best_feasible_adaptive', 'optimized_value_not_first', 'tiny_violations', 'infinite_violations', 'many_constraints']


def gen_case(rng, idx, tier):
    if idx % 4 == 3:
        s = w.gen_run(rng, tier, algo=w.pick(rng, ['single', 'single', 'vega']), constrained=True, max_n=30, max_G=20, inf=True)
        return dict(type='run', spec=s)
    nobj = w.pick(rng, [0, 0, 0, 1, 2, 3])
    conds = w.gen_conditions(rng, max(1, nobj), rng.random() < 0.1)
    signs = [c for c in conds if c != 'optimize']
    p = w.gen_penalty(rng, signs)
    rounds = []
    for _ in range(w.pick(rng, [1, 2, 4])):
        rows = []
        for _ in range(rng.randrange(1, 9)):
            row = []
            for c in conds:
                if c == 'optimize':
                    row.append(w.pick(rng, [0.0, 1.0, -3.5, 1000.0, round(rng.uniform(-10, 10), 3), 7]))
                else:
                    row.append(w.pick(rng, [0, 0.0, -1.0, -0.001, 0.5, 1, 2, 3.0, 10.0, -10.0, 40, 150.0, round(rng.uniform(-5, 5), 3), 1e-6, 5.5e-17, 1e-12, -1e-12, 2.5e7, math.inf]))
            rows.append(row)
        rounds.append(dict(g=w.pick(rng, [0, 1, 1, 2, 3, 10, 57, 300, 5000]), best=rng.random() < 0.5, rows=rows))
    t = w.pick(rng, [None, None, 0, 5.5, -2]) if not nobj else (None if rng.random() < 0.5 else [w.pick(rng, [0, 1, -4.5]) for _ in range(nobj)])
    return dict(type='direct', nobj=nobj, conds=conds, penalty=p, rounds=rounds, target=t, entropy='%x' % rng.getrandbits(40))


def judge(obs, p, conds, row, g, best, target, score, feasible, where):
    """score: number, or tuple for several objectives."""
    opt = [v for v, c in zip(row, conds) if c == 'optimize']
    cv = [v for v, c in zip(row, conds) if c != 'optimize']
    signs = [c for c in conds if c != 'optimize']
    viol = w.violations(signs, cv)
    multi = isinstance(score, tuple)
    targets = list(target) if multi and target is not None else [target] * len(opt)
    scores = list(score) if multi else [score]
    if not obs.check(len(scores) == len(opt), lambda: '%s: %d scores for %d objectives' % (where, len(scores), len(opt))):
        return False
    bad = any(v > 0 for v in viol)
    obs.add('scores_' + p['kind'])
    obs.add('feasible_scores', not bad)
    obs.add('violated_eq', any(v > 0 and c == '!=' for v, c in zip(viol, signs)))
    obs.add('violated_le', any(v > 0 and c == '<=' for v, c in zip(viol, signs)))
    obs.add('two_violations', sum(v > 0 for v in viol) > 1)
    obs.add('generation_over_0', g > 0)
    obs.add('tiny_violations', any(0 < v < 1e-9 for v in viol))
    obs.add('infinite_violations', math.inf in viol)
    obs.add('many_constraints', len(viol) > 3)
    obs.add('multi_scores', multi)
    obs.add('target_scores', target is not None)
    obs.add('optimized_value_not_first', conds[0] != 'optimize')
    if p['kind'] == 'adaptive' and g > 0:
        obs.add('best_feasible_adaptive' if best else 'best_infeasible_adaptive')
    if p['kind'] == 'static':
        obs.add('interval_borders', any(v > 0 and any(v == e for iv in tab['iv'] for e in iv) for v, tab in zip(viol, p['tables'])))
    if not obs.check(bool(feasible) == (not bad), lambda: '%s: feasible=%r with violations %r' % (where, feasible, viol)):
        return False
    options = w.penalty_options(p, signs, cv, g, best)
    if g == 0 and bad and p['kind'] in ('dynamic', 'adaptive'):
        # the documented formulas give no penalty in the first generation; the property asks for a positive one
        if all(w.close(float(s), float(w.hyperbola(t, o)), 0) for s, t, o in zip(scores, targets, opt)):
            obs.findings.append(('no-penalty-in-generation-0', '%s penalty 0 for violations %r in generation 0' % (p['kind'], viol)))
            return True
        return obs.check(all(s < w.hyperbola(t, o) for s, t, o in zip(scores, targets, opt)), lambda: '%s: infeasible individual of generation 0 scores %r, better than without violation' % (where, scores))
    ok = any(all(near(s, t, o, pen) for s, t, o in zip(scores, targets, opt)) for pen in options)
    return obs.check(ok, lambda: '%s: %s penalty, signs %r, values %r, generation %d, best feasible %r: score %r, expected one of %r' % (
        where, p['kind'], signs, cv, g, best, scores, [[w.hyperbola(t, o, pen) for t, o in zip(targets, opt)] for pen in options][:3]))


def near(s, t, o, pen):
    ref = w.hyperbola(t, o, pen)
    return abs(s - ref) <= 1e-9 * max(abs(s), abs(ref), abs(pen) if t is None else 0, abs(o) if t is None else 0) or s == ref


def direct(s, obs):
    core.reset_tap(s['entropy'])
    multi = s['nobj'] > 0
    table = {}

    def f(x):
        return list(table[x[0]])
    pen = w.make_penalty(s['penalty'])
    cls = ga.VEGAHyperbolaFitness if multi else ga.HyperbolaFitness
    fit = cls(obj_function=f, obj_value=s['target'], penalty=pen, conditions=list(s['conds']))
    key = 0
    for r, rd in enumerate(s['rounds']):
        obs.add('reused_object_executions', r > 0)
        genos = []
        for row in rd['rows']:
            table[key] = row
            genos.append([key, 'x'])
            key += 1
        pop = parts.population('cat', genos, None, gens=(list(range(key)), ['x']))
        d = parts.data(pop, multi=multi)
        d.idx_generation = rd['g']
        if rd['g'] > 0:
            d.best_solution = dict(feasible=rd['best'], score=0.0, genotype=[0, 'x'], obj_score=0.0)
            if multi:
                d.best_solution = dict(pareto_set=[dict(genotype=[0, 'x'], feasible=rd['best'], score=[0.0], obj_score=[0.0])], idx_generation=0)
        fit.execute(d)
        for ind, row in zip(sorted(pop, key=lambda i: i['genotype'][0]), rd['rows']):
            i = w.Ind(ind)
            if not judge(obs, s['penalty'], s['conds'], row, rd['g'], rd['best'], s['target'], i.score, i.feasible, 'round %d' % r):
                return
            if multi and not obs.check(list(i.obj) == [v for v, c in zip(row, s['conds']) if c == 'optimize'], lambda: 'objective values %r recorded for %r' % (i.obj, row)):
                return
            if not multi and not obs.check(i.obj == [v for v, c in zip(row, s['conds']) if c == 'optimize'][0], lambda: 'objective value %r recorded for %r' % (i.obj, row)):
                return
            obs.sig(s['penalty']['kind'], tuple(s['conds']), min(rd['g'], 4), tuple(v > 0 for v in w.violations([c for c in s['conds'] if c != 'optimize'], [v for v, c in zip(row, s['conds']) if c != 'optimize'])), s['target'] is None)
    if obs.sample is None:
        obs.sample = dict(case=s, last_scores=[repr(i['score']) for i in pop])


def run_case(case, obs):
    if case['type'] == 'direct':
        return direct(case, obs)
    s = case['spec']
    t = w.run(s)
    for g, rec in enumerate(t.gens):
        e = rec['fitness']
        new = {i.oid for i in e['before'] if i.score is None}
        best = None
        if g > 0:
            b = dict(t.gens[g - 1]['best'])
            best = bool(b['feasible']) if s['algo'] == 'single' else any(dict(i)['feasible'] for i in b['pareto_set'])
        for i in e['after']:
            if i.oid in new:
                obs.add('run_scores')
                row = w.values_of(s, list(i.point()))
                if not judge(obs, s['penalty'], s['conds'], row, g, best, s['target'], i.score, i.feasible, 'generation %d' % g):
                    return
    obs.sig('run', s['penalty']['kind'], tuple(s['conds']), s['algo'], len(t.gens) > 1)
