"""C02 records are consistent with the objective function: every individual after every generation is recomputed."""
import world as w

CASES = {'quick': 4400, 'thorough': 30000}
CHUNK = 12
RULE = 'distinct (run shape, return type, feasible/infeasible mix, generation class) among runs whose records were recomputed'
REQUIRED = ['individuals_checked', 'carried_over_individuals', 'infeasible_individuals', 'feasible_constrained_individuals',
            'multi_individuals', 'zero_target_individuals', 'gray_individuals', 'ffga_scores', 'tiny_violations']


def gen_case(rng, idx, tier):
    return w.gen_run(rng, tier, algo=w.pick(rng, ['single'] * 4 + ['vega', 'ffga']),
                     constrained=rng.random() < 0.4)


def check_individual(s, i, obs, where, cache):
    gens = w.real_gens(s)
    key = (i.g, i.p, i.score, i.obj, i.feasible, i.rank)
    try:
        if key in cache:
            return True
        cache.add(key)
    except TypeError:
        pass
    obs.add('individuals_checked')
    if s['pop'] in ('bin', 'gray'):
        ref = w.decode(gens, i.g, s['pop'] == 'gray')
        if not obs.check(ref is not None, lambda: '%s: malformed genotype %r' % (where, i.g)):
            return False
        if not obs.check(i.p is not None and w.same_point(gens, i.p, ref), lambda: '%s: genotype %s decodes to %r, phenotype is %r' % (where, ''.join(i.g), ref, i.p)):
            return False
        obs.add('gray_individuals', s['pop'] == 'gray')
        x = list(i.p)
    else:
        if not obs.check(w.in_space(s, list(i.g)) is None, lambda: '%s: genotype %r is not in the space' % (where, i.g)):
            return False
        x = list(i.g)
    vals = w.values_of(s, x)
    ov, cv, signs = w.split(s, vals)
    if s['algo'] == 'single':
        ok = obs.check(i.obj == ov[0], lambda: '%s: objective value %r recorded, the function gives %r at %r' % (where, i.obj, ov[0], x))
    else:
        obs.add('multi_individuals')
        ok = obs.check(i.obj is not None and list(i.obj) == ov, lambda: '%s: objective values %r recorded, the function gives %r at %r' % (where, i.obj, ov, x))
    feas = all(v <= 0 if c == '<=' else v == 0 for v, c in zip(cv, signs))
    ok = obs.check(bool(i.feasible) == feas, lambda: '%s: feasible=%r, constraint values %r for %r' % (where, i.feasible, cv, signs)) and ok
    obs.add('infeasible_individuals', not feas)
    obs.add('tiny_violations', not feas and all(abs(v) < 1e-8 for v, c in zip(cv, signs) if v > 0 or c == '!='))
    obs.add('feasible_constrained_individuals', feas and bool(signs))
    if s['algo'] == 'ffga':
        obs.add('ffga_scores')
        ok = obs.check(isinstance(i.rank, (int, float)) and w.close(i.score, 1 / (1 + i.rank)), lambda: '%s: FFGA score %r for rank %r' % (where, i.score, i.rank)) and ok
    elif feas:
        obs.add('zero_target_individuals', s['target'] == 0 and s['target'] is not None)
        if s['algo'] == 'single':
            ref = w.hyperbola(s['target'], ov[0])
            ok = obs.check(w.close(float(i.score), float(ref), 0), lambda: '%s: score %r, expected %r for value %r and target %r' % (where, i.score, ref, ov[0], s['target'])) and ok
        else:
            ref = [w.hyperbola(None if s['target'] is None else s['target'][j], o) for j, o in enumerate(ov)]
            ok = obs.check(len(i.score) == len(ref) and all(w.close(float(a), float(b), 0) for a, b in zip(i.score, ref)), lambda: '%s: scores %r, expected %r' % (where, i.score, ref)) and ok
    return ok


def run_case(s, obs):
    t = w.run(s)
    cache = set()
    seen = set()
    for g, rec in enumerate(t.gens):
        for i in rec['pop']:
            obs.add('carried_over_individuals', i.oid in seen)
            if not check_individual(s, i, obs, 'generation %d' % g, cache):
                return
        seen = {i.oid for i in rec['pop']}
        best = t.gens[g]['best']
    d = t.result
    reported = [d.best_solution] if s['algo'] == 'single' else d.best_solution['pareto_set']
    for b in reported:
        b = w.Ind(b)
        if s['algo'] == 'ffga':
            b.rank = 1 / b.score - 1 if b.score else None
        if not check_individual(s, b, obs, 'reported best', cache):
            return
    for g, h in enumerate(d.historical_best):
        if s['algo'] != 'single':
            for b in h:
                b = w.Ind(b)
                if s['algo'] == 'ffga':
                    b.rank = 1 / b.score - 1 if b.score else None
                if not check_individual(s, b, obs, 'Pareto set of generation %d' % g, cache):
                    return
    obs.sig(w.shape_sig(s), s['ret'], s['wrap'], min(len(t.gens), 5))
    if s['conds'] and obs.sample is None:
        obs.sample = dict(spec=s, individual=repr(t.gens[-1]['pop'][0])[:300])
