"""C25 printed reports and averages: parsed and compared with the observed history; reading them changes nothing."""
import math
import re

import core
import world as w

CASES = {'quick': 1500, 'thorough': 20000}
CHUNK = 10
RULE = 'distinct (run shape, printed or not, number of generations, generation of the best, size of the reported set) whose report was read'
REQUIRED = ['reports_read', 'reports_at_end', 'reports_during_runs', 'silent_runs', 'single_reports', 'multi_reports', 'phenotype_reports', 'genotype_reports', 'infeasible_bests',
            'averages_checked', 'vega_averages', 'best_not_from_last_generation', 'early_stopped_reports', 'runs_undisturbed_by_reading', 'collector_reports', 'class_reports', 'pareto_sets_of_several',
            'reports_of_repeated_calls']


def gen_case(rng, idx, tier):
    algo = w.pick(rng, ['single'] * 4 + ['vega', 'ffga'])
    s = w.gen_run(rng, tier, algo=algo, max_n=16, max_G=12, constrained=rng.random() < 0.35, size=w.pick(rng, ['s', 'm', 'm', 'l']))
    if s['mode'] == 'class':
        s['print'] = rng.random() < 0.6
    s['watch'] = s['mode'] == 'modular'
    return dict(spec=s)


def frozen(d):
    pops = [None if p is None else [sorted((k, repr(w.freeze(v))) for k, v in i.items()) for i in p] for p in (d.population, d.parents, d.children)]
    return core.digest([pops, repr(w.freeze(d.best_solution)), repr(w.freeze(d.historical_best)), repr(w.freeze(d.historical_mediocre)), repr(w.freeze(d.historical_worst)),
                        d.idx_generation, d.num_generation_no_improve, d.num_generations, d.early_stop, d.children_percent])


def text_of(d):
    with core.quiet() as out:
        d.print_best_solution()
    return out.getvalue()


def labelled(text, label):
    m = re.findall(r'(?im)^[ \t]*%s[ \t]*:[ \t]*(.*)$' % re.escape(label), text)
    return m


def shown(value, texts):
    """Is the value shown (as Python writes it) in one of the texts?"""
    return any(str(value) == t.strip() for t in texts)


def check_text(s, text, d, ngens, obs, what):
    """The text shows the last generation made and the best solution of the run data."""
    obs.add('reports_read')
    gens = labelled(text, 'index generation')
    best = d.best_solution
    if not obs.check(gens == [str(ngens - 1), str(best['idx_generation'])], lambda: '%s: %d generations made, best found in generation %r, the report says %r' % (what, ngens, best['idx_generation'], gens)):
        return
    if s['algo'] == 'single':
        obs.add('single_reports')
        obs.add('infeasible_bests', not best['feasible'])
        obs.check(shown(best['genotype'], labelled(text, 'genotype')), lambda: '%s: genotype %r is not in the report' % (what, best['genotype']))
        ph = labelled(text, 'phenotype')
        if s['pop'] in ('bin', 'gray'):
            obs.add('phenotype_reports')
            obs.check(shown(best['phenotype'], ph), lambda: '%s: phenotype %r is not in the report %r' % (what, best['phenotype'], ph))
        else:
            obs.add('genotype_reports')
        obs.check(shown(best['score'], labelled(text, 'fitness score')), lambda: '%s: score %r, reported %r' % (what, best['score'], labelled(text, 'fitness score')))
        obs.check(shown(best['obj_score'], labelled(text, 'objective score')), lambda: '%s: objective value %r, reported %r' % (what, best['obj_score'], labelled(text, 'objective score')))
        obs.check(shown(best['feasible'], labelled(text, 'feasible region')), lambda: '%s: feasible %r, reported %r' % (what, best['feasible'], labelled(text, 'feasible region')))
    else:
        obs.add('multi_reports')
        ps = best['pareto_set']
        obs.add('pareto_sets_of_several', len(ps) > 1)
        label = 'phenotype' if s['pop'] in ('bin', 'gray') else 'genotype'
        lines = [l.strip() for l in text.splitlines()]
        heads = [i for i, l in enumerate(lines) if l.lower() in (label + 's:', 'objective scores:')]
        if not obs.check(len(heads) == 2, lambda: '%s: the report does not list points and objective values: %r' % (what, text[:300])):
            return
        pts, vals = lines[heads[0] + 1:heads[1]], lines[heads[1] + 1:]
        vals = [v for v in vals if v]
        obs.check(pts == [str(i[label]) for i in ps], lambda: '%s: the reported points are not those of the Pareto set (%d of %d)' % (what, len(pts), len(ps)))
        obs.check(vals[:len(ps)] == [str(i['obj_score']) for i in ps] and len(vals) == len(ps), lambda: '%s: the reported objective values are not those of the Pareto set' % what)


def check_truth(s, gens, d, obs, what):
    """The best solution shown is the one of the observed history."""
    best = d.best_solution
    if s['algo'] != 'single':
        return
    top = max(i.score for g in gens for i in g['pop'])
    first = next(k for k, g in enumerate(gens) if any(i.score == top for i in g['pop']))
    obs.check(best['score'] == top and best['idx_generation'] == first, lambda: '%s: best score %r from generation %d, reported %r from generation %r' % (what, top, first, best['score'], best['idx_generation']))
    obs.check(any(i.g == tuple(best['genotype']) and i.score == top and i.obj == best['obj_score'] and i.feasible == best['feasible'] for i in gens[first]['pop']),
              lambda: '%s: the reported best is not an individual of generation %d' % (what, first))
    obs.add('best_not_from_last_generation', first < len(gens) - 1)


def check_average(s, d, obs, what):
    scores = [i['score'] for i in d.population]
    before = frozen(d)
    avg = d.get_avg_score()
    obs.check(frozen(d) == before, lambda: '%s: asking for the average score changed the run data' % what)
    obs.add('averages_checked')
    cols = list(zip(*scores)) if isinstance(scores[0], (list, tuple)) else [scores]
    got = list(avg) if isinstance(scores[0], (list, tuple)) else [avg]
    obs.add('vega_averages', isinstance(scores[0], (list, tuple)))
    if not obs.check(len(got) == len(cols), lambda: '%s: %d averages for %d objectives' % (what, len(got), len(cols))):
        return
    for a, c in zip(got, cols):
        if any(math.isinf(v) for v in c):
            obs.check(a == -math.inf, lambda: '%s: average score %r with a score of minus infinity' % (what, a))
            obs.add('infinite_averages')
            continue
        ref = math.fsum(c) / len(c)
        tol = 1e-9 * max(abs(float(v)) for v in c) + 1e-300
        obs.check(abs(float(a) - ref) <= tol, lambda: '%s: average score %r, expected %r' % (what, a, ref))


def check_read(s, d, ngens, gens, obs, what):
    before = frozen(d)
    text = text_of(d)
    obs.check(frozen(d) == before, lambda: '%s: printing the report changed the run data' % what)
    check_text(s, text, d, ngens, obs, what)
    if gens is not None:
        check_truth(s, gens, d, obs, what)
    check_average(s, d, obs, what)
    return text


def pops(t):
    return core.digest([[(i.g, i.p, i.score, i.obj, i.feasible) for i in g['pop']] for g in t.gens] + [t.obj.calls])


def watched(s, obs, what):
    """A modular run whose report and average are read after every generation."""
    t = w.Trace()
    t.light = True
    data = w.input_object(s.get('input_data'))
    t.obj = w.Objective(s, data, limit=w.call_limit(s))
    w.generator.rnd_seed = s.get('seed')
    core.reset_tap(s['entropy'], s.get('rng', 'plain'), w.draw_limit(s))
    try:
        with w.recording(t), core.quiet() as out:
            parts = w.make_parts(s, t.obj.function, data)
            d = w.storage_of(s)(num_generations=s['G'], children_percent=s['cp'], early_stop=s['early'])
            pop = w.make_population(s)
            pop.fill()
            d.population = pop
            parts['fitness'].execute(d)
            d.update()
            check_read(s, d, 1, t.gens, obs, what + ' after generation 0')
            for g in range(1, d.num_generations):
                for name in ('selection', 'crossover', 'mutation', 'new_generation', 'fitness'):
                    parts[name].execute(d)
                d.update()
                check_read(s, d, g + 1, t.gens, obs, what + ' after generation %d' % g)
                obs.add('reports_during_runs')
                if d.num_generation_no_improve > d.early_stop:
                    break
        obs.check(out.getvalue() == '', lambda: '%s: the parts print by themselves: %r' % (what, out.getvalue()[:200]))
    finally:
        core.TAP.limit = None
        core.TAP.mode = 'plain'
        w.generator.rnd_seed = None
    return t


def twice(s, obs, what):
    """A collector whose optimize() is called again: each report is that of the run so far."""
    t = w.Trace()
    t.light = True
    data = w.input_object(s.get('input_data'))
    t.obj = w.Objective(s, data)
    w.generator.rnd_seed = s.get('seed')
    core.reset_tap(s['entropy'], 'plain', None)
    try:
        with w.recording(t), core.quiet():
            c = w.CollectorGA(storage=w.storage_of(s), **w.make_parts(s, t.obj.function, data))
            c.set_population(getattr(w.ga, w.POPS[s['pop']]), num_individ=s['n'], num_generations=s['G'], gens=w.real_gens(s),
                             input_population=w.real_input_population(s), children_percent=s['cp'], early_stop=s['early'])
            for k in range(3):
                with core.quiet() as out:
                    c.optimize()
                check_text(s, out.getvalue(), c.ga_data, len(t.gens), obs, '%s, optimize() called %d times' % (what, k + 1))
                if s['algo'] != 'ffga':
                    check_truth(s, t.gens, c.ga_data, obs, what)
                obs.add('reports_of_repeated_calls', k > 0)
    finally:
        w.generator.rnd_seed = None


def run_case(case, obs):
    s = case['spec']
    what = '%s %s %s' % (s['algo'], s['pop'], s['mode'])
    t = w.run(s, light=True)
    d = t.result
    n = len(t.gens)
    printed = s['mode'] == 'collector' or (s['mode'] == 'class' and s['print'])
    text = check_read(s, d, n, t.gens, obs, what)
    obs.add('reports_at_end')
    obs.add('early_stopped_reports', n < s['G'])
    if printed:
        obs.add(s['mode'] + '_reports')
        obs.check(t.stdout == text, lambda: '%s: the run printed %r, the report of what it returned is %r' % (what, t.stdout[:400], text[:400]))
    else:
        obs.add('silent_runs')
        obs.check(t.stdout == '', lambda: '%s: printed although no report was asked for: %r' % (what, t.stdout[:300]))
    if s['mode'] == 'collector' and s['algo'] != 'ffga':
        twice(s, obs, what)
    if s['watch']:
        t2 = watched(s, obs, what)
        obs.check(pops(t) == pops(t2), lambda: '%s: reading the report after every generation changed the run' % what)
        obs.add('runs_undisturbed_by_reading')
    obs.sig(w.shape_sig(s), printed, n, d.best_solution['idx_generation'], len(d.best_solution['pareto_set']) if s['algo'] != 'single' else 1)
    if obs.sample is None and printed:
        obs.sample = dict(spec=s, printed=t.stdout[:600])
