"""C01 best solution never lost: monitor over the evaluation log, the population snapshots and the report."""
import world as w

CASES = {'quick': 5200, 'thorough': 40000}
CHUNK = 16
RULE = ('distinct (run shape, number of improvements, generation of the final best, best also tied) combinations of '
        'single-objective runs with at least two generations')
REQUIRED = ['generations', 'improvements', 'runs_without_improvement', 'runs_constrained', 'runs_transfer_random',
            'reports_printed', 'best_kept_over_10_generations', 'runs_zero_target', 'runs_n_over_100']


def gen_case(rng, idx, tier):
    s = w.gen_run(rng, tier, algo='single', transfer=w.pick(rng, ['best', 'random']),
                  size=w.pick(rng, ['s', 's', 'm', 'l']), inf=True)
    if rng.random() < 0.4:
        s['early'] = 1000
    return s


def run_case(s, obs):
    t = w.run(s)
    obs.add('generations', len(t.gens))
    obs.add('runs_transfer_random', s['transfer'] == 'random')
    obs.add('runs_constrained', bool(s['conds']))
    obs.add('runs_zero_target', s['target'] == 0 and s['target'] is not None)
    obs.add('runs_n_over_100', s['n'] > 100)
    top, first, improvements, prev_best, since = None, None, 0, None, 0
    for g, rec in enumerate(t.gens):
        scores = [i.score for i in rec['pop']]
        # what was evaluated in this generation, from the records before/after evaluation
        here = max(scores)
        if top is None or here > top:
            improvements += top is not None
            top, first, since = here, g, 0
        else:
            since += 1
        obs.add('best_kept_over_10_generations', since == 10)
        best = dict(rec['best'])
        ok = obs.check(best['score'] == top, lambda: 'generation %d: best solution has score %r, the highest so far is %r' % (g, best['score'], top))
        ok = obs.check(here == top, lambda: 'generation %d: best of the population is %r, %r was reached before' % (g, here, top)) and ok
        ok = obs.check(best.get('idx_generation') == first, lambda: 'generation %d: best solution names generation %r, its score first appeared in %d' % (g, best.get('idx_generation'), first)) and ok
        ok = obs.check(rec['hb'] == here, lambda: 'generation %d: recorded best fitness %r, population has %r' % (g, rec['hb'], here)) and ok
        if first == g:
            ok = obs.check(any(i.g == best['genotype'] and i.score == best['score'] and i.obj == best['obj_score'] and i.feasible == best['feasible'] and (i.p is None or i.p == best.get('phenotype')) for i in rec['pop']),
                           lambda: 'generation %d: best solution %r is not an individual of the population' % (g, best)) and ok
            prev_best = rec['best']
        else:
            ok = obs.check(rec['best'] == prev_best, lambda: 'generation %d: best solution changed without improvement: %r -> %r' % (g, prev_best, rec['best'])) and ok
        if not ok:
            return
    # independent of the records: scores recomputed from the log of objective function calls
    if not s['conds']:
        ref = max(w.hyperbola(s['target'], v[0]) for _, v in t.obj.calls)
        obs.check(w.close(float(ref), float(top), 0), lambda: 'a point with fitness %r was evaluated, reported best is %r' % (ref, top))
    d = t.result
    obs.check(w.best_record(d.best_solution) == prev_best, 'returned best solution differs from the recorded one')
    hb = list(d.historical_best)
    obs.check(all(a <= b for a, b in zip(hb, hb[1:])), lambda: 'best fitness per generation decreases: %r' % hb[:50])
    if t.stdout.strip():
        obs.add('reports_printed')
        b = dict(prev_best)
        for key in ('genotype', 'score', 'obj_score', 'idx_generation'):
            v = list(b[key]) if isinstance(b[key], tuple) else b[key]
            obs.check(str(v) in t.stdout, lambda: 'printed report does not contain the %s %r of the best solution' % (key, v))
    elif s['mode'] == 'class' and s['print']:
        obs.bad('nothing was printed although is_print is set')
    obs.add('improvements', improvements)
    obs.add('runs_without_improvement', improvements == 0 and len(t.gens) > 3)
    if len(t.gens) > 1:
        obs.sig(w.shape_sig(s), min(improvements, 6), min(first, 8))
    if improvements > 3 and obs.sample is None:
        obs.sample = dict(spec=s, best_per_generation=[repr(x) for x in hb[:12]], best=repr(prev_best)[:300])
