"""C03 only points of the declared search space are evaluated: every objective call is checked against the space."""
import world as w

CASES = {'quick': 3000, 'thorough': 40000}
CHUNK = 16
RULE = 'distinct (run shape, gene kinds) among runs in which crossover and mutation produced new evaluated points'
REQUIRED = ['calls_checked', 'calls_after_first_generation', 'bin_calls', 'gray_calls', 'cat_calls', 'order_calls',
            'extreme_random_runs', 'upper_bound_points', 'lower_bound_points', 'ordering_subset_calls', 'runs_multi',
            'always_mutating_runs']


def gen_case(rng, idx, tier):
    return w.gen_run(rng, tier, algo=w.pick(rng, ['single'] * 6 + ['vega', 'ffga']))


def run_case(s, obs):
    s = dict(s, G=max(2, s['G']))
    t = w.run(s, light=True)
    gens = w.real_gens(s)
    n0 = t.gens[0]['ncalls']
    seen = set()
    obs.add('extreme_random_runs', s['rng'] == 'extreme')
    obs.add('always_mutating_runs', s['mut']['lvl'] == 1.0)
    obs.add('runs_multi', s['algo'] != 'single')
    for j, (x, _) in enumerate(t.obj.calls):
        obs.add(s['pop'] + '_calls')
        key = repr(x)
        if key in seen:
            continue
        seen.add(key)
        obs.add('calls_checked')
        obs.add('calls_after_first_generation', j >= n0)
        why = w.in_space(s, x)
        if not obs.check(why is None, lambda: 'objective call %d with %r: %s (genes %r)' % (j, x, why, gens)):
            return
        if s['pop'] in ('bin', 'gray'):
            obs.add('upper_bound_points', any(v == g[1] for v, g in zip(x, gens)))
            obs.add('lower_bound_points', any(v == g[0] for v, g in zip(x, gens)))
        elif s['pop'] == 'order':
            obs.add('ordering_subset_calls', gens[2] < gens[1] - gens[0] + 1)
    for b in t.obj.bad_args:
        if 'list' in b:
            obs.check(False, b)
    if len(t.gens) > 1:
        obs.sig(w.shape_sig(s), repr(s['gens'])[:60], s['rng'])
    if obs.sample is None and len(t.gens) > 2:
        obs.sample = dict(spec=s, calls=[repr(c[0]) for c in t.obj.calls[-3:]])
