"""C09 population size: sizes of children and populations at every generation of runs."""
import world as w

CASES = {'quick': 4800, 'thorough': 30000}
CHUNK = 12
RULE = 'distinct (run shape, declared size, children share) with at least two generations'
REQUIRED = ['generations_checked', 'duplicate_generations', 'runs_over_30_generations', 'vega_generations', 'ffga_generations', 'share_one_runs',
            'few_children_runs', 'constant_objective_runs', 'runs_n_over_100']


def gen_case(rng, idx, tier):
    s = w.gen_run(rng, tier, algo=w.pick(rng, ['single'] * 6 + ['vega', 'ffga']), size=w.pick(rng, ['s', 's', 's', 'm', 'l']))
    if rng.random() < 0.4:
        s['early'] = 1000
    return s


def run_case(s, obs):
    t = w.run(s)
    n, k = s['n'], w.num_objectives(s)
    kids = k * int(s['cp'] * n / k) if s['algo'] == 'vega' else int(s['cp'] * n)
    obs.add('share_one_runs', s['cp'] == 1.0)
    obs.add('few_children_runs', kids <= n // 3)
    obs.add('constant_objective_runs', s['objs'][0]['kind'] == 'const')
    obs.add('runs_n_over_100', n > 100)
    for g, rec in enumerate(t.gens):
        size = len(rec['pop'])
        obs.add('generations_checked')
        obs.add('duplicate_generations', len({i.g for i in rec['pop']}) < size)
        if g == 0:
            if not obs.check(size == n, lambda: 'first generation has %d individuals, %d declared' % (size, n)):
                return
            continue
        step = t.steps[g - 1]
        if not obs.check(len(step['newgen']['children']) == kids, lambda: 'generation %d has %d children, expected %d of %d' % (g, len(step['newgen']['children']), kids, n)):
            return
        if s['algo'] == 'ffga':
            obs.add('ffga_generations')
            if s['transfer'] == 'best':
                prev = step['newgen']['pop']
                pts = [w.values_of(s, list(i.point())) for i in prev]
                front = sum(not any(w.dominates(q, p) for q in pts) for p in pts)
                if size == kids + front > n + 1:
                    obs.findings.append(('ffga-front-exceeds-size', 'FFGA population of %d for declared size %d (%d children, front of %d)' % (size, n, kids, front)))
                    continue
        obs.add('vega_generations', s['algo'] == 'vega')
        if not obs.check(size == n + 1, lambda: 'generation %d has %d individuals, expected %d (declared %d, %d children, transfer %s)' % (g, size, n + 1, n, kids, s['transfer'])):
            return
    obs.add('runs_over_30_generations', len(t.gens) > 30)
    d = t.result
    obs.check(len(d.population) == len(t.gens[-1]['pop']), 'returned population differs from the last generation')
    if len(t.gens) > 1:
        obs.sig(w.shape_sig(s), n, s['cp'])
    if obs.sample is None and len(t.gens) > 5:
        obs.sample = dict(spec=s, sizes=[len(r['pop']) for r in t.gens[:20]])
