"""C12 objective function calls: log of calls and arguments against the individuals of each generation."""
from collections import Counter
import world as w

CASES = {'quick': 3600, 'thorough': 30000}
CHUNK = 12
RULE = 'distinct (run shape, input data kind, return type, number of generations) whose call log was matched'
REQUIRED = ['calls', 'single_generations_matched', 'calls_with_data', 'calls_without_data', 'falsy_data_runs', 'array_data_runs', 'awkward_data_runs',
            'multi_data_runs', 'repeated_points', 'carried_over_not_called', 'runs_n_over_100']


def gen_case(rng, idx, tier):
    return w.gen_run(rng, tier, algo=w.pick(rng, ['single'] * 5 + ['vega', 'ffga']), size=w.pick(rng, ['s', 's', 'm', 'l']), inf=True)


def run_case(s, obs):
    t = w.run(s)
    tag = s['input_data']
    n = len(t.obj.calls)
    obs.add('calls', n)
    obs.add('calls_with_data' if tag else 'calls_without_data', n)
    obs.add('falsy_data_runs', tag in ('zero', 'empty', 'str', 'dict', 'false'))
    obs.add('array_data_runs', tag == 'arr')
    obs.add('awkward_data_runs', tag == 'awkward')
    obs.add('multi_data_runs', bool(tag) and s['algo'] != 'single')
    obs.add('runs_n_over_100', s['n'] > 100)
    obs.add('oracle_evaluations', n)
    for b in t.obj.bad_args[:3]:
        obs.bad('objective function %s (input data: %s)' % (b, tag))
    if s['algo'] == 'single':
        last = 0
        for g, rec in enumerate(t.gens):
            calls = t.obj.calls[last:rec['ncalls']]
            last = rec['ncalls']
            e = rec['fitness']
            new = [i for i in e['before'] if i.score is None]
            obs.add('carried_over_not_called', len(e['before']) - len(new))
            want = s['n'] if g == 0 else int(s['cp'] * s['n'])
            if not obs.check(len(new) == want and len(calls) == want, lambda: 'generation %d: %d objective calls for %d new individuals, expected %d' % (g, len(calls), len(new), want)):
                return
            oid = {i.oid: i for i in e['after']}
            pts = Counter(oid[i.oid].point() for i in new)
            if not obs.check(Counter(c[0] for c in calls) == pts, lambda: 'generation %d: points called differ from the new individuals' % g):
                return
            obs.add('repeated_points', sum(v - 1 for v in pts.values()))
            obs.add('single_generations_matched')
        obs.check(last == n, lambda: '%d objective calls after the last generation' % (n - last))
    obs.sig(w.shape_sig(s), tag, s['ret'], s['wrap'], min(len(t.gens), 4))
    if obs.sample is None and tag:
        obs.sample = dict(spec=s, calls=n, per_generation=[r['ncalls'] for r in t.gens[:12]])
