"""C30 complete state: run data copied or pickled between any two steps and continued with new parts."""
import copy
import pickle
import core
import world as w

CASES = {'quick': 3000, 'thorough': 25000}
CHUNK = 6
RULE = 'distinct (run shape, way of copying, step after which the run was interrupted) of continued runs'
STEPS = ('selection', 'crossover', 'mutation', 'new_generation', 'fitness', 'update')
REQUIRED = ['interruptions', 'continued_generations', 'copied', 'pickled', 'originals_continued', 'new_parts', 'vega_runs', 'ffga_runs', 'constrained_runs', 'adaptive_runs', 'random_transfer_runs',
            'bin_runs', 'gray_runs', 'cat_runs', 'order_runs', 'runs_interrupted_everywhere', 'input_populations'] + ['after_' + x for x in STEPS] + ['after_fill']


def gen_case(rng, idx, tier):
    algo = ['single', 'single', 'single', 'vega', 'ffga'][idx % 5]
    s = w.gen_run(rng, tier, algo=algo, mode='modular', max_n=30, max_G=12 if algo == 'single' else 6, big=0.02)
    s['rng'] = 'plain'
    everywhere = idx % 7 == 3
    cuts = sorted({(rng.randrange(0, max(1, s['G'])), w.pick(rng, STEPS)) for _ in range(w.pick(rng, [1, 1, 2, 4]))})
    return dict(spec=s, cuts=cuts, everywhere=everywhere, how=w.pick(rng, ['copy', 'pickle', 'pickle']), parts=rng.random() < 0.7, twin=rng.random() < 0.4)


def loop(s, function, data, interrupt):
    """The documented modular loop; interrupt(generation, step, run data, parts) gives what to go on with."""
    parts = w.make_parts(s, function, data)
    d = w.storage_of(s)(num_generations=s['G'], children_percent=s['cp'], early_stop=s['early'])
    pop = w.make_population(s)
    pop.fill()
    d.population = pop
    d, parts = interrupt(0, 'fill', d, parts)
    return go(s, d, parts, 0, 'fill', interrupt)


def go(s, d, parts, g, step, interrupt):
    """Continue after the given step of generation g."""
    todo = []
    if g == 0:
        todo = [(0, 'fitness'), (0, 'update')]
    else:
        todo = [(g, x) for x in STEPS]
    if step != 'fill':
        todo = todo[[x for _, x in todo].index(step) + 1:]
    while True:
        for g, x in todo:
            if x == 'update':
                d.update()
            else:
                parts[x].execute(d)
            d, parts = interrupt(g, x, d, parts)
        if g + 1 >= d.num_generations or g > 0 and d.num_generation_no_improve > d.early_stop:
            return d
        g += 1
        todo = [(g, x) for x in STEPS]


def observed(s, interrupt, reset=True):
    t = w.Trace()
    t.light = True
    data = w.input_object(s['input_data'])
    t.obj = w.Objective(s, data, limit=w.call_limit(s))
    w.generator.rnd_seed = s['seed']
    core.reset_tap(s['entropy'], 'plain', w.draw_limit(s))
    try:
        with w.recording(t), core.quiet():
            t.result = loop(s, t.obj.function, data, lambda *a: interrupt(t, data, *a))
    finally:
        core.TAP.limit = None
        w.generator.rnd_seed = None
    return t


def gens_of(t):
    return [core.digest([(i.g, i.p, i.score, i.obj, i.feasible, i.rank) for i in g['pop']] + [g['no_improve'], g['idx'], w.freeze(g['best']), g['hb']]) for g in t.gens]


def run_case(case, obs):
    s = case['spec']
    ref = observed(s, lambda t, data, g, x, d, parts: (d, parts))
    want = gens_of(ref)
    cuts = {tuple(c) for c in case['cuts']}
    twins = []

    def interrupt(t, data, g, x, d, parts):
        if not (case['everywhere'] or (g, x) in cuts or x == 'fill' and len(cuts) == 1):
            return d, parts
        obs.add('interruptions')
        obs.add('after_' + x)
        keep = d
        d = pickle.loads(pickle.dumps(d)) if case['how'] == 'pickle' else copy.deepcopy(d)
        obs.add('pickled' if case['how'] == 'pickle' else 'copied')
        if case['parts']:
            parts = w.make_parts(s, t.obj.function, data)
            obs.add('new_parts')
        if case['twin'] and not twins and not case['everywhere']:
            # the original goes on first, with the same random numbers; the copy must not notice
            state = core.TAP.getstate()
            twin = w.Trace()
            twin.light = True
            twin.obj = w.Objective(s, data, limit=w.call_limit(s))
            twin.obj.calls.extend(t.obj.calls)
            with w.recording(twin):
                twin.result = go(s, keep, w.make_parts(s, twin.obj.function, data), g, x, lambda g, x, d, parts: (d, parts))
            core.TAP.setstate(state)
            twins.append(twin)
            obs.add('originals_continued')
        return d, parts
    t = observed(s, interrupt)
    got = gens_of(t)
    where = 'everywhere' if case['everywhere'] else 'after %s' % ', '.join('%s of generation %d' % (x, g) for g, x in sorted(cuts))
    what = '%s %s, run data %s %s%s' % (s['algo'], s['pop'], 'pickled' if case['how'] == 'pickle' else 'copied', where, ' with new parts' if case['parts'] else '')
    obs.check(len(got) == len(want), lambda: '%s: %d generations instead of %d' % (what, len(got), len(want)))
    for g, (a, b) in enumerate(zip(want, got)):
        obs.add('continued_generations')
        if not obs.check(a == b, lambda: '%s: generation %d differs from the uninterrupted run' % (what, g)):
            return
    obs.check(core.digest([c[0] for c in ref.obj.calls]) == core.digest([c[0] for c in t.obj.calls]), lambda: '%s: other objective calls' % what)
    for twin in twins:
        k = gens_of(twin)
        obs.check(k == want[len(want) - len(k):], lambda: '%s: the original, continued after the copy was made, differs from the uninterrupted run' % what)
    obs.add(s['pop'] + '_runs')
    obs.add('vega_runs', s['algo'] == 'vega')
    obs.add('ffga_runs', s['algo'] == 'ffga')
    obs.add('constrained_runs', bool(s['conds']))
    obs.add('adaptive_runs', bool(s['penalty']) and s['penalty']['kind'] == 'adaptive')
    obs.add('random_transfer_runs', s['transfer'] == 'random')
    obs.add('runs_interrupted_everywhere', case['everywhere'])
    obs.add('input_populations', bool(s['input_pop']))
    obs.sig(w.shape_sig(s), case['how'], case['everywhere'] or tuple(x for _, x in cuts))
    if obs.sample is None and len(want) > 3:
        obs.sample = dict(spec=s, cuts=sorted(cuts), how=case['how'], generations=len(want))
