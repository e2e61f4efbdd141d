"""C28 continuation: runs with more generations or a later early stop begin with the shorter run."""
import core
import world as w

CASES = {'quick': 3000, 'thorough': 25000}
CHUNK = 6
RULE = 'distinct (run shape, which limit was raised) of pairs of runs compared generation by generation'
REQUIRED = ['pairs_compared', 'generations_compared', 'continued_generations', 'more_generations', 'later_stops', 'both_raised', 'no_limit_runs', 'class_pairs', 'collector_pairs', 'modular_pairs',
            'vega_pairs', 'ffga_pairs', 'constrained_pairs', 'dynamic_pairs', 'adaptive_pairs', 'stopped_early_pairs', 'one_generation_runs', 'improved_later',
            'collectors_continued', 'vega_continued', 'ffga_continued', 'continued_after_early_stop', 'improved_again', 'third_calls']


def gen_case(rng, idx, tier):
    if idx % 8 == 7:
        s = w.gen_run(rng, tier, algo=w.pick(rng, ['single', 'single', 'single', 'vega', 'ffga']), mode='collector', max_n=30, max_G=8, big=0.0)
        s['rng'] = 'plain'
        return dict(spec=s, again=w.pick(rng, [1, 1, 2]))
    algo = ['single', 'single', 'single', 'single', 'vega', 'ffga'][idx % 6]
    s = w.gen_run(rng, tier, algo=algo, max_n=40, max_G=20 if algo == 'single' else 6, big=0.02)
    s['G'] = min(s['G'], w.pick(rng, [1, 2, 3, 8, 20]))
    s['print'] = False
    what = w.pick(rng, ['G', 'early', 'both'])
    long = dict(s)
    if what in ('G', 'both'):
        long['G'] = s['G'] + w.pick(rng, [1, 1, 2, 5, 20] if algo == 'single' else [1, 2, 4])
    if what in ('early', 'both'):
        s['early'] = w.pick(rng, [0, 0, 1, 2, 4])
        long['early'] = s['early'] + w.pick(rng, [1, 1, 2, 100])
        if s['mode'] == 'class' and rng.random() < 0.2:
            long['early'] = None
    elif s['mode'] == 'class' and rng.random() < 0.2:
        s['early'] = long['early'] = None
    return dict(spec=s, long=long, what=what)


def view(g):
    return [(i.g, i.p, i.score, i.obj, i.feasible, i.rank) for i in g['pop']]


def again(case, obs):
    """optimize() of one collector called again: it goes on from where it was."""
    s = case['spec']
    what = '%s %s collector, %d individuals, %d generations, early stop %r' % (s['algo'], s['pop'], s['n'], s['G'], s['early'])
    t = w.Trace()
    t.light = True
    data = w.input_object(s['input_data'])
    t.obj = o = w.Objective(s, data)
    w.generator.rnd_seed = s['seed']
    core.reset_tap(s['entropy'], 'plain', None)
    single = s['algo'] == 'single'
    try:
        with w.recording(t), core.quiet():
            c = w.CollectorGA(storage=w.storage_of(s), **w.make_parts(s, o.function, data))
            c.set_population(getattr(w.ga, w.POPS[s['pop']]), num_individ=s['n'], num_generations=s['G'], gens=w.real_gens(s),
                             input_population=w.real_input_population(s), children_percent=s['cp'], early_stop=s['early'])
            c.optimize()
            for k in range(case['again']):
                d = c.ga_data
                hist = core.digest([w.freeze(v) for v in d.historical_best])
                m, calls, made = len(d.historical_best), len(o.calls), len(t.gens)
                top = d.best_solution['score'] if single else None
                stopped = m < s['G']
                last = view(t.gens[-1])
                c.optimize()
                d2 = c.ga_data
                obs.check(d2 is d, lambda: '%s: the second optimize() works on other run data' % what)
                obs.check(len(d2.historical_best) > m and core.digest([w.freeze(v) for v in d2.historical_best[:m]]) == hist, lambda: '%s: optimize() called again does not extend the history of %d generations (%d now)' % (what, m, len(d2.historical_best)))
                obs.check(d2.idx_generation == len(d2.historical_best) == len(t.gens), lambda: '%s: %d generations counted, %d in the history, %d made' % (what, d2.idx_generation, len(d2.historical_best), len(t.gens)))
                new = t.gens[made:]
                obs.check(min(2, s['G']) <= len(new) <= s['G'], lambda: '%s: optimize() called again made %d generations' % (what, len(new)))
                if single:
                    highest = max(i.score for g in t.gens for i in g['pop'])
                    obs.check(d2.best_solution['score'] == highest >= top, lambda: '%s: after optimize() called again the best solution has score %r, %r was reached' % (what, d2.best_solution['score'], highest))
                    before = max(v[2] for v in last)
                    obs.check(all(max(i.score for i in g['pop']) >= before for g in new), lambda: '%s: the best individual of the population was lost when optimize() was called again' % what)
                    fresh = len(o.calls) - calls
                    most = len(new) * int(s['cp'] * s['n'])
                    obs.check(fresh <= most, lambda: '%s: %d objective calls for %d further generations of %d children' % (what, fresh, len(new), int(s['cp'] * s['n'])))
                    high, count = -float('inf'), 0
                    for j, g in enumerate(t.gens):
                        m2 = max(i.score for i in g['pop'])
                        count = 0 if j == 0 or m2 > high else count + 1
                        high = max(high, m2)
                        if j >= made and not obs.check(g['no_improve'] == count, lambda: '%s: %d generations without improvement counted in generation %d after optimize() was called again, %d happened' % (what, g['no_improve'], j, count)):
                            break
                    obs.add('improved_again', d2.best_solution['score'] > top)
                else:
                    obs.add('vega_continued' if s['algo'] == 'vega' else 'ffga_continued')
                obs.add('collectors_continued')
                obs.add('continued_after_early_stop', stopped)
                obs.add('third_calls', k == 1)
    finally:
        w.generator.rnd_seed = None
    obs.sig('again', w.shape_sig(s), case['again'])


def run_case(case, obs):
    if 'again' in case:
        return again(case, obs)
    s, l = case['spec'], case['long']
    a, b = w.run(s, light=True), w.run(l, light=True)
    what = '%s %s %s: %r generations with early stop %r against %r with %r' % (s['algo'], s['pop'], s['mode'], s['G'], s['early'], l['G'], l['early'])
    obs.add('pairs_compared')
    if not obs.check(len(a.gens) <= len(b.gens), lambda: '%s: the longer run has %d generations, the shorter one %d' % (what, len(b.gens), len(a.gens))):
        return
    for g, (x, y) in enumerate(zip(a.gens, b.gens)):
        obs.add('generations_compared')
        if not obs.check(core.digest(view(x)) == core.digest(view(y)), lambda: '%s: generation %d differs' % (what, g)):
            return
        if not obs.check(x['no_improve'] == y['no_improve'] and core.digest(w.freeze(x['hb'])) == core.digest(w.freeze(y['hb'])) and x['idx'] == y['idx'], lambda: '%s: counters or history of generation %d differ' % (what, g)):
            return
        obs.check(core.digest(w.freeze(x['best'])) == core.digest(w.freeze(y['best'])), lambda: '%s: best solution after generation %d differs' % (what, g))
    n = len(a.obj.calls)
    obs.check(core.digest([c[0] for c in a.obj.calls]) == core.digest([c[0] for c in b.obj.calls[:n]]), lambda: '%s: objective calls differ' % what)
    p, q = a.result, b.result
    if s['algo'] == 'single':
        obs.check(q.best_solution['score'] >= p.best_solution['score'], lambda: '%s: the longer run ends with score %r, the shorter one with %r' % (what, q.best_solution['score'], p.best_solution['score']))
        obs.add('improved_later', q.best_solution['score'] > p.best_solution['score'])
        obs.check([repr(v) for v in q.historical_best[:len(a.gens)]] == [repr(v) for v in p.historical_best], lambda: '%s: returned histories differ' % what)
    obs.add('continued_generations', len(b.gens) - len(a.gens))
    obs.add({'G': 'more_generations', 'early': 'later_stops', 'both': 'both_raised'}[case['what']])
    obs.add('no_limit_runs', l['early'] is None)
    obs.add(s['mode'] + '_pairs')
    obs.add('vega_pairs', s['algo'] == 'vega')
    obs.add('ffga_pairs', s['algo'] == 'ffga')
    obs.add('constrained_pairs', bool(s['conds']))
    if s['penalty']:
        obs.add(s['penalty']['kind'] + '_pairs')
    obs.add('stopped_early_pairs', len(a.gens) < s['G'])
    obs.add('one_generation_runs', s['G'] == 1)
    obs.sig(w.shape_sig(s), case['what'])
    if obs.sample is None and len(b.gens) > len(a.gens) > 2:
        obs.sample = dict(spec=s, long={k: l[k] for k in ('G', 'early')}, generations=(len(a.gens), len(b.gens)))
