"""C11 stopping generation, improvement counter and histories: replayed from the observed generations; bounded draws and calls."""
import core
import world as w

CASES = {'quick': 5200, 'thorough': 30000}
CHUNK = 12
RULE = 'distinct (run shape, stop reason, number of generations, early-stop limit, improvement schedule) among runs replayed'
REQUIRED = ['stopped_early', 'ran_to_the_end', 'early_none_runs', 'early_zero_runs', 'scheduled_runs', 'counter_resets', 'multi_runs', 'multi_counter_resets',
            'single_generation_runs', 'constant_runs', 'ties_of_best', 'runs_over_60_generations', 'multi_waits_over_20']


class Scheduled(w.Objective):
    """Objective whose value only depends on the generation: improvements happen exactly where the schedule says."""

    def __init__(self, s):
        super().__init__(s, None)
        level, lv = 0.0, []
        for g in range(s['G'] + 2):
            if g in s['improve']:
                level += s['amount']
            lv.append(level)
        n, c = s['n'], int(s['cp'] * s['n'])
        me = self
        sign = s['sign']

        def f(x):
            i = len(me.calls)
            g = 0 if i < n else 1 + (i - n) // c
            me.calls.append((tuple(x), ()))
            if g >= len(lv):
                raise core.Budget('objective called in generation %d of %d' % (g, s['G']))
            return s['base'] - lv[g] if sign < 0 else s['base'] + (10 - lv[g])
        self.function = f


def gen_case(rng, idx, tier):
    if idx % 3 == 1:
        s = w.gen_run(rng, tier, algo='single', constrained=False, inputs=False, max_n=20)
        s.update(G=w.pick(rng, [1, 2, 3, 8, 20, 40, 90]), early=w.pick(rng, [0, 0, 1, 2, 3, 7, 50]), input_data=None, wrap=None)
        if s['mode'] == 'class' and rng.random() < 0.15:
            s['early'] = None
        dens = w.pick(rng, [0.0, 0.1, 0.3, 0.6, 1.0])
        s['improve'] = [g for g in range(1, s['G']) if rng.random() < dens]
        s['target'] = w.pick(rng, [None, None, -1000.0])
        s['sign'] = w.pick(rng, [-1, 1])
        s['base'] = w.pick(rng, [0.0, 1.0, -1.0, 5.0])
        s['amount'] = w.pick(rng, [1.0, 1e-9, 0.25])
        return dict(type='scheduled', spec=s)
    s = w.gen_run(rng, tier, algo=w.pick(rng, ['single', 'single', 'single', 'vega', 'ffga']), size=w.pick(rng, ['s', 's', 'm', 'l']))
    if rng.random() < 0.4:
        s['early'] = w.pick(rng, [0, 1, 2, 3])
    if idx % 30 == 5:                  # multi-objective runs that stay the same for long
        s = w.gen_run(rng, tier, algo=w.pick(rng, ['vega', 'ffga']), size='s', max_n=6, constrained=False, big=0, pop=w.pick(rng, ['bin', 'gray']), inputs=False)
        s.update(gens=[[0, 3, 1], [0, 1, 1]], G=w.pick(rng, [25, 30] if s['algo'] == 'ffga' else [25, 45, 70]), early=w.pick(rng, [14, 22, 22, 33, 1000]), n=min(s['n'], 5) if s['algo'] == 'ffga' else s['n'], cp=1.0, objs=[dict(kind='sphere', c=0.0)] * len(s['objs']))
        if 'k' in s['sel']:
            s['sel'] = dict(s['sel'], k=2)
        if s['mode'] == 'class' and rng.random() < 0.5:
            s['early'] = None
        return dict(type='run', spec=s)
    if rng.random() < 0.15:
        s['objs'] = [dict(kind='const', c=1.0)] * len(s['objs'])
        if s['algo'] == 'single' and not s['conds']:
            s['objs'] = s['objs'][:1]
    return dict(type='run', spec=s)


def replay(s, t, obs):
    G = s['G']
    early = G if s['early'] is None else s['early']
    multi = s['algo'] != 'single'
    obs.add('multi_runs', multi)
    counter, top, shown, stop = 0, None, set(), None
    for g, rec in enumerate(t.gens):
        if stop is not None:
            obs.bad('generation %d was made although the run should have stopped after generation %d' % (g, stop))
            return False
        pop = rec['pop']
        if multi:
            now = {i.g for i in pop if i.rank == 1}
            if now != shown:
                obs.add('multi_counter_resets', g > 0 and counter > 0)
                shown, counter = now, 0
            else:
                counter += 1
                obs.add('multi_waits_over_20', counter == 21)
            lens_ok = rec['lens'][0] == g + 1
            hist = {dict(i)['genotype'] for i in rec['hb']}
            ok = obs.check(hist == now, lambda: 'generation %d: recorded Pareto set has %d solutions, the population %d' % (g, len(hist), len(now)))
        else:
            scores = sorted(i.score for i in pop)
            if top is None:
                top = scores[-1]
            elif scores[-1] > top:
                obs.add('counter_resets', counter > 0)
                top, counter = scores[-1], 0
            else:
                obs.add('ties_of_best', scores[-1] == top)
                counter += 1
            lens_ok = rec['lens'] == (g + 1,) * 3
            ok = obs.check(rec['hb'] == scores[-1] and rec['hm'] == scores[len(scores) // 2] and rec['hw'] == scores[0], lambda: 'generation %d: recorded best/middle/worst %r, population has %r' % (g, (rec['hb'], rec['hm'], rec['hw']), (scores[-1], scores[len(scores) // 2], scores[0])))
        ok = obs.check(lens_ok, lambda: 'generation %d: histories have lengths %r' % (g, rec['lens'])) and ok
        ok = obs.check(rec['no_improve'] == counter, lambda: 'generation %d: %r generations without improvement counted, %d happened' % (g, rec['no_improve'], counter)) and ok
        ok = obs.check(rec['idx'] == g + 1, lambda: 'generation %d: generation counter is %r' % (g, rec['idx'])) and ok
        if not ok:
            return False
        if g >= 1 and counter > early:
            stop = g
        if g >= G - 1:
            stop = g
    ok = obs.check(stop is not None, lambda: 'run ended after %d of %d generations with %d generations without improvement, limit %r' % (len(t.gens), G, counter, s['early']))
    d = t.result
    ok = obs.check(len(d.historical_best) == len(t.gens), 'returned history differs from the number of generations') and ok
    if not multi and ok:
        obs.check(list(d.historical_best) == [r['hb'] for r in t.gens] and list(d.historical_mediocre) == [r['hm'] for r in t.gens] and list(d.historical_worst) == [r['hw'] for r in t.gens], 'a history entry was changed afterwards')
    obs.add('stopped_early', len(t.gens) < G)
    obs.add('ran_to_the_end', len(t.gens) == G)
    obs.add('early_none_runs', s['early'] is None)
    obs.add('early_zero_runs', s['early'] == 0)
    obs.add('single_generation_runs', G == 1)
    obs.add('runs_over_60_generations', len(t.gens) > 60)
    obs.sig(w.shape_sig(s), len(t.gens) < G, min(len(t.gens), 12), s['early'])
    if obs.sample is None:
        obs.sample = dict(spec=s, generations=len(t.gens), counters=[r['no_improve'] for r in t.gens[:30]])
    return ok


def run_case(case, obs):
    s = case['spec']
    if case['type'] == 'scheduled':
        t = w.Trace()
        t.light = True
        t.obj = Scheduled(s)
        w.generator.rnd_seed = s['seed']
        core.reset_tap(s['entropy'], 'plain', w.draw_limit(s))
        try:
            with w.recording(t), core.quiet():
                t.result = w.drive(s, t.obj.function, None)
        finally:
            core.TAP.limit = None
            w.generator.rnd_seed = None
        obs.add('scheduled_runs')
        # expected stop from the schedule alone
        early = s['G'] if s['early'] is None else s['early']
        c, end = 0, s['G'] - 1
        for g in range(1, s['G']):
            c = 0 if g in s['improve'] else c + 1
            if c > early:
                end = g
                break
        if not obs.check(len(t.gens) == end + 1, lambda: 'improvements at %r, limit %r, %d generations: run had %d generations, expected %d' % (s['improve'], s['early'], s['G'], len(t.gens), end + 1)):
            return
        replay(s, t, obs)
        return
    t = w.run(s, light=True)
    if all(o['kind'] == 'const' for o in s['objs']) and s['algo'] == 'single' and not s['conds']:
        obs.add('constant_runs')
        early = s['G'] if s['early'] is None else s['early']
        obs.check(len(t.gens) == min(s['G'], early + 2), lambda: 'constant objective: %d generations, expected %d' % (len(t.gens), min(s['G'], early + 2)))
    replay(s, t, obs)
