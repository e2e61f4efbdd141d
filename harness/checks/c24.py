"""C24 preset class, collector and modular loop give the same run under the same seed; every parameter is varied and its effect observed."""
import core
import world as w

CASES = {'quick': 1100, 'thorough': 12000}
CHUNK = 8
RULE = 'distinct (algorithm, population, varied parameter, seed) whose three assemblies were compared generation by generation'
PARAMS = ['cp', 'early', 'size', 'lvl', 'transfer', 'penalty', 'conds', 'data', 'input_pop', 'gray', 'target', 'n', 'G']
REQUIRED = ['assemblies_compared', 'generations_compared', 'binary_cases', 'gray_cases', 'cat_cases', 'order_cases', 'vega_cases', 'ffga_cases', 'silent_runs', 'printed_runs'] + ['effect_' + p for p in PARAMS] + ['early_none_cases', 'default_runs_compared', 'default_early_stops', 'default_early_stops_vega', 'default_early_stops_ffga']


def gen_case(rng, idx, tier):
    algo = w.pick(rng, ['single'] * 5 + ['vega', 'ffga'])
    pop = w.pick(rng, ['bin', 'gray', 'cat', 'order']) if algo == 'single' else w.pick(rng, ['bin', 'gray'])
    s = w.gen_run(rng, tier, algo=algo, pop=pop, mode='class', max_n=20, max_G=10, size=w.pick(rng, ['m', 'm', 'l', 's']))
    s['n'] = max(s['n'], 6)
    s['cp'] = w.pick(rng, [0.95, 0.5, 0.7, 1.0])
    if algo == 'vega' and int(s['cp'] * s['n'] / w.num_objectives(s)) < 1:
        s['cp'] = 1.0
    if s['input_pop']:
        s['input_pop'] = s['input_pop'][:s['n']]
    s['rng'] = 'plain'
    s['seed'] = w.pick(rng, [0, 1, 5, 42, -7, 2 ** 40])
    if idx % 9 == 8:
        s.update(cp=0.95, early=10, transfer='best', input_pop=None, input_data=None, target=None, G=w.pick(rng, [4, 15, 25]) if algo == 'single' else 6, n=max(s['n'], 8), print=True)
        if algo == 'single' and rng.random() < 0.4:
            s['objs'] = [dict(kind='const', c=1.0)] if not s['conds'] else s['objs']
        if algo != 'single' and not s['conds'] and rng.random() < 0.7:
            # one optimum of all objectives in a small space: the Pareto set settles soon
            s.update(objs=[dict(kind='sphere', c=0.0)] * len(s['objs']), gens=[[0, 3, 1], [0, 1, 1]], G=w.pick(rng, [14, 20, 30]), n=w.pick(rng, [8, 12]))
        s['mut'] = dict(s['mut'], lvl='normal')
        s['sel'] = dict(s['sel'], k=3)
        if s['conds']:
            s['penalty'] = w.pick(rng, [dict(kind='dynamic', delta=1, c=0.5, alpha=2, betta=2), dict(kind='adaptive', delta=1, b1=1.1, b2=1.2, betta=2)])
        if s['pop'] == 'gray':
            s['pop'] = 'bin'
        return dict(base=s, spec=s, param='defaults')
    param = PARAMS[idx % len(PARAMS)]
    # the same configuration with one parameter changed
    v = dict(s)
    if param == 'cp':
        v['cp'] = 0.4 if s['cp'] != 0.4 and int(0.4 * s['n'] / w.num_objectives(s)) >= 1 else 0.85
        if int(v['cp'] * s['n'] / w.num_objectives(s)) < 1:
            v['cp'] = 1.0 if s['cp'] != 1.0 else 0.95
    elif param == 'early':
        v['early'] = 0 if s['early'] != 0 else w.pick(rng, [None, 3, 1000])
        if algo != 'single' and not s['conds'] and rng.random() < 0.6:
            # one optimum of all objectives: the Pareto set settles soon, the limit decides
            s.update(objs=[dict(kind='sphere', c=0.0)] * len(s['objs']), gens=[[0, 3, 1], [0, 1, 1]], G=w.pick(rng, [24, 40]), n=8, cp=1.0,
                     early=w.pick(rng, [None, 13, 20, 1000]), input_pop=None, sel=dict(s['sel'], k=3))
            v = dict(s)
            s = dict(s, early=0)
    elif param == 'size':
        v['sel'] = dict(s['sel'], k=2 if s['sel']['k'] != 2 else min(s['n'] - 1, 40))
    elif param == 'lvl':
        v['mut'] = dict(s['mut'], lvl=0.9 if s['mut']['lvl'] != 0.9 else 0.1)
    elif param == 'transfer':
        v['transfer'] = 'random' if s['transfer'] == 'best' else 'best'
    elif param in ('penalty', 'conds'):
        k = w.num_objectives(s)
        v['conds'] = w.gen_conditions(rng, k)
        v['objs'] = [w.gen_objective(rng, pop) if c == 'optimize' else dict(w.gen_constraint(rng)) for c in v['conds']]
        v['penalty'] = w.gen_penalty(rng, [c for c in v['conds'] if c != 'optimize'])
        v['wrap'] = 'tuple'
    elif param == 'data':
        v['input_data'] = 'num' if s['input_data'] != 'num' else None
    elif param == 'input_pop':
        v['input_pop'] = [w.random_point(rng, s) for _ in range(w.pick(rng, [1, s['n']]))] if not s['input_pop'] else None
    elif param == 'gray' and pop in ('bin', 'gray'):
        v['pop'] = 'gray' if pop == 'bin' else 'bin'
    elif param == 'target':
        if algo == 'single':
            v['target'] = 3.5 if s['target'] is None else None
        elif algo == 'vega':
            v['target'] = [2.5] * w.num_objectives(s) if s['target'] is None else None
    elif param == 'n':
        v['n'] = s['n'] + 3
    elif param == 'G':
        v['G'] = s['G'] + 2
    return dict(base=s, spec=v, param=param)


def pops(t):
    return [[(i.g, i.p, i.score, i.obj, i.feasible) for i in g['pop']] for g in t.gens]


def defaults(s, obs):
    """Only the required arguments are given: the documented defaults apply."""
    ref = pops(w.run(s, light=True))
    pen = {None: None, 'dynamic': w.ga.DynamicPenalty, 'adaptive': w.ga.AdaptivePenalty}[s['penalty'] and s['penalty']['kind']]
    extra = dict(penalty=pen(), conditions=list(s['conds'])) if pen else {}
    cls = {'cat': w.CategoricalGA, 'order': w.CombinatoryGA}.get(s['pop'], {'single': w.BinaryGA, 'vega': w.VEGA, 'ffga': w.FFGA}[s['algo']])
    for route in ('class', 'collector', 'modular'):
        t = w.Trace()
        t.light = True
        o = t.obj = w.Objective(s, None, limit=w.call_limit(s))
        w.generator.rnd_seed = s['seed']
        core.reset_tap(s['entropy'], 'plain', w.draw_limit(s))
        try:
            with w.recording(t), core.quiet() as out:
                if route == 'class':
                    cls(num_generations=s['G'], num_individ=s['n'], gens=w.real_gens(s), obj_function=o.function, **extra).optimize()
                else:
                    ga = w.ga
                    k = w.num_objectives(s)
                    fit = {'single': ga.HyperbolaFitness, 'vega': ga.VEGAHyperbolaFitness, 'ffga': ga.FFGAFitness}[s['algo']](obj_function=o.function, **extra)
                    sel = ga.VEGATournamentSelection(num_objectives=k) if s['algo'] == 'vega' else (ga.BalancedSelection() if s['algo'] == 'ffga' else ga.TournamentSelection())
                    parts = dict(fitness=fit, selection=sel, crossover=getattr(ga, w.CROSS[s['cross']])(), mutation=getattr(ga, w.MUT[s['mut']['kind']])(),
                                 new_generation=(ga.MultiNewGeneration if s['algo'] == 'ffga' else ga.NewGeneration)())
                    if route == 'collector':
                        c = w.CollectorGA(**(dict(parts, storage=ga.MultiGaData) if s['algo'] != 'single' else parts))
                        c.set_population(getattr(ga, w.POPS[s['pop']]), num_individ=s['n'], num_generations=s['G'], gens=w.real_gens(s))
                        c.optimize()
                    else:
                        d = w.storage_of(s)(num_generations=s['G'])
                        pop = getattr(ga, w.POPS[s['pop']])()
                        pop.set_params(num_individ=s['n'], gens=w.real_gens(s))
                        pop.fill()
                        d.population = pop
                        parts['fitness'].execute(d)
                        d.update()
                        for _ in range(1, d.num_generations):
                            for name in ('selection', 'crossover', 'mutation', 'new_generation', 'fitness'):
                                parts[name].execute(d)
                            d.update()
                            if d.num_generation_no_improve > d.early_stop:
                                break
        finally:
            core.TAP.limit = None
            w.generator.rnd_seed = None
        got = pops(t)
        obs.add('default_runs_compared')
        obs.add('default_early_stops', len(got) < s['G'])
        obs.add('default_early_stops_' + s['algo'], len(got) < s['G'])
        if route == 'class':
            obs.check('Best solution' in out.getvalue(), 'by default the best solution is printed')
        if not obs.check(len(got) == len(ref), lambda: '%s %s %s with defaults: %d generations, with the documented values %d' % (s['algo'], s['pop'], route, len(got), len(ref))):
            return
        for g, (x, y) in enumerate(zip(ref, got)):
            if not obs.check(core.digest(x) == core.digest(y), lambda: '%s %s %s: defaults and documented values differ in generation %d' % (s['algo'], s['pop'], route, g)):
                return
    obs.sig('defaults', s['algo'], s['pop'], s['seed'], bool(pen), len(ref))


def run_case(case, obs):
    v, param = case['spec'], case['param']
    if param == 'defaults':
        return defaults(v, obs)
    a = w.run(v, light=True)
    ref = pops(a)
    obs.add({'bin': 'binary_cases', 'gray': 'gray_cases', 'cat': 'cat_cases', 'order': 'order_cases'}[v['pop']])
    obs.add('vega_cases', v['algo'] == 'vega')
    obs.add('ffga_cases', v['algo'] == 'ffga')
    obs.add('early_none_cases', v['early'] is None)
    calls = [c[0] for c in a.obj.calls]
    if v['algo'] == 'vega' and not v['conds']:
        # the preset class may look at the objective function once to count its values
        calls = None
    for mode in ('collector', 'modular'):
        t = w.run(dict(v, mode=mode, early=v['G'] if v['early'] is None else v['early']), light=True)
        got = pops(t)
        obs.add('assemblies_compared')
        obs.add('generations_compared', len(got))
        what = '%s %s, seed %r, %s varied' % (v['algo'], v['pop'], v['seed'], param)
        if not obs.check(len(got) == len(ref), lambda: '%s: preset class made %d generations, %s %d' % (what, len(ref), mode, len(got))):
            return
        for g, (x, y) in enumerate(zip(ref, got)):
            if not obs.check(core.digest(x) == core.digest(y), lambda: '%s: preset class and %s differ in generation %d' % (what, mode, g)):
                return
        obs.check(core.digest(w.freeze(a.result.best_solution)) == core.digest(w.freeze(t.result.best_solution)), lambda: '%s: different results' % what)
        if calls is not None:
            obs.check(core.digest([c[0] for c in t.obj.calls]) == core.digest(calls), lambda: '%s: different objective calls' % what)
    for bad in a.obj.bad_args[:1]:
        obs.bad(bad)
    # effect of the varied parameter (counted, and required to be seen over the whole check)
    if param == 'data':
        obs.add('effect_data')
    elif case['base'] != v:
        b = w.run(case['base'], light=True)
        if core.digest(pops(b)) != core.digest(ref):
            obs.add('effect_' + param)
        else:
            obs.add('no_effect_seen_' + param)
    printed = 'Best solution' in a.stdout
    obs.check(printed == bool(v['print']), lambda: 'is_print=%r but %s' % (v['print'], 'printed' if printed else 'nothing printed'))
    obs.add('printed_runs' if printed else 'silent_runs')
    obs.sig(v['algo'], v['pop'], param, v['seed'], len(ref))
    if obs.sample is None:
        obs.sample = dict(spec=v, generations=len(ref))
