"""C29 relabelling: the same run on a search space whose values are named differently."""
import random
import core
import world as w

CASES = {'quick': 6000, 'thorough': 25000}
CHUNK = 6
RULE = 'distinct (run shape, kind of relabelling) of pairs of runs compared generation by generation'
REQUIRED = ['pairs_compared', 'generations_compared', 'bin_pairs', 'gray_pairs', 'cat_pairs', 'order_pairs', 'vega_pairs', 'ffga_pairs', 'constrained_pairs', 'falsy_labels', 'none_labels',
            'tuple_labels', 'shifted_ranges', 'scaled_ranges', 'negative_ranges', 'input_population_pairs', 'order_subset_pairs', 'random_transfer_pairs', 'mutated_pairs']
LABELS = ['', None, 0, 'a', (1, 2), 2.5, b'x', -7, 1e300, float('inf'), 'None', frozenset(), True, (), 'zz', -0.5, 10 ** 30, ('n',), '0', 'True', 17, 3 + 4j, frozenset({1}), range(3)]
BIN = [[0, 7, 1], [0, 3, 1], [0, 15, 1], [-8, 7, 1], [1, 64, 1], [-100, 155, 1], [0, 1, 1], [0, 65535, 1]]


def relabel(gens, pop, salt):
    """(other genes, from old to new point, from new to old point, kinds)"""
    rng = random.Random(salt)
    kinds = set()
    if pop == 'order':
        c = rng.choice([-1000, -3, -1, 1, 7, 10 ** 6])
        kinds.add('shift')
        return (gens[0] + c, gens[1] + c, gens[2]), (lambda x: [v + c for v in x]), (lambda x: [v - c for v in x]), kinds, lambda g: tuple(v + c for v in g)
    if pop in ('bin', 'gray'):
        maps = [(rng.choice([1, 1, 2, 8, 0.5]), rng.choice([0, -1, -50, 3, 1000])) for _ in gens]
        kinds.update('shift' if k == 1 else 'scale' for k, c in maps)
        new = tuple((g[0] * k + c, g[1] * k + c, g[2] * k) for g, (k, c) in zip(gens, maps))

        def there(x):
            return [v * k + c for v, (k, c) in zip(x, maps)]

        def back(x):
            return [float(g[0] + round((v - c) / k - g[0])) for v, g, (k, c) in zip(x, gens, maps)]
        return new, there, back, kinds, None
    new, fwd, bwd = [], [], []
    for g in gens:
        opts = w.cat_options(g)
        if isinstance(g, tuple):
            k, c = rng.choice([(1, 5), (1, -100), (3, 0), (2, 1), (1, 1)])
            kinds.add('shift' if k == 1 else 'scale')
            new.append((g[0] * k + c, g[1] * k + c, g[2] * k))
            names = w.cat_options(new[-1])
        else:
            names = rng.sample(LABELS, len(opts)) if len(opts) <= len(LABELS) else ['m%d' % (i * 7) for i in range(len(opts))]
            kinds.add('labels')
            if any(not n for n in names):
                kinds.add('falsy')
            if None in names:
                kinds.add('none')
            if any(isinstance(n, tuple) for n in names):
                kinds.add('tuple')
            new.append(list(names))
        assert len(names) == len(opts)
        fwd.append({key(o): n for o, n in zip(opts, names)})
        bwd.append({key(n): o for o, n in zip(opts, names)})
    def there(x):
        return [f[key(v)] for f, v in zip(fwd, x)]
    return tuple(new), there, (lambda x: [b[key(v)] for b, v in zip(bwd, x)]), kinds, lambda g: tuple(there(g))


def key(v):
    return (type(v).__name__, repr(v))


def gen_case(rng, idx, tier):
    pop = ['bin', 'gray', 'cat', 'cat', 'order'][idx % 5]
    algo = w.pick(rng, ['single'] * 4 + ['vega', 'ffga'])
    s = w.gen_run(rng, tier, algo=algo, pop=pop, max_n=30, max_G=15 if algo == 'single' else 6, big=0.02)
    s['input_data'] = None
    if pop in ('bin', 'gray'):
        s['gens'] = [w.pick(rng, BIN) for _ in range(w.pick(rng, [2, 2, 3, 5]))]
        if all(g == [0, 1, 1] for g in s['gens']):
            s['gens'][0] = BIN[0]       # two cuts need three bits
        if s['input_pop']:
            s['input_pop'] = [[float(rng.randint(g[0], g[1])) for g in s['gens']] for _ in s['input_pop']]
    return dict(spec=s, salt=rng.getrandbits(30))


def run(s, gens, back, ipop):
    t = w.Trace()
    t.light = True
    o = t.obj = w.Objective(s, None, limit=w.call_limit(s))
    strange = t.strange = []

    def f(x):
        try:
            y = back(x)
        except KeyError:
            strange.append(list(x))
            raise
        return o.function(y)
    w.generator.rnd_seed = s['seed']
    core.reset_tap(s['entropy'], s['rng'], w.draw_limit(s))
    try:
        with w.recording(t), core.quiet():
            if s['mode'] == 'class':
                t.result = w.make_class(s, f, None, gens=gens, ipop=ipop).optimize()
            else:
                parts = w.make_parts(s, f, None)
                if s['mode'] == 'collector':
                    c = w.CollectorGA(storage=w.storage_of(s), **parts)
                    c.set_population(getattr(w.ga, w.POPS[s['pop']]), num_individ=s['n'], num_generations=s['G'], gens=gens, input_population=ipop, children_percent=s['cp'], early_stop=s['early'])
                    c.optimize()
                    t.result = c.ga_data
                else:
                    t.result = w.modular(s, parts, gens, ipop)
    finally:
        core.TAP.limit = None
        core.TAP.mode = 'plain'
        w.generator.rnd_seed = None
    return t


def run_case(case, obs):
    s = case['spec']
    gens = w.real_gens(s)
    new, there, back, kinds, geno = relabel(gens, s['pop'], case['salt'])
    ip = w.real_input_population(s)
    same = (lambda x: [float(g[0] + round(v - g[0])) for v, g in zip(x, gens)]) if s['pop'] in ('bin', 'gray') else list
    a = run(s, gens, same, ip)
    what = '%s %s %s with genes %s named %s' % (s['algo'], s['pop'], s['mode'], str(gens)[:80], str(new)[:80])
    b = run(s, new, back, [there(x) for x in ip] if ip else None)
    obs.add('pairs_compared')
    if not obs.check(len(a.gens) == len(b.gens), lambda: '%s: %d generations instead of %d' % (what, len(b.gens), len(a.gens))):
        return
    for g, (x, y) in enumerate(zip(a.gens, b.gens)):
        obs.add('generations_compared')
        u = [(repr(geno(i.g) if geno else i.g), repr(i.score), repr(i.obj), i.feasible, i.rank) for i in x['pop']]
        v = [(repr(i.g), repr(i.score), repr(i.obj), i.feasible, i.rank) for i in y['pop']]
        if not obs.check(u == v, lambda: '%s: generation %d is not the renamed one: %r, expected %r' % ((what, g) + next(((q, p) for p, q in zip(u, v) if p != q), (len(v), len(u))))):
            return
        obs.check(x['no_improve'] == y['no_improve'], lambda: '%s: generation %d counts %r generations without improvement, not %r' % (what, g, y['no_improve'], x['no_improve']))
        if geno is None and not obs.check(all(len(i.p) == len(j.p) and all(abs(p - q) <= 1e-9 * max(1.0, abs(q)) for p, q in zip(there(i.p), j.p)) for i, j in zip(x['pop'], y['pop'])), lambda: '%s: generation %d: the phenotypes are not the renamed ones' % (what, g)):
            return
    obs.check([(repr(c[0]), repr(c[1])) for c in a.obj.calls] == [(repr(c[0]), repr(c[1])) for c in b.obj.calls], lambda: '%s: other objective calls' % what)
    obs.check(a.result.best_solution['idx_generation'] == b.result.best_solution['idx_generation'], lambda: '%s: best solution of another generation' % what)
    obs.add(s['pop'] + '_pairs')
    obs.add('vega_pairs', s['algo'] == 'vega')
    obs.add('ffga_pairs', s['algo'] == 'ffga')
    obs.add('constrained_pairs', bool(s['conds']))
    obs.add('falsy_labels', 'falsy' in kinds)
    obs.add('none_labels', 'none' in kinds)
    obs.add('tuple_labels', 'tuple' in kinds)
    obs.add('shifted_ranges', 'shift' in kinds)
    obs.add('scaled_ranges', 'scale' in kinds)
    obs.add('negative_ranges', s['pop'] in ('bin', 'gray') and any(g[1] <= 0 for g in new) or s['pop'] == 'order' and new[1] < 0)
    obs.add('input_population_pairs', bool(ip))
    obs.add('order_subset_pairs', s['pop'] == 'order' and gens[1] - gens[0] + 1 > gens[2])
    obs.add('random_transfer_pairs', s['transfer'] == 'random')
    obs.add('mutated_pairs', len(a.gens) > 2)
    obs.sig(w.shape_sig(s), tuple(sorted(kinds)), len(gens))
    if obs.sample is None and len(a.gens) > 3:
        obs.sample = dict(spec=s, renamed=str(new)[:300], generations=len(a.gens))
