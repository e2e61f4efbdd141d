"""C27 order only: the same run with the objective values replaced by a strictly increasing function of them."""
import math
import random
import core
import world as w

CASES = {'quick': 3000, 'thorough': 25000}
CHUNK = 6
RULE = 'distinct (run shape, transformation, number of objectives) of pairs of runs compared generation by generation'
REQUIRED = ['pairs_compared', 'generations_compared', 'single_tournament', 'single_ranked', 'vega_pairs', 'ffga_pairs', 'ffga_balanced', 'nonlinear_pairs', 'huge_pairs', 'tiny_pairs',
            'negative_pairs', 'positive_pairs', 'tied_generations', 'improving_pairs', 'random_transfer_pairs', 'early_stopped_pairs', 'exact_integer_pairs']
MAPS = ['count', 'below', 'clumped', 'geometric', 'random', 'ints', 'double', 'tiny', 'huge', 'shift', 'bigints']


def new_values(name, values, salt):
    """A strictly increasing map of the values seen to other ones, as a dictionary."""
    rng = random.Random(salt)
    old = sorted(set(values))
    m = len(old)
    if name == 'count':
        new = [float(i) for i in range(m)]
    elif name == 'ints':
        new = [i * 3 - m for i in range(m)]
    elif name == 'bigints':
        new = [2 ** 60 + i for i in range(m)]     # as floats they would all be equal
    elif name == 'below':
        new = [-1.0 - (m - i) / 8 for i in range(m)]
    elif name == 'clumped':
        new, v = [], 1.0
        for _ in range(m):
            v = math.nextafter(v, 2.0)
            new.append(v)
    elif name == 'geometric':
        new = [2.0 ** (i - m // 2) for i in range(m)] if m < 900 else [float(i) ** 3 for i in range(m)]
    elif name == 'random':
        new, v = [], -50.0
        for _ in range(m):
            v += rng.choice([1e-6, 0.5, 3.0, 1e5])
            new.append(v)
    else:
        f = {'double': 2.0, 'tiny': 2.0 ** -200, 'huge': 2.0 ** 300, 'shift': 1.0}[name]
        new = [float(v) * f for v in old]
    return dict(zip(old, new)) if all(x < y for x, y in zip(new, new[1:])) else None


class Mapped(w.Objective):
    def __init__(self, spec, data, limit, maps):
        super().__init__(spec, data, limit=limit)
        inner = self.function

        def f(*args):
            r = inner(*args)
            vals = [r] if spec['algo'] == 'single' and spec['wrap'] is None else list(r)
            new = []
            for v, m in zip(vals, maps):
                if v not in m:
                    self.strange += 1
                    return r
                new.append(m[v])
            if spec['algo'] == 'single' and spec['wrap'] is None:
                return new[0]
            return new if spec['wrap'] == 'list' else tuple(new)
        self.strange = 0
        self.function = f


def gen_case(rng, idx, tier):
    algo = ['single', 'single', 'single', 'vega', 'ffga'][idx % 5]
    kw = {}
    if algo != 'ffga':
        kw['sel'] = w.pick(rng, ['tour', 'rank'])
    s = w.gen_run(rng, tier, algo=algo, constrained=False, max_n=40, max_G=25 if algo == 'single' else 10, **kw)
    s['target'] = None
    if s['wrap'] == 'arr':
        s['wrap'] = 'tuple'
    n = len(s['objs'])
    return dict(spec=s, maps=[w.pick(rng, MAPS) for _ in range(n)], salt=rng.getrandbits(30))


def run(s, maps):
    """The run of the specification; maps None: objective values as they are."""
    t = w.Trace()
    t.light = True
    data = w.input_object(s['input_data'])
    if maps is None:
        return w.run(s, light=True)
    t.obj = Mapped(s, data, w.call_limit(s), maps)
    w.generator.rnd_seed = s['seed']
    core.reset_tap(s['entropy'], s['rng'], w.draw_limit(s))
    try:
        with w.recording(t), core.quiet():
            t.result = w.drive(s, t.obj.function, data)
    finally:
        core.TAP.limit = None
        core.TAP.mode = 'plain'
        w.generator.rnd_seed = None
    return t


def run_case(case, obs):
    s, maps = case['spec'], case['maps']
    a = run(s, None)
    table = [new_values(m, [c[1][j] for c in a.obj.calls], case['salt']) for j, m in enumerate(maps)]
    if None in table:
        obs.add('maps_not_exact')
        return
    b = run(s, table)
    what = '%s %s %s, %s selection, values mapped by %s' % (s['algo'], s['pop'], s['mode'], s['sel']['kind'], '/'.join(maps))
    obs.add('pairs_compared')
    if not obs.check(len(a.gens) == len(b.gens), lambda: '%s: %d generations instead of %d' % (what, len(b.gens), len(a.gens))):
        return
    for g, (x, y) in enumerate(zip(a.gens, b.gens)):
        obs.add('generations_compared')
        obs.add('tied_generations', len({repr(i.score) for i in x['pop']}) < len(x['pop']))
        if not obs.check([i.g for i in x['pop']] == [i.g for i in y['pop']], lambda: '%s: generation %d has other individuals' % (what, g)):
            return
        if not obs.check(x['no_improve'] == y['no_improve'], lambda: '%s: generation %d: %r generations without improvement instead of %r' % (what, g, y['no_improve'], x['no_improve'])):
            return
        if s['algo'] == 'single':
            obs.add('improving_pairs', g > 0 and x['no_improve'] == 0)
        if s['algo'] != 'single':
            obs.check([i.rank for i in x['pop']] == [i.rank for i in y['pop']], lambda: '%s: generation %d has other ranks' % (what, g))
    obs.check([c[0] for c in a.obj.calls] == [c[0] for c in b.obj.calls], lambda: '%s: other objective calls' % what)
    p, q = a.result.best_solution, b.result.best_solution
    obs.check(p['idx_generation'] == q['idx_generation'], lambda: '%s: best solution of generation %r instead of %r' % (what, q['idx_generation'], p['idx_generation']))
    if s['algo'] == 'single':
        obs.check(p['genotype'] == q['genotype'], lambda: '%s: other best solution' % what)
        v = [c[1][0] for c in a.obj.calls]
        obs.add('negative_pairs', all(e < 0 for e in v))
        obs.add('positive_pairs', all(e > 0 for e in v))
    else:
        obs.check([i['genotype'] for i in p['pareto_set']] == [i['genotype'] for i in q['pareto_set']], lambda: '%s: other Pareto set' % what)
    obs.add('single_tournament', s['algo'] == 'single' and s['sel']['kind'] == 'tour')
    obs.add('single_ranked', s['algo'] == 'single' and s['sel']['kind'] == 'rank')
    obs.add('vega_pairs', s['algo'] == 'vega')
    obs.add('ffga_pairs', s['algo'] == 'ffga')
    obs.add('ffga_balanced', s['algo'] == 'ffga' and s['sel']['kind'] == 'bal')
    obs.add('nonlinear_pairs', bool(set(maps) - {'double', 'tiny', 'huge', 'shift'}))
    obs.add('huge_pairs', 'huge' in maps)
    obs.add('exact_integer_pairs', 'bigints' in maps)
    obs.add('tiny_pairs', 'tiny' in maps)
    obs.add('random_transfer_pairs', s['transfer'] == 'random')
    obs.add('early_stopped_pairs', len(a.gens) < s['G'])
    obs.sig(w.shape_sig(s), tuple(maps))
    if obs.sample is None and len(a.gens) > 3:
        obs.sample = dict(spec=s, maps=maps, generations=len(a.gens))
