"""C32 number types: the same values returned as other number types and in other containers give the same run."""
import fractions
import math
import zlib
import numpy as np
import core
import world as w

CASES = {'quick': 4800, 'thorough': 20000}
CHUNK = 6
# name: (maker, smallest value, largest value, denominator)
TYPES = {'int': (int, -10 ** 12, 10 ** 12, 1), 'float': (float, -10 ** 9, 10 ** 9, 8), 'bool': (bool, 0, 1, 1), 'np.bool': (np.bool_, 0, 1, 1),
         'int8': (np.int8, -128, 127, 1), 'int16': (np.int16, -32768, 32767, 1), 'int32': (np.int32, -2 ** 31, 2 ** 31 - 1, 1), 'int64': (np.int64, -2 ** 52, 2 ** 52, 1),
         'uint8': (np.uint8, 0, 255, 1), 'uint16': (np.uint16, 0, 65535, 1), 'uint32': (np.uint32, 0, 2 ** 32 - 1, 1), 'uint64': (np.uint64, 0, 2 ** 52, 1),
         'float16': (np.float16, -200, 200, 4), 'float32': (np.float32, -10 ** 5, 10 ** 5, 8), 'float64': (np.float64, -10 ** 9, 10 ** 9, 8), 'fraction': (fractions.Fraction, -1000, 1000, 4),
         'fraction64': (fractions.Fraction, -10 ** 20, 10 ** 20, 1)}
RULE = 'distinct (run shape, number type, container) of pairs of runs compared generation by generation'
REQUIRED = ['pairs_compared', 'generations_compared', 'vega_pairs', 'ffga_pairs', 'constrained_pairs', 'target_pairs', 'violated_pairs', 'array_results', 'bare_results', 'zero_dim_results', 'list_results', 'wide_values',
            'static_pairs', 'dynamic_pairs', 'adaptive_pairs', 'powers_of_violations'] + ['type_' + t for t in TYPES]


def gen_case(rng, idx, tier):
    names = list(TYPES)
    name = names[idx % len(names)]
    algo = ['single', 'single', 'single', 'vega', 'ffga'][(idx // len(names)) % 5]
    kw = dict(constrained=False) if name.startswith('fraction') else {}
    s = w.gen_run(rng, tier, algo=algo, max_n=30, max_G=15 if algo == 'single' else 5, big=0.02, **kw)
    if name.startswith('fraction'):
        s['target'] = None
    elif s['target'] is not None:
        one = not isinstance(s['target'], list)
        t = [w.pick(rng, [0, 3, 100.5, -7, 2 ** 31, 0.0]) for _ in range(1 if one else len(s['target']))]
        s['target'] = t[0] if one else t
    s['print'] = False
    n = len(s['objs'])
    single = algo == 'single' and not s['conds']
    return dict(spec=s, type=name, box=w.pick(rng, ['bare', 'zero', 'list', 'arr', 'tuple'] if single else ['tuple', 'list', 'arr']),
                wide=[rng.random() < 0.4 for _ in range(n)], mod=[w.pick(rng, [5, 50, 1000]) for _ in range(n)], mixed=rng.random() < 0.2 and name != 'fraction64')


def quantity(case, j, v, cond):
    """A value of the type's range made of the objective value v; constraint values are often satisfied."""
    maker, lo, hi, den = TYPES[case['type']]
    if v == math.inf:
        k = 17
    elif case['mod'][j] == 1000:
        k = zlib.crc32(repr(v).encode())
    else:
        k = int(math.floor(v)) if abs(v) < 1e15 else int(v / 1e12)
    if cond == '<=' and k % 3 == 0:
        return max(lo, -(k % 4)) if den == 1 else float(max(lo, -(k % 4)))
    if cond == '!=' and k % 3 == 0:
        return 0 if den == 1 else 0.0
    if case['wide'][j] and case['type'] == 'fraction64':
        r = (2 ** 60 + k % 7) * (-1) ** (k % 2)          # neighbours that are one float
    elif case['wide'][j]:
        r = lo + (k * 2654435761) % (hi - lo + 1)
    else:
        r = max(lo, -10) + k % case['mod'][j]
    r = max(lo, min(hi, r))
    return r if den == 1 else r + (k % den) / den if r < hi else float(r)


class Typed(w.Objective):
    def __init__(self, case, data, typed):
        s = case['spec']
        super().__init__(s, data, limit=w.call_limit(s))
        inner = self.function
        maker = TYPES[case['type']][0]
        conds = s['conds'] or ['optimize'] * len(s['objs'])
        self.violated = 0
        self.biggest = 0.0

        def f(*args):
            inner(*args)
            point, vals = self.calls[-1]
            q = [quantity(case, j, float(v), c) for j, (v, c) in enumerate(zip(vals, conds))]
            if case['mixed']:            # every second value is a float
                q = [v if j % 2 == 0 else float(v) for j, v in enumerate(q)]
            self.calls[-1] = (point, tuple(q))
            viol = [v for v, c in zip(q, conds) if c == '<=' and v > 0 or c == '!=' and v != 0]
            self.violated += bool(viol)
            self.biggest = max([self.biggest] + [abs(v) for v in viol])
            box = case['box']
            if not typed:
                return q[0] if s['algo'] == 'single' and not s['conds'] else tuple(q)
            if case['mixed']:
                q = [maker(v) if j % 2 == 0 else v for j, v in enumerate(q)]
            else:
                q = [maker(v) for v in q]
            if box == 'bare':
                return q[0]
            if box == 'zero':
                return np.array(q[0])
            if box == 'list':
                return list(q)
            return tuple(q) if box == 'tuple' or case['type'].startswith('fraction') or case['mixed'] else np.array(q)
        self.function = f


def run(case, typed):
    s = case['spec']
    t = w.Trace()
    t.light = True
    data = w.input_object(s['input_data'])
    t.obj = Typed(case, data, typed)
    w.generator.rnd_seed = s['seed']
    core.reset_tap(s['entropy'], s['rng'], w.draw_limit(s))
    try:
        with w.recording(t), core.quiet(), np.errstate(all='ignore'):
            t.result = w.drive(s, t.obj.function, data)
    finally:
        core.TAP.limit = None
        core.TAP.mode = 'plain'
        w.generator.rnd_seed = None
    return t


def eq(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    return bool(a == b) or bool(a != a) and bool(b != b)


def run_case(case, obs):
    s = case['spec']
    a, b = run(case, False), run(case, True)
    what = '%s %s %s, values as %s in %s' % (s['algo'], s['pop'], s['mode'], case['type'], case['box'])
    obs.add('pairs_compared')
    if not obs.check(len(a.gens) == len(b.gens), lambda: '%s: %d generations instead of %d' % (what, len(b.gens), len(a.gens))):
        return
    for g, (x, y) in enumerate(zip(a.gens, b.gens)):
        obs.add('generations_compared')
        if not obs.check([i.g for i in x['pop']] == [i.g for i in y['pop']], lambda: '%s: generation %d has other individuals' % (what, g)):
            return
        for i, j in zip(x['pop'], y['pop']):
            if not obs.check(eq(i.score, j.score) and eq(i.obj, j.obj) and i.feasible == j.feasible and i.rank == j.rank,
                             lambda: '%s: generation %d: score %r, objective %r, feasible %r, expected %r, %r, %r' % (what, g, j.score, j.obj, j.feasible, i.score, i.obj, i.feasible)):
                return
        if not obs.check(x['no_improve'] == y['no_improve'], lambda: '%s: generation %d: %r generations without improvement instead of %r' % (what, g, y['no_improve'], x['no_improve'])):
            return
    p, q = a.result.best_solution, b.result.best_solution
    obs.check(p['idx_generation'] == q['idx_generation'], lambda: '%s: best solution of generation %r instead of %r' % (what, q['idx_generation'], p['idx_generation']))
    if s['algo'] == 'single':
        obs.check(p['genotype'] == q['genotype'] and eq(p['score'], q['score']), lambda: '%s: other best solution' % what)
    else:
        obs.check([i['genotype'] for i in p['pareto_set']] == [i['genotype'] for i in q['pareto_set']], lambda: '%s: other Pareto set' % what)
    obs.add('type_' + case['type'])
    obs.add('vega_pairs', s['algo'] == 'vega')
    obs.add('ffga_pairs', s['algo'] == 'ffga')
    obs.add('constrained_pairs', bool(s['conds']))
    obs.add('target_pairs', s['target'] is not None)
    obs.add('violated_pairs', b.obj.violated > 0)
    obs.add('powers_of_violations', b.obj.biggest > 2 ** 31)
    obs.add({'bare': 'bare_results', 'zero': 'zero_dim_results', 'list': 'list_results', 'arr': 'array_results', 'tuple': 'tuple_results'}[case['box']])
    obs.add('wide_values', any(case['wide']))
    if s['penalty']:
        obs.add(s['penalty']['kind'] + '_pairs')
    obs.sig(w.shape_sig(s), case['type'], case['box'])
    if obs.sample is None and len(a.gens) > 3:
        obs.sample = dict(spec=s, type=case['type'], box=case['box'], generations=len(a.gens))
