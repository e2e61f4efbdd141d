"""C33 conditions: runs whose conditions are written differently but violated alike are the same."""
import copy
import random
import zlib
import core
import world as w

CASES = {'quick': 4800, 'thorough': 20000}
CHUNK = 6
KINDS = ['other', 'perm', 'extra', 'none', 'sign', 'sign', 'perm']
RULE = 'distinct (run shape, rewriting of the conditions, signs) of pairs of runs compared generation by generation'
REQUIRED = ['pairs_compared', 'generations_compared', 'satisfied_values_changed', 'conditions_permuted', 'satisfied_conditions_added', 'conditions_dropped', 'equality_values_negated', 'objective_moved',
            'vega_pairs', 'ffga_pairs', 'static_pairs', 'dynamic_pairs', 'adaptive_pairs', 'violated_pairs', 'feasible_and_infeasible', 'many_conditions', 'target_pairs']


def gen_case(rng, idx, tier):
    kind = KINDS[idx % len(KINDS)]
    algo = 'single' if kind in ('other', 'sign') else w.pick(rng, ['single', 'single', 'single', 'vega', 'ffga'])
    s = w.gen_run(rng, tier, algo=algo, constrained=True, max_n=30, max_G=15 if algo == 'single' else 6, big=0.05)
    if kind == 'sign' and '!=' not in s['conds']:
        j = next(j for j, c in enumerate(s['conds']) if c != 'optimize')
        s['conds'][j] = '!='
        if s['penalty']['kind'] == 'static':
            s['penalty']['tables'][0]['sign'] = '!='
    if s['penalty']['kind'] == 'static':
        for t in s['penalty']['tables']:
            t['r'] = [max(0.5, round(r * 2) / 2) for r in t['r']]
    s['print'] = False
    s['wrap'] = 'tuple'
    s['ret'] = 'float'
    return dict(spec=s, kind=kind, salt=rng.getrandbits(30))


def quantised(v, cond, met):
    """Multiples of 1/4 below 1000, so that sums of powers do not depend on their order; met: no violations."""
    q = round(v * 4) / 4
    q = q if abs(q) < 1000 else (q % 1000 if q > 0 else -(-q % 1000))
    if cond == 'optimize':
        return v
    if met:
        return -abs(q) if cond == '<=' else 0.0
    return q


class Rewritten(w.Objective):
    def __init__(self, case, data, change, conds):
        s = case['spec']
        super().__init__(s, data, limit=w.call_limit(s))
        inner = self.function
        self.violated = self.met = 0
        # at most two conditions that can be violated are permuted: the sum of two numbers does not depend on their order
        quiet = [j for j, c in enumerate(s['conds']) if c != 'optimize']
        random.Random(case['salt'] + 1).shuffle(quiet)
        quiet = set(quiet[2:]) if case['kind'] == 'perm' else set()

        def f(*args):
            inner(*args)
            point, vals = self.calls[-1]
            q = [quantised(v, c, case['kind'] == 'none' or j in quiet) for j, (v, c) in enumerate(zip(vals, s['conds']))]
            if case['kind'] == 'none' and s['algo'] != 'single':
                q = [v if c == 'optimize' else 0.0 for v, c in zip(q, s['conds'])]
            bad = any(c == '<=' and v > 0 or c == '!=' and v != 0 for v, c in zip(q, s['conds']))
            self.violated += bad
            self.met += not bad
            self.calls[-1] = (point, tuple(v for v, c in zip(q, s['conds']) if c == 'optimize'))
            r = change(q, point)
            if conds is None:
                return r[0] if s['algo'] == 'single' else tuple(r)
            return tuple(r)
        self.function = f


def rewrite(case):
    """(specification with the conditions rewritten, function from old values and point to new values)"""
    s, kind = case['spec'], case['kind']
    rng = random.Random(case['salt'])
    n = copy.deepcopy(s)
    conds = s['conds']
    if kind == 'other':
        def change(q, point):
            h = zlib.crc32(repr(point).encode())
            return [v if c != '<=' or v > 0 else -[0, 0.25, 7, 1e9, 1e-300, 3.5][(h + j) % 6] for j, (v, c) in enumerate(zip(q, conds))]
        return n, change
    if kind == 'sign':
        def change(q, point):
            return [-v if c == '!=' else v for v, c in zip(q, conds)]
        return n, change
    if kind == 'none':
        n['conds'], n['penalty'] = None, None
        n['objs'] = [o for o, c in zip(s['objs'], conds) if c == 'optimize']
        return n, lambda q, point: [v for v, c in zip(q, conds) if c == 'optimize']
    # positions of the conditions among each other, the objectives stay in order
    where = [j for j, c in enumerate(conds) if c != 'optimize']
    opts = [j for j, c in enumerate(conds) if c == 'optimize']
    tables = s['penalty'].get('tables')
    tab = dict(zip(where, tables)) if tables else {}
    items = [('old', j) for j in where]
    if kind == 'perm':
        rng.shuffle(items)
    else:
        for _ in range(rng.choice([1, 1, 2, 4])):
            c = rng.choice(['<=', '!='])
            items.insert(rng.randrange(len(items) + 1), ('new', c, rng.choice([0, 0.0, -1, -2.5, -1e6]) if c == '<=' else rng.choice([0, 0.0, -0.0])))
    slots = sorted(rng.sample(range(len(items) + len(opts)), len(opts)))
    order, o, it = [], iter(opts), iter(items)
    for k in range(len(items) + len(opts)):
        order.append(('old', next(o)) if k in slots else next(it))
    n['conds'] = [conds[x[1]] if x[0] == 'old' else x[1] for x in order]
    if tables:
        n['penalty']['tables'] = [tab[x[1]] if x[0] == 'old' else dict(sign=x[1], iv=[[0, 1], [1, float('inf')]], r=[3.0, 9.0]) for x in order if x[0] == 'new' or x[1] in tab]
    return n, lambda q, point: [q[x[1]] if x[0] == 'old' else x[2] for x in order]


def run(case, spec, change):
    t = w.Trace()
    t.light = True
    data = w.input_object(spec['input_data'])
    t.obj = Rewritten(case, data, change, spec['conds'])
    w.generator.rnd_seed = spec['seed']
    core.reset_tap(spec['entropy'], spec['rng'], w.draw_limit(spec))
    try:
        with w.recording(t), core.quiet():
            t.result = w.drive(spec, t.obj.function, data)
    finally:
        core.TAP.limit = None
        core.TAP.mode = 'plain'
        w.generator.rnd_seed = None
    return t


def run_case(case, obs):
    s, kind = case['spec'], case['kind']
    new, change = rewrite(case)
    a, b = run(case, s, lambda q, point: q), run(case, new, change)
    what = '%s %s %s with conditions %s written as %s (%s, %s penalty)' % (s['algo'], s['pop'], s['mode'], s['conds'], new['conds'], kind, s['penalty']['kind'])
    obs.add('pairs_compared')
    if not obs.check(len(a.gens) == len(b.gens), lambda: '%s: %d generations instead of %d' % (what, len(b.gens), len(a.gens))):
        return
    for g, (x, y) in enumerate(zip(a.gens, b.gens)):
        obs.add('generations_compared')
        if not obs.check([i.g for i in x['pop']] == [i.g for i in y['pop']], lambda: '%s: generation %d has other individuals' % (what, g)):
            return
        for i, j in zip(x['pop'], y['pop']):
            oi, oj = (i.obj, j.obj) if kind != 'none' or s['algo'] == 'single' else (tuple(i.obj), tuple(j.obj))
            if not obs.check(i.score == j.score and oi == oj and i.feasible == j.feasible and i.rank == j.rank,
                             lambda: '%s: generation %d: score %r, objective %r, feasible %r, rank %r, expected %r, %r, %r, %r' % (what, g, j.score, oj, j.feasible, j.rank, i.score, oi, i.feasible, i.rank)):
                return
        if not obs.check(x['no_improve'] == y['no_improve'], lambda: '%s: generation %d: %r generations without improvement instead of %r' % (what, g, y['no_improve'], x['no_improve'])):
            return
    obs.check(s['algo'] != 'single' and kind == 'none' or [c[0] for c in a.obj.calls] == [c[0] for c in b.obj.calls], lambda: '%s: other objective calls' % what)
    obs.check(a.result.best_solution['idx_generation'] == b.result.best_solution['idx_generation'], lambda: '%s: best solution of another generation' % what)
    obs.add({'other': 'satisfied_values_changed', 'perm': 'conditions_permuted', 'extra': 'satisfied_conditions_added', 'none': 'conditions_dropped', 'sign': 'equality_values_negated'}[kind])
    if new['conds']:
        obs.add('objective_moved', new['conds'].index('optimize') != s['conds'].index('optimize'))
        obs.add('many_conditions', len(new['conds']) > 5)
    obs.add('vega_pairs', s['algo'] == 'vega')
    obs.add('ffga_pairs', s['algo'] == 'ffga')
    obs.add(s['penalty']['kind'] + '_pairs')
    obs.add('violated_pairs', a.obj.violated > 0)
    obs.add('feasible_and_infeasible', a.obj.violated > 0 < a.obj.met)
    obs.add('target_pairs', s['target'] is not None)
    obs.sig(w.shape_sig(s), kind, tuple(s['conds']), s['penalty']['kind'])
    if obs.sample is None and len(a.gens) > 3:
        obs.sample = dict(spec=s, kind=kind, conditions=new['conds'], generations=len(a.gens))
