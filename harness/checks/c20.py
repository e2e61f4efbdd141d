"""C20 input population: the first generation matched against the user's individuals, the rest tested for uniformity, the result compared, bad input offered."""
import core
import world as w
from baumeva import CollectorGA
import baumeva.ga as ga

CASES = {'quick': 4800, 'thorough': 24000}
CHUNK = 8
RULE = 'distinct (scenario, population kind, mode, share of input individuals, refusal kind, boundary) decided'
REQUIRED = ['first_generations_matched', 'input_individuals_matched', 'full_input_populations', 'off_grid_values', 'boundary_values', 'results_compared', 'duplicate_inputs', 'uniform_cells_tested',
            'oversize_refused', 'wrong_length_refused', 'out_of_range_refused', 'empty_inputs', 'gray_inputs', 'order_inputs', 'cat_inputs', 'tuple_inputs', 'independence_cells_tested', 'ffga_results_compared',
            'valid_edge_accepted', 'no_input_populations', 'inputs_over_64']


def gen_case(rng, idx, tier):
    kind = ['run', 'run', 'uniform', 'refuse'][idx % 4]
    if kind == 'run':
        s = w.gen_run(rng, tier, algo=w.pick(rng, ['single'] * 4 + ['vega', 'ffga']), max_n=30, max_G=8, inputs=False)
        m = w.pick(rng, [1, 1, 2, s['n'] // 2, s['n'] - 1, s['n'], s['n']])
        s['input_pop'] = [w.random_point(rng, s) for _ in range(max(1, m))]
        if rng.random() < 0.2:
            s['input_pop'] = [list(s['input_pop'][0]) for _ in s['input_pop']]
        if idx % 100 == 40:            # many of them
            s = w.gen_run(rng, tier, algo='single', max_G=2, big=0, inputs=False, size='s')
            s.update(n=w.pick(rng, [130, 260, 300]), G=2, sel=dict(s['sel'], k=3))
            s['input_pop'] = [w.random_point(rng, s) for _ in range(w.pick(rng, [70, 120, s['n']]))]
            return dict(type=kind, spec=s, tuples=False)
        if rng.random() < 0.06:
            s['input_pop'] = []
        return dict(type=kind, spec=s, tuples=rng.random() < 0.15)
    if kind == 'uniform':
        pop = w.pick(rng, ['bin', 'gray', 'cat', 'order'])
        s = dict(pop=pop, gens=w.gen_genes(rng, pop, 's'))
        s['input_pop'] = [w.random_point(rng, s) for _ in range(w.pick(rng, [0, 1, 10]))] or None
        return dict(type=kind, spec=s, n=3000 if tier == 'quick' else 8000, seed=w.pick(rng, [None, None, 3]), entropy='%x' % rng.getrandbits(40))
    s = w.gen_run(rng, tier, algo=w.pick(rng, ['single', 'single', 'single', 'vega', 'ffga']), max_n=10, max_G=3, big=0, inputs=False)
    what = w.pick(rng, ['oversize', 'long', 'short', 'above', 'below', 'edge'] if s['pop'] in ('bin', 'gray') else ['oversize', 'edge'])
    m = w.pick(rng, [1, s['n']])
    ip = [w.random_point(rng, s) for _ in range(s['n'] + w.pick(rng, [1, 2, 20]) if what == 'oversize' else m)]
    if what in ('long', 'short', 'above', 'below'):
        x = ip[rng.randrange(len(ip))]
        j = rng.randrange(len(x))
        g = s['gens'][j]
        step = (g[1] - g[0]) / w.grid(g)[1]
        d = w.pick(rng, [step, step / 100, step * 0.4, abs(g[1]) + 1, 1e9])
        if what == 'long':
            x.append(g[0])
        elif what == 'short':
            x.pop()
        elif what == 'above':
            x[j] = g[1] + d
        else:
            x[j] = g[0] - d
        if what in ('above', 'below') and g[0] <= x[j] <= g[1]:
            x[j] = g[1] + 1
    if what == 'edge' and s['pop'] in ('bin', 'gray'):
        ip = [[g[rng.randrange(2)] for g in s['gens']] for _ in range(s['n'])]
    elif what == 'edge':
        ip = [w.random_point(rng, s) for _ in range(s['n'])]
    s['input_pop'] = ip
    return dict(type=kind, spec=s, what=what)


def accepts(s, gens, x, ind):
    """Is the individual a legal image of the input x?"""
    if s['pop'] in ('bin', 'gray'):
        p = w.decode(gens, ind.g, s['pop'] == 'gray')
        if p is None:
            return False
        for v, q, g, (m, top) in zip(x, p, gens, w.grids(gens)):
            step = (g[1] - g[0]) / top
            if abs(v - q) > step / 2 * (1 + 1e-6) + 1e-9 * max(abs(g[0]), abs(g[1])):
                return False
        return True
    return len(ind.g) == len(x) and all(w.same_value(a, b) for a, b in zip(ind.g, x))


def matched(s, gens, xs, pop):
    """Injective assignment of the inputs to individuals."""
    if all(accepts(s, gens, x, i) for x, i in zip(xs, pop)):
        return True
    opts = [[j for j, i in enumerate(pop) if accepts(s, gens, x, i)] for x in xs]
    owner = {}

    def place(a, seen):
        for j in opts[a]:
            if j not in seen:
                seen.add(j)
                if j not in owner or place(owner[j], seen):
                    owner[j] = a
                    return True
        return False
    return all(place(a, set()) for a in range(len(xs)))


def run_case(case, obs):
    s = case['spec']
    gens = w.real_gens(s)
    if case['type'] == 'uniform':
        return uniform(case, s, gens, obs)
    if case['type'] == 'refuse':
        return refuse(case, s, obs)
    if case['tuples']:
        s = dict(s, input_pop=[tuple(x) for x in s['input_pop']])
        keep = w.real_input_population
        w.real_input_population = lambda spec: [tuple(x) for x in spec['input_pop']]
        try:
            t = w.run(s)
        finally:
            w.real_input_population = keep
        obs.add('tuple_inputs')
    else:
        t = w.run(s)
    xs = s['input_pop']
    first = t.first_fill
    n = s['n']
    obs.add('first_generations_matched')
    obs.add('input_individuals_matched', len(xs))
    obs.add('empty_inputs', not xs)
    obs.add('full_input_populations', len(xs) == n)
    obs.add('inputs_over_64', len(xs) > 64)
    obs.add('duplicate_inputs', len(set(map(repr, xs))) < len(xs))
    obs.add('gray_inputs', s['pop'] == 'gray')
    obs.add('order_inputs', s['pop'] == 'order')
    obs.add('cat_inputs', s['pop'] == 'cat')
    if s['pop'] in ('bin', 'gray'):
        for x in xs:
            obs.add('boundary_values', any(v in (g[0], g[1]) for v, g in zip(x, gens)))
            obs.add('off_grid_values', w.in_space(s, list(x)) is not None)
    for where, pop in (('first fill', first), ('first evaluated generation', t.gens[0]['pop'])):
        if not obs.check(len(pop) == n, lambda: '%s has %d individuals, %d declared' % (where, len(pop), n)):
            return
        if not obs.check(matched(s, gens, xs, pop), lambda: '%s does not contain the input population %r: %r' % (where, xs[:3], [(i.p or i.g) for i in pop[:5]])):
            return
    obs.check(all(w.in_space(s, list(i.point())) is None for i in first), lambda: 'first generation leaves the space')
    if not s['conds'] and xs:
        # values at the points where the inputs ended up
        pts = [i.point() for i in first if any(accepts(s, gens, x, i) for x in xs)]
        vals = [w.values_of(s, list(p)) for p in pts]
        if s['algo'] == 'single':
            top = max(w.hyperbola(s['target'], v[0]) for v in vals)
            obs.add('results_compared')
            obs.check(t.result.best_solution['score'] >= top * (1 - 1e-12) if top > 0 else t.result.best_solution['score'] >= top * (1 + 1e-12) - 1e-300,
                      lambda: 'result %r is worse than the best input individual %r' % (t.result.best_solution['score'], top))
        elif s['algo'] == 'ffga' and s['transfer'] == 'best':
            got = [tuple(x['obj_score']) for x in t.result.best_solution['pareto_set']]
            obs.add('ffga_results_compared')
            obs.check(all(any(q == tuple(v) or w.dominates(q, v) for q in got) for v in vals), 'an input individual is neither in the Pareto set nor dominated by it')
    obs.sig('run', s['pop'], s['mode'], s['algo'], min(len(xs), 3), len(xs) == n, bool(s['conds']))
    if obs.sample is None:
        obs.sample = dict(spec=s, first=[repr(i.point()) for i in first[:4]])


def blocks(cell, idx, R, what):
    """Places in a long list of values: eight stretches of it and every third value."""
    for q in range(8):
        lo, hi = R * q // 8, R * (q + 1) // 8
        if not cell(sum(lo <= x < hi for x in idx), (hi - lo) / R, '%s is one of the values %d to %d of %d' % (what, lo, hi - 1, R)):
            return False
    for q in range(3):
        if not cell(sum(x % 3 == q for x in idx), len(range(q, R, 3)) / R, '%s is a value with index %d modulo 3' % (what, q)):
            return False
    return True


def uniform(case, s, gens, obs):
    core.reset_tap(case['entropy'])
    m = len(s['input_pop'] or [])
    n = case['n'] + m
    w.generator.rnd_seed = case['seed']
    try:
        pop = w.make_population(dict(s, n=n))
        pop.fill()
    finally:
        w.generator.rnd_seed = None
    inds = w.snap(pop)
    obs.add('no_input_populations', m == 0)
    if not obs.check(len(inds) == n, 'wrong size'):
        return
    # remove the inputs, wherever they are
    rest = list(inds)
    for x in s['input_pop'] or []:
        for j, i in enumerate(rest):
            if accepts(s, gens, x, i):
                del rest[j]
                break
    N = len(rest)
    if not obs.check(N == case['n'], lambda: '%d individuals besides the %d input individuals, expected %d' % (N, m, case['n'])):
        return

    def cell(k, p, what, n=None):
        obs.add('uniform_cells_tested')
        return obs.check(w.rate_ok(k, n or N, p * (1 - 1e-9), p * (1 + 1e-9)), lambda: 'first generation of %s %r: %s in %d of %d, expected share %.4f' % (s['pop'], s['gens'], what, k, n or N, p))
    if s['pop'] in ('bin', 'gray'):
        L = len(inds[0].g)
        for b in range(L):
            if not cell(sum(i.g[b] == '1' for i in rest), 0.5, 'bit %d is 1' % b):
                return
        for b in range(L - 1):
            obs.add('independence_cells_tested')
            if not cell(sum(i.g[b] != i.g[b + 1] for i in rest), 0.5, 'bits %d and %d differ' % (b, b + 1)):
                return
        pos = 0
        for j, (bits, top) in enumerate(w.grids(gens)):
            if 1 <= bits <= 5:
                cnt = {}
                for i in rest:
                    cnt[i.g[pos:pos + bits]] = cnt.get(i.g[pos:pos + bits], 0) + 1
                for code in range(top + 1):
                    key = tuple(bin(code)[2:].zfill(bits))
                    if not cell(cnt.get(key, 0), 1 / (top + 1), 'gene %d coded %s' % (j, ''.join(key))):
                        return
            pos += bits
    elif s['pop'] == 'cat':
        for j, g in enumerate(gens):
            opts = w.cat_options(g)
            for o in opts if len(opts) < 30 else opts[:3] + opts[-3:]:
                if not cell(sum(w.same_value(i.g[j], o) for i in rest), 1 / len(opts), 'gene %d is %r' % (j, o)):
                    return
            if len(opts) >= 16:
                where = {repr(o): x for x, o in enumerate(opts)}
                if len(where) == len(opts) and not blocks(cell, [where.get(repr(i.g[j]), -1) for i in rest], len(opts), 'gene %d' % j):
                    return
            if j and len(opts) > 1:
                prev = w.cat_options(gens[j - 1])
                p = 1 / (len(opts) * len(prev))
                for a in (prev[0], prev[-1]):
                    for b in (opts[0], opts[-1]):
                        obs.add('independence_cells_tested')
                        if not cell(sum(w.same_value(i.g[j - 1], a) and w.same_value(i.g[j], b) for i in rest), p, 'genes %d, %d are %r, %r' % (j - 1, j, a, b)):
                            return
    else:
        a, b, L = gens
        R = b - a + 1
        for j in range(L):
            for v in range(a, b + 1):
                if not cell(sum(i.g[j] == v for i in rest), 1 / R, 'position %d is %d' % (j, v)):
                    return
        for j in range(L if R >= 16 else 0):
            if not blocks(cell, [i.g[j] - a for i in rest], R, 'position %d' % j):
                return
        for j in range(L - 1):
            obs.add('independence_cells_tested')
            if not cell(sum(i.g[j] < i.g[j + 1] for i in rest), 0.5, 'positions %d, %d ascend' % (j, j + 1)):
                return
    # successive individuals are independent
    eq = 1.0
    if s['pop'] in ('bin', 'gray'):
        eq = 2.0 ** -len(rest[0].g)
    elif s['pop'] == 'cat':
        for g in gens:
            eq /= len(w.cat_options(g))
    else:
        for x in range(gens[2]):
            eq /= gens[1] - gens[0] + 1 - x
    if eq * N * N < 1e-12:
        obs.check(len({i.g for i in rest}) == N, lambda: 'first generation of %s %r: the same individual twice among %d' % (s['pop'], s['gens'], N))
    obs.add('independence_cells_tested')
    same = sum(x.g == y.g for x, y in zip(rest[::2], rest[1::2]))
    cell(same, eq, 'successive individuals are equal', N // 2)
    obs.sig('uniform', s['pop'], repr(s['gens'])[:80], m)


def refuse(case, s, obs):
    core.reset_tap(s['entropy'])
    what = case['what']
    obj = w.Objective(s, None, limit=w.call_limit(s))
    s = dict(s, input_data=None)
    err = None
    try:
        with core.quiet():
            w.drive(s, obj.function, None)
    except Exception as e:
        if isinstance(e, core.Violation):
            raise
        err = e
    if what == 'edge':
        obs.add('valid_edge_accepted')
        if err is not None:
            raise err
        obs.sig('edge', s['pop'], s['mode'])
        return
    obs.add({'oversize': 'oversize_refused', 'long': 'wrong_length_refused', 'short': 'wrong_length_refused'}.get(what, 'out_of_range_refused'))
    obs.check(err is not None, lambda: '%s input population accepted by %s %s: %r for genes %r, size %d' % (what, s['mode'], s['pop'], s['input_pop'][:3], s['gens'], s['n']))
    obs.check(not obj.calls, lambda: 'the objective function was called %d times with a refused input population' % len(obj.calls) if s['algo'] != 'vega' else '') if s['algo'] != 'vega' else None
    obs.sig(what, s['pop'], s['mode'], s['algo'])
