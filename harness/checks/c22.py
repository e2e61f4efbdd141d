"""C22 fresh randomness in seeded runs: selections, cuts, mutations and first individuals of one run compared with each other; successive unseeded runs compared."""
import math
import core
import world as w
import parts
import baumeva.ga as ga

CASES = {'quick': 360, 'thorough': 4000}
CHUNK = 4
RULE = 'distinct (run shape, seed, transfer) of runs whose random choices were compared between generations'
REQUIRED = ['mutation_generations_compared', 'selection_generations_compared', 'crossover_generations_compared', 'mutation_masks_compared', 'first_individuals_compared', 'unseeded_runs_compared',
            'categorical_runs', 'combinatory_runs', 'binary_runs', 'multi_runs', 'seed_zero_runs', 'random_transfer_compared', 'parents_within_generation', 'object_reruns_unseeded', 'run_to_run_choices', 'objectives_compared', 'long_seeded_runs']
LOGP = math.log(1e-15)


def gen_case(rng, idx, tier):
    pop = ['bin', 'gray', 'cat', 'order'][idx % 4]
    algo = w.pick(rng, ['single'] * 4 + ['vega', 'ffga'])
    s = w.gen_run(rng, tier, algo=algo, pop=pop, inputs=False, constrained=rng.random() < 0.2, objective=w.pick(rng, ['rug', 'rug', 'sphere', 'const']),
                  cross=w.pick(rng, ['one', 'one', 'two', 'uni']))
    s['n'] = w.pick(rng, [16, 20, 24])
    s['cp'] = w.pick(rng, [0.9, 0.75, 1.0])
    s['G'] = w.pick(rng, [5, 8])
    if idx % 12 in (3, 8, 10) and algo != 'ffga':
        s['G'] = w.pick(rng, [40, 70, 110]) if algo == 'single' else 36       # the choices of late generations are new, too
        s['mode'] = w.pick(rng, ['collector', 'modular', s['mode']])
    s['early'] = 1000
    s['rng'] = 'plain'
    if 'k' in s['sel']:
        s['sel']['k'] = w.pick(rng, [2, 3])
    s['mut']['lvl'] = 1.0 if pop == 'order' else 0.5
    if pop in ('bin', 'gray'):
        s['gens'] = [w.pick(rng, [[0, 2 ** 32 - 1, 1], [-5, 5, 1e-6], [0, 65535, 1]]) for _ in range(5)]
    elif pop == 'cat':
        s['gens'] = [w.pick(rng, [{'r': [0, 9, 1]}, {'l': ['a', 'b', 'c', 'd']}, {'r': [0, 100, 5]}]) for _ in range(72)]
    else:
        L = w.pick(rng, [20, 30])
        s['gens'] = [0, L - 1 + w.pick(rng, [0, 5]), L]
    s['seed'] = w.pick(rng, [0, 1, 42, 7, -3, 2 ** 40])
    return s


def mask(s, before, after):
    if s['pop'] == 'order':
        pos = {v: i for i, v in enumerate(before)}
        return tuple(pos.get(v, -1) for v in after)
    return tuple(i for i, (a, b) in enumerate(zip(before, after)) if a != b)


def choices(s, t):
    """Per generation: where the children were mutated, and the places of the parents (None where they are not determined)."""
    muts, sels = [], []
    for step in t.steps:
        m = step['mutate']
        muts.append([mask(s, a.g, b.g) for a, b in zip(m['before'], m['after'])])
        ev = step['select']
        where = {(x.g, repr(x.score)): i for i, x in enumerate(ev['after'])}
        if len(where) < len(ev['after']) or s['sel']['kind'] == 'bal' and skewed(ev['after']):
            sels.append(None)
        else:
            sels.append(tuple(where[(p.g, repr(p.score))] for p in ev['parents']))
    return muts, sels


def compare_runs(s, a, b, obs, what):
    for name, x, y in zip(('mutations', 'selection'), choices(s, a), choices(s, b)):
        for g, u in enumerate(x):
            for h, v in enumerate(y):
                if u is None or v is None:
                    continue
                obs.add('run_to_run_choices')
                if not obs.check(u != v, lambda: '%s: the %s of generation %d of one run repeat those of generation %d of the other' % (what, name, g + 1, h + 1)):
                    return


def per_objective(s, obs):
    """VEGA: objectives with the same scores do not choose the same parents."""
    if s['algo'] != 'vega':
        return
    n, k = 24, 2 + s['n'] % 3
    scores = [1 + i / n for i in range(n)]
    L = 4
    pop = parts.population('cat', [[i, i + 1, i + 2, i + 3] for i in range(n)], [[v] * k for v in scores], gens=tuple([(0, 40, 1)] * L), multi=True, extra=dict(rank=1))
    d = parts.data(pop, 1.0, multi=True)
    name = {'tour': 'VEGATournamentSelection', 'bal': 'VEGABalancedSelection', 'rank': 'VEGARankedSelection'}[s['sel']['kind']]
    for r in range(2):
        getattr(ga, name)(num_objectives=k).execute(d)
        got = [p['genotype'][0] for p in d.parents]
        m = len(got) // k
        if not obs.check(m * k == len(got), '%d parents for %d objectives' % (len(got), k)):
            return
        blocks = [tuple(got[j * m:(j + 1) * m]) for j in range(k)]
        obs.add('objectives_compared', k)
        obs.check(len(set(blocks)) == k, lambda: 'two of %d objectives with the same scores choose the same %d parents, one after the other (%s)' % (k, m, name))


def skewed(pop):
    cols = list(zip(*[i.score for i in pop])) if isinstance(pop[0].score, tuple) else [[i.score for i in pop]]
    for c in cols:
        low = min(0, min(c))
        ws = sorted((v - low for v in c), reverse=True)
        if sum(ws) == 0:
            continue
        if sum(ws[:3]) > 0.7 * sum(ws):
            return True
    return False


def run_case(s, obs):
    t = w.run(s)
    obs.add('long_seeded_runs', len(t.gens) > 30)
    obs.add('categorical_runs', s['pop'] == 'cat')
    obs.add('combinatory_runs', s['pop'] == 'order')
    obs.add('binary_runs', s['pop'] in ('bin', 'gray'))
    obs.add('multi_runs', s['algo'] != 'single')
    obs.add('seed_zero_runs', s['seed'] == 0)
    # first generation: all different, and no bit pattern repeated at a fixed distance
    first = [i.g for i in t.first_fill]
    obs.add('first_individuals_compared', len(first))
    if not obs.check(len(set(first)) == len(first), lambda: 'seed %r: only %d of %d first individuals are different' % (s['seed'], len(set(first)), len(first))):
        return
    # mutations
    seqs, seen = [], {}
    for g, step in enumerate(t.steps):
        m = step['mutate']
        seq = [mask(s, a.g, b.g) for a, b in zip(m['before'], m['after'])]
        if not obs.check(seq not in seqs, lambda: 'seed %r: the mutations of generation %d repeat those of generation %d' % (s['seed'], g + 1, seqs.index(seq) + 1)):
            return
        seqs.append(seq)
        obs.add('mutation_generations_compared')
        if s['pop'] != 'order':
            for j, x in enumerate(seq):
                obs.add('mutation_masks_compared')
                if not obs.check(x not in seen, lambda: 'seed %r: child %d of generation %d is mutated at the same %d places as child %r' % (s['seed'], j, g + 1, len(x), seen[x])):
                    return
                seen[x] = (j, g + 1)
        else:
            obs.add('mutation_masks_compared', len(seq))
            if not obs.check(len(set(seq)) > 2, lambda: 'seed %r: all children of generation %d are mutated alike' % (s['seed'], g + 1)):
                return
    # selections: places of the parents in the population
    places = []
    for g, step in enumerate(t.steps):
        ev = step['select']
        where = {}
        for i, x in enumerate(ev['after']):
            where.setdefault((x.g, repr(x.score)), []).append(i)
        if len(where) < len(ev['after']):
            places.append(None)         # duplicates: places are not determined
            continue
        if s['sel']['kind'] == 'bal' and skewed(ev['after']):
            places.append(None)         # a few individuals have nearly all the weight
            continue
        seq = tuple(where[(p.g, repr(p.score))][0] for p in ev['parents'])
        obs.add('parents_within_generation', len(seq) // 2)
        if not obs.check(len(set(zip(seq[::2], seq[1::2]))) > 2, lambda: 'seed %r: generation %d selects the same pair %d times' % (s['seed'], g, len(seq) // 2)):
            return
        if g and seq in places:
            obs.bad('seed %r: the selection of generation %d repeats that of generation %d' % (s['seed'], g, places.index(seq)))
            return
        obs.add('selection_generations_compared')
        obs.add('oracle_evaluations')
        places.append(seq)
    per_objective(s, obs)
    # crossovers: is there one sequence of cuts that explains two generations?
    if s['cross'] == 'one' and s['pop'] in ('bin', 'gray', 'cat'):
        rows = []
        for step in t.steps:
            c = step['cross']
            rows.append([(p.g, q.g, x.g) for p, q, x in zip(c['parents'][::2], c['parents'][1::2], c['children'])])
        for g in range(1, len(rows)):
            obs.add('crossover_generations_compared')
            cands = [set(parts.one_point_cuts(p, q, x)) | set(parts.one_point_cuts(q, p, x)) for p, q, x in rows[g]]
            for h in range(g):
                logp, all_in = 0.0, True
                for A, (p, q, x) in zip(cands, rows[h]):
                    B = set(parts.one_point_cuts(p, q, x)) | set(parts.one_point_cuts(q, p, x))
                    if not A & B:
                        all_in = False
                        break
                if not all_in:
                    obs.add('oracle_evaluations')
                    continue
                for A, (p, q, x) in zip(cands, rows[h]):
                    L = len(p)
                    worst = 0.0
                    for u, v in ((p, q), (q, p)):
                        hit = 0
                        for k in range(1, L):
                            y = u[:k] + v[k:]
                            hit += any(y == u[:a] + v[a:] or y == v[:a] + u[a:] for a in A)
                        worst = max(worst, hit / (L - 1))
                    logp += math.log(max(worst, 1e-9))
                if not obs.check(logp > LOGP, lambda: 'seed %r: the cut points of generation %d explain all children of generation %d (chance %.1e)' % (s['seed'], g + 1, h + 1, math.exp(logp))):
                    return
    if s['transfer'] == 'random':
        obs.add('random_transfer_compared')
        elites = []
        for g, step in enumerate(t.steps):
            ng = step['newgen']
            kids = {c.oid for c in ng['children']}
            order = {i.oid: j for j, i in enumerate(ng['pop'])}
            e = tuple(order.get(i.oid, -1) for i in ng['after'] if i.oid not in kids)
            n, k = len(ng['pop']), len(e)
            if g and k >= 3 and -1 not in e:
                logp = -(math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1)) * 1.0
                elites.append((g, frozenset(e), logp))
        same = {}
        for g, e, lp in elites:
            same.setdefault(e, []).append(lp)
        for e, lps in same.items():
            tot = sum(lps[1:])
            obs.check(tot > LOGP, lambda: 'seed %r: random transfer takes the same places in %d generations' % (s['seed'], len(lps)))
    # without a seed successive runs differ
    u = dict(s, seed=None, G=4)
    core.reset_tap(s['entropy'])
    w.generator.rnd_seed = None
    a = w.run(u, seed=False)
    b = w.run(u, seed=False)
    compare_runs(s, a, b, obs, 'two successive runs without a seed')
    compare_runs(s, t, w.run(dict(s, seed=s['seed'] + 12345, G=4)), obs, 'two runs with different seeds')
    obs.add('unseeded_runs_compared')
    obs.check([i.g for i in a.first_fill] != [i.g for i in b.first_fill], 'two successive runs without a seed have the same first generation')
    obs.check(not {i.g for i in a.first_fill} & {i.g for i in b.first_fill}, 'two successive runs without a seed share first individuals')
    if s['mode'] == 'class':
        o = w.Objective(u, w.input_object(u['input_data']))
        obj = w.make_class(u, o.function, o.data)
        tr = []
        for _ in range(2):
            t2 = w.Trace()
            t2.light, t2.obj = True, o
            with w.recording(t2), core.quiet():
                obj.optimize()
            tr.append([i.g for i in t2.first_fill])
        obs.add('object_reruns_unseeded')
        obs.check(tr[0] != tr[1], 'two optimize() calls of one object without a seed have the same first generation')
    obs.sig(w.shape_sig(s), s['seed'], s['transfer'], s['n'])
    if obs.sample is None:
        obs.sample = dict(spec=s, places=[str(p)[:80] for p in places[:3]])
