"""C18 VEGA: shares of the objectives counted exactly where the winners identify the objective, and by the mixture law otherwise; pairs of runs matched to objectives."""
import random
import core
import world as w
import parts
import baumeva.ga as ga
from checks.c07 import scores_of

CASES = {'quick': 2600, 'thorough': 12000}
CHUNK = 8
RULE = 'distinct (selection, objectives, size, score patterns) tested, and (run shape, objectives, pairs per objective) of runs whose pairs were matched'
REQUIRED = ['exact_share_cases', 'mixture_cells_tested', 'mixture_pairs_tested', 'run_generations_matched', 'constrained_generations', 'rank_mixtures', 'tour_mixtures', 'bal_mixtures',
            'big_tournaments', 'three_or_more_objectives', 'single_objective_cases', 'optimize_only_conditions', 'opposed_objectives', 'class_generations', 'many_objectives', 'class_many_objectives']


def gen_case(rng, idx, tier):
    t = idx % 3
    if t == 2:
        s = w.gen_run(rng, tier, algo='vega', mode=w.pick(rng, ['class', 'class', 'collector', 'modular']), max_n=20, max_G=6, nobj=w.pick(rng, [None, None, None, 5, 7, 9]), sel=w.pick(rng, ['tour', 'tour', 'bal', 'rank']))
        if s['sel']['kind'] == 'tour' and rng.random() < 0.6:
            s['sel']['k'] = w.pick(rng, [s['n'] - 1 if s['n'] <= 60 else 30, max(2, s['n'] // 2)])
            s['rng'] = 'plain'
        if not s['conds'] and rng.random() < 0.3:
            s['conds'] = ['optimize'] * len(s['objs'])
        return dict(type='run', spec=s)
    kind = ['tour', 'bal', 'rank'][(idx // 3) % 3]
    k = w.pick(rng, [1, 2, 2, 3, 4, 6, 9])
    if t == 0:
        kind = w.pick(rng, ['tour', 'bal'])
        N = 2 * k + w.pick(rng, [1, 2, 6])
        return dict(type='exact', kind=kind, k=k, N=N, n=N, cp=w.pick(rng, [1.0, 0.95, 0.5, 0.7]) if N >= 2 * k else 1.0, update=rng.random() < 0.5, salt=rng.getrandbits(40), entropy='%x' % rng.getrandbits(40))
    N = w.pick(rng, [4, 5, 6, 8, 12])
    return dict(type='mix', kind=kind, k=k, N=N, size=min(N - 1, w.pick(rng, [2, 3, N - 1])), update=rng.random() < 0.5, execs=40 if tier == 'quick' else 100,
                patterns=[w.pick(rng, ['uniform', 'ties', 'int', 'uniform'] if kind == 'bal' else ['uniform', 'ties', 'neg', 'mixed', 'minusone', 'int', 'close', 'small']) for _ in range(k)],
                opposed=rng.random() < 0.3, salt=rng.getrandbits(40), entropy='%x' % rng.getrandbits(40))


def build(N, vectors, n, cp, salt):
    genos = [['g%d' % i, 'h'] for i in range(N)]
    pop = parts.population('cat', genos, vectors, gens=(['g%d' % i for i in range(N)], ['h']), n=n, extra=dict(rank=1))
    d = parts.data(pop, cp=cp, multi=True)
    parts.later(d, salt)
    return d


def selector(kind, k, size):
    if kind == 'tour':
        return ga.VEGATournamentSelection(num_objectives=k, tournament_size=size)
    return (ga.VEGABalancedSelection if kind == 'bal' else ga.VEGARankedSelection)(num_objectives=k)


def pairs_of(d):
    ids = [int(p['genotype'][0][1:]) for p in d.parents]
    return [tuple(sorted(p)) for p in zip(ids[::2], ids[1::2])]


def run_case(case, obs):
    if case['type'] == 'run':
        return run(case['spec'], obs)
    rng = random.Random(case['salt'])
    k, N = case['k'], case['N']
    obs.add('three_or_more_objectives', k >= 3)
    obs.add('single_objective_cases', k == 1)
    core.reset_tap(case['entropy'])
    if case['type'] == 'exact':
        # objective j gives a score to individuals 2j and 2j+1 only: every pair tells which objective chose it
        vec = [[0.0] * k for _ in range(N)]
        for j in range(k):
            vec[2 * j][j] = vec[2 * j + 1][j] = rng.choice([1.0, 0.5, 0.25])
            if rng.random() < 0.5:
                vec[2 * j + 1][j] *= 0.75
        perm = list(range(N))
        rng.shuffle(perm)
        owner = {}
        vectors = [None] * N
        for a, b in enumerate(perm):
            vectors[b] = vec[a]
            owner[b] = a // 2 if a < 2 * k else None
        d = build(N, vectors, case['n'], case['cp'], case['salt'])
        if case['update']:
            d.update()
        sel = selector(case['kind'], k, N - 1)
        per = int(case['cp'] * case['n'] / k)
        for _ in range(3):
            sel.execute(d)
            got = {}
            for a, b in pairs_of(d):
                if not obs.check(owner[a] is not None and owner[a] == owner[b], lambda: '%s selection by %d objectives chose a pair that no objective can choose' % (case['kind'], k)):
                    return
                got[owner[a]] = got.get(owner[a], 0) + 1
            if not obs.check(got == {j: per for j in range(k)} if per else got == {}, lambda: '%s selection: pairs per objective %r, expected %d each' % (case['kind'], got, per)):
                return
        obs.add('exact_share_cases')
        obs.add('big_tournaments', case['kind'] == 'tour')
        obs.sig('exact', case['kind'], k, N, per)
        return
    n = 100
    cols = [scores_of(rng, p, N) for p in case['patterns']]
    for c in cols:
        rng.shuffle(c)
    if case['opposed'] and k > 1:
        order = sorted(range(N), key=lambda i: cols[0][i])
        for i, v in zip(reversed(order), sorted(cols[1])):
            cols[1][i] = v
        obs.add('opposed_objectives')
    vectors = [[c[i] for c in cols] for i in range(N)]
    d = build(N, vectors, n, 1.0, case['salt'])
    if case['update']:
        d.update()
    sel = selector(case['kind'], k, case['size'])
    per = int(n / k)
    incl, pairs, total = [0] * N, {}, 0
    before = {i['genotype'][0]: list(i['score']) for i in d.population}
    for _ in range(case['execs']):
        sel.execute(d)
        ps = pairs_of(d)
        if not obs.check(len(ps) == per * k, lambda: '%d pairs selected, expected %d objectives x %d' % (len(ps), k, per)):
            return
        for p in ps:
            pairs[p] = pairs.get(p, 0) + 1
            incl[p[0]] += 1
            incl[p[1]] += 1
            total += 1
    obs.check({i['genotype'][0]: list(i['score']) for i in d.population} == before, 'selection changed the scores')
    laws = []
    for c in cols:
        if case['kind'] == 'tour':
            laws.append(w.tournament_law(c, case['size']))
        elif case['kind'] == 'rank':
            laws.append(w.ranked_law(c))
        elif min(c) >= 0:
            laws.append(w.proportional_law(c))
    if len(laws) < k or max(max(x) for x in laws) > 0.999999:
        return
    obs.add(case['kind'] + '_mixtures')
    inc = [w.inclusion_law(x) for x in laws]
    for j in range(N):
        q = sum(x[j] for x in inc) / k
        obs.add('mixture_cells_tested')
        # every objective has a fixed number of pairs: the count is at least as concentrated as independent draws of the mean law
        if not obs.check(w.rate_ok(incl[j], total, q * (1 - 1e-9), q * (1 + 1e-9)), lambda: 'VEGA %s selection, scores %r: individual %d is in %d of %d pairs, expected share %.4f' % (case['kind'], vectors, j, incl[j], total, q)):
            return
    if N <= 8:
        pl = [w.pair_law(x) for x in laws]
        for key in pl[0]:
            q = sum(x[key] for x in pl) / k
            obs.add('mixture_pairs_tested')
            v = pairs.get(key, 0)
            if not obs.check(w.rate_ok(v, total, q * (1 - 1e-9), q * (1 + 1e-9)), lambda: 'VEGA %s selection, scores %r: pair %r chosen %d times of %d, expected share %.4f' % (case['kind'], vectors, key, v, total, q)):
                return
    obs.sig('mix', case['kind'], k, N, tuple(case['patterns']), case['size'])
    if obs.sample is None:
        obs.sample = dict(case=case, included=incl, pairs=total)


def assignable(options, k, per):
    """Can every pair be given to one of its objectives so that each objective has exactly `per`?"""
    owner = [[] for _ in range(k)]

    def place(p, seen):
        for j in options[p]:
            if j in seen:
                continue
            seen.add(j)
            if len(owner[j]) < per:
                owner[j].append(p)
                return True
            for x, q in enumerate(owner[j]):
                if place(q, seen):
                    owner[j][x] = p
                    return True
        return False
    return all(place(p, set()) for p in range(len(options)))


def run(s, obs):
    t = w.run(s)
    k = w.num_objectives(s)
    per = int(s['cp'] * s['n'] / k)
    obs.add('three_or_more_objectives', k >= 3)
    for g, step in enumerate(t.steps):
        ev = step['select']
        N = len(ev['before'])
        par = ev['parents']
        obs.add('run_generations_matched')
        obs.add('constrained_generations', bool(s['penalty']))
        obs.add('optimize_only_conditions', bool(s['conds']) and not s['penalty'])
        obs.add('class_generations', s['mode'] == 'class')
        obs.add('many_objectives', k > 4)
        obs.add('class_many_objectives', k > 4 and s['mode'] == 'class' and not s['conds'])
        if not obs.check(len(par) == 2 * per * k, lambda: 'generation %d: %d parents selected, expected %d objectives x %d pairs' % (g, len(par), k, per)):
            return
        if not obs.check(all(len(i.score) == k for i in ev['before']), lambda: 'generation %d: %d scores per individual, %d values to optimize' % (g, len(ev['before'][0].score), k)):
            return
        size = s['sel']['k'] if s['sel']['kind'] == 'tour' else None
        if size is None:
            continue
        cols = [sorted(i.score[j] for i in ev['before']) for j in range(k)]
        limit = [c[size - 1] for c in cols]         # a winner has size-1 competitors that are not better
        options = []
        for a, b in zip(par[::2], par[1::2]):
            options.append([j for j in range(k) if a.score[j] >= limit[j] and b.score[j] >= limit[j]])
        obs.add('big_tournaments', size >= N // 2)
        if not obs.check(all(options), lambda: 'generation %d: a pair of parents cannot have won a tournament of %d in any objective' % (g, size)):
            return
        if not obs.check(assignable(options, k, per), lambda: 'generation %d: the pairs cannot be divided evenly among the %d objectives (%d each, tournament of %d)' % (g, k, per, size)):
            return
    obs.sig(w.shape_sig(s), k, per, s['sel'].get('k'))
