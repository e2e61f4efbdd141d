"""C07 selection structure: parents are copies of distinct members, right number, bounded draws; directly and in runs."""
import math
from collections import Counter
import core
import world as w
import parts
import baumeva.ga as ga

CASES = {'quick': 3600, 'thorough': 20000}
CHUNK = 10
RULE = 'distinct (selection, population size, score pattern, tournament size, children share) whose parents were all traced back'
REQUIRED = ['stale_indices', 'pairs_tour', 'pairs_bal', 'pairs_rank', 'pairs_vega', 'tied_score_populations', 'negative_score_populations',
            'huge_spread_populations', 'tournament_size_n_minus_1', 'run_pairs', 'zero_score_populations', 'populations_over_100', 'extreme_random',
            'duplicate_genotype_pairs', 'late_states']
PATTERNS = ['uniform', 'ties', 'allsame', 'neg', 'mixed', 'huge', 'tiny', 'zeros', 'onezero', 'minusone', 'oneneg', 'int', 'sharp', 'inf', 'close', 'small']


def scores_of(rng, pattern, n):
    if pattern == 'uniform':
        return [rng.random() + 1e-3 for _ in range(n)]
    if pattern == 'ties':
        return [float(rng.randrange(3)) + 1 for _ in range(n)]
    if pattern == 'allsame':
        return [w.pick(rng, [0.5, 1.0, -1.0, -2.0, 0.0])] * n
    if pattern == 'neg':
        return [-rng.uniform(0.1, 50) for _ in range(n)]
    if pattern == 'mixed':
        return [rng.uniform(-5, 5) for _ in range(n)]
    if pattern == 'huge':
        return [10.0 ** rng.randrange(-12, 13) for _ in range(n)]
    if pattern == 'tiny':
        return [1e-300 * (1 + rng.randrange(4)) for _ in range(n)]
    if pattern == 'zeros':
        return [0.0] * n
    if pattern == 'onezero':
        return [0.0] * (n - 1) + [1.0]
    if pattern == 'minusone':
        return [float(rng.randrange(-2, 1)) for _ in range(n)]
    if pattern == 'oneneg':
        return [-1e9] + [rng.random() for _ in range(n - 1)]
    if pattern == 'inf':        # an objective value of infinity without a target
        return [-math.inf if i % 3 == 1 else -float(rng.randrange(1, 9)) - rng.random() for i in range(n)]
    if pattern == 'int':
        return [rng.randrange(-3, 9) for _ in range(n)]
    if pattern == 'close':
        return [1.0 + 1e-12 * rng.randrange(9) for _ in range(n)]
    if pattern == 'small':
        return [1e-8 * (1 + rng.randrange(50)) for _ in range(n)]
    return [1.0] + [1e-12 * rng.random() for _ in range(n - 1)]


def gen_case(rng, idx, tier):
    if idx % 3 == 2:
        s = w.gen_run(rng, tier, algo=w.pick(rng, ['single', 'single', 'single', 'vega', 'ffga']), max_G=25)
        return dict(type='run', spec=s)
    vega = w.pick(rng, [0, 0, 0, 1, 2, 3])
    kind = w.pick(rng, ['tour', 'bal', 'rank'])
    n = w.pick(rng, [3, 4, 5, 5, 6, 8, 12, 20, 40, 40, 130])
    extra = w.pick(rng, [0, 1])            # later generations have one more individual than declared
    n = max(n, vega + 1)
    k = min(n - 1, w.pick(rng, [2, 3, 5, n - 1, n - 1]))
    return dict(type='direct', kind=kind, vega=vega, n=n, extra=extra, k=k,
                cp=w.pick(rng, [0.95, 1.0, 0.5, 0.34, 0.9]), pattern=[w.pick(rng, PATTERNS) for _ in range(max(1, vega))],
                unique=rng.random() < 0.7, rng='extreme' if rng.random() < 0.25 and (kind != 'tour' or k <= max(2, n // 3)) else 'plain',
                salt=rng.getrandbits(40), entropy='%x' % rng.getrandbits(40))


def trace_back(obs, members, parents, pairs, where, unique):
    """members: Counter of records; parents: list of Ind."""
    if not obs.check(len(parents) == 2 * pairs, lambda: '%s: %d parents, expected %d pairs' % (where, len(parents), pairs)):
        return False
    for m in range(pairs):
        a, b = parents[2 * m], parents[2 * m + 1]
        ra, rb = repr(a.record()), repr(b.record())
        if not obs.check(ra in members and rb in members, lambda: '%s: parent %r is not a member of the population' % (where, a if ra not in members else b)):
            return False
        if ra == rb:
            obs.add('duplicate_genotype_pairs')
            if not obs.check(members[ra] >= 2, lambda: '%s: pair of one individual with itself: %r' % (where, a)):
                return False
    return True


def beaten(scores_sorted, score):
    """number of individuals with score <= the given one, itself excluded"""
    import bisect
    return bisect.bisect_right(scores_sorted, score) - 1


def direct(s, obs):
    import random
    rng = random.Random(s['salt'])
    N = s['n'] + s['extra']
    cols = [scores_of(rng, p, N) for p in s['pattern']]
    for c in cols:
        rng.shuffle(c)
    genos = [['g%d' % i, 'h'] for i in range(N)]
    if not s['unique']:
        for i in range(1, N):
            if rng.random() < 0.4:
                genos[i] = list(genos[rng.randrange(i)])
    scores = [list(x) for x in zip(*cols)] if s['vega'] else cols[0]
    core.reset_tap(s['entropy'])
    pop = parts.population('cat', genos, scores, gens=(['g%d' % i for i in range(N)], ['h']), n=s['n'])
    if s['salt'] % 3:
        parts.stale_indices(pop, rng)
        obs.add('stale_indices')
    d = parts.data(pop, cp=s['cp'], multi=bool(s['vega']))
    obs.add('late_states', parts.later(d, s['salt'] // 3) > 0)
    if s['vega']:
        for i in pop:
            i['rank'] = 1
        per = int(s['cp'] * s['n'] / s['vega'])
        pairs = per * s['vega']
        sel = {'tour': lambda: ga.VEGATournamentSelection(num_objectives=s['vega'], tournament_size=s['k']),
               'bal': lambda: ga.VEGABalancedSelection(num_objectives=s['vega']),
               'rank': lambda: ga.VEGARankedSelection(num_objectives=s['vega'])}[s['kind']]()
    else:
        per = pairs = int(s['cp'] * s['n'])
        sel = {'tour': lambda: ga.TournamentSelection(tournament_size=s['k']), 'bal': ga.BalancedSelection,
               'rank': ga.RankedSelection}[s['kind']]()
    d.update()
    before = w.snap(d.population)
    members = Counter(repr(i.record()) for i in before)
    for rep in range(2):
        core.reset_tap(s['entropy'] + str(rep), s['rng'], 20000 + 400 * (pairs + 1) * (N + 2) * (s['k'] + 2) * (10 if s['rng'] == 'extreme' else 1))
        d.parents = None
        sel.execute(d)
        core.TAP.limit = None
        core.TAP.mode = 'plain'
        after = w.snap(d.population)
        obs.check(Counter(repr(i.record()) for i in after) == members, 'selection changed the population')
        par = w.snap(d.parents)
        if not trace_back(obs, members, par, pairs, 'selection %s of %d' % (s['kind'], N), s['unique']):
            return
        ids = {i.oid for i in after}
        obs.check(not any(i.oid in ids for i in par), 'a parent is the population member itself, not a copy')
        ids = {i.gid for i in after}
        obs.check(not any(i.gid in ids for i in par), 'a parent shares its genotype list with a population member')
        obs.add('pairs_' + s['kind'], pairs)
        obs.add('pairs_vega', pairs if s['vega'] else 0)
        if s['kind'] == 'tour':
            sorted_cols = [sorted(c) for c in cols]
            for p in par:
                sc = list(p.score) if s['vega'] else [p.score]
                most = max(beaten(c, v) for c, v in zip(sorted_cols, sc))
                if not obs.check(most >= s['k'] - 1, lambda: 'tournament of %d among %d: selected score %r beats only %d others' % (s['k'], N, p.score, most)):
                    return
    obs.add('tied_score_populations', any(len(set(c)) < N for c in cols))
    obs.add('negative_score_populations', any(min(c) < 0 for c in cols))
    obs.add('huge_spread_populations', any(p in ('huge', 'oneneg', 'sharp') for p in s['pattern']))
    obs.add('zero_score_populations', 'zeros' in s['pattern'])
    obs.add('tournament_size_n_minus_1', s['kind'] == 'tour' and s['k'] == s['n'] - 1)
    obs.add('populations_over_100', N > 100)
    obs.add('extreme_random', s['rng'] == 'extreme')
    obs.sig(s['kind'], s['vega'], N, tuple(s['pattern']), s['k'] if s['kind'] == 'tour' else 0, s['cp'])
    if obs.sample is None:
        obs.sample = dict(case=s, scores=[repr(x) for x in scores[:8]], first_pair=[repr(par[0]), repr(par[1])] if par else None)


def run_case(case, obs):
    if case['type'] == 'direct':
        return direct(case, obs)
    s = case['spec']
    t = w.run(s)
    k = w.num_objectives(s)
    per = int(s['cp'] * s['n'] / k) if s['algo'] == 'vega' else int(s['cp'] * s['n'])
    pairs = per * k if s['algo'] == 'vega' else per
    for g, step in enumerate(t.steps):
        e = step.get('select')
        if not obs.check(e is not None, 'generation %d was made without selection' % (g + 1)):
            return
        members = Counter(repr(i.record()) for i in e['before'])
        obs.check(Counter(repr(i.record()) for i in e['after']) == members, 'selection changed the population')
        if not trace_back(obs, members, e['parents'], pairs, 'generation %d' % (g + 1), False):
            return
        obs.add('run_pairs', pairs)
        if s['sel']['kind'] == 'tour':
            get = (lambda i: list(i.score)) if s['algo'] == 'vega' else (lambda i: [i.score])
            cols = [sorted(c) for c in zip(*(get(i) for i in e['before']))]
            for p in e['parents']:
                if not obs.check(max(beaten(c, v) for c, v in zip(cols, get(p))) >= s['sel']['k'] - 1, lambda: 'generation %d: tournament of %d selected score %r' % (g + 1, s['sel']['k'], p.score)):
                    return
    if t.steps:
        obs.sig('run', w.shape_sig(s), s['sel'].get('k'))
