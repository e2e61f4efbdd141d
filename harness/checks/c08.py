"""C08 selection probabilities: counts of selected individuals and pairs against the exact law, Chernoff tests at 2e-13."""
import core
import world as w
import parts
import baumeva.ga as ga
from checks.c07 import scores_of

CASES = {'quick': 630, 'thorough': 3000}
CHUNK = 4
RULE = 'distinct (selection, score vector pattern, size, tournament size) whose pair and inclusion frequencies were tested'
REQUIRED = ['stale_indices', 'pairs_tour', 'pairs_bal', 'pairs_rank', 'tied_vectors', 'negative_vectors', 'pair_cells_tested', 'inclusion_cells_tested',
            'monotone_cells_tested', 'score_minus_one_vectors', 'sizes_over_20', 'unsorted_populations', 'infinite_vectors', 'sizes_over_50', 'declared_size_pairs', 'close_vectors', 'sizes_over_150', 'late_states']


def gen_case(rng, idx, tier):
    kind = ['tour', 'bal', 'rank'][idx % 3]
    n = w.pick(rng, [4, 4, 5, 5, 6, 7, 10, 25, 60, 110, 300])
    pat = w.pick(rng, ['uniform', 'ties', 'allsame', 'neg', 'mixed', 'onezero', 'minusone', 'int', 'ties', 'uniform', 'inf', 'close', 'small', 'small'])
    if n == 300:
        pat = w.pick(rng, ['uniform', 'ties', 'allsame', 'int', 'mixed'])
    real = rng.random() < 0.5       # as many pairs per execution as the population size
    return dict(kind=kind, n=n, extra=w.pick(rng, [0, 1]), k=min(n - 1, w.pick(rng, [2, 3, 3, n - 1 if n < 30 else 10])), pattern=pat,
                execs=((6000 if tier == 'quick' else 15000) + n - 1) // n if real or n > 100 else (60 if tier == 'quick' else 150), per=n if real or n > 100 else 100, salt=rng.getrandbits(40), entropy='%x' % rng.getrandbits(40),
                presorted=rng.random() < 0.3, update=rng.random() < 0.5)


def run_case(s, obs):
    import random
    rng = random.Random(s['salt'])
    N = s['n'] + s['extra']
    sc = scores_of(rng, s['pattern'], N)
    if s['presorted']:
        sc.sort(reverse=s['salt'] % 2 == 0)
    else:
        rng.shuffle(sc)
    core.reset_tap(s['entropy'])
    # num_individ only sets the number of pairs: use a large one to get many pairs per execution
    genos = [['g%d' % i, 'h'] for i in range(N)]
    pop = parts.population('cat', genos, sc, gens=(['g%d' % i for i in range(N)], ['h']), n=s['per'])
    if s['salt'] % 3:
        parts.stale_indices(pop, rng)
        obs.add('stale_indices')
    d = parts.data(pop, cp=1.0)
    obs.add('late_states', parts.later(d, s['salt'] // 6) > 0)
    if s['update']:
        d.update()
    obs.add('unsorted_populations', not s['update'])
    sel = {'tour': lambda: ga.TournamentSelection(tournament_size=s['k']), 'bal': ga.BalancedSelection, 'rank': ga.RankedSelection}[s['kind']]()
    pairs, incl, first = {}, [0] * N, [0] * N
    total = 0
    for _ in range(s['execs']):
        sel.execute(d)
        ids = [int(p['genotype'][0][1:]) for p in d.parents]
        for a, b in zip(ids[::2], ids[1::2]):
            key = (a, b) if a < b else (b, a)
            pairs[key] = pairs.get(key, 0) + 1
            incl[a] += 1
            incl[b] += 1
            total += 1
    obs.add('pairs_' + s['kind'], total)
    if not obs.check(total == s['execs'] * s['per'], 'wrong number of pairs'):
        return
    obs.add('tied_vectors', len(set(sc)) < N)
    obs.add('negative_vectors', min(sc) < 0)
    obs.add('score_minus_one_vectors', -1.0 in sc)
    obs.add('sizes_over_20', N > 20)
    obs.add('sizes_over_50', N > 50)
    obs.add('sizes_over_150', N > 150)
    obs.add('declared_size_pairs', total if s['per'] == s['n'] else 0)
    obs.add('close_vectors', s['pattern'] in ('close', 'small'))
    obs.add('infinite_vectors', min(sc) == -w.math.inf)
    law = None
    if s['kind'] == 'tour':
        law = w.tournament_law(sc, s['k'])
    elif s['kind'] == 'rank':
        law = w.ranked_law(sc)
    elif min(sc) >= 0:
        law = w.proportional_law(sc)
    if law is not None and max(law) < 0.999999:
        q = w.inclusion_law(law)
        for j in range(N):
            obs.add('inclusion_cells_tested')
            if not obs.check(w.rate_ok(incl[j], total, q[j] * (1 - 1e-9), q[j] * (1 + 1e-9)), lambda: '%s selection, scores %r%s: individual %d is in %d of %d pairs, expected share %.4f' % (s['kind'], sc, ', size %d' % s['k'] if s['kind'] == 'tour' else '', j, incl[j], total, q[j])):
                return
        if N <= 8:
            for (i, j), p in w.pair_law(law).items():
                obs.add('pair_cells_tested')
                v = pairs.get((i, j), 0)
                if not obs.check(w.rate_ok(v, total, p * (1 - 1e-9), p * (1 + 1e-9)), lambda: '%s selection, scores %r: pair (%d, %d) chosen %d times of %d, expected share %.4f' % (s['kind'], sc, i, j, v, total, p)):
                    return
    # when a single individual has all the weight, the law of the second parent is not defined
    even = s['kind'] != 'bal' or len(set(sc)) == 1 or sum(v > min([0] + [u for u in sc if u != -w.math.inf]) for v in sc) >= 2
    # a fitter individual is never less likely than a worse one
    for i in range(N):
        for j in range(N):
            if N > 150 and (i + j) % 10:
                continue
            if sc[i] > sc[j] or (sc[i] == sc[j] and i < j and even):
                obs.add('monotone_cells_tested')
                m = incl[i] + incl[j]
                if sc[i] > sc[j]:
                    ok = w.rate_ok(incl[i], m, 0.5, 1.0)
                else:
                    ok = w.rate_ok(incl[i], m, 0.5)
                if not obs.check(ok, lambda: '%s selection: score %r selected %d times, score %r selected %d times' % (s['kind'], sc[i], incl[i], sc[j], incl[j])):
                    return
    obs.sig(s['kind'], s['pattern'], N, s['k'] if s['kind'] == 'tour' else 0, len(set(sc)))
    if obs.sample is None:
        obs.sample = dict(case=s, scores=[repr(x) for x in sc[:8]], included=incl[:8], pairs=total)
