"""C10 composition of a new generation: children and elites recognised by their records; directly and in runs."""
from collections import Counter
import core
import world as w
import parts
import baumeva.ga as ga

CASES = {'quick': 3900, 'thorough': 30000}
CHUNK = 12
RULE = 'distinct (transfer, number of elites, number of duplicates to replace, ties, source) among compositions decided'
REQUIRED = ['compositions_best', 'compositions_random', 'replacements_needed', 'too_few_distinct', 'tied_at_the_border', 'run_generations',
            'random_draw_tests', 'share_one', 'vega_compositions', 'ffga_compositions', 'same_genotype_different_score', 'long_genotypes',
            'genotypes_alike', 'late_states']


def gen_case(rng, idx, tier):
    r = idx % 4
    if r == 3:
        return dict(type='draws', N=w.pick(rng, [5, 6, 9, 15]), kids=w.pick(rng, [2, 3, 4]), execs=1500, salt=rng.getrandbits(40), entropy='%x' % rng.getrandbits(40))
    if r == 2:
        s = w.gen_run(rng, tier, algo=w.pick(rng, ['single'] * 5 + ['vega', 'ffga']), size=w.pick(rng, ['s', 's', 'm', 'l']), max_n=60)
        return dict(type='run', spec=s)
    N = w.pick(rng, [4, 5, 6, 8, 10, 15, 30, 120])
    extra = w.pick(rng, [0, 1])
    kids = rng.randrange(1, N - extra + 1)
    return dict(type='direct', N=N, extra=extra, kids=kids, distinct=rng.randrange(1, N + 1), levels=w.pick(rng, [1, 2, 3, 50]), vega=rng.random() < 0.15,
                varying=rng.random() < 0.3, transfer=w.pick(rng, ['best', 'best', 'random']), salt=rng.getrandbits(40), entropy='%x' % rng.getrandbits(40))


def compose(obs, prev, children, after, n, transfer, where, algo='single'):
    """The oracle.  prev, children, after: lists of Ind; n: declared size."""
    rec = lambda i: repr(i.record())
    ids = {i.oid for i in children}
    kids_after = [i for i in after if i.score is None]
    ok = obs.check(Counter(rec(i) for i in kids_after) == Counter(rec(i) for i in children), lambda: '%s: children before %r, in the new population %r' % (where, [i.g for i in children][:6], [i.g for i in kids_after][:6]))
    elites = [i for i in after if i.score is not None]
    members = Counter(rec(i) for i in prev)
    for e in elites:
        ok = obs.check(rec(e) in members, lambda: '%s: %r is neither a child nor a member of the previous population' % (where, e)) and ok
    if not ok:
        return False
    if algo == 'ffga':
        obs.add('ffga_compositions')
        return True
    obs.add('vega_compositions', algo == 'vega')
    top = max(i.score for i in prev)
    if not obs.check(any(e.score == top for e in elites), lambda: '%s: the best previous individual (score %r) was not carried over' % (where, top)):
        return False
    m = n - len(children) + 1
    if not obs.check(len(elites) == m, lambda: '%s: %d elites, expected %d' % (where, len(elites), m)):
        return False
    obs.add('share_one', len(children) == n)
    obs.add('compositions_' + transfer)
    if transfer == 'random':
        if len({i.g for i in prev}) == len(prev):
            return obs.check(len({i.g for i in elites}) == m, lambda: '%s: the same individual was carried over twice' % where)
        return True
    # best: walk down the ranking, passing over copies of a genotype already taken
    order = sorted(prev, key=lambda i: i.score, reverse=True)
    best_of = {}
    for i in order:
        best_of.setdefault(i.g, i.score)
    obs.add('same_genotype_different_score', any(i.score != best_of[i.g] for i in prev))
    taken, skipped = [], 0
    seen = set()
    for i in order:
        if len(taken) == m:
            break
        if i.g in seen:
            skipped += 1
        else:
            seen.add(i.g)
            taken.append(i.score)
    if len(taken) == m and skipped <= len(children):
        obs.add('replacements_needed', skipped > 0)
        obs.add('tied_at_the_border', len({i.g for i in prev if i.score == taken[-1]}) > sum(x == taken[-1] for x in taken))
        got = sorted((e.score for e in elites), reverse=True)
        ok = obs.check(got == taken, lambda: '%s: elites have scores %r, the best distinct individuals have %r' % (where, got[:12], taken[:12]))
        ok = obs.check(len({e.g for e in elites}) == m, lambda: '%s: copies of one genotype among the elites although %d other individuals are available' % (where, len(best_of) - m)) and ok
        obs.sig(transfer, m, skipped, len(set(taken)), algo)
        return ok
    if len(taken) < m and skipped <= len(children):
        # fewer distinct individuals than places: all distinct ones are kept
        obs.add('too_few_distinct')
        obs.sig(transfer, 'few', m, len(taken))
        return obs.check({e.g for e in elites} == set(best_of), lambda: '%s: only %d of the %d distinct individuals carried over into %d places' % (where, len({e.g for e in elites}), len(best_of), m))
    obs.add('replacement_limit_reached')
    return True


def direct(s, obs):
    import random
    rng = random.Random(s['salt'])
    core.reset_tap(s['entropy'])
    N, n = s['N'], s['N'] - s['extra']
    # long genotypes differ in one place only
    L = rng.choice([2, 2, 2, 3, 40, 150, 700])
    at = rng.randrange(L)
    obs.add('long_genotypes', L > 100)

    style = rng.choice(['one place', 'one place', 'alike', 'mixed types', 'permuted'])
    obs.add('genotypes_alike', style != 'one place')
    if style == 'one place':
        def geno(name):
            g = ['x'] * L
            g[at] = name
            return g
        options = [(['g%d' % i for i in range(s['distinct'])] + ['child']) if j == at else ['x'] for j in range(L)]
    else:
        # different genotypes that look the same when joined, sorted or printed
        import itertools
        L, at = 8, None
        if style == 'permuted':
            pool = list(itertools.islice(itertools.permutations(range(8)), 0, 40000, 311))
        else:
            values = {'alike': [1, 11], 'mixed types': ['1', 1]}[style]
            pool = list(itertools.product(values, repeat=L))
        rng.shuffle(pool)
        names = dict(zip(['child'] + ['g%d' % i for i in range(s['distinct'])], pool))

        def geno(name):
            return list(names[name])
        options = [list(range(8)) if style == 'permuted' else values] * L
    labels = ['g%d' % rng.randrange(s['distinct']) for _ in range(N)]
    genos = [geno(x) for x in labels]
    base = {}
    scores = []
    for g in labels:
        v = base.setdefault(g, rng.randrange(s['levels']) / 4 - 1)
        if s['varying']:
            v = v - rng.randrange(2) / 8
        scores.append([v, -v] if s['vega'] else v)
    pop = parts.population('cat', genos, scores, gens=tuple(options), n=n)
    d = parts.data(pop, multi=s['vega'])
    if s['vega']:
        for i in pop:
            i['rank'] = 1
    obs.add('late_states', parts.later(d, s['salt']) > 0)
    d.update()
    d.children = pop.get_empty_copy()
    for j in range(s['kids']):
        c = pop.get_empty_individ()
        c['genotype'] = geno('child' if rng.random() < 0.7 else rng.choice(labels))
        d.children.append(c)
    prev, children = w.snap(d.population), w.snap(d.children)
    ga.NewGeneration(transfer_parents=s['transfer']).execute(d)
    after = w.snap(d.population)
    if compose(obs, prev, children, after, n, s['transfer'], '%d individuals, %d children, transfer %s' % (N, s['kids'], s['transfer']), 'vega' if s['vega'] else 'single') and obs.sample is None:
        obs.sample = dict(case=s, previous=[(repr(i.g)[:60], repr(i.score)) for i in prev[-8:]], new=[(repr(i.g)[:60], repr(i.score)) for i in after[-8:]])


def draws(s, obs):
    """transfer 'random': every other individual equally likely to be carried over"""
    core.reset_tap(s['entropy'])
    N, kids = s['N'], s['kids']
    m = N - kids                   # elites besides the best
    hits = [0] * N
    for _ in range(s['execs']):
        genos = [['g%d' % i, 'x'] for i in range(N)]
        pop = parts.population('cat', genos, [float(i) for i in range(N)], gens=([g[0] for g in genos], ['x']), n=N)
        d = parts.data(pop)
        parts.later(d, s['salt'])
        d.update()
        d.children = pop.get_empty_copy()
        for j in range(kids):
            c = pop.get_empty_individ()
            c['genotype'] = ['g0', 'x']
            d.children.append(c)
        ga.NewGeneration(transfer_parents='random').execute(d)
        for i in d.population:
            if i['score'] is not None:
                hits[int(i['genotype'][0][1:])] += 1
    obs.check(hits[N - 1] == s['execs'], 'random transfer lost the best individual')
    for i in range(N - 1):
        obs.add('random_draw_tests')
        if not obs.check(w.rate_ok(hits[i], s['execs'], m / (N - 1)), lambda: 'random transfer: individual %d of %d carried over %d times of %d, expected share %.3f' % (i, N, hits[i], s['execs'], m / (N - 1))):
            return
    obs.sig('draws', N, kids)


def run_case(case, obs):
    if case['type'] == 'direct':
        return direct(case, obs)
    if case['type'] == 'draws':
        return draws(case, obs)
    s = case['spec']
    t = w.run(s)
    for g, step in enumerate(t.steps):
        e = step.get('newgen')
        if not obs.check(e is not None, 'generation %d was not made by the new generation part' % (g + 1)):
            return
        obs.add('run_generations')
        if not compose(obs, e['pop'], e['children'], e['after'], s['n'], s['transfer'], 'generation %d' % (g + 1), s['algo']):
            return
