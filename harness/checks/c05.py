"""C05 crossover: children traced back to their parents by gene origin, directly and inside runs."""
import core
import world as w
import parts
import baumeva.ga as ga

CASES = {'quick': 1800, 'thorough': 9000}
CHUNK = 8
RULE = 'distinct (crossover, genotype length, cut and orientation) observed on parents with recognisable genes, plus run shapes'
REQUIRED = ['children_one', 'children_two', 'children_uni', 'children_ord', 'run_children', 'all_cuts_seen', 'order_subset_parents',
            'binary_children', 'lengths_over_30', 'reused_operator_executions', 'identical_parent_pairs', 'uniform_positions', 'long_cut_sets', 'order_segments_seen', 'two_offspring_pairs', 'two_offspring_complements', 'late_states', 'long_used_operators', 'cut_variety']


def gen_case(rng, idx, tier):
    if idx % 3 == 2:
        s = w.gen_run(rng, tier, algo=w.pick(rng, ['single', 'single', 'single', 'vega', 'ffga']), max_n=60, max_G=20)
        return dict(type='run', spec=s)
    if idx % 18 == 4:
        # every cut, with an operator that is new or has been in use for long
        return dict(type='direct', kind=['one', 'two', 'ord', 'ord'][idx // 18 % 4], L=w.pick(rng, [4, 5, 6, 7]), members=w.pick(rng, [2, 5]), subset=2, pairs=1600, used=rng.random() < 0.5,
                    salt=rng.getrandbits(40), entropy='%x' % rng.getrandbits(40))
    kind = w.pick(rng, ['one', 'two', 'uni', 'ord'])
    L = w.pick(rng, [3, 3, 4, 5, 6, 8, 12, 33, 60, 90, 200, 520])
    if kind in ('one', 'uni') and rng.random() < 0.2:
        L = 2 if kind == 'one' else 1
    return dict(type='direct', kind=kind, L=L, members=w.pick(rng, [2, 3, 5, 8]), subset=w.pick(rng, [0, 0, 0, 1, 1, 2, 2]),
                pairs=w.pick(rng, [1, 7, 150, 500]) if L <= 60 else w.pick(rng, [7, 250]), salt=rng.getrandbits(40), entropy='%x' % rng.getrandbits(40))


def segment(p, g, L, tag):
    """The inner segment of p that g has in place while all other genes are foreign."""
    own = set(p)
    idx = [k for k in range(L) if g[k] in own]
    ok = idx and idx == list(range(idx[0], idx[-1] + 1)) and all(g[k] == p[k] for k in idx) and idx[0] > 0 and idx[-1] < L - 1
    return (tag, (idx[0], idx[-1] + 1)) if ok else None


def fresh_child(obs, c, where):
    ok = obs.check(c['score'] is None and c['obj_score'] is None and c.get('phenotype') is None and c['feasible'] is True, lambda: '%s: child is not a fresh record: %r' % (where, {k: v for k, v in c.items() if k != 'genotype'}))
    return ok


def both(s, obs, op, d, pairs, genos, kind, L):
    """The same operator asked for both children of every pair (num_offsprings = 2)."""
    op.num_offsprings = 2
    before_par, before_pop = w.snap(d.parents), w.snap(d.population)
    op.execute(d)
    after_par, after_pop = w.snap(d.parents), w.snap(d.population)
    obs.check([i.record() for i in before_par] == [i.record() for i in after_par], 'crossover with two offsprings changed a parent')
    obs.check([i.record() for i in before_pop] == [i.record() for i in after_pop], 'crossover with two offsprings changed the population')
    if not obs.check(len(d.children) == 2 * len(pairs), lambda: '%d children for %d pairs with two offsprings each' % (len(d.children), len(pairs))):
        return
    seen = {i.gid for i in after_par} | {i.gid for i in after_pop}
    for m, c in enumerate(d.children):
        i, j = pairs[m // 2]
        if not fresh_child(obs, c, kind):
            return
        if not obs.check(id(c['genotype']) not in seen, lambda: 'child %d of the pair shares its genotype list' % (m % 2)):
            return
        seen.add(id(c['genotype']))
        p, q, g = tuple(genos[i]), tuple(genos[j]), tuple(c['genotype'])
        if not obs.check(isinstance(c['genotype'], list) and parts.explain(kind, p, q, g), lambda: '%s crossover of %r and %r gave %r' % (kind, p, q, g)):
            return
        obs.add('two_offspring_pairs', m % 2)
        if m % 2 and kind in ('one', 'two') and i != j:
            # the two children of one cut carry every gene of the parents once
            o = d.children[m - 1]['genotype']
            obs.add('two_offspring_complements')
            if not obs.check(all({x, y} == {a, b} for x, y, a, b in zip(o, g, p, q)), lambda: '%s crossover of %r and %r gave the pair %r, %r: not complementary' % (kind, p, q, o, g)):
                return


def direct(s, obs):
    import random
    rng = random.Random(s['salt'])
    core.reset_tap(s['entropy'])
    kind, L, M = s['kind'], s['L'], s['members']
    if kind == 'ord':
        # subset 2: parents without common genes, so that the segment of every child is known
        top = M * L if s['subset'] == 2 else L + (rng.randrange(1, 8) if s['subset'] else 0)
        obs.add('order_subset_parents', bool(s['subset']))
        genos = [rng.sample(range(i * L, i * L + L) if s['subset'] == 2 else range(top), L) for i in range(M)]
        pop = parts.population('order', genos, [float(i) for i in range(M)], gens=(0, top - 1, L))
    else:
        genos = [['%d.%d' % (i, j) for j in range(L)] for i in range(M)]
        pop = parts.population('cat', genos, [float(i) for i in range(M)], gens=tuple([[g[j] for g in genos] for j in range(L)]))
    d = parts.data(pop)
    obs.add('late_states', parts.later(d, s['salt'] // 3) > 0)
    op = getattr(ga, w.CROSS[kind])()
    pairs = []
    while len(pairs) < s['pairs']:
        i, j = rng.randrange(M), rng.randrange(M)
        if i != j or rng.random() < 0.05:
            pairs.append((i, j))
    if s['salt'] % 3 == 0:
        # a previous execution on a population of another length must not matter
        other = parts.population('order', [list(range(L + 4)), list(reversed(range(L + 4)))], [1.0, 2.0], gens=(0, L + 3, L + 4))
        d0 = parts.data(other)
        parts.with_parents(d0, [(0, 1)])
        op.execute(d0)
        obs.add('reused_operator_executions')
    if s.get('used', s['salt'] % 16 == 1):
        # an operator that has been in use for long
        parts.with_parents(d, [(0, 1)])
        few = d.parents[:]
        d.parents.extend(few * 3999)
        for _ in range(2):
            op.execute(d)
        obs.add('long_used_operators')
    parts.with_parents(d, pairs)
    before_par, before_pop = w.snap(d.parents), w.snap(d.population)
    op.execute(d)
    after_par, after_pop = w.snap(d.parents), w.snap(d.population)
    obs.check([i.record() for i in before_par] == [i.record() for i in after_par], 'crossover changed a parent')
    obs.check([i.record() for i in before_pop] == [i.record() for i in after_pop], 'crossover changed the population')
    if not obs.check(len(d.children) == len(pairs), lambda: '%d children for %d pairs' % (len(d.children), len(pairs))):
        return
    shared = {i.gid for i in after_par} | {i.gid for i in after_pop}
    own = set()
    cuts, firsts, posn, runs_same = {}, 0, [0] * L, 0
    informative = 0
    for (i, j), c in zip(pairs, d.children):
        obs.add('children_' + kind)
        obs.add('identical_parent_pairs', i == j)
        if not fresh_child(obs, c, kind):
            return
        if not obs.check(id(c['genotype']) not in shared and id(c['genotype']) not in own, 'child shares its genotype list'):
            return
        own.add(id(c['genotype']))
        p, q, g = tuple(genos[i]), tuple(genos[j]), tuple(c['genotype'])
        if not obs.check(isinstance(c['genotype'], list) and parts.explain(kind, p, q, g), lambda: '%s crossover of %r and %r gave %r' % (kind, p, q, g)):
            return
        if i == j or p == q:
            continue
        informative += 1
        if kind == 'one':
            a, b = parts.one_point_cuts(p, q, g), parts.one_point_cuts(q, p, g)
            key = ('f', a[0]) if a else ('s', b[0])
            cuts[key] = cuts.get(key, 0) + 1
        elif kind == 'two':
            a, b = parts.two_point_cuts(p, q, g), parts.two_point_cuts(q, p, g)
            key = ('f', a[0]) if a else ('s', b[0])
            cuts[key] = cuts.get(key, 0) + 1
        elif kind == 'uni':
            o = [x == y for x, y in zip(g, p)]
            for k, v in enumerate(o):
                posn[k] += v
            runs_same += sum(x == y for x, y in zip(o, o[1:]))
        elif s['subset'] == 2:
            key = segment(p, g, L, 'f') or segment(q, g, L, 's')
            if not obs.check(key is not None, lambda: 'order crossover of %r and %r gave %r: no inner segment of one parent kept in place' % (p, q, g)):
                return
            cuts[key] = cuts.get(key, 0) + 1
    for key in cuts:
        obs.sig(kind, L, key)
    if informative >= 140 and cuts:
        legal = 2 * (L - 1 if kind == 'one' else (L - 1) * (L - 2) // 2)
        expect = legal * (1 - (1 - 1 / legal) ** informative)
        obs.add('cut_variety')
        if not obs.check(len(cuts) >= 0.6 * expect, lambda: '%s crossover of length %d: %d different cuts and orientations in %d children, about %d expected' % (kind, L, len(cuts), informative, expect)):
            return
    if L > 30 and informative >= 140 and cuts:
        # long genotypes: every quarter of the genotype is cut
        obs.add('long_cut_sets')
        quarter = set()
        for _, k in cuts:
            for c in (k if isinstance(k, tuple) else (k,)):
                quarter.add(4 * (c - 1) // (L - 1))
        obs.check(quarter == {0, 1, 2, 3}, lambda: '%s crossover of length %d: all cuts of %d children in quarters %r' % (kind, L, informative, sorted(quarter)))
        if isinstance(next(iter(cuts))[1], tuple):
            spans = [b - a for _, (a, b) in cuts]
            obs.check(max(spans) >= L // 2 and min(spans) <= L // 4, lambda: '%s crossover of length %d: the exchanged segments of %d children have %d to %d genes' % (kind, L, informative, min(spans), max(spans)))
        obs.check({k for k, _ in cuts} == {'f', 's'}, lambda: '%s crossover of length %d: the outer part of %d children is always of the same parent' % (kind, L, informative))
    if kind == 'uni':
        obs.sig(kind, L, M, informative)
        obs.add('uniform_positions', informative * L)
        for k, v in enumerate(posn):
            obs.check(w.rate_ok(v, informative, 0.5), lambda: 'uniform crossover of length %d takes position %d from the first parent %d times of %d' % (L, k, v, informative))
        obs.check(w.rate_ok(runs_same, informative * (L - 1), 0.5) if L > 1 else True, lambda: 'uniform crossover does not decide positions independently: %d of %d neighbours from the same parent' % (runs_same, informative * (L - 1)))
    elif kind in ('one', 'two') or s['subset'] == 2:
        legal = 2 * (L - 1 if kind == 'one' else (L - 1) * (L - 2) // 2)
        if informative >= 40 * legal:
            obs.add('all_cuts_seen')
            obs.add('order_segments_seen', kind == 'ord')
            if not obs.check(len(cuts) == legal, lambda: '%s crossover of length %d: only %d of %d cuts and orientations in %d children: %r' % (kind, L, len(cuts), legal, informative, sorted(cuts))):
                return
            for key, v in cuts.items():
                obs.check(w.rate_ok(v, informative, 1 / legal), lambda: '%s crossover of length %d: cut %r used %d times of %d' % (kind, L, key, v, informative))
    else:
        obs.sig(kind, L, M, s['subset'])
    obs.add('lengths_over_30', L > 30)
    both(s, obs, op, d, pairs, genos, kind, L)
    if obs.sample is None and informative:
        obs.sample = dict(case=s, parents=[list(genos[pairs[0][0]]), list(genos[pairs[0][1]])], child=list(d.children[0]['genotype']))


def run_case(case, obs):
    if case['type'] == 'direct':
        return direct(case, obs)
    s = case['spec']
    t = w.run(s)
    for k, step in enumerate(t.steps):
        e = step.get('cross')
        if not obs.check(e is not None, 'generation %d was made without crossover' % (k + 1)):
            return
        par, ch = e['parents'], e['children']
        if not obs.check(len(ch) * 2 == len(par), lambda: '%d children for %d parents' % (len(ch), len(par))):
            return
        obs.check([i.record() for i in par] == [i.record() for i in e['parents_after']], 'crossover changed a parent')
        obs.check(sorted(map(repr, [i.record() for i in e['pop']])) == sorted(map(repr, [i.record() for i in e['pop_after']])), 'crossover changed the population')
        shared = {i.gid for i in par} | {i.gid for i in e['pop_after']}
        obs.check(len({i.gid for i in ch}) == len(ch) and not shared & {i.gid for i in ch}, 'children share genotype lists')
        # children are paired with parents in order
        for m, c in enumerate(ch):
            obs.add('run_children')
            obs.add('binary_children', s['pop'] in ('bin', 'gray'))
            p, q = par[2 * m].g, par[2 * m + 1].g
            if not obs.check(parts.explain(s['cross'], p, q, c.g), lambda: 'generation %d: %s crossover of %r and %r gave %r' % (k + 1, s['cross'], p, q, c.g)):
                return
            if not obs.check(c.score is None and c.obj is None and c.p is None and c.feasible is True, lambda: 'generation %d: child is not a fresh record: %r' % (k + 1, c)):
                return
    if t.steps:
        obs.sig('run', s['cross'], s['pop'], s['algo'], s['mode'], w.genotype_length(s))
