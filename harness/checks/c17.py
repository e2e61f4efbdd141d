"""C17 FFGA keeps its non-dominated solutions: every transition of FFGA runs against a reference front, and the reported sets along runs."""
import core
import world as w
import parts
import baumeva.ga as ga

CASES = {'quick': 3000, 'thorough': 20000}
CHUNK = 8
RULE = 'distinct (run shape, objectives, front size class, free places class) among transitions with a front checked for loss'
REQUIRED = ['transitions', 'front_members_followed', 'fronts_larger_than_free_places', 'fronts_smaller_than_free_places', 'duplicate_front_members', 'reported_solutions_followed',
            'dominated_solutions_seen', 'constrained_transitions', 'direct_transitions', 'tour_runs', 'class_runs', 'share_one_runs', 'ranked_runs', 'random_transfer_transitions', 'late_states']


def gen_case(rng, idx, tier):
    if idx % 4 == 3:
        n = w.pick(rng, [4, 6, 10, 20])
        k = w.pick(rng, [2, 2, 3])
        m = w.pick(rng, [2, 3, 8])
        size = n + w.pick(rng, [0, 1, 5])
        tab = [[rng.randrange(m) for _ in range(k)] for _ in range(size)]
        if rng.random() < 0.3:      # everything non-dominated
            tab = [[i, size - i] + [0] * (k - 2) for i in range(size)]
            rng.shuffle(tab)
        if rng.random() < 0.2:      # one point dominates all
            tab = [[v + 1 for v in t] for t in tab]
            tab[rng.randrange(size)] = [0] * k
        kids = rng.randrange(1, n + 1)
        return dict(type='direct', tab=tab, n=n, kids=kids, transfer=w.pick(rng, ['best', 'best', 'random']), entropy='%x' % rng.getrandbits(40), presort=rng.random() < 0.5)
    sel = w.pick(rng, ['bal', 'bal', 'tour', 'rank'])
    mode = w.pick(rng, ['class', 'collector', 'modular'])
    s = w.gen_run(rng, tier, algo='ffga', max_n=16, max_G=12, mode=mode, sel=sel, transfer=w.pick(rng, ['best', 'best', 'best', 'random']))
    if rng.random() < 0.6:
        s['early'] = 1000
    return dict(type='run', spec=s)


def front_of(vecs):
    return [not any(w.dominates(q, p) for q in vecs) for p in vecs]


def run_case(case, obs):
    if case['type'] == 'direct':
        return direct(case, obs)
    s = case['spec']
    ranked = s['sel']['kind'] == 'rank'
    t = w.run(s)
    obs.add('class_runs', s['mode'] == 'class')
    obs.add('tour_runs', s['sel']['kind'] == 'tour')
    obs.add('ranked_runs', ranked)
    obs.add('share_one_runs', s['cp'] == 1.0)

    def vec(point):
        return tuple(w.values_of(s, list(point)))
    for g, step in enumerate(t.steps):
        ng = step['newgen']
        pop = t.gens[g]['pop']      # the evaluated previous generation
        vecs = [vec(i.point()) for i in pop]
        fr = [i for i, f in zip(pop, front_of(vecs)) if f]
        nxt = {i.g for i in ng['after']}
        obs.add('transitions')
        obs.add('constrained_transitions', bool(s['conds']))
        free = s['n'] + 1 - len(ng['children'])
        obs.add('fronts_larger_than_free_places', len(fr) > free)
        obs.add('fronts_smaller_than_free_places', len(fr) < free)
        obs.add('duplicate_front_members', len({i.g for i in fr}) < len(fr))
        obs.sig(w.shape_sig(s), w.num_objectives(s), min(len(fr), 6), min(max(len(fr) - free, -3), 3))
        for c in ng['children']:
            obs.check(c.g in nxt, lambda: 'generation %d: a child is missing from the new population' % (g + 1))
        if s['transfer'] == 'random':
            obs.add('random_transfer_transitions')
            if not obs.check(any(i.g in nxt for i in fr), lambda: 'generation %d: no non-dominated solution was carried over (transfer random)' % (g + 1)):
                return
            continue
        for i in fr:
            obs.add('front_members_followed')
            if i.g not in nxt:
                obs.bad('generation %d: non-dominated solution %r with values %r is not in the next population (front of %d, %d children, declared size %d)' % (
                    g + 1, i.point(), vec(i.point()), len(fr), len(ng['children']), s['n']))
                return
        obs.add('oracle_evaluations', len(fr))
    # reported solutions stay until dominated by something evaluated
    if s['transfer'] == 'best':
        live = {}
        for g, rec in enumerate(t.gens):
            vecs = {vec(i.point()) for i in rec['pop']}
            shown = {dict(x)['genotype'] for x in dict(rec['best'])['pareto_set']}
            for geno, v in live.items():
                obs.add('reported_solutions_followed')
                dom = any(w.dominates(q, v) for q in vecs)
                obs.add('dominated_solutions_seen', dom)
                if not obs.check(geno in shown or dom, lambda: 'generation %d: a reported solution with values %r has left the Pareto set without being dominated' % (g, v)):
                    return
            live = {i.g: vec(i.point()) for i in rec['pop'] if i.g in shown}
    if obs.sample is None and len(t.gens) > 3:
        obs.sample = dict(spec=s, sizes=[len(r['pop']) for r in t.gens])


def direct(case, obs):
    tab, n = case['tab'], case['n']
    size = len(tab)
    core.reset_tap(case['entropy'])
    pop = parts.population('cat', [[i] for i in range(size)], gens=((0, size, 1),), n=n)
    d = parts.data(pop, multi=True)
    fit = ga.FFGAFitness(obj_function=lambda x: tuple(tab[x[0] % size]))
    fit.execute(d)
    obs.add('late_states', parts.later(d, int(case['entropy'][:4], 16)) > 0)
    if case['presort']:
        d.update()
    d.parents = d.population.get_empty_copy()
    d.children = d.population.get_empty_copy()
    for c in range(case['kids']):
        kid = d.population.get_empty_individ()
        kid['genotype'] = [1000 + c]
        d.children.append(kid)
    before = {id(i) for i in d.children}
    fr = {i for i, f in enumerate(front_of(tab)) if f}
    records = {i['genotype'][0]: (i['score'], tuple(i['obj_score'])) for i in d.population}
    ga.MultiNewGeneration(transfer_parents=case['transfer']).execute(d)
    after = [i['genotype'][0] for i in d.population]
    obs.add('direct_transitions')
    free = n + 1 - case['kids']
    if not obs.check(sorted(a for a in after if a >= 1000) == [1000 + c for c in range(case['kids'])], lambda: 'children of the new population: %r' % after):
        return
    old = [a for a in after if a < 1000]
    obs.check(len(set(old)) == len(old), lambda: 'a parent is carried over twice: %r' % old)
    obs.check(all(records[i['genotype'][0]] == (i['score'], tuple(i['obj_score'])) for i in d.population if i['genotype'][0] < 1000), 'a carried-over record changed')
    if case['transfer'] == 'best':
        obs.check(fr <= set(old), lambda: 'values %r, %d children, size %d: front %r, carried over %r' % (tab, case['kids'], n, sorted(fr), sorted(old)))
        obs.check(len(old) == max(len(fr), free), lambda: '%d carried over, front %d, free places %d' % (len(old), len(fr), free))
        obs.add('front_members_followed', len(fr))
        # beyond the front: by rank
        rk = [1 + sum(w.dominates(q, p) for q in tab) for p in tab]
        if len(old) < size:
            obs.check(max(rk[i] for i in old) <= min(rk[i] for i in range(size) if i not in old), lambda: 'free places not filled by rank: %r of ranks %r' % (sorted(old), rk))
    else:
        obs.add('random_transfer_transitions')
        obs.check(fr & set(old), lambda: 'no non-dominated individual carried over: front %r, carried over %r' % (sorted(fr), sorted(old)))
        obs.check(len(old) == free, lambda: '%d carried over for %d free places' % (len(old), free))
    obs.sig('direct', n, case['kids'], len(fr), case['transfer'], size)
