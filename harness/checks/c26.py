"""C26 user-written parts: do-nothing subclasses repeat the built-in run; what custom parts answer is what happens in the run."""
import copy

import baumeva.ga as ga
import core
import world as w

CASES = {'quick': 7800, 'thorough': 16000}
CHUNK = 8
RULE = 'distinct (run shape, custom part, seed or entropy, number of generations) whose run was compared with what the custom part answered'
TYPES = ['same', 'same', 'same', 'penalty', 'fitness', 'crossover', 'mutation', 'selection', 'newgen', 'storage', 'population', 'coding', 'all', 'coin', 'coding']
PARTS = ['fitness', 'selection', 'crossover', 'mutation', 'new_generation', 'penalty', 'storage', 'population']
REQUIRED = ['same_' + p for p in PARTS] + ['generations_compared', 'custom_penalties_seen', 'custom_penalties_positive', 'custom_penalties_negative', 'coin_children', 'custom_coding_method', 'custom_scores_seen', 'custom_children_first', 'custom_children_second', 'custom_pairs_kept_both',
            'custom_mutations_seen', 'custom_selections_seen', 'custom_elites_seen', 'custom_updates_seen', 'custom_stops_seen', 'custom_population_runs', 'custom_coding_points', 'vega_custom_penalties', 'static_subclass_runs', 'dynamic_subclass_runs', 'adaptive_subclass_runs',
            'custom_everything_runs', 'collector_runs', 'modular_runs']


def gen_case(rng, idx, tier):
    kind = TYPES[idx % len(TYPES)]
    algo = w.pick(rng, ['single', 'single', 'single', 'vega', 'ffga']) if kind in ('same', 'penalty', 'storage', 'mutation') else 'single'
    if kind == 'penalty' and algo == 'ffga':
        algo = 'vega'
    con = True if kind == 'penalty' else (rng.random() < 0.45 if kind in ('same', 'all', 'fitness') else None)
    s = w.gen_run(rng, tier, algo=algo, mode=w.pick(rng, ['modular', 'collector']), max_n=16, max_G=10, constrained=con, inputs=kind not in ('population', 'all'),
                  pop=w.pick(rng, ['bin', 'gray']) if kind == 'coding' else None, cross='uni' if kind == 'coding' else None)
    s['rng'] = 'plain'
    case = dict(type=kind, spec=s)
    if kind == 'same':
        parts = PARTS if s['penalty'] else [p for p in PARTS if p != 'penalty']
        case['parts'] = parts if rng.random() < 0.4 else [w.pick(rng, parts)]
        case['copy'] = rng.random() < 0.5
    if kind == 'coin':
        return dict(type=kind, how=w.pick(rng, ['copies', 'swapped', 'zigzag', 'reversed']), L=w.pick(rng, [2, 3, 8]), members=w.pick(rng, [2, 3, 6]), entropy='%x' % rng.getrandbits(40), salt=rng.getrandbits(30))
    if kind == 'coding':
        case['method'] = rng.random() < 0.5
    if kind == 'penalty':
        case['bonus'] = s['target'] is None and rng.random() < 0.5
    if kind == 'crossover':
        case['both'] = rng.random() < 0.4
    return case


def prepare(s, t):
    data = w.input_object(s.get('input_data'))
    t.light = True
    t.obj = w.Objective(s, data, limit=4 * w.call_limit(s))
    w.generator.rnd_seed = s.get('seed')
    core.reset_tap(s['entropy'], 'plain', 4 * w.draw_limit(s))
    return data


def execute(s, build, early=None):
    """Run the parts that build(function, data) returns: (parts, storage class, population class)."""
    t = w.Trace()
    data = prepare(s, t)
    try:
        with w.recording(t), core.quiet():
            parts, storage, popcls = build(t.obj.function, data)
            if s['mode'] == 'collector':
                c = w.CollectorGA(storage=storage, **parts)
                c.set_population(popcls, num_individ=s['n'], num_generations=s['G'], gens=w.real_gens(s), input_population=w.real_input_population(s), children_percent=s['cp'], early_stop=s['early'])
                c.optimize()
                t.result = c.ga_data
            else:
                d = storage(num_generations=s['G'], children_percent=s['cp'], early_stop=s['early'])
                pop = popcls()
                pop.set_params(num_individ=s['n'], gens=w.real_gens(s), input_population=w.real_input_population(s))
                pop.fill()
                d.population = pop
                parts['fitness'].execute(d)
                d.update()
                for _ in range(1, d.num_generations):
                    for name in ('selection', 'crossover', 'mutation', 'new_generation', 'fitness'):
                        parts[name].execute(d)
                    d.update()
                    if d.num_generation_no_improve > d.early_stop:
                        break
                t.result = d
    finally:
        core.TAP.limit = None
        core.TAP.mode = 'plain'
        w.generator.rnd_seed = None
    return t


def defaults(s):
    def build(function, data):
        return w.make_parts(s, function, data), w.storage_of(s), getattr(ga, w.POPS[s['pop']])
    return build


def pops(t):
    return [[(i.g, i.p, i.score, i.obj, i.feasible) for i in g['pop']] for g in t.gens]


def sub(cls, **body):
    return type('My' + cls.__name__, (cls,), body)


def remade(obj):
    """The same object as an instance of a subclass that changes nothing."""
    obj.__class__ = sub(type(obj))
    return obj


def sub_population(cls, own_copy):
    me = sub(cls)
    if own_copy:
        me.get_empty_copy = staticmethod(lambda: make())
        phen = cls.get_empty_copy().is_phenotype

        def make():
            p = me()
            p.is_phenotype = phen
            return p
    return me


def same(case, obs):
    s, names = case['spec'], case['parts']
    a = execute(s, defaults(s))

    def build(function, data):
        pen = w.make_penalty(s.get('penalty'))
        if 'penalty' in names and pen is not None:
            pen = remade(pen)
            obs.add(s['penalty']['kind'] + '_subclass_runs')
        parts = w.make_parts(s, function, data, penalty=pen)
        for k in parts:
            if k in names:
                parts[k] = remade(parts[k])
        storage, pop = w.storage_of(s), getattr(ga, w.POPS[s['pop']])
        return parts, sub(storage) if 'storage' in names else storage, sub_population(pop, case['copy']) if 'population' in names else pop
    b = execute(s, build)
    for p in names:
        obs.add('same_' + p)
    what = '%s %s %s with subclasses of %s' % (s['algo'], s['pop'], s['mode'], ', '.join(names))
    x, y = pops(a), pops(b)
    for g, (p, q) in enumerate(zip(x, y)):
        obs.add('generations_compared')
        if not obs.check(core.digest(p) == core.digest(q), lambda: '%s: generation %d differs from that of the built-in classes' % (what, g)):
            return
    obs.check(len(x) == len(y), lambda: '%s: %d generations, with the built-in classes %d' % (what, len(y), len(x)))
    obs.check(core.digest(w.freeze(a.result.best_solution)) == core.digest(w.freeze(b.result.best_solution)), lambda: what + ': another result')


def laws(s, t, obs, what, children=None, score=None):
    """What every run promises, whatever its parts are (single objective)."""
    n = s['n']
    gens = t.gens
    c = int(s['cp'] * n) if children is None else children
    size = max(c, n) + 1 if c > n else n + 1
    obs.check(len(gens[0]['pop']) == n, lambda: '%s: first generation has %d of %d' % (what, len(gens[0]['pop']), n))
    for g in gens[1:]:
        obs.check(len(g['pop']) == size, lambda: '%s: a generation of %d, expected %d' % (what, len(g['pop']), size))
    obs.check(len(t.obj.calls) == n + c * (len(gens) - 1), lambda: '%s: %d objective calls in %d generations of %d, %d children' % (what, len(t.obj.calls), len(gens), n, c))
    best = None
    idx = 0
    for g in gens:
        top = max(i.score for i in g['pop'])
        if best is None or top > best:
            best, first = top, idx
        obs.check(top >= best, lambda: '%s: the best score fell from %r to %r' % (what, best, top))
        idx += 1
    b = t.result.best_solution
    obs.check(b['score'] == best and b['idx_generation'] == first, lambda: '%s: best %r of generation %d, reported %r of %r' % (what, best, first, b['score'], b['idx_generation']))


def check_scores(s, t, obs, what, ref):
    """score == ref(individual, generation it was evaluated in) for every new individual."""
    for g, rec in enumerate(t.gens):
        old = {(i.g, i.score) for i in t.gens[g - 1]['pop']} if g else set()
        for i in rec['pop']:
            if (i.g, i.score) in old:
                continue
            r = ref(i)
            pair = list(zip(i.score, r)) if isinstance(r, (list, tuple)) else [(i.score, r)]
            obs.check(all(w.close(float(x), float(y), 1e-12) for x, y in pair), lambda: '%s: score of %r in generation %d is %r, the custom part says %r' % (what, i.point(), g, i.score, r))


def penalty(case, obs):
    s = case['spec']
    log = []

    def value(signs, values):
        return (-60.5 if case['bonus'] else 0) + sum((j + 1) * 3.5 * v for j, v in enumerate(w.violations(signs, values))) + (2.0 if any(w.violations(signs, values)) else 0)

    class Pen(ga.BasePenalty):
        def get_sum_conditional_func(self, conditionals, values):
            log.append((tuple(conditionals), tuple(values)))
            self.penalty = value(conditionals, values)

    def build(function, data):
        return w.make_parts(s, function, data, penalty=Pen()), w.storage_of(s), getattr(ga, w.POPS[s['pop']])
    t = execute(s, build)
    what = '%s %s %s with a custom penalty' % (s['algo'], s['pop'], s['mode'])
    signs = tuple(c for c in s['conds'] if c != 'optimize')
    obs.check(bool(log) and all(l[0] == signs for l in log), lambda: '%s: called with conditions %r, declared %r' % (what, log and log[0][0], signs))
    known = {tuple(w.split(s, c[1])[1]) for c in t.obj.calls}
    obs.check(all(l[1] in known for l in log), lambda: what + ': called with values no objective call returned')

    def ref(i):
        ov, cv, sg = w.split(s, w.values_of(s, list(i.point())))
        p = value(sg, cv)
        obs.add('custom_penalties_positive', p > 0)
        obs.add('custom_penalties_negative', p < 0)
        if s['algo'] == 'single':
            return w.hyperbola(s['target'], ov[0], p)
        return [w.hyperbola(s['target'][k] if s['target'] is not None else None, o, p) for k, o in enumerate(ov)]
    check_scores(s, t, obs, what, ref)
    obs.add('custom_penalties_seen', len(log))
    obs.add('vega_custom_penalties', s['algo'] == 'vega')
    if s['algo'] == 'single':
        laws(s, t, obs, what)


class Fit(ga.BaseFitness):
    """score = 100 - 2*obj - penalty, and remembers the penalty per evaluation."""

    def get_fitness_score(self, individ, penalty_value=0):
        self.log.append((tuple(individ.get('phenotype') or individ['genotype']), penalty_value))
        return 100 - 2.0 * individ['obj_score'] - penalty_value


def fitness(case, obs):
    s = case['spec']
    log = []

    def build(function, data):
        f = Fit(obj_function=function, obj_value=s.get('target'), input_data=data, penalty=w.make_penalty(s.get('penalty')), conditions=list(s['conds']) if s['conds'] else None)
        f.log = log
        return dict(w.make_parts(s, function, data), fitness=f), w.storage_of(s), getattr(ga, w.POPS[s['pop']])
    t = execute(s, build)
    what = '%s %s with a custom fitness' % (s['pop'], s['mode'])
    pens = {}
    for p, v in log:
        pens.setdefault(p, set()).add(v)
    for g in t.gens:
        for i in g['pop']:
            p = tuple(i.point())
            obj = w.split(s, w.values_of(s, list(p)))[0][0]
            ok = any(w.close(float(i.score), float(100 - 2.0 * obj - v), 1e-12) for v in pens.get(p, ()))
            obs.check(ok, lambda: '%s: score of %r is %r, the custom method answered %r' % (what, p, i.score, [100 - 2.0 * obj - v for v in pens.get(p, ())]))
            obs.add('custom_scores_seen')
    if not s['conds']:
        obs.check(all(v == {0} for v in pens.values()), lambda: what + ': penalised without constraints')
    laws(s, t, obs, what)


def zigzag(p, q):
    """A recombination of two parents that stays a permutation when they are."""
    perm = len(set(map(repr, p))) == len(p) and sorted(map(repr, p)) == sorted(map(repr, q))
    if perm:
        return list(reversed(p)), list(reversed(q))
    return [x if i % 2 else y for i, (x, y) in enumerate(zip(p, q))], [y if i % 2 else x for i, (x, y) in enumerate(zip(p, q))]


class Cross(ga.BaseCrossover):
    def crossover(self, parent_1, parent_2, child_1, child_2):
        a, b = zigzag(parent_1, parent_2) if self.perm is False else (list(reversed(parent_1)), list(reversed(parent_2)))
        child_1['genotype'], child_2['genotype'] = a, b
        self.log.append((tuple(a), tuple(b)))
        return child_1, child_2


def crossover(case, obs):
    s = case['spec']
    made = []
    both = case['both']

    class NoMut(ga.BaseMutation):
        def execute(self, ga_data):
            made.append([tuple(c['genotype']) for c in ga_data.children])
    log = []

    def build(function, data):
        c = Cross()
        c.log, c.perm = log, s['pop'] == 'order'
        if both:
            c.num_offsprings = 2
        return dict(w.make_parts(s, function, data), crossover=c, mutation=NoMut()), w.storage_of(s), getattr(ga, w.POPS[s['pop']])
    t = execute(s, build)
    what = '%s %s with a custom crossover' % (s['pop'], s['mode'])
    pairs = int(s['cp'] * s['n'])
    obs.check(len(log) == pairs * (len(t.gens) - 1), lambda: '%s: %d pairs crossed, expected %d' % (what, len(log), pairs * (len(t.gens) - 1)))
    for g, kids in enumerate(made):
        answers = log[g * pairs:(g + 1) * pairs]
        if both:
            obs.check(kids == [c for ab in answers for c in ab], lambda: '%s: two offsprings per pair asked for, the children are not the two answers of each pair' % what)
            obs.add('custom_pairs_kept_both', len(answers))
        else:
            if obs.check(len(kids) == len(answers), lambda: '%s: %d children of %d pairs' % (what, len(kids), len(answers))):
                for k, (a, b) in zip(kids, answers):
                    obs.check(k in (a, b), lambda: '%s: child %r is neither of the answers %r, %r' % (what, k, a, b))
                    if a != b:
                        obs.add('custom_children_first' if k == a else 'custom_children_second')
        left = [i.g for i in t.gens[g + 1]['pop']]
        obs.check(contained(kids, left), lambda: '%s: children of generation %d are missing from the population' % (what, g + 1))
    laws(s, t, obs, what, children=2 * pairs if both else None)


def coin(case, obs):
    """One child per pair: each of the two answers of a custom crossover with equal chance, whatever they are."""
    import random
    import parts
    rng = random.Random(case['salt'])
    core.reset_tap(case['entropy'])
    L, M = case['L'], case['members']
    genos = [['%d.%d' % (i, j) for j in range(L)] for i in range(M)]
    d = parts.data(parts.population('cat', genos, [float(i) for i in range(M)], gens=tuple([[g[j] for g in genos] for j in range(L)])))
    pairs = [tuple(rng.sample(range(M), 2)) for _ in range(700)]
    parts.with_parents(d, pairs)
    log = []

    class Own(ga.BaseCrossover):
        def crossover(self, parent_1, parent_2, child_1, child_2):
            a, b = {'copies': (list(parent_1), list(parent_2)), 'swapped': (list(parent_2), list(parent_1)), 'zigzag': zigzag(parent_1, parent_2),
                    'reversed': (list(reversed(parent_1)), list(reversed(parent_2)))}[case['how']]
            child_1['genotype'], child_2['genotype'] = a, b
            log.append((tuple(a), tuple(b)))
            return child_1, child_2
    Own().execute(d)
    kids = [tuple(c['genotype']) for c in d.children]
    if not obs.check(len(kids) == len(log) == len(pairs), lambda: '%d children, %d custom crossovers of %d pairs' % (len(kids), len(log), len(pairs))):
        return
    if not obs.check(all(k in ab for k, ab in zip(kids, log)), 'a child is neither of the answers of a custom crossover'):
        return
    first = sum(k == a for k, (a, b) in zip(kids, log))
    obs.add('coin_children', len(kids))
    obs.check(w.rate_ok(first, len(kids), 0.5), lambda: 'custom crossover (%s): the first child is taken %d times of %d' % (case['how'], first, len(kids)))
    ends = [0, 0]
    for _ in range(300):
        log.clear()
        parts.with_parents(d, pairs[:2])
        Own().execute(d)
        for i in (0, 1):
            ends[i] += tuple(d.children[i]['genotype']) == log[i][0]
    for i in (0, 1):
        obs.check(w.rate_ok(ends[i], 300, 0.5), lambda: 'custom crossover (%s): pair %d of 2 gives its first child %d times of 300' % (case['how'], i, ends[i]))
    obs.sig('coin', case['how'], L, M)


def contained(part, whole):
    rest = list(whole)
    for x in part:
        if x not in rest:
            return False
        rest.remove(x)
    return True


def mutation(case, obs):
    s = case['spec']
    made = []

    class Mut(ga.BaseMutation):
        def execute(self, ga_data):
            for c in ga_data.children:
                c['genotype'].reverse()
                if s['pop'] in ('bin', 'gray'):
                    c['genotype'] = ['1' if b == '0' else '0' for b in c['genotype']]
                elif s['pop'] == 'cat':
                    c['genotype'] = [w.cat_options(o)[-1] for o in w.real_gens(s)]
            made.append([tuple(c['genotype']) for c in ga_data.children])

    def build(function, data):
        return dict(w.make_parts(s, function, data), mutation=Mut()), w.storage_of(s), getattr(ga, w.POPS[s['pop']])
    t = execute(s, build)
    what = '%s %s %s with a custom mutation' % (s['algo'], s['pop'], s['mode'])
    obs.check(len(made) == len(t.gens) - 1, lambda: '%s: mutation executed %d times in %d generations' % (what, len(made), len(t.gens)))
    for g, kids in enumerate(made):
        obs.add('custom_mutations_seen', len(kids))
        obs.check(contained(kids, [i.g for i in t.gens[g + 1]['pop']]), lambda: '%s: mutated children of generation %d are missing from the population' % (what, g + 1))
    if s['algo'] == 'single':
        laws(s, t, obs, what)


def selection(case, obs):
    s = case['spec']
    chosen = []

    class Sel(ga.BaseSelection):
        """The two best, again and again; the population is seen in the order of idx_individ."""

        def execute(self, ga_data):
            super().execute(ga_data)
            obs.check(len(ga_data.parents) == 0 and [i['idx_individ'] for i in ga_data.population] == list(range(len(ga_data.population))), lambda: 'the base selection does not prepare empty parents and indices')
            order = sorted(ga_data.population, key=lambda i: i['score'])
            a, b = order[-1], order[-2]
            for _ in range(int(ga_data.children_percent * ga_data.population.num_individ)):
                ga_data.parents.extend([copy.deepcopy(a), copy.deepcopy(b)])
            chosen.append((tuple(a['genotype']), tuple(b['genotype'])))

    class NoMut(ga.BaseMutation):
        def execute(self, ga_data):
            kids.append([tuple(c['genotype']) for c in ga_data.children])
    kids = []

    def build(function, data):
        return dict(w.make_parts(s, function, data), selection=Sel(), mutation=NoMut()), w.storage_of(s), getattr(ga, w.POPS[s['pop']])
    t = execute(s, build)
    what = '%s %s with a custom selection' % (s['pop'], s['mode'])
    obs.check(len(chosen) == len(t.gens) - 1, lambda: what + ': not executed once per generation')
    for g, ((a, b), ks) in enumerate(zip(chosen, kids)):
        obs.add('custom_selections_seen')
        ga_, gb = a, b
        for k in ks:
            ok = sorted(map(repr, k)) and len(k) == len(ga_) and (all(x == y or x == z for x, y, z in zip(k, ga_, gb)) if s['pop'] != 'order' else set(k) <= set(ga_) | set(gb))
            obs.check(ok, lambda: '%s: child %r has genes of none of the chosen parents %r, %r' % (what, k, ga_, gb))
        obs.check(contained(ks, [i.g for i in t.gens[g + 1]['pop']]), lambda: '%s: children missing' % what)
    laws(s, t, obs, what)


def newgen(case, obs):
    s = dict(case['spec'], transfer='best')
    given = []

    class Gen(ga.NewGeneration):
        """Keeps the best and, next to it, the worst ones."""

        def add_best(self, ga_data, num_elites):
            order = sorted(ga_data.population, key=lambda i: i['score'])
            e = [order[-1]] + order[:num_elites]
            given.append((len(ga_data.population), [tuple(i['genotype']) for i in e], num_elites))
            return e

    def build(function, data):
        return dict(w.make_parts(s, function, data), new_generation=Gen()), w.storage_of(s), getattr(ga, w.POPS[s['pop']])
    t = execute(s, build)
    what = '%s %s with custom elites' % (s['pop'], s['mode'])
    c = int(s['cp'] * s['n'])
    if c < s['n']:
        obs.check(len(given) == len(t.gens) - 1, lambda: '%s: asked for elites %d times in %d generations' % (what, len(given), len(t.gens)))
        for g, (m, e, k) in enumerate(given):
            obs.check(k == s['n'] - c, lambda: '%s: asked for %d elites, expected %d' % (what, k, s['n'] - c))
            obs.check(contained(e, [i.g for i in t.gens[g + 1]['pop']]), lambda: '%s: the chosen elites are not in generation %d' % (what, g + 1))
            obs.add('custom_elites_seen')
    laws(s, t, obs, what)


def storage(case, obs):
    s = case['spec']
    base = w.storage_of(s)
    stop = 1 + core_hash(s) % 6
    seen = []

    class Store(base):
        """Counts updates and ends the run after a number of generations."""

        def update(self):
            super().update()
            seen.append(self.idx_generation)
            self.num_generation_no_improve = 0
            if len(seen) == stop:
                self.num_generation_no_improve = 10 ** 9

    def build(function, data):
        return w.make_parts(s, function, data), Store, getattr(ga, w.POPS[s['pop']])
    t = execute(s, build)
    what = '%s %s %s with a custom storage' % (s['algo'], s['pop'], s['mode'])
    obs.check(isinstance(t.result, Store), lambda: what + ': another storage was used')
    # the stop is looked at after every generation but the first
    want = min(s['G'], stop) if stop > 1 else s['G']
    obs.check(len(seen) == want and seen == list(range(1, want + 1)), lambda: '%s: %d generations of %d, the storage ends the run after %d' % (what, len(seen), s['G'], stop))
    obs.add('custom_updates_seen', len(seen))
    obs.add('custom_stops_seen', want < s['G'])


def core_hash(s):
    return int(s['entropy'], 16)


class RealPop(ga.BasePopulation):
    """Real coded individuals in [0, 1]."""

    def set_params(self, num_individ, gens, input_population=None):
        self.num_individ, self.gens, self.input_population = num_individ, gens, input_population

    def fill(self):
        import random
        for i in range(self.num_individ):
            self.add_dict(genotype=[random.random() for _ in range(5)], score=None, obj_score=None, idx_individ=i, tag=None)

    @staticmethod
    def get_empty_copy():
        return RealPop()


class RealMut(ga.BaseMutation):
    def execute(self, ga_data):
        import random
        for c in ga_data.children:
            c['genotype'] = [min(1.0, max(0.0, v + random.uniform(-0.1, 0.1))) for v in c['genotype']]


def population(case, obs):
    s = dict(case['spec'])
    if s['cross'] == 'ord':
        s['cross'] = ['one', 'two', 'uni'][core_hash(s) % 3]

    def build(function, data):
        return dict(w.make_parts(s, function, data), mutation=RealMut()), w.storage_of(s), RealPop
    t = execute(s, build)
    what = 'a real-coded population (%s)' % s['mode']
    laws(s, t, obs, what)
    for g in t.gens:
        for i in g['pop']:
            obs.check(len(i.g) == 5 and all(0 <= v <= 1 for v in i.g) and i.p is None, lambda: '%s: individual %r' % (what, i))
            if not s['conds']:
                v = w.values_of(s, list(i.g))[0]
                obs.check(i.obj == v and w.close(float(i.score), float(w.hyperbola(s['target'], v)), 1e-12), lambda: '%s: %r has objective value %r' % (what, i, v))
    obs.check(isinstance(t.result.population, RealPop), lambda: what + ': ends as another population')
    obs.add('custom_population_runs')


def coding(case, obs):
    """A binary population with its own decoding on top: the objective gets the decoded point."""
    s = case['spec']
    base = getattr(ga, w.POPS[s['pop']])

    class Squared(base):
        if case['method']:
            def binary_individ_to_float(self, genotype):
                return [round(v * 0.5 - 3, 6) for v in super().binary_individ_to_float(genotype)]
        else:
            def get_phenotype(self):
                for i in self:
                    i['phenotype'] = None
                super().get_phenotype()
                for i in self:
                    i['phenotype'] = [round(v * 0.5 - 3, 6) for v in i['phenotype']]

        @staticmethod
        def get_empty_copy():
            p = Squared()
            p.is_phenotype = True
            return p
    obs.add('custom_coding_method', case['method'])

    def build(function, data):
        return w.make_parts(s, function, data), w.storage_of(s), Squared
    t = execute(s, build)
    what = '%s %s with a custom decoding' % (s['pop'], s['mode'])
    gens = w.real_gens(s)
    calls = {c[0] for c in t.obj.calls}
    for g in t.gens:
        for i in g['pop']:
            ref = [v * 0.5 - 3 for v in w.decode(gens, i.g, s['pop'] == 'gray')]
            obs.check(len(i.p) == len(ref) and all(abs(x - y) <= 2e-6 + 1e-9 * abs(y) for x, y in zip(i.p, ref)), lambda: '%s: phenotype %r of %r, the custom decoding gives %r' % (what, i.p, i.g, ref))
            obs.check(i.p in calls, lambda: '%s: the objective function was never asked for %r' % (what, i.p))
            obs.add('custom_coding_points')
    laws(s, t, obs, what)


def everything(case, obs):
    """All parts written by the user, one objective."""
    s = case['spec']
    s = dict(s, cross='uni')
    value = lambda signs, values: 5.0 * sum(w.violations(signs, values))

    class Pen(ga.BasePenalty):
        def get_sum_conditional_func(self, conditionals, values):
            self.penalty = value(conditionals, values)

    class Sel(ga.BaseSelection):
        def execute(self, ga_data):
            import random
            super().execute(ga_data)
            for _ in range(int(ga_data.children_percent * ga_data.population.num_individ)):
                ga_data.parents.extend(copy.deepcopy(random.sample(list(ga_data.population), 2)))

    class Store(ga.GaData):
        pass

    class Gen(ga.NewGeneration):
        pass

    def build(function, data):
        f = Fit(obj_function=function, input_data=data, penalty=Pen() if s['conds'] else None, conditions=list(s['conds']) if s['conds'] else None)
        f.log = []
        c = Cross()
        c.log, c.perm = [], False
        return dict(fitness=f, selection=Sel(), crossover=c, mutation=RealMut(), new_generation=Gen(s['transfer'])), Store, RealPop
    t = execute(s, build)
    what = 'a run of custom parts (%s)' % s['mode']

    def ref(i):
        ov, cv, sg = w.split(s, w.values_of(s, list(i.point())))
        return 100 - 2.0 * ov[0] - value(sg, cv)
    check_scores(s, t, obs, what, ref)
    laws(s, t, obs, what)
    obs.add('custom_everything_runs')


def run_case(case, obs):
    if case['type'] == 'coin':
        return coin(case, obs)
    s = case['spec']
    {'same': same, 'penalty': penalty, 'fitness': fitness, 'crossover': crossover, 'mutation': mutation, 'selection': selection, 'newgen': newgen, 'storage': storage, 'population': population, 'coding': coding, 'all': everything}[case['type']](case, obs)
    obs.add(s['mode'] + '_runs')
    obs.sig(w.shape_sig(s), case['type'], tuple(case.get('parts', ())), s['seed'], s['G'])
    if obs.sample is None:
        obs.sample = dict(type=case['type'], spec=s)
