"""Direct workloads for single parts: populations built by hand, one operation executed, everything observed."""
import copy
import world as w
import baumeva.ga as ga


def population(kind, genotypes, scores=None, gens=None, multi=False, n=None, sort=True, extra=None):
    """A population of the given kind with the given genotypes, evaluated with the given scores."""
    pop = getattr(ga, w.POPS[kind])()
    pop.set_params(num_individ=n or len(genotypes), gens=gens, input_population=None)
    if kind in ('bin', 'gray'):
        pop.fill()          # sets up the coding
        del pop[:]
    for i, g in enumerate(genotypes):
        d = dict(genotype=list(g), score=None, obj_score=None)
        if kind in ('bin', 'gray'):
            d['phenotype'] = None
        if extra:
            d.update(extra)
        pop.add_dict(**d)
    pop.reset_idx_individ()
    if kind in ('bin', 'gray'):
        pop.get_phenotype()
    if scores is not None:
        for ind, s in zip(pop, scores):
            ind['score'] = list(s) if isinstance(s, (list, tuple)) else s
            ind['obj_score'] = [-e for e in s] if isinstance(s, (list, tuple)) else -s
    return pop


def stale_indices(pop, rng):
    """Give the population the indices it has after a new generation: none for children, old ones for elites."""
    n = len(pop)
    for ind in pop:
        ind['idx_individ'] = None if rng.random() < 0.5 else rng.randrange(n)


def data(pop, cp=0.95, multi=False):
    d = (ga.MultiGaData if multi else ga.GaData)(num_generations=10, children_percent=cp, early_stop=5)
    d.population = pop
    return d


STATES = [(0, 0), (0, 0), (1, 0), (2, 1), (7, 3), (10, 0), (12, 8), (16, 4), (20, 19), (25, 1), (30, 0), (31, 12), (32, 0), (48, 40), (50, 0), (64, 31),
          (99, 10), (100, 99), (128, 2), (250, 0), (500, 200), (1000, 7)]


def later(d, salt, best=True):
    """Make the run data look like that of a run in progress: generations made, generations without improvement, histories, best solution."""
    made, still = STATES[salt % len(STATES)]
    if not made:
        return 0
    multi = isinstance(d, ga.MultiGaData)
    d.idx_generation, d.num_generation_no_improve = made, still
    d.num_generations = made + 1 + salt // 7 % 3 * 50
    d.early_stop = still + salt // 3 % 4 * 10
    if best:
        ind = copy.deepcopy(max(d.population, key=lambda i: i['score']))
        ind['feasible'] = salt // 5 % 3 > 0
        if multi:
            d.historical_best = [[copy.deepcopy(ind)] for _ in range(min(made, 20))]
            d.best_solution = dict(pareto_set=[ind], idx_generation=made - 1 - still)
        else:
            for h in (d.historical_best, d.historical_mediocre, d.historical_worst):
                h.extend([ind['score']] * made)
            d.best_solution = dict(ind, idx_generation=made - 1 - still)
    return made


def with_parents(d, pairs):
    """Set the parents directly: deep copies of population members, pair by pair."""
    d.parents = d.population.get_empty_copy()
    for i, j in pairs:
        d.parents.append(copy.deepcopy(d.population[i]))
        d.parents.append(copy.deepcopy(d.population[j]))


# ------------------------------------------------------------------------------------------- crossover explanations


def agreement(x, y):
    """Lengths of the longest common prefix, and the start of the longest common suffix."""
    L = len(x)
    a = 0
    while a < L and x[a] == y[a]:
        a += 1
    b = L
    while b > 0 and x[b - 1] == y[b - 1]:
        b -= 1
    return a, b


def one_point_cuts(p, q, c):
    L = len(c)
    a, _ = agreement(c, p)
    _, b = agreement(c, q)
    return list(range(max(1, b), min(L - 1, a) + 1))


def two_point_cuts(p, q, c):
    L = len(c)
    pa, pb = agreement(c, p)
    out = []
    for a in range(1, min(pa, L - 2) + 1):
        b = a
        while b < L - 1 and c[b] == q[b]:
            b += 1
            if b >= pb:
                out.append((a, b))
    return out


def cyclic_subsequence(seq, ring):
    if not seq:
        return True
    m = len(ring)
    pos = {v: i for i, v in enumerate(ring)}
    if any(v not in pos for v in seq):
        return False
    total = 0
    for u, v in zip(seq, seq[1:]):
        total += (pos[v] - pos[u]) % m or m
    return total < m


def order_segments(p, q, c):
    """Inner segments of p kept in place such that the rest comes from q in cyclic order.

    Only maximal ones: a longer segment in place explains whatever a part of it explains."""
    L = len(c)
    if len(set(c)) != L:
        return []
    out = []
    a = 1
    while a < L - 1:
        b = a
        while b < L - 1 and c[b] == p[b]:
            b += 1
        if b > a:
            seg = set(p[a:b])
            if cyclic_subsequence(list(c[b:]) + list(c[:a]), [x for x in q if x not in seg]):
                out.append((a, b))
        a = max(b, a + 1)
    return out


def explain(kind, p, q, c):
    """Is c a legal child of p and q?  (tuples)"""
    if len(c) != len(p):
        return False
    if kind == 'uni':
        return all(x == y or x == z for x, y, z in zip(c, p, q))
    f = {'one': one_point_cuts, 'two': two_point_cuts, 'ord': order_segments}[kind]
    return bool(f(p, q, c) or f(q, p, c))
