"""Workloads (JSON-able run specifications), the trace recorder and the reference models shared by the checks."""
import contextlib
import math
import zlib
from fractions import Fraction

import numpy as np

import core
import baumeva
import baumeva.ga as ga
from baumeva import BinaryGA, CategoricalGA, CombinatoryGA, VEGA, FFGA, CollectorGA, generator

# ---------------------------------------------------------------------------------------------------- reference models


def grid(gene):
    """(bits, number of steps) of a binary gene."""
    a, b, s = (Fraction(str(v)) for v in gene)
    q = (b - a) / s
    m = 0
    while 2 ** m - 1 < q:
        m += 1
    return m, 2 ** m - 1


def gray_index(v):
    r = 0
    while v:
        r ^= v
        v >>= 1
    return r


_GRIDS = {}


def grids(gens):
    key = tuple(map(tuple, gens))
    if key not in _GRIDS:
        if len(_GRIDS) > 500:
            _GRIDS.clear()
        _GRIDS[key] = [grid(g) for g in key]
    return _GRIDS[key]


def decode(gens, genotype, gray):
    """Reference decoding; None if the genotype is not a bit string of the right length."""
    out, pos = [], 0
    for gene, (m, top) in zip(gens, grids(gens)):
        bits = genotype[pos:pos + m]
        pos += m
        if len(bits) != m or any(b not in ('0', '1') for b in bits):
            return None
        i = int(''.join(bits), 2)
        if gray:
            i = gray_index(i)
        out.append(gene[0] + i * ((gene[1] - gene[0]) / top))
    return out if pos == len(genotype) else None


def close(a, b, scale=1.0):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), scale)


def same_point(gens, x, y):
    return len(x) == len(y) == len(gens) and all(
        abs(p - q) <= 1e-9 * max(abs(g[0]), abs(g[1]), g[1] - g[0]) for p, q, g in zip(x, y, gens))


def cat_options(gene):
    return list(gene) if isinstance(gene, list) else list(range(gene[0], gene[1] + 1, gene[2]))


def same_value(u, v):
    return u == v and isinstance(u, str) == isinstance(v, str)


def in_space(spec, point):
    """None if the point is in the declared space, else why not."""
    gens = real_gens(spec)
    if not isinstance(point, (list, tuple)):
        return 'not a list: %r' % (point,)
    if spec['pop'] in ('bin', 'gray'):
        if len(point) != len(gens):
            return 'wrong length %d' % len(point)
        for v, g, (m, top) in zip(point, gens, grids(gens)):
            if not (g[0] <= v <= g[1]):
                return 'value %r out of [%r, %r]' % (v, g[0], g[1])
            step = (g[1] - g[0]) / top
            i = (v - g[0]) / step
            tol = 1e-6 + 1e-9 * (abs(g[0]) + abs(g[1])) / step
            if tol < 0.3 and abs(i - round(i)) > tol:
                return 'value %r is not on the grid of %r' % (v, g)
    elif spec['pop'] == 'cat':
        if len(point) != len(gens):
            return 'wrong length %d' % len(point)
        for v, g in zip(point, gens):
            if not any(same_value(v, o) for o in cat_options(g)):
                return 'value %r is not an option of %r' % (v, g)
    else:
        a, b, n = gens
        if len(point) != n:
            return 'wrong length %d' % len(point)
        if len(set(point)) != n:
            return 'repeated gene in %r' % (point,)
        if any(v != int(v) or not a <= v <= b for v in point):
            return 'gene out of range in %r' % (point,)
    return None


def dominates(x, y):
    return all(p <= q for p, q in zip(x, y)) and any(p < q for p, q in zip(x, y))


def hyperbola(target, obj, pen=0.0):
    if target is not None:
        return 1.0 / (1 + abs(target - obj) + pen)
    return -(obj + pen)


def violations(conds, values):
    """conds without 'optimize'."""
    return [max(0, v) if c == '<=' else abs(v) for c, v in zip(conds, values)]


def penalty_options(p, conds, values, generation, best_feasible):
    """Acceptable penalty values according to the documentation (more than one at interval borders)."""
    viol = violations(conds, values)
    if p['kind'] == 'dynamic':
        f = p['delta'] * (p['c'] * generation) ** p['alpha']
        return [f * sum(v ** p['betta'] for v in viol) if f else 0.0]
    if p['kind'] == 'adaptive':
        if generation == 0:
            lam = 0
        else:
            lam = 10 / p['b1'] if best_feasible else 10 * p['b2']
        return [p['delta'] * lam * sum(v ** p['betta'] for v in viol) if lam else 0.0]
    sums = [0.0]
    for i, (c, v) in enumerate(zip(conds, viol)):
        if v == 0:
            continue
        tab = p['tables'][i]
        cs = [r for (lo, hi), r in zip(tab['iv'], tab['r']) if lo <= v <= hi]
        if not cs:
            return []
        sums = [s + (r * v) ** 2 for s in sums for r in set(cs)][:64]
    return sums


# ------------------------------------------------------------------------------------------------------------- laws


def kl(q, p):
    if p <= 0:
        return 0.0 if q <= 0 else math.inf
    if p >= 1:
        return 0.0 if q >= 1 else math.inf
    r = 0.0
    if q > 0:
        r += q * math.log(q / p)
    if q < 1:
        r += (1 - q) * math.log((1 - q) / (1 - p))
    return r


LOG_ALPHA = 30.0     # two-sided error < 2e-13 per test (Chernoff)


def rate_ok(k, n, lo, hi=None):
    """Is k of n consistent with a success probability in [lo, hi]?"""
    hi = lo if hi is None else hi
    lo, hi = max(0.0, lo), min(1.0, hi)
    if n == 0:
        return True
    q = k / n
    p = min(max(q, lo), hi)
    if p == 0 or p == 1:
        return q == p
    # the rounding noise of exactly representable laws
    return n * kl(q, p) <= LOG_ALPHA


def tournament_law(scores, k):
    n = len(scores)
    order = sorted(scores)
    tot = math.comb(n, k)
    per_rank = [math.comb(r, k - 1) / tot for r in range(n)]      # r individuals below
    blocks = {}
    for r, s in enumerate(order):
        blocks.setdefault(s, []).append(per_rank[r])
    return [sum(blocks[s]) / len(blocks[s]) for s in scores]


def proportional_law(weights):
    t = sum(weights)
    if t == 0:
        return [1 / len(weights)] * len(weights)
    return [w / t for w in weights]


def ranked_law(scores):
    order = sorted(scores)
    pos = {}
    for r, s in enumerate(order):
        pos.setdefault(s, []).append(r + 1)
    return proportional_law([sum(pos[s]) / len(pos[s]) for s in scores])


def pair_law(p):
    """Unordered pair probabilities: first by p, second by p restricted to the others."""
    n = len(p)
    return {(i, j): p[i] * p[j] / (1 - p[i]) + p[j] * p[i] / (1 - p[j]) for i in range(n) for j in range(i + 1, n)}


def inclusion_law(p):
    """Expected number of times an individual is one of a pair (either place)."""
    n = len(p)
    s = [p[i] / (1 - p[i]) for i in range(n)]
    t = sum(s)
    return [p[j] + p[j] * (t - s[j]) for j in range(n)]


# ------------------------------------------------------------------------------------------------------ specifications


def real_gens(spec):
    g = spec['gens']
    if spec['pop'] in ('bin', 'gray'):
        return tuple(tuple(x) for x in g)
    if spec['pop'] == 'cat':
        return tuple(tuple(x['r']) if 'r' in x else list(x['l']) for x in g)
    return tuple(g)


def num(v):
    if isinstance(v, (int, float, np.number)):
        return float(v)
    return (zlib.crc32(repr(v).encode()) % 97) / 10.0


def raw(o, x):
    k = o['kind']
    v = [num(e) for e in x]
    c = o.get('c', 0.0)
    if k == 'sphere':
        r = sum((e - c) ** 2 for e in v)
    elif k == 'abs':
        r = sum(abs(e - c) for e in v)
    elif k == 'lin':
        w = o['w']
        r = sum(w[i % len(w)] * e for i, e in enumerate(v))
    elif k == 'const':
        r = c
    elif k == 'rug':
        r = (zlib.crc32(repr([round(e, 9) + 0.0 for e in v]).encode()) % 100003) / 100003.0
    elif k == 'rugmod':
        r = zlib.crc32(repr([round(e, 9) + 0.0 for e in v]).encode()) % o['m']
    elif k == 'step':
        r = math.floor(sum(v) / o['d'] + 1e-7)
    elif k == 'ord':
        r = sum(abs(p - q) for p, q in zip(v, v[1:]))
    elif k == 'pos':
        r = sum((i + 1) * e for i, e in enumerate(v))
    else:
        raise AssertionError(k)
    if o.get('inf') and zlib.crc32(repr([round(e, 9) + 0.0 for e in v]).encode()) % o['inf'] == 1:
        return math.inf
    return o.get('shift', 0.0) + o.get('scale', 1.0) * r


def cast(how, v):
    if how == 'int' and v != math.inf:
        r = int(round(v))
        return r if abs(r) < 2 ** 53 else float(v)      # no unsigned 64 bit arrays
    if how == 'np':
        return np.float64(v)
    return float(v)


def values_of(spec, x):
    """The list of all values the objective function returns, in order (pure)."""
    ret = spec.get('ret', 'float')
    return [cast(ret, raw(o, x)) for o in spec['objs']]


def shape(spec, vals):
    if spec['algo'] == 'single' and not spec.get('conds'):
        w = spec.get('wrap')
        v = vals[0]
        return {None: v, 'tuple': (v,), 'list': [v], 'arr': np.array([v])}[w]
    return list(vals) if spec.get('wrap') == 'list' else (np.array(vals, dtype=float) if spec.get('wrap') == 'arr' else tuple(vals))


def split(spec, vals):
    """(objective values, constraint values, signs)"""
    conds = spec.get('conds')
    if not conds:
        return list(vals), [], []
    return ([v for v, c in zip(vals, conds) if c == 'optimize'], [v for v, c in zip(vals, conds) if c != 'optimize'],
            [c for c in conds if c != 'optimize'])


def num_objectives(spec):
    return spec['conds'].count('optimize') if spec.get('conds') else (len(spec['objs']) if spec['algo'] != 'single' else 1)


def feasible_ref(spec, x):
    _, cv, signs = split(spec, values_of(spec, x))
    return all(v <= 0 if c == '<=' else v == 0 for v, c in zip(cv, signs))


class Awkward:
    """Input data that must be passed through untouched: comparing it or taking its truth value fails."""

    def __bool__(self):
        raise ValueError('truth value of input data was taken')

    def __eq__(self, other):
        raise ValueError('input data was compared')
    __hash__ = None


def input_object(tag):
    return {None: None, 'zero': 0, 'empty': [], 'str': '', 'dict': {}, 'false': False, 'arr': np.zeros(3),
            'tuple': (1, 2), 'awkward': Awkward(), 'num': 2.5}[tag]


class Objective:
    """The objective function handed to the library, with its call log."""

    def __init__(self, spec, data, fail=None, limit=None):
        self.spec, self.data, self.fail, self.limit = spec, data, fail or {}, limit
        self.calls = []          # (point tuple, values) in order
        self.gen_marks = []      # number of calls at each update
        self.bad_args = []
        me = self

        def objective(*args):
            if me.data is None:
                if len(args) != 1:
                    me.bad_args.append('called with %d arguments without input data' % len(args))
                x = args[-1]
            else:
                if len(args) != 2:
                    me.bad_args.append('called with %d arguments with input data' % len(args))
                elif args[0] is not me.data:
                    me.bad_args.append('first argument is %r, not the input data object' % (type(args[0]),))
                x = args[-1]
            i = len(me.calls)
            if not isinstance(x, list):
                me.bad_args.append('point is a %s, not a list' % type(x).__name__)
            if me.limit is not None and i > me.limit:
                raise core.Budget('more than %d objective calls' % me.limit)
            if i in me.fail:
                exc = me.fail.pop(i)
                raise exc
            vals = values_of(me.spec, x)
            me.calls.append((tuple(x), tuple(vals)))
            return shape(me.spec, vals)
        self.function = objective


def make_penalty(p):
    if p is None:
        return None
    if p['kind'] == 'dynamic':
        return ga.DynamicPenalty(delta=p['delta'], c=p['c'], alpha=p['alpha'], betta=p['betta'])
    if p['kind'] == 'adaptive':
        return ga.AdaptivePenalty(delta=p['delta'], betta_1=p['b1'], betta_2=p['b2'], betta=p['betta'])
    t = p['tables']
    eq = {i: x for i, x in enumerate(t) if x['sign'] == '!='}
    le = {i: x for i, x in enumerate(t) if x['sign'] == '<='}
    return ga.StaticPenalty(equality_intervals={i: [tuple(v) for v in x['iv']] for i, x in eq.items()},
                            equality_r_coef={i: list(x['r']) for i, x in eq.items()},
                            inequality_intervals={i: [tuple(v) for v in x['iv']] for i, x in le.items()},
                            inequality_r_coef={i: list(x['r']) for i, x in le.items()})


POPS = {'bin': 'BinaryPopulation', 'gray': 'BinaryGrayPopulation', 'cat': 'CatPopulation',
        'order': 'OrderCatPopulation'}
CROSS = {'one': 'OnePointCrossover', 'two': 'TwoPointCrossover', 'uni': 'UniformCrossover', 'ord': 'OrderCrossover'}
MUT = {'bit': 'BinStringMutation', 'cat': 'CategoricalMutation', 'swap': 'SwapMutation', 'inv': 'InversionMutation',
       'move': 'MovementMutation', 'shift': 'ShiftMutation'}


def make_selection(spec):
    s = spec['sel']
    if spec['algo'] == 'vega':
        k = num_objectives(spec)
        if s['kind'] == 'tour':
            return ga.VEGATournamentSelection(num_objectives=k, tournament_size=s['k'])
        return (ga.VEGABalancedSelection if s['kind'] == 'bal' else ga.VEGARankedSelection)(num_objectives=k)
    if s['kind'] == 'tour':
        return ga.TournamentSelection(tournament_size=s['k'])
    return (ga.BalancedSelection if s['kind'] == 'bal' else ga.RankedSelection)()


def make_fitness(spec, function, data, penalty='make', conds='make'):
    cls = {'single': ga.HyperbolaFitness, 'vega': ga.VEGAHyperbolaFitness, 'ffga': ga.FFGAFitness}[spec['algo']]
    return cls(obj_function=function, obj_value=spec.get('target'), input_data=data,
               penalty=make_penalty(spec.get('penalty')) if penalty == 'make' else penalty,
               conditions=(list(spec['conds']) if spec.get('conds') else None) if conds == 'make' else conds)


def make_parts(spec, function, data, penalty='make', conds='make'):
    return dict(fitness=make_fitness(spec, function, data, penalty, conds), selection=make_selection(spec),
                crossover=getattr(ga, CROSS[spec['cross']])(),
                mutation=getattr(ga, MUT[spec['mut']['kind']])(mutation_lvl=spec['mut']['lvl']),
                new_generation=(ga.MultiNewGeneration if spec['algo'] == 'ffga' else ga.NewGeneration)(
                    transfer_parents=spec['transfer']))


def storage_of(spec):
    return ga.GaData if spec['algo'] == 'single' else ga.MultiGaData


def real_input_population(spec):
    return [list(x) for x in spec['input_pop']] if spec.get('input_pop') else None


def make_class(spec, function, data, penalty='make', conds='make', gens=None, ipop='make'):
    kw = dict(num_generations=spec['G'], num_individ=spec['n'], gens=real_gens(spec) if gens is None else gens,
              obj_function=function, obj_value=spec.get('target'), input_data=data,
              penalty=make_penalty(spec.get('penalty')) if penalty == 'make' else penalty,
              conditions=(list(spec['conds']) if spec.get('conds') else None) if conds == 'make' else conds,
              children_percent=spec['cp'], early_stop=spec['early'],
              input_population=real_input_population(spec) if ipop == 'make' else ipop,
              tournament_size=spec['sel'].get('k', 3), mutation_lvl=spec['mut']['lvl'],
              transfer_parents=spec['transfer'], is_print=bool(spec.get('print', False)))
    if spec['pop'] == 'cat':
        return CategoricalGA(**kw)
    if spec['pop'] == 'order':
        return CombinatoryGA(**kw)
    kw['is_gray'] = spec['pop'] == 'gray'
    return {'single': BinaryGA, 'vega': VEGA, 'ffga': FFGA}[spec['algo']](**kw)


def make_population(spec, gens=None, ipop='make'):
    pop = getattr(ga, POPS[spec['pop']])()
    pop.set_params(num_individ=spec['n'], gens=real_gens(spec) if gens is None else gens,
                   input_population=real_input_population(spec) if ipop == 'make' else ipop)
    return pop


# ------------------------------------------------------------------------------------------------------------ recorder


def freeze(v):
    if isinstance(v, (list, tuple)):
        return tuple(freeze(e) for e in v)
    if isinstance(v, dict):
        return tuple((k, freeze(e)) for k, e in v.items())
    if isinstance(v, np.ndarray):
        return ('nd',) + tuple(v.ravel().tolist())
    return v


class Ind:
    __slots__ = ('oid', 'g', 'p', 'score', 'obj', 'feasible', 'rank', 'gid')

    def __init__(self, d):
        self.oid = id(d)
        g = d['genotype']
        self.gid = id(g)
        self.g = tuple(g) if g is not None else None
        p = d.get('phenotype')
        self.p = tuple(p) if p is not None else None
        s = d['score']
        self.score = tuple(s) if isinstance(s, list) else s
        o = d['obj_score']
        self.obj = tuple(o) if isinstance(o, list) else o
        self.feasible = d['feasible']
        r = d.get('rank')
        self.rank = tuple(r) if isinstance(r, list) else r

    def record(self):
        return (self.g, self.p, self.score, self.obj, self.feasible)

    def point(self):
        return self.p if self.p is not None else self.g

    def __repr__(self):
        return 'Ind(g=%r p=%r score=%r obj=%r feasible=%r rank=%r)' % (
            self.g if len(self.g) < 40 else '..', self.p, self.score, self.obj, self.feasible, self.rank)


def snap(pop):
    return [Ind(d) for d in pop]


class Trace:
    """Everything observed of one run."""

    def __init__(self):
        self.gens = []      # one entry per update
        self.steps = []     # select/cross/mutate/newgen events per loop iteration
        self.cur = {}
        self.first_fill = None
        self.result = None
        self.stdout = ''
        self.obj = None
        self.light = False

    def digest(self):
        return core.digest([[(i.g, i.p, i.score, i.obj, i.feasible) for i in g['pop']] for g in self.gens] +
                           [self.obj.calls if self.obj else None])


_REC = None
_ACTIVE = []
_INSTALLED = False


def _ga_arg(args, kw):
    return kw['ga_data'] if 'ga_data' in kw else args[0]


def _wrap(cls, name, kind):
    orig = getattr(cls, name)

    def wrapper(self, *args, **kw):
        t = _REC
        if t is None or kind in _ACTIVE:
            return orig(self, *args, **kw)
        _ACTIVE.append(kind)
        try:
            if kind == 'fill':
                r = orig(self, *args, **kw)
                if t.first_fill is None:
                    t.first_fill = snap(self)
                return r
            if kind == 'update':
                r = orig(self, *args, **kw)
                on_update(t, self)
                return r
            d = _ga_arg(args, kw)
            if t.light:
                return orig(self, *args, **kw)
            if kind == 'select':
                before = snap(d.population)
                r = orig(self, *args, **kw)
                t.cur['select'] = dict(before=before, after=snap(d.population), parents=snap(d.parents))
            elif kind == 'cross':
                parents = snap(d.parents)
                before = snap(d.population)
                r = orig(self, *args, **kw)
                t.cur['cross'] = dict(parents=parents, parents_after=snap(d.parents), children=snap(d.children),
                                      pop=before, pop_after=snap(d.population))
            elif kind == 'mutate':
                before, parents, pop = snap(d.children), snap(d.parents), snap(d.population)
                r = orig(self, *args, **kw)
                t.cur['mutate'] = dict(before=before, after=snap(d.children), parents=parents,
                                       parents_after=snap(d.parents), pop=pop, pop_after=snap(d.population))
            elif kind == 'newgen':
                pop, children = snap(d.population), snap(d.children)
                r = orig(self, *args, **kw)
                t.cur['newgen'] = dict(pop=pop, children=children, after=snap(d.population))
            elif kind == 'fitness':
                before = snap(d.population)
                r = orig(self, *args, **kw)
                t.cur['fitness'] = dict(before=before, after=snap(d.population), generation=d.idx_generation)
            return r
        finally:
            _ACTIVE.remove(kind)
    wrapper.__wrapped__ = orig
    setattr(cls, name, wrapper)


def best_record(best):
    """Frozen copy of a reported best solution."""
    return freeze(best)


def on_update(t, d):
    g = dict(pop=snap(d.population), best=best_record(d.best_solution), no_improve=d.num_generation_no_improve,
             idx=d.idx_generation, ncalls=len(t.obj.calls) if t.obj else None,
             lens=(len(d.historical_best), len(d.historical_mediocre), len(d.historical_worst)),
             hb=freeze(d.historical_best[-1]) if d.historical_best else None,
             hm=d.historical_mediocre[-1] if d.historical_mediocre else None,
             hw=d.historical_worst[-1] if d.historical_worst else None, fitness=t.cur.get('fitness'))
    t.gens.append(g)
    if len(t.gens) > 1:
        t.steps.append(t.cur)
    t.cur = {}


def install():
    """Wrap the public operations of all parts, once per process."""
    global _INSTALLED
    if _INSTALLED:
        return
    _INSTALLED = True
    todo = []
    for v in list(vars(ga).values()):
        if not isinstance(v, type):
            continue
        for base, name, kind in ((ga.BaseSelection, 'execute', 'select'), (ga.BaseCrossover, 'execute', 'cross'),
                                 (ga.BaseMutation, 'execute', 'mutate'), (ga.NewGeneration, 'execute', 'newgen'),
                                 (ga.BaseFitness, 'execute', 'fitness'), (ga.GaData, 'update', 'update'),
                                 (ga.BasePopulation, 'fill', 'fill')):
            if issubclass(v, base):
                todo.append((v, name, kind))
    # innermost definitions first is irrelevant: the wrappers are reentrant
    for cls, name, kind in sorted(todo, key=lambda x: -len(x[0].__mro__)):
        _wrap(cls, name, kind)


@contextlib.contextmanager
def recording(trace):
    global _REC
    install()
    old = _REC
    _REC = trace
    del _ACTIVE[:]
    try:
        yield trace
    finally:
        _REC = old
        del _ACTIVE[:]


def draw_limit(spec):
    """Generous bound on the number of random draws of a run (plain tap)."""
    n, L = spec['n'], 60 + 4 * genotype_length(spec)
    k = spec['sel'].get('k', 3)
    per_pair = 8 * (n + 2) * (k + 2) if spec['sel']['kind'] == 'tour' else 20
    mult = 4 if spec.get('rng') == 'extreme' else 1
    return 100000 + (spec['G'] + 1) * (n + 2) * (L * 4 + 60 * per_pair + 30 * (n + 2)) * mult


def genotype_length(spec):
    if spec['pop'] in ('bin', 'gray'):
        return sum(m for m, _ in grids(real_gens(spec)))
    if spec['pop'] == 'cat':
        return len(spec['gens'])
    return spec['gens'][2]


def call_limit(spec):
    n = spec['n'] + 2
    per = n if spec['algo'] == 'single' else 3 * n * n
    if spec['algo'] == 'ffga':
        per *= 200
    return (spec['G'] + 2) * per + 100


def run(spec, trace=None, fail=None, light=False, seed=True, data=None):
    """Run the specification from beginning to end under the recorder."""
    t = trace or Trace()
    t.light = light
    data = input_object(spec.get('input_data')) if data is None else data
    t.obj = Objective(spec, data, fail=fail, limit=call_limit(spec))
    if seed:
        generator.rnd_seed = spec.get('seed')
        core.reset_tap(spec['entropy'], spec.get('rng', 'plain'), draw_limit(spec))
    try:
        with recording(t), core.quiet() as out:
            try:
                t.result = drive(spec, t.obj.function, data)
            finally:
                t.stdout = out.getvalue()
    finally:
        if seed:
            core.TAP.limit = None
            core.TAP.mode = 'plain'
            generator.rnd_seed = None
    return t


def drive(spec, function, data):
    if spec['mode'] == 'class':
        return make_class(spec, function, data).optimize()
    if spec['mode'] == 'collector':
        c = CollectorGA(storage=storage_of(spec), **make_parts(spec, function, data))
        c.set_population(getattr(ga, POPS[spec['pop']]), num_individ=spec['n'], num_generations=spec['G'],
                         gens=real_gens(spec), input_population=real_input_population(spec),
                         children_percent=spec['cp'], early_stop=spec['early'])
        c.optimize()
        return c.ga_data
    return modular(spec, make_parts(spec, function, data))


def modular(spec, parts, gens=None, ipop='make'):
    d = storage_of(spec)(num_generations=spec['G'], children_percent=spec['cp'], early_stop=spec['early'])
    pop = make_population(spec, gens, ipop)
    pop.fill()
    d.population = pop
    parts['fitness'].execute(d)
    d.update()
    for _ in range(1, d.num_generations):
        parts['selection'].execute(d)
        parts['crossover'].execute(d)
        parts['mutation'].execute(d)
        parts['new_generation'].execute(d)
        parts['fitness'].execute(d)
        d.update()
        if d.num_generation_no_improve > d.early_stop:
            break
    return d


# ------------------------------------------------------------------------------------------------- workload generation

BIN_GENES = [[0, 7, 1], [-5, 5, 0.1], [0, 1, 0.25], [-100, 100, 0.001], [1.5, 2.5, 0.3], [0, 1000000, 1], [-9, -1, 2],
             [0, 0.001, 0.00001], [0, 1, 5], [-1, 1, 0.5], [0, 3, 1], [0, 1, 1], [-0.3, 0.7, 0.1], [10, 20, 0.7],
             [-2.048, 2.048, 0.001], [0, 15, 1], [0, 16, 1], [3, 250, 1], [-32768, 32767, 1], [0, 0.3, 0.1],
             [-1000.5, -999.5, 0.01], [5, 6, 1], [0, 127, 1], [-500, 500, 10], [0, 4294967295, 1],
             # ratios of range and step at or just above 2**m - 1
             [0.1, 0.4, 0.1], [0.7, 1.0, 0.1], [1.1, 1.8, 0.1], [-0.1, 1.4, 0.1], [0, 3.004, 1], [0, 7.0002, 1],
             [-1, 14.00001, 1], [2, 33.003, 1], [0, 0.0631, 0.001], [0, 126.9, 1], [1000, 1255.0004, 1],
             # very small and very large scales
             [0, 2e-9, 1e-11], [-3e-7, 5e-7, 2e-8], [0, 5e-14, 1e-15], [-1e15, 1e15, 3e13], [1e9, 2e9, 1e6]]
CAT_GENES = [{'r': [0, 5, 1]}, {'r': [2, 11, 3]}, {'r': [5, 5, 1]}, {'r': [-4, 4, 2]}, {'l': ['a', 'b', 'c']},
             {'l': [1, 'x', None]}, {'l': [0.5, 1.5]}, {'l': [True, 'q', 7]}, {'l': [7]}, {'r': [0, 1, 1]},
             {'l': ['', 'left', 'right', 'up', 'down']}, {'r': [0, 100, 1]}, {'l': [0, 10, 20, 30]}, {'r': [1, 10, 4]},
             {'l': ['only']}, {'l': [None, 'set']}, {'r': [-3, -1, 1]}, {'l': [0, 'zero']},
             {'l': ['o%d' % i for i in range(48)]}, {'r': [-500, 500, 1]}, {'l': [i / 4 for i in range(70)]},
             {'r': [0, 90, 9]}, {'r': [-1000, 1000, 250]}, {'r': [10 ** 9, 10 ** 9 + 40, 8]}]


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def rand_bin_gene(rng):
    if rng.random() < 0.7:
        return list(pick(rng, BIN_GENES))
    a = round(rng.uniform(-50, 50), rng.randrange(4))
    r = round(rng.uniform(0.5, 100), rng.randrange(1, 4))
    s = round(r / rng.randrange(1, 70) + 0.001, 3)
    return [a, round(a + r, 6), s]


def gen_genes(rng, pop, size=None, min_len=1):
    size = size or pick(rng, ['s', 's', 's', 'm', 'm', 'l'])
    while True:
        if pop in ('bin', 'gray'):
            k = {'s': rng.randrange(1, 4), 'm': rng.randrange(2, 7), 'l': rng.randrange(6, 16), 'xl': rng.randrange(17, 40)}[size]
            g = [rand_bin_gene(rng) for _ in range(k)]
            if rng.random() < 0.2:
                g = [list(g[0])] * k
            g = [list(x) for x in g]
        elif pop == 'cat':
            k = {'s': rng.randrange(1, 4), 'm': rng.randrange(3, 9), 'l': rng.randrange(8, 25), 'xl': rng.randrange(30, 80)}[size]
            g = [dict(pick(rng, CAT_GENES)) for _ in range(k)]
        else:
            L = {'s': rng.randrange(3, 6), 'm': rng.randrange(4, 11), 'l': rng.randrange(10, 31), 'xl': rng.randrange(40, 100)}[size]
            a = pick(rng, [0, 0, 1, -5, 10, -1000])
            b = a + L - 1 + pick(rng, [0, 0, 0, 1, 1, 3, 20, 500])
            g = [a, b, L]
        if genotype_length(dict(pop=pop, gens=g)) >= min_len:
            return g


def gen_objective(rng, pop, flavour=None):
    k = flavour or pick(rng, ['sphere', 'abs', 'lin', 'const', 'rug', 'rug', 'rugmod', 'step', 'ord', 'pos', 'sphere'])
    o = {'kind': k}
    if k in ('sphere', 'abs'):
        o['c'] = pick(rng, [0.0, 1.0, 2.5, -3.0])
    elif k == 'lin':
        o['w'] = [round(rng.uniform(-2, 2), 2) for _ in range(3)]
    elif k == 'const':
        o['c'] = pick(rng, [0.0, 1.0, -1.0, 5.0])
    elif k == 'rugmod':
        o['m'] = pick(rng, [2, 3, 7, 20])
    elif k == 'step':
        o['d'] = pick(rng, [1.0, 3.0, 10.0])
    r = rng.random()
    if r < 0.15:
        o['scale'] = -1.0
    elif r < 0.22:
        o['scale'] = 1e12
    elif r < 0.29:
        o['scale'] = 1e-9
    elif r < 0.4:
        o['shift'] = pick(rng, [-1.0, 1.0, -100.0, 1000.0])
    elif r < 0.44:
        o['inf'] = pick(rng, [2, 3, 9])
    return o


def gen_constraint(rng):
    k = rng.random()
    if k < 0.5:
        o = {'kind': 'lin', 'w': [round(rng.uniform(-2, 2), 2) for _ in range(3)],
             'shift': pick(rng, [0.0, -1.0, 1.0, -20.0])}
        if rng.random() < 0.05:
            o['inf'] = pick(rng, [2, 5])
        return o
    if k < 0.6:
        return {'kind': 'rugmod', 'm': pick(rng, [2, 3, 5]), 'shift': pick(rng, [0.0, -1.0])}
    if k < 0.7:     # violations of the size of rounding errors, or very large ones
        return {'kind': 'rugmod', 'm': pick(rng, [2, 3, 5]), 'scale': pick(rng, [5.5e-17, 1e-12, 1e-9, 1e-4, -1e-13, 1e7])}
    if k < 0.85:
        return {'kind': 'step', 'd': pick(rng, [1.0, 5.0]), 'shift': pick(rng, [0.0, -2.0])}
    return {'kind': 'const', 'c': pick(rng, [0.0, -1.0, 2.0])}


def gen_penalty(rng, signs):
    k = pick(rng, ['dynamic', 'adaptive', 'static'])
    if k == 'dynamic':
        return dict(kind=k, delta=pick(rng, [1, 2.0, 0.1]), c=pick(rng, [0.5, 1, 3.0]), alpha=pick(rng, [1, 2, 0.5, 1.5]),
                    betta=pick(rng, [1, 2, 3, 1.5, 2.5]))
    if k == 'adaptive':
        b1, b2 = pick(rng, [(1.1, 1.2), (2.0, 3.0), (1.5, 1.1), (4, 2), (1.01, 30)])
        return dict(kind=k, delta=pick(rng, [1, 0.5, 3]), b1=b1, b2=b2, betta=pick(rng, [1, 2, 2, 1.5, 0.5]))
    tables = []
    for s in signs:
        m = rng.randrange(1, 5) if rng.random() < 0.8 else 9
        cuts = sorted(set([0] + [pick(rng, [0.5, 1, 2, 3, 10, 40, 100] if m < 9 else [0.01, 0.1, 0.5, 1, 2, 3, 10, 20, 40, 100, 1000]) for _ in range(m - 1)]))
        iv = [[lo, hi] for lo, hi in zip(cuts, cuts[1:] + [math.inf])]
        tables.append(dict(sign=s, iv=iv, r=sorted(round(rng.uniform(0.5, 20), 1) for _ in iv)))
    return dict(kind=k, tables=tables)


def gen_conditions(rng, nobj=1, many=False):
    signs = [pick(rng, ['<=', '!=']) for _ in range(rng.randrange(4, 11) if many else rng.randrange(1, 4))]
    conds = signs + ['optimize'] * nobj
    rng.shuffle(conds)
    return conds


def gen_level(rng):
    return pick(rng, ['weak', 'normal', 'strong', 'normal', 0.0, 1.0, 0.05, 0.2, 0.5, 0.8])


def random_point(rng, spec):
    """A random point of the space (input population)."""
    g = real_gens(spec)
    if spec['pop'] in ('bin', 'gray'):
        out = []
        for gene, (m, top) in zip(g, grids(g)):
            r = rng.random()
            if r < 0.2:
                out.append(gene[0])
            elif r < 0.4:
                out.append(gene[1])
            elif r < 0.7:
                out.append(gene[0] + rng.randrange(top + 1) * ((gene[1] - gene[0]) / top))
            else:
                out.append(rng.uniform(gene[0], gene[1]))
        return [min(max(v, gene[0]), gene[1]) for v, gene in zip(out, g)]
    if spec['pop'] == 'cat':
        return [pick(rng, cat_options(x)) for x in g]
    return rng.sample(range(g[0], g[1] + 1), g[2])


def gen_run(rng, tier='quick', algo=None, pop=None, mode=None, transfer=None, constrained=None, size=None,
            max_n=None, max_G=None, sel=None, objective=None, inputs=True, early=None, cross=None, mut=None,
            big=0.04, nobj=None, inf=False):
    """A random valid run specification; infinite objective and constraint values only if asked for."""
    algo = algo or pick(rng, ['single'] * 6 + ['vega', 'ffga'])
    pop = pop or pick(rng, ['bin', 'gray', 'cat', 'order'])
    mode = mode or pick(rng, ['class', 'class', 'collector', 'modular'])
    if mode == 'class' and algo != 'single' and pop not in ('bin', 'gray'):
        mode = 'modular'
    s = dict(algo=algo, pop=pop, mode=mode)
    s['transfer'] = transfer or pick(rng, ['best', 'best', 'random'])
    nobj = 1 if algo == 'single' else nobj or pick(rng, [1, 2, 2, 2, 3, 4])
    # one dimension far beyond the usual sizes
    big = pick(rng, ['n', 'n', 'G', 'con', 'len'] + ['obj'] * (algo != 'single')) if rng.random() < big else None
    if big == 'obj' and nobj < 5:
        nobj = pick(rng, [5, 6, 8])
    # population and generations
    r = rng.random()
    if r < 0.6:
        n, G = rng.randrange(3, 13), rng.randrange(1, 16)
    elif r < 0.85:
        n, G = rng.randrange(10, 41), rng.randrange(2, 21)
    elif r < 0.95:
        n, G = rng.randrange(3, 9), rng.randrange(30, 121)
    else:
        n, G = pick(rng, [64, 101, 128, 150, 257]), rng.randrange(2, 6)
    if algo != 'single':
        n, G = min(n, 24), min(G, 12)
    if max_n:
        n = min(n, max_n)
    if max_G:
        G = min(G, max_G)
    if big == 'n':
        n, G = (pick(rng, [80, 130, 300, 520]), pick(rng, [2, 3])) if algo == 'single' else (pick(rng, [30, 45, 60, 80, 105]), 2)
    elif big == 'G':
        n, G = (pick(rng, [4, 5, 7]), pick(rng, [130, 160, 260, 400])) if algo == 'single' else (pick(rng, [4, 5, 6]), pick(rng, [25, 40] if algo == 'ffga' else [25, 40, 70, 110]))
    elif big == 'len':
        n, G = min(n, 8), min(G, 4)
    n = max(n, 3, nobj + 1)
    s['n'], s['G'] = n, G
    while True:
        s['cp'] = pick(rng, [0.95, 0.95, 0.9, 0.8, 0.5, 0.5, 0.3, 1.0, 0.1, 0.67, 0.29, 0.58] + ([0.05, 0.02] if n > 60 else []))
        kids = int(s['cp'] * n / nobj) if algo == 'vega' else int(s['cp'] * n)
        if kids >= 1:
            break
    s['early'] = early if early is not None else pick(rng, [10, 130, 1000, 1000] if big == 'G' else [0, 1, 2, 5, 10, 10, 1000, 1000] if G > 25 else [0, 1, 2, 5, 10, 10, 1000])
    if mode == 'class' and rng.random() < 0.25 and early is None:
        s['early'] = None
    kind = sel or pick(rng, ['tour', 'tour', 'bal', 'rank'])
    if mode == 'class':
        kind = 'bal' if algo == 'ffga' else 'tour'
    if kind != 'tour' and mode != 'class' and algo != 'vega' and rng.random() < 0.04:
        n = s['n'] = 2
        s['cp'] = pick(rng, [0.5, 0.95, 1.0])
    s['sel'] = {'kind': kind}
    if kind == 'tour' or mode == 'class':
        s['sel']['k'] = min(n - 1, pick(rng, [2, 2, 3, 3, 3, 4, 5, n - 1 if n <= 60 else n // 4, min(10, n // 2)]))
        if s['sel']['k'] < 2:
            s['sel']['k'] = 2
    lmin = 2
    if mode == 'class':
        s['cross'] = {'bin': 'one', 'gray': 'one', 'cat': 'uni', 'order': 'ord'}[pop]
        s['mut'] = {'kind': {'bin': 'bit', 'gray': 'bit', 'cat': 'cat', 'order': 'move'}[pop]}
    elif pop == 'order':
        s['cross'] = 'ord'
        s['mut'] = {'kind': mut or pick(rng, ['swap', 'inv', 'move', 'shift'])}
    else:
        s['cross'] = cross or pick(rng, ['one', 'two', 'uni'])
        s['mut'] = {'kind': 'bit' if pop in ('bin', 'gray') else 'cat'}
    if s['cross'] == 'two':
        lmin = 3
    if s['cross'] == 'uni':
        lmin = 1
    s['mut']['lvl'] = gen_level(rng)
    s['gens'] = gen_genes(rng, pop, 'xl' if big == 'len' else size, lmin)
    # objective
    con = rng.random() < 0.25 if constrained is None else constrained
    s['ret'] = pick(rng, ['float', 'float', 'float', 'int', 'np'])
    if con:
        s['conds'] = gen_conditions(rng, nobj, big == 'con')
        s['objs'] = [gen_objective(rng, pop, objective) if c == 'optimize' else gen_constraint(rng)
                     for c in s['conds']]
        s['penalty'] = gen_penalty(rng, [c for c in s['conds'] if c != 'optimize'])
        s['wrap'] = pick(rng, ['tuple', 'tuple', 'list', 'list', 'arr'])
    else:
        s['conds'] = None
        s['objs'] = [gen_objective(rng, pop, objective) for _ in range(nobj)]
        s['penalty'] = None
        s['wrap'] = pick(rng, [None, None, 'tuple', 'list', 'arr']) if algo == 'single' else pick(rng, ['tuple', 'tuple', 'list', 'list', 'arr'])
    if not inf:
        for o in s['objs']:
            o.pop('inf', None)
    t = rng.random()
    if algo == 'ffga' or t < 0.45:
        s['target'] = None
    elif algo == 'vega':
        s['target'] = [pick(rng, [0, 0, 1, -2, 10.5]) for _ in range(nobj)]
    else:
        s['target'] = pick(rng, [0, 0, 0.0, 1, -2, 10.5, 1e6, -1000])
    s['input_data'] = pick(rng, [None, None, None, 'zero', 'empty', 'str', 'dict', 'false', 'arr', 'tuple', 'awkward',
                                 'num'])
    s['input_pop'] = None
    if inputs and rng.random() < 0.2:
        m = pick(rng, [1, 2, n // 2, n - 1, n])
        s['input_pop'] = [random_point(rng, s) for _ in range(max(1, m))]
        if rng.random() < 0.3:
            s['input_pop'] = [list(s['input_pop'][0]) for _ in s['input_pop']]
    s['seed'] = pick(rng, [None, None, None, 0, 1, 42, -3, 2 ** 40])
    s['rng'] = 'extreme' if rng.random() < 0.15 and s['seed'] is None and s['sel'].get('k', 0) <= max(2, n // 3) else 'plain'
    s['entropy'] = '%x' % rng.getrandbits(48)
    s['print'] = rng.random() < 0.3
    return s


def shape_sig(spec):
    return (spec['algo'], spec['pop'], spec['mode'], spec['sel']['kind'], spec['cross'], spec['mut']['kind'],
            spec['transfer'], bool(spec['conds']), spec['target'] is None)


def points_of(trace):
    return [c[0] for c in trace.obj.calls]
