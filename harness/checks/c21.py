"""C21 validation: every kind of invalid and boundary value offered to parts, preset classes and collectors; the observed outcome (exception or complete run) compared."""
import math
import core
import world as w
import parts
import baumeva.ga as ga

CASES = {'quick': 24000, 'thorough': 60000}
CHUNK = 24
RULE = 'distinct (parameter, value, route, run shape) offered'
REQUIRED = ['refused_tournament', 'accepted_tournament', 'refused_transfer', 'accepted_transfer', 'refused_level', 'accepted_level', 'refused_penalty', 'accepted_penalty', 'refused_adaptive',
            'accepted_adaptive', 'refused_static', 'accepted_static', 'refused_sign', 'accepted_sign', 'refused_values', 'accepted_values', 'vega_routes', 'direct_parts']

MUTS = ['bit', 'cat', 'swap', 'inv', 'move', 'shift']
BAD_TRANSFER = ['Best', 'BEST', '', 'worst', 'rand', 'randoms', 'best ', None, 1, 0, True, ('best',), 'all', 'none', 'elite']
BAD_LEVEL = ['', 'Normal', 'NORMAL', 'weak ', 'medium', 'none', 'strongest', None, 1, 0, 2, -1, True, False, -0.0001, 1.0001, -1.0, 2.0, 100.0, math.inf, -math.inf, math.nan, '0.5', [0.5], (0.1,), 5e300,
             -1e-300, 1.0000000000000002]
GOOD_LEVEL = ['weak', 'normal', 'strong', 0.0, 1.0, 0.5, 1e-12, 0.999999999, -0.0, 5e-324]
BAD_PENALTY = ['dynamic', 5, 1.5, True, object, [1], {'a': 1}, ('x',), ga.DynamicPenalty, ga.BasePenalty, 'DynamicPenalty', lambda *a, **k: 1]
BAD_ADAPT = [(1, 1.2), (1.0, 2.0), (0.5, 1.2), (0, 2), (-1.5, 1.2), (1.2, 1), (1.2, 0.9), (2, -3), (1.5, 1.5), (2, 2.0), (1, 1), (0.99999, 1.00001), (1.1, 1.0), (0.5, 0.7), (-2, -2), (3, 3)]
GOOD_ADAPT = [(1.1, 1.2), (1.2, 1.1), (1.0000001, 1.0000002), (100, 2), (2, 3), (1.5, 1e6), (1.000000000000001, 5)]
BAD_SIGN = ['>=', '>', '<', '=', '==', '', '=<', '!', 'le', None, 0, '<= ', ' !=', 'Optimize', '<>', '≤', '!==', 'opt']


def gen_case(rng, idx, tier):
    what = ['tournament', 'transfer', 'level', 'penalty', 'adaptive', 'static', 'sign', 'values'][idx % 8]
    c = dict(what=what, good=rng.random() < 0.4, pickn=rng.getrandbits(30), direct=rng.random() < 0.3)
    kw = {}
    if what in ('sign', 'penalty', 'static', 'adaptive'):
        kw['constrained'] = True
    if what == 'values':
        kw['constrained'] = rng.random() < 0.6
    algo = w.pick(rng, ['single', 'single', 'single', 'vega', 'ffga'])
    if what == 'tournament':
        algo = w.pick(rng, ['single', 'single', 'vega'])
        kw['sel'] = 'tour'
    s = w.gen_run(rng, tier, algo=algo, max_n=9, max_G=5, big=0, size='s', inputs=False, **kw)
    if kw.get('constrained') and rng.random() < 0.15:         # many conditions
        while sum(x != 'optimize' for x in s['conds']) < 4:
            s = w.gen_run(rng, tier, algo=algo, max_n=9, max_G=5, big=1.0, size='s', inputs=False, **kw)
    s.update(G=max(2, s['G']), early=1000, rng='plain', input_data=None)
    c['spec'] = s
    return c


def attempt(s, function=None):
    """Run the specification; returns the exception raised or None."""
    core.reset_tap(s['entropy'], 'plain', w.draw_limit(s))
    o = w.Objective(s, None, limit=w.call_limit(s))
    try:
        with core.quiet():
            d = w.drive(s, function or o.function, None)
        return None, d
    except Exception as e:
        return e, None


class Literal:
    """Replaces make_penalty / make_parts pieces for one run."""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {k: getattr(w, k) for k in self.kw}
        for k, v in self.kw.items():
            setattr(w, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(w, k, v)


def verdict(c, obs, err, label, good, d=None, s=None):
    obs.add(('accepted_' if good else 'refused_') + c['what'])
    if s is not None:
        obs.add('vega_routes', s['algo'] == 'vega')
    obs.sig(c['what'], label, good, c['direct'], (s or {}).get('mode'), (s or {}).get('algo'), (s or {}).get('pop'))
    if good:
        if err is not None:
            obs.bad('valid %s %s refused: %s: %s' % (c['what'], label, type(err).__name__, err))
        elif d is not None:
            obs.check(len(d.historical_best) == s['G'], lambda: 'run with valid %s %s made %d of %d generations' % (c['what'], label, len(d.historical_best), s['G']))
        obs.add('oracle_evaluations')
    else:
        obs.check(err is not None, lambda: 'invalid %s %s accepted (%s)' % (c['what'], label, {k: s[k] for k in ('algo', 'pop', 'mode')} if s else 'part alone'))


def call(f):
    try:
        return None, f()
    except Exception as e:
        return e, None


def run_case(c, obs):
    s, what, good = dict(c['spec']), c['what'], c['good']
    sel = lambda seq: seq[c['pickn'] % len(seq)]
    obs.add('direct_parts', c['direct'])
    if what == 'tournament':
        n = s['n']
        if c['direct'] and c['pickn'] // 1000 % 3 == 0:
            n = 3 if good else 2 + c['pickn'] // 3000 % 3
        k = sel(list(range(2, n)) if good else [1, 0, -1, -5, n, n + 1, n + 2, 2 * n, 10 ** 6])
        if c['direct']:
            vega = s['algo'] == 'vega'
            genos = [['g%d' % i] for i in range(n + c['pickn'] % 2)]       # later generations have one individual more
            pop = parts.population('cat', genos, [[float(i), 1.0] if vega else float(i) for i in range(len(genos))], gens=([g[0] for g in genos],), n=n, extra=dict(rank=1))
            d = parts.data(pop, multi=vega, cp=1.0)
            core.reset_tap(s['entropy'], 'plain', 10 ** 6)
            err, _ = call(lambda: (ga.VEGATournamentSelection(2, k) if vega else ga.TournamentSelection(k)).execute(d))
            verdict(c, obs, err, '%d of %d' % (k, n), good, s=None)
            return
        s['sel'] = dict(kind='tour', k=k)
        err, d = attempt_limited(s)
        verdict(c, obs, err, '%d of %d' % (k, n), good, d, s)
    elif what == 'transfer':
        v = sel(['best', 'random'] if good else BAD_TRANSFER)
        if c['direct']:
            err, _ = call(lambda: (ga.NewGeneration, ga.MultiNewGeneration)[c['pickn'] // 50 % 2](transfer_parents=v))
            verdict(c, obs, err, repr(v), good)
            return
        s['transfer'] = v
        err, d = attempt(s)
        verdict(c, obs, err, repr(v), good, d, s)
    elif what == 'level':
        v = sel(GOOD_LEVEL if good else BAD_LEVEL)
        if c['direct']:
            m = MUTS[c['pickn'] // 100 % 6]
            err, _ = call(lambda: getattr(ga, w.MUT[m])(mutation_lvl=v))
            verdict(c, obs, err, '%s %r' % (m, v), good)
            return
        s['mut'] = dict(s['mut'], lvl=v)
        err, d = attempt(s)
        verdict(c, obs, err, '%s %r' % (s['mut']['kind'], v), good, d, s)
    elif what == 'penalty':
        if good:
            err, d = attempt(s)
            verdict(c, obs, err, s['penalty']['kind'], True, d, s)
            return
        v = sel(BAD_PENALTY)
        if c['direct']:
            err, _ = call(lambda: w.make_fitness(s, lambda x: 0, None, penalty=v))
            verdict(c, obs, err, repr(v)[:40], False)
            return
        with Literal(make_penalty=lambda p: v):
            err, d = attempt(s)
        verdict(c, obs, err, repr(v)[:40], False, d, s)
    elif what == 'adaptive':
        v = sel(GOOD_ADAPT if good else BAD_ADAPT)
        if c['direct'] or not good:
            err, _ = call(lambda: ga.AdaptivePenalty(betta_1=v[0], betta_2=v[1]))
            verdict(c, obs, err, repr(v), good)
            return
        s['penalty'] = dict(kind='adaptive', delta=1, b1=v[0], b2=v[1], betta=2)
        err, d = attempt(s)
        verdict(c, obs, err, repr(v), good, d, s)
    elif what == 'static':
        iv = [(0, 1), (1, math.inf)]
        a, b, x, y = [(1, 1, 1, 1), (0, 0, 2, 2), (2, 2, 0, 0), (3, 3, 1, 1)][c['pickn'] % 4]
        if not good:
            dlt = 1 + c['pickn'] // 4 % 2
            if c['pickn'] // 8 % 2:
                a, b = (a + dlt, b) if c['pickn'] // 16 % 2 else (a, b + dlt)
            else:
                x, y = (x + dlt, y) if c['pickn'] // 16 % 2 else (x, y + dlt)
        err, _ = call(lambda: ga.StaticPenalty(equality_intervals={i: list(iv) for i in range(a)}, equality_r_coef={i: [1, 2] for i in range(b)},
                                               inequality_intervals={i: list(iv) for i in range(x)}, inequality_r_coef={i: [1, 2] for i in range(y)}))
        verdict(c, obs, err, repr((a, b, x, y)), good)
    elif what == 'sign':
        if good:
            err, d = attempt(s)
            verdict(c, obs, err, repr(s['conds']), True, d, s)
            return
        v = sel(BAD_SIGN)
        conds = list(s['conds'])
        where = [i for i, x in enumerate(conds) if x != 'optimize']
        conds[where[c['pickn'] // 100 % len(where)]] = v
        if c['direct']:
            pen = w.make_penalty(s['penalty'])
            signs = [x for x in conds if x != 'optimize']
            vals = [(c['pickn'] // 7 % 3 - 1) * 0.5 for _ in signs]
            kw = dict(conditionals=signs, values=vals)
            if s['penalty']['kind'] != 'static':
                kw['iter_generation'] = c['pickn'] % 3
            if s['penalty']['kind'] == 'adaptive':
                kw['best_individ'] = {'feasible': True}
            err, _ = call(lambda: pen.execute(**kw))
            verdict(c, obs, err, '%r %s' % (v, s['penalty']['kind']), False)
            return
        pen = w.make_penalty(s['penalty'])
        s2 = dict(s, conds=conds)
        o = w.Objective(s, None, limit=w.call_limit(s))
        with Literal(make_penalty=lambda p: pen):
            err, d = attempt(s2, o.function)
        verdict(c, obs, err, '%r %s' % (v, s['penalty']['kind']), False, d, s)
    else:
        values(c, s, obs)


def attempt_limited(s):
    core.reset_tap(s['entropy'], 'plain', 10 ** 7)
    o = w.Objective(s, None, limit=w.call_limit(s))
    try:
        with core.quiet():
            return None, w.drive(s, o.function, None)
    except Exception as e:
        return e, None


def values(c, s, obs):
    """Number of values returned by the objective function."""
    need = len(s['objs'])
    o = w.Objective(s, None, limit=w.call_limit(s))
    if c['good']:
        err, d = attempt(s)
        verdict(c, obs, err, 'conds=%r wrap=%r' % (s['conds'], s['wrap']), True, d, s)
        return
    if s['algo'] != 'single' and not s['conds']:
        # without conditions the returned vector defines the objectives
        err, d = attempt(s)
        verdict(dict(c, good=True), obs, err, 'free vector', True, d, s)
        return
    delta = [1, 2, -1, 1, -1, 5][c['pickn'] % 6]
    if not s['conds']:
        delta = abs(delta)
    late = c['pickn'] // 10 % 2 and s['algo'] == 'single'
    form = [tuple, list, w.np.array][c['pickn'] // 20 % 3]
    scalar = s['conds'] and c['pickn'] // 40 % 4 == 0
    f = o.function
    wrong_at = s['n'] + 1 if late else 0
    hits = [0]
    if int(s['cp'] * s['n']) < 2:
        wrong_at = 0

    def g(x):
        v = f(x)
        if len(o.calls) - 1 < wrong_at:
            return v
        hits[0] += 1
        if scalar:
            return 1.0
        return form([0.5] * max(0, need + delta))
    err, d = attempt(s, g)
    if not hits[0]:
        return
    verdict(c, obs, err, '%s instead of %d' % ('a number' if scalar else need + delta, need), False, d, s)
