"""C19 failing objective function: a fault is injected at every call of a run in turn, the state is inspected, the evaluation repeated and the run continued."""
import core
import world as w
from baumeva import CollectorGA
import baumeva.ga as ga

CASES = {'quick': 630, 'thorough': 4000}
CHUNK = 3
LEVEL = 'fault_enumeration'
RULE = 'for each generated run a fault at every single objective call (capped per run), plus repeated and double faults; distinct (run shape, failing generation, position in the evaluation, exception type)'
REQUIRED = ['fault_points', 'first_call_faults', 'last_call_faults', 'faults_in_later_generations', 'base_exceptions', 'type_errors', 'multi_faults', 'constrained_faults', 'double_faults',
            'class_faults', 'collector_faults', 'modular_faults', 'retries_compared', 'repeated_faults', 'exhaustive_runs', 'wrong_value_faults', 'collector_optimize_faults', 'penalty_faults']


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


KINDS = [ValueError, TypeError, KeyboardInterrupt, SystemExit, StopIteration, CustomBase, Custom, ZeroDivisionError, IndexError, KeyError, AttributeError, RuntimeError, GeneratorExit,
         AssertionError, MemoryError, NotImplementedError, OSError, TimeoutError, ConnectionResetError, OverflowError, FloatingPointError, ArithmeticError, RecursionError, EOFError, LookupError,
         UserWarning, DeprecationWarning, BufferError, NameError, ImportError, StopAsyncIteration, PermissionError, FileNotFoundError, InterruptedError, BrokenPipeError, Exception, BaseException]
CAP = {'quick': 60, 'thorough': 400}


def gen_case(rng, idx, tier):
    algo = w.pick(rng, ['single'] * 4 + ['vega', 'ffga'])
    s = w.gen_run(rng, tier, algo=algo, max_n=8 if algo == 'single' else 5, max_G=4, big=0, size=w.pick(rng, ['s', 's', 'm']), mode=['class', 'collector', 'modular'][idx % 3],
                  constrained=rng.random() < 0.4)
    s['rng'] = 'plain'
    s['early'] = 1000
    if s['input_data'] == 'awkward':
        s['input_data'] = None
    return dict(spec=s, cap=CAP[tier], salt=rng.getrandbits(40))


def state(d):
    return (core.digest(w.freeze(d.best_solution)), core.digest([w.freeze(d.historical_best), w.freeze(d.historical_mediocre), w.freeze(d.historical_worst)]),
            sorted((repr(tuple(i['genotype'])) for i in d.population)), d.idx_generation, d.num_generation_no_improve)


def start(s):
    w.generator.rnd_seed = s['seed']
    core.reset_tap(s['entropy'], 'plain', w.draw_limit(s))


def gen_digest(t, d):
    return core.digest([[(i.g, i.p, i.score, i.obj, i.feasible) for i in g['pop']] for g in t.gens] + [w.freeze(d.best_solution), w.freeze(d.historical_best)])


def stepwise(s, faults, obs, ref, check):
    """Modular or collector run whose evaluations are repeated after a failure; returns (trace digest, calls)."""
    data = w.input_object(s['input_data'])
    o = w.Objective(s, data, fail=dict(faults), limit=w.call_limit(s))
    t = w.Trace()
    t.light, t.obj = True, o
    start(s)
    retried = 0
    try:
        with w.recording(t), core.quiet():
            p = w.make_parts(s, o.function, data)
            if s['mode'] == 'collector':
                c = CollectorGA(storage=w.storage_of(s), **p)
                c.set_population(getattr(ga, w.POPS[s['pop']]), num_individ=s['n'], num_generations=s['G'], gens=w.real_gens(s), input_population=w.real_input_population(s),
                                 children_percent=s['cp'], early_stop=s['early'])
                d = c.ga_data
            else:
                d = w.storage_of(s)(num_generations=s['G'], children_percent=s['cp'], early_stop=s['early'])
                pop = w.make_population(s)
                pop.fill()
                d.population = pop

            def evaluate(first):
                nonlocal retried
                for attempt in range(len(faults) + 2):
                    pending = dict(o.fail)
                    before = state(d)
                    done = len(o.calls)
                    try:
                        if first and s['mode'] == 'collector' and attempt == 0 and pending and min(pending) < ref['first']:
                            c.optimize()        # fails in the first evaluation, through the collector
                            obs.bad('the collector went on although the objective function raised')
                            return
                        p['fitness'].execute(d)
                        d.update()
                        return
                    except BaseException as e:
                        fired = [x for k, x in pending.items() if k not in o.fail]
                        if not fired:
                            raise
                        if not check(len(fired) == 1 and e is fired[0], lambda: 'the objective function raised %r, the caller got %r' % (fired[0], e)):
                            raise Stop()
                        after = state(d)
                        names = ['best solution', 'histories', 'genotypes of the population', 'generation counter', 'improvement counter']
                        for name, x, y in zip(names, before, after):
                            if not check(x == y, lambda: '%s changed by a failing evaluation (call %d)' % (name, done)):
                                raise Stop()
                        retried += 1
                check(False, 'evaluation does not complete after the failures are gone')
                raise Stop()
            evaluate(True)
            for _ in range(1, d.num_generations):
                p['selection'].execute(d)
                p['crossover'].execute(d)
                p['mutation'].execute(d)
                p['new_generation'].execute(d)
                evaluate(False)
                if d.num_generation_no_improve > d.early_stop:
                    break
        return gen_digest(t, d), core.digest(o.calls), retried
    finally:
        core.TAP.limit = None
        w.generator.rnd_seed = None


class Stop(Exception):
    pass


def class_run(s, fault, obs, ref, check):
    data = w.input_object(s['input_data'])
    i, exc = fault
    o = w.Objective(s, data, fail={i: exc}, limit=w.call_limit(s))
    obj = w.make_class(s, o.function, data)
    t = w.Trace()
    t.light, t.obj = True, o
    start(s)
    got = None
    try:
        with w.recording(t), core.quiet():
            try:
                obj.optimize()
            except BaseException as e:
                got = e
                if e is not exc and isinstance(e, (core.Budget, core.WallClock)):
                    raise
    finally:
        core.TAP.limit = None
        w.generator.rnd_seed = None
    if not check(got is exc, lambda: 'the objective function raised %r at call %d, optimize() gave %r' % (exc, i, got)):
        return
    # completed generations are as in the undisturbed run
    seen = [[(x.g, x.score) for x in g['pop']] for g in t.gens]
    if not check(seen == ref['gens'][:len(seen)], 'generations before the failure differ from the undisturbed run'):
        return
    # the same object runs again as if nothing had happened
    o.calls = []
    t2 = w.Trace()
    t2.light, t2.obj = True, o
    start(s)
    try:
        with w.recording(t2), core.quiet():
            d = obj.optimize()
    finally:
        core.TAP.limit = None
        w.generator.rnd_seed = None
    check(gen_digest(t2, d) == ref['digest'] and core.digest(o.calls) == ref['calls'], lambda: 'after a failure at call %d the next optimize() of the object differs from an undisturbed run' % i)


def collector_run(s, fault, obs, ref, check):
    """The failure passes through CollectorGA.optimize at any generation."""
    data = w.input_object(s['input_data'])
    i, exc = fault
    o = w.Objective(s, data, fail={i: exc}, limit=w.call_limit(s))
    t = w.Trace()
    t.light, t.obj = True, o
    start(s)
    got = None
    try:
        with w.recording(t), core.quiet():
            c = CollectorGA(storage=w.storage_of(s), **w.make_parts(s, o.function, data))
            c.set_population(getattr(ga, w.POPS[s['pop']]), num_individ=s['n'], num_generations=s['G'], gens=w.real_gens(s), input_population=w.real_input_population(s),
                             children_percent=s['cp'], early_stop=s['early'])
            try:
                c.optimize()
            except BaseException as e:
                got = e
                if e is not exc and isinstance(e, (core.Budget, core.WallClock)):
                    raise
    finally:
        core.TAP.limit = None
        w.generator.rnd_seed = None
    if not check(got is exc, lambda: 'the objective function raised %r at call %d, the collector gave %r' % (exc, i, got)):
        return
    d = c.ga_data
    seen = [[(x.g, x.score) for x in g['pop']] for g in t.gens]
    check(seen == ref['gens'][:len(seen)], 'generations before the failure differ from the undisturbed run')
    check(len(d.historical_best) == len(t.gens) == d.idx_generation, 'histories do not match the completed generations after a failure')
    check(w.freeze(d.best_solution) == (t.gens[-1]['best'] if t.gens else None), 'the best solution changed by a failing evaluation')
    obs.add('collector_optimize_faults')


def run_case(case, obs):
    import random
    s, rng = case['spec'], random.Random(case['salt'])
    single = s['algo'] == 'single'
    if s['mode'] == 'class':
        data = w.input_object(s['input_data'])
        t = w.run(s, light=True, data=data)
        d = t.result
        ref = dict(digest=gen_digest(t, d), calls=core.digest(t.obj.calls), n=len(t.obj.calls), gens=[[(x.g, x.score) for x in g['pop']] for g in t.gens])
        marks = [g['ncalls'] for g in t.gens]
    else:
        # undisturbed reference through the same stepping
        data = w.input_object(s['input_data'])
        t = w.run(s, light=True, data=data)
        d = t.result
        ref = dict(digest=gen_digest(t, d), calls=core.digest(t.obj.calls), n=len(t.obj.calls), gens=[[(x.g, x.score) for x in g['pop']] for g in t.gens])
        marks = [g['ncalls'] for g in t.gens]
        ref['first'] = marks[0]
        a, b, _ = stepwise(s, {}, obs, ref, obs.check)
        if not obs.check((a, b) == (ref['digest'], ref['calls']), 'the stepped run differs from the loop'):
            return
    total = ref['n']
    if total <= case['cap']:
        points = list(range(total))
        obs.add('exhaustive_runs')
    else:
        points = sorted({0, total - 1, marks[0] - 1, marks[0]} & set(range(total)) | set(rng.sample(range(total), case['cap'])))
    obs.add('fault_points_total', total)
    ok = [True]

    def check(c, m):
        r = obs.check(c, m)
        ok[0] = ok[0] and r
        return r
    for i in points:
        kind = KINDS[(i + case['salt']) % len(KINDS)]
        exc = kind('fault at %d' % i)
        gen = sum(m <= i for m in marks)
        obs.add('fault_points')
        obs.add('first_call_faults', i == 0)
        obs.add('last_call_faults', i == total - 1)
        obs.add('faults_in_later_generations', gen > 0)
        obs.add('base_exceptions', not issubclass(kind, Exception))
        obs.add('type_errors', kind is TypeError)
        obs.add('multi_faults', not single)
        obs.add('constrained_faults', bool(s['conds']))
        obs.add(s['mode'] + '_faults')
        obs.sig(w.shape_sig(s), min(gen, 3), i in (0, total - 1) or i in marks, kind.__name__)
        if s['mode'] == 'class':
            class_run(s, (i, exc), obs, ref, check)
        else:
            faults = {i: exc}
            try:
                a, b, r = stepwise(s, faults, obs, ref, check)
            except Stop:
                return
            obs.add('retries_compared', r)
            if s['mode'] == 'collector' and ok[0]:
                collector_run(s, (i, kind('fault at %d' % i)), obs, ref, check)
            if ok[0]:
                check(r == 1, 'the injected failure never reached the caller')
                check(a == ref['digest'], lambda: 'the run continued after a failure at call %d of %d differs from the undisturbed run' % (i, total))
                if single:
                    check(b == ref['calls'], lambda: 'after a failure at call %d completed evaluations were repeated or lost' % i)
        if not ok[0]:
            return
    if s['mode'] != 'class' and total >= 2:
        for _ in range(4):
            i, j = sorted(rng.sample(range(total), 2))
            faults = {i: KINDS[rng.randrange(len(KINDS))]('first'), j: KINDS[rng.randrange(len(KINDS))]('second')}
            obs.add('double_faults')
            try:
                a, b, r = stepwise(s, faults, obs, ref, check)
            except Stop:
                return
            if ok[0] and single:
                check(a == ref['digest'] and b == ref['calls'] and r == 2, lambda: 'the run continued after failures at calls %d and %d differs from the undisturbed run' % (i, j))
            elif ok[0]:
                check(a == ref['digest'], lambda: 'the run continued after failures at calls %d and %d differs from the undisturbed run' % (i, j))
        obs.add('repeated_faults')
        again(s, rng.randrange(total), ref, obs, check, single)
        if single:
            wrong(s, rng.randrange(total), ref, obs, check)
        if s['conds']:
            for _ in range(3):
                failing_penalty(s, rng.randrange(total if single else sum(len(g) for g in ref['gens'][:1])), ref, obs, check)
    if obs.sample is None:
        obs.sample = dict(spec=s, objective_calls=total, fault_points=len(points))


def again(s, i, ref, obs, check, single):
    """The same call fails three times in a row."""
    class Thrice(dict):
        left = 3

        def pop(self, k):
            Thrice.left -= 1
            x = dict.__getitem__(self, k)
            if Thrice.left == 0:
                dict.pop(self, k)
            return x
    data = w.input_object(s['input_data'])
    o = w.Objective(s, data, limit=w.call_limit(s))
    o.fail = Thrice({i: ValueError('again')})
    t = w.Trace()
    t.light, t.obj = True, o
    start(s)
    seen = 0
    try:
        with w.recording(t), core.quiet():
            p = w.make_parts(s, o.function, data)
            d = w.storage_of(s)(num_generations=s['G'], children_percent=s['cp'], early_stop=s['early'])
            pop = w.make_population(s)
            pop.fill()
            d.population = pop
            for g in range(d.num_generations):
                if g:
                    for name in ('selection', 'crossover', 'mutation', 'new_generation'):
                        p[name].execute(d)
                while True:
                    try:
                        p['fitness'].execute(d)
                        break
                    except ValueError as e:
                        if str(e) != 'again':
                            raise
                        seen += 1
                        if seen > 3:
                            break
                d.update()
                if g and d.num_generation_no_improve > d.early_stop:
                    break
    finally:
        core.TAP.limit = None
        w.generator.rnd_seed = None
    check(seen == 3, lambda: 'three failures in a row at call %d gave %d exceptions' % (i, seen))
    check(gen_digest(t, d) == ref['digest'], lambda: 'the run continued after three failures of call %d differs from the undisturbed run' % i)
    if single:
        check(core.digest(o.calls) == ref['calls'], 'completed evaluations were repeated or lost')


def failing_penalty(s, i, ref, obs, check):
    """The penalty (a subclass written by the user) raises once: the exception arrives, and the evaluation can be repeated."""
    data = w.input_object(s['input_data'])
    o = w.Objective(s, data, limit=2 * w.call_limit(s))
    t = w.Trace()
    t.light, t.obj = True, o
    start(s)
    seen, n, exc = 0, [0], Custom('penalty')
    try:
        with w.recording(t), core.quiet():
            p = w.make_parts(s, o.function, data)
            pen = p['fitness'].penalty

            class Failing(type(pen)):
                def execute(self, *a, **kw):
                    n[0] += 1
                    if n[0] - 1 == i:
                        raise exc
                    return super().execute(*a, **kw)
            pen.__class__ = Failing
            d = w.storage_of(s)(num_generations=s['G'], children_percent=s['cp'], early_stop=s['early'])
            pop = w.make_population(s)
            pop.fill()
            d.population = pop
            for g in range(d.num_generations):
                if g:
                    for name in ('selection', 'crossover', 'mutation', 'new_generation'):
                        p[name].execute(d)
                for attempt in range(3):
                    before = state(d)
                    try:
                        p['fitness'].execute(d)
                        break
                    except Custom as e:
                        seen += 1
                        if not check(e is exc and state(d) == before, 'a penalty that raised changed the run'):
                            return
                d.update()
    finally:
        core.TAP.limit = None
        w.generator.rnd_seed = None
    if n[0] <= i:
        return
    obs.add('penalty_faults')
    check(seen == 1, lambda: 'one exception of the penalty (its call %d) was seen %d times by the caller' % (i, seen))
    check(gen_digest(t, d) == ref['digest'], lambda: 'the run continued after its penalty raised once (call %d) differs from the undisturbed run' % i)


def wrong(s, i, ref, obs, check):
    """One call returns the wrong number of values: the library refuses it, and the evaluation can be repeated."""
    data = w.input_object(s['input_data'])
    o = w.Objective(s, data, limit=w.call_limit(s))
    f = o.function
    bad = [True]

    def g(*a):
        if len(o.calls) == i and bad[0]:
            bad[0] = False
            return (1.0,) * (len(s['objs']) + 1)
        return f(*a)
    t = w.Trace()
    t.light, t.obj = True, o
    start(s)
    seen = 0
    try:
        with w.recording(t), core.quiet():
            p = w.make_parts(s, g, data)
            d = w.storage_of(s)(num_generations=s['G'], children_percent=s['cp'], early_stop=s['early'])
            pop = w.make_population(s)
            pop.fill()
            d.population = pop
            for n in range(d.num_generations):
                if n:
                    for name in ('selection', 'crossover', 'mutation', 'new_generation'):
                        p[name].execute(d)
                for attempt in range(3):
                    before = state(d)
                    try:
                        p['fitness'].execute(d)
                        break
                    except Exception as e:
                        seen += 1
                        if not check(state(d) == before, 'a refused objective value changed the run'):
                            return
                d.update()
    finally:
        core.TAP.limit = None
        w.generator.rnd_seed = None
    obs.add('wrong_value_faults')
    check(seen == 1, lambda: 'one wrong number of values (call %d) raised %d exceptions' % (i, seen))
    check(gen_digest(t, d) == ref['digest'], 'the run continued after a refused value differs from the undisturbed run')
