"""C06 mutation: structure of every change and rates over pooled executions, directly and inside runs."""
import pickle
import core
import world as w
import parts
import baumeva.ga as ga

CASES = {'quick': 1800, 'thorough': 9000}
CHUNK = 6
RULE = 'distinct (mutation, level, genotype length or gene kinds) whose structure and rates were tested'
REQUIRED = ['bits_tested', 'bits_flipped', 'genes_tested', 'genes_replaced', 'children_combinatory', 'swap_seen', 'inv_seen', 'move_seen',
            'shift_seen', 'level_zero', 'level_one', 'named_levels', 'single_option_genes', 'run_mutations', 'outcome_sets_complete',
            'reused_operator_executions', 'reach_sets', 'option_sets', 'long_used_executions', 'far_mutations', 'small_batches',
            'mirror_positions', 'very_long_bits', 'very_long_genes', 'very_long_orders', 'late_states']
NAMED = {'weak': 0.3, 'normal': 1.0, 'strong': 3.0}
COMB = {'weak': 0.03, 'normal': 0.1, 'strong': 0.3}


def gen_case(rng, idx, tier):
    if idx % 4 == 3:
        s = w.gen_run(rng, tier, algo=w.pick(rng, ['single', 'single', 'single', 'vega', 'ffga']), max_n=60, max_G=20)
        if rng.random() < 0.5:
            s['mut']['lvl'] = w.pick(rng, ['normal', 'strong', 0.5, 1.0])
        return dict(type='run', spec=s)
    if idx % 24 == 1:
        kind = w.pick(rng, ['swap', 'inv', 'move', 'shift'])
        L = w.pick(rng, {'swap': [7, 10, 16], 'inv': [7, 10, 16], 'move': [6, 8, 11], 'shift': [6, 7, 8, 9]}[kind])
        return dict(type='reach', kind=kind, L=L, entropy='%x' % rng.getrandbits(40))
    if idx % 24 == 13:
        n = w.pick(rng, [2, 3, 5, 8, 17, 33, 40, 70, 130, 750])
        g = {'l': ['v%d' % i for i in range(n)]} if rng.random() < 0.5 else {'r': [-7, -7 + 3 * (n - 1) + 1, 3]}
        return dict(type='options', gene=g, n=n, at=w.pick(rng, [0, 1, n // 2, n - 1]), entropy='%x' % rng.getrandbits(40))
    kind = w.pick(rng, ['bit', 'cat', 'swap', 'inv', 'move', 'shift'])
    lvl = w.pick(rng, ['weak', 'normal', 'strong', 0.0, 1.0, 0.5, 0.1, 0.25, 0.37, 0.9, 0.01, 0.999, 0.73])
    long = idx % 24 in (5, 17)         # the named levels depend on the length
    if long:
        kind, lvl = w.pick(rng, ['bit', 'bit', 'cat']), w.pick(rng, ['weak', 'normal', 'strong'])
    used = idx % 24 == 9               # an operator in its hundredth generation
    if used:
        kind, lvl = ['bit', 'cat', 'swap', 'inv', 'move', 'shift'][idx // 24 % 6], w.pick(rng, [0.5, 1.0, 0.9, 0.25])
    c = dict(type='direct', kind=kind, lvl=lvl, salt=rng.getrandbits(40), entropy='%x' % rng.getrandbits(40),
             children=w.pick(rng, [30, 300, 1500]))
    if kind == 'bit':
        c['gens'] = w.gen_genes(rng, 'bin', w.pick(rng, ['l', 'l', 'xl'] if long else ['s', 's', 'm', 'l']))
        c['pop'] = w.pick(rng, ['bin', 'gray'])
    elif kind == 'cat':
        c['gens'] = w.gen_genes(rng, 'cat', w.pick(rng, ['l', 'xl'] if long else ['s', 's', 'm', 'l']))
        c['pop'] = 'cat'
    else:
        L = w.pick(rng, [3, 4, 4, 5, 5, 8, 15, 40, 120])
        c['gens'] = [0, L - 1 + w.pick(rng, [0, 3]), L]
        c['pop'] = 'order'
    if long:
        c['children'] = 600
    if idx % 24 == 2:                  # very long genotypes
        c.update(lvl=w.pick(rng, [0.5, 0.9, 1.0]), children=w.pick(rng, [100, 200]))
        if idx // 24 % 3 == 0:
            c.update(kind='bit', pop=w.pick(rng, ['bin', 'gray']), gens=[[0, 4294967295, 1]] * 30)
        elif idx // 24 % 3 == 1:
            c.update(kind='cat', pop='cat', gens=[{'l': ['a', 'b', 'c']} if j % 3 else {'r': [0, 8, 2]} for j in range(w.pick(rng, [150, 400]))])
        else:
            c.update(kind=w.pick(rng, ['swap', 'inv', 'move', 'shift']), pop='order', gens=[0, 399, 400], children=800)
    if idx % 24 == 21:                 # few children in each generation
        c.update(children=w.pick(rng, [1, 2, 3, 7]), rounds=600)
    if used:
        c.update(before=w.pick(rng, [150, 400, 1100]), children=300)
    return c


def swapped(b, a):
    diff = [i for i in range(len(b)) if a[i] != b[i]]
    return diff if len(diff) == 2 and a[diff[0]] == b[diff[1]] and a[diff[1]] == b[diff[0]] else None


def inverted(b, a):
    diff = [i for i in range(len(b)) if a[i] != b[i]]
    if not diff:
        return None
    i, j = diff[0], diff[-1]
    return [i, j] if a[i:j + 1] == b[i:j + 1][::-1] else None


def moved(b, a):
    """gene taken from i and put at j (i != j)."""
    L = len(b)
    for i in range(L):
        if a[i] != b[i]:
            break
    else:
        return None
    for src in range(L):
        rest = b[:src] + b[src + 1:]
        dst = a.index(b[src])
        if dst != src and rest[:dst] + (b[src],) + rest[dst:] == a:
            return [src, dst]
    return None


def shifted(b, a):
    """a contiguous chain of 1..L-2 genes put elsewhere."""
    diff = [i for i in range(len(b)) if a[i] != b[i]]
    if not diff:
        return None
    i, j = diff[0], diff[-1]                 # two neighbouring chains change places
    k = b.index(a[i]) if a[i] in b else -1
    if k <= i or a[i:j + 1] != b[k:j + 1] + b[i:k]:
        return None
    x, y = k - i, j + 1 - k
    s, n, to = (i, x, i + y) if x <= y else (k, y, i)
    return [s, n, to] if n <= len(b) - 2 else None


SHAPE = {'swap': swapped, 'inv': inverted, 'move': moved, 'shift': shifted}


def outcomes(kind, L):
    base = tuple(range(L))
    res = set()
    for i in range(L):
        for j in range(L):
            if i == j:
                continue
            if kind == 'swap':
                x = list(base); x[i], x[j] = x[j], x[i]; res.add(tuple(x))
            elif kind == 'inv' and i < j:
                res.add(base[:i] + base[i:j + 1][::-1] + base[j + 1:])
            elif kind == 'move':
                r = base[:i] + base[i + 1:]; res.add(r[:j] + (base[i],) + r[j:])
    if kind == 'shift':
        for n in range(1, L - 1):
            for s in range(L - n + 1):
                chain, rest = base[s:s + n], base[:s] + base[s + n:]
                for i in range(len(rest) + 1):
                    if i != s:
                        res.add(rest[:i] + chain + rest[i:])
    return res


def structure(kind, gens, b, a):
    """None if the change from b to a is legal, else why not."""
    if len(a) != len(b):
        return 'length changed'
    if a == b:
        return None
    if kind == 'bit':
        return None if all(x in ('0', '1') for x in a) else 'not a bit string'
    if kind == 'cat':
        for x, y, g in zip(b, a, gens):
            if x != y and not any(w.same_value(y, o) for o in w.cat_options(g)):
                return '%r is not an option of %r' % (y, g)
        return None
    if sorted(a) != sorted(b):
        return 'genes lost or repeated'
    return None if SHAPE[kind](b, a) is not None else 'not a %s' % kind


def direct(s, obs):
    import random
    rng = random.Random(s['salt'])
    core.reset_tap(s['entropy'])
    kind = s['kind']
    spec = dict(pop=s['pop'], gens=s['gens'])
    gens = w.real_gens(spec)
    L = w.genotype_length(spec)

    def geno():
        if kind == 'bit':
            return [rng.choice('01') for _ in range(L)]
        g = w.random_point(rng, spec)
        # equal values need not be identical objects (read from a file, given by the user)
        return [pickle.loads(pickle.dumps(v)) if isinstance(v, (str, float, int, tuple)) else v for v in g] if s['salt'] % 2 else g
    pop = parts.population(s['pop'], [geno() for _ in range(4)], [1.0, 2.0, 3.0, 4.0], gens=gens)
    d = parts.data(pop)
    obs.add('late_states', parts.later(d, s['salt'] // 6) > 0)
    parts.with_parents(d, [(0, 1), (2, 3)])
    op = getattr(ga, w.MUT[kind])(mutation_lvl=s['lvl'])
    if s['salt'] % 3 == 0:
        ogens = {'bin': ((0, 7, 1), (0, 1000, 1)), 'gray': ((0, 3, 1),), 'cat': tuple([['u', 'v']] * (L + 2)), 'order': (0, L + 2, L + 3)}[s['pop']]
        ospec = dict(pop=s['pop'], gens=[list(g) for g in ogens] if s['pop'] in ('bin', 'gray') else None)
        og = [['0'] * w.genotype_length(ospec)] if s['pop'] in ('bin', 'gray') else ([['u'] * (L + 2)] if s['pop'] == 'cat' else [list(range(L + 3))])
        d0 = parts.data(parts.population(s['pop'], og, [1.0], gens=ogens))
        d0.children = d0.population.get_empty_copy()
        d0.children.append(dict(genotype=list(og[0]), score=None, obj_score=None, feasible=True))
        op.execute(d0)
        obs.add('reused_operator_executions')
    d.children = d.population.get_empty_copy()
    before = []
    for _ in range(s.get('before', 0)):          # an operator that has been used for long
        d.children.append(dict(d.population.get_empty_individ(), genotype=geno()))
        op.execute(d)
        d.children.clear()
        obs.add('long_used_executions')
    after = []
    for _ in range(s.get('rounds', 1)):
        here = []
        d.children = d.population.get_empty_copy()
        for _ in range(s['children']):
            g = geno()
            if kind not in ('bit', 'cat') and L <= 5:
                g = list(range(gens[0], gens[0] + L))
            c = d.population.get_empty_individ()
            c['genotype'] = g
            here.append(tuple(g))
            d.children.append(c)
        ppop, ppar = [i.record() for i in w.snap(d.population)], [i.record() for i in w.snap(d.parents)]
        op.execute(d)
        obs.check([i.record() for i in w.snap(d.population)] == ppop, 'mutation changed the population')
        obs.check([i.record() for i in w.snap(d.parents)] == ppar, 'mutation changed the parents')
        if not obs.check(len(d.children) == len(here), 'mutation changed the number of children'):
            return
        for c in d.children:
            if not obs.check(isinstance(c['genotype'], list) and c['score'] is None and c['obj_score'] is None, lambda: 'mutation changed the record of a child: %r' % c):
                return
        before += here
        after += [tuple(c['genotype']) for c in d.children]
    obs.add('very_long_' + {'bit': 'bits', 'cat': 'genes'}.get(kind, 'orders'), len(before) if L > 140 else 0)
    obs.add('small_batches', s.get('rounds', 1) if s['children'] < 10 else 0)
    for b, a in zip(before, after):
        why = structure(kind, gens, b, a)
        if not obs.check(why is None, lambda: '%s mutation (level %r): %r -> %r: %s' % (kind, s['lvl'], b, a, why)):
            return
    n = len(before)
    lvl = s['lvl']
    obs.add('level_zero', lvl == 0.0)
    obs.add('level_one', lvl == 1.0)
    obs.add('named_levels', isinstance(lvl, str))
    if kind in ('bit', 'cat'):
        p = min(1.0, NAMED[lvl] / L) if isinstance(lvl, str) else lvl
    else:
        p = COMB[lvl] if isinstance(lvl, str) else lvl
    lo, hi = (p, p) if p in (0.0, 1.0) else (max(0.0, p - 0.001), min(1.0, p + 0.001))
    if kind == 'bit':
        flips = [sum(b[i] != a[i] for b, a in zip(before, after)) for i in range(L)]
        obs.add('bits_tested', n * L)
        obs.add('bits_flipped', sum(flips))
        obs.check(w.rate_ok(sum(flips), n * L, lo, hi), lambda: 'bit mutation level %r with %d bits: %d flips in %d bits, expected rate %.4f' % (lvl, L, sum(flips), n * L, p))
        for i, f in enumerate(flips):
            if not obs.check(w.rate_ok(f, n, lo, hi), lambda: 'bit %d of %d flipped %d times of %d, expected rate %.4f' % (i, L, f, n, p)):
                return
        zeros = [(b[i], b[i] != a[i]) for b, a in zip(before, after) for i in range(L)]
        for v in '01':
            k = [c for x, c in zeros if x == v]
            obs.check(w.rate_ok(sum(k), len(k), lo, hi), lambda: 'bits of value %s flipped %d times of %d, expected rate %.4f' % (v, sum(k), len(k), p))
        pairs = sum((b[i] != a[i]) and (b[i + 1] != a[i + 1]) for b, a in zip(before, after) for i in range(L - 1))
        obs.check(w.rate_ok(pairs, n * (L - 1), lo * lo, hi * hi), lambda: 'neighbouring bits are not flipped independently: %d of %d, rate %.4f' % (pairs, n * (L - 1), p))
    elif kind == 'cat':
        free = 0
        for i, g in enumerate(gens):
            opts = w.cat_options(g)
            k = sum(not w.same_value(b[i], a[i]) for b, a in zip(before, after))
            obs.add('genes_tested', n)
            if len(opts) == 1:
                obs.add('single_option_genes')
                obs.check(k == 0, lambda: 'gene %r with one option changed' % (g,))
                continue
            free += 1
            obs.add('genes_replaced', k)
            if not obs.check(w.rate_ok(k, n, lo, hi), lambda: 'gene %d (%r) replaced %d times of %d, expected rate %.4f (level %r, %d genes)' % (i, g, k, n, p, lvl, L)):
                return
            # every other option equally likely
            by = {}
            for b, a in zip(before, after):
                if not w.same_value(b[i], a[i]):
                    by[repr(a[i])] = by.get(repr(a[i]), 0) + 1
            src = {}
            for b, a in zip(before, after):
                if not w.same_value(b[i], a[i]):
                    src[repr(b[i])] = src.get(repr(b[i]), 0) + 1
            if len(opts) > 2 and k > 200:
                for o in opts:
                    m = k - src.get(repr(o), 0)     # replacements of genes that had another option
                    if not obs.check(w.rate_ok(by.get(repr(o), 0), m, 1 / (len(opts) - 1)), lambda: 'gene %r: option %r chosen %d times of %d replacements' % (g, o, by.get(repr(o), 0), m)):
                        return
    else:
        obs.add('children_combinatory', n)
        k = sum(a != b for a, b in zip(after, before))
        obs.add(kind + '_seen', k)
        obs.check(w.rate_ok(k, n, lo, hi), lambda: '%s mutation level %r: %d of %d children changed, expected rate %.3f' % (kind, lvl, k, n, p))
        if L <= 5:
            full = outcomes(kind, L)
            got = {tuple(v - gens[0] for v in a) for a, b in zip(after, before) if a != b}
            if k >= 100 * len(full):
                obs.add('outcome_sets_complete')
                obs.check(got == full, lambda: '%s mutation of length %d reached only %d of %d arrangements in %d mutations' % (kind, L, len(got), len(full), k))
        else:
            hit = [0] * L
            for b, a in zip(before, after):
                if a != b:
                    for i in range(L):
                        hit[i] += a[i] != b[i]
            if k >= 250 and L >= 15:
                reached = max(far(kind, b, a) for b, a in zip(before, after) if a != b)
                obs.add('far_mutations')
                obs.check(reached >= (L // 4 if kind == 'shift' else L // 2), lambda: '%s mutation of length %d: the farthest of %d mutations spans only %d places' % (kind, L, k, reached))
            mirror(kind, L, list(zip(before, after)), obs)
            if k >= max(600, 16 * L):
                for i in range(L):
                    obs.check(hit[i] > 0, lambda: '%s mutation of length %d never changed position %d in %d mutations' % (kind, L, i, k))
    obs.sig(kind, lvl, repr(s['gens'])[:80])
    if obs.sample is None and any(a != b for a, b in zip(after, before)):
        j = [a != b for a, b in zip(after, before)].index(True)
        obs.sample = dict(case={k: v for k, v in s.items()}, before=list(before[j]), after=list(after[j]))


def reach(s, obs):
    """Every arrangement that the operation can make is made."""
    core.reset_tap(s['entropy'])
    kind, L = s['kind'], s['L']
    full = outcomes(kind, L)
    base = tuple(range(L))
    d = parts.data(parts.population('order', [list(base), list(base[::-1])], [1.0, 2.0], gens=(0, L - 1, L)))
    parts.later(d, int(s['entropy'][:4], 16))
    d.children = d.population.get_empty_copy()
    for _ in range(100 * len(full)):
        c = d.population.get_empty_individ()
        c['genotype'] = list(base)
        d.children.append(c)
    getattr(ga, w.MUT[kind])(mutation_lvl=1.0).execute(d)
    got = {tuple(c['genotype']) for c in d.children}
    bad = got - full
    if not obs.check(not bad, lambda: '%s mutation of %r gave %r' % (kind, base, sorted(bad)[0])):
        return
    obs.add('reach_sets')
    obs.add('reach_arrangements', len(got))
    obs.check(got == full, lambda: '%s mutation of length %d reached only %d of %d arrangements in %d mutations, never %r' % (kind, L, len(got), len(full), len(d.children), sorted(full - got)[0]))
    obs.sig('reach', kind, L)
    mirror(kind, L, [(base, tuple(c['genotype'])) for c in d.children], obs)


def mirror(kind, L, changes, obs):
    """Left and right are alike: position i changes without its mirror image as often as the other way round."""
    hit = [[x != y for x, y in zip(b, a)] for b, a in changes if a != b]
    for i in range(L // 2):
        u = sum(h[i] and not h[L - 1 - i] for h in hit)
        v = sum(h[L - 1 - i] and not h[i] for h in hit)
        obs.add('mirror_positions')
        if not obs.check(w.rate_ok(u, u + v, 0.5, 0.5), lambda: '%s mutation of length %d: position %d changed %d times, position %d %d times' % (kind, L, i, u, L - 1 - i, v)):
            return
    if kind == 'swap':
        for i in range(L):
            k = sum(h[i] for h in hit)
            if not obs.check(w.rate_ok(k, len(hit), 2 / L, 2 / L), lambda: 'swap mutation of length %d: position %d changed in %d of %d swaps' % (L, i, k, len(hit))):
                return


def options(s, obs):
    """Every other option of a categorical gene is reached from a given one."""
    core.reset_tap(s['entropy'])
    spec = dict(pop='cat', gens=[s['gene'], {'l': ['x']}])
    gens = w.real_gens(spec)
    opts = w.cat_options(gens[0])
    now = opts[s['at']]
    if len(opts) % 2 and isinstance(now, (str, float, int, tuple)):
        now = pickle.loads(pickle.dumps(now))
    d = parts.data(parts.population('cat', [[now, 'x'], [now, 'x']], [1.0, 2.0], gens=gens))
    parts.later(d, int(s['entropy'][:4], 16))
    d.children = d.population.get_empty_copy()
    for _ in range(60 * len(opts)):
        c = d.population.get_empty_individ()
        c['genotype'] = [now, 'x']
        d.children.append(c)
    ga.CategoricalMutation(mutation_lvl=1.0).execute(d)
    got = [c['genotype'][0] for c in d.children]
    obs.check(all(c['genotype'][1] == 'x' for c in d.children), 'a gene with one option changed')
    obs.check(not any(w.same_value(g, now) for g in got), 'a mutated gene kept its option')
    have = set(got)
    missing = [o for o in opts if not w.same_value(o, now) and o not in have]
    obs.add('option_sets')
    obs.check(not missing, lambda: 'gene with %d options at %r: %d mutations never gave %r' % (len(opts), now, len(got), missing[:5]))
    obs.check(set(got) <= set(opts), lambda: 'mutation gave %r' % sorted(set(got) - set(opts))[:5])
    obs.sig('options', len(opts), s['at'])


def far(kind, b, a):
    """How far a mutation reaches."""
    diff = [i for i in range(len(b)) if a[i] != b[i]]
    if kind != 'shift':
        return diff[-1] - diff[0]
    lo, hi = diff[0], diff[-1] + 1
    m = a[lo:hi].index(b[lo])          # the second block has m genes
    return min(m, hi - lo - m)


def run_case(case, obs):
    if case['type'] == 'reach':
        return reach(case, obs)
    if case['type'] == 'options':
        return options(case, obs)
    if case['type'] == 'direct':
        return direct(case, obs)
    s = case['spec']
    t = w.run(s)
    gens = w.real_gens(s)
    L = w.genotype_length(s)
    lvl, kind = s['mut']['lvl'], s['mut']['kind']
    if kind in ('bit', 'cat'):
        p = min(1.0, NAMED[lvl] / L) if isinstance(lvl, str) else lvl
    else:
        p = COMB[lvl] if isinstance(lvl, str) else lvl
    lo, hi = (p, p) if p in (0.0, 1.0) else (max(0.0, p - 0.001), min(1.0, p + 0.001))
    hits = total = 0
    for k, step in enumerate(t.steps):
        e = step.get('mutate')
        if not obs.check(e is not None, 'generation %d was made without mutation' % (k + 1)):
            return
        obs.check([i.record() for i in e['parents']] == [i.record() for i in e['parents_after']], 'mutation changed a parent')
        obs.check([i.record() for i in e['pop']] == [i.record() for i in e['pop_after']], 'mutation changed the population')
        if not obs.check(len(e['before']) == len(e['after']), 'mutation changed the number of children'):
            return
        for b, a in zip(e['before'], e['after']):
            obs.add('run_mutations', a.g != b.g)
            why = structure(kind, gens, b.g, a.g)
            if not obs.check(why is None, lambda: 'generation %d: %s mutation %r -> %r: %s' % (k + 1, kind, b.g, a.g, why)):
                return
            if kind == 'bit':
                hits += sum(x != y for x, y in zip(b.g, a.g))
                total += L
            elif kind == 'cat':
                for x, y, g in zip(b.g, a.g, gens):
                    if len(w.cat_options(g)) > 1:
                        hits += not w.same_value(x, y)
                        total += 1
            else:
                hits += a.g != b.g
                total += 1
    if s['rng'] == 'plain':
        obs.check(w.rate_ok(hits, total, lo, hi), lambda: 'run with %s mutation level %r: %d of %d mutated, expected rate %.4f' % (kind, lvl, hits, total, p))
    if t.steps:
        obs.sig('run', kind, lvl, s['pop'], s['algo'], s['mode'])
