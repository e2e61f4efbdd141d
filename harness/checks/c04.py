"""C04 binary and Gray coding: every (or many) bit strings decoded, values coded, through populations and evaluation."""
from fractions import Fraction
import world as w
import baumeva.ga as ga

CASES = {'quick': 1800, 'thorough': 12000}
CHUNK = 8
RULE = 'distinct (gene specification, code) whose bit strings were decoded; exhaustively up to 10 bits, sampled above'
REQUIRED = ['bit_strings_decoded', 'values_coded', 'genes_exhaustive', 'genes_sampled', 'gray_neighbours', 'multi_gene_populations',
            'genes_over_40_bits', 'steps_not_dividing_range', 'end_points', 'halfway_values', 'representations_exchanged']


def gen_case(rng, idx, tier):
    k = w.pick(rng, [1, 1, 2, 3, 5])
    if idx < 2 * len(w.BIN_GENES):
        gens = [list(w.BIN_GENES[idx // 2])]
        gray = idx % 2 == 1
    else:
        gens = [w.rand_bin_gene(rng) for _ in range(k)]
        gray = rng.random() < 0.5
    if idx % 40 == 39:                 # many bits
        gens.append(w.pick(rng, [[0, 1, 1e-13], [0, 1000000, 1e-8], [-2, 6, 3e-14]]))
    if idx % 30 == 17:                 # a step that just does not fit, or just fits
        top = 2 ** w.pick(rng, [1, 2, 3, 5]) - 1
        gens[0] = w.pick(rng, [[0, top + 4e-7, 1], [0, top + 3e-8, 1], [-1, top - 1 + 2e-5, 1], [0, top - 4e-7, 1], [0, round(top * 0.1 + 4e-8, 9), 0.1], [0, top, 1 + 1e-7]])
    return dict(pop='gray' if gray else 'bin', gens=gens, salt=rng.getrandbits(40), entropy='%x' % rng.getrandbits(40))


def decode_all(s, genotypes, obs):
    """Phenotypes that evaluation sees for the given genotypes."""
    import core
    gens = w.real_gens(s)
    pop = w.make_population(dict(s, n=len(genotypes), input_pop=None))
    pop.fill()
    for ind, g in zip(pop, genotypes):
        ind['genotype'] = list(g)
        ind['phenotype'] = None
        ind['score'] = None
    d = ga.GaData(num_generations=2)
    d.population = pop
    seen = []

    def f(x):
        seen.append(tuple(x))
        return 0.0
    ga.HyperbolaFitness(obj_function=f, obj_value=0).execute(d)
    recs = [tuple(i['phenotype']) for i in pop]
    obs.check(recs == seen, 'phenotypes recorded differ from the points evaluated')
    for ind, g in zip(pop, genotypes):
        obs.check(list(ind['genotype']) == list(g), 'decoding changed a genotype')
    return seen


def run_case(s, obs):
    import random
    import core
    rng = random.Random(s['salt'])
    core.reset_tap(s['entropy'])
    gens = w.real_gens(s)
    gray = s['pop'] == 'gray'
    obs.add('multi_gene_populations', len(gens) > 1)
    # number of bits
    pop = w.make_population(dict(s, n=3, input_pop=None))
    pop.fill()
    ref = w.grids(gens)
    total = sum(m for m, _ in ref)
    for ind in pop:
        if not obs.check(len(ind['genotype']) == total and set(ind['genotype']) <= {'0', '1'}, lambda: 'genes %r: genotype has %d places, expected %d bits' % (gens, len(ind['genotype']), total)):
            return
    pos = 0
    for gi, (gene, (m, top)) in enumerate(zip(gens, ref)):
        a, b = gene[0], gene[1]
        fa, fb, fs = (Fraction(str(v)) for v in gene)
        obs.add('steps_not_dividing_range', ((fb - fa) / fs).denominator != 1)
        step = (b - a) / top
        tol = 1e-9 * max(abs(a), abs(b), b - a)
        others = [rng.choice('01') for _ in range(total)]

        def geno(bits):
            g = list(others)
            g[pos:pos + m] = list(bits)
            return g
        if m <= 10:
            codes = [format(i, '0%db' % m) for i in range(top + 1)]
            obs.add('genes_exhaustive')
        else:
            idx = {0, 1, 2, top, top - 1, top // 2, top // 2 + 1} | {rng.randrange(top + 1) for _ in range(60)}
            codes = [format(i, '0%db' % m) for i in sorted(idx)]
            if gray:
                more = [i ^ (i >> 1) for i in idx] + [(i + 1) ^ ((i + 1) >> 1) for i in idx if i < top]
                codes += [format(i, '0%db' % m) for i in more]
            else:
                codes += [format(i + 1, '0%db' % m) for i in idx if i < top]
            codes = sorted(set(codes))
            obs.add('genes_sampled')
        points = decode_all(s, [geno(c) for c in codes], obs)
        obs.add('bit_strings_decoded', len(codes))
        index = {}
        rest = None
        for c, p in zip(codes, points):
            v = p[gi]
            i = round((v - a) / step)
            if not obs.check(a <= v <= b and abs(a + i * step - v) <= tol and 0 <= i <= top, lambda: 'gene %r: %s decodes to %r, not a grid point of step %r' % (gene, c, v, step)):
                return
            if not obs.check(i not in index, lambda: 'gene %r: %s and %s decode to the same point %r' % (gene, c, index.get(i), v)):
                return
            index[i] = c
            o = p[:gi] + p[gi + 1:]
            rest = o if rest is None else rest
            if not obs.check(o == rest, lambda: 'gene %r: its bits change the other genes: %r, %r' % (gene, o, rest)):
                return
        if m <= 10:
            obs.check(sorted(index) == list(range(top + 1)), lambda: 'gene %r: bit strings do not cover the grid' % (gene,))
            obs.add('end_points', 2)
        if gray:
            for i in index:
                if i + 1 in index:
                    obs.add('gray_neighbours')
                    diff = sum(x != y for x, y in zip(index[i], index[i + 1]))
                    if not obs.check(diff == 1, lambda: 'gene %r: neighbouring points %d, %d have codes %s, %s' % (gene, i, i + 1, index[i], index[i + 1])):
                        return
        obs.add('genes_over_40_bits', m > 40)
        obs.sig(gene, gray, m)
        pos += m
    # coding of user values
    vals = []
    for _ in range(24):
        x = []
        for gene, (m, top) in zip(gens, ref):
            r = rng.random()
            i = rng.randrange(top + 1)
            step = (gene[1] - gene[0]) / top
            if r < 0.15:
                v = gene[0]
            elif r < 0.3:
                v = gene[1]
            elif r < 0.5:
                v = gene[0] + i * step
            elif r < 0.65 and i < top:
                v = gene[0] + (i + 0.5) * step
                obs.add('halfway_values')
            else:
                v = rng.uniform(gene[0], gene[1])
            x.append(min(max(v, gene[0]), gene[1]))
        vals.append(x)
    pop = w.make_population(dict(s, n=len(vals), input_pop=vals))
    pop.fill()
    genos = [list(i['genotype']) for i in pop]
    back = decode_all(s, genos, obs)
    for x, y, ind in zip(vals, back, pop):
        obs.add('values_coded')
        for v, u, gene, (m, top) in zip(x, y, gens, ref):
            step = (gene[1] - gene[0]) / top
            if not obs.check(abs(u - v) <= step * (0.5 + 1e-6) + 1e-9 * max(abs(gene[0]), abs(gene[1])), lambda: 'gene %r: value %r is coded as %r, more than half a step (%r) away' % (gene, v, u, step)):
                return
        obs.check(tuple(ind['phenotype']) == y, 'phenotype of an input individual is not its decoded genotype')
    # grid points round trip exactly
    pop = w.make_population(dict(s, n=len(back), input_pop=[list(b) for b in back]))
    pop.fill()
    again = [list(i['genotype']) for i in pop]
    for g1, g2, b in zip(genos, again, back):
        if not obs.check(g1 == g2, lambda: 'grid point %r coded as %s, was %s' % (b, ''.join(g2), ''.join(g1))):
            return
    # exchange of the two representations
    was = [dict(i) for i in pop]
    for r in range(2):
        pop.swap()
        for i, b in zip(pop, was):
            exp = dict(b, genotype=b['phenotype'], phenotype=b['genotype']) if r == 0 else b
            if not obs.check(dict(i) == exp, lambda: 'after %d swap() an individual is %r, was %r' % (r + 1, dict(i), b)):
                return
    obs.add('representations_exchanged', len(pop))
    if obs.sample is None:
        obs.sample = dict(gens=s['gens'], code=s['pop'], bits=[m for m, _ in ref], example=[vals[0], list(back[0])])
