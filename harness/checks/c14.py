"""C14 reproducibility under a fixed seed: digests of complete runs compared in one process and across processes."""
import json
import os
import subprocess
import sys
import random
import core
import world as w

CASES = {'quick': 700, 'thorough': 6000}
CHUNK = 6
RULE = 'distinct (run shape, seed, disturbance) whose complete repetition was compared'
REQUIRED = ['repetitions_compared', 'process_repetitions', 'seed_zero', 'seed_negative', 'seed_large', 'different_seeds_compared', 'string_category_process_runs',
            'multi_repetitions', 'random_transfer_repetitions']
SEEDS = [0, 0, 1, 7, 42, -1, -12345, 2 ** 31, 2 ** 70, 123456789]


def seeded(rng, tier, **kw):
    s = w.gen_run(rng, tier, max_n=40, max_G=20, **kw)
    s['rng'] = 'plain'
    s['seed'] = w.pick(rng, SEEDS)
    if s['input_data'] == 'awkward':
        s['input_data'] = 'num'
    return s


def gen_case(rng, idx, tier):
    if idx % 12 == 5:
        return dict(type='process', specs=[seeded(rng, tier, pop=w.pick(rng, ['cat', 'cat', 'bin', 'gray', 'order'])) for _ in range(6)])
    if idx % 4 == 2:
        s = seeded(rng, tier, size='l', inputs=False)
        # also seeds that agree in their last decimal or binary digits
        sd = rng.randrange(10 ** 4)
        more = [sd, sd + w.pick(rng, [10, 100, 1000, 10 ** 4, 10 ** 6, 2 ** 8, 2 ** 16]), sd + 2 ** w.pick(rng, [31, 32, 53, 64, 70])]
        if rng.random() < 0.25:
            more = [2 ** 60 + sd, 2 ** 60 + sd + 1, 2 ** 100 + sd]
        return dict(type='seeds', spec=s, seeds=rng.sample([0, 1, 2, 3, 42, -7, 2 ** 33, 99], 3) if rng.random() < 0.4 else more)
    return dict(type='repeat', spec=seeded(rng, tier), salt=rng.getrandbits(30))


def process(specs, obs):
    outs = []
    text = '\n'.join(json.dumps(s) for s in specs) + '\n'
    for hs in ('1', '4242'):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        r = subprocess.run([sys.executable, '-B', os.path.join(core.VERIF, 'harness', 'digest_child.py')], input=text, capture_output=True, text=True, env=env, timeout=200)
        lines = r.stdout.split('\n')[:-1]
        if len(lines) != len(specs):
            raise RuntimeError('digest child failed: %s' % r.stderr[-800:])
        outs.append(lines)
    for s, a, b in zip(specs, *outs):
        if a.startswith('E'):
            if a.endswith('repo'):
                obs.bad('unexpected %s' % a)
                continue
            raise RuntimeError(a)
        obs.add('process_repetitions')
        obs.add('string_category_process_runs', s['pop'] == 'cat')
        obs.check(a == b, lambda: 'seed %r: run differs between processes with different hash seeds (%s/%s %s)' % (s['seed'], s['algo'], s['pop'], s['mode']))
        obs.sig('process', w.shape_sig(s), s['seed'])


def run_case(case, obs):
    if case['type'] == 'process':
        return process(case['specs'], obs)
    s = case['spec']
    if case['type'] == 'seeds':
        firsts = []
        for sd in case['seeds']:
            t = w.run(dict(s, seed=sd, G=1, n=max(8, s['n'])), light=True)
            firsts.append(tuple(i.g for i in t.first_fill))
        obs.add('different_seeds_compared', 3)
        obs.check(len(set(firsts)) == 3, lambda: 'seeds %r give the same first generation (%s)' % (case['seeds'], s['pop']))
        obs.sig('seeds', s['pop'], s['mode'])
        return
    rng = random.Random(case['salt'])
    digests = []
    for rep in range(3):
        # the state of the generator and of the process before the run is arbitrary
        core.reset_tap('%s/%d' % (s['entropy'], rep))
        for _ in range(rng.randrange(50)):
            core.TAP.random()
        w.np.random.seed(rng.randrange(1000))
        if rep == 1:
            w.run(dict(s, seed=w.pick(rng, [None, 5]), G=2), light=True)
        w.generator.rnd_seed = s['seed']
        try:
            t = w.run(dict(s, entropy='%s-%d' % (s['entropy'], rep)), light=True)
        finally:
            w.generator.rnd_seed = None
        digests.append((t.digest(), core.digest(w.freeze(t.result.best_solution)), len(t.gens)))
        obs.add('repetitions_compared', rep > 0)
    obs.check(digests[0] == digests[1] == digests[2], lambda: 'seed %r: repeated run differs (%s %s %s): %r' % (s['seed'], s['algo'], s['pop'], s['mode'], digests))
    obs.add('seed_zero', s['seed'] == 0)
    obs.add('seed_negative', s['seed'] < 0)
    obs.add('seed_large', s['seed'] > 2 ** 32)
    obs.add('multi_repetitions', s['algo'] != 'single')
    obs.add('random_transfer_repetitions', s['transfer'] == 'random')
    obs.sig('repeat', w.shape_sig(s), s['seed'])
    if obs.sample is None:
        obs.sample = dict(spec=s, digests=[d[0] for d in digests])
