"""Writes MANIFEST.json (run from /verif)."""
import json
T = {
 'C01': ('runtime monitor: evaluation log vs. reported best', 'whole runs'),
 'C02': ('runtime monitor: every record recomputed from the objective', 'whole runs'),
 'C03': ('runtime monitor: membership oracle on every objective call', 'whole runs'),
 'C04': ('monitored coding/decoding against an exact grid reference', 'direct calls through populations; exhaustive up to 10 bits per gene, sampled above'),
 'C05': ('gene-origin tracing of children, pooled statistics of cuts', 'direct calls with recognisable genes, and whole runs'),
 'C06': ('structural monitor of mutations plus Chernoff rate tests', 'direct calls and whole runs; rates to the stated confidence (error below 1e-12 per test)'),
 'C07': ('parent tracing monitor with logical draw budget', 'direct calls over hostile score patterns, and whole runs'),
 'C08': ('frequency monitor against the exact selection law', 'direct calls; Chernoff tests at 2e-13'),
 'C09': ('runtime monitor: sizes after every step', 'whole runs; one known finding (FFGA fronts larger than the free places)'),
 'C10': ('runtime monitor: composition of each new generation', 'direct calls and whole runs'),
 'C11': ('offline replay of stopping rule and histories from the recorded run, logical budgets', 'whole runs'),
 'C12': ('runtime monitor: log of objective calls and arguments', 'whole runs'),
 'C13': ('penalty recovered from observed scores vs. documented formula', 'direct fitness calls on generated constraint values, and whole runs; one known finding (generation 0)'),
 'C14': ('digest comparison of repeated monitored runs, in-process and across processes', 'whole runs, several disturbances of the random state, different hash seeds'),
 'C15': ('before/after monitor of user data, differential replay of reused objects', 'whole runs and sequences of runs'),
 'C16': ('online checker of Pareto ranks and sets by definition', 'whole runs and table-valued populations'),
 'C17': ('online checker of front preservation', 'whole FFGA runs and table-valued populations'),
 'C18': ('parents attributed to objectives; counts and frequencies', 'direct calls and whole VEGA runs'),
 'C19': ('fault injection at every objective call, state and continuation compared', 'every call of each generated run (capped) fails once, plus double faults'),
 'C20': ('monitor of first generations and refusals', 'first generations of runs; uniformity by Chernoff tests'),
 'C21': ('boundary and invalid value injection, outcome monitor', 'values offered through parts, presets and collectors'),
 'C22': ('monitor of random choices within seeded runs', 'whole seeded runs; unseeded runs compared with each other'),
 'C23': ('success-rate monitor on problems with known optima', 'statistical: calibrated minimum shares, so only gross losses of search power are reported'),
 'C25': ('report parser and average recomputed against the recorded history, before/after digests', 'whole runs; modular runs are read after every generation'),
 'C26': ('differential monitoring of do-nothing subclasses; answers of custom parts matched with the recorded run', 'whole runs with one or all parts replaced'),
 'C27': ('metamorphic monitoring: runs under strictly increasing maps of the objective compared generation by generation', 'pairs of whole runs, unconstrained and without target'),
 'C28': ('metamorphic monitoring: the shorter run must be a prefix of the longer one', 'pairs of whole runs'),
 'C29': ('metamorphic monitoring: runs on renamed search spaces compared through the renaming', 'pairs of whole runs'),
 'C30': ('interruption injection: run data copied or pickled between steps, continuation compared', 'whole modular runs interrupted at chosen steps or after every step'),
 'C31': ('controlled scheduling of real threads at source lines, alternating and nested runs; each run compared with itself alone', 'groups of two or three whole runs; interleavings drawn, not enumerated'),
 'C32': ('metamorphic monitoring: same values as other number types and containers', 'pairs of whole runs'),
 'C33': ('metamorphic monitoring: conditions rewritten, runs compared generation by generation', 'pairs of whole constrained runs'),
 'C34': ('resource monitor: traced memory and executed jumps along long runs', 'runs of 130 to 300 generations of small populations; growth below 50 bytes per generation or 60 % of the work is not reported'),
 'C24': ('differential monitoring of preset, collector and modular assembly', 'whole seeded runs compared generation by generation'),
}
checks = []
for p, (tech, cover) in sorted(T.items()):
    checks.append(dict(property=p, quick_cmd='bash check.sh ' + p, thorough_cmd='VERIF_TIER=thorough bash check.sh ' + p, technique=tech,
                       level='fault_enumeration' if p == 'C19' else 'exploration',
                       level_note='Decided on the executions observed: %s. Trusts the harness oracles (harness/world.py), CPython and numpy; no claim about executions that were not produced.' % cover))
m = dict(version=1, setup_cmd='bash check.sh --setup', checks=checks, not_applicable=[],
         notes='No hooks in /repo: the monitors wrap the public operations from outside. All commits in /repo are "fix:" repairs, listed in known_findings.jsonl.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
