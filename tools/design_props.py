P = {
'C01': ('Runs with every assembly; the log of all evaluations gives the highest score so far, compared with `best_solution` (score, generation, point) after every generation, with the histories, and with the report re-read at the end.', 'Tests look at one final value; losing the best needs a particular generation (ties, transfer `random`, shared records).'),
'C02': ('Every record of every generation is recomputed by calling a clean copy of the objective on the decoded point (decoding by the reference grid), including feasibility and scores; VEGA score vectors and FFGA rank scores too; constraints violated by less than 1e-9 are part of the workload.', 'Needs carried-over individuals, constraints in all positions, several objectives.'),
'C03': ('Every objective call is checked for membership in the space (grid, options, permutation), for all operators and the extreme random mode.', 'Leaving the space needs particular gene ranges, steps and rounding.'),
'C04': ('Gene specifications (awkward steps, negative, huge, tiny ranges) are filled and decoded: exhaustively up to 10 bits, sampled above, against a rational grid; coding of real values, round trips, neighbours in Gray code, the exchange of points and codes in both directions.', 'Failures sit at single (range, step) pairs or end points.'),
'C05': ('Parents with recognisable genes: each child position is traced to its parent; cuts, orientation and the spans of order segments are counted and must all occur (up to 130 genes), uniform crossover must be fair gene by gene and from gene to gene; operators are reused for other lengths; parents and children compared by identity and value; with two offsprings per pair each child is judged, and the two children of one cut are complementary. Every cut is met by directed parents that differ on one side of it only; cuts must vary within a batch; operators that have made thousands of children and run data of late or stagnating runs behave as new ones. The same inside runs.', 'Boundary cuts, aliasing and bias do not show in single results.'),
'C06': ('Direct mutation of large batches: each change must be explained by the operator; per-bit, per-gene, per-child and per-position rates by Chernoff tests at the level requested to 0.001; every rearrangement of short genotypes and every option of long option lists must be reached; operators that have been executed up to 1100 times before behave as new ones, also in late or stagnating runs; options that are equal but not identical (pickled) count as the same; population and parents untouched; runs with several generations and reuse.', 'A rate that is off by a factor passes all tests.'),
'C07': ('Each parent is matched to a member of the population by its record; pairs distinct, right number, population unchanged, tournament rank bound, draw budget, with hostile score patterns (equal, one huge, negative, denormal) and extreme random values.', 'Endless or out-of-range draws need extreme scores.'),
'C08': ('Selection repeated thousands of times on fixed score vectors (sorted and unsorted populations); frequencies of individuals and pairs against the exact law (up to 110 individuals, near ties, infinite scores, declared size different from the present one).', 'Bias is invisible to tests of single runs.'),
'C09': ('Sizes of parents, children and populations after every step of long runs.', 'Drift appears after generations with duplicates or large fronts.'),
'C10': ('Populations with duplicates and ties are built by hand and passed through new_generation; every member of the result is matched to a child or to a previous record; elites compared with the reference choice (ties: any choice of equal score). Different genotypes that look alike when joined, sorted or compared across types stay different; late and stagnating runs. The same in runs.', 'Depends on duplicates, ties, number of free places.'),
'C11': ('The stopping rule, the no-improve counter and the histories are replayed offline from the recorded generations; objective functions with scheduled improvements and plateaus; draw and call budgets for termination.', 'Off-by-one in the counter needs a matching plateau.'),
'C12': ('Log of calls with argument identities: exactly the new individuals of the generation, once each; input data by identity, including falsy and array-like data.', 'Repeated or missing calls do not change results.'),
'C13': ('The fitness part is given individuals with generated constraint values; the penalty is recovered from the score and compared with the formula (relative tolerance for rounding); violations from 1e-12 to infinity; monotonicity and independence of other individuals by pairs of calls; runs for generation and best-feasibility dependence.', 'Depends on sign, interval boundary, generation, history.'),
'C14': ('Digest of the complete trace of a seeded run compared after disturbing the global random state and in child processes with other hash seeds; different seeds compared.', 'Needs disturbed state or another process.'),
'C15': ('User objects are frozen before and compared after; results of earlier runs re-read after later ones; objects reused for other problems are compared with fresh ones under the same seed, generation by generation; sequences of runs are executed in new processes in different orders and each run must be the same in all of them.', 'Needs sequences of runs.'),
'C16': ('Ranks and Pareto sets recomputed by definition after every generation and for table-valued objectives (ties, chains, equal vectors, same record twice); recorded sets re-read at the end with all fields.', 'Needs particular vectors and later generations.'),
'C17': ('Every FFGA transition is checked: each rank-1 solution of the old population is in the new one, with all children; the reported sets along the run are checked for unexplained losses.', 'Loss needs a front larger than the free places, or duplicates in it.'),
'C18': ('Direct: score columns that identify the objective, exact counts of pairs per objective (up to 9 objectives) and frequency laws; runs: number of pairs and, by matching, the tournament bound per objective.', 'An objective without parents still gives a plausible run.'),
'C19': ('For each generated run every objective call is made to raise in turn (several exception types including BaseException), or a penalty to raise; state compared with the state before, evaluation repeated, and the rest of the run compared with the undisturbed run; double faults.', 'The tests inject no faults.'),
'C20': ('First generations matched with the input individuals (nearest grid points), rest tested for uniformity and independence by pooled counts; final result compared with the best of the input; bad input must be refused.', 'Uniformity and boundary values.'),
'C21': ('Boundary and invalid values for each documented limit through every route (part, preset, collector); refused means an exception before the run ends, accepted means a complete run with the parameter in effect.', 'Each limit and route is its own case.'),
'C22': ('Within one seeded run the selections, cuts, mutations and first individuals of different generations (up to 110 of them) are compared for replays; the choices made in unseeded runs are compared from run to run.', 'A replayed stream is invisible in a result.'),
'C23': ('Fixed easy problems and random easy problems with known optimum; success shares over repeated runs, per feature, against minimum shares calibrated on the repaired tree with wide margins.', 'Gross loss of search power does not fail a test.'),
'C24': ('The three assemblies with the same seed compared generation by generation; each constructor parameter varied alone and compared with the assembled run using that value; defaults compared with documented defaults.', 'A parameter that is not passed on is not noticed by tests.'),
'C25': ('Standard output of each run is compared with the report of the returned data, parsed, and compared with `best_solution` and with the best recomputed from all recorded individuals; averages recomputed; modular runs are read after every generation and must equal the unread run; all run data digested before and after reading; reports of repeated `optimize()` calls.', 'The text and the mean are never looked at by tests.'),
'C26': ('Instances are re-classed to empty subclasses (own `get_empty_copy` or the inherited one) and the run compared with the built-in run, generation by generation; custom penalties, fitness, crossovers, mutations, selections, elites, storages, populations and decodings log their answers (first and second child tested as a fair coin, the first and last pair separately), and the recorded generations must contain exactly them; general laws (size, calls, best) on top.', 'Dispatch on concrete types only shows with a subclass.'),
'C27': ('Each run is made twice under the same seed, the second time with every objective value replaced through a strictly increasing table (counts, negative, neighbouring floats, powers of two, irregular gaps, integers, scaled by 2^300 or 2^-200); individuals, ranks, counters, calls and best solution or Pareto set must agree.', 'Absolute tolerances and comparisons with constants only show at particular magnitudes.'),
'C28': ('Each run is made twice under the same seed with a larger number of generations, a later early stop, both, or none; every generation, counter, history, best solution and call of the shorter run must be the beginning of the longer one. Collectors whose optimize() is called two or three times are watched for kept histories, counters, best solution and elites, and for objective calls beyond the new children.', 'Operators that look at the limits, or state that depends on them, give plausible runs each.'),
'C29': ('Each run is made twice under the same seed, the second time on a renamed space (option labels of all hashable kinds, moved and scaled ranges and orderings, input population renamed) with the objective seen through the renaming; generations must agree through it.', 'Truth tests, sorting or arithmetic on labels need special labels.'),
'C30': ('The documented modular loop is interrupted after chosen steps or all of them; the run data is copied or pickled, the parts rebuilt; the continued run must equal the uninterrupted one. In some cases the original is continued first with the same random numbers.', 'State hidden in parts or shared between copies is invisible in one run.'),
'C31': ('Two or three runs are made alone and then together, each with its own random numbers (the harness swaps the state of the tap): in real threads of which one holds a baton that is passed on after a drawn number of source lines of the library (`sys.settrace`; about 700000 switches in a quick run), as modular loops alternating step by step in one thread (half of them sharing their parts), or nested in objective calls, two levels deep. All generations, calls and results must be those of the run alone.', 'Shared class attributes, module-level scratch data and parts that remember something need two runs in progress.'),
'C32': ('Each run is made twice with the same integer or dyadic values, as Python numbers and as one of 16 types in one of five containers, up to the ends of the type; individuals, scores, feasibility, ranks and best solutions must be numerically equal. Found the overflow repaired in 04c45ae.', 'Needs numpy numbers near the ends of their range, or unsigned ones.'),
'C33': ('Each constrained run is made twice under the same seed, the second time with satisfied values changed, equality values negated, conditions permuted (at most two of them violable, so that rounding of sums cannot matter), constant satisfied conditions added, or satisfied conditions dropped; generations with scores, feasibility and ranks must agree.', 'Only comparing two ways of writing the same problem shows it.'),
'C34': ('Runs of 130 to 300 generations with high mutation levels; every ten generations the memory traced by `tracemalloc` minus the histories, or (`sys.monitoring`) the number of jumps and calls per generation outside the harness, or the number of elements of all containers of the process, is taken; the end of the run is compared with generations 30 to 60. Measured on the repaired tree: less than 5 kB growth (bound at least 15 kB), at most 14 % more work (bound 35 %), at most 14 elements more (bound 20 and 0.45 per generation).', 'Needs long runs and a look at the process.'),
}
