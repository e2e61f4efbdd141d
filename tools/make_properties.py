"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
B = 'baumeva/ga/'
ALG = ['baumeva/binary_ga.py', 'baumeva/categorical_ga.py', 'baumeva/combinatory_ga.py', 'baumeva/collector_ga.py']
SCRIPTS = "The six test scripts run one configuration each and assert nothing about the result; "

prop('C01', 'The best solution found is never lost',
     "In a single-objective run (binary, Gray, categorical or combinatory; preset class, collector or modular loop; parents transferred 'best' or 'random'; with or without penalties) the reported best solution has the highest fitness score of all individuals evaluated so far in that run, and names the generation in which that score first appeared. "
     "The best fitness per generation therefore never decreases, and the report returned or printed at the end is that same solution, unaffected by what later generations do to the individuals it came from.",
     ['inputs', 'histories', 'configurations'], 'every objective function, configuration and random history of a run, at every generation',
     SCRIPTS + 'that no individual of any generation beats the reported one must hold for every history of random choices.',
     [B+'ga_data.py', B+'new_generation.py'] + ALG,
     [('best solution update', B+'ga_data.py:update'), ('elitism: the best parent always joins the next generation', B+'new_generation.py:execute/add_best/add_parents')],
     ['returned run data: best solution, per-generation best', 'every individual after each evaluation', 'standard output'],
     [('best_solution', 'deep copy of the best individual so far with its generation', B+'ga_data.py')])
prop('C02', 'Every recorded individual is consistent with the objective function',
     "At every generation each individual of the population, and the reported best, carries the phenotype its genotype decodes to (binary and Gray), the objective value that the objective function returns for exactly that point, and the feasibility flag that its constraint values imply ('<=' satisfied when the value is <= 0, '!=' satisfied when it is 0). "
     "Without violated constraints its score is 1/(1+|target-value|) when a target is given and minus the objective value otherwise (one such score per objective, in the order of the objectives, for VEGA; 1/(1+rank) for FFGA).",
     ['inputs', 'histories', 'configurations'], 'every individual of every generation of every run',
     SCRIPTS + 'records are carried over, copied, recombined and decoded many times; a test sees at most the final record of one run.',
     [B+'fitness/base_fitness.py', B+'fitness/hyperbola_fitness.py', B+'fitness/multi_fitness.py', B+'fitness/vega_hyperbola_fitness.py', B+'fitness/ffga_fitness.py', B+'populations/binary_population.py', B+'populations/base_population.py'],
     [('evaluation of new individuals', B+'fitness/base_fitness.py:execute'), ('fresh records for children', B+'populations/base_population.py:get_empty_individ')],
     ['individual records (genotype, phenotype, obj_score, score, feasible) after each evaluation'])
prop('C03', 'Only points of the declared search space are ever evaluated',
     "The objective function is only ever called with points of the declared space: for binary and Gray genes a value of the gene's grid between its minimum and maximum, for categorical genes an option of that gene (a listed value, or a value of its start/end/step range), for combinatory problems a list of the declared length without repetitions from the declared range. "
     "This holds for the first generation and for everything crossover, mutation and elitism produce afterwards, given an input population from the space.",
     ['inputs', 'histories', 'configurations'], 'every gene specification, operator combination and random history; every call of the objective function',
     SCRIPTS + 'an out-of-range or repeated gene needs a particular sequence of random choices, or an unusual gene specification.',
     [B+'populations/binary_population.py', B+'populations/binary_gray_population.py', B+'populations/cat_population.py', B+'populations/order_cat_population.py', B+'crossovers/', B+'mutations/', 'baumeva/vega.py'],
     [('generation of individuals', B+'populations/*:get_generated_individ'), ('operators closed over the space', B+'crossovers, '+B+'mutations')],
     ['arguments of every objective function call'])
prop('C04', 'Binary and Gray coding is an exact grid over the gene range',
     "A gene (min, max, step) is coded on the smallest number of bits whose evenly spaced grid over [min, max] is at least as fine as the step; the bit strings map one to one onto that grid, both end points included, and in Gray mode neighbouring grid points differ in exactly one bit. "
     "A real value given by the user is coded as the nearest grid point (at most half a grid step away), so that coding a grid point and decoding it again returns it. swap() exchanges genotype and phenotype of every individual and touches nothing else.",
     ['inputs'], 'every gene specification, every bit string and every value in range',
     'The tests use three gene specifications and never look at a code; the claim is about all ranges, steps (dividing the range or not) and bit strings.',
     [B+'populations/binary_population.py', B+'populations/binary_gray_population.py'],
     [('grid parameters', B+'populations/binary_population.py:get_gens_params'), ('decoding', B+'populations/binary*_population.py:binary_individ_to_float'), ('coding', B+'populations/binary_population.py:float_individ_to_binary')],
     ['genotype and phenotype of individuals after filling and after evaluation'])
prop('C05', 'Crossover recombines exactly the two parents of each pair',
     "Each pair of selected parents yields exactly one new, not yet evaluated child of the same length (two, when the crossover part is set to two offsprings): one-point and two-point crossover give the outer part of one parent and the other part of the other parent at unchanged positions, with every inner cut possible; uniform crossover takes every position from either parent at the same position, with equal chance. "
     "Order crossover keeps a contiguous inner segment (any) of one parent in place and fills the remaining positions with genes of the other parent that are not in the segment, in their (cyclic) order, without repetitions. Parents are not changed, and no child shares its mutable genotype with a parent or with another child.",
     ['inputs', 'histories'], 'every pair of parents, genotype length and cut choice',
     SCRIPTS + 'positions, cuts and aliasing are random per pair and are not observed.',
     [B+'crossovers/base_crossover.py', B+'crossovers/one_point_crossover.py', B+'crossovers/two_point_crossover.py', B+'crossovers/uniform_crossover.py', B+'crossovers/order_crossover.py'],
     [('pairing', B+'crossovers/base_crossover.py:execute'), ('recombination', B+'crossovers/*:crossover')],
     ['parents before and children after crossover'])
prop('C06', 'Mutation changes what it should, at the requested rate',
     "Mutation only touches the children of the current generation: bit mutation flips single bits, categorical mutation replaces a gene by a different option of the same gene (every other option possible, single-option genes unchanged), swap, inversion, movement and shift mutation rearrange a child as their name says without losing or repeating genes, every such rearrangement being possible. "
     "The probability (per bit, per gene, or per child for the combinatory ones) is the level requested: a number from 0 (never) to 1 (always), or 'weak', 'normal', 'strong' meaning 0.3, 1, 3 divided by the number of bits or genes for binary and categorical, and 0.03, 0.1, 0.3 for combinatory mutation; positions are hit evenly. Rates are kept to the resolution of one thousandth.",
     ['inputs', 'histories', 'configurations'], 'every child, level and gene specification; rates over all random histories',
     SCRIPTS + 'rates and reachability are statements about distributions, and structure must hold for every draw.',
     [B+'mutations/bin_string_mutation.py', B+'mutations/categorical_mutation.py', B+'mutations/base_combinatory_mutation.py', B+'mutations/swap_mutation.py', B+'mutations/inversion_mutation.py', B+'mutations/movement_mutation.py', B+'mutations/shift_mutation.py'],
     [('rate decision', B+'mutations/*:determines_mutation'), ('change', B+'mutations/*:get_mutation')],
     ['children, parents and population before and after mutation'])
prop('C07', 'Selection yields pairs of distinct members of the population',
     "Selection returns int(children share x declared population size) pairs of parents (for VEGA int(that / number of objectives) pairs per objective); every parent is an unchanged copy of an individual of the current population, the two of a pair are different individuals, and the population's genotypes and scores are not changed. "
     "In a tournament of size k no selected parent is among the k-1 individuals with strictly lowest score, and selection ends after a bounded number of random draws whatever the scores are.",
     ['inputs', 'histories', 'configurations'], 'every population, score distribution (ties, negative, huge spread), tournament size and random history',
     SCRIPTS + 'pairing, copies and bounds are never observed, and the score distributions that matter are rare.',
     [B+'selections/base_selection.py', B+'selections/tournament_selection.py', B+'selections/balanced_selection.py', B+'selections/ranked_selection.py', B+'selections/vega_tournament_selection.py', B+'selections/vega_balanced_selection.py', B+'selections/vega_ranked_selection.py'],
     [('tournament', B+'selections/tournament_selection.py:tournament/get_best'), ('proportional choice', B+'selections/balanced_selection.py:get_index')],
     ['population before and after, parents after selection', 'number of random draws'])
prop('C08', 'Selection probabilities follow fitness as documented',
     "Tournament selection draws the competitors uniformly without replacement and the fittest wins; balanced selection chooses in proportion to the score when all scores are positive (when some are negative a fitter individual is still never less likely than a worse one); ranked selection chooses in proportion to the rank of the score, 1 for the worst, equal scores sharing the mean of their ranks. "
     "The second parent of a pair follows the same law restricted to the other individuals.",
     ['inputs', 'histories'], 'every score vector, over the distribution of random histories',
     'A probability law cannot be read off one run; the tests never look at who is selected.',
     [B+'selections/tournament_selection.py', B+'selections/balanced_selection.py', B+'selections/ranked_selection.py'],
     [('tournament', B+'selections/tournament_selection.py:get_best'), ('cumulative probabilities', B+'selections/balanced_selection.py:add_probabilities'), ('ranks with ties', B+'selections/ranked_selection.py:add_probabilities')],
     ['selection counts per individual over many executions'])
prop('C09', 'The population size is stable',
     "The first generation has exactly the declared number of individuals; every later generation consists of int(children share x declared number) children (for VEGA number of objectives times int(children share x declared number / number of objectives)) plus elites, together the declared number plus one, for as long as the run lasts (in FFGA with transfer 'best', at least that many: the whole non-dominated front is kept). "
     "The size neither grows nor shrinks with duplicates, ties, the transfer strategy or the number of generations.",
     ['inputs', 'histories', 'configurations'], 'every configuration with at least one child per generation, every generation',
     SCRIPTS + 'sizes are never looked at; drift shows only with duplicates or after many generations.',
     [B+'new_generation.py', B+'selections/tournament_selection.py', B+'crossovers/base_crossover.py', B+'populations/'],
     [('elites fill up', B+'new_generation.py:execute'), ('number of parents', B+'selections/*:get_total_num_parents')],
     ['population and children sizes at every generation'])
prop('C10', 'A new generation is all children plus the right elites',
     "The next population contains every child exactly once and unchanged, and otherwise only members of the previous population with their scores kept, the best of them always included. "
     "With transfer 'best' these elites are the individuals with the highest scores, copies of the same genotype being passed over in favour of the next best while others are available (up to as many replacements as there are children); with 'random' they are drawn from the whole previous population.",
     ['inputs', 'histories', 'configurations'], 'every population (duplicates, ties), children share and random history',
     SCRIPTS + 'the duplicate handling is reached only in converged populations.',
     [B+'new_generation.py', B+'populations/base_population.py'],
     [('best transfer with duplicate replacement', B+'new_generation.py:add_best'), ('random transfer', B+'new_generation.py:add_parents')],
     ['population before, children, population after the new generation is made'])
prop('C11', 'Runs stop exactly when they should, with complete histories',
     "Every valid configuration terminates: a preset or collector run evaluates the first generation and then continues until the requested number of generations is reached or the count of consecutive generations without improvement first exceeds the early-stop limit (no limit when early stop is None), and not one generation more or less. "
     "That count is reset exactly by a strictly better best score (multi-objective: by a change of the set of Pareto solutions), and the per-generation histories of best, middle and worst score (multi-objective: Pareto sets) have one entry per generation equal to what that generation's population contained.",
     ['inputs', 'histories', 'configurations'], 'every configuration and history of improvements',
     SCRIPTS + 'most set early stop to None; the exact stopping generation depends on the history of improvements.',
     ALG + ['baumeva/vega.py', 'baumeva/ffga.py', B+'ga_data.py', B+'multi_ga_data.py'],
     [('main loop', 'baumeva/*_ga.py:optimize'), ('improvement counter and histories', B+'ga_data.py:update, '+B+'multi_ga_data.py:update')],
     ['number of generations, counters and histories in the run data', 'random draws and objective calls used'])
prop('C12', 'The objective function is called once per new individual',
     "In single-objective optimization the objective function is called exactly once for every individual of the first generation and once for every child afterwards, never again for individuals carried over. "
     "It is called with the list of decoded genes alone when no input data was given, and with the very input data object first and the genes second whenever input data other than None was given (0, empty containers and arrays included; in multi-objective algorithms too).",
     ['inputs', 'histories', 'configurations'], 'every run, every call',
     SCRIPTS + 'calls are not counted and input data is never used.',
     [B+'fitness/base_fitness.py', B+'fitness/multi_fitness.py', 'baumeva/vega.py'],
     [('evaluate only unscored individuals', B+'fitness/base_fitness.py:execute'), ('argument passing', B+'fitness/base_fitness.py:calc_obj_func')],
     ['log of objective function calls with arguments'])
prop('C13', 'Violated constraints are penalised as the penalty method says',
     "In constrained optimization the score is that of the unconstrained case with the penalty added to the distance from the target (or to the objective value): the penalty is zero when every constraint holds, positive when one is violated, and never falls when a violation grows; it is computed from this individual's constraint values alone. "
     "It equals delta*(c*generation)^alpha times the sum of violations^beta (dynamic), delta*lambda times that sum with lambda = 10/beta1 or 10*beta2 as the best solution so far is feasible or not (adaptive), and the sum of the squared products of violation and coefficient of its interval, with the equality or inequality table of that constraint (static), a violation being max(0, value) for '<=' and |value| for '!='.",
     ['inputs', 'histories', 'configurations'], 'every constraint list, position of the optimized value, value vector, generation and parameter setting',
     SCRIPTS + 'they use one dynamic penalty with one kind of constraint and never look at scores.',
     [B+'penalties/', B+'fitness/base_fitness.py', B+'fitness/multi_fitness.py'],
     [('penalty formulas', B+'penalties/*:execute'), ('splitting of returned values', B+'fitness/*:set_opt_value/set_obj_score'), ('score with penalty', B+'fitness/hyperbola_fitness.py:get_fitness_score')],
     ['penalty values returned, scores and flags of individuals by generation of evaluation'])
prop('C14', 'A fixed random seed makes runs reproducible',
     "With the library's random seed set to an integer before a run, the whole run (every generation, every objective call, the result) is determined by the configuration: it repeats identically in the same process after any other use of randomness, and in another process with a different hash seed. "
     "Different seeds give different first generations when the space is large.",
     ['inputs', 'configurations', 'histories'], 'every algorithm, configuration and seed (zero, negative, large); every prior state of the generator and process',
     SCRIPTS + 'no run is ever repeated and compared.',
     ['baumeva/global_generator.py', B+'populations/base_population.py', B+'populations/'],
     [('seeding at population set-up', B+'populations/*:set_params'), ('all randomness from the seeded generator', 'baumeva/ga')],
     ['digest of all generations and calls'])
prop('C15', 'Runs do not leak into each other or into user data',
     "A run modifies nothing the user passed in (genes, input population, conditions, input data), nor the gene lists it handed to the objective function, nor the values that function returned, runs of different objects do not influence one another's stored data, and what an earlier run returned is not changed by a later one. "
     "Running the same object again, or reusing the same operator, penalty or fitness objects for another problem of another size, behaves exactly as freshly made objects would under the same seed.",
     ['histories', 'configurations', 'inputs'], 'every sequence of runs and reuses',
     SCRIPTS + 'nothing is run twice or reused.',
     ['baumeva/', B+'mutations/', B+'crossovers/', B+'fitness/base_fitness.py', B+'penalties/', B+'selections/'],
     [('per-run objects', 'baumeva/*.py:optimize'), ('per-execution operator state', B+'crossovers/*:execute')],
     ['deep comparison of user arguments, stored run data and traces'])
prop('C16', 'Ranks and the reported Pareto set are those of Pareto dominance',
     "In multi-objective runs every individual's rank is 1 plus the number of individuals in the current population that dominate it (no component of the vector returned by the objective function larger, one smaller), and the reported Pareto set contains exactly the solutions of rank 1 of the latest generation with their objective values in order. "
     "The Pareto set recorded for a generation does not change afterwards.",
     ['inputs', 'histories', 'configurations'], 'every population and objective vector (ties, duplicates, one to many objectives), every generation',
     SCRIPTS + 'one VEGA script runs without looking at ranks or at the Pareto set.',
     [B+'fitness/multi_fitness.py', B+'multi_ga_data.py', 'baumeva/vega.py', 'baumeva/ffga.py'],
     [('dominance', B+'fitness/multi_fitness.py:inferior/assign_ranks'), ('Pareto set', B+'multi_ga_data.py:update')],
     ['ranks, best solution and history after each generation'])
prop('C17', 'FFGA never loses a non-dominated solution',
     "With transfer 'best' every solution of rank 1 of one generation is present in the next population, next to all children. "
     "So each solution once reported in the Pareto set stays in the reported set until a solution that dominates it has been found.",
     ['inputs', 'histories', 'configurations'], 'every FFGA run, every pair of consecutive generations',
     SCRIPTS + 'FFGA is not run by any test.',
     [B+'multi_new_generation.py', B+'multi_ga_data.py', B+'fitness/ffga_fitness.py', 'baumeva/ffga.py'],
     [('transfer of the front', B+'multi_new_generation.py:add_best')],
     ['population before and after each new generation; Pareto sets'])
prop('C18', 'VEGA gives every objective its share of the parents',
     "In each generation every objective chooses the same number of parent pairs, and chooses them by its own scores: by tournament of the requested size, in proportion to those scores, or by their ranks, as the selection class says. "
     "The number of objectives is the number of values to optimize, whether or not constraints are given.",
     ['inputs', 'histories', 'configurations'], 'every number of objectives, score matrix and selection kind, over random histories',
     SCRIPTS + 'who is selected by which objective is never observed.',
     [B+'selections/vega_tournament_selection.py', B+'selections/vega_balanced_selection.py', B+'selections/vega_ranked_selection.py', 'baumeva/vega.py'],
     [('per-objective rounds', B+'selections/vega_*.py:execute/tournament')],
     ['selection counts per individual and objective over many executions'])
prop('C19', 'A failing objective function does not corrupt the run',
     "If the objective function (or the user's penalty) raises at any call, that same exception reaches the caller, and the recorded best solution, the histories and the genotypes of the population are as before the evaluation. "
     "Evaluating again continues where it failed: the completed evaluations are kept (single-objective) and the rest of the run is the same as if nothing had failed.",
     ['crash_points', 'fault_sequences', 'inputs'], 'every call index at which the function can fail, every kind of exception, one or several failures',
     SCRIPTS + 'no objective function ever raises.',
     [B+'fitness/base_fitness.py', B+'fitness/multi_fitness.py', 'baumeva/collector_ga.py'],
     [('evaluation without intermediate state', B+'fitness/base_fitness.py:execute')],
     ['run data at the moment the exception surfaces; trace of the resumed run'])
prop('C20', 'The user\'s input population starts the run',
     "Individuals given as input population are all part of the first generation (binary and Gray: as their nearest grid points; otherwise unchanged), the remaining places are filled with individuals drawn uniformly from the space (every value of every gene equally likely, genes and individuals independent), and the result is never worse than the best of them. "
     "An input population larger than the declared size, or for binary genes an individual of wrong length or with a value out of range, is refused.",
     ['inputs', 'configurations'], 'every input population, from one individual to a full one',
     'One script passes a full input population of one kind and looks at nothing.',
     [B+'populations/binary_population.py', B+'populations/cat_population.py', B+'populations/order_cat_population.py'],
     [('fill from input population', B+'populations/*:fill'), ('checks', B+'populations/*:set_params, float_individ_to_binary')],
     ['first generation and objective calls; exceptions'])
prop('C21', 'Invalid configurations are refused and valid ones accepted',
     "An exception is raised, instead of a run with some other meaning, for: a tournament size below 2 or not below the population size, a transfer strategy other than 'best' or 'random', a mutation level that is not a float from 0 to 1 or one of the three names, a penalty that is not a penalty object, adaptive factors not greater than 1 or equal to each other, static interval and coefficient tables for different numbers of constraints, a condition sign other than '<=' and '!=', and an objective function that returns the wrong number of values for the conditions. "
     "Every value inside these limits, the limits included, is accepted.",
     ['inputs', 'configurations'], 'every parameter value near and far from the limits, in every class that takes it',
     SCRIPTS + 'no invalid value and no boundary value is ever tried.',
     [B+'selections/tournament_selection.py', B+'new_generation.py', B+'mutations/', B+'penalties/', B+'fitness/base_fitness.py'],
     [('parameter checks', B+'**:check_*'), ('value count check', B+'fitness/base_fitness.py:check_input')],
     ['exception or success of construction and of the first generations'])
prop('C22', 'A fixed seed does not repeat the same randomness every generation',
     "A seeded run is as random as an unseeded one: successive generations draw new tournaments, cut points and mutations instead of replaying the same choices, and the individuals of the first generation are drawn independently of each other. "
     "Only the run as a whole repeats when the seed is the same. Without a seed successive runs differ, in their first generation and in the choices of the later ones.",
     ['histories', 'configurations'], 'every seed, algorithm and pair of generations',
     'Two scripts set a seed and look at nothing.',
     ['baumeva/global_generator.py', B+'populations/base_population.py', B+'populations/'],
     [('seeding once per run', B+'populations/*:set_params')],
     ['mutation masks, selected positions and crossover origins per generation'])
prop('C23', 'The search finds the optimum of easy problems',
     "On small separable problems the preset algorithms and the documented operator combinations reach the known optimum, or come as close as the grid allows, within a modest number of generations in practically every run, for minimisation, maximisation towards a target, categorical and ordering problems alike. "
     "With static penalties they end in feasible solutions, and VEGA and FFGA reports lie on or near the true Pareto front.",
     ['inputs', 'histories', 'configurations'], 'over random histories and the operator combinations of the documentation',
     SCRIPTS + 'they never compare the result with the optimum.',
     ['baumeva/', B],
     [('selection pressure, variation and elitism together', 'baumeva/*.py:optimize')],
     ['distance of the reported best from the known optimum over many runs'])
prop('C24', 'Preset classes equal the same algorithm assembled from parts',
     "Under the same seed a preset class gives exactly the run that the collector, and the documented modular loop, give with the corresponding parts: tournament selection with one-point crossover and bit mutation (binary), uniform crossover and categorical mutation (categorical), order crossover and movement mutation (combinatory), per-objective tournaments (VEGA), balanced selection with the front carried over (FFGA). "
     "Every constructor parameter (children share, early stop, tournament size, mutation level, transfer strategy, penalty, conditions, input data, input population, Gray coding) takes effect there, and the documented defaults apply to parameters left out.",
     ['configurations', 'inputs', 'histories'], 'every parameter combination',
     SCRIPTS + 'each mode is run on its own with one parameter set, never compared.',
     ALG + ['baumeva/vega.py', 'baumeva/ffga.py'],
     [('composition', 'baumeva/*.py:optimize')],
     ['digests of complete runs of the three modes'])
prop('C25', 'Printed reports and averages tell the truth',
     "The report a run prints (preset classes unless is_print is False, collectors always; the parts print nothing by themselves) shows the index of the last generation made and exactly the best solution of the returned run data: its generation, genotype, phenotype, fitness score, objective score and feasibility, or, in multi-objective runs, the points and objective values of the whole Pareto set in the same order. "
     "It can be printed after any generation. get_avg_score() is the arithmetic mean of the scores of the current population (one mean per objective for VEGA). Printing and averaging change neither the run data nor the rest of the run.",
     ['inputs', 'histories', 'configurations'], 'every run and every generation after which the report or the average is asked for',
     SCRIPTS + 'what they print is not looked at, and nothing is printed or averaged in the middle of a run.',
     [B+'ga_data.py', B+'multi_ga_data.py'] + ALG + ['baumeva/vega.py', 'baumeva/ffga.py'],
     [('report', B+'ga_data.py:print_best_solution, '+B+'multi_ga_data.py:print_best_solution'), ('average', B+'ga_data.py:get_avg_score')],
     ['standard output of the run and of print_best_solution()', 'return value of get_avg_score()', 'run data before and after'])
prop('C26', 'Parts written by the user are used like the built-in ones',
     "The parts can be extended by subclassing. A subclass that changes nothing (of any selection, crossover, mutation, fitness, penalty, new-generation, storage or population class) gives exactly the run of its base class under the same seed. "
     "What a user-written part answers is what happens: the value of a custom penalty, called with the declared condition signs and this individual's constraint values, is added as the penalty; the value of a custom get_fitness_score is the score; each child is one of the two that a custom crossover returns, both with equal chance (both children when num_offsprings is 2); children changed by a custom mutation, parents chosen by a custom selection and elites chosen by a custom add_best are the ones used; a custom storage class controls when a collector stops; a custom population's genotypes or decoding are what is evaluated. The other guarantees (size, elitism, one call per new individual) hold for such runs too.",
     ['configurations', 'inputs', 'histories'], 'every part replaced by a user-written one, alone and all together, in collector and modular runs',
     SCRIPTS + 'only built-in classes are used.',
     [B+'fitness/base_fitness.py', B+'crossovers/base_crossover.py', B+'selections/base_selection.py', B+'new_generation.py', B+'populations/base_population.py', 'baumeva/collector_ga.py'],
     [('penalty dispatch', B+'fitness/base_fitness.py:get_penalty_value'), ('template methods', B+'crossovers/base_crossover.py:get_children, '+B+'fitness/base_fitness.py:execute, '+B+'new_generation.py:add_parents')],
     ['answers of the user-written parts', 'populations of every generation', 'digests of complete runs'])
prop('C27', 'Only the order of objective values decides the course of a run',
     "Without conditions and without a target value, a run with tournament or ranked selection (single objective or VEGA, each objective on its own) and every FFGA run depends on the objective values only through their order. "
     "Under the same seed, replacing the objective by a strictly increasing function of it (another unit, an offset, a logarithm, negative, huge or tiny values, values that differ in the last digit) gives the same individuals in every generation, the same generations without improvement, the same ranks, the same end of the run and the same best solution or Pareto set; only the reported values change.",
     ['inputs', 'histories', 'configurations'], 'every objective, every strictly increasing change of its values and every run',
     SCRIPTS + 'no two runs are compared, and all objectives have similar magnitudes.',
     [B+'selections/', B+'fitness/', B+'new_generation.py', B+'ga_data.py', B+'multi_ga_data.py'],
     [('comparisons of scores', B+'selections/tournament_selection.py:execute, '+B+'selections/ranked_selection.py:execute, '+B+'new_generation.py, '+B+'ga_data.py:update'), ('ranks', B+'fitness/ffga_fitness_function.py, '+B+'multi_ga_data.py')],
     ['individuals, ranks and counters of every generation of both runs', 'best solution or Pareto set'])
prop('C28', 'More generations or a later early stop only continue the run',
     "num_generations and early_stop only say when to stop. Under the same seed a run with a larger number of generations, a larger early stop or none begins with exactly the generations, objective calls, counters, histories and best solutions of the shorter run, and goes on from there: it never makes fewer generations and never ends with a worse score. Calling optimize() of a collector again goes on with the population, best solution, counters and histories it has: nothing found before is lost or evaluated again.",
     ['histories', 'configurations'], 'every pair of limits, for every algorithm, assembly, penalty and problem',
     SCRIPTS + 'each configuration is run with one pair of limits.',
     ALG + ['baumeva/vega.py', 'baumeva/ffga.py', B+'ga_data.py', B+'multi_ga_data.py', B+'penalties/'],
     [('loop over the generations', 'baumeva/*.py:optimize'), ('limits', B+'ga_data.py:__init__, update')],
     ['generations, calls, counters and histories of the shorter and the longer run'])
prop('C29', 'Renaming the values of the search space only renames the run',
     "Categorical options are opaque labels: replacing them by other distinct values (empty strings, None, 0, tuples, infinities, huge numbers, in a list of options) or moving and scaling a numeric range (categorical, or binary and Gray with integer grids) or moving the interval of an ordering gives, under the same seed and with the objective seen through the same renaming, the renamed run: the same individuals in every generation up to names, the same objective values, scores, feasibility, ranks and counters, and the best solution of the same generation. "
     "Individuals of an input population are renamed likewise.",
     ['inputs', 'configurations', 'histories'], 'every renaming of the options, every offset and scale of the ranges',
     SCRIPTS + 'options are small numbers and short words, and runs are not compared.',
     [B+'populations/', B+'mutations/', B+'crossovers/', B+'fitness/base_fitness.py'],
     [('options', B+'populations/cat_population.py'), ('ordering interval', B+'populations/order_cat_population.py'), ('grid', B+'populations/binary_population.py, '+B+'populations/binary_gray_population.py'), ('values chosen in mutation', B+'mutations/categorical_mutation.py')],
     ['individuals of every generation of both runs', 'objective calls seen through the renaming'])
prop('C30', 'The run data is the complete state of a run',
     "In the modular loop everything that the rest of a run depends on, apart from the random numbers, is in the run data object: it can be copied (copy.deepcopy) or pickled and restored after filling the population and between any two steps (selection, crossover, mutation, new generation, fitness, update), and the run continues with the copy, with the same or newly made parts of the same parameters, exactly as it would have without the interruption. "
     "The original can be continued as well; copy and original do not influence each other.",
     ['histories', 'crash_points', 'configurations'], 'every step of every generation as point of interruption, for every part',
     SCRIPTS + 'no run data is ever copied, saved or handed to other parts.',
     [B+'ga_data.py', B+'multi_ga_data.py', B+'populations/', B+'penalties/', B+'selections/', B+'fitness/'],
     [('state', B+'ga_data.py:GaData, '+B+'multi_ga_data.py:MultiGaData'), ('parts without memory', B+'**:execute')],
     ['generations, calls, histories and best solutions of interrupted and uninterrupted runs'])
prop('C31', 'Runs that are active at the same time do not influence each other',
     "Several runs may be in progress in one process: in threads switched at any point, modular loops executed alternately step by step (also with the same selection, crossover, mutation and new-generation objects), or a run started inside the objective function of another. "
     "Apart from the random numbers they draw, each gives exactly the generations, objective calls, counters, histories and best solution it gives alone.",
     ['schedules', 'histories', 'configurations'], 'every interleaving of any runs, down to single statements',
     SCRIPTS + 'runs are made one after the other.',
     ['baumeva/', B],
     [('state of a run', B+'ga_data.py:GaData, '+B+'populations/'), ('state of the parts', B+'selections/, '+B+'crossovers/, '+B+'mutations/, '+B+'penalties/'), ('seed setting', 'baumeva/global_generator.py')],
     ['generations, calls and results of simultaneous runs and of the same runs alone'])
prop('C32', 'The number type of objective and constraint values does not matter',
     "The objective may return its values as Python or numpy numbers of any width (signed, unsigned, half, single or double precision, booleans, fractions), bare, in a tuple, a list or an array. "
     "Equal numbers give the same run under the same seed: the same individuals, scores, penalties, feasibility, ranks and best solution as with plain Python numbers, without overflow or loss of precision in the library.",
     ['inputs', 'configurations'], 'every number type, container and magnitude of values the type can hold',
     SCRIPTS + 'objectives return small Python numbers.',
     [B+'fitness/base_fitness.py', B+'fitness/multi_fitness.py', B+'fitness/hyperbola_fitness.py', B+'fitness/vega_hyperbola_fitness.py', B+'penalties/'],
     [('acceptance of values', B+'fitness/*:check_input'), ('arithmetic on them', B+'fitness/*:get_fitness_score, '+B+'penalties/*:execute')],
     ['generations, scores and feasibility with Python numbers and with the other type'])
prop('C33', 'Conditions act only through their violations',
     "In constrained optimization a condition that holds has no influence and only the size of a violation counts. Under the same seed the run (individuals, scores, feasibility, counters, best solution) stays the same when, for one objective, satisfied '<=' values are replaced by other values <= 0 or '!=' values by their negatives, and, for any number of objectives, when the conditions are listed in another order with their values (and static tables) in the same order, the objective value put at another place among them, conditions that always hold with a constant value are added, or conditions that always hold (multi-objective: with value 0) are dropped together with the penalty.",
     ['inputs', 'configurations', 'histories'], 'every list of conditions, every rewriting of this kind and every run',
     SCRIPTS + 'each constrained problem is written in one way and no two runs are compared.',
     [B+'fitness/base_fitness.py', B+'fitness/multi_fitness.py', B+'penalties/'],
     [('objective and conditions told apart', B+'fitness/*:set_opt_value, set_obj_score'), ('feasibility', B+'fitness/base_fitness.py:execute'), ('sums of violations', B+'penalties/*:get_sum_conditional_func')],
     ['generations, scores, feasibility and ranks of the two runs'])
prop('C34', 'Long runs neither slow down nor accumulate memory',
     "In single-objective and VEGA runs the memory held after a generation, apart from the histories (three scores per generation, or one Pareto set), and the work done for a generation depend on the population size, the genotype length and the problem, not on the number of generations already made.",
     ['histories', 'configurations'], 'every run, however long',
     SCRIPTS + 'they are short and neither time nor memory is looked at.',
     [B+'ga_data.py', B+'multi_ga_data.py', B+'selections/', B+'new_generation.py', B+'fitness/'],
     [('what is kept', B+'ga_data.py:update, '+B+'multi_ga_data.py:update'), ('work per generation', B+'**:execute')],
     ['memory allocated by the process minus the histories', 'loop iterations and calls executed per generation'])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
