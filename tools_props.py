"""writes properties.jsonl (run once when the property texts change)"""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                                                 'observe_at': observe or [], 'hook_needed': None}})


G = 'baumeva/ga/'
NOASSERT = 'The repository tests only run a few optimisations with unseeded randomness and assert nothing; '

prop('C01', 'Binary search never leaves the declared gene ranges',
     'For the binary algorithms (plain and Gray), every value vector handed to the objective function lies inside the '
     'declared [min, max] of each gene, including after floating-point rounding. Every chromosome, initial or bred, is a '
     'list of the characters "0" and "1" whose length is the sum of the per-gene bit counts.',
     ['inputs', 'configurations'], 'all gene declarations with min < max and 0 < step <= max-min, all bit patterns, all random draws',
     NOASSERT + 'they sample a handful of ranges whose decoded maximum happens not to round above max.',
     [G + 'populations/binary_population.py', G + 'populations/binary_gray_population.py', 'baumeva/vega.py'],
     [('decode with clamp', G + 'populations/binary_population.py:binary_individ_to_float'),
      ('gray decode', G + 'populations/binary_gray_population.py:binary_individ_to_float')], ['objective arguments', "individual['phenotype']"])
prop('C02', 'Binary encoding and decoding agree; Gray neighbours differ in one bit',
     'A start value given by the user is encoded to a grid point nearest to it, and encoding the decoded value of any '
     'chromosome returns that same chromosome. The bits of one gene never influence another gene, the all-zero chromosome decodes to the '
     'minimum of every gene, and with Gray coding neighbouring grid points have chromosomes that differ in exactly one bit.',
     ['inputs', 'configurations'], 'all start values within the ranges, all chromosomes, plain and Gray coding',
     NOASSERT + 'encoding is only exercised for a few start individuals.',
     [G + 'populations/binary_population.py', G + 'populations/binary_gray_population.py'],
     [('encode', G + 'populations/binary_population.py:float_individ_to_binary'), ('decode', 'binary_individ_to_float'),
      ('gray transform', G + 'populations/binary_gray_population.py:get_gray_value/get_index_from_gray')])
prop('C03', 'The binary grid has the requested resolution with the fewest bits',
     'A gene (min, max, step) is represented by the smallest number of bits n with 2^n-1 >= floor((max-min)/step), '
     'its grid is evenly spaced, and both min and max (up to rounding) are grid points that initialisation can generate.',
     ['configurations', 'inputs'], 'all gene declarations with min < max and 0 < step <= max-min',
     NOASSERT + 'they use a few fixed declarations.',
     [G + 'populations/binary_population.py'], [('bit count', 'get_real_number_of_points/get_gens_params')])
prop('C04', 'Permutation individuals stay permutations',
     'In the combinatorial algorithms every individual, initial or bred by order crossover and any of the four '
     'rearranging mutations, holds exactly the declared number of distinct values of the declared range. When individuals '
     'use all values of the range, each one is a permutation of it.',
     ['inputs', 'histories'], 'all parents, all random draws, any number of generations',
     NOASSERT + 'a rare cut point or segment that duplicates a value goes unnoticed.',
     [G + 'crossovers/order_crossover.py', G + 'mutations/swap_mutation.py', G + 'mutations/inversion_mutation.py',
      G + 'mutations/movement_mutation.py', G + 'mutations/shift_mutation.py', G + 'populations/order_cat_population.py'],
     [('sampling without replacement', 'OrderCatPopulation.get_generated_individ'), ('segment exclusion', 'OrderCrossover.crossover')])
prop('C05', 'Categorical individuals stay inside the declared categories',
     'In the categorical algorithm each gene of every individual, initial or bred, is one of the values declared for that '
     'gene position (a list of values, or an inclusive integer range with step). A mutated gene takes a different declared '
     'value whenever another one exists, and every declared value is reachable by initialisation and by mutation.',
     ['inputs', 'configurations'], 'all gene declarations (lists and ranges), all genotypes, all draws',
     NOASSERT + 'range genes and single-value genes are never exercised.',
     [G + 'populations/cat_population.py', G + 'mutations/categorical_mutation.py', G + 'crossovers/uniform_crossover.py'],
     [('generation', 'CatPopulation.get_generated_individ'), ('replacement', 'CategoricalMutation.get_mutation')])
prop('C06', 'Crossover recombines the two parents position by position',
     'One-point, two-point and uniform crossover produce one child per parent pair, as long as its parents, each gene of '
     'which is the gene of one of its two parents at the same position. One-point children switch parent exactly at one '
     'interior cut and two-point children at two interior cuts; every cut, and either parent leading, is possible.',
     ['inputs'], 'all pairs of parents, all random draws',
     NOASSERT + 'children are never inspected.',
     [G + 'crossovers/base_crossover.py', G + 'crossovers/one_point_crossover.py', G + 'crossovers/two_point_crossover.py',
      G + 'crossovers/uniform_crossover.py'], [('recombination', '*.crossover'), ('pairing', 'BaseCrossover.execute')])
prop('C07', 'Genes mutate with the configured probability',
     'With a numeric mutation level p each unit (bit, categorical gene, permutation individual) is changed independently with '
     'probability p (within 0.2 percentage points): never for 0, always for 1. The level names mean 0.3/s, 1/s and 3/s for weak, normal and strong '
     'on bit strings and categorical genotypes of length s, and 0.03, 0.1 and 0.3 on permutations.',
     ['inputs', 'configurations'], 'all mutation levels, genotype lengths and random draws',
     NOASSERT + 'probabilities cannot be seen in a single run.',
     [G + 'mutations/base_combinatory_mutation.py', G + 'mutations/bin_string_mutation.py', G + 'mutations/categorical_mutation.py'],
     [('threshold draw', 'determines_mutation'), ('level names', 'update_mutation_lvl / mutation_map')])
prop('C08', 'Breeding never disturbs individuals that are already evaluated',
     'Selection, crossover and mutation leave the genotype, decoded value, score and feasibility of every individual of the '
     'current population unchanged. Children are new, independent, unevaluated individuals: changing one affects neither its '
     'parents nor another child, and survivors enter the next generation with their own record intact.',
     ['histories', 'inputs'], 'all populations, operator combinations and random draws',
     NOASSERT + 'an aliased genotype only shows as a score that no longer matches its individual.',
     [G + 'selections', G + 'crossovers', G + 'mutations', G + 'new_generation.py'],
     [('copies of parents', 'selections: deepcopy'), ('fresh children', 'BasePopulation.get_empty_individ')])
prop('C09', 'The best individual always survives (elitism)',
     'In single-objective runs the individual with the highest score of a generation is present, with the same genotype and '
     'score, in the next generation, for both ways of transferring parents. Hence the best score recorded per generation never decreases.',
     ['inputs', 'histories'], 'all populations (duplicates included), all offspring counts, all draws, both transfer modes',
     NOASSERT + 'losing the best individual only slows convergence.',
     [G + 'new_generation.py'], [('elite transfer', 'NewGeneration.add_best/add_parents/execute')])
prop('C10', 'The reported best solution is the best ever evaluated',
     'After every generation best_solution holds the genotype, value and scores of the first individual that reached '
     'the highest score seen so far, with the index of the generation in which it appeared, and later generations cannot '
     'alter that record. The history lists hold the best, middle (by rank) and worst score of each generation.',
     ['histories'], 'all sequences of populations and scores',
     NOASSERT + 'they print the result without checking it.',
     [G + 'ga_data.py'], [('record', 'GaData.update')])
prop('C11', 'Each new individual is evaluated exactly once, on its own decoded values',
     'In single-objective runs fitness evaluation calls the objective exactly once for each individual without a score and never for one that has a score; a multi-objective run may call it again for ranking, on individuals of the population only. Every call is made with the decoded values of an individual (its genotype '
     'for categorical and permutation individuals) and, if input data was given, whatever it is, with that data as first argument. The returned value is stored as the objective score of that same individual, whose genotype and decoded value are left as they were.',
     ['inputs', 'histories'], 'all populations with any mixture of evaluated and new individuals, any objective, any input data',
     NOASSERT + 'call counts and arguments are never checked.',
     [G + 'fitness/base_fitness.py', G + 'fitness/multi_fitness.py'], [('evaluation loop', 'BaseFitness.execute/calc_obj_func')])
prop('C12', 'Scores order solutions as documented',
     'With a target value the score is higher exactly when distance to the target plus penalty is smaller and is 1 on an unpenalised exact hit; without a '
     'target it is higher exactly when objective plus penalty is smaller. VEGA applies this to each objective separately, in order; FFGA scores are always '
     '1/(1+rank) of the current Pareto rank.',
     ['inputs'], 'all targets, objective values and penalties',
     NOASSERT + 'a wrong ordering only degrades convergence.',
     [G + 'fitness/hyperbola_fitness.py', G + 'fitness/vega_hyperbola_fitness.py', G + 'fitness/ffga_fitness.py'],
     [('score', 'get_fitness_score')])
prop('C13', 'An individual is flagged feasible exactly when it meets every condition',
     "In conditional optimisation an individual's feasible flag is true exactly when every value declared '<=' is at most 0 and every value "
     "declared '!=' equals 0, wherever 'optimize' stands in the list of conditions. Without conditions individuals stay feasible.",
     ['inputs', 'configurations'], 'all condition lists and all returned values, single- and multi-objective',
     NOASSERT + 'the flag is only printed.',
     [G + 'fitness/base_fitness.py', G + 'fitness/multi_fitness.py'], [('flag', 'BaseFitness.execute')])
prop('C14', 'Dynamic and adaptive penalties are zero when feasible and follow their formula',
     'The dynamic penalty equals delta*(c*t)^alpha times the sum of the violations to the power betta at generation t; '
     'the adaptive penalty equals delta*lambda times that sum, with lambda 0 in generation 0 and otherwise 10/betta_1 if the best '
     'solution so far is feasible and 10*betta_2 if not. It depends only on the current individual, never on ones penalised before, and is 0 without violations.',
     ['inputs', 'histories'], 'all condition values, generation numbers and sequences of evaluations',
     NOASSERT + 'one dynamic-penalty run is made.',
     [G + 'penalties/dynamic_penalty.py', G + 'penalties/adaptive_penalty.py', G + 'penalties/base_penalty.py', G + 'fitness/base_fitness.py'],
     [('penalty', 'execute/get_sum_conditional_func'), ('generation and best passed', 'BaseFitness.get_penalty_value')])
prop('C15', 'The static penalty applies the coefficient of the violated interval',
     'The static penalty is the sum over violated conditions of (coefficient of the interval strictly containing the size of the violation, '
     'times that size) squared, using the equality tables for "!=" conditions and the inequality tables for "<=" conditions. Satisfied '
     'conditions add nothing and a violation outside all declared intervals raises an error.',
     ['inputs', 'configurations'], 'all interval tables and condition values',
     'No test uses the static penalty.',
     [G + 'penalties/static_penalty.py'], [('penalty', 'StaticPenalty.get_sum_conditional_func')])
prop('C16', 'Tournament selection picks the best of distinct random entrants',
     'Each parent is the highest-scoring of tournament_size distinct individuals drawn uniformly from the whole population, '
     'so nobody outranked by too many is ever chosen and the others win with the corresponding probability. The two parents of a pair are different individuals '
     'and int(children_percent * num_individ) pairs are formed.',
     ['inputs'], 'all score vectors, tournament sizes and draws',
     NOASSERT + 'selection results are never inspected.',
     [G + 'selections/tournament_selection.py'], [('tournament', 'TournamentSelection.tournament/get_best')])
prop('C17', 'Proportional selection picks individuals in proportion to their score',
     'With positive scores an individual is chosen as a parent with probability score divided by the sum of scores, and any '
     'draw selects a member of the population. The two parents of a pair are different individuals and int(children_percent * num_individ) pairs are formed.',
     ['inputs'], 'all positive score vectors and all draws, rounding of the cumulative sum included',
     'Only reached through one multi-objective run without assertions.',
     [G + 'selections/balanced_selection.py'], [('roulette', 'BalancedSelection.add_probabilities/get_index')])
prop('C18', 'Ranked selection weights individuals by rank, ties sharing the average',
     'An individual is chosen as a parent with probability proportional to its rank by score (the worst has rank 1), '
     'individuals with equal scores all having the average of the ranks they occupy, whatever the scores are. '
     'The two parents of a pair are different individuals and int(children_percent * num_individ) pairs are formed.',
     ['inputs'], 'all score vectors (ties, negative scores), all draws',
     'No test uses ranked selection.',
     [G + 'selections/ranked_selection.py', G + 'selections/balanced_selection.py'], [('ranks', 'RankedSelection.add_probabilities')])
prop('C19', 'VEGA selections give every objective an equal share of the parents',
     'The VEGA tournament, proportional and ranked selections choose int(children_percent*num_individ/number of objectives) pairs for each objective in turn, '
     'judged by that objective\'s score alone, and keep the pairs of all objectives.',
     ['inputs', 'configurations'], 'all score matrices, numbers of objectives and draws',
     NOASSERT + 'one run with the proportional variant is made.',
     [G + 'selections/vega_tournament_selection.py', G + 'selections/vega_balanced_selection.py', G + 'selections/vega_ranked_selection.py'],
     [('per-objective loop', 'execute/tournament')])
prop('C20', 'The Pareto rank is one plus the number of dominating individuals',
     'In multi-objective runs the rank of an individual is 1 plus the number of individuals of the population whose returned values are nowhere '
     'greater and somewhere smaller; equal value vectors do not dominate each other. Ranks are recomputed for the whole population every generation, independent of its order.',
     ['inputs'], 'all objective vectors, population sizes within bound, any order',
     NOASSERT + 'ranks are never inspected.',
     [G + 'fitness/multi_fitness.py'], [('ranking', 'MultiFitness.assign_ranks/inferior')])
prop('C21', 'The Pareto set is recorded in full and survives in FFGA',
     'After each generation of a multi-objective run the recorded Pareto set is exactly the individuals of rank 1, as an independent copy, with the generation in which it last changed. '
     'In FFGA with best-parent transfer every individual of rank 1 is present in the next generation.',
     ['histories', 'inputs'], 'all objective functions, populations and draws',
     NOASSERT + 'the set is only printed.',
     [G + 'multi_ga_data.py', G + 'multi_new_generation.py'], [('record', 'MultiGaData.update'), ('elites', 'MultiNewGeneration.add_best')])
prop('C22', 'Runs respect the generation budget and the early-stop rule',
     'A run evaluates at most num_generations generations; it ends sooner only after the best result has not improved for at least '
     'early_stop consecutive generations, and it does end once there have been more than early_stop of them. Without early stopping (None in '
     'the ready-made algorithms) exactly num_generations are evaluated, and the history has one entry per evaluated generation.',
     ['histories', 'configurations'], 'all sequences of best scores, all budgets and early_stop values',
     NOASSERT + 'they do not look at the number of generations.',
     ['baumeva/binary_ga.py', 'baumeva/categorical_ga.py', 'baumeva/combinatory_ga.py', 'baumeva/vega.py', 'baumeva/ffga.py',
      'baumeva/collector_ga.py', G + 'ga_data.py', G + 'multi_ga_data.py'], [('main loop', '*.optimize'), ('counter', 'update')])
prop('C23', 'Population sizes and user-supplied start individuals are honoured',
     'The initial population has exactly num_individ individuals: first those supplied by the user, in order and unchanged (nearest grid point for binary genes), then generated ones. '
     'Later single-objective and VEGA generations have num_individ or num_individ + 1 individuals; FFGA generations hold all children and all carried-over elites.',
     ['inputs', 'configurations'], 'all population sizes, start populations, children percentages and draws',
     NOASSERT + 'sizes are not checked.',
     [G + 'populations', G + 'new_generation.py', G + 'multi_new_generation.py'], [('fill', '*.fill'), ('sizes', 'NewGeneration.execute')])
prop('C24', "The caller's inputs are untouched and runs are independent",
     'An optimisation never modifies the gene declarations, start population, conditions or input data it was given. '
     'Calling optimize again on the same ready-made algorithm object works and starts from scratch, and results of earlier runs or of other algorithm objects are not affected.',
     ['histories', 'inputs'], 'all facades, repeated and interleaved runs',
     NOASSERT + 'each test makes one run per object.',
     ['baumeva/binary_ga.py', 'baumeva/vega.py', G + 'ga_data.py', G + 'fitness/base_fitness.py'], [('per-run state', 'optimize'), ('copied conditions', 'BaseFitness.__init__')])
prop('C25', 'A fixed seed makes runs reproducible',
     'After setting the library-wide seed to a value (any integer, 0 included), two runs of the same algorithm with the same arguments, in the same process and whatever ran before, evaluate '
     'the same individuals in the same order and return the same result. With no seed set, runs do not repeat a fixed sequence.',
     ['histories', 'inputs'], 'all seeds, all objectives, any random activity before the run',
     NOASSERT + 'no test sets a seed.',
     ['baumeva/global_generator.py', G + 'populations/base_population.py'], [('seeding', 'BasePopulation.__init__')])
prop('C26', 'Ready-made algorithms apply exactly the options they are given',
     'Each ready-made algorithm behaves as the same run assembled from the documented components (population, '
     'fitness, selection, crossover, mutation, replacement) with the same options: given the same random draws both evaluate the same individuals in the same order and report the same best solution. '
     'Every constructor option (tournament size, mutation level, transfer mode, children percentage, Gray coding, conditions, penalty, start population, early stop) takes effect.',
     ['configurations', 'inputs'], 'all option combinations within bound, any objective, same draws',
     NOASSERT + 'an option silently ignored changes nothing visible.',
     ['baumeva/binary_ga.py', 'baumeva/categorical_ga.py', 'baumeva/combinatory_ga.py', 'baumeva/vega.py', 'baumeva/ffga.py', 'baumeva/collector_ga.py'],
     [('wiring', '*.optimize')])
prop('C27', 'Invalid configurations are rejected instead of producing wrong results',
     'An error is raised for: a mutation level that is not one of the three names or a float in [0, 1]; a tournament size below 2 or not below the population size; more start individuals than the population holds; a binary start individual of '
     'wrong length or out of range; an unknown transfer mode; in conditional optimisation an unknown condition sign or a number of returned values that does not match the conditions; without conditions more than one returned value (single objective); a non-penalty penalty; adaptive betta_1 or betta_2 <= 1 or equal. Valid configurations next to these limits are accepted.',
     ['inputs', 'configurations'], 'all values of the listed parameters',
     NOASSERT + 'no test checks for an error.',
     [G + 'mutations', G + 'selections/tournament_selection.py', G + 'populations', G + 'new_generation.py', G + 'fitness/base_fitness.py', G + 'penalties'],
     [('validation', 'check_mutation, check_tournament_size, set_params, float_individ_to_binary, check_transfer_parent, check_task, check_input')])
prop('C28', 'Rearranging operators make exactly the advertised move',
     'Swap mutation exchanges two genes, inversion reverses one contiguous stretch of at least two, movement takes one gene to another position and shift moves one contiguous chain elsewhere, leaving all other genes in order. '
     'Order crossover keeps a contiguous interior segment of one parent in place and fills the rest, starting after the segment and wrapping around, with the missing values in the order of the other parent; every such move is possible.',
     ['inputs'], 'all genotypes within the length bound, all draws',
     NOASSERT + 'children are never inspected.',
     [G + 'mutations', G + 'crossovers/order_crossover.py'], [('moves', 'get_mutation'), ('segment', 'OrderCrossover.crossover')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
