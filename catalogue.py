CX = "src/operators/crossover.rs"
OP = "src/operators.rs"
MU = "src/operators/mutation.rs"
SE = "src/operators/selection.rs"
PO = "src/population.rs"
ST = "src/stats.rs"
MO = "src/model.rs"
AL = "src/algorithms.rs"
GA = "src/algorithms/ga.rs"
AG = "src/algorithms/aga.rs"
EV = "src/evolution.rs"
IN = "src/individual.rs"
LI = "src/lib.rs"

def LONG(where, orders=False):
    return f" Longer genomes: {where}, one parent being the identity, its reversal or a stride of it and the other one such with the genes of 2 to 5 given positions in every order" + (", in one iteration order of the hashed collections." if orders else ".")

RELABEL = "from 5 genes on, the argument that gene values only matter up to relabelling"

prop("C01", "Permutation crossovers produce permutations",
     "Given two parents that are permutations of the same distinct genes, every permutation-based crossover strategy (partially mapped, order, cycle, sequential constructive, edge recombination, generalized partition 2) ends without panicking and returns a genome of the same length that contains every gene of the parents exactly once. This holds for every pair of parents and whatever the random generator delivers.",
     ["inputs"], "all pairs of parent permutations, all words of the random generator, all iteration orders of the hashed collections",
     "The tests crossover one fixed pair of 10-gene parents; a duplicate or lost gene needs a particular relation of cut points, mapping chains or exhausted neighbour lists.",
     [CX], [("CrossoverStrategy::crossover", CX), ("partially_mapped_crossover mapping chain", CX), ("edge_recombination_crossover fallback to an unvisited gene", CX), ("generalized_partition_2_crossover removal of used genes", CX)],
     bounds="PMX up to 6 genes (7 thorough), OX, CX 5/6 (6/7), SCX, ERX, GPX2 5 (6); both parents arbitrary up to 3 or 4 genes, above that parent 1 is 0,1,2,.. and parent 2 arbitrary; genes u8; all generator words." + LONG("12 to 32 genes. Larger: cycle, sequential constructive and generalized partition 2 crossover of 70 genes.", True),
     outside="other genomes of these and greater lengths; " + RELABEL + ".")

prop("C02", "Partially mapped crossover keeps a range and maps the rest",
     "For parents that are permutations of the same genes, the offspring of partially mapped crossover has the genes of parent 1 at the positions of the given range. At every other position it has the gene of parent 2 there, replaced, for as long as it is one of the genes inside the range, by the gene of parent 2 at the position where parent 1 holds it.",
     ["inputs"], "all pairs of parents, all ranges within the genome, empty ones too",
     "Tests compare one documented example and gene sets; whether a chain of several replacements is followed to its end depends on the parents.",
     [CX], [("partially_mapped_crossover", CX)],
     bounds="up to 5 genes (6 thorough), every range; both parents arbitrary up to 4 genes, above that parent 1 is 0,1,2,.. and parent 2 arbitrary." + LONG("24 and 33 genes, every range. Larger: 70, 130 and 250 genes, twenty ranges."),
     outside="other genomes of these and greater lengths; " + RELABEL + ".")

prop("C03", "Order crossover keeps a range and the order of the other parent",
     "For parents that are permutations of the same genes, the offspring of order crossover has the genes of parent 1 at the positions of the given range. The remaining positions, starting behind the range and wrapping around, hold the remaining genes in the order in which they follow in parent 2 from that same position on.",
     ["inputs"], "all pairs of parents, all ranges within the genome, empty ones too",
     "Tests compare one documented example; wrap-around and ranges at either end each need their own inputs.",
     [CX], [("order_crossover", CX)],
     bounds="up to 5 genes (6 thorough), every range; both parents arbitrary up to 4 genes, above that parent 1 is 0,1,2,.. and parent 2 arbitrary." + LONG("24 and 33 genes, every range. Larger: 70, 130 and 250 genes, twenty ranges."),
     outside="other genomes of these and greater lengths; " + RELABEL + ".")

prop("C04", "Cycle crossover takes whole cycles from alternate parents",
     "For parents that are permutations of the same genes, the offspring of cycle crossover has at every position the gene that one of the parents has there. All positions of a cycle come from the same parent, and the cycles, in the order of their first positions, come alternately from parent 1 and parent 2, beginning with parent 1.",
     ["inputs"], "all pairs of parents",
     "Tests compare one example; the alternation only shows with several cycles of particular shapes.",
     [CX], [("cycle_crossover", CX)],
     bounds="up to 6 genes (7 thorough); both parents arbitrary up to 4 genes, above that parent 1 is 0,1,2,.. and parent 2 arbitrary." + LONG("16 to 33 genes. Larger: 70, 130 and 250 genes."),
     outside="other genomes of these and greater lengths; " + RELABEL + ".")

prop("C05", "Single-point crossover joins a head and a tail",
     "For parents of the same length, whatever their genes, the offspring of single-point crossover has the genes of parent 1 before the given point and those of parent 2 from it on. With the strategy, the point is drawn at random, and every point strictly inside the genome can come up.",
     ["inputs"], "all genomes, all points, all words of the random generator",
     "Tests compare one example; points at the ends and an excluded point need particular draws.",
     [CX], [("single_point_crossover", CX), ("CrossoverStrategy::crossover", CX)],
     bounds="up to 8, 16, 33 and 65 genes, arbitrary u8 genes, every point; the strategy up to 8 and with 20 genes. Larger: 130 genes; the strategy with 70.",
     outside="other lengths.")

prop("C06", "Sequential constructive crossover follows a parent gene by gene",
     "For parents that are permutations of the same genes, the offspring of sequential constructive crossover starts with the pivot and never repeats a gene. Each next gene is one that directly follows the current gene in a parent, if such a gene is still unused; if both parents offer one, the caller's choice decides, which the strategy makes for the one that appears earlier. The strategy can take any gene as the pivot.",
     ["inputs"], "all pairs of parents, all pivots, all outcomes of the caller's choice",
     "Tests compare one example with one pivot; dead ends, where neither parent offers a successor, depend on the whole history of choices.",
     [CX], [("sequential_constructive_crossover", CX), ("CrossoverStrategy::crossover", CX)],
     bounds="up to 5 genes (6 thorough), every pivot; both parents arbitrary up to 3 genes, above that parent 1 is 0,1,2,.. and parent 2 arbitrary." + LONG("9 to 20 genes. Larger: 70 and 130 genes, three pivots; that every gene can be the strategy's pivot, for 3, 36 and 70 genes.", True),
     outside="other genomes of these and greater lengths; which gene follows when neither parent offers one (only that it is unused).")

prop("C07", "Edge recombination follows the parents' edges",
     "For parents that are permutations of the same genes, the offspring of edge recombination crossover starts with the pivot and never repeats a gene. Each next gene is adjacent to the current one in at least one parent, cyclically, if such a gene is still unused, and among those it is one with the fewest unused neighbours of its own. The strategy can take any gene as the pivot.",
     ["inputs"], "all pairs of parents, all pivots, all iteration orders of the hashed collections",
     "Tests compare one example; the neighbour lists shrink with every step, so a stale entry only shows with particular parents, and hashing differs from run to run.",
     [CX], [("edge_recombination_crossover", CX)],
     bounds="up to 5 genes (6 thorough), every pivot; both parents arbitrary up to 3 genes, above that parent 1 is 0,1,2,.. and parent 2 arbitrary; every iteration order of the neighbour sets." + LONG("9 to 20 genes. Larger: 70 genes, one pivot; 24 pairs of parents of 9 genes where a neighbour can run out of neighbours while another has one left; that every gene can be the strategy's pivot, for 3 and 36 genes.", True),
     outside="other genomes of these and greater lengths; which gene follows when no neighbour is left (only that it is unused).")

prop("C08", "Partition crossover keeps what the parents share together",
     "For parents that are permutations of the same genes, generalized partition crossover 2 offers the caller the last gene taken and partitions that together hold every remaining gene exactly once, none of them empty, and neighbours within a partition are neighbours in both parents, cyclically. The offspring is what the caller selected, in that order. Equal parents are offered as a single partition, so that their offspring is the parent itself up to rotation and direction.",
     ["inputs"], "all pairs of parents, all selections by the caller, all iteration orders of the hashed collections",
     "Tests compare one example with one selection rule.",
     [CX, OP], [("generalized_partition_2_crossover", CX), ("common_partitions", OP)],
     bounds="3 to 5 genes (6 thorough), every selection; both parents arbitrary for 3 genes, above that parent 1 is 0,1,2,.. and parent 2 arbitrary; equal parents up to 6 genes." + LONG("9 to 20 genes. Larger: 70 genes; the first, the last or the middle partition is selected.", True),
     outside="other genomes of these and greater lengths, and genomes of fewer than 3 genes; " + RELABEL + ".")

prop("C09", "Common neighbours and partitions are exact",
     "Of two genomes that are permutations of the same three or more genes, the common neighbours are exactly the pairs that are adjacent in both, cyclically and in either direction, each reported once with the smaller gene first. The common partitions hold every gene exactly once, consecutive genes of a partition are neighbours in both genomes, and a partition goes on as long as its last gene has an unused common neighbour.",
     ["inputs"], "all pairs of genomes",
     "Tests compare single examples; a missed wrap-around pair or a partition cut short needs particular genomes.",
     [OP], [("common_neighbors", OP), ("common_partitions", OP)],
     bounds="3 to 5 genes (6 thorough), parent 1 0,1,2,.. from 4 genes on; common neighbours also of genomes of different lengths (3 and 4, thorough 4 and 5) with arbitrary, possibly repeated, genes; every iteration order of the hashed collections." + LONG("9 to 20 genes. Larger: 70 and 130 genes.", True),
     outside="other genomes of these and greater lengths; genomes of two genes or fewer.")

prop("C10", "Mutations keep a genome's genes",
     "Swap, scramble, inversion and insertion mutation leave a genome with the same genes, each as often as before, and duplicate mutation replaces at most one gene, by a copy of one that is in the genome. A genome of fewer than two genes is left as it is, and nothing outside of the slice given is touched.",
     ["inputs"], "all genomes, distinct genes or not, all words of the random generator",
     "Tests mutate one genome with one seed.",
     [MU], [("MutationStrategy::mutate", MU), ("swap_mutation", MU), ("scramble_mutation", MU), ("inversion_mutation", MU), ("insertion_mutation", MU), ("duplicate_mutation", MU)],
     bounds="arbitrary u8 genes; swap and insertion up to 7 genes (12 thorough), inversion 8 (12), duplicate 8, scramble 5 (6); swap, inversion and insertion of 20 to 40 distinct genes; all generator words. Larger: swap, inversion and duplicate of 70 distinct genes (insertion thorough).",
     outside="other lengths.")

prop("C11", "Mutations make the documented moves, with uniform positions",
     "On distinct genes, swap exchanges exactly two genes, inversion reverses exactly one range of two or more, insertion takes one gene to another position and shifts those between by one, duplicate copies one gene over another, and scramble rearranges one range of two or more. For swap, insertion and duplicate every pair of positions is as likely; for inversion and scramble every length is as likely and then every place, and scramble makes every order of the range as likely.",
     ["inputs"], "all words of the random generator, weighted by how likely they are",
     "Tests check a single seeded outcome each; a position that never comes up, or comes up too often, does not show in one outcome.",
     [MU, OP], [("MutationStrategy::mutate", MU), ("random_pair", OP), ("bounded_random_range", OP)],
     bounds="2, 3, 5, 7, 16, 23 and 40 genes, scramble 2 to 4 (5 thorough); the probabilities are exact, of uniform draws from ranges. Larger: swap, inversion and duplicate of 70 genes (insertion thorough).",
     outside="other lengths; the quality of the random generator and of rand's range reduction.")

prop("C12", "Random pairs and ranges are within bounds, distinct and uniform",
     "A random pair holds two different numbers below n, every ordered pair as likely; a random range lies within 0..n, is not empty, and, if bounded, has a length within the limits, every length as likely and then every position. A pair of fewer than two numbers, a range of nothing and limits in the wrong order panic.",
     ["inputs"], "all n and limits, all words of the random generator",
     "Tests draw a number of samples for one n.",
     [OP], [("random_pair", OP), ("random_range", OP), ("bounded_random_range", OP)],
     bounds="bounds: any n up to 2^64-1 for pairs, 2^63-1 for ranges, 2^16 (2^32 thorough) for bounded ranges; probabilities: pairs of up to 24, ranges of up to 20, bounded ranges of up to 16. Larger: every pair of ends and middle positions of 300 to 2^60 numbers can be drawn, and so can ranges between them.",
     outside="probabilities for larger n; uniformity over ranges as such (documented as uniform, but lengths and then positions are drawn).")

prop("C13", "Every selection returns a member of the population",
     "Whatever the population, its fitness values and the random generator, tournament, rank, linear, elitist, roulette wheel and Boltzmann selection end without panicking and return an index within the population together with the individual at that index. For roulette wheel selection the fitness values are not negative.",
     ["inputs"], "all populations, all parameters accepted by the constructors, all words of the random generator, the extreme ones included",
     "The tests sample 5 individuals a few thousand times; the draws that fall off the end of a wheel or the last index have a probability of about 2^-53.",
     [SE], [("SelectionMechanism::select of each selection", SE)],
     bounds="populations up to 3 (roulette, Boltzmann, tournament), 9 (rank), 7 (elitist), 50 (linear); finite fitness of any value for tournament, small integers for roulette and Boltzmann; elitist ratio arbitrary up to 5 individuals, otherwise listed parameters; every value of the draws. Larger: every strategy on populations of 9 to 101 individuals (Boltzmann 24, roulette wheel 40), three of which have one of up to 4 values of fitness, every value of the draws.",
     outside="other larger populations, and these with other fitness values; Boltzmann temperatures other than the listed ones.")

prop("C14", "Selection strategies favour individuals as documented",
     "Tournament selection picks the individual at position i of n with probability ((i+1)^k - i^k) / n^k, rank selection in proportion to i+1, elitist selection evenly among those above the ratio, never another. Roulette wheel selection picks in proportion to fitness, Boltzmann selection in proportion to exp(fitness / temperature), and linear selection by a density that falls linearly, with the slope the bias gives, from the best to the worst.",
     ["inputs"], "all fitness values of the bound, all draws, weighted by how likely they are",
     "Tests compare frequencies of a few thousand samples with a tolerance of several percent, for one population of five.",
     [SE], [("TournamentSelection::select", SE), ("RankSelection::select", SE), ("RouletteWheelSelection::prepare and select", SE), ("BoltzmannSelection::prepare and select", SE), ("LinearSelection::select", SE), ("ElitistSelection::select", SE)],
     bounds="tournament, rank and elitist: exact probabilities for up to 6, 11 and 9 individuals and tournaments of up to 5 (7 thorough), larger than the population too; roulette and Boltzmann: the number drawn lies in the individual's share, for up to 3 individuals (4 thorough) of integer fitness; linear: the same for up to 10 (40) individuals and biases from 1 to 2; also after preparation for other populations before. Larger: tournaments of 2 of 20 individuals, of 3 of 9 and of 1 of 40, rank selection of up to 40 and elitist selection of up to 100 individuals; shares of roulette and Boltzmann selection of 12 to 40 individuals of given fitness; linear selection of 64; tournaments of 3, 70 and 300 of 5 or 9 individuals in groups of the same fitness, rank selection of 130, Boltzmann selection of temperature 0.00125.",
     outside="other sizes and parameters; the values of exp beyond a relative error of 1e-9.")

prop("C15", "Selecting a distinct individual never returns the excluded one",
     "Selecting an individual distinct from a given one returns the first individual selected that differs from it, with its index, and stops there. If none of the permitted number of tries delivers one, it returns nothing, after exactly that many tries.",
     ["inputs", "histories"], "all populations with any individuals equal, all sequences of selections, all numbers of tries",
     "No test calls it on its own; equal individuals at different positions and exhausted tries need particular sequences.",
     [SE], [("SelectionMechanism::select_distinct", SE)],
     bounds="up to 3 individuals of arbitrary kinds (4 thorough), 0 to 5 tries; with every strategy of the crate for 1 and 3 individuals. Larger: up to 70 tries of 2 and 3 individuals, and 3 of 6.",
     outside="larger populations.")

prop("C16", "A population is always sorted by fitness",
     "However a population is made or replaced, its individuals are in ascending order of fitness, by index, slice, iterator and as a vector, and a new one is generation 0. No population can be made of, or replaced by, no individuals.",
     ["inputs", "histories"], "all fitness values but NaN, in all orders, through all constructors and after replacement",
     "Tests use one list of five values.",
     [PO], [("Population::new", PO), ("Population::replace", PO), ("conversion from and to Vec", PO)],
     bounds="up to 3 individuals (4 thorough) of any fitness but NaN, up to 5 (6) of small integer fitness with ties; replacement of up to 4 by up to 3. Larger: 13 to 33 individuals, two of which have any fitness (13) or one of five values (more), and replacement of 13, 40 and 130.",
     outside="larger populations other than these; NaN fitness.")

prop("C17", "The individuals of a population are unique and none is lost",
     "Equal individuals are only kept once in a population, also if others of the same fitness stand between them. Every distinct individual given is kept, and none is made up.",
     ["inputs"], "all lists of individuals with any of them equal and any of them of the same fitness",
     "Tests use one list without equal individuals; duplicates separated by ties need a particular order of the input.",
     [PO], [("Population::new", PO), ("Population::replace", PO)],
     bounds="up to 6 individuals of 2 kinds or 4 of 3 (5 of 4 thorough), fitness values 0 to 3 in any combination; ties stay in the order given (any other order: C39). Larger: 20 to 250 individuals in groups of the same fitness, one of which is equal to another one of its group, any two of a group (70 and fewer) or at one of seven places (more).",
     outside="larger populations other than these; equal individuals of different fitness.")

prop("C18", "Fittest individual and population statistics describe the members",
     "The fittest individual has the largest fitness of the population, is the one that can be taken out, and has the maximum of the statistics. Count, minimum, maximum, their indices, average, variance and deviation are those of the fitness values of the members, also after a replacement.",
     ["inputs", "histories"], "all fitness values, with ties and equal individuals",
     "Tests use one list of five values.",
     [PO, ST], [("Population::fittest", PO), ("Population::take_fittest", PO), ("Population::stats", PO)],
     bounds="up to 3 individuals (4 thorough) of any finite fitness, up to 4 (5) of integer fitness, some equal; moments for up to 4 of integer fitness. Larger: 12 and 21 individuals, two of which have an integer fitness of -20 to 59; moments of 20, 65 and 130, two of which have one of five values; fittest individual of 70 and 130.",
     outside="larger populations other than these; NaN fitness.")

prop("C19", "Generation and stagnation count replacements",
     "Each replacement of a population counts as a generation, and stagnation counts the generations since the best fitness last rose, whatever sequence of populations follows. The replacement hands back exactly the previous individuals and holds exactly the new ones.",
     ["histories", "inputs"], "all sequences of replacements with any fitness values",
     "Tests replace once; rises, falls and ties over several generations need a history.",
     [PO], [("Population::replace", PO)],
     bounds="up to 2 replacements of any finite fitness, up to 5 of integer fitness, populations of 1 or 2 (3 replacements of 2 thorough). Larger: up to 10 (13) replacements of integer fitness; replacements of populations of up to 45 with one individual of any finite fitness; 300 replacements with rises, falls and plateaus at one of several places; 66,000 replacements of a population of 1, with the last rise at one of several places.",
     outside="longer histories other than these; equal individuals (see C17).")

prop("C20", "Sample statistics: count, extremes and where they are",
     "Of any samples but NaN, count is their number, minimum and maximum are the smallest and the largest, and their indices are those of the first such samples; without samples there are none. Recording samples one at a time and collecting them all at once give the same statistics, and a snapshot does not change when recording goes on.",
     ["inputs", "histories"], "all sequences of samples",
     "Tests use one sequence of five samples, without ties.",
     [ST], [("Stats::record", ST), ("Stats::from_iter", ST), ("Stats::snapshot", ST)],
     bounds="up to 3 samples (4 thorough) of any value, up to 5 (7) of integers with ties; moments up to 4 (5) samples of seven values and up to 3 (4) of any value of -100..100. Larger: 12 to 130 samples, two of which are symbolic; 300 samples.",
     outside="longer sequences other than these; NaN samples.")

prop("C21", "Average, variance and deviation are accurate",
     "The average of the samples is their mean and the variance their mean squared deviation (divided by the count less one, 0 for a single sample), up to a rounding error that stays small even if the samples are large and close together; the standard deviation is the variance's root. Equal samples have a variance of exactly 0, and the variance is never negative.",
     ["inputs"], "all samples of a range",
     "Tests use the samples 1 to 5, for which any formula is exact.",
     [ST], [("Stats::record (Welford)", ST), ("Stats::from_iter", ST), ("Stats::var", ST)],
     bounds="up to 5 samples, arbitrary within 0..1, -1000..1000 and 10^9..10^9+1 (errors up to 1e-14 of the magnitude per sample); sign of the variance: up to 3 samples of small integers; equal samples: 2 (4 thorough) of any value up to 1e100. Larger: 12, 40, 65 and 130 samples, two of which have one of nine values.",
     outside="other samples of more than five, and samples of other ranges, for the accuracy.")

prop("C22", "Statistics of non-empty samples equal those they come from",
     "Statistics convert to statistics of non-empty samples exactly if there are samples, and then count, extremes, indices, average, variance and deviation are the same, as they are in a snapshot. Setting the indices of the extremes changes those indices and nothing else, and an index that is not one of a sample panics.",
     ["inputs"], "all samples, all indices",
     "Tests use one sequence of samples.",
     [ST], [("PopulatedStats", ST), ("TryFrom<Stats>", ST), ("Stats::snapshot", ST)],
     bounds="up to 3 samples (5 thorough) of seven values with moments, up to 3 of any value but NaN; every index for up to 4 samples. Larger: 12 to 130 samples, of which two are one of seven values; every index for 40 and 130 samples.",
     outside="more samples other than these.")

prop("C23", "Breeding keeps the best of offspring and parents",
     "Breeding selects a parent, crosses it at the crossover rate with a distinct second one if there is one, mutates at the mutation rate, then improves and evaluates the offspring once. It returns the offspring if it is valid and survives - by default, if it is at least as fit as the fitter of its parents - and otherwise a copy of that parent unchanged; a survival rule of the model's own is followed.",
     ["inputs", "histories"], "all fitness values of parents and offspring, NaN and infinite ones included, all selections, all rates, all words of the random generator",
     "The tests only run whole evolutions of OneMax; an offspring that is worse, or invalid, or a parent order that matters, does not show there.",
     [MO], [("EvolutionModel::breed", MO), ("EvolutionModel::can_survive", MO)],
     bounds="populations of 1 and 2 (3 thorough) of any finite fitness, any fitness of the offspring, any rates of [0, 1], any words. Larger: populations of 4 to 130, the parents of which are at one of several places; models with a validity of their own.",
     outside="selectors other than a scripted one (see C13 to C15 for those); other larger populations.")

prop("C24", "Elites are the fittest and are carried over unchanged",
     "As many elites as the elitism rate gives of the population size, rounded down, or all there are, are added unchanged to the next generation; they are the fittest individuals of the population. With at least one elite, the best fitness of the population never falls from one generation to the next.",
     ["inputs", "histories"], "all populations and fitness values, all offspring",
     "Tests run OneMax only; a worse elite or an elite lost only shows when the offspring are worse.",
     [GA, AG], [("GeneticAlgorithm::select_elites", GA), ("AdaptiveGeneticAlgorithm::select_elites", AG), ("Evolution::evolve_population", EV)],
     bounds="selection of elites: populations of up to 4 of any finite fitness, 0 to 3 elites; runs of 2 generations (4 thorough) of 2 or 3 individuals of small integer fitness, 1 or 2 elites. Larger: selection of elites of 12 to 40 individuals, two of which have one of four values; runs of 7 generations of 2 individuals, and of 12 of 20, 40 of 5 and 3 of up to 130, where the fitness rises, falls or stays at one of four points, with ties or without; elites of 130 individuals, and of populations after up to 300 generations.",
     outside="larger populations other than these; elites equal to offspring.")

prop("C25", "Every generation is filled up to the population size",
     "The elites are joined by newly bred individuals until there are as many as the population size, each bred individual is in the new generation exactly once, and none is bred in vain. So every generation has the population size as long as the individuals differ, whatever the size of the initial population.",
     ["inputs", "configurations"], "all population sizes, numbers of elites and sizes of the initial population of the bound",
     "Tests run one population size; one or no missing individual are separate cases in the code.",
     [AL], [("EvolutionAlgorithm::generate_new_population", AL)],
     bounds="population sizes 1 to 9 (24 thorough), any number of individuals that are there before; runs of sizes 1 to 5 with initial populations of 1 to 7. Larger: filling up to 24, 100 and 200; runs with populations of 33 and 60, of 100 from 1 individual, and of 60 from 150.",
     outside="larger sizes; other schedules of the thread pool than one job in order (see C39).")

prop("C26", "The run calls the closure for each generation and stops when told",
     "The closure is called once for each generation, from the initial one on, with the population of that generation and its statistics, generation number and stagnation, and the run ends the first time it returns false. The population returned is the one the closure saw last.",
     ["histories"], "all sequences of answers of the closure, all offspring",
     "Tests stop by fitness or generation only, and look at the result only.",
     [EV], [("Evolution::evolve_population", EV)],
     bounds="up to 3 generations of 1 or 2 individuals of small integer fitness, stopping after any of them. Larger: 10 generations of 1 individual; 40 generations of 3, 12 of 20 and 3 of 100 individuals of given fitness, stopping after any of them; 66,000 generations of 1 individual, stopping at one of several places.",
     outside="longer runs.")

prop("C27", "The initial population is what was asked for, each evaluated once",
     "A run from random individuals makes as many as the population size with the arguments given; a run from an individual starts with it unchanged and otherwise mutated copies of it, each mutated once. Each initial individual is evaluated exactly once, the first generation consists of the valid ones, and if there is none the run panics.",
     ["inputs", "configurations"], "all sizes of the bound, all fitness values, valid or not",
     "Tests only look at the result of whole runs.",
     [MO, AL, EV], [("EvolutionModel::extend_population", MO), ("EvolutionModel::extend_population_with", MO), ("EvolutionAlgorithm::initialize_population", AL), ("Evolution::run", EV), ("Evolution::evolve_individual", EV)],
     bounds="up to 4 individuals (8 thorough) in addition to others that are there; evaluation of up to 3 (4) with any fitness; whole runs of up to 3. Larger: 24 to 130 individuals in addition to others, evaluation of 24 to 70, two of them one of eight individuals, whole runs of up to 250 from random individuals and from a given one.",
     outside="larger populations; other schedules of the thread pool than one job in order (see C39).")

prop("C28", "A run returns the best individual it has found",
     "Running from random individuals or from a single one returns an individual of one of the generations, and no individual of any generation, the initial one included, is fitter. This also holds if the population gets worse, without elitism, and if the run ends at once.",
     ["histories", "inputs"], "all sequences of offspring fitness, all stopping points",
     "Tests run OneMax, where the default reproduction never gets worse.",
     [EV], [("Evolution::run", EV), ("Evolution::evolve_individual", EV)],
     bounds="up to 3 generations of 1, 2 of 2 or 1 of 3 individuals of small integer fitness; any finite fitness for 2 generations of 1 and 1 of 2. Larger: 8 to 12 generations of 1 individual and 1 of 5; 40 generations of 5, 12 of 20 and 2 of up to 130, the best one being at one of ten places among all that are made; 66,000 generations of 1 individual, the best at one of several places.",
     outside="longer runs; individuals whose fitness changes without evaluation.")

prop("C29", "Invalid parameters are refused before anything runs",
     "Parameters are refused with a panic exactly if the population size is 0, the elitism rate is not within [0, 1), or a crossover or mutation rate, or an end of their ranges, is not within [0, 1]; no generation is made with them. Valid ones are accepted and used, and the defaults are the documented ones.",
     ["configurations"], "all parameter values, NaN and infinite ones included",
     "Tests only use valid parameters.",
     [GA, AG], [("GeneticAlgorithmParameters::validate", GA), ("AdaptiveGeneticAlgorithmParameters::validate", AG), ("configure", GA)],
     bounds="any f64 rate and any population size of 64 bits for validation, small sizes for runs.",
     outside="")

prop("C30", "Each generation is bred with the rates and selector prepared for it",
     "Before each generation is bred, the model is prepared exactly once with the current population, then the parent selector is prepared exactly once for that same population. All offspring are bred with the configured rates, or those the model's preparation has set, and with the configured selection strategy.",
     ["histories", "configurations"], "all rates, changed by the model or not, for all generations",
     "No test has a model with a preparation step; a stale selector still selects something.",
     [GA, AG, EV], [("GeneticAlgorithm::prepare_for_next_population", GA), ("AdaptiveGeneticAlgorithm::prepare_for_next_population", AG), ("ReproductionParameters", MO)],
     bounds="up to 3 generations of up to 3 individuals, any rates; every strategy of the crate for a population of 3. Larger: 30 and 3000 generations of 1 individual, 1 of 100 and 2 of 60.",
     outside="longer runs of several individuals.")

prop("C31", "The adaptive algorithm's rates follow the diversity of the population",
     "The first generation is bred with the upper end of the crossover range and the lower end of the mutation range. At every later generation that is a multiple of the adjustment interval, diversity is the ratio of the fitness deviation to that of the initial population, limited to 0..1 and 0 if neither varies, and the crossover rate is interpolated over its range by diversity, the mutation rate by its complement; at all others, and always with an interval of 0, the rates stay. They never leave their ranges, whatever the fitness values.",
     ["histories", "configurations", "inputs"], "all rate ranges, all sequences of populations of the bound, all intervals",
     "Tests only run OneMax to its end, which succeeds with any rates.",
     [AG, LI], [("AdaptiveGeneticAlgorithm::prepare_for_next_population", AG), ("interpolate_f64", LI)],
     bounds="arbitrary ends of the ranges within [0, 1], in either order; fitness of 2 or 3 values (extreme ones for the limits), 1 to 3 individuals (4 thorough), up to 5 generations (7), intervals 0 to 3. Larger: 12 to 22 generations of 2 or 3 individuals, and 3 generations of 24, with the fitness of some individuals symbolic; 66,000 generations of 1 individual, populations stuck for 300 generations, and with tiny and huge differences of fitness.",
     outside="other fitness values and larger populations.")

prop("C32", "Interpolation hits its ends, is monotone and stays in range",
     "Interpolating between two numbers gives the minimum at ratio 0, the maximum at 1, and the linear mixture between, and a larger ratio never gives less. For whole numbers the result is rounded down, always lies within the range, and a ratio below 1 of a whole is less than the whole.",
     ["inputs"], "all ratios of [0, 1], all ends of the bound",
     "Tests interpolate once, at 0.5.",
     [LI], [("interpolate_f64", LI), ("interpolate_usize", LI)],
     bounds="every f64 ratio; arbitrary ends up to 10^6 in magnitude for floats (three pairs of ends for monotonicity); whole numbers: six ranges up to 10^6, and sizes up to 2^53-1 for the part. Larger: whole numbers of ranges up to 2^40, with and without an offset; floats up to 1e150 and 1e-100 in magnitude.",
     outside="other ranges of whole numbers; errors below 1e-14 of the magnitude.")

prop("C33", "Comparing individuals compares their fitness",
     "Comparing two individuals orders them by fitness and calls them equal when their fitness values cannot be ordered. Wrapped individuals are equal, ordered and partially ordered by their fitness alone, so that the largest of a collection is a fittest one, and the individual inside can be read, changed and taken out.",
     ["inputs"], "all pairs of fitness values, NaN, infinities and zeros of either sign included",
     "Tests compare two or three ordinary values.",
     [OP, IN], [("compare_fitness", OP), ("IndividualWrapper", IN)],
     bounds="any two f64 fitness values; the maximum of up to 3 individuals of any fitness.",
     outside="")

prop("C34", "Individuals are valid exactly if their fitness is finite",
     "By default an individual is valid if and only if its fitness is neither infinite nor NaN. The initial population drops exactly the invalid individuals.",
     ["inputs"], "all fitness values",
     "No test has an invalid individual.",
     [IN, AL], [("Individual::is_valid", IN), ("EvolutionAlgorithm::initialize_population", AL)],
     bounds="any f64 fitness; initial populations of up to 3. Larger: initial populations of 12 to 70, four of which are one of a huge, both infinite and the NaN fitness, and of 20 to 250 with a stretch of invalid ones between two of seven places.",
     outside="other initial populations of more than 3.")

prop("C35", "OneMax: fitness is the share of ones, operators keep the length",
     "A random OneMax individual has the length asked for, and every genome of it can come up; evaluation keeps the genome and gives the share of its ones, which is 1 exactly for all ones. A crossover of two individuals is the start of one and the end of the other, a mutation changes at most one bit to a copy of another, and a run returns an individual of the right length whose fitness is that of its genome and the best that was found.",
     ["inputs", "histories"], "all genomes, all words of the random generator",
     "Tests run the problem to its end once per algorithm.",
     [LI], [("OneMaxEvolutionModel", LI), ("OneMax::new_random", LI)],
     bounds="evaluation up to 12 bits, random individuals up to 20 (each genome up to 5), crossover up to 9, mutation up to 8; runs of one generation of 2 individuals of 2 bits (3 thorough); the crate's SmallRng as arbitrary words. Larger: evaluation of 64 to 1000 bits of which some are symbolic, random individuals of 100, crossover of 33 and 100, mutation of 40.",
     outside="other longer genomes and runs; empty genomes.")

prop("C36", "A used instance runs like a new one",
     "A run on an instance that has been used before, with other parameters and populations, does what it would on a new one: generations and stagnation start from 0, the individuals are those of the new run, and the population size, elites, rates, adjustment interval, reference diversity and selection strategy are those given for it.",
     ["histories", "configurations"], "pairs of runs with different parameters and populations",
     "Tests run each instance once.",
     [EV, GA, AG], [("GeneticAlgorithm::configure", GA), ("AdaptiveGeneticAlgorithm::configure and prepare_for_next_population", AG), ("Evolution::evolve_population", EV)],
     bounds="eight pairs of four configurations for each algorithm, first runs of 1 to 3 generations and second ones of 2 to 4, fitness of three values; the selections of every strategy compared word for word to those of a new instance, for 2 or 3 individuals of given fitness. Larger: three runs in a row, rates of 0 and 1.",
     outside="models with a state of their own; runs that panicked; runs started from within a closure.")

prop("C37", "Crossover refuses parents of different lengths",
     "Crossing genomes of different lengths panics, by strategy and by operator, rather than returning a genome of a wrong length. Two empty genomes have an empty offspring, and two genomes of the same single gene that gene.",
     ["inputs"], "all strategies, genomes of different lengths, all words of the random generator",
     "No test has parents of different lengths, or empty ones.",
     [CX], [("CrossoverStrategy::crossover", CX), ("the crossover operators", CX)],
     bounds="seven pairs of lengths up to 5, arbitrary genes. Larger: 40 and 33, 40 and 41, 65 and 64, 16 and 17 genes.",
     outside="other lengths.")

prop("C38", "Selection parameters are checked, kept and passed on",
     "The parameters of a selection mechanism are those it was given or that were set last, and values outside of the documented limits panic. Boltzmann selection multiplies its temperature by the cooling rate once for each population it is prepared for and not when selecting, and the mechanism a strategy creates has the strategy's parameters.",
     ["configurations", "histories"], "all parameter values",
     "Tests construct each mechanism with one set of valid parameters.",
     [SE], [("TournamentSelection::new", SE), ("ElitistSelection::new", SE), ("BoltzmannSelection::new and prepare", SE), ("LinearSelection::new", SE), ("SelectionStrategy::create_selector", SE)],
     bounds="any parameter value of 64 bits; three preparations of Boltzmann selection with three sets of parameters.",
     outside="")

prop("C39", "The thread pool does not change what a generation consists of",
     "However the thread pool divides and orders the work, each initial individual is made and evaluated exactly once, and each bred individual is made and put into the next generation exactly once. The order in which equally fit individuals are sorted, and the order in which fitness is summed up, decide neither which individuals a population has, nor that its fittest one is one of the best, nor, beyond rounding, whom a selection picks.",
     ["schedules", "inputs"], "all divisions of the work into jobs, all interleavings of the jobs, all associations of sums, all orders of equal elements",
     "Tests run with whatever the thread pool does, which mostly is the same every time for small populations.",
     [AL, MO, PO, SE], [("EvolutionAlgorithm::initialize_population", AL), ("EvolutionAlgorithm::generate_new_population", AL), ("EvolutionModel::extend_population", MO), ("EvolutionModel::extend_population_with", MO), ("Population::new and replace", PO), ("RouletteWheelSelection::prepare", SE)],
     bounds="up to 4 individuals made, evaluated or bred (5 thorough), all divisions into contiguous jobs and all interleavings of whole closure calls; populations of up to 4 with ties; sums of up to 4 (5) fitness values of six lists; runs of one generation of 2 (3).",
     outside="interleavings within a closure call, which the compiler's checks of data races leave without effect as the crate has no unsafe code, locks or atomics; the inside of rayon.",
     assumptions=["rayon runs each item's closure once, in contiguous jobs, as documented"])

prop("C40", "Statistics are displayed as documented",
     "Formatting statistics, of samples or of a population, shows the number of samples and, each at the precision asked for or in full if none is, minimum, maximum, average, variance and deviation, in this order and under these names; statistics of no samples have an empty text.",
     ["inputs"], "all values of the statistics, all precisions",
     "Tests format three examples.",
     [ST], [("Display for Stats and PopulatedStats", ST)],
     bounds="up to 2 samples of any value but NaN, 3 and up to 300 samples of which one has one of four values or any; every precision of 16 bits, or none; written directly, to a string or with the precision as an argument.",
     outside="how the digits of one number are made (core's Grisu and Dragon): a number written stands for its bits and its formatting options; widths, signs and fills; Debug.",
     assumptions=["core writes equal numbers with equal options equally"])

prop("C41", "Random generators are seeded independently for each thread",
     "The generators that a run creates deliver statistically independent sequences, so that parallel breeding does not repeat itself.",
     ["histories"], "all runs",
     "Two seeds can always coincide in a test, or not.",
     [LI, EV], [("OneMaxEvolutionModel::rng", LI), ("the generator pool", EV)],
     na="A statistical property of the operating system's entropy and of rand's generators, not of values a solver could range over: any two sequences of words are possible, and the checks quantify over all of them.")
