#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=None)))

p("C01", "A CIM is accepted exactly when it is a valid intensity matrix",
  "For every node and every candidate CIM, checked insertion succeeds if and only if the CIM consists of square matrices over the node's states whose entries are all finite, whose diagonals are strictly negative, whose off-diagonal rates are non-negative and whose rows sum to zero up to rounding relative to the size of the rates. On success the node stores exactly the given CIM; on failure an error is returned and the node is left without a CIM. Validating a node later gives the same verdict as inserting its stored CIM would, and a node without a CIM never validates.",
  ["inputs", "histories"], "all domain sizes 2..4, numbers of parent configurations 1..3, all matrices over a small alphabet of rates (including NaN, infinities, signed zeros, huge and tiny values, every position of a single defect), and all short sequences of insertions",
  "The tests insert six hand-written 3x3 matrices; they never try a negative off-diagonal rate, a non-finite entry, a defect in a later configuration, or a rejected insertion after an accepted one.",
  ["src/params.rs"], [("validate_params / set_cim", "src/params.rs")], ["return value of the checked setter and of validation", "stored CIM"],
  [("cim", "conditional intensity matrices of a node, absent until set", "src/params.rs")])

p("C02", "Network structure stays consistent under every sequence of edits",
  "After any sequence of adding nodes, adding edges, setting parameters and re-initialising the structure, parent sets, children sets and the adjacency matrix describe the same graph, which holds exactly the edges added since the structure was last cleared (adding a node or re-initialising clears it); every node keeps its index, label and states. A node never keeps parameters of a previous parent set: adding an edge into a node, or clearing the edges of a node that had parents, drops its CIM and statistics, while the parameters of all other nodes are untouched, and a newly added node starts without parameters. A Markov process holds a single node, refuses a second one without losing the first, and has no edges.",
  ["histories"], "all operation sequences up to a depth over networks of up to 4 nodes, breadth first over the reachable states, every observable compared with a reference graph after each operation",
  "The tests build one fixed two- or three-node network each, in the order nodes, edges, parameters; no test adds a node or re-initialises after edges or parameters exist.",
  ["src/process/ctbn.rs", "src/process/ctmp.rs"], [("add_node / add_edge / initialize_adj_matrix", "src/process/ctbn.rs"), ("CtmpProcess::add_node", "src/process/ctmp.rs")],
  ["parent sets", "children sets", "adjacency matrix", "node parameters"],
  [("adj_matrix", "edges, absent until first used", "src/process/ctbn.rs"), ("nodes", "parameters by index", "src/process/ctbn.rs")])

p("C03", "Parent configurations map one-to-one onto CIM indices",
  "For every network and node, the index used to access the node's parameters is a bijection between the joint states of its parents and 0..(product of their numbers of states), with the parent of smallest index varying fastest, and does not depend on the state of any other variable. The index computed from the network's own structure and the one computed from an explicit parent set agree, the empty parent set gives index 0, and decoding a joint-state number into variable states is the exact inverse of this numbering.",
  ["inputs", "configurations"], "all graphs (self-loops excluded) on up to 4 nodes, all mixed cardinalities 2..4 (up to 5 nodes for explicit parent sets), all joint states",
  "The tests check three hand-picked states of two networks with binary nodes, where swapped strides cannot be told apart.",
  ["src/process/ctbn.rs"], [("get_param_index_network / get_param_index_from_custom_parent_set / idx_to_state", "src/process/ctbn.rs")], ["returned indices", "decoded states"])

p("C04", "Amalgamation yields the exact joint generator of the network",
  "For every network with valid parameters, amalgamation returns a one-node Markov process over the product of the variables' states (first variable fastest) whose generator has, for two joint states that differ in exactly one variable, that variable's rate under the current configuration of its parents, zero for joint states that differ in more variables, and on the diagonal the sum of the variables' diagonal entries. The result always passes validation and the network itself is not changed.",
  ["inputs", "configurations"], "all graphs (including cycles) on up to 3 nodes with mixed cardinalities and pairwise distinct rates, selected graphs on 4 nodes, rates of many magnitudes up to 1e12, zero rates",
  "Three tests amalgamate three fixed binary networks; no ternary node, no cycle, no zero rate, no large rate.",
  ["src/process/ctbn.rs"], [("amalgamation", "src/process/ctbn.rs")], ["generator of the returned process", "absence of a panic"])

p("C05", "The next state is drawn with probability proportional to its rate",
  "For every valid CIM, parent configuration, current state and outcome of the random generator, the drawn next state is a state of the node different from the current one and reachable with a positive rate. Over the outcomes of the generator each state is drawn with probability equal to its rate divided by the exit rate of the current state, whatever the positions of zero rates in the row. Drawing from a node without a CIM returns an error.",
  ["inputs"], "all rows over a small alphabet of rates including zeros for domains of 2..5 states, several configurations, and every outcome of the generator on a uniform grid of 64-bit draws plus the extreme draws 0, 1, 2^64-1 and their neighbours",
  "One test draws from one dense row with one seed; zero rates, other rows, other configurations and extreme draws are not sampled.",
  ["src/params.rs"], [("get_random_state", "src/params.rs")], ["drawn state per generator outcome"])

p("C06", "Residence times are exponential and initial states uniform",
  "For every valid CIM, configuration, state and outcome of the random generator, the drawn residence time is finite and non-negative, and over the outcomes of the generator it follows the exponential distribution whose rate is the exit rate of that state under that configuration. The uniform state draw gives every state of the domain with equal probability and nothing else. Drawing a residence time from a node without a CIM returns an error.",
  ["inputs"], "domains of 2..5 states, several configurations with distinct exit rates over many magnitudes, every outcome of the generator on a uniform grid of 64-bit draws plus the extreme draws",
  "One test estimates one mean to 1% from 10000 draws of one seed; a distribution with the same mean, other configurations and the extreme draws pass unnoticed.",
  ["src/params.rs"], [("get_random_residence_time / get_random_state_uniform", "src/params.rs")], ["drawn values per generator outcome"])

p("C07", "Forward sampling follows the law of the joint Markov process",
  "For every network with valid parameters, the sampler emits the initial state at time 0 and then, at non-decreasing times, states that differ from the previous one in exactly one variable moved along a positive rate of its current parent configuration. Over the outcomes of the random generator, the joint law of the first jumps (which variable, to which state, when) is that of the amalgamated Markov process, so a variable reacts at once to a change of its parents and is unaffected by changes of others. A reset starts over at time 0, from the requested initial state if there is one and from a uniformly drawn joint state otherwise, with nothing left over from the previous run.",
  ["inputs", "configurations", "histories"], "small networks (independent, chain, fork, collider, cycle, ternary), all initial states, the complete tree of generator outcomes on a grid for the first jumps, resets after every number of steps",
  "The only sampling test checks the number of trajectories and the last time stamp of one seeded run; statistical effects of a wrong clock reset are invisible to it.",
  ["src/sampling.rs", "src/params.rs"], [("ForwardSampler::next / reset", "src/sampling.rs")], ["emitted samples per generator outcome"],
  [("next_transitions", "pending jump time of each variable", "src/sampling.rs"), ("current_state", "joint state", "src/sampling.rs"), ("current_time", "clock", "src/sampling.rs")])

p("C08", "Generated trajectories are complete, well-formed sampler paths",
  "For every network with valid parameters, positive end time and outcome of the random generator, the generator returns exactly the requested number of trajectories; each starts at time 0, ends exactly at the end time with a repetition of its last state, has non-decreasing times all below the end time before the last, and changes exactly one variable, to a valid different state, at every other row. Each trajectory holds every jump of the corresponding sampler path before the end time, and a fresh sampler reset separates consecutive trajectories.",
  ["inputs", "configurations"], "small networks, numbers of trajectories 0..3, several end times, complete trees of generator outcomes up to a number of draws, and many seeds with the real generator",
  "One test looks at the number of trajectories and one final time of one seeded run.",
  ["src/tools.rs", "src/sampling.rs"], [("trajectory_generator", "src/tools.rs")], ["times and events of the returned dataset"])

p("C09", "A seed fixes every random result, whatever else is running",
  "With a given seed and equal arguments, the sampler, the trajectory generator, the graph generator, the parameter generator and the Monte Carlo reward evaluation produce identical results every time. The results do not depend on what other instances were created, used or reset before or in between, nor on the thread they run on. Different seeds lead to different results.",
  ["histories", "schedules"], "all interleavings of the steps of two instances, all short sequences of operations before the observed one, all pairs of component kinds, for several seeds",
  "Tests fix a seed and compare with a tolerance; no test runs anything twice or interleaves two instances.",
  ["src/sampling.rs", "src/tools.rs", "src/reward/reward_evaluation.rs"], [("per-instance ChaCha8Rng", "src/sampling.rs"), ("per-instance ChaCha8Rng", "src/tools.rs")], ["results of both instances"])

p("C10", "Random graphs draw every possible edge independently with the given density",
  "For every number of nodes, density in [0,1] and outcome of the random generator, the generated graph has no self-loop, and over the outcomes every ordered pair of distinct nodes is an edge with probability equal to the density, independently of all other pairs. Generating onto a network replaces its previous edges entirely, and successive generations from one generator are independent.",
  ["inputs", "configurations"], "1..4 nodes, densities on a grid including 0 and 1, the complete tree of generator outcomes on a grid (probability of every graph compared with the exact one), networks with and without previous edges",
  "One test compares the number of edges of one seeded 101-node graph with its mean.",
  ["src/tools.rs"], [("UniformGraphGenerator::generate_graph", "src/tools.rs")], ["edges of the network per generator outcome"])

p("C11", "Random parameters are always valid and within the requested interval",
  "For every network, interval of non-negative rates and outcome of the random generator, parameter generation gives every node a CIM with one matrix per configuration of its parents that passes validation, with strictly positive off-diagonal rates and exit rates inside the interval, and leaves the structure unchanged. Over the outcomes, exit rates are uniform over the interval, rows are exchangeable, and no two entries or configurations share a draw.",
  ["inputs", "configurations"], "networks with up to 3 parents per node and mixed cardinalities, single-node Markov processes, intervals over many magnitudes, complete trees of generator outcomes on a grid for small nodes, single and double extreme draws at every position",
  "Two tests validate one seeded network each; intervals, shapes for mixed parents, exit-rate bounds and extreme draws are not checked.",
  ["src/tools.rs", "src/params.rs"], [("UniformParametersGenerator::generate_parameters", "src/tools.rs")], ["CIMs per generator outcome"])

p("C12", "Sufficient statistics count every transition and all time exactly once",
  "For every dataset, node and parent set, the transition counts and residence times indexed by parent configuration equal the number of times the node changed between the two states while its parents were in that configuration (before the change), and the total time it spent in that state under that configuration. Hence residence times add up to the total observed time, counts to the number of changes of the node, and the statistics of several trajectories are the sums of those of each, in any order, with no transition counted between trajectories.",
  ["inputs", "configurations"], "all trajectories up to a length over small mixed-cardinality networks (simultaneous changes included), all nodes and all parent sets, pairs of trajectories, plus long trajectories with many parents",
  "Tests see the statistics only through CIMs learned from one seeded dataset, within a tolerance of 10%.",
  ["src/parameter_learning.rs"], [("sufficient_statistics", "src/parameter_learning.rs")], ["returned counts and times"])

p("C13", "Learned parameters are the closed-form estimate of the statistics",
  "For every dataset, node and parent set, maximum likelihood returns rates count/time wherever the state was occupied, and the Bayesian estimate returns (count + a)/(time + t) with both hyperparameters divided evenly among the parent configurations; the diagonal is minus the sum of the other entries of the row, so Bayesian estimates always pass validation. The returned node carries the statistics it was computed from and keeps its label and states; without an explicit parent set the parents in the network are used; the network and the dataset are not changed.",
  ["inputs", "configurations"], "all trajectories up to a length over small mixed-cardinality networks, all nodes and parent sets, several hyperparameters including zero counts, explicit and implicit parent sets",
  "Tests compare with the generating CIM within a tolerance of 0.1-0.2 on well-populated data: scaling of the hyperparameters, rare configurations and the attached statistics are invisible.",
  ["src/parameter_learning.rs"], [("MLE::fit / BayesianApproach::fit", "src/parameter_learning.rs")], ["CIM and statistics of the returned node"])

p("C14", "Scores are the closed-form function of the data they claim to be",
  "For every dataset, node, parent set and positive hyperparameters, the log-likelihood score equals the closed-form Bayesian marginal likelihood of the node's statistics (Gamma prior on exit rates, and a ratio of Gamma functions for the transitions that uses the pseudo-count both for each transition and for their total; both hyperparameters divided evenly among the parent configurations), and the BIC score equals it minus half the logarithm of the number of observed intervals times the number of free rates. Scores are deterministic and do not depend on the order of trajectories, on data of other variables, or on the edges present in the network.",
  ["inputs", "configurations"], "all trajectories up to a length over small mixed-cardinality networks, all nodes and parent sets, several hyperparameters, all orders of up to three trajectories",
  "Two tests evaluate each score on one three-row trajectory of one binary node without parents.",
  ["src/structure_learning/score_function.rs"], [("LogLikelihood::compute_score / BIC::call", "src/structure_learning/score_function.rs")], ["returned score"])

p("C15", "Independence tests decide as their statistics say on every count table",
  "For every pair of transition-count tables (and rates), the chi-squared and F comparisons answer 'independent' exactly when the published statistic of every state lies within the acceptance region at the given significance level, states and transitions without observations carrying no evidence against independence; they never fail on sparse data and a table is always independent of itself. Testing a child against a candidate parent given a separating set compares every configuration with the parent against the matching configuration without it, whatever the order of the indices, and answers 'independent' only if all of them agree.",
  ["inputs", "configurations"], "all count tables over small alphabets for 2 and 3 states (all pairs), several significance levels, all (child, parent, separating set) triples on 4 nodes with mixed cardinalities and a single differing configuration at every position",
  "Three fixed table comparisons and four calls on one seeded dataset; no sparse table, no separating set larger than one, no parent with an index below or between the separating set's in a mixed-cardinality network.",
  ["src/structure_learning/hypothesis_test.rs"], [("compare_matrices / call", "src/structure_learning/hypothesis_test.rs")], ["boolean answer", "absence of a panic"])

p("C16", "CTPC keeps exactly the parents no separating set removes",
  "For every network and every pattern of test outcomes the data can induce, the learned parent set of each variable is the one computed by the level-wise PC procedure: starting from all other variables, at each size of separating set a candidate is removed if and only if some separating set of that size, drawn from the other candidates present at the start of that level, makes both tests answer 'independent'. The result does not depend on the order of the variables, of the candidates or on edges already present, never contains a self-loop, and all nodes keep label and states.",
  ["inputs", "programs", "configurations"], "all patterns of estimated rates over a value alphabet for 3 nodes and a large exhaustive family for 4 nodes, fed through the parameter-learning interface, all permutations of the variables, and datasets enumerated exhaustively for small lengths",
  "Tests run CTPC on four well-separated seeded datasets; removal at level 2, several candidates removed at one level, and non-transitive outcomes never occur.",
  ["src/structure_learning/constraint_based_algorithm.rs"], [("CTPC::fit_transform", "src/structure_learning/constraint_based_algorithm.rs")], ["parent sets of the returned network"])

p("C17", "Hill climbing ends in an admissible local optimum for every score",
  "For every finite-valued score function without ties and every limit on the number of parents, hill climbing terminates and the parent set of each variable contains neither the variable itself nor more parents than the limit, scores at least as well as the empty set, and cannot be improved by adding one parent (within the limit) or removing one. Each variable is optimised on its own score only, regardless of edges present before learning; with ties the search still terminates, within the limit, at a score no worse than the empty set's.",
  ["inputs", "programs"], "all strict orders (and all weak orders for 2 candidates) of the scores of all candidate parent sets of a variable for up to 3 candidates, all limits 0..4 and none, fed through the score interface; structured families for 4 candidates",
  "Tests run hill climbing on four well-separated seeded datasets where greedily adding parents is always right; removals and limits above one are never exercised.",
  ["src/structure_learning/score_based_algorithm.rs"], [("HillClimbing::fit_transform", "src/structure_learning/score_based_algorithm.rs")], ["parent sets of the returned network"])

p("C18", "Parallel learning gives the sequential result under every schedule",
  "For every network and dataset, structure learning by either algorithm returns the same network whatever the number of worker threads, the way the work is divided among them and the interleaving of their steps: each variable is learned once, from its own data, and receives its own result. Learning always terminates, without deadlock.",
  ["schedules"], "all divisions of the work and all interleavings of the calls to scores and parameter estimates of 3-4 variables up to a number of preemptions, for several thread counts, under a controlled scheduler",
  "Tests run each learner once per dataset under whatever schedule the machine produces.",
  ["src/structure_learning/constraint_based_algorithm.rs", "src/structure_learning/score_based_algorithm.rs"], [("rayon parallel iteration over nodes", "src/structure_learning/score_based_algorithm.rs"), ("rayon parallel iteration over nodes", "src/structure_learning/constraint_based_algorithm.rs")], ["returned network", "sequence of calls to the score or estimator per variable"])

p("C19", "Caching of estimates is invisible except for time",
  "For every sequence of requests to one cache over a network and dataset, each answer is identical to the one the underlying parameter learner gives for that variable and parent set directly, whatever was requested before and in whatever order of sizes. A request repeated immediately is not recomputed.",
  ["histories"], "all request sequences up to a length over variables and parent sets of sizes 0..3, breadth first, against the uncached learner",
  "The cache is used by the tests only through a few test calls in increasing order of size for one variable each.",
  ["src/structure_learning/constraint_based_algorithm.rs"], [("Cache::fit", "src/structure_learning/constraint_based_algorithm.rs")], ["returned parameters", "calls reaching the learner"],
  [("cache_persistent_small / cache_persistent_big", "two generations of cached estimates", "src/structure_learning/constraint_based_algorithm.rs")])

p("C20", "Factored rewards are the sum over variables plus the transition made",
  "For every network, reward tables, current state and previous state differing in at most one variable, the instantaneous reward is the sum over all variables of the reward of their current state, and the transition reward is that of the variable that changed for its move from the previous to the current state, or zero if nothing changed or there is no previous state. A reward function initialised from a network has all-zero tables shaped by each variable's number of states, and changing the tables of one variable affects no other.",
  ["inputs", "configurations"], "all mixed-cardinality networks of up to 4 variables (2..4 states), tables with pairwise distinct entries, all states and all single-variable moves",
  "Three tests check hand-written tables of one binary, one ternary and one two-node network.",
  ["src/reward/reward_function.rs"], [("FactoredRewardFunction", "src/reward/reward_function.rs")], ["returned reward"])

p("C21", "Monte Carlo evaluation averages the exact reward of the sampled paths",
  "For every network, reward function, criterion and outcome of the random generator, the value of a state is the mean, over the sampled trajectories started in it, of the reward accumulated until the end time: instantaneous rewards of the state occupied integrated over each sojourn (cut at the end time) plus the rewards of the transitions made, with exponential discounting when a discount factor is given and none otherwise. The number of trajectories averaged is the smallest one, above three, for which the early-stopping confidence test succeeds, and never more than the maximum.",
  ["inputs", "configurations"], "small networks with distinct rewards per state and transition, both criteria, several end times and discount factors, complete trees of generator outcomes up to a number of draws, many seeds and iteration limits around the stopping point",
  "Tests use rewards equal in all states, or only transition rewards, so paying the wrong state or interval goes unnoticed, and compare within 1e-1.",
  ["src/reward/reward_evaluation.rs"], [("MonteCarloReward::evaluate_state", "src/reward/reward_evaluation.rs")], ["returned value per generator outcome"])

p("C22", "State-space evaluation is complete and agrees with each single state",
  "For every network and seed, evaluating the whole state space returns exactly one value for each joint state of the variables, equal to evaluating that state alone, whatever the number of worker threads and their schedule. The relative evaluation returns for every joint state the largest ratio between its value and that of any joint state differing in at most one variable (itself included), for all positive values.",
  ["inputs", "schedules", "configurations"], "mixed-cardinality networks of up to 3 variables, all divisions of the work and interleavings up to a number of preemptions under a controlled scheduler; all tables of values over a small alphabet for the relative evaluation",
  "Tests look up one or two states of two networks under one schedule, and one relative evaluation where all values are equal.",
  ["src/reward/reward_evaluation.rs"], [("MonteCarloReward::evaluate_state_space", "src/reward/reward_evaluation.rs"), ("NeighborhoodRelativeReward", "src/reward/reward_evaluation.rs")], ["returned table"])

p("C23", "Incompatible inputs are refused, compatible ones are not",
  "Building a trajectory fails exactly when the numbers of times and of events differ, building a dataset exactly when its trajectories have different numbers of variables, creating a graph generator exactly when the density is outside [0,1], creating a parameter generator exactly when the interval reaches below zero, creating a score exactly when the pseudo residence time is negative, and learning a structure exactly when dataset and network have different numbers of variables. Accepted trajectories and datasets hold exactly the data they were given, in order.",
  ["inputs"], "all shapes up to 3x3 for trajectories, all lists of up to 3 trajectories, densities, intervals and pseudo times over alphabets around the limits, all pairs of network and dataset sizes up to 4 for both learners",
  "Six tests try one or two bad values each; the last trajectory of a longer dataset, the limits themselves, CTPC, and acceptance of good inputs are not tried.",
  ["src/tools.rs", "src/structure_learning/score_based_algorithm.rs", "src/structure_learning/constraint_based_algorithm.rs", "src/structure_learning/score_function.rs"], [("Trajectory::new / Dataset::new / generators' new", "src/tools.rs"), ("fit_transform", "src/structure_learning/score_based_algorithm.rs")], ["panic or not", "stored data"])

p("C24", "Learning depends only on its arguments, not on what ran before",
  "Structure and parameter learning give the same result for the same network nodes and dataset whatever was learned before with the same or another learner, dataset or network, on the same or other threads, and whatever edges or parameters the network held. The learned network has the same nodes in the same order with the same labels and states; nodes whose parent set changed hold no stale parameters.",
  ["histories"], "all sequences up to a length of learning operations over an alphabet of networks, datasets and learners (including datasets of equal shape), each result compared with that of a fresh start",
  "Every test makes exactly one call on fresh objects.",
  ["src/structure_learning/constraint_based_algorithm.rs", "src/structure_learning/score_based_algorithm.rs", "src/parameter_learning.rs"], [("fit_transform", "src/structure_learning/constraint_based_algorithm.rs"), ("fit_transform", "src/structure_learning/score_based_algorithm.rs")], ["returned networks and parameters"])

p("C25", "A Markov process obtained by amalgamation can be simulated like any network",
  "For every network with valid parameters, forward sampling, trajectory generation and reward evaluation on its amalgamated Markov process succeed for every initial state and follow the same law as on the network itself.",
  ["inputs", "configurations"], "small networks, all initial joint states, the complete tree of generator outcomes on a grid for the first jumps",
  "No test samples from a Markov process.",
  ["src/process/ctmp.rs", "src/sampling.rs"], [("CtmpProcess::get_param_index_network", "src/process/ctmp.rs")], ["emitted samples", "absence of a panic"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
