MC = "bounded exhaustive explicit-state exploration of the real code against a reference model"

prop("C01", "Life-like rule sets run the exact Life-like automaton",
 "For every birth/survival rule over 0-8 live neighbours, a cellular automaton configured from that rule maps every binary toroidal grid to exactly the grid the classical Life-like automaton produces, cell for cell with values exactly 0 and 1, at every step and for every grid in a batch. The shipped Conway and Morley rule files realise B3/S23 and B368/S245 in the same sense.",
 ["inputs", "configurations", "histories"], "all rules (every birth and every survival subset), all binary grids of small tori, unbounded steps by closure of the binary state space",
 "The tests build one such configuration and check only that it loads; they never step it against the automaton, let alone for all rules and grids.",
 ["yuca/configs.py", "yuca/ca/continuous.py", "yuca/activations.py", "yuca/kernels.py", "ca_configs/conway_life.npy", "ca_configs/morley.npy"],
 [("life-like configuration", "yuca/configs.py:get_life_like_config"), ("smooth interval growth", "yuca/activations.py:SmoothIntervals"), ("state update", "yuca/ca/continuous.py:CCA.forward")],
 ["grid returned by one step"], "explicit-state model checking: every state of small tori, one-step conformance with the table automaton",
 "exhaustive over all binary grids of tori up to 4x4 (4x5, 6x3 thorough) and all birth/survival subsets on 3x3; closure under one step gives all step counts")

prop("C02", "One step is exactly the configured Glaberish update",
 "For a continuous automaton configured with an identity kernel, neighbourhood kernel, genesis and persistence functions, time step and boundary mode, one step returns the grid clamped to [0,1] of state + dt * W((1-identity)*genesis(neighbourhood) + identity*persistence(neighbourhood)), with W the equal-weight average over all internal-external channel pairs. Frames requested for display report the same next state and, in the richer modes, the neighbourhood and update grids of that same step.",
 ["inputs", "configurations", "programs"], "every combination of kernel, identity kernel, growth functions, channel counts, boundary mode and dt in the alphabet, on a family of grids, chained steps",
 "Tests only check that outputs have the right shape or differ; no test compares a step with the formula and the combination space is never enumerated.",
 ["yuca/ca/continuous.py", "yuca/ca/common.py", "yuca/kernels.py", "yuca/activations.py"],
 [("update rule", "yuca/ca/continuous.py:CCA.update_universe"), ("step", "yuca/ca/continuous.py:CCA.forward"), ("frames", "yuca/ca/continuous.py:CCA.get_frame")],
 ["grid returned by a step", "grids returned by a frame request"], MC,
 "full product of bounded alphabets; float64 reference with 2e-4 tolerance")

prop("C03", "States stay in [0,1], keep shape, and depend on nothing but the grid",
 "Whatever the configuration and time step, stepping any automaton class from a grid with values in [0,1] yields a finite grid in [0,1] of the same shape and precision, and leaves the caller's grid unmodified. Each grid of a batch evolves exactly as it would alone (except under adaptive stepping, which picks one step for the whole batch), and repeating the step from the same grid with the same automaton state gives the same result.",
 ["inputs", "configurations", "histories"], "all automaton classes x extreme parameter alphabets x dt alphabet x grid family x batch positions, several chained steps",
 "Tests run a few default automata once with random input and never check range, purity or batch independence.",
 ["yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/code.py", "yuca/lenia.py", "yuca/metaca.py", "yuca/random_step_ca.py"],
 [("clamping", "yuca/ca/continuous.py:CCA.forward"), ("gray-scott clamp", "yuca/ca/reaction_diffusion.py:RxnDfn.forward")],
 ["grid returned by a step", "caller's grid after the step"], MC, "all classes, bounded alphabets of extreme parameters")

prop("C04", "Dynamics on the torus commute with translations and symmetries",
 "With circular boundaries and a radially symmetric kernel, stepping a translated grid gives the translated result for every translation, including patterns wrapped across the edges, and likewise for 90-degree rotations, mirror images and transposition. This holds for the continuous, Lenia, adaptive-step, momentum, neural and reaction-diffusion automata, on square and non-square grids.",
 ["inputs", "configurations"], "all translations of the grid and all eight symmetries x classes x kernels x grids",
 "No test shifts or rotates a grid; boundary handling is only exercised by shape.",
 ["yuca/ca/common.py", "yuca/kernels.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py"],
 [("circular convolution", "yuca/ca/common.py:CA.initialize_neighborhood_layer"), ("radial kernels", "yuca/kernels.py:get_kernel")],
 ["grid returned by a step"], "exhaustive enumeration of the symmetry group acting on the real step function", "complete translation group of the test tori and the full dihedral group")

prop("C05", "Lenia steps add only the growth of the neighbourhood",
 "A Lenia automaton's step returns the grid clamped to [0,1] of state + dt * growth(neighbourhood), whatever the configured persistence or identity kernel is. Its parameter vector consists of the growth parameters only, and writing a vector changes the growth and nothing else.",
 ["inputs", "configurations", "histories"], "kernels x growth functions x persistence functions x dt x grids; parameter-vector alphabet",
 "Tests run Lenia once and only look at shapes.", ["yuca/lenia.py", "yuca/ca/continuous.py"],
 [("growth update", "yuca/lenia.py:Lenia.update_universe"), ("parameters", "yuca/lenia.py:Lenia.set_params")],
 ["grid returned by a step", "parameter vector"], MC, "bounded alphabets, float64 reference, tolerance 2e-4")

prop("C06", "Reaction-diffusion follows the Gray-Scott equations",
 "One step of the reaction-diffusion automaton is the explicit Euler step, clamped to [0,1], of du/dt = Du*Lap(u) - u*v^2 + f*(1-u) and dv/dt = Dv*Lap(v) + u*v^2 - (f+k)*v with the discrete Laplacian divided by dx^2, for every choice of rates, dt and dx, however they were set. A frame is the same step together with the grids it is documented to show. The initial grid is a uniform equilibrium of the same equations and stays put under stepping.",
 ["inputs", "configurations", "histories"], "rate, diffusion, dt and dx alphabets x ways of setting them x grids; all fractions of setter histories up to depth 3",
 "Tests construct the model and check output shape and that parameters can be set; the equations are never compared.",
 ["yuca/ca/reaction_diffusion.py", "yuca/kernels.py", "yuca/activations.py", "ca_configs/uskate_rxndfn.npy"],
 [("reaction terms", "yuca/ca/reaction_diffusion.py:RxnDfn.update_universe"), ("equilibrium", "yuca/ca/reaction_diffusion.py:RxnDfn.initialize_grid")],
 ["grid returned by a step", "initial grid"], MC, "bounded alphabets, float64 reference")

prop("C07", "Neural automaton applies its network to state and neighbourhood",
 "In evaluation mode a neural automaton's step returns the grid clamped to [0,1] of state + dt * tanh-bounded network output, where the network is applied cell by cell to the state channels followed by the neighbourhood channels, with the configured activation and number of hidden channels. The step depends only on the current grid, the weights, the kernel and dt, and a frame is the same step together with the grids it is documented to show.",
 ["inputs", "configurations"], "activations x hidden sizes x channel counts x kernels x weight vectors x grids",
 "Tests only check shapes and parameter counts.", ["yuca/ca/neural.py", "yuca/ca/common.py"],
 [("network", "yuca/ca/neural.py:NCA.initialize_weight_layer"), ("update", "yuca/ca/neural.py:NCA.update_universe")],
 ["grid returned by a step"], MC, "bounded alphabets, float64 reference network fed with the exported parameter vector")

prop("C08", "Momentum automaton accumulates velocity until it is reset",
 "A momentum (meta) automaton keeps a velocity grid: each step adds a quarter of the configured update to the velocity and moves the clamped state by dt times the velocity. Velocity starts at zero, carries over between steps of equal-shaped grids, restarts at zero after a reset or when the grid shape changes, and never leaks between instances.",
 ["histories", "inputs"], "all operation sequences up to the depth bound over step (two grids of equal shape, one of another shape), reset, and dt changes, on two instances",
 "A single smoke test steps it once.", ["yuca/metaca.py"],
 [("velocity", "yuca/metaca.py:MetaCA.forward"), ("reset", "yuca/metaca.py:MetaCA.reset")],
 ["grid returned by a step"], "explicit-state exploration of all operation sequences", "depth 4 quick, 6 thorough")

prop("C09", "Simulated time is the sum of the steps actually taken",
 "Every step advances the automaton's elapsed time by exactly the time step that was applied to the state, requesting a display frame advances nothing, and a reset returns elapsed time to zero without changing the dynamics. The current time step can be read back as a number at any moment, before and after stepping, for fixed, random and adaptive stepping alike.",
 ["histories"], "all operation sequences up to the depth bound over step, frame, dt change, radius change, reset, read-back, for the fixed-, random- and adaptive-step classes",
 "Tests never look at elapsed time after more than one operation.", ["yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/code.py", "yuca/random_step_ca.py", "yuca/ca/reaction_diffusion.py"],
 [("time count", "yuca/ca/continuous.py:CCA.forward"), ("reset", "yuca/ca/common.py:CA.reset"), ("dt", "yuca/ca/common.py:CA.set_dt")],
 ["elapsed time", "reported dt"], "explicit-state exploration of all operation sequences", "depth 4 quick, 6 thorough")

prop("C10", "Adaptive stepping accepts only steps within the error threshold",
 "An adaptive-step automaton starts from twice its previous step capped at the maximum, shrinks the trial step by a quarter until one full step and two half steps agree within the relative error threshold, and falls back to the minimum step when none does. The grid returned is the plain update with the accepted step, elapsed time grows by that step, and the accepted step is remembered for the next call.",
 ["inputs", "configurations", "histories"], "step limits x thresholds x previous steps x configurations x grids, chained steps",
 "The only test constructs the class and steps it once.", ["yuca/code.py"],
 [("step control", "yuca/code.py:CODE.adaptive_euler")], ["grid returned by a step", "accepted step", "elapsed time"], MC,
 "reference controller replayed on every call; decisions within 2% of the threshold are not judged")

prop("C11", "Random stepping draws every step inside its bounds",
 "A random-step automaton applies on each call a freshly drawn step between its minimum and maximum, the returned grid is the plain configured update with exactly that step, the same step is what elapsed time grows by, and seeding reproduces the sequence. The draw covers the interval: extreme draws reach the bounds.",
 ["inputs", "histories", "configurations"], "every value of the random source in a grid of its range incl. both ends x bounds x configurations x grids",
 "Random draws in tests cannot pin the bound or the coupling between state and time.", ["yuca/random_step_ca.py"],
 [("random step", "yuca/random_step_ca.py:RandomStepCA.get_new_grid")], ["grid returned by a step", "elapsed time", "reported dt"],
 "exhaustive exploration with the random source replaced by an enumerated environment", "random source enumerated over a finite alphabet")

prop("C12", "Cells without life in the alpha channel are zeroed",
 "When a grid has four or more channels, every cell whose fourth channel does not exceed the alive threshold is treated as all-zero in every channel before the update, other cells are untouched, and grids with fewer channels or reaction-diffusion grids are never masked. The threshold is the configured one, compared strictly.",
 ["inputs", "configurations"], "every alive/dead pattern of a small grid x thresholds x channel counts x classes",
 "No test uses a four-channel grid with dead cells.", ["yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/code.py", "yuca/metaca.py", "yuca/random_step_ca.py"],
 [("alive mask", "yuca/ca/common.py:CA.alive_mask")], ["grid returned by a step"], MC, "all 2^6 alpha patterns of a 2x3 grid per configuration")

prop("K01", "Neighbourhood kernels are normalised, radial and sized by their radius",
 "Every averaging kernel of radius r with a non-constant profile is a (2r+1)x(2r+1) non-negative array summing to one whose weights depend only on distance from the centre, proportional to the named radial profile shifted to a zero minimum; the Moore kernel weights all cells but the centre equally and the inner kernel is the centre alone. Laplacian kernels sum to zero with a single sign at the centre, and helper constructors agree with the configuration-based constructor (radius 13, mean 0.5 and width 0.15 where nothing is said).",
 ["configurations", "inputs"], "every kernel name x every radius 1..16 x parameter alphabet",
 "Tests build each kernel at one or two radii and check shape only.", ["yuca/kernels.py", "yuca/activations.py"],
 [("kernel factory", "yuca/kernels.py:get_kernel"), ("mixture kernel", "yuca/kernels.py:get_gaussian_mixture_kernel")], ["kernel array"], MC, "all names, radii 1..12 (1..32 thorough), parameter alphabets")

prop("K02", "Growth functions compute their defining formula and stay in range",
 "Each growth function (Gaussian, Gaussian mixture, double Gaussian, smooth intervals, polynomial, cosine profile, difference of Gaussians, identity, and the Gaussian taking its mean and width per cell from the second and third channel) returns its defining formula elementwise, with the signed mode equal to twice the unsigned value minus one (for the cosine profile: without the offset of one), clipped for the mixtures. Mixtures read their parameters as (amplitude, mean, width) triples when the count is a multiple of three and as (mean, width) pairs of unit amplitude otherwise, whatever the input's shape or container.",
 ["inputs", "configurations"], "every function x both modes x parameter alphabet x input grid over [-0.5,1.5] x shapes and containers",
 "Tests check only the output shape.", ["yuca/activations.py"],
 [("activations", "yuca/activations.py")], ["function values"], MC, "bounded parameter alphabets, dense input grid")

prop("R01", "A saved configuration reproduces the automaton",
 "After any history of configuring an automaton (with one genesis and one persistence function), writing parameter vectors, and changing kernel radius or dt, the configuration it exports - directly or through a file - loaded into a new automaton of the same class gives the same dynamics, parameters, radius and dt; the momentary state of an adaptive integrator is not part of a configuration. Exporting does not change the exporting automaton, and exporting again from the copy yields an equivalent configuration.",
 ["histories", "configurations"], "all operation sequences up to the depth bound over configure, write parameters, change radius, change dt, step, export, for continuous, Lenia, adaptive, neural and reaction-diffusion automata and every growth/kernel kind",
 "Tests save one configuration and check that loading does not raise.", ["yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/ca/common.py"],
 [("export", "yuca/ca/continuous.py:CCA.make_config"), ("import", "yuca/ca/continuous.py:CCA.load_config"), ("neural export", "yuca/ca/neural.py:NCA.make_config"), ("reaction-diffusion export", "yuca/ca/reaction_diffusion.py:RxnDfn.make_config")],
 ["grid returned by steps of original and copy", "parameter vectors"], "explicit-state exploration of configuration histories with a differential oracle", "histories to depth 3 quick, 4 thorough")

prop("R02", "Parameter vectors round-trip and take full effect",
 "Writing a parameter vector to an automaton and reading it back returns the same vector, and writing back the vector just read changes nothing in the dynamics, for every configuration. Two automata of the same configuration given the same vector behave identically whatever they held before, and every entry of the vector reaches the growth function, kernel or network weight it denotes.",
 ["histories", "configurations", "inputs"], "classes x configurations x vector alphabet; all write/read/step sequences up to the depth bound; every vector position perturbed in turn",
 "Tests check vector length and one write.", ["yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/lenia.py"],
 [("codec", "yuca/ca/continuous.py:CCA.set_params"), ("codec", "yuca/ca/continuous.py:CCA.get_params"), ("codec", "yuca/ca/neural.py:NCA.set_params")],
 ["parameter vector", "grid returned by a step"], "explicit-state exploration of write/read histories", "all positions, depth-3 histories")

prop("R03", "Reconfiguring an automaton equals building it afresh",
 "Loading a configuration replaces whatever configuration, parameters, kernel radius or dt the automaton had: its dynamics are then those of a new automaton given the same configuration. Changing the kernel radius, the kernel or dt afterwards changes exactly that and nothing else, in any order, so that the result depends only on the latest value of each setting.",
 ["histories"], "all sequences up to the depth bound over load (several configurations incl. smoothlife, life-like, orbium, geminium), radius, kernel, dt, parameters, step, for the continuous family, neural and reaction-diffusion automata",
 "Tests load one configuration into a new automaton.", ["yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py"],
 [("load", "yuca/ca/continuous.py:CCA.load_config"), ("radius", "yuca/ca/common.py:CA.set_kernel_radius"), ("kernel", "yuca/ca/common.py:CA.set_kernel_config"), ("dt", "yuca/ca/common.py:CA.set_dt")],
 ["grid returned by steps"], "explicit-state exploration of reconfiguration histories against a reference model", "depth 3 quick, 4 thorough")

prop("R04", "Automata share no state with each other or with the data they export",
 "Two automata never influence one another: no step, parameter write, radius or dt change, or export on one changes the dynamics of another, even when both were configured from the same configuration object, and a configuration exported earlier is not altered by later changes. Modifying an exported configuration or parameter vector afterwards does not alter the automaton it came from.",
 ["histories", "programs"], "all interleavings of mutating operations on two automata up to the depth bound, and all mutations of exported data",
 "Tests use one automaton at a time.", ["yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py"],
 [("export copy", "yuca/ca/continuous.py:CCA.make_config"), ("load", "yuca/ca/continuous.py:CCA.load_config")],
 ["grid returned by steps of either automaton"], "exhaustive interleaving of operations on two instances", "all interleavings to depth 3 quick, 4 thorough")

prop("R05", "Ready-made configurations hold the documented rules",
 "The ready-made configuration builders return, on every call and for every radius and rule argument, fresh configurations with the documented kernels and growth parameters: life-like rules as intervals of width 1/8 centred on count/8, smoothlife with its identity and ring kernels and given intervals, orbium with mean 0.15 and width 0.015, geminium with three rings and mean 0.26 and width 0.036. Altering one returned configuration never affects a later call.",
 ["inputs", "histories"], "all birth/survival subsets; radii 1..31; sequences of calls with mutation of earlier results",
 "Tests call each builder once.", ["yuca/configs.py"],
 [("builders", "yuca/configs.py")], ["returned configuration"], "exhaustive enumeration of builder arguments and call/mutate sequences", "all 512 subsets, all radii")

prop("E01", "Selection keeps the fittest candidates, unaltered",
 "Truncation selection, and the ranking of the final generation, pick exactly the best population/8+1 candidates in order of fitness, tournament selection picks the champion of each random bracket, and proportional selection picks distinct candidates with odds falling as the inverse square of their fitness rank. Recorded elites carry the parameters that were actually evaluated, and the first half of them (the best, under truncation) is carried into the next generation unchanged.",
 ["inputs", "configurations", "histories"], "every fitness ordering (all permutations and tie patterns) of small populations, larger populations over all placements of the elites, x selection modes",
 "One smoke test runs a random search; no ordering is checked.", ["yuca/cmaes.py", "yuca/params_agent.py", "yuca/cppn.py"],
 [("selection", "yuca/cmaes.py:CMAES.update_population"), ("ranking", "yuca/cmaes.py:CMAES.rank_population")],
 ["elite parameters", "next population's parameters"], "exhaustive enumeration of fitness orderings on the real selection code", "all permutations for populations up to 7 and all elite placements for 24..26")

prop("E02", "The search distribution is re-estimated from the elites",
 "After each generation the search mean is the average of the elite parameter vectors and the covariance is the elite average of outer products of deviations from the previous mean, in every selection mode and for the final ranking. The rest of the next population is sampled from that new distribution, the population size never changes, and a reset restores the starting distribution.",
 ["inputs", "histories", "configurations"], "parameter alphabets x fitness orderings x selection modes x chained generations up to the depth bound, with the sampler recorded",
 "No test looks at the distribution.", ["yuca/cmaes.py"],
 [("update", "yuca/cmaes.py:CMAES.update_population"), ("reset", "yuca/cmaes.py:CMAES.reset")],
 ["mean and covariance", "sampler calls", "population parameters"], "explicit-state exploration of generation histories with the sampler as an enumerated environment", "populations 4..16, 3 generations")

prop("E03", "Parallel evaluation equals serial evaluation",
 "For every number of workers and population size, each generation of distributed search evaluates each candidate exactly once, attributes each fitness to the candidate it belongs to, and yields the same elites and distribution as serial evaluation given the same fitness and sampling draws, under every order in which workers run and reply. The search never deadlocks and ends with every worker shut down. A candidate's fitness does not depend on which candidates were evaluated before it (adaptive-step automata, which remember their last step, excepted).",
 ["schedules", "configurations"], "all worker counts 0..6 x population sizes 1..12; all interleavings of coordinator and workers at message operations for the small ones",
 "The test runs only the serial path; no schedule or partition is explored.", ["yuca/cmaes.py"],
 [("partition", "yuca/cmaes.py:CMAES.mantle"), ("worker", "yuca/cmaes.py:CMAES.arm")],
 ["evaluation calls", "elites, fitness log", "messages"], "stateless model checking: all schedules of coordinator and workers under a controlled scheduler", "all interleavings for up to 4 processes; all partitions otherwise")

prop("E04", "A seeded search is reproducible and logs what happened",
 "A candidate's fitness is the mean reward of its replicates' episodes, each played by that candidate from a reset environment for the configured number of steps, with random draws set by the generation's seed alone and neural rules in evaluation mode. Two searches with the same settings and seed produce the same elites, fitness statistics and distribution at every generation. When several seeds are given, each draws a starting population of its own. The log, rewritten after every generation so that an interrupted search keeps it, holds one entry per generation run so far with the true mean, maximum, minimum and standard deviation of that generation's fitness, its elites and their configurations, and the final saved rule is the best candidate of the last generation. The last animations of a pattern or joint search show its final elites, in order. All requested generations run unless the fitness spread has collapsed (below 0.02) after the seventh.",
 ["histories", "configurations"], "settings alphabet x seeds x generation counts; scripted fitness functions over all small orderings",
 "One test runs a search and checks nothing about its log.", ["yuca/cmaes.py", "yuca/utils.py"],
 [("log", "yuca/cmaes.py:CMAES.mantle"), ("seeding", "yuca/utils.py:seed_all"), ("save best", "yuca/cmaes.py:CMAES.rank_population")],
 ["progress log file", "saved configuration file"], "bounded exhaustive exploration of scripted search runs", "generations 1..3, small populations")

prop("W01", "Halting rewards reflect which grids survived",
 "The simple halting environment writes the candidate's parameters into the rule, starts from fresh random grids confined to the central half, runs the rule for the configured number of steps, stopping early only when every grid is empty, reports the fraction of grids still active, and rewards the closeness of that fraction to one half. The predictor-based environment reports as active the fraction of final grids meeting its mode's criterion (alive, still changing, or both) and rewards the negative of the prediction accuracy against the same targets. Every episode starts from a reset automaton.",
 ["inputs", "configurations", "histories"], "all alive/dead outcome patterns of a batch (scripted automata) x step counts x prediction modes",
 "Tests call step once and only check types.", ["yuca/wrappers/halting_wrapper.py"],
 [("simple reward", "yuca/wrappers/halting_wrapper.py:SimpleHaltingWrapper.step"), ("predictor reward", "yuca/wrappers/halting_wrapper.py:HaltingWrapper.step")],
 ["reward and info returned by a step", "number of automaton steps taken"], "exhaustive enumeration of outcome patterns with a scripted automaton as environment", "all 2^4 outcome patterns x vanish times")

prop("W02", "Glider reward is displacement minus growth, with wraparound",
 "The mobile-pattern environment rewards a pattern by the accumulated displacement of its centre of mass along the grid's last axis (to the right), counted from the second step on (that of the first pattern, when several play at once), in kernel radii and corrected when the pattern wraps around the edge in either direction, minus the accumulated relative change of its mass on every step. It runs at most the configured number of steps, stops when the pattern vanishes or stops changing, resets the automaton at the start, and does not modify the caller's pattern.",
 ["inputs", "histories", "configurations"], "all scripted motion sequences up to the depth bound over move by -2..3 columns, stay, grow, shrink, vanish, from every starting column",
 "Tests call step once with a random pattern.", ["yuca/wrappers/glider_wrapper.py"],
 [("reward", "yuca/wrappers/glider_wrapper.py:GliderWrapper.meta_step")], ["reward and info returned by a step"],
 "exhaustive enumeration of motion sequences against a reference reward", "all sequences to depth 4 quick, 6 thorough")

prop("W03", "Search environments play with the rule they are given",
 "Every search environment (both halting ones, the random one and the mobile-pattern one), for every automaton class, channel count and rule file: it starts from the rule in the file (parameters, time step and spacing), its action space has the shape of what it takes (the parameter vector, or the pattern) and draws values in [0,1] that differ from draw to draw, parameters written through it are the ones its automaton then has and are read back, an episode plays with the vector it is given and leaves it (or the pattern) unchanged, and resetting, mode changes, reading and sampling change nothing.",
 ["inputs", "histories", "configurations"], "environments x automaton classes x channels x rule files (none, each shipped kind, one of the user's own), all operation sequences up to the depth bound",
 "Tests run each environment once with its defaults.", ["yuca/wrappers", "yuca/ca"],
 [("environments", "yuca/wrappers/halting_wrapper.py:SimpleHaltingWrapper.__init__"), ("glider", "yuca/wrappers/glider_wrapper.py:GliderWrapper.__init__"), ("random", "yuca/wrappers/random_wrapper.py:RandomWrapper")],
 ["parameters, time step, spacing and a step of the environment's automaton", "action space"], "explicit-state exploration of operation histories against a parameter-vector model and a twin automaton", "depth 2 quick, 3 thorough (1 and 2 with rule files); 8-cell torus, 72 cells with shipped files")

prop("P01", "Pattern-generator parameters round-trip and fully determine the pattern",
 "Writing a parameter vector to a pattern generator and reading it back returns it, two generators with equal vectors and settings produce the same pattern, and every entry of the vector is used. The combined rule-and-pattern generator splits its vector into pattern part then rule part without loss, and patterns are non-negative, of the configured size and channels, and vanish outside the central disc. The plain rule-parameter agent acts with exactly the vector it holds, or, when filtering is requested, with its magnitudes clipped to [0.0001, 1].",
 ["inputs", "configurations", "histories"], "grid sizes x hidden sizes x channels x vector alphabet; all write/read sequences up to the depth bound on two generators",
 "Tests check shapes only.", ["yuca/cppn.py", "yuca/params_agent.py"],
 [("codec", "yuca/cppn.py:CPPN.set_params"), ("pattern", "yuca/cppn.py:CPPN.get_action"), ("combined", "yuca/cppn.py:CPPNPlus")],
 ["parameter vector", "pattern grid"], "explicit-state exploration of write/read histories", "bounded alphabets")

prop("Z01", "The pattern library never loses or overwrites a stored pattern",
 "Storing a pattern under a name always creates a new numbered entry whose pattern and provenance (rule file, entry point, commit, notes) load back as stored, and never alters any entry stored before, for every history of stores, loads, deletions by the user and several library objects on one directory. A store that fails or is killed at any file operation leaves every earlier entry intact, and the next store still succeeds. The index lists the entries in sorted order. Cropping a pattern gives the cells of the requested rows and columns, for any leading dimensions, in an array of its own.",
 ["histories", "crash_points", "fault_sequences"], "all operation sequences up to the depth bound over store (two names, one a prefix of the other), load, refresh, delete, reopen; every file-operation crash point of a store",
 "One test stores and loads a single pattern.", ["yuca/zoo/librarian.py"],
 [("store", "yuca/zoo/librarian.py:Librarian.store"), ("load", "yuca/zoo/librarian.py:Librarian.load"), ("index", "yuca/zoo/librarian.py:Librarian.update_index")],
 ["files in the library directory", "loaded pattern and metadata", "index"], "explicit-state exploration of store histories plus enumeration of every crash point", "histories to depth 4 quick, 5 thorough; all crash points")

prop("Z02", "Every shipped pattern lives in its shipped rule",
 "Every pattern in the shipped library loads with metadata naming a rule file that is shipped and loads, and stepping the pattern under that rule (neural rules in evaluation mode), anywhere on the torus, follows the rule written in the file and keeps it alive and bounded: it neither vanishes at once nor fills the universe, and stays finite in [0,1]. Every shipped rule file loads into the automaton class it was made for, by name or by path, from any working directory, and steps the rule the file describes, whatever rule the automaton held before. A name (line breaks in it are ignored) means the file of that path if there is one and the shipped rule otherwise, read anew each time; one that means neither leaves the automaton as it was.",
 ["configurations", "histories"], "every shipped pattern x placements x step counts up to the bound; every rule file; every ordered pair of rule files of one class",
 "Tests load one or two of the files.", ["yuca/zoo/librarian.py", "ca_configs", "yuca/zoo", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py"],
 [("load", "yuca/zoo/librarian.py:Librarian.load"), ("restore", "yuca/ca/continuous.py:CCA.restore_config")], ["grid after stepping"],
 "explicit-state exploration of the reached states of every shipped pattern, each step checked against a reference model", "all 48 patterns x 2 placements x 10 steps (5 x 60 thorough), all 58 rule files and ordered pairs")

prop("U01", "Animations contain the simulated frames in order and clean up",
 "Saving an animation writes one frame for each simulated step from the given starting grid in chronological order, whatever the number of steps or speed-up, stops early only when the grid has vanished, and shows the grid's values through the colour map for one channel and directly for several. Afterwards only that run's frame directory has been removed and nothing else, and the starting grid is unchanged.",
 ["inputs", "configurations", "histories"], "channel counts 1..5 x step counts around every naming boundary x speed-ups x vanish times x pre-existing files",
 "One test saves a short sequence and checks nothing about its content.", ["yuca/utils.py"],
 [("frames", "yuca/utils.py:save_fig_sequence"), ("gif", "yuca/utils.py:make_gif")], ["frames written and their order in the animation", "directory contents afterwards"],
 "exhaustive enumeration of recording scenarios with image writer, clock and shell replaced by recording stand-ins", "all scenarios in the bounded product")

prop("U02", "Damage masks and inputs cover exactly the requested discs",
 "A bite mask is zero exactly on cells within the given fraction of the grid's half-width from the bite centre and one elsewhere, identically in every channel, and an aperture keeps exactly the central disc of the given radius. Prepared training inputs are the image times aperture times a fresh bite mask plus bounded noise of its own for each batch element and channel, and targets are the image unchanged.",
 ["inputs", "configurations"], "all image sizes and radii in the alphabet x all bite centres (random source enumerated)",
 "Tests check shapes only.", ["yuca/utils.py"],
 [("bite mask", "yuca/utils.py:get_bite_mask"), ("aperture", "yuca/utils.py:get_aperture"), ("inputs", "yuca/utils.py:prep_input")], ["mask arrays", "prepared batch"],
 "exhaustive enumeration with the random source replaced by an enumerated environment", "bounded sizes and centres")

prop("A01", "Grid entropies are the Shannon entropies they claim to be",
 "The entropy of a grid is the Shannon entropy in bits of its values rescaled to 256 levels (zero for a uniform grid); the spatial entropy of a cell is the entropy of the window around it, clipped at the border, and the universe analyser's version wraps around the torus instead. The conditional entropy given the neighbour above, right, below or left is the joint entropy of cell and neighbour minus the entropy of the neighbour, and the four-direction figure is the average of the four. Whole-grid, conditional and wrapped entropies are unchanged by translating the grid on the torus, and none of these functions changes the grid.",
 ["inputs"], "all grids of small size over a few grey levels x directions x windows x translations",
 "There are no tests of the analysis code.", ["yuca/analyze.py"],
 [("entropy", "yuca/analyze.py:get_grid_entropy"), ("conditional", "yuca/analyze.py:get_conditional_grid_entropy"), ("spatial", "yuca/analyze.py:get_spatial_entropy")], ["returned entropies"],
 "exhaustive enumeration of grids against a direct definition of the entropies", "all grids of 2x2..3x3 over small level sets, all translations")

prop("A02", "Universe analysis reports what happened in every universe",
 "Analysing a rule starts every universe of the batch from a random seed confined to the central square, follows the rule, and stops when every universe is empty or at the configured limit. For each step it reports the fraction of empty universes, the fraction with mass on the border, the mean and spread over universes of the kernel-sized spatial entropy on the torus, and the correlation with the previous step, and for each universe the first step at which it was empty (-1 if never). Analysing a directory writes one result per rule file into the analysis directory beside it, each equal to analysing that rule alone, whatever else is in the directory, and changes nothing else.",
 ["inputs", "configurations", "histories"], "all binary seeds of the central square of a small torus in batches and pairs x rules x step limits; all subsets of rule files x ways of naming the directory",
 "There are no tests of the analysis code.", ["yuca/analyze.py"],
 [("universe", "yuca/analyze.py:Phanes.analyze_universe"), ("directory", "yuca/analyze.py:Phanes.analyze_multiverse")], ["result dictionary", "result files"],
 "explicit-state exploration of the trajectories of every seed, every reported figure recomputed from the recorded states", "all 16 seeds of a 4x4 torus, 9 rules, to 5 steps (9 thorough); all subsets of 3 rule files")

prop("L01", "Cloning saves the best network found",
 "Cloning a rule into a neural automaton trains networks that see the rule's own neighbourhood, and saves for each rule the weights that made the prediction with the lowest relative error seen over all steps and attempts, not later ones, under that rule's own name. An attempt stops early exactly when its error falls below the threshold, later attempts use networks a quarter larger up to the given maximum, and the source rule files are left untouched. The saved weights restore into a neural automaton of the size they were trained with.",
 ["histories", "configurations"], "every sequence of relative errors over a small alphabet, over all steps of all attempts of up to three rules; real training runs",
 "A single smoke test runs cloning for two steps and checks that a file appears.", ["yuca/clone.py", "yuca/ca/neural.py"],
 [("training loop", "yuca/clone.py:clone_from_ca")], ["saved weights", "file names", "number of training steps"],
 "exhaustive enumeration of error sequences (the predictions are the enumerated environment, optimiser and network are real)", "sequences to 4 steps quick, 6 steps thorough, split over attempts and rules")

prop("Z03", "The built-in patterns behave as the creatures they are named after",
 "Anywhere on the torus and in every orientation, the built-in glider under Conway's rule is, every four steps, itself moved one cell along a diagonal, and the built-in puffer under the Morley rule keeps its mirror symmetry and its front recurs 13 cells further every 170 steps. The built-in orbium, geminium and smooth glider stay alive under the rule of that name (ready-made or shipped) and travel on with the mass and speed of their kind. Every call returns fresh values in [0,1], from any working directory, however earlier results were edited.",
 ["inputs", "histories"], "every placement and orientation of the glider on all small tori; full puffer period; placements x orientations x steps of the smooth creatures; every ordered pair of pattern calls around an edit",
 "Tests check shapes, types and cell counts of the arrays.", ["yuca/patterns.py", "yuca/configs.py", "ca_configs"],
 [("patterns", "yuca/patterns.py"), ("rules", "yuca/configs.py")], ["grids along the trajectory", "returned arrays"],
 "explicit-state exploration of every trajectory from every placement of each built-in pattern, on the real automaton", "tori of side 7..12 (7..20 thorough); 170+ puffer steps; 80-120 (200-400) steps of the smooth creatures")

prop("S01", "The step predictor trains, records and restores its own network",
 "In evaluation mode a step predictor maps a grid through each of its layers in turn, every layer adding the sigmoid of a pointwise mix of rectified convolutions, so that each weight counts and predicting changes neither input nor network. Training makes one optimizer step on the mean squared error of this very network per batch and affects no other predictor; the record written holds the running training loss of every batch and the validation loss (squared error per sample) at each due epoch and the last. The saved weights restored into a new predictor of the same settings reproduce its predictions, evaluation reports the squared error per sample, and equal seeds give equal networks.",
 ["histories", "configurations"], "all settings (layers, radius, channels, dropout 0/1, epochs, display interval, batches) x all histories of fit/evaluate/restore on two predictors",
 "The step predictor has no tests.", ["yuca/step_predictor.py"],
 [("forward", "yuca/step_predictor.py:StepPredictor.forward"), ("fit", "yuca/step_predictor.py:StepPredictor.fit"), ("evaluate", "yuca/step_predictor.py:StepPredictor.evaluate")],
 ["predictions", "parameters", "log and weights files"], "explicit-state exploration of training histories against a reference network with its own optimizer", "1-3 layers (4), radius 0-2, histories to length 3 (4)")

prop("E05", "A search resumed from a log continues from that log's elites",
 "A search given the log of an earlier search with the same kind of candidates starts from the mean of that log's best elites with the covariance of a fresh search, evaluates those elites first and samples the rest, whatever the two population sizes, selection modes and generations, so its best fitness never falls below the logged elite's. A pattern search given the log of a rule search, or of patterns found under a rule, plays by the best logged rule whatever its seed, an explicit rule file winning over the log, and otherwise starts as without a log. Resuming leaves the log as it was, and the rule a resumed search saves does not need it.",
 ["histories", "configurations"], "all chains of searches, each resumed from the log of the one before, over population sizes x selection modes x generations; every automaton class for logs of the other kind",
 "No test resumes a search.", ["yuca/cmaes.py", "yuca/wrappers/glider_wrapper.py", "yuca/ca/continuous.py"],
 [("resume", "yuca/cmaes.py:CMAES.__init__"), ("population", "yuca/cmaes.py:CMAES.initialize_population"), ("rule", "yuca/wrappers/glider_wrapper.py:GliderWrapper.__init__")],
 ["population", "distribution", "log files", "grids under the rule played"], "explicit-state exploration of chains of searches on the real code (the log file is the state), fitness and sampling being the enumerated environment",
 "chains to length 3 over 16 settings (36 thorough), 7 automaton classes")

prop("E06", "The command line runs, and records, the search it describes",
 "Starting the evolve program runs one search: patterns under the glider reward when the tag contains 'pattern', patterns and rules together when it contains 'coevo', rules under the named environment otherwise, with the named automaton, floating-point precision, and every option given (batch, steps, grid side, channels, kernel radius and peaks, padding, rule file, selection mode, generations, replicates, population, prediction mode, seeds, hidden channels, activation) in effect, reaction-diffusion always with two channels. The log records the git hash and the command line with every value beside its option, so that running the recorded command repeats the same search with the same results.",
 ["inputs", "configurations"], "all automata x kinds x environments x precisions; all pairs of options with each of two values; all spellings and orders of awkward values, recorded commands run again",
 "No test starts the program.", ["yuca/evolve.py", "yuca/cmaes.py"],
 [("dispatch", "yuca/evolve.py:evolve"), ("record", "yuca/evolve.py")], ["search started", "logged command line", "log contents"],
 "exhaustive enumeration of command lines within the bounds, each started on the real program, and replay of the recorded commands",
 "98 dispatches, 2191 option pairs (more automata and kinds thorough), 108 awkward values x spellings x orders, real runs replayed")

prop("U03", "Plots of a search log show the log",
 "Plotting a search log draws, for every elite rule of its last generation that has growth functions, the values of its genesis and its persistence function over the range of neighbourhood values, and one figure with the logged mean, best and worst fitness of every generation, each labelled as what it is, with a band of one logged deviation around the mean. It works on the log of every kind of search and automaton, shows the figures exactly when asked to, reports a log that is not there, and changes no log. The figures of a grid with its neighbourhoods and update, and of a kernel with its growth function, show exactly these arrays, in this order, with the asked-for titles and colour limits, and the function's values.",
 ["inputs", "configurations"], "all pairs of growth functions x sequences of fitness figures x numbers of elites; real logs of every automaton and kind of search; ordered pairs of logs",
 "There are no tests of the plotting code.", ["yuca/plot.py"],
 [("plot", "yuca/plot.py:plot_exp")], ["lines and bands of the figures"],
 "exhaustive enumeration of logs, every drawn line compared with the logged figures and the reference growth functions", "15x15 growth functions, 3 generations (4 thorough), 4 elites")

prop("R06", "A new automaton is what its arguments and the random source say",
 "Creating an automaton is determined by its arguments and the state of the random source: the same source gives the same rule whatever the tag. Its radius, number of kernel peaks, channels, padding, alive threshold, hidden width and activation are the ones asked for (or the documented defaults), its time step is 0.1, it has one genesis and one persistence function per internal channel, its parameters track gradients only when asked to, and a step applies exactly these functions to the neighbourhoods of its own kernel, averaged over channels, staying within [0,1]. What it exports is the rule it applies, writing its own parameters back changes nothing, and the arguments are left as they were. A blank grid has the requested batch, the automaton's channels and the requested sides, and no content.",
 ["configurations", "inputs"], "all classes x channels x radius x peaks x padding x thresholds x every sequence of answers of the random source for the kinds of functions",
 "Tests create a handful of automata and check shapes.", ["yuca/ca/continuous.py", "yuca/ca/common.py", "yuca/ca/neural.py"],
 [("creation", "yuca/ca/continuous.py:CCA.default_init"), ("network", "yuca/ca/neural.py:NCA.default_init"), ("weights", "yuca/ca/continuous.py:CCA.initialize_weight_layer")], ["new automaton", "one step", "exported configuration"],
 "exhaustive enumeration of arguments and answers of the random source, one real step against the reference", "channels to 9 (12 thorough), all coin sequences to 4 draws")

prop("R07", "Rule files survive being opened, edited and saved back",
 "An automaton created with the name of a rule file has the rule in that file as it is at that moment, whatever class of automaton and whether the file was saved by an automaton or written by hand without constructor settings; naming a missing file gives an automaton that works like a new one. A rule saved to any file - also over the one its automaton was created from - opens as saved, by naming it or restoring it, in new automata, after every history of creating, restoring, editing, saving, replacing and deleting files; and no file operation changes an automaton that is already there.",
 ["histories", "configurations"], "all classes x pairs of rules x every history up to the depth bound over create from x or y, restore, set dt, write parameters, change radius, save to x or y, replace x, delete x",
 "Tests save one configuration to a new file and restore one shipped file.", ["yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py"],
 [("creation", "yuca/ca/continuous.py:CCA.__init__"), ("loading", "yuca/ca/continuous.py:CCA.load_config"), ("neural loading", "yuca/ca/neural.py:NCA.load_config"), ("saving", "yuca/ca/continuous.py:CCA.save_config")],
 ["files on disk", "grid, parameters, radius and dt of the automaton and of those that open the files"], "explicit-state exploration of file histories against a model of the files and the automaton", "depth 3-4 quick, 4-5 thorough; two rules per class")

prop("K03", "Kernels handed to an automaton as arrays take effect as given",
 "A square neighbourhood kernel of odd side handed to an automaton as a 2-D or 4-D tensor, array or nested list, of any number type and memory layout, or as a stack with one kernel per internal channel, is the one it convolves with from then on (every external channel with every weight in its given orientation), and likewise a tensor given as identity kernel, whatever was there before; a step and every frame then follow the automaton's rule with these kernels, and the plain automaton adds cell values and neighbourhoods. A kernel that is not square or not of dimension 2 or 4 is refused and leaves the automaton as it was; the array handed over is left unchanged, and overwriting it later changes nothing; setting a configured kernel replaces it. A new background grid is zero, of the asked-for batch, channels and size.",
 ["histories", "inputs", "configurations"], "all histories of hand-overs to the depth bound x forms x channels x boundaries x classes",
 "Tests never hand over a kernel of their own.", ["yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py"],
 [("neighbourhood", "yuca/ca/common.py:CA.add_neighborhood_kernel"), ("layer", "yuca/ca/common.py:CA.initialize_neighborhood_layer"), ("identity", "yuca/ca/continuous.py:CCA.add_identity_kernel")],
 ["neighbourhoods", "cell values", "one step", "frames"], "explicit-state exploration of hand-over histories on the real automata against a reference model", "depth 2 (3 thorough), 32 class/channel/boundary settings")
