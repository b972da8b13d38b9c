import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("P01","Pareto dominance, layering and filtering are exact",
 "One objective vector dominates another exactly when it is no worse in every objective and better in at least one; dominance is irreflexive, antisymmetric and transitive for every pair of vectors, whatever their scale, sign, number type or ties. Splitting a population into non-dominated layers keeps every individual exactly once, with its multiplicity, and puts it in the layer given by the longest chain of individuals dominating it. Extracting the non-dominated part of a set returns precisely the members no other member dominates, duplicates included, in any input order.",
 ["inputs"],"all finite objective vectors of 1 to 6 objectives, all multisets and orders of them",
 "The repository's tests try a handful of hand-written two-objective pairs and lists; ties, duplicates, many objectives, mixed scales and permutations are not sampled.",
 ["evotools/ea_utils.py","metrics/metrics_utils.py","metrics/metrics.py","algorithms/base/drivertools.py"],
 [("pairwise comparison","evotools/ea_utils.py dominates/domination_cmp"),("peeling of layers","evotools/ea_utils.py paretofront_layers"),("incremental filter","metrics/metrics_utils.py filter_not_dominated"),("ordering by layers","algorithms/base/drivertools.py rank")],
 ["return values of the public helpers on generated populations"])
p("P02","Hypervolume is the exact dominated volume",
 "The hypervolume computed for a set of objective vectors and a reference point equals the volume of the region dominated by the set and bounded by the reference point, in any number of objectives. It depends neither on the order nor on repetition of the vectors, is not changed by dominated vectors or by vectors that are not better than the reference point in every objective, and never decreases when a vector is added. Computing it does not alter the caller's data, and reusing the same calculator for another set gives the same answer as a fresh one.",
 ["inputs","histories"],"all finite vector sets in 1 to 5 objectives, all reference points, all orders, all sequences of reuse",
 "No test computes a hypervolume; the sweep/recursion with cached partial volumes is wrong only for particular orders, ties and dimensions.",
 ["algorithms/base/hv.py","metrics/metrics.py"],
 [("recursive slicing over a multi-list","algorithms/base/hv.py HyperVolume"),("ignore/volume caching per node","algorithms/base/hv.py hvRecursive")],
 ["HyperVolume(reference).compute(front)","metrics.hypervolume"])
p("P03","Quality indicators equal their mathematical definitions",
 "For every solution set and reference front the indicators have their defined values: generational distance and inverted generational distance are the root of the mean squared distance to the nearest point (from the non-dominated part to the front, and from the front to the whole set), the Hausdorff-style indicator is the larger of the two, spacing is the dispersion of nearest-neighbour city-block distances, extent the root of the summed objective ranges, epsilon the smallest additive shift by which the front weakly dominates every point of the non-dominated part, the non-domination ratio the non-dominated share, and the distribution the share of ordered pairs farther apart than the radius (0.5 unless given). The dominance indicator is the share that a result's non-dominated points contribute to the joint non-dominated front. Each value is independent of the order of the points and the distance indicators are zero exactly when the points they measure coincide with the target set.",
 ["inputs"],"all non-empty finite solution sets and reference fronts of 1 to 5 objectives, including singletons, duplicates and coinciding sets",
 "No test evaluates an indicator; asymmetries between set and front, singletons and duplicated points only show on particular inputs.",
 ["metrics/metrics.py","metrics/metrics_utils.py","metrics/epsilon.py","simulation/metrics_processor.py"],
 [("definitions","metrics/metrics.py"),("nearest-distance kernels","metrics/metrics_utils.py"),("epsilon","metrics/epsilon.py")],
 ["values returned by the public indicator functions"])
p("P04","Variation operators stay in domain and follow their distributions",
 "Every individual produced by mutation or recombination lies inside the search domain whenever its parents do, has the parents' length, and leaves the parents unchanged. A gene is changed with the configured probability (never at rate 0), a recombined gene without mutation comes only from the two parents and their spread, and identical parents recombine to themselves. The displacement of real-coded polynomial mutation and simulated binary crossover follows the textbook distribution for the configured distribution index, so larger indices give smaller moves.",
 ["inputs","configurations"],"all in-domain parents (including on the bounds), all domains (including ones not containing zero), rates in [0,1], distribution indices",
 "Random operators need thousands of samples per parameter point compared with a reference distribution; the tests never call them.",
 ["algorithms/base/drivertools.py","algorithms/JGBL/JGBL.py","algorithms/NSGAIII/NSGAIII.py","algorithms/OMOPSO/OMOPSO.py"],
 [("polynomial mutation","algorithms/base/drivertools.py mutate"),("simulated binary crossover","algorithms/base/drivertools.py crossover"),("boundary clamping","min/max in each operator")],
 ["operator return values","arguments after the call"])
p("P05","Only points of the search domain are ever evaluated or reported",
 "Every point an optimisation algorithm passes to an objective function, keeps in its population, or reports as a result has the right dimension and finite coordinates inside the problem's bounds. This holds for every algorithm and every combination of a meta-algorithm with an algorithm, at every step, for every box-shaped domain.",
 ["inputs","histories","configurations"],"all 24+ algorithm combinations, all box domains (symmetric, mixed-scale, not containing zero), all random histories, every step",
 "Excursions depend on random draws near bounds and on domains unlike the shipped benchmarks; the tests run a couple of algorithms a few steps on one domain and look at counters only.",
 ["algorithms/base/drivertools.py","algorithms/HGS/classic/ClassicHGS.py","algorithms/HGS/distributed/node_tasks.py","algorithms/OMOPSO/OMOPSO.py","algorithms/NSLS/NSLS.py","algorithms/NSGAIII/NSGAIII.py","algorithms/JGBL/JGBL.py","evotools/ea_utils.py"],
 [("clamping after each variation operator","drivers' operators"),("initial population sampling","evotools/ea_utils.py gen_population"),("precision trimming of hierarchic populations","algorithms/HGS")],
 ["objective function calls recorded by instrumented problems","populations and results after every step"])
p("P06","Reported cost equals the work actually done",
 "After every step of every single-population algorithm the reported cost equals the number of candidate solutions submitted for evaluation so far, each candidate being charged once when it is first evaluated and never again while it survives. Cost starts at zero and never decreases. A meta-algorithm's cost is the sum of the costs its constituent populations reported.",
 ["histories","inputs","configurations"],"every algorithm and meta combination, every population size and problem, every step of every random history",
 "Budgets and every comparison in the project rest on this accounting, yet no test counts evaluations; over- or under-charging appears only after survivors are re-evaluated over several generations.",
 ["algorithms/base/driver.py","algorithms/NSGAII/NSGAII.py","algorithms/SPEA2/SPEA2.py","algorithms/IBEA/IBEA.py","algorithms/SMSEMOA/SMSEMOA.py","algorithms/OMOPSO/OMOPSO.py","algorithms/NSGAIII/NSGAIII.py","algorithms/JGBL/JGBL.py","algorithms/NSLS/NSLS.py","algorithms/HGS","algorithms/IMGA/IMGA.py"],
 [("per-driver cost counters","calculate_objectives of each driver"),("aggregation","HGS node costs, IMGA island costs")],
 ["cost after each step vs. instrumented objective calls"])
p("P07","Budget runs stop at, and report once, every requested budget",
 "A run limited by a budget performs whole steps until the reported cost first reaches the budget and not one step more; a budget already reached performs none. With several increasing budgets one and the same search continues from budget to budget, and exactly one result is stored per budget, in order, equal to the algorithm's result and cost at that moment. A run of a given number of steps performs exactly that many.",
 ["histories","inputs"],"all budget lists, all per-step cost patterns, all algorithms",
 "The tests run one budget/step count on one driver; the boundary cases (budget equal to cost, several budgets inside one step, zero-cost steps) are not sampled.",
 ["algorithms/base/driver.py","simulation/worker.py"],
 [("stop condition","algorithms/base/driver.py BudgetRun"),("one stored result per budget","simulation/worker.py BudgetWorker")],
 ["steps performed and messages emitted by a scripted driver","files written under the results directory"])
p("P08","Time-limited runs sample on schedule without peeking ahead",
 "A time-limited run emits one sample for each whole multiple of the sampling interval, in increasing order, never twice, never beyond the time limit and never before that much search time has elapsed. Each sample, and the result stored for it, shows the last step that had been completed when the slot's time came (the first step if none had; a run of a single step emits nothing), the run stops at the first step ending at or after the limit, and only time spent in the search itself is counted. Exactly one result is stored per emitted sample.",
 ["schedules","histories"],"all step durations (shorter, longer, many times the interval), all intervals and limits",
 "The existing tests use real sleeps and two or three regular step durations; slot boundaries and steps spanning several slots depend on timing.",
 ["algorithms/base/driver.py","simulation/worker.py"],
 [("slot arithmetic","algorithms/base/driver.py TimeRun"),("storing a sample","simulation/worker.py TimeWorker")],
 ["messages emitted under a virtual clock","files written under the results directory"])
p("P09","Progress messages count steps and report the true state",
 "Every step of an algorithm advances its step counter by exactly one and returns a message; messages of consecutive steps carry consecutive step numbers starting from zero and the algorithm's cost at that moment. Messages of algorithms nested in a meta-algorithm carry, in addition, the nested algorithm's current population, and building a message neither changes the search state nor is affected by later steps.",
 ["histories","configurations"],"all algorithms and combinations, all run lengths, plain and population messages",
 "Two tests check two algorithms for a few steps with a mocked population; meta-algorithms consume these messages at every step of every combination.",
 ["algorithms/base/driver.py","algorithms/base/model.py","algorithms/HGS/message.py"],
 [("step counting","algorithms/base/driver.py StepCountingDriver"),("message adapters","algorithms/base/model.py and per-driver adapters")],
 ["messages returned by each step"])
p("P10","Selection never discards a candidate that dominates a survivor",
 "In every generation every single-population algorithm with a fixed-size population draws its survivors only from the previous ones and the newly created candidates and keeps the configured size. In NSGA-II, SPEA2, IBEA and SMS-EMOA no survivor is dominated by a discarded candidate, and in the local-search algorithm none is dominated by a discarded previous member. NSGA-II never loses the best value reached so far in any single objective, OMOPSO's leaders archive and reported result are mutually non-dominated, and the random-search baseline reports exactly the non-dominated part of everything it has evaluated.",
 ["histories","inputs"],"all random histories, objective landscapes (ties, negative values, flat objectives), population sizes",
 "Selection errors only lower search quality and are invisible to tests that check counters; they need the whole candidate pool of every generation to be reconstructed.",
 ["algorithms/NSGAII/NSGAII.py","algorithms/SPEA2/SPEA2.py","algorithms/IBEA/IBEA.py","algorithms/SMSEMOA/SMSEMOA.py","algorithms/NSLS/NSLS.py","algorithms/OMOPSO/OMOPSO.py","algorithms/JGBL/JGBL.py","algorithms/NSGAIII/NSGAIII.py","algorithms/BOGO/BOGO.py"],
 [("environmental selection","each driver's selection step"),("archive insertion","algorithms/OMOPSO/OMOPSO.py Archive")],
 ["populations before/after each step and all points evaluated in between"])
p("P11","Search makes real progress on the shipped benchmarks",
 "Given the same number of evaluations, every algorithm and combination produces a result set that is clearly better than uniform random sampling and than its own initial population, as measured by the distance of the known front to the result set, on easy benchmark problems. Progress is sustained: a longer run is not worse than a much shorter one beyond noise.",
 ["histories","configurations"],"all shipped algorithms and combinations, repeated over independent random seeds",
 "No test looks at solution quality at all, so a broken operator or an inverted comparison passes every test.",
 ["algorithms","problems","metrics/metrics.py"],
 [("variation and selection","algorithms/*"),("default configuration","simulation/run_config.py")],
 ["result sets after a fixed budget, compared over seeds with random sampling"])
p("P12","Island migration conserves individuals and follows the topology",
 "The island algorithm runs each of its islands for exactly the configured number of steps per epoch and then migrates: the emigrants of an island are distinct members of its population, drawn with preference for better-ranked ones, each is delivered to exactly one neighbouring island under the configured topology, and no individual appears, disappears or is duplicated across the system, so every island keeps its size. Topologies are symmetric, connected and without self-neighbours. The reported result is the union of the islands' populations and can be requested any number of times.",
 ["histories","configurations"],"all island counts, topologies, migrant counts, epoch lengths, underlying algorithms and random histories",
 "The two tests run three fixed configurations and look at population counts and cost only; loss, duplication or misdelivery of migrants is not observed.",
 ["algorithms/IMGA/IMGA.py","algorithms/IMGA/topology.py"],
 [("migration","algorithms/IMGA/IMGA.py"),("neighbour relation","algorithms/IMGA/topology.py")],
 ["island populations before/after migration at the boundary between the island algorithm and its injected drivers"])
p("P13","The hierarchic search keeps its tree sound",
 "The sequential hierarchic algorithm maintains a tree of populations of bounded depth: every node uses the population size, precision and operator settings of its level, sprouts at most the allowed number of children per round and only while it has fewer living ones than allowed, and a child starts around an individual of its parent and only where no sibling-level node already searches. In each round every active node advances exactly the configured number of steps, a node stops only for lack of progress or because another node of its level searches the same place; a node that stopped making progress is stopped and then sprouts wherever its limits leave room, of two active nodes searching the same place one is stopped, stopped nodes do not advance until all have stopped and those without progress search again under a halved requirement, and some node is always active. The reported result is made of the individuals of the tree's nodes and the cost is the sum over all nodes ever created.",
 ["histories","configurations"],"all underlying algorithms, level configurations, landscapes and random histories, after every round",
 "Tests check only the step counter and that a run does not crash; sprouting, trimming and redundancy act after several rounds and depend on the landscape.",
 ["algorithms/HGS/classic/ClassicHGS.py","algorithms/HGS/HGS.py","algorithms/HGS/tools.py"],
 [("metaepochs","ClassicHGS run_metaepoch"),("sprouting conditions","ClassicHGS release_new_sprouts"),("trimming","ClassicHGS trim_*")],
 ["creation, steps and populations of node drivers via an injected recording driver factory"])
p("P14","The distributed hierarchic search is safe under any message order",
 "Whatever order messages are delivered in (respecting per-sender order), each round of the distributed hierarchic search ends: no request is lost, answered twice or left waiting, and the supervisor acts only on complete rounds. After each round the collected result and cost are those of the nodes that ran, each active node advanced exactly the configured number of steps, and level limits on population, sprouts and depth hold as in the sequential version; a node that stopped making progress is stopped and may sprout, and of two active nodes searching the same place one is stopped. Shutting down stops every node.",
 ["schedules","histories","configurations"],"all per-sender-FIFO interleavings of supervisor and node messages, level configurations, underlying algorithms",
 "The platform test runs one configuration on one real network schedule and checks only that it ends.",
 ["algorithms/HGS/distributed/DistributedHGS.py","algorithms/HGS/distributed/actors.py","algorithms/HGS/distributed/hgs_tasks.py","algorithms/HGS/distributed/node_tasks.py","algorithms/HGS/distributed/message.py"],
 [("supervisor task machine","hgs_tasks.py"),("node task machine","node_tasks.py"),("actor glue","actors.py")],
 ["messages exchanged under a scheduler-controlled in-process actor system"])
p("P15","Stored results are complete, faithful and self-consistent",
 "A result stored for a simulation case can be loaded back unchanged under the same name, and stored files of different cases, runs or checkpoints never overwrite or mix with each other. Every stored result has a non-empty population, one fitness vector per individual in the same order, each equal to the problem's objectives of that individual, and the cost at the moment of storing. Everything stored is self-contained data that another process can load.",
 ["inputs","histories","configurations"],"all algorithms and combinations, all populations, all budgets, all sequences of store and load",
 "No test runs a worker and reads back its files.",
 ["simulation/serializer.py","simulation/worker.py","simulation/model.py","algorithms/IMGA/IMGA.py"],
 [("pickled results per case directory","simulation/serializer.py"),("fitness evaluation before storing","simulation/worker.py process_results")],
 ["files under the results directory after a worker ran, loaded in a fresh process"])
p("P16","Results discovery returns every stored run exactly once",
 "Reading a results directory yields, for each problem and algorithm present, one group per checkpoint value in increasing numeric order, holding the result of every run that has that checkpoint exactly once, labelled with its own run, with runs numbered consistently across checkpoints. Foreign files anywhere, and foreign directories beside a problem's result directories, are ignored, incomplete runs contribute the checkpoints they have, and a missing results directory yields nothing.",
 ["inputs","histories"],"all directory contents: numbers of runs, missing checkpoints, foreign entries, creation orders",
 "No test reads a results tree.",
 ["simulation/serialization.py","simulation/model.py","simulation/serializer.py"],
 [("name pattern match and grouping","simulation/serialization.py ResultsExtractor"),("each_result","simulation/serialization.py")],
 ["output of the results reader on generated trees"])
p("P17","Metric values survive caching and never leak between results",
 "The quality values reported for a stored result are the same whether computed afresh, computed again in the same process, read from the values saved beside the result, or computed in any order of requests; each result gets the values of its own population against its problem's front. Saved values of one checkpoint, run, algorithm or problem are never reported for another. Comparison indicators that need all competing results are computed from exactly the results stored for the same problem, checkpoint and run.",
 ["histories","inputs"],"all sequences of requests over all results trees, cold and warm caches",
 "No test evaluates metrics through the results pipeline.",
 ["simulation/metrics_processor.py","simulation/serialization.py","metrics/metrics.py"],
 [("saved metric files","simulation/metrics_processor.py"),("joint front preloading","simulation/metrics_processor.py")],
 ["values yielded by the pipeline in fresh and warm processes against an independent computation"])
p("P18","Command-line selection expands to exactly the requested cases",
 "A command-line request expands to exactly the set of simulation cases it names: every selected problem with every selected algorithm, each repeated the requested number of times with distinct run numbers, with the given budgets in ascending order or the given time limit and sampling interval. Selection is case-insensitive, unknown names select nothing, and leaving a selection out means all of them. The list command names exactly the algorithms and problems that can be selected.",
 ["inputs","configurations"],"all combinations of options accepted by the documented command line",
 "No test parses a command line or expands cases.",
 ["evogil.py","simulation/factory.py","simulation/model.py","simulation/run_config.py"],
 [("expansion","simulation/factory.py resolve_configuration/create_simulation"),("usage grammar","evogil.py")],
 ["simulation cases produced for generated command lines"])
p("P19","One failing simulation does not affect the others",
 "When some simulations of a batch fail, for whatever reason and at whatever moment, every other simulation of the batch is still run to completion and stores all its results exactly as if it had run alone; the batch ends normally, the progress, remaining time and running times it tells are those of its cases, and its summary accounts for every case once. Each algorithm instance is shut down whether it finished or failed.",
 ["fault_sequences","schedules","inputs"],"all subsets and positions of failing cases, failures at construction, during a step, or while storing",
 "No test runs a batch, and none injects a failure.",
 ["simulation/run_parallel.py","simulation/worker.py"],
 [("worker error barrier","simulation/worker.py SimulationWorker.run"),("result collection","simulation/run_parallel.py run_parallel")],
 ["stored results and end of the batch under injected failures"])
p("P20","Runs are independent: no state leaks from one run to the next",
 "Running any simulation leaves the shipped configuration and problem definitions as they were, so a run prepared afterwards in the same process receives the same configuration as one prepared first. Two algorithm instances prepared from the same request never share mutable state: advancing one does not change the other's population, cost or configuration, and each starts from its own random initial population of the configured size inside the domain. Repetitions of a case, in one batch or in batches started alike, are independent random samples, and every run of a batch works at the priority it was asked to.",
 ["histories","schedules","configurations"],"all sequences and interleavings of prepared runs of all algorithm combinations",
 "Tests prepare one run per process and never compare configurations before and after.",
 ["simulation/factory.py","simulation/run_config.py","algorithms/HGS/classic/ClassicHGS.py","algorithms/IMGA/IMGA.py","evotools/ea_utils.py"],
 [("per-run configuration dictionary","simulation/factory.py prepare_with_driver"),("default tables","simulation/run_config.py")],
 ["configuration tables and prepared constructor arguments before and after runs"])
p("P21","Bootstrap statistics are sound and order-independent",
 "For every sample the summary mean and deviations equal their definitions, and bootstrap estimates lie between the smallest and largest observation, enclose the sample mean, and shrink to a point for constant samples. Confidence intervals are ordered, cover the true value at about the nominal rate for well-behaved data, widen with the confidence level and scale and shift with the data. Outlier filtering keeps only observed values and never discards a majority.",
 ["inputs"],"all finite samples of all sizes, all confidence levels, repeated random resampling",
 "No test exercises the statistics; coverage needs thousands of repeated samples.",
 ["statistic/stats_bootstrap.py"],
 [("resampling","statistic/stats_bootstrap.py")],
 ["return values on generated samples"])
p("P22","Ranking and summary tables reflect the stored results",
 "The statistics and ranking outputs for a results directory list every problem, checkpoint, algorithm and indicator present exactly once with the aggregate of that group's runs, with the number of runs beyond the group's outlier fences and the aggregates without them; a group is marked suspicious, and its values listed and flagged, exactly when more than a twentieth of them lie outside mean±3σ, and named as untrusted when leaving out the outliers then changes its mean by more than a tenth. An algorithm is ranked ahead of another only if its aggregate is better in the indicator's own direction (larger or smaller), for every indicator; on each problem the best algorithm earns two points, or one point if others lie within the indicator's tolerance, who then earn one each, and the overall ranking orders algorithms by the points so earned. Checkpoints whose cost overruns the allowance are not ranked. Producing the outputs does not change the stored results.",
 ["inputs","histories"],"all results trees, numbers of runs and algorithms, all indicators",
 "No test produces a ranking or summary.",
 ["statistic/ranking.py","statistic/stats.py","statistic/summary.py","statistic/stats_bootstrap.py","simulation/metrics_processor.py","simulation/serialization.py"],
 [("aggregation and ordering","statistic/ranking.py"),("tables","statistic/stats.py")],
 ["printed tables and written files"])
p("P23","Benchmark problems compute their published functions and fronts",
 "Every literature benchmark shipped (ZDT1-4 and 6, UF1-10, Kursawe, Ackley) evaluates, anywhere in its domain, to the objective values of its published definition at the number of variables and parameters its module states, deterministically and without modifying its argument. Every point of its reference front is attainable up to the sampling precision of that front, is not dominated by another reference point, and no point of the domain dominates it beyond that precision; analytic fronts are covered from end to end without gaps wider than their sampling. The domain bounds and number of objectives match the definition.",
 ["inputs"],"all points of each problem's domain, all reference points",
 "Only one file is tested on a few points; a wrong term or index only shows for particular dimensions and points.",
 ["problems"],
 [("objective definitions","problems/*/problem.py"),("reference fronts","problems/*/problem.py pareto_front")],
 ["objective values on sampled points vs. an independent implementation"])
p("P24","Plots show the stored results",
 "For every results directory the plotting commands write their figures in both formats, and what is drawn is what is stored. The time plots hold, per problem and ranked indicator, for each algorithm with a plot style one curve joining in order of time the mean over the runs of that indicator at every stored checkpoint, all of it inside the drawn range. The violin plots hold the indicator's values of all runs at the algorithm's last acceptable checkpoint (the one the ranking uses), each labelled with its algorithm. The front plots hold, per problem, the whole reference front and, for each algorithm, the objective vectors one execution has at that checkpoint. The summary plots hold, per indicator, one point per problem and algorithm: the logarithm of one plus the absolute aggregate, relative (except for the dominance indicator) to the highest such value on that problem, and join the points of exactly the selected algorithms. Algorithms without a plot style, problems unknown to the plotting order and problems without acceptable results do not disturb the rest, and the stored results are unchanged.",
 ["inputs","histories"],"all results directories, combinations of algorithms and problems, checkpoints and numbers of runs",
 "The only test looks at the names of the files that one algorithm on one problem produces, never at what is drawn.",
 ["plots/pictures.py","plots/best_fronts.py","plots/violin.py","statistic/stats_bootstrap.py","simulation/serialization.py"],
 [("time and summary plots","plots/pictures.py"),("fronts","plots/best_fronts.py"),("violins","plots/violin.py")],
 ["the artists of every figure at the moment it is saved"])
p("P25","Survivor selection follows each algorithm's published rule",
 "In every generation the survivors are those the algorithm's definition prescribes for the candidates at hand. NSGA-II and its jumping-gene variant keep whole non-domination layers in order and, of the layer that does not fit, never drop an inner candidate for an inner one that is more crowded. SPEA2 keeps all non-dominated candidates while they fit, completed by best fitness (strengths of the dominators plus density), and otherwise repeatedly drops the candidate nearest to its neighbours, further neighbours deciding ties. IBEA repeatedly drops the candidate of least exponential epsilon-indicator fitness under the configured scaling factor. SMS-EMOA drops, from the worst layer, a candidate with the least exclusive hypervolume. The reference-direction algorithm keeps candidates in the order of their penalty measure within their direction. The local-search algorithm keeps whole layers, then the boundary members of the layer that does not fit, then always the member farthest in the search space from those taken. OMOPSO's full leaders archive never loses the best value of an objective. A step ends even when no move improves anything.",
 ["histories","inputs"],"all random histories, landscapes (ties, plateaus, flat objectives, isolated optima), population sizes and configured factors",
 "A wrong rule still yields a plausible population of the right size; it shows only when the whole candidate pool is reconstructed and the rule recomputed.",
 ["algorithms/NSGAII/NSGAII.py","algorithms/JGBL/JGBL.py","algorithms/SPEA2/SPEA2.py","algorithms/IBEA/IBEA.py","algorithms/SMSEMOA/SMSEMOA.py","algorithms/NSGAIII/NSGAIII.py","algorithms/NSLS/NSLS.py","algorithms/OMOPSO/OMOPSO.py"],
 [("environmental selection","each driver's selection step"),("leaders archive","algorithms/OMOPSO/OMOPSO.py LeaderArchive")],
 ["candidate pool and survivors of every generation, with their objective vectors"])
p("P26","Every case runs the algorithm it names with the configuration that applies to it",
 "Preparing the case of an algorithm name (plain, or nested to any depth as OUTER+INNER+...) and a problem builds an instance of the class registered for the outer name, nested in the order of the name, each level with the message adapter made for exactly that pair; when that adapter does not exist the case is refused as not viable. Each level receives the problem's domain and objectives and, for every configuration key, the value of the most specific source that supplies it: the algorithm's table, then its table with these sub-algorithms, then with this problem, then with these sub-algorithms for this problem, then the initialisers in the same order; what is configured for other algorithms, sub-algorithms, problems or nesting orders has no effect. Without a configured starting population the level gets the default number of random points of the domain. A failing initialiser fails the case instead of leaving a partly applied configuration. The configured settings govern the run: mutation and crossover rates and indices show in how often and how far genes change (a rate of 0 means never), the mating fraction and epoch length in the number of new points per step, jumping rate and percentage in the jumps, turbulence and local-search settings in the moves; an archipelago's operator settings and the run's budget reach its islands.",
 ["inputs","histories"],"all algorithm names and nestings, contents of the configuration tables and initialisers, settings within their ranges, problems",
 "A misapplied setting still yields a plausible run; it shows only under configurations other than the shipped defaults, compared with what was configured.",
 ["simulation/factory.py","simulation/run_config.py","algorithms/IMGA/IMGA.py","algorithms/NSGAII/NSGAII.py","algorithms/JGBL/JGBL.py","algorithms/SPEA2/SPEA2.py","algorithms/IBEA/IBEA.py","algorithms/SMSEMOA/SMSEMOA.py","algorithms/NSGAIII/NSGAIII.py","algorithms/NSLS/NSLS.py","algorithms/OMOPSO/OMOPSO.py"],
 [("configuration layering","simulation/factory.py prepare_with_driver"),("adapter choice","simulation/factory.py prepare_message_adapter_class"),("settings","the drivers' constructors")],
 ["constructor arguments of every level","new points of each step"])
p("P27","Better candidates reproduce and lead",
 "Selection for reproduction favours better candidates by the algorithm's own measure. In NSGA-II, its jumping-gene variant and IBEA every parent is the winner of a tournament between two random members of the surviving population, which the better one (of a lower layer or, within a layer, less crowded; of higher indicator fitness) wins in nine cases of ten; in SPEA2 the fitter of two distinct archive members always wins. In SMS-EMOA and the reference-direction algorithm every member is equally likely to become a parent. In OMOPSO a particle moves, apart from turbulence, by a part of its last displacement (0.1 to 0.5), towards its personal best, the last of its positions that dominated the previous best, and towards one leader, the less crowded of two random members of the leaders archive.",
 ["histories","inputs"],"all random histories, landscapes and populations (layers, chains, ties, crowded regions)",
 "An inverted or blunt preference still yields valid offspring; it shows only in the frequencies with which known parents are chosen.",
 ["algorithms/NSGAII/NSGAII.py","algorithms/JGBL/JGBL.py","algorithms/IBEA/IBEA.py","algorithms/SPEA2/SPEA2.py","algorithms/SMSEMOA/SMSEMOA.py","algorithms/NSGAIII/NSGAIII.py","algorithms/OMOPSO/OMOPSO.py"],
 [("mating selection","each driver's tournament"),("guides","algorithms/OMOPSO/OMOPSO.py compute_speed")],
 ["parent of every child, through clones whose objectives name it","displacement of every particle"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
