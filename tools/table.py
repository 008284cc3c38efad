EXH = "bounded exhaustive enumeration of inputs run on the real code, compared with a reference model"
JOINT = ("Exhaustive within the stated bounds on the real engine; the oracle is an explicit enumeration of the joint distribution with exact "
         "integer weights. Larger networks, other domains and float effects below 1e-9 relative are not covered.")

prop("C01", "Queries return the exact posterior marginals",
     "For any discrete Bayesian network (any acyclic structure, any finite variable domains, any conditional probabilities) and any evidence of "
     "positive probability, querying the belief network returns for every variable and value exactly the marginal probability conditioned on "
     "that evidence under the joint distribution given by the product of the factors. Without evidence it returns the prior marginals.",
     ["inputs", "configurations"], "every network structure, domain, conditional probability table and evidence assignment of positive probability",
     "The tests query two hand-made networks with a handful of evidences; exactness must hold for every structure (loops, fill-ins, many cliques), "
     "every zero pattern and every evidence combination.",
     [EB, "causalnex/ebaybbn/utils.py"], [("join-tree propagation", EB + ":JoinTree.propagate"), ("query normalisation", EB + ":BBN.query")],
     ["BBN.query"], EXH, JOINT)
prop("C02", "Impossible evidence yields all-zero answers and no failure",
     "When the evidence given to a belief-network query has probability zero, the query returns probability zero for every value of every "
     "variable: it neither raises nor invents a distribution. Later queries with possible evidence are unaffected.",
     ["inputs", "configurations"], "every network with zero probabilities and every evidence assignment of probability zero",
     "No test uses evidence of probability zero; the division-by-zero guards must hold on every propagation path.",
     [EB], [("zero guard in message absorption", EB + ":JoinTreeCliqueNode.absorb"), ("zero guard in normalisation", EB + ":BBN.query")],
     ["BBN.query"], EXH, JOINT)
prop("C03", "Answers cover every variable and value; bad evidence is rejected",
     "The answer of a belief-network query has exactly one probability per (variable, domain value) pair, for every variable of the network, and each "
     "entry of the evidence is honoured whatever its value (also None, False, 0 or an empty string). Evidence naming an unknown variable is rejected with VariableNotInGraphError, "
     "and a value outside the domain of the variable with VariableValueNotInDomainError, whatever else the evidence holds.",
     ["inputs"], "every evidence dictionary over known/unknown variables and in-domain/foreign values, for every domain type",
     "Tests check one unknown variable and one bad value on boolean networks.",
     [EB, "causalnex/ebaybbn/exceptions.py"], [("evidence validation", EB + ":BBN.validate_keyvals")], ["BBN.query"], EXH,
     "Exhaustive over the stated evidence alphabet on the real engine.")
prop("C04", "Queries are pure: no history changes later answers",
     "The answer of a query on a belief network depends only on the network and the evidence: earlier queries (accepted, impossible or rejected), samples drawn, join trees built, "
     "listings printed, use of other networks with the same variable names, or the caller changing returned answers never alter it. Sampling does not modify the caller's arguments.",
     ["histories"], "every sequence of operations on live networks, up to the bound",
     "Tests perform one operation per fresh network; state leaking between operations needs sequences.",
     [EB, "causalnex/ebaybbn/graph.py"], [("join tree rebuilt per query", EB + ":BBN.query")], ["BBN.query", "BBN.draw_samples"],
     "exhaustive enumeration of operation sequences on live objects against a reference model",
     "Every operation sequence up to depth 3 (quick) / 4 (thorough) over 14 operations on four network pairs.")
prop("C05", "Concurrent queries from several threads do not interfere",
     "When several threads query, sample from or build belief networks at the same time, on the same network or on different ones, each of them gets exactly the answer it "
     "would have got alone.",
     ["schedules"], "all interleavings of two threads with at most one preemption at any source line (two at call boundaries)",
     "Tests are single-threaded.",
     [EB], [("no shared mutable state between queries", EB + ":BBN.query")], ["BBN.query", "BBN.draw_samples"],
     "stateless model checking: controlled scheduler over real threads, preemption-bounded exhaustive schedules",
     "All schedules within the preemption bound for 9 two-thread scenarios on 2-3 variable networks; preemption inside a line is not modelled.")
prop("C06", "Answers do not depend on how the network is presented",
     "The same network gives the same query answers whatever the order in which its factors are listed, the order of the arguments of a factor, the "
     "container type of its domains, the order of the values in a domain, the order of rows of conditional tables, and whatever order internal unordered collections happen to iterate in.",
     ["configurations", "inputs"], "every permutation of factors, arguments, rows and domain values, and every iteration order of hashed collections, up to the bound",
     "Tests use one fixed presentation, and run with whatever addresses the objects got.",
     [EB, "causalnex/ebaybbn/utils.py"], [("sorted variable names", EB + ":JoinTree.initialize_potentials"), ("deterministic tie-breaks", EB + ":build_join_tree")],
     ["BBN.query", "build_bbn", "build_bbn_from_conditionals"],
     "exhaustive enumeration of presentations and of controlled hash iteration orders on the real code", JOINT)
prop("C07", "Every structure compiles into a valid junction tree",
     "For every network structure: the moral graph joins exactly parents with children and co-parents; triangulating it in the reported elimination ordering (a permutation of the nodes, also "
     "under a caller-supplied priority rule) gives exactly that ordering's fill-ins and maximal cliques, and the built-in rule only ever eliminates a variable that needs the fewest fill-ins at that point; and the join tree is one connected tree over these cliques whose separators are the intersections "
     "of the cliques they join, with the running intersection property and each factor assigned exactly once to a clique holding its family. The network itself is not modified.",
     ["inputs", "configurations"], "every acyclic structure and every elimination order",
     "Tests compile one Huang-Darwiche example and compare cliques.",
     [EB], [("moralisation", EB + ":make_moralized_copy"), ("triangulation", EB + ":triangulate"), ("sepset insertion", EB + ":build_join_tree")],
     ["build_join_tree", "triangulate", "make_moralized_copy", "JoinTree.assign_clusters"], EXH,
     "All structures on <=4 labelled nodes, 5 (6) up to isomorphism, every elimination order on <=4 (5) nodes.")
prop("C08", "Propagation calibrates every cluster from any starting clique",
     "After evidence is entered and messages are propagated, the table of every clique and of every separator of the join tree equals the true joint marginal of its variables together with the "
     "evidence, whichever clique the propagation starts from, in whichever order neighbours are visited, and whatever evidence the tree was used with before.",
     ["schedules", "configurations"], "every starting clique and message order, for every network and evidence up to the bound",
     "Tests propagate once from the default clique and look at single-variable marginals.",
     [EB], [("collect/distribute", EB + ":JoinTree.propagate"), ("message passing", EB + ":JoinTreeCliqueNode.pass_message")],
     ["JoinTree.propagate", "JoinTree.initialize_potentials"],
     "exhaustive enumeration of message schedules on the real code against the enumerated joint", JOINT)
prop("C09", "Samples follow the posterior exactly and are never impossible",
     "Drawing samples from a belief network gives each complete assignment exactly with its posterior probability given the caller's values, independently for each sample; it never yields an assignment of "
     "probability zero, always keeps the given values, and never fails, whatever values the random source returns.",
     ["inputs", "fault_sequences"], "every sequence of values returned by the random source, for every network and given evidence up to the bound",
     "The test draws with one seed and compares a frequency within a tolerance.",
     [EB], [("inverse-cumulative draw", EB + ":BBN.draw_samples")], ["BBN.draw_samples"],
     "exhaustive exploration of all outcomes of the random source (choice points), exact weights",
     "The random module is replaced by a choice-point generator; distributions are compared as exact fractions on networks whose conditional probabilities share a small common denominator.")
prop("C10", "Conditional tables may be listed in any order",
     "A factor made from a conditional table takes the parents in alphabetical order followed by the child, and returns for every combination exactly the tabulated probability, whatever the order of the rows and "
     "of the given (parent, value) pairs within each row; networks built from such tables answer accordingly, with the domains the tables mention.",
     ["inputs"], "every order of rows and of givens within rows, for every table shape up to the bound",
     "Tests use tables in one listing order.",
     [EB], [("key normalisation", EB + ":make_node_func")], ["make_node_func", "build_bbn_from_conditionals"], EXH,
     "Exhaustive over the stated table shapes and orders.")
prop("C11", "Built networks have exactly the graph their factors describe",
     "Building a belief network from factor functions yields, for any order of factors and arguments, one node per variable introduced by the factor that models it, with exactly the other arguments as parents and the inverse children; "
     "the graph listing shows exactly these nodes and edges, and neither the functions, the list nor the domains passed are changed.",
     ["inputs"], "every structure, factor order and argument order up to the bound",
     "Tests build two or three networks in topological order.",
     [EB, "causalnex/ebaybbn/utils.py", "causalnex/ebaybbn/graph.py"], [("introducing-factor search", "causalnex/ebaybbn/utils.py:get_original_factors"), ("edge creation", EB + ":build_bbn")],
     ["build_bbn", "BBN.get_graphviz_source"], EXH, "Exhaustive over the stated structures and orders.")
prop("C12", "Independent parts and long networks are handled",
     "Networks made of several independent parts (including isolated variables) and networks of hundreds of variables compile and answer queries in finite time; evidence in one part leaves the marginals of the other parts unchanged and conditions its own part exactly.",
     ["inputs", "configurations"], "every combination of small parts, factor orders and evidence, and chains, stars and HMM shapes up to the bound",
     "Every test network is connected and has at most a dozen variables.",
     [EB], [("joining the forest into one tree", EB + ":build_join_tree")], ["BBN.query", "build_join_tree"], EXH, JOINT)
SI = "pandas, scikit-learn and pgmpy are not installed: minimal stand-ins (mc/standins) carry the data; what they do not model is reported as not explored."
INF = "causalnex/inference/inference.py"
SMF = "causalnex/structure/structuremodel.py"
prop("C13", "The inference engine answers with exact posterior marginals",
     "For any Bayesian network with conditional probability tables, InferenceEngine.query returns for every node a dictionary from each of its states to exactly the probability conditioned on the observations under the product of the "
     "tables, whatever the structure, the numbers of states, the types of the states and the names of the variables (names that are not made of letters, digits and underscores are rejected with ValueError). "
     "Observations of unknown nodes or states are rejected and leave the engine usable.",
     ["inputs", "configurations"], "every structure, tables, state types, variable names and observations up to the bound",
     "Tests query one fitted network of five nodes.",
     [INF, EB], [("tables become factor functions", INF + ":InferenceEngine._generate_bbn"), ("factor function per node", INF + ":InferenceEngine._create_node_function")],
     ["InferenceEngine.query"], EXH, "Exhaustive within the stated bounds on the real engine against the enumerated joint; " + SI)
prop("C14", "Interventions follow the do-calculus",
     "After do_intervention(node, state or distribution), every query equals the posterior of the mutilated network, in which the node has lost its parents and follows the given distribution: effects flow downstream only, and the "
     "other nodes keep their tables. reset_do(node) takes back the intervention on that node and no other. No state, an unknown state, a distribution over other states or not summing to one, or an unknown node, is refused and changes nothing.",
     ["inputs", "configurations"], "every structure, intervened node and distribution, with observations, up to the bound",
     "Tests intervene on one network and look at a few marginals.",
     [INF], [("do", INF + ":InferenceEngine.do_intervention"), ("reset", INF + ":InferenceEngine.reset_do")],
     ["InferenceEngine.do_intervention", "InferenceEngine.reset_do", "InferenceEngine.query"], EXH,
     "Exhaustive within the stated bounds against the enumerated joint of the mutilated network; " + SI)
prop("C15", "Histories of interventions, resets and queries compose",
     "After any history of interventions, resets, queries, refused calls and use of other engines on the same Bayesian network, the engine answers as one freshly made with exactly the interventions that are still active; neither the "
     "Bayesian network's tables nor the arguments nor other engines are affected.",
     ["histories"], "every sequence of operations up to the bound",
     "Tests perform one intervention and one reset per engine.",
     [INF], [("state of the engine", INF + ":InferenceEngine.do_intervention")], ["InferenceEngine.query"],
     "exhaustive enumeration of operation sequences on live objects against a reference model",
     "Every sequence of 3 (4) operations over 22 operations on three networks; " + SI)
prop("C16", "Edges of a structure model always know their origin",
     "In a StructureModel every edge carries the origin (unknown, learned or expert) it was last given through the constructor or the add methods (unknown if not given), together with the attributes it was given, through every history of additions, "
     "removals, copies, subgraphs, reversals and conversions; edges_with_origin lists exactly the edges of an origin; an invalid origin raises ValueError and changes nothing; derived graphs are independent of "
     "their source and directed ones are StructureModels.",
     ["histories", "inputs"], "every sequence of operations up to the bound, and every kind of constructor data",
     "Tests apply one operation to a fresh model.",
     [SMF], [("origin on every edge", SMF + ":StructureModel.add_edges_from")], ["StructureModel.edges", "StructureModel.edges_with_origin"],
     "exhaustive enumeration of operation sequences on live objects against a reference model",
     "Every sequence of 3 (4) operations out of 33 on two nodes; the sandbox's networkx 3 stands for the supported 2.5.")
prop("C17", "Subgraphs are exactly the weakly connected parts",
     "get_target_subgraph(node) returns the weakly connected part that holds the node, with all its nodes, edges and their attributes; get_largest_subgraph returns a part with the most edges, or None if there is no edge. The results are "
     "independent StructureModels, the graph itself is not modified, and a node that is not in the graph raises NodeNotFound.",
     ["inputs"], "every directed graph up to the bound and every target node",
     "Tests use a dozen hand-made graphs.",
     [SMF], [("weak components", SMF + ":StructureModel.get_largest_subgraph")], ["StructureModel.get_largest_subgraph", "StructureModel.get_target_subgraph"], EXH,
     "Exhaustive over the stated graphs on the real code.")
prop("C18", "Pruning by weight removes exactly the edges it should",
     "remove_edges_below_threshold(t) removes exactly the edges whose absolute weight is less than t (one of exactly t stays). threshold_till_dag removes edges in order of increasing absolute weight and stops at the first moment the graph has no "
     "directed cycle, so that it leaves acyclic graphs alone. Nodes, and the attributes of the edges kept, are untouched.",
     ["inputs"], "every weighted directed graph and threshold up to the bound",
     "Tests use two or three graphs with one threshold.",
     [SMF], [("pruning", SMF + ":StructureModel.remove_edges_below_threshold"), ("greedy cycle removal", SMF + ":StructureModel.threshold_till_dag")],
     ["StructureModel.remove_edges_below_threshold", "StructureModel.threshold_till_dag"], EXH, "Exhaustive over the stated graphs, weights and thresholds on the real code.")
NT, DT, TR = "causalnex/structure/notears.py", "causalnex/structure/dynotears.py", "causalnex/structure/transformers.py"
prop("C19", "Learned structures obey every constraint and carry the optimum faithfully",
     "A structure learned with from_numpy, from_pandas and their lasso versions has exactly the columns as nodes (also isolated ones), no self-loop, no forbidden edge, no edge out of a forbidden parent or into a forbidden child, and no edge below w_threshold; its edges are "
     "exactly the entries of the optimiser's last answer above the threshold, from cause to effect with their weights (origin learned for data frames). Running out of steps with a cyclic answer is warned about, and nothing else is; the penalty of a cyclic structure grows from call to call while the answers are cyclic. The optimiser is given the documented score (least squares plus beta times the absolute weights, plus a penalty that vanishes exactly "
     "on acyclic graphs) with its gradient. Data and arguments are not modified. NaN, infinite, empty or non-numeric data raise ValueError.",
     ["inputs", "configurations"], "every set of constraints, threshold and answer of the optimiser up to the bound",
     "Tests learn from a handful of data sets with one or two constraints, and see only the answers the optimiser happens to give.",
     [NT], [("bounds", NT + ":from_numpy"), ("index mapping", NT + ":from_pandas"), ("threshold", NT + ":_learn_structure"), ("l1", NT + ":_learn_structure_lasso")],
     ["from_numpy", "from_pandas", "from_numpy_lasso", "from_pandas_lasso"],
     "exhaustive enumeration of constraint sets and of the answers of a nondeterministic optimiser (environment model) on the real code",
     "The optimiser is any procedure returning a vector within the bounds; plus all constraint sets with the real one. Convergence quality on real data is not decided. " + SI)
prop("C20", "Learned dynamic structures obey every constraint and lag",
     "A structure learned with from_numpy_dynamic or from_pandas_dynamic has exactly the nodes {variable}_lag{0..p}; every edge ends at lag 0 and obeys the forbidden edges (lag, from, to), parents and children and w_threshold; its edges are exactly the entries of the optimiser's last answer, "
     "each at the right lag and direction. The optimiser is given the documented score of the series (least squares of the present on present and past, plus lambda_w and lambda_a times the absolute weights, plus the acyclicity penalty of the present) with its gradient; "
     "inputs are not modified; ill-shaped, empty or non-numeric inputs are rejected. A warning is given exactly when the answer is not acyclic.",
     ["inputs", "configurations"], "every set of constraints, threshold, number of lags and answer of the optimiser up to the bound",
     "Tests learn from three generated series with a handful of constraints.",
     [DT, TR], [("bounds per lag", DT + ":from_numpy_dynamic"), ("layout of the solution", DT + ":_reshape_wa"), ("node names", DT + ":_matrices_to_structure_model")],
     ["from_numpy_dynamic", "from_pandas_dynamic"],
     "exhaustive enumeration of constraint sets and of the answers of a nondeterministic optimiser (environment model) on the real code",
     "The optimiser is any procedure returning a vector within the bounds; plus single constraints with the real one. " + SI)
prop("C21", "Lagged tables pair each time with its own past only",
     "DynamicDataTransformer yields one row for exactly each time of each series whose p preceding times are present too, in order; its lag-k columns hold the values of that same series exactly k time steps earlier, never across a gap in the index or from another series; columns are those of "
     "fit in that order, named {column}_lag{k}. The arrays X and Xlags hold the same. Empty lists, non-frames, non-numeric columns, unordered or non-integer times, mismatched or missing columns and use before fit are rejected; inputs are not modified.",
     ["inputs", "histories"], "every pattern of present times over several series and every lag order up to the bound",
     "Tests use one contiguous series and one with a single gap.",
     [TR], [("cutting at gaps", TR + ":DynamicDataTransformer._cut_dataframes_on_discontinuity_points"), ("lagging", TR + ":DynamicDataTransformer._convert_realisations_into_dynotears_format")],
     ["DynamicDataTransformer.transform"], EXH, "Exhaustive over the stated patterns on the real code; " + SI)
CVM, DG = "causalnex/structure/categorical_variable_mapper.py", "causalnex/structure/data_generators"
prop("C22", "Schemas map every variable to its own columns",
    "For any schema (variables of any hashable names, types binary, continuous, count and categorical:k), VariableFeatureMapper assigns each variable its own columns: one for binary, continuous and count variables, k for a categorical one, together a partition of exactly the feature columns; "
    "feature names, indices, types and counts agree with each other in every query form (one variable, list, set, iterator). validate_schema returns exactly the given nodes with the given or the default type and rejects unknown types and missing or ill-formed cardinalities; inputs are not modified.",
    ["inputs", "configurations"], "every schema over the stated types and name tables, and every form of query",
    "Tests use one schema of three or four plainly named variables.",
    [CVM], [("mapping", CVM + ":VariableFeatureMapper.__init__"), ("validation", CVM + ":validate_schema")],
    ["VariableFeatureMapper", "validate_schema"], EXH, "Exhaustive over the stated types, names and sizes on the real code.")
prop("C23", "Generated structures are the weighted DAGs asked for",
    "Whatever the random source returns, generate_structure yields an acyclic StructureModel over exactly the nodes 0..n-1, without self-loops, whose weights have an absolute value within [w_min, w_max]; full graphs have all n(n-1)/2 edges, degree 0 gives none, Erdos-Renyi graphs "
    "contain a pair exactly when its draw is below degree/(n-1), Barabasi-Albert graphs attach each later node to at most degree/2 (rounded) earlier ones; every labelled DAG is reachable (every order for full graphs), with positive and negative weights in any combination. Invalid arguments raise ValueError.",
    ["inputs", "schedules"], "every outcome of the random source up to the bound, and all arguments",
    "Tests look at a few structures drawn with fixed seeds.",
    [DG + "/core.py", DG + "/wrappers.py"], [("structure", DG + "/core.py:generate_structure")],
    ["generate_structure"], "explicit-state exploration of the real code under an environment that enumerates every outcome of numpy.random",
    "Exhaustive over the outcomes of the draws (edge present or not, permutation, sign, three weights) within the stated sizes; other draws of the same kind are represented by these.")
prop("C24", "Generated data follow the structural equations and the schema",
    "sem_generator, nonlinear_sem_generator and the data frame and array wrappers yield n_samples rows whose columns are exactly the features of the schema, with values in the domain of their type (binary 0/1, counts non-negative integers, categoricals one-hot, all finite) whatever the random "
    "source returns and for every permitted distribution; without noise every child is the function of its parents that the edges and weights give; noise is drawn from the requested distribution and scaled by noise_std (by one for roots), counts are zero-inflated Poisson variables with the mean the parents give; equal seeds give equal data; wrappers equal the generators with one type for all. Cyclic graphs, unknown types and distributions raise ValueError; "
    "graph, schema and options are not modified.",
    ["inputs", "configurations", "schedules"], "every small DAG, assignment of types, option and pattern of the random source",
    "Tests generate from one graph per type and compare statistics of large samples.",
    [DG + "/core.py", DG + "/wrappers.py"], [("linear", DG + "/core.py:sem_generator"), ("nonlinear", DG + "/core.py:nonlinear_sem_generator"), ("wrappers", DG + "/wrappers.py")],
    ["sem_generator", "nonlinear_sem_generator", "generate_continuous_dataframe"], EXH,
    "Exhaustive over graphs, types and options up to three (four) variables, with a few patterns or seeds of the random source; the noise is traced to the draws of the requested distribution (numpy's distributions themselves are trusted). " + SI)
prop("C25", "Generated time series obey their dynamic structure",
    "generate_structure_dynamic yields nodes {i}_lag{l} for all variables and lags, edges only into lag 0, an acyclic present, weights within their ranges (decayed per lag). generate_dataframe_dynamic yields series in which every value is exactly the weighted sum of its present and lagged parents plus "
    "drift and noise, and every lagged column holds the values of its own variable that many rows before, for any numbers of variables and lags, names and node orders. The noise is drawn from the requested distribution, scaled by noise_scale, afresh for every value. The stationary generator returns such a pair of a structure with edges in the present and from the past (unless a degree is zero) and a series within +-1000, or, when none of max_data_gen_trials trials (at least one is made) gives one, a constant table with a warning; it always returns. Invalid arguments raise ValueError.",
    ["inputs", "configurations", "schedules"], "every small dynamic structure, names, options and patterns of the random source",
    "Tests look at shapes and column names of a few generated tables; no test relates the values to the structure.",
    [DG + "/wrappers.py"], [("series", DG + "/wrappers.py:generate_dataframe_dynamic"), ("structure", DG + "/wrappers.py:generate_structure_dynamic")],
    ["generate_structure_dynamic", "generate_dataframe_dynamic", "gen_stationary_dyn_net_and_df"], EXH,
    "Exhaustive over the stated structures and options on the real code. " + SI)
DI, PL, BNW, EV = "causalnex/discretiser/discretiser.py", "causalnex/plots", "causalnex/network/network.py", "causalnex/evaluation/evaluation.py"
prop("C26", "Discretisation puts every value into the bucket its method promises",
    "For every method, data set and shape, Discretiser.transform maps each value to the number of split points that are not above it, where the split points are: equal parts of the fitted range (uniform), the linearly interpolated quantiles at i/k (quantile), at p and 1-p (outlier) or at the "
    "given percentiles (percentiles) of the data of the last fit, or the given points (fixed). The result has the shape of the input; neither data nor options are modified; fit with fixed points raises RuntimeError; "
    "missing, unsorted or out-of-range options raise ValueError.",
    ["inputs", "configurations", "histories"], "every small data set, option combination and sequence of fits and transforms up to the bound",
    "Tests use one data set per method.",
    [DI], [("split points", DI + ":Discretiser.fit"), ("buckets", DI + ":Discretiser.transform"), ("options", DI + ":Discretiser.__init__")],
    ["Discretiser"], EXH + "; operation sequences against a reference model", "Exhaustive over the stated data and options on the real code; values within rounding error of a split point that is not exactly representable may fall to either side.")
prop("C27", "Plots show exactly the structure, styled as asked",
    "plot_structure yields a directed plot with exactly the nodes (also isolated ones) and edges of the structure, laid out once with the given program, where each attribute of a node, edge or the graph comes from the most specific layer that sets it: individual, then all_*, then the default style; "
    "structure, arguments and default styles are not modified. color_gradient_string(from, to, steps) lists steps+1 colours from exactly `from` to exactly `to`, each channel linearly interpolated (to within one), colours without alpha being opaque. "
    "The display functions render in png with the given program onto the given or new axes of the size in pixels times pixel_size_in, and raise ImportError when their package is missing.",
    ["inputs", "configurations"], "every small structure, combination of style layers and colour pair",
    "Tests style one three-node structure, one layer at a time.",
    [PL + "/plots.py", PL + "/display.py"], [("attributes", PL + "/plots.py:plot_structure"), ("gradient", PL + "/plots.py:color_gradient_string"), ("display", PL + "/display.py:display_plot_mpl")],
    ["plot_structure", "color_gradient_string", "display_plot_mpl", "display_plot_ipython"], EXH, "Exhaustive over the stated structures, layers and colours; pygraphviz, IPython and matplotlib are recording stand-ins, so rendering itself is not decided.")
prop("C28", "Fitted networks hold the counts and predict their posterior",
    "BayesianNetwork accepts exactly the connected acyclic structures and has their nodes and edges. After fit_node_states and fit_cpds (maximum likelihood, K2, BDeu) each table holds, for every state and configuration of the parents, the relative frequency of the (pseudo-counted) data, uniform where there is none, labelled "
    "by the original states. predict_probability(data, node) returns in columns {node}_{state}, with the index of the data, the probability of each state given the known columns (the parents if all are there, everything known otherwise), and predict a most likely state, whatever the names and states. "
    "Refitting replaces; data are not modified; null states, missing features, unknown methods and priors are rejected.",
    ["inputs", "configurations", "histories"], "every small structure, data set, kind of states and set of known columns, and every sequence of operations up to the bound",
    "Tests fit one five-node network whose states are 0..k and compare a few tables.",
    [BNW], [("construction", BNW + ":BayesianNetwork.__init__"), ("tables", BNW + ":BayesianNetwork.cpds"), ("complete data", BNW + ":BayesianNetwork.predict_probability"), ("incomplete data", BNW + ":BayesianNetwork.predict")],
    ["BayesianNetwork"], EXH + "; operation sequences against a reference model", "Exhaustive over the stated networks, data and known columns; the counting and the incomplete-data inference of pgmpy are stand-ins. " + SI)
prop("C29", "Evaluation metrics compare every prediction with its own truth",
    "roc_auc(bn, data, node) is the micro-averaged ROC over all pairs (row, state): each pair is scored by the probability predicted for that state and is positive exactly if the row holds that state; the area equals the share of (positive, negative) pairs ranked correctly, ties counted half, and the curve runs monotonically from "
    "(0,0) to (1,1) through points given by thresholds. classification_report gives under {node}_{state} exactly the precision, recall, f1 and support of that state. Both for any names and states (negative, multi-digit, boolean, words), missing states and missing columns; data are not modified.",
    ["inputs", "configurations"], "every small network, kind of states, set of test rows and known columns",
    "Tests use single-character string and single-digit states only.",
    [EV], [("pairing", EV + ":roc_auc"), ("report", EV + ":classification_report")], ["roc_auc", "classification_report"], EXH,
    "Exhaustive over the stated networks and test sets; scikit-learn's metrics are stand-ins that follow its documentation. " + SI)
PT = "causalnex/structure/pytorch/"
OPT = ("Exhaustive within the stated bounds on the real code. The optimiser is the environment: its answers are enumerated instead of computed (its variables are identified by the objective alone, so the layout of the code does not matter); "
       "torch is a stand-in that computes in double precision. Data values are fixed tables. ")
prop("C30", "The neural learner honours its constraints and reports what it learned",
     "pytorch.notears.from_numpy and from_pandas, on continuous data with or without hidden layers and intercepts: no edge ever violates tabu_edges, tabu_parent_nodes or tabu_child_nodes (also where several are given) and there are no self-loops, whatever the optimiser "
     "answers; the learned structure has every column as a node (its own name, in order) and exactly the edges whose weight is at least w_threshold in magnitude; weights are the absolute and mean_effect the signed average slope of the learner's own prediction "
     "of the child with respect to the parent, bias the intercept of the node (None without use_bias). Any number of rows is accepted. Data and arguments are not modified; data that are empty, of strings, or hold NaN or infinities are rejected with ValueError.",
     ["inputs", "configurations"], "every constraint set, threshold, intercept option, hidden layers and optimiser answer, up to the bound",
     "Tests run a real optimisation on few data sets and constraints; whatever it converges to must obey the constraints, and reports must match the learned equations for every answer.",
     [PT + "notears.py", PT + "core.py"], [("bounds from constraints", PT + "core.py:NotearsMLP.bounds"), ("adjacency and effects", PT + "core.py:NotearsMLP"), ("from_numpy", PT + "notears.py:from_numpy"), ("from_pandas", PT + "notears.py:from_pandas")],
     ["from_numpy", "from_pandas", "NotearsMLP"], EXH + ", the optimiser replaced by an environment whose answers are enumerated", OPT)
prop("C31", "The neural learner optimises the documented objective",
     "What the learner minimises is the sum over the columns of the mean negative log-likelihood of the column's type (half the squared error for continuous, logistic for binary, softmax for categorical, cumulative logit for ordinal, Poisson with log link for counts) plus "
     "rho/2 h^2 + alpha h for the documented acyclicity measure h on whole columns (zero exactly for acyclic structures) plus the lasso and ridge terms, and the gradient it hands to the optimiser is the slope of that objective, also with hidden layers. It never lowers rho, raises it tenfold only while h shrank "
     "less than to a quarter, raises alpha by rho h after every step, stops when h is below h_tol or after max_iter steps, warns of not having converged exactly when it runs out of steps with h still above h_tol, and keeps the last answer, whether or not the optimiser reports success. Without hidden layers the search starts from the same point whatever the random state; "
     "with hidden layers each column is predicted by its own network of the documented form (parameters of one column never enter another one's prediction).",
     ["inputs", "histories", "configurations"], "every assignment of types to columns, regularisation, intercept option, and every sequence of optimiser answers, up to the bound",
     "Tests compare final graphs on a few data sets with tolerances: a changed term, schedule or gradient often still finds them.",
     [PT + "core.py", PT + "nonlinear.py", PT + "dist_type/_base.py", PT + "dist_type/binary.py", PT + "dist_type/categorical.py", PT + "dist_type/continuous.py", PT + "dist_type/ordinal.py", PT + "dist_type/poisson.py"],
     [("objective", PT + "core.py:NotearsMLP._dual_ascent_step"), ("schedule", PT + "core.py:NotearsMLP.fit"), ("losses", PT + "dist_type/")],
     ["from_numpy", "from_pandas", "NotearsMLP.fit"], EXH + ", the optimiser replaced by an environment whose answers are enumerated", OPT)
prop("C32", "Columns of mixed types become the right nodes, edges and predictions",
     "With a dist_type_schema the learner makes one node per column, and one per category (in sorted order, the first keeping the column's name, all names distinct) for a categorical column; each node carries the distribution type of its column; constraints on a column hold for all of its "
     "categories, and there are no edges between categories of one column; edges, weights, effects and biases are those of the learned equations, whatever the order of the schema. The collapsed graph (one node per column) has an edge wherever any of the categories has one. reconstruct_data gives for "
     "every column its mean, probability of 1, rate, or probabilities per class, in the documented columns, for any number of rows. Schemas with unknown types, missing columns, or data that do not fit their type are rejected.",
     ["inputs", "configurations"], "every assignment of types and names to columns, schema order, constraint set, threshold and optimiser answer, up to the bound",
     "Tests use a few schemas, each with distinct plain names, and check shapes.",
     [PT + "notears.py", PT + "core.py", PT + "dist_type/__init__.py", PT + "dist_type/_base.py", PT + "dist_type/categorical.py", PT + "dist_type/ordinal.py", PT + "dist_type/binary.py", PT + "dist_type/poisson.py"],
     [("expansion into nodes", PT + "dist_type/categorical.py:DistTypeCategorical"), ("constraints on expanded columns", PT + "dist_type/_base.py:DistTypeBase"), ("reconstruction", PT + "core.py:NotearsMLP.reconstruct_data")],
     ["from_pandas", "from_numpy", "NotearsMLP.reconstruct_data"], EXH + ", the optimiser replaced by an environment whose answers are enumerated", OPT)
prop("C33", "DAGRegressor predicts from the learned equations, whatever holds the data",
     "DAGRegressor learns from X and y row by row (by position, whatever their index labels or containers) the equations the structure learner would learn from the columns of X and the target; predict gives for every row the target's mean under them (rate for a count target), not using y, independent of the other rows, on the original scale "
     "also with standardize (only continuous columns and a continuous target are standardized; whole-number data too). coef_, feature_importances_ and intercept_ are the signed and absolute effects on the target, in the order of the features, and its intercept; with dependent_target the target has no children; constraints, threshold, penalties "
     "and enforce_dag are honoured (the graph is then acyclic), further options reach the structure learner, get_edges_to_node gives the effects on any column, and plotting leaves the estimator as it is. fit returns the estimator, changes neither data nor parameters, and forgets earlier fits; get_params, set_params and clone keep every parameter; unfitted prediction raises NotFittedError; invalid options and data are rejected.",
     ["inputs", "configurations", "histories"], "every assignment of feature types, container, option, constraint set, optimiser answer and sequence of fits, up to the bound",
     "Tests fit few data sets with default indexes and compare shapes and scores.",
     [PT + "sklearn/_base.py", PT + "sklearn/reg.py"], [("fit", PT + "sklearn/_base.py:DAGBase.fit"), ("predict", PT + "sklearn/_base.py:DAGBase.predict"), ("reports", PT + "sklearn/_base.py:DAGBase.get_edges_to_node")],
     ["DAGRegressor.fit", "DAGRegressor.predict", "DAGRegressor.coef_"], EXH + ", the optimiser replaced by an environment whose answers are enumerated", OPT)
prop("C34", "DAGClassifier assigns the right class for labels of any kind",
     "DAGClassifier accepts labels of any kind (integers with gaps, negative, floats of whole value, strings, booleans, in arrays or Series of any index), classes_ holds the sorted distinct labels, predict_proba has one column per class in that order, giving the probabilities of the learned equations (logistic for 2 classes, softmax for "
     "unordered, cumulative logit for ordered ones; the type follows from the number of classes unless target_dist_type is given), and predict gives the most probable label. coef_, feature_importances_ and intercept_ have one row per equation (per class for categorical targets, in class order). fit changes neither data nor parameters and "
     "forgets earlier fits (also of other numbers of classes); fewer than two classes, continuous labels and invalid data raise ValueError, types for regression NotImplementedError, unfitted prediction NotFittedError.",
     ["inputs", "configurations", "histories"], "every kind of labels and target, assignment of feature types, container, constraint set, optimiser answer and sequence of fits, up to the bound",
     "Tests use labels 0..k and compare shapes.",
     [PT + "sklearn/clf.py", PT + "sklearn/_base.py"], [("encoding of labels", PT + "sklearn/clf.py:DAGClassifier.fit"), ("class of the highest probability", PT + "sklearn/clf.py:DAGClassifier.predict")],
     ["DAGClassifier.fit", "DAGClassifier.predict", "DAGClassifier.predict_proba"], EXH + ", the optimiser replaced by an environment whose answers are enumerated", OPT)
BNW2 = "causalnex/network/network.py"
prop("C35", "From data to answers: the whole chain agrees",
     "Pruning a weighted structure (threshold, then to a DAG, then its largest part), discretising the data, fitting a BayesianNetwork on that part and making an InferenceEngine of it gives, for every set of observations and intervention, exactly the posterior of the relative frequencies (with the prior chosen) of the data under that structure, "
     "labelled by the names and states of the data. What the network predicts for a variable from its parents is what the engine answers. An engine keeps the tables it was made from when the network is refitted, given new states, or its tables are handed out and changed; an engine made later has the later tables.",
     ["inputs", "configurations", "histories"], "every small structure, weighted digraph, kind of states, data set and method, every observation and intervention, and every sequence of operations up to the bound",
     "Tests exercise each part on its own, or one fixed chain on one data set.",
     [BNW2, INF, SMF, "causalnex/discretiser/discretiser.py"],
     [("fitting", BNW2 + ":BayesianNetwork.fit_cpds"), ("tables taken over by the engine", INF + ":InferenceEngine.__init__"), ("pruning", SMF + ":StructureModel.threshold_till_dag")],
     ["BayesianNetwork.fit_node_states_and_cpds", "InferenceEngine.query", "InferenceEngine.do_intervention"], EXH + "; operation sequences against a reference model",
     "Exhaustive over the stated structures, data and observations; the counting of pgmpy is a stand-in. " + SI)
