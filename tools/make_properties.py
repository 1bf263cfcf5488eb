#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties is kept here, in a readable form)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


prop("C01", "Incremental updaters always equal recomputation from scratch",
     "After any sequence of flips, every built-in updater of a partition (tallies of node attributes or of given data, cut edges, cut edges by part, boundary nodes, interior and exterior boundaries, perimeter, area) and every updater a user makes with the flow and edge-flow decorators has, for each part, the value a fresh computation from the graph and the current assignment gives. "
     "This does not depend on when or in what order the values are read, on which ancestors are still linked, on parts having been emptied and refilled on the way, or on other partitions derived from the same ancestors. "
     "Missing (NaN) data counts as zero, and reading a child's value never changes the value its parent reported.",
     ["histories", "inputs", "schedules"],
     "all graphs, attribute data, part labels, flip histories (single, multi-node, no-op, branching, emptying and refilling a part) and all read orders of updaters",
     "The tests compare a few updaters on one or two small graphs along short single-node flip histories, reading every value at each step; laziness, branching, multi-node flips, NaN and emptied parts are not reached.",
     ["gerrychain/updaters/tally.py", "gerrychain/updaters/flows.py", "gerrychain/updaters/cut_edges.py",
      "gerrychain/updaters/compactness.py", "gerrychain/partition/partition.py", "gerrychain/partition/geographic.py"],
     [("flows_from_changes / compute_edge_flows", "gerrychain/updaters/flows.py"),
      ("Tally and DataTally updates", "gerrychain/updaters/tally.py"),
      ("Partition.__getitem__ cache", "gerrychain/partition/partition.py")],
     ["partition[updater]"],
     [("updater cache", "values computed for one partition", "Partition._cache"),
      ("flows, edge_flows", "nodes and cut edges that changed part since the parent", "Partition")])

prop("C02", "Assignment, parts and subgraphs agree, and a flip never changes the past",
     "In every partition, however built (dict, Series, node attribute, existing assignment, random assignment, districtr file) and after any flips, each node has exactly the part last given to it, the parts are the level sets of that assignment and cover each node once, and each district's subgraph is the induced subgraph on its nodes. "
     "Flipping returns a new partition whose assignment is the old one with exactly the flips applied, and leaves the old partition's assignment, parts, subgraphs and reported values as they were, as well as the data passed in by the caller. "
     "An assignment whose keys are not the graph's nodes is refused with an error. Each partition reports the updaters it was given.",
     ["histories", "inputs"],
     "all graphs, node and part label types, ways of construction and (branching) flip histories",
     "The tests flip a few nodes of fixed small graphs once or twice, and rarely look back at the parent after deriving a child.",
     ["gerrychain/partition/assignment.py", "gerrychain/partition/partition.py", "gerrychain/partition/subgraphs.py",
      "gerrychain/graph/graph.py"],
     [("Assignment.copy / update_flows", "gerrychain/partition/assignment.py"),
      ("Partition._from_parent / _first_time", "gerrychain/partition/partition.py"),
      ("SubgraphView", "gerrychain/partition/subgraphs.py")],
     ["Partition.flip", "Partition.assignment", "Partition.parts", "Partition.subgraphs"],
     [("assignment.mapping / assignment.parts", "the two representations of one assignment", "Assignment")])

prop("C03", "A Markov chain yields exactly the valid, accepted states it should",
     "Iterating over a chain yields exactly the requested number of states, the first being the initial state; each later one is either a proposal made from the previous state that satisfied every constraint and was accepted, or, when a valid proposal was rejected by the acceptance function, the previous state again. "
     "A proposal that violates a constraint is never yielded, never passed to the acceptance function and uses up no step; the acceptance function sees the proposal with the current state as its parent; iterating again restarts from the initial state, and the progress-bar wrapper yields the same states. "
     "Building a chain, or replacing its constraints, with constraints (any callable or iterable of callables) that the initial state violates raises ValueError, and constraints that return a non-boolean raise TypeError.",
     ["histories", "inputs", "configurations"],
     "all proposal/constraint/acceptance behaviours, step counts, forms in which constraints are given, and repeated or partial iterations",
     "The tests use constant proposals and acceptance functions on mock states; they do not compare a chain against the sequence it must yield under arbitrary patterns of invalid and rejected proposals.",
     ["gerrychain/chain.py", "gerrychain/constraints/validity.py", "gerrychain/accept.py"],
     [("MarkovChain.__next__", "gerrychain/chain.py"), ("MarkovChain.__init__ and constraints setter", "gerrychain/chain.py"),
      ("Validator.__call__", "gerrychain/constraints/validity.py")],
     ["iter(MarkovChain)", "MarkovChain(...)", "MarkovChain.constraints"],
     [("counter, state", "position in the chain", "MarkovChain")])

prop("C04", "Contiguity constraints decide exactly whether districts are connected",
     "For a partition without a parent, and for one flipped from a contiguous parent, the contiguity constraints (the plain one, the breadth-first one, and for flips of one node to a neighbouring district the single-flip one) return true exactly when every district induces a connected, non-empty subgraph. "
     "The number of contiguous districts and the connected components reported for each district are the true ones, and the constraint against more discontiguous districts allows exactly the states with at least as many contiguous districts as the first state it saw.",
     ["inputs", "histories"],
     "all graphs (also disconnected ones), plans, part labels and flips of one or many nodes, with and without a parent",
     "The tests check a handful of fixed plans; an incremental check that looks at too few districts or stops too early is right on them.",
     ["gerrychain/constraints/contiguity.py", "gerrychain/constraints/bounds.py"],
     [("affected_parts", "gerrychain/constraints/contiguity.py"), ("are_reachable", "gerrychain/constraints/contiguity.py"),
      ("_bfs", "gerrychain/constraints/contiguity.py")],
     ["contiguous", "contiguous_bfs", "single_flip_contiguous", "number_of_contiguous_parts", "contiguous_components", "no_more_discontiguous"])

prop("C05", "Numeric and validity constraints accept exactly the states they describe",
     "Upper, lower, two-sided, self-configuring and percent-range bounds, the population-balance constraints (within a percent of ideal population, within tolerance of the smallest district), the no-vanishing-districts constraint and the deviation from ideal give, at every call of any sequence of calls, the answer of their definition, bounds being inclusive and self-configured bounds staying fixed from the first call on. "
     "A validator over any number of constraints is true exactly when all of them are, on every call.",
     ["inputs", "histories", "configurations"],
     "all populations, bounds, percentages (zero, negative and boundary values included), sequences of partitions and constraint collections",
     "The tests sample a few values per class, none at zero or negative initial values or over sequences of calls.",
     ["gerrychain/constraints/bounds.py", "gerrychain/constraints/validity.py"],
     [("Bounds and friends", "gerrychain/constraints/bounds.py"), ("within_percent_of_ideal_population etc.", "gerrychain/constraints/validity.py")],
     ["constraint(partition)"],
     [("bound, lbound, ubound", "limits fixed at the first call", "SelfConfiguring*, WithinPercentRangeOfBounds")])

prop("C06", "Balanced edge cuts of a tree are exactly the balanced ones",
     "For every tree with node populations, target and tolerance, both ways of finding balanced edge cuts (contraction and memoization) return in two-sided mode exactly one cut per tree edge whose removal leaves both sides within the tolerance of the target, whatever root is chosen. "
     "In one-sided mode every returned cut names a side within the tolerance, memoization returns a cut for each edge with such a side, and contraction for each edge whose side away from the root is strictly inside the tolerance. "
     "Each returned node set is one of the two components left by removing the named edge, and the inputs are not modified beyond the documented contraction.",
     ["inputs"],
     "all trees (from two nodes up), populations including zero, targets, tolerances and root choices",
     "The tests check one or two fixed trees and that cuts found on random grids look balanced, not that none is missed.",
     ["gerrychain/tree.py"],
     [("find_balanced_edge_cuts_contraction", "gerrychain/tree.py"), ("find_balanced_edge_cuts_memoization", "gerrychain/tree.py"),
      ("PopulatedGraph", "gerrychain/tree.py")],
     ["find_balanced_edge_cuts_contraction", "find_balanced_edge_cuts_memoization"])

prop("C07", "Spanning trees are spanning trees, with the promised law and count",
     "The random and the uniform spanning-tree samplers return, for every connected graph, a tree on exactly the graph's nodes using only its edges, and every spanning tree can occur; the uniform sampler draws each spanning tree with equal probability, the random sampler the minimum tree of independent random edge weights. "
     "With whole-number region surcharges, the random tree uses as few region-crossing edges as any spanning tree can, weighted by surcharge, and nodes without a region count as crossing. "
     "The number of spanning trees reported for each district is the true number of spanning trees of its subgraph.",
     ["inputs"],
     "all connected graphs, region labels (None included), surcharges and random streams",
     "The tests check that a tree comes back on one grid; no test looks at its distribution, at region crossing optimality or at the count on general districts.",
     ["gerrychain/tree.py", "gerrychain/updaters/spanning_trees.py"],
     [("random_spanning_tree", "gerrychain/tree.py"), ("uniform_spanning_tree (Wilson)", "gerrychain/tree.py"),
      ("num_spanning_trees", "gerrychain/updaters/spanning_trees.py")],
     ["random_spanning_tree", "uniform_spanning_tree", "num_spanning_trees"])

prop("C08", "A tree bipartition is connected on both sides and balanced",
     "Whenever a bipartition is returned (first-cut or random-cut method, either cut finder, either spanning-tree sampler, any root repeats, with or without region surcharges), the returned nodes and their complement are non-empty and each induces a connected subgraph, and both have population within the tolerance of the target; for a one-sided cut the returned side does. "
     "Given a spanning tree and region surcharges, the cut is chosen among the balanced cuts of that tree with the highest regional preference; without surcharges it is drawn uniformly among the balanced cuts of the tree, which is the first tree drawn that has any, each tree being tried with the set number of roots. "
     "When no balanced cut can be found within the allowed attempts, an error (the pair-reselection exception if that is enabled) or, where documented, None is the outcome, never an unbalanced side.",
     ["inputs", "configurations"],
     "all connected graphs, populations, targets, tolerances, option combinations and random streams",
     "The tests run a few seeds on small grids with unit populations and loose tolerance.",
     ["gerrychain/tree.py"],
     [("bipartition_tree", "gerrychain/tree.py"), ("bipartition_tree_random", "gerrychain/tree.py"),
      ("_region_preferred_max_weight_choice", "gerrychain/tree.py")],
     ["bipartition_tree", "bipartition_tree_random", "epsilon_tree_bipartition"])

prop("C09", "A ReCom step redraws two adjacent districts, connected and balanced",
     "Each ReCom proposal (function or class form, any bipartition method) differs from its parent only on nodes of two districts that were adjacent, keeps the set of district labels, and leaves both redrawn districts non-empty, connected and within the tolerance of the target population; the pair is that of a uniformly drawn cut edge, and region surcharges given to the step take effect (merging two balanced regions splits between them); hence along a chain of ReCom steps from a contiguous balanced plan every plan is contiguous and balanced. "
     "When the bipartition of every adjacent pair fails with reselection enabled, the proposal ends with the documented error instead of looping, and it succeeds whenever some adjacent pair can be split.",
     ["inputs", "histories", "configurations"],
     "all graphs, plans, populations, tolerances, label types, methods and random streams, and chains of steps",
     "The tests run ReCom for a few steps on small grids and check little more than population balance with default options.",
     ["gerrychain/proposals/tree_proposals.py", "gerrychain/tree.py"],
     [("recom", "gerrychain/proposals/tree_proposals.py"), ("epsilon_tree_bipartition", "gerrychain/tree.py")],
     ["recom", "ReCom"])

prop("C10", "Generated seed plans use every part, connected and within tolerance",
     "Every plan produced by recursive tree partitioning, by recursive seed partitioning (any chunk number or ceiling) or as a random initial partition assigns every node, uses every requested part label, and makes every part connected and within the tolerance of the target population. Recursive tree partitioning refuses unbalanced cuts of a user-supplied bipartition method, and finds a plan where every remaining region can be cut, as on a path or cycle of equal nodes. "
     "Splitting a graph into seed chunks covers all nodes once with the requested number of connected chunks, and the prime-factor helper returns the largest prime factor up to its ceiling.",
     ["inputs", "configurations"],
     "all connected graphs, populations, numbers and labels of parts, tolerances, methods, chunk parameters and random streams",
     "The tests produce a few plans on fixed grids and Iowa counties and check populations; labels, connectivity, tight tolerances and parameter combinations are not covered.",
     ["gerrychain/tree.py", "gerrychain/partition/partition.py"],
     [("recursive_tree_part debt bookkeeping", "gerrychain/tree.py"), ("recursive_seed_part_inner / get_seed_chunks", "gerrychain/tree.py"),
      ("Partition.from_random_assignment", "gerrychain/partition/partition.py")],
     ["recursive_tree_part", "recursive_seed_part", "get_seed_chunks", "Partition.from_random_assignment"])

prop("C11", "Reversible ReCom moves with exactly the reversible probabilities",
     "From any plan, one reversible-ReCom step either stays or redraws two adjacent districts into connected, balanced ones with the same labels, and it reaches a given neighbouring plan with the probability the published algorithm prescribes (pair chosen uniformly among ordered label pairs, uniform spanning tree of the merged region, uniform balanced cut, acceptance by number of cuts over bound times seam length), which makes the chain reversible with respect to the spanning-tree measure. "
     "A tree with more balanced cuts than the bound raises the reversibility error, never a silently biased move.",
     ["inputs", "configurations"],
     "all small graphs, plans, populations, tolerances, bounds and random streams; probabilities judged statistically",
     "The tests run the proposal for some steps on one graph; no test compares its transition law with the target law.",
     ["gerrychain/proposals/tree_proposals.py", "gerrychain/tree.py"],
     [("reversible_recom", "gerrychain/proposals/tree_proposals.py"), ("_bipartition_tree_random_all", "gerrychain/tree.py"),
      ("uniform_spanning_tree", "gerrychain/tree.py")],
     ["reversible_recom"])

prop("C12", "Flip-type proposals make only the moves they document, with their law",
     "Each flip-type proposal changes exactly what it documents: a random flip moves one end of a uniformly drawn cut edge into the district at its other end; the reversible variants draw uniformly among boundary nodes, or among (boundary node, neighbouring district) pairs; a chunk flip moves all differently-assigned neighbours of a random end of a uniformly drawn cut edge into that node's district; the every-district flip makes one boundary flip per district, at a random end of a uniformly drawn one of its cut edges; the any-node flip moves one node to an existing district; spectral ReCom re-splits two adjacent districts, those of a uniformly drawn cut edge, into two non-empty ones by the signs of the Fiedler vector of their subgraph. "
     "No proposal changes its parent or the graph's data that other computations read, and no proposal invents a district label. "
     "The cut-edge acceptance rule accepts with probability min(1, parent's number of cut edges over the proposal's).",
     ["inputs", "histories"],
     "all graphs, plans and random streams; probabilities judged statistically",
     "The tests check single outcomes with fixed choices; distribution, multi-district plans and side effects are not covered.",
     ["gerrychain/proposals/proposals.py", "gerrychain/proposals/spectral_proposals.py", "gerrychain/accept.py"],
     [("propose_* functions", "gerrychain/proposals/proposals.py"), ("spectral_cut", "gerrychain/proposals/spectral_proposals.py"),
      ("cut_edge_accept", "gerrychain/accept.py")],
     ["propose_random_flip", "propose_chunk_flip", "propose_flip_every_district", "propose_any_node_flip",
      "slow_reversible_propose", "slow_reversible_propose_bi", "spectral_recom", "cut_edge_accept"])

prop("C13", "Election results and partisan metrics follow from the votes exactly",
     "At every state of any flip history, an election reports for every party and district the true vote counts, totals and shares, a party wins a district exactly when it has more votes there than every other party, and seats, overall shares and per-district sequences agree with these. "
     "Mean-median, mean-thirdian, efficiency gap, partisan bias and partisan Gini equal their definitions computed exactly from the votes, wasted votes included. "
     "The same election attached to several partitions or graphs, or several elections on one partition, do not influence each other.",
     ["inputs", "histories"],
     "all vote data (zeros, districts without votes, floats, given as columns or as data), two or more parties, and flip histories",
     "The tests evaluate fixed small examples, mostly on mocked results and without a flip history.",
     ["gerrychain/updaters/election.py", "gerrychain/metrics/partisan.py", "gerrychain/updaters/tally.py"],
     [("ElectionUpdater / ElectionResults", "gerrychain/updaters/election.py"), ("partisan metrics", "gerrychain/metrics/partisan.py")],
     ["partition[election]", "ElectionResults methods"])

prop("C14", "County and locality split reports match the plan",
     "At every state of any flip history, county-split information lists each county's nodes and the districts it meets, marks it as not split, newly split or split before exactly by comparison with the parent plan (without a parent: not split or split before), and the constraint against new splits refuses exactly the plans with a newly split county. "
     "Region-split tallies count the regions containing a cut edge, and every locality score (parts, pieces, naked boundary, entropies, number of split localities) equals its definition. "
     "Evaluating a later or other partition never changes what was reported for an earlier one.",
     ["histories", "inputs"],
     "all graphs, county/locality labels (any hashable type), plans, histories and read patterns",
     "The tests check one small graph along a couple of flips, and locality scores on two fixed plans.",
     ["gerrychain/updaters/county_splits.py", "gerrychain/updaters/locality_split_scores.py", "gerrychain/constraints/validity.py"],
     [("compute_county_splits", "gerrychain/updaters/county_splits.py"), ("LocalitySplits", "gerrychain/updaters/locality_split_scores.py"),
      ("refuse_new_splits", "gerrychain/constraints/validity.py")],
     ["partition[county_splits]", "partition[LocalitySplits]", "tally_region_splits", "refuse_new_splits"])

prop("C15", "Graph data survives saving, joining and freezing unchanged",
     "Saving a graph to JSON and loading it back gives the same nodes, edges and attribute values (geometries are left out, or written as GeoJSON on request), and saving does not change the graph. "
     "Adding or joining tabular data sets exactly the requested columns on exactly the nodes whose key matches, with that row's values, and leaves all other attributes alone. "
     "The immutable graph inside a partition answers every query (neighbours, degrees, node and edge sets, attribute lookups, subgraphs, size, iteration) as the original graph does.",
     ["inputs"],
     "all graphs, node label and attribute types, data frames, key columns and column selections",
     "The tests round-trip one or two fixed graphs and join one fixed table.",
     ["gerrychain/graph/graph.py"],
     [("to_json / from_json", "gerrychain/graph/graph.py"), ("add_data / join", "gerrychain/graph/graph.py"), ("FrozenGraph", "gerrychain/graph/graph.py")],
     ["Graph.to_json", "Graph.from_json", "Graph.add_data", "Graph.join", "Partition.graph"])

prop("C16", "A graph built from geometries has the true adjacency and lengths",
     "For every collection of polygons that tile a region, the graph built from it (from a data frame or a file) has one node per row, an edge exactly where two polygons share a boundary of positive length (or, for queen adjacency, touch at all), the true shared lengths, areas, boundary flags and exterior boundary lengths, and the selected columns as attributes, in the requested projection, whose CRS it records. "
     "With these attributes a district's computed perimeter and area are those of the union of its polygons, at every state of a flip history. "
     "Islands and overlaps are warned about, invalid geometries are refused unless errors are ignored, and the input frame is not changed.",
     ["inputs", "histories", "configurations"],
     "all polygon tilings (holes, islands, multipolygons, any index labels), both adjacency rules, projection and error options",
     "The tests use one nine-square frame and one small shapefile.",
     ["gerrychain/graph/graph.py", "gerrychain/graph/adjacency.py", "gerrychain/graph/geo.py", "gerrychain/updaters/compactness.py"],
     [("rook / queen", "gerrychain/graph/adjacency.py"), ("add_boundary_perimeters", "gerrychain/graph/graph.py"),
      ("from_geodataframe / from_file", "gerrychain/graph/graph.py")],
     ["Graph.from_geodataframe", "Graph.from_file", "GeographicPartition"])

prop("C17", "Grids and compactness scores match plane geometry",
     "A grid partition of any dimensions has the expected nodes, edges (with diagonals on request), unit areas and populations and default quadrant plan, and at every state of a flip history its per-district population, area, cut edges, interior and exterior boundaries and perimeter are those of the union of unit squares. "
     "Polsby-Popper scores and the four aggregate norms of them equal their formulas at every state, and updaters given by the user take effect.",
     ["inputs", "histories"],
     "all grid dimensions from one by one, with or without diagonals, plans and flip histories",
     "The tests check fixed 4x4 or 10x10 grids.",
     ["gerrychain/grid.py", "gerrychain/metrics/compactness.py", "gerrychain/constraints/compactness.py", "gerrychain/updaters/compactness.py"],
     [("create_grid_graph / get_boundary_perim", "gerrychain/grid.py"), ("polsby_popper", "gerrychain/metrics/compactness.py")],
     ["Grid", "polsby_popper", "L1/L2/L-1 scores"])

prop("C18", "Optimization runs track the best plan seen and follow their acceptance rule",
     "In every optimization run (short bursts, tilted and variable-length bursts, tilted run, simulated annealing; maximising or minimising), the states yielded are the requested number of valid states of a chain from the initial plan, and after each one the best score and best plan are the best among all plans of this run so far, ties going to the later one. "
     "Each burst starts at the best plan so far; tilted runs accept an equal or better plan always and a worse one with probability p; annealing accepts with probability min(1, exp(-beta * magnitude * loss)) with beta taken at the step (the step updater's value) of the proposed plan; variable bursts start with length 2 and double it exactly after the given number of consecutive bursts of the current length without a better score. "
     "Earlier runs of the same optimizer do not influence a new run.",
     ["histories", "inputs", "configurations"],
     "all score functions, directions, burst parameters, temperature schedules, proposal behaviours and random streams",
     "The tests check that optima of one grid are found with given seeds.",
     ["gerrychain/optimization/optimization.py", "gerrychain/chain.py"],
     [("short_bursts, variable_length_short_bursts, tilted_run, simulated_annealing", "gerrychain/optimization/optimization.py")],
     ["SingleMetricOptimizer runs", "best_part", "best_score"],
     [("_best_part, _best_score", "best plan observed in the current run", "SingleMetricOptimizer")])

prop("C19", "Gingles scores and temperature schedules equal their definitions",
     "For every plan and threshold, each minority-opportunity score (count, partial reward, close-district reward, maximum and average penalties) equals its documented formula applied to the districts' true minority shares, at every state of a run, and the optimizer that counts opportunity districts maximises the chosen score. "
     "Every temperature schedule is periodic with the documented cycle, is 0 through the hot phase and 1 through the cold phase, stays within [0, 1], and follows the documented linear or logit ramps in between.",
     ["inputs", "histories", "configurations"],
     "all minority and total populations, thresholds, plans and flip histories; all phase durations and step numbers",
     "The tests evaluate one fixed plan and one set of durations.",
     ["gerrychain/optimization/gingleator.py", "gerrychain/optimization/optimization.py"],
     [("Gingleator scores", "gerrychain/optimization/gingleator.py"), ("*_beta_function", "gerrychain/optimization/optimization.py")],
     ["Gingleator", "SingleMetricOptimizer.*_beta_function"])

prop("C20", "Metagraph neighbours and diversity counts are exact",
     "The valid states one flip away from a plan, as enumerated, are exactly the plans that differ from it by moving one node into a district it borders and satisfy the constraints, each listed once, the valid flips are the flips leading to them, and the metagraph degree is their number. "
     "Wrapping a chain for diversity statistics yields the same states in order, with, after each, the number of steps, of distinct plans up to relabelling and of distinct districts seen so far.",
     ["inputs", "histories"],
     "all graphs, plans, constraint sets, and sequences of contiguous plans (repeated and relabelled ones included)",
     "The tests check two fixed partitions and one replayed chain.",
     ["gerrychain/metagraph.py", "gerrychain/meta/diversity.py"],
     [("all_cut_edge_flips", "gerrychain/metagraph.py"), ("collect_diversity_stats", "gerrychain/meta/diversity.py")],
     ["all_valid_states_one_flip_away", "all_valid_flips", "metagraph_degree", "collect_diversity_stats"])

prop("C21", "A seeded run is reproducible",
     "With the random seed (and, for labels whose hashes are randomised, the hash seed) fixed, any run (seed plan, ReCom, reversible ReCom, flip, spectral or region-aware chain, bursts) yields the same sequence of plans every time: in the same process, in a fresh process, after other partitions have been created or other runs made, and whether or not updater values are read along the way. "
     "All randomness comes from the seeded generator.",
     ["histories", "schedules", "configurations"],
     "all graphs, plans, proposals, seeds, interleaved unrelated work and read patterns",
     "One test compares two runs of one proposal on one graph in the same process.",
     ["gerrychain/proposals/proposals.py", "gerrychain/proposals/tree_proposals.py", "gerrychain/tree.py", "gerrychain/chain.py",
      "gerrychain/updaters/flows.py", "gerrychain/graph/graph.py"],
     [("use of the global random module", "gerrychain/tree.py, gerrychain/proposals"), ("lru_cache'd flows and graph queries", "gerrychain/updaters/flows.py, gerrychain/graph/graph.py")],
     ["sequence of assignments of a seeded run"])

prop("C22", "UTM conversion and reprojection are accurate",
     "For every latitude and longitude in range, conversion to UTM gives the standard zone number (with the Norway and Svalbard exceptions) and letter and coordinates that agree with an independent implementation of the projection, converting back returns the point, arrays are treated as their elements, and out-of-range or contradictory input is refused. "
     "Reprojecting a map puts it in the most common zone of its shapes' centroids without changing rows or other columns.",
     ["inputs"],
     "all valid coordinates, zones forced or not, hemispheres, scalar and array input, and maps in any CRS",
     "The tests check one map's zone and a few reprojected areas.",
     ["gerrychain/vendor/utm/conversion.py", "gerrychain/graph/geo.py"],
     [("from_latlon / to_latlon", "gerrychain/vendor/utm/conversion.py"), ("identify_utm_zone / reprojected", "gerrychain/graph/geo.py")],
     ["from_latlon", "to_latlon", "reprojected"])

prop("C23", "A run's memory does not grow with its length",
     "While a Markov chain is iterated - plainly, with a progress bar, wrapped for diversity statistics, or by an optimizer - and the yielded states are not kept by the user, only a small bounded number of plans (a few dozen at most) stays alive, however many steps the run takes and whatever is proposed, accepted, rejected or read on the way. "
     "A state the user does keep does not keep its ancestors alive once the run has moved on.",
     ["histories", "configurations"],
     "all proposals, constraints, acceptance functions, updaters, optimizers, run lengths and read patterns",
     "The tests never look at which partitions are alive, and their runs are too short to notice.",
     ["gerrychain/chain.py", "gerrychain/updaters/flows.py", "gerrychain/meta/diversity.py", "gerrychain/optimization/optimization.py"],
     [("parent of the parent erased", "gerrychain/chain.py"), ("bounded caches of flows", "gerrychain/updaters/flows.py")],
     ["live Partition objects after garbage collection"])

prop("C24", "Plotting a plan draws every unit in its district's colour",
     "When a plan is plotted - with the graph's own geometries, or with a GeoSeries or GeoDataFrame of the caller's whose index is the units in whatever order - every unit is drawn exactly once, with its own geometry, units of one district share a colour and units of different districts (up to the size of the colour map) do not. "
     "Geometries whose index is not the set of units are refused, and neither the plan nor the caller's data are changed.",
     ["inputs", "histories"],
     "all maps, row orders, unit and district labels, plans reached by flips, geometry sources and plotting options",
     "The tests only check that some figure is returned, for one plan whose rows are in order.",
     ["gerrychain/partition/partition.py"],
     [("matching of the assignment to the geometries' index", "Partition.plot in gerrychain/partition/partition.py"), ("Assignment.to_series", "gerrychain/partition/assignment.py")],
     ["polygons and face colours on the matplotlib axes returned by Partition.plot"])

prop("C25", "A failed or interrupted call leaves nothing half done",
     "If a computation ends with an exception - raised by a function the user supplied (proposal, constraint, acceptance, score, spanning-tree, cut or choice function), because the input is refused, or by an interrupt at any point inside the library - the exception reaches the caller as raised, and nothing is left half done: every existing partition still reports its assignment and parts and exactly the right updater values (also those whose computation was interrupted, when read again), the graph's data and the caller's objects are unchanged (a graph whose assignment was refused can still be edited), the failed call can be made again and gives a valid result, a chain goes on from its current state with the steps that remain, and an optimizer can be run again from the start.",
     ["histories", "fault_sequences"],
     "all points of failure, all computations (updaters, flips, chains, bipartitions, seed plans, proposals, optimizers, reading, joining and saving graphs), and all later use",
     "The tests hardly ever make a call fail, and never go on using the objects afterwards.",
     ["gerrychain/partition/partition.py", "gerrychain/chain.py", "gerrychain/tree.py", "gerrychain/proposals/tree_proposals.py", "gerrychain/optimization/optimization.py", "gerrychain/updaters/flows.py", "gerrychain/updaters/election.py", "gerrychain/graph/graph.py"],
     [("values are cached only once computed", "Partition.__getitem__ in gerrychain/partition/partition.py"), ("counter and state change only on a decision", "MarkovChain.__next__ in gerrychain/chain.py"),
      ("flows and totals updated on copies", "gerrychain/updaters"), ("trees are built on copies of the graph", "gerrychain/tree.py")],
     ["exceptions that come out", "updater values after a failure", "states yielded after a failure", "node and edge data after a failure"])

prop("C26", "Problems in the data are reported, and only those",
     "Whenever data with a problem enters the library, exactly the problem is reported: loading a graph (or asking for its warnings) names exactly the units that have no neighbour, also after edits; building a graph from a map names exactly the overlapping units and the islands, and says when there is no CRS; adding or joining tables names exactly the chosen columns in which a value is missing, for every column type and however rows are ordered or indexed; computing a tally or an election names exactly the units whose values are missing and the data concerned, from whatever source the values come; and a search for a balanced cut warns exactly when it reaches the set number of failed attempts (not when pair reselection is on) and fails exactly when the allowed attempts are used up. Data without problems gives no warnings.",
     ["inputs"],
     "all graphs, tables, maps, gaps and orders of rows",
     "The tests check that a few warnings appear; none checks what they name, or that clean data gives none.",
     ["gerrychain/graph/graph.py", "gerrychain/graph/adjacency.py", "gerrychain/updaters/tally.py", "gerrychain/updaters/election.py", "gerrychain/tree.py"],
     [("islands, missing values and CRS", "Graph.issue_warnings, check_dataframe and Graph.from_geodataframe in gerrychain/graph/graph.py"), ("overlaps", "warn_for_overlaps in gerrychain/graph/adjacency.py"),
      ("gaps in tallies", "gerrychain/updaters/tally.py"), ("attempts", "bipartition_tree in gerrychain/tree.py")],
     ["warnings", "Graph.islands", "exceptions of a search"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
