"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = "source_py/simulation/percolation_sq_lattice.py"
LAT = "source_py/simulation/lattice.py"
CL = "source_py/simulation/cluster.py"
IDX = "source_py/simulation/index.py"
L0 = "source_py/simulation/percolation_sq_lattice_L0.py"
L12 = "source_py/simulation/percolation_sq_lattice_L1L2.py"
SP = "source_py/simulation/percolation_sq_lattice_shortest_path.py"
SITE = "source_py/simulation/site.py"
BOND = "source_py/simulation/bond.py"
ENS = "run_py/ensemble.py"
RSBD = "run_py/rsbd_percolatioin_run.py"
SPR = "run_py/shortest_path_run.py"
LIN = "source_py/analyze/lines.py"
out = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    out.append(d)


prop("C01", "The lattice is the periodic square lattice, for every side length",
     "For every side length L>=2, every site has exactly four distinct bonds (to its right, bottom, left and top neighbour on the torus) and every bond joins exactly the two adjacent sites its (orientation,row,column) names, each listing the other. "
     "Site ids are row*L+column, bond ids are orientation*L^2+row*L+column, and every id<->index conversion and every neighbour query agrees with that geometry.",
     ["inputs"], "All side lengths L>=2 and all sites/bonds of each lattice, including seam and corner sites.",
     "test_lattice only checks mutual incidence for L in {4,6..10}; it never checks which site a neighbour is, so a wrong-but-symmetric geometry passes.",
     [LAT, SITE, BOND, IDX],
     [("Lattice.init_ids / find_neighbor_bonds / left_bond_of_site / top_bond_of_site", LAT), ("calculate_id_from_index, get_*_by_index, get_row_col_from_id", LAT)],
     [("site_matrix/bond_matrix", "incidence lists of sites and bonds", LAT)],
     ["Lattice.get_neighbor_bonds", "Lattice.get_neighbor_sites", "Lattice.get_all_neighbor_sites", "Lattice.get_site_neighbor_of_site"])

prop("C02", "Clusters are exactly the connected components of the occupied lattice",
     "After any sequence of site placements, two bonds carry the same cluster label exactly when they are joined through occupied sites, each occupied site carries the label of its four bonds, and empty sites carry none. "
     "The cluster lists agree with the labels: every bond and every occupied site is in exactly one cluster, exactly once, and reported cluster sizes are the sizes of those components.",
     ["inputs", "histories"], "All lattice sizes L>=2, all placement orders, after every placement, for every percolation class.",
     "Tests check cluster contents only at the completely filled end state, where everything is one cluster; the intermediate partitions are never compared with anything.",
     [P, CL, LAT],
     [("merge_clusters_v2", P), ("ClusterPool.merge_cluster_with / clear_cluster", CL)],
     [("gid of sites and bonds", "cluster label", LAT), ("cluster_list", "members of each cluster", CL)],
     ["Lattice.get_site_gid_by_id", "Lattice.get_bond_gid_by_id", "ClusterPool.get_sites/get_bonds/get_cluster_*_count"])

prop("C03", "Wrapping is reported exactly when a cluster first winds round the torus",
     "When wrapping is checked after every placement, it is reported at exactly the first placement that makes some cluster contain a loop winding round the periodic lattice (in either direction or diagonally), never earlier and never later. "
     "From then on wrapping stays reported, and the cluster it follows is the one that wrapped first, through all later merges, until reset.",
     ["inputs", "histories"], "All L>=3, all placement orders, all percolation classes; every step of the history.",
     "Tests only assert that P1 reaches 1 on a full lattice (always wrapped) and one hand-made wrapping configuration; the step at which wrapping is reported is checked on five stored files only.",
     [P, LAT, IDX],
     [("detect_wrapping via relative indices", P), ("wrapping_correction_relative_index / relabel_relative_indices", P), ("root choice after wrapping in merge_clusters_v2", P)],
     [("after_wrapping, wrapping_cluster_id", "wrapping already seen, label of the wrapping cluster", P)],
     ["detect_wrapping()", "order_param_wrapping()", "get_pc()"])

prop("C04", "Critical values are those at the moment wrapping first appears, and stay",
     "The reported critical occupation probability, wrapping-cluster site count and wrapping-cluster bond count are those of the state right after the placement at which wrapping first appeared. "
     "They are 0 before wrapping and after reset, and no later placement changes them.",
     ["inputs", "histories"], "All L>=3, placement orders (complete or partial), classes, stepwise or run to the end, before and after reset.",
     "Only five stored L0 runs pin these numbers; stability under later placements and zero-before-wrapping are never tested.",
     [P],
     [("detect_wrapping records pc_*", P), ("get_pc / get_site_count_wrapping_cluster_pc / get_bond_count_wrapping_cluster_pc", P)],
     [("pc_occupied_site_count, pc_site_count_wrapping_cluster, pc_bond_count_wrapping_cluster", "values frozen at wrapping", P)],
     ["get_pc()", "get_site_count_wrapping_cluster_pc()", "get_bond_count_wrapping_cluster_pc()"])

prop("C05", "Relative coordinates unroll every cluster consistently",
     "Within any cluster that does not wrap, the relative coordinates of its sites are the cluster unrolled onto the plane: adjacent sites always differ by exactly the unit step between them, also across the periodic seam and after any merges. "
     "In every cluster, wrapping or not, differences of relative coordinates agree with differences of lattice position modulo L.",
     ["inputs", "histories"], "All L>=3, all placement orders, every adjacent pair of same-cluster sites after every placement.",
     "The shipped check accepts any neighbour offset of 1 or L-1 in either coordinate for at least one neighbour, so most inconsistent relabelings pass.",
     [P, IDX, SITE],
     [("get_relative_index, relabel_relative_indices, merge_clusters_v2", P), ("RelativeIndex arithmetic", IDX)],
     [("relative_index", "unrolled coordinate of each occupied site", SITE)],
     ["Site.get_relative_index()"])

prop("C06", "Entropy is the Shannon entropy of the bond-cluster size distribution",
     "After every placement the reported entropy equals the sum over clusters of -(b/B)ln(b/B), with b the cluster's bond count and B=2L^2 the total; it is ln(B) on an empty lattice and 0 when one cluster holds every bond. "
     "The incrementally maintained value and the value recomputed from the clusters agree at every step.",
     ["inputs", "histories"], "All L>=2, all placement orders, all classes, after every placement and in the recorded series.",
     "Only five stored L0 files compare entropies; entropy_v1 and entropy_v2 are never compared and other classes never checked.",
     [P], [("entropy_subtract / entropy_add", P), ("entropy_v1 / entropy_v2", P)],
     [("entropy_value", "incrementally maintained entropy", P)], ["entropy()", "entropy_v1()", "entropy_v2()", "get_entropy_array()"])

prop("C07", "Order parameters are the largest and the wrapping cluster's bond fractions",
     "After every placement the largest-cluster order parameter is the largest cluster's bond count over 2L^2 (0 before any placement), and the wrapping order parameter is 0 until wrapping appears and afterwards the bond count of the first-wrapped cluster over 2L^2. "
     "Both never decrease during a run and both are 1 on a full lattice.",
     ["inputs", "histories"], "All L>=3, all placement orders, all classes, every step, including orders in which another cluster is or becomes larger than the wrapping one.",
     "Tests assert only the end value 1.0 and five stored files; competing clusters larger than the wrapping cluster never arise there.",
     [P], [("track_largest_cluster", P), ("order_param_wrapping / order_param_largest_clstr", P)],
     [("largest_cluster_sz, wrapping_cluster_id", "size of largest cluster, label of wrapping cluster", P)],
     ["order_param_largest_clstr()", "largest_cluster()", "order_param_wrapping()", "get_order_param_*_array()"])

prop("C08", "Reset returns a simulation to a state indistinguishable from a new one",
     "After any history of placements, wrapping checks, complete or partial runs and earlier resets, reset leaves every observable as in a freshly built simulation: empty lattice, every bond its own cluster, maximal entropy, no wrapping, zero critical values, empty recorded series. "
     "The next realization then measures exactly what a new simulation would on the same order of sites; a retained custom order is the only thing that survives.",
     ["histories"], "All operation histories ending in reset, all classes, L>=3, followed by a further realization; repeated resets.",
     "Tests reset once, mostly on an untouched object, and look only at the final full lattice.",
     [P, LAT, SITE, BOND, CL, L12, SP],
     [("SitePercolation.reset and subclass resets", P), ("Lattice.reset / Site.reset / Bond.reset", LAT), ("ClusterPool.reset + init_clusters", CL)],
     None, ["all getters after reset()"])

prop("C09", "The recorded series have one aligned row per site placed by the run",
     "However runs, resets, manual placements and custom orders are mixed, since the last reset the recorded series hold exactly one entry per site placed while running, and the data table has one row per entry with columns occupation probability, entropy, largest-cluster order parameter, wrapping order parameter, all belonging to the same moment. "
     "The k-th occupied site gives occupation probability k/L^2.",
     ["histories", "inputs"], "All histories of run / reset / place / set custom order, all site-percolation classes except the shortest-path one (which records nothing), L>=3.",
     "get_data_array and get_occupation_prob_array are never called by a test.",
     [P], [("run_once / reset / get_data_array", P)],
     [("occupation_prob_list, entropy_list, order_wrapping_list, order_largest_list", "recorded series", P)],
     ["get_data_array()", "get_occupation_prob_array()", "get_entropy_array()", "get_order_param_*_array()"])

prop("C10", "A custom site order is followed exactly",
     "A plain simulation given a custom list of distinct sites, as ids or as (row,column) indices, occupies exactly those sites, in exactly that order, and then reports that nothing is left; with shuffling on it occupies exactly those sites in some order, the one it reports. "
     "Reset replays the same list (reshuffled if shuffling is on), and replacing the list by a longer one with the same beginning places only the additional sites.",
     ["inputs", "histories"], "All distinct-site lists (partial or complete), id and index forms, shuffle on/off, with resets and extensions in between; plain and shortest-path classes.",
     "Tests use two fixed hand-written lists and one index list per stored file, without checking the placement order.",
     [P], [("set_custome_site_id_list / set_custome_site_index_list / shuffle / select_site", P)],
     [("site_ids_indices, mode_custome_site_id, max_iteration_limit", "site order and its mode", P)],
     ["place_one_site()", "get_site_id_sequence()", "get_index_sequence()"])

prop("C11", "Equal seeds give identical simulations, different seeds different ones",
     "Building a simulation of the same class and length with the same seed and applying the same operations gives identical site orders, measurements and critical values, whatever ran before in the process, in another process, and under any hash seed. "
     "Every seed counts, zero included, and simulations with different seeds do not repeat each other.",
     ["inputs", "histories", "configurations"], "All classes, lengths, seeds (0, negative, huge, text), prior process history, resets in between, across interpreter processes.",
     "No test compares two runs of the same seed.",
     [P, L12, SP], [("Percolation.__init__ seeding", P), ("shuffle / select_site draws", P)], None,
     ["get_site_id_sequence()", "get_data_array()", "get_pc()"])

prop("C12", "Ordinary site percolation draws a fresh uniformly random order each time",
     "In plain site percolation each next site is uniformly distributed over the still empty sites, whatever was placed before, for a new simulation and after every reset. "
     "Successive realizations, of one simulation or of several unseeded ones, use independent orders; a shuffled custom list is likewise uniformly ordered.",
     ["inputs", "histories", "configurations"], "All lengths, seeds and numbers of preceding realizations; conditional distribution at every step of every realization.",
     "A statistical statement over all seeds and realizations; tests never look at the order.",
     [P, L0], [("shuffle, called by constructor and reset", P), ("select_site", P)], None, ["get_site_id_sequence()", "place_one_site()"])

prop("C13", "The L1 class follows the first-neighbour selection rule without bias",
     "At every step of an L1 simulation the next occupied site is distributed as: draw a lattice site (a listed one, if restricted to a custom list) uniformly; if it is empty take it, otherwise draw one of its four neighbours uniformly and take it if empty, otherwise discard the trial and draw again. "
     "Setting aside exhausted sites to save work never changes these probabilities, at any filling and after any reset.",
     ["inputs", "histories"], "All lengths, seeds, fillings from empty to full, and realizations after resets.",
     "A distribution over random choices at each filling level; tests only run L1 to a full lattice, which any rule reaches.",
     [L12, SITE, LAT], [("SitePercolationL1.select_site", L12), ("Site.is_removable / reduce_1st_nn", SITE)],
     [("site_ids_indices[current_idx:]", "remaining candidates", L12)], ["place_one_site()", "Lattice.get_site_gid_by_id"])

prop("C14", "The L2 class follows the straight-line second-neighbour rule without bias",
     "At every step of an L2 simulation the next occupied site is distributed as: draw a site (a listed one, if restricted to a custom list) uniformly; if occupied draw one of its four neighbours; if that is occupied too, take the next site straight on in the same direction on the torus; take the first empty one of these three, discard the trial if all are occupied. "
     "The rule is the same at the periodic seam as everywhere else, and setting aside exhausted sites never changes the probabilities.",
     ["inputs", "histories"], "All lengths, seeds, fillings, seam and interior sites, realizations after resets.",
     "A distribution over random choices; tests only run L2 to a full lattice, which any rule reaches.",
     [L12, SITE, IDX], [("SitePercolationL2.select_site", L12), ("correct_index_for_periodicity / Index.normalize", L12)],
     [("site_ids_indices[current_idx:]", "remaining candidates", L12)], ["place_one_site()", "Lattice.get_site_gid_by_id"])

prop("C15", "Placement steps are truthful and every run fills exactly what it should",
     "Each placement attempt either occupies exactly one previously empty site, or (L1/L2 only) reports the trial as spent and changes nothing observable, or reports that no site is left; occupied sites never become empty. "
     "Every run ends, a default run only when all L^2 sites are occupied, and an L1 or L2 run restricted to a custom candidate list ends cleanly with exactly the candidates and everything they can reach occupied.",
     ["inputs", "histories"], "All classes, L>=2, seeds, custom candidate lists, every attempt of the history, attempts after exhaustion.",
     "Tests look at the filled lattice only; status reports, discarded trials and exhaustion of custom lists for L1/L2 are untested.",
     [P, L12], [("select_site / place_one_site", P), ("SitePercolationL1/L2.select_site", L12)],
     [("selection_flag, occupied_site_count, current_idx", "outcome of last attempt, sites placed, progress", P)],
     ["place_one_site()", "selection_flag", "occupation_prob()"])

prop("C16", "A reported site sequence replays to the same measurements",
     "After a run of any class (plain, L1 or L2) the reported site-id sequence and index sequence both list the occupied sites in the order they were occupied. "
     "Feeding either into a plain simulation as a custom order reproduces every series and critical value, and a sequence already handed out keeps describing its own run.",
     ["inputs", "histories"], "All classes, lengths, seeds, realizations after reset; both sequence forms.",
     "Only five stored L0 files are replayed; L1/L2 sequences are never replayed.",
     [P, L12, RSBD], [("get_site_id_sequence / get_index_sequence", P), ("site_id_sequence_record", L12)], None,
     ["get_site_id_sequence()", "get_index_sequence()"])

prop("C17", "p* is the first filling at which the wrapping cluster holds a straight line",
     "A shortest-path run stops at exactly the first placement after which the (first-wrapped) wrapping cluster contains a complete row or a complete column, and reports that occupation probability as p*. "
     "If the sites run out first it reports 0; the critical values are those of ordinary percolation on the same order, and p* is never below pc.",
     ["inputs", "histories"], "All L>=3, all placement orders including several competing wrapping clusters, partial custom orders, runs after reset.",
     "Tests check only consistency between 'p* is zero' and the final row/column scan on random runs; the moment of stopping is never checked, and competing wrapping clusters are too rare to appear.",
     [SP], [("ShortestPathAfter_pc.run_once", SP), ("scan_row_col_of_selected_site / scan_all_rows / scan_all_cols", SP)],
     [("shortest_path_p", "reported p*", SP)], ["run_once()", "get_shortest_path_p()", "scan_all_rows()/scan_all_cols()"])

prop("C18", "Entropy/order files hold the exact ensemble average, correctly labelled",
     "An ensemble run writes one entropy-order file whose rows are the plain average, over exactly the requested number of realizations, of each realization's measurements at each number of occupied sites. "
     "The header states the true length and ensemble size, and each column contains the quantity its header description names.",
     ["inputs", "configurations"], "All classes, lengths, ensemble sizes, seeds and worker numbers, for every entropy/order ensemble entry point.",
     "No test runs an ensemble or reads an output file.",
     [ENS], [("run_ensemble_entropy_order*", ENS), ("write_entropy_order", ENS)], None, ["./data/*_entropy_order_*.txt"])

prop("C19", "Critical-value files hold one true row per realization",
     "An ensemble run writes one critical-values file with exactly one row per realization, in order: that realization's critical occupation probability, wrapping-cluster site count and wrapping-cluster bond count, with a header stating the true length and ensemble size. "
     "No realization is lost, repeated or mixed with another.",
     ["inputs", "configurations"], "All classes, lengths, ensemble sizes, seeds and worker numbers.",
     "No test runs an ensemble or reads an output file.",
     [ENS], [("run_ensemble_entropy_order / run_ensemble_entropy_order_threads_v2", ENS), ("write_critical_values", ENS)], None, ["./data/*_critical_values_*.txt"])

prop("C20", "Shortest-path ensemble files hold one true (pc, p*) row per realization",
     "A shortest-path ensemble writes one file with exactly one row per realization holding that realization's pc and p* in this order, with a header stating the true length and ensemble size and columns.",
     ["inputs", "configurations"], "All lengths, ensemble sizes, seeds, worker numbers.",
     "No test runs the shortest-path ensemble.",
     [SPR, SP], [("ensemble_shortest_path_v2_thread / write_p_p_star", SPR)], None, ["./data/*_shortest_path_p_*.txt"])

prop("C21", "A stored single realization is self-consistent and replayable",
     "The cross-check file of a single realization contains the length, the site sequence (as ids and as indices), critical values and series of one and the same run: replaying either stored sequence in a plain simulation reproduces every stored number.",
     ["inputs", "configurations"], "All entropy/order classes (plain, L1, L2), lengths and seeds.",
     "Tests replay five pre-stored files; they never produce one, and none comes from L1 or L2.",
     [RSBD, P, L12], [("single_realization", RSBD)], None, ["./data/*_percolation_cross_check_data_*.txt"])

prop("C22", "Parallel runs deliver every worker's independent share",
     "A parallel run with n workers and E realizations leaves, for each worker, its own complete output files stating E//n realizations of the requested length and of the requested percolation class, and returns only when all are written. "
     "Workers use independent random streams, and no worker's output overwrites another's.",
     ["configurations", "schedules"], "All numbers of workers, ensemble sizes E>=n, lengths, interaction kinds, for every parallel driver.",
     "No test starts a parallel run.",
     [RSBD, SPR, ENS], [("run_simulation_threads* ", RSBD), ("run_simulation_shortest_path_threads", SPR)], None, ["./data/*"])

prop("C23", "Printed views show the true state",
     "The printed lattice views and cluster list show exactly the current state: each site's and bond's label, id or position, each site's relative coordinate, and exactly the non-empty clusters with their members and number.",
     ["inputs", "histories"], "All view formats, at every stage of a run, all classes and lengths (below the printing width limits).",
     "Tests print views but never read the output.",
     [P, LAT, CL, SITE, BOND], [("viewLattice / viewCluster", P), ("Lattice.view / view_relative_index / view_site_gids", LAT), ("ClusterPool.view / OneCluster.view", CL)], None, ["stdout"])

prop("C24", "Curve-intersection and guide-line helpers return what they promise",
     "For two curves sampled at the same points that cross exactly once (whether or not they coincide over a stretch at either end, as recorded series do), the intersection helper (plotting or not, on whole arrays or on a chosen column) returns the index just before the crossing, independently of scale and of which curve comes first. "
     "Guide-line helpers return the requested number of points, evenly spaced over the requested range (default included), at the requested coordinate.",
     ["inputs"], "All curve pairs with a single sign change, all columns, ranges and sizes.",
     "The analysis module has no test.",
     [LIN], [("find_intersection / find_intersection_and_plot / draw_*_line_at", LIN)], None, ["return values"])

prop("C25", "Measurements do not depend on where or how the lattice is drawn",
     "Applying any symmetry of the periodic square lattice (translation, reflection, transposition and their compositions) to the order of sites leaves every measurement unchanged: critical values, entropy and order-parameter series, and p*.",
     ["inputs"], "All L>=3, all orders, all 8L^2 symmetries, plain and shortest-path classes.",
     "No test relates two runs; asymmetries between rows and columns or at the seam are invisible to end-state checks.",
     [P, LAT, SP], [("whole placement / merging / wrapping pipeline", P)], None, ["run_once() and getters"])

prop("C26", "Simulations in one process do not disturb each other",
     "Any number of simulations may exist and advance in any interleaving: each one's lattice, clusters, order and measurements depend only on its own operations. "
     "In particular, site lists passed in by the caller and the site sequences and recorded series a simulation hands out stay independent: no simulation alters a list the caller passed in or one it handed out earlier, whoever uses it.",
     ["histories", "schedules"], "All interleavings of place / run / reset / custom-order operations over several simulations of any class and length, with shared argument lists.",
     "Tests only ever drive one simulation at a time.",
     [P, CL, LAT, L12], [("per-instance Lattice and ClusterPool", P), ("set_custome_site_id_list / get_site_id_sequence", P)], None, ["all getters"])

prop("C27", "Invalid custom site lists are refused without side effects",
     "A custom list naming any site that does not exist (an id or a row or column outside the lattice) is refused, and an empty list is refused; the simulation then behaves exactly as if the call had not been made. "
     "No out-of-range entry is silently turned into some other site.",
     ["inputs", "histories"], "All lists containing at least one out-of-range id or coordinate, at any position, before or during a run.",
     "Tests never pass an invalid list.",
     [P], [("range checks in set_custome_site_id_list / set_custome_site_index_list", P)], None, ["subsequent run behaviour"])

prop("C28", "Looking never changes anything",
     "Calling any reader (measurement getters, sequence and data getters, views, cluster and neighbour queries, repeated wrapping checks, built-in consistency checks) any number of times at any point of a run does not change anything measured afterwards, nor the order of sites.",
     ["histories"], "All interleavings of reader calls with placements and resets, all classes, L>=3.",
     "Tests never compare a run with and without readers.",
     [P, LAT, CL, SP], [("getters, view*, entropy_v1, detect_wrapping idempotence, scan_*", P)], None, ["all getters"])

prop("C29", "Cluster-pool operations conserve members and labels",
     "Creating clusters, merging one into another (then clearing the absorbed one) and clearing keep the pool a faithful ledger: the surviving cluster holds exactly both member lists, every member's label on the lattice is the survivor's, counts match the lists, other clusters are untouched, and reset empties the pool and restarts numbering.",
     ["histories"], "All sequences of create / add / merge+clear / reset on a pool with its lattice.",
     "The pool is only exercised through whole simulations that end in one cluster.",
     [CL, LAT], [("ClusterPool.create_new_cluster / merge_cluster_with / clear_cluster / reset", CL)],
     [("cluster_list", "clusters by id", CL)], ["get_sites/get_bonds/get_cluster_*_count", "Lattice gids"])

prop("C30", "An ensemble run given a seed is reproducible; unseeded ones are independent",
     "Two ensemble runs (entropy/order or shortest path) with equal seed, class, length, size and worker number make the same realizations and write the same numbers, whatever ran before, in another process and under any hash seed; every seed counts, zero included. "
     "Different seeds, and separate unseeded runs, make different realizations, and the realizations within one ensemble differ from each other.",
     ["inputs", "histories", "configurations"], "All entry points that take a seed, classes, lengths, ensemble sizes, seeds (0, huge, text), prior process history, across interpreter processes.",
     "No test runs an ensemble, let alone two of them.",
     [ENS, SPR, P], [("run_ensemble_entropy_order_threads_v2 seed argument", ENS), ("ensemble_shortest_path_v2_thread seed argument", SPR), ("Percolation.__init__ seeding", P)], None,
     ["./data/*.txt", "place_one_site()"])

prop("C31", "Line scans report exactly the complete lines of the wrapping cluster",
     "At every point of a shortest-path simulation (wrapping checked after each placement, also beyond the first line) scan_all_cols answers whether some complete row, and scan_all_rows whether some complete column, lies entirely in the first-wrapped cluster; complete lines of other clusters do not count and before wrapping both are false. "
     "Once wrapping has appeared, the scan of a given site answers the same for that site's own row (first) and column (second).",
     ["inputs", "histories"], "All L>=3, all placement orders, after every placement, any site, also after reset; including lines at the border and several competing clusters.",
     "Tests compare the scans with p* only at the end of random runs; scans at other moments and with competing clusters are never looked at.",
     [SP], [("scan_all_rows / scan_all_cols / scan_row_col_of_selected_site", SP)], None, ["scan_all_rows()", "scan_all_cols()", "scan_row_col_of_selected_site()"])

prop("C32", "Measurements depend only on the order of sites, not on how a run is driven",
     "For one order of occupied sites, the clusters, the critical values, entropy, order parameters and the series rows after each site are the same whether the sites are placed one by one (wrapping checked after each), in one run, in several runs extending the list, or by hand first and then in a run; whether the order is given as ids or positions, on a new simulation or after a reset, in the plain, base or shortest-path class, and also when the order is one an L1 or L2 run produced.",
     ["inputs", "histories"], "All L>=3, all orders (complete or partial), all ways of splitting a realization into manual steps and runs, all classes.",
     "Tests drive each realization in one way and compare only end states of full lattices.",
     [P, L0, SP, L12], [("run_once versus place_one_site + detect_wrapping", P), ("set_custome_site_*_list continued", P)], None, ["all getters", "get_data_array()"])

prop("C33", "Runs never touch each other's output files",
     "Ensemble runs, shortest-path runs and stored realizations that differ in class, length or worker number each leave their own complete set of files, however quickly they follow each other: no run overwrites, changes or removes a file of an earlier one, and the header of each file states the length and ensemble size of the run that wrote it.",
     ["histories", "configurations"], "All histories of runs over all entry points, classes, lengths (also of several digits) and worker numbers, within the same second.",
     "No test writes an output file.",
     [ENS, SPR, RSBD, P], [("write_entropy_order / write_critical_values file names", ENS), ("write_p_p_star", SPR), ("single_realization", RSBD), ("get_signature", P)], None, ["./data/*"])

prop("C34", "Results and tallies that runs print are true",
     "The printing shortest-path ensemble (ensemble_shortest_path_v1) announces, for each of its realizations once and in order, its number and its true p*. The two ready-made runs are the same every time, whatever the state of the random generator: run_shortest_path (L = 6) ends by printing the p* of the one realization it made, run_simulations stores the exact average and the critical values of the 100 realizations of L = 5 it made. occupied_summary of an L1 simulation prints how many placement attempts since construction or reset found the site drawn first occupied and turned to a neighbour; that of an L2 simulation prints this too and also how many found all of them occupied, so that nothing was placed.",
     ["inputs", "histories"], "All lattice lengths, ensemble sizes and random states; all histories of attempts and resets, free or restricted to candidate lists.",
     "No test looks at anything that is printed.",
     [SPR, RSBD, L12], [("ensemble_shortest_path_v1 / run_shortest_path", SPR), ("run_simulations", RSBD), ("occupied_summary and its counters in select_site and reset", L12)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in out:
        f.write(json.dumps(d) + "\n")
print(len(out))
