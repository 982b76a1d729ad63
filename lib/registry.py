import checks_core as cc
import checks_models as cm
import checks_train as ct
import checks_store as cs
import checks_config as cg
import checks_mpi as cp
import checks_kokkos as ck
import checks_net as cn
import checks_jit as cj
import checks_trace as cx
import checks_files as cf
import checks_ranks as cr
CHECKS = {"C25": cf.c25, "C24": cr.c24, "C22": cx.c22, "C23": cx.c23, "C19": cj.c19, "C18": cn.c18, "C16": ck.c16, "C17": ck.c17, "C13": cp.c13, "C12": cg.c12, "C11": cs.c11, "C09": cs.c09, "C08": ct.c08, "C10": ct.c10, "C14": ct.c14, "C15": ct.c15, "C20": ct.c20, "C21": ct.c21, "C06": cm.c06, "C07": cm.c07, "C01": cc.c01, "C02": cc.c02, "C03": cc.c03, "C04": cc.c04, "C05": cc.c05}
LEVEL = {}
NA = {}
ASSUME = [
    "single-threaded use of the library; at most one synchronous execution in flight per region",
    "as many features are set as the region declares; features and metrics are finite normal numbers",
    "region names are unique in their first 63 characters",
]
TV = "TLA+ specification (Apollo.tla) model checked with TLC; behaviours of it replayed on the real library and recorded traces validated against it (ApolloTrace.tla)"
NOTE = {
 "C01": (TV, "Design checked exhaustively for small constants; the library is judged on generated and random histories (all models, up to 300 policies, extreme features, retraining, loading), every choice compared with the specification's set of legal choices."),
 "C02": (TV, "Exact choice sequence of Static, StaticRegion, RoundRobin, explorers and Optimal on random interleavings; Random judged by reachability of every policy (false alarm probability below 1e-20 per draw)."),
 "C03": (TV, "All behaviours of three overlapping asynchronous executions (every completion order and poll point) plus random behaviours of the specification and wide random histories, replayed with an interposed device; dataset compared after every call and after shutdown."),
 "C04": (TV, "Dataset after every call compared with the specification's fold, in units of 2^-20 (first value bit for bit) over adjacent floats, permuted and sign-flipped vectors, many magnitudes."),
 "C05": (TV, "Best policies, traced best policies, learned answers and DatasetMap compared with the specification's minimum on random datasets with and without ties."),
 "C06": (TV.replace("(ApolloTrace.tla)", "(ApolloTrace.tla, CART.tla)"), "Answers of trees trained on random and exhaustive small datasets, at and between the training points, must be explained by some greedy Gini tree of the data the specification says was trained on; theorems about those trees checked on small grids (CARTMC)."),
 "C07": (TV.replace("(ApolloTrace.tla)", "(ApolloTrace.tla, CART.tla)"), "The stored forest's trees must each be explained by a bootstrap sample and its answers be a plurality of them; small forests are also judged by answers alone."),
 "C08": (TV, "Training observed through trainability, model files, execution counts and decisions after every call, for explicit, global-period, per-region-period and minimum-data triggers, small histories completely."),
 "C10": (TV, "Sequences of up to three processes sharing an output directory; contents of the dataset files and the regions created from them compared bit for bit with the specification's."),
 "C14": (TV, "Union of the regions' data computed by the specification; answers of all regions have to be explained by greedy Gini trees of it and agree with each other."),
 "C15": (TV, "CSV traces, execution info and the printed total compared with the specification's rows after random histories, including pending work at shutdown."),
 "C20": (TV, "All interleavings of two regions' executions plus random ones, each replayed in a random mix of calling styles; every region's data, count, trainability and choices compared after every call."),
 "C21": (TV, "Interposed monotonic and wall clocks and device events; recorded values from nanoseconds to years compared in scaled integer units, wall-clock jumps anywhere."),
 "C09": (TV, "Every store/load route (parameter, file argument, factory; same and other process) for random trees, forests and networks; decisions, explorer silence, probabilities and re-stored models compared with the originals at generated points, including exact thresholds."),
 "C11": (TV, "Stored models and datasets cut at every byte (quick: every byte of small files, sampled for larger ones) and missing files; the process must stop with an error or behave as the specification says for the original content."),
 "C12": (TV.replace("(Apollo.tla)", "(Apollo.tla, Config.tla)"), "TLC enumerates settings and their combinations (ConfigMC); each is run on the library and refusal or the observable effect of the setting compared with the specification."),
 "C13": ("TLA+ specification (Collective.tla) model checked with TLC; collective runs of the real library under MPI recorded and validated against it (CollectiveTrace.tla)", "Random rank-local datasets, disjoint, shared and missing regions, empty ranks, two to four ranks, repeated collective training; every rank's dataset and trained decisions compared with the specification's combination."),
 "C16": (TV.replace("(Apollo.tla)", "(Apollo.tla, Kokkos.tla)"), "TLC enumerates small problems completely (KokkosMC: candidates, product, bijectivity); random problems of sets and ranges of every kind are run on the connector, every value compared with the declared candidates, all combinations counted."),
 "C17": (TV.replace("(Apollo.tla)", "(Apollo.tla, Kokkos.tla)"), "Random nestings of contexts of several problems over several processes sharing model directories; region data, features, policies, times, flushes, model files, fences and reuse of stored models compared with the specification after every call."),
 "C18": (TV.replace("(Apollo.tla)", "(Apollo.tla, PolicyNet.tla)"), "Distributions of random networks through training, retraining, storing and loading (fresh, cached and drawn from), learning on balanced data, reward average on either side of the threshold with the weights compared before and after; sampling judged at 7 standard deviations."),
 "C19": (TV.replace("(ApolloTrace.tla)", "(ApolloTrace.tla, CART.tla)"), "A JIT build's trees and forests must be explained by the tree specification and decide as the interpreting build does for the same stored model (both directions, exact thresholds and neighbouring floats included), after retraining and loading, with many models alive, and with groups of processes forced to compile at the same time."),
 "C22": (TV.replace("(ApolloTrace.tla)", "(ApolloTrace.tla, CollectiveTrace.tla)"), "Policy lines (file and standard output), best-policy files and exchange files of random histories, several processes and 2-4 ranks compared with the rows the specification's state says; the same runs check that tracing changes nothing."),
 "C23": (TV, "Thousands of executions in every style and with lagging completions, repeated trainings, stores and loads of every model, and Kokkos contexts between two marks with equal specification entries; heap bytes, file descriptors and fake device events must not grow beyond a one-time allowance."),
 "C25": (TV.replace("(ApolloTrace.tla)", "(ApolloTrace.tla, Stored.tla)"), "Files of random trained and retrained trees and forests are read with a YAML reader and evaluated by the specification (decisions, node statistics, rows); random hand-written trees, forests and datasets with odd white space, comments and number formats are loaded by every route and have to decide, hold and store again what the specification reads in them; pictures of the two dot tools compared node by node."),
 "C24": (TV.replace("(Apollo.tla)", "(Apollo.tla, RanksMC.tla)"), "Independence, disjointness and completeness of the shared files checked exhaustively for 2-3 ranks (RanksMC); chains of one or two mpirun jobs of 2-4 ranks with different random histories, shapes and models in one directory, every rank's calls, files and reloaded models validated against the specification of a process alone; a rank rejected is run alone, to tell interference from other defects."),
}
