ORD = 'exhaustive enumeration of configurations, each executed on the real code under the controlled scheduler, against an independent reference model'
SCH = 'stateless model checking of the real code: exhaustive deviation-bounded exploration of message orders under a controlled scheduler, against an independent reference model'
NOTE = 'Real code (library unchanged) under a controlled scheduler and simulated network; every execution inside the stated bounds is run and compared with an f64 reference model written from the published definition. Trusted: the reference model, the scheduler, FIFO links, atomic handlers. Inputs whose correct result hinges on f32 rounding are left out (margin of the reference model). '

def m(*pairs):
    return [{'name': a, 'where': b} for a, b in pairs]

PROPS = [
 dict(id='P01', title='Local anomaly scores equal the published Series2Graph++ definition',
  statement='For every multivariate time series and every valid parameter setting, a run on one computer returns exactly the anomaly scores of the Series2Graph++ definition: phase-space embedding, projection, rotation, angular segmentation, intersections, density-peak nodes, transition graph, and per-query path scores normalised to 0..1. Score i belongs to the query that starts at row i, and anomalous queries get high values. Rounding differences aside, nothing but the series and the parameters influences the result.',
  over=['inputs','configurations'], quant='all series (any number of channels, lengths, offsets, amplitudes, words of motifs, stuck sensors, few distinct values) with at least one edge, all settings with pattern length >= latent + 3 and query length >= pattern length, with and without self-correction',
  why='The tests check single stages on one or two fixed series; the end-to-end result is never compared with an independent definition.',
  files=['src/training/mod.rs','src/training/segmentation/mod.rs','src/training/intersection_calculation/mod.rs','src/training/node_estimation/multi_kde/mod.rs','src/training/edge_estimation/edges_orderer.rs','src/training/scoring/mod.rs','src/data_manager/reference_dataset_builder/mod.rs','src/training/rotation/mod.rs'],
  mechanism=m(('stage pipeline','src/training/mod.rs'),('edge weights and node degrees','src/training/scoring/weights.rs')),
  technique=ORD, note=NOTE+'Families of series x sizes x rates x self-correction, and all words of six motifs over three letters.'),
 dict(id='P02', title='Scores do not depend on the number of threads or their timing',
  statement='For every number of helper threads, including more threads than there is work for, and for every order in which the helpers finish, a run ends and returns the same scores. This holds for in-memory and file input and also when the computers of a cluster use different numbers of threads.',
  over=['schedules','configurations'], quant='all thread counts (quick 1..12, 16 for small inputs), all completion orders of the helpers up to two deviations from the default order',
  why='Tests run one or two thread counts with whatever order the operating system chooses.',
  files=['src/data_manager/preprocessor/mod.rs','src/training/rotation/pca/mod.rs','src/training/rotation/pca/helper.rs','src/training/intersection_calculation/mod.rs','src/training/node_estimation/multi_kde/actors/mod.rs','src/training/scoring/mod.rs','src/training/scoring/helper.rs'],
  mechanism=m(('chunking and collecting of helper results','src/training/scoring/mod.rs'),('local merge of PCA results','src/training/rotation/pca/mod.rs')),
  technique=SCH, note=NOTE+'All orders with at most two deviations for six configurations; default order for the full grid of thread counts.'),
 dict(id='P03', title='A cluster of any size computes the same scores as a single computer',
  statement='For every series and every parameter setting whose rows are split over n computers, a distributed run publishes the same scores (same number, same values, same order) as a run on one computer. This holds for every cluster size, also if neither the rows nor the angles divide evenly and if the series is quiet (without transitions) throughout some computer\'s part.',
  over=['inputs','configurations'], quant='all cluster sizes (quick 2..5, thorough ..7), series families, channel counts, sizes, rates, remainders, self-correction on/off, thread counts; partitions without any transition and partitions of the smallest size included; every computer scores at least one query, rate >= number of computers',
  why='One distributed test with two nodes and one series exists; remainders, larger clusters and other series are never compared.',
  files=['src/data_manager/mod.rs','src/training/segmentation/mod.rs','src/training/intersection_calculation/mod.rs','src/training/edge_estimation/edges_orderer.rs','src/training/transposition/mod.rs','src/training/scoring/overlap.rs','src/training/scoring/weights.rs','src/data_store/node_questions/mod.rs'],
  mechanism=m(('node questions at borders','src/training/segmentation/mod.rs'),('transposition of nodes','src/training/transposition/mod.rs'),('overlap exchange','src/training/scoring/overlap.rs')),
  technique=ORD, note=NOTE+'Default schedule; P04 explores the schedules.'),
 dict(id='P04', title='Every message order leads a cluster to the same complete result',
  statement='For every order in which messages between the computers of a cluster and results of helper threads arrive (per connection in the order sent), a distributed run never panics, never hangs, publishes exactly the scores of a single computer, and every computer of the cluster ends.',
  over=['schedules'], quant='all interleavings of network deliveries and helper completions with at most two deviations from the default schedule, with and without preemption of pending local work, clusters of 2 to 5',
  why='Tests see only the orders that happen on a loopback interface of one machine; early and late messages of neighbouring stages practically never occur there.',
  files=['src/training/mod.rs','src/utils/rotation_protocol.rs','src/utils/direct_protocol.rs','src/training/rotation/pca/mod.rs','src/data_manager/stats_collector/minmax.rs','src/training/scoring/weights.rs','src/training/segmentation/mod.rs','src/training/intersection_calculation/mod.rs'],
  mechanism=m(('rotation protocol buffers','src/utils/rotation_protocol.rs'),('direct protocol buffers','src/utils/direct_protocol.rs')),
  technique=SCH, note=NOTE+'Quick: all schedules with one deviation (with preemption for six clusters), two deviations for the small ones as far as the time allows; the evidence tells which were cut.'),
 dict(id='P05', title='A cluster forms for every start and join order',
  statement='The main computer and the other computers may have any addresses, be started in any order, and connections may be set up in any order: the run starts exactly once all announced computers take part, all of them agree on who owns which part, and the run completes with the correct scores.',
  over=['schedules','configurations'], quant='all start orders of clusters of 2 to 4 (thorough 5) x all orders of their addresses (ports, IPs), several hash orders of the member sets, each with all schedules of one deviation',
  why='Tests start the nodes in one order.',
  files=['src/cluster_listener.rs','src/utils/mod.rs','src/lib.rs'],
  mechanism=m(('sorted member list of the main computer','src/cluster_listener.rs')),
  technique=SCH, note=NOTE),
 dict(id='P06', title='All input rows are distributed, none lost, whatever the row count',
  statement='For every number of rows and computers, each computer receives a contiguous part of the series, the parts cover all rows up to the last one including the remainder, each part carries exactly the additional rows that its last windows need, and the resulting scores cover the whole series.',
  over=['inputs','configurations'], quant='all row counts over several periods of the remainder x cluster sizes (quick 2..7) x pattern lengths, including remainders of at least the pattern length',
  why='Tests use one file whose length is fixed.',
  files=['src/data_manager/mod.rs','src/data_manager/data_reader/mod.rs'],
  mechanism=m(('partitioning of the file','src/data_manager/data_reader/mod.rs')),
  technique=ORD, note=NOTE+'Partitions are additionally read off the wire.'),
 dict(id='P07', title='Input files are read faithfully: notation and column range do not matter',
  statement='Every CSV notation of the same numbers (line ends, spaces, quotes, signs, exponents, header texts including numbers, byte order mark, missing final line break, blank lines) gives the same scores. The start and end column select columns like a Python range, including negative ends, ends beyond the last column, and 0 for "all": the same channels selected from a wider file give the same scores, locally and in a cluster.',
  over=['inputs','configurations'], quant='nineteen notations x all paddings of up to 2 (thorough 3) unused columns left and right x all ways to select x cluster sizes x channel counts',
  why='Tests read one file with one column range.',
  files=['src/data_manager/data_reader/mod.rs','src/data_manager/mod.rs'],
  mechanism=m(('column range','src/data_manager/data_reader/mod.rs')),
  technique=ORD, note=NOTE),
 dict(id='P08', title='The score file holds exactly the scores, one per line, replacing old content',
  statement='If an output path is given, the file there contains after the run exactly one line per query with the score in order and nothing of what was in the file before; this holds for in-memory, file and cluster runs, with and without explainability, and the file agrees with the returned scores. Without an output path no score file appears.',
  over=['inputs','configurations','schedules'], quant='modes x previous content of the file (absent, empty, longer, shorter, without line break) x thread counts x cluster sizes; all schedules with one deviation for small clusters',
  why='Tests write to a fresh temporary file in one mode.',
  files=['src/training/scoring/mod.rs','src/interface/sink.rs','src/training/mod.rs'],
  mechanism=m(('score output','src/training/scoring/mod.rs')),
  technique=ORD, note=NOTE),
 dict(id='P09', title='Self-correction is one global decision, taken exactly if backward prevails',
  statement='With self-correction, the whole embedding is mirrored exactly if fewer segment transitions of the whole series run forward than backward, whatever computers or threads counted them, and all computers of a cluster take the same decision; a tie mirrors nothing. Without self-correction the embedding is never mirrored.',
  over=['inputs','schedules','configurations'], quant='inputs of every class (clearly forward, one more forward, tie, one fewer, clearly backward) x cluster sizes 1..4 (5) x thread counts x rates; one-deviation schedules for mirrored runs',
  why='Tests have one series; ties and counts that differ between partitions do not occur.',
  files=['src/training/segmentation/mod.rs'],
  mechanism=m(('transition counting','src/training/segmentation/mod.rs')),
  technique=ORD, note=NOTE),
 dict(id='P10', title='Value range is global: extremes count wherever they occur',
  statement='The reference patterns are built from the minimum and maximum of the whole series per channel: an extreme value influences the scores identically at whichever row, channel, part or computer it occurs, including the first and last row and the additional rows between two parts.',
  over=['inputs','configurations'], quant='every row position of a single deep minimum (and maximum) x channel counts x 1, 2, 3 (4) computers',
  why='Tests use one series with the extremes somewhere in the middle.',
  files=['src/data_manager/stats_collector/minmax.rs','src/data_manager/reference_dataset_builder/mod.rs','src/data_manager/mod.rs'],
  mechanism=m(('min/max merge','src/data_manager/stats_collector/minmax.rs')),
  technique=ORD, note=NOTE),
 dict(id='P11', title='Borders between computers leave no trace in the scores',
  statement='Wherever the border between two parts of the series falls (within a transition, a quiet phase, before or after a wrap-around of the angle), transitions, nodes, edges and queries that span the border are counted exactly once and the scores equal those of a single computer.',
  over=['inputs','configurations'], quant='borders at 24 successive positions x series families including quiet start, middle and end x rates x cluster sizes 2..3 (5)',
  why='Tests have one border at one position.',
  files=['src/training/segmentation/mod.rs','src/data_store/node_questions/mod.rs','src/training/edge_estimation/edges_orderer.rs','src/training/scoring/overlap.rs','src/training/intersection_calculation/mod.rs'],
  mechanism=m(('node questions','src/data_store/node_questions/mod.rs'),('edge overlap','src/training/scoring/overlap.rs')),
  technique=ORD, note=NOTE),
 dict(id='P12', title='Scores are complete, finite and span 0 to 1',
  statement='Every run completes and delivers exactly (rows - pattern length + 1 - query length) scores, all of them finite and within 0..1, with 0 and 1 attained, for well- and ill-conditioned series (also whole numbers, few distinct values, exact repetitions, stuck sensors), locally and in a cluster.',
  over=['inputs','configurations'], quant='all series families x channel counts x sizes x rates x thread counts, also inputs that the other checks leave out; at least one edge, not all raw scores equal, no channel constant throughout, no embedded point exactly on a segment border',
  why='Tests look at one series.',
  files=['src/training/scoring/mod.rs','src/training/scoring/helper.rs'],
  mechanism=m(('normalisation','src/training/scoring/mod.rs')),
  technique='exhaustive enumeration of configurations on the real code under the controlled scheduler, checking form invariants of the result', note=NOTE),
 dict(id='P13', title='Runs are repeatable: iteration order of hash tables does not matter',
  statement='The same series and parameters give the same scores in every process, whatever order its hash tables iterate in, locally and in a cluster.',
  over=['schedules','configurations'], quant='hash seeds (quick 40, thorough 300 per configuration) x 0..4 cluster nodes x thread counts',
  why='A test process sees one random seed per run and compares with loose expectations.',
  files=['src/training/scoring/weights.rs','src/training/node_estimation/mod.rs','src/training/edge_estimation/edges_orderer.rs','src/cluster_listener.rs'],
  mechanism=m(('ordering of nodes and edges','src/data_store/mod.rs')),
  technique='exhaustive enumeration of hash orders (seeds) on the real code under the controlled scheduler, against an independent reference model', note=NOTE+'Seeds are enumerated, not all permutations.'),
 dict(id='P14', title='Explainability leaves scores unchanged and attributes them per channel',
  statement='With explainability the scores stay the same, and the contribution file has one row per score and one value per channel, each being the mean rarity of the query\'s nodes in that channel (share of the intersections in the same segment that lie elsewhere) minus the median of the channel. All values are finite for every series, thread count and helper order.',
  over=['inputs','schedules','configurations'], quant='series families x channel counts x rates x thread counts x self-correction, in memory and file mode; one-deviation schedules',
  why='One test with one series exists for the contribution.',
  files=['src/training/anomaly_contribution/mod.rs','src/training/mod.rs'],
  mechanism=m(('contribution per node','src/training/anomaly_contribution/mod.rs')),
  technique=ORD, note=NOTE),
 dict(id='P15', title='A call does not depend on the calls before it',
  statement='In one process, every sequence of runs (different series, parameters, interfaces, thread counts) gives for each run the result that it gives alone; no state survives a run.',
  over=['histories'], quant='all sequences of up to 3 (thorough 4) calls over an alphabet of nine runs, pairs of which differ in a single value, parameter or channel',
  why='Tests use a fresh process state or a single call each.',
  files=['src/lib.rs','src/interface/mod.rs','src/training/mod.rs'],
  mechanism=m(('fresh training state per call','src/lib.rs')),
  technique='exhaustive enumeration of call sequences up to a depth on the real code, against an independent reference model', note=NOTE),
 dict(id='P16', title='A dying computer never leads to wrong scores or orphaned computers',
  statement='If any one computer of a cluster dies at any moment, either the complete correct score file is published or none, nobody panics, and - once the cluster had formed - every other sub computer ends instead of waiting forever.',
  over=['crash_points','schedules'], quant='every event of the run as crash point x every victim x clusters of 2, 3, 4, each (2 and 3 nodes; thorough: all) with all one-deviation schedules',
  why='No test kills a node.',
  files=['src/cluster_listener.rs','src/training/mod.rs','src/training/scoring/mod.rs'],
  mechanism=m(('member-left handling','src/cluster_listener.rs')),
  technique='exhaustive enumeration of crash points and deviation-bounded schedules on the real code under a controlled scheduler with fault injection', note=NOTE+'Crash = the process is gone and its connections close after what was sent has been delivered.'),
 dict(id='P17', title='The command line means what its options say',
  statement='Every set of options on the command line, in short or long form, leads to exactly the result of a library call with these parameters, with the documented defaults for the options that are absent (pattern length 50, latent 16, rate 100, query length 75, all columns). Only the requested files are written; explainability in a cluster, unknown roles and malformed values are refused without writing anything.',
  over=['configurations','programs'], quant='all option sets of size <= 2 and >= n-1 (thorough <= 4 and >= n-2) of 13 options, forms rotating',
  why='No test covers the binary.',
  files=['src/bin/s2gpp.rs','src/parameters.rs'],
  mechanism=m(('argument parsing','src/parameters.rs')),
  technique='exhaustive enumeration of option sets up to a size, run on the real front end under the controlled scheduler, against library calls with explicit parameters', note=NOTE),
 dict(id='P18', title='An in-memory series gives the same scores in every memory layout',
  statement='A series handed over in memory gives the scores (and, with explainability, the contributions) of its values, however the array stores them: row by row, column by column, as a part or every second row or column of a larger array, or backwards. No layout makes the run fail or hang.',
  over=['inputs','configurations'], quant='seven memory layouts x channel counts 1..4 x sizes x thread counts x self-correction x explainability',
  why='Tests hand over freshly read arrays, which are always stored row by row.',
  files=['src/lib.rs','src/interface/mod.rs','src/utils/ndarray_extensions/mod.rs','src/data_manager/stats_collector/minmax.rs','src/data_manager/phase_spacer/mod.rs','src/data_manager/preprocessor/mod.rs'],
  mechanism=m(('column-wise minimum and maximum','src/utils/ndarray_extensions/mod.rs'),('windows of the phase space','src/data_manager/phase_spacer/mod.rs')),
  technique=ORD, note=NOTE),
 dict(id='P19', title='The Python package computes what the library computes',
  statement='For every set of options, given by keyword or by position, Series2GraphPP(...).fit_predict(X) returns the scores that the library computes for these parameters and values: a one-dimensional float array, whatever the element type and memory layout of X, which stays unchanged. Absent options have their defaults (latent a third of the pattern length, query length the pattern length, rate 100, at least one thread on a machine of any size). Earlier calls and other estimators do not matter. The file function and clusters of DistributedSeries2GraphPP.main/sub estimators write exactly the scores of the selected columns to the given path. Wrong input is refused with an exception that leaves the interpreter usable.',
  over=['configurations','inputs','histories'], quant='all combinations of values of seven estimator options; 9 element types x 11 layouts; all call sequences of length <= 3 (thorough 5) on two estimators; column ranges; clusters of 2 and 3 (thorough 4) processes',
  why='The package has no tests; its binding is not even compiled by the test build.',
  files=['src/python_binding.rs','s2gpp/__init__.py'],
  mechanism=m(('extension module','src/python_binding.rs'),('estimators','s2gpp/__init__.py')),
  technique='exhaustive enumeration of options, layouts and call sequences up to a depth, run on the real package and extension module, against an independent reference model',
  note='The real package and extension module (built from /repo), every case in a process of its own. Threads and sockets are scheduled by the operating system here (their schedules are enumerated in P02 and P04); a failure counts if it repeats. scikit-learn is not installed: its BaseEstimator is replaced by an empty class.'),
]
NA = {}
