prop('C01', 'Every segment has exactly one owner in the cluster',
 'For every segment count and every cluster size not larger than it, the segments 0..rate are partitioned over the cluster nodes: each node owns the contiguous block of floor(rate/nodes) segments starting at its index times that size, and the last node also owns the remainder. Every component that asks for the owner of a segment, for the first segment of the i-th next node, or for the ring distance from one node to another gets an answer consistent with that partition.',
 ['configurations', 'inputs'], 'all rates, cluster sizes n <= rate, segments, node indices and offsets',
 'Tests look at a handful of (rate, n, segment) triples; agreement must hold for all, including remainders and wrap-around.',
 ['src/parameters.rs', 'src/training/mod.rs'], [('owner of a segment', 'Parameters::segment_id_to_assignment, Training::segment_id_to_assignment'), ('first segment of the i-th next node', 'Parameters::first_segment_of_i_next_cluster_node'), ('ring distance', 'Training::cluster_node_diff')],
 'All obligations discharged by Verus for all machine integers in range (rate < 2^62). Assumed: num_integer floor division/modulus, usize is 64 bit.')
prop('C03', 'Exactly the crossing, forward transitions are kept, in order, at their owner',
 'Of the steps between consecutive points, exactly those that change segment and advance at most half a turn become transitions; each is kept once, in order, and handed to the node that owns its start segment, including the step that spans two nodes\' partitions, and a question is raised exactly where the path passes from the segments of one node to those of another, also across partitions and over partitions without any transition. With self-correction, the points are mirrored and segmented again exactly if the clockwise crossings outnumber the valid transitions, each counted once.',
 ['inputs', 'configurations'], 'all point sequences, rates, cluster sizes and node indices',
 'Tests segment a few short hand-made sequences; loops over arbitrary sequences and every owner/wrap combination are not reachable by samples.',
 [SEG, TR, 'src/data_store/mod.rs'], [('validity of a step', 'TransitionMixin::crosses_segments / has_valid_direction'), ('segmentation loop', 'Segmenter::build_segments, find_splits'), ('partition boundary', 'Handler<SendFirstPointMessage>'), ('self-correction', 'Segmenter::self_correction, try_self_correction, clear_segmentation')],
 'Verus proof of the real segmentation loop, split search, boundary handler and self-correction for all inputs; points are opaque (id, segment), collections and protocol counters through stated contracts, message sends recorded. Exhaustive + random native replay.')
prop('C04', 'A transition meets each segment it enters exactly once',
 'For every kept transition from segment a to segment b, one intersection is requested for each of the segments a+1, a+2, ..., b counted around the circle, and for no other segment; with no transition the stage finishes at once. The reported intersection is where the straight line of the transition meets the plane at that segment\'s start angle.',
 ['inputs', 'configurations'], 'all sets of valid transitions and all rates, all coordinates of an even number of dimensions',
 'Tests check one spiral with rate 100; wrap-around, half-turn and odd-rate cases are never sampled.',
 ['src/training/intersection_calculation/mod.rs', 'src/utils/geometry.rs', TR], [('entered segments', 'IntersectionCalculator::calculate_intersections'), ('line/plane intersection', 'utils::line_plane_intersection')],
 'Which pairs (transition, segment) are requested is proved by Verus on the real loop for all inputs. Over the reals it is also proved that each requested pair carries the line through the transition\'s two points and a plane through the origin at that segment\'s start angle, that line_plane_intersection returns a point on that line and in that plane, and that work returns its paired distances from the origin. Assumed: ndarray-linalg\'s inv is the inverse when it succeeds, the matrix is regular, cos, sin and pi are uninterpreted, no rounding; the real f32 is compared natively with a double-precision oracle (bounded).')
prop('C05', 'Edges follow the path of the data through the nodes',
 'For every transition, its nodes are visited in the order the transition passes their segments, also when it runs past the last segment into the first; consecutive visited nodes are joined by one edge, the last node of one transition is joined to the first of the next, and no other edge exists. Where the path continues on another cluster node, the edge leads to the node that was received as the answer for exactly that point and segment, and the local chain restarts afterwards.',
 ['inputs', 'configurations'], 'all node sets (per point: consecutive segments with at most one wrap) and all answered questions',
 'Tests join a few fixed lists; the wrap with one node on either side, missing predecessors and foreign continuations combine beyond what samples reach.',
 ['src/training/edge_estimation/mod.rs', 'src/training/edge_estimation/edges_orderer.rs', 'src/data_store/edge/mod.rs'], [('order within a transition', 'EdgesOrderer::add_node, check_for_gap, into_vec'), ('chain over transitions', 'EdgeEstimator::connect_nodes')],
 'Verus proof of the real orderer and of the chaining loop for all inputs: the edges equal a recursively defined chain. Assumed: node lists per point are sorted by segment (produced that way), std Vec/HashMap contracts. Native replay.')
SC, SCW = 'src/training/scoring/mod.rs', 'src/training/scoring/weights.rs'
prop('C06', 'Edges are counted cumulatively per point of time',
 'The table that turns points of time into ranges of the sorted edge list has, for every point of the node\'s partition (counted from its first point), exactly the number of edges that lead to that point or an earlier one. It is long enough for every point of the partition (one fewer on the last cluster node) and for every point an edge leads to; points without edges repeat the count before them.',
 ['inputs', 'configurations'], 'all edge lists sorted by target point, all partition starts and lengths, all nodes of the cluster',
 'Tests count a few short lists; gaps, ties, leading and trailing points without edges and non-zero partition starts combine beyond samples.',
 [SCW], [('cumulative counts', 'ScoringWeights::count_edges_in_time')],
 'Verus proof of the real loop for all sorted edge lists. Assumed: edges are sorted and none precedes the partition (C13, C20). Defect found and fixed (9b2bba7). Native replay exhaustive + random.')
prop('C07', 'The score of a window is the negated mean normality of its edges',
 'A scoring helper asked for the windows start..start+length answers with exactly length scores for exactly that start. The score of the window of query_length points beginning at point i is minus the sum, over the edges from the count at point i up to and including one edge past the count at its last point, of edge weight times (degree of the start node minus one), divided by the number of those edges plus 1e-8. A window without edges repeats the score before it in the answer, or is 0 at the beginning of the answer, and the answer says whether its very first window was without edges.',
 ['inputs', 'configurations'], 'all edge lists, cumulative counts, weights, degrees, query lengths and chunk boundaries',
 'Tests score one fixed list; every chunk boundary, empty window and clipping at the end of the list must agree.',
 ['src/training/scoring/helper.rs', 'src/data_store/edge/materialized.rs'], [('mean of an edge range', 'ScoringHelper::score_p_degree'), ('windows and carry', 'Handler<ScoringHelperInstruction> for ScoringHelper')],
 'Verus proof of the real handler and mean over exact reals (f32 rounding not modelled; native replay compares within tolerance). Assumed: every edge has a weight and its start node a degree >= 1 (C08), counts are monotone and bounded (C06).')
prop('C08', 'Edge weights and node degrees are exact counts, summed over the cluster',
 'The weight of an edge is how often an edge between the same two nodes (same segment and cluster at both ends) occurs; the degree of a node is the number of distinct edges that start in it plus the number that end in it. In the distributed exchange each node adds every other node\'s table to its own exactly once, passes its own table and every received one but the last on to the next node, keeps what arrives before it has started for later, and is done exactly when both exchanges are.',
 ['inputs', 'schedules', 'configurations'], 'all edge lists; all tables; all arrival orders and cluster sizes',
 'Tests count one graph on one machine; multiplicities, self loops, key collisions and message order are not sampled.',
 [SCW, 'src/data_store/edge/mod.rs', 'src/data_store/edge/materialized.rs', 'src/data_store/node/independent.rs'], [('counts', 'calculate_edge_weight, calculate_node_degrees'), ('key equality', 'PartialEq/Hash of IndependentNode, Edge, MaterializedEdge'), ('exchange', 'start_node_degrees_rotation, start_edge_weight_rotation, Handler<NodeDegrees>, Handler<EdgeWeights>')],
 'Verus proof of counting, key equality/hash agreement, the sum of two tables, and of what each handler sends, for all inputs; sends are recorded, delivery is actix\'s. Native replay captures the real messages from a socket.')
prop('C11', 'No message of an exchange round is lost, handled early or handled twice',
 'A message that arrives before its exchange round was started is kept and, when the round starts, comes back once, in the order of arrival (in a ring also before any message that waits in the mailbox, so that all travel in ring order); a message that arrives while the round runs is handled at once and counted. A ring or direct round runs until as many messages as announced were both received and sent, and then no longer; a helper round runs until all announced answers were received. Starting a round never forgets what was counted or kept.',
 ['schedules', 'histories'], 'all interleavings of start, receive, send and resolve, all round sizes',
 'Tests run a cluster on one schedule; early messages and every interleaving of counters are not sampled.',
 ['src/utils/rotation_protocol.rs', 'src/utils/direct_protocol.rs', 'src/utils/helper_protocol.rs'], [('ring rounds', 'RotationProtocol'), ('direct rounds', 'DirectProtocol'), ('helper rounds', 'HelperProtocol')],
 'Verus proof of every method of the three protocols of a whole round over any arrival history, and of a whole ring (every node gets every other node\'s message once); the mailbox of the actor is actix\'s. Native replay of random histories.')
prop('C09', 'Every window is scored exactly once, whatever the order of the answers',
 'The windows of a node (as many as it has points of time, minus query_length - 1) are split into contiguous, non-empty chunks that tile them without gap or overlap, one per helper answer waited for, and every helper scores the node\'s own edges, counts, weights, degrees and query length. Answers may arrive in any order: each is used once, in the place of its windows; windows without edges continue the last score before them also across chunks; the assembled scores are complete exactly when all answers are in, and are then handed on once, together with the note whether the node\'s very first window was without edges.',
 ['schedules', 'inputs', 'configurations'], 'all window counts, thread counts, empty windows and arrival orders of the answers',
 'Tests score with one machine\'s schedule; arrival orders, chunk boundaries at empty windows and more threads than windows are not sampled.',
 [SC], [('chunks', 'Scorer::score, parallel_score'), ('assembly', 'Handler<ScoringHelperResponse>'), ('carry', 'fill_up_first_missing_points'), ('hand-on', 'finalize_parallel_score')],
 'Verus proof of the chunking, of one answer as a state transition, and of the history lemma that any order ends with the same complete scores. Assumed: SyncArbiter delivers every instruction once; exact reals. Defect found and fixed (916c47e). Native replay over arrival orders.')
prop('C10', 'The final score joins all nodes\' scores in node order, scaled to [0, 1]',
 'The result has one value per window of the whole series: the nodes\' scores in node order, where a node whose first window was without edges continues the last score of the node before (leading windows of the series without edges count as 0). It is scaled linearly so that the smallest raw score becomes 0 and the largest 1 (all 0 if they are equal), never NaN. The output file has exactly these values, one per line, in order. In the exchange every node\'s scores are stored under that node\'s index and passed on unchanged until every node has all of them.',
 ['inputs', 'schedules', 'configurations'], 'all score vectors, cluster sizes and arrival orders',
 'Tests normalise one vector; constant scores, empty first windows across nodes and the ring exchange are not sampled.',
 [SC], [('scaling', 'normalize_score'), ('concatenation', 'finalize_scoring'), ('output', 'output_score'), ('exchange', 'Handler<SubScores>')],
 'Verus proof over exact reals of scaling, concatenation, file content (as a log of written lines) and of the exchange handler. Assumed: csv::Writer, ndarray concatenate/max/min. Defect found and fixed (6e85237). Native replay reads the real file.')
DS = 'src/data_store/mod.rs'
prop('C02', 'Points keep their identity and lie in the segment of their angle',
 'Applying the rotation to a node\'s slice of the series stores one point per row, in row order, with consecutive ids that start where the slice starts in the whole series. A point\'s segment is the one of the rate equal sectors of the plane of its first two coordinates that contains its angle (counted from 0 to rate-1, anticlockwise from the positive x axis). Mirroring the points keeps ids, order and coordinates, except that the plane is mirrored, and recomputes every segment. A transition keeps both its points when it is sent to another node and stored there.',
 ['inputs', 'configurations'], 'all series, slice offsets, rates and angles (over reals)',
 'Tests segment a few hand-made points; the borders, the offset of later nodes and mirrored or transferred points are not sampled.',
 ['src/data_store/point.rs', 'src/data_store/utils.rs', 'src/data_store/index.rs', DS, 'src/data_store/transition/materialized.rs', 'src/utils/ndarray_extensions/mod.rs', 'src/training/rotation/mod.rs'], [('segment of an angle', 'get_segment_id, PolarCoords::to_polar, Point::calculate_segment_id'), ('ids', 'DataStore::add_points_with_offset, Rotator::apply_rotation_matrix'), ('mirroring', 'Point::mirror, DataStore::mirror_points'), ('transfer', 'MaterializedTransition::into_transition, DataStore::add_materialized_transitions')],
 'Verus proof over exact reals (atan2 and pi axiomatised by their range; f32 rounding near sector borders is not modelled and the native replay stays away from the borders). Assumed: Arc<Mutex<Point>> is the point it refers to.')
prop('C12', 'All nodes number the cluster alike, and every address leads to its node',
 'Once all members are connected, the main node makes a list of all members, itself first and every other member once, sends the same list once to every other member and starts; the others start when they know both the list and all members, whichever comes last, and not before. A member\'s number is its position in the list on every node, so the main node is 0 and each node\'s own number is the one missing in its table. Next and previous are one step around the ring of these numbers (none in a cluster of one), addressing node k leads to node k with exactly the requested actor name, and iterating over all nodes visits 0..n-1 in order with the node itself in its own place.',
 ['schedules', 'configurations'], 'all cluster sizes (n <= 2^28), all orders of joining and all arrival times of the list',
 'Tests start clusters of a few nodes in one process; join orders, late and early lists and ring wrap-around are not sampled.',
 ['src/cluster_listener.rs', 'src/utils/mod.rs', 'src/parameters.rs'], [('numbering', 'ClusterMemberListener::sort_members, Handler<ClusterLog>, Handler<SortedMembersMessage>'), ('start', 'ClusterMemberListener::start_training'), ('addressing', 'ClusterNodes, AnyClusterNodesIterator')],
 'Verus proof of the listener handlers, the agreement lemma over any list, and every addressing function, for all inputs. Assumed: HashMap/HashSet iteration yields every entry once, members differ in socket address, actix-telepathy delivers messages. change_ids is covered by the native replay only.')
prop('C13', 'After transposition every edge is on the node that scores its time, in order',
 'The series is divided over the nodes in blocks of floor(points/nodes), the last node also taking the rest; transposition brings every edge to the node whose block contains the point the edge leads to. Every node keeps its own share, sends each other node exactly that node\'s share in one message, and adds every received share. When all shares are in, and only then, the stage is done, and the node\'s edges are sorted by the point they lead to, then by the point they come from, whichever node sent them; edges alike in both keep the order they came in. No edge is lost or duplicated.',
 ['inputs', 'schedules', 'configurations'], 'all edge lists, series lengths >= number of nodes, cluster sizes and arrival orders',
 'Tests transpose one small graph over two or three nodes; remainders, empty shares and early messages are not sampled.',
 ['src/training/transposition/mod.rs', DS], [('shares', 'Transposer::assign_edges_to_neighbours'), ('exchange', 'transpose, transpose_rotation, Handler<TranspositionRotationMessage>'), ('order', 'transpose_finalize, DataStore::sort_edges')],
 'Verus proof of partition, exchange and handler for all inputs; sends are recorded, delivery is actix\'s; sort_by is assumed to be a stable sort. Native replay captures the real messages from a socket.')
prop('C15', 'Windows that reach over a node border score as in a local run',
 'Starting with the last node, each node of a cluster sends its previous node exactly once, after it has the next node\'s, the edges that this node\'s last windows reach into (its first query_length - 1 points and the edge that follows them) together with their counts, and scores with what the next node sent. The received edges are appended after its own and the received counts shifted by the number of own edges, so every window that begins in its slice holds the same edges, in the same order, as in a local run; the last node, which receives nothing across the wrap, scores only its own windows. Messages that arrive early are kept.',
 ['schedules', 'inputs', 'configurations'], 'all edge lists, count tables, query lengths, cluster sizes and arrival orders',
 'Tests compare two nodes on one data set; the border windows of other slices, and edges just past a border, are not sampled.',
 ['src/training/scoring/overlap.rs', 'src/training/scoring/mod.rs', 'src/data_store/mod.rs'], [('send', 'send_overlap_to_neighbor'), ('receive', 'Handler<OverlapRotation>, Handler<ScoreInitDone>'), ('slice', 'DataStore::slice_edges')],
 'Verus proof of the send and receive steps as state transitions, and of the lemma that the windows equal those of the joined edge list; delivery is actix\'s. The last slice is assumed to have at least query_length - 1 points. A defect found and fixed. Native replay runs the real actors of a whole chain.')
prop('C16', 'Distributed PCA uses every node\'s data exactly once and all nodes get the result',
 'For any number of nodes and threads, every node contributes its triangular matrix, column means and row count exactly once per analysis: in each round of the reduction a node passes its part to exactly one partner or waits for one that exists and will send, and a node without partner goes on. The first node computes the components only when the parts and means of all nodes are in it, in any arrival order, and sends them to every node once; a thread gets every row of its node in exactly one chunk. What arrives before a node starts, or for the next analysis, is kept. Components are the leading principal directions of all rows with a non-negative first coordinate.',
 ['schedules', 'inputs', 'configurations'], 'all cluster sizes, thread counts, row counts and arrival orders, several analyses in a row',
 'Tests run one and two nodes on one schedule; odd cluster sizes, late means, nodes that run ahead and more threads than rows are not sampled.',
 ['src/training/rotation/pca/mod.rs', 'src/training/rotation/pca/helper.rs', 'src/training/rotation/pca/messages.rs'], [('reduction', 'send_to_neighbor_or_finalize, combine_remote_r, Handler<PCADecompositionMessage>'), ('means', 'send_to_main, Handler<PCAMeansMessage>, has_all_means'), ('result', 'finalize, share_principal_components, Handler<PCAComponents>'), ('threads', 'helper_center_columns_decomposition, PCAHelper, Handler<PCAHelperMessage>')],
 'Verus proof of the exchange (whose data is in which matrix, when; tree lemmas) on every node and helper; the linear algebra itself (QR, SVD, stacking) is assumed there and checked natively: whole clusters of real actors on random schedules against an f64 oracle. At most 2^24 members. Defects found and fixed.')
prop('C17', 'Every dimension is reduced once; one rotation sends the reference to the z axis',
 'Every node analyses the dimensions of its phase space one after the other, each exactly once, and reduces its rows and the reference of that dimension by that analysis: centred with the means of all rows and projected on the three directions. After the last dimension the main node, and only it, computes for every dimension the rotation (orthonormal, no mirroring) that takes the first reference vector to the z axis keeping its length, and sends the same matrices to every node once. A node applies them exactly once, after all its dimensions are reduced, also if they arrive before that, and then reports the stage done once.',
 ['inputs', 'schedules', 'configurations'], 'all phase spaces, references, numbers of dimensions and nodes and arrival orders (the reduced reference is not zero and not on the z axis)',
 'Tests rotate one data set on one node and on two nodes in one schedule; the matrix for other references, early matrices and several dimensions on several nodes are not sampled.',
 ['src/training/rotation/mod.rs', 'src/utils/ndarray_extensions/mod.rs'], [('reduction', 'rotate, run_pca, reduce, Handler<PCADoneMessage>'), ('matrix', 'get_rotation_matrix, norm, cross2d, cross1d, repeat'), ('exchange', 'broadcast_rotation_matrix, Handler<RotationMatrixMessage>')],
 'Verus proof over the reals: the stage as a state machine with an event log, and the matrix as Rodrigues\' formula through to orthonormality and the image of the reference. Assumed: ndarray slicing, stacking, reshaping, products, Euclidean norm; one analysis is C16, applying the matrix C02; f32 rounding is native only (whole stage on clusters of real actors, random schedules, f64 oracle).')
prop('C18', 'Every node holds its rows of the series; every window is embedded exactly once',
 'The main node reads every row of the data file in order (blank lines skipped, only the chosen columns, a negative end counted from the last column) and gives each node its block of rows together with the pattern_length - 1 rows that follow, so that every window of pattern_length rows lies wholly in exactly one node\'s rows; parts that arrive early are kept. Each node embeds its rows: row i of its phase space holds, for every channel, the pattern_length - latent moving sums over latent values from row i on, the same whatever the number of threads, whichever thread finishes first. Preprocessing is reported done once, with the phase space of the node\'s own rows in order.',
 ['inputs', 'schedules', 'configurations'], 'all files, column ranges, cluster sizes, pattern and latent lengths, thread counts and completion orders (rows >= nodes; the windows of the last nodes fit in the series)',
 'Tests read one file on one or two nodes; blank lines, remainders, short partitions, negative columns and completion orders are not sampled.',
 ['src/data_manager/data_reader/mod.rs', 'src/data_manager/preprocessor/mod.rs', 'src/data_manager/preprocessor/helper.rs', 'src/data_manager/phase_spacer/mod.rs', 'src/data_manager/mod.rs', 'src/training/mod.rs'], [('partition', 'read_csv, resolve_buffer, Handler<DataPartitionMessage>, Handler<LoadDataMessage>'), ('embedding', 'PhaseSpacer::build, Preprocessor, Handler<ProcessedColumnMessage>'), ('result', 'Preprocessing, Handler<PreprocessingDoneMessage>')],
 'Verus proof of reading, partition, exchange, embedding and assembly for all inputs, with the lemma that the windows are tiled. Assumed: the csv reader yields the records, ndarray slicing and sums (f32 sums are reals), delivery is actix\'s. Native replay loads real files on clusters of real actors. Defects found and fixed.')
prop('C21', 'Every node knows minimum, maximum and deviation of all rows; same reference',
 'Whatever the number of nodes and the order in which their messages arrive, every node is told, exactly once and only when all nodes have reported, the minimum and the maximum of every column over all rows, the sample standard deviation (N - 1) of every column over all rows and their number N, where rows shared between neighbours count once; data given as an array in row- or column-major order yields the same. A node goes on to preprocessing exactly when both the extremes and the deviation are known, in either order. The reference series is the same on all nodes: 100 windows, the i-th with every value equal to latent times the i-th of 100 evenly spaced values from the column minimum to its maximum.',
 ['inputs', 'schedules', 'configurations'], 'all data, cluster sizes, row counts per node, array layouts and arrival orders',
 'Tests compare one small array on one or two nodes; merging three or more nodes, arrival orders and column-major data are not sampled.',
 ['src/data_manager/stats_collector/std.rs', 'src/data_manager/stats_collector/minmax.rs', 'src/data_manager/stats_collector/mod.rs', 'src/data_manager/reference_dataset_builder/mod.rs', 'src/utils/ndarray_extensions/mod.rs', 'src/data_manager/mod.rs'], [('extremes', 'min_axis, max_axis, calculate_minmax, Handler<MinMaxNodeMessage>'), ('deviation', 'calculate_std, Handler<StdNodeMessage>'), ('done', 'Handler<MinMaxDoneMessage>, Handler<StdDoneMessage>, datastats_finished'), ('reference', 'ReferenceDatasetBuilder::build, linspace')],
 'Verus proof over the reals of the extremes, of the merged mean and squared deviations (equal to those of all rows together), of the exchange in any order, and of the reference series; f32 rounding is not modelled (native replay, f64 oracle). Assumed: ndarray elementwise operations, delivery. Defects found and fixed.')
prop('C19', 'Every change of owner on the path is asked for and answered with the next node',
 'Every intersection of a segment becomes exactly one graph node with the label its cluster got, segment after segment and in the order of the intersections. Wherever the path of the data passes from a segment of one cluster node to a segment of another (within a transition, or between two transitions), exactly the owner of the segment left is told the graph node of the segment entered: the question is for a segment the transition really enters, goes to its owner, and is answered with the first graph node of that point in that segment, which the asking node finds under the point and segment before. Every node asks and answers every node exactly once, takes up what came early, and finishes when all answers have arrived.',
 ['inputs', 'schedules', 'configurations'], 'all transitions of at most half a turn, numbers of nodes and segments, questions, answers and arrival orders',
 'The tests ask for a few transitions on two and three nodes; jumps over several nodes, wrap-around, questions held by a third node and early messages are not sampled.',
 ['src/training/node_estimation/mod.rs', 'src/data_store/node_questions/mod.rs', 'src/data_store/node_questions/node_in_question.rs', 'src/data_store/node/mod.rs'], [('questions', 'NodeQuestions::ask, get_wanted_segment, add_niq'), ('nodes', 'estimate_nodes, Handler<ClusteringResponse>'), ('exchange', 'ask_next, search_for_asked_nodes, answer_next, take_in_answers, Handler<AskForForeignNodes>, Handler<ForeignNodesAnswer>')],
 'Verus proof: questions of a transition as a function of its path, with lemmas that each is answerable (the transition enters that segment) and that none is missing (every change of owner has its question); the exchange as a state machine with an event log. Assumed: the data store lookups (C20), ring and addresses (C12), counters (C11), one label per row from the clustering. Native: ask against an enumeration of the path; node estimation with real clustering on clusters of real actors, random schedules.')
prop('C22', 'Intersections are clustered by density peaks, whatever the number of threads',
 'The intersections of a segment are clustered dimension by dimension, in order, with one answer at the end. The density estimate of a dimension is the Gaussian kernel estimate (equal weights, Scott\'s bandwidth) of all its values, each counted exactly once, on the grid from a tenth below the least to a tenth above the greatest value, whatever the number of threads (also more threads than rows) and the order in which they answer; values without spread have no peaks. Peaks are the grid values strictly above their neighbours on both sides. Every row gets, per dimension, the closest peak (the first of equally close ones; 0 where there is none); two rows have the same label exactly if they have the same peaks in all dimensions, labels are numbered by first appearance, and center k is that of label k.',
 ['inputs', 'schedules', 'configurations'], 'all data, numbers of rows, dimensions and threads, and all orders of the threads\' answers',
 'The tests cluster a few data sets with one and four threads and do not look at the centers; fewer rows than threads, equal values, ties and answer orders are not sampled.',
 ['src/training/node_estimation/multi_kde/mod.rs', 'src/training/node_estimation/multi_kde/actors/mod.rs', 'src/training/node_estimation/multi_kde/actors/gaussian_kde.rs', 'src/training/node_estimation/multi_kde/actors/helper.rs', 'src/utils/itertools.rs', 'src/utils/float_approx.rs', 'src/utils/pop_clear.rs'], [('peaks and labels', 'find_peak_index, find_peak_values, assign_closest_peak_values, extract_labels_from_centers'), ('dimensions', 'MultiKDEActor cluster_next_dim, find_cluster_centers and handlers'), ('estimate', 'GaussianKDEActor estimate, evaluate, send_tasks and handlers; EstimatorHelper new, evaluate')],
 'Verus proof: peaks, closest peaks and labels exact (C22); the dimensions as a state machine with an event log (C22a); the helpers\' shares as sums over their rows, lemma that the answers to all tasks in any order add up to the sum over all rows once (C22g). f32 as reals; exp, powf, Cholesky, inverse and covariance uninterpreted. A defect found and fixed. Native: estimates against a reference in f64, clustering with real actors and 1 to 5 threads.')
prop('C23', 'Every intersection reaches the owner of its segment exactly once',
 'Every (transition, entered segment) pair is handed to the helper once and answered once, for the same transition and segment. An intersection of an own segment is put into the data store, one of another node\'s segment is kept for that node, in order. Then every other node is sent, in one message, exactly the intersections of its segments, complete, and nothing is kept back; received intersections are added to the data store under their segment, each once. Messages that arrive before a node has begun to distribute are kept and handled then. The stage is done exactly once, when the own results are distributed and every other node\'s message is in (at once for a single node, also for nodes without any transition).',
 ['schedules', 'inputs', 'configurations'], 'all transitions, segment numbers, cluster sizes, node indices and arrival orders, including early messages',
 'Tests calculate the intersections of one small data set on one or two nodes on one schedule; nodes without transitions, early messages and uneven segment partitions are not sampled.',
 ['src/training/intersection_calculation/mod.rs', 'src/training/intersection_calculation/helper.rs', 'src/training/intersection_calculation/messages.rs', 'src/data_store/intersection.rs'], [('tasks and results', 'parallel_intersection_tasks, IntersectionCalculationHelper work and handler, Handler<IntersectionResultMessage>'), ('assignment', 'assign_received_intersection'), ('distribution', 'start_distribution_protocol, rotate_foreign_assignments, Handler<IntersectionRotationMessage>')],
 'Verus proof of every step as a state transition with an event log, and lemmas that join them (each pair cut once, none lost, one message per segment, receiver stores all). Delivery is actix\'s. Native: the real stage on 1 to 4 nodes with captured messages delivered in random order.')
prop('C24', 'The explanation has one row per window: the mean uniqueness of its nodes',
 'A node of the graph contributes, in every dimension, one minus the share of its segment\'s intersections whose cluster center has the same coordinate there. A window contributes the mean over the nodes at which its edges start, zeros if it has none; a window that contributes nothing takes the last contribution before it, and the first ones, which have none before them, keep theirs. From every dimension the middle value over all windows (as ordered to 1/80) is subtracted. The file has exactly one row per window, in order, a row that sums to zero repeats the row before; this also holds for a series without any node. Then, and only then, scoring is done.',
 ['inputs', 'configurations'], 'all centers, intersection counts, edges, query lengths and numbers of dimensions',
 'Tests calculate the contribution of one fixed set of centers; windows without edges, at the start or in between, equal coordinates over several clusters and the rows of the file are not sampled.',
 ['src/training/anomaly_contribution/mod.rs', 'src/training/scoring/mod.rs', 'src/utils/float_approx.rs'], [('nodes', 'calculate_dimension_uniqueness, record_contributions'), ('windows', 'build_anomaly_contribution_score, query_node_score, Handler<QueryClusterContribution>, Handler<QueryClustercontributionDone>'), ('file', 'Handler<QueryClusterContributionResponse> for Training')],
 'Verus proof over the reals: shares as sums over the clusters, windows as exact subranges of the edges in the event log, the rows of the file as a function of the contributions (some median order). Assumed: ndarray stacking and means, hash map, sort, csv writer; rounding is native only. That the centers carry the label counts is proved with C19. Two defects found and fixed. Native: the real actor, the real file, and both together against an f64 oracle.')
prop('C25', 'Every stage runs once, in order, and the caller gets the score',
 'Started with data or with the cluster, a node reads (its own data, or its part of the file), rotates the embedded data with the reference, ends loading, segments (with self-correction if asked for), calculates intersections, estimates nodes, connects them to edges and sorts these, counts the degrees before the edges move, exchanges them by time if there are other nodes, counts edges in time and weights, shares degrees and weights with the other nodes or scores at once if there are none. Every stage is started exactly once, by the report of the one before, and on what that one made. At the end the caller, if there is one, gets exactly the score, once; then the node and the system stop. From given graph nodes on, every node ends with the score of the whole graph (path, weights, degrees, windows, scaling), whatever the number of nodes and the order of their messages; only the order of the edges of one and the same transition is not defined across nodes.',
 ['inputs', 'configurations', 'histories'], 'all data, graph nodes, query lengths, thread counts, cluster sizes and settings',
 'Tests run the stages one at a time on fixed data and only look whether the whole ends.',
 ['src/training/mod.rs', 'src/training/segmentation/mod.rs', 'src/training/edge_estimation/mod.rs', 'src/training/scoring/mod.rs', 'src/interface/mod.rs', 'src/lib.rs'], [('order', 'handlers of StartTrainingMessage, DataLoadedAndProcessed, RotationDoneMessage, SegmentedMessage, IntersectionCalculationDone, NodeEstimationDone, EdgeEstimationDone, TranspositionDone, ScoringDone'), ('joints', 'segment, estimate_edges, finalize_edge_estimation, init_scoring')],
 'Verus proof of every handler and joint as exact log extension (which stages, in which order, on what). The stages themselves are logged calls here and under contract in their own properties; self-messages are actix\'s. Native: one or 2 to 4 real nodes from random graph nodes to the answer, random deliveries, against an f64 oracle; the public function on random series.')
prop('C20', 'The data store returns exactly what was put in, in order',
 'Nodes, intersections and edges added to the data store are found again, exactly once and in the order of insertion: edges in their list, nodes under the point they come from, intersections under their segment; other points and segments are not affected and lookups of absent ones return nothing. Received edges are appended after the existing ones unchanged; sorting permutes the edges stably by target and then by source point; wiping removes all edges and nodes and nothing else.',
 ['inputs', 'histories'], 'all sequences of insertions and lookups',
 'Tests insert a few elements; interleavings of keys and operations are not sampled.',
 [DS, 'src/data_store/index.rs', 'src/data_store/edge/materialized.rs', 'src/data_store/intersection.rs'], [('lookup', 'DataStoreIndex, get_nodes_by_point_id, get_intersections_from_segment'), ('edges', 'add_edge, add_materialized_edges, sort_edges, wipe_graph')],
 'Verus proof of every operation as a map/sequence update for all inputs. Assumed: Arc/Mutex references are the values they refer to; std HashMap and stable sort contracts. Native replay of random histories.')
prop('C14', 'Segmentation hands every transition over once and ends when all have arrived',
 'After segmenting its points, a node sends its first point, with the first transition after it, once to the previous node (not if it is the first), also if its own points have no transition, and, unless it is the last, waits for the first point of the next node, which may also arrive early. It then sends every other node exactly that node\'s transitions in one message, adds every received one once, and the stage is done exactly when all nodes\' messages are in; a single node is done at once. For self-correction every node adds every node\'s counts once and passes all but the last on unchanged; all nodes decide by the same totals.',
 ['schedules', 'inputs', 'configurations'], 'all transitions, cluster sizes, node indices and arrival orders, including early messages',
 'Tests run two or three nodes on one schedule; early first points, partitions without transitions and every arrival order are not sampled.',
 [SEG, 'src/training/segmentation/messages.rs'], [('first point', 'try_send_inter_node_points, send_first_point, Handler<SendFirstPointMessage>'), ('distribution', 'distribute_segments, distribute_or_wait_for_segments, Handler<SegmentMessage>'), ('counts', 'Handler<TransitionCountMessage>')],
 'Verus proof of every step as a state transition with an event log, for all inputs; delivery is actix\'s. Defects found and fixed. Native replay captures the real messages from a socket, with early messages.')
