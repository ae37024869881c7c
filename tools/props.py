#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for its text is this file)."""
import json, os
P = []
W = 'src/waymo_open_dataset/'


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
  assert len(title) <= 80, (id, len(title))
  P.append(dict(
      id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=[W + f for f in files],
                   mechanism=[dict(name=n, where=W + w) for n, w in mech],
                   state=[dict(name=n, meaning=m, where=W + w) for n, m, w in state],
                   observe_at=list(observe), hook_needed=hook)))


prop('C01', 'Detection op result does not depend on thread schedule or row order',
     'For any frames and configuration, the detection metrics op returns, under every interleaving of its worker threads and every order in which the rows of different frames arrive, the result of evaluating each frame alone on one thread and accumulating the true-positive, false-positive and false-negative counts over the frames. No frame is lost, counted twice, or mixed with a frame of another id, and the accumulated counts give the reported average precision, heading-weighted and (when enabled) longitudinal-affinity-weighted average precision and precision/recall curves.',
     ['schedules', 'inputs', 'configurations'],
     'every interleaving of the per-frame tasks at memory-access granularity, any number of worker threads (including one, inline execution and stalled workers), any interleaving of rows of different frames, all box types, matchers, breakdowns and LET settings',
     'The op tests need TensorFlow, do not run here, and run one schedule on a handful of frames; the C++ tests never start a second thread.',
     ['metrics/ops/detection_metrics_ops.cc', 'metrics/ops/utils.cc', 'metrics/detection_metrics.cc', 'metrics/metrics_utils.cc', 'metrics/breakdown_generator.cc', 'metrics/matcher.cc', 'metrics/iou.cc'],
     [('one task per frame writing only its own slot; join; merge in frame order', 'metrics/ops/detection_metrics_ops.cc'),
      ('rows grouped by frame id', 'metrics/ops/utils.cc')],
     [('per-frame measurement slots', 'one accumulator per frame, written by one task', 'metrics/ops/detection_metrics_ops.cc')],
     ['op outputs'])

prop('C02', 'Detection counts are the same for any sharding, merge order and retry',
     'Cutting the frames into any shards, evaluating every shard separately (in any process, any number of attempts, one kept), adding up the shard states in any order and finalising once gives the same detection metrics as one pass over all frames. Merging never drops, duplicates or cross-mixes the counts or per-frame details of any breakdown, difficulty level or score cutoff, and a shard whose evaluation failed leaves nothing behind in the others.',
     ['histories', 'fault_sequences', 'inputs', 'configurations'],
     'any partition into shards, any merge tree and order, any sequence of shard crashes, retries, duplicate deliveries and restarts from stored state; explicit score cutoffs',
     'Tests accumulate one or two frames in one order and never finalise from separately produced states.',
     ['metrics/ops/detection_metrics_ops.cc', 'metrics/detection_metrics.cc', 'metrics/metrics_utils.cc'],
     [('additive state tensor [breakdown, cutoff, counters] and element-wise merge', 'metrics/ops/detection_metrics_ops.cc'),
      ('MergeDetectionMeasurements', 'metrics/metrics_utils.cc')],
     [('detection state', 'false positives, true positives, false negatives, heading and affinity sums per breakdown and cutoff', 'metrics/ops/detection_metrics_ops.cc')],
     ['state and result op outputs', 'library merge functions'])

prop('C03', 'Tracking op keeps sequences apart and ordered under any schedule',
     'For any set of sequences the tracking metrics op returns, under every interleaving of its worker threads and every arrival order of rows of different frames and sequences, the result of evaluating each sequence alone, frame by frame in timestamp order, and adding up the counts. Score cutoffs estimated from the predictions depend on all predictions of all sequences and on nothing else.',
     ['schedules', 'inputs', 'configurations'],
     'every interleaving of the per-sequence tasks at memory-access granularity, any worker count, any row order, any number of sequences and frames of unequal sizes, explicit and estimated cutoffs',
     'The op test needs TensorFlow and uses one schedule; the library tests use one scene whose frames have equal sizes.',
     ['metrics/ops/tracking_metrics_ops.cc', 'metrics/ops/utils.cc', 'metrics/tracking_metrics.cc', 'metrics/metrics_utils.cc', 'metrics/mot.cc'],
     [('one task per sequence writing only its own slot', 'metrics/ops/tracking_metrics_ops.cc'),
      ('score cutoff estimation', 'metrics/tracking_metrics.cc')],
     observe=['op outputs'])

prop('C04', 'Tracking counts follow the CLEAR-MOT rules over any sequence history',
     'Evaluating a sequence frame by frame, a prediction and a ground truth matched in the previous frames stay matched while they still overlap enough, the rest are matched optimally, and misses, false positives, matches and identity mismatches are counted once per frame accordingly. Each frame conserves objects (every eligible ground truth is matched or missed, every prediction matched, a false positive or excused), nothing from one sequence, breakdown or cutoff affects another, and the reported MOTA, MOTP, miss, mismatch and false-positive ratios are those of the summed counts. Details, if asked for, name the matched, missed and false objects of every frame once, also when sequences are added up.',
     ['histories', 'inputs'],
     'any history of objects appearing, disappearing, re-appearing, swapping identity, dropped or duplicated detections and skipped frames, for any difficulty, breakdown and score cutoff',
     'Tests replay a few two- to four-frame histories with one or two objects.',
     ['metrics/mot.cc', 'metrics/tracking_metrics.cc', 'metrics/metrics_utils.cc'],
     [('carried-over match table between frames', 'metrics/mot.cc'), ('per-frame accounting', 'metrics/mot.cc')],
     [('previous matches', 'which prediction each ground truth was last matched to', 'metrics/mot.cc')],
     ['tracking measurements and metrics'])

prop('C05', 'Motion op isolates scenarios and reports every failure, on any schedule',
     'The motion metrics op returns, under every interleaving of its worker threads and every order of scenarios in the batch, the metrics of evaluating each scenario alone on one thread and averaging the statistics over all of them. If any scenario cannot be evaluated the call fails (an error status or a fatal check) whatever the schedule, and never returns numbers computed from partial or foreign data.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every interleaving of the per-scenario tasks, any worker count, any subset of malformed scenarios, any batch order and object ids',
     'The op test needs TensorFlow, one schedule, two identical scenarios, no failing scenario.',
     ['metrics/ops/motion_metrics_ops.cc', 'metrics/ops/utils.cc', 'metrics/motion_metrics.cc', 'metrics/motion_metrics_utils.cc'],
     [('per-scenario status and stats slots, joined before aggregation', 'metrics/ops/motion_metrics_ops.cc')],
     observe=['op outputs and status'])

prop('C06', 'Motion statistics combine to the same metrics in any order and grouping',
     'Accumulating the per-scenario statistics of any set of scenarios in any order, grouping or hierarchy of partial sums yields the same displacement errors, miss rate, overlap rate and mean average precision as accumulating them one after the other, for every object type, time step and custom metric. A scenario whose evaluation fails contributes nothing to the statistics it was to be added to, and statistics of one object type or step never leak into another. A challenge submission is converted into exactly the predictions it holds and accepted for its own challenge only; one with a coordinate missing, the wrong number of objects or no predictions is refused.',
     ['histories', 'fault_sequences', 'inputs'],
     'any merge tree over any number of scenarios, any interleaving of failing and succeeding scenarios, any custom metric that succeeds or fails at any call',
     'Tests accumulate two scenarios in one order.',
     ['metrics/motion_metrics.cc', 'metrics/motion_metrics_utils.cc'],
     [('BucketedMetricsStats accumulation', 'metrics/motion_metrics.cc')],
     observe=['motion metrics proto'])

prop('C07', 'Segmentation IoU accumulator is exact over any update/reset/merge history',
     'After any sequence of updates, failed updates, resets and merges of partial results from other accumulators, the segmentation accumulator reports exactly the per-class intersection over union and mean of the frames counted since the last reset. A frame that was rejected contributes nothing, and the order of updates and merges does not matter.',
     ['histories', 'fault_sequences', 'inputs'],
     'any interleaving of update, rejected update, reset, merge and read, over any number of accumulators and class sets',
     'Tests make at most two updates and no merge after a reset or failure.',
     ['metrics/segmentation_metrics.cc', 'metrics/segmentation_metrics.h'],
     [('confusion/intersection counters', 'metrics/segmentation_metrics.cc')],
     observe=['ComputeIOU and measurements'])

prop('C08', 'A matcher gives the same matching whatever it was used for before',
     'A matcher object re-used over any history of predictions, ground truths, subsets and settings returns for every call the same matching as a fresh matcher given only the current inputs. Every matching is one-to-one, mutually consistent, uses only pairs that are allowed to match (overlap threshold, subset), and is optimal in total weight (Hungarian) or greedy by descending score (score-first).',
     ['histories', 'inputs', 'configurations'],
     'any sequence of set-inputs, set-subset and match calls on one matcher, any re-used output vectors, matcher type, box type and thresholds',
     'Tests call one matcher once or twice on one or two boxes.',
     ['metrics/matcher.cc', 'metrics/matcher.h', 'metrics/hungarian.cc', 'metrics/ops/matcher_ops.cc'],
     [('IoU cache invalidated when inputs change', 'metrics/matcher.h'), ('Hungarian algorithm', 'metrics/hungarian.cc')],
     [('iou caches', 'memoised overlap per pair', 'metrics/matcher.h')],
     ['Match outputs, match op'])

prop('C09', 'One op kernel serves concurrent and failed calls without interference',
     'When one kernel instance executes several calls at the same time or one after another, each call returns what it would have returned alone, on any interleaving. A call that is rejected with an error (inputs of the wrong shape, no memory for an output) neither disturbs calls in flight nor changes any later call.',
     ['schedules', 'fault_sequences', 'histories'],
     'any number of concurrent and sequential calls on the same kernel, any interleaving at memory-access granularity, any mix of valid and invalid inputs, for the detection, tracking, motion, matching and camera kernels',
     'Tests call each op a few times, one after another, with valid input.',
     ['metrics/ops/detection_metrics_ops.cc', 'metrics/ops/tracking_metrics_ops.cc', 'metrics/ops/motion_metrics_ops.cc', 'metrics/ops/matcher_ops.cc', 'wdl_limited/camera/ops/camera_model_ops.cc'],
     [('kernels keep only the parsed configuration', 'metrics/ops/detection_metrics_ops.cc')],
     observe=['op outputs and status'])

prop('C10', 'A camera model carries nothing over from one image to the next',
     'A camera model object projects points of an image identically whatever images it was prepared for before, and identically when many threads project with it at the same time. Projecting a world point visible in the image to a pixel (global or rolling shutter) and back with its depth returns the point, on every such history.',
     ['histories', 'schedules', 'inputs'],
     'any sequence of prepare/project calls with different poses, velocities and shutter settings, any interleaving of concurrent projections',
     'Tests prepare one image per model and project from one thread.',
     ['wdl_limited/camera/camera_model.cc', 'wdl_limited/camera/camera_model.h', 'wdl_limited/camera/ops/camera_model_ops.cc'],
     [('all per-image state recomputed when an image is prepared', 'wdl_limited/camera/camera_model.cc')],
     [('per-image state', 'rolling-shutter direction, readout time, pose and velocity of the current image', 'wdl_limited/camera/camera_model.h')],
     ['projection results'])

prop('C11', 'Latency evaluator submits every frame once and times only the model',
     'For any set of input frames, in whatever order the file system lists them, the latency evaluator calls the submission exactly once per frame directory, with exactly that frame\'s data (including the fields of earlier frames it asks for), and writes exactly one result per frame holding that frame\'s detections. The reported latencies are the time spent in the submission\'s model call and nothing else, and a failing read, model call or write ends the run with an error rather than with a missing, truncated or misattributed result reported as success.',
     ['fault_sequences', 'histories', 'schedules', 'crash_points'],
     'any directory listing order, any clock behaviour, any read, model or write fault or crash at any operation, re-runs over leftovers of a crashed run',
     'There is no test of the evaluator; it runs inside a container against a real submission.',
     ['latency/wod_latency_evaluator.py'],
     [('frame loop around the timed call', 'latency/wod_latency_evaluator.py')],
     observe=['output directory, latency file, exit status'])

prop('C12', 'Latency results become an objects file completely or not at all',
     'Turning the per-frame detection results of a latency run into an objects file yields every detection of every frame directory exactly once, with its own frame name, timestamp, box, score and type, whatever order the file system lists directories in. If a result file is missing, short, torn or inconsistent, or any read or write fails, the conversion fails; it never exits successfully with lost, foreign or invented detections, and running it again after a crash gives the complete file.',
     ['fault_sequences', 'crash_points', 'histories', 'inputs'],
     'any listing order, torn/short/mismatched result arrays, I/O error or crash at any file operation, any sequence of crashed and repeated runs',
     'The one test needs a full environment and uses one good directory.',
     ['latency/make_objects_file_from_latency_results.py'],
     [('directory walk and per-frame conversion', 'latency/make_objects_file_from_latency_results.py')],
     observe=['objects file, exit status'])

prop('C13', 'Comparing latency results with a submission never passes a mismatch',
     'The comparison of a latency objects file with a submission exits with status 0 exactly when the latency file holds detections and, in each of its frames, the detections without a counterpart in the submission (same class, overlap of at least the IoU threshold, score within 0.05) and the surplus of the submission come to at most 5%, counting known classes from the minimum score on, whatever order objects and shard files are read in. A file that is missing, cannot be read or does not parse never turns into success, and damaged content that still parses is judged by what is left of it.',
     ['fault_sequences', 'inputs', 'histories'],
     'any order of objects and of submission shards, any single-field perturbation, any I/O fault, truncation or flipped byte in any input file',
     'There is no test of this tool.',
     ['latency/compare_objects_file_to_submission_main.cc'],
     [('per-frame comparison by context, timestamp and camera', 'latency/compare_objects_file_to_submission_main.cc')],
     observe=['exit status'])

prop('C14', 'Submission packing keeps every kept object exactly once or fails',
     'Packing prediction files into a submission writes each kept object (box without NaN, score at least 0.03) exactly once over the shards, unchanged but for box sizes raised to at least 1e-6, with the submission metadata in every shard, for any number of input files and shards, with or without a trailing newline in the inputs. If any input is missing, unreadable or does not parse, or any output cannot be written completely, the tool fails; exit status 0 means all shards are complete and readable. The inputs are left as they were.',
     ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
     'any number of inputs and shards, any payload bytes, any open/read/write/close error, short write or full disk at any call, re-runs over leftovers',
     'There is no test of this tool.',
     ['metrics/tools/create_submission.cc'],
     [('round-robin sharding and file writing', 'metrics/tools/create_submission.cc')],
     observe=['shard files, exit status'])

prop('C15', 'Offline metric tools print the metrics of the whole input or report failure',
     'The command-line metric tools print, for readable prediction and ground-truth files, the metrics of all the objects in them (for damaged content that still parses: of what is left), independent of the order of frames in the files. When a file is missing, a read fails, or the content does not parse or its labels do not decompress, the tool never prints metrics: it reports the failure and exits with a non-zero status, without crashing or reading freed memory.',
     ['fault_sequences', 'inputs'],
     'any read fault, truncation or flipped byte at any position of either file, any order of frames and objects of different frames',
     'Tests run the library on in-memory data; no test runs the tools on damaged files.',
     ['metrics/tools/compute_detection_metrics_main.cc', 'metrics/tools/compute_detection_let_metrics_main.cc', 'metrics/tools/compute_tracking_metrics_main.cc', 'metrics/tools/compute_segmentation_metrics_main.cc'],
     [('file reading and parsing', 'metrics/tools/compute_detection_metrics_main.cc')],
     observe=['stdout, exit status'])

prop('C16', 'Compressed range images restore exactly; damage and retries never corrupt',
     'Delta-encoding a range image and decoding it restores every value to within the stated precision, whatever compressions or decompressions ran before or run concurrently, and encoding leaves its input as it was so that a retry gives the same bytes. Decoding a truncated, torn or bit-flipped stream raises an error or still restores the image; it never yields other data and never corrupts later decodings.',
     ['histories', 'fault_sequences', 'inputs', 'schedules'],
     'any range image contents and precisions, any history or interleaving of encoders and decoders, any truncation, torn or flipped byte of the stored stream',
     'Tests round-trip a few small arrays once.',
     ['utils/compression/delta_encoder.py'],
     [('quantise, residual and run-length encode, zlib', 'utils/compression/delta_encoder.py')],
     observe=['decoded arrays, encoded bytes'])

prop('C17', 'Streaming detection evaluator reports exactly the frames it accepted',
     'After any history of updates, rejected updates, evaluations and resets, the streaming detection evaluator evaluates exactly the frames accepted since the last reset, each once, with each frame\'s predictions and ground truths under its own frame id. A rejected update leaves the pending state as it was, and the result does not depend on how the frames were batched.',
     ['histories', 'fault_sequences'],
     'any interleaving of updates (batched or not), invalid updates failing at any point, reads and resets',
     'The test needs TensorFlow and performs a fixed sequence of valid updates.',
     ['metrics/python/wod_detection_evaluator.py'],
     [('accumulated prediction and ground-truth lists', 'metrics/python/wod_detection_evaluator.py')],
     observe=['arguments of the metrics op and evaluator results'])

prop('C18', 'Metrics are reproducible: equal inputs give equal numbers in any process',
     'Evaluating the same predictions and ground truths with the same configuration gives identical detection, tracking, motion and segmentation metrics in every process, whatever the memory layout, hash seeding, previous contents of memory and work done before in the process.',
     ['histories', 'configurations', 'inputs'],
     'any heap layout and allocator fill, any hash-table iteration order, any earlier evaluations in the same process, any inputs including exact ties',
     'A test process sees one layout and compares with one expected value; iteration-order and stale-memory dependence needs many.',
     ['metrics/mot.cc', 'metrics/detection_metrics.cc', 'metrics/tracking_metrics.cc', 'metrics/motion_metrics.cc', 'metrics/segmentation_metrics.cc', 'metrics/matcher.cc', 'metrics/hungarian.cc'],
     [('ordered containers and index-ordered reduction', 'metrics/ops/detection_metrics_ops.cc')],
     observe=['metrics protos and op outputs'])

prop('C19', 'Streaming graph metrics accumulate every batch once and reset fully',
     'The streaming detection, tracking and motion metrics built for graph mode report, after any sequence of update batches, reads and variable re-initialisations, the metrics of the batches since the last initialisation, each counted once in every variable, with scenarios of different batches kept apart when they are given no ids. An update that fails before any variable is written changes none of them, and reading the value twice gives the same answer.',
     ['histories', 'fault_sequences'],
     'any interleaving of updates, failing updates, value reads and re-initialisation, any batch sizes including empty ones',
     'The test needs TensorFlow and runs a fixed pair of updates.',
     ['metrics/python/detection_metrics.py', 'metrics/python/tracking_metrics.py', 'metrics/python/motion_metrics.py',
      'metrics/ops/py_metrics_ops.py'],
     [('accumulator variables appended on update', 'metrics/python/detection_metrics.py'),
      ('accumulator variables appended on update', 'metrics/python/tracking_metrics.py'),
      ('accumulator variables appended on update', 'metrics/python/motion_metrics.py')],
     observe=['value tensors', 'arguments of the metrics ops'])

prop('C20', 'Joining v2 component tables does not depend on partition or row order',
     'Merging component tables on their shared key columns gives exactly the relational join of the rows with equal keys (inner, or keeping rows of the nullable side), independent of row order, partitioning, partition arrival order and which worker ran what. A side whose grouping is enabled and whose keys are not all shared contributes every shared key once, with the lists of all its values in parallel. No row is lost, duplicated or attached to another key, keys shared with one type keep it, and the tables given are not changed.',
     ['schedules', 'histories', 'inputs', 'configurations'],
     'any partitioning, row order and partition completion order, any combination of nullable and grouped sides and key columns',
     'The tests need dask and use one partition in one order.',
     ['v2/dataframe_utils.py'],
     [('key cast, group and join', 'v2/dataframe_utils.py')],
     observe=['merged table'])

prop('C21', 'Streaming keypoint metrics report exactly the objects given since reset',
     'After any history of updates, results, merges and resets, every streaming keypoint metric, alone or composed and for any subset of keypoint types, reports its published definition (mean per-joint error, OKS and its precision, PCK, PEM, visibility precision and recall) over exactly the objects of the updates accepted since its last reset and of the metrics merged into it, with their weights. Reading changes nothing, streams never affect each other, an update refused for its input is in each metric completely or not at all, and a reset restores the initial state even after a failure. Matchers hand over every object of a frame exactly once with its own box, pairing objects at least cost and within the threshold.',
     ['histories', 'fault_sequences', 'inputs', 'configurations'],
     'any interleaving of legal, malformed and internally failing updates, results, merges and resets over several streams and compositions, any batching including empty batches, any frame of objects and any cost ties',
     'The tests need TensorFlow and make one or two valid updates of one metric.',
     ['metrics/python/keypoint_metrics.py', 'utils/keypoint_data.py', 'metrics/python/matcher.py'],
     [('accumulators updated per batch', 'metrics/python/keypoint_metrics.py'),
      ('mutual matches and re-indexing', 'metrics/python/matcher.py')],
     [('total and count of each mean', 'what the accepted objects contributed', 'metrics/python/keypoint_metrics.py')],
     ['metric results', 'matched objects'])

prop('C22', 'Camera segmentation labels and metrics are right for any batching and order',
     'Decoding camera segmentation labels, in v1 or v2 form and in any batches and orders, keeps the class, coverage and tracked flag of every pixel and gives two instances one id exactly if they are the same object of the same sequence, and the returned divisor decodes the result exactly or the call fails; saved predictions read back as they were. Evaluating a sequence gives the metric each of its frames once, with untracked instances as crowd and weights inverse to the coverage, and aggregation counts every sequence once in any order, can be repeated and changes nothing. Loading returns the first labelled frames of one sequence or fails, and failed jobs leave nothing behind.',
     ['histories', 'fault_sequences', 'inputs', 'configurations'],
     'any sequences, objects, local and global ids and divisors, any batching, order and retry of decode, evaluation and aggregation jobs, ops and reads failing anywhere',
     'The tests need TensorFlow, scikit-image and DeepLab2 and decode two tiny labels with ids far from every limit.',
     ['utils/camera_segmentation_utils.py', 'wdl_limited/camera_segmentation/camera_segmentation_metrics.py',
      'v2/perception/segmentation.py', 'v2/perception/compat_v1/segmentation.py', 'v2/component.py'],
     [('offsets between sequences and divisor choice', 'utils/camera_segmentation_utils.py'),
      ('reset copy and merge of the per-sequence objects', 'wdl_limited/camera_segmentation/camera_segmentation_metrics.py')],
     observe=['decoded labels', 'arguments of the metric objects', 'aggregated metrics'])

prop('C23', 'Scenario conversion gives each record its complete example or fails',
     'Converting a stream of scenarios to examples, by any number of workers, in any order and any process, gives for each well-formed scenario exactly the example that its content and the configuration define, bit for bit the same every time: agents to predict by id, then context agents nearest first, map samples by priority of their kind, traffic lights, all in tensors of the configured sizes padded with -1. A damaged scenario (states or steps missing, indexes out of range, lines or polygons without points, nothing to predict) gives an error or the example of what is there, never a crash, and changes nothing for others. Counters add up over the stream.',
     ['schedules', 'fault_sequences', 'inputs', 'configurations'],
     'any stream of scenarios with any damaged among them, any configuration, number of workers, order, repetition and memory layout',
     'The tests convert one well-formed scenario of four tracks with one configuration, on one thread.',
     ['data_conversion/scenario_conversion.cc', 'data_conversion/scenario_conversion.h', 'math/vec3d.h',
      'protos/conversion_config.proto'],
     [('order of agents drawn from hash sets of addresses', 'data_conversion/scenario_conversion.cc'),
      ('limits and padding', 'data_conversion/scenario_conversion.cc')],
     observe=['examples', 'statuses', 'counters'])

prop('C24', 'Simulated scenes are accepted exactly if complete and convert without mixups',
     'A submission for a scenario is accepted exactly if it carries the id of the scenario and 32 scenes, each of which holds every object that must be simulated exactly once and no other, with every field of the required length. Converting scenarios, scenes and trajectories into each other keeps each object with its own positions, sizes, type and validity for any order of objects and of conversions, with the history before the simulated steps and the sizes of the last known step. Aggregating gives the mean over the scenarios in any order and the weighted buckets, and a failing operation leaves nothing behind.',
     ['schedules', 'histories', 'fault_sequences', 'inputs'],
     'any scenarios, objects and validity, any order in which simulators deliver objects and scenes, lost, repeated, cut, foreign or misnamed ones, any order of conversions, operations failing anywhere, both challenges',
     'The tests need TensorFlow and use one scenario and one submission in which all is in the same order.',
     ['utils/sim_agents/submission_specs.py', 'utils/sim_agents/converters.py', 'utils/trajectory_utils.py',
      'wdl_limited/sim_agents_metrics/metrics.py'],
     [('checks of objects and lengths', 'utils/sim_agents/submission_specs.py'),
      ('gathering by object id', 'utils/trajectory_utils.py'),
      ('history before simulation', 'utils/sim_agents/converters.py')],
     observe=['acceptance', 'object trajectories and scenes', 'aggregated metrics'])

prop('C25', 'Realism features and scores of simulated scenes equal their definition',
     'For any scenario, set of simulated scenes, validity and order of objects, scenes and map features, the features of the log and of every scene (displacement, speeds and accelerations, distance to the nearest object and collisions, time to collision, distance to road edges and offroad, red light violations) equal an independent computation from the same states, each for its own object, scene and step. Likelihoods, rates, displacement errors and the meta metric of the scenario follow from counting those features as the configuration says. Operations failing and jobs repeated anywhere change nothing.',
     ['schedules', 'fault_sequences', 'inputs', 'configurations'],
     'any objects, trajectories, validity, sizes, maps (closed, bent, stacked, empty and degenerate edges and lanes, signals that come and go), any order of objects, scenes and features, any configuration of estimators, operations failing anywhere, both challenges',
     'The tests need TensorFlow and check shapes and a few hand-made states of one scenario.',
     ['wdl_limited/sim_agents_metrics/metric_features.py', 'wdl_limited/sim_agents_metrics/interaction_features.py',
      'wdl_limited/sim_agents_metrics/map_metric_features.py', 'wdl_limited/sim_agents_metrics/traffic_light_features.py',
      'wdl_limited/sim_agents_metrics/trajectory_features.py', 'wdl_limited/sim_agents_metrics/estimators.py',
      'wdl_limited/sim_agents_metrics/metrics.py', 'utils/geometry_utils.py'],
     [('alignment of log, scenes and evaluated objects', 'wdl_limited/sim_agents_metrics/metric_features.py'),
      ('padding of polylines of different lengths', 'wdl_limited/sim_agents_metrics/map_metric_features.py'),
      ('pooling of samples over steps, objects and scenes', 'wdl_limited/sim_agents_metrics/estimators.py')],
     observe=['features', 'scores'])

prop('C26', 'Rater feedback scores depend on the frame alone, by the published rule',
     'The score of a frame follows from its predictions, rated trajectories, ratings and initial speed by the published rule: the first rated trajectories, cut or continued by their last point, span regions at 3 s and 5 s that are turned along their last movement and grow with speed; inside, the rating counts, outside it decays, and what is not inside any one trajectory\'s regions gets at least the floor. It is the same for any batch, order, repetition, configuration of other calls, concurrent evaluation and failure, inputs are left as they were, regions for display are those of the score, and batches with missing labels or steps are refused.',
     ['schedules', 'fault_sequences', 'inputs', 'configurations'],
     'any frames (standing, stopping, starting, reversing, too short or too long trajectories), any batches in any order by any number of concurrent workers, allocations failing at any line, any configuration, memory layout and number type',
     'The tests score four recorded frames, one grid of offsets and vehicles that never move, on one thread, and use every input once.',
     ['metrics/python/rater_feedback_utils.py', 'protos/end_to_end_driving_data.proto',
      'protos/end_to_end_driving_submission.proto'],
     [('padding and cutting of the rated trajectories', 'metrics/python/rater_feedback_utils.py'),
      ('direction carried over while standing', 'metrics/python/rater_feedback_utils.py'),
      ('floor outside the regions', 'metrics/python/rater_feedback_utils.py')],
     observe=['scores', 'trust regions', 'inputs after the call'])

prop('C27', 'Frames become rows of the v2 tables complete, under their own key, or not at all',
     'Converting a v1 frame gives, for every label, image, range image, calibration, pose and statistic in it, exactly one row of its v2 component: under the key of its own segment, frame, sensor and object, with exactly the columns of the declared schema, values that fit their declared types, and every value equal to the recorded one (fields never recorded stay empty). Inconsistent or damaged records are refused and give no row. It is the same in any order, interleaving and repetition, leaves frames as they were, rows do not change when the frame is reused, and columns read back in any order, joined with other tables, give the component again.',
     ['schedules', 'fault_sequences', 'inputs', 'histories'],
     'any frames with any optional parts present or missing, any order and interleaving of extractors over frames by concurrent workers that share or re-read frames, failing operations and allocations, restarts, damaged compressed images, missing required fields',
     'The tests convert one hand-made frame per component once and look at a few of its columns.',
     ['v2/component.py', 'v2/column_types.py', 'v2/perception/base.py', 'v2/perception/box.py', 'v2/perception/lidar.py',
      'v2/perception/compat_v1/interfaces.py', 'v2/perception/compat_v1/box.py', 'v2/perception/compat_v1/context.py',
      'v2/perception/compat_v1/keypoints.py', 'v2/perception/compat_v1/lidar.py', 'v2/perception/compat_v1/segmentation.py',
      'v2/perception/utils/lidar_utils.py'],
     [('columns of a component from its fields', 'v2/component.py'),
      ('extractors and their sources', 'v2/perception/compat_v1/interfaces.py'),
      ('parsing of compressed range images', 'v2/perception/utils/lidar_utils.py')],
     observe=['rows by table and key', 'schemas', 'components read back', 'frames after conversion'])

prop('C28', 'Point clouds put every return of every laser where the sensors measured it',
     'For every frame, the v1, v2 and motion-data converters give one point for each pixel with a positive range and none for the rest, row by row: at the place given by the range, the beam of its row, the direction of its column, the laser\'s calibration and, for the top laser, the vehicle\'s pose when that pixel was measured; together with that pixel\'s own features and camera projections, for each laser under its name or in order of names. Virtual range images, depth images and crops invert this: each point goes to its own pixel and the nearest wins. Returns, lasers or images that are missing or damaged are refused. Order, sharing, repetition, concurrency and failures change nothing.',
     ['schedules', 'fault_sequences', 'inputs', 'histories'],
     'any frames, lasers in any order, uniform or listed beams, tilted sensors, moving vehicle, one or two returns, missing pixels, batches of any size, concurrent workers that share parsed frames, failing operations and allocations, restarts, damaged images, frames reused afterwards',
     'The tests need TensorFlow and convert constant images by untilted sensors or one recorded frame on one thread.',
     ['utils/frame_utils.py', 'utils/range_image_utils.py', 'utils/transform_utils.py', 'utils/womd_lidar_utils.py',
      'v2/perception/utils/lidar_utils.py', 'v2/perception/lidar.py'],
     [('parsed range images by laser and return', 'utils/frame_utils.py'),
      ('pixel poses of the top laser', 'utils/range_image_utils.py'),
      ('points and projections selected by one mask', 'v2/perception/utils/lidar_utils.py')],
     observe=['points and features', 'camera projections', 'virtual range images', 'depth images', 'frames after conversion'])

prop('C29', 'Occupancy and flow ground truth shows every agent where and when it was',
     'For every batch of scenes and configuration, the grids of a step hold one exactly in the cells that the points of the boxes of the valid agents of that type fall into, in the frame of the autonomous vehicle of their scene; in the future, agents seen in any past or current step are kept apart from the others. The flow of a cell is the mean motion of its points back over one waypoint, for agents valid at both ends. Waypoints sample or combine (maximum of occupancy, mean of motions that are not zero) their steps; origins lie one waypoint earlier. Trails, road, pictures and metrics follow from them; configurations that cannot work and spoiled examples are refused. Order, sharing, repetition, concurrency and failures change nothing.',
     ['schedules', 'fault_sequences', 'inputs', 'histories'],
     'any scenes and batch sizes, agents that come, go or were never seen, any grid, scale, box sampling and waypoints, whole parsed examples, concurrent workers that share inputs and grids, failing operations and allocations, restarts, inputs reused for other batches',
     'The tests need TensorFlow and one recorded example, look at shapes and a few sums, and run on one thread.',
     ['utils/occupancy_flow_data.py', 'utils/occupancy_flow_renderer.py', 'utils/occupancy_flow_grids.py', 'utils/occupancy_flow_metrics.py',
      'utils/occupancy_flow_vis.py'],
     [('inputs with the fields of the vehicle', 'utils/occupancy_flow_data.py'),
      ('points of boxes by agent and step', 'utils/occupancy_flow_renderer.py'),
      ('grids by step and by waypoint', 'utils/occupancy_flow_grids.py')],
     observe=['grids by step', 'waypoints', 'trails, road and pictures', 'metrics', 'inputs afterwards'])

prop('C31', 'Object assets keep their rays, boxes their points, in every frame and format',
     'For any samples the fitted configuration has their mean, deviation and the directions of largest variance, reads back equal from JSON, and a torn or incomplete one is refused. For every asset, encoding yields the projections of its tiles in reading order, rounded to the steps of the configuration and held within 32 bits; decoding gives rays of the same shape and key that differ by no more than this rounding and what the kept components leave out. Rows of the components read back equal. Points are in a box exactly if they lie between its sides in its heading; counts, corners and moved boxes agree; points and directions keep position and type through changes of frame and back. Rays hit a box where they enter and leave it; both distances are negative if they miss. Camera tokens are appended, codebook entries looked up, tokens outside refused. Order, sharing, repetition, concurrency and failures change nothing.',
     ['schedules', 'fault_sequences', 'inputs', 'histories'],
     'any sizes of assets and tiles, numbers of components and steps, any rays, boxes without extent, batches of poses far from the origin, single and double precision, concurrent workers that share a codec and tensors, failing operations and allocations, restarts, torn configurations',
     'The tests need TensorFlow and scikit-learn, use a few fixed rays, boxes and points near the origin, and run on one thread.',
     ['utils/compression/pca_codec.py', 'utils/compression/tiling.py', 'v2/perception/object_asset.py', 'v2/perception/utils/object_asset_codec.py',
      'v2/perception/utils/object_asset_utils.py', 'utils/box_utils.py', 'utils/transform_utils.py', 'utils/womd_camera_utils.py'],
     [('codec and its configuration', 'utils/compression/pca_codec.py'),
      ('rays and frames of boxes', 'v2/perception/utils/object_asset_utils.py'),
      ('points in boxes, moved boxes', 'utils/box_utils.py')],
     observe=['configurations', 'compressed rows', 'decoded rays', 'intersections', 'points, boxes and flags', 'inputs afterwards'])

# ---------------------------------------------------------------- not claimed
NA = []


def na(id, title, statement, reason, files, over=('inputs',), text='every input', why='Tests sample a handful of inputs.'):
  prop(id, title, statement, list(over), text, why, files, [('pure computation', files[0])])
  NA.append(dict(property=id, reason=reason))


na('C30', 'Box overlap and polygon geometry are geometrically correct',
   'Intersection over union of 2D, rotated and 3D boxes and the polygon intersection behind it equal the geometric value within rounding, are symmetric and lie in [0, 1]. Exact arithmetic predicates never give the wrong sign.',
   'A pure function of its two arguments: no schedule, clock, I/O, shared state or fault for a simulator to decide (used as a component of C01-C08, whose workloads check it against an independent overlap computation).',
   ['metrics/iou.cc', 'math/polygon2d.cc', 'math/exactfloat.cc'])
na('C37', 'Segmentation colours distinguish classes and instances',
   'The colour image of a label shows every class in its own colour and varies it by instance.',
   'A pure drawing function; no schedule, state or fault dimension (the labels and metrics, which have them, are C22).',
   ['utils/camera_segmentation_utils.py'])
na('C38', 'Map and trajectory plots show every map feature',
   'Plotting a map draws every lane, line, edge, crosswalk, bump and sign of the map with its own coordinates.',
   'A pure drawing function; no schedule, state or fault dimension.',
   ['utils/plot_maps.py'])
na('C39', 'Breakdown names in Python agree with the shards the C++ code emits',
   'For every configuration the list of breakdown names returned in Python has one entry per breakdown shard of the C++ generator and difficulty level, in the same order.',
   'Two pure enumerations of a configuration; no schedule, state or fault dimension.',
   ['metrics/python/config_util_py.py', 'metrics/breakdown_generator.cc'])
na('C40', 'Keypoint drawings show every visible keypoint',
   'Rendering keypoints on images and in 3D views draws every visible keypoint and edge of the wireframe once at its own position.',
   'A pure drawing function; no schedule, state or fault dimension (the metrics over keypoints, which have histories, are C21).',
   ['utils/keypoint_draw.py'])

if __name__ == '__main__':
  root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
  with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
      f.write(json.dumps(p) + '\n')
  for p in P:
    for x in p['anchors']['files']:
      if not os.path.exists('/repo/' + x):
        print('missing', p['id'], x)
