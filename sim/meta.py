"""Per-property settings of the checks: engine, budgets, and what is real.

quick / thorough: (simulated runs, seconds of search); whichever ends first.
"""
OPS_REAL = ('the TensorFlow op kernels of the repository (Compute, tensor parsing), the metrics library they call, '
            'OpKernelContext, Tensor, Status and protobuf of libtensorflow_framework')
OPS_STUB = ('the TensorFlow session and executor (kernels are called directly); tsl::thread::ThreadPool runs on '
            'simulated threads; allocator, clock, MaxParallelism, pthread and futex calls are simulated')
LIB_REAL = 'the C++ metrics library of the repository and protobuf'
LIB_STUB = 'the caller; memory allocation and hash seeding are simulated'
MEM = ('repository code is compiled with -fsanitize=thread against the simulator\'s own hooks: every memory access '
       'and atomic operation of it is a preemption point; code inside the TensorFlow binary is atomic between its '
       'lock operations')
FLOAT = 'float sums may differ in the last digits: ratios are compared within 2e-4, counts exactly'

PY_STUB = ('the file system is a scratch directory behind faulty open/read/write/close/list/mkdir calls (short '
           'transfers, I/O errors, full disk, too many files, write-back lost at close, process killed, listing in any '
           'order); clocks are simulated and the wall clock jumps')
STAT = 'a stat() that fails with an I/O error is not injected (os.path.isdir reports it as False)'

TOOL_STUB = ('the file system behind open, read, write and close of the tool (missing file, I/O errors, short and '
             'interrupted transfers, full disk, failing close; files torn, truncated, with lost stretches or flipped '
             'bits); memory allocation')
TOOL_ASSUME = 'file names, flags and arguments are valid; the process is not killed while it runs'

PROPS = {
    'C01': dict(
        engine='cc', src='c01.cc', quick=(19200, 40), thorough=(400000, 600), real=OPS_REAL, stub=OPS_STUB,
        oracle='op outputs against the serial library per frame and an independent reference model',
        rule='A run is one call of the DetectionMetrics kernel on 0-6 generated frames under a generated '
             'configuration, row interleaving, worker count, schedule and memory layout. Non-trivial: at least two '
             'frames hold both predictions and ground truths.',
        assumptions=[MEM, FLOAT]),
    'C03': dict(
        engine='cc', src='c03.cc', quick=(8000, 40), thorough=(300000, 600), real=OPS_REAL, stub=OPS_STUB,
        oracle='op outputs against each sequence evaluated alone and an independent CLEAR-MOT model',
        rule='A run is one call of the TrackingMetrics kernel on generated sequences under a generated '
             'configuration, row interleaving, worker count, schedule and memory layout. Non-trivial: at least two '
             'sequences have two or more frames with both predictions and ground truths.',
        assumptions=[MEM, FLOAT]),
    'C04': dict(
        engine='cc', src='c04.cc', quick=(8000, 40), thorough=(300000, 600), real=LIB_REAL, stub=LIB_STUB,
        oracle='per-frame conservation and comparison with an independent CLEAR-MOT model over the history',
        rule='A run evaluates 1-3 generated sequences of up to 9 frames (objects appear, vanish, swap identity; '
             'detections are dropped, duplicated, delayed) in a drawn order, some after an abandoned attempt. '
             'Non-trivial: some sequence has three or more frames with both predictions and ground truths.',
        assumptions=[FLOAT, 'runs in which rounding could decide a match are compared for conservation only']),
    'C02': dict(
        engine='cc', src='c02.cc', quick=(4800, 40), thorough=(200000, 600), real=OPS_REAL,
        stub=OPS_STUB + '; the coordinator, its storage and the result messages are simulated',
        oracle='finalised metrics and merged measurements against one serial pass and an independent reference model',
        rule='A run cuts 1-8 generated frames into 1-5 shards, evaluated by 1-3 concurrent workers; results are lost, '
             'delayed, duplicated and folded in drawn groupings, the coordinator crashes and restarts from what it '
             'stored. Non-trivial: at least two shards hold a frame with both predictions and ground truths.',
        assumptions=[MEM, FLOAT, 'score cutoffs are explicit: estimated cutoffs depend on all predictions by design']),
    'C05': dict(
        engine='cc', src='c05.cc', quick=(9600, 40), thorough=(400000, 600), real=OPS_REAL, stub=OPS_STUB,
        oracle='op outputs against each scenario evaluated alone and an independent motion metrics model; fault '
               'injection of scenarios that cannot be evaluated',
        rule='A run is one call of the MotionMetrics kernel on 1-6 generated scenarios under a generated '
             'configuration, batch order, worker count, schedule and memory layout; in a third of the runs some '
             'scenarios or the declared configuration cannot be evaluated. Non-trivial: at least two scenarios and '
             'three prediction groups.',
        assumptions=[MEM, FLOAT, 'runs in which rounding could decide a comparison skip the model']),
    'C06': dict(
        engine='cc', src='c06.cc', quick=(28000, 40), thorough=(1000000, 600), real=LIB_REAL, stub=LIB_STUB,
        oracle='finalised metrics of the drawn history against serial evaluation and an independent motion model',
        rule='A run evaluates 1-6 generated scenarios into 1-4 partial sums by a drawn history of evaluations, failing '
             'evaluations and retries, merges and reads, with and without custom metrics. Non-trivial: at least two '
             'scenarios and three prediction groups.',
        assumptions=[FLOAT, 'runs in which rounding could decide a comparison skip the model']),
    'C07': dict(
        engine='cc', src='c07.cc', quick=(24000, 40), thorough=(1000000, 600), real=LIB_REAL,
        stub=LIB_STUB + '; workers, coordinator and their messages are simulated',
        oracle='every read and merge against exact per-class counts of the frames accepted since the last reset',
        rule='A run has 1-3 workers, each with an accumulator that takes a drawn history of frames, rejected frames, '
             'resets, reads and merges; partial results travel in messages that are delayed and duplicated and are '
             'merged in drawn groups. Non-trivial: at least two workers and three frames.',
        assumptions=[MEM]),
    'C08': dict(
        engine='cc', src='c08.cc', quick=(16000, 40), thorough=(500000, 600), real=LIB_REAL + ' and the Match op kernel',
        stub=LIB_STUB + '; the TensorFlow session and executor (the kernel is called directly)',
        oracle='every answer against a fresh matcher, optimality by dynamic programming, greedy order by replay, pairs '
               'and op outputs against an independent model of overlap and affinity',
        rule='A run uses 1-2 matchers (on simulated threads) over a drawn history of inputs, refilled buffers, subsets, '
             'replaced functions, single questions and matchings; a third of the runs drive the Match op with batches, '
             'padding and failing calls instead. Non-trivial: two inputs with both predictions and ground truths, or two '
             'op calls.',
        assumptions=[MEM, 'close calls (overlap at the threshold, equal weights, equal scores) skip the model, not the '
                     'comparison with the fresh matcher']),
    'C09': dict(
        engine='cc', src='c09.cc', quick=(12000, 45), thorough=(400000, 600),
        real=OPS_REAL + '; all nine op kernels (DetectionMetrics, DetectionMetricsState, DetectionMetricsResult, '
        'TrackingMetrics, MotionMetrics, Match, WorldToImage, WorldToImageMovingPoint, ImageToWorld)', stub=OPS_STUB,
        oracle='every result bit by bit against the same call made alone on a kernel of its own',
        rule='A run has one or two kernels (of different ops, or the same op with other attributes) with 2-4 prepared '
             'calls each, and 1-3 callers that draw which to make; some calls have inputs of the wrong shape or fail to '
             'allocate an output. Non-trivial: at least two calls return something other than zeros.',
        assumptions=[MEM]),
    'C10': dict(
        engine='cc', src='c10.cc', quick=(60000, 40), thorough=(2000000, 600),
        real='CameraModel and the camera op kernels of the repository, protobuf', stub=LIB_STUB +
        '; the TensorFlow session and executor (the kernels are called directly)',
        oracle='every answer bit by bit against a model that saw only this image, the answers against an independent '
               'model of the moving rolling-shutter camera, op outputs against the library',
        rule='A run has 1-3 cameras and 1-5 images (some repeated or differing in one respect), taken up in drawn order '
             'by long-lived models, each projecting from 1-3 threads while other models are prepared; some images are '
             'abandoned half way. Non-trivial: at least two images.',
        assumptions=[MEM, 'the geometric comparison allows what the published approximations cost (scan line time '
                     'linear in undistorted coordinates, rotation linear in time) and leaves out points nearer than 3 m '
                     'or chased by the scan line']),
    'C18': dict(
        engine='cc', src='c18.cc', quick=(9600, 45), thorough=(300000, 600), real=OPS_REAL, stub=OPS_STUB,
        oracle='bit-by-bit comparison of the same evaluation in three or four simulated processes',
        rule='A run evaluates one generated input (with ties and twins) through an op or the library, then again under '
             'other memory placement, memory contents, schedules and after other work. Non-trivial: every run that '
             'compares.',
        assumptions=[MEM, 'hash seeding varies with memory placement (the salt of absl tables); the seed of absl::Hash '
                     'itself is a fixed address of the program']),
    'C11': dict(
        engine='py', src='c11', quick=(6000, 40), thorough=(200000, 600),
        real='latency/wod_latency_evaluator.py run as a script, numpy file formats',
        stub='the submission module (a recording model); ' + PY_STUB,
        oracle='files, latencies and exit status against the frames on disk and the recorded model calls',
        rule='A run is one execution of the evaluator over 0-9 generated frames, with damaged inputs, leftovers, a model '
             'that fails, reuses its buffers or works in place, and drawn file system faults or a crash; after a failed '
             'execution it is run again without faults. Non-trivial: at least two frames.',
        assumptions=[STAT]),
    'C12': dict(
        engine='py', src='c12', quick=(6000, 40), thorough=(200000, 600),
        real='latency/make_objects_file_from_latency_results.py run as a script, numpy file formats, protobuf',
        stub=PY_STUB,
        oracle='parsed objects file as a multiset of detections against the generated result arrays, and exit status',
        rule='A run converts 0-9 generated frame directories (3D or 2D), at times with one damaged frame or an earlier '
             'output, under drawn file system faults and crashes, repeated until it succeeds. Non-trivial: at least two '
             'frames and two detections.',
        assumptions=[STAT, 'scores and sizes near the published cut-offs (0.03, 0.01) and NaN are not generated']),
    'C13': dict(
        engine='cc', src='c13.cc', quick=(16000, 40), thorough=(600000, 600), ops=False,
        tools=['latency/compare_objects_file_to_submission_main.cc'],
        real='the tool, run as a process of its own; the matcher, protobuf, libstdc++ file streams', stub=TOOL_STUB,
        oracle='the decision of an independent model of the comparison over the content the files hold',
        rule='A run is one execution of the tool on a generated latency file and one to three submission files (copies '
             'and near copies: one field of one detection moved, dropped, doubled, relabelled), in drawn order of '
             'objects, possibly damaged on disk, under a drawn plan of file faults. Non-trivial: at least two '
             'latency detections and a decision known to the model.',
        assumptions=[TOOL_ASSUME, 'frames where rounding or the choice among several matchings could decide are not '
                     'decided']),
    'C14': dict(
        engine='cc', src='c14.cc', quick=(12000, 40), thorough=(400000, 600), ops=False,
        tools=['metrics/tools/create_submission.cc'],
        real='the tool, run as a process of its own; protobuf, libstdc++ file streams',
        stub=TOOL_STUB + '; absl flags (the installed library has headers only) are a table of strings',
        oracle='the kept objects of the inputs as a multiset against the shards, and the exit status',
        rule='A run packs 1-4 generated prediction files into up to 6 shards (at times none), possibly over leftovers or '
             'damaged inputs, one to three times under drawn plans of file faults and once without. Non-trivial: at least two '
             'objects and nothing wrong with the inputs.',
        assumptions=[TOOL_ASSUME]),
    'C15': dict(
        engine='cc', src='c15.cc', quick=(6000, 45), thorough=(200000, 600), ops=False,
        tools=['metrics/tools/compute_%s_metrics_main.cc' % x for x in
               ('detection', 'detection_let', 'tracking', 'segmentation')],
        real='the four tools, each run as a process of its own; the metrics library, protobuf, zlib, libstdc++ file '
             'streams', stub=TOOL_STUB,
        oracle='the metrics the library gives for the content (grouped independently, the documented configuration); '
               'for segmentation an independent count',
        rule='A run is one execution of one tool on generated prediction and ground-truth files, in drawn order of '
             'frames, possibly damaged on disk, under a drawn plan of file faults. Non-trivial: both files '
             'hold something.',
        assumptions=[TOOL_ASSUME, 'the order of objects within a frame is kept', 'label files that hold one frame '
                     'twice, or a return without labels, are not decided']),
    'C16': dict(
        engine='py', src='c16', quick=(8000, 40), thorough=(300000, 600),
        real='utils/compression/delta_encoder.py, numpy, zlib, protobuf',
        stub='threads run one at a time under a drawn schedule with switches before any line or bytecode of the module; '
             'stored streams are damaged; allocations fail at drawn bytecodes',
        oracle='the original images, the bytes of encoding each alone, and the quantisation bound',
        rule='A run encodes and decodes 1-3 generated images (all layouts, read-only, sparse, constant) from 1-3 threads '
             'in drawn histories with damaged streams, refused precisions and failing allocations. Non-trivial: more '
             'than one image or thread.',
        assumptions=['a value may be off by half a precision plus 5e-7 of its size (precisions are stored as float32)',
                     'NaN, infinities and empty images are not generated', 'numpy, zlib and protobuf calls are atomic',
                     'pca_codec needs scikit-learn and TensorFlow, which are not installed, and is not covered']),
    'C17': dict(
        engine='py', src='c17', quick=(8000, 40), thorough=(300000, 600),
        real='metrics/python/wod_detection_evaluator.py, config_util_py.py, metrics/ops/py_metrics_ops.py, protobuf, numpy',
        stub='TensorFlow (an eager tensor stub on numpy) and the compiled metrics op, which records its arguments and '
             'returns numbers computed from them; ' + PY_STUB,
        oracle='a list of the accepted frames; the multiset of rows handed to the op and every reported number',
        rule='A run is a history of batched updates (valid, halfway invalid, with keys or speeds missing), evaluations, '
             'results and resets over one or two evaluators; batching is drawn. Non-trivial: at least one read and four '
             'operations.',
        assumptions=[STAT, 'TensorFlow itself is a stub: only its documented behaviour is exercised',
                     'updates whose arrays have inconsistent lengths are not generated']),
    'C19': dict(
        engine='py', src='c19', quick=(9000, 45), thorough=(200000, 600),
        real='metrics/python/{detection,tracking,motion}_metrics.py, config_util_py.py, metrics/ops/py_metrics_ops.py',
        stub='TensorFlow graph mode (lazily evaluated nodes, run in a drawn legal order, any operation but an assignment '
             'may fail) and the compiled metrics ops, which record their arguments',
        oracle='a list of the accepted batches per session; the multiset of rows handed to the op and every value',
        rule='A run builds one of the three graphs, opens one to three sessions and draws a history of updates (in one or '
             'several session runs), failing updates, reads and re-initialisations. Non-trivial: at least two updates.',
        assumptions=[STAT, 'TensorFlow itself is a stub: operations run in any order their dependencies allow',
                     'assignments to existing variables do not fail', 'a value and an update are not fetched together']),
    'C20': dict(
        engine='py', src='c20', quick=(2500, 45), thorough=(100000, 600),
        real='v2/dataframe_utils.py and pandas',
        stub='dask.dataframe: lazy partitions, tree aggregation and hash shuffle over real pandas, executed in a drawn '
             'order with drawn lost workers (tasks run again, inputs recomputed); v2/__init__.py is bypassed (pyarrow is '
             'not installed)',
        oracle='a nested-loop join over the rows as Python values; multisets of result rows',
        rule='A run draws two tables (1-3 keys of drawn types, 0-8 rows, duplicates) and the options, and merges them once '
             'with pandas and twice with the dask stub under other row orders, partitionings and schedules. Non-trivial: '
             'both tables have rows.',
        assumptions=[STAT, 'null keys are not generated', 'non-shared columns of the two tables have different names',
                     'dask itself is a stub: only its documented behaviour is exercised']),
    'C21': dict(
        engine='py', src='c21', quick=(9000, 45), thorough=(200000, 600),
        real='metrics/python/keypoint_metrics.py, utils/keypoint_data.py, metrics/python/matcher.py, protobuf, numpy',
        stub='TensorFlow eager ops, variables and Keras metrics (numpy stubs with the documented attribute tracking, reset and '
             'merge), scipy.optimize.linear_sum_assignment (exact, with drawn ties) and the compiled match op; ' + PY_STUB,
        oracle='a float64 reference of every metric over the accepted batches; brute-force optimal assignment; '
               'conservation of the objects of a frame under matching',
        rule='A run is a history of updates (legal, malformed, or with TensorFlow ops that fail part-way), results, resets and '
             'merges on one to three metric streams, or a series of frames through a matcher. Non-trivial: at least two '
             'accepted updates, or a frame with an object.',
        assumptions=[STAT, 'TensorFlow and Keras themselves are stubs: only their documented behaviour is exercised',
                     'a metric whose update failed inside TensorFlow is only required to be right again after a reset',
                     'headings of keypoint boxes turn clockwise, as the existing tests pin']),
    'C22': dict(
        engine='py', src='c22', quick=(12000, 45), thorough=(400000, 600),
        real='utils/camera_segmentation_utils.py, wdl_limited/camera_segmentation/camera_segmentation_metrics.py, '
             'v2/perception/segmentation.py and compat_v1/segmentation.py, v2/component.py, protobuf, numpy',
        stub='TensorFlow eager ops and the PNG codec, scikit-image relabel_sequential, DeepLab2 STQuality (remembers what it is '
             'given; its numbers are a digest of that), pyarrow types (only named), datasets that fail at drawn records; ' + PY_STUB,
        oracle='the arrays the labels were written from: classes, objects, tracked flags and coverage of every pixel; the frames '
               'each metric object must hold; the digest of all sequences',
        rule='A run draws one to three sequences of labels (v1 protos or v2 components through the table columns), decodes drawn '
             'batches of them in drawn orders with drawn options, saves and reloads predictions, loads frames from a failing '
             'dataset, evaluates each sequence with failing and retried jobs and aggregates in drawn orders. Non-trivial: at '
             'least two labels.',
        assumptions=[STAT, 'TensorFlow, scikit-image, pyarrow and DeepLab2 are stubs: only their documented behaviour is exercised',
                     'global instance ids are positive', 'what becomes of instances that have no global id is not checked, apart '
                     'from their class']),
    'C23': dict(
        engine='cc', src='c23.cc', quick=(24000, 40), thorough=(500000, 600), ops=False, dirs=['data_conversion'],
        real='data_conversion/scenario_conversion.cc, protobuf, the tf.Example protos of libtensorflow_framework',
        stub='the record reader and the workers, which are simulated; memory allocation and hash seeding are simulated',
        oracle='every example against an independent model of the conversion, and bit by bit against the conversion of the record '
               'alone in another simulated process; counters of a stream against the sum over its records',
        rule='A run draws a configuration and 1-5 scenarios of which a third are damaged, converts each alone, then the stream of '
             'them in drawn order, with repetitions, by 1-3 workers in other memory. Non-trivial: at least two scenarios.',
        assumptions=[MEM, 'coordinates are finite, ids are unique within a scenario and below 2^24; the order of context agents '
                     'that no rule tells apart is left open']),
    'C24': dict(
        engine='py', src='c24', quick=(12000, 60), thorough=(400000, 600),
        real='utils/sim_agents/submission_specs.py and converters.py, utils/trajectory_utils.py, '
             'wdl_limited/sim_agents_metrics/metrics.py (aggregation), protobuf, numpy',
        stub='TensorFlow eager ops (the repository\'s own tests of these files pass on them: tools/upstream.py); ' + PY_STUB,
        oracle='the drawn scenarios and trajectories themselves: who must be simulated, which arrays belong to which id; plain means',
        rule='A run draws one to three scenarios of either challenge, lets simulators deliver their trajectories and scenes in drawn '
             'orders, damages some, validates, converts in drawn orders and aggregates drawn metrics, with failing and repeated '
             'operations. Non-trivial: at least two scenarios.',
        assumptions=[STAT, 'TensorFlow is a stub: only its documented behaviour is exercised']),
    'C25': dict(
        engine='py', src='c25', quick=(3000, 80), thorough=(100000, 600),
        real='wdl_limited/sim_agents_metrics (all of it), utils/geometry_utils.py, utils/trajectory_utils.py, '
             'utils/sim_agents, protobuf, numpy',
        stub='TensorFlow eager ops, the histogram and categorical distribution of TensorFlow Probability and the kernel density of '
             'scikit-learn (the repository\'s own tests of these files pass on them: tools/upstream.py); ' + PY_STUB,
        oracle='an independent numpy model: separating axes of shrunk boxes, signed distance to polylines by nearest segment and '
               'corner, following rule, lane association and stop points, central differences; counted histograms and kernel '
               'densities over its own grouping of the samples',
        rule='A run draws one or two scenarios with maps and signals, up to three simulated scenes each in drawn orders, computes '
             'features and scores with failing and repeated operations and compares every step of kinematics and signals and '
             'drawn steps of the rest. Non-trivial: at least one scene scored.',
        assumptions=[STAT, 'TensorFlow, TensorFlow Probability and scikit-learn are stubs: only their documented behaviour is exercised',
                     'steps next to invalid states are not judged for speeds and time to collision, signals not when they were '
                     'absent at the previous step, and nothing within a small margin of a threshold',
                     'red lights of lanes with points at the same place and steps at which the evaluated object is invalid are not judged']),
    'C26': dict(
        engine='py', src='c26', quick=(6000, 50), thorough=(200000, 600),
        real='metrics/python/rater_feedback_utils.py, the end-to-end driving protos, protobuf, numpy',
        stub='none; switches between threads and failing allocations come from a trace function',
        oracle='the published rule computed for one frame at a time in scalar arithmetic; the inputs as they were',
        rule='A run draws up to six frames, up to three workers that evaluate drawn batches of them with drawn configurations as '
             'threads of which one moves at a time (switches before drawn lines or instructions), some with damaged batches and '
             'failing allocations, and compares every output of every frame. Non-trivial: two frames or two workers.',
        assumptions=[STAT, 'scores are not judged within rounding of a region\'s edge, except for frames that lie on it exactly']),
    'C27': dict(
        engine='py', src='c27', quick=(6000, 55), thorough=(200000, 600),
        real='v2/component.py, v2/column_types.py, v2/perception/*.py with compat_v1 and lidar_utils, dataset and label protos, protobuf, numpy',
        stub='TensorFlow eager operations (zlib decompression, conversion, reshape), pyarrow types with their rules on what can be stored; '
             'threads and failing allocations come from a trace function',
        oracle='the recorded values as they were drawn, under hand-written names of the published columns',
        rule='A run draws one or two segments of frames with any parts present or missing and one to three workers (threads of which one moves '
             'at a time) that take the sources in any order, one by one or several extractors half way at once, over shared or own copies of the '
             'frames, with failing operations and allocations, restarts, and damaged images that are repaired and tried again; every row is '
             'compared, frames are compared and then reused, and rows are read back through joined tables. Non-trivial: more than three sources.',
        assumptions=['a value can be stored in a column if pyarrow documents it', 'damaged means that the image no longer decompresses to what was written']),
    'C28': dict(
        engine='py', src='c28', quick=(6000, 55), thorough=(200000, 600),
        real='utils/frame_utils.py, range_image_utils.py, transform_utils.py, womd_lidar_utils.py, compression/delta_encoder.py, '
             'v2/perception/utils/lidar_utils.py with the components and extractors, dataset protos, protobuf, numpy',
        stub='TensorFlow eager operations (numpy kernels with its rules on types and shapes; JPEG is a stand-in format), pyarrow types; threads and '
             'failing allocations come from a trace function',
        oracle='positions of all pixels from the definition of the data, pixel by pixel with 4x4 matrices in double precision',
        rule='A run draws one or two frames with one to five lasers and one to three workers (threads of which one moves at a time) that share parsed '
             'frames or have their own, and convert them in any order by all three families of functions, with failing operations and allocations, '
             'restarts and damaged images; virtual range images, depth images, crops and feature codes are made in between; all results are judged '
             'at once and again after the frames were cleared. Non-trivial: more than ten points.',
        assumptions=['positions may differ by rounding to 32 bits at the distance of the vehicle from the origin',
                     'damaged means that the image no longer decompresses or parses']),
    'C29': dict(
        engine='py', src='c29', quick=(6000, 55), thorough=(200000, 600),
        real='utils/occupancy_flow_{data,renderer,grids,metrics,vis}.py, configuration and metrics protos, protobuf, numpy',
        stub='TensorFlow eager operations and the AUC metric (numpy kernels with its rules on types and shapes; examples are parsed from a stand-in '
             'format), the flow warp that the repository has disabled; threads and failing allocations come from a trace function',
        oracle='cells of all points from world coordinates in double precision, with bounds where rounding decides; metrics from their definitions',
        rule='A run draws one or two batches of scenes, each with a configuration, and one to three workers (threads of which one moves at a time) that '
             'share inputs and grids by step or have their own, and make grids by step, waypoints, single renders, roads, trails, pictures and metrics '
             'in any order, with failing operations and allocations, restarts, spoiled examples and configurations that must be refused; all results '
             'are judged at once and again after the inputs were cleared. Non-trivial: more than three valid states and judged results.',
        assumptions=['a point within rounding of the border of a cell may fall on either side',
                     'seen means valid in any past or current step, as the code has it; a comment in the proto speaks of the current step only',
                     'metrics are judged with the disabled warp replaced; if they raise NotImplementedError, they are not judged']),
    'C31': dict(
        engine='py', src='c31', quick=(6000, 55), thorough=(200000, 600),
        real='utils/compression/{pca_codec,tiling}.py, v2/perception/object_asset.py, v2/perception/utils/object_asset_{codec,utils}.py, '
             'utils/{box,transform,womd_camera}_utils.py, v2 components and keys, label and scenario protos, pandas, dacite, numpy',
        stub='TensorFlow eager operations (numpy kernels with its rules on types and shapes; PNG is a stand-in format), scikit-learn scaler, PCA and '
             'pipeline, pyarrow types; threads and failing allocations come from a trace function; storage of configurations is a dictionary',
        oracle='tiles, projections, quantized values and decoded rays in double precision with bounds from rounding; the largest variances of the samples; '
               'ray and box intersections by slabs, points in the frame of each box, 4x4 matrices',
        rule='A run draws assets of any size, one or two scenes of points and boxes and one to three workers (threads of which one moves at a time) that '
             'share a codec and tensors or have their own, fit or read the configuration, compress, store, read and decode rays, intersect rays with '
             'boxes, count points in boxes, move points and boxes between frames, read images and add camera tokens in any order, with failing '
             'operations and allocations, restarts, torn configurations and inputs that must be refused; all results are judged at once and again '
             'after the inputs were overwritten. Non-trivial: more than three judged results.',
        assumptions=['points and rays within rounding of the side of a box may fall on either side',
                     'an asset too small to be mirrored into a whole tile may be refused']),
}
