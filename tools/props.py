MC = ("Exhaustive within the stated bound on the real code, compared step by step with "
      "an independent reference; says nothing beyond the bound. ")

prop("C01", "Influence-function scores equal the inverse-Hessian inner product",
     "For the explicit, conjugate-gradient, Arnoldi and LiSSA influence attributors, the "
     "score of a training sample for a test sample is the training-loss gradient times "
     "the inverse of the (regularised) Hessian of the loss on the cached full training "
     "batch (summed over its batches for explicit, CG and LiSSA when the cached loader has several) times the test-target gradient, averaged over all checkpoints, and "
     "divided per training sample by sqrt(g H^-1 g) or |H^-1 g| when relative influence is requested. The result "
     "does not depend on how the train and test loaders passed to the attribute call are "
     "batched, nor on earlier cache/attribute calls on the same attributor.",
     ["inputs", "configurations", "histories"],
     "all batch-size partitions of train and test data, 1-3 checkpoints, layer "
     "restrictions, data container kinds and call histories up to the bound",
     "Tests compare one seed and one batching per attributor with loose self-consistency; "
     "batch-boundary, multi-checkpoint and repeated-call behaviour are not enumerated.",
     [A + "base.py", A + "influence_function.py", "dattri/func/hessian.py", "dattri/task.py"],
     [("batch offset bookkeeping and checkpoint averaging", A + "base.py:BaseInnerProductAttributor.attribute"),
      ("test-side transform", A + "influence_function.py:transform_test_rep")],
     technique="bounded exhaustive enumeration of configurations/histories of the real attributors against a dense reference",
     note=MC + "Tiny float models; loader for the Hessian is one full batch (and, separately, the documented per-batch form).")

prop("C02", "DataInf and EK-FAC scores equal their closed forms",
     "DataInf scores equal the per-layer closed-form average of rank-one damped inverses "
     "of the cached training gradients, and EK-FAC scores equal preconditioning by the "
     "eigenvalue-corrected Kronecker factorisation, in the eigenbases of the layer input "
     "and output-gradient covariances, of the cached training data. Both are independent "
     "of how the cached and attributed data are batched.",
     ["inputs", "configurations"],
     "all batch partitions, checkpoint counts, layer subsets, with/without bias, "
     "regularisation/damping values in the alphabet",
     "Tests check shapes or one batch; the numeric value in every layer layout and "
     "batching is not compared with a dense reference.",
     [A + "influence_function.py", "dattri/func/fisher.py"],
     [("layer-wise gradient split", A + "influence_function.py:IFAttributorDataInf"),
      ("EK-FAC preconditioning", A + "influence_function.py:IFAttributorEKFAC"),
      ("covariance/eigenvalue running estimates", "dattri/func/fisher.py")],
     technique="bounded exhaustive enumeration of configurations against a dense closed-form reference",
     note=MC + "MLP-style models with Linear layers.")

prop("C03", "TracIn, Grad-Dot and Grad-Cos equal the weighted gradient similarity sum",
     "The score of a training sample for a test sample is the sum over checkpoints of "
     "weight times the inner product (cosine when normalisation is on) of their loss and "
     "target gradients, restricted to the chosen layers and, with projection, of the same "
     "random projection of both. Scores do not depend on batching of either loader or on "
     "earlier calls, and train and test data may be tuples, lists or dicts.",
     ["inputs", "configurations", "histories"],
     "all batch partitions x checkpoints x weights x normalisation x projection x layer "
     "restriction x call history up to the bound",
     "Tests fix one batch size and compare a few shapes; cross-product of options and "
     "remainders is not covered.",
     [A + "tracin.py", "dattri/task.py"],
     [("score accumulation and index arithmetic", A + "tracin.py:TracInAttributor.attribute")],
     technique="bounded exhaustive enumeration of configurations/histories against an autograd-loop reference",
     note=MC)

prop("C04", "TRAK scores equal the projected-kernel formula, cached or not",
     "TRAK scores equal the checkpoint average of (test features)(inverse of the cached "
     "or supplied training kernel plus regularisation)(training features), times the "
     "checkpoint-averaged training correction term, where both feature sets use the same "
     "projection per checkpoint. Using the cached training set gives the same scores as "
     "passing it explicitly, batching of any loader is irrelevant, and repeated or "
     "interleaved cache and attribute calls do not change results.",
     ["inputs", "configurations", "histories"],
     "all batch partitions, 1-3 checkpoints, projection kinds, regularisation values, "
     "cache/attribute histories up to the bound",
     "Tests check that both paths run and agree on one configuration; histories, "
     "remainder batches and the formula itself are not enumerated.",
     [A + "trak.py", "dattri/func/projection.py"],
     [("running means over checkpoints", A + "trak.py:TRAKAttributor"),
      ("per-checkpoint projection", "dattri/func/projection.py:random_project")],
     technique="explicit exploration of cache/attribute histories of the real attributor against a reference model",
     level="model_checking", note=MC)

prop("C05", "Representer-point scores follow the representer decomposition",
     'Representer-point scores equal feature similarity (normalised if requested) times '
     'the representer weight of the fine-tuned final layer, where the weight belongs to '
     "the test sample's class and is minus the per-sample loss gradient at that class's "
     'logit divided by twice the regularisation strength times the full training set '
     'size (for a mean-reduced loss). The score of a training sample for a test sample '
     'does not depend on loader batching or on which other samples are attributed with '
     "it once the full training set is cached, and the model's own parameters are not "
     'changed.',
     ["inputs", "configurations", "histories"],
     "all batch partitions, train subsets, binary/multi-class heads, normalisation, "
     "cache/attribute histories",
     "Tests only check result shapes.",
     [A + "rps.py", A + "utils.py", M + "hook.py"],
     [("final-layer feature capture", M + "hook.py:get_final_layer_io"),
      ("representer weights", A + "utils.py:get_rps_weight")],
     technique="bounded exhaustive enumeration of subsets/batchings/histories against a reference decomposition",
     note=MC)

prop("C06", "KNN-Shapley values are the exact Shapley values of the KNN utility",
     "For every training set, label assignment, distance order and neighbour count K, the "
     "reported value of each training point for each test point is the Shapley value of "
     "the utility 'number of correctly labelled points among the K nearest members of the "
     "subset, divided by K'. Batching and the source of labels (batch or explicit lists) "
     "do not matter, and label lists of the wrong length are refused.",
     ["inputs", "configurations"],
     "all distance orders, labellings, K (including K above the training size), batch "
     "sizes up to 4-5 points",
     "The test compares one random instance with fixed K; K above n, ties and remainder "
     "batches are not reached.",
     [A + "data_shapley.py"],
     [("distance matrix assembly and backward recurrence", A + "data_shapley.py:KNNShapleyAttributor.attribute")],
     technique="bounded exhaustive enumeration against brute-force Shapley values over all permutations",
     note=MC)

prop("C07", "Data-value embeddings equal the trajectory-specific influence",
     "For every recorded SGD trajectory, a sample's embedding at its step equals its "
     'learning-rate-scaled gradient propagated through all later recorded steps by the '
     'product of identity minus learning-rate-weighted gradient outer products, and the '
     'attribution score is the inner product of embedding and test gradient (summed over '
     'epochs or for one epoch), for every epoch numbering and history of recording, '
     'computing, clearing and attributing. The result is the same whether steps were '
     'recorded by the training context or supplied directly, for full and factorised '
     'gradients; recording changes neither parameters nor gradients of the training, and '
     'a step that failed is not recorded and leaves no hook behind.',
     ["histories", "inputs", "configurations"],
     "all trajectories of up to 2 epochs x 3 steps over sample subsets and learning "
     "rates, all epoch choices, with/without projection, with training steps that fail",
     "Tests run one trajectory and check shapes/similarity, never the recursion for all "
     "step counts, repeated indices or failed steps.",
     [A + "dvemb.py"],
     [("backward embedding recursion", A + "dvemb.py:cache"),
      ("gradient recording context", A + "dvemb.py:cache_gradients_context")],
     technique="explicit exploration of recorded training trajectories against a trajectory reference model",
     level="model_checking", note=MC)

prop("C08", "Block-projected influence equals the layer-wise dense formula",
     'With identity compression, LoGra and FactGraSS scores equal the sum over chosen '
     'Linear layers of test-gradient times inverse damped layer Fisher (or identity) '
     "times training-gradient computed densely at the task's first checkpoint (loss for "
     'training samples, target function for test samples), and with random compression '
     'they equal the same formula on the stated factorised projection of the layer '
     'gradients. Scores do not depend on the order of layer names, nor, for a mean- '
     "reduced loss, on the batching of the data. A chosen layer that a sample's loss "
     'does not use contributes nothing.',
     ["inputs", "configurations"],
     "all batch partitions, layer subsets/orders, bias, 2-D/3-D activations, Hessian "
     "kind, damping, projection kinds in the alphabet",
     "Tests check shapes and offload agreement on one batch size.",
     [B + "block_projected_if.py", B + "core/hook.py", B + "core/compressor.py", B + "core/utils.py", A + "logra.py", A + "factgrass.py"],
     [("per-sample layer gradients from hooks", B + "core/hook.py"),
      ("two-stage compression", B + "core/compressor.py"),
      ("layer-wise Fisher and inverse", B + "block_projected_if.py")],
     technique="bounded exhaustive enumeration of configurations against a dense per-layer reference",
     note=MC)

prop("C09", "Storage backend never changes block-projected scores",
     'For the same model, data and options, keeping the cached gradients in device '
     'memory, in host memory or on disk yields identical attribution scores and self- '
     'attribution scores. For the disk backend this holds for every chunk size, and a '
     'new attributor in a new process computes the same self-attribution from a finished '
     'disk cache.',
     ["configurations", "histories"],
     "all backends x chunk sizes x batchings x Hessian kinds x attribute variants, and "
     "fresh-process reuse of a finished disk cache",
     "Tests compare backends on one chunking.",
     [B + "block_projected_if.py", B + "offload", B + "core/metadata.py"],
     [("offload managers", B + "offload"), ("layer splitting of stored tensors", B + "core/metadata.py")],
     technique="exhaustive differential enumeration of backend/chunk/batching configurations on the real code",
     note=MC)

prop("C10", "Re-caching leaves no trace of earlier caches in block-projected scores",
     'After any sequence of cache and attribute calls on one attributor (or successive '
     'attributors sharing a cache directory), attribution scores equal those of a fresh '
     'attributor that only performed the last cache call (an attribute call without a '
     'cached set caches its own training loader). Rows correspond one-to-one, in order, '
     'to the samples of the most recently cached training set.',
     ["histories"],
     "all sequences up to length 3-4 over cache calls with different data sizes/batchings "
     "and attribute calls, per backend and Hessian kind",
     "Tests always start from a fresh attributor and directory and cache once.",
     [B + "block_projected_if.py", B + "core/metadata.py", B + "offload"],
     [("batch metadata reset", B + "core/metadata.py:initialize_complete_dataset"),
      ("cache invalidation", B + "block_projected_if.py:cache")],
     technique="explicit-state exploration of cache/attribute histories, differential against a fresh object",
     level="model_checking", note=MC)

prop("C11", "Parameters and functions of a task always refer to the requested checkpoint",
     "Whatever sequence of parameter, target-function, gradient-function and "
     "checkpoint-loading calls has been made before, the parameters returned for a "
     "checkpoint are exactly that checkpoint's values, restricted to the requested layers "
     "in the requested order (model order by default), and the functions evaluate the loss or target at the parameters "
     "passed in. Neither evaluating those functions nor running an attributor changes "
     "what later calls return.",
     ["histories"],
     "all operation sequences up to depth 3-4 over checkpoints, layer restrictions, "
     "flatten options and function evaluations",
     "Tests call each accessor once on a fresh task.",
     ["dattri/task.py", "dattri/func/utils.py"],
     [("checkpoint loading cache", "dattri/task.py:_load_checkpoints"),
      ("partial-parameter substitution", "dattri/func/utils.py:partial_param")],
     state=[("current checkpoint", "which checkpoint is loaded in the shared model", "dattri/task.py")],
     technique="explicit-state exploration of operation sequences on the real task against a reference model",
     level="model_checking", note=MC)

prop("C12", "Inverse-Hessian-vector products solve the regularised linear system",
     'Hessian-vector products equal the dense (Hessian + regularisation) product for '
     'either differentiation mode and any differentiated argument, and the explicit, '
     'conjugate-gradient and (for distinct eigenvalues) Arnoldi inverse products solve '
     'that system on well-posed problems, row by row for stacked vectors. The stochastic '
     'LiSSA product equals its documented recursion (estimate starting at v, replaced by '
     'v + (1 - damping) * estimate - H_batch * estimate / scaling, finally divided by '
     'scaling and averaged over repetitions) for every possible sequence of sampled '
     'batches, with batch size, repetition count, depth, damping and scaling each having '
     'their documented role.',
     ["inputs", "configurations", "schedules"],
     "all functions/arguments/modes/vectors in the alphabet; for LiSSA all outcomes of "
     "the sampler up to the depth bound",
     "Tests use one quadratic with equal defaults and random sampling; parameter roles "
     "and every sampled batch sequence are not covered.",
     ["dattri/func/hessian.py"],
     [("hvp construction", "dattri/func/hessian.py:hvp_at_x"),
      ("LiSSA recursion and sampling", "dattri/func/hessian.py:ihvp_lissa")],
     technique="exhaustive enumeration of environment (sampler) choices and configurations on the real solvers vs dense algebra",
     note=MC)

prop("C13", "Fisher products and EK-FAC statistics equal their empirical definitions",
     "Explicit Fisher inverse products solve the regularised empirical-Fisher system. "
     "Running input/output-gradient covariances and corrected eigenvalues equal the "
     "sample averages over all valid samples (or the first allowed batches) for every "
     "partition of the data into batches, with sequence inputs handled position-wise.",
     ["inputs", "configurations"],
     "all compositions of a dataset into batches, iteration limits, layer shapes, 2-D and "
     "3-D inputs",
     "Tests use one batching with a loose tolerance.",
     ["dattri/func/fisher.py"],
     [("running weighted averages", "dattri/func/fisher.py:_update_covariance"),
      ("eigenvalue correction", "dattri/func/fisher.py:_update_lambda")],
     technique="bounded exhaustive enumeration of batch compositions against dense averages",
     note=MC)

prop("C14", "Random projection is one fixed linear map per seed and ensemble",
     "For a given seed, ensemble id, type and dimensions, projecting is the same linear "
     "map every time: independent of row batching, of dict or tensor form, of interleaved "
     "projections with other ensemble ids or freed memory, and of the global random "
     "state. The map has the documented entries and scale for its type, and invalid types "
     "are refused.",
     ["histories", "configurations", "inputs"],
     "all histories of projections over ensemble ids up to depth 4, types, block counts, "
     "dtypes, row partitions",
     "Tests check shapes and a variance; they never interleave ensembles or compare "
     "blocks with the map on basis vectors.",
     ["dattri/func/projection.py", "dattri/params/projection.py"],
     [("per-block generator states", "dattri/func/projection.py:BasicProjector")],
     technique="explicit-state exploration of projection histories against the map extracted on basis vectors",
     level="model_checking", note=MC)

prop("C15", "Parameter chunking partitions the features and preserves the projection",
     "Splitting parameter blocks into chunks always yields consecutive chunks that cover "
     "every feature exactly once, never exceed the size limit that the batch size allows, "
     "and only refuse blocks that cannot fit. Projecting a feature dict chunk by chunk "
     "equals summing the chunk projections of the corresponding flat slices, for full and "
     "partial batches and any order of calls.",
     ["inputs", "histories"],
     "all small block-size lists against all limits, all dict/tensor projection histories "
     "with batch sizes up to the bound",
     "Needs CUDA or multi-gigabyte features in the tests; the CPU tests never produce "
     "more than one chunk.",
     ["dattri/func/utils.py", "dattri/func/projection.py"],
     [("greedy chunking", "dattri/func/utils.py:get_parameter_chunk_sizes"),
      ("buffered chunk projection", "dattri/func/projection.py:ChunkedCudaProjector")],
     technique="bounded exhaustive enumeration of block lists and call histories (CPU stand-in chunk projectors)",
     note=MC)

prop("C16", "Asynchronous disk storage never loses, mixes or reorders stored batches",
     'Under every interleaving of the caller, the background writer and prefetching '
     'readers, once storing of a batch range (distinct batches) has been finalised every '
     'stored batch reads back exactly, from the same or another handle, and no call '
     'blocks forever. This also holds when a write fails: the failure is reported '
     'instead of hanging or passing silently.',
     ["schedules", "fault_sequences"],
     "all schedules with a bounded number of preemptions of 2-4 threads over small "
     "store/finalise/read histories, with and without an injected write failure",
     "Tests run with whatever schedule the OS picks and small data that never overlaps.",
     [B + "offload/disk_io/manager.py", B + "offload/disk_io/prefetch_dataset.py"],
     [("write queue and pending set", B + "offload/disk_io/manager.py"),
      ("prefetch queue", B + "offload/disk_io/prefetch_dataset.py")],
     technique="stateless model checking of the real threads under a controlled scheduler (preemption-bounded DFS)",
     level="model_checking", note=MC)

prop("C17", "A crashed or damaged disk cache is never mistaken for a complete one",
     "If the process stops at any point while caching or a file is left truncated or "
     "missing, a later reader either refuses or reports the cache as incomplete, or "
     "returns exactly the values an undamaged run returns. It never silently returns "
     "zeros or stale values for a batch that was recorded as stored. Saving batch metadata "
     "over older metadata is atomic: wherever it stops, a reader sees the old or the new.",
     ["crash_points", "fault_sequences"],
     "every prefix of the file-operation log of small caching histories, every torn final "
     "write in the alphabet, every single-file deletion",
     "Tests only read back completed caches.",
     [B + "offload/disk_io/manager.py", B + "offload/disk_io/memory_map.py", B + "core/metadata.py"],
     [("chunk data and metadata files", B + "offload/disk_io/memory_map.py")],
     technique="exhaustive crash-point and torn-write enumeration over the recorded file-operation log, with recovery",
     level="fault_enumeration", note=MC)

prop("C18", "The on-disk chunk format round-trips and range reads are exact",
     'Whatever batches are written to a chunk, in whatever shapes and floating dtypes '
     '(values representable in the storage type asked for), reading the chunk, any batch '
     'range of it, or iterating the prefetching dataset returns exactly those values '
     'keyed by batch, in batch order. Chunk discovery finds exactly the chunks of the '
     'requested kind and merges them in batch order.',
     ["inputs", "configurations"],
     "all small chunk layouts (batch sizes, layers missing, dtypes), all sub-ranges, all "
     "chunk sizes and prefetch depths",
     "Tests write one chunk of one dtype.",
     [B + "offload/disk_io/memory_map.py", B + "offload/disk_io/prefetch_dataset.py", B + "offload/disk_io/manager.py"],
     [("memory-mapped chunk files", B + "offload/disk_io/memory_map.py")],
     technique="bounded exhaustive enumeration of layouts and ranges, round-trip and differential oracle",
     note=MC)

prop("C19", "Self-attribution is the diagonal of cross-attribution",
     "For every attributor offering self-attribution, the self-score of each training "
     "sample equals the diagonal entry of attributing the training set to itself with the "
     "same loss (for influence functions also with a separate target function), in loader order, for every batching, checkpoint count and option.",
     ["inputs", "configurations"],
     "all attributors with the feature x batch partitions x checkpoints x options x "
     "cached/uncached paths",
     "Tests check only that some self-attribution calls return the right length for one "
     "batch size.",
     [A + "base.py", A + "trak.py", A + "tracin.py", B + "block_projected_if.py"],
     [("self attribution", A + "base.py:self_attribute")],
     technique="exhaustive differential enumeration (self vs diagonal) on the real attributors",
     note=MC)

prop("C20", "Attribution leaves the model untouched, even when a call fails",
     'After any attributor call returns or raises, at whichever model or loss evaluation '
     'the failure happened, the model has the same modules, hooks, forward functions and '
     "gradient flags as before and holds the parameter values of one of the task's "
     'checkpoints, and a retry of the failed operation gives the same result as if it '
     'had succeeded the first time. After a failed cache call, later calls either raise '
     'or answer for one training set (the previous or the new one) as a whole.',
     ["fault_sequences", "histories"],
     "every attributor operation x every evaluation index at which the loss, model or "
     "loader raises, followed by retry",
     "Tests never inject failures and never inspect the model afterwards.",
     [A + "base.py", A + "influence_function.py", A + "dvemb.py", B + "core/hook.py", M + "hook.py"],
     [("hook registration/removal", B + "core/hook.py"),
      ("layer capture", M + "hook.py:get_final_layer_io")],
     technique="exhaustive fault-point enumeration over attributor operations with state comparison and retry",
     level="fault_enumeration", note=MC)

prop("C21", "LDS and leave-one-out correlations equal their definitions",
     "For every score matrix and ground truth, the linear datamodeling score of a test "
     "sample is the Spearman correlation over subsets between summed scores of the "
     "subset's members and the ground truth, and the leave-one-out metric is the Pearson "
     "correlation over the removed training samples, with matching p-values. Both treat "
     "test samples independently and respect the recorded subset indices.",
     ["inputs"],
     "all small integer score/ground-truth matrices and subset index tables in the "
     "alphabet",
     "Tests use a handful of random matrices.",
     ["dattri/metric/metrics.py"],
     [("subset sums and rank correlation", "dattri/metric/metrics.py:lds")],
     technique="bounded exhaustive enumeration against exact rational rank correlation",
     note=MC)

prop("C22", "Mislabel-detection AUC equals the rank statistic",
     "For every score vector without ties and every noise indicator containing both "
     "classes, the reported area is the fraction of (noisy, clean) pairs ranked with the "
     "noisy one higher, and the returned curve is the exact cumulative true/false "
     "positive rate at each inspection depth. Ties are broken consistently between curve "
     "and area.",
     ["inputs"],
     "all orderings and indicators up to 6-7 samples, including ties",
     "Tests use one random vector.",
     ["dattri/metric/metrics.py"],
     [("cumulative curve", "dattri/metric/metrics.py:mislabel_detection_auc")],
     technique="bounded exhaustive enumeration against the pair-counting definition",
     note=MC)

prop("C23", "Brittleness reports the first listed removal size that flips the test",
     'For every search space, scores and prediction behaviour, the brittleness result is '
     'the first listed size k such that retraining without exactly the k highest-scoring '
     'training points (positions in the training loader) moves the prediction away from '
     "the test sample's label, or nothing if none does. Each retraining sees exactly the "
     'remaining points, and no retraining happens after the answer is found.',
     ["inputs", "configurations"],
     "all score orderings, search spaces, flip predicates over removal sets, sampler "
     "subsets up to the bound",
     "Tests run one model with a fixed search space and check it returns something.",
     ["dattri/metric/britteness.py", "dattri/benchmark/utils.py"],
     [("removal and retraining loop", "dattri/metric/britteness.py")],
     technique="bounded exhaustive enumeration of scores, search spaces and environment (flip) answers",
     note=MC)

prop("C24", "Retraining directories record exactly what was trained",
     'Leave-one-out retraining trains once per requested index on every other sample and '
     'stores that model under that index; subset retraining stores, per subset, the '
     'trained positions in the training loader (as many as the ratio asks for, without '
     'repeats) and the models trained on exactly those. With a seed, the subset of a '
     'given id is the same whether subsets are produced in one run or in several '
     'partitioned runs, and all seeds are distinct.',
     ["configurations", "histories"],
     "all index lists, subset counts/ratios/runs, seeds and partitions in the alphabet, "
     "with recording training functions",
     "Tests run one configuration and check files exist.",
     [M + "retrain.py"],
     [("LOO retraining", M + "retrain.py:retrain_loo"), ("LDS retraining", M + "retrain.py:retrain_lds")],
     technique="exhaustive enumeration of configurations/partitions with recorded training calls against a manifest model",
     note=MC)

prop("C25", "Ground truth is assembled from the right model, subset and run",
     "Leave-one-out ground truth has one row per stored model in increasing removed "
     "index, each the target values of that model, and subset ground truth has one row per "
     "subset holding the negated average of the target over that subset's runs together "
     "with that subset's indices. This holds for every directory produced by the "
     "retraining functions, whatever the number of models and order of creation.",
     ["configurations", "histories"],
     "all index sets (including two-digit indices), subset/run counts, creation orders, "
     "stray files",
     "Tests use a few models in creation order.",
     ["dattri/metric/ground_truth.py", M + "retrain.py"],
     [("directory scan", "dattri/metric/ground_truth.py")],
     technique="exhaustive enumeration of directory histories, end to end with the retraining functions",
     note=MC)

prop("C26", "Label flipping and subset sampling do exactly what they report",
     "For every outcome of the random choices, label flipping changes exactly the "
     "reported distinct positions (the requested fraction), each to a different label of "
     "the label space, leaves the input and label space untouched and works for arrays "
     "and tensors. The subset sampler yields exactly its indices, in order, every time.",
     ["inputs", "schedules"],
     "all outcomes of the random generator for all small label vectors, label spaces and "
     "fractions",
     "Tests draw a few random flips.",
     ["dattri/benchmark/utils.py"],
     [("flip_label", "dattri/benchmark/utils.py"), ("SubsetSampler", "dattri/benchmark/utils.py")],
     technique="exhaustive enumeration of all random-generator outcomes (controlled RNG)",
     note=MC)

prop("C27", "Test-time dropout activates exactly the requested dropout layers",
     "Activating dropout puts the model in evaluation mode except for exactly the "
     "requested dropout layers (all of them by default), which become active with the "
     "given probability while other dropout layers keep theirs. Names that are not "
     "dropout layers are refused.",
     ["configurations", "histories"],
     "all models from a small grammar x all position lists x prior modes",
     "Tests cover one model and two name lists.",
     [M + "dropout.py"],
     [("layer name matching", M + "dropout.py:activate_dropout")],
     technique="exhaustive enumeration of small module trees and name lists against a reference model",
     note=MC)

prop("C28", "Arnoldi projection reproduces the top-eigenspace inverse curvature",
     'The inner product of two Arnoldi-projected vectors equals the bilinear form of the '
     'inverse (regularised) Hessian restricted to its eigenspace of the requested '
     'dimension (largest absolute eigenvalues, negative directions dropped, distinct '
     'eigenvalues), for tensor or dict features, any row batching, and every order of '
     'calls. The attributor built on it gives the same scores as the dense restricted '
     'inverse.',
     ["inputs", "configurations"],
     "all spectra, ranks, iteration limits, regularisation values in the alphabet",
     "Tests compare one full-rank case.",
     ["dattri/func/projection.py", A + "influence_function.py"],
     [("Arnoldi iteration and distillation", "dattri/func/projection.py:ArnoldiProjector")],
     technique="bounded exhaustive enumeration of spectra/ranks against dense eigendecomposition",
     note=MC)

prop("C29", "The retraining commands train exactly the requested partition",
     "For any cut of the leave-one-out positions (default: all samples of the training "
     "subset) or of the subset ids into command-line partitions, run in any order, the "
     "retraining commands train and store exactly the requested models, each on its own "
     "samples, with the same subsets and (nanoGPT) seeds as one run over everything, and "
     "device and extra parameters arrive with their values as numbers or text. Incomplete "
     "or refused command lines train nothing.",
     ["inputs", "configurations", "histories"],
     "all partitions and part orders of small totals x data set sizes x sample limits x "
     "seeds x extra parameters through the real entry points",
     "Tests run no command-line entry point.",
     ["dattri/script/dattri_retrain.py", "dattri/script/dattri_retrain_nanogpt.py",
      "dattri/model_util/retrain.py"],
     [("partition arithmetic", "dattri/script/dattri_retrain.py:main"),
      ("nanoGPT per-model configuration", "dattri/script/dattri_retrain_nanogpt.py:retrain")],
     technique="exhaustive enumeration of partitions and part orders through the real "
               "command-line entry points with recording stand-ins",
     note=MC + "Datasets, training functions and the nanoGPT subprocess are stand-ins that "
               "record what they are asked to do.")

prop("C30", "Parameter flattening and layer restriction address the right entries",
     "Flattening the parameters of any model and splitting them again returns every entry of "
     "every (trainable) parameter in the model's order; a function decorated for a flat "
     "argument at any position gives the value and derivatives of the undecorated one; a "
     "function restricted to any ordered selection of layers varies exactly the selected "
     "parameters and keeps the others at the model's values, alone or nested with "
     "flattening; splitting parameters by layer assigns each to the module that owns it.",
     ["inputs", "configurations"],
     "all models of up to 3 parameters over a shape alphabet x frozen sets x layouts x ordered "
     "layer selections x argument positions",
     "Tests flatten one network.",
     ["dattri/func/utils.py"],
     [("flattening", "dattri/func/utils.py:flatten_params"),
      ("flat functions", "dattri/func/utils.py:flatten_func"),
      ("layer restriction", "dattri/func/utils.py:partial_param")],
     technique="exhaustive enumeration of small models, selections and argument positions on "
               "the real helpers", note=MC)

prop("C31", "Calls only read their inputs and return independent values",
     "No call of an attributor or metric changes the data, labels, weights, layer lists, "
     "projection settings, checkpoints, ground truth or scores the caller passed, nor PyTorch's "
     "global settings; results already returned do not change through later calls, and "
     "overwriting a returned tensor does not change later results. Results do not depend on "
     "the state of the global random generators (LiSSA with full batches; flipping labels "
     "excepted), and the same question asked again gives the same answer, however calls are "
     "ordered.",
     ["inputs", "histories"],
     "all operation sequences up to depth 3 on every attributor and metric, each executed "
     "plainly and with another random state and overwritten results",
     "Tests look at the result of single calls, not at what happens to their inputs.",
     ["dattri/algorithm", "dattri/metric", "dattri/func"],
     [("attributors", A + "base.py"), ("metrics", "dattri/metric/metrics.py")],
     technique="exhaustive enumeration of operation sequences on the real attributors, paired "
               "executions compared", note=MC)

prop("C32", "Invalid requests are refused instead of answered silently",
     "A request with an illegal option raises instead of returning scores: unknown layer or "
     "module names at any position of the list (DVEmb: only unknown names), non-linear layers for block-projected "
     "attributors, unknown relatif method, differentiation mode, projection or factorization "
     "type, Hessian or offload kind, disk offload without directory, non-square LoGra/FactGraSS "
     "dimensions, several EK-FAC checkpoints, KNN label or TracIn weight lists of another "
     "length, removed or subset indices and DVEmb epochs outside the range, subset ratios or "
     "counts that do not fit, results asked for before the caching they need. The refused call leaves every valid call's result "
     "unchanged, and legal neighbours are accepted.",
     ["inputs", "configurations", "histories"],
     "every listed illegal value x position x accompanying option, and at every point of every "
     "valid history up to depth 2",
     "Tests try a few illegal values on fresh objects.",
     [A + "influence_function.py", A + "tracin.py", A + "dvemb.py",
      B + "block_projected_if.py", "dattri/func/hessian.py", M + "retrain.py",
      "dattri/metric/metrics.py"],
     [("layer names", A + "base.py"), ("block layers", B + "block_projected_if.py"),
      ("differentiation modes", "dattri/func/hessian.py"),
      ("leave-one-out indices", M + "retrain.py:retrain_loo")],
     technique="exhaustive enumeration of illegal values and of the histories around them on "
               "the real code", note=MC)

prop("C33", "Every storage backend reads back exactly what was stored",
     "Between two clears, whatever batches of gradients and inverse-curvature products are "
     "stored once each, in any order, and whatever preconditioners are stored, after finishing "
     "a batch range each backend (memory, host memory, disk) gives back exactly the stored "
     "values: through single reads, through loaders of any batch size and batch range in batch "
     "order, and through the has_* queries; nothing else is present. Clearing leaves nothing "
     "behind, the caller may reuse its tensors, and for in-memory stores test gradients live "
     "apart from training gradients.",
     ["histories", "configurations"],
     "all orders of storing up to three batches of gradients and products, in two epochs "
     "separated by a clear, for several layer widths (zero included) and chunk sizes",
     "Tests store two batches in order.",
     [B + "offload/memory.py", B + "offload/cpu.py", B + "offload/disk.py",
      B + "offload/disk_io/manager.py"],
     [("memory store", B + "offload/memory.py"), ("host store", B + "offload/cpu.py"),
      ("disk store", B + "offload/disk_io/manager.py")],
     state=[("stored batches", "which batches of gradients and products are present",
             B + "offload/memory.py:MemoryOffloadManager")],
     level="model_checking",
     technique="exhaustive enumeration of histories of the store interface on the real "
               "backends, every state compared with a dictionary model", note=MC)

prop("C34", "Scores belong to samples, however a loader presents them",
     "For every attributor, a loader that selects, orders and batches samples of a larger "
     "dataset (through dattri's SubsetSampler, a sampler without indices, or a dataset view) "
     "gives the same scores as a plain loader over a dataset of exactly those samples in that "
     "order; a sample may be selected more than once. Once the training set an attributor "
     "depends on is fixed, every row and column depends only on its own sample and moves with "
     "it. Loaders that shuffle are reported by a warning (DVEmb looks at training loaders "
     "only), loaders that do not are not.",
     ["inputs", "configurations", "histories"],
     "all ordered selections of up to 3 of 5 training and of 3 test samples, four forms of "
     "presentation, all batch sizes, all attributors",
     "Tests use plain, complete, evenly batched loaders.",
     ["dattri/algorithm/base.py", "dattri/algorithm/tracin.py", "dattri/algorithm/trak.py",
      "dattri/algorithm/data_shapley.py", "dattri/algorithm/rps.py",
      "dattri/algorithm/dvemb.py", B + "core/metadata.py"],
     [("score blocks of base.py", "dattri/algorithm/base.py"),
      ("batch metadata", B + "core/metadata.py")],
     technique="exhaustive enumeration of ordered selections, presentations and batch sizes on "
               "the real attributors, compared with a dataset of exactly the selected samples",
     note=MC)

prop("C35", "The floating-point precision of the model changes scores by rounding only",
     "For every attributor and every history of caching, attributing and self-attributing, a "
     "float64 model with float64 samples gives the same scores as the float32 model of the "
     "same values, up to rounding of the coarser one; a bfloat16 model does the same where "
     "the kernels the method needs exist. Random projections whose entries are drawn in the "
     "precision of the gradients are outside.",
     ["inputs", "configurations", "histories"],
     "all operation histories up to the depth bound, all attributors, option sets and "
     "projections whose entries do not depend on the precision",
     "Tests use float32 models only.",
     ["dattri/algorithm/base.py", "dattri/algorithm/influence_function.py",
      "dattri/algorithm/tracin.py", "dattri/algorithm/trak.py", "dattri/algorithm/rps.py",
      "dattri/algorithm/dvemb.py", "dattri/func/projection.py", "dattri/func/hessian.py"],
     [("influence function attributors", "dattri/algorithm/influence_function.py"),
      ("projections", "dattri/func/projection.py")],
     technique="exhaustive enumeration of operation histories on the real attributors, executed "
               "in lockstep by models of every supported precision",
     note=MC)

prop("C36", "The ambient state of PyTorch does not change scores",
     "For every attributor and every history of caching, attributing and self-attributing, "
     "calls made with gradients disabled (no_grad), in inference mode, with float64 as the "
     "default type, with anomaly detection, with stale gradients left on the model, or with samples that require gradients give the same scores "
     "as in the plain state, or are refused with an exception; after a refusal the same call "
     "in the plain state gives the plain answer. (Excluded: the Arnoldi start vector, which is "
     "drawn in the default type; reuse of inference tensors.)",
     ["inputs", "configurations", "histories"],
     "all operation histories up to the depth bound, all attributors and option sets, all "
     "listed ambient states during every call or the first call only",
     "Tests run in the plain state only.",
     ["dattri/algorithm/base.py", "dattri/algorithm/influence_function.py",
      "dattri/algorithm/tracin.py", "dattri/algorithm/trak.py", "dattri/algorithm/rps.py",
      "dattri/algorithm/dvemb.py", B + "block_projected_if.py", "dattri/func/projection.py"],
     [("DVEmb gradient recording", "dattri/algorithm/dvemb.py"),
      ("block-projected gradients", B + "block_projected_if.py")],
     technique="exhaustive enumeration of operation histories and ambient states on the real "
               "attributors, executed in lockstep with the plain state",
     note=MC)

NOT_APPLICABLE = []
