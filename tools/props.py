"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

prop("C01", "Task graph execution equals direct evaluation",
 "Running a set of requested tasks yields, for each of them, exactly the value obtained by evaluating it recursively from its declared dependencies, with every distinct needed task executed exactly once after all its dependencies and nothing else executed, whatever the priorities, group labels, duplicated or equal tasks and precomputed values. Intermediate results are kept until their last consumer has run and released no later than that, and of two ready tasks of one group the higher-priority one runs first.",
 ["programs", "schedules", "inputs"], "every acyclic task graph, every assignment of priorities / groups / accelerator flags, every set of targets and precomputed values",
 "test_graph.py runs a handful of fixed graphs of <= 5 nodes with one priority pattern; it never checks when values are released or how equal-but-distinct tasks and cached values interact.",
 ["mergekit/graph.py"], [("task registry and de-duplication", "graph.py TaskUniverse"), ("topological scheduling with last-use index", "graph.py build_schedule"), ("eviction loop", "graph.py Executor._run")],
 ["values yielded by Executor.run", "execution log of instrumented tasks", "weak references to results"],
 [("last_use_index", "position in the schedule after which a value may be dropped", "graph.py ExecutionSchedule")])

prop("C02", "Parallel multi-device execution gives the serial results",
 "Executing a task graph with the parallel multi-device engine yields the same target results as the serial engine, each target once, for every number of devices and every timing of the worker threads; tasks restricted to the main thread run there. An exception raised by any task reaches the caller and the run terminates.",
 ["schedules", "programs", "fault_sequences"], "every task graph the engine accepts, 1-4 devices, every delay pattern injected into tasks and worker hand-over, every task chosen to fail",
 "No test runs this engine: it needs accelerators. The interleavings between workers, completion queue and main thread are never exercised.",
 ["mergekit/multigpu_executor.py", "mergekit/graph.py"], [("partition into leading / parallel / trailing tasks", "multigpu_executor.py _find_leading_tasks, _find_trailing_tasks"), ("island assignment", "multigpu_executor.py _assign_islands_to_gpus"), ("completion queue drained before trailing tasks", "multigpu_executor.py run")],
 ["pairs yielded by MultiGPUExecutor.run", "thread identity recorded by instrumented tasks"])

prop("C03", "Tensors written to disk read back exactly, whatever the sharding",
 "Every tensor handed to the output writer is read back under its name with identical shape, type and bits, for any shard size limit, serialization format, synchronous or background writing, number of saving threads, memory layout or storage sharing, and also when the directory held an earlier output of the same format. No shard exceeds the limit unless it holds a single tensor, output that fits in one shard is one file, and the index names exactly the saved tensors, the files that hold them and their total size. The lazy reader returns the same tensors in any access order, by name or alias, from any number of threads.",
 ["inputs", "configurations", "histories", "schedules"], "every sequence of tensors, every shard limit, every writer option, every history of rewrites of one directory, every read order",
 "test_io.py saves a few fixed tensors once; boundary shard sizes, shared storage, concurrent savers, renames and rewriting a directory are not sampled.",
 ["mergekit/io/tensor_writer.py", "mergekit/io/lazy_tensor_loader.py", "mergekit/io/loader.py"],
 [("shard accounting and flush", "tensor_writer.py save_tensor, _flush_current_shard"), ("final renaming and index", "tensor_writer.py finalize"), ("shard residency and lock", "lazy_tensor_loader.py get_tensor")],
 ["files in the output directory", "TensorWriter / LazyTensorLoader API"])

prop("C04", "A failed write is never reported as success",
 "If writing any part of an output fails (any shard, the rename, the index, synchronously or in a background thread), the operation raises to the caller, never returning as if the model were complete; and whenever it returns normally, every tensor is on disk and readable. A merge whose required inputs are missing or unreadable fails too rather than producing a model with tensors left out.",
 ["fault_sequences", "crash_points", "configurations"], "every I/O call of a write or merge chosen as the failing one, every option setting; every required tensor or file chosen to be missing or damaged",
 "The tests inject no faults at all.",
 ["mergekit/io/tensor_writer.py", "mergekit/io/tasks.py", "mergekit/merge.py", "mergekit/graph.py"],
 [("futures awaited in finalize", "tensor_writer.py finalize"), ("required/optional tensor handling", "io/tasks.py LoadTensor.execute, SaveTensor.execute")],
 ["exceptions leaving TensorWriter.finalize / run_merge", "files on disk"])

prop("C05", "Pickled checkpoints load lazily as torch loads them and run no code",
 "For every zip-format torch checkpoint of named tensors (any dtype, any view of shared storage, any file name, bare or wrapped in a state-dict entry), the lazy reader returns exactly the tensors torch itself would load, in any access order and from any number of threads opening checkpoints at once. A checkpoint that embeds anything other than tensor data is rejected without executing it, and the process's pickle machinery is left as it was, also after a failed read.",
 ["inputs", "histories", "schedules"], "every checkpoint content and layout, every access order, every interleaving of threads that open checkpoints, every embedded callable and position",
 "test_lazy_unpickle.py loads two fixed state dicts of contiguous tensors under their original file name.",
 ["mergekit/io/lazy_unpickle.py", "mergekit/io/loader.py", "mergekit/io/lazy_tensor_loader.py"],
 [("allow-list of pickle globals", "lazy_unpickle.py ACCEPTABLE_TYPES, LazyTorchUnpickler.find_class"), ("deferred storage reads", "lazy_unpickle.py DeferredLoad, TorchArchiveReader"), ("monkeypatch restored in finally", "lazy_unpickle.py torch_lazy_load")],
 ["TensorLoader.get(...).get_tensor", "side effects of embedded callables"])

prop("C06", "Merge parameters resolve by documented precedence, gradients and filters",
 "For every tensor, model and layer the value a merge uses for a parameter is the one given at the most specific level that supplies it (input slice or input model, then output slice, then module, then global, then the method's default), a required parameter with no value being an error. A list of numbers is linearly interpolated over the layers of its slice, hitting its end points exactly, and a list of conditional entries uses the first one whose filter matches the tensor name, falling through to the next level when none does. Tensors outside the layers use the first entry of a gradient, a one-layer slice the last.",
 ["configurations", "inputs"], "every combination of parameter settings over all levels, every gradient length, layer count, filter list and tensor name",
 "The tests use constant scalar parameters at one level in nearly all cases.",
 ["mergekit/config.py", "mergekit/plan.py"], [("level lookup", "config.py ConfigReader.parameter"), ("gradient and filter evaluation", "config.py evaluate_setting"), ("layer position of each tensor", "plan.py plan_slice, plan_layer, plan_module")],
 ["ConfigReader.parameter", "output tensors of scaled passthrough merges"])

prop("C07", "Merge configurations and model references survive being written out",
 "Any valid merge configuration written out as YAML and read again denotes the same merge, and any model reference (path, revision, adapter, architecture override) serialized and read again is the same reference, as is its printed form when no part contains '+' or '@', with distinct references printing differently. Sizes written with k, m or b suffixes denote exactly that many, and malformed references, sizes, dtypes or mutually exclusive settings are rejected.",
 ["inputs", "configurations"], "every valid configuration and model reference; every malformed one of the listed kinds",
 "test_modelref.py covers six strings; no test round-trips a configuration.",
 ["mergekit/config.py", "mergekit/common.py", "mergekit/tokenizer/config.py"], [("custom serializer / validators", "common.py ModelReference, ModelPath; config.py MergeConfiguration"), ("YAML dump", "config.py to_yaml")],
 ["MergeConfiguration.to_yaml / model_validate", "str(ModelReference)", "mergekit_config.yml in the output"])

prop("C08", "Merged models are assembled from exactly the requested layers",
 "Layer i of the output is built only from the input layers the configuration maps to it, tensors outside the layers come from the first slice (before the layers) or the last slice (after them), and every input tensor enters under its own counterpart. The output holds exactly the tensors the architecture prescribes for the resulting layer count, optional ones exactly when some contributing input has them, and the written configuration's layer count matches; inconsistent slice lengths are rejected.",
 ["configurations", "inputs"], "every list of slices and layer ranges (overlapping, repeated, empty-adjacent), any models of an architecture, model-, slice- and module-style configurations, missing optional tensors and aliases",
 "test_basic_merges.py checks that some tensors exist for two fixed slice lists; it never checks which input a tensor came from.",
 ["mergekit/plan.py", "mergekit/merge.py", "mergekit/io/tasks.py", "mergekit/architecture/base.py"], [("layer mapping", "plan.py plan_module, plan_slice, plan_layer"), ("optional tensors and aliases", "plan.py plan_tensor, io/tasks.py LoadTensor"), ("layer count written", "merge.py _model_out_config")],
 ["tensors and config.json of the merge output"])

prop("C09", "Averaging and task-vector merges compute their documented formulas",
 "For linear, task arithmetic, TIES, DARE, DELLA and breadcrumbs merges (with and without sign consensus) every output tensor equals the documented combination of the inputs: the weighted and optionally normalized mean, or the base plus lambda times the weighted sum of the pruned differences restricted to the elected sign and normalized where requested. With randomized pruning, every surviving difference carries its documented rescaling and kept positions follow the documented probabilities.",
 ["inputs", "configurations"], "every number of models, shape, dtype, weight (zero and negative included), density, lambda, normalization and consensus setting",
 "The tests only check that merges run and contain no NaN.",
 ["mergekit/merge_methods/linear.py", "mergekit/merge_methods/generalized_task_arithmetic.py", "mergekit/sparsify.py"], [("weighted sum", "linear.py LinearMergeTask.execute"), ("task vectors, sign election and mixing", "generalized_task_arithmetic.py get_task_vectors, get_mask, GTATask.execute")],
 ["tensor produced by each method for given input tensors"])

prop("C10", "Spherical merges interpolate on the sphere as documented",
 "SLERP, NuSLERP, multi-SLERP and Karcher merges return the spherical interpolation or barycenter of their inputs: SLERP returns the base at t=0, the other model at t=1 and the great-circle point of interpolated direction in between; NuSLERP does the same with t from the weight ratio, on whole tensors, or per vector along the last (or, row-wise, the first) dimension, and on differences when a base is given; multi-SLERP is the tangent-space barycenter at the weighted mean; Karcher is a Riemannian barycenter of the directions with averaged norm. The two-model forms fall back to linear interpolation for parallel or opposite inputs, and zero inputs give finite results.",
 ["inputs", "configurations"], "every pair or set of tensors including parallel, antiparallel, zero and badly scaled ones, every t / weights / flags",
 "The tests merge one random model pair per method and only look for NaN.",
 ["mergekit/merge_methods/slerp.py", "mergekit/merge_methods/nuslerp.py", "mergekit/merge_methods/multislerp.py", "mergekit/merge_methods/karcher.py"], [("slerp with colinear fallback", "slerp.py slerp"), ("row/column handling", "nuslerp.py nuslerp"), ("tangent-space barycenter", "multislerp.py multislerp"), ("fixed-point iteration", "karcher.py karcher_merge_tensors")],
 ["tensor produced by each method for given input tensors"])

prop("C11", "Selective merges (stock, nearswap, fusion, RAM, SCE, passthrough) are exact",
 "Model stock, nearswap, arcee fusion, RAM, RAM+, SCE and passthrough each return exactly what their documented rule prescribes for every element: the angle-derived interpolation between base and average, the difference-limited swap, either the base or the changed value by importance, the inactive/unique/shared classification with its rescaling, the variance-selected sign-agreed weighted sum, or the scaled input itself.",
 ["inputs", "configurations"], "every number of models the method accepts, every shape, dtype and parameter value including the extremes of each range",
 "The tests run each method once on random models without comparing against the formula.",
 ["mergekit/merge_methods/model_stock.py", "mergekit/merge_methods/nearswap.py", "mergekit/merge_methods/arcee_fusion.py", "mergekit/merge_methods/ram.py", "mergekit/merge_methods/sce.py", "mergekit/merge_methods/passthrough.py"], [("interpolation factor", "model_stock.py ModelStockMergeTask.execute"), ("importance mask", "arcee_fusion.py"), ("classification of positions", "ram.py"), ("variance mask, weights, sign consensus", "sce.py")],
 ["tensor produced by each method for given input tensors"])

prop("C12", "Laws every merge method obeys",
 "For every merge method: the result has the inputs' shape and type, is finite for finite inputs, depends only on the inputs, parameters and random seed, and leaves the inputs unchanged; merging identical models returns that model (up to rounding) wherever the parameters define an average or a change relative to the base; the order in which models are listed does not matter unless the method says so. Token embeddings of different sizes merge as their common part in the averaging, spherical, stock and fusion methods, and a number of models the method does not support is rejected.",
 ["inputs", "configurations"], "every registered merge method, every input tensor set, permutation of models and parameter setting",
 "Each test fixes one method, one model order and one pair of random models and checks only that the merge completes.",
 ["mergekit/merge_methods/base.py", "mergekit/merge_methods/registry.py", "mergekit/merge_methods/rectify_embed.py"], [("registry of methods", "merge_methods/registry.py"), ("embedding size rectification", "rectify_embed.py rectify_embed_sizes")],
 ["tensor produced by each registered method for given input tensors"])

prop("C13", "Sparsification keeps the right elements, in the right number, rescaled right",
 "Pruning a tensor to a density keeps the documented number of elements to within rounding and leaves every kept element as it was up to one rescaling; magnitude pruning keeps the largest elements, outlier pruning drops the requested top fraction and then the smallest, random pruning keeps each element independently with the given probability, and magnitude-adaptive random pruning gives larger elements of a row higher probability within the stated range. Rescaling preserves the documented norm or expectation, density 1 is the identity, and shape, type and finiteness are preserved.",
 ["inputs", "configurations"], "every tensor (ties, zeros, one element, any dtype and layout), every density, gamma, epsilon and rescale mode",
 "test_sparsify.py checks one 1000-element tensor per method with loose tolerances.",
 ["mergekit/sparsify.py"], [("magnitude selection", "sparsify.py magnitude"), ("two-sided selection", "sparsify.py magnitude_outliers"), ("random masks", "sparsify.py bernoulli, della_magprune"), ("rescaling", "sparsify.py rescaled_masked_tensor")],
 ["sparsify(tensor, density, method, ...)"])

prop("C14", "Merge output depends only on the recipe and the seed",
 "For a fixed configuration, inputs and random seed, the merged tensors, configuration and tokenizer are the same for every execution option that is not documented to change the result (shard size, serialization format, lazy loading, background writing, cloning, thread count, card and tokenizer copying), on every repetition, in a fresh process or after other merges in the same process, including after the input files changed in between.",
 ["configurations", "histories"], "every recipe, every pair of option settings, every sequence of merges in one process, fresh processes with different hash seeds",
 "Tests run each merge once with default options in one process.",
 ["mergekit/merge.py", "mergekit/options.py", "mergekit/io/tasks.py", "mergekit/plan.py", "mergekit/config.py"], [("seeding", "merge.py run_merge"), ("process-wide loader cache", "io/tasks.py LoaderCache"), ("model ordering", "config.py referenced_models")],
 ["bytes of tensors, config.json and tokenizer files in the output directory"],
 [("loaders", "cache of opened checkpoints shared by merges in a process", "io/tasks.py LoaderCache")])

prop("C15", "Merged vocabularies keep every token with the right embedding",
 "When a tokenizer is built for a merge, the output vocabulary is the requested one (union of the inputs, the base's or a named model's, plus explicitly added tokens), each token has one id, and each model's embedding row for an output token is its own row for that token, or else the documented fallback (base model's, the only owner's, the average, or the per-token override), so the merged row combines exactly those rows. The embedding matrix has as many rows as the vocabulary, padded as requested with average rows, and the written configuration says so.",
 ["inputs", "configurations"], "every set of input vocabularies (overlapping, permuted ids, added and special tokens, embeddings larger than the vocabulary), every source and per-token override, every padding",
 "test_tokenizer.py uses five fixed vocabularies of word tokens and checks selected rows.",
 ["mergekit/tokenizer/build.py", "mergekit/tokenizer/embed.py", "mergekit/tokenizer/config.py", "mergekit/merge.py"], [("union vocabulary and permutations", "tokenizer/build.py build_union_tokenizer, build_tokenizer"), ("row assignment", "tokenizer/embed.py PermutedEmbeddings.execute"), ("vocab size in config", "merge.py _update_config_vocab")],
 ["tokenizer.json, embedding tensors and config.json of the output"])

prop("C16", "Output packages are self-consistent and carry the right side files",
 "A merge's output directory describes the weights it holds: the configuration loads, its dtype is the requested one and matches the stored tensors, its layer count and vocabulary match their shapes, and the recorded recipe reproduces the merge. The chat template is the requested built-in, the literal one or the most common among the inputs, tokenizer files come from the base model or first model when none is built, and invalid templates are rejected.",
 ["configurations", "inputs"], "every recipe, dtype / output dtype, chat template setting, tokenizer setting and option to skip card or tokenizer",
 "Tests check the presence of config.json and one chat template at a time.",
 ["mergekit/merge.py", "mergekit/card.py", "mergekit/_data/chat_templates"], [("output configuration", "merge.py _model_out_config"), ("chat template choice", "merge.py _set_chat_template"), ("tokenizer copy", "merge.py _copy_tokenizer"), ("model card", "card.py generate_card")],
 ["files of the output directory"])

prop("C17", "Tokenizer transplants keep every shared token's embedding",
 "After transplanting a donor tokenizer into a model, the output's tokenizer is the donor's, both embedding matrices have one row per donor id, every donor token that exists in the original vocabulary (or matches it by an enabled rule) keeps exactly its original row, all other rows come from the chosen approximation, and every other tensor of the model is unchanged. The written configuration states the new vocabulary size.",
 ["inputs", "configurations"], "every pair of vocabularies and models (tied or untied heads, padded embeddings), every approximation method and matching option",
 "No test covers this tool.",
 ["mergekit/scripts/tokensurgeon.py", "mergekit/tokensurgeon"], [("shared-token copy", "scripts/tokensurgeon.py build_embedding_matrix"), ("matching rules", "scripts/tokensurgeon.py match_prefix, match_byte_token")],
 ["tensors and config.json of the output model"])

prop("C18", "Embedding approximations solve the problem they state",
 "Orthogonal matching pursuit returns at most k terms per vector with a residual orthogonal to the chosen ones and no larger than with fewer terms, reproducing exactly any vector that is a sparse combination of nearly orthogonal points; common-vocabulary interpolation uses the nearest shared tokens with weights of the stated scheme; landmark PCA reproduces any rotation between the spaces; sub-word, mean, zero and random fills follow their stated rules. The number of rows, dtype and finiteness are as requested for every method.",
 ["inputs", "configurations"], "every set of target vectors, dictionaries, k, metric, weighting scheme and sub-word rule",
 "No test covers these solvers.",
 ["mergekit/tokensurgeon/omp.py", "mergekit/tokensurgeon/common_interpolation.py", "mergekit/tokensurgeon/pca.py", "mergekit/tokensurgeon/subword.py", "mergekit/tokensurgeon/token_basis.py", "mergekit/tokensurgeon/rope_helpers.py"], [("batched OMP", "tokensurgeon/omp.py batch_omp"), ("neighbour weights", "tokensurgeon/common_interpolation.py"), ("affine map", "tokensurgeon/pca.py landmark_pca_approximate")],
 ["return values of the approximation functions"])

prop("C19", "Mixture-of-experts models take each part from the right source",
 "In a mixture-of-experts output every expert's feed-forward tensors are those of its configured source model at the same layer (scaled and noised only as configured), a shared expert's those of its source, all remaining tensors those of the base model, and each layer's router has one row per expert, in order, computed by the chosen gate mode from that expert's prompts. The written configuration states the experts, experts per token and layer sizes of the tensors.",
 ["configurations", "inputs"], "every supported output architecture, number of experts, gate mode, prompt set, residual scale, noise and dtype",
 "No test covers this tool.",
 ["mergekit/moe", "mergekit/scripts/moe.py"], [("expert tensor copy", "moe/common.py, moe/mixtral.py, moe/deepseek.py, moe/qwen.py, moe/qwen3.py"), ("gate vectors", "moe/router.py get_gate_params")],
 ["tensors and config.json of the output model"])

prop("C20", "Extracted adapters approximate the fine-tuned model as well as their rank allows",
 "Applying an extracted adapter to its base reproduces each adapted weight of the fine-tuned model up to the best approximation of the requested rank (exactly when the difference has no more than that rank), per-module ranks never exceed the limit or the weight's dimensions, modules saved in full equal the fine-tuned ones, and modules that were excluded or did not change are left out or have no effect. The adapter loads in the standard adapter library.",
 ["inputs", "configurations"], "every pair of models (low-rank, full-rank, zero differences, resized embeddings), every rank limit, tolerance, module selection and scaling option",
 "No test covers this tool.",
 ["mergekit/scripts/extract_lora.py"], [("truncated SVD", "scripts/extract_lora.py decompose_delta_weight, LoRAModuleDecompositionTask"), ("module selection", "scripts/extract_lora.py plan_extraction"), ("adapter configuration", "scripts/extract_lora.py make_config_dict")],
 ["adapter_model.safetensors and adapter_config.json", "weights after applying the adapter"])

prop("C21", "A model written as base plus adapter merges as the adapted model",
 "Using an input written as a model plus adapter gives the same merge as using a model into which that adapter was merged beforehand; distinct model/adapter/revision combinations never share a cached result, and a combination is merged at most once per cache (or once per process, where several use the cache at a time, none of which fails or gets anything else for it).",
 ["inputs", "configurations", "histories"], "every adapter (rank, scaling, target modules), every merge method using it, every sequence of uses of one cache",
 "No test uses an adapter input.",
 ["mergekit/common.py", "mergekit/io/tasks.py"], [("adapter merge and cache key", "common.py ModelReference.merged, ModelPath._unique_id")],
 ["merge output", "adapter cache directory"])

prop("C22", "Raw checkpoint merging applies the method tensor by tensor",
 "Merging raw checkpoints writes, for exactly the tensors in the intersection or (when asked) the union of the inputs, the result of the configured method on the tensors of that name with parameters resolved per tensor and model as in a normal merge, for safetensors and pickle input files (bare or wrapped state dictionaries), whatever the output format and sharding, in the requested dtype; merges the tensor sets or parameters do not allow are refused.",
 ["inputs", "configurations"], "every set of checkpoints with equal or differing tensor sets and formats, every method and parameter setting, every option",
 "No test covers this tool.",
 ["mergekit/scripts/merge_raw_pytorch.py"], [("tensor set and loading", "scripts/merge_raw_pytorch.py plan_flat_merge, SimpleLoaderCache"), ("parameters per tensor", "scripts/merge_raw_pytorch.py construct_param_dicts")],
 ["tensors in the output directory"])

prop("C23", "Multi-stage merges run every stage once, in order, on the right inputs",
 "A multi-document recipe produces the same result as running its merges by hand in dependency order with each reference to a named merge replaced by that merge's output, independent of the order of the documents; in lazy mode stages whose complete output exists are not run again and all others are. Duplicate names, circular references and more than one unnamed merge are rejected before anything runs.",
 ["configurations", "histories", "crash_points"], "every acyclic and cyclic set of named merges, every document order, every subset of stages already done or interrupted",
 "No test covers this tool.",
 ["mergekit/scripts/multimerge.py"], [("dependency graph and substitution", "scripts/multimerge.py load_config, patched_config"), ("ordering and skipping", "scripts/multimerge.py main, MergeModelTask")],
 ["output and intermediate directories", "recorded stage executions"])

prop("C24", "Evolved genotypes map to the merge recipe they encode",
 "For every genome definition and parameter vector the generated recipe covers every layer of the models exactly once, uses each value for exactly the model, layer group and filter it stands for (absolute where negative weights are disallowed), is accepted as a merge configuration, and vectors of the wrong size are rejected. The mapping is deterministic and different positions of the vector influence different settings.",
 ["inputs", "configurations"], "every supported method, model count, layer granularity, filter list and flag combination; every real vector",
 "No test covers the genome.",
 ["mergekit/evo/genome.py", "mergekit/evo/config.py"], [("vector to configuration", "evo/genome.py ModelGenome.genotype_merge_config, _genotype_to_param_array"), ("initial vector", "evo/genome.py initial_genotype")],
 ["configuration returned for a vector"])

prop("C25", "Architecture definitions list exactly a model's tensors",
 "For every supported architecture and model configuration, the enumerated tensors are those a real model of that configuration has in its checkpoint, with each required one present exactly once, layer tensors numbered from 0 to the layer count, and embeddings and the output head marked as such; where no definition fits, the inferred architecture covers every tensor of the checkpoints with the right layer numbering. Checkpoints stored under older or fused names resolve to the same tensors as converted ones.",
 ["configurations", "inputs"], "every bundled definition and every small configuration of it (layers, heads, tied or untied head); every checkpoint layout for inference and conversion",
 "Tests instantiate three architectures; the other bundled definitions are never compared with a model.",
 ["mergekit/architecture", "mergekit/_data/architectures"], [("templates", "architecture/json_definitions.py"), ("inference", "architecture/auto.py"), ("mixture-of-experts definitions", "architecture/moe_defs.py"), ("conversion", "architecture/conversion.py")],
 ["ModelArchitecture.all_weights", "tensors of a merge output"])

prop("C26", "Custom merge methods receive exactly the arguments they declare",
 "A merge method defined by decorating a function is called once per output tensor with the tensors in the order the models are listed (the base first or separately as documented), each per-model parameter in the same order and each scalar resolved from the configuration or its declared default, and the special arguments it names; the tensor it returns is what is written. Invalid signatures are rejected when declared.",
 ["programs", "configurations"], "every valid signature (scalar, vector, optional, special parameters, base handling), every list of models and settings; every invalid signature of the documented kinds",
 "No test defines a custom method.",
 ["mergekit/merge_methods/easy_define.py"], [("signature analysis", "merge_methods/easy_define.py __merge_method"), ("argument assembly", "merge_methods/easy_define.py _execute")],
 ["arguments recorded by generated functions", "merge output"])

prop("C27", "Completing a partial model only adds what is missing",
 "Filling a partial model whose tensors are all among the complete one's (by the same name, or below one common prefix) keeps every tensor the partial model has, bit for bit, adds every tensor only the complete model has, adds nothing else, and yields a directory that loads as one consistent model whatever the sharding of either. The sources are not modified.",
 ["inputs", "configurations", "histories"], "every split of a model's tensors into present and missing, every sharding of both, repeated runs",
 "No test covers this tool.",
 ["mergekit/scripts/fill_missing_params.py"], [("name comparison and copy", "scripts/fill_missing_params.py copy_and_fill_missing_params")],
 ["tensors and files of the output directory"])

prop("C28", "Recipe-building commands merge exactly what their arguments say",
 "The command line tools that build a merge from their arguments run the merge those arguments denote. Layer shuffling takes layer i of the output from layer i of one of the given models (never one of weight zero, otherwise in proportion to the weights), or in full-random mode the requested share of layers of each model from anywhere in it; the recipe it prints or writes reproduces its output, a given seed gives the same output again, and a dry run writes no model. Layer-slice files stack the listed slices in order with their down-projections scaled, embeddings and output head coming from the named sources. The legacy command merges with its weights, densities (one value serving all models, weight 1 by default), base model and flags.",
 ["configurations", "inputs"], "every command line of the three tools over models of an architecture with different layer counts, dtypes and formats, every seed",
 "No test runs these tools (two of them could not complete a single run).",
 ["mergekit/scripts/layershuffle.py", "mergekit/scripts/bakllama.py", "mergekit/scripts/legacy.py"],
 [("random choice of layers", "scripts/layershuffle.py main"), ("slices and sources", "scripts/bakllama.py main"), ("argument translation", "scripts/legacy.py main")],
 ["tensors and configuration of the output directory", "printed and written recipes"])

prop("C29", "Model cards and recorded recipes tell the truth",
 "Unless told not to, a merge leaves a README whose front matter is valid YAML and lists as base models exactly the Hub repositories the recipe uses, titled after the output directory, naming the method, the base and every model used (Hub models linked) and nothing else, and showing the recipe; the recorded configuration is the one given, verbatim when it came from a file, and merging it again gives the same output. An extracted adapter's card names the base and the fine-tuned model, shows a command line that a shell splits into the arguments given, and warns of a change of vocabulary size exactly when there is one; a mixture records its configuration. None of this needs a connection when the models are local, however their paths are written.",
 ["configurations", "inputs", "fault_sequences"], "every recipe, every way of naming its inputs (absolute and relative paths, Hub ids and revisions, local copies named like repositories), every output path, with and without a connection",
 "No test looks at the card or the recorded configuration.",
 ["mergekit/card.py", "mergekit/merge.py", "mergekit/scripts/extract_lora.py", "mergekit/scripts/moe.py", "mergekit/scripts/run_yaml.py"],
 [("what is a Hub repository", "card.py is_hf"), ("card text", "card.py generate_card, generate_card_lora"), ("recorded configuration", "merge.py run_merge")],
 ["README.md, mergekit_config.yml and mergekit_moe_config.yml of the output directory"])

prop("C30", "Models named by Hub id merge like the same files on disk",
 "A model, adapter or tokenizer donor given as a Hub repository id with an optional revision (branch, tag or commit) contributes exactly the configuration, weights, tokenizer, chat template and side files of that revision, as if they had been given as a local directory, in merges, adapter applications, tokenizer transplants and adapter extractions: whatever other revisions the repository has, whichever weight format and sharding it uses, whatever unrelated files lie beside them, and whichever download cache is used.",
 ["inputs", "configurations"], "every merge recipe and tool run whose inputs are spread over repositories and revisions in every way, with decoy revisions holding other models",
 "The tests have no network and never load a model by id or revision.",
 ["mergekit/common.py", "mergekit/merge.py", "mergekit/tokenizer/build.py", "mergekit/scripts/tokensurgeon.py", "mergekit/scripts/extract_lora.py"],
 [("download of weights and side files", "common.py ModelReference.local_path"), ("configuration of a revision", "common.py ModelReference.config"), ("adapter application", "common.py ModelReference.merged"), ("tokenizers of a revision", "tokenizer/build.py, merge.py _copy_tokenizer")],
 ["files of the output directory", "requests received by a stand-in Hub"])

prop("C31", "An evolutionary search scores the models it says, and keeps the best",
 "Under every evaluation strategy (pool on disk or in memory, buffered, serial), every number of devices and every order in which work completes, the result returned for a genotype is the weighted sum of the task metrics of exactly the model its recipe merges to, in the order the genotypes were given; the evaluation settings reach the evaluator; no more devices are used than given; an impossible genotype has no score, a failed merge or evaluation is reported and never hangs the search or disturbs other genotypes; and no merged model is left in storage. The command stores, reuses and merges the inputs faithfully even when an earlier run was interrupted, refuses benchmark tasks and contradictory flags before running anything, hands the optimizer the negated scores and the requested start, step and limits, and leaves the best configuration and final model of the best genotype seen, also when interrupted.",
 ["schedules", "fault_sequences", "configurations", "inputs"], "every genome, population, strategy, number of devices, completion order, failure of a merge or evaluation, and interruption of the command",
 "The evolution strategies need packages the tests do not have; no test runs any of them.",
 ["mergekit/evo/strategy.py", "mergekit/evo/actors.py", "mergekit/evo/helpers.py", "mergekit/evo/config.py", "mergekit/scripts/evolve.py"],
 [("scheduling", "evo/strategy.py BufferedRayEvaluationStrategyActor.process_queue, evaluate_genotype_serial"), ("in-memory evaluation", "evo/actors.py InMemoryMergeEvaluator"), ("score", "evo/helpers.py _eval_model"), ("storing inputs, best model", "scripts/evolve.py main, _reshard_model")],
 ["results and exceptions of the strategies", "files in storage", "calls received by the stand-in evaluator and optimizer"])

prop("C32", "Recipes and inputs that mean nothing are refused",
 "A merge recipe without a meaning (unknown method, module, dtype, chat template or embedding source; no inputs or contradictory kinds of them; a required parameter missing, matched by no filter or not a number; a required base missing; more models than the method takes; layer ranges reversed, negative, beyond a model or of different lengths; models or tokenizers that do not exist) and inputs that do not fit it (another architecture without permission, other tensor shapes, missing or unreadable configurations, weights or tensors) end in an error, never in a merge of something else. What was refused from the start leaves an earlier output at the same place alone, and no refused merge leaves a complete-looking model behind.",
 ["configurations", "inputs"], "every recipe and every place in which it or its inputs can be broken",
 "The tests cover few refusals and only through the library; silent acceptance shows only where nothing was expected to be tested.",
 ["mergekit/config.py", "mergekit/plan.py", "mergekit/merge.py", "mergekit/merge_methods", "mergekit/io/tasks.py", "mergekit/tokenizer"],
 [("validation of recipes", "config.py validators, ConfigReader.parameter"), ("validation against inputs", "plan.py plan_slice, io/tasks.py LoadTensor"), ("method arity and shapes", "merge_methods/*.py make_task, execute")],
 ["exceptions and exit states", "files of the output directory"])

prop("C33", "Code shipped with a model runs only when trusted, and then is supported",
 "Whatever command is run on models that come with Python code for their configuration, network or tokenizer, that code is not executed unless the user passed the option that trusts remote code; with the option, every command that works on the same models without the code also works with it and writes the same tensors.",
 ["models with code", "commands"], "every command, every combination of code in its models",
 "Each command loads configurations and tokenizers in places of its own; one that hardcodes trust compromises the machine, one that forgets to pass it makes the option useless, and tests use plain models.",
 ["mergekit/common.py", "mergekit/tokenizer/build.py", "mergekit/scripts", "mergekit/moe", "mergekit/io/tasks.py", "mergekit/plan.py", "mergekit/architecture/auto.py"],
 [("option", "options.py MergeOptions.trust_remote_code"), ("loading of configurations", "common.py ModelReference.config"), ("loading of tokenizers", "tokenizer/build.py, scripts/moe.py, scripts/tokensurgeon.py"), ("loading of tensors", "io/tasks.py LoaderCache")],
 ["execution of model code", "exit states", "tensors written"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
