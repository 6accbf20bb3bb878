"""The simulators and the properties they decide."""
import os

CPP_REAL = ["larq_compute_engine/core (bitpacking, bgemm packing, kernels and driver, bconv2d, indirect_bgemm portable kernels, bmaxpool)",
            "larq_compute_engine/tflite/kernels (all operators and their registration)"]
CPP_STUBS = ["TFLite runtime (interpreter, memory planner, backend context): rewritten simulator with relocation, cancellation and faults",
             "ruy (thread pool, block map, TrMul driver, prepacked cache, allocator): rewritten simulator",
             "flexbuffers reader, TFLite kernel headers: minimal re-implementations",
             "Arm assembly kernels and packing: not compiled on this machine"]
CPP_ASSUME = ["memory accesses of the operators are sequentially consistent between scheduling points (no weak memory model)",
              "the TFLite and ruy stand-ins offer at least the behaviours of the real ones that the operators can see",
              "TfLiteIntArrayCreate does not fail; strides and channel counts are positive"]


def _cpp_build(verif, repo, out, variant):
    return ["bash", os.path.join(verif, "sim", "build.sh"), out, repo, variant]


PY_ENV = {"PYTHONPATH": os.environ.get("LCE_REPO", "/repo"), "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "TF_USE_LEGACY_KERAS": "1",
          "TF_CPP_MIN_LOG_LEVEL": "3", "CUDA_VISIBLE_DEVICES": "-1", "TF_ENABLE_ONEDNN_OPTS": "0", "PYTHONNOUSERSITE": "1",
          "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "TF_NUM_INTEROP_THREADS": "1", "TF_NUM_INTRAOP_THREADS": "1"}
PYTHON = "/opt/lce/venv/bin/python"

ENGINES = {
    "py": {"sources": ["pysim"], "variants": ["0"], "build": lambda verif, repo, out, variant: None,
           "worker": lambda verif, repo, out: [PYTHON, "-W", "ignore", os.path.join(verif, "pysim", "worker.py"), "--cache", out], "env": PY_ENV,
           "real": ["larq_compute_engine/tflite/python/interpreter_base.py"], "stubs": [], "assumptions": []},
    "bnd": {"sources": ["pysim", "sim", "stubs", "bndsim"], "variants": ["0"],
            "build": lambda verif, repo, out, variant: ["bash", os.path.join(verif, "bndsim", "build.sh"), out, repo],
            "worker": lambda verif, repo, out: [PYTHON, "-W", "ignore", os.path.join(verif, "pysim", "worker.py"), "--cache", out],
            "env": dict(PY_ENV, PYTHONMALLOC="malloc_debug"),
            "real": ["larq_compute_engine/tflite/python/interpreter_wrapper_lite.cc, interpreter_wrapper_utils.h, interpreter.py, interpreter_base.py",
                     "larq_compute_engine/tflite/kernels and larq_compute_engine/core (portable kernels)", "pybind11, numpy and the Python interpreter"],
            "stubs": ["TFLite runtime and ruy: rewritten simulator with relocation, cancellation and faults", "flatbuffer model reader: minimal re-implementation",
                      "an operator that mixes tensors of any type stands for the other TFLite operators", "numpy array memory: guard pages, unmapped on release"],
            "assumptions": ["the interpreter lock is held: one task", "models pass TFLite's verification; Python objects themselves can be allocated",
                            "after a failed inference of a model with run-time sizes only a new interpreter is defined"]},
    "mlir": {"sources": ["mlirsim"], "variants": ["0"],
             "build": lambda verif, repo, out, variant: ["bash", os.path.join(verif, "mlirsim", "build.sh"), out, repo],
             "worker": lambda verif, repo, out: [os.path.join(out, "sim")],
             "real": ["larq_compute_engine/mlir/transforms/set_batch_size.cc (memory accesses instrumented)", "MLIR and LLVM 18: parser, printer, verifier, pass manager, thread pool, type uniquing"],
             "stubs": ["pthread mutexes, condition variables, read-write locks, once, static-initialisation guards, thread creation and joining: replaced by the seeded scheduler"],
             "assumptions": ["memory accesses are sequentially consistent; tasks switch at lock operations and at the memory accesses of the pass",
                             "functions do not return an input whose type changes (shape inference repairs those later)"]},
    "conv": {"sources": ["convsim", "mlirsim", "stubs"], "variants": ["0"],
             "build": lambda verif, repo, out, variant: ["bash", os.path.join(verif, "convsim", "build.sh"), out, repo],
             "worker": lambda verif, repo, out: [os.path.join(out, "sim")],
             "real": ["larq_compute_engine/mlir/transforms: all passes (memory accesses instrumented) and all .td patterns", "larq_compute_engine/mlir/ir/lce_ops.cc and lce_ops.td", "larq_compute_engine/mlir/tf_tfl_passes.cc",
                      "larq_compute_engine/tflite/kernels (all operators, portable kernels), which run what the passes emit", "MLIR and LLVM 18: greedy rewriting, folding, canonicaliser, CSE, inliner, verifier, pass manager, thread pool, type uniquing"],
             "stubs": ["TensorFlow and TensorFlow Lite dialects: re-implemented operators (definitions, shapes, broadcasting)", "mlir-tblgen: operator classes and patterns generated from the repository's .td files by an own generator over llvm-tblgen",
                       "TensorFlow's own passes (shape inference, legalisation, optimisation): small stand-ins", "pthread primitives, thread creation and joining: replaced by the seeded scheduler", "TFLite and ruy headers, flexbuffers: minimal re-implementations"],
             "assumptions": ["memory accesses are sequentially consistent; tasks switch at lock operations and at the memory accesses of the passes",
                             "the stand-ins of TensorFlow's dialects and passes keep to the meaning of the real ones", "no negative zero and no infinite or undefined number is quantized"]},
    "arm": {"sources": ["armsim", "sim", "stubs"], "variants": ["1", "0"],
            "build": lambda verif, repo, out, variant: ["bash", os.path.join(verif, "armsim", "build.sh"), out, repo, variant],
            "worker": lambda verif, repo, out: [os.path.join(out, "sim")],
            "real": ["larq_compute_engine/tflite/kernels and larq_compute_engine/core, compiled for 64-bit Arm: the assembly of bgemm, indirect_bgemm and bitpacking and the portable code around it"],
            "stubs": ["64-bit Arm processor: an own interpreter of A64 integer, floating-point and Advanced SIMD instructions", "TFLite runtime and ruy: rewritten simulator with relocation and cancellation, run outside the simulated processor",
                      "flexbuffers reader, TFLite kernel headers: minimal re-implementations"],
            "assumptions": ["the interpreter of Arm instructions is right (it runs the operators' compiled C++ code as well, against the same models)", "memory accesses are sequentially consistent between scheduling points",
                            "negative zero is not quantized (known finding)", "32-bit Arm code is not covered"]},
    "lce": {"sources": ["sim", "stubs"], "variants": ["1", "0"], "build": _cpp_build,
            "worker": lambda verif, repo, out: [os.path.join(out, "sim")],
            "real": CPP_REAL, "stubs": CPP_STUBS, "assumptions": CPP_ASSUME},
}

_NET = "One seed generates a network of quantize, convolution, pooling and dequantize operators, a history of client events, faults and a schedule. "
PROPERTIES = {
    "C01": dict(engine="lce", search='thread counts, block splits, preemption points of packing and compute tasks', note='Threaded product against an arithmetic model and against single-threaded fresh interpreters; sampled schedules, sequentially consistent.',
                profile="C01", quick_s=60, thorough_s=600,
                rule=_NET + "Non-trivial: the run ends and its recorded history (events and output bytes) differs from every other run's.",
                expect=["threaded_trmuls", "trmul_blocks", "direct_products", "thread_count_changes", "task_switches"]),
    "C02": dict(engine="lce", search='histories of resizes, allocations, releases, moves, cancellations and inferences', note='Every inference compared byte for byte with a fresh interpreter; sampled histories.',
                profile="C02", quick_s=45, thorough_s=600, rule=_NET + "Non-trivial: distinct recorded history with at least one inference after a resize, release, move or re-creation.",
                expect=["input_resizes", "memory_releases", "custom_memory_moves", "arena_moves", "tensor_array_moves", "dynamic_resizes", "cancelled_invokes", "fresh_interpreter_comparisons"]),
    "C03": dict(engine="lce", search='histories and junk left in memory', note='Every memory access of the operators is checked against the tensors in scope; outputs compared between two fillings of memory.',
                profile="C03", quick_s=45, thorough_s=600, rule=_NET + "Each seed is executed twice with different junk in all memory. Non-trivial: distinct recorded history.",
                expect=["scope_checked_accesses", "dirt_comparisons", "allowed_overreads"]),
    "C04": dict(engine="lce", search='channel counts, histories, schedules and output memory contents', note='Padding bits examined after every operator of every inference.',
                profile="C04", quick_s=45, thorough_s=600, rule=_NET + "Channel counts are biased to those that need padding bits. Non-trivial: distinct recorded history.",
                expect=["padding_checks"]),
    "C05": dict(engine="lce", search='interleavings of interpreters on concurrent threads', note='Results of each interpreter compared with the same inference alone; sampled schedules with preemption at memory accesses and accesses to global data.',
                profile="C05", quick_s=60, thorough_s=600, rule=_NET + "Two to four interpreters are tasks preempted at seeded memory accesses. Non-trivial: distinct recorded history.",
                expect=["task_switches", "fresh_interpreter_comparisons"]),
    "C06": dict(engine="lce", search='points at which runtime services and allocations fail, and what the client does next', note='Every fault must be reported or absorbed with right results; closed histories are repeated and must not grow memory.',
                profile="C06", quick_s=45, thorough_s=600, rule=_NET + "Faults hit the n-th service call or allocation. Non-trivial: distinct recorded history.",
                expect=["fault_resize_tensor", "fault_add_tensors", "fault_operator_new", "fault_ruy_allocation", "fault_arena_commit", "recoveries", "leak_checks"]),
    "C07": dict(engine="lce", search='sequences of valid and broken operator descriptions in one process', note='Each broken description must be rejected at preparation without a crash, each valid one accepted and computed right.',
                profile="C07", quick_s=30, thorough_s=300, rule="One seed is a sequence of operator descriptions, valid or broken in one seeded way, prepared and run in one process. Non-trivial: distinct history.",
                shape_rule="hash of the kinds of broken descriptions in the run", expect=["invalid_models", "valid_descriptions", "recoveries"]),
    "C08": dict(engine="lce", search='sessions of networks under all three convolution kernels', note='Outputs against a float network model (exactly representable values) and per-operator arithmetic; sampled networks and histories.',
                profile="C08", quick_s=45, thorough_s=600, rule=_NET + "Several sessions run the same model with different convolution kernels. Non-trivial: distinct recorded history.",
                expect=["precedence_checks", "oracle_comparisons"]),
    "C09": dict(engine="lce", search='inference sequences with shared caches, evictions and clears', note='Outputs against fresh interpreters and arithmetic; reads of weights after packing are counted and must not occur.',
                profile="C09", quick_s=45, thorough_s=600, rule=_NET + "Several interpreters share runtime contexts whose cache evicts and clears. Non-trivial: distinct recorded history.",
                expect=["cache_hits", "cache_evictions", "cache_clears", "pack_once_checks"]),
    "C10": dict(engine="py", search='sources, samples, interruptions and task interleavings of predict calls', note='Every call of the native interpreter and of the data source is checked as it happens, results against the recorded samples; sampled schedules and faults.',
                profile="C10", quick_s=30, thorough_s=400,
                rule="One seed generates models, one to three client tasks with sequences of predict calls, sources that fail, re-enter, reuse buffers or outlive a failed call, failing inferences, interruptions at arbitrary lines and a schedule. Non-trivial: distinct recorded history.",
                expect=["calls_returned", "calls_raised", "fault_source_raises", "fault_inference_raises", "fault_interrupt_at_line", "fault_bad_sample", "reentrant_calls", "reused_buffers", "task_switches"],
                stubs=["native interpreter extension: simulated (strict input checks, deterministic outputs)", "clock and terminal used by tqdm: simulated"],
                assumptions=["Python code runs under the interpreter lock: tasks interleave at lines of the package, source requests and native calls",
                             "calls with at least one sample; arrays of one list have equal length"]),
    "C11": dict(engine="bnd", search='sequences of valid and spoiled predictions, re-creations and destructions with failing services', note='Every prediction compared with a model of the network, every returned array with its first contents after each event; sampled models, histories and faults.',
                profile="C11", quick_s=40, thorough_s=500,
                rule="One seed is a process of its own: it generates one to three models (tensors of all types and ranks, quantized, run-time sizes, binarized operators), and a history of creations, valid predictions in twenty presentations of the same numbers, spoiled inputs, wrong counts, predictions through the Python class, information calls, overwritten results, broken models and destructions, with the n-th runtime service, allocation of the extension or numpy allocation failing. Non-trivial: distinct recorded history.",
                shape_rule="hash of the generated models and kinds of events",
                expect=["predictions", "predictions_raised", "class_predictions", "results_overwritten", "wrong_counts", "bad_models", "destroyed", "tensor_array_moves",
                        "fault_resize_tensor", "fault_add_tensors", "fault_ruy_allocation", "fault_arena_commit", "fault_cancelled_inference", "fault_operator_new", "fault_array_allocation"]),
    "C12": dict(engine="py", search='steps at which an export, a conversion or a rewrite fails or is interrupted, over sequences of conversions', note='Every native conversion is checked as it is called (order, arguments, exported files, executed graph), the outcome, warnings and remaining files after each conversion; sampled faults and histories.',
                profile="C12", quick_s=60, thorough_s=600, gate=16,
                rule="One seed generates one to four conversions of twelve Keras models and a SavedModel with all option values and, for each, at most two faults: the temporary directory, the n-th file of the export (before, within or after it), torn or missing files, file size limits on a real export, parsing, either native converter, tracing, an error or interruption at a line of the package. Non-trivial: distinct recorded history.",
                expect=["second_attempts", "fault_save", "fault_mkdtemp", "fault_parse", "fault_native_sm", "fault_native_gd", "fault_line", "fault_trace", "fault_torn_export", "fault_file_size_limit", "real_exports", "graphs_executed"],
                real=["larq_compute_engine/mlir/python/converter.py, util.py", "TensorFlow: Keras models, tracing, freezing, SavedModel parsing; Keras export in a share of the runs"],
                stubs=["native converters: simulated", "Keras export: recorded files of a real export written step by step", "autograph is switched off"],
                assumptions=["only converter.py and util.py run for the package; a process that is killed outright may leave files",
                             "the operating system can delete the temporary files (deletion itself does not fail)"]),
    "C13": dict(engine="py", search='failures of either conversion path combined with generated models and requested types', note='The returned flatbuffer is compared, with all indices resolved, with an independent rewriting of the converted model; sampled models and faults.',
                profile="C13", quick_s=60, thorough_s=600, gate=16,
                rule="One seed generates one to four conversions with requested types and flatbuffers produced by the simulated converters (quantized, unquantized, partly quantized, other integer types, shared or repeated tensors, one to four inputs and outputs, extra subgraphs, signatures) and faults as for C12. Non-trivial: distinct recorded history.",
                expect=["types_checked_saved_model", "types_checked_graph", "types_refused", "models_rewritten", "fault_native_sm", "fault_line"],
                real=["larq_compute_engine/mlir/python/converter.py, util.py", "TensorFlow: Keras models, tracing, freezing, SavedModel parsing", "flatbuffers and the TFLite schema of the TensorFlow wheel"],
                stubs=["native converters: simulated, returning generated flatbuffers", "Keras export: recorded files of a real export written step by step", "autograph is switched off"],
                assumptions=["converted models have float inputs and outputs (or integer ones that keep their type)",
                             "models with another integer type at some boundary may be refused as a whole"]),
    "C14": dict(engine="mlir", search='schedules of the pass manager threads over generated modules and pipeline histories', note='Every module compared, in full, with its text generated with the batch size 1; sampled modules, pipelines and schedules.',
                profile="C14", quick_s=40, thorough_s=500,
                rule="One seed generates one or two clients with their own contexts, modules of up to ten functions (ranked, unranked, non-tensor inputs, encodings, quantized and other element types, attributes, declarations, further blocks), pipelines (by name or constructed, verified or not, with a failing pass before or after, reused or repeated), thread counts and a schedule. Non-trivial: distinct recorded history.",
                shape_rule="hash of the generated modules and pipeline settings",
                expect=["functions", "inputs_changed", "declarations", "fault_pass_fails", "repeated_runs", "reused_pipelines", "parallel_clients", "threads_created", "contended_locks", "fault_spurious_wakeup", "task_switches", "single_threaded_runs", "contexts_recreated"]),
    "C23": dict(engine="arm", search="thread counts, block splits, preemption points, histories and memory contents, with the operators on a simulated Arm processor", note="Every operator of every inference against its arithmetic definition and fresh interpreters; every access, preserved register and stack pointer is checked. Sampled networks, histories and schedules; the processor is interpreted.",
                profile="C23", quick_s=80, thorough_s=900, rule=_NET + "The operators run on a simulated 64-bit Arm processor; channel counts cover whole and partial words, groups of several words and sums around 16 bits. Non-trivial: distinct recorded history.",
                expect=["guest_instructions", "guest_calls", "oracle_comparisons", "padding_checks", "fresh_interpreter_comparisons", "scope_checked_accesses", "allowed_overreads", "threaded_trmuls", "input_resizes", "negative_zeros_packed_as_negative"]),
    "C24": dict(engine="py", search='interleavings of concurrent strips and rewrites, interruptions and failing allocations, over generated models', note='Every returned flatbuffer compared, with all indices resolved, with an independent rewriting of the given one; sampled models, schedules and faults.',
                profile="C24", quick_s=45, thorough_s=500,
                rule="One seed generates one to three models (one to four inputs, up to ten outputs of twenty kinds, further subgraphs with and without signatures, intermediate and optional tensors, models that must be refused) and one to three client tasks that strip them, strip results again, rewrite the types of other models, and are interrupted at a line, fail to allocate while copying or serialising, and try again. Non-trivial: distinct recorded history.",
                expect=["models_stripped", "outputs_changed", "operators_removed", "refused", "stripped_again", "types_rewritten", "fault_line", "fault_builder", "fault_copy", "task_switches"],
                real=["larq_compute_engine/mlir/python/util.py", "flatbuffers and the TFLite schema of the TensorFlow wheel"],
                stubs=["the converter that makes the models: a generator"],
                assumptions=["one operator code per kind of operator, as the converter writes them", "every subgraph has an input; subgraphs without signature are called by operators of others",
                             "Python code runs under the interpreter lock: tasks interleave at lines of the package and memory requests"]),
    "C20": dict(engine="conv", search="schedules of the pass manager threads, failing passes and pass orders over generated graphs", note="Every function evaluated before and after every pipeline on generated data, with a bound of the rounding; emitted operators are also run by the runtime's kernels. Sampled graphs, data, pipelines and schedules.",
                profile="C20", quick_s=75, thorough_s=700,
                rule="One seed generates one or two clients with their own contexts, modules of up to six functions (TensorFlow level or TensorFlow Lite and Larq level: binarizations, convolutions, groups, padding, pools, scales, activations, comparisons, fake quantization, detection, constants), pipelines of passes in the converter's order or any other (by name or constructed, for both targets, with a failing pass), thread counts, re-use and a schedule. Non-trivial: distinct recorded history.",
                shape_rule="hash of the kinds of graph pieces and of the pipelines",
                expect=["functions", "functions_evaluated", "sign_bits_decided", "lce_operators_emitted", "kernels_run", "binary_convolutions", "bitpacked_outputs", "int8_outputs", "grouped_convolutions", "one_padded_convolutions", "fused_activations", "binary_pools", "fault_pass_fails", "reused_pipelines", "parallel_clients", "threads_created", "fault_spurious_wakeup", "task_switches", "single_threaded_runs", "contexts_recreated", "reference_runs"]),
    "C21": dict(engine="conv", search="schedules of the pass manager threads and failing passes over generated convolutions whose inputs take every accumulator value", note="Every accumulator value of every generated convolution is decided by the computed thresholds and by activation, multiplier and bias in exact arithmetic with error bounds, and by the runtime's kernels. Sampled convolutions and schedules.",
                profile="C21", quick_s=60, thorough_s=600,
                rule="One seed generates convolutions (filter and channel sizes, groups, padding, activations, multipliers and biases of both signs and of zero whose zero crossing lies on, next to or far from the reachable values), input data that takes every accumulator value in every channel, pipelines, thread counts, a failing pass and a schedule. Non-trivial: distinct recorded history.",
                shape_rule="hash of the pipelines and kinds of graph pieces",
                expect=["functions_evaluated", "sign_bits_decided", "bitpacked_outputs", "fused_activations", "grouped_convolutions", "one_padded_convolutions", "kernels_run", "threads_created", "fault_pass_fails", "task_switches"]),
    "C22": dict(engine="conv", search="schedules of the pass manager threads and failing passes over generated operators and option values", note="Every operator written as a custom operator is read back by the converter and compared attribute by attribute, and is run by the runtime's kernels against a model of the operator with the original attributes. Sampled operators, values and schedules.",
                profile="C22", quick_s=50, thorough_s=500,
                rule="One seed generates functions of quantize, binary convolution, pooling and dequantize operators with option values of every width, the passes that write and read them, thread counts, a failing pass and a schedule. Non-trivial: distinct recorded history.",
                shape_rule="hash of the pipelines and kinds of graph pieces",
                expect=["roundtrips", "lce_operators_emitted", "kernels_run", "binary_convolutions", "binary_pools", "threads_created", "fault_pass_fails", "task_switches"]),
    "C26": dict(engine="conv", search="schedules of the pass manager threads, failing passes and repeated conversions over generated graphs", note="Every converted function is checked for operators and shapes, prepared and run by the runtime's operators, and compared with the original; progress is bounded in steps. Sampled graphs, data and schedules.",
                profile="C26", quick_s=60, thorough_s=600,
                rule="One seed generates TensorFlow graphs with or without unknown batch size, the whole pipeline for both targets with and without quantization, a failing pass at any place followed by another attempt, thread counts and a schedule. Non-trivial: distinct recorded history.",
                shape_rule="hash of the pipelines and kinds of graph pieces",
                expect=["whole_pipelines", "lce_operators_emitted", "kernels_run", "fault_pass_fails", "threads_created", "task_switches", "parallel_clients", "contexts_recreated", "reference_runs"]),
    "C27": dict(engine="conv", search="failing steps of conversions, silent or reported, and interleavings of conversions on Python threads and pass manager threads", note="Every step of every conversion is checked as it is called (arguments, order, session, Python's lock), the outcome against what the steps did, and converted graphs against the same passes in a fresh context. Sampled conversions, faults and schedules.",
                profile="C27", quick_s=50, thorough_s=500,
                rule="One seed generates one to three Python threads with up to four conversions each (graphs and saved models, all settings, generated models and node names), for each at most one wrong request or failing step (parsing, registration, import, entry function, control flow of version 1, each pass before and after freezing, freezing, writing, the final verification; without a message, with one, or by leaving an invalid graph), warnings, processor counts and a schedule. Non-trivial: distinct recorded history.",
                shape_rule="hash of the kinds of graph pieces, settings and faults",
                expect=["conversions", "models_returned", "errors_raised", "saved_model_conversions", "conversions_compared_with_reference", "waits_for_python_lock", "warnings_emitted", "fault_without_message", "fault_with_message", "fault_invalid_ir", "fault_caller_error", "fault_step_status", "fault_entry_function",
                        "fault_control_flow_v1", "fault_pass_fails_in_conversion", "fault_freezing_fails", "fault_export_fails", "fault_module_invalid_at_end", "threads_created", "task_switches"],
                real=["larq_compute_engine/mlir/python: common.cc, graphdef_tfl_flatbuffer.cc, saved_model_tfl_flatbuffer.cc, pybind_export.cc", "larq_compute_engine/mlir/tf_to_tfl_flatbuffer.cc, tf_tfl_passes.cc and all passes and patterns (memory accesses instrumented)",
                      "absl statuses; MLIR and LLVM 18: diagnostics, pass manager, thread pool, verifier"],
                stubs=["TensorFlow's importer, exporter, variable freezing, operator registration and passes: simulated steps that record their arguments and may fail", "pybind11: a lock that checks every use of a Python object",
                       "TensorFlow and TensorFlow Lite dialects, mlir-tblgen: as for C20", "pthread primitives, thread creation and the number of processors: simulated"]),
}
