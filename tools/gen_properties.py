"""Write properties.jsonl (kept as a script so that it stays readable)."""
import json, pathlib

EX = "src/fluidimage/executors/"
TO = "src/fluidimage/topologies/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech]}
    if state:
        a["state"] = [dict(name=n, meaning=w) for n, w in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


prop("E01", "No item is lost, duplicated or mislabelled by an executor",
     "With every executor, an item taken from the input queue of a work is given exactly once to the function of this work (with its key if, and only if, the work asks for it), and what the function returned is stored exactly once, under the key of the item, in the output queue of the work if it has one. An item which is already an error is never given to the function: it is forwarded unchanged under its key.",
     ["schedules", "inputs", "configurations"],
     "all executors, all works and items, all interleavings of the workers, items which are values or errors, works with or without output queue",
     "The tests run a few small topologies whose queues never hold two concurrent items of the same work in an unlucky order, and never look at the keys of intermediate queues.",
     [EX + "exec_async.py", EX + "exec_async_sequential.py", EX + "exec_async_multiproc.py", EX + "exec_async_servers.py", EX + "servers.py", EX + "exec_sequential.py", TO + "base.py"],
     [("per-item protocol of each executor", EX + "exec_async.py:async_run_work_io/async_run_work_cpu and siblings"), ("server side of the protocol", EX + "servers.py:launch_works/send"), ("error forwarding and argument building", TO + "base.py:Work.check_exception/prepare_argument")])

prop("E02", "Executions stop when, and only when, all the work is done",
     "Unless it is asked to stop, an execution ends by itself only when all the queues of the topology are empty and no worker holds an item, and it does end then, whatever happened to the items (processed, failed, already an error, or taken first by another worker). While they wait, the loops of the asynchronous executors always give the hand back to the event loop.",
     ["schedules", "inputs", "fault_sequences"],
     "all interleavings of the async functions, worker threads and servers, all mixtures of succeeding and failing items",
     "A premature or missing termination needs a particular interleaving (a queue observed empty while an item is in flight) or a failing item; the tests sample one interleaving of successful items.",
     [EX + "exec_async.py", EX + "exec_async_servers.py", EX + "servers.py", EX + "exec_sequential.py"],
     [("termination detection", EX + "exec_async.py:update_has_to_stop"), ("count of the items held by workers", EX + "exec_async.py:nb_working_workers_cpu/io; servers.py:Worker.is_unoccupied"), ("sequential main loop", EX + "exec_sequential.py:_run_works")],
     [("in-flight counters", "number of items popped from a queue and not yet stored in the next one")])

prop("E03", "A failing item is isolated, reported and does not stop the others",
     "With every executor (and unless it was asked to stop at the first error), an exception raised by the function of a work for one item is caught, is described (type, message, and traceback when it is available) in a file of the log directory named after the work and the item, and takes the place of the result of the item in the output queue, so that other items are processed as if nothing happened. Works which combine several inputs forward the error of one of their inputs instead of failing or blocking.",
     ["fault_sequences", "inputs", "schedules"],
     "all works, all exceptions derived from Exception, at any item, with every executor",
     "The existing tests inject an error in one work of one topology and do not look at what is reported nor at the fate of the other items with each executor.",
     [EX + "base.py", EX + "exec_async.py", EX + "exec_async_servers.py", EX + "servers.py", EX + "exec_sequential.py", TO + "piv.py", TO + "preproc.py"],
     [("exception capture", EX + "*: except Exception around the work function"), ("report", EX + "base.py:ExecutorBase.log_exception"), ("forwarding by global works", TO + "piv.py:make_couples, preproc.py:make_subsets")])

prop("E04", "Failures are escalated to the caller when they have to be",
     "If the user asks to stop at the first error, the exception of the work is raised out of the computation after having been logged, or the executor refuses the option when it is created. If a sub-process of a multi-process executor ends with a non-zero code, the error is recorded and the computation raises an exception in the main process after having cleaned up; without failure nothing is raised.",
     ["fault_sequences", "configurations"],
     "all executors, any failing work or any set of failing sub-processes",
     "No test makes a sub-process fail, and stop-if-error is tested with one executor.",
     [EX + "base.py", EX + "exec_async.py", EX + "exec_sequential.py", EX + "multi_exec_async.py", EX + "multi_exec_subproc.py", TO + "base.py"],
     [("re-raise", EX + "exec_async.py:async_run_work_*"), ("return codes", EX + "base.py:MultiExecutorBase.compute/_finalize_compute")])

prop("E05", "Limits on workers and on waiting items are respected",
     "An executor without servers starts a new task of a work only if, at this moment, the input queue of the work is not empty, fewer tasks of the same kind (io or cpu) than the maximum number of workers are counted as running, and the output queue of the work (if any) holds fewer items than the maximum. With servers, a job is only sent to a server which is available and which has fewer pending items than its limit, the least loaded one being chosen.",
     ["schedules", "configurations"],
     "all executors with these limits, all works (with or without output queue), all values of the limits",
     "Tests have fewer items than the default limits, so the limits never bind.",
     [EX + "exec_async.py", EX + "exec_async_servers.py", EX + "exec_sequential.py"],
     [("launch loops", EX + "exec_async.py:def_async_func_work_io/def_async_func_work_cpu"), ("server choice", EX + "exec_async_servers.py:get_available_worker")])

prop("E06", "What an execution acquires is released when it returns",
     "When the computation of a topology returns (including when there was nothing to compute), the standard output and error streams are the ones that were there before the executor was created, the log file is closed, the lock file of the job is removed and its end time is recorded, and the servers have been told to terminate. A job directory which is already locked is refused.",
     ["histories", "configurations", "inputs"],
     "all executors, sequences of several computations in one process, computations with nothing to do",
     "pytest replaces the streams and the tests never check them afterwards, nor run several computations in all modes.",
     [EX + "base.py", EX + "exec_async.py", EX + "exec_async_servers.py", EX + "exec_sequential.py", EX + "exec_async_seq_for_multi.py", EX + "multi_exec_async.py"],
     [("release", EX + "base.py:_finalize_compute/_reset_std_as_default/_release_lock"), ("acquisition", EX + "base.py:ExecutorBase.__init__/_save_lock_file")])

prop("E07", "Splitting a computation covers every item exactly once",
     "When a computation is split between processes, the parts are consecutive, disjoint and their union is the whole set of items, for any number of items, step and number of processes; sizes differ by at most one. Each non-empty part is given to exactly one process, with its own range or list of indices and nothing else changed, and what is written in a file of indices is what the sub-process reads.",
     ["inputs", "configurations"],
     "all start/stop/step, all numbers of items and of processes, all splitters and multi-process executors",
     "Tests use two or three hand-picked sizes; off-by-one errors show for particular remainders only.",
     [TO + "splitters.py", EX + "multi_exec_async.py", EX + "multi_exec_subproc.py", TO + "base.py"],
     [("arithmetic of the split", TO + "splitters.py:split_range/split_list"), ("distribution", EX + "multi_exec_async.py:_start_multiprocess_*"), ("index files", TO + "splitters.py:save_indices_files / " + TO + "base.py:init_series, fill_queue_paths")])

prop("E08", "Result lists and job files agree between writers and readers",
     "The name of each result is appended exactly once to the list of results of its process, and the number of results written beside is the length of this list; the main process and the monitoring application read back, under the same names and formats, the files written by the executors (results, numbers of results, job information, parameters, lock and end time). After a multi-process computation the list of results of the topology contains the results of all processes.",
     ["histories", "schedules", "configurations"],
     "all executors, all numbers of processes and results, results saved in any number of increments",
     "The writers run in other processes and the readers in another program; the tests of the monitor use one recorded directory.",
     [EX + "base.py", EX + "exec_async_seq_for_multi.py", EX + "exec_sequential.py", "src/fluidimage/gui/monitor.py"],
     [("writer", EX + "base.py:_init_results_log/_save_results_names/_save_job_data"), ("reader (main process)", EX + "base.py:MultiExecutorBase.compute"), ("reader (monitor)", "src/fluidimage/gui/monitor.py")])

prop("E09", "A request to stop is honoured by every loop",
     "Every waiting or launching loop of every executor tests, at each of its iterations, whether the execution has been asked to stop (by the dedicated signal); when it has, the loop ends there and starts no new work. The handler of the signal is registered as soon as the executor is created, and the request is transmitted to all the sub-processes of a multi-process executor. The request is never forgotten (nothing sets the state back to 'running').",
     ["schedules", "histories"],
     "the request arriving at any time, with every executor",
     "No test sends the signal.",
     [EX + "base.py", EX + "exec_async.py", EX + "exec_async_servers.py", EX + "exec_sequential.py", EX + "exec_async_seq_for_multi.py"],
     [("signal handlers", EX + "base.py:ExecutorBase.__init__, MultiExecutorBase.compute"), ("loops testing the request", EX + "exec_async*.py, exec_sequential.py")])

prop("R01", "Every selectable executor, method and command name leads to its code",
     "Each name of executor, correlation method, topology command or console command offered to the user designates an existing and importable implementation with the interface used by its caller (accepted arguments, mandatory methods). An unknown name is refused with an explicit error.",
     ["configurations"],
     "all registered names and all combinations of constructor arguments passed by the library",
     "Tests select a few names by hand; a plugin or a sub-process that cannot be constructed only fails for this configuration.",
     [EX + "__init__.py", TO + "base.py", "src/fluidimage/calcul/correl.py", "src/fluidimage/works/piv/singlepass.py", TO + "launcher.py", "src/fluidimage/run_from_xml.py", "pyproject.toml"],
     [("entry points", "pyproject.toml [project.entry-points], " + EX + "__init__.py:import_executor_class"), ("constructor call", TO + "base.py:TopologyBase.compute"), ("correlation classes", "src/fluidimage/calcul/correl.py:correlation_classes")])

prop("T01", "The graph of each topology is complete for all options",
     "For every topology and every combination of its options, each queue is filled by a work and consumed by a work of the topology, each work reads and writes queues of this topology only, and works are connected in the order reading, optional user function, processing, saving. Every queue is emptied by exactly one work, every item that is not an error can reach the end of the graph, works treating one item at a time never form a cycle, and each work is given the number of queues and the kind of items (key with value, names, images, tuples, objects) that its function expects. Activating an optional step (user image-to-image function, preprocessing) inserts it on the path of the data: its output, not its input, is what the next step consumes.",
     ["configurations", "programs"],
     "all topologies, all combinations of optional steps",
     "Each topology is tested with its default graph; optional branches are only exercised for some of them, and a queue nobody reads blocks the execution instead of failing.",
     [TO + "piv.py", TO + "bos.py", TO + "preproc.py", TO + "image2image.py", TO + "surface_tracking.py", TO + "mean.py", TO + "example.py"],
     [("construction of the graph", TO + "*.py:__init__ (add_queue/add_work)")])

prop("T02", "'complete' recomputes exactly the missing results",
     "In mode 'complete', an item is skipped if and only if the file that would be saved for it exists in the result directory: the name which is tested is the name under which the result of this item is saved, for every format and subset of images. In the other modes nothing is skipped because of existing files.",
     ["histories", "inputs", "configurations", "crash_points"],
     "all topologies with this mode, all file names and indices, all formats, all sets of already present results",
     "Tests delete one file of one topology with one format.",
     [TO + "piv.py", TO + "bos.py", TO + "preproc.py", TO + "base.py", "src/fluidimage/data_objects/piv.py", "src/fluidimage/data_objects/preproc.py"],
     [("tested names", TO + "*.py:compute_indices_to_be_computed"), ("saved names", "src/fluidimage/data_objects/*.py:save, " + TO + "*.py:save_*")])

prop("T03", "A result file that exists is a complete result file",
     "A result becomes visible under its final name only once it is completely written: an interruption at any moment of the saving leaves either no file or a complete file under this name, so that mode 'complete' never takes a truncated file for a result.",
     ["crash_points", "fault_sequences"],
     "a crash, kill or exception at any instant of the saving of any kind of result of a topology",
     "Needs a crash in the middle of a write.",
     ["src/fluidimage/data_objects/piv.py", "src/fluidimage/data_objects/preproc.py", TO + "image2image.py", TO + "surface_tracking.py"],
     [("saving of results", "src/fluidimage/data_objects/piv.py:save, data_objects/preproc.py:save, " + TO + "image2image.py:save_image")])

prop("T04", "Existing result directories are treated as the user asked",
     "'new_dir' always returns a directory which did not exist; 'recompute' and 'complete' use the requested directory itself; 'ask' asks only if the directory exists and obeys the answer (in lower or upper case): new directory, complete, recompute, or stop without computing anything. An invalid mode is refused, no file of the user is deleted, and all processes of one computation use the same directory.",
     ["inputs", "histories", "configurations"],
     "all modes, answers, types of path and states of the file system",
     "The interactive branches and repeated runs are not tested.",
     [TO + "base.py", EX + "multi_exec_subproc.py", EX + "servers.py"],
     [("choice of the directory", TO + "base.py:prepare_path_dir_result"), ("propagation", TO + "base.py:_init_path_dir_result, " + EX + "multi_exec_subproc.py")])

prop("T05", "Images are combined with the right partners and kept while needed",
     "A couple (or subset) of images is made only when all its images are available, exactly once, with these images in the order of the series and under the key of the couple. An image is discarded if and only if no remaining couple needs it, so each image is read once and none stays in memory until the end.",
     ["schedules", "inputs"],
     "all orders in which images become available, all overlapping couples and subsets",
     "The order of arrival depends on the scheduling of the readers; the tests see one order.",
     [TO + "piv.py", TO + "preproc.py", TO + "surface_tracking.py", TO + "base.py"],
     [("combination", TO + "piv.py:make_couples, preproc.py:make_subsets, surface_tracking.py:make_couples"), ("remaining need", TO + "base.py:Queue.is_name_in_values")])

prop("T06", "Parameters that are read are declared, and declared ones are used",
     "Every parameter that a work or topology reads exists in the default parameters created for it, and every parameter documented in the default parameters has an effect on the computation. Optional parameters are only read under protection.",
     ["configurations", "programs"],
     "all works and topologies, all their parameters, all code paths",
     "A parameter that is misspelt or ignored on one code path does not fail in tests that keep its default value.",
     ["src/fluidimage/works/", TO],
     [("declaration", "src/fluidimage/works/**:_complete_params_with_default, " + TO + "*.py:create_default_params"), ("use", "params.<...> reads in works and topologies")])

prop("D01", "Saved velocity results are read back identically",
     "Each quantity of a PIV result which is saved is read back under the same name and with the same meaning, and everything that is read has been written; this holds for single-pass, multi-pass and light results and for the uvmat format, with and without errors, peaks, mask or spline data. The order of groups, passes and sub-domains is preserved.",
     ["inputs", "configurations"],
     "all contents of a result, all formats, any number of passes, peaks and sub-domains",
     "One save/load is tested on one result; a quantity dropped or swapped on one side is only visible for some contents.",
     ["src/fluidimage/data_objects/piv.py"],
     [("tables", "src/fluidimage/data_objects/piv.py:_keys_to_be_saved/_dict_to_be_saved"), ("save/load", "src/fluidimage/data_objects/piv.py:_save_in_hdf5_object/_load_from_hdf5_object")])

prop("D02", "Errors of vectors are reported with a faithful explanation",
     "Each vector found wrong for a reason (peak touching the border, correlation too weak, displacement too large, incoherent with neighbours, failed computation) is recorded once per reason under its index with the text of this reason; the code stored beside it in the result file is the one of this reason and different reasons have different codes. No reason raised by the computation is left without a specific code.",
     ["inputs"],
     "all images and parameters that make vectors wrong, all combinations of reasons",
     "Tests use clean synthetic images whose vectors are almost all valid.",
     ["src/fluidimage/works/piv/singlepass.py", "src/fluidimage/works/piv/fix.py", "src/fluidimage/data_objects/piv.py", "src/fluidimage/calcul/correl.py"],
     [("texts", "src/fluidimage/works/piv/fix.py, singlepass.py, calcul/correl.py, calcul/subpix.py"), ("codes", "src/fluidimage/data_objects/piv.py:HeavyPIVResults._save_in_hdf5_object")])

prop("D03", "Vectors rejected by the filters are removed consistently",
     "When a vector is rejected, both components of its displacement become invalid together, its original value is kept in the list of wrong vectors under the same index, and vectors which are not rejected are left unchanged (or replaced by a secondary peak in both components together). Each threshold is compared with the quantity it documents and only if it is set.",
     ["inputs", "configurations"],
     "all fields, all combinations of thresholds (set or not) and of numbers of peaks",
     "Tests do not combine thresholds that are not set with several peaks.",
     ["src/fluidimage/works/piv/fix.py"],
     [("filters", "src/fluidimage/works/piv/fix.py:WorkFIX.calcul")])

prop("D04", "Coordinates are converted consistently between masked and full image",
     "Positions and sizes expressed in the masked image and in the original image are converted by adding, respectively subtracting, the same offsets, the offset of each direction being applied to the coordinate of this direction only, exactly once for each stored position. The image crop uses the same offsets as the coordinates.",
     ["inputs", "configurations"],
     "all mask specifications and grids",
     "Masks are tested on one image where a constant shift is not visible in the checks.",
     ["src/fluidimage/works/with_mask.py", "src/fluidimage/works/piv/singlepass.py", "src/fluidimage/works/piv/multipass.py", "src/fluidimage/data_objects/piv.py"],
     [("conversions", "src/fluidimage/works/piv/singlepass.py:_xyoriginalimage_from_xymasked/_xymasked_from_xyoriginalimage"), ("crop", "src/fluidimage/works/with_mask.py, data_objects/piv.py:ArrayCouple._mask_array")])

prop("D05", "Operations on velocity fields return the documented new field",
     "Arithmetic and filtering operations on a velocity field return a new field and leave their operands unchanged; the operation is applied to all velocity components and only to them, with the operands in the right order, and grid, time and metadata are carried over. A field that is saved and loaded is the same field.",
     ["inputs", "histories"],
     "all fields (with or without third component), all operands",
     "Tests check a few values of one component.",
     ["src/fluidimage/postproc/vector_field.py"],
     [("operations", "src/fluidimage/postproc/vector_field.py:VectorFieldOnGrid"), ("save/load", "src/fluidimage/postproc/vector_field.py:save/from_file")])

prop("D06", "Works do not modify their inputs nor shared state",
     "Processing an item neither modifies the arrays received as input (which other works may still use) nor state shared between items, so that the result for an item does not depend on the other items, on their order or on the number of threads. Image filters of the toolboxes return a new array.",
     ["schedules", "histories", "inputs"],
     "all works called concurrently or repeatedly, all items",
     "Tests call each work once, sequentially, and do not look at the inputs afterwards.",
     ["src/fluidimage/works/", "src/fluidimage/calcul/"],
     [("works", "src/fluidimage/works/**: calcul and functions reachable from topologies")])

prop("D07", "Both directions of space are treated symmetrically",
     "In the displacement computation, whatever is done along x is done along y with the corresponding quantities (sizes, positions, steps, displacements, bounds): no quantity of one direction is used where the one of the other direction is meant. Numbers of rows go with y and numbers of columns with x.",
     ["inputs", "configurations"],
     "all non-square images, windows, grids and displacements with different components",
     "Tests use square images and windows, for which swapping directions has no effect.",
     ["src/fluidimage/works/piv/singlepass.py", "src/fluidimage/works/piv/multipass.py", "src/fluidimage/works/piv/fix.py", "src/fluidimage/calcul/correl.py", "src/fluidimage/calcul/subpix.py", "src/fluidimage/data_objects/piv.py", "src/fluidimage/calcul/interpolate/"],
     [("paired computations", "the files above")])

prop("C01", "All correlation backends honour the same contract",
     "Every selectable correlation method accepts the same arguments and returns the correlation map and its normalisation; peak search and sub-pixel refinement return displacements, and every failure is signalled by the dedicated exception carrying an explanation and, when they are known, the values used in place of the result. A failure for one interrogation window never prevents the computation of the others.",
     ["inputs", "configurations"],
     "all correlation and sub-pixel methods, all windows including degenerate ones",
     "Degenerate windows (uniform, masked, peak at the border) are not in the tests of each method.",
     ["src/fluidimage/calcul/correl.py", "src/fluidimage/calcul/subpix.py", "src/fluidimage/calcul/errors.py", "src/fluidimage/works/piv/singlepass.py"],
     [("backends", "src/fluidimage/calcul/correl.py:Correl*"), ("failures", "src/fluidimage/calcul/errors.py:PIVError"), ("caller", "src/fluidimage/works/piv/singlepass.py:_loop_vectors")])

prop("L01", "What is logged can be read back by the log reader",
     "The lines that executors and works write in their logs (start of a work, end of a work with its duration, memory) have the format that the log reader parses, for all executors and all names of works and items. What the reader extracts (work, key, time, duration) is what was logged.",
     ["inputs", "configurations"],
     "all executors, all names of works and keys",
     "The log is parsed in one test with one executor.",
     [TO + "log.py", EX + "exec_async.py", EX + "exec_sequential.py", EX + "servers.py", "src/fluidimage/util/"],
     [("writer", EX + "*: log_in_file/log_in_file_memory_usage"), ("reader", TO + "log.py:LogTopology")])

prop("P01", "Preprocessing applies exactly the requested tools in the requested order",
     "Each tool listed in the parameters of the preprocessing corresponds to a function of the selected backend which accepts the parameters declared for it; enabled tools are applied once each in the requested sequence, each to the result of the previous one, and disabled tools are not applied. Toolbox functions process every image they are given.",
     ["configurations", "inputs"],
     "both backends, all tools, sequences and parameter values",
     "Tests enable two or three tools with one backend.",
     ["src/fluidimage/works/preproc/__init__.py", "src/fluidimage/works/preproc/toolbox.py", "src/fluidimage/works/preproc/_toolbox_py.py", "src/fluidimage/works/preproc/_toolbox_cv.py"],
     [("registry", "src/fluidimage/works/preproc/toolbox.py"), ("application", "src/fluidimage/works/preproc/__init__.py, toolbox.py:PreprocTools")])

prop("X01", "No code path uses something that does not exist",
     "On every path of the library (including options, error handling and rarely used commands), names which are used are defined before, modules of the library export what is imported from them, methods called on the library's own objects exist and accept the arguments they are given. Coroutines are awaited.",
     ["programs", "configurations", "inputs"],
     "all functions and paths of the library",
     "Python only detects these faults when the path is executed; options, error handlers and commands without test are never executed.",
     ["src/fluidimage/"],
     [("definitions and uses", "all modules of src/fluidimage")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("\n".join(json.dumps(p) for p in P) + "\n")
print(len(P), "properties")
