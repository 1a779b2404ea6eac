#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Not run by any check."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

FSA = "src/cosim/algorithm/fixed_step_algorithm.cpp"
EXE = "src/cosim/execution.cpp"
SLV = "src/cosim/slave_simulator.cpp"

prop("C01", "Every slave is driven through the documented life cycle in contiguous steps",
 "For every co-simulation with the fixed-step algorithm, each slave is set up exactly once with the execution's start time before anything else, then (after initialisation) told to start exactly once, and only then stepped. Its steps form a gap-free, overlap-free sequence starting at the start time, each of length (decimation factor × base step), where the factor is the step size hint divided by the base step rounded down but at least 1, or the factor set explicitly before the simulation starts. A slave takes a step exactly in those base steps whose (zero-based) number is a multiple of its factor, and end_simulation is called at most once, after all steps, when the execution goes away.",
 ["configurations", "histories"], "all sets of slaves, step size hints, explicit decimation factors, start times, worker-thread counts and interleavings of step()/simulate_until() calls",
 "The tests use one or two hard-coded decimation factors and mostly observe values, not the sequence of calls a slave receives.",
 [FSA, EXE, SLV, "include/cosim/slave.hpp"],
 [("step loop with decimation", FSA + " impl::do_step"), ("calculate_decimation_factor", FSA), ("state machine of slave_simulator", SLV)],
 ["call log recorded by generated slaves implementing cosim::slave"],
 [("stepCounter_", "number of base steps taken", FSA), ("decimationFactor", "per-simulator multiple of the base step", FSA)])

prop("C02", "Connected inputs receive exactly the source's value at communication points",
 "Whenever a slave starts a step, every connected input of it holds the value that its source output had at the latest communication point at which a transfer between the two was due (immediately after a base step in which both the source slave's and the target slave's steps end), for all four variable types. Unconnected inputs are never written, a value is never delivered to any other variable, and fan-out delivers the same value to all targets.",
 ["configurations", "histories"], "all connection graphs (incl. cycles, self-connections and fan-out), variable types, decimation factors and numbers of steps",
 "Tests check single chains of identical slaves with a real variable; graph shape, mixed types and mixed decimation are not varied.",
 [FSA, SLV], [("transfer_variables", FSA), ("get/set variable caches", SLV)],
 ["inputs seen by each generated slave at each do_step, compared with a reference interpreter of the connection graph"],
 [("outgoingSimConnections", "connections out of a simulator", FSA), ("get_variable_cache/set_variable_cache", "buffered values", SLV)])

prop("C03", "Function blocks compute their defined formula, alone and inside a co-simulation",
 "A linear transformation outputs offset + factor·input and a vector sum outputs, per dimension, the sum of the corresponding element of all its inputs, in the configured numeric type and for every admissible instance count, with parameters of the wrong type or outside their declared range rejected. In a co-simulation, a function connected between simulators behaves like a memoryless block: at each communication point where the steps of all simulators connected to its outputs end, its inputs are refreshed from those sources whose steps end there too, its outputs are recalculated, and only then are they passed on to those simulators.",
 ["inputs", "configurations", "histories"], "all parameter values (incl. placeholder instance counts/types and out-of-range ones), all inputs, all wirings of functions to simulators incl. decimation factors",
 "function_unittest uses one factor/offset and one vector shape.",
 ["src/cosim/function/linear_transformation.cpp", "src/cosim/function/vector_sum.cpp", "src/cosim/function/utility.cpp", FSA],
 [("calculate()", "src/cosim/function/*.cpp"), ("substitute_function_parameters", "src/cosim/function/utility.cpp"), ("function handling in do_step", FSA)],
 ["function outputs via function::get_*; inputs of downstream slaves"])

prop("C04", "Initial values reach slaves before start and propagate through connections",
 "An initial value set before the simulation starts is delivered to exactly that variable of that slave, during the slave's initialisation phase (after setup and before start); the last value set for a variable wins. During initialisation output values are propagated through the connection graph repeatedly, so that in an acyclic system every connected input has its consistent value before any slave is started, and setting an initial value for a non-existent variable, for a variable of the wrong type, or after start is refused with an error and has no effect.",
 ["configurations", "histories"], "all connection DAGs, types, initial values and orders in which they are set",
 "Initial values are only exercised through one FMU-based configuration (not runnable here).",
 [EXE, FSA, SLV], [("set_*_initial_value", EXE), ("initialize(): iterations = number of simulators", FSA), ("set_variable_cache::set_value/transfer", SLV)],
 ["inputs and parameters seen by generated slaves at start_simulation"])

prop("C05", "Results do not depend on the number of worker threads",
 "For the same system, the call sequence and values seen by every slave and every observer are identical whatever the number of worker threads given to the fixed-step algorithm (none, one or many) and identical from run to run; every slave's step in a base step is complete before values are transferred or the step is reported complete.",
 ["schedules", "configurations"], "all systems, worker-thread counts and interleavings of slave steps of varying duration",
 "Tests run a fixed pair of slaves once and compare end values; a lost or early-finished task shows only under particular timings.",
 [FSA, "src/cosim/utility/thread_pool.hpp"], [("thread_pool::wait_for_tasks_to_finish", "src/cosim/utility/thread_pool.hpp"), ("parallel do_step/setup/initialise", FSA)],
 ["logs of generated slaves with randomised run times, compared with the zero-thread run and the reference model"],
 [("pendingTasks", "tasks queued or running", "src/cosim/utility/thread_pool.hpp")])

prop("C06", "Simulation control: logical time, stepping, stopping and running state agree",
 "step() advances current_time() by exactly the base step it returns; simulate_until(t) on success returns true with the first communication point at or after t as current time (a communication point less than 1 % of a step before t counts as t, and at least one step is always taken), and simulating up to the same time in one call or in many smaller ones gives the same history. is_running() is true only between the start and the end of a simulate_until call, stop_simulation() from another thread always makes a running or already-requested simulate_until return false at a communication point, and the simulation can be resumed from there.",
 ["histories", "schedules"], "all sequences of step/simulate_until/simulate_until_async/stop_simulation calls, target times on and off the step grid, and stop timings",
 "Tests call simulate_until once with a multiple of the step size.",
 [EXE], [("simulate_until loop", EXE), ("stopped_ flag", EXE)],
 ["return values, current_time(), is_running(), slave call logs"],
 [("currentTime_", "logical time", EXE), ("stopped_", "stop request flag", EXE)])

prop("C07", "A failing slave surfaces as an error naming it, never as a hang or crash",
 "If a slave throws from setup, start, a step or any variable access, or reports a failed step, the execution call in progress throws an exception whose message identifies the slave, with any number of worker threads: the process does not terminate, the call does not hang, and the execution is no longer running. A slave that has thrown receives no further calls, no slave is stepped again after a failed step, other slaves are never given a step out of sequence, attempts to continue are refused with an error, and a non-fatal bad-value report from a setter is tolerated without affecting the simulation.",
 ["fault_sequences", "configurations"], "every slave operation at every occurrence as the point of failure, any subset of slaves failing at once, any worker-thread count, called through step() or simulate_until()",
 "No existing test has a slave that fails.",
 [SLV, FSA, EXE], [("exception → error translation and simulator state", SLV), ("collection of step errors", FSA + " do_step")],
 ["exception type/message from execution::step, is_running(), slave call logs, process exit"],
 [("state_ (error)", "slave considered broken", SLV)])

prop("C08", "Only valid connections are accepted, and each input has at most one source",
 "When connecting variables of an execution, a connection is accepted if and only if both endpoints exist, the source is an output (or calculated parameter) and the target an input, of a simulator or a function instance, their types agree and are not enumerations, and the target is not already connected from anywhere. A refused connection raises an error and leaves the execution's behaviour and its observers' view unchanged; an accepted one takes effect.",
 ["inputs", "histories"], "all sequences of connection requests between simulator and function variables, valid and invalid in every combination",
 "Tests only make valid connections.",
 [EXE], [("validate_variable", EXE), ("connections_ bookkeeping", EXE)],
 ["exceptions from execution::connect_variables, observer notifications, transferred values"],
 [("connections_", "established connections", EXE)])

prop("C09", "Algorithm reconfiguration: disconnect and remove affect exactly what they name",
 "After disconnecting an input variable it receives no further values, whichever kind of source (simulator or function) it was connected to, and can be connected again; after removing a simulator it is no longer stepped and nothing is transferred from or to it. All other simulators, functions and connections keep behaving as before, disconnecting an input which is not connected has no effect, and setting the decimation factor of an unknown simulator is an error.",
 ["histories"], "all sequences of add/remove/connect/disconnect/set-decimation operations interleaved with steps on the algorithm interface",
 "No test disconnects or removes anything.",
 [FSA, "include/cosim/algorithm/algorithm.hpp"], [("disconnect_variable", FSA), ("remove_simulator", FSA)],
 ["calls and values recorded by a generated cosim::simulator implementation"])

prop("C10", "Observers see every event once, in order, with correct step data",
 "Every observer is told of every simulator (once, with its index and an observable with the right name and description), of every simulator-to-simulator connection, of the start of the simulation once, and then for each base step of every simulator that completed a step and finally of the step itself, with consecutive step numbers, the step's length and the time at its end. Values read through the observable during a notification are the slave's values at that time, and an observer added late is first brought up to date with all simulators and then receives the same notifications as the others.",
 ["histories", "configurations"], "all systems and orders of adding observers, slaves and connections before and during simulation",
 "Tests use library observers and look at end values only.",
 [EXE, SLV, FSA], [("add_observer replay", EXE), ("notification loop in step()", EXE)],
 ["event log of a generated cosim::observer compared with the model of the run"])

prop("C11", "Last-value queries return the values at the latest communication point",
 "After any prefix of a simulation, the last-value observer returns for every variable of every type and causality, in the order asked, the value the slave had when its own latest step completed (or its initial value before any step), also when the observer was added in the middle of the simulation or the slave is stepped at a multiple of the base step. Queries about unknown simulators or variables raise an error.",
 ["histories", "inputs"], "all systems, prefixes, query lists (incl. duplicates and empty) and times of adding the observer",
 "One test with 4 variables of one slave.",
 ["src/cosim/observer/last_value_observer.cpp", "src/cosim/observer/slave_value_provider.cpp", SLV], [("slave_value_provider::observe", "src/cosim/observer/slave_value_provider.cpp")],
 ["last_value_observer::get_*"])

prop("C12", "Time series hold exactly the observed samples, and range queries agree with them",
 "For an observed real or integer variable, the recorded samples are exactly one (value, step number, time) per completed step of its simulator since observation began, in order, preceded by the initial one when observation began before initialisation, and limited to the most recent buffer-size ones; observing anew after a stop starts over. A query returns, in order, exactly the recorded samples whose step numbers lie from the requested one up to (not including) that plus the output size, with matching values, steps and times, and a query for a variable that is not observed gives an error or nothing. Step-number range queries bracket exactly the recorded steps inside the requested time range, and synchronised series return pairs of values of two variables belonging to the same times.",
 ["histories", "inputs"], "all systems, buffer sizes, start/stop-observing times, query positions, lengths and time ranges",
 "Tests check one slave with contiguous steps and one or two queries.",
 ["src/cosim/observer/time_series_observer.cpp"], [("single_slave_observer", "src/cosim/observer/time_series_observer.cpp"), ("boost::circular_buffer of samples", "src/cosim/observer/time_series_observer.cpp")],
 ["time_series_observer::get_real_samples/get_integer_samples/get_step_numbers/get_synchronized_real_series"])

prop("C13", "Log files contain exactly the configured variables at the recorded steps",
 "For every simulator selected for logging there is a CSV file per recording session whose header names the selected variables (each once; reference, type, causality and variability are in the accompanying metadata file) and whose rows are, for each recorded step of that simulator matching its decimation factor, the time, step number and all selected variables' values at that step, in header order. Simulators not selected have no file, nothing is written while recording is stopped, a resumed recording starts a new file (or, without time stamps in file names, a new section with its own header), the default configuration selects all variables but local ones, and everything recorded is on disk once recording is stopped or the observer is destroyed.",
 ["configurations", "histories"], "all systems, logging configurations, decimation factors, precision settings and start/stop recording histories",
 "Tests only check that files exist.",
 ["src/cosim/observer/file_observer.cpp", "include/cosim/observer/file_observer.hpp"], [("slave_value_writer", "src/cosim/observer/file_observer.cpp")],
 ["CSV files written to a scratch directory, parsed back and compared with the run"])

prop("C14", "An XML logging configuration selects exactly what it says",
 "Parsing a logging configuration file and simulating logs, for each listed simulator, exactly the listed variables (all variables if none are listed) with the given decimation factor (default if absent); simulators not listed are not logged. A configuration which names an unknown variable, has an invalid decimation factor or is malformed (as far as the XML parser checks, which closing-tag names are not) is reported as an error rather than silently ignored or crashing.",
 ["inputs", "configurations"], "all well-formed configuration documents over a system, plus malformed mutations",
 "One fixed XML file is tested, and only for file existence.",
 ["src/cosim/observer/file_observer.cpp"], [("file_observer_config::parse", "src/cosim/observer/file_observer.cpp")],
 ["set and content of the log files produced"])

prop("C15", "Overrides apply to exactly the named variable until reset",
 "While an override is in force, the slave (for inputs and parameters) or everything that reads the variable (for outputs) sees the override value, from the first step after the request until a reset takes effect at the first step after the reset; then the underlying value shows again. All other variables are unaffected, the latest request for a variable wins, requests apply in the order made, and the list of modified variables names exactly the variables with an override or modifier in force.",
 ["histories"], "all sequences of override/reset requests on variables of all types and causalities interleaved with steps and connected sources",
 "Tests override one or two variables once each.",
 ["src/cosim/manipulator/override_manipulator.cpp", SLV, EXE], [("add_action/step_commencing", "src/cosim/manipulator/override_manipulator.cpp"), ("modifiers in get/set_variable_cache", SLV), ("get_modified_variables", EXE)],
 ["values received by slaves, last-value observer, execution::get_modified_variables"],
 [("actions_", "pending actions", "src/cosim/manipulator/override_manipulator.cpp"), ("modifiers_", "active modifiers", SLV)])

prop("C16", "A scenario's events take effect on time, in order, and are undone at the end",
 "Each event of a loaded scenario takes effect at the first step starting at or after its time relative to loading, exactly once, events due in the same step being applied in chronological order (in the order listed when simultaneous), and its modification stays in force until replaced or reset. A scenario ends at the first step after all its events have been executed or, if it has an end time, at the first step starting at or after it (no event being executed there); when it ends, is aborted or is replaced by loading another, every variable it modified is released and no later event of it takes effect, and variables it never touched are not affected.",
 ["inputs", "histories"], "all scenarios (event times, orders, duplicates, end times before/after events, time-dependent modifiers) on any system, loaded/aborted/reloaded at any time",
 "One fixed 4-event scenario with distinct variables is tested.",
 ["src/cosim/manipulator/scenario_manager.cpp", "include/cosim/scenario.hpp"], [("step_commencing, maybe_run_event, cleanup", "src/cosim/manipulator/scenario_manager.cpp")],
 ["values received by slaves, is_scenario_running(), get_modified_variables()"],
 [("remainingEvents/executedEvents", "progress of the scenario", "src/cosim/manipulator/scenario_manager.cpp")])

prop("C17", "A scenario file is parsed to precisely the events it describes",
 "Every well-formed scenario document, in YAML or JSON and with or without defaults, yields exactly the listed events with the right simulator, variable, causality side, time, and modifier (override to the given value, bias added, reset), plus the optional end time; the YAML and JSON forms of the same scenario are equivalent. A document that is malformed, omits a required field or names an unknown model, variable, type or action is rejected with an exception, never a crash.",
 ["inputs"], "all well-formed scenario documents over generated simulators, plus structural mutations and arbitrary bytes",
 "Two fixed files with the same content are tested.",
 ["src/cosim/scenario_parser.cpp"], [("parse_scenario", "src/cosim/scenario_parser.cpp")],
 ["the scenario structure returned; modifiers evaluated on sample inputs"])

prop("C18", "A system structure stays valid under every sequence of edits",
 "An entity is accepted if and only if its name is new and well-formed for it (and function parameters are valid), and a connection if and only if both variables exist, have compatible types and causalities, are not both on function entities, and the target is not already connected; any other edit throws the library's own error with the invalid-system-structure code and changes nothing. Listing entities and connections and looking up entities and variable descriptions returns exactly what has been accepted. Asking whether a connection or a value is valid gives the same answer as the edit itself, with or without asking for the reason, and there is a reason exactly when it is not.",
 ["histories", "inputs"], "all sequences of add_entity/connect_variables/lookups over generated models and function types, valid and invalid",
 "One basic-use test with a handful of cases.",
 ["src/cosim/system_structure.cpp", "include/cosim/system_structure.hpp"], [("add_entity, connect_variables, is_valid_connection", "src/cosim/system_structure.cpp")],
 ["exceptions, entities(), connections(), find_entity(), get_*_description()"],
 [("entities_, connections_", "the structure", "src/cosim/system_structure.cpp"), ("modelCache_, functionCache_", "lookup caches", "src/cosim/system_structure.cpp")])

prop("C19", "Injecting a system structure yields the execution it describes",
 "For every valid system structure and initial-value map, injection creates one simulator or function per entity under its name with its step size hint and parameters, makes every connection of the structure and no other, and sets every initial value, so the simulated behaviour equals that of the same system assembled by hand; the returned maps name every entity's index. Injecting several structures into one execution composes, and an initial value that is invalid for its variable is refused when added to the value map.",
 ["configurations"], "all valid system structures incl. functions, calculated parameters, several injections and step size hints",
 "No unit test injects a generated structure; FMU-based ones cannot run here.",
 [EXE, "src/cosim/system_structure.cpp"], [("inject_system_structure", EXE), ("add_variable_value", "src/cosim/system_structure.cpp")],
 ["call logs and values of generated slaves; returned entity_index_maps"])

prop("C20", "An OSP system structure file loads to precisely the system it describes",
 "For every schema-valid OSP configuration, loading yields exactly the listed simulators (with model, step size and typed initial values), functions (with parameters) and connections (variable, signal, variable group and signal group, including nested groups expanded pairwise), the base step size and the start and end times, with documented defaults where omitted. A document that violates the schema, refers to unknown simulators, variables, groups or functions, or has an invalid time setup is rejected with an exception, never a crash or a silently incomplete system.",
 ["inputs", "configurations"], "all generated configurations incl. nested variable groups and every optional element present or absent, plus invalid mutations",
 "The existing loader tests need FMUs and cannot run here; they cover three fixed files.",
 ["src/cosim/osp_config_parser.cpp", "data/xsd/OspSystemStructure.xsd"], [("osp_config_parser", "src/cosim/osp_config_parser.cpp"), ("load_osp_config", "src/cosim/osp_config_parser.cpp")],
 ["osp_config returned: system_structure entities/connections, initial_values, times"])

prop("C21", "An SSP system description loads to precisely the system it describes",
 "For every SSP 1.0 system structure description which uses the supported elements (with the conventional ssd:, ssc:, ssv: and osp: prefixes), loading yields precisely the listed components (each with the model its source refers to, resolved against the description's own location, and the step size in its OSP annotation), the described connections between listed connectors, with linear transformations realised as function entities having the given factor and offset, the parameter sets given in parameter bindings (inline or in external files, with prefixes) both by name and - the first of each component - as the default set, and the default experiment's start time and fixed-step algorithm with its base step size and number of threads. The same holds for a description in a directory, a file or an .ssp archive, with the default or another name, and nothing is left behind among temporary files. Parameters that don't fit the component (unknown, of another type, not settable) are skipped without affecting others. Documents that are malformed, have values that are invalid or out of range, refer to unknown components or connectors, or use unsupported types, transformations or algorithms are rejected with an exception, never a crash.",
 ["inputs", "configurations"], "all generated SSD/SSV documents over the supported subset, loaded from a directory or an .ssp archive with one or several system definitions",
 "The existing loader tests need FMUs and cannot run here.",
 ["src/cosim/ssp/ssp_loader.cpp", "src/cosim/ssp/ssp_parser.cpp"], [("ssp_parser", "src/cosim/ssp/ssp_parser.cpp"), ("ssp_loader::load", "src/cosim/ssp/ssp_loader.cpp")],
 ["ssp_configuration returned"])

prop("C22", "Model lookup asks sub-resolvers in order, resolving references to the base",
 "A model URI resolver returns the model from the first added sub-resolver that accepts the URI, asking none after it; with a base URI, a reference is resolved against the base per RFC 3986 before being passed on (which leaves absolute ones as they are, but for normalisation, also when the base itself is relative). If no sub-resolver accepts the URI, or the resulting URI is not absolute, an error is raised that names the problem; errors thrown by a sub-resolver are propagated.",
 ["inputs", "configurations"], "all lists of sub-resolvers (accepting, declining, throwing) and URI references",
 "One test with two mock resolvers; it cannot be built here.",
 ["src/cosim/orchestration.cpp", "include/cosim/orchestration.hpp"], [("model_uri_resolver::lookup_model", "src/cosim/orchestration.cpp")],
 ["URIs received by generated sub-resolvers, returned model, exceptions"])

prop("C23", "URIs that RFC 3986 allows are accepted and split into the right components",
 "Every string that RFC 3986 allows as a URI reference is accepted, its scheme, authority, path, query and fragment are exactly those given by the RFC's parsing rule, and the textual form is preserved; any other string is either refused or split into components that recompose to the same text, and one with an empty scheme or other misplaced delimiters is refused. Composing a URI from valid components and parsing it back gives the same components, composing from components which would be misread or contain characters not allowed in them is refused, and copies, moves and comparisons behave as values of the text.",
 ["inputs"], "all strings (grammar-generated, mutated and arbitrary bytes) and all component tuples",
 "uri_unittest lists a few dozen examples.",
 ["src/cosim/uri.cpp", "include/cosim/uri.hpp"], [("uri parser and component constructor", "src/cosim/uri.cpp")],
 ["cosim::uri accessors, exceptions"])

prop("C24", "Reference resolution follows RFC 3986 for every base and reference",
 "For every absolute base URI and URI reference, resolving the reference gives the target defined by RFC 3986 section 5.2 (including merge and dot-segment removal), for each overload; the result is absolute, and resolving an absolute reference is independent of the base. A relative base is refused, and a target that has no valid textual form (no authority, but a path starting with two slashes) may be.",
 ["inputs"], "all base/reference pairs, rich in dot segments, empty segments, and absent/empty components",
 "The unit test lists the RFC's own examples.",
 ["src/cosim/uri.cpp"], [("resolve_reference, remove_dot_segments, merge_paths", "src/cosim/uri.cpp")],
 ["resolve_reference result compared with an independent implementation of RFC 3986 5.2"])

prop("C25", "Percent-encoding and file paths round-trip through URIs",
 "For every byte string and every set of exempted characters, percent-encoding yields only unreserved, exempted and %XX characters and decoding it returns the original; decoding any string replaces exactly its well-formed %XX triplets and treats malformed ones in one defined way (an error or literal) without reading outside the string. For every absolute path, converting to a file URI gives a valid URI without special characters and converting back gives the same path; non-file or remote-authority URIs are refused.",
 ["inputs"], "all byte strings incl. truncated and malformed escapes, all absolute path strings",
 "The unit test has a handful of examples.",
 ["src/cosim/uri.cpp"], [("percent_encode/percent_decode", "src/cosim/uri.cpp"), ("path_to_file_uri/file_uri_to_path", "src/cosim/uri.cpp")],
 ["returned strings/paths, exceptions, ASan"])

prop("C26", "Time conversions keep exact, consistent additive semantics",
 "Converting between floating-point seconds and the library's time points and durations is accurate to the nanosecond tick wherever double precision allows, preserves order, and is mutually consistent: for every start time and duration within range, converting start+duration equals converting the start and adding the converted duration in the relative-time sense, so step boundaries computed either way coincide; converting a time point or duration to seconds preserves order and addition to within double precision, and back again gives the same time to within a tick and double precision.",
 ["inputs"], "all representable times and durations up to the range where a double resolves nanoseconds",
 "time_unittest checks two fixed values.",
 ["include/cosim/time.hpp"], [("to_duration/to_time_point/to_double_*", "include/cosim/time.hpp")],
 ["returned ticks compared with exact integer arithmetic"])

prop("C27", "The temporary file cache grants exclusive write or shared read access",
 "For every history of requests, distinct keys always get distinct existing directories inside the cache's own temporary root, and the same key always gets the same directory with its contents kept. Read-write access is granted only if no other handle for the key is alive and read-only access only if the key exists and no read-write handle is alive (an error otherwise), and when the cache and all its handles are gone its whole root disappears and nothing outside it is touched.",
 ["histories", "inputs"], "all sequences of acquire/release/write on arbitrary key strings",
 "No test covers file caches.",
 ["src/cosim/file_cache.cpp"], [("temporary_file_cache::impl", "src/cosim/file_cache.cpp")],
 ["paths, exceptions and file contents in a scratch directory"])

prop("C28", "The persistent file cache is safe under concurrent use and cleanup",
 "For every interleaving of threads and processes using one cache root, a read-write handle for a key excludes all other handles for it while read-only handles are shared, data written under a key persists across cache objects and processes until cleaned up, and distinct keys never share a directory. A request that has to wait for a key does not keep others from using the rest of the cache. Cleanup removes every directory that nobody holds a handle to and never one that is in use. A process that is killed, even while cleaning up, leaves nothing locked and nothing but its unfinished removals undone.",
 ["schedules", "histories", "inputs"], "all multi-thread and multi-process histories of acquire/release/cleanup on arbitrary keys",
 "No test covers file caches.",
 ["src/cosim/file_cache.cpp", "src/cosim/utility/concurrency.cpp"], [("persistent_file_cache::impl with file_lock per key", "src/cosim/file_cache.cpp")],
 ["paths, file contents, overlap of critical sections observed by the harness"])

prop("C29", "File locks provide shared/exclusive exclusion across threads and processes",
 "At any moment a lock file is held either exclusively by one holder or shared by any number, counting holders in the same thread's, other threads' and other processes' lock objects; try-lock operations never block, succeed only if that rule permits, and do succeed if it permits and nobody is waiting for the file; blocking operations return once it permits, moving a lock object transfers what it holds, and unlocking, destroying or overwriting the holder, or the end of its process however it comes, releases it. (Each thread holds at most one lock per file.)",
 ["schedules", "histories"], "all histories of lock/try_lock/unlock (exclusive and shared) over several lock objects, threads and processes",
 "One test with a fixed sequence on two threads.",
 ["src/cosim/utility/concurrency.cpp", "src/cosim/utility/concurrency.hpp"], [("file_lock", "src/cosim/utility/concurrency.cpp"), ("get_file_mutex", "src/cosim/utility/concurrency.cpp")],
 ["results of try-operations against a lock-state model; overlap detection in critical sections"])

prop("C30", "ZIP extraction reproduces the archive's contents and stays inside its target",
 "For every valid archive, listing, lookup, directory tests and extraction (of all entries or single ones) give exactly the archive's entry names and contents, in a directory tree below the target, with missing parent directories created. An entry name that would land outside the target is refused or kept inside it, nothing outside the target directory is ever written, and a truncated or corrupted archive yields an error, never a crash or silently wrong content.",
 ["inputs", "fault_sequences"], "all archives incl. nested and empty directories, empty/large/binary/stored/deflated files, hostile names, and byte corruptions/truncations",
 "One fixed archive is tested.",
 ["src/cosim/utility/zip.cpp"], [("archive::extract_all/extract_file_to", "src/cosim/utility/zip.cpp")],
 ["files in a scratch directory, exceptions"])

prop("C31", "Temporary directories are unique, owned, and removed exactly once",
 "Every temporary directory object creates a fresh, empty, existing directory below the requested parent (or the system's temporary directory) whose name collides with no other, and removes it with all its contents when its last owner goes away, also after any sequence of moves; nothing else is removed. Generated UUIDs are well-formed and never repeat.",
 ["histories"], "all sequences of creation, population, move construction/assignment and destruction",
 "One test creates and moves one directory.",
 ["src/cosim/utility/filesystem.cpp", "src/cosim/utility/uuid.cpp"], [("temp_dir", "src/cosim/utility/filesystem.cpp"), ("generate_uuid", "src/cosim/utility/uuid.cpp")],
 ["directory listing of a scratch directory after each operation"])

prop("C32", "The thread pool runs every task exactly once and waiting covers all of them",
 "For every number of worker threads (including zero) and every sequence of task submissions and waits, every submitted task is run exactly once, waiting for completion returns only when all tasks submitted before it have finished (and their effects are visible), and does return, also when several threads submit and wait. As many tasks as there are workers can run at the same time. Destroying the pool joins all its threads without losing or crashing on outstanding work.",
 ["schedules", "histories"], "all submit/wait/destroy histories, thread counts and task durations",
 "No test exercises the thread pool directly.",
 ["src/cosim/utility/thread_pool.hpp"], [("submit, wait_for_tasks_to_finish, worker loop", "src/cosim/utility/thread_pool.hpp")],
 ["counters written by tasks, ThreadSanitizer"])

prop("C33", "Real-time mode never runs ahead of the requested pace",
 "With real-time synchronisation enabled and a positive target factor, a step never completes earlier in wall-clock time than the pacing allows: after the first step following a start, resume or change of settings, advancing the logical time by d takes at least d divided by the factor (less scheduling granularity). With it disabled or a non-positive factor no waiting is added, settings changed during the simulation take effect, and the reported real-time factors (total since the last start or change of settings, and rolling over the configured number of steps or sampling period) are positive and consistent with the measured progress.",
 ["configurations", "schedules", "histories"], "all step sizes, factors, monitor settings and toggling/pausing histories",
 "Tests that enable real-time mode check one factor with wide tolerance or cannot run.",
 ["src/cosim/timer.cpp", EXE], [("real_time_timer::sleep", "src/cosim/timer.cpp")],
 ["monotonic clock around execution::step/simulate_until, real_time_metrics"])

prop("C34", "Observing and overriding from other threads is race-free and sees whole states",
 "While a simulation runs in one thread, other threads may concurrently query last-value and time-series observers, toggle file recording, request and reset overrides, change real-time settings and stop the simulation, for any interleaving: no data race, crash or deadlock occurs, every value read is one the variable actually had at some communication point, and successive reads never go back in time.",
 ["schedules"], "all interleavings of a running simulation with query/override/record/stop calls from several threads",
 "Tests are single-threaded in this respect.",
 ["src/cosim/observer/slave_value_provider.cpp", "src/cosim/observer/time_series_observer.cpp", "src/cosim/observer/file_observer.cpp", "src/cosim/manipulator/override_manipulator.cpp", EXE],
 [("per-observer mutexes", "src/cosim/observer/*.cpp"), ("override_manipulator::lock_", "src/cosim/manipulator/override_manipulator.cpp")],
 ["ThreadSanitizer, monotonicity of values read"])

prop("C35", "FMUs are imported, described, instantiated and driven faithfully",
 "For every FMI 1.0 or 2.0 co-simulation FMU, import() and import_unpacked() give an object with the FMU's own description (identification and every real, integer, boolean and string variable with its name, value reference, type, causality, variability and start value, in order; enumerations are left out), and give the same object again as long as it is alive when the path or the GUID is the same. An FMU which is not a readable archive, has no or an unreadable model description, lacks FMI version or GUID, has another FMI version or is no co-simulation FMU is refused with an exception. Code is only ever loaded from a directory which holds the FMU's current contents in full, also when an earlier unpacking into the same persistent cache failed or its process died, when the FMU file has been replaced since, or when others are using the same cached FMU - which must not make import() wait. A slave instance passes setup, initialisation, values, steps and termination on to the model in the order FMI requires with the exact numbers, reports the model's status (success and warnings as success, a discarded value as nonfatal_bad_value, a discarded step as failed, everything else as an error with the model's latest message), and every library object (handles, loaded code, instances, variable lists, contexts) is released exactly once and in order. A model which can be instantiated only once per process is refused a second instance while the first is alive.",
 ["inputs", "histories", "fault_sequences", "crash_points"], "all model descriptions and flaws, sequences of imports through several importers and caches, instances and slave calls with any statuses and messages, orders of destruction, processes dying at any byte of an unpacking",
 "The existing tests use a handful of well-formed FMUs and one importer each (and cannot be built in this environment); statuses other than success, damaged caches and leaks are never exercised.",
 ["src/cosim/fmi/importer.cpp", "src/cosim/fmi/glue.cpp", "src/cosim/fmi/v1/fmu.cpp", "src/cosim/fmi/v2/fmu.cpp", "include/cosim/fmi/importer.hpp"],
 [("import, unpacking, path and GUID caches", "src/cosim/fmi/importer.cpp"), ("conversion of descriptions", "src/cosim/fmi/glue.cpp"), ("fmu, slave_instance, log records", "src/cosim/fmi/v1/fmu.cpp, src/cosim/fmi/v2/fmu.cpp")],
 ["FMI Library calls received by a stand-in for it which also runs made-up models; fmi::importer, fmi::fmu and slave interfaces"],
 [("pathCache_, guidCache_", "FMUs that are alive", "src/cosim/fmi/importer.cpp"), ("simStarted_", "whether the model must be terminated", "src/cosim/fmi/v2/fmu.cpp")])

prop("C36", "Remote slaves through proxyfmu behave like local ones",
 "Looking up a proxyfmu URI, absolute or relative to a base, with an absolute path, a relative path or a file URI in its query, connects to the named host and port (or starts a server of its own for plain localhost) for exactly the FMU file that is meant, whatever characters the paths contain; URIs of other schemes are left to their own resolvers, and malformed ones, unusable ports and missing files are refused without a connection. The model description is the one the server reports, with every variable's name, reference, type, causality, variability and start value. Every slave receives the caller's start and stop times, tolerance, steps and values bit for bit, and returns the server's values; a bad status becomes a model error and a lost connection an error, never a value; and each instance is terminated exactly once if its simulation was started, freed exactly once, and can always be dropped without an exception.",
 ["inputs", "histories", "fault_sequences"], "all URIs and bases over all file names; all reported descriptions; all call histories of several slaves with bad statuses and lost connections at any call",
 "The repository's proxy tests need the proxyfmu client and server, which are optional and absent, so none of this is built or tested here; the property runs the code against a stand-in for the client.",
 ["src/cosim/proxy/proxy_uri_sub_resolver.cpp", "src/cosim/proxy/remote_slave.cpp", "src/cosim/proxy/remote_fmu.cpp"],
 [("proxy_uri_sub_resolver::lookup_model", "src/cosim/proxy/proxy_uri_sub_resolver.cpp"), ("remote_slave", "src/cosim/proxy/remote_slave.cpp"), ("remote_fmu", "src/cosim/proxy/remote_fmu.cpp")],
 ["connections made", "model_description", "calls, times and values that reach the server", "exceptions"])

prop("C37", "Any co-simulation algorithm is driven by the documented protocol",
 "Whatever algorithm an execution is given, it is kept alive for as long as the execution, set up once with the start time before anything else, told of every simulator (with its name, description and step size hint), every function and every accepted connection exactly once, in order and under the index returned to the caller, and of no refused one. It is initialised exactly once before the first step, every do_step() call gets the current time, and logical time advances by exactly what it returns. Manipulators are told of each step before it is taken, and observers afterwards, of exactly the simulators the algorithm reports as finished, with the step's number, length and end. simulate_until() takes steps, of whatever lengths, until the target is reached or nearer than a hundredth of the last step, and no more. An exception from the algorithm or a manipulator reaches the caller, with the time unchanged, and after a failure of the algorithm every attempt to continue is refused without calling it.",
 ["inputs", "histories", "fault_sequences"], "all histories of additions, connections, steps, runs, stops, moves and failures over all step sizes and sets of finished simulators",
 "The algorithm interface is public and meant for users' own algorithms, but only the fixed-step algorithm exists in the tests: varying step lengths, arbitrary sets of finished simulators, refusals and failures by an algorithm are never exercised.",
 ["include/cosim/algorithm/algorithm.hpp", "src/cosim/execution.cpp"],
 [("execution::impl::step", "src/cosim/execution.cpp"), ("execution::impl::add_slave", "src/cosim/execution.cpp"), ("algorithm", "include/cosim/algorithm/algorithm.hpp")],
 ["calls to the algorithm, observers and manipulators", "current_time()", "results and exceptions"])

prop("C38", "The simulator object given to algorithms and manipulators honours its interface",
 "Values set through a simulator reach its slave with the next iteration, start of simulation or step, before that call, each variable once with the latest value, and nothing else is ever set. Values of exposed variables are the slave's as of the last such call (or of the exposure, if later), however often they are exposed and read. An input modifier is applied once per call to the latest value set (or the start value), with the step length, or zero outside steps, without accumulating, and its removal restores the unmodified value; an output modifier is applied once per call to what is read and never to what the slave has. The sets of modified variables are exactly those with some modifier. Using a variable which is unknown or was not exposed raises an error and changes nothing, a non-fatal complaint about a value changes nothing, the slave's step result is passed on, and an exception from the slave reaches the caller.",
 ["inputs", "histories", "fault_sequences"], "all histories of exposures, sets, gets, modifiers and life cycle calls, over all variables of all types",
 "Every algorithm, manipulator and observer depends on this object, and its caches are only seen through complete simulations in the tests, with few orders of exposing, setting and modifying.",
 ["include/cosim/algorithm/simulator.hpp", "include/cosim/manipulator/manipulator.hpp", "src/cosim/slave_simulator.cpp"],
 [("slave_simulator", "src/cosim/slave_simulator.cpp"), ("set_variable_cache", "src/cosim/slave_simulator.cpp"), ("get_variable_cache", "src/cosim/slave_simulator.cpp"), ("simulator", "include/cosim/algorithm/simulator.hpp")],
 ["calls and values that reach the slave", "values read", "get_modified_*_variables()", "exceptions"])

prop("C39", "Malformed input is refused with an exception, and never worse",
 "For every byte string given as a URI, OspSystemStructure XML, SystemStructure Description (with parameter value sets), scenario (YAML or JSON), logging configuration or ZIP archive, however malformed, the library either accepts it or throws an exception derived from std::exception: it never reads or writes outside its memory, dies or runs forever, and never writes a file outside the directory an archive is unpacked to. What it accepts is consistent: every connection and initial value of a system structure refers to an entity and variables that exist, with matching types and causalities; what an accepted URI is parsed into recomposes to the same URI; an accepted system can be put into an execution, initialised and stepped, an accepted scenario loaded and run, with nothing but exceptions as errors; and a file extracted from an accepted archive is where extraction says it is.",
 ["inputs"], "all byte strings, with structured mutations of valid documents driven by code coverage",
 "Tests use a few valid documents and a handful of hand-written invalid ones; the parsers face files written by users and other tools.",
 ["src/cosim/uri.cpp", "src/cosim/osp_config_parser.cpp", "src/cosim/ssp/ssp_parser.cpp", "src/cosim/ssp/ssp_loader.cpp", "src/cosim/scenario_parser.cpp", "src/cosim/observer/file_observer.cpp", "src/cosim/utility/zip.cpp"],
 [("uri", "src/cosim/uri.cpp"), ("load_osp_config", "src/cosim/osp_config_parser.cpp"), ("SSP parser", "src/cosim/ssp/ssp_parser.cpp"), ("parse_scenario", "src/cosim/scenario_parser.cpp"), ("archive", "src/cosim/utility/zip.cpp")],
 ["exceptions", "AddressSanitizer, UndefinedBehaviorSanitizer and libFuzzer reports", "the loaded configurations"])

prop("C40", "What happens in one part of a simulation depends on that part alone",
 "For any two groups of slaves and functions in one execution, where connections lead at most from the first to the second, every slave of the first group gets exactly the values, communication points and step sizes which it gets when the group is alone. This is so whatever the order in which slaves, functions, connections and initial values are added, whatever the entities are called, however many worker threads there are and however the steps are requested; whichever observers are added, when, and what they are asked; whatever is overridden, reset or disconnected in the second group; and whatever other executions run in the same process, in the same or another thread. Without such disturbance, the second group does not depend on them either. When the execution, algorithm and observers are gone, in whichever order, nothing refers to the slaves and functions any more.",
 ["inputs", "histories", "configurations", "schedules"], "all pairs of systems, orders of construction, observers, disturbances and other executions",
 "Tests run one small system at a time, built in one order, with one kind of observer.",
 ["src/cosim/execution.cpp", "src/cosim/algorithm/fixed_step_algorithm.cpp", "src/cosim/slave_simulator.cpp", "src/cosim/observer", "src/cosim/manipulator/override_manipulator.cpp"],
 [("execution::impl", "src/cosim/execution.cpp"), ("fixed_step_algorithm::impl", "src/cosim/algorithm/fixed_step_algorithm.cpp"), ("slave_value_provider", "src/cosim/observer/slave_value_provider.cpp")],
 ["calls recorded by the slaves", "lifetimes of slaves and functions"])

prop("C41", "Errors carry the documented code and text, and log records pass at their level",
 "Every error code made from the library's conditions equals its own condition and no other one, nor an equal number of another category, and has a text of its own; an exception's code is the one it was made with and its text contains both the standard message and the given one. Operations fail with the code documented for them: invalid edits of a system structure and invalid initial values in it with invalid_system_structure, late initial values with unsupported_feature, failing slaves with simulation_error, bad archives and entries with zip_error, and the text names the offending entity or variable. Exactly the log records at or above the latest global output level reach the sinks, once each, in order per thread, whole, with their severity (info if none is given), from any number of threads; and the simple console log shows each on a line of its own with time, severity and message.",
 ["inputs", "histories", "schedules"], "all pairs of errors, messages and operations; all sequences of levels and records from several threads",
 "Tests only check that something is thrown, and never look at the log.",
 ["include/cosim/exception.hpp", "src/cosim/exception.cpp", "include/cosim/log", "src/cosim/log/logger.cpp", "src/cosim/system_structure.cpp", "src/cosim/execution.cpp", "src/cosim/utility/zip.cpp"],
 [("error_category, make_error_code, make_error_condition", "src/cosim/exception.cpp"), ("error", "include/cosim/exception.hpp"), ("set_global_output_level, setup_simple_console_logging", "include/cosim/log/simple.hpp")],
 ["exceptions", "log sinks and std::clog"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
