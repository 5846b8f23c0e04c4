#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = state
    P.append(d)

FSA = "src/cosim/algorithm/fixed_step_algorithm.cpp"
EXE = "src/cosim/execution.cpp"
SIM = "src/cosim/slave_simulator.cpp"
TP = "src/cosim/utility/thread_pool.hpp"

p("C01", "A failing simulator always fails the call that drove it",
  "Whenever a simulator throws, or reports that a step was not completed, during setup, an initialisation iteration, simulation start or a co-simulation step, the call that triggered that phase throws to its caller. The failure is neither dropped nor able to escape a worker thread and bring the process down, and no later phase, value transfer, time advance or observer notification happens for that step.",
  ["fault_sequences", "schedules"], "every simulator, every phase, every subset of simulators failing, any thread-pool size including zero",
  "Tests use mock slaves that fail in do_step only, if at all, and only with the default pool size; failures in setup/iteration/start and the position of the failing simulator among others are never varied.",
  [FSA, EXE], [("fixed_step_algorithm::impl::initialize/do_step task bodies", FSA), ("execution::impl::step", EXE)])
p("C02", "Phase barrier: parallel work ends before dependent work begins",
  "Work handed to the worker threads for one phase (set-up, iteration, start, step) has completely finished before results of that phase are transferred, functions are calculated, another phase begins, or the algorithm call returns or throws.",
  ["schedules"], "every interleaving of the worker threads, any number of simulators and threads, normal and exceptional exits",
  "A missing or misplaced wait is a race: with the fast mock slaves of the tests the tasks practically always finish in time.",
  [FSA], [("wait_for_tasks_to_finish between submit and calculate_and_transfer", FSA)])
p("C03", "Concurrent simulator tasks share no unguarded mutable state",
  "A task run on a worker thread touches only the simulator it was created for and read-only data; everything else that several tasks can modify, or that the submitting thread modifies while they run, is accessed under one common mutex. Hence results do not depend on the number of worker threads.",
  ["schedules"], "every pair of tasks of the same phase and the submitting thread, for every interleaving",
  "Data races are invisible to functional tests; only a handful of schedules is ever exercised.",
  [FSA], [("lambdas passed to thread_pool::submit", FSA)])
p("C04", "The thread pool runs every task once, wakes its waiters and joins",
  "Every submitted task is executed exactly once (in the submitting thread when there are no workers), waiting for completion returns only when the queue is empty and no task is executing, no wake-up can be lost, and destruction drains the queue and joins every thread. All shared pool state is accessed under the pool's mutex, which is never held while a task runs.",
  ["schedules", "histories"], "every interleaving of submit, wait, worker loop and destruction",
  "Lost wake-ups and unguarded counters need particular interleavings; there is no direct test of the pool.",
  [TP], [("worker_thread / submit / wait_for_tasks_to_finish / ~thread_pool", TP)])
p("C05", "Simulation lifecycle: initialise once, manipulate, step, advance, observe",
  "In every co-simulation step the simulation is initialised exactly once before the first step, all manipulators are invoked before the algorithm steps, logical time and step count advance by exactly the step taken, and only afterwards are observers told, first about each simulator that finished and then about the step, with the new time. Observers and manipulators added at any time are told about every simulator already present, and those present are told about every simulator added later; initial values are accepted only before initialisation.",
  ["histories"], "every sequence of add/step/simulate/set-initial-value calls",
  "Tests add everything up front and then run; ordering is only observed through final values.",
  [EXE], [("execution::impl::step, add_slave, add_observer, add_manipulator, set_*_initial_value", EXE)])
p("C06", "Running flag, stop request and return value of simulate_until agree",
  "A simulation reports itself as running exactly while a simulate call is in progress, also when that call ends by an exception; a stop request makes the simulation return after the step in progress and report that it was stopped; otherwise it runs until the requested end time and reports completion. The flag shared between threads is atomic.",
  ["schedules", "histories", "fault_sequences"], "every point at which stop is requested or a step fails",
  "Stop requests and failures at arbitrary points are not exercised; tests stop once from a sleeping thread.",
  [EXE], [("simulate_until / stop_simulation / is_running", EXE)])
p("C07", "Simulators are driven through a legal call sequence, or end in error",
  "A simulator can be set up only when newly created, iterated and started only during initialisation and stepped only while simulating; each successful operation leaves it in the documented next state and any exception leaves it permanently in the error state.",
  ["histories", "fault_sequences"], "every sequence of operations on a simulator and every operation throwing",
  "Tests drive the legal order only, with slaves that do not throw in the middle.",
  [SIM], [("slave_simulator public operations, state_guard", SIM)])
p("C08", "Variable values flow set -> transmit -> step -> read, through modifiers",
  "At every iteration, start and step, all values set since the last transmission are sent to the slave before it acts, and all exposed outputs of all types are read back afterwards. Input modifiers are applied to the values sent and output modifiers to the values read, exactly once per transmission with that step's length; pending values are cleared only after they were transmitted.",
  ["histories", "inputs"], "every history of set, modify and step calls and every variable type",
  "Tests cover a few variables over a few steps, mostly of type real.",
  [SIM], [("slave_simulator::impl::set_variables/get_variables, get_variable_cache, set_variable_cache", SIM)])
p("C09", "Access to variables that were not exposed is rejected without effect",
  "Reading, writing or attaching a modifier to a variable that has not been exposed for that purpose throws an out-of-range error and changes nothing; exposing the same variable again keeps its current value and modifier.",
  ["inputs", "histories"], "every value reference and every order of expose and access",
  "Tests only access exposed variables.",
  [SIM], [("get_variable_cache / set_variable_cache lookups", SIM)])
p("C10", "A variable is always handled by its own type's access path",
  "Wherever the library selects an operation from a variable's type, real, integer, boolean and string variables are served by the real, integer, boolean and string operation respectively, on the same simulator and reference, and no type falls through to another's.",
  ["inputs", "programs"], "every type dispatch and every typed forwarding function in the library",
  "Most tests use real variables only, so a crossed integer/boolean/string path goes unnoticed.",
  [FSA, SIM, EXE, "src/cosim/slave.hpp", "include/cosim/slave.hpp", "src/cosim/observer", "src/cosim/manipulator", "src/cosim/function"],
  [("switches over variable_type, get_/set_<type> families, visitors over scalar values", "src/cosim")])
p("C11", "A system structure only ever contains valid entities and connections",
  "Adding an entity with an invalid or already used name, or a connection that refers to unknown entities or variables, has a wrong causality, mismatched types or an already connected input, is refused with an invalid-system-structure error and leaves the structure unchanged. Everything accepted is afterwards reported by the lookups.",
  ["inputs", "histories"], "every sequence of add_entity and connect_variables calls with arbitrary arguments",
  "A few invalid cases are tested, one at a time, and not the state afterwards.",
  ["src/cosim/system_structure.cpp"], [("system_structure::add_entity / connect_variables / is_valid_connection", "src/cosim/system_structure.cpp")])
p("C12", "An input variable never has more than one source in a running simulation",
  "A connection is established only between an existing output and an existing input of the declared causality, and a second connection to an already connected input is refused before anything changes; disconnecting removes exactly that input's connection, and removing a simulator removes every connection that targets it.",
  ["histories"], "every history of connect, disconnect and remove calls across simulators and functions",
  "Tests connect once and never reconnect or remove.",
  [EXE, FSA], [("execution::impl::connect_variables_impl, validate_variable", EXE), ("fixed_step_algorithm connection tables", FSA)])
p("C13", "Identity types: equal keys hash equally and all parts take part",
  "For every identifier type used as a map key, two values compare equal exactly when all of their identifying parts are equal, inequality is its negation, and the hash depends only on parts that take part in equality.",
  ["inputs"], "all pairs of identifiers",
  "A key comparison that ignores a part only shows when two identifiers differ in that part alone.",
  ["include/cosim/execution.hpp", "include/cosim/system_structure.hpp", "include/cosim/model_description.hpp", "include/cosim/function/function.hpp"],
  [("operator==, operator!=, std::hash specialisations", "include/cosim")])
p("C14", "Observer and manipulator state shared between threads is lock protected",
  "Data that a simulation thread updates in observers and manipulators and that API calls read or change from other threads is only ever touched while holding the lock that protects that data, and no lock is released early or taken twice.",
  ["schedules"], "every pair of a simulation callback and an API call",
  "Tests call observers from the simulating thread after the run.",
  ["src/cosim/observer/time_series_observer.cpp", "src/cosim/observer/slave_value_provider.cpp", "src/cosim/observer/last_value_observer.cpp", "src/cosim/manipulator/override_manipulator.cpp", "src/cosim/utility/concurrency.cpp"],
  [("per-object mutexes: single_slave_observer::lock_, slave_value_provider::lock_, override_manipulator::lock_", "src/cosim")])
p("C15", "Time series: bounded buffers, samples paired with their step and time",
  "A time series observer stores, for each observed variable, one sample per completed step together with that step's number and time, keeps at most the configured number of most recent samples, and returns samples in step order with the k-th value, step and time belonging to the same step and never more elements than requested. The steps it gives for a duration, or for two points in time, run from the last sample not after the beginning (or the first one kept) to the first not before the end (or the last one), and synchronised series pair the values of the same step.",
  ["histories", "inputs"], "every observation history, buffer size and query range",
  "Tests use short runs with one or two buffer sizes.",
  ["src/cosim/observer/time_series_observer.cpp"], [("single_slave_observer::observe, get_samples, get_step_numbers, get_synchronized_series", "src/cosim/observer/time_series_observer.cpp")])
p("C16", "File observer rows match their header, column by column",
  "In every result file the header names time, step count and each logged variable once, and every data row holds the time, the step count and one value per variable in the same order and with the same separators as the header.",
  ["inputs", "configurations"], "every selection of logged variables of all types and every number of rows",
  "Tests only check that files exist or how many there are.",
  ["src/cosim/observer/file_observer.cpp"], [("slave_value_writer::initialize / persist / write_real|int|bool|string", "src/cosim/observer/file_observer.cpp")])
p("C17", "File observer records every due step while recording, and reports open errors",
  "While recording, every step that the variable's decimation selects is written, also across buffering, re-opening, stop and shut-down; while not recording nothing is; a result or metadata file that cannot be opened is reported as an error and never silently skipped.",
  ["histories", "fault_sequences"], "every sequence of start, stop and steps and every failing open",
  "Failures to open and stop/start sequences around the buffer limit are not tested.",
  ["src/cosim/observer/file_observer.cpp"], [("file_observer::start_recording/stop_recording, slave_value_writer::observe/persist/create_log_file", "src/cosim/observer/file_observer.cpp")])
p("C18", "File cache: exclusive write access, shared read access, for as long as held",
  "At any time a cached directory is held either by at most one writer or by any number of readers, a request that would break this fails, and access lasts exactly as long as the returned handle lives, independent of the lifetime of other handles. Bookkeeping shared by threads is only touched under the cache's lock, and nothing in use is ever deleted.",
  ["histories", "schedules"], "every interleaving of obtaining and releasing handles, in one process or several",
  "Tests check two handles in one order.",
  ["src/cosim/file_cache.cpp"], [("temporary_file_cache / persistent_file_cache get_directory_rw/ro, cleanup", "src/cosim/file_cache.cpp")])
p("C19", "File locks are acquired and released in a consistent order and never leak",
  "A file lock excludes other threads as well as other processes: the in-process lock is always taken before and released after the on-disk lock, a failed or throwing acquisition leaves neither held, and both are released exactly once on every exit.",
  ["schedules", "fault_sequences"], "every success or failure of either lock operation",
  "The failure branches of either lock cannot be provoked from the unit tests.",
  ["src/cosim/utility/concurrency.cpp"], [("file_lock::lock / try_lock / unlock (and shared variants)", "src/cosim/utility/concurrency.cpp")])
p("C20", "Archive extraction never writes outside the target directory",
  "Extracting an archive creates files and directories only below the directory given by the caller, whatever the names of the archive's entries are; an archive with an entry that would end up elsewhere is refused before that entry is written.",
  ["inputs"], "all archive contents",
  "Tests extract one well-formed archive.",
  ["src/cosim/utility/zip.cpp"], [("archive::extract_all / extract_file_to", "src/cosim/utility/zip.cpp")])
p("C21", "Archive I/O errors are reported and resources released",
  "Every failing open, read or write while accessing an archive is reported as an exception rather than yielding truncated content, operations on a closed archive or invalid entry are refused, and archive and entry handles are closed on every path.",
  ["fault_sequences", "inputs"], "every failing library call or stream operation",
  "No test makes the zip library or the file system fail.",
  ["src/cosim/utility/zip.cpp"], [("archive, extract_file_as", "src/cosim/utility/zip.cpp")])
p("C22", "A URI object is only ever built from components valid for their position",
  "Construction and modification of a URI check each component that is present - scheme, authority, path, query, fragment - against the character rules for that component and the structural rules for path and authority, and throw otherwise; accessors return exactly the component that was given.",
  ["inputs"], "all component combinations",
  "Tests cover a list of well-known examples.",
  ["src/cosim/uri.cpp"], [("uri constructors, parse_* helpers", "src/cosim/uri.cpp")])
p("C23", "URI processing never reads outside its input and resolves per RFC 3986",
  "Decoding, normalising and resolving URIs never access characters outside the given text whatever it contains, malformed percent-encodings are rejected, and reference resolution takes each component from the reference or the base exactly as RFC 3986 section 5.2.2 prescribes.",
  ["inputs"], "all strings",
  "Tests use the RFC's examples.",
  ["src/cosim/uri.cpp"], [("percent_decode, remove_dot_segments, resolve_reference", "src/cosim/uri.cpp")])
p("C24", "Temporary directories are removed exactly once, by their last owner",
  "A temporary directory object owns a freshly created directory that it deletes with its contents on destruction; moving transfers that responsibility, a moved-from object deletes nothing, and assigning over an owner first removes what it owned.",
  ["histories"], "every sequence of construct, move, assign and destroy",
  "Tests check construction, move and destruction once.",
  ["src/cosim/utility/filesystem.cpp"], [("temp_dir special members", "src/cosim/utility/filesystem.cpp")])
p("C25", "Configuration readers reject incomplete input instead of misbehaving",
  "Whatever is missing from or misspelt in a scenario, system structure or model description file, the reader reports an error; it never dereferences something that was not found.",
  ["inputs"], "all configuration files",
  "Tests load valid files.",
  ["src/cosim/scenario_parser.cpp", "src/cosim/osp_config_parser.cpp", "src/cosim/ssp/ssp_parser.cpp", "src/cosim/orchestration.cpp"],
  [("uses of lookup results (optional, pointer, iterator) in the parsers", "src/cosim")])
p("C26", "Scenario events fire once, when due, and are undone at the end",
  "Each scenario event is executed exactly once, in the first step that begins at or after its time since the scenario started; when the scenario ends, by its end time, by its last event or by being aborted, all modifiers it installed are removed again and the scenario is no longer reported as running.",
  ["histories"], "every scenario, every step sequence and every abort point",
  "Tests run one scenario to completion.",
  ["src/cosim/manipulator/scenario_manager.cpp"], [("scenario_manager::impl::step, execute_action, cleanup, abort_scenario", "src/cosim/manipulator/scenario_manager.cpp")])
p("C27", "Manual overrides are applied at the next step, once, in order",
  "Every override or reset requested through the override manipulator reaches the named simulator variable at the next step, each exactly once and in the order requested, with the variable exposed before its modifier is installed; a reset removes the modifier.",
  ["histories", "schedules"], "every sequence of override and reset calls from any thread",
  "Tests override one variable at a time between steps.",
  ["src/cosim/manipulator/override_manipulator.cpp"], [("override_manipulator::step_commencing, add_action", "src/cosim/manipulator/override_manipulator.cpp")])
p("C28", "Every FMU call's status is checked and failures become exceptions",
  "The status returned by each FMI function that can fail is examined; only ok and warning count as success, a discarded step is reported as failed and a discarded value as a bad value, and everything else becomes an exception before any result is used or any lifecycle state advances. References and values pass between the caller and the FMI function of the same type in order, number and value.",
  ["fault_sequences"], "every FMI call and every status value",
  "FMUs that fail are not available to the tests; the FMI part is not even built here.",
  ["src/cosim/fmi/v1/fmu.cpp", "src/cosim/fmi/v2/fmu.cpp"], [("slave_instance member functions", "src/cosim/fmi")])
p("C29", "FMU instances obey the FMI lifecycle and release everything they acquired",
  "An FMU instance is terminated only if it was started and at most once, its library is unloaded only after the instance was freed and its description freed last, and a constructor that fails releases everything acquired up to that point.",
  ["fault_sequences", "histories"], "every failure point in construction and every call history",
  "Needs failing FMUs; the FMI part is not built here.",
  ["src/cosim/fmi/v1/fmu.cpp", "src/cosim/fmi/v2/fmu.cpp"], [("slave_instance constructor, end_simulation, destructor", "src/cosim/fmi")])
p("C30", "Enumeration mappings are total and name-preserving",
  "Every error code has a message of its own, every variable type, causality and variability has its own text, and mappings between FMI, OSP, SSP or proxy names and the library's enumerators cover every enumerator and map each to its namesake.",
  ["inputs"], "all enumerators",
  "Tests touch a few enumerators.",
  ["src/cosim/error.cpp", "include/cosim/model_description.hpp", "src/cosim/fmi/glue.cpp", "src/cosim/osp_config_parser.cpp", "src/cosim/ssp/ssp_parser.cpp", "src/cosim/proxy/remote_fmu.cpp", "src/cosim/scenario_parser.cpp"],
  [("switches and if-chains that map enumerations", "src/cosim")])
p("C31", "Loading an OSP configuration carries over everything it declares",
  "Every simulator, function, initial value and connection declared in an OSP system structure file ends up in the loaded configuration with the declared name, step size, value, type and end points, and times and step size are those declared; anything that cannot be resolved is an error.",
  ["inputs", "configurations"], "all configuration files",
  "Needs FMUs to run; these tests are not built here, and otherwise sample a few files.",
  ["src/cosim/osp_config_parser.cpp"], [("osp_config_parser constructor, load_osp_config, connect_* helpers", "src/cosim/osp_config_parser.cpp")])
p("C32", "Loading an SSP configuration carries over everything it declares",
  "Every component, parameter set of a component (inline or in a file), connection (with its linear transformation) and the experiment's start time and algorithm declared in an SSP end up in the loaded configuration with the declared names, values and end points; unknown components or connectors, duplicate components, missing or malformed attributes and missing files are errors.",
  ["inputs", "configurations"], "all SSP archives",
  "Needs FMUs to run; these tests are not built here.",
  ["src/cosim/ssp/ssp_loader.cpp", "src/cosim/ssp/ssp_parser.cpp"], [("ssp_loader::load, ssp_parser constructor", "src/cosim/ssp")])
p("C33", "Injecting a system structure adds every entity, connection and initial value",
  "When a system structure is injected into an execution, each of its simulators, functions, connections and given initial values is added exactly once with its own name, step size, type and end points, entities before the connections that use them, and the returned index maps name each of them.",
  ["configurations", "inputs"], "all system structures",
  "One small structure is injected in the tests.",
  [EXE], [("inject_system_structure and its helpers", EXE)])
p("C34", "Real-time pacing only delays; it never changes simulated time",
  "Running simulations consult the real-time timer after every step. It sleeps only while real-time simulation is enabled with a positive factor, and then until the clock has advanced by the simulated time since its reference divided by the factor; it restarts its reference when started and when settings change, even if another thread changes them meanwhile. It never influences logical time or step sizes, reports the ratio of simulated to real time, and exchanges its settings and metrics between threads only through atomics.",
  ["schedules", "histories"], "every sequence of setting changes from other threads",
  "Timing behaviour is not tested deterministically.",
  ["src/cosim/timer.cpp", EXE], [("real_time_timer::impl::start/sleep/update_real_time_factor", "src/cosim/timer.cpp")])
p("C35", "Borrowed text is copied before it can dangle",
  "String values obtained as views from a simulator or passed in as views are copied before they are kept beyond the call that produced them, and no function returns a view of or reference to something that dies with the call.",
  ["histories", "programs"], "every use of a borrowed string value",
  "Dangling views usually still read the old characters in a test.",
  ["src/cosim/observer", "src/cosim/slave_simulator.cpp", "src/cosim/function", "src/cosim/uri.cpp"], [("fields and return values of view type", "src/cosim")])
p("C36", "Function blocks validate every reference and compute the declared result",
  "Instantiating a function block with mistyped or out-of-range parameters is refused, and a parameter that is not given has the default its description declares; an instance describes exactly the inputs and outputs that its accessors accept; reading or writing an input or output that the block does not have, or of a wrong type, throws and changes nothing; calculation derives every output from all current inputs and the parameters, and nothing else.",
  ["inputs"], "all parameters, references and input values",
  "Tests check one configuration per block.",
  ["src/cosim/function/linear_transformation.cpp", "src/cosim/function/vector_sum.cpp", "src/cosim/function/utility.cpp"], [("instantiate, get_/set_ accessors, calculate", "src/cosim/function")])
p("C37", "Remote simulator failures surface as exceptions",
  "Every operation on a remote (proxy) simulator checks the reported success, throws on failure before using any result, passes each variable's own reference and value in order, ends and frees the remote instance once, and describes the remote model's variables with their own names, references and start values.",
  ["fault_sequences"], "every remote call failing",
  "Needs the proxy server; not built here.",
  ["src/cosim/proxy/remote_slave.cpp", "src/cosim/proxy/remote_fmu.cpp"], [("remote_slave member functions", "src/cosim/proxy")])
p("C38", "Decimated simulators step and exchange values only at their own rate",
  "A simulator with decimation factor n is stepped at every n-th base step with n times the base step size and is reported finished and has its outputs transferred exactly at the end of such a step; values travel between two ends only at steps that are multiples of both factors; the factor is always at least one.",
  ["configurations", "histories"], "all combinations of factors and numbers of steps",
  "Tests use two or three factors.",
  [FSA], [("decimationFactor guards in do_step, calculate_and_transfer, transfer_variables", FSA)])
p("C39", "The list of modified variables is exact, and initial values go where they belong",
  "execution::get_modified_variables returns each variable whose modifier is currently installed exactly once, with its own simulator, type and reference, and none whose modifier has been removed or was refused. Initial values are accepted only before the simulation is initialised and go to exactly the variable named.",
  ["histories"], "every history of installing and removing modifiers, every simulator and type",
  "Tests install one or two modifiers in one simulator.",
  ["src/cosim/slave_simulator.cpp", "src/cosim/execution.cpp"], [("slave_simulator::impl::set_*_modifier, set_modified_reference", "src/cosim/slave_simulator.cpp"), ("execution::impl::get_modified_variables, set_*_initial_value", "src/cosim/execution.cpp")])
p("C43", "Connected inputs follow their sources",
  "Once an output and an input are connected, both are exposed on their own simulators before they are accessed. Initialisation passes initial values along every chain of connections before the simulators are started, and the values after the start to every input. At the end of each step in which a connection is due, its input - on its own simulator or function, with its own type and reference - has received exactly the value its source has then, functions being calculated between their inputs and outputs. Inputs that are not, or no longer, connected and removed simulators are never touched.",
  ["histories", "configurations"], "all connection graphs, step factors and histories of connecting, disconnecting, removing and stepping",
  "Tests run a few small systems with fixed connections.",
  [FSA], [("connect_variables, disconnect_variable, initialize, calculate_and_transfer, transfer_variable", FSA)])
p("C44", "A last-value observer gives the values of the last completed step",
  "For every variable of every simulator it has been told of, and in the order asked for, a last-value observer reports exactly the value which that variable had when its simulator last completed a step (or at initialisation), of the right simulator, type and reference, whatever steps have begun since; every variable is exposed for reading before it is read, and a simulator that is removed or replaced leaves nothing behind.",
  ["histories", "inputs"], "all histories of adding, removing and stepping simulators, and all queries",
  "Tests read a few variables of one or two simulators.",
  ["src/cosim/observer/last_value_observer.cpp", "src/cosim/observer/slave_value_provider.cpp"], [("last_value_observer and slave_value_provider::observe, get_*", "src/cosim/observer/slave_value_provider.cpp")])
p("C40", "Numerical accuracy of time conversions and real-time factors",
  "Conversions between seconds as floating point and internal time are exact to within the resolution of the internal clock, and the reported real-time factors equal the ratio of simulated to wall-clock time over the monitored steps.",
  ["inputs"], "all durations and step histories",
  "Floating-point rounding over all inputs cannot be sampled.",
  ["include/cosim/time.hpp", "src/cosim/timer.cpp"], [("to_duration, to_double_duration, update_real_time_factor", "include/cosim/time.hpp")])
p("C41", "Percent-encoding and URI parsing round-trip",
  "Decoding an encoded string yields the original string, and converting a parsed URI back to text yields the text it was parsed from.",
  ["inputs"], "all strings",
  "Only sampled strings are tested.",
  ["src/cosim/uri.cpp"], [("percent_encode / percent_decode / uri::view", "src/cosim/uri.cpp")])
p("C42", "Random identifiers never collide",
  "Identifiers generated for temporary directories, SSP-internal functions and UUIDs are distinct from each other and from names already in use.",
  ["histories"], "all runs",
  "Collision is a statement about random values.",
  ["src/cosim/utility/uuid.cpp", "src/cosim/ssp/ssp_loader.cpp"], [("random_uuid, std::random_device in ssp_loader::load", "src/cosim")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
