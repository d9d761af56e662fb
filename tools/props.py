"""Single source of properties.jsonl and MANIFEST.json (run tools/mkmanifest.py after editing)."""
HI = "hardware_interface/include/hardware_interface/"
HS = "hardware_interface/src/"
CM = "controller_manager/src/controller_manager.cpp"
RM = HS + "resource_manager.cpp"
P = []


def p(id, title, statement, over, qtext, why, files, mech, tech="", note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  tech=tech, note=note, na=na))


INP = ["inputs"]
GEN_NOTE = (" Trusted: clang's type-checked AST (ROS headers replaced by stubs with the same signatures), the engine's models of the "
            "standard library; loops are analysed for up to two symbolic iterations, calls leaving the repository are uninterpreted.")

p("P01", "Interface data types: names, casts and initial values agree",
  "For every supported interface data type, its textual name denotes that type and no other, it is declared castable to double exactly when the cast to double succeeds, and the cast yields the stored value of that very type. Unknown names denote the unknown type, which is neither castable nor accepted for an interface. An interface's initial value is parsed by the parser of the declared type and stored as that type.",
  ["inputs", "configurations"], "all data types, all type names, all initial-value strings",
  "unit tests sample a few types; a swapped alternative in one arm of the parallel tables only shows for that type",
  [HI + "hardware_info.hpp", HI + "handle.hpp"],
  [("name/type/cast tables of the data type class", HI + "hardware_info.hpp"), ("typed interface constructor", HI + "handle.hpp")],
  "finite-domain constant propagation over the type tables (all enumerators), guarded value-flow of the constructor",
  "Exhaustive over the finite set of types and the names they print; the initial-value text stays symbolic.")

p("P02", "Number parsing is locale-independent, strict and range-checked",
  "Text is converted to a number independently of the process locale, only if the whole text (white space before it aside) is a number, and malformed text raises an error instead of yielding a value. Converting to an integer type never yields a value outside that type's range or different from the written number: such text raises an error. Text is converted to a boolean only if it is one of the documented spellings, each giving the documented value; anything else raises.",
  INP, "all strings",
  "existing tests parse a handful of literals; the guarantee is about every string and every locale",
  [HS + "lexical_casts.cpp", HI + "lexical_casts.hpp"],
  [("classic-locale stream conversion with end-of-input check", HS + "lexical_casts.cpp"), ("bounded integer conversions", HI + "lexical_casts.hpp")],
  "abstract interpretation of every conversion path: value-flow and path facts at each return, range facts per integer type",
  "Every return path must carry the whole-input-consumed and in-range facts; decided per conversion function and per instantiation.")

p("P03", "Frame prefixes have a canonical shape",
  "A resolved frame prefix is empty or ends with a separator (one is added only if the text does not end with one already) and never starts with a separator; exactly the first tilde in the prefix is replaced by the node namespace and nothing else of the prefix is lost; an empty prefix stays empty.",
  INP, "all prefix and namespace strings", "the existing test samples a dozen prefixes",
  ["controller_interface/include/controller_interface/tf_prefix.hpp"],
  [("prefix resolver", "controller_interface/include/controller_interface/tf_prefix.hpp")],
  "string-shape abstract domain (first/last character, emptiness, tilde) over all paths",
  "All paths of the resolver.")

p("P04", "Container helpers implement their set semantics",
  "The membership, add, remove, any-of, all-of and uniqueness helpers agree with set semantics for every container and item: membership is true exactly if the item is present, adding never creates a duplicate nor drops an item, removing reports whether the item was present and removes it, any-of/all-of quantify over exactly the requested items, uniqueness is the absence of equal elements.",
  INP, "all containers and items", "tests sample a few fixed vectors and maps",
  [HI + "helpers.hpp"], [("generic container helpers", HI + "helpers.hpp")],
  "abstract interpretation of each instantiated template; path facts compared with the logical specification",
  "Quantified loops are analysed to two symbolic elements.")

p("P05", "Requested interfaces are resolved by full name and in request order",
  "Selecting loaned interfaces for a list of names (interfaces with distinct names, into an empty result) returns success only if every requested name was matched by an interface whose full name, or joint name together with the requested interface type, equals it; the result preserves the requested order and never contains an interface that was not requested. The membership helper for interface types is true exactly when the list contains that type.",
  INP, "all lists of names and interfaces", "tests sample a few lists",
  ["controller_interface/include/controller_interface/helpers.hpp"],
  [("ordered interface selection", "controller_interface/include/controller_interface/helpers.hpp")],
  "abstract interpretation with symbolic list elements; facts required at every append and every return",
  "Two symbolic elements per list.")

p("P06", "URDF joint limits are imported field by field",
  "Importing limits from a robot description copies each limit from the corresponding source element, enables a limit exactly when the description provides it for that joint type, and reports failure (changing nothing it could not read) when the joint has no limits or no safety data.",
  INP + ["configurations"], "all joint descriptions", "tests use three joints",
  ["joint_limits/include/joint_limits/joint_limits_urdf.hpp"],
  [("URDF to limit structure conversion", "joint_limits/include/joint_limits/joint_limits_urdf.hpp")],
  "value-flow analysis: every written limit field against the source field it may come from, per joint type",
  "All paths; all joint types.")

p("P07", "Joint-limit parameters: declared, read and applied consistently",
  "Every joint-limit parameter is declared before it is read, each read value lands in the limit of the same name, a limit is enabled only together with a value for it, and disabling it clears it. A parameter change affects only the limit it names, and a change reported for one parameter is never lost because of another parameter in the same batch.",
  INP + ["configurations", "histories"], "all parameter sets and update batches", "tests exercise a few YAML files",
  ["joint_limits/include/joint_limits/joint_limits_rosparam.hpp", "joint_limits/include/joint_limits/joint_limiter_interface.hpp"],
  [("parameter declaration, loading and update checks", "joint_limits/include/joint_limits/joint_limits_rosparam.hpp")],
  "agreement of the declare/read/apply name tables and reaching-definitions of the change flag",
  "All call sites of the parameter interface in the header.")

p("P08", "Joint limiters never pass a command outside an enabled limit",
  "Whenever the single-joint range or soft limiter enforces limits with a positive period, each commanded quantity whose limit is enabled leaves within that limit (positions also within the distance, velocities within the change and remaining travel the other limits permit in one period; efforts never push further out of violated limits; accelerations within the deceleration limit while braking), soft limits only tighten that window, quantities that are not commanded or not a number are not touched, and the command is reported as limited exactly if it was out of its window. With a non-positive period nothing is changed, and enforcement holds the limiter's lock.",
  INP + ["histories", "schedules"], "all limits, states, commands and periods", "tests check a few dozen numeric points",
  ["joint_limits/src/joint_limits_helpers.cpp", "joint_limits/src/joint_range_limiter.cpp", "joint_limits/src/joint_soft_limiter.cpp", "joint_limits/src/joint_saturation_limiter.cpp"],
  [("command bound computation", "joint_limits/src/joint_limits_helpers.cpp"), ("range and soft limiters", "joint_limits/src/joint_range_limiter.cpp")],
  "order (inequality-closure) abstract domain over every enforcement path; effect analysis of writes to desired values",
  "Inequalities are closed syntactically over the path facts; floating-point rounding is not modelled.")

p("P09", "Transmissions convert back and forth without loss",
  "For every transmission and every valid parameter set, converting actuator values to joint values and back (and vice versa) yields the original position and velocity; offsets affect positions only; efforts are mapped so that mechanical power is preserved (the effort map is the transpose dual of the velocity map). Which values relate is decided by names and not by the order of the handles, joint velocities and positions follow the documented reduction, and only the interfaces that both sides provide are written.",
  INP + ["configurations"], "all reductions, offsets and values", "tests sample a few reductions numerically",
  ["transmission_interface/include/transmission_interface/simple_transmission.hpp", "transmission_interface/include/transmission_interface/differential_transmission.hpp", "transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp"],
  [("conversion functions", "transmission_interface/include/transmission_interface/")],
  "value-flow extraction to rational functions and exact polynomial identity checking in a normal form",
  "Exact over the reals; rounding is not modelled.")

p("P10", "Invalid transmissions are rejected, never half-configured",
  "Creating a transmission with a zero reduction or a wrong number of reductions or offsets raises; configuring it without usable handles, with handles of a wrong number of joints or actuators or, for the differential, with incomplete, duplicated or mismatching interface sets raises and touches no value, and whatever is accepted converts without a fault; loading one from a description with too few joints or actuators or a zero reduction yields no transmission instead of an exception, and a loaded transmission has exactly the described reductions and offsets.",
  INP + ["configurations"], "all parameter sets, handle sets and descriptions", "tests sample some invalid inputs",
  ["transmission_interface/src/", "transmission_interface/include/transmission_interface/"],
  [("constructors, configure and loaders", "transmission_interface/")],
  "path-sensitive abstract interpretation: no normal exit under a violated precondition; argument-flow of loaders",
  "All paths of constructors, configuration and loaders.")

p("P11", "Interface values are only touched under their lock, without blocking",
  "Every read or write of an interface's value through its accessors, or by copying or moving it, happens while the interface's lock is held (shared for reads, exclusive for writes); the accessors that wait for it always get it, the non-waiting ones never block, and when the lock is not obtained the accessor reports failure and leaves the value and the caller's output untouched.",
  ["schedules", "inputs"], "all interleavings of readers and writers, all value types", "interleavings cannot be enumerated by tests; existing tests are single-threaded for most accessors",
  [HI + "handle.hpp"], [("typed accessors", HI + "handle.hpp")],
  "lock-set typestate analysis of every instantiated accessor", "All accessor instantiations for double, bool, float and int.")

p("P12", "Interface values are never silently reinterpreted",
  "Reading or writing an interface with another type than its declared one raises an error, except that a boolean may be read as a double; a successful read returns exactly the stored value, a successful write stores exactly the given value, and an interface starts with its declared initial value.",
  INP, "all types and values", "tests sample some type pairs",
  [HI + "handle.hpp"], [("typed accessors", HI + "handle.hpp")],
  "value-flow of each accessor per (accessed type, declared type) pair",
  "All declared types for each instantiated accessor.")

p("P13", "Copied or moved interfaces refer to their own storage",
  "After copying or moving an interface, the target's value, name and type are those of the source and the target never refers to the storage inside another interface object; externally owned storage stays shared. Copying or moving an interface onto itself has no effect.",
  ["histories", "schedules"], "all interface kinds and sequences of copies and moves", "tests read back through still-living sources",
  [HI + "handle.hpp"], [("copy and swap of handles", HI + "handle.hpp")],
  "ownership/value-flow analysis of the copy and move operations for each storage kind",
  "All paths of copy, move and the two assignments.")

p("P14", "A loaned interface is released exactly once",
  "Destroying or moving-from loans runs the registered release action exactly once per loan, on the last holder; a moved-from loan never releases. Value access through a loan retries a bounded number of times, reports failure when it gives up, and never blocks on a lock.",
  ["histories", "schedules"], "all sequences of moves and accesses", "tests exercise single moves",
  [HI + "loaned_command_interface.hpp", HI + "loaned_state_interface.hpp"], [("loan wrappers", HI + "loaned_command_interface.hpp")],
  "ownership/typestate analysis of special members, loop-bound and effect analysis of accessors", "")

p("P15", "Commands set through a loan pass the limiter",
  "A double command set through a loaned command interface is always first passed to the limiter registered for that interface, and only the limiter's result is stored; the limited flag reflects that call.",
  ["inputs", "histories"], "all commands", "tests check single values",
  [HI + "handle.hpp", HI + "loaned_command_interface.hpp"], [("limited setter", HI + "handle.hpp")],
  "value-flow: every stored double originates from the limiter call", "")

p("P16", "Hardware component lifecycle follows the documented state machine",
  "A hardware component changes lifecycle state only along the documented transitions: each transition runs its callback only from its allowed start state and ends in the success, failure or error-handling state determined by the callback's result; from any other state the request is ignored. Errors in a configured component run the error handler, whose result decides between unconfigured and finalized; an error while unconfigured never leads to a configured state.",
  ["histories", "fault_sequences"], "all request sequences and callback results", "tests drive a few sequences",
  [HS + "hardware_component.cpp", HS + "hardware_component_interface.cpp"], [("transition functions", HS + "hardware_component.cpp")],
  "finite-state abstract interpretation: transition table computed from the source for all start states and callback results",
  "Exhaustive over start states and callback results.")

p("P17", "Read and write only reach hardware in the right state",
  "The hardware's read runs only while the component is inactive or active, its write only while it is active and never for pure sensors; a failing read or write runs the error handling and is reported, any other result is passed on unchanged, and a busy component is skipped without being reported as an error. The result of an asynchronous cycle is reported in the next cycle, and an error that was handled is not reported again after recovery.",
  ["histories", "schedules", "fault_sequences"], "all states, component kinds and results", "tests sample",
  [HS + "hardware_component.cpp", HS + "hardware_component_interface.cpp"], [("cyclic entry points", HS + "hardware_component.cpp")],
  "path-sensitive typestate over the cyclic entry points", "")

p("P18", "Lifecycle callbacks never overlap the cyclic hardware access",
  "Every lifecycle transition of a component runs its hardware callback under the component's lock and after its asynchronous worker has been paused or stopped, and the cyclic access only try-locks it, so that callbacks never run concurrently with read or write of the same component.",
  ["schedules"], "all interleavings of lifecycle requests and cycles", "interleavings cannot be tested exhaustively",
  [HS + "hardware_component.cpp"], [("component lock", HS + "hardware_component.cpp")],
  "lock-set and must-precede typestate analysis", "")

p("P19", "Command interfaces are claimed exclusively and returned",
  "A command interface is handed out only if it is available and not already claimed; handing it out marks it claimed, and releasing the loan marks it free again. State interfaces are handed out only if available; nothing is handed out for unknown names.",
  ["schedules", "histories"], "all claim/release sequences", "tests claim a few interfaces",
  [RM], [("claim and release", RM)],
  "path-sensitive typestate and guarded-effect analysis of claim, release and the loan's release action", "")

p("P20", "Interface availability follows the hardware lifecycle",
  "A component's interfaces are available exactly from successful configuration until cleanup, shutdown or error: every successful configuration makes its state and command interfaces available, every cleanup, shutdown, failed transition that leaves it unconfigured or finalized, and every failed cyclic access makes all of them unavailable, without touching those of other components.",
  ["histories", "fault_sequences"], "all state-change and failure sequences", "tests sample",
  [RM], [("availability bookkeeping", RM)],
  "must-follow effect analysis of state changes and failure paths; sibling agreement between state and command bookkeeping", "")

p("P21", "Hardware plugin exceptions are contained",
  "An exception of any type thrown by a hardware plugin during loading, initialization, a lifecycle transition, mode switching or cyclic access does not escape the resource manager unless propagation was requested; a component that raises while it is loaded, initialized, brought to another state, switched or accessed cyclically is reported as failed.",
  ["fault_sequences"], "all plugin call sites and exception types", "tests throw from a few sites",
  [RM], [("guarded plugin calls", RM)],
  "exception-escape analysis: every plugin entry point dominated by handlers for std and foreign exceptions", "")

p("P22", "Cyclic hardware failures are reported and isolated",
  "When a component's read or write fails, raises or asks for deactivation, the cycle's overall result says so, the component is named in the failed list, and the remaining components are still serviced; an error is never overwritten by a later weaker result. A failing component fails the other components of its hardware group that are served after it, and no component without a failure is treated as failed.",
  ["fault_sequences"], "all failure combinations", "tests fail one component at a time",
  [RM], [("cyclic read/write loops", RM)],
  "path-sensitive analysis of one symbolic component iteration and of result overwriting across iterations", "")

p("P23", "Mode switches are validated and reach every affected component",
  "Preparing or performing a command mode switch reports success only if every requested interface exists and every component accepts; start and stop lists are passed unswapped, components that are neither active nor inactive are not asked, one that refuses to perform the switch does not keep the others from performing it, and an empty request succeeds.",
  ["inputs", "fault_sequences"], "all request lists and component answers", "tests sample",
  [RM], [("mode switch dispatch", RM)],
  "path-sensitive analysis with symbolic components", "")

p("P24", "Component state requests map to the right transitions",
  "A request to bring a component to a target state runs exactly the transition sequence the documentation prescribes for its current state, stops at the first failing step, reports success exactly if every step succeeded, and rejects impossible requests (such as leaving the finalized state).",
  ["histories", "fault_sequences"], "all pairs of current and target state and step outcomes", "tests sample pairs",
  [RM], [("state dispatch", RM)],
  "finite-state abstract interpretation over all (current, target) pairs", "")

p("P25", "Locks are taken in one order",
  "No two locks of the resource manager, controller manager or hardware layer are ever acquired in opposite orders on two call paths that can run concurrently (paths that share an outer lock cannot), and no non-recursive lock is acquired while already held by the same path.",
  ["schedules"], "all call paths and thread interleavings", "deadlocks need a particular interleaving",
  [RM, CM, HS + "hardware_component.cpp"], [("lock acquisitions", RM)],
  "interprocedural lock-order graph", "")

p("P26", "The real-time path never blocks",
  "The cyclic hardware read and write, the enforcement of limits and the controller update step of the control loop never wait for a lock that other threads hold during lengthy work (the component, resource, limiter, controller-list, switch and service locks), never sleep, and never wait for another thread.",
  ["schedules"], "all paths of a control cycle", "blocking needs contention at the right moment",
  [RM, CM], [("try-locks on the cyclic path", RM)],
  "call-graph effect analysis from the cyclic entry points", "")

p("P27", "The control loop reads, updates, then writes",
  "Each control cycle reads the hardware, then updates the controllers, then writes the hardware, in this order and with the same cycle time; the cycle time is the time since the start of the previous cycle. Joint limits are enforced on the commands once per cycle, over the cycle's period, after controllers were updated and before they are written. Between cycles the loop waits as configured: until one period after the cycle began on the simulated clock, on a drift-free period grid of which missed cycles are skipped only if overruns are managed, or only for cycles shorter than the minimum when the hardware blocks.",
  ["histories", "configurations"], "every cycle", "no unit test drives the node loop",
  ["controller_manager/src/ros2_control_node.cpp", CM, RM], [("node loop", "controller_manager/src/ros2_control_node.cpp")],
  "abstract interpretation of the node loop for two cycles in every waiting configuration, order typestate and linear value-flow of times; enforcement order over the paths of the update cycle", "Two symbolic cycles; all six waiting configurations.")

p("P28", "Controller-manager services are serialised and answer truthfully",
  "Service requests are executed one at a time. Each load, configure, unload, cleanup, switch or hardware-state request performs its operation exactly once on the requested controller or component with the requested options, and the reported outcome is that of the operation. Controller libraries are reloaded only once every controller has been stopped (if forced) and unloaded, and the reload is reported as done exactly then. The list services name every controller, type, hardware component and interface once, with its own attributes, interfaces, claims and chain connections.",
  ["schedules", "inputs", "fault_sequences"], "all requests and outcomes of the operations behind them", "tests call single services",
  [CM], [("service callbacks", CM)],
  "abstract interpretation of every service callback for all outcomes of the operation behind it: value flow from request to operation and from outcome to response on every path, and the set of mutexes held at every operation",
  "the lists are compared on sample sets of controllers and components covering all states, kinds and combinations of chained, exported and claimed interfaces")

p("P29", "A rejected controller switch leaves nothing behind",
  "Whenever a switch request is rejected at any stage, all lists recorded for the pending switch are cleared before the caller is told, and no part of the rejected request is carried out by a later cycle; a switch that would do nothing succeeds without touching the hardware.",
  ["inputs", "histories", "fault_sequences"], "all rejected requests", "tests sample rejections",
  [CM], [("switch request handling", CM)],
  "path-sensitive abstract interpretation of the whole switch operation over every stage at which a request can fail; comparison of the recorded state before and after on every path",
  "Two controllers (independent or chained), every strictness, every failing stage; the control loop is modelled by its two outcomes (carries the switch out, never does).")

p("P30", "Loading, configuring, cleaning up and unloading respect preconditions",
  "A controller is unloaded only if it exists and is not active, configured only from the unconfigured or inactive state (an inactive controller is cleaned up first), cleaned up only when inactive, and loaded only once per name; on every other request the operation reports an error and nothing is changed. Success is reported exactly if the controller reached the required state (and, for a chainable one, exported at least one interface). Every operation works on the named controller only: a configured chainable controller has its exported interfaces registered once and unavailable, one that is cleaned up or unloaded has none left, an unloaded controller is shut down, its node removed and its statistics unregistered, and a controller that fails to load leaves nothing behind.",
  ["histories", "inputs"], "all request sequences", "tests sample sequences",
  [CM], [("controller management", CM)],
  "abstract interpretation of load/configure/cleanup/unload_controller for every lifecycle state and every result (or exception) of each transition; the effects on every path are compared with the lifecycle states",
  "a few controllers suffice because every operation names one controller; exceptions are handled as configured (handle_exceptions)")

p("P31", "A controller switch is carried out in safe order",
  "A pending switch first switches the hardware mode, then deactivates controllers, then changes chaining modes, then activates controllers, and only then reports completion; if the hardware mode switch fails, no controller is activated. It is carried out once: in the control loop if activation as soon as possible was asked for, otherwise by the requester after the loop has signalled that it is ready, and from that signal on until completion the loop does not update controllers that are being switched.",
  ["histories", "schedules", "fault_sequences"], "all switches", "tests observe final states only",
  [CM], [("switch execution", CM)],
  "path-sensitive abstract interpretation of switch execution and of the loop's handover, with every outcome of mode switch, transitions and claims; order typestate over the recorded events", "Up to four controllers in every role; hardware outcomes are free.")

p("P32", "A failing controller is stopped and its fallbacks take over",
  "If a controller's update raises or returns an error, the exception does not leave the control cycle, the cycle's result is an error, and that controller together with the controllers depending on it is deactivated and its configured fallback controllers activated in the same cycle.",
  ["fault_sequences"], "all failing controllers and exception types", "tests fail one controller",
  [CM], [("update failure handling", CM)],
  "exception-escape and must-follow analysis of the update loop", "")

p("P33", "Failed hardware stops the controllers using it",
  "When reading or writing hardware fails, all active controllers that use the failed components' interfaces are deactivated in that cycle; components asking for deactivation have the controllers using their command interfaces deactivated.",
  ["fault_sequences"], "all hardware failures", "tests fail one component",
  [CM], [("cyclic read/write of the manager", CM)],
  "path-sensitive abstract interpretation of the manager's read and write for every combination of hardware results and controller states; must-follow rules over the recorded events", "Two components, up to four controllers.")

p("P34", "Controllers' interface requirements are resolved to what was asked",
  "A controller that requests no interfaces gets none, one that requests all gets every available interface of that kind, one that requests individual interfaces gets exactly the listed ones, and one that requests by regular expression gets exactly the matching ones; one that requests listed interfaces with best effort gets those of them that are available. The hardware is asked to switch exactly these command interfaces.",
  ["configurations"], "all configuration kinds of both kinds of interfaces", "tests sample",
  [CM], [("requirement resolution", CM)],
  "path-sensitive abstract interpretation of activations and switch requests over every kind of configuration with present, absent and partially matching names",
  "Representative names and patterns.")

p("P35", "The controller list is published consistently to the control loop",
  "The control loop only ever uses a complete, published controller list: the list being modified is never the one in use, modifications happen under the list lock, and an old list is reused only after the loop has moved off it.",
  ["schedules"], "all interleavings of list changes and cycles", "needs particular interleavings",
  [CM], [("double-buffered list", CM)],
  "typestate of the double buffer protocol", "")

p("P38", "Semantic sensors map interfaces to the right quantities",
  "Each semantic component requests the interface names of its quantities, in order, and reports if one is missing; every accessor and message conversion reads each quantity from the interface of that very quantity, regardless of how many of them are present; reading all values gives one per interface (not a number where the interface cannot be read) and never throws; setting values succeeds exactly if there is one for each command interface and every interface accepted it, each value going to the interface of its position, and a wrong number or an invalid colour sets nothing.",
  ["inputs", "configurations"], "all components, quantities and partial configurations", "tests sample",
  ["controller_interface/include/semantic_components/"], [("name tables and index use", "controller_interface/include/semantic_components/")],
  "path-sensitive abstract interpretation of every component with one symbolic value per named interface: which interface each returned quantity comes from, over present / unreadable / refused interfaces", "")

p("P39", "Robot descriptions never crash the parser",
  "Whatever the XML text, parsing a robot description either yields components or raises a descriptive error: no element, attribute or text that may be missing is dereferenced unchecked, and mandatory data that is missing is reported.",
  INP, "all XML documents", "tests sample malformed documents",
  [HS + "component_parser.cpp"], [("XML access", HS + "component_parser.cpp")],
  "null-ness typestate of every XML lookup along all paths", "")

p("P40", "Parsed hardware descriptions carry every element to its place",
  "Each joint, sensor, GPIO and transmission element of a description is stored in the list of its kind with its own name, parameters and interfaces; command limits and mimic settings are taken from the same element, and limits can only tighten what the description declares.",
  INP, "all descriptions", "tests compare a few documents",
  [HS + "component_parser.cpp"], [("component extraction", HS + "component_parser.cpp")],
  "value-flow from XML names to structure fields", "")

p("P41", "Mock hardware follows its commands",
  "The simulated hardware mirrors each command to the state of the same joint and interface, honours the configured offsets, mimic factors and disabled commands, and refuses mode switches for joints that would end up with none or several control modes.",
  ["inputs", "histories"], "all configurations and commands", "tests sample",
  [HS + "mock_components/generic_system.cpp"], [("mirroring loop", HS + "mock_components/generic_system.cpp")],
  "value-flow analysis", "")

p("P42", "Command-line verbs report failure",
  "For every combination of options, every outcome of the services and every state of the named controller, a command-line verb requests exactly the changes it is for, in order, from the chosen controller manager and with each option in the argument of its meaning (durations as numbers); it fails if any request is refused or what is asked cannot be done, requests nothing after a refusal, and succeeds if all is accepted. Listing verbs change nothing and show each interface's or controller's own availability, claim and state; completers offer exactly the names in their states.",
  ["fault_sequences", "inputs"], "all option values, service outcomes and controller states", "no unit test runs the verbs against failing services",
  ["ros2controlcli/ros2controlcli/verb/"], [("verbs", "ros2controlcli/ros2controlcli/verb/")],
  "path-enumerating abstract interpretation of each verb's syntax tree over the domain of its declared options and all outcomes of each request", "")

p("P43", "Python service helpers call the right service with the right data",
  "Each Python helper calls the service of its own name, one the manager offers with that type, passes every argument into the request field of that meaning and returns the service's answer; relative names are looked up in the node's namespace, clients are kept per node and service, attempts and waits are bounded by the given limits, and an unanswered or missing service raises. Parameters found for a controller in its own entries of the parameter files (plain, namespaced or wildcard) are all set under the controller's name, and a refused one ends the setting and is reported.",
  ["inputs", "fault_sequences"], "all helpers and arguments", "no unit test",
  ["controller_manager/controller_manager/controller_manager_services.py"], [("service helpers", "controller_manager/controller_manager/controller_manager_services.py")],
  "path-enumerating abstract interpretation of the helpers' syntax trees: value flow from arguments to request fields (checked against the .srv files and the C++ service registrations), all outcomes of waiting, answering and setting", "")

p("P44", "The spawner loads, configures and activates in order and cleans up",
  "For each requested controller that is not loaded yet the spawner sets its own node options and parameters before loading it; it configures only loaded and activates only configured controllers, as one group if asked for, honours the load-only and inactive requests, works only with the spawner lock held, ends with a failure status at the first failing step (a refusal or a missing service) requesting nothing more, and succeeds once all is done. With unload-on-kill it releases the lock before waiting, and an interrupt deactivates exactly the controllers it activated and unloads them only if that succeeded. On every way out it destroys its node, releases its lock and shuts down. The unspawner deactivates before it unloads, fails if an unload is refused or the service is missing and always shuts down; the hardware spawner sets exactly the loaded components to the state asked for, through the manager of its namespace.",
  ["histories", "fault_sequences", "crash_points"], "all outcomes of every step", "no unit test",
  ["controller_manager/controller_manager/spawner.py", "controller_manager/controller_manager/unspawner.py", "controller_manager/controller_manager/hardware_spawner.py"],
  [("spawner main", "controller_manager/controller_manager/spawner.py")],
  "typestate over all paths (including exceptional ones) of the Python sources", "")

p("P45", "Timing statistics are consistent and measured from the right source",
  "Execution-time and periodicity statistics are read and written only under their lock. After any sequence of measurements and resets, count, average, minimum, maximum and population standard deviation are those of the finite measurements since the last reset, and a reset clears every accumulated quantity; a measurement that is not finite changes nothing but the current value. What is published of a component is one consistent state of its collector, and the collector starts anew exactly when the configured number of samples is reached. Every statistic is fed, once per executed cycle, from its own measurement (execution time in microseconds, periodicity as reciprocal of the time between cycles) of its own component or controller and direction, and starts anew with an activation.",
  ["schedules", "histories", "inputs"], "all interleavings of measuring and reading, all measurement sequences, all results of a cycle", "no test exercises the statistics concurrently or compares them with their definition",
  [HI + "types/statistics_types.hpp", "hardware_interface/src/hardware_component.cpp", RM, CM], [("statistics classes", HI + "types/statistics_types.hpp"), ("where cycles are measured", "hardware_interface/src/hardware_component.cpp"), ("where they are published", RM), ("where controllers are measured", CM)],
  "lock-set analysis of the statistics classes; abstract interpretation of their operations with interference between locked sections, compared with the inductive definition of the statistics; value-flow from cycle results to statistics",
  "Real arithmetic, without rounding; inductive step compared on a grid of prior states and measurements.")

p("P46", "Diagnostics flag what is wrong",
  "The level reported by the diagnostics of controllers, hardware components and the controller manager is the highest that any monitored deviation calls for: error if a mean error or standard deviation exceeds its own error threshold, warning if it exceeds only its warning threshold, whatever the order and combination of the deviations; only active controllers and components count, periodicity only where it is monitored, execution times of asynchronous ones relative to their period, with the thresholds as currently configured. What exceeds its thresholds is named. No active hardware, no components, an uninitialized resource manager and no controllers are reported with their level.",
  ["inputs", "configurations"], "all measurements and thresholds, all execution modes, all combinations over controllers and components", "tests sample",
  [CM], [("diagnostic callbacks", CM)],
  "abstract interpretation of the diagnostic callbacks, exhaustive over the order of every statistic and its thresholds, with thresholds distinct per group and quantity",
  "One and two controllers or components; equality with a threshold is not decided.")

p("P52", "Command limits reach every claimed command",
  "In every cycle in which limits are enforced, the limiter of every limited joint is applied once, over the cycle's period, to the actual values of that joint's state interfaces and the commands of its claimed command interfaces (unclaimed or missing ones appear as absent, never as leftovers of an earlier cycle); when it limits, exactly the claimed commands of that joint are replaced by the limited value of the same quantity; the result tells whether any command was limited.",
  ["inputs", "configurations", "histories"], "all joints, all combinations of existing and claimed quantities, all limiter results", "tests command one interface of one joint",
  [RM], [("command limit enforcement of the resource manager", RM)],
  "path-sensitive abstract interpretation over every combination of existing, claimed and limited quantities; value-flow from interfaces through limiters back to interfaces",
  "Exhaustive per quantity; up to three joints over two components.")

p("P51", "Controllers are activated with all their interfaces or not at all",
  "A controller becomes active only after all command and state interfaces it requires were claimed and handed to it; if any of them is unavailable, already claimed or cannot be claimed, the controller is not activated, everything already claimed for it is returned and its own exported interfaces are made unavailable again. After deactivation its interfaces are returned, its exports are unavailable and its chained mode is left.",
  ["histories", "fault_sequences", "configurations"], "all activations and deactivations, all failing claims and transitions", "tests activate with everything available",
  [CM], [("controller activation and deactivation", CM)],
  "path-sensitive abstract interpretation of activation and deactivation over every availability, claim, transition and mode outcome; typestate of claims and exports at every path end",
  "Two controllers per request, two interfaces of each kind per controller.")

p("P50", "Active controllers are updated when due, with the time that passed",
  "In every cycle each active controller running at the manager's rate is updated exactly once; a controller with a lower rate is updated at its first cycle and from then on in the cycle nearest to one of its periods after its last update; controllers that are not active, or that are being switched outside the loop, or asynchronous ones being deactivated, are not updated. Each update is given the manager's current time and the time since that controller's previous update (the nominal period at the first), and that moment is kept for the next one, whatever the result; the controller's result is reported unchanged.",
  ["histories", "configurations", "schedules"], "all controller states, rates, histories and pending switches", "tests count updates over a few nominal cycles",
  [CM, "controller_interface/src/controller_interface_base.cpp"], [("update loop", CM), ("update trigger", "controller_interface/src/controller_interface_base.cpp")],
  "path-sensitive abstract interpretation of one cycle over the partition of rates, elapsed times and switch states; value-flow of the times",
  "Elapsed times are representatives on each side of every threshold; ties are not decided.")

p("P53", "Accepted switch requests lead to a consistent set of controllers",
  "A STRICT switch request is accepted exactly if afterwards every active controller has its required interfaces, no two active controllers claim the same command interface, and every active controller whose commands or states go through a chainable controller finds that one active; a BEST_EFFORT request may drop controllers from the request, but what remains satisfies the same, and it drops nothing where STRICT accepts. After an accepted switch exactly the requested controllers changed state (a controller in both lists is restarted), a chainable controller is in chained mode exactly if an active controller uses its references, and the result does not depend on the order of the request.",
  ["inputs", "histories", "configurations"], "all consistent states and all requests over them", "tests sample a few chains and requests",
  [CM], [("switch request checks and chained mode requests", CM)],
  "path-sensitive abstract interpretation of the whole switch operation for every consistent state, request and strictness of seven small controller graphs; comparison of the resulting set with the specification of consistency",
  "Three controllers per graph; quick explores one request order, thorough all orders and both manager orders.")

p("P54", "Controllers are activated only if their fallbacks can take over",
  "A switch request activates a controller only if each of its fallback controllers is loaded and configured, and each interface such a fallback needs is available or exported by an inactive following controller that is itself one of the fallbacks; otherwise a STRICT request is rejected and a BEST_EFFORT request leaves out that controller and everything that depends on it.",
  ["configurations", "inputs"], "all fallback lists, states and available interfaces", "tests sample a few fallback lists",
  [CM], [("fallback checks of switch requests", CM)],
  "path-sensitive abstract interpretation of activation requests over every existence, state and interface availability of the fallbacks",
  "Up to two fallbacks with two interfaces each and one followed controller.")

p("P55", "The outcome of a switch is reported truthfully",
  "A switch that was carried out returns success exactly if every controller of the request that was to be activated is active and every one that was only to be deactivated is not; the list of controllers published afterwards contains every controller, with exactly the command interfaces its configuration claims if it is active and none otherwise.",
  ["fault_sequences", "histories"], "all end states of all controllers of a request", "tests sample successful switches and single failures",
  [CM], [("evaluation of a switch", CM)],
  "path-sensitive abstract interpretation of switch requests over every combination of end states; value-flow into the published list",
  "Three controllers per request.")

p("P36", "Controller lifecycle callbacks, interfaces and asynchronous thread stay in step",
  "Initialising a controller binds every lifecycle transition of its node to exactly the controller callback of that name, which receives the previous state and whose result decides the transition; a controller whose on_init fails is shut down and reported as failed. The asynchronous update thread is started (running the controller's own update) before an asynchronous controller is configured and never otherwise, is stopped before cleanup, shutdown and error callbacks run, gets at most one trigger per cycle and none while the controller is being deactivated. Negative rates and detached scheduling leave the controller unconfigured. Interfaces assigned replace those held; none are held after release, shutdown or error. The lifecycle id other threads read equals the state of the node in every callback, after configuring and whenever no transition is running. Destroying a controller shuts it down unless it is finalized.",
  ["histories", "configurations"], "all lifecycle histories, with and without asynchronous execution", "tests sample a few transitions of synchronous controllers",
  ["controller_interface/src/controller_interface_base.cpp"], [("controller base class", "controller_interface/src/controller_interface_base.cpp")],
  "abstract interpretation of init, of every registered callback, configure, trigger_update, the interface functions and the destructor in every lifecycle state and every combination of asynchronous flags and callback results",
  "The lifecycle node itself (rclcpp_lifecycle) and the handler's thread (realtime_tools) are assumed to do what they document.")

p("P37", "Chained controllers have one source of references and export their own names",
  "A chainable controller in chained mode never takes references from its subscribers; outside chained mode it takes them before computing commands and writes nothing if that fails; both get the time and period of the cycle. Its mode never changes while it is active, changes exactly when the controller accepts, and its answer is reported. Every interface it exports (by either export method) reaches the controller manager once and in order, is named under the controller, unique, and found by its name; an export with a foreign prefix, a duplicate name or a wrong number of reference values is rejected; nothing of an earlier configuration remains. Interfaces exported by default have storage of their own.",
  ["inputs", "histories"], "all exported lists, modes and results", "tests sample single exports",
  ["controller_interface/src/chainable_controller_interface.cpp"], [("chainable controllers", "controller_interface/src/chainable_controller_interface.cpp")],
  "abstract interpretation of update, set_chained_mode and the export functions for every combination of mode, state, answer and result and for exported lists of up to three interfaces, starting with leftovers of an earlier configuration",
  "Exports of up to three interfaces.")

p("P56", "A controller's update rate is the closest achievable one to the request",
  "After configuring, a controller's update rate is the requested one if it divides the controller manager's rate, otherwise the controller manager's rate divided by the nearest whole number of cycles, and the controller manager's rate if more is requested; this holds for every reconfiguration whatever rate the controller had before; a rejected request and configure() outside the unconfigured state change nothing.",
  ["inputs", "histories"], "all manager rates, requests and configuration histories", "tests sample one rate and one reconfiguration",
  ["controller_interface/src/controller_interface_base.cpp"], [("choice of the update rate", "controller_interface/src/controller_interface_base.cpp")],
  "abstract interpretation of init, configure and get_update_rate over a partition of manager and requested rates (dividing, not dividing, equal, higher) and every ordered pair of requests",
  "Requests of 0 Hz and a manager without a rate are outside the statement.")

p("P47", "Floating-point limiter behaviour converges over time",
  "Repeatedly enforcing limits on a constant desired position drives the commanded position monotonically to the closest admissible position within the time the velocity and acceleration limits permit.",
  ["histories", "inputs"], "all trajectories", "needs unbounded numeric histories",
  ["joint_limits/src/joint_limits_helpers.cpp"], [("command bounds", "joint_limits/src/joint_limits_helpers.cpp")],
  na="convergence of a numeric iteration over unbounded histories depends on runtime values (floating-point dynamics) no static argument in reach can bound")

p("P48", "Control cycles meet their period",
  "The control loop wakes at the configured rate and finishes each cycle within its period.",
  ["schedules"], "all executions on the target machine", "timing depends on the machine",
  ["controller_manager/src/ros2_control_node.cpp"], [("loop timing", "controller_manager/src/ros2_control_node.cpp")],
  na="worst-case execution time depends on plugins, kernel scheduling and hardware, none of which is in the source")

p("P49", "Chained controllers are ordered so that followers run after leaders",
  "For every acyclic set of chained controllers, configuring a controller reorders the update list so that it still holds every loaded controller exactly once, every controller comes before the controllers whose exported command (reference) interfaces it commands, and after the controllers whose exported state interfaces it reads - whatever the order in which the controllers were loaded or are stored. The leaders, followers and users recorded for later switches are exactly those of the configured controllers; nothing of an earlier configuration remains.",
  ["configurations", "inputs"], "all controller graphs", "tests sample graphs",
  [CM], [("controller ordering", CM)],
  "abstract interpretation of configure_controller for all acyclic graphs of up to four controllers and all orders in which the map of chains can be walked; the published list is compared with the edges",
  "bounded to four controllers (three where command and state interfaces are mixed)")
