"""Writes /verif/properties.jsonl (kept as a script so that wording is easy to maintain)."""
import json, os
F = ["salabim/salabim.py"]
P = []
def prop(id, title, statement, over, qtext, why, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    a = {"files": F, "mechanism": [{"name": n, "where": "salabim/salabim.py: " + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": "salabim/salabim.py: " + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Events are executed in order, exactly once, and time never goes back",
 "Every scheduled component is resumed exactly once, at exactly the time it was scheduled for, and simulation time never decreases. Events at the same time are executed in ascending scheduling priority, and within the same priority in order of scheduling, where an urgent event goes in front of all earlier scheduled ones with that priority. Standby components are resumed in order after every event (of a component that does not skip standby) and scheduled_time(), scheduled_priority() and peek() report the pending events truthfully.",
 ["programs", "schedules", "configurations"],
 "any model built from components that hold, activate, standby, with any mix of times (also equal ones), priorities and urgent flags, in yield and yieldless mode",
 "The tests contain one process test with a handful of holds; they never compare complete execution orders with simultaneous events, priorities, urgent and standby.",
 [("event list push and remove", "Component._push / Component._remove"), ("event loop", "Environment.step"), ("rescheduling", "Component._reschedule"), ("next event time", "Environment.peek")],
 ["order in which process code is resumed and env.now() there", "Component.scheduled_time/scheduled_priority/status", "Environment.peek"],
 [("event list", "heap of (time, priority, sequence, component)", "Environment._event_list"), ("standby lists", "components in standby", "Environment._standbylist / _pendingstandbylist")])

prop("C02", "Process control has exactly the documented effect on status and timing",
 "activate, hold, passivate, interrupt, resume, cancel, standby and remaining_duration move a component between the documented statuses and give it the documented scheduled time, remaining duration, interrupt level and mode time, whoever calls them and whatever the component was doing. An interrupted component does not proceed until resumed as often as it was interrupted (or resumed with all) and then continues with what it was doing, for exactly the duration that was left. A component that is passive, interrupted, data or cancelled is never resumed unless it is activated or resumed again, and a process runs from its start for a data component and from where it was suspended otherwise.",
 ["programs", "histories", "schedules"],
 "any history of process interaction calls by the component itself, by other components and by the main program",
 "test_process has one scenario; the transitions (9 statuses x calls x caller) in combination with remaining durations are not covered.",
 [("process interaction methods", "Component.activate/hold/passivate/interrupt/resume/cancel/standby"), ("remaining duration", "Component.remaining_duration"), ("termination", "Environment._terminate")],
 ["Component.status/ispassive/.../scheduled_time/remaining_duration/interrupted_status/interrupt_level/mode/mode_time", "trace of resumed code"])

prop("C03", "run() stops exactly where asked and splitting a run changes nothing",
 "run(duration) and run(till) return with now() exactly at the requested time after all events strictly before it (and those at that time that go before main by priority) have been executed and none after, run() without arguments returns when no events are left, and main.activate() ends the run at once after the current event. Running a model in several consecutive runs, at whatever intermediate times, gives the same sequence of events, times and results as one single run (apart from standby components, which are also resumed after each run). Components created or activated by the main program between runs take part as if scheduled at that moment.",
 ["programs", "schedules", "configurations"],
 "any model, any number of run calls with any durations/tills/priorities/urgent",
 "Tests call run once or twice with fixed times and never compare with a differently split run.",
 [("run", "Environment.run / do_simulate / _do_simulate"), ("event loop", "Environment.step"), ("main component", "Environment.main")],
 ["now() after run", "executed event sequence"])

prop("C04", "Yield and yieldless mode give the same simulation",
 "A model written with yields (yieldless=False) and the same model written without yields (yieldless=True) execute the same events at the same times in the same order, and have the same statuses, queue contents, claims, values, failures and statistics at every point.",
 ["programs", "configurations", "histories"],
 "any model using holds, requests, waits, stores, standby, interrupts, cancel and component generators",
 "Tests never run a model in both modes; yieldless has separate code paths (greenlets, return of process interaction calls, request/wait/store, component generators, end of process).",
 [("yieldless scheduling", "Component._reschedule / Component.request / wait / from_store / to_store"), ("dispatch", "Environment.step"), ("generators in two modes", "ComponentGenerator.do_*")],
 ["event sequences and state snapshots of both modes"])

prop("C05", "Queues are exact ordered lists of their members",
 "After any history of entering, inserting, removing, popping, moving, clearing, extending and priority changes, a queue contains exactly the components that entered and did not leave, each once, ordered on priority and first-come-first-served within a priority (except where the user explicitly chose a position), and every way to look at it (len, head, tail, indexing, slices, iteration, reversed, successor, predecessor, index, count, in, components' queues(), index(), count(), priority(), enter_time()) agrees with that. Iterating while the queue is modified never yields a component twice or one that already left, and yields all components that were present from start to end. Copy, union, difference, intersection, symmetric difference, move and the comparison operators behave as on ordered sets.",
 ["histories", "inputs"],
 "any sequence of queue operations on several queues with any priorities, capacities and modifications during iteration",
 "Tests apply fixed operations to one or two queues of a few members.",
 [("linked list maintenance", "Qmember.insert_in_front_of / insert_behind, Component.leave"), ("sorted insertion", "Queue.add_sorted / Component.enter_sorted / Component.priority"), ("iteration with touched/changed detection", "Queue.__iter__ / __reversed__"), ("set operations", "Queue.union / intersection / difference / symmetric_difference / copy / move / _operator")],
 ["all public read accessors of Queue and Component"])

prop("C06", "Queue statistics are those of the actual arrivals, departures and stays",
 "At any moment the length monitor of a queue is the exact step function of its number of members over time, the length-of-stay monitor holds exactly one entry per departed member equal to departure time minus enter time, and number_of_arrivals, number_of_departures, arrival_rate and departure_rate, capacity and available_quantity correspond with the actual history since the last reset. In particular arrivals minus departures since reset equals the growth of the length.",
 ["histories", "schedules"],
 "any history of queue operations over time, with resets and monitoring switched on and off",
 "Tests check lengths but never recompute statistics from an independent history.",
 [("arrival accounting", "Qmember.insert_in_front_of / insert_behind"), ("departure accounting", "Component.leave / Queue.clear / Queue.move"), ("rates", "Queue.arrival_rate / departure_rate / reset_monitors / monitor")],
 ["Queue.length, length_of_stay, capacity, available_quantity monitors; number_of_arrivals/departures; rates"])

prop("C07", "Resource claims are conserved and stay within capacity",
 "At any moment the claimed quantity of a resource equals the sum of what its claimers hold according to the components themselves, never exceeds what the capacity allowed when it was granted, and available quantity and occupancy are derived from exactly that. Every unit claimed is released exactly once: by release, cancel, or end of process, and by nothing else; requesters(), claimers(), requested_quantity(), claimed_quantity(), isclaiming() and the component side accessors always agree.",
 ["histories", "schedules", "programs"],
 "any history of request, release, partial release, set_capacity, cancel, interrupt, failure, and termination by any number of components on several resources",
 "There is no resource unit test in the stable suite; conservation must hold over arbitrary histories.",
 [("granting", "Component._tryrequest"), ("releasing", "Component._release / release, Resource.release"), ("termination cleanup", "Environment._terminate, Component.cancel"), ("capacity", "Resource.set_capacity")],
 ["Resource.claimed_quantity/available_quantity/occupancy/claimers/requesters/requested_quantity, Component.claimed_quantity/claimed_resources/requested_*"])

prop("C08", "Resource requests are honored fairly, atomically and as soon as possible",
 "A request for several resources is honored all-or-nothing (or for exactly one of them, the first possible one in the given order, with oneof), and requesters of a resource are honored in order of request priority, first-come-first-served within a priority, skipping those that cannot be honored unless honor_only_first or honor_only_highest_priority forbids that. A request that can be honored is never left pending: as soon as a release, cancel, failure or capacity change makes it possible, the component continues at that same simulation time. Honored components hold exactly the requested quantities.",
 ["schedules", "histories", "programs"],
 "any mix of single, multiple and oneof requests with any priorities and quantities on regular (non-preemptive) resources with any capacity changes",
 "No stable test exercises contention on resources; fairness and no-lost-wakeup are properties of all interleavings.",
 [("scan of requesters", "Resource._tryrequest / Component._tryrequest"), ("request", "Component.request"), ("honor_all/honor_any", "Component.honor_all / honor_any")],
 ["order and time of honors", "requesters() and claimers() contents"])

prop("C09", "Abandoned requests, waits and store actions leave nothing behind",
 "A request, wait, from_store or to_store with fail_at or fail_delay that is not honored in time continues exactly at that time (not earlier or later) with failed() True, one that is honored continues with failed() False. When it fails, or when the component is activated, cancelled, or passivated by another one meanwhile, it is withdrawn completely: the component is in no requesters or waiters queue, holds nothing from it, does not block others, and is not resumed by it later. A process that ends or is cancelled releases all its claims at that moment.",
 ["schedules", "histories", "fault_sequences"],
 "any combination of pending requests/waits/store actions and failure times, cancellation, activation and interruption",
 "No stable test uses fail_at/fail_delay with contention or withdraws a pending request.",
 [("failure detection", "Component._check_fail, Environment.step"), ("withdrawal", "Component.activate/cancel/passivate"), ("termination", "Environment._terminate")],
 ["Component.failed/requested_resources/status", "Resource.requesters, State.waiters, Store.from_store_requesters/to_store_requesters"])

prop("C10", "Preemption takes from the lowest priority claimers only, and only if it helps",
 "A request on a preemptive resource that cannot be honored directly takes the resource only from claimers with a strictly lower priority (higher number), starting with the lowest, no more of them than needed, and only if that makes the request possible. A bumped component has lost its complete claim of that resource, is activated at that moment, reports isbumped() and no longer isclaiming(); all others keep their claims.",
 ["schedules", "histories"],
 "any population of claimers and requesters with any priorities and quantities on preemptive resources, also combined with other resources",
 "No stable test covers preemptive resources.",
 [("bumping", "Component.request (preemptive part)"), ("bumped detection", "Component.isbumped / isclaiming")],
 ["claimers(), claimed_quantity(), isbumped(), isclaiming(), resume times"])

prop("C11", "Anonymous resources conserve their contents",
 "The claimed quantity of an anonymous resource always equals the initial claimed quantity plus the quantities of all honored gets minus those of all honored puts and direct releases, and stays between zero and the capacity (so does the available quantity). Gets wait until enough is available, puts until enough room is available, both are served in order of priority and first-come-first-served, and one that becomes possible is honored at that very moment.",
 ["histories", "schedules"],
 "any producers/consumers with any quantities (also mixed get/put requests and regular resources) and capacity changes",
 "No stable test covers anonymous resources.",
 [("get and put", "Component.get / put / request"), ("granting", "Component.honor_all / _tryrequest"), ("direct release", "Resource.release")],
 ["claimed_quantity(), available_quantity(), requesters(), resume times"])

prop("C12", "Waiting for states wakes exactly the right components at the right moment",
 "A component waiting for states continues at the very moment the states satisfy its condition (value, expression with $, or function; any or all of them), and never while they do not. trigger(value, value_after, max) releases, in order of wait priority and arrival, at most max components whose wait is satisfied by the trigger value, before the state gets its after value; set and reset release all satisfied ones. A wait that is satisfied at the call does not suspend beyond the current moment.",
 ["histories", "schedules", "inputs"],
 "any values, conditions, sequences of set, reset and trigger, any number of waiters with any priorities",
 "test_state has three small scenarios; combinations of any/all, trigger with max, and changes between are not covered.",
 [("wait", "Component.wait / _trywait"), ("set, reset, trigger", "State.set / reset / trigger / _trywait")],
 ["resume times and order, waiters(), state value, failed()"])

prop("C13", "Stores neither lose nor duplicate items and never exceed capacity",
 "Every item put in a store is delivered to at most one from_store, is either in the store or delivered or explicitly removed, and the number of items never exceeds the store's capacity. from_store gets the first item that satisfies its filter (or the one with the lowest key) in store order, to_store enters its item at the given priority, both over several stores in the given order, and requesters are served in order of priority and arrival, skipping those that cannot be served. A from_store or to_store that becomes possible (also by a leaving item, a capacity change or rescan) is honored at that very moment.",
 ["histories", "schedules", "inputs"],
 "any producers, consumers, filters, keys, priorities, capacities, failures and direct enter/leave operations",
 "The only stable store test creates a store; nothing checks deliveries.",
 [("from_store/to_store", "Component.from_store / to_store"), ("delivery at arrival", "Qmember.insert_in_front_of / insert_behind (store part)"), ("room at departure", "Component.leave (store part)"), ("capacity and rescan", "Store.set_capacity / rescan")],
 ["store contents, from_store_item(), from_store_store(), to_store_store(), requesters queues, resume times"])

prop("C14", "Level monitors are exact step functions with time weighted statistics",
 "A level monitor represents exactly the sequence of tallied values over time: value(), get(t) and call return the value in force at that moment, x/t/xt/tx/xweight/xduration reproduce the tallies, and mean, std, minimum, maximum, median, percentiles, duration, bin and value durations equal those of the time weighted step function from the start until now. Periods during which monitoring is off count for nothing, reset starts afresh at that time with the current value, and asking for statistics never changes anything.",
 ["inputs", "histories", "schedules"],
 "any sequence of tallies (also several at the same time), resets and monitoring on/off at any times, any value type supported",
 "Tests check a few fixed sequences.",
 [("tally", "Monitor.tally / _tally_add_now"), ("on/off and reset", "Monitor.monitor / reset"), ("weighted statistics", "Monitor.mean/std/percentile/_xweight/get/bin_*/value_*")],
 ["all public statistics accessors"])

prop("C15", "Non-level monitors give the exact weighted statistics of the tallied values",
 "A non-level monitor holds exactly the values (with their weights) tallied while monitoring was on since the last reset, and number_of_entries, weight, mean, std, minimum, maximum, median, percentiles, bin and value counts and weights, with and without zeroes, equal the textbook values of that multiset. The printed statistics and histograms and the dataframes show the same numbers.",
 ["inputs", "histories"],
 "any multiset of values, weights, types (also non numeric and forced numeric), resets and monitoring on/off",
 "Tests check a few fixed sequences.",
 [("tally", "Monitor.tally"), ("statistics", "Monitor.mean/std/percentile/minimum/maximum/bin_*/value_*/_xweight"), ("reports", "Monitor.print_statistics / print_histogram / as_dataframe")],
 ["all public statistics accessors and printed reports"])

prop("C16", "stats_only monitors report the same statistics as full monitors",
 "For the same tallies, resets, on/off switches and times, a monitor with stats_only=True reports the same number of entries, weight/duration, mean, std, minimum, maximum and zero counts (including and excluding zeroes) as a monitor that keeps all values.",
 ["inputs", "histories"],
 "any sequence of tallies with weights or over time",
 "The stable tests do not compare both kinds over arbitrary histories.",
 [("running statistics", "Monitor.tally / _tally_add_now / reset (stats_only branches)"), ("accessors", "Monitor.mean/std/... (stats_only branches)")],
 ["statistics accessors of both kinds"])

prop("C17", "Slicing, merging, freezing and mapping monitors preserve the data",
 "A slice contains exactly the observations of the requested (also periodic) interval so that a partition into slices adds up to the whole, merging non-level monitors gives the union of the observations and merging level monitors the pointwise sum over the time all are on, freeze is an unchanging copy, and x_map, multiplication, division and t_multiply apply exactly the function to the values (times) and nothing else. None of these operations changes the source monitors.",
 ["inputs", "histories"],
 "any monitors, any slice bounds and modulos, any number of merged monitors with any on/off periods",
 "Tests check a few fixed slices and merges.",
 [("slice", "Monitor.slice / __getitem__"), ("merge", "Monitor.merge / __add__"), ("mapping", "Monitor.x_map / multiply / to_* / t_multiply / freeze")],
 ["all public statistics accessors of the result and the sources"])

prop("C18", "Runs are reproducible and observing them does not change them",
 "With the same random_seed, a model gives exactly the same events, samples and results in every run, irrespective of hash randomization, earlier runs and environments in the same process, and of observation: tracing, switching monitors off, stats_only, printing statistics, reading any accessor, or blind animation. Different seeds give different streams.",
 ["configurations", "programs", "inputs"],
 "any model with any observation feature switched on or off, in fresh or reused interpreters",
 "Tests run each model once with one configuration.",
 [("seeding", "random_seed / Environment.__init__ / Random"), ("tracing", "Environment.print_trace / trace"), ("animation", "Environment.animate / _BlindVideoMaker / step")],
 ["event sequences, final statistics and samples per configuration"])

prop("C19", "Distributions sample what they are specified to",
 "Every distribution only gives values in its documented support, its samples agree with the specified probability law (empirical distribution and mean() for a seeded stream), respects the time unit conversion, uses only the given randomstream, and is reproducible. Composite distributions (Pdf, Cdf, CumPdf, External, Distribution specification strings, expressions, Map and Bounded) sample exactly what their parts define: probabilities as given, values never outside those given, and bounds never violated.",
 ["inputs", "configurations"],
 "any valid parameters of any distribution, any time unit combination, any expression tree, any bounds",
 "Tests check means of a few parameterizations with a wide tolerance.",
 [("sampling", "*.sample"), ("mean", "*.mean"), ("bounds", "_Distribution.bounded_sample / Bounded"), ("parsing", "Distribution"), ("time unit", "_Distribution.register_time_unit")],
 ["sample(), mean(), printed info, use of randomstreams"])

prop("C20", "Component generators create exactly the specified components at the right times",
 "A component generator creates components of the right class with the given arguments at exactly the times specified: successive interarrival times from at on, spread uniformly or equidistantly over the interval, at the given moments, or disturbed arrivals, until exactly the given number, till, or duration is reached (never more, never later), and at_end is called once at the end. Generated components are activated at their creation and belong to the generator's environment.",
 ["inputs", "configurations", "schedules"],
 "any combination of iat, at, delay, till, duration, number, force_at, force_till, disturbance, equidistant, moments, in yield and yieldless mode",
 "Tests check a few fixed combinations.",
 [("generation", "ComponentGenerator.__init__ / do_spread / do_iat / do_iat_disturbance and yieldless variants")],
 ["creation times and numbers of generated components"])

prop("C21", "Time units, datetimes and reset_now are consistent",
 "Converting durations and times between units, to and from datetime/timedelta and to strings is exact and round-trips, and a model expressed in another time unit gives the same simulation up to that factor. After reset_now(t) now() is t and everything that lies ahead (holds, tills, failure times, scheduled times, generators, runs) takes place after exactly the same duration as without the reset.",
 ["inputs", "configurations", "programs"],
 "any time unit, datetime0, values, and resets at any moment",
 "Tests check a few conversions; reset_now is not tested in combination with pending events.",
 [("conversion", "Environment.to_* / seconds/... / spec_to_time / spec_to_duration / datetime_to_t / t_to_datetime"), ("offset", "Environment.reset_now / _offset use")],
 ["conversion results, event times"])

prop("C22", "Environments are independent of each other",
 "Simulations in several environments, run alternately or nested in any way, give exactly the same results as when run on their own: own time, event list, components, names, statistics and main. Objects belong to the environment given (or the default one at creation) and mixing components in one environment never affects another.",
 ["programs", "schedules", "configurations"],
 "any number of environments, any interleaving of their runs, any default environment",
 "One stable test touches environment prefixing only; interleaving is not covered.",
 [("environment state", "Environment.__init__ / _set_env"), ("default environment", "default_env / g.default_env"), ("objects", "*.__init__(env=)")],
 ["event sequences per environment"])

prop("C23", "Rejected operations raise and leave everything unchanged",
 "Operations that are not allowed (entering a queue twice or beyond capacity, leaving a queue one is not in, positioning relative to a non-member, popping or indexing beyond the end, releasing what is not claimed, interrupting or resuming in the wrong status, holding into the past, creating things with contradicting parameters) raise an exception. The exception leaves all queues, resources, states, monitors, statuses and scheduled events as they were, so that a model that catches it continues as if the operation had not been attempted.",
 ["histories", "fault_sequences", "inputs"],
 "any state of the model, any not allowed operation of the listed kinds",
 "Tests check that a few errors are raised but not that nothing changed.",
 [("validation", "Component._checkinqueue / _checknotinqueue / _checkisnotdata / _checkisnotmain, Queue capacity checks, Component.interrupt/resume/_release/hold")],
 ["complete public state before and after"])

prop("C24", "Trajectories are continuous, monotone and of the right duration",
 "A trajectory starts at its first point at t0, ends at its last point at t1, has t1 = t0 + duration, moves continuously along its specified path with the specified maximum speed and acceleration and the given begin and end speeds, and its length at t equals the distance travelled. Added trajectories follow each other without jump in time, and outside [t0, t1] the end positions apply.",
 ["inputs", "configurations"],
 "any polygon, circle, standstill or (nested) merged trajectory with any speed and acceleration limits",
 "No stable test covers trajectories.",
 [("movement", "_Movement"), ("geometry", "TrajectoryPolygon / TrajectoryCircle / TrajectoryStandstill / TrajectoryMerged")],
 ["x, y, angle, length, in_trajectory, duration, t0, t1, rendered_polygon"])

prop("C25", "Interpolation and numeric utilities are exact",
 "interpolate, interp, searchsorted, linspace, arange, colour interpolation, and normalisation utilities return what their definition says for every input: interpolated values lie between the end values and equal them at the ends, are clamped outside, and results agree with the mathematical definition.",
 ["inputs"],
 "any numbers, sequences and bounds",
 "One stable test of interp with a few values.",
 [("utilities", "interpolate / interp / searchsorted / arange / linspace / Environment.colorinterpolate / colorspec_to_tuple / colorspec_to_hex")],
 ["return values"])

prop("C26", "ItemFile returns exactly the items of the file in order",
 "Reading an ItemFile gives every item of the source exactly once and in order, with whitespace as separator, quoted strings kept intact, and comments skipped, whatever mix of read_item, read_item_int, read_item_float and read_item_bool is used, and EOFError after the last one and never before.",
 ["inputs"],
 "any text built from items, quoted strings, comments, blank lines and line ends",
 "No stable test covers ItemFile.",
 [("tokenizer", "ItemFile._nextread / read_item*")],
 ["returned items, EOFError"])

prop("C27", "The trace is a faithful account of what happens",
 "With trace on, every event is reported once, in order and with the correct time and component name, and creations, state changes, entering and leaving of queues, requests, honors, claims and releases appear exactly when they happen. Switching trace on or off (also temporarily) only affects output, and it never shows suppressed components or nothing while it is on.",
 ["programs", "schedules", "configurations"],
 "any model, any pattern of switching the trace on and off, any output target",
 "Tests capture no traces of models.",
 [("trace output", "Environment.print_trace / trace / suppress_trace")],
 ["captured trace lines against the recorded event sequence"])

prop("C28", "Built-in monitors always mirror the actual state over time",
 "The status and mode monitors of components, the claimed/available/capacity/occupancy/requested monitors of resources, the value monitor of states, and the length and capacity monitors of their queues have, at any moment, the value of the actual state at that moment and contain for each past moment the value that was actual then. Their time weighted statistics thus equal those of the real history.",
 ["histories", "schedules", "programs"],
 "any model with any mix of process interactions",
 "Tests never compare the built-in monitors with an independent record of the state over time.",
 [("status tally", "Component.status changes / _StatusMonitor"), ("resource monitors", "Component._tryrequest / _release / Resource.set_capacity"), ("state monitors", "State.set / trigger")],
 ["monitor values and recorded histories"])

prop("C29", "Period monitors partition the observations of a monitor",
 "A PeriodMonitor assigns every observation (for a level monitor: every moment) of its source to exactly the period of the cycle it falls in, so that the period monitors together hold all observations once and each equals the corresponding periodic slice of the source.",
 ["inputs", "configurations", "histories"],
 "any periods, any tallies, level and non-level, yield and yieldless, several period monitors",
 "No stable test covers PeriodMonitor.",
 [("periods", "PeriodMonitor / _PeriodComponent")],
 ["statistics of the period monitors and of the source"])

prop("C30", "Names and sequence numbers are unique and predictable",
 "Automatically generated names consist of the base name (given or derived from the class) and, where the name ends with '.', ',' or is derived, a sequence number that counts the objects with that base name per environment and kind without gaps or duplicates from 0 (or 1 for a comma), while a plain given name is used as is. name(), base_name() and sequence_number() agree with each other.",
 ["histories", "inputs"],
 "any order of creating components, queues, resources, states, stores and monitors, with any names, in several environments",
 "Tests check a few names of queues.",
 [("naming", "_set_name")],
 ["name(), base_name(), sequence_number()"])

prop("C31", "Reports, registries and group operations are truthful and complete",
 "At any moment print_info of a component, queue, store, resource, state, environment, component generator or distribution shows exactly its actual situation (status, times, members, requests, claims, waits, values, parameters), and print_statistics and print_histograms of queues, stores, resources and states consist of the reports of exactly their own monitors (minus the excluded ones), the same whether returned as string, printed or written to a file. Registries contain exactly the registered objects in order. monitor() and reset_monitors() of a composite object switch and reset all its monitors, all_monitors() gives them all, and setup() gets exactly the extra keyword arguments once.",
 ["histories", "inputs"],
 "any history of a model, any moment at which a report is asked for",
 "Tests hardly look at printed reports.",
 [("overviews", "Component.print_info / Queue.print_info / Resource.print_info / State.print_info / Environment.print_info"), ("reports", "Queue/Resource/State.print_statistics, print_histograms"), ("registries", "*.register / deregister"), ("group operations", "Queue/Resource/State.monitor / reset_monitors / all_monitors"), ("setup", "*.setup")],
 ["printed text, registries, monitor() of the individual monitors"])

prop("C32", "Exceptions raised by model code come out of run() and damage nothing else",
 "An exception that is raised in a process comes out of the run() that is executing, as that very exception and at the moment it was raised, in yield and in yieldless mode and whatever the component continued from (its start, a hold, standby, request, wait, store operation). If the caller catches it and runs on, with the same or another end time, the component that raised never continues and keeps what it had, and all other components, resources, queues, states and stores behave, and later runs end, exactly as if that component had gone passive.",
 ["histories", "crash_points"],
 "any model, any exception type raised at any point of any process, any continuation with run()",
 "Tests do not let processes raise and run on.",
 [("event loop", "Environment.step"), ("run", "Environment.run"), ("scheduling", "Component._push / Component._remove")],
 ["exception and time of run(), later observations of all other objects"])

prop("C33", "Events act exactly once; setup and processes get their own arguments",
 "An Event executes its (last given) action exactly once, at its scheduled moment in the order of time, priority and urgency, with itself as current component; never when cancelled and not before a rescheduled time; action_taken(), action(), action_string() and the status tell so. Keyword arguments given at creation, to activate or via a ComponentGenerator reach exactly the process method or setup that has a parameter with that name, with unchanged values, and unknown ones are refused with TypeError.",
 ["histories", "inputs"],
 "any set of events with any times and priorities, cancelled, rescheduled or created by other events; any combination of arguments",
 "Tests do not use Event and hardly pass arguments to processes.",
 [("events", "Event"), ("arguments at creation", "Component.__init__"), ("arguments at activation", "Component.activate")],
 ["recorded calls of actions, setup and process methods"])

prop("C34", "A frame shows the animation objects as specified at its time",
 "A snapshot, and each frame of a video, shows exactly the animation objects that are visible and not removed (rectangles, polygons, circles, lines, points, images, texts, queues and monitor plots), each with the geometry, position, rotation, offset, anchor, layer order, colour and text that its attributes - constants, functions or methods evaluated at the time of the frame - specify under the view in force, on the background colour. What was shown earlier and changes of the view in between make no difference, and a video consists of the frames at multiples of speed/fps.",
 ["histories", "inputs", "configurations"],
 "any scene in screen or model coordinates, any attribute as constant, function of nothing, t or arg and t, any sequence of runs, updates, view changes, removals, reset_now and frames",
 "Tests make no frames at all.",
 [("rendering", "Animate2dBase.make_pil_image"), ("composition", "Environment._capture_image / Environment.snapshot"), ("queues", "AnimateQueue.update"), ("plots", "AnimateMonitor.update"), ("video", "Environment.video / _BlindVideoMaker")],
 ["pixels of snapshots and video frames", "is_removed()"])

prop("C35", "Captured and redirected output is exactly what was printed",
 "Everything that is printed while capture_stdout is in force (also by trace and statistics) is added, unchanged and in order, to the captured text, which captured_stdout_as_str, _as_list and _as_file return until it is cleared; redirect_stdout writes it to the file, with the given mode, or to the handle, which it leaves open. The original stdout gets it exactly once if include_print is given and not at all otherwise, and is in force again after leaving the context, also when that is left by an exception.",
 ["histories", "inputs"],
 "any nesting and sequence of captures and redirections to files and handles, with any text printed, written and flushed, left normally or by exceptions",
 "Tests do not use any of this.",
 [("capture", "capture_stdout"), ("redirection", "redirect_stdout"), ("results", "captured_stdout_as_str / captured_stdout_as_list / captured_stdout_as_file / clear_captured_stdout")],
 ["captured text", "contents of the files", "text that reached the original stdout", "sys.stdout"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
