NOTE = "Bounded symbolic execution: every value of the symbolic inputs within the stated bounds is covered by solver-decided paths; trusts z3, the proxy engine in /verif/symex, exact arithmetic instead of IEEE rounding, and the listed library stubs. "

prop("C01", "Events are handled in time, priority, urgency and scheduling order",
     "The clock never goes back and a component becomes current exactly at the time it was last scheduled for. Of all pending events the one handled next is the one with the lowest time, among equal times the lowest priority number, among equal priorities the urgent ones (last scheduled first) and then the others in the order in which they were scheduled. Removing or moving one event never disturbs the order, or loses or duplicates, any other event.",
     ["schedules", "inputs"], "every set of activation times, hold durations, priorities and urgent flags, and every cancelled or moved event",
     "tests check a few fixed models; ties, zero durations, priorities and removals from the middle of the event list combine in too many orders to sample",
     [("heap of (t, priority, seq) with negated seq for urgent", "Component._push"), ("removal from the heap", "Component._remove"), ("event loop", "Environment.step"), ("time computation", "Component._reschedule, activate, hold, __init__")],
     ["Environment.now()", "Environment.current_component()", "Component.scheduled_time()"], note=NOTE)

prop("C02", "run() stops exactly where asked; nothing is ever scheduled in the past",
     "run(till/duration) handles exactly the events due before the end moment (at the end moment itself: those with a lower priority number than the run's own) and leaves the clock at the end moment; run() without an end handles all events and leaves the clock at the last one; running in two consecutive parts gives the same history as running in one part. Scheduling before now raises ValueError and changes nothing on the clock, unless capping to now was asked for (argument or default), in which case the event is due now.",
     ["schedules", "inputs", "histories"], "every end moment relative to the pending events, every split of a run, every past/present/future activation moment",
     "tests use a handful of round numbers; coincidence of the end moment with events and tiny differences are not sampled",
     [("main is a scheduled component with priority inf", "Environment.run"), ("end of run", "Environment.step"), ("cap_now", "Component._reschedule, Component.hold, default_cap_now"), ("peek", "Environment.peek")],
     ["Environment.now()", "Environment.peek()"], note=NOTE)

prop("C03", "A component has one status and at most one pending event, the latest one",
     "Whatever sequence of activate, hold, passivate, cancel, standby, interrupt and resume is applied to a component, by itself or by others, it has exactly the status, scheduled time and process position prescribed by the last applicable call; earlier scheduling is withdrawn completely and a component never continues twice or at a withdrawn moment. Calls that the status does not allow raise an error and leave the component as it was. A cancelled or ended component is a data component that can be activated afresh.",
     ["histories", "schedules"], "every sequence (bounded length) of process interaction calls on a component, at every relative timing",
     "the number of call sequences times timings is far beyond the tests, which exercise each call in one situation",
     [("withdraw", "Component._remove, Component._check_fail"), ("calls", "Component.activate, hold, passivate, cancel, standby, interrupt, resume"), ("end of process", "Environment._terminate")],
     ["Component.status()", "Component.scheduled_time()", "Component.remaining_duration()"], note=NOTE)

prop("C04", "An interrupted hold continues with exactly its remaining duration",
     "For every pattern of interrupts and resumes a holding component continues after having been not interrupted for exactly its hold duration. While interrupted the remaining duration stays constant, nested interrupts need as many resumes (or one resume with all), and a remaining duration that is set while passive or interrupted is the one used.",
     ["histories", "schedules", "inputs"], "every hold duration and every sequence of interrupt/resume moments, nested or not",
     "tests interrupt at one fixed moment",
     [("interrupt/resume", "Component.interrupt, Component.resume"), ("remaining duration", "Component.remaining_duration, Component.passivate")],
     ["Component.remaining_duration()", "Component.interrupt_level()", "Environment.now()"], note=NOTE)

prop("C05", "Standby components get control after every event, in order",
     "After every event of another component (unless that component skips standby) all components that are in standby become current once, at that same time, in the order in which they went into standby, before the clock moves on. A component that is taken out of standby by activate, passivate or cancel no longer gets control for it, and no standby component is ever forgotten.",
     ["schedules", "histories"], "every interleaving of events, standby, activation of standby components and skip_standby components",
     "one or two standby models in the tests",
     [("standby lists", "Environment.step"), ("enter", "Component.standby"), ("leave", "Component._remove")],
     ["Environment.now()", "Component.status()"], note=NOTE)

prop("C06", "A queue is an ordered list: position, priority and membership agree",
     "After any sequence of enter (with or without priority), enter at head / in front of / behind, leave, pop, remove, priority change and the list operations, the queue holds exactly the components that entered and did not leave, each once, in the order prescribed by those calls; sorted entries come after members of equal and before members of higher priority number. Length, index, successor, predecessor, membership, iteration forward and backward, slices and each component's own view of its queues all agree with that order.",
     ["histories", "inputs"], "every sequence (bounded length) of queue operations with arbitrary priorities",
     "tests use fixed sequences on tiny queues",
     [("doubly linked list", "Qmember.insert_in_front_of, Component.leave"), ("positions", "Component.enter, enter_at_head, enter_in_front_of, enter_behind, Component.priority"), ("list interface", "Queue.__getitem__, __delitem__, insert, pop, append, extend, remove, move, clear, index")],
     ["Queue iteration", "Component.queues()"], note=NOTE)

prop("C07", "Queue capacity and queue statistics reflect exactly what happened",
     "A queue never holds more than its capacity: an entry beyond it raises QueueFullError and changes nothing. At any time the length statistics are the time integral of the true length since the start or last reset, the length of stay statistics have one entry per departure equal to departure minus entry time, the available quantity is capacity minus length, and arrivals minus departures is the length.",
     ["histories", "schedules", "inputs"], "every sequence of arrivals, departures, capacity changes and resets at arbitrary moments",
     "tests check printed reports of a few models",
     [("capacity", "Qmember.insert_in_front_of, Queue.set_capacity"), ("tallies", "Qmember.insert_in_front_of, Component.leave, Queue.reset_monitors")],
     ["Queue.length", "Queue.length_of_stay", "Queue.number_of_arrivals"], note=NOTE)

prop("C08", "Resource quantities are conserved and never over-claimed",
     "At every moment the claimed quantity of a resource equals the sum of what its claimers hold, it is never more than the capacity unless the capacity was lowered meanwhile, available plus claimed is the capacity, and the statistics and the components' own views agree. A request for several resources claims all of them at one moment or none (with oneof: exactly one). What a component holds comes back when it releases, ends, or is cancelled, no more and no less, and never when it is merely passivated or re-activated.",
     ["histories", "schedules", "inputs"], "every mix of requesters, quantities, capacities, releases (partial or full), cancels and ends",
     "tests use one or two clerks with integer quantity one",
     [("claim", "Component._tryrequest, Component.honor_all, Component.honor_any"), ("release", "Component._release, Resource.release"), ("auto release", "Environment._terminate, Component.cancel"), ("capacity", "Resource.set_capacity")],
     ["Resource.claimed_quantity()", "Resource.available_quantity()", "Component.claimed_quantity()"], note=NOTE)

prop("C09", "Requests are honored in priority order and no honorable request waits",
     "Requesters are served in order of request priority, first come first served within a priority. Whenever a request, release, capacity change, cancel, end or failed request is done, no component is left waiting for a request that could be honored under the resource's rules (honor_only_first: only the first in line, honor_only_highest_priority: only those of the best priority), and an honored component continues at that same time.",
     ["histories", "schedules"], "every arrival order, priorities, quantities and freeing events, for each honoring rule",
     "lost wake-ups need particular orders of requests and releases that the tests do not contain",
     [("scan of requesters", "Resource._tryrequest"), ("rules", "Component.honor_all, Component.honor_any"), ("order", "Component.request -> Component.enter"), ("minimum quantity shortcut", "Resource._minq")],
     ["Resource.requesters()", "Component.isrequesting()"], note=NOTE)

prop("C10", "A timed request or wait fails exactly at its limit or is honored, never both",
     "A request, wait or store request with a fail moment either is honored at a moment not later than that, with failed() false, or gives up exactly at that moment, with failed() true. After giving up, or after being activated, passivated or cancelled by another component, it holds nothing it asked for, is in none of the waiting lists, and can never be honored for it later.",
     ["schedules", "inputs"], "every fail moment relative to the freeing moment, ties included, for requests, waits, from_store and to_store",
     "tests have no ties between failing and honoring and do not look at what is left behind",
     [("give up", "Component._check_fail"), ("fail event", "Component.request, wait, wait_for, from_store, to_store"), ("honor removes the fail event", "Component._tryrequest, _trywait")],
     ["Component.failed()", "Resource.requesters()", "State.waiters()"], note=NOTE)

prop("C11", "Anonymous resources keep their contents between zero and capacity",
     "For an anonymous resource the claimed quantity is the initial quantity plus all honored gets minus all honored puts and releases; it never leaves the range from zero to capacity through gets and puts. A get or put waits until it can be honored completely, is served in priority order, and no get or put that can be honored is left waiting.",
     ["histories", "schedules", "inputs"], "every mix of gets, puts, capacity and initial quantity",
     "the tests contain one simple tank model",
     [("get/put", "Component.get, Component.put, Component.request"), ("scan", "Resource._tryrequest"), ("release", "Resource.release")],
     ["Resource.claimed_quantity()"], note=NOTE)

prop("C12", "A preemptive resource bumps only lower priority claimers and only when needed",
     "A request on a preemptive resource that cannot be honored from what is free takes away claims of claimers with a strictly worse priority, starting with the worst and the latest, and only as many as are needed; when even that would not be enough nothing is taken away. A bumped component loses its whole claim, is activated at once and can detect it with isbumped/isclaiming; quantities stay conserved.",
     ["histories", "schedules", "inputs"], "every set of claimers with priorities and quantities and every new request",
     "tests have a single machine of capacity one",
     [("bumping", "Component.request"), ("loss of claim", "Component._release"), ("query", "Component.isbumped, Component.isclaiming")],
     ["Component.isbumped()", "Resource.claimers()"], note=NOTE)

prop("C13", "A wait ends as soon as, and only if, its condition on states holds",
     "A component waiting for any or all of a set of states (with values, $-expressions, functions, or a general condition) continues immediately if the condition holds, otherwise at the moment a state change makes it true, and never while it is false. When a state gets a value all waiting components whose condition then holds continue at that time in priority/arrival order; trigger() lets at most the given number through, for the trigger value, and leaves the state at the value after.",
     ["histories", "schedules", "inputs"], "every history of state values and every set of waiting conditions",
     "tests use one or two boolean states",
     [("evaluation", "Component._trywait"), ("wake up", "State._trywait, State.set, State.reset, State.trigger"), ("registration", "Component.wait, Component.wait_for")],
     ["Component.iswaiting()", "State.waiters()", "State.get()"], note=NOTE)

prop("C14", "Stores neither lose nor duplicate items and match requests to items in order",
     "Every item put in a store is later in exactly one place: still in the store, delivered to exactly one from_store, or removed explicitly; a store never holds more than its capacity. A from_store receives the first matching item (or the one with the lowest key) and a to_store puts its item at its priority; waiting requests are served in request priority order, and no request that can be served by the present contents or free space is left waiting, also after filter or capacity changes.",
     ["histories", "schedules", "inputs"], "every mix of producers, consumers, filters, keys, capacities, several stores per request",
     "tests show single store producer/consumer models only",
     [("take", "Component.from_store, Qmember.insert_in_front_of"), ("put", "Component.to_store, Component.leave"), ("re-evaluation", "Store.rescan, Store.set_capacity, Component.filter")],
     ["Store contents", "Component.from_store_item()", "Store.from_store_requesters()"], note=NOTE)

prop("C15", "Level monitor statistics equal the time-weighted statistics of the true signal",
     "For a level monitor the mean, standard deviation, minimum, maximum, duration, percentiles, value durations and the value at a time are those of the piecewise constant function that was tallied, up to now, excluding (if asked) zeroes and excluding the periods in which the monitor was switched off.",
     ["histories", "inputs", "schedules"], "every sequence of tallied values, moments, off periods and resets",
     "tests compare printed tables for a few sequences",
     [("recording", "Monitor.tally, Monitor.monitor, Monitor.reset"), ("statistics", "Monitor._xweight, Monitor._xt, mean, std, minimum, maximum, duration, percentile, value_duration, bin_duration"), ("lookup", "Monitor.__call__, Monitor.get")],
     ["Monitor.mean()", "Monitor.std()", "Monitor.percentile()"], note=NOTE)

prop("C16", "Non-level monitor statistics equal the weighted statistics of the tallies",
     "For a non-level monitor the number of entries, weight, mean, standard deviation, minimum, maximum, median and percentiles, value and bin counts are those of the multiset of tallied values with their weights, in whatever order they were tallied, including or excluding zeroes, and only of what was tallied while the monitor was on. Every value is counted in exactly one histogram bin.",
     ["inputs", "histories"], "every sequence of tallied values and weights",
     "tests compare printed tables for a few sequences",
     [("recording", "Monitor.tally"), ("statistics", "Monitor._xweight, mean, std, minimum, maximum, percentile, bin_number_of_entries, value_number_of_entries, bin_weight, value_weight")],
     ["Monitor.mean()", "Monitor.percentile()", "Monitor.bin_number_of_entries()"], note=NOTE)

prop("C17", "Keeping statistics only gives the same statistics as keeping everything",
     "A monitor that keeps only aggregate statistics reports the same mean, standard deviation, minimum, maximum, number of entries, weight and duration, including or excluding zeroes, as one that keeps all values, for the same sequence of tallies, off periods and resets.",
     ["inputs", "histories"], "every sequence of tallied values, weights and moments",
     "no test compares the two",
     [("running aggregates", "Monitor.tally, Monitor._tally_add_now, Monitor.reset"), ("statistics", "Monitor.mean, std, minimum, maximum, number_of_entries, weight, duration")],
     ["Monitor.mean()", "Monitor.std()"], note=NOTE)

prop("C18", "Slicing, merging and mapping monitors transform the recorded data exactly",
     "A slice of a monitor contains exactly the part of the recorded data in the half open period (or union of periodic periods) asked for; merging level monitors gives at each time the function of their values and merging others gives the union of the entries; mapping, multiplying and scaling transform each recorded value (or each moment) and keep weights and durations. The original monitor is not changed by any of these.",
     ["inputs", "histories"], "every recorded sequence, slice boundary and factor",
     "tests slice with a few round numbers",
     [("slices", "Monitor.slice, Monitor.__getitem__"), ("merge", "Monitor.merge, Monitor.__add__, sum"), ("maps", "Monitor.x_map, Monitor.multiply, Monitor.t_multiply, Monitor.to_time_unit, Monitor.as_level")],
     ["Monitor.xt()", "Monitor.xduration()"], note=NOTE)

prop("C19", "Sampled values lie in the distribution's support and follow its inverse CDF",
     "For every value the random stream delivers, sampling returns a value within the support: between the bounds for uniform, triangular, bounded, and interpolated distributions, one of the given values with a positive probability for discrete ones. Discrete and interpolated distributions are monotone inverse cumulative distributions: the set of stream values giving a certain outcome has exactly its probability, and sampling n values without replacement gives n different ones. Only the distribution's own stream is used.",
     ["inputs"], "every stream value in [0,1) and every parameter set",
     "tests look at one seeded sequence",
     [("sampling", "Uniform.sample, IntUniform, Triangular, Constant, Cdf.sample, Pdf.sample, CumPdf.sample, Pmf, CumPmf, Bounded.sample, Exponential.sample, Poisson.sample")],
     ["sample()"], note=NOTE)

prop("C20", "Distribution means, arithmetic and time units are consistent",
     "The mean of a distribution is the mean of what it samples; arithmetic on distributions samples every operand once and combines the samples with the operator; a distribution with a time unit samples and reports its mean multiplied by exactly one conversion factor from its unit to the environment's unit, for every kind of distribution and also when nested.",
     ["inputs", "configurations"], "every parameter set, operator and pair of time units",
     "tests check a few means without time units",
     [("units", "_time_unit_factor, _Distribution.register_time_unit"), ("means", "all distributions' mean()"), ("arithmetic", "_Expression.sample, _Expression.mean, Map.sample")],
     ["sample()", "mean()"], note=NOTE)

prop("C21", "A component generator creates exactly the components asked for, when asked",
     "A component generator creates components only between its start and end (start/till/duration), never more than the given number, at the prescribed moments: separated by the sampled inter arrival times, or at the given moments, or spread/equidistant within the period with exactly the given number. Every component is created at the moment the generator becomes current, forced first/last arrivals are respected, and at_end is called exactly once, at the end.",
     ["inputs", "configurations"], "every inter arrival time, start, end, number and mode",
     "tests use one or two fixed generators",
     [("generation", "ComponentGenerator.__init__, do_iat, do_iat_till, do_spread, do_moments")],
     ["creation_time()"], note=NOTE)

prop("C22", "Time units and dates convert consistently everywhere",
     "Converting a duration to the environment's time unit and back is the identity and all unit conversions are mutually consistent (one day is 24 hours, and so on). With a start date, time to date and date to time are inverse, durations and times given as numbers, dates, timedeltas or callables are interpreted identically in every call, and resetting now shifts dates along. Times and durations as text denote that same time or duration.",
     ["inputs", "configurations"], "every duration and every pair of units",
     "tests check a few units with a few numbers",
     [("conversion", "Environment.hours/.../to_hours/..., _time_unit_lookup, Environment.to_time_unit"), ("specs", "Environment.spec_to_time, spec_to_duration, datetime_to_t, t_to_datetime, timedelta_to_duration, duration_to_timedelta")],
     ["Environment.hours()", "Environment.datetime_to_t()"], note=NOTE)

prop("C23", "Resetting the clock shifts all reported times and changes nothing else",
     "After reset_now all moments that are reported or given (now, scheduled, creation, enter, mode and fail times, till, at, the times to query or slice a monitor; not the registered times in Monitor.xt()/tx(), that are documented to stay as they are) are on the new time scale, and the simulation continues exactly as it would have done without the reset: same order, same durations, same statistics.",
     ["histories", "inputs"], "every moment and value of the reset, with pending events, requests, waits, queues and monitors present",
     "tests reset once with nothing pending",
     [("offset", "Environment.reset_now, every use of Environment._offset")],
     ["Environment.now()", "Component.scheduled_time()"], note=NOTE)

prop("C24", "Process style, tracing and monitoring never change simulation results",
     "A model written with yields and the same model written without yields give the same history of events, claims, waits, store contents and statistics. Switching trace or monitoring on or off at any moment changes neither the history nor the values that are monitored meanwhile elsewhere.",
     ["schedules", "configurations", "histories"], "every schedule of a mixed model (holds, requests, waits, stores, interrupts) under each configuration",
     "tests have separate models for each style and never compare",
     [("two control switches", "Environment.step, Component._push"), ("trace", "Environment.print_trace"), ("monitor", "Monitor.monitor")],
     ["event history"], note=NOTE)

prop("C25", "Interpolation and number helpers are exact, monotone and clamped",
     "interpolate and interp return the end values outside the range, the given values at the given points, and lie linearly between neighbouring points; linspace and arange deliver the documented points; color/number interpolation of tuples works element by element.",
     ["inputs"], "every argument value",
     "tests check a few points",
     [("helpers", "interpolate, interp, linspace, arange, searchsorted")],
     ["interpolate()"], note=NOTE)

prop("C26", "Trajectories are continuous and consistent with their own duration and length",
     "A trajectory starts and ends at its given times, the position moves continuously along the path with speed never above the maximum and acceleration as given, the covered length is nondecreasing and totals the path length, and merged trajectories follow each other without a gap; before the start and after the end it stays where it begins and ends.",
     ["inputs"], "every path, speed profile and moment",
     "tests hardly touch trajectories",
     [("movement", "_Movement"), ("paths", "TrajectoryPolygon, TrajectoryCircle, TrajectoryStandstill, TrajectoryMerged")],
     ["x(t), y(t), length(t), in_trajectory(t)"], note=NOTE)

prop("C27", "Period monitors split the recorded data over the periods without loss",
     "A period monitor assigns every moment (level) or tally (non-level) to exactly the period in which it falls, cycling through the given periods; the statistics of the periods together are those of the whole monitor. It never disturbs the monitor it observes.",
     ["inputs", "histories"], "every set of period lengths and tally moments",
     "one seeded test model",
     [("periods", "PeriodMonitor, _PeriodComponent"), ("tally hook", "Monitor.tally")],
     ["PeriodMonitor[i]"], note=NOTE)

prop("C28", "The status and mode histories account for all of a component's time",
     "The status monitor of a component records at every moment exactly the status the component has, so that the durations in all statuses since creation add up to its age; mode works likewise with the modes that were set, and mode_time is the moment of the last mode assignment.",
     ["histories", "schedules"], "every history of process interactions",
     "tests look at final prints only",
     [("status", "_StatusMonitor, every assignment to status"), ("mode", "Component.set_mode, _ModeMonitor")],
     ["Component.status.value_duration()"], note=NOTE)

prop("C29", "Random streams are reproducible and independent",
     "Seeding a stream with a given seed (random_seed, or the random_seed argument of Environment, 1234567 by default and none for '') makes the samples and hence the whole simulation history the same as after any earlier seeding with that seed in the same program, and a distribution with its own stream gives the same samples whatever is drawn from or done to other streams.",
     ["inputs", "histories"], "every seed and program",
     "tests use one seed and never seed twice",
     [("seeding", "random_seed, Environment.__init__"), ("own stream", "_Distribution, Uniform, Exponential, Normal, Pdf, Cdf, Distribution, ..."), ("models", "ComponentGenerator, Component.hold")], ["sample()", "random_seed()"], note=NOTE)

prop("C32", "Environments in one program are independent of each other",
     "A model in one environment has exactly the history and statistics it would have alone, whatever other environments are created, run alternately with it or inside one of its processes, traced or reset, in whatever process style; objects that are derived from or created by an object (queues and monitors of a resource, slices, merges, copies, generated components) belong to that object's environment, also when another one is the default.",
     ["histories", "schedules", "configurations"], "every pair of models and every interleaving of their runs",
     "tests use one environment at a time",
     [("environment", "Environment.__init__, Environment.run, _set_env"), ("objects", "Component, Queue, Resource, State, Store, Monitor, ComponentGenerator, Event, PeriodMonitor")], ["env.now()", "history"], note=NOTE)

prop("C33", "An event's action is done once, at its moment, unless cancelled or moved",
     "The action of an Event object is executed once per scheduling, at the scheduled moment, in the event order (time, priority, urgency, creation), with the event as current component; action_taken() tells whether it was ever executed; cancelling, passivating, interrupting, moving or replacing the action before that moment has the documented effect and no other.",
     ["histories", "schedules"], "every set of events and every later operation on them",
     "there is no test of Event with more than one event",
     [("event", "Event"), ("scheduling", "Component.activate, cancel, interrupt, resume, passivate")], ["the action", "action_taken()"], note=NOTE)

prop("C34", "Animation objects have the position, size and color that belong to the time",
     "At any time t an Animate object's attributes are the linear interpolation between the begin and end values over t0..t1, and update() continues from the present values; attributes of the other 2d and 3d animation objects may be given as a constant, a function of nothing, of t or of arg and t, or a method, and always yield that value for their own object; AnimateQueue and Animate3dQueue lay the members out in queue order, each offset by the sizes of those before it, and show nothing else; AnimateMonitor's graph passes through exactly the recorded values that fall in its window; is_removed(), remove() and show() agree; everything is shown in the environment of its subject.",
     ["inputs", "histories"], "every attribute value, time and queue or monitor history",
     "tests never look at animation objects",
     [("classic", "Animate, AnimateClassic, interpolate"), ("dynamic attributes", "DynamicClass, Animate2dBase, Animate3dBase"), ("queues", "AnimateQueue.update, Animate3dQueue.update"), ("graphs", "AnimateMonitor.line, t_to_x, value_to_y, update")], ["x(t)", "spec(t)", "is_removed()"], note=NOTE)

prop("C35", "Printed reports show the numbers that the statistics methods give",
     "print_statistics of monitors, queues, resources and states prints, per monitor and column (all, excluding zeros, zeros), the numbers the corresponding methods return at that moment; print_histogram of values lists exactly the requested or occurring values, in the requested order, with their count, weight or duration and percentage, and a rest that makes the total complete; print_info lists members, claimers, requesters and waiters in order with their times and quantities; a string, a file and the screen get the same text.",
     ["inputs", "histories"], "every monitor content and model state",
     "tests never look at the reports",
     [("reports", "Monitor.print_statistics, print_histogram, Queue/Resource/State.print_statistics, print_info"), ("formatting", "fn, return_or_print")], ["printed text"], note=NOTE)

prop("C36", "The trace shows what happens, once, in order and at its time",
     "With tracing on, the trace lists every component that becomes current (with the time, and standby if so) and every process interaction that is done (hold, passivate, standby, activate, interrupt, resume, cancel, enter, leave, request, claim, release, wait, set, store operations, data component moves, ...), each once, in the order in which it happens, with the names involved and the moment, delay, quantity or value that it really has, on the clock as reset; nothing else is listed, nothing of components whose trace is suppressed, and nothing while the trace is off; switching it off in a block is undone at the end of the block, also by an exception. All output goes to the file given.",
     ["histories", "schedules", "inputs"], "every history of process interactions with every duration",
     "tests never read the trace",
     [("trace", "Environment.print_trace, trace, suppress_trace"), ("lines", "every process interaction of Component, Queue, Resource, State, Store"), ("times", "Environment.time_to_str, duration_to_str, Component._push, _remaining")], ["printed trace"], note=NOTE)

prop("C37", "Names and sequence numbers identify the objects of an environment",
     "An object gets exactly the name given; a name that ends in a point (or a comma) is completed with the number of objects that got that same serialized name before, counted per environment and per kind of object from 0 (or 1); without a name, or with only a point or comma, the class name in lowercase is serialized. sequence_number() and base_name() tell that number (1 if not serialized) and the name as given, forever; name(txt) changes name() and the names of the parts (queues and monitors of the object), as if made with that name, and nothing else. Numbers are never given twice and never skipped, in whatever order and by whatever means (model, generator, process, other environment) objects are made.",
     ["inputs", "histories"], "every name (symbolic characters) and every history of creations and renames",
     "tests check a few names of one kind",
     [("naming", "_set_name, object_to_str"), ("renaming", "Component.name, Queue.name, Resource.name, State.name, Store, Monitor.name, Environment.name"), ("counters", "Environment.__init__ (_nameserialize...)")], ["name()", "base_name()", "sequence_number()"], note=NOTE)

prop("C30", "Animation, video, audio and user interface show the model state",
     "What is drawn for an animation object at time t is what its attributes (C34) prescribe at t, and producing animation never alters the simulation.",
     ["inputs", "configurations"], "every animation object and time",
     "needs a display",
     [("animation", "Environment.animation_*, Animate*")], ["screen"],
     na="depends on tkinter, PIL, OpenGL and a display, i.e. C code that cannot be executed symbolically and is not available headless here")

prop("C31", "ItemFile delivers exactly the items of a text, in order, typed as asked",
     "Reading items from a text or file gives, line by line, the maximal runs of characters between whitespace (blank, tab), quoted texts (single or double quotes, kept literally, the null string included) and comments: everything after # (outside quotes and braces) and everything within curly braces is ignored and separates items. read_item_int and read_item_float give the number the item denotes (with a decimal point or comma), or ValueError; read_item_bool is False for false in any case, for any notation of zero and for the null string, and True for anything else. After the last item EOFError is raised.",
     ["inputs"], "every text within the bounds, with every character symbolic",
     "a few sample files cannot cover the adjacency of quotes, braces, comments, blanks and line ends",
     [("scanner", "ItemFile._nextread"), ("typed items", "ItemFile.read_item_int, read_item_float, read_item_bool")], ["ItemFile.read_item()"], note=NOTE)
