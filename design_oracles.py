O = dict(
    C01="the list of pending (time, priority, urgent, scheduling number) kept by the harness; the component that becomes current must be the minimum under the documented order, at exactly its time. Removal and moving is done in every heap layout of up to 7 entries",
    C02="the events that lie before the end moment are exactly those handled (comparison per event), the clock afterwards is the end moment, two part runs give the log of the one part run; past scheduling raises ValueError or is capped",
    C03="a reference model of one component (status, pending event, position) that is updated per call as documented; compared after every call and at every continuation",
    C04="total uninterrupted time at the continuation equals the hold duration; reference of interrupt level and remaining duration",
    C05="the list of components in standby kept by the scripts; every event must be followed by exactly these, in order, at the same time",
    C06="a Python list of (component, priority) with the documented insertion rules; every view of the queue (length, index, successor, predecessor, iteration, slices, component's queues) is compared with it",
    C07="the record of the queue length over time: integrals, number of entries, stays, capacity minus length, recomputed directly",
    C08="a ledger per component and resource; claimed, available, claimers, requesters and the monitors are compared after every call and every event",
    C09="a reference scheduler of requests (priority, order of request, rule for honoring) that gives who must be honored when and in which order",
    C10="the fail moment as an assertion: honored and not failed not later than the limit, or failed exactly at the limit; afterwards no requesters/waiters/claims/stores contain the component and freeing what it asked for does not wake it",
    C11="a tank: contents plus and minus what was honored; reference of the order in which gets and puts are honored; never outside 0..capacity, nothing honorable left waiting",
    C12="a reference of preemption: worst and latest claimers with a strictly worse priority, as many as are needed, none if not enough",
    C13="the condition evaluated directly on the states after every operation; continuation exactly when it is true, in order; trigger with max and value_after",
    C14="multiset of items (in a store, delivered, removed) and a reference for the matching of waiting requests",
    C15="a piecewise constant function (harness/level.py); integrals, extremes and percentiles computed from its segments",
    C16="the list of (value, weight); defining (in)equalities of mean, variance, extremes, percentiles and bins",
    C17="the same operations on a full and on a statistics only monitor, and the reference of C15/C16",
    C18="the recorded function (or entries) restricted, combined or mapped directly; original compared before and after",
    C19="support and inverse CDF as (in)equalities over a symbolic random number; measure of the set of stream values per outcome",
    C20="closed form of the mean, one conversion factor, one sample per operand (the symbolic stream counts the draws)",
    C21="the list of moments prescribed by the documentation, computed from the same symbolic inter arrival times, moments or random numbers",
    C22="exact rational conversion factors; symbolic datetime/timedelta objects (harness/dates.py) with their defining arithmetic; every call that takes a time or duration is compared for all forms of specification",
    C23="the same model without resets; every logged moment must differ by exactly the offset and everything else be equal",
    C24="the same model in the other process style, with trace or monitoring switched at a symbolic moment; logs compared event by event",
    C25="defining (in)equalities: on the line through the two neighbouring points, clamped, monotone",
    C26="laws of motion: speed and acceleration limits, continuity and length as inequalities between symbolic moments",
    C27="a partition of time (windows per period) and the part of every recorded segment or tally in it",
    C28="the status and mode observed after every event; durations compared with the monitors",
    C29="a seeded stream is an uninterpreted sequence per seed (harness/stream.py): the same seed must give the same symbols, other streams none of them",
    C30="depends on tkinter, PIL, OpenGL, ffmpeg and a display: C code that cannot be executed symbolically, and nothing of it is reachable headless. What animation objects prescribe, as far as computed in Python, is C34; that tracing and process style do not alter a simulation is C24",
    C31="a scanner written from the documentation, on code points; the characters are solver variables (symex/text.py)",
    C32="the same model alone in a fresh environment; logs and statistics must be equal; the environment of everything derived is compared by identity",
    C33="a reference list of scheduled actions; each is done once, at its moment, in the order of C01",
    C34="linear interpolation formulas per attribute; positions of queue members as sums of the sizes before; graph points as scaled recorded values; public show/remove/is_removed against what is registered in the environment",
    C35="the numbers in the report (opaque tokens that stand for the symbolic numbers, or parsed text in a replay) against the statistics methods",
    C36="a log that the components of the model keep themselves, entry by entry; the printed numbers are opaque tokens for the symbolic numbers (or parsed text in a replay)",
    C37="a counter per environment, kind and serialized name; in `symbolic` the characters of the names are solver variables (symex/text.py)",
)
