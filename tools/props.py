"""The properties and how each is decided: source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""

PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=observe or []))


def na(id, title, statement, over, text, why, files, mech, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=None, note=None, observe=[]))
    NA.append((id, reason))


AI = "abstract interpretation of the SSA form (path classes, value numbering, loop fixpoints)"
TRUST = (" Assumes: distinct references in an arbitrary entry state do not alias; library calls behave as documented;"
         " machine integers do not overflow. Not decided: anything outside the rules listed in DESIGN.md for this property.")

# ---------------------------------------------------------------- state machines
prop("F01", "State machines move only along declared transitions",
     "A state machine is in its initial state after construction and after a reset, and otherwise in the target of the last accepted transition."
     " A requested transition is accepted exactly when it was declared from the current state (and no stop or nonce guard refuses it), moves to the requested state when accepted, and leaves the state unchanged when refused."
     " The declared transitions are exactly those given at construction, which fails if an option does, and no operation changes them.",
     ["inputs", "histories"], "every graph of states, every pair of states, every sequence of transition and reset calls",
     "The tests walk one four-state graph; the guarantee is over all graphs and all histories of calls.",
     ["pkg/fsm/fsm.go", "pkg/fsm/options.go"],
     [("membership test on the declared edges", "pkg/fsm/fsm.go:Machine.Allowable"), ("guarded state change", "pkg/fsm/fsm.go:Machine.transition"), ("edge declaration", "pkg/fsm/options.go:WithTransitions")],
     AI + ": pre/post obligations on every path class of each machine operation from an arbitrary machine state; induction over calls",
     "Inductive: each operation is analysed from an arbitrary state, so the result holds for all histories. Loops over declared edges are decided by traversal facts, not by bounds." + TRUST)

prop("F02", "A stoppable machine stays stopped until reset",
     "When a machine is configured to stop on errors, a refused transition stops it, and a stopped machine refuses every further transition, declared or not, until it is reset."
     " Reset always clears the stop condition and returns to the initial state, and nothing else clears it.",
     ["inputs", "histories"], "every machine state, every sequence of transition, query and reset calls, basic and nonce-protected machines",
     "One test performs one refused transition followed by one allowed transition; clearing paths elsewhere are not exercised.",
     ["pkg/fsm/fsm.go", "pkg/fsm/options.go", "pkg/fsm/nonce.go"],
     [("stop guard", "pkg/fsm/options.go"), ("stop flag set on refusal", "pkg/fsm/fsm.go:Machine.transition"), ("flag cleared", "pkg/fsm/fsm.go:Machine.reset")],
     AI + ": typestate obligations on the stop condition across every operation",
     "Each operation is analysed from an arbitrary machine state, including stopped ones." + TRUST)

prop("F03", "Nonce-protected transitions need the current single-use nonce",
     "A nonce-protected machine changes state on a transition only if the presented nonce equals its current nonce."
     " Every transition attempt, accepted or refused, and every reset replaces the nonce by at least 16 fresh bytes of the cryptographic random source, so that no nonce is accepted twice.",
     ["inputs", "histories"], "every presented byte string, every machine state, every sequence of attempts and resets (with a working random source)",
     "The tests present one right and one wrong nonce; reuse after refusals, resets and mixed histories is not reached.",
     ["pkg/fsm/nonce.go", "pkg/fsm/fsm.go"],
     [("one-shot comparison", "pkg/fsm/nonce.go:nonce.ok"), ("replacement on every exit", "pkg/fsm/nonce.go:MachineNonce.Transition"), ("random source", "pkg/fsm/nonce.go:newNonce")],
     AI + ": must-establish fact (byte equality) on every state-changing path; must-replace effect on every exit",
     "Paths on which the random source fails are excluded from the replacement rule, except that reset must report the failure." + TRUST)

# ---------------------------------------------------------------- test statistics
prop("S01", "An alarm is raised exactly when the smoothed value crosses its limit",
     "While a statistic is testing for an increase (decrease), each accepted observation replaces the smoothed value by λ·v+(1−λ)·old, v being the transformed observation, and the statistic goes into alarm exactly when the new value is above (below) its limit; the limit does not change."
     " The alarm condition, value and limit then stay as they are, however many observations follow, until a manual transition, and no observation raises an alarm in any other phase.",
     ["inputs", "histories"], "every observation and state of a statistic in every phase of its cycle",
     "The tests feed a few hand-picked series; the guarantee is over every value, including ones just at the limit, and every history.",
     ["pkg/stat/estimator.go", "pkg/stat/state.go"],
     [("transition table of the statistic", "pkg/stat/state.go"), ("comparison with the limit", "pkg/stat/estimator.go:TestStatistic.Record"), ("alarm query", "pkg/stat/estimator.go:TestStatistic.HasAlarmed")],
     AI + ": the step function of each phase is analysed from an arbitrary state; values are compared as polynomials",
     "Floating point is treated as real arithmetic." + TRUST)

prop("S02", "The limit is computed from a complete baseline window",
     "A statistic starts testing with the first observation that fills its window to capacity with values that vary, not before and not after."
     " On that observation the smoothed value becomes the estimated mean m of the window and the limit becomes m plus (increase) or minus (decrease) k·sqrt(λ/(2−λ)·variance), with the sample mean and unbiased variance for log-normal data, variance equal to mean for count data, and k from the documented constants of the distribution; before that observation no limit or value changes.",
     ["inputs", "histories"], "every series of observations, window capacity, smoothing factor and false-positive rate",
     "The tests compare a few windows of fixed data.",
     ["pkg/stat/estimator.go", "pkg/stat/k.go", "pkg/stat/lognormal.go", "pkg/stat/poisson.go"],
     [("limit", "pkg/stat/k.go"), ("estimates of a distribution", "pkg/stat"), ("phase change on a full window", "pkg/stat/estimator.go")],
     AI + ": symbolic comparison of the stored limit, estimate and k with the documented formulas as polynomials over loop sums",
     "The tabulated constants of the formula for k are taken from the source and are not validated statistically. Floating point is treated as real arithmetic." + TRUST)

prop("S03", "An observation is recorded once or refused without effect",
     "An observation whose transformed value is not a finite number is refused with an error and changes nothing."
     " Every other observation is accepted and enters the window of recent observations exactly once, transformed.",
     ["inputs", "histories"], "every floating-point observation (zero, negative, infinite, not-a-number), phase and window",
     "The tests use ordinary positive values.",
     ["pkg/stat/estimator.go", "pkg/stat/state.go"],
     [("validation", "pkg/stat/estimator.go:TestStatistic.Record"), ("transformation", "pkg/stat")],
     AI + ": refusal/acceptance obligations on every path class of an observation, event counting on the window",
     TRUST.strip())

prop("S04", "Manual transitions follow the cycle of a test statistic",
     "A new statistic is in its first baseline phase."
     " A manual transition is accepted exactly when the documented cycle allows it from the current phase (baseline, testing and alarm for increases, then for decreases, and reset from anywhere), and clears the collected observations exactly when asked to; a refused one changes nothing."
     " After a reset the next observation starts a new baseline that holds no earlier observations.",
     ["inputs", "histories"], "every phase, requested phase (also unknown ones) and history",
     "The tests take a few of the pairs of phases.",
     ["pkg/stat/estimator.go", "pkg/stat/state.go"],
     [("cycle table", "pkg/stat/state.go"), ("manual transition", "pkg/stat/estimator.go:TestStatistic.Transition")],
     AI + ": exhaustive enumeration of phase pairs over the abstract step function",
     "All 56 pairs of phase and requested phase are decided from arbitrary values." + TRUST)

prop("S05", "A composite test combines all its statistics",
     "A test passes every observation, manual transition and release to each of its statistics once, reports an error only if one of them did, and is in alarm exactly when at least one of them is."
     " Its list of phases and its exported metrics (value and limit of each statistic, under the test's name labelled with strategy, type and value) contain every statistic, and exporting does not change the test's own name.",
     ["inputs", "histories"], "every number and state of statistics",
     "The tests use one statistic.",
     ["pkg/stat/stattest.go"],
     [("fan-out", "pkg/stat/stattest.go:Test.Record"), ("disjunction of alarms", "pkg/stat/stattest.go:Test.HasAlarmed"), ("metric names", "pkg/stat/stattest.go:Test.Metric")],
     AI + ": for-all obligations on loop traversals",
     "Statistics after the first one that refuses are not required to see the observation." + TRUST)

# ---------------------------------------------------------------- metrics
prop("M01", "Metrics shared between goroutines are free of data races",
     "Every access to the state of a concurrent counter, a concurrent windowed counter or a sampled series, by any of its methods and by the goroutine that samples it, excludes every conflicting access by another goroutine."
     " Each method releases the lock it took on every path, never takes it twice and never waits for another goroutine while it holds it.",
     ["inputs", "schedules"], "every number of goroutines calling every method, every interleaving with the sampling goroutine",
     "The tests call the methods from one goroutine; a missing lock shows only under particular interleavings.",
     ["pkg/metric/counter.go", "pkg/metric/sampled.go"],
     [("read-write lock of the counters", "pkg/metric/counter.go:ConcurrentCounter"), ("lock shared with the sampling goroutine", "pkg/metric/sampled.go:NewSampledSeries")],
     "lockset analysis of all pairs of accesses over the goroutines a value is shared by; lock typestate on every path",
     "Locations are access paths from the shared value; a conflict needs a common lock held in conflicting modes at both sites." + TRUST)

prop("M02", "Counters count every addition exactly once, per window",
     "A counter's value is the sum of what was added since it was made or reset; a windowed counter's value is the sum of what was added in the current window, and zero once that window has passed."
     " An addition after the window has passed moves the finished window to the history, subject to the limits on the history, and starts a new window now, of the same duration, with that addition; without a window duration the counter counts as a plain one."
     " The concurrent forms do the same, each call as one atomic step.",
     ["inputs", "histories", "schedules"], "every counter state, amount, clock reading, history limit and interleaving",
     "The tests add to a few counters with short sleeps; expiry, zero-value counters and limits meet in combinations they do not reach.",
     ["pkg/metric/counter.go"],
     [("window expiry", "pkg/metric/counter.go:WindowedCounter.Add"), ("limits on the history", "pkg/metric/counter.go"), ("locked forms", "pkg/metric/counter.go:ConcurrentWindowedCounter")],
     AI + ": post-state obligations per case of window open, closed or unlimited, in which other goroutines may change memory at every lock",
     "What is read before the last lock is treated as changed by others. At the exact end of a window either behaviour is accepted. Negative durations are not considered." + TRUST)

prop("M03", "A counter's history holds exactly its finished windows",
     "The history a windowed counter reports holds every finished window in order, up to the configured number and age, without the open one; the inclusive history adds the current window."
     " It is a copy: reading it changes nothing, and changing it does not change the counter.",
     ["inputs", "histories"], "every history, window, clock reading and pair of limits",
     "The tests look at histories of a few windows; storage shared with the counter shows only when the slice has spare capacity.",
     ["pkg/metric/counter.go"],
     [("history queries", "pkg/metric/counter.go:WindowedCounter.History"), ("limits on the history", "pkg/metric/counter.go:newHistory")],
     AI + ": the returned sequence is compared with the specified one in closed form; aliasing of the result with the counter's storage",
     "Ages are compared with some reading of the clock during the call." + TRUST)

prop("M04", "A series keeps the latest observations in order",
     "A series of capacity n counts every observation and holds the latest n of them; once full, its values are those n, oldest first, and a reset leaves it empty with its capacity."
     " The values are returned as a copy, queries change nothing, and a series cannot be made without capacity or with an option that fails.",
     ["inputs", "histories"], "every capacity, count and sequence of observations and resets",
     "The tests use one or two capacities and few wrap-arounds.",
     ["pkg/metric/series.go"],
     [("ring index", "pkg/metric/series.go:Series.Record"), ("unrolling", "pkg/metric/series.go:Series.Values"), ("options", "pkg/metric/series.go:NewSeries")],
     AI + ": ring index and unrolled order compared with the specification in closed form; aliasing of the result",
     "A series that is not full reports unused places as zero." + TRUST)

prop("M05", "A sampled series stores one value per sample window",
     "With a sample window, the end of each window stores exactly one value: the sampling function of all observations made since the previous end, or zero when there were none, and those observations are used once."
     " Without one, every observation is stored at once. Stopping ends the sampling and waits for it, a reset forgets stored and waiting observations, and the sum, average, least and greatest functions compute what they say.",
     ["inputs", "histories", "schedules"], "every sequence of observations, resets, window ends and stops, every interleaving with the sampling goroutine",
     "The tests sample over a few windows of real time.",
     ["pkg/metric/sampled.go"],
     [("sampling goroutine", "pkg/metric/sampled.go:NewSampledSeries"), ("direct mode", "pkg/metric/sampled.go:SampledSeries.Record"), ("sampling functions", "pkg/metric/sampled.go:SampleAverage")],
     AI + ": obligations on every iteration of the sampling goroutine, in which others may change memory at every lock; closed forms of the sampling functions",
     "Floating point is treated as real arithmetic; that windows end on time is not decided." + TRUST)

prop("M06", "Metric names render completely and deterministically",
     "A metric name renders as its name followed by its metadata in brackets: the entries with a value as key=value in key order, then the annotations as @key in key order; without metadata, as the name alone."
     " Adding entries or annotations sets each of them, and a name made from another shares none of its metadata.",
     ["inputs"], "every set of metadata and annotations and every order in which a map is walked",
     "The tests render a few names; map order is random, so a missing sort passes most runs of small maps.",
     ["pkg/metric/name.go"],
     [("sorted rendering", "pkg/metric/name.go:MarshalText"), ("copy", "pkg/metric/name.go:NewNameFrom")],
     AI + ": taint of map order from iteration to output, killed by sorting; coverage of all entries by the output events",
     "Metadata the encoder rejects is left out with the rest of the metadata." + TRUST)

# ---------------------------------------------------------------- event bus
prop("E01", "The event bus is free of data races and lock misuse",
     "Every access to the state of an event bus by publishing, subscribing, unsubscribing, shutting down, the functions that signal a subscriber's end, and the goroutines these start excludes every conflicting access by another of them."
     " Each of them releases the lock it took on every path and never takes it twice.",
     ["inputs", "schedules"], "any number of goroutines using a bus in any way, every interleaving",
     "The tests publish and subscribe from few goroutines; conflicting accesses need particular interleavings.",
     ["pkg/eventbus/bus.go"],
     [("lock of the bus", "pkg/eventbus/bus.go:EventBus"), ("goroutines of Dispatch", "pkg/eventbus/bus.go:EventBus.Dispatch")],
     "lockset analysis of all pairs of accesses over the operations of the bus and the goroutines they start; ownership transfer for state replaced under the lock; lock typestate on every path",
     "Locations are access paths from the bus." + TRUST)

prop("E02", "A slow subscriber blocks nobody",
     "Publishing an event, subscribing and signalling the end of a subscriber never wait, and nothing waits while it holds the lock of the bus."
     " A delivery that waits for its subscriber is given up when the subscriber is removed or the bus shuts down, so that removing a subscriber ends, and a shutdown ends at the latest when its context does, however slow the subscribers are.",
     ["inputs", "schedules"], "every number and state of subscribers, full buffers, every interleaving",
     "The tests use subscribers that read; deadlock needs a full buffer at the moment of a shutdown or removal.",
     ["pkg/eventbus/bus.go"],
     [("delivery goroutines", "pkg/eventbus/bus.go:EventBus.Dispatch"), ("waits of the shutdown", "pkg/eventbus/bus.go:EventBus.Shutdown")],
     AI + ": effect analysis for blocking operations with the held locks; every wait must be paired with a release that happened before it",
     "A goroutine of the bus that only waits for the scheduler is not considered waiting." + TRUST)

prop("E03", "Each event reaches exactly the subscribers of its topics",
     "A published event is offered, unchanged and once per topic, to every subscriber of each topic it is published on and to every subscriber of the default topic, and to nobody else; after a shutdown events are dropped, and the caller's list of topics is not written."
     " A new subscriber joins exactly the topics it asks for, or the default topic when it asks for none, and a removed one leaves all its topics while the others keep theirs.",
     ["inputs", "histories", "schedules"], "every list of topics, set of subscribers and order of operations",
     "The tests use one or two topics and subscribers.",
     ["pkg/eventbus/bus.go"],
     [("fan-out", "pkg/eventbus/bus.go:EventBus.Dispatch"), ("joining", "pkg/eventbus/bus.go:EventBus.Subscribe"), ("leaving", "pkg/eventbus/bus.go:EventBus.Unsubscribe")],
     AI + ": for-all obligations over loops and the goroutines they start; must-reach analysis of the send for every subscriber, with the excused exits listed",
     "A subscriber that is removed while an event is under way may miss it. A topic listed twice is offered twice." + TRUST)

prop("E04", "A subscriber's channels are closed once, never during a send",
     "The event channel of a subscriber is closed only by the operation that took the subscriber off the bus, after every delivery in progress on it has ended, and no delivery starts afterwards; a channel the subscriber closed itself does no harm."
     " Signalling the end of a subscriber any number of times, from any goroutines, acts once.",
     ["inputs", "histories", "schedules"], "every interleaving of publishing, removal, shutdown and signals",
     "A send on a closed channel needs a delivery between two steps of a removal.",
     ["pkg/eventbus/bus.go"],
     [("ownership of the channel", "pkg/eventbus/bus.go:EventBus.Unsubscribe"), ("once-only signal", "pkg/eventbus/bus.go:doneCloser")],
     AI + ": ownership transfer under the lock, happens-before obligation between counted senders and the close, must-recover analysis",
     TRUST.strip())

prop("E05", "A shutdown tells every subscriber and waits for all of them",
     "A shutdown stops publication, closes the event channel of every subscriber, and returns success only after every subscriber registered before it has signalled its end, or the documented time-out error when its context ends first."
     " A subscriber that registers after a shutdown finds its channel closed, and a removed one is not waited for.",
     ["inputs", "histories", "schedules"], "every set of subscribers, order of signals and interleaving",
     "The tests shut down with one or two subscribers that end in order.",
     ["pkg/eventbus/bus.go"],
     [("shutdown", "pkg/eventbus/bus.go:EventBus.Shutdown"), ("collector of the signals", "pkg/eventbus/bus.go:shutdownNotify"), ("late subscribers", "pkg/eventbus/bus.go:EventBus.Subscribe")],
     AI + ": coverage obligations over the list of subscribers; the completion signal must be preceded by a receive for every element (directly or counted by a wait group)",
     TRUST.strip())

prop("E06", "An event carries its type and its own copy of the payload",
     "An event has the type it was made with and the encoding of its payload, in memory no other event shares; making one fails exactly when the payload cannot be encoded."
     " Decoding reads the event's payload into the receiver, reports every failure, and the failure does not show the payload.",
     ["inputs", "histories"], "every payload, type and receiver",
     "The tests encode one event at a time.",
     ["pkg/eventbus/event.go"],
     [("constructors", "pkg/eventbus/event.go:NewEvent"), ("decoder", "pkg/eventbus/event.go:Event.Decode")],
     AI + ": dataflow from payload to encoder, buffer and event; ownership of the buffer; error-propagation obligations",
     "That the encoding of the standard library round-trips is not decided." + TRUST)

prop("Q01", "A history queue keeps exactly the latest lines, in order",
     "A queue of capacity n holds the latest n items added to it, oldest first; without capacity it holds none, and clearing it leaves it empty with the same capacity."
     " Copies hold the items in order in memory of their own, and all operations may run concurrently.",
     ["inputs", "histories", "schedules"], "every capacity, history and interleaving of operations",
     "The tests add a few lines to queues of three.",
     ["pkg/monny/proc/queue.go"],
     [("operations", "pkg/monny/proc/queue.go:Queue.Add"), ("snapshot", "pkg/monny/proc/queue.go:Queue.Copy")],
     AI + ": pointwise comparison of the sequence before and after each operation from an arbitrary state; lockset and one-critical-section obligations",
     "Lines are dropped from the front by re-slicing; how much memory that keeps alive is not decided." + TRUST)

prop("L01", "Each log line is kept, published and echoed exactly once, in order",
     "For every line of a log source, in order: it enters that source's history once, one event with the line and its time goes to the log topic, and it is written with a newline once to every sink of its route (process stdout not to stderr, process stderr not to stdout, anything else to all)."
     " A failed event or a failed write is reported once on the error topic and keeps no other sink and no later line from being dealt with.",
     ["inputs", "histories"], "every source, sink set, line and pattern of failures",
     "The tests of the package never run a processor over failing sinks.",
     ["pkg/monny/proc/logs.go", "pkg/monny/proc/errors.go"],
     [("line loop", "pkg/monny/proc/logs.go:startLogEmitter"), ("routes", "pkg/monny/proc/logs.go:NewLogProcessor")],
     AI + ": per-iteration effect counting over the scan loop; dataflow from the scanned line to queue, event and sinks; for-all obligation over the sinks of each route",
     "A line longer than the scanner's limit ends its source with an error." + TRUST)

prop("L02", "Waiting for the logs ends when all sources are read, or with the context",
     "Every log source is read by exactly one goroutine, counted before it starts and signalled once as its last act; an error that ends the reading of a source is reported once, and only then."
     " Waiting succeeds only after all of them ended, fails only when its context ends first, never waits past that, and then closes every sink.",
     ["inputs", "histories", "schedules"], "every set of sources, order of their ends, and time of cancellation",
     "Needs a source that ends while another goes on, or a scan error.",
     ["pkg/monny/proc/logs.go"],
     [("emitters", "pkg/monny/proc/logs.go:startLogEmitter"), ("waiting", "pkg/monny/proc/logs.go:LogProcessor.Wait")],
     AI + ": coverage of the sources by counted goroutines; happens-before obligation between the wait group and the result; must-close over the sinks on every exit",
     "Whether a source ever ends is up to the process that writes it." + TRUST)

prop("L03", "Log options act in priority order whatever order they are given in",
     "Options are applied once each, in ascending priority: history length, then the command's sources and sinks, then the options that drop some of them; one that fails keeps the processor from being made and from reading anything."
     " A command gives its two pipes as sources and both outputs as sinks, no command gives standard input and output, each source with a history of its own of the configured length; a dropping option removes exactly what it names.",
     ["inputs"], "every list and order of options and every failure",
     "The tests apply single options.",
     ["pkg/monny/proc/logopt.go", "pkg/monny/proc/logs.go"],
     [("application", "pkg/monny/proc/logs.go:NewLogProcessor"), ("command", "pkg/monny/proc/logopt.go:WithCommand"), ("filters", "pkg/monny/proc/logopt.go:filterSink")],
     AI + ": summary of every option's effect from an arbitrary state; comparator obligation on the sort; error-propagation obligations",
     TRUST.strip())

prop("T01", "A ticker publishes one event per tick until the bus shuts down",
     "A ticker with a period above zero publishes one event of its type, without payload, per tick on the bus it was made for; without one it does nothing, not even subscribe."
     " When the bus shuts down it stops its timer, signals its end exactly once and ends.",
     ["histories", "schedules"], "every period and order of ticks, events and shutdown",
     "The test lets a few ticks pass before the shutdown.",
     ["pkg/monny/proc/ticker.go"],
     [("loop", "pkg/monny/proc/ticker.go:NewTicker")],
     AI + ": typestate of the goroutine (waiting, ticked, closed) over its loop; per-iteration effect counting",
     "When ticks happen is up to the clock." + TRUST)

prop("R01", "Exactly the reports asked for go out, each once, as the command was",
     "A report request is sent once or not at all: success, failure and start reports only where the configuration wants them, a rate alert only when the matches (of the last period, if one is set) reach the quantity, any other known reason always."
     " What is sent is a snapshot made under the command's lock; a failed or hour-long transmission is reported once as an error (the latter also cancelled)."
     " Rule matches are forgotten exactly when an alert about them was sent successfully.",
     ["inputs", "histories", "schedules", "fault_sequences"], "every configuration, reason, set of matches, answer of the server and time it takes",
     "The tests send through a stand-in that answers at once.",
     ["pkg/monny/report.go"],
     [("requests", "pkg/monny/report.go:Report.Send"), ("rate", "pkg/monny/report.go:calcAlertRate")],
     AI + ": case split over reason and configuration with effect counting; typestate of result, timeout and cancellation; lockset obligations on snapshot and matches; counting-loop rule",
     "That matches found between snapshot and forgetting are in no alert is accepted. That the server is reached is not decided." + TRUST)

prop("R02", "Limits on time and memory warn once, kill when reached, and only when set",
     "The warning about run time and the one about memory are each sent once at most per run: memory when a limit is set and reached, time when its timer expires; a kill is asked for exactly when the memory reaches a limit that is set."
     " The memory is that of the process: the sum of its proportional set sizes, nothing if they cannot all be read; the highest value seen is kept.",
     ["inputs", "histories"], "every memory content, limit and history of measurements",
     "The tests call the handlers with a process that uses no memory.",
     ["pkg/monny/handlers.go", "pkg/monny/memory.go"],
     [("memory", "pkg/monny/handlers.go:handler.CheckMemory"), ("time", "pkg/monny/handlers.go:handler.TimeWarning"), ("measurement", "pkg/monny/memory.go:calculateMemory")],
     AI + ": case split over limit, measurement and earlier warning; monotonicity of the two flags over all stores in the repository; accumulation rule over the scan loop",
     "What the kernel reports as memory is not decided." + TRUST)

prop("R03", "Waiting for a command misses no report",
     "Every report a run asks for - by a handler, by output that matches, in whichever goroutine - is counted before the request returns and signalled as done only after its transmission was answered, and asking never waits for the transmission."
     " Waiting for the command returns only after all of them.",
     ["histories", "schedules"], "every interleaving of requests, transmissions and waiting",
     "Needs a wait that starts between a request and the start of its goroutine.",
     ["pkg/monny/command.go", "pkg/monny/handlers.go", "pkg/monny/report.go"],
     [("request", "pkg/monny/command.go:Command.sendReport"), ("waiting", "pkg/monny/command.go:Command.Wait")],
     AI + ": counting of every request on every path of the handlers and the goroutines of a run; happens-before obligations between count, send and wait",
     TRUST.strip())

prop("R04", "Nothing is sent to the error service once error reports are off",
     "An unexpected error is sent to the error service once, unless error reports are off; the option turns them off, nothing turns them on again, and no other code sends to the service."
     " What is sent never contains output, matches, the user's command or the configuration.",
     ["inputs", "histories"], "every path that reports an error",
     "Tests of the package only see a stand-in for the service.",
     ["pkg/monny/error.go", "pkg/monny/config.go", "pkg/monny/command.go", "pkg/monny/report.go"],
     [("reporting", "pkg/monny/error.go:errorService.ReportError"), ("option", "pkg/monny/config.go:NoErrorReports")],
     AI + ": control dependence of the transmission on the switch; whole-program scan of uses of the service and of stores to the switch; taint from command, configuration and output to reported errors",
     "The text of errors made by libraries is not inspected." + TRUST)

prop("R05", "Reports go encrypted to the configured server and count only if acknowledged",
     "A connection is made to the configured host and port, over verified TLS unless the configuration says otherwise, and closed after every attempt."
     " An attempt succeeds exactly when the server answered without an error and acknowledged the report; the result is answered exactly once unless cancelled, and a report that could not be made is a failure.",
     ["inputs", "histories", "fault_sequences"], "every configuration, server behaviour and order of result and cancellation",
     "The tests never connect.",
     ["pkg/monny/report.go"],
     [("credentials", "pkg/monny/report.go:senderService.create"), ("transmission", "pkg/monny/report.go:senderService.sendBackground")],
     AI + ": dataflow from configuration to dial options and address; must-close on every exit; error-propagation obligations; effect counting on the result channel",
     "Retry policy and network are those of libraries." + TRUST)

prop("R06", "The end of a run is recorded and reported as what it was",
     "A process that ended well makes the run a success with exit code zero, any other end a failure with the process's exit code where the system tells it; a signal, a timeout and too much memory mark it killed, for that reason, and the process gets that signal (or a kill) once, a failure to deliver it being returned."
     " Each sets end and duration and asks for exactly one report of that kind, after everything the report tells was recorded.",
     ["inputs", "histories"], "every process state, signal and earlier state of the command",
     "The tests look at one field per handler.",
     ["pkg/monny/handlers.go"],
     [("end", "pkg/monny/handlers.go:handler.Finished"), ("signal", "pkg/monny/handlers.go:handler.Signal"), ("timeout", "pkg/monny/handlers.go:handler.Timeout"), ("memory", "pkg/monny/handlers.go:handler.KillOnHighMemory")],
     AI + ": summary of each handler's effect on an arbitrary command; order of stores and request; effect counting",
     TRUST.strip())

prop("R07", "Every expected file is checked: reported if missing, listed if created",
     "When a process has ended, every expected file is looked for once: a missing one fails the command, is named in the messages and reported once; one that is there is listed with name, size and time."
     " A file that cannot be examined does neither, and no file keeps another from being checked.",
     ["inputs"], "every list of files and every combination of results",
     "The tests check one file.",
     ["pkg/monny/handlers.go"],
     [("check", "pkg/monny/handlers.go:handleFileCreation")],
     AI + ": coverage rule over the loop of files; per-iteration case split over the result of looking; pointwise comparison of messages and list",
     "Whether the success report of the same run is sent before is not decided." + TRUST)

prop("R08", "What a run records stays consistent while reports are made",
     "What a command records while it runs is never read by one goroutine while another changes it: everything shared between the process's output, the handlers and the reports is accessed under the command's lock or in an order that rules the race out."
     " The lock is taken once at a time and released on every path, and what a report being sent holds is never overwritten by what happens later.",
     ["schedules", "histories"], "every interleaving of output, handlers, reports and waiting",
     "A race shows only in particular interleavings, and the tests run the parts one at a time.",
     ["pkg/monny/command.go", "pkg/monny/handlers.go", "pkg/monny/report.go"],
     [("output", "pkg/monny/command.go:Command.processStdout"), ("reports", "pkg/monny/report.go:Report.Send"), ("handlers", "pkg/monny/handlers.go:handleFileCreation")],
     AI + ": lockset analysis of every pair of accesses by the threads of a run, with order by start and end of goroutines; typestate of the lock on every path; ownership of lists that reports share",
     "Memory that the caller of the package changes while a command runs is not considered." + TRUST)

prop("R09", "Every line of output is passed on, remembered and read to the end",
     "Every line the process writes is passed on once, followed by a newline, to the stream it was written to, in order, and then handled; a failure to pass it on is reported as an error and keeps it from neither."
     " The history of a stream is its most recent lines, as many as configured, in order; output that cannot be read as lines is reported and still passed on.",
     ["inputs", "histories", "fault_sequences"], "every output, history length and failure to write",
     "The tests write short lines to streams that work.",
     ["pkg/monny/command.go"],
     [("streams", "pkg/monny/command.go:Command.Exec"), ("history", "pkg/monny/command.go:Command.processStdout")],
     AI + ": effect counting and order on every path of an iteration of each stream's loop; error-propagation obligations; summary of the history's update for arbitrary history and limit",
     "At most 64 KB of a line too long to read as one are lost." + TRUST)

prop("R10", "Every rule sees its text and every match is recorded and alerted once",
     "A line matches exactly the rules whose pattern is found in the whole line, or in the value its field's path leads to if the line is JSON: strings, numbers, booleans and lists of them, nothing for anything else."
     " Each rule that matches adds one record of line and all places, in order of the rules, to those remembered; a line that matched asks for one alert, by rate if a quantity is set, any other for none.",
     ["inputs", "histories"], "every line, JSON document, path and list of rules",
     "The tests try a handful of lines with one rule each.",
     ["pkg/monny/command.go"],
     [("rules", "pkg/monny/command.go:checkRule"), ("path", "pkg/monny/command.go:extractTextFromJSON"), ("alert", "pkg/monny/command.go:Command.processStdout")],
     AI + ": collection rule over the loop of rules; case split over path and type of the value; induction on the path; effect counting of alerts",
     "What a regular expression matches and how JSON is read is up to the libraries." + TRUST)

prop("R11", "Every flag and every entry of a configuration file becomes its option",
     "Every flag that can be given, and the same key in a configuration file, becomes the option of that name with exactly the value given: once, in order, and a list in a file once for each of its elements."
     " A switch that is set to false changes nothing."
     " A value that no option accepts, an unknown key, and a file that can not be read are errors, and nothing else is.",
     ["inputs"], "every command line and every configuration file",
     "The tests give one or two well-formed flags at a time.",
     ["pkg/monny/parse.go"],
     [("command line", "pkg/monny/parse.go:parse"), ("names", "pkg/monny/parse.go:handleOption"), ("file", "pkg/monny/parse.go:parseFromFile")],
     AI + ": case split over names declared and names handled, which must be the same; effect counting on every path of the loop over a file's entries and of each flag",
     "How flags are told from each other and how YAML is read is up to the libraries." + TRUST)

prop("R12", "Each option sets what it is named for, and a configuration is complete",
     "Each option changes only its own setting (rules and files add up) to the value its text denotes, memory in K, M of 1000 K or G of 1000 M, or returns an error."
     " A configuration starts from the documented defaults, has every option applied once and in order, and needs an ID and a shell."
     " If anything failed all errors are returned and no command, else a command with just that configuration.",
     ["inputs", "fault_sequences"], "every list of options with every text",
     "The tests apply single options to an empty configuration.",
     ["pkg/monny/config.go", "pkg/monny/command.go"],
     [("options", "pkg/monny/config.go:newConfig"), ("memory", "pkg/monny/config.go:MemoryKill"), ("command", "pkg/monny/command.go:New")],
     AI + ": frame rule for every option (what it may change) and summary of its result against the text; collection rule over the loop of options; every path of the constructor",
     "Memory limits below zero or too large for an integer are not considered." + TRUST)

prop("R13", "A report says what the run recorded, in codes the server knows",
     "Every field of a report is what the command recorded of the run when the report was made, or is made of nothing else: times in seconds from 1970, files, matches and configuration encoded as JSON, and the reason the report was asked for."
     " What can not be encoded is reported as an error once, and the report is made without it; making a report changes nothing."
     " The codes for reasons are those of the protocol, are distinct and are printed as their names.",
     ["inputs"], "every command and reason",
     "The tests compare reports with a function of the same code.",
     ["pkg/monny/report.go", "pkg/proto/enum.go", "pkg/proto/enum_string.go"],
     [("contents", "pkg/monny/report.go:reportFromCommand"), ("service", "pkg/monny/report.go:senderService.create"), ("codes", "pkg/proto/enum.go:ReportReason")],
     AI + ": value provenance of every field of the report on every path, completeness over the fields of the protocol's type, constant evaluation of codes and names",
     "How a value is encoded as JSON is up to the library." + TRUST)

prop("R14", "A run starts the command given and ends after all of its output",
     "The process is the command given with exactly its arguments, and the time of its start is known before anything is watched; a command that cannot be started is an error, and nothing is watched."
     " Its input is what is piped to monny, else empty, and always ends."
     " A run counts as finished once everything the process wrote was dealt with, it was waited for, its outputs were closed and all clean up was done, whether or not monny's own input is still open.",
     ["inputs", "schedules", "fault_sequences"], "every command, order of events and failure",
     "The tests run a few short commands whose output is read before they end.",
     ["pkg/monny/command.go"],
     [("run", "pkg/monny/command.go:Command.Exec"), ("clean up", "pkg/monny/command.go:Command.Cleanup")],
     AI + ": order of effects on every path of the run and of each of its goroutines; join analysis of counters and channels (who waits for whom, and for how many); value provenance of the process's arguments",
     "What the operating system does with the process, and whether the goroutines are scheduled, is not considered." + TRUST)

prop("R15", "A run is always open to end, interrupt, time limits and memory",
     "While a process runs, its end, an interrupt, each time limit that is set and a regular look at its memory are all waited for, whatever came before, and each is dealt with once, as such, by the command's handler."
     " A warning about time and memory within its limit let the run go on; anything else ends it with what its handler returns."
     " Limits that are not set never come.",
     ["schedules", "histories", "inputs"], "every order of events and setting of limits",
     "The tests let one thing happen per run, with a replaced handler.",
     ["pkg/monny/command.go"],
     [("events", "pkg/monny/command.go:Command.Exec"), ("handlers", "pkg/monny/command.go:New")],
     AI + ": classification of every channel of every select by where it was made (loop invariants for those that change), completeness of what is waited for, and effect counting on every path of an iteration",
     "When timers fire and signals are delivered is up to the runtime; the look at memory is checked on Linux." + TRUST)

# ---------------------------------------------------------------- not decided by static analysis
na("N01", "False alarms come at the error rate asked for",
   "A statistic under the null hypothesis raises false alarms at about the Type I error rate its k was chosen for: for log-normal observations and for counts, with the documented calibration constants.",
   ["inputs", "histories"], "every stationary stream of observations of the two distributions",
   "A test can only sample streams; the rate is a property of the distribution of all streams.",
   ["pkg/stat/k.go", "pkg/stat/kconst_gen.go", "pkg/stat/calibrate.go"],
   [("calibration constants", "pkg/stat/kconst_gen.go"), ("k from the error rate", "pkg/stat/k.go:KErrorRate.calculate")],
   "The constants come from a Monte Carlo simulation; no static argument over the source relates them to a false alarm probability. That the limit uses the documented formula and constants is decided (S02).")
na("N02", "An event's payload decodes to an equal value",
   "A value put into an event and read back by a subscriber into a receiver of the same type is equal to what was put in, for every type that can be encoded.",
   ["inputs"], "every encodable payload type and value",
   "The tests decode a few structs; the claim is about every type a caller may use.",
   ["pkg/eventbus/event.go"],
   [("encoding", "pkg/eventbus/event.go:NewEvent"), ("decoding", "pkg/eventbus/event.go:Event.Decode")],
   "The round trip is a property of encoding/gob driven by reflection on run-time types; the source of this repository does not determine it. That payload, encoder and decoder are connected rightly is decided (E06).")
na("N03", "Reports reach the server while the network works",
   "A report whose server can be reached is delivered within its time-out.",
   ["schedules", "crash_points"], "every behaviour of the network and of the server",
   "A test has one local server; delivery depends on the network, the gRPC library and real time.",
   ["pkg/monny/report.go"],
   [("transmission", "pkg/monny/report.go:senderService.create")],
   "Liveness over a network and real time is outside what source analysis can bound. That every attempt ends, is answered once and is counted as sent only if acknowledged is decided (R01, R03, R05).")
na("N04", "Limits on time and memory are noticed within a bounded delay",
   "A process that runs longer than its limit, or exceeds its memory limit, is warned about or killed within the polling interval of that limit.",
   ["schedules"], "every schedule of the process, the operating system and the client's goroutines",
   "The tests wait for one time-out; the delay depends on the scheduler and on the speed of reading /proc.",
   ["pkg/monny/command.go", "pkg/monny/memory.go"],
   [("timers", "pkg/monny/command.go:Command.Exec"), ("memory", "pkg/monny/memory.go")],
   "A bound in real time quantifies over the scheduler and the system; no sound static argument in reach bounds it. That every limit is waited for and dealt with once is decided (R02, R15).")
na("N05", "Random observations follow their distributions",
   "The log-normal and Poisson generators used for calibration draw from the distributions with the parameters given.",
   ["inputs"], "every parameter and every seed",
   "The tests compare sample moments of one parameter each.",
   ["pkg/rng/lognormal.go", "pkg/rng/poisson.go"],
   [("log-normal", "pkg/rng/lognormal.go:LogNormalRNG.Rand"), ("Poisson", "pkg/rng/poisson.go:PoissonRNG.Rand")],
   "A distribution of outputs over seeds is a statistical property; static analysis has no notion of it, and comparing the code with one textbook formula would judge how it is written.")

prop("S06", "A test watches the statistics it is given, or the default ones",
     "A test applies every option once, in order, and has the name given and exactly the statistics they add; if they add none, it has the two documented ones of its distribution, an EWMA (λ 0.25) and a Shewhart (λ 1) statistic with 50 baseline observations (sums over 15 seconds, for counts) and an error rate of 5 %."
     " A statistic has the name, smoothing factor, distribution and k it is made with, its window has the distribution's capacity, sample window and sampling function, and its release stops the window made last."
     " An option or a window that fails is an error, and no test or statistic is made.",
     ["inputs", "histories"], "every list of options, every name, smoothing factor, capacity, sample window, sampling function and k",
     "The tests make tests with one default statistic; lists of options, failing ones and distributions used again are not reached.",
     ["pkg/stat/lognormal.go", "pkg/stat/poisson.go", "pkg/stat/pdf.go", "pkg/stat/stattest.go", "pkg/stat/estimator.go"],
     [("options and defaults", "pkg/stat/lognormal.go:NewLogNormalTest"), ("options and defaults", "pkg/stat/poisson.go:NewPoissonTest"), ("window of a distribution", "pkg/stat/pdf.go:Poisson.NewSeries")],
     AI + ": collection rule over the loop of options; value provenance of every part of what is made; constant evaluation of the defaults",
     "Options are arbitrary functions: what they add is unknown, and kept." + TRUST)

prop("R16", "Monny ends with an error if anything failed, after all reports",
     "The user's command and exactly the options of the command line make one command, which is run once; nothing is run if the command line or an option has an error."
     " Once something was run, monny does not end before the reports of the run were waited for, whatever the run returned."
     " It exits with zero only if the command line, the options, the run and the reports had no error (a request for help aside), and else has told the user each error.",
     ["inputs", "crash_points"], "every command line, every set of options with errors, every outcome of the run and of its reports",
     "The program itself has no test.",
     ["cmd/monny/main.go"],
     [("start", "cmd/monny/main.go:main")],
     AI + ": typestate (parsed, made, run, waited for) on every path to an exit; dataflow from errors to exit status and to what is printed",
     "The library's functions are taken by their results here; what they do is decided by the other R properties. That the process itself failed is reported, not an error of monny." + TRUST)

# ---------------------------------------------------------------- across all parts
prop("P01", "The libraries do not fail on any value or history",
     "Whatever values, options and earlier operations they were given, no operation of the state machines, metrics, statistics, event bus, history queue and log processing reads or cuts a list outside its bounds, makes one of a negative length, divides a whole number by zero, converts a value to a type it does not have, calls the standard library with a value it fails on, or ends the program.",
     ["inputs", "histories"], "every argument of every exported operation and every state its object can be in",
     "The tests call each operation with a few well-formed arguments; a list that is empty, a capacity of zero or a history that has just been reset is where it fails.",
     ["pkg/fsm/fsm.go", "pkg/metric/series.go", "pkg/metric/sampled.go", "pkg/stat/pdf.go", "pkg/eventbus/bus.go", "pkg/monny/proc/queue.go", "pkg/monny/proc/logs.go"],
     [("lists of observations", "pkg/metric/series.go:Series"), ("bounded queue", "pkg/monny/proc/queue.go:Queue"), ("subscribers", "pkg/eventbus/bus.go")],
     AI + ": obligation on every index, slice, make, division, assertion and exit, from arbitrary entry states; type invariants kept by every operation",
     "Values and functions handed in are taken to exist (not to be nil); references to nothing are not decided." + TRUST)

prop("R17", "The client does not fail on any output, file or option",
     "Whatever the command line, configuration file, options, output of the process, JSON in it, rules and answers of the system are, the client does not read or cut a list outside its bounds, make one of a negative length, divide a whole number by zero, convert a value to a type it does not have, call the standard library with a value it fails on, or end the program.",
     ["inputs", "histories"], "every option, line, document, path of a rule, file and configuration",
     "The tests use a few well-formed lines, documents and files; the ones that fail are those nobody thought of.",
     ["pkg/monny/parse.go", "pkg/monny/parse.go", "pkg/monny/config.go", "pkg/monny/handlers.go", "pkg/monny/memory.go", "pkg/monny/command.go"],
     [("JSON and rules", "pkg/monny/parse.go"), ("configuration file", "pkg/monny/parse.go"), ("units of memory", "pkg/monny/config.go:MemoryWarn")],
     AI + ": obligation on every index, slice, make, division, assertion and exit, from arbitrary entry states",
     "Values handed in are taken to exist (not to be nil); references to nothing are not decided." + TRUST)

prop("C01", "Waiting for background work ends when the work has ended",
     "Each piece of work that something waits for is counted before it is started and marks its end exactly once, whichever way it ends and however many pieces there are."
     " So no wait ends while work that was counted is still going on, none is left waiting when all of it has ended, and none fails because more ended than was started.",
     ["inputs", "schedules", "fault_sequences"], "every number of pieces of work, every way each can end, every order",
     "A test sees one order and the ways to end it provokes; a way that forgets to mark its end is a hang on the day it is taken.",
     ["pkg/monny/command.go", "pkg/monny/report.go", "pkg/monny/proc/logs.go", "pkg/eventbus/bus.go", "pkg/metric/sampled.go"],
     [("reports", "pkg/monny/report.go:Report"), ("log processing", "pkg/monny/proc/logs.go"), ("event bus", "pkg/eventbus/bus.go")],
     AI + ": balance of counting and marking over every path, goroutine and loop, from arbitrary entry states",
     "That work ends at all is not decided here. Groups counted by amounts that are only known at run time are matched with the loop that uses them up, not counted exactly." + TRUST)

prop("C02", "What an operation returns is used only if it did not fail",
     "A reference, interface value or function that came back together with an error, from the system, a library or another part of the program, is used only after it is known that there was no error.",
     ["inputs", "fault_sequences"], "every operation that can fail and every way from it to a use of its result",
     "The tests do not make the system's operations fail.",
     ["pkg/monny/handlers.go", "pkg/monny/report.go", "pkg/monny/memory.go", "pkg/monny/command.go", "pkg/monny/parse.go", "pkg/monny/proc/logs.go", "pkg/eventbus/bus.go", "pkg/fsm/nonce.go", "pkg/stat/stattest.go", "cmd/monny/main.go"],
     [("files", "pkg/monny/handlers.go:handleFileCreation"), ("connection", "pkg/monny/report.go:senderService.create"), ("memory", "pkg/monny/memory.go")],
     AI + ": must-established fact (the error is nil) at every use of a result on every path",
     "Closing a file and printing a value are not uses. Plain values (numbers, texts) are not followed." + TRUST)
