SIM = "deterministic simulation with fault injection: "
PROPS = [
 dict(id="C01", title="Circular buffer delivers every accepted element once, in order",
  statement="With one producer and one consumer (threads or interrupt and main loop, any interleaving), the elements read out of the circular buffer are exactly the elements the write calls reported as accepted: same values, same order, none lost, duplicated, invented or torn. Peeking returns the next elements without consuming them, dropping discards exactly the reported number, and no call touches memory outside the storage, the control block and the caller's array.",
  over=["schedules", "histories", "configurations"],
  text="every storage size, starting index position, history of bulk and single writes, reads, drops and peeks of any length, and every interleaving of the producer's and consumer's shared memory accesses (including one call nested whole inside another, as from an interrupt)",
  why="The unit tests call the functions one after the other from a single thread, on a few sizes; they never pre-empt a call, so they cannot see a publication before the data, a stale index, or a wrap that only collides under concurrency.",
  files=["gel/collections/circular_buffer.c", "gel/collections/circular_buffer.h"],
  mechanism=[("single-writer indexes: producer only moves head, consumer only moves tail", "circular_buffer.c: advance_pointer, retreat_pointer"), ("data copied before the index that publishes it", "circular_buf_puts, circular_buf_putc, _circular_buf_get")],
  state=[("head", "next write position, owned by the producer", "circular_buf_t"), ("tail", "next read position, owned by the consumer", "circular_buf_t")],
  observe=["values returned by gets/getc/peek against values passed to accepted puts/putc", "final drain after both sides stop"],
  technique=SIM + "seeded pre-emption at every shared memory access, stream model",
  level_note="Seeded search over explicit schedules of the real code (three builds: element size 1 and 4 bytes, -O0/-O1/-O2), pre-empted at every instrumented memory access. Assumes one producer, one consumer and sequentially consistent memory (no weak-memory reordering)."),
 dict(id="C02", title="Circular buffer reports and honours its true occupancy",
  statement="Every write call accepts as many elements as there is certainly room for and never more than can have been free during the call, every read call returns as many as were certainly stored and never more than can have been stored, with capacity always storage size minus one. Size, full and empty queries made by the producer or the consumer agree with an occupancy that really existed during the query; any thread's size answer stays between zero and the capacity. Initialisation without a storage is refused.",
  over=["schedules", "histories", "configurations"],
  text="every storage size, index position, history and interleaving, including queries racing with the other side",
  why="Tests compare the counters in quiescent states only, and one of them never filled the buffer; whether an answer given while the other side runs was ever true needs all interleavings.",
  files=["gel/collections/circular_buffer.c", "gel/collections/circular_buffer.h"],
  mechanism=[("one element of the storage kept free", "is_circular_buf_full, circular_buf_capacity"), ("occupancy from one snapshot of the indexes", "circular_buf_size")],
  observe=["return values of every call against interval bounds on the occupancy"],
  technique=SIM + "interval occupancy oracle under seeded pre-emption",
  level_note="Same simulator as C01; bounds are computed from call intervals, so they hold for any linearisation point a correct implementation may choose. Queries of a third thread are only held to the range 0..capacity."),
 dict(id="C03", title="Every circular buffer call ends in a bounded number of its own steps",
  statement="A call on the circular buffer finishes within a number of its own execution steps bounded by the requested length, whatever the other side does meanwhile: it never waits, retries or spins on the other side's progress. In particular it finishes when the other side is stalled forever or frees or fills space in the middle of the call.",
  over=["schedules", "histories", "configurations"],
  text="every storage size, index position, requested length and interleaving, including a stalled peer",
  why="A livelock needs the peer to move its index at one particular point of a running call; a sequential test never produces it.",
  files=["gel/collections/circular_buffer.c"],
  mechanism=[("copy loops that always advance", "circular_buf_puts, _circular_buf_get")],
  observe=["instrumented steps taken by each call between entry and return"],
  technique=SIM + "per-call step accounting under seeded pre-emption and stalls",
  level_note="Bound used: 3000 + 300 x length own steps, far above any real need, so only a genuine loop trips it. Sequentially consistent memory assumed."),
 dict(id="W01", title="Wear-levelled storage never loses an acknowledged record",
  statement="Whatever the page size, record length and history of writes, reading returns the record of the last write that was reported successful. After a restart at any point, including a power cut at any byte of a block write, initialising again finds that record or, only if a write was in flight, the complete record being written: never an older one, never a mixture (with at least two blocks). Several stores live side by side without affecting each other, and no block outside the page is ever asked of the device.",
  over=["histories", "crash_points", "configurations"],
  text="every number of blocks 1..255 (atomicity from 2), record length, erased pattern, history of writes long enough for the page and the one-byte marker to wrap, and every power-cut point inside a block write (data first, marker last)",
  why="The tests write a handful of records in a tiny RAM page and never cut power inside a write, fill the page exactly, or wrap the marker.",
  files=["gel/wearleveling/wearleveling.c", "gel/wearleveling/wearleveling.h"],
  mechanism=[("next block written with marker + 1; the last consecutive marker is the active block", "wearleveling_write, search_last")],
  state=[("last_active_block / last_marker", "where the current record is", "wear_leveled_memory_t")],
  observe=["record read after every write and after every restart", "block numbers asked of the device callbacks"],
  technique=SIM + "power cuts at every byte, reference record model",
  level_note="Seeded histories with power cuts at explicit bytes on a simulated device. Assumes the device writes data in order and the marker last (atomic byte), as the module's contract needs."),
 dict(id="W02", title="Storage errors never corrupt or disguise the wear-levelled record",
  statement="When the storage device fails a read, a marker read or a write, the call returns an error instead of success and the last good record stays readable, now and after a restart; a retry after the error has cleared works. A write that was reported failed can only show after a restart as the complete record that was being written, and a call without any device error reports none.",
  over=["fault_sequences", "histories", "crash_points"],
  text="every placement of device errors (before, during or after a block write, in the read before it, in any marker read at start-up), combined with power cuts and any history",
  why="The tests' storage callbacks never fail.",
  files=["gel/wearleveling/wearleveling.c"],
  mechanism=[("position advanced only after the device accepted the block", "wearleveling_write"), ("errors returned to the caller", "wearleveling_init, wearleveling_read, wearleveling_write")],
  observe=["return value of each call against the faults injected in it", "record read afterwards and after restart"],
  technique=SIM + "device errors at every callback, reference record model",
  level_note="Same simulator as W01 with device errors. A device that reports failure although it stored everything is included; silent corruption is not (the module has no checksum)."),
 dict(id="W03", title="Wear levelling spreads writes evenly and skips useless ones",
  statement="As long as the device does not fail, after any history of writes no block of the page has been written more than once more often than any other. Writing the record that is already stored costs no device write, and any other record costs exactly one.",
  over=["histories", "configurations"],
  text="every page size, history of writes, rewrites of the same record and restarts between them",
  why="Tests never count device writes over whole laps of the page or across restarts.",
  files=["gel/wearleveling/wearleveling.c"],
  mechanism=[("comparison with the stored record before writing", "wearleveling_write"), ("round-robin next block", "NEXT_BLOCK")],
  observe=["device writes per block"],
  technique=SIM + "per-block write accounting over restarts",
  level_note="Counts every device write of the simulated runs; the window of the evenness claim restarts at each injected fault."),
 dict(id="E01", title="Event log returns the newest events, complete and in order",
  statement="Loading n events after skipping j of the newest ones returns exactly the events numbered so, oldest first, each byte for byte as recorded, and as many of them as exist: min(n, retained - j), where retained is min(recorded, capacity). The reported total is that retained number. No slot outside the log is asked of the storage and nothing is written past the returned events, whatever n and j.",
  over=["histories", "inputs", "configurations"],
  text="every capacity and event size, history length over many laps of the storage, and every n and j including 0 and huge values, with several logs side by side",
  why="Tests check a few windows of one small log; the arithmetic of windows that cross the end of the storage needs every capacity, position, n and j.",
  files=["gel/circular_event_log/circular_event_log.c"],
  mechanism=[("window split in two segments at the end of the storage", "circular_event_log_load_last_events"), ("wrap of the next position", "circular_event_log_new_event")],
  state=[("next_position, full_circle", "where the next event goes and whether the log wrapped", "circular_event_log_t")],
  observe=["events returned against the recorded history", "slots asked of the storage callbacks"],
  technique=SIM + "recorded-history oracle over long logs",
  level_note="Seeded histories and windows on simulated storage; the log structure itself lives for the whole run (the module has no recovery of its own)."),
 dict(id="E02", title="Storage faults never make the event log show wrong events",
  statement="When the storage fails to save an event the call says so, the event does not count and the events already recorded (other than one whose slot was being overwritten) are still returned unchanged. When a load fails or comes short in either segment, what is returned is an error or fewer events, and those returned are still the right ones without gap or misplacement.",
  over=["fault_sequences", "histories"],
  text="every history, window and placement of save failures (before, part way, or after the data was stored) and load errors and short loads in the first or second segment",
  why="The tests' storage callbacks never fail.",
  files=["gel/circular_event_log/circular_event_log.c"],
  mechanism=[("position advanced only after a successful save", "circular_event_log_new_event"), ("first segment's outcome checked before the second", "circular_event_log_load_last_events")],
  observe=["return values and returned events against the recorded history"],
  technique=SIM + "storage faults in explicit calls, recorded-history oracle",
  level_note="Same simulator as E01 with storage faults."),
 dict(id="T01", title="Stopwatch accounts for exactly the time it was running",
  statement="Elapsed time is the time that passed while the stopwatch was running: unchanged while paused or stopped, accumulated over pause and resume, reset by stop and restart; it counts as reached exactly when it is started or paused and elapsed is at least the period, and remaining time is the period minus elapsed, never below zero. This holds across wrap-around of the tick and any jump smaller than its range; operations not allowed in a state (start while running, pause unless running, change of period while not stopped) are refused without effect. While the tick reads earlier than the start it is not reported reached, unless enough time had already been accumulated.",
  over=["histories", "inputs"],
  text="every tick value at start (wrapping unsigned long of 32 and of 64 bits), every history of operations, and every advance of the tick up to half its range; ticks set back by small amounts",
  why="Tests use a few small ticks starting near zero; wrap-around and pause/resume histories at the boundaries are not sampled.",
  files=["gel/timer/stopwatch.c", "gel/timer/timecheck.h", "gel/timer/stopwatch.h"],
  mechanism=[("unsigned differences of ticks", "timecheck.h, stopwatch_get_elapsed"), ("time accumulated on pause", "stopwatch_pause")],
  observe=["state, elapsed, remaining, reached after every operation", "return values"],
  technique=SIM + "virtual tick with wraps and jumps, reference accumulator",
  level_note="Both 32-bit and 64-bit ticks (the 32-bit build makes unsigned long 32 bits wide). Elapsed time is not claimed while the clock reads before the start."),
 dict(id="T02", title="Callback timers fire exactly when due, once, with their arguments",
  statement="Polling a timer runs its callback exactly when it is running and its period has elapsed, once per poll, with the timer and the two arguments it was given, and reports so; an automatic reload starts the next period at that poll and a one-shot timer stays silent until started again. Stopped and paused timers never fire, pausing keeps the time already counted, and late or bursty polls, tick wrap-around and stalls neither lose a due firing nor invent one.",
  over=["schedules", "histories", "inputs"],
  text="every set of timers, polling schedule (early, exact, late, bursty, stalled), history of operations also from inside callbacks, and tick value including wrap-around",
  why="Tests poll one timer at a few hand-picked ticks.",
  files=["gel/timer/timer.c", "gel/timer/timer.h", "gel/timer/stopwatch.c"],
  mechanism=[("due check, then callback, then reload or stop", "gel_timer_manage_callback")],
  observe=["callbacks with their arguments at every poll", "value returned by the poll"],
  technique=SIM + "seeded polling schedules on a virtual tick, reference timers",
  level_note="Operations on the polled timer itself from inside its callback are not claimed: the poll overrides them."),
 dict(id="T03", title="Deadlines kept with the time-check helpers are judged right across wrap-around",
  statement="For every type and width of timestamp, a delay started at one tick is expired exactly from the tick at which it is over (strictly: from the next one), and of two moments the later one is told from the earlier one and their distance is given, wherever the tick wraps around in between. This holds as long as the two moments compared are less than half the range of the tick apart, also when the clock was set back.",
  over=["histories", "inputs", "configurations"],
  text="every start, delay and current tick, each supported timestamp type (unsigned long of 32 and 64 bits, 16, 32 and 64 bit integers narrower or wider than long), clock jumps, stalls and steps back",
  why="The tests of the helpers are not built; they use one type and a few ticks.",
  files=["gel/timer/timecheck.h"],
  mechanism=[("sign of the difference in the timestamp's own width", "time_after, time_after_or_equal, time_interval")],
  observe=["every helper's answer for every deadline at every poll"],
  technique=SIM + "wrapping tick with jumps and steps back, unbounded reference time",
  level_note="Moments half the range of the tick or more apart cannot be told and are not claimed."),
 dict(id="Q01", title="Queues deliver every accepted message once, in order",
  statement="A queue accepts a message exactly when fewer messages than its capacity are waiting and delivers exactly when one is waiting, always the oldest, unchanged; a call without a destination only discards it. The count, empty and full answers always agree with the number waiting, however many messages have gone through.",
  over=["histories", "configurations", "schedules"],
  text="every power-of-two capacity, element type, and history of any length (including more messages than the running 16-bit indexes can count), with producer and consumer calls in any order",
  why="Tests push a few messages through one queue; the index wrap needs tens of thousands and a particular fill at that moment.",
  files=["gel/collections/queue.h"],
  mechanism=[("free-running 16-bit indexes, reduced modulo the capacity", "queue.h macros")],
  observe=["messages delivered against messages accepted", "count, empty and full after every call"],
  technique=SIM + "long seeded producer/consumer histories, FIFO model",
  level_note="Calls are atomic with respect to one another here (the queue makes no concurrency promise); capacity a power of two below 2^16."),
 dict(id="Q02", title="Stacks return what was pushed, last in first out",
  statement="A stack accepts an element exactly when it is not full and pops exactly when it is not empty, always the most recently pushed one still there, unchanged; peeking shows that element without removing it. Empty and full answers agree with the number present, and nothing outside the stack's storage is touched.",
  over=["histories", "configurations"],
  text="every capacity, element type and history of pushes, pops, peeks and initialisations",
  why="There is no test of the stack at all.",
  files=["gel/collections/stack.h"],
  mechanism=[("index of the next free slot", "stack.h macros")],
  observe=["elements popped and peeked against those pushed", "memory around the stack"],
  technique=SIM + "seeded histories, LIFO model",
  level_note="Several capacities and element types, AddressSanitizer on."),
 dict(id="Q03", title="Intrusive lists keep exactly the linked elements, in order",
  statement="After any sequence of insertions at the front, at the back, before or after an element, removals and moves between lists, walking a list forwards or backwards, also while removing the visited element after noting its neighbour, visits exactly the elements linked in it in order. Emptiness, first, last, next and previous agree with that, and the other lists are unaffected.",
  over=["histories"],
  text="every number of lists and elements and every history of list operations, including removals during a walk",
  why="There is no test of the list at all.",
  files=["gel/collections/listx.h"],
  mechanism=[("circular doubly linked ring through the list head", "listx.h")],
  observe=["elements visited by every kind of walk against the model"],
  technique=SIM + "seeded histories, sequence model",
  level_note="Elements on the heap under AddressSanitizer; the operations of the header that compile are covered."),
 dict(id="D01", title="Watchers report every lasting change once, after its delay",
  statement="A watcher runs its callback with its block and argument when a processing pass finds the block different from what was last seen (delay zero), or at the first pass at least the delay after the last pass that saw it change; once per change, never without one, and at most once per pass. Changes of other blocks, late or bursty passes, tick wrap-around and blocks written from callbacks of other watchers neither lose nor invent a report; the pass reports whether anything changed, and an explicit trigger runs exactly the callbacks asked for.",
  over=["schedules", "histories", "inputs"],
  text="every set of watched blocks and delays, every interleaving of writers and processing passes, tick value and stall; static and allocated configurations, 32-bit and 64-bit ticks",
  why="Tests change a block and process at a few hand-picked ticks.",
  files=["gel/data_structures/watcher.c", "gel/data_structures/watcher.h"],
  mechanism=[("copy of the last seen bytes", "watcher_process_changes"), ("delay restarted by every further change", "watcher_process_changes")],
  observe=["callbacks of every pass against the writes made"],
  technique=SIM + "seeded writers, passes and ticks, reference watchers",
  level_note="Whether clearing also cancels a change already noticed but still delayed is documented neither way and tolerated either way; a callback changing its own block is not claimed."),
 dict(id="D02", title="A deferred structure update acts like the assignment it stands for",
  statement="Applying an update writes exactly the bytes captured when it was created at exactly their place, whatever happened to the source meanwhile, any number of times and on any object of the type, and nothing else. When memory for an update cannot be allocated, applying it changes nothing and nothing crashes; freeing every update leaves nothing allocated, and nothing is freed twice.",
  over=["histories", "inputs", "fault_sequences"],
  text="every offset, size and value, history of creations, applications and releases, and every placement of allocation failures; static and allocated builds",
  why="Tests create and apply a couple of updates and never fail an allocation.",
  files=["gel/data_structures/struct_update.c", "gel/data_structures/struct_update.h"],
  mechanism=[("captured copy and offset", "struct_update.c"), ("STRUCT_UPDATE macros", "struct_update.h")],
  observe=["bytes of every object after each application against direct assignment", "allocator balance"],
  technique=SIM + "failing allocations, direct-assignment model",
  level_note="AddressSanitizer plus an instrumented allocator that counts live blocks and bad frees."),
 dict(id="B01", title="Debounced inputs switch only on, and always after, a stable level",
  statement="A filtered input takes a new level exactly at the first poll that completes the required number of consecutive polls (the debounce length plus one) at that level, independently of the other inputs; shorter glitches never show. The filter's return value tells which inputs switched at that poll, reading an input agrees with the filtered value, and forcing or initialising the filter forgets changes in progress.",
  over=["inputs", "histories"],
  text="every noise pattern on all inputs, debounce length (changing between polls), mix of whole-port and single-input polls, and dirty memory before initialisation",
  why="Tests feed a few fixed sequences to one input.",
  files=["gel/debounce/debounce.c", "gel/debounce/debounce.h"],
  mechanism=[("per-input count of consecutive differing polls", "debounce_filter")],
  observe=["filtered value and return after every poll"],
  technique=SIM + "noisy-line simulation, per-input reference filter",
  level_note="Exact reference of the documented consecutive-poll rule for all inputs at once."),
 dict(id="B02", title="Pulse counters count every debounced pulse once",
  statement="An input's counter grows by one exactly when a pulse of the counted polarity that survives debouncing completes, and never otherwise, independently of the other inputs; clearing one input's counter affects only that one. The level reported is the debounced level, the return value tells whether any pulse was counted at that poll, and initialising starts from the given levels with all counters at zero.",
  over=["inputs", "histories"],
  text="every noise pattern, debounce length, counted polarity, initial level and dirty memory before initialisation",
  why="Tests feed a few clean pulses on one input.",
  files=["gel/debounce/pulsecounter.c", "gel/debounce/pulsecounter.h", "gel/debounce/debounce.c"],
  mechanism=[("edge of the debounced level", "pulse_filter")],
  observe=["counts, levels and return after every poll"],
  technique=SIM + "noisy-line simulation, per-input reference counter",
  level_note="Exact reference on all inputs at once."),
 dict(id="K01", title="A single key reports its press, hold and release events exactly",
  statement="One key polled on any schedule reports PRESS when first sampled down, then CLICK and LONGCLICK at the first polls later than the click and long-click times after that, PRESSING or LONGPRESS at the first polls later than the repetition period after the previous report while held, and one RELEASE after it is up: at once if only PRESS was reported, otherwise once the click time has passed. No other event is ever reported, whatever the poll spacing, bounce or tick wrap-around.",
  over=["schedules", "histories", "inputs"],
  text="every level sequence, poll schedule (late, bursty, stalled), set of times including zero, and tick value including wrap-around of 32-bit and 64-bit ticks",
  why="Tests follow a handful of scripted presses at fixed ticks.",
  files=["gel/keypad/keypad.c", "gel/keypad/keypad.h"],
  mechanism=[("per-key event automaton on the tick", "keypad_routine")],
  observe=["event and code of every poll against a reference automaton"],
  technique=SIM + "seeded finger and poll schedules, reference automaton",
  level_note="Exact automaton; after a clock set back only until it catches up is tolerated."),
 dict(id="K02", title="With several keys every event stream stays well formed and ends",
  statement="With several keys on the pad each key's reports follow the order PRESS, CLICK, repetitions, LONGCLICK, repetitions, RELEASE, never earlier than their times, never for a key that was not sampled down (or, for RELEASE, is still down), and with a known code. From rest a pressed key is reported at once, and once every key is up and polling goes on every pressed key reports RELEASE within a bounded number of polls and then nothing more is reported.",
  over=["schedules", "histories", "inputs"],
  text="every key map (one-hot or arbitrary patterns), sequence of pressed combinations including ones that match no key, and poll schedule",
  why="Tests press one key at a time.",
  files=["gel/keypad/keypad.c"],
  mechanism=[("exact match of the sampled pattern", "keypad_routine")],
  observe=["event streams per key"],
  technique=SIM + "seeded multi-key schedules, event grammar and bounded release",
  level_note="The library reports one event per poll, so exact times are claimed only for a single key (K01)."),
 dict(id="S01", title="The scheduler puts the right weekly entry in force at every instant",
  statement="At any instant of the week the entry in force is, among the enabled entries whose days include that day and whose interval (start included, end excluded) contains the time, the one with the smallest weekly duration, then the highest value, then the lowest position; activity, current value, active map and remaining seconds (per entry and current, also after midnight for an entry that runs past it) agree with that. Setting, editing and disabling an entry affects exactly that entry, indexes out of range are refused, and the next enabled, first free and overlapping entries are reported accordingly.",
  over=["histories", "inputs"],
  text="every table of entries (values 0..255; past-midnight entries on all days or where both days agree), every instant of the week and every jump of the real-time clock",
  why="There is no test of the scheduler at all.",
  files=["gel/scheduler/scheduler.c", "gel/scheduler/scheduler.h"],
  mechanism=[("selection by smallest weekly time span", "scheduler_get_active_entry_number"), ("interval test", "is_entry_active")],
  state=[("entries", "table of weekly entries", "scheduler_t")],
  observe=["entry in force, value and remaining time at every queried instant, concentrated on the edges of entries"],
  technique=SIM + "simulated real-time clock with jumps, reference selection",
  level_note="Touching, inverted and past-midnight intervals may or may not count as overlapping. The allocated configuration of the scheduler does not compile and is not covered."),
 dict(id="S02", title="A saved schedule comes back the same or is recognised as damaged",
  statement="A schedule serialized entry by entry with a CRC into wear-levelled storage behaves after a restart at any point exactly as the last one saved, or the complete one being saved when power was cut. A record damaged in storage by a burst of up to 16 bits is rejected rather than loaded, and each entry takes exactly its stated number of bytes.",
  over=["crash_points", "fault_sequences", "histories"],
  text="every table of entries (values 0..255), history of edits, saves and restarts, power cuts at every byte of a save, write errors and error bursts in the stored record",
  why="No test combines the modules, serializes a schedule or loses power.",
  files=["gel/scheduler/scheduler.c", "gel/serializer/serializer.h", "gel/crc/crc16-ccitt.c", "gel/wearleveling/wearleveling.c"],
  mechanism=[("fixed little-endian entry layout", "scheduler_entry_serialize, scheduler_entry_deserialize")],
  observe=["table and behaviour after every restart"],
  technique=SIM + "power cuts, write errors and bit rot across four real modules",
  level_note="The start-up sequence (read, verify CRC, load) is the harness's, as an application would write it."),
 dict(id="P01", title="Changing a parameter by steps never leaves its limits",
  statement="Moving a parameter by any number of steps up or down leaves it within the limits in force (fixed, or read through their pointers at that moment) and changes nothing else. If value plus step times count lies within the limits that is the new value; if not, the parameter jumps to the minimum when moving up and to the maximum when moving down (a sum its integer type cannot hold may instead wrap back into the range). This holds for every type and whatever the memory held before, not-a-number included.",
  over=["inputs", "histories", "configurations"],
  text="every type (8 to 64 bits, signed and unsigned, float and double), limits, step, count and starting value, limits that move between calls, corrupted memory, each construction macro and each maximum parameter size",
  why="One test steps one uint32 parameter around its range.",
  files=["gel/parameter/parameter.c", "gel/parameter/parameter.h"],
  mechanism=[("range test against the limits in force", "CHECK_RANGE_AGAINST, APPLY_OPERATOR"), ("typed limits in the construction macros", "parameter.h")],
  observe=["value after every step", "memory around every parameter"],
  technique=SIM + "seeded operator histories with moving limits and memory corruption",
  level_note="Limits in force must be ordered; counts whose product with the step overflows a 32 or 64 bit signed type are outside the claim (undefined in C)."),
 dict(id="P02", title="Range check and reset repair a corrupted parameter table",
  statement="After a range check every parameter is either within its limits in force or equal to its default, those that were within are untouched and the number repaired is returned; a reset sets every parameter to its default. Each parameter's runtime hook has run with its own arguments before it is examined, and neither call touches anything else.",
  over=["inputs", "fault_sequences", "histories"],
  text="every table, corruption of any bits of any parameters (not-a-number and infinity included), moving limits, limits linked to earlier parameters and runtime hooks that change limits",
  why="One test corrupts four parameters once, to plain out-of-range values.",
  files=["gel/parameter/parameter.c"],
  mechanism=[("check each handle in table order", "parameter_check_ranges, parameter_get_handle")],
  observe=["all parameter values and the returned count after each check"],
  technique=SIM + "memory corruption, reference table",
  level_note="Limits that depend on another parameter are claimed when that parameter comes earlier in the table."),
 dict(id="P03", title="Counting and enumerating parameters agree on what is accessible",
  statement="For every access mask, the number of accessible parameters reported is the number that can be fetched, and fetching them by number yields exactly the accessible ones in table order and nothing after the last. A parameter is accessible when its access level shares a bit with the mask or is zero, as its runtime hook leaves it at that moment.",
  over=["inputs", "histories"],
  text="every table, mask and history of access levels changed by runtime hooks",
  why="No test enumerates parameters.",
  files=["gel/parameter/parameter.c"],
  mechanism=[("same access test in both calls, after the runtime hook", "parameter_get_count, parameter_get_handle")],
  observe=["count and every handle fetched"],
  technique=SIM + "access levels changing under runtime hooks, reference filter",
  level_note="Fetch numbers below the table length only (larger ones are asserted against)."),
 dict(id="P04", title="Parameters are read, printed, cloned and restored faithfully",
  statement="Reading an integer parameter as a long, an index or a truth value gives its value (as far as the result can hold it), printing gives its decimal form and the number of values is maximum minus minimum plus one. A clone or backup holds the same value and description in its own memory and restoring it brings back exactly that value; copying between different types is refused and no call writes outside the value.",
  over=["inputs", "histories"],
  text="every type, value, moving limits and history of backups, changes, corruption and restores",
  why="No test reads, clones or copies a parameter.",
  files=["gel/parameter/parameter.c"],
  mechanism=[("per-type access", "parameter_to_long, parameter_copy_value, parameter_clone")],
  observe=["results of every conversion", "values and memory after backup and restore"],
  technique=SIM + "backup/corrupt/restore histories, typed reference values",
  level_note="Index and truth value are claimed for non-negative integers; ranges whose size does not fit the type are outside the claim."),
 dict(id="L01", title="Checksums accept every intact frame and catch damaged ones",
  statement="The CRC-16 and CRC-32 of a message are those of the stated polynomials (0x1021 and 0x04C11DB7, most significant bit first, no final inversion) for any initial value, and are the same whether computed at once or carried over the message received in any number of pieces. So an intact frame is always accepted, and one with a single error burst no longer than the checksum or up to three flipped bits is always rejected.",
  over=["inputs", "fault_sequences", "schedules"],
  text="every message, length, initial value, fragmentation into pieces and damage of those kinds, also in the checksum itself",
  why="There is no test of the checksums at all.",
  files=["gel/crc/crc16-ccitt.c", "gel/crc/crc32.c"],
  mechanism=[("table-driven division with a carried remainder", "crc16_ccitt, crc32")],
  observe=["frames accepted and rejected by the receiving station", "checksum against bitwise polynomial division"],
  technique=SIM + "faulty fragmenting link, bitwise reference division",
  level_note="Frames up to about 2100 bytes (flipped-bit claim below 30000 bits, within the codes' guaranteed distance)."),
 dict(id="L02", title="Serialized fields travel unchanged between stations",
  statement="Serializing any sequence of 8, 16, 32 and 64 bit fields, big or little endian, directly or through the packing macros, writes exactly their bytes in the stated order, no byte more, and reports their number. Deserializing them as signed or unsigned gives back the same values and numbers of bytes, at any alignment.",
  over=["inputs", "configurations"],
  text="every mix of widths, byte orders, signedness, values and buffer alignments, interleaved with lost, repeated and reordered frames",
  why="Tests check a few values of some widths only.",
  files=["gel/serializer/serializer.h"],
  mechanism=[("explicit shifts per byte", "serializer.h")],
  observe=["bytes on the wire against the format", "values read by the peer"],
  technique=SIM + "two stations over a simulated link, byte-exact reference format",
  level_note="Value space is sampled with emphasis on sign and byte boundaries."),
 dict(id="R01", title="PID output is the stated function of the recent errors",
  statement="Whatever the history, the output is the proportional gain times the current error, plus the integral gain times the sum of the errors recorded with the last inputs (as many as the configured window), plus the derivative gain times the change since the error the configured number of inputs ago (or the oldest known). An input records its error against the set point then in force, or zero if an enabled threshold says so; the automatic clear empties the record when the error changes sign, and a derivative threshold suppresses that term while the error is above it.",
  over=["histories", "inputs", "fault_sequences"],
  text="every history of inputs, set points, gains, thresholds and clears, closed-loop runs with sensor spikes, dropouts and stuck readings, for integer and floating-point builds and different window lengths",
  why="Tests follow a few short open-loop sequences, none longer than the integral window.",
  files=["gel/pid/pid.c", "gel/pid/pid.h"],
  mechanism=[("ring of recorded errors", "pid_add_input, pid_compute_i"), ("ring of previous errors", "pid_compute_d")],
  state=[("history", "errors of the integral window", "pid_ctrl_t"), ("derivative_history", "errors of the last inputs", "pid_ctrl_t")],
  observe=["each term and the output after every input"],
  technique=SIM + "closed-loop plant with sensor faults, reference controller",
  level_note="Terms compared within one unit of integer rounding (1e-5 relative for floats); values small enough not to overflow the integer type."),
 dict(id="M01", title="Pages live exactly once, in order, with one page in view",
  statement="Through any navigation history, each page is created when it is entered (before it opens), opened when it comes into view, closed when it leaves it and destroyed exactly once when it leaves the stack, always with its own data and extra argument; no page opens before the one in view has closed. Going back returns to the page below and does nothing on the last one; swapping replaces only the current page, rebasing all of them, and resetting goes to the nearest page below with the given id and says whether there was one. Updates and events reach the page in view alone and its answer is returned.",
  over=["histories", "configurations"],
  text="every navigation history within the configured depth, pages with and without each callback, several instances of a page, several managers, dirty memory, builds with and without update callbacks and assertions",
  why="The two tests of the module are not built; they follow two short histories.",
  files=["gel/pagemanager/page_manager.c", "gel/pagemanager/page_manager.h", "gel/collections/stack.h"],
  mechanism=[("stack of the pages below the one in view", "navigation_stack, pman_back, pman_reset_to_page"), ("callbacks run in fixed order around each change", "pman_change_page_extra, pman_swap_page_extra, pman_rebase_page_extra")],
  state=[("current_page, initialized", "the page in view, if any", "page_manager_t"), ("page_stack", "pages below it", "page_manager_t")],
  observe=["every callback with its arguments, and every value returned"],
  technique=SIM + "seeded navigation histories in dirty memory, reference stack of page instances",
  level_note="Deeper navigation than configured, and back, events or updates without a page, are asserted against and not done. Callbacks do not call the manager themselves. No real nondeterminism beyond the order of requests and the initial memory."),
 dict(id="M02", title="State machines follow their handlers' answers",
  statement="An event sent to a state machine runs the handler of the state in force exactly once, with the machine's model and the event. A non-negative answer becomes the state and is reported as a transition; a negative one leaves the state in force, including one set by events sent from inside the handler, and reports none. Machines do not affect one another.",
  over=["histories", "schedules"],
  text="every history of events and answers, re-entrant events included, machines with hundreds of states, integer and structured events",
  why="There is no test of the state machine at all.",
  files=["gel/state_machine/state_machine.h"],
  mechanism=[("state replaced only by a non-negative answer", "name_sm_send_event")],
  observe=["handlers run, their arguments, state and value returned after every event"],
  technique=SIM + "seeded events with re-entrant sends, reference machine",
  level_note="Answers are valid states or negative. The only nondeterminism is the order and nesting of events."),
]
NOT_APPLICABLE = []
NOTES = "No hooks were needed in /repo: the seams are the modules' own arguments and function pointers, compile-time -D of the allocator, and compiler instrumentation (clang -fsanitize=thread callbacks supplied by the simulator) as pre-emption points."
