#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],observe_at=observe or [],hook_needed=hook)))

RT="crates/aether_viz/src/realtime.rs"; VL="crates/aether_viz/src/lib.rs"; GUI="crates/aether_viz/src/bin/csv_tail_egui.rs"
PAR="crates/aether_opt/src/gradient_descent/stochastic_parallel.rs"; SER="crates/aether_opt/src/gradient_descent/stochastic.rs"
RNG="crates/aether_rand/src/randomizers/xor_shift.rs"; GAU="crates/aether_stats/src/distributions/gaussian.rs"
CAT="crates/aether_catalogs/src/star_catalogs/mod.rs"
PERF="crates/aether_benchmark/src/performance/performance.rs"; TIM="crates/aether_benchmark/src/performance/timer.rs"; POW="crates/aether_benchmark/src/performance/power.rs"; CLK="crates/aether_benchmark/src/performance/clock.rs"
TT="crates/aether_time/src/time/time.rs"; TD="crates/aether_time/src/time/duration.rs"; TM="crates/aether_time/src/time/mission.rs"; TS="crates/aether_time/src/time/schedule.rs"; TG="crates/aether_time/src/time/gps.rs"
MAT="crates/aether_core/src/math/matrix.rs"; VEC="crates/aether_core/src/math/vector.rs"
CART="crates/aether_core/src/coordinate/cartesian.rs"

# ---------------------------------------------------------------- live CSV plotting
p("C01","Live CSV tail shows every complete row exactly once, in order",
 "While a CSV file only grows, after every poll of the live plotter its series hold exactly the valid data rows of the complete lines it has read so far, each once and in file order, however the bytes were split across writes, reads and polls (mid-number, inside CRLF, inside a UTF-8 character) and whether or not the file has a header line. A row whose line is not yet terminated is held back and later shown whole, never as a truncated number, and a malformed row is skipped without affecting its neighbours. One clean poll after the writer pauses, the series equal a one-shot read of the file's complete lines, and a poll that changed the series says so.",
 ["schedules","inputs","histories"],"every way a writer's appends interleave with the reader's open/stat/seek/read calls, every split of the byte stream, every short read length",
 "No test exercises the tailer at all; the property quantifies over writer/reader interleavings and split points.",
 [RT],[("offset and held-back tail carried between polls","CsvRealtimePlotter::read_new_bytes / parse_text_chunk")],
 [("x_values,y_values","series shown","CsvRealtimePlotter"),("partial_line,file_pos","unterminated tail and bytes consumed","CsvRealtimePlotter")],
 ["initialize()","update_once()","x_values()","y_values()"])
p("C02","A replaced or truncated CSV never blends with the old data",
 "When the tailed file is replaced by another file or truncated below what was already read, at any instant including in the middle of a poll, every poll that starts after the change and completes leaves only rows of the new file in the series; no mixture of old and new data survives it. A file that disappears for a while and comes back as a new file is treated the same way. From then on the new file is followed exactly as a fresh one would be.",
 ["schedules","histories"],"every placement of replace / truncate / delete / recreate between any two of the reader's system calls, repeated rotations, with and without file birth times",
 "Needs a rotation between two system calls of one poll; tests never rotate a file.",
 [RT],[("identity (device, inode, birth time, length) compared on every poll","should_reset_for_new_file / reload_from_start")],
 [("last_identity","file the offset belongs to","CsvRealtimePlotter")],["update_once()","x_values()","y_values()"])
p("C03","A failed poll of the live plotter loses, repeats and corrupts nothing",
 "A poll that fails or is cut short by an I/O error (open, stat, seek or read failing, interrupted or short reads, a read ending inside a UTF-8 character) reports the failure or no change, and never loses, duplicates or alters a row. After the faults stop, one clean poll brings the series to exactly the valid rows of the current file. This also holds when the fault hits while a replaced file is being picked up or columns are being switched.",
 ["fault_sequences","schedules","histories"],"every sequence of I/O faults at every system call of every poll, combined with appends and rotations",
 "Tests inject no I/O fault; a single lost row needs a fault at one particular call.",
 [RT],[("offset advanced only after a successful read","read_new_bytes / reload_from_start")],
 [("file_pos","bytes consumed","CsvRealtimePlotter")],["initialize()","update_once()","set_y_columns()"])
p("C04","Plotted columns stay row-aligned and inside the point cap",
 "At every observable instant - after each successful or failed poll, rotation, schema change or column switch - every plotted column has exactly as many points as the x axis and the i-th values of all columns come from one and the same row of one file. When a point cap is configured no column ever exceeds it and the retained points are the most recent valid rows. A file whose header lacks a requested column yields an error and no points, never partially filled columns.",
 ["histories","fault_sequences","configurations"],"every history of appends, malformed rows, header changes, rotations, faults and column switches, for every cap",
 "Alignment breaks only after a particular error/rotation history; no test reaches it.",
 [RT],[("row is pushed to x and all y together; trim drains all columns equally","parse_text_chunk / trim_if_needed / resolve_column_indices")],
 [("x_values,y_values","parallel columns","CsvRealtimePlotter")],["x_values()","y_values()"])
p("C05","Switching plotted columns is equivalent to starting afresh",
 "After switching the plotted columns at any moment of a live session the series equal those of a fresh plotter opened on the same file with those columns, immediately if the switch succeeds and after one clean poll if an I/O fault made it fail. No value read under the old selection is ever shown under a new column. Switching back and forth neither loses nor repeats rows, including the row whose line was incomplete at the switch.",
 ["histories","schedules","fault_sequences"],"every sequence of switches interleaved with appends, rotations and faults",
 "No test switches columns on a growing or failing file.",
 [RT],[("full reset and reload on switch","set_y_columns")],
 [("cfg.y_columns","current selection","CsvRealtimePlotter")],["set_y_columns()","selected_y_columns()","y_values()"])
p("C06","The unattended plot loop keeps its image current at the configured rate",
 "The run-forever loop polls no faster than the configured rate and keeps polling: data appended to, or replaced in, the tailed file is reflected in the image file within one poll period plus one poll once it is a complete line, and the image then equals the one rendered from the file's complete rows. A render that is reported as successful has written the whole image, even when the disk accepts only part of a write at a time. A missing input file or missing output data delays the image, never ends the loop.",
 ["schedules","fault_sequences","configurations"],"every arrival pattern of data relative to the poll clock, every poll rate, short and failing image writes",
 "The loop never returns, so no test can call it; it needs a simulated clock.",
 [RT,VL],[("poll / render-if-changed / sleep loop","run_forever"),("series to SVG","plot_series / with_svg_root")],
 [],["image file contents","virtual time between polls"])
p("C07","The live viewer labels every curve with the column it came from",
 "In every frame of the live viewer, a curve named after a source and a column consists of exactly points of that column of that source's file, and exactly the selected columns are drawn - at all times, including after any sequence of checkbox clicks, files that lack a selected column, source errors, rotations and new files appearing. The toolbar's point total (except in the frame of a selection change) and source count match the data shown. With two unit groups selected, scaled curves map linearly onto the other group's range and unscaled curves keep their values.",
 ["histories","fault_sequences","schedules"],"every sequence of user clicks, file events and I/O faults across frames and sources",
 "The viewer binary has no tests; mislabelling needs a source failing during a selection change.",
 [GUI],[("label list kept in step with the columns given to the sources","apply_selection / update")],
 [("y_labels","names used for the curves","CsvTailApp")],["curves and names drawn each frame"])
p("C08","The live viewer finds new files and one bad source never stops the rest",
 "While the viewer runs with a file pattern, every readable matching file that appears is added once, under the run name derived from its path, at the first poll after one refresh interval of being loadable, and is retried after a transient failure. A source that fails to load or to poll never stops the other sources from being polled, drawn and extended in the same cycle, and the failure is shown to the user until it is resolved. Polling happens at the first frame after each poll interval and never more often, whatever the frame rate.",
 ["schedules","fault_sequences","histories"],"every order of file creation, deletion, rotation and failure relative to the poll and refresh timers",
 "The viewer binary has no tests; needs a simulated clock, file system and user.",
 [GUI],[("timer-driven refresh and per-source error handling","update / refresh_sources_from_pattern")],
 [("sources","open tails","CsvTailApp")],["curves drawn each frame","toolbar text"])
# ---------------------------------------------------------------- optimisation
p("C09","Parallel SGD result does not depend on thread scheduling",
 "For fixed inputs, seed, batch size and thread count, parallel stochastic gradient descent returns bit-for-bit the same point, objective value, iteration count and convergence flag whatever order its worker threads start, run, preempt each other and finish in. Each worker draws from its own random stream, determined by the seed, iteration and worker, distinct between workers and between iterations. Running several optimisations at the same time does not change any of them.",
 ["schedules","configurations"],"every interleaving of the workers, at the granularity of single sample evaluations and of machine instructions",
 "The one test runs whatever interleaving the OS picks and checks only closeness.",
 [PAR],[("per-worker accumulators joined and reduced in worker order","GDStochasticParallel::minimize")],
 [],["return value of minimize()"])
p("C10","Parallel SGD evaluates exactly the requested batch and fails loudly",
 "Every iteration evaluates exactly the configured number of gradient samples, all at the current iterate, divided over the workers with sizes differing by at most one, and steps along their mean. If a worker panics or a thread cannot be created, the call fails visibly (panics) - it never hangs, never returns a result computed from part of a batch, and leaves later calls unaffected. With no thread count configured it uses the machine's parallelism, and works when that cannot be determined.",
 ["fault_sequences","schedules","configurations"],"every worker panic point and thread-creation failure, every batch/thread combination and visible CPU count",
 "Tests inject neither panics nor thread-creation failures and use one batch/thread pair.",
 [PAR],[("scope join propagates worker failure; chunk bounds start/end","GDStochasticParallel::minimize")],
 [],["calls to the sampler","return or unwind of minimize()"])
p("C11","Stochastic optimisers report honestly and respect their bounds",
 "Whatever the sampler returns, both stochastic optimisers return an objective value equal to the objective at the returned point and an iteration count equal to the updates performed and never above the limit. They report convergence only if one of the configured stopping criteria really held after the minimum number of iterations; a criterion that a NaN has entered never counts as met. With bounds set, no coordinate produced by an update lies outside them (a coordinate that a NaN gradient turned into NaN excepted).",
 ["fault_sequences","histories","configurations"],"every sequence of stochastic gradients including NaN, infinite, huge and zero bursts, for every configuration",
 "Tests use two benign noisy quadratics.",
 [PAR,SER],[("stopping tests and projection","minimize")],[],["points passed to the objective and sampler","return value"])
p("C12","Sequential SGD resumes from a snapshot as if never interrupted",
 "The sequential stochastic optimiser's random stream continues across calls: a session of several minimisations gives bit-for-bit the same results when the process is stopped between any two of them and restarted from a copy of the optimiser's state. Two optimisers used alternately or from different threads do not influence each other. A sampler that panics leaves the optimiser usable, continuing from the random numbers actually consumed.",
 ["crash_points","schedules","histories"],"every stop point in a session and every interleaving of independent sessions",
 "Tests run one uninterrupted minimisation.",
 [SER,RNG],[("random state owned by the optimiser and advanced in place","GDStochastic::minimize")],
 [("rng","position in the random stream","GDStochastic")],["minimize() results"])
# ---------------------------------------------------------------- randomness
p("C13","Random streams replay exactly and stay in their documented ranges",
 "A generator's output is determined by its seed and the number of draws alone: it is the xorshift64* sequence, each uniform draw consumes one step and each normal draw two, and neither other generators, other threads, nor saving a copy and resuming it later changes it. Uniform draws lie in [0,1) in every supported precision, including for the most extreme internal states. Normal draws are finite, and Gaussian samples are mean plus sigma times the normal draw.",
 ["histories","schedules","inputs"],"every seed including zero and seeds crafted to reach extreme states, every interleaving of draws from several generators and copies",
 "Tests draw 1000 values from one seed; the upper edge is hit once in 2^25 draws.",
 [RNG,GAU],[("64-bit state owned by value","XorShift64Star"),("Box-Muller with guarded log","normal01_real / Gaussian::sample")],
 [("state","stream position","XorShift64Star")],["next_u64()","next_real()","normal01_real()","Gaussian::sample()"])
# ---------------------------------------------------------------- catalogues
p("C14","A checksum-verified star catalogue is built from the verified bytes",
 "If a checksum-verified catalogue load succeeds, its records are exactly those of a byte sequence whose SHA-256 is the expected one, even if the file is replaced, rewritten, truncated or extended by another process at any moment during the load. A file that differs from the expected content in any byte is rejected.",
 ["schedules","fault_sequences"],"every placement of a file modification among the loader's system calls; every corrupted, torn, truncated or extended byte sequence",
 "Tests check one matching and one non-matching static file; the race needs a writer between two reads.",
 [CAT],[("digest computed before records are accepted","from_csv_with_expected_sha256 / verify_catalog_checksum")],
 [],["Ok/Err and records of the verified load"])
p("C15","Loading a star catalogue never silently drops data on I/O trouble",
 "Short and interrupted reads never change the outcome of loading a catalogue or checking its checksum. If the underlying file cannot be opened or read to its end the load fails with an error; it never succeeds with only part of the rows. Rows that are malformed are skipped one by one without affecting any other row (rows as CSV delimits them: a quoted field may span lines).",
 ["fault_sequences","inputs"],"every sequence of short, interrupted and failing reads at every offset; every placement of malformed rows",
 "Tests read tiny well-behaved files.",
 [CAT],[("streaming CSV deserialisation with per-row error handling","from_csv")],
 [],["Ok/Err and records of from_csv / verify_catalog_checksum"])
# ---------------------------------------------------------------- performance logging
p("C16","Timing and power logs keep rows whole and ordered across threads",
 "With any number of threads logging to one timing or power log, the file consists of the header followed by whole rows only: each logged sample appears exactly once with the values given, rows of one thread keep their order, each stamp is the wall-clock time within its logging call (to the millisecond), and stamps never decrease through the file while the system clock does not step back. Short and interrupted writes, clock steps and a log that cannot seek (a pipe or terminal) do not change this.",
 ["schedules","fault_sequences"],"every interleaving of the logging threads at their clock reads, lock waits and partial writes",
 "The one test logs from a single thread per file and checks that a stage name occurs.",
 [PERF,CLK],[("row written and stamped under one lock","TimingCsv::timing_ms / PowerCsv::sample")],
 [("file","the log","TimingCsv, PowerCsv")],["log file contents"],"cfg(aether_sim) re-export: the logging types are in private modules")
p("C17","A disk fault or crash costs a log at most the rows being written",
 "If writing a row fails or is cut short by the disk (full, I/O error), that row may be lost but every other row, earlier or later, stays intact and parseable, and the logging program neither fails nor blocks. If the process dies at any instant, the log holds every row whose logging call had returned, plus at most one torn row at its end.",
 ["crash_points","fault_sequences"],"every failing or partial write and every crash point inside any row",
 "Tests inject no disk fault and never kill the process.",
 [PERF],[("rows written straight to the file, no user-space buffering","TimingCsv / PowerCsv")],
 [],["log file contents after fault or crash"],"cfg(aether_sim) re-export: the logging types are in private modules")
p("C18","Every timed span logs exactly one row with its true duration",
 "Every timed span produces exactly one row with its name when it ends - normally, by early exit or by a panic unwinding through it, and for nested and concurrent spans. The logged duration is the simulated time that really passed, is never negative, and a system clock stepping backwards or forwards (within the years after 1970) during the span never makes it panic or lose the row.",
 ["schedules","fault_sequences","histories"],"every nesting, unwind point and clock step during spans on several threads",
 "The test times three normal spans and checks that one stage name occurs.",
 [TIM,CLK,PERF],[("row written when the guard is dropped","TimeSpan")],
 [("t0","span start","TimeSpan")],["log rows"],"cfg(aether_sim) re-export: the span type is in a private module")
p("C19","Flaky energy sensors give no reading, never a wrong one or a crash",
 "Energy-sensor detection always terminates without panicking, whatever the sensor tree looks like and however it fails or changes while being scanned (missing, unreadable, hot-unplugged, cyclic links), finds an energy counter wherever it lies in an undisturbed tree (behind links too, cyclic ones included), prefers a cumulative energy counter over a power sensor of a CPU, and returns only a sensor that existed. Reading a sensor returns the value in the file converted to joules or watts, assembled correctly from short and interrupted reads, or nothing if the file is missing, unreadable or not a number.",
 ["fault_sequences","configurations","schedules"],"every sensor tree, every hot-plug moment and read fault during detection and reading",
 "The test runs detection once on whatever the host has.",
 [POW],[("bounded depth-first search; option-valued reads","CPUEnergy")],
 [],["autodetect()","read_total_j()","read_watts()"],"cfg(aether_sim) re-export: the sensor type is in a private module")
# ---------------------------------------------------------------- time
p("C20","One-shot alarms and schedules fire exactly once",
 "A one-shot alarm or a once-only schedule fires at the first check at or after its target and never again, whatever the checked clock does: irregular polling, late checks, jumps forward past the target, steps back before it and repeated crossings. Before the target it never fires, and an alarm reports completion exactly from its firing on. Restoring a saved copy made before or after firing continues consistently.",
 ["schedules","histories","crash_points"],"every sequence of clock readings (jumps, steps back, duplicates) and restores",
 "The time crate has no tests.",
 [TS],[("fired flag / exhausted schedule","UtcAlarm::check / UtcSchedule::check")],
 [("fired,next_fire","progress","UtcAlarm, UtcSchedule")],["check()","is_done()"])
p("C21","Recurring schedules never fire twice for one slot or drift",
 "A recurring schedule fires at a check exactly when a scheduled instant not yet served has been reached: missed instants collapse into one firing, no instant is served twice even if the clock steps back, and the announced next instant is always strictly later than the check that fired. Interval schedules keep their phase relative to the start, and hourly, daily and yearly schedules always announce the earliest matching UTC calendar instant after the firing check (before and after 1970). A check completes promptly after any jump of the clock.",
 ["schedules","histories","inputs"],"every sequence of check times with jumps of decades, steps back and sub-second spacing, for every recurrence",
 "The time crate has no tests.",
 [TS,TD],[("next instant recomputed past now on every firing","UtcSchedule::check / next_*")],
 [("next_fire","next instant","UtcSchedule")],["check()","next_fire()"])
p("C22","Periodic timers fire on the true period whatever the loop jitter",
 "A periodic timer fires in a step exactly when the total simulated time fed to it crosses a further multiple of its period, however that time is divided into steps; the remainder is carried over so no drift accumulates. In a timer set every timer behaves as if it were alone. A step completes promptly even when it spans a huge number of periods.",
 ["schedules","histories"],"every division of time into steps, from nanoseconds to decades, for every set of periods",
 "The time crate has no tests.",
 [TM,TD],[("accumulator with carried remainder","TimerEvent::step / TimerSet::step")],
 [("acc","time since last multiple","TimerEvent")],["step()"])
p("C23","Mission clock survives tick-counter wrap and polling jitter",
 "Mission elapsed time and absolute time derived from a free-running 64-bit tick counter are exact to the nanosecond (rounded down), normalised and never run backwards as the counter advances, including through counter wrap-around and for any tick rate. Per-loop time differences taken from the counter are each exact to the nanosecond, and over any polling pattern sum to the elapsed time less than one nanosecond per poll, with no interval counted twice or missed.",
 ["schedules","histories","configurations"],"every starting tick value (including near wrap), tick rate and polling pattern",
 "The time crate has no tests.",
 [TM,TT,TD],[("wrapping tick subtraction and integer division","Epoch / TimeKeeper")],
 [("ticks0","counter at epoch","Epoch")],["t_plus()","now_tai()","dt_from_ticks()"])
p("C24","Time-scale conversions are atomic against leap-second updates",
 "Every conversion between UTC, Unix, TAI and GPS time uses one single leap-second setting that was in force at some instant during the conversion, even if the setting is changed by another thread or interrupt at any instruction of it. GPS and TAI differ by a constant 19 seconds, so conversions between them, and mission GPS time, are never affected by leap-second updates. Converting there and back under an unchanged setting returns the original time.",
 ["schedules","histories"],"an update placed before, between or after any two machine instructions of any conversion",
 "The time crate has no tests; a torn conversion needs an update between two particular instructions.",
 [TT,TM],[("leap seconds held in one atomic","set_leap_seconds / to_* conversions")],
 [("LEAP_SECONDS","leap seconds in force","time.rs")],["to_utc/to_tai/to_gps/to_unix","now_utc/now_gps"])
p("C25","GPS week numbers survive rollovers, outages and restarts",
 "Resolving a broadcast-style 10-bit week against a remembered week number yields the non-negative week congruent to it that is nearest to the remembered one. A receiver that persists the last resolved week therefore recovers the true week after any restart or outage of up to 511 weeks, through any number of rollovers, also with a stale (older) persisted value. Seconds of week and raw week always recombine to the input time.",
 ["histories","crash_points"],"every sequence of fixes, outages, restarts and stale persisted week values over decades",
 "The time crate has no tests.",
 [TG],[("nearest rollover window to the hint","Time<GPS>::to_gps_week")],
 [("full_week","remembered week","GpsWeekTime")],["to_gps_week()"])
# ---------------------------------------------------------------- snapshots
p("C26","A torn or corrupt state snapshot is rejected, never misread",
 "A vector, matrix, quaternion, Euler set, direction-cosine matrix, position or body state written to a binary or JSON snapshot and read back is bit-for-bit the original, whatever pieces the stream delivers. If the stream ends, fails or is torn at any byte, writing reports an error and reading reports an error: it never yields a value built from part of the data. JSON data with too few or too many elements is rejected.",
 ["crash_points","fault_sequences","inputs"],"a stream cut, failure or full sink at every byte offset, every chunking, and snapshots with wrong shapes",
 "Tests round-trip one small matrix in memory.",
 [MAT,VEC,CART,"crates/aether_core/src/attitude/quaternion.rs","crates/aether_core/src/attitude/dcm.rs","crates/aether_core/src/attitude/euler.rs","crates/aether_core/src/reference_frame/body.rs"],
 [("element-wise encode/decode with length checks","Encode/Decode and Serialize/Deserialize impls")],[],["Ok/Err and value of encode/decode"])
p("C27","An interrupted snapshot read releases everything it built, once",
 "When reading a matrix or vector from a snapshot, or building a vector from an iterator or another vector, stops early for any reason (end of stream, I/O error, bad element, too few or too many elements, a failing iterator or closure), every element already built is released exactly once and nothing else is touched. On success every element is owned by the result and released exactly once with it.",
 ["fault_sequences","crash_points"],"a failure at every element position, for every shape and element type owning resources",
 "Tests decode plain numbers from complete input, where leaks and double frees are invisible.",
 [MAT,VEC],[("manual element-by-element initialisation with clean-up on error","Decode / BorrowDecode / Deserialize impls")],[],["live-element accounting"])
p("C28","A saved plot is whole, or the call says it failed",
 "A plotting call that reports success and was given a path has left there one complete image showing exactly the finite points of its data: every curve in order, linearly scaled, with its label, replacing any earlier image entirely. If the image cannot be opened or written completely (missing directory, full disk, I/O error) or there is no finite point to plot, the call returns an error; it always returns, and panics only if the plotted function does. A call without a path, without finite points or with a panicking function touches no file. Short and interrupted writes and plots on other threads change nothing.",
 ["fault_sequences","schedules","inputs"],"every disk fault at every write of an image, every interleaving of concurrent plots, every position of non-finite values",
 "No test saves a plot to a failing disk or from several threads.",
 ["crates/aether_viz/src/lib.rs"],
 [("image rendered in memory, written and reported by present()","with_svg_root, plot_series, plot_error_on_grid")],[],["plot_series()","plot()","plot_error_on_grid()","the image file"])

p("C29","A live plot of a running log shows exactly the samples logged",
 "While one program logs samples (elapsed times, powers) to a CSV file and another polls the file with the live plotter, every completed poll that starts after a logging call has returned shows that call's sample, and no poll shows anything else than samples of calls that had begun: each exactly once, in the order of the calls, with the value and time stamp that were logged, none missing in between. This holds across restarts of the logger with a new file or a truncated one, a crash of the logger at any instant, concurrent callers of one logger and I/O faults on the reading side; a failed poll may show fewer samples but the next one that succeeds shows them all.",
 ["schedules","fault_sequences","crash_points","histories"],"every interleaving of logging calls with polls, logger crashes and restarts at every system call, reader faults at every system call",
 "No test connects the loggers to the plotter; the property is about two programs sharing a file that changes between any two of their system calls.",
 [RT,TIM,POW],[("one write per row","CSV loggers of aether_benchmark"),("offset and held-back tail carried between polls","CsvRealtimePlotter::read_new_bytes / parse_text_chunk")],
 [("x_values,y_values","series shown","CsvRealtimePlotter")],["log calls","update_once()","x_values()","y_values()"])
p("C30","Solvers end and stay honest under misbehaving callbacks",
 "Gradient descent, Newton's method, a Runge-Kutta step and the maximum-error assertion call the user's functions only as documented, whatever those return (NaN, infinities, huge or inconsistent values) and in every float type. Each call ends within its iteration limit. Convergence is reported only when the stopping criterion was met by what the callbacks returned, and as soon as it is; iterates stay inside set bounds; every step is the documented one (a sufficient decrease or an exhausted line search with backtracking); the value returned is the objective's at the point returned. An error bound is confirmed only if every sampled error is within it, so never with an error that is not a number. A panic in a callback reaches the caller and leaves the solver usable: the same call repeated gives the same result.",
 ["fault_sequences","inputs","histories"],"every sequence of callback results including NaN and infinities, a panic at every callback call, every setting, three float types",
 "Tests use smooth functions that behave; the property is over arbitrary callback histories.",
 ["crates/aether_opt/src/gradient_descent/basic.rs","crates/aether_core/src/numerical_methods/solvers/newton.rs","crates/aether_core/src/numerical_methods/integration/rk4.rs","crates/aether_test/src/assert/function.rs"],
 [("iteration, line search and stopping criteria","GradientDescentGeneric::minimize, NewtonRaphson::solve"),("stages","Rk4Integrate::integrate_rk4"),("worst error","assert_max_abs_error_on_grid")],
 [],["results of the calls","arguments the callbacks receive"])

p("C31","Nodes keeping time with this library never lose or gain a nanosecond",
 "Programs on several nodes that exchange time stamps and keep their books with the library's instants and durations - advancing and stepping clocks forwards and backwards, differences between instants, running totals, smallest delay, sorted stamps, comparisons against limits - always agree with exact integer nanoseconds, before and after 1970, by value or by reference. Two durations of the same length are equal and order correctly however they were obtained (from seconds, milliseconds, microseconds, nanoseconds, by subtraction, or by normalising fields). Start plus the measured difference is always exactly now.",
 ["histories","inputs"],"every history of clock advances, steps, delayed, reordered, duplicated and lost stamps, restarts; positive and negative spans from every constructor",
 "Tests add a few positive spans; the property is over arbitrary histories of positive and negative ones and over ways to build them.",
 [TD,TT],[("carry and borrow between seconds and nanoseconds","Add, Sub, normalize, from_nanos"),("order","Ord for Time and Duration")],
 [],["Time + Duration","Time - Time","Duration +/- Duration","comparisons"])

ML="crates/aether_ml/src"
p("C33","Interrupted model training is the same training",
 "Training any of the gradient-trained models (linear, ridge, logistic, perceptron, linear SVM) over batches as they arrive gives the same model bit for bit whether it runs through, is crashed and continued from a checkpoint of the model's fields at any point, moves between threads, runs while other models train in other threads, is interrupted at any instruction by code that trains another model, or - for optimiser fits without momentum - is cut into resumed pieces of iterations. Every epoch and every fixed optimiser step changes weights and bias by the documented gradient of the documented loss over exactly the batch given, to rounding; an empty batch changes nothing; settings (learning rate, penalty) are never changed by training; predictions are the documented function of weights and bias.",
 ["schedules","crash_points","histories","inputs"],"every history of batches with crashes, restores, migrations and concurrent or interrupting training, at every instruction; two float types, five models",
 "Tests train once, on one thread, on one data set, and look only at the final class labels.",
 [ML+"/regression",ML+"/classification/perceptron.rs",ML+"/classification/svm.rs","crates/aether_opt/src/gradient_descent/basic.rs"],
 [("batch update","train_epoch of each model"),("augmented parameter vector","fit_with_optimizer of each model")],
 [("weights,bias","parameters learnt so far","the model")],["train_epoch()","fit_with_optimizer()","predict()"])
p("C34","Model fitting gets where it should, however the examples arrive",
 "A perceptron that is given linearly separable examples, lost, duplicated and in any order, never corrects itself more often than its margin allows ((R/margin)^2), and once every example keeps arriving it settles after a bounded number of epochs with every example on its side. A fit with backtracking never ends with a higher loss than it started with, stays in the box set for it, and on smooth convex problems gets as low as plain gradient descent with that many iterations does. Naive Bayes, LDA and QDA fits depend on the examples, not on the order they arrive in; their counts, priors, means and (co)variances are those of the examples and each prediction is the class whose score is best.",
 ["schedules","fault_sequences","inputs"],"every delivery order, loss and duplication of the examples, every start and line-search setting",
 "Tests fit one tidy separable data set; none bounds the progress or varies the delivery.",
 [ML],
 [("correction rule","Perceptron::train_epoch"),("loss and gradient given to the optimiser","fit_with_optimizer"),("class statistics","GaussianNB::fit, Lda::fit, Qda::fit")],
 [],["train_epoch()","fit_with_optimizer()","fit()","predict()"])

MA="crates/aether_core/src/math"
p("C32","Vector and matrix kernels give one right answer on every processor, raced or not",
 "Dot products, matrix-vector and matrix-matrix products of single and double precision, by operator or by the kernels that pick an instruction set at run time (dot4_simd, mul_vec4_simd, mul_vec6_simd, mul_mat3/4/6_simd, mul_matrix_simd), return for every shape the exact sum of products to within rounding, not-a-number and infinities included exactly where the sum has them. This holds on every processor (baseline, AVX, FMA without AVX, both, everything), from the very first call on, also when several threads race to make it and detection of the processor has not happened yet. No instruction that the processor does not report is executed, no memory outside the operands is touched, and the same operands give the same bits on every call in every thread of one processor.",
 ["schedules","inputs"],"every processor feature set, every interleaving of first calls, shapes up to 33, operands at the edge of mapped memory, all classes of float values",
 "Tests run each kernel on whatever processor the machine has, one thread, finite values, operands in the middle of a stack frame.",
 [MA+"/matrix.rs",MA+"/vector.rs",MA+"/arch/x86"],
 [("choice of kernel at run time","is_x86_feature_detected! in Matrix::mul_*_simd, Vector::dot4_simd"),("unaligned loads over rows, tails of rows","arch/x86/matrix_simd.rs"),("blocked product","Matrix::mul_matrix_strided")],
 [("detection cache","processor features found so far","the standard library")],["results of the products","memory touched","instructions executed"])

AC="crates/aether_core/src"
p("C35","An attitude stays one rotation on every node, in every notation",
 "Vehicles that keep their attitude as quaternion, direction cosine matrix, Euler angles or either of them (Rotation), in single or double precision, turn at measured rates under jittery, late and repeated ticks, exchange attitudes over an unreliable network, compose them (in any notation, in the order the frame types say), invert them, convert them at every hop and restart from saved copies always hold the rotation their whole history amounts to, to rounding. No conversion changes the rotation: not for unnormalised or negated quaternions, half turns, or Euler angles at gimbal lock; each yields finite values; rotating a vector by quaternion and by matrix agrees; degrees and radians are the same rotation; integrating a constant body rate turns by rate times time about its axis, and an accelerating one to the stated order.",
 ["histories","fault_sequences","inputs"],"every history of ticks, deliveries, compositions, inversions, conversions and restarts; every attitude, gimbal lock and half turns included; f32 and f64",
 "Tests convert one or two tidy attitudes; none composes, turns and converts in sequence or compares notations at their singularities.",
 [AC+"/attitude",AC+"/coordinate"],
 [("order of composition","Mul for Quaternion, DirectionCosineMatrix, Rotation"),("branches by largest diagonal element","TryFrom<DirectionCosineMatrix> for Quaternion"),("gimbal lock","From<&Quaternion> for Euler"),("propagation","Quaternion::integrate, integrate_alpha")],
 [("quaternion","a vehicle's attitude","the vehicle")],["attitude in any notation","vectors carried into another frame"])
p("C36","Position reports mean the same place in every frame and notation",
 "Stations and vehicles on the Earth, on the Moon and in space that exchange stamped positions over a network that delays, loses, duplicates and reorders, re-encoding them (Cartesian, spherical, cylindrical, geodetic) and carrying them between inertial, Earth-fixed, Moon-inertial and Moon-fixed frames at the stamped time, on any route, all recover the true position to rounding, poles and axes included. Every frame change is a rotation (plus the Moon's offset) by exactly the body's angle at the stamp; there and back is the identity. Local north-east-down axes at any geodetic place are right-angled and point where they say; forces and torques change frame without changing length or direction in space; angle of attack and sideslip are those of the wind.",
 ["histories","schedules","inputs"],"every route, stamp and delay; any position on, under and far above the ellipsoid; f32 and f64",
 "Tests convert one position with one pair of functions; none follows a position over several hops, times and epochs.",
 [AC+"/coordinate",AC+"/reference_frame","crates/aether_models/src/terrestrial","crates/aether_models/src/lunar"],
 [("angle at epoch","Earth, Moon orientation functions"),("iteration limit of the geodetic inverse","wgs84::transforms"),("transpose of a frame change","lunar::transforms, terrestrial transforms")],
 [("epoch","reference time of a body's rotation","Earth / Moon value")],["positions, local axes, forces, flow angles"])
p("C37","The orbit camera stays a camera through any history of drags",
 "Whatever history of drags (in radians or pixels, about its own or the world's axes), direct settings, zooms and pans reaches the camera - lost, duplicated, reordered or coalesced, from zero to thousands of pixels, past the poles, in single or double precision, restarted from a saved copy - its forward, right and up axes stay a right-angled unit set, the eye stays at its distance from the target looking at it, the reported yaw and pitch are those of the view, and each drag moves the view by exactly its angles about the axes it names. The view matrix built from it is a rigid motion that takes the target onto the line of sight.",
 ["histories","fault_sequences","inputs"],"every history of input events and restarts; f32 and f64",
 "Tests make a drag or two from the start position; none accumulates a history, crosses a pole or checks the axes afterwards.",
 ["crates/aether_graphics/src"],
 [("incremental orientation","OrbitCamera::orbit, orbit_world"),("fallback axes near the pole","OrbitCamera"),("view matrix","look_at")],
 [("orientation","the camera's attitude","OrbitCamera")],["forward, axes, eye position","telemetry angles","view matrix"])
p("C38","Mass properties are the sum of the parts, in any order of assembly",
 "Docking two bodies of any shape, density, place and direction, in either order and by either interface, yields the sum of their masses and volumes, the density these give, the common centre of mass and the inertia about it in the assembly's axes; cutting a cavity yields the difference; and where nothing would be left, or a body has no volume, there is no answer rather than a wrong one. Moving and turning all parts together moves and turns the result and changes nothing else. Tank mass and inertia are at every moment the sums over the tanks' newest reports, readings below zero counting as empty, whatever order, loss and repetition of reports and restarts came before; a tank's limits follow from its shape and its fill fraction held between empty and full.",
 ["histories","fault_sequences","inputs"],"every history of docking, cutting, moving, gauge reports and restarts; every shape, size, density and pose; f32 and f64",
 "Tests add two symmetric bodies at tidy places; none turns parts, cuts, or follows a vehicle and its tanks through a history.",
 ["crates/aether_shapes/src","crates/aether_fluids/src"],
 [("parallel axes","add_with, subtract_with and operators on MassModel"),("clamping","tank limits and aggregate functions")],
 [("tank masses","newest report of each tank","the vehicle")],["mass properties of assemblies","tank totals and limits"])
p("C39","An estimate follows from what was received, whichever solver is asked",
 "An estimator that adds up rows of measurements arriving through a network that loses, duplicates and reorders, merges with another and restarts from saved copies holds exactly the sum of what it accepted, in any order of arrival. Every way of solving for the state (LU, with one or many right-hand sides, Cholesky, Gauss-Jordan and three-by-three inverses) satisfies the equations to rounding and agrees with the exact solution as far as the condition allows; decompositions multiply back to the matrix, their pivots are a permutation with the right sign; a well-posed system is never refused; a singular one has determinant zero to rounding; Cholesky accepts no matrix with a diagonal that is not positive. Means, covariances, cross covariances, deviations, correlations and Gaussian densities are those of the samples that arrived, and too few samples or an axis that does not vary is an error, not a number.",
 ["histories","fault_sequences","inputs"],"every sequence of deliveries, merges and restarts; every system of up to six unknowns, permuted, indefinite and singular included; f32 and f64",
 "Tests solve one or two literal systems of two or three unknowns that need no pivoting or one exchange.",
 [AC+"/math",AC+"/numerical_methods/solvers","crates/aether_stats/src"],
 [("partial pivoting and its sign","Matrix::lu_decompose, LuDecomp::solve"),("exchange in both halves","inverse_gauss_jordan"),("normalisation by n-1","sample_covariance, sample_cross_covariance")],
 [("information matrix and vector","sum of the accepted rows","the estimator")],["solutions, inverses, determinants","statistics and their errors"])
p("C40","A curve through received samples is the one through those samples",
 "A receiver that orders whatever samples of a signal got through and fills the gaps with the library's curves gets the natural cubic spline, or the one polynomial of lowest degree, through exactly those samples: at the samples their values, between and beside them the curve's, outside the continuation of the end pieces, next to a sample no worse than elsewhere. Samples of a polynomial of low enough degree give that polynomial back whichever were lost and in whatever order they came. Sets that determine no curve (too few, repeated, out of order for a spline) are refused. Linear interpolation, its inverse and remapping agree with each other, empty ranges included.",
 ["histories","fault_sequences","inputs"],"every set of one to nine samples that survives delivery, every order, every query",
 "Tests evaluate one or two curves at a few points; none varies which samples exist, their spacing, or queries next to a sample.",
 ["crates/aether_interp/src"],
 [("choice of the piece","CubicSpline::evaluate"),("barycentric weights","PolynomialInterpolator"),("end conditions","CubicSpline::new")],
 [("samples","those that arrived","the receiver")],["interpolated values","refusals"])

# ---------------------------------------------------------------- pure mathematics: stated, not claimed
def na(id,title,statement,files):
    p(id,title,statement,["inputs"],"every input of the function","A few sampled inputs; the property is over all real-valued inputs.",files,[("pure function of its arguments","see files")])
na("P01","Tensor and elementwise vector algebra obeys its identities","Tensor operations, elementwise functions and conversions between array types agree with their definitions (products are C32; sums, factorisations, solutions and inverses are C39).",["crates/aether_core/src/math"])
na("P06","Integrators have their stated order of accuracy","Euler, trapezoidal and RK4 integrators converge at their stated order on smooth problems (whether a step uses its stages as documented is C30).",["crates/aether_core/src/numerical_methods/integration"])
na("P07","World magnetic model matches the reference coefficients","Magnetic field evaluation agrees with the published model at every position and date in range.",["crates/aether_catalogs/src/wmm"])
na("P08","Atmosphere models are continuous and monotone where physics says so","Temperature is continuous and pressure and density decrease with altitude across layer boundaries.",["crates/aether_models/src/terrestrial/atmospheres"])
na("P09","Gravity models agree with their published formulas","Gravity at a position agrees with the published formula and constants of its model (frames, geodesy and the lunar transforms are C36).",["crates/aether_models/src"])
na("P12","Units and prefixes convert exactly","Unit and prefix conversions are mutually inverse and dimensionally consistent.",["crates/aether_units/src"])
na("P14","One-dimensional distributions match their closed forms","Densities, log densities and moments of one-dimensional distributions agree with their closed forms (sampling is C13, model fits are C33 and C34, covariances and multivariate densities are C39).",["crates/aether_stats/src"])
na("P16","Projection and colour transforms are well-formed","Perspective matrices and star colour transforms agree with their definitions and stay in gamut (the camera is C37).",["crates/aether_graphics/src","crates/aether_catalogs/src/star_catalogs/color.rs"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+"\n")
print(len(P))
