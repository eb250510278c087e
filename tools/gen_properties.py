#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": ["src/spine/" + f for f in files],
                          "mechanism": [{"name": n, "where": "src/spine/" + w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
S = "structure/"
p("C01", "Ring buffer behaves as a bounded FIFO for every operation history",
  "At every moment a ring buffer holds exactly the accepted elements not yet popped, dropped or overwritten, in insertion order, and pops, peeks, bulk operations, return values and the empty/full/used/free figures all agree with that content (used + free = capacity). A push on a full buffer is refused and changes nothing unless rollover is asked for, in which case exactly the oldest element is replaced; a bulk push takes elements in order until one is refused and a bulk pop of more than is held takes nothing. Dropping n takes min(n, held) elements from the named end (all when n is 0), and the overrun figure counts the elements overwritten by rollover since the last pop and never exceeds that count.",
  ["histories", "inputs"], "all interleavings of push/bulk push/rollover/pop/bulk pop/peek/drop/clear, all capacities >= 1 including 1, all wrap positions",
  "The suite samples a handful of short sequences on one capacity; wrap position x fullness x operation mix is unbounded.",
  [S+"ringbuffer.hpp"], [("head/tail/full-flag arithmetic", S+"ringbuffer.hpp:push/pop"), ("drop_first/drop_last", S+"ringbuffer.hpp"), ("used_space/free_space", S+"ringbuffer.hpp")])
p("C02", "Line buffer returns every delimited line intact, wherever it lies",
  "For any bytes pushed, the next line is exactly the held bytes up to (excluding) the first delimiter, whether it is viewed, copied out or dropped, and also when it wraps around the end of storage; has-line and line-length agree with it, and no delimiter means no line. Copying or dropping a line removes exactly that line and its one delimiter; viewing it, or copying into a destination smaller than the line plus terminator, removes and changes nothing. A view and a copy never read or write outside the buffer's storage or the destination, and a copy is null-terminated.",
  ["inputs", "histories"], "all byte contents, delimiter sets, capacities, wrap offsets and interleavings of push/view/copy/drop",
  "Tests use lines that start at offset 0 or one hand-made wrap; the wrapped view was never compared byte for byte.",
  [S+"linebuffer.cpp", S+"linebuffer.hpp", S+"ringbuffer.hpp"], [("length_of_next_line", S+"linebuffer.cpp"), ("get_next_line_view", S+"linebuffer.cpp"), ("get_next_line/drop_next_line", S+"linebuffer.cpp")])
p("C03", "Buffered input keeps stream order and never loses a complete unread line",
  "Whatever the arrival pattern and read failures of the underlying stream, the bytes buffered after any sequence of pulls are the bytes received so far in order, minus what was consumed and minus, on overflow only, the oldest bytes of a line that did not fit. A complete line that is waiting in the input buffer is never damaged or overwritten by pulling more data; bytes that cannot be taken stay in the underlying stream. The returned count equals the bytes actually taken from the stream.",
  ["histories", "fault_sequences", "inputs"], "all arrival/pull/consume interleavings, line lengths shorter and longer than the buffer, injected read failures",
  "Tests drive one or two overflow shapes; loss depends on where fullness falls between calls.",
  ["io/stream/buffered_stream.cpp", S+"linebuffer.cpp", S+"ringbuffer.hpp"], [("pull_in_data early-break rules", "io/stream/buffered_stream.cpp"), ("rollover push", S+"ringbuffer.hpp")])
p("C04", "Buffered output reaches the stream exactly once and in order",
  "Every byte accepted for buffered writing is handed to the underlying stream exactly once and in the order accepted, regardless of backpressure, partial flushes or failing writes: a byte whose write failed stays queued and is offered again at the next flush. The accepted count returned by a buffered write and the flushed count returned by a flush equal what was really queued and really delivered. Nothing is delivered that was not written, and bytes that do not fit are refused rather than displacing queued ones (unless rollover is requested). Bytes that are taken back from the output buffer before they went out are the oldest or the newest ones, as many as asked for (all for 0), and are never delivered.",
  ["histories", "fault_sequences"], "all interleavings of writes and flushes, capacities, write-window patterns and write failures at any byte",
  "Tests use an always-writable mock stream; a write failure or closed window at an arbitrary byte is never injected.",
  ["io/stream/buffered_stream.cpp", S+"ringbuffer.hpp"], [("push_out_data", "io/stream/buffered_stream.cpp"), ("buffered_write", "io/stream/buffered_stream.cpp")])
p("C05", "Transactions are atomic: commit keeps the reply, abort leaves no trace",
  "While a transaction is open it shows the incoming line unchanged and reports exactly the reply bytes it queued; commit (or destruction) leaves all of them queued behind earlier output, abort removes exactly those and nothing queued before it. Either way exactly one incoming line, the transaction's own, is consumed exactly once, also when the transaction object was moved, and one that is assigned over by another port's or a finished one ends as if it had gone out of scope. A reply larger than the output space is truncated to what fits and never displaces queued bytes, and no transaction is handed out when no complete line is waiting.",
  ["histories", "inputs"], "all histories of open/reply/move/commit/abort/destroy over streams with arbitrary buffer fill levels, empty replies and full output buffers",
  "Tests commit/abort from an empty output buffer with one small reply.",
  ["io/stream/transaction.cpp", "io/stream/transaction.hpp", "io/stream/buffered_stream.cpp"], [("undo/finalize", "io/stream/transaction.cpp"), ("move constructor/assignment", "io/stream/transaction.hpp")])
p("C06", "Vector and Stack behave as bounded sequences for every operation history",
  "For any history of pushes and pops at both ends, inserts, removals, fills and clears, a vector's size, indexed, front/back, peeked and iterated contents (forward and reverse) equal those of an ideal sequence, whichever ends were pushed or popped before, also when one of its own elements is stored again (inserting beyond the end appends). An operation on a full vector stores nothing and disturbs neither its elements nor memory outside its capacity. A stack likewise returns its elements in last-in-first-out order.",
  ["histories", "inputs"], "all operation histories, capacities >= 1, element types plain and owning",
  "Tests cover each operation from a fresh vector; the interesting states are head-offset, full and partially shifted ones.",
  [S+"vector.hpp", S+"stack.hpp", S+"array.hpp"], [("head/tail offsets and rearrange", S+"vector.hpp"), ("insert/remove memmove", S+"vector.hpp")])
p("C07", "Containers keep each stored element alive exactly as long as they hold it",
  "An owning element (such as a shared pointer) stored in a vector, array or pool is kept alive while it is held, is released exactly once after it was removed and its returned handle dropped, cleared, overwritten or its container destroyed, moved from or assigned over, and is never released twice or leaked. Moving a container transfers its elements and storage without copying or freeing them; swapping exchanges everything. Memory obtained by containers is returned in full once they are gone.",
  ["histories"], "all histories of container operations on reference-counted and tracked elements, including destruction and move/assignment at any point",
  "Tests check values, not lifetimes; leaks and stale references are invisible to them.",
  [S+"array.hpp", S+"vector.hpp", S+"pool.hpp"], [("destructor/move/assignment of the store", S+"array.hpp"), ("slot shifting", S+"vector.hpp")])
p("C08", "Array access, iteration, assignment, fill and swap match an ideal fixed array",
  "Every way to read an array (indexing, at, front/back, data, forward, const and reverse iteration, pre- and post-increment/decrement of iterators) visits exactly its elements in the right order and yields the values last stored. Construction from a size, a value, a list or existing storage, assignment from a list, fill and swap give exactly the expected size and contents, and swap exchanges size, contents and storage ownership of the two arrays.",
  ["inputs", "histories"], "all sizes including 0 and 1, all construction forms, all iterator walks, repeated swaps/assignments",
  "Tests iterate small equal-size arrays and discard iterator return values.",
  [S+"array.hpp"], [("iterators", S+"array.hpp:ArrayIterator"), ("swap/operator=", S+"array.hpp")])
p("C09", "A pool never hands one object to two holders and never loses capacity",
  "Acquiring returns an object nobody else currently holds, as long as at least one object of the pool is free, and returns nothing only if all are held; releasing the last outside reference makes precisely that object available again. Objects are never duplicated, replaced or lost over any history of acquiring and releasing in any order, and depopulating returns each exactly once.",
  ["histories", "schedules"], "all acquire/release orders and hold patterns, pool sizes from 1 up, references copied and dropped in any order",
  "Tests acquire and release in order on tiny pools; the roving lookup index makes availability depend on history.",
  [S+"pool.hpp", S+"vector.hpp"], [("use-count based acquire with roving index", S+"pool.hpp")])
p("C10", "Scheduled events fire exactly once, on time, in order, to every handler",
  "Every accepted event is delivered exactly once to each handler attached to its id, in attachment order and with the data it was scheduled with, never before its due time and at the latest by the first event-loop pass at or after it. Events are delivered in order of due time, and in order of scheduling when due times are equal, including events scheduled from within handlers. Events still pending are unaffected by others firing or being scheduled.",
  ["schedules", "histories"], "all schedules of due times, loop timings, handlers and re-entrant scheduling, up to the configured capacity",
  "Tests schedule a few events with fixed delays and fire them in one or two loops.",
  ["eventsystem/pipeline.cpp", "eventsystem/eventsystem.cpp", "eventsystem/eventsystem.hpp", S+"vector.hpp", S+"pool.hpp", S+"time/timers.cpp"],
  [("chronological insert", "eventsystem/pipeline.cpp:push"), ("loop/trigger", "eventsystem/eventsystem.cpp"), ("event pool", S+"pool.hpp")])
p("C11", "Event capacity is exact, overload is harmless, idle ticks never oversleep",
  "As many events as the configured capacity can be pending or held at once; scheduling beyond that is refused without disturbing pending events, memory or later operation, and each delivered event gives its slot back, indefinitely. When tick delays are enabled a loop pass sleeps until the next pending event is due but no longer than the configured maximum, and exactly the configured minimum delay when nothing is pending; when disabled it does not sleep. The reported time until the next event equals the remaining time of the earliest pending one (zero if overdue), and destroying the system releases every event.",
  ["histories", "fault_sequences", "configurations"], "all fill/drain/overfill histories and delay configurations",
  "Tests overfill once through event(); scheduling with an exhausted pool and the delay arithmetic are never run.",
  ["eventsystem/eventsystem.cpp", "eventsystem/eventsystem.hpp", "eventsystem/pipeline.cpp", S+"pool.hpp"], [("event()/schedule()", "eventsystem/eventsystem.hpp"), ("tick delay", "eventsystem/eventsystem.cpp:loop"), ("slot release", S+"pool.hpp")])
p("C12", "Kernel time arithmetic, conversion and comparison are exact integers",
  "For kernel-time units of any magnitude (us to days), converting, adding, subtracting, comparing and assigning across units gives the mathematically exact integer result, rounded half away from zero when converting to a coarser unit, as long as it fits the underlying 64-bit integer. In particular same-unit comparison and arithmetic never lose precision, converting to a finer unit and back is the identity, and scalar multiplication/division follow integer arithmetic. Division by zero raises a runtime exception.",
  ["inputs"], "all 64-bit tick values (far beyond 2^24) and all pairs of time units",
  "Tests use small values for which single-precision arithmetic happens to be exact.",
  [S+"units/primitives/unit.hpp", S+"units/time.hpp", S+"units/primitives/magnitudes.hpp"], [("from_other", S+"units/primitives/unit.hpp"), ("magnitudes", S+"units/primitives/magnitudes.hpp")])
p("C13", "Physical unit conversions and arithmetic are correct within float precision",
  "For every physical quantity with real values, converting between magnitudes multiplies by the exact ratio of the prefixes within a few units of single precision, round trips return the starting value, and mixed-magnitude addition, subtraction, multiplication, division and ordering agree with the same operation on the base-unit values. Each named unit has the prefix its name says, Celsius and Kelvin convert by 273.15 both ways, and converting between real and kernel time applies the given rounding (ceiling by default). Dividing by zero raises a runtime exception.",
  ["inputs", "configurations"], "all finite values over many decades, all magnitude pairs, all named units",
  "Tests check a few hand-picked conversions per unit.",
  [S+"units/primitives/unit.hpp", S+"units/primitives/magnitudes.hpp", S+"units/temperature.hpp", S+"units/time.hpp"], [("from_other", S+"units/primitives/unit.hpp"), ("to_kernel_time/to_celsius", S+"units/time.hpp")])
p("C14", "Compound units compare, combine and simplify by their true physical value",
  "A compound unit (numerator per denominator) keeps its physical value under conversion to other magnitudes, simplification and negation, and addition, subtraction and scalar scaling yield the value those operations give on real numbers, within floating-point precision. Two compounds compare (==, !=, <, >, <=, >=) by physical value even when their magnitudes differ. A zero denominator or scalar divisor raises a runtime exception.",
  ["inputs"], "all numerator/denominator values of either sign and all magnitude combinations",
  "Tests compare compounds of equal magnitudes with small positive values.",
  [S+"units/primitives/compound_unit.hpp", S+"units/primitives/unit.hpp"], [("operators and comparisons", S+"units/primitives/compound_unit.hpp"), ("simplify", S+"units/primitives/compound_unit.hpp")])
p("C15", "Timers measure and expire exactly, at any uptime",
  "A timer reports exactly the time passed since its last reset; an alarm is expired exactly from its due moment on and stays expired, and reports its due moment and remaining time exactly. An interval timer reports expiry once per elapsed interval and never earlier than the interval: without catch-up the next interval starts at the moment of the poll, with catch-up every missed interval is reported once and the phase is kept. All of this holds at any system uptime, from zero to years.",
  ["histories", "schedules", "inputs"], "all poll/advance schedules, intervals and uptimes (including beyond 2^24 ms and 2^32 ms)",
  "Tests run at small uptimes with a few polls.",
  [S+"time/timers.cpp", S+"time/timers.hpp", S+"units/primitives/unit.hpp"], [("expired/time_since_last", S+"time/timers.cpp")])
p("C16", "The simulated clock advances by exactly the delays requested and never backwards",
  "The host platform's millisecond and microsecond clocks read the sum of all delays so far, exact in microseconds and rounded consistently in milliseconds, agree with each other at any uptime, and never run backwards. A delay advances the clock by exactly the requested duration, in the resolution of the call (milliseconds or microseconds).",
  ["histories"], "all sequences of delays in any unit from zero up to years of simulated uptime",
  "Tests only ever advance milliseconds from zero.",
  ["platform/implementations/mock.hpp", "platform/platform.hpp"], [("millis/micros/delay", "platform/implementations/mock.hpp")])
p("C17", "A day schedule yields the right value and next change at every second",
  "At every second of the day the schedule returns the value of the block covering it, including blocks that run past midnight, and zero where no block covers it. The start of the next block is the earliest block start later in the day, or 24 hours when there is none, in whatever order the blocks were listed.",
  ["inputs", "configurations"], "all sets of non-overlapping blocks (unsorted, adjacent, wrapping midnight) and all times of day",
  "Tests probe a few times on one sorted schedule.",
  [S+"time/schedule.cpp", S+"time/schedule.hpp"], [("value_at/start_of_next_block", S+"time/schedule.cpp")])
p("C18", "Dates convert to and from timestamps without drifting",
  "A date built from a timestamp shows that timestamp's UTC calendar fields (also weekday and day of year), and building a date from calendar fields, or from compiler date/time strings, gives the timestamp of exactly that moment (read in the host's time zone, which is UTC on a device; daylight saving is found out unless told), so both directions invert each other for leap years, month ends and leading zeros. The year-2000 timestamp is always the unix timestamp minus 946684800, the result never depends on uninitialised memory, and formatting writes no more than the given buffer.",
  ["inputs"], "all seconds from 1901 to well beyond 2100 and every date/time string the compiler can emit; UTC and zones with and without daylight saving",
  "Tests check a few dates; strings with 08/09 and pre-2000 stamps are not covered.",
  [S+"time/datetime.cpp", S+"time/datetime.hpp"], [("string parsing", S+"time/datetime.cpp"), ("set_timestamps", S+"time/datetime.cpp")])
p("C19", "PID output is bounded, timely and equals the configured PID law",
  "The controller updates exactly when at least one sampling interval has passed since its previous update (by the time given with the reading, else by the clock), and its output always lies within the configured limits and is finite for finite readings whose differences and products with the gains are representable. Each update equals the textbook law with the configured gains (integral scaled by and derivative divided by the sampling interval in seconds, whatever that interval is), the configured proportionality and direction, with the accumulated part clamped to the output limits; the first derivative counts from the reading at initialisation. The tunings read back are the ones that were set, and a copied controller works independently of its original.",
  ["histories", "configurations", "inputs"], "all gains, sampling intervals (also below 100 ms), limits, directions, proportionality modes and reading sequences",
  "Tests regulate one simulated process with one configuration.",
  ["controller/pid.cpp", "controller/pid.hpp", "controller/implementations/pid/pid_controller.cpp"], [("update", "controller/implementations/pid/pid_controller.cpp"), ("set_sampling_time/set_tunings", "controller/implementations/pid/pid_controller.cpp")])
p("C20", "PID autotuning drives the process safely and averages its measured cycles",
  "While tuning, the process is sampled once per sampling interval and the control value is always one of the two configured output limits: it switches low when the input rises above target plus hysteresis and high when it falls below target minus hysteresis, and nowhere else. Tuning finishes after exactly the requested number of cycles, leaves the output off, and returns finite gains that are the mean of the per-cycle gains, each following the relay-method formula of the chosen aggressiveness, over the cycles after the first two (or the last cycle if there are no more than two). The caller's loop function is called while waiting, and a start point that is out of reach is given up after half an hour.",
  ["histories", "configurations"], "all process responses, hysteresis, output ranges, cycle counts >= 1 and aggressiveness modes",
  "Tests tune one simulated process and check that it roughly settles.",
  ["controller/implementations/pid/pid_tuner.cpp", "controller/pid.cpp"], [("do_autotune", "controller/implementations/pid/pid_tuner.cpp"), ("autotune", "controller/pid.cpp")])
p("C21", "The set-reset latch honours its thresholds and all four time limits",
  "The latch turns on only for a reading above the high threshold or after being off longer than the maximal off time, turns off only for a reading below the low threshold or after being on longer than the maximal on time, and keeps its state in between. It never changes state before the minimal on/off time since the last actual change has passed, and a reading after a maximal time was exceeded always switches it, however often readings in between repeated the current state. The very first switch-on is not delayed by the minimal off time.",
  ["histories", "schedules", "configurations"], "all reading/time sequences, threshold and time-limit configurations",
  "Tests set thresholds and one timing limit at a time with sparse readings.",
  ["controller/sr_latch.cpp", "controller/sr_latch.hpp"], [("new_reading/set", "controller/sr_latch.cpp")])
p("C22", "Each filter computes its defined response for every sample sequence",
  "A passthrough returns the sample, an inverter mirrors it within its input range, a mapped range maps the clamped sample linearly onto its output range (never outside it), and a moving average starts at the first sample and then moves each time by the difference divided by min(samples seen, frame length), staying within the range of the samples. A band pass takes the first sample as it is and then accepts a sample exactly if it lies within mantissa*10^(decades+1) of the last accepted value plus offset (relative band) or of the fixed offset (absolute band), otherwise keeps its value until more than the configured number of consecutive rejections, then accepts it (raising an exception if so configured). Reading the value returns the latest result; resetting sets the value and forgets earlier samples (the next sample of a moving average starts it anew, a band pass continues from the given value). All within floating-point rounding.",
  ["inputs", "histories", "configurations"], "all sample sequences and configurations of every filter",
  "Tests feed each filter a few samples with default configurations.",
  ["filter/implementations/bandpass.hpp", "filter/implementations/ewma.hpp", "filter/implementations/mapped_range.hpp", "filter/implementations/invert.hpp", "filter/implementations/passthrough.hpp"], [("value/new_sample/reset_to", "filter/implementations/")])
p("C23", "A filter stack is the ordered composition of its filters within its slots",
  "A sample given to a filter stack passes through every attached filter exactly once, in the order attached, each receiving the previous one's output, and the result is the last filter's output (the sample itself when empty). The stack holds at most its configured number of filters: attaching beyond that leaves it unchanged, slot counts are exact, detaching an index returns that very filter and keeps the order of the others, and resetting resets every filter.",
  ["histories", "configurations"], "all attach/detach/sample/reset histories and slot counts",
  "Tests attach two filters; detach is never even instantiated.",
  ["filter/filterstack.hpp"], [("value", "filter/filterstack.hpp"), ("attach/detach", "filter/filterstack.hpp")])
p("C24", "A result always carries exactly one outcome and every combinator preserves it",
  "A result is at any time exactly one of success, failure, intermediary or empty, and yields exactly the value it was given for that outcome through copies, moves and assignments. Chaining calls the function exactly once on an intermediary result and otherwise passes the result through; map, map-error, map-intermediary, and-then, or-else, match and the value/error fallbacks call exactly the function belonging to the outcome, exactly once, and pass all other outcomes through unchanged. No combination, including on an empty result, touches a value that is not there.",
  ["programs", "inputs"], "all chains of combinators over all four outcomes, equal and distinct value types",
  "Tests try individual combinators with one type triple.",
  [S+"result.hpp", "core/meta/unique_type_variant.hpp"], [("type tag and variant", S+"result.hpp"), ("chain/map/...", S+"result.hpp")])
p("C25", "String helpers never read outside their view and return the right part",
  "For every string view (empty, all delimiters, not null-terminated, shorter than the needle), stripping returns the part of the view without leading respectively trailing delimiter characters, prefix/suffix tests and character search give the mathematically right answer, and float parsing gives the number that the whole view spells or zero if it does not spell one. None of them throws, modifies or reads a byte outside the view. Compile-time concatenation yields exactly the concatenated text.",
  ["inputs"], "all byte strings, delimiter sets and needles, views into unterminated memory",
  "Tests use a few well-formed literals.",
  ["core/utils/string.cpp", "core/utils/string.hpp", "core/utils/concatenate.hpp"], [("lstrip/rstrip/ends_with/to_float", "core/utils/string.cpp")])
p("C26", "A static string stays within its capacity and edits only what is asked",
  "A static string never reallocates or exceeds its capacity; a new one holds no characters but terminators; setting its size keeps the existing characters, requests beyond capacity are limited to it, and size, view, data and C string always agree and are null-terminated. Stripping removes exactly the leading respectively trailing delimiter characters for every content, including empty and all-delimiter strings, and the prefix/suffix tests give the right answer for every needle.",
  ["inputs", "histories"], "all contents, sizes, delimiter sets, needles and operation histories",
  "Tests strip a few literals with a non-delimiter somewhere inside.",
  [S+"static_string.cpp", S+"static_string.hpp"], [("set_size/data", S+"static_string.cpp"), ("lstrip/rstrip", S+"static_string.cpp")])
p("C27", "Time text is parsed exactly or rejected, and durations print correctly",
  "Parsing accepts exactly the strings made of decimal digits followed by one of us, ms, s, m, h or d, yields that count in that very unit, and rejects every other string (also missing digits, unknown units, trailing text and counts that do not fit) without throwing. Printing a non-negative duration shows the smallest unit for which it is below that unit's cutoff (1000 us, 1000 ms, 900 s, 1440 m, 24 h, then days) with the correctly rounded count, and parsing the printed text gives back that same count and unit.",
  ["inputs"], "all strings and all durations from zero to years in every unit",
  "Tests parse a few good strings and print a few values.",
  ["core/utils/time_repr.cpp", "core/utils/time_repr.hpp"], [("parse_time", "core/utils/time_repr.cpp"), ("repr", "core/utils/time_repr.hpp")])
p("C28", "Logging is filtered by level and bounded for messages of any length",
  "A log statement produces exactly one line if its level is at or above the current threshold in severity and no output otherwise, for every level and threshold, and arguments of suppressed statements are not evaluated. The line starts with the current time and the level and contains the formatted message, truncated to the message limit; no message or argument length makes it write outside its buffer.",
  ["inputs", "configurations"], "all message/argument lengths around and beyond the limit, all level x threshold combinations",
  "Tests log short strings only.",
  ["core/logging.cpp", "core/logging.hpp"], [("print", "core/logging.cpp"), ("is_loggable", "core/logging.cpp")])
p("C29", "Raised exceptions and failed assertions reach the installed handler exactly once",
  "Every exception raised through the framework, and in debug builds every failing assertion, is delivered exactly once to the handler installed at that moment with its type and message intact; passing assertions deliver nothing, and release builds evaluate no assertion. Installing a handler returns the previous one, ownership is transferred without leaks or double deletion, and with no handler installed raising is safe on the host platform. Failed expectations only log.",
  ["histories", "inputs"], "all sequences of handler installation/removal and raises of every exception kind",
  "Tests raise one exception with one handler.",
  ["core/exception.cpp", "core/exception.hpp", "core/debugging.hpp"], [("throw_error", "core/exception.cpp"), ("set_machine_exception_handler", "core/exception.cpp")])
p("C30", "Outputs always show what was commanded and fades end on the setpoint",
  "A digital output's reported state and the state given to the hardware always equal the last commanded one, through initialisation and flips. An analogue fade drives the hardware monotonically towards the setpoint without passing it, in steps no larger than the increment, waits the given interval between steps, stays within 0..1, and ends with both the hardware and the reported value exactly on the setpoint.",
  ["inputs", "histories"], "all start values, setpoints, increments and intervals; all command sequences",
  "There is no test of fades at all.",
  ["platform/gpio.cpp", "platform/gpio.hpp"], [("fade_to", "platform/gpio.cpp"), ("set_state/flip", "platform/gpio.hpp")])
p("C31", "Point arithmetic is componentwise and magnitudes are Euclidean",
  "For 2-D and 3-D points, sum, difference, product, quotient and remainder, in place or not, act on each component independently, equality holds exactly when all components are equal (and inequality is its negation), and scaling multiplies every component; the componentwise dot product of two points has the products of their components, which add up to the scalar product. The magnitude is the Euclidean length, and a normalised non-zero point has length one and the same direction.",
  ["inputs"], "all component values, integer and floating point, both dimensions",
  "Tests check one or two fixed points.",
  [S+"point.hpp"], [("operators/mag/normalize", S+"point.hpp")])
p("C32", "A mock stream delivers injected bytes once, in order, separately per direction",
  "Bytes injected into a mock stream are read by the code under test exactly once and in order, bytes the code writes are extracted exactly once and in order, and the two directions never mix. Available and writable counts are exact, writes beyond the output capacity are refused, and bytes passed through a UART on top of a stream arrive unchanged.",
  ["histories"], "all interleavings of inject/extract/read/write/bulk operations and capacities",
  "Tests inject one vector and read it back.",
  ["io/stream/implementations/mock.cpp", "io/stream/implementations/mock.hpp", "io/stream/stream.hpp", "platform/implementations/mock.hpp", "platform/protocols/uart.hpp"], [("swap_streams", "io/stream/implementations/mock.cpp"), ("read/write forwarding", "io/stream/stream.hpp")])
p("C33", "On Arduino, pins, interrupts, serial port and clock do what the HAL was told",
  "On an Arduino core, a digital output sets its pin to output before driving it and drives the level the state calls for (inverted when active on low); inputs enable the pull-up exactly when configured and report the level of their own pin. An analogue output drives a duty proportional to its value within 0..2^resolution-1, exactly off at 0 and full at 1 (mirrored when active on low), and an analogue sample is the 10-bit reading as a fraction of full scale. Interrupts are attached and detached by the interrupt number of their pin, with the callback and the edge asked for (or last used) in the core's own trigger values. Bytes written to and read from a UART pass through unchanged and in order, with true counts, and reading an idle port reports no byte. Clock readings and delays are exact, timers keep exact time on them at any uptime, printed text is complete (formatted text up to 255 characters), and halting disables interrupts. Configuration that is left out takes its declared default.",
  ["histories", "inputs", "configurations"], "all pins, polarities, resolutions, values, triggers, command histories, serial traffic, uptimes and core numberings",
  "The suite runs on the mock platform only; no test compiles the Arduino binding.",
  ["platform/implementations/arduino.hpp", "platform/implementations/arduino_without_sugar.hpp", "platform/gpio.hpp", "platform/platform.hpp", "platform/protocols/uart.hpp"], [("set_state_impl/set_value_impl/attach_interrupt", "platform/implementations/arduino.hpp"), ("trigger values", "platform/implementations/arduino_without_sugar.hpp")])
p("C34", "On Zephyr, delays, clock, logging and halting do what the HAL was told",
  "On Zephyr, a delay lasts at least as long as asked for and at most one millisecond longer, without spinning for more than a millisecond, and clock readings equal the kernel's uptime (microseconds modulo 2^32). A log statement reaches the kernel's log exactly once when its level is enabled and never otherwise, at the kernel level that corresponds to its own, with its text cut off at the message limit and not interpreted as a format a second time. With runtime filtering the kernel's filter always follows the log level that was set, off included. Halting logs the reason given and panics, also when an exception is raised without a handler.",
  ["histories", "inputs", "configurations"], "all delays, uptimes, levels, thresholds and message contents",
  "The suite runs on the mock platform only; no test compiles the Zephyr binding.",
  ["platform/implementations/zephyr.hpp", "platform/implementations/zephyr.cpp", "core/logging.cpp", "platform/platform.hpp"], [("delay_us", "platform/implementations/zephyr.hpp"), ("zephyr_log/zephyr_set_log_level", "platform/implementations/zephyr.cpp")])
p("C35", "Containers and components obtain memory once, when they are built",
  "Every container (array, vector, stack, ring and line buffer, static string, pool) obtains memory at most once, in one block when it is constructed with a capacity, value or list (never over external storage), and gives it back when it is destroyed or assigned over. From then on no operation in any history of a release build, overload included, allocates or frees memory: not on containers, nor on buffered streams and transactions, the event system (attaching, scheduling, triggering, delivering), filters and filter stacks, controllers, latches, timers and schedules. Moving and swapping containers allocates nothing. (Elements that own memory themselves, assignment from a list, and texts returned as std::string aside.)",
  ["histories", "inputs"], "all histories, capacities, element types and fill levels",
  "The suite never looks at the heap; a temporary allocation changes no value that a test could compare.",
  [S+"array.hpp", S+"vector.hpp", S+"ringbuffer.hpp", S+"linebuffer.cpp", S+"static_string.cpp", S+"pool.hpp", "io/stream/buffered_stream.cpp", "eventsystem/eventsystem.cpp", "eventsystem/pipeline.cpp", "filter/filterstack.hpp"],
  [("Array constructors", S+"array.hpp"), ("rearrange", S+"vector.hpp"), ("EventSystem constructor/loop/trigger", "eventsystem/eventsystem.cpp")])
p("C36", "What is left out of a configuration or a call takes its declared default",
  "Every configuration field, argument or setting that the API lets a user leave out (latch time limits, controller gains, limits, interval, proportionality and direction, tuning configuration and clock, event delays and event data, pipeline capacity, stream sizes and line delimiters, buffer roll-over and drop counts, timer epochs and modes, filter configurations and their named presets, characters to strip, parts of a date and its format, fade pace) behaves exactly, at every step and in time, as if its declared default had been written out, and never as whatever was in that memory before; new units and points are zero, new events carry nothing, new outputs are off, new tuners have no results.",
  ["histories", "inputs"], "every combination of fields left out, every history after that",
  "The suite sets most fields explicitly and never compares an omitted one with its default; an unset member often holds a harmless value by accident.",
  ["controller/pid.hpp", "controller/sr_latch.hpp", "controller/implementations/pid/pid_tuner.hpp", "controller/implementations/pid/pid_controller.hpp", "eventsystem/eventsystem.hpp", "eventsystem/pipeline.hpp", "io/stream/buffered_stream.hpp", S+"linebuffer.hpp", S+"ringbuffer.hpp", S+"time/timers.hpp", "filter/implementations/bandpass.hpp", "filter/implementations/mapped_range.hpp", "filter/implementations/invert.hpp", "filter/implementations/ewma.hpp", "core/utils/string.hpp", S+"time/datetime.hpp", "platform/gpio.hpp", S+"units/primitives/unit.hpp"],
  [("Config structs and default arguments", "eventsystem/eventsystem.hpp"), ("PID::Config/TuneConfig", "controller/pid.hpp"), ("default member initialisers", "filter/implementations/bandpass.hpp")])
p("C37", "Objects are independent of each other, of their copies and of where they live",
  "What an object does depends only on its own history: not on what other objects of the same or another type do meanwhile, nor on the place in memory it lives at. A ring or line buffer, vector, array, stack, pool, buffered stream, pipeline, future, timer, controller, tuner, latch, filter, filter stack, schedule, date, result or output that is moved (constructed or assigned over a used one) or swapped goes on exactly where it was, with every element, configuration, callback and deadline; a copy of a copyable one goes on exactly like its original would, and neither is touched by what the other does or by its end.",
  ["histories", "schedules"], "all histories of all combinations of objects, moved, swapped and copied at every point",
  "The suite uses one object at a time and never moves one that has been used; shared static state or a member left behind in a move shows only when two histories meet.",
  [S+"array.hpp", S+"vector.hpp", S+"ringbuffer.hpp", S+"linebuffer.hpp", S+"pool.hpp", S+"stack.hpp", S+"result.hpp", S+"static_string.hpp", S+"time/timers.hpp", S+"time/schedule.hpp", S+"time/datetime.hpp", "io/stream/buffered_stream.hpp", "io/stream/implementations/mock.hpp", "eventsystem/eventsystem.hpp", "eventsystem/pipeline.hpp", "controller/pid.hpp", "controller/sr_latch.hpp", "controller/implementations/pid/pid_tuner.hpp", "filter/filterstack.hpp", "filter/implementations/bandpass.hpp", "filter/implementations/ewma.hpp", "platform/gpio.hpp"],
  [("move/copy operations", S+"array.hpp"), ("move/copy operations", S+"vector.hpp"), ("members", "controller/pid.hpp"), ("Pipeline", "eventsystem/pipeline.hpp")])
p("C38", "A failure thrown through a component loses nothing and leaves it working",
  "When something the user supplied fails by throwing (an event handler, a stream, a function given to a result, a filter, an output's hardware, a process that is being tuned, the machine's exception handler), the failure reaches the caller unchanged and exactly once, nothing else is called on the way, and the component goes on: an event whose handler failed is done with and its capacity is free, all other events fire as due; bytes taken from a stream are in the buffer, bytes not taken by a stream are still waiting, each once and in order; a transaction left that way ends as if it had gone out of scope; a result keeps its outcome; a filter stack keeps its value, a filter that raises does not take the sample over and goes on raising until a sample is inside; a digital output does what it is told next; a controller and later tuning runs are unaffected. In a debug build, misuse refused by an assertion changes nothing.",
  ["faults", "histories"], "every call of every supplied piece failing, at every point of every history; all misuse that assertions refuse",
  "The suite has no failing streams, handlers or processes; state left half-changed shows only in what happens after the failure.",
  ["eventsystem/eventsystem.cpp", "eventsystem/pipeline.cpp", "io/stream/buffered_stream.cpp", "io/stream/transaction.hpp", "io/stream/transaction.cpp", S+"result.hpp", "filter/filterstack.hpp", "filter/implementations/bandpass.hpp", "filter/implementations/mapped_range.hpp", "platform/gpio.hpp", "controller/pid.cpp", S+"vector.hpp", S+"pool.hpp", S+"static_string.cpp"],
  [("loop/trigger", "eventsystem/eventsystem.cpp"), ("pull_in_data/push_out_data", "io/stream/buffered_stream.cpp"), ("chain/map", S+"result.hpp"), ("set_state", "platform/gpio.hpp")])
p("C39", "A device built from the parts serves every command and control step",
  "Consider a device put together from the parts as they are meant to be used: an event system calls its handlers periodically; one pulls in bytes from a port through a buffered stream, answers each complete command line in a transaction (parsing numbers and times with the string and time helpers and a result chain, committing the reply, or aborting when the line makes no sense or the reply has no room), schedules output changes as events and pushes replies out; another samples through a filter stack, looks up a day schedule, updates a PID controller and a latch and drives outputs. Then for every stream of commands, fragmentation, failing or slow port, tick pattern, handlers that take time, and uptime: every line is delivered exactly once, intact, in order, and leaves the buffer; a reply goes out exactly once, complete and in order, and an aborted one not at all; every accepted change happens exactly once, in order of its time, not before it, and no later than the first tick at or after it; the periodic work never stops; an idle device rests; and each part gives what it gives on its own for the same inputs at the same times.",
  ["histories", "schedules", "faults"], "all command streams, fragmentations, buffer sizes, port behaviours, tick and work patterns, periods and uptimes",
  "The suite tests parts one at a time; nothing in it runs a stream, an event system and controllers together, where one part's buffer position, pool slot or time stamp meets another's.",
  ["eventsystem/eventsystem.cpp", "eventsystem/eventsystem.hpp", "eventsystem/pipeline.cpp", "io/stream/buffered_stream.cpp", "io/stream/transaction.cpp", S+"linebuffer.cpp", S+"ringbuffer.hpp", S+"pool.hpp", S+"vector.hpp", S+"result.hpp", S+"time/schedule.cpp", S+"time/timers.cpp", "filter/filterstack.hpp", "controller/pid.cpp", "controller/sr_latch.cpp", "core/utils/string.cpp", "core/utils/time_repr.cpp", "platform/gpio.hpp"],
  [("loop/schedule", "eventsystem/eventsystem.cpp"), ("new_transaction", "io/stream/buffered_stream.cpp"), ("commit/abort", "io/stream/transaction.cpp"), ("new_reading", "controller/pid.cpp")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
