#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/string_functions.rs"
X = "src/extra_functions.rs"
D = "src/date_time_extra_functions.rs"
N = "src/date_time_numeric_functions.rs"

# id: title, statement, over, quantifier text, why tests can't, files, mechanisms, technique
P = []
def p(*a):
    P.append(a)

p("C01", "String functions compute on characters: LEFT/RIGHT/MID/INSERT/DELETE/REPLACE",
  "For every well-formed STRING (UTF-8) and WSTRING (UTF-16) and every length/position inside of the text, LEN, LEFT, RIGHT, MID, INSERT, DELETE, REPLACE and CONCAT (any number of texts) deliver the text IEC 61131-3 defines on characters (a character outside of ASCII or outside of the BMP counts once, a position counts from 1). "
  "The result is terminated, whatever the destination held before, and the inputs stay unchanged. An empty selection (length 0, end of the text, empty argument) is valid. The functions which deliver the text through a parameter (*_EXT) return 0.",
  ["inputs"], "all well-formed texts up to a few thousand characters, all valid lengths and positions, all previous contents of the destination, 1 to 8 arguments of CONCAT",
  "the tests use about two ASCII texts per function; characters of several units, empty results, borders and stale destinations are not combined",
  [S], [("encoding aware slicing by character", S + ": traits CharsDecoder, CharsEncoder"), ("terminator written after the result", S + ": *_EXT__STRING, *_EXT__WSTRING")],
  "differential monitor against a character level reference model under generated, boundary and exhaustive small workloads")
p("C02", "String functions reject lengths and positions outside of the text",
  "LEFT, RIGHT, MID, DELETE, REPLACE and INSERT never deliver a result for a length or position which does not select a part of the text (negative, beyond the number of characters, position 0 where counting starts at 1): the call is refused by a panic, in the debug and in the release build alike. "
  "Comparing fewer than two texts is refused, too. A refused call does not change its inputs.",
  ["inputs"], "all well-formed texts, all 32 bit lengths and positions including the extremes of the type, both build profiles",
  "the tests check single values such as length+1; sums which overflow 32 bits and multi unit texts are not reached, and only the debug build is tested",
  [S], [("argument checks before slicing", S + ": panics in the *_EXT functions")],
  "monitor requiring a refusal for every invalid argument, both build profiles")
p("C03", "FIND delivers the first character position of a text in another one",
  "For every pair of well-formed texts, FIND delivers the 1-based character position of the first occurrence of the second text in the first one, and 0 if it does not occur or if the text to be found is empty. Occurrences are compared as whole characters, never as parts of a character's encoding.",
  ["inputs"], "all pairs of well-formed STRINGs or WSTRINGs: overlapping, repeated, nearly matching and multi unit ones",
  "the tests have a handful of pairs without partial matches, repetitions or coinciding parts of encodings",
  [S], [("search over windows of units/characters", S + ": FIND__STRING, FIND__WSTRING")],
  "differential monitor against a naive search on characters")
p("C04", "String comparison is a lexicographic total order over code units",
  "EQ, LT, LE, GT, GE on two or more texts hold iff the relation holds between every pair of neighbours in lexicographic order of the code units (a proper prefix is smaller), and NE is the negation of EQ for two texts. What is stored behind a terminator has no influence.",
  ["inputs"], "all tuples of 2 to 8 texts, also with a single different pair at any place, units from 1 to the maximum",
  "tests compare a few ASCII texts; the order of units above 0x7f/0x7fff, prefixes, and the place of the deciding pair are not covered",
  [S], [("pairwise comparison of neighbours", S + ": compare")],
  "differential monitor on tuples with controlled differences, exhaustive pairs over hostile units")
p("C05", "String functions touch only their strings, whatever the bytes are",
  "No string function or string conversion reads beyond the terminator of an input or writes outside of the destination area its result (plus terminator) needs, and inputs are never modified - also for ill-formed or truncated UTF-8/UTF-16 and for refused calls. A null pointer in place of a text reads as an empty text; CONCAT without a list of texts or a destination is refused. Every call returns or is refused; it never crashes the process or loops.",
  ["inputs"], "all byte/unit sequences up to the terminator, including malformed ones, all lengths and positions, destinations ending directly after the needed room",
  "unit tests read and write into comfortable buffers, so that an access beyond the end is not noticed",
  [S, "src/string_conversion.rs", X, "src/utils.rs"], [("length by scanning for the terminator", S + ": get_null_terminated_len, ptr_to_slice"), ("bounded decoding of malformed sequences", S + ": EncodedCharsIter")],
  "guard pages and canaries around every string, crash and hang monitor; AddressSanitizer and Miri in the thorough tier")
p("C06", "STRING/WSTRING and CHAR/WCHAR conversions preserve every character",
  "STRING_TO_WSTRING and WSTRING_TO_STRING translate every well-formed text character by character between UTF-8 and UTF-16, with a terminator, so that the conversion forth and back is the identity. CHAR_TO_WCHAR keeps the code of a CHAR and WCHAR_TO_CHAR delivers the first byte of the UTF-8 form of a WCHAR; an unpaired surrogate becomes the replacement character. The functions which deliver the text through a parameter (*_EXT) return 0.",
  ["inputs"], "all well-formed texts, every scalar value of Unicode, every CHAR and WCHAR, all previous contents of the destination",
  "tests convert a few short texts", ["src/string_conversion.rs", "src/utils.rs"], [("transcoding through std's UTF-16 routines", "src/string_conversion.rs")],
  "differential monitor against an own transcoder, enumeration of all characters, round trips")
p("C07", "Integer to STRING conversions are exact decimal texts",
  "BYTE, LWORD and LINT (and all types converted through them) become their exact decimal text without padding or leading zeros and with a minus sign for negative values only, terminated whatever the destination held before. Converting the text of a LINT or DINT back delivers the value. The *_EXT functions return 0.",
  ["inputs"], "all values of 8 bits, boundary biased values of 64 bits, all previous contents of the destination",
  "tests convert two or three values each", [X], [("formatting with a terminator", X + ": *_TO_STRING_EXT")],
  "differential monitor against an own formatter with stale destinations, round trips")
p("C08", "STRING to integer conversion accepts exactly the integers in range",
  "STRING_TO_LINT and STRING_TO_DINT deliver the value of a text which consists of an optional prefix (16#, 0x, 0X, 8#, 2#, 0b, 0B), an optional sign and one or more digits of the base, if the value fits the type. Every other text (empty, blanks, other characters, value beyond the type) is refused, never converted to a wrong number.",
  ["inputs"], "all texts: all bases, signs, leading zeros, both limits of both types, malformed texts",
  "tests check a few decimal and prefixed texts of small values", [X], [("prefix detection and from_str_radix", X + ": string_to_int")],
  "differential monitor against an own parser with unbounded numbers; short texts enumerated")
p("C09", "STRING to REAL/LREAL is correctly rounded; REAL/LREAL to STRING shows 6 places",
  "STRING_TO_REAL and STRING_TO_LREAL deliver the nearest value of the type (ties to even) for every decimal number and inf/infinity/nan in any case, and refuse every other text. REAL_TO_STRING and LREAL_TO_STRING deliver a correctly rounded text with six digits after the point, in plain notation while the integer part of the magnitude is below 1E6 (REAL) or 1E14 (LREAL), in scientific notation otherwise, for both signs; inf, -inf and NaN for the special values. The *_EXT functions return 0.",
  ["inputs"], "all decimal texts including midpoints of neighbouring floats and hundreds of digits; all values including negative, subnormal, huge ones and ties",
  "tests convert a few positive values", [X], [("std's parser and formatter, choice of notation", X + ": LREAL_TO_STRING_EXT, REAL_TO_STRING_EXT, string_to_float")],
  "exact rational arithmetic decides rounding in both directions, round trips")
p("C10", "TIME, DATE, TOD and DT to STRING show every component of the value",
  "DATE_TO_STRING, DT_TO_STRING and TOD_TO_STRING show the calendar date (YYYY-MM-DD) and/or time of day (HH:MM:SS with 0, 3, 6 or 9 digits of fraction as needed) of every value, before 1970 as well. TIME_TO_STRING shows the non-zero components d, h, m, s, ms, us, ns, which add up to the value, with a leading minus sign for negative ones; all results are terminated. The *_EXT functions return 0.",
  ["inputs"], "all 64 bit nanosecond values: negative, leap days, every pattern of zero components; time zones of the machine",
  "tests convert one or two positive values each", [X], [("chrono formatting", X + ": DT_TO_STRING_EXT"), ("decomposition into units", X + ": parse_timestamp")],
  "differential monitor against an own calendar and formatter")
p("C11", "ADD_*/SUB_* of times and dates are exact or rejected",
  "ADD_TIME, ADD_TOD_TIME, ADD_DT_TIME, SUB_TIME, SUB_DATE_DATE, SUB_TOD_TIME, SUB_TOD_TOD, SUB_DT_TIME and SUB_DT_DT deliver the exact sum or difference of their operands in nanoseconds. If it is not representable in 64 bits the call is refused by a panic in both build profiles; it never wraps around.",
  ["inputs"], "all pairs of 64 bit operands, in particular results next to and at both limits",
  "tests have one ordinary pair and one overflow for some of the functions", [N], [("checked arithmetic", N + ": add_datetime_time, sub_datetimes, sub_datetime_duration, ADD_TIME, SUB_TIME")],
  "differential monitor in 128 bit arithmetic, operands chosen around the limits")
p("C12", "MUL/DIV of TIME by every integer type is exact or rejected",
  "MUL, MUL_TIME, MUL_LTIME deliver the exact product and DIV, DIV_TIME, DIV_LTIME the quotient truncated towards zero for every integer type of the second operand. A result which is not representable, and a division by zero, are refused in both build profiles.",
  ["inputs"], "all pairs of TIME and SINT, INT, DINT, LINT, USINT, UINT, UDINT, ULINT values for all 48 functions",
  "tests use one or two small operands per type", [N], [("checked arithmetic", N + ": checked_mul_time_with_*_int, checked_div_time_by_*_int")],
  "differential monitor in 128 bit arithmetic, products next to the limits")
p("C13", "MUL/DIV of TIME by REAL/LREAL is accurate or rejected",
  "MUL/MUL_TIME/MUL_LTIME and DIV/DIV_TIME/DIV_LTIME of TIME by REAL and LREAL deliver the exact product or quotient up to one nanosecond plus the rounding of the operand's type (relative 2^-22 for REAL, 2^-50 for LREAL), with the right sign. NaN, an infinite factor, a division by zero and results outside of the 64 bit range are refused, never saturated or wrapped; a division by infinity is 0.",
  ["inputs"], "all TIME values and all REAL/LREAL operands including negative, fractional, subnormal, infinite and NaN ones, results next to the limits",
  "tests have one or two ordinary operands per type", [N], [("conversion with range check", N + ": checked_mul_time_with_f32/_f64, checked_div_time_by_f32/_f64")],
  "exact rational arithmetic bounds the error of every observed result")
p("C14", "CONCAT_DATE/CONCAT_TOD/CONCAT_DATE_TOD accept exactly valid parts",
  "CONCAT_DATE and CONCAT_TOD, for every integer type, deliver the value of the parts if they denote an existing day of the proleptic Gregorian calendar or a time of day 00:00:00.000 to 23:59:59.999 which is representable; all other parts are refused (also those which would become valid when cut to fewer bits). CONCAT_DATE_TOD delivers the day of the first operand at the time of day of the second one, refusing results which are not representable.",
  ["inputs"], "all parts of all integer types, leap years and centuries, limits of the range (years 1677 and 2262), whole calendar enumerated",
  "tests concatenate one date each", [D], [("chrono constructors with checks, lossless conversion of the parts", D + ": concat_date, concat_tod, CONCAT_DATE_TOD")],
  "differential monitor against an own calendar; enumeration of the calendar")
p("C15", "SPLIT_DATE/SPLIT_TOD/SPLIT_DT and DAY_OF_WEEK deliver the calendar fields",
  "SPLIT_DATE, SPLIT_TOD and SPLIT_DT, for every output type, write exactly year, month, day, hour, minute, second and millisecond of the value to the outputs in this order, and nothing else, and deliver 0. DAY_OF_WEEK delivers 0 for Sunday to 6 for Saturday; both hold for values before 1970 as well.",
  ["inputs"], "all 64 bit values, every day of the representable range",
  "tests split one value each", [D], [("chrono fields", D + ": SPLIT_*, DAY_OF_WEEK")],
  "differential monitor against an own calendar, outputs in guarded memory, all days enumerated")
p("C16", "DATE_AND_TIME_TO_DATE and _TO_TIME_OF_DAY split at midnight (UTC)",
  "For every DATE_AND_TIME, DATE_AND_TIME_TO_DATE delivers the preceding (or same) midnight and DATE_AND_TIME_TO_TIME_OF_DAY the nanoseconds since it, always within one day; put together by CONCAT_DATE_TOD they are the value again. A midnight which is not representable is refused; the time zone of the machine has no influence.",
  ["inputs", "configurations"], "all 64 bit values, negative ones and the first day of the range included; several time zones",
  "tests convert one positive value", ["src/date_time_conversion.rs", D], [("chrono date and time parts", "src/date_time_conversion.rs")],
  "monitor of the decomposition and of the round trip")
p("C17", "TIME() is the local time of day of the system clock",
  "TIME() delivers the nanoseconds elapsed since local midnight at the moment of the call, according to the wall clock and time zone of the system: always 0 <= TIME() < 24 h, in steps of the clock's resolution, across changes of daylight saving time and around midnight.",
  ["inputs", "configurations"], "all wall clock readings of 1971 to 2037, several time zones with and without daylight saving time, also the real clock",
  "the test only compares two readings of a mocked clock", [X, "src/extra_functions.rs"], [("local time of chrono", X + ": TIME, get_time")],
  "virtual wall clock under the real code, compared with localtime_r; bracketing readings of the real clock")
p("C18", "Counters CTU/CTD/CTUD count rising edges exactly once and saturate",
  "For every history of inputs, CTU counts up and CTD counts down by one on each rising edge of its clock input only, never beyond the limits of its type; R sets the value to 0, LD loads PV (both dominate counting, R dominates LD; the call remembers no edge), and CTUD does not count when both edges occur in the same call. After every call Q/QU is CV >= PV and Q (CTD)/QD is CV <= 0; all types (INT, DINT, UDINT, LINT, ULINT) behave alike.",
  ["histories", "inputs"], "all sequences of CU/CD/R/LD/PV of any length, all counter types, values at both limits of the types, instances starting from zero",
  "tests have one short history per block and type; combinations of simultaneous inputs and the limits are not reached",
  ["src/counters.rs", "src/utils.rs", "iec61131-st/counters.st"], [("edge detection", "src/utils.rs: Signal"), ("CTU/CTD/CTUD step", "src/counters.rs: ctu, ctd, ctud")],
  "online monitor: reference state machine in lock step on random, enumerated short and long histories")
p("C19", "TP delivers one pulse of exactly PT per accepted rising edge",
  "A rising edge of IN while TP is not within a pulse starts a pulse: Q is TRUE for every call whose elapsed time is at most PT and FALSE afterwards, independent of IN; further edges during the pulse do not prolong it. ET is the elapsed time during the pulse, PT after it while IN stays TRUE, and 0 once IN is FALSE after the pulse; a new edge after the pulse starts again, PT may change between calls, the PT of the call counts (raising it after the end of a pulse is not covered); only the monotonic clock matters, and no history crashes. Of a retained instance whose clock after a restart lies before its start time only this is required: calls with any PT succeed, ET stays within 0..=PT (PT >= 0), and once the timer has been stopped it behaves as specified.",
  ["histories", "schedules"], "all histories of IN, PT (>= 0, changed at any time) and call times, including calls exactly at PT and one nanosecond later, wall clock jumps, a clock advancing during the call",
  "tests run one mocked history", ["src/timers.rs", "iec61131-st/timers.st"], [("start time and preset comparison", "src/timers.rs: TP, TimerParams")],
  "virtual clock under the real code, reference automaton in lock step, short histories enumerated, real clock with interval semantics")
p("C20", "TON switches on only after IN was TRUE for longer than PT",
  "Q of TON is TRUE exactly if IN has been TRUE in every call since a call more than PT ago; any call with IN FALSE resets it. ET is the time since that first call, limited to PT, and 0 while IN is FALSE or in the first call. PT may change between calls, the PT of the call counts; only the monotonic clock matters and no history crashes. Of a retained instance whose clock after a restart lies before its start time only this is required: calls with any PT succeed, ET stays within 0..=PT (PT >= 0), and once the timer has been stopped it behaves as specified.",
  ["histories", "schedules"], "all histories of IN, PT (>= 0, changed at any time) and call times, including calls exactly at PT and one nanosecond later, wall clock jumps, a clock advancing during the call",
  "tests run one mocked history", ["src/timers.rs", "iec61131-st/timers.st"], [("start time and preset comparison", "src/timers.rs: TON, TimerParams")],
  "virtual clock under the real code, reference automaton in lock step, short histories enumerated, real clock with interval semantics")
p("C21", "TOF switches off only after IN was FALSE for longer than PT",
  "Q of TOF is TRUE while IN is TRUE and remains TRUE after a falling edge until more than PT has elapsed; a new TRUE of IN restarts it, and without a preceding TRUE it stays FALSE. ET is 0 while IN is TRUE, the time since the falling edge limited to PT afterwards. PT may change between calls, the PT of the call counts (raising it after the end of the delay is not covered); only the monotonic clock matters and no history crashes. Of a retained instance whose clock after a restart lies before its start time only this is required: calls with any PT succeed, ET stays within 0..=PT (PT >= 0), and once the timer has been stopped it behaves as specified.",
  ["histories", "schedules"], "all histories of IN, PT (>= 0, changed at any time) and call times, including calls exactly at PT and one nanosecond later, wall clock jumps, a clock advancing during the call",
  "tests run one mocked history", ["src/timers.rs", "iec61131-st/timers.st"], [("start time and preset comparison", "src/timers.rs: TOF, TimerParams")],
  "virtual clock under the real code, reference automaton in lock step, short histories enumerated, real clock with interval semantics")
p("C22", "R_TRIG/F_TRIG see every edge once; SR is set, RS is reset dominant",
  "Q of R_TRIG (F_TRIG) is TRUE in exactly those calls whose CLK is TRUE (FALSE) after it was FALSE (TRUE) in the call before, starting from FALSE. SR delivers SET1 OR (NOT RESET AND Q1), RS delivers NOT RESET1 AND (SET OR Q1) of its own previous output, for every history of inputs.",
  ["histories"], "all input histories, enumerated up to 8 (SR/RS) and 14 (triggers) calls and random beyond",
  "tests have one history per block", ["src/flanks.rs", "src/bistable_functionblocks.rs", "src/utils.rs"], [("edge memory", "src/utils.rs: Signal"), ("dominance", "src/bistable_functionblocks.rs")],
  "online monitor: reference state machine in lock step, short histories enumerated")
p("C23", "Function block instances are independent, movable and stay in their variables",
  "The result of calling an instance depends only on its own variables, its inputs (and the clock): not on other instances of the same or other types, on the thread which calls it, or on the address of the instance (its variables may be copied elsewhere between calls). A call modifies no memory outside of the variables declared for the instance, and not its input variables.",
  ["histories", "schedules"], "all interleavings of calls of several instances of all 28 blocks, threads taking turns or calling different instances at the same time, instances placed side by side",
  "each test drives a single instance of one block in one thread",
  ["src/counters.rs", "src/timers.rs", "src/flanks.rs", "src/bistable_functionblocks.rs", "iec61131-st/counters.st", "iec61131-st/timers.st", "iec61131-st/flanks.st", "iec61131-st/bistable_functionblocks.st"],
  [("state only in the instance, layout equal to the ST declaration", "src/timers.rs: TimerParams, src/counters.rs: CTUParams")],
  "instances in adjacent guarded memory with layouts taken from the ST sources, lock step models per instance, relocation between calls, several threads; TSan, ASan and Miri in the thorough tier")
p("C24", "SHL/SHR/ROL/ROR shift and rotate by any number of bits",
  "SHL and SHR of BYTE, WORD, DWORD and LWORD move every bit by N places and fill with zeros, also if N is equal to or greater than the width (result 0); ROL and ROR rotate by N modulo the width. This holds for every N of 32 bits and in both build profiles.",
  ["inputs"], "all operands (BYTE enumerated with all small N), all N up to 2^32-1",
  "tests shift one value by one number each", ["src/bit_shift_functions.rs"], [("shift with range check", "src/bit_shift_functions.rs")],
  "bit by bit reference monitor, both build profiles")
p("C25", "Endianness conversions reverse bytes consistently and are inverse",
  "On the little endian target TO_BIG_ENDIAN and FROM_LITTLE_ENDIAN reverse the bytes of every integer, bit string, character and date value, TO_LITTLE_ENDIAN and FROM_BIG_ENDIAN keep them, for all types alike; REAL and LREAL values are kept by all four. Each function is its own inverse.",
  ["inputs"], "all values of all 15 types (16 bit types enumerated)",
  "tests convert one value each", ["src/endianness_conversion_functions.rs"], [("to_be/to_le of std", "src/endianness_conversion_functions.rs")],
  "differential monitor on byte arrays, 16 bit values enumerated, involution")
p("C26", "Bit casts keep every bit; IS_VALID and IS_VALID_BCD decide exactly",
  "DWORD_TO_REAL, LWORD_TO_LREAL, REAL_TO_DWORD and LREAL_TO_LWORD reinterpret the bits, so that forth and back is the identity. IS_VALID is TRUE exactly for finite values, IS_VALID_BCD of BYTE, WORD, DWORD and LWORD exactly if every digit of four bits is at most 9.",
  ["inputs"], "all bit patterns (BYTE and WORD enumerated), NaN, infinities and subnormals included",
  "tests check a handful of patterns", ["src/bit_num_conversion.rs", "src/validation_functions.rs"], [("from_bits/to_bits", "src/bit_num_conversion.rs"), ("digit check", "src/validation_functions.rs")],
  "differential monitor on bit patterns, BYTE and WORD enumerated")
p("C27", "MAX, MIN and LIMIT select the right operand for every type",
  "MAX and MIN of one or more operands deliver the greatest or smallest one wherever it stands, for all elementary types with the order of the type (signed, unsigned, floating point); NaN operands are ignored unless all are NaN, no operands at all are refused. LIMIT(MN, IN, MX) with MN <= MX delivers IN clamped to the range.",
  ["inputs"], "operand lists of 1 to about 65000 values and all types, the greatest value at any place, limits of the types",
  "tests select among three or four values per type, most types are not tested", ["src/numerical_functions.rs", "src/types.rs", "src/utils.rs", "iec61131-st/selectors.st"], [("fold over the operands", "src/types.rs: define_order_type, define_float_type; src/utils.rs: VarArgs")],
  "differential monitor over operand lists ending at a guard page")
p("C28", "Elementary functions and constants are accurate for REAL and LREAL",
  "SQRT, LN, LOG (base 10), EXP, SIN, COS, TAN, ASIN, ACOS, ATAN and ATAN2(Y, X) are within 3 units in the last place of the exact value for REAL and LREAL over the whole range, SQRT is correctly rounded and LOG exact at the powers of ten, with the IEEE 754 results for NaN, infinities, zeros and arguments outside of the domain. ROUND rounds to the nearest integer, halves away from zero, and the constants PI, PI/2, PI/4 and E are the nearest values.",
  ["inputs"], "all REAL and LREAL arguments including huge ones, neighbours of singularities and special values",
  "tests check one value per function with a coarse tolerance", ["src/arithmetic_functions.rs", "src/numerical_functions.rs"], [("std's functions", "src/arithmetic_functions.rs")],
  "independent 320 bit arithmetic bounds the error of every observed result")
p("C29", "EXPT is accurate for real and integral exponents of all type combinations",
  "EXPT for REAL/LREAL bases with DINT, REAL and LREAL exponents is within a few units in the last place of the exact power, with growing tolerance proportional to the magnitude of a DINT exponent only, and exact whenever the base and power are small integers. Negative bases take the sign of the parity of an integral exponent and deliver NaN for fractional ones; zero, one, infinite and NaN operands follow IEEE 754, with EXPT(REAL, LREAL) rounding its exponent to REAL first.",
  ["inputs"], "all pairs of operands, negative and zero bases, negative, huge and fractional exponents, overflow and underflow",
  "tests check one pair per combination", ["src/arithmetic_functions.rs"], [("powi/powf of std", "src/arithmetic_functions.rs: EXPT__*")],
  "independent 320 bit arithmetic bounds the error of every observed result, exact powers enumerated")
p("C30", "Stateless functions are pure and may be called from any thread",
  "The result of every function other than TIME() and the function blocks depends on its arguments only: not on earlier calls of the same or other functions (including refused ones), not on calls of other threads at the same time, and not on the thread, the clock, environment variables (language) or the working directory. No two concurrent calls on different destinations disturb each other.",
  ["schedules", "histories"], "all orders and interleavings of calls of all exported functions from several threads, all surroundings",
  "tests call functions one at a time and never compare repeated calls", ["src/string_functions.rs", X, D, N, "src/utils.rs", "src/types.rs"], [("no global state", "src/*.rs")],
  "history monitor: results of concurrent and repeated calls against the first sequential result; TSan and Miri in the thorough tier")

ST = "iec61131-st/"
p("C31", "Integer, bit string, BOOL, character and time conversions keep the bits",
  "Every conversion *_TO_* between integer types, bit strings, BOOL, CHAR/WCHAR, and between integers/bit strings and TIME, DATE, TIME_OF_DAY, DATE_AND_TIME (and their L-variants) of the ST library delivers the value modulo 2^n, n being the width of the result (so a value which fits is kept, sign included, and wider results are filled with the sign of a signed and zeros of any other operand). Conversions of bit strings and of narrow integers to BOOL deliver bit 0, LINT_TO_BOOL and DINT_TO_BOOL whether the value is not 0.",
  ["inputs"], "all values of all about 240 conversions (8 and 16 bit operands enumerated)",
  "the conversions exist in ST only and no unit test executes them; the integration tests use one value each", [ST + "num_conversion.st", ST + "bit_conversion.st", ST + "bit_num_conversion.st", ST + "date_time_conversion.st", ST + "date_time_numeric_functions.st"],
  [("implicit conversion by assignment", ST + "num_conversion.st, bit_conversion.st"), ("bit 0 as BOOL", ST + "bit_conversion.st: *_TO_BOOL")],
  "execution of the ST functions in a checking interpreter, compared with arithmetic modulo 2^n; 8 and 16 bit operands enumerated")
p("C32", "ST conversions and powers of floating point values are exact or rounded once",
  "For every operand whose result is in range: REAL and LREAL to integers rounds to the nearest, halves away from zero; *_TRUNC_* and TRUNC cut the fraction off; integers to REAL/LREAL and LREAL_TO_REAL deliver the nearest value; ABS delivers the magnitude for every type; conversions between REAL/LREAL and bit strings keep the bits; EXPT with exponents of every integer type (SINT to ULINT) is the power within the tolerance of C29, for exponents beyond 2^31 as well.",
  ["inputs"], "all operands of all these functions: halves, neighbours of halves and of the limits of each integer type, integers beyond 2^24 and 2^53, all exponents of 64 bits",
  "the functions exist in ST only and no unit test executes them", [ST + "num_conversion.st", ST + "numerical_functions.st", ST + "arithmetic_functions.st", ST + "bit_num_conversion.st"],
  [("ROUND followed by an assignment", ST + "num_conversion.st: REAL_TO_*, LREAL_TO_*"), ("exponents converted for the exported powers", ST + "arithmetic_functions.st: EXPT__*")],
  "execution of the ST functions in a checking interpreter, compared with exact arithmetic")
p("C33", "ST date and time functions agree with the calendar for every alias and type",
  "The L-variants and typed aliases of the ST library (ADD_/SUB_ of TIME, LTIME, TOD, DT and their L-variants, the overloads ADD__*/SUB__*, SPLIT_LTOD/LDT, CONCAT_LTOD, CONCAT_DATE_LTOD, CONCAT_DT, CONCAT_LDT, DT/LDT_TO_DATE/TOD/LTOD) exist for every declared type and deliver what the function they stand for delivers: exact sums, differences and calendar fields, every part in its own output, or a refusal if the result is not representable.",
  ["inputs"], "all values and parts of every type, results next to the limits of the range",
  "the aliases exist in ST only and no unit test executes them; a swapped argument or output compiles", [ST + "date_time_numeric_functions.st", ST + "date_time_extra_functions.st", ST + "date_time_conversion.st"],
  [("delegation to the exported functions", ST + "date_time_extra_functions.st, date_time_numeric_functions.st")],
  "execution of the ST functions in a checking interpreter, compared with an own calendar and 128 bit arithmetic")
p("C34", "ST text functions deliver complete, terminated texts inside of their variables",
  "LEN, FIND, LEFT, RIGHT, MID, INSERT, DELETE, REPLACE and CONCAT of STRING and WSTRING, STRING_EQUAL/GREATER/LESS and the WSTRING ones (texts of at most 80 units), conversions of integers, REAL, LREAL, dates and times to (W)STRING and of (W)STRINGs to integers and REAL/LREAL, CHAR/WCHAR to texts and back, and STRING_TO_WSTRING and back - called as ST functions with variables of any declared length - deliver the text or value the exported functions are specified to deliver (C01 - C10), never access memory outside of the variables involved, and leave their inputs unchanged.",
  ["inputs"], "all well-formed texts in variables of all lengths up to the default maximum of 2048, also filled to the last character; all numbers, characters and times",
  "the wrappers exist in ST only and no unit test executes them; the sizes of the variables of the wrappers are never met by the Rust tests", [ST + "string_functions.st", ST + "string_conversion.st", ST + "extra_functions.st"],
  [("results by reference to the return variable", ST + "string_functions.st, string_conversion.st"), ("local buffers between conversions", ST + "string_conversion.st: WSTRING_TO_*")],
  "execution of the ST functions in a checking interpreter with bounds-checked variables and guard pages, compared with character level models")
p("C35", "Every declared ST function is implemented, ends and stays in its variables",
  "Every non-generic function of iec61131-st either has an ST body all of whose calls resolve (to other ST functions or to symbols the library exports with the name of the {external} declaration), or is exported by the library under its own name; the same holds for the instances (IS_VALID_BCD__LWORD, ...) of generic functions which the library implements. Executed with arguments of its declared types it ends, never accesses memory outside of its own variables and arguments, and does not change its VAR_INPUT {ref} arguments.",
  ["inputs"], "all about 525 functions with random and extreme arguments of every declared type",
  "a declaration without implementation only fails when a program using it is linked; unit tests do not see the declarations", [ST + x for x in ["string_functions.st", "string_conversion.st", "extra_functions.st", "date_time_extra_functions.st", "date_time_numeric_functions.st", "date_time_conversion.st", "num_conversion.st", "bit_conversion.st", "bit_num_conversion.st", "numerical_functions.st", "arithmetic_functions.st", "validation_functions.st", "bit_shift_functions.st", "endianness_conversion_functions.st"]],
  [("{external} declarations and exported symbols", "iec61131-st/*.st, src/*.rs"), ("wrappers in ST", "iec61131-st/*.st")],
  "all declared functions executed in a checking interpreter: symbol resolution, bounds of every access, termination")

p("C36", "Calls leave nothing behind: memory, files, threads, output, modes",
  "A call of an exported function or function block which returns has given back all heap memory it took, so that a program calling functions and instances cyclically runs in constant memory whatever the arguments (a bounded amount set up once aside). It leaves the process as it was: no additional open files or threads, nothing written to standard output or error, the same working directory, environment, signal mask and floating point modes.",
  ["histories", "inputs"], "all calls of all exported functions, histories of all function blocks, any number of repetitions",
  "tests call a function once and never look at what it leaves in the process; a leak of some bytes per scan shows after days", ["src/string_functions.rs", "src/string_conversion.rs", X, D, N, "src/timers.rs", "src/counters.rs", "src/utils.rs"],
  [("temporary texts owned by the call", X + ": *_TO_STRING_EXT, " + S + ": *_EXT"), ("state only in the instance", "src/timers.rs, src/counters.rs")],
  "counting allocator around every call (repeated, with changing arguments, long histories), comparison of /proc state and captured output")

p("C37", "Programs reach every overload by its types and every parameter by its name",
  "An ST program may call the overloaded functions (SHL, SHR, ROL, ROR, LIMIT, MAX, MIN, ABS, ROUND, SQRT, LN, ..., ATAN2, EXPT, TO/FROM_BIG/LITTLE_ENDIAN, IS_VALID, IS_VALID_BCD, TRUNC, CONCAT_DATE/TOD/LTOD/DT/LDT, SPLIT_*, ADD, SUB, MUL, DIV, MUL_TIME, DIV_TIME, ... and the text functions, also those with a variable for the result, LEFT_EXT, ..., CONCAT_EXT) with arguments of each type which has an implementation, and the non-overloaded ones, by position or with the declared parameter names (IN, n, MIN, MAX, IN1, IN2, L, P, y, x, in1, in2, year, ..., in, rad) in any order: the instance which belongs to the types is executed, each parameter means what its name says, and the result is the one specified for the function (C11 - C16, C24 - C29, C31, C33, C34).",
  ["inputs"], "all overloads (about 660 combinations of function, types and number of arguments) with values of all ranges",
  "unit tests call the exported symbols directly and never see the declarations an ST program is compiled against", [ST + x for x in ["arithmetic_functions.st", "numerical_functions.st", "selectors.st", "bit_shift_functions.st", "endianness_conversion_functions.st", "validation_functions.st", "date_time_extra_functions.st", "date_time_numeric_functions.st", "string_functions.st", "bit_conversion.st", "num_conversion.st"]],
  [("generic declarations and their instances", ST + "*.st: FUNCTION <name> <T: ...>, <name>__<type>"), ("calling convention of variadic and by-reference parameters", ST + "selectors.st, string_functions.st: {sized} T..., {ref}")],
  "generated ST programs executed in the checking interpreter against the library, compared with models of the functions")

p("C38", "Ill-formed text is refused or stays out of the result",
  "A STRING which is not well-formed UTF-8 (overlong forms, encoded surrogates, code points above 16#10FFFF, truncated or stray bytes) anywhere is refused by LEN, LEFT, RIGHT, MID, INSERT, DELETE, REPLACE, CONCAT and STRING_TO_WSTRING, even if the part selected is well-formed. In a WSTRING each unpaired surrogate counts as one character for LEN, lengths and positions; a call whose result would contain one is refused (also if two of them would form a pair only in the result), every other call delivers its result as for well-formed text. So no call that returns delivers ill-formed text, and no input is modified.",
  ["inputs"], "all byte and unit sequences: arbitrary damage at every place of texts of all lengths, combined with all valid lengths and positions",
  "tests use well-formed texts only; damaged texts come from fieldbuses and files", [S, "src/string_conversion.rs"],
  [("validation while decoding", S + ": CharsDecoder for u8, from_utf8"), ("refusal of unpaired surrogates while encoding", S + ": CharsEncoder for u16")],
  "monitor with an own UTF-8/UTF-16 decoder under damaged and enumerated sequences")
p("C39", "Calls need a bounded amount of stack and heap",
  "Whatever its arguments (texts of tens of thousands of characters, thousands of operands, numerals of thousands of digits), a call of an exported function or function block which returns has used less than 64 KiB of stack, independent of the size of the arguments, and at most 64 KiB + 64 times the size of its arguments of heap memory at any time, so that it can run in a control task with a small stack.",
  ["inputs", "histories"], "all calls of all exported functions with arguments of all sizes, histories of all function blocks",
  "tests run short texts on the large stack of a test thread: recursion over the characters of a text or buffers for the worst case are not noticed", ["src/string_functions.rs", "src/string_conversion.rs", X, "src/arithmetic_functions.rs", D, N, "src/timers.rs", "src/counters.rs", "src/types.rs"],
  [("iteration instead of recursion", S + ": EncodedCharsIter, CharsEncoder, compare"), ("small temporary buffers", S + ": encode; src/string_conversion.rs")],
  "painted stack and peak of a counting allocator for every call")

p("C40", "Calls finish in time proportional to their arguments and wait for nothing",
  "A call of an exported function or function block which returns needs CPU time which is bounded by a constant plus an amount proportional to the size of its arguments (FIND aside, whose time may depend on the product of the lengths), independent of the values of numbers, exponents, shift counts, durations, time since the last call and number of earlier calls; and it neither sleeps nor waits for another thread: a call on small arguments finishes although other threads are in long calls of the same function. So it can run in a control task with a cycle time and a watchdog.",
  ["inputs", "histories", "schedules"], "all calls of all exported functions with arguments of all values and sizes (up to megabytes), histories of all function blocks, pairs of threads",
  "tests use short texts and small counts, for which any algorithm is fast, and never look at the time", ["src/string_functions.rs", "src/string_conversion.rs", X, "src/arithmetic_functions.rs", "src/bit_shift_functions.rs", D, N, "src/timers.rs", "src/counters.rs"],
  [("single pass over texts and operands", S + ": EncodedCharsIter, CharsEncoder, compare; src/arithmetic_functions.rs: MAX/MIN"), ("elapsed time by subtraction", "src/timers.rs"), ("no shared state, hence no locks", "src/*.rs")],
  "CPU time, elapsed time and voluntary context switches of every call against a linear bound; progress of short calls beside long ones in another thread")

LEVEL = "exploration: every observed execution of the real code is judged by an independent oracle; nothing is claimed for inputs or schedules that were not driven. Trusts the oracle and the workload generator in /verif/harness, the exported symbols as declared in harness/src/ffi.rs."

def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for i, title, st, over, q, why, files, mech, tech in P:
            assert len(title) <= 80, (i, len(title))
            f.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                "anchors": {"files": sorted(set(files), key=files.index), "mechanism": [{"name": a, "where": b} for a, b in mech],
                            "observe_at": ["the exported functions (C ABI), as compiled ST code calls them"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py setup",
         "checks": [{"property": x[0], "quick_cmd": f"python3 check.py {x[0]} quick", "thorough_cmd": f"python3 check.py {x[0]} thorough",
                     "evidence_file": f"evidence/{x[0]}.json", "technique": "runtime monitoring: " + x[8], "level": "exploration", "level_note": LEVEL} for x in P],
         "not_applicable": [],
         "notes": "No hooks in /repo: everything is observed at the exported C interface; fixes are unguarded 'fix:' commits listed in known-findings.txt."}
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(f"{V}/MANIFEST.json", "a").write("\n")

main()
