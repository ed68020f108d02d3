#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Day numbers and proleptic Gregorian dates correspond exactly",
  "For every day from 4714-11-24 BC to 5874897-12-31 AD, building a date from year (negative = BC), month and day yields exactly the number of days from 2000-01-01 in the proleptic Gregorian calendar, and printing that day number gives the same year, month and day back. Every combination outside the calendar (year 0, month outside 1..12, a day the month does not have in that year) or outside that range is refused with an error.",
  ["inputs"], "all day numbers of the supported range, and all (year, month, day) triples of 32-bit integers",
  "Tests construct about a dozen dates; leap-century, BC-leap-year and range-end days among 2.1 billion are not sampled.",
  ["src/date.rs", "src/common.rs"],
  [("Date::try_from_ymd", "src/date.rs"), ("date2julian / julian2date", "src/common.rs"), ("PgTime::validate_date, days_of_month, is_valid_julian", "src/common.rs")])
p("C02", "Dates survive a text round trip in every style and order",
  "Formatting any valid date (including -infinity and infinity, and BC years) in any output style and field order, and parsing the text with the matching field order, returns the same date. The traditional Postgres style without DMY order writes month first, so month-day-year is its matching order; German text is day first.",
  ["inputs"], "all valid dates x 5 styles x 3 orders",
  "Tests round-trip a handful of dates in fixed styles; year widths (1 to 7 digits), BC suffixes and two-digit-looking years are not covered.",
  ["src/date.rs", "src/parse.rs"],
  [("Date::format / format_date", "src/date.rs"), ("Date::try_from_str", "src/date.rs"), ("parse_date_time, decode_date_time", "src/parse.rs")])
p("C03", "Timestamps survive a text round trip in every style and order",
  "Formatting any valid timestamp (including both infinities, BC years and any microsecond) in any output style and field order, and parsing the text back with the matching field order and no precision limit, returns exactly the same timestamp.",
  ["inputs"], "all valid timestamps x 5 styles x 3 orders",
  "Tests round-trip about twenty values; 9.4e18 microsecond values with every month name, weekday name, fraction length and year width are not covered.",
  ["src/timestamp.rs", "src/parse.rs", "src/token.rs"],
  [("Timestamp::format / format_date_time", "src/timestamp.rs"), ("Timestamp::try_from_str", "src/timestamp.rs"), ("DATE_TOKEN_TABLE", "src/token.rs"), ("timestamp2time", "src/parse.rs")])
p("C04", "Times of day survive a text round trip",
  "Every time of day from 00:00:00 to 24:00:00 inclusive, at microsecond resolution, formats in every style to text that parses back to the same time, whatever the field order.",
  ["inputs"], "all 86,400,000,001 microsecond values x 5 styles x 3 orders",
  "Tests format about ten times; fraction trimming and the 24:00:00 end point need all values.",
  ["src/time.rs", "src/common.rs", "src/parse.rs"],
  [("Time::format / format_time", "src/time.rs"), ("append_seconds", "src/common.rs"), ("decode_time_only, decode_time", "src/parse.rs")])
p("C05", "Intervals survive a text round trip in all four styles",
  "Any interval that can be displayed (whole hours within 32 bits; hour and day counts above the 32-bit minimum, which no notation can spell) formats in each of the four interval styles to text that parses back, in the same style, to an interval with identical months, days and microseconds, including mixed signs, negative fractions and ISO 8601 negative fields.",
  ["inputs"], "all (months, days, microseconds) triples whose hours fit 32 bits x 4 styles",
  "Tests format about thirty intervals and parse them separately; sign mixtures and extreme fields are not enumerated.",
  ["src/interval.rs", "src/parse.rs"],
  [("Interval::format / format_interval", "src/interval.rs"), ("Interval::try_from_str", "src/interval.rs"), ("decode_interval, decode_iso8601_interval", "src/parse.rs")])
p("C06", "Date, time and timestamp text is exactly what the output style specifies",
  "For every valid date, time and timestamp the printed text is exactly the one PostgreSQL's output style prescribes: field order, separators, zero padding, weekday and month names, trimmed fractional seconds, and a BC suffix on years before 1 AD. Date-only text in the traditional style is month.day.year with dots, or day-month-year with dashes under DMY order.",
  ["inputs"], "all valid values x 5 styles x 3 orders",
  "A round trip cannot see text that is wrong but still parseable (a wrong weekday, separator or padding); tests compare a few strings.",
  ["src/date.rs", "src/time.rs", "src/timestamp.rs", "src/common.rs"],
  [("format_date", "src/date.rs"), ("format_time", "src/time.rs"), ("format_date_time", "src/timestamp.rs"), ("pg_ltostr_zeropad, append_seconds", "src/common.rs")])
p("C07", "Interval text is exactly what the interval style specifies",
  "For every interval whose hours fit 32 bits, each of the four interval styles prints exactly the text PostgreSQL prescribes: unit names and plurals, explicit signs, the SQL-standard sign rule, 'ago', zero forms and trimmed fractions. Intervals whose hours do not fit are refused with an error rather than misprinted, and printing never panics.",
  ["inputs"], "all (months, days, microseconds) triples x 4 styles",
  "Tests compare about forty strings out of 2^128 intervals; sign and plural rules depend on combinations of all fields.",
  ["src/interval.rs", "src/common.rs"],
  [("format_interval", "src/interval.rs"), ("add_postgres_int_part, add_verbose_int_part, add_iso8601_int_part", "src/interval.rs"), ("pg_ltostr", "src/common.rs")])
p("C08", "Accepted date and timestamp notations denote the calendar moment they spell",
  "Every supported way of writing a date or timestamp (ISO, slashed, dotted, dashed with numeric or named months in any accepted position, run-together digits, year and day-of-year, Julian day, labelled ISO fields, two-digit years mapped to 1970-2069, BC/AD, AM/PM, weekday and filler words, optional T, any letter case and spacing) parses, under the given field order, to exactly the calendar moment it spells.",
  ["inputs"], "all calendar moments x all combinations of the listed notations x 3 field orders",
  "Tests parse about 150 fixed strings; the grammar's combinations (order x notation x month name x time form x suffix) are combinatorial.",
  ["src/parse.rs", "src/token.rs", "src/date.rs", "src/timestamp.rs", "src/common.rs"],
  [("parse_date_time", "src/parse.rs"), ("DecodeDateTimeCtx, decode_number, decode_number_field, decode_date, decode_time", "src/parse.rs"), ("DATE_TOKEN_TABLE", "src/token.rs"), ("validate_date", "src/common.rs")])
p("C09", "Accepted time-of-day notations denote the time they spell",
  "Every supported way of writing a time of day (hh:mm, hh:mm:ss with up to microseconds, run-together hhmm and hhmmss with fraction, labelled h/mm/s fields, AM/PM with 12 o'clock handled, 'allballs', a leading date, optional T, any case and spacing) parses to exactly the time it spells.",
  ["inputs"], "all times of day x all listed notations x 3 field orders",
  "Tests parse about sixty strings; AM/PM, fraction and notation combinations are not enumerated.",
  ["src/parse.rs", "src/time.rs", "src/token.rs"],
  [("decode_time_only, DecodeTimeOnlyCtx", "src/parse.rs"), ("decode_time, decode_number_field", "src/parse.rs"), ("Time::try_from_str", "src/time.rs")])
p("C10", "Unit-and-number interval notations denote the interval they spell",
  "An interval written as numbers with unit words (every accepted spelling and abbreviation of microsecond to millennium, singular or plural, signed, fractional, run together or spaced, with @ or ago), as SQL years-months, or as days with hh:mm:ss, parses to exactly the sum those words denote: whole parts go to months, days or time, fractions cascade to days (30 per month) and time (24 h per day), and a leading minus applies to everything only under SQL-standard style when no other sign is written.",
  ["inputs"], "all combinations of units, spellings, signs, fractions and the three layouts x 4 interval styles",
  "Tests parse about a hundred strings; 60 unit spellings x signs x fractions x combinations are not enumerated.",
  ["src/parse.rs", "src/interval.rs", "src/token.rs"],
  [("decode_interval, decode_interval_number_field, adjust_fract_days, adjust_fract_seconds", "src/parse.rs"), ("DELTA_TOKEN_TABLE", "src/token.rs"), ("Interval::from_pgtime", "src/interval.rs")])
p("C11", "ISO 8601 interval notations denote the interval they spell",
  "An ISO 8601 duration, in designator form (PnYnMnWnDTnHnMnS, fractions and negative fields allowed) or in alternative form (PYYYY-MM-DDThh:mm:ss, PYYYYMMDDThhmmss, and shortened versions), parses to exactly the interval it spells, whatever interval style is selected.",
  ["inputs"], "all field subsets, values, fractions and signs of both ISO 8601 layouts",
  "Tests parse about thirty ISO strings; subsets of seven fields with fractions and signs are not enumerated.",
  ["src/parse.rs", "src/interval.rs"],
  [("decode_iso8601_interval, parse_iso8601_number, decode_date_part_left, decode_time_part_left", "src/parse.rs")])
p("C12", "Text that spells no valid value is refused, never turned into another value",
  "Text with an impossible field (month 13, 30 February, minute 60, hour 25, 13 PM, year 0), a repeated or missing field, an unknown word, a time zone, a moment outside the supported range, trailing or stray characters, or no fields at all yields an error and never a value.",
  ["inputs"], "all single-fault corruptions of all valid notations of the four types",
  "Tests try about eighty bad strings; each validation applies to every notation and field combination.",
  ["src/parse.rs", "src/common.rs", "src/date.rs", "src/time.rs", "src/timestamp.rs", "src/interval.rs"],
  [("check_mask_set, final checks of decode_date_time / decode_time_only / decode_interval", "src/parse.rs"), ("validate_date, is_valid_julian", "src/common.rs"), ("range checks in try_from_str", "src/date.rs")])
p("C13", "No text makes parsing panic or accept an out-of-range value",
  "For every string, field order, interval style and precision argument, each of the four parsers returns either an error or a value inside its type's documented range, without panicking or overflowing. Every accepted value that can be displayed (see C05) formats in every style and parses back to itself.",
  ["inputs"], "all strings (including non-ASCII, very long, and mutations of valid input) x all orders, styles and precisions",
  "Only generated search reaches the byte sequences that overflow a buffer, an integer or an index; tests use short well-formed text.",
  ["src/parse.rs", "src/date.rs", "src/time.rs", "src/timestamp.rs", "src/interval.rs", "src/token.rs"],
  [("parse_date_time and its work buffer", "src/parse.rs"), ("decode_number_field, decode_interval_number_field, decode_units, decode_special", "src/parse.rs"), ("try_from_str of the four types", "src/date.rs, src/time.rs, src/timestamp.rs, src/interval.rs")])
p("C14", "Every parser agrees with the PostgreSQL reference grammar on arbitrary text",
  "For every string, the four parsers accept and reject exactly as the PostgreSQL date/time grammar restricted to this library's documented limits (no time zones, no now/today words, at most ten integer and seven fraction digits per number) prescribes, and when both accept they give the same value.",
  ["inputs"], "all strings over the token alphabet, plus byte-level mutations, x all orders and interval styles",
  "The accepted language is far larger than any sample; only a differential run against an independent reference parser can compare both acceptance and value.",
  ["src/parse.rs", "src/token.rs", "src/interval.rs", "src/date.rs", "src/time.rs", "src/timestamp.rs"],
  [("parse_date_time", "src/parse.rs"), ("decode_date_time, decode_time_only, decode_interval, decode_iso8601_interval", "src/parse.rs"), ("DATE_TOKEN_TABLE, DELTA_TOKEN_TABLE", "src/token.rs")])
p("C15", "Results depend only on the arguments, not on earlier calls, threads or memory",
  "Any operation gives the same result, value or error, regardless of which operations ran before it on the same thread, of how many threads run at once, and of what unrelated data previously occupied the stack or heap.",
  ["histories", "schedules"], "all sequences of parse/format/arithmetic calls, on any number of threads, over any prior memory contents",
  "Token lookups keep per-thread caches and buffers start uninitialised; each test is one short history on fresh memory.",
  ["src/parse.rs", "src/date.rs", "src/time.rs", "src/timestamp.rs", "src/interval.rs"],
  [("DATE_CACHE / decode_special, DELTA_CACHE / decode_units", "src/parse.rs"), ("MaybeUninit buffers in try_from_str, set_len in format", "src/date.rs, src/time.rs, src/timestamp.rs, src/interval.rs")])
p("C16", "Precision and field-range limits round and truncate correctly on input",
  "Parsing with a precision of 0 to 6 digits rounds the parsed time, timestamp or interval to the nearest multiple, half away from zero, and otherwise equals parsing without a limit; a result rounded out of range is refused. An interval field-range limit zeroes exactly the fields finer than its last field, and makes a bare number count in that last field's unit. A precision above 6 digits, or a field range SQL does not define, is refused for timestamps and intervals and has no effect on times.",
  ["inputs"], "all parseable texts x all precision values x all 13 interval field ranges",
  "Tests try a few precisions on a few values; ties, negative values, carries into the next day and range ends are not covered.",
  ["src/time.rs", "src/timestamp.rs", "src/interval.rs", "src/parse.rs"],
  [("adjust_by_typmod", "src/time.rs, src/timestamp.rs, src/interval.rs"), ("decode_interval_number_field range selection", "src/parse.rs")])
p("C17", "Timestamp plus or minus an interval follows calendar arithmetic",
  "Adding an interval to a timestamp adds its months (clamping to the last day of the target month), then its days, then its exact microseconds; subtracting takes away the same months, days and microseconds in that order; adding or subtracting a time adds or subtracts its microseconds. If the result, or the calendar date after the month or day step, lies outside the supported range, or the months or days to subtract have no 32-bit negation, the operation is an error, never a wrapped or panicking result.",
  ["inputs"], "all valid timestamps x all intervals and times",
  "Tests add about ten intervals; month-end clamping, BC years, leap days and overflow need search over both arguments.",
  ["src/timestamp.rs", "src/common.rs"],
  [("Timestamp::add_interval, sub_interval, add_time, sub_time", "src/timestamp.rs"), ("to_timestamp, julian2date, days_of_month", "src/common.rs")])
p("C18", "Date arithmetic counts days exactly and refuses overflow",
  "Adding or subtracting a number of days moves a date by exactly that many days, the difference of two dates is their exact day count, and date plus or minus an interval or time equals the same operation on the timestamp at midnight of that date. Results outside the supported range are errors.",
  ["inputs"], "all dates x all 32-bit day counts, intervals and times",
  "Tests use a few small offsets; range ends and 32-bit extremes are not sampled.",
  ["src/date.rs", "src/timestamp.rs"],
  [("Date::add_days, sub_days, sub_date, add_interval, sub_interval, add_time", "src/date.rs")])
p("C19", "Timestamp differences are exact and undo with addition",
  "The difference of two finite timestamps is an interval of zero months, whole days and a remainder under 24 hours of the same sign whose total equals the exact microsecond difference; adding it to the subtrahend gives back the minuend. A difference that cannot be represented is an error, and subtracting a date means subtracting its midnight.",
  ["inputs"], "all pairs of finite timestamps, and timestamp-date pairs",
  "Tests subtract a few pairs; sign, day-boundary and extreme-distance combinations are unsampled.",
  ["src/timestamp.rs", "src/interval.rs"],
  [("Timestamp::sub_timestamp, sub_date", "src/timestamp.rs"), ("Interval::justify_hours", "src/interval.rs")])
p("C20", "Age gives the symbolic calendar difference of two timestamps",
  "For every two finite timestamps the age is their field-wise year, month, day and time difference with all fields of one sign, borrowing days from the length of the earlier timestamp's month; swapping the arguments negates it, equal arguments give zero, and an age below one month equals the plain elapsed time. The age of or from an infinite timestamp is an error.",
  ["inputs"], "all pairs of finite timestamps",
  "Tests compute about six ages; borrow chains through seconds, hours, month lengths and leap years are combinatorial.",
  ["src/timestamp.rs", "src/interval.rs", "src/common.rs"],
  [("Timestamp::age", "src/timestamp.rs"), ("days_of_month", "src/common.rs"), ("Interval::from_pgtime", "src/interval.rs")])
p("C21", "Time-of-day arithmetic is exact modulo 24 hours",
  "Adding or subtracting an interval to a time of day uses only the interval's time part and yields the exact result modulo 24 hours, always at least 00:00:00 and below 24:00:00, even for the largest time parts; the difference of two times is the exact interval between them; converting an interval to a time gives its time part modulo 24 hours.",
  ["inputs"], "all times of day x all intervals; all pairs of times",
  "Tests use about eight pairs; negative and multi-day spans and 64-bit extremes are not sampled.",
  ["src/time.rs"],
  [("Time::add_interval, sub_interval, sub_time", "src/time.rs"), ("From<Interval> for Time", "src/time.rs")])
p("C22", "Interval addition, subtraction and negation are exact per field or refused",
  "Interval addition (method and operator), subtraction and negation act on months, days and microseconds separately and exactly; they commute, associate and cancel accordingly; and if any field overflows the checked operation is an error and no field wraps.",
  ["inputs"], "all pairs of intervals",
  "Tests add three or four pairs; per-field overflow in each field and direction needs search.",
  ["src/interval.rs"],
  [("Interval::add_interval, sub_interval, negate", "src/interval.rs"), ("impl Add for Interval", "src/interval.rs")])
p("C23", "Justifying an interval keeps its total and normalises its fields",
  "Justifying hours, days, or both keeps the interval's total length (24-hour days, 30-day months for the day and full forms) and brings time below one day and/or days below 30 with signs agreeing between the adjusted fields; justifying again changes nothing.",
  ["inputs"], "all intervals whose justified fields fit their types",
  "Tests justify about ten intervals; opposite-sign combinations across three fields are not enumerated.",
  ["src/interval.rs"],
  [("Interval::justify_hours, justify_days, justify_interval", "src/interval.rs"), ("time_modulo", "src/common.rs")])
p("C24", "Interval scaling cascades fractions down and refuses overflow",
  "Multiplying or dividing an interval by a finite number scales months, days and time, cascading fractional months to days (30 per month) and fractional days to time (24 h), so that the total scales within floating-point rounding and whole results are exact; units never cascade upwards. Division by zero, NaN, infinite products and results that do not fit are errors.",
  ["inputs"], "all intervals x all 64-bit floats",
  "Tests multiply and divide about ten intervals by friendly factors; fractions, negative factors and overflow are not searched.",
  ["src/interval.rs", "src/common.rs"],
  [("Interval::mul_f64, div_f64", "src/interval.rs"), ("timestamp_round", "src/common.rs")])
p("C25", "Comparison is a total order consistent with equality and hashing",
  "Dates, times and timestamps order as their moments do, with -infinity below and infinity above everything. Intervals order by total length with 30-day months and 24-hour days; intervals that compare as equal are equal and hash alike, so sorting, maps and sets behave consistently, and conversion of an interval to a 128-bit integer is that total.",
  ["inputs"], "all pairs and triples of values of each type",
  "Tests compare four or five pairs; consistency of ordering, equality and hashing is a law over all pairs.",
  ["src/interval.rs", "src/date.rs", "src/time.rs", "src/timestamp.rs"],
  [("impl Ord / PartialOrd / PartialEq / Hash for Interval", "src/interval.rs"), ("From<Interval> for i128", "src/interval.rs"), ("derived Ord on Date, Time, Timestamp", "src/date.rs")])
p("C26", "Extracted timestamp and date parts match the calendar",
  "For every timestamp and date, each extractable part (microsecond to millennium, quarter, ISO week, ISO year, day of week, ISO day of week, day of year, Julian day) equals the value the proleptic Gregorian calendar and ISO 8601 define (years, decades, centuries and millennia without a zero year, century or millennium; ISO years numbered as ISO 8601 does, 0 for 1 BC); parts that do not apply, and dates beyond the timestamp range, are errors, and for an infinite value cyclic parts are 0 and growing parts are the same-signed infinity.",
  ["inputs"], "all timestamps and dates x all 23 units x both field types",
  "Tests extract parts of two or three values; ISO week and year boundaries, BC centuries and decades need all years.",
  ["src/timestamp.rs", "src/date.rs", "src/common.rs"],
  [("date_part for Timestamp, infinite_part", "src/timestamp.rs"), ("date_to_iso_week, date_to_iso_year, julian_to_week_day", "src/common.rs"), ("date_part for Date", "src/date.rs")])
p("C27", "Extracted time and interval parts match their fields",
  "For every time and interval, each extractable part equals the corresponding field of its years/months, days and hours/minutes/seconds breakdown (with the sign of the interval), the epoch of a time is its seconds, and the epoch of an interval is its length in seconds with 365.25-day years and 30-day months. Units that do not apply are errors.",
  ["inputs"], "all times and intervals x all 23 units x both field types",
  "Tests extract parts of three values; negative and mixed-sign breakdowns and large fields are unsampled.",
  ["src/time.rs", "src/interval.rs"],
  [("date_part for Time", "src/time.rs"), ("date_part for Interval, to_pgtime", "src/interval.rs")])
p("C28", "Truncating a timestamp or date gives the start of the enclosing unit",
  "Truncating any timestamp or date to a supported unit gives the first instant of the second, minute, hour, day, ISO week, month, quarter, year, decade, century or millennium that contains it: never later than the value, at the unit's boundary, with the next boundary after the value, and idempotent. Truncating an infinite value leaves it unchanged, and unsupported units, or a unit start before the supported range, are errors.",
  ["inputs"], "all timestamps and dates x all units",
  "Tests truncate two values; ISO weeks at year ends, BC decades and centuries need all years.",
  ["src/timestamp.rs", "src/date.rs", "src/common.rs"],
  [("truncate for Timestamp and Date", "src/timestamp.rs, src/date.rs"), ("truncate_timestamp_*", "src/common.rs")])
p("C29", "Truncating an interval or time clears exactly the finer fields",
  "Truncating an interval or time of day to a supported unit keeps every coarser field and sets every finer field to zero, rounding the unit itself towards zero; it is idempotent, and unsupported units are errors.",
  ["inputs"], "all intervals and times x all units",
  "Tests truncate two values; negative and very large intervals are unsampled.",
  ["src/interval.rs", "src/time.rs", "src/common.rs"],
  [("truncate for Interval and Time", "src/interval.rs, src/time.rs"), ("truncate_interval_*, truncate_day..truncate_micro_sec", "src/common.rs"), ("from_pgtime / to_pgtime", "src/interval.rs")])
p("C30", "Conversions between date, time, timestamp and interval keep the moment",
  "Converting a date to a timestamp gives its midnight (or an error past the timestamp range), a timestamp to a date gives the calendar day containing it, and to a time its time of day, so that day plus time of day rebuilds the timestamp; a time converts to the interval of the same length and back. Infinite values convert to the same infinity, and to no time of day.",
  ["inputs"], "all values of the four types",
  "Tests convert about ten values; pre-2000 and BC times of day, and range ends, are unsampled.",
  ["src/date.rs", "src/time.rs", "src/timestamp.rs", "src/interval.rs"],
  [("TryFrom<Timestamp> for Date", "src/date.rs"), ("TryFrom<Date> for Timestamp", "src/timestamp.rs"), ("TryFrom<Timestamp> for Option<Time>", "src/time.rs"), ("From<Time> for Interval", "src/interval.rs")])
p("C31", "Infinite dates and timestamps stay infinite and never mix into finite results",
  "The infinite date and timestamp parse from and print as '-infinity' and 'infinity' in every style, report themselves as infinite, and are unchanged by adding or subtracting anything; differences involving an infinity are errors, and no operation on finite values yields an infinity.",
  ["inputs"], "both infinities of both types x all operations and arguments; all finite values x all arithmetic",
  "Tests check a few infinite operations; closure of every operation over extreme finite values needs search.",
  ["src/date.rs", "src/timestamp.rs", "src/parse.rs"],
  [("is_begin / is_end / is_finite and their uses", "src/date.rs, src/timestamp.rs"), ("format_special_date, format_special_timestamp", "src/date.rs, src/timestamp.rs")])
p("C32", "Serialized values deserialize to themselves in text and binary formats",
  "Every valid date, time, timestamp and displayable interval serialized with a human-readable format becomes its ISO (interval: SQL-standard) text and deserializes back to itself; with a binary format (bincode, CBOR and the like, whatever integer width or field keys the format stores) it becomes its plain integer fields and deserializes back to itself; both also hold inside a user's own structures. A malformed document, or an integer the type cannot hold, is an error, not another value or a panic.",
  ["inputs"], "all values of the four types x JSON, RON, bincode and CBOR, alone and inside structures; arbitrary JSON strings, integers and byte strings",
  "Tests serialize one value of each type; every value must survive storage.",
  ["src/serde.rs"],
  [("Serialize / Deserialize for Date, Time, Timestamp, Interval", "src/serde.rs")])
p("C33", "Values built from numeric fields are exact and field-checked",
  "A timestamp built from year, month, day, hour, minute and seconds, or a time from hour, minute and seconds, is exactly that moment with seconds rounded to the microsecond, and any field outside its range (including NaN, seconds above 60, times after 24:00:00, year below 1) is an error. An interval built from years to seconds is the exact per-unit sum whenever its fields fit their types, and non-finite seconds are an error.",
  ["inputs"], "all tuples of 32-bit fields and 64-bit float seconds",
  "Tests build about thirty values; rounding, 60-second and 24-hour end points and extreme fields are not enumerated.",
  ["src/time.rs", "src/timestamp.rs", "src/interval.rs"],
  [("Time::try_from_hms", "src/time.rs"), ("Timestamp::try_from_ymd_hms", "src/timestamp.rs"), ("Interval::try_from_ymwd_hms", "src/interval.rs")])
p("C34", "No call misuses memory or races with another call",
  "Parsing, printing, arithmetic, comparison, conversion, serialization and deserialization never read uninitialised memory, never read or write outside the memory they own or after its release, and never race with calls on other threads. Every text the library returns is valid UTF-8.",
  ["inputs", "schedules"], "every public operation on all values and texts, in any sequence and on any number of threads",
  "Tests compare results; a stray read, an unwritten byte or a data race usually leaves the tested result right.",
  ["src/common.rs", "src/parse.rs", "src/token.rs", "src/date.rs", "src/interval.rs", "src/timestamp.rs", "src/time.rs"],
  [("format of Date, Time, Timestamp, Interval (buffers with set_len and from_utf8_unchecked)", "src/date.rs, src/time.rs, src/timestamp.rs, src/interval.rs"), ("TryFrom for TokenType, TokenField (transmute)", "src/token.rs"), ("DATE_CACHE, DELTA_CACHE", "src/parse.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
