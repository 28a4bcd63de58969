#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the ids registered in props.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props
V = os.path.dirname(HERE)

SH, IH, IC = "include/scn/scan.h", "src/scn/impl.h", "src/scn/impl.cpp"
XH, CH, RH, RX, IS = ("include/scn/" + f for f in ("xchar.h", "chrono.h", "ranges.h", "regex.h", "istream.h"))

P = {}


def p(id, title, statement, over, quant, why, files, mech, note, observe=("scn::scan", "scn::scan_result")):
    P[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                 mech=mech, note=note, observe=list(observe))


p("C01", "A scan consumes exactly a prefix, or fails without any value",
  "A scan either succeeds with a value for every argument, having consumed exactly the prefix of the input that the format string and the argument types describe, and its remaining range is exactly the rest of the input: nothing is lost, duplicated or read twice; "
  "or it fails with an error code and gives no values at all. "
  "Values, error code and consumed length are determined by the input, the format string and the argument types alone.",
  ["inputs", "programs"], "every input, every format string, every list of argument types, narrow and wide",
  "The tests sample a few hundred (format, input) pairs and rarely look at the remaining range; where the prefix ends depends on the whole format and on what follows.",
  [SH, IH, IC], [("format string interpreter (vscan loop)", IC + " scan_impl*"), ("result keeps the position reached", SH + " scan_result/make_scan_result"), ("readers return the end of what they read", IH + " reader_impl_for_*")],
  "general formats: 1-5 arguments")

p("C02", "The kind of source never changes the result",
  "Scanning the same characters gives the same values, the same error and the same consumed length whether they come from a string, a string view, a part of a larger buffer, a deque, a list or another forward range, or a C stream with any buffering over memory, a file or a pipe. "
  "Where the source happens to be split into segments or refilled never matters, including in the middle of a multi-byte character, a number, a literal or a run of whitespace. "
  "Only views into the source are restricted, to contiguous sources.",
  ["inputs", "configurations"], "every input, format and argument type, every kind of source and every segmentation",
  "The tests use at most two or three kinds of sources for each feature, never all positions of segment boundaries.",
  [SH, IH, IC], [("scan buffers", SH + " detail::basic_scan_buffer, basic_scan_forward_buffer_impl, basic_scan_ref_buffer"), ("C stream buffer", IC + " scan_file_buffer"), ("contiguous fast paths and their generic twins", IH + " read_* (contiguous vs. generic overloads)")],
  "sources: string, string_view, inner part of a buffer, deque, list-like forward range, FILE unbuffered/1..64-byte buffers/default, memory/disk/pipe")

p("C03", "Scans from a C stream leave it exactly where they stopped",
  "When scans from a C stream are interleaved with other stdio reads of the same stream, every character is seen exactly once and in order: after a successful scan the next read of any kind starts at the first character the scan did not consume, and after a failed scan no character is lost. "
  "This holds for every buffering mode and every history of scans, reads, and line or value prompts on the stream, including at the end of the file.",
  ["histories", "inputs", "configurations"], "every sequence of scans and stdio reads of a stream, every buffering and kind of file",
  "The tests make one scan per file, and check what is left in the stream in only a few cases.",
  [IC, IH, SH], [("stdio buffer access and put-back on sync", IC + " scan_file_buffer::sync, scan_file_buffer::fill"), ("scan(FILE*) syncs before returning", SH + " scan(FILE*)/prompt/input")],
  "histories generated by TLC from the File specification", ("scn::scan(FILE*)", "scn::input", "scn::prompt", "fgetc/fread/ungetc on the stream"))

p("C04", "Scanning in several steps equals scanning at once",
  "Feeding the remaining range of one scan to the next gives the same values, errors and final position as one scan with the concatenated format string, for every way of splitting a format between its replacement fields. "
  "Chained scans each start exactly where the previous one ended, for every kind of source.",
  ["histories", "inputs", "programs"], "every split of every format string into successive scans, every input and kind of source",
  "The tests scan in steps only in a few loops over integers and words.",
  [SH, IC, IH], [("remaining range reconstruction", SH + " detail::make_*result / borrowed_tail_subrange"), ("resuming a partially read buffer", SH + " detail::basic_scan_buffer")],
  "chains of 2-3 scans over every kind of range")

p("C05", "Format strings follow the documented grammar, and only that",
  "A format string is accepted exactly when it follows the documented grammar for the argument types it is used with: balanced braces, argument ids that are all automatic or all manual and in range, every argument used exactly once, and options and presentation types that the type supports. "
  "An accepted one is interpreted as documented, with each replacement field reading into the argument it names, in the order the fields appear; any other one gives an invalid_format_string error and never a value.",
  ["programs", "inputs"], "every format string (also malformed), every list of argument types, up to many arguments",
  "The tests list some dozens of format strings; grammar errors, argument ids beyond 64 arguments and combinations of options are combinatorial.",
  [SH, IH, IC], [("format string parser", SH + " detail::parse_format_string, parse_format_specs, format_string_checker"), ("specs checked against types", SH + " detail::check_*_type_specs"), ("visited arguments", SH + " basic_scan_parse_context/visited args")],
  "grammar enumerated up to length 3 (4 thorough) over its special characters, and random derivations and mutations")

p("C06", "Literal text and whitespace in a format match as documented",
  "Whitespace in a format string matches any amount of Unicode whitespace in the input, including none unless the input has ended; every other literal character, ASCII or not, matches exactly itself, and {{ and }} match a single brace. "
  "A mismatch, or the end of input where literal text is required, makes the scan fail; a match consumes exactly the matched characters.",
  ["inputs", "programs"], "every literal text, every whitespace code point, every input",
  "The tests use literals of ASCII letters and punctuation, and spaces and newlines as whitespace.",
  [IC, IH, SH], [("literal matching", IC + " format_handler::on_literal_text"), ("whitespace classification and skipping", IH + " is_cp_space, read_while_space / skip_classic_whitespace")],
  "literals over all Unicode pattern white space, 1-4 byte characters")

p("C07", "Integers: exact value of the longest valid prefix, or out-of-range",
  "Scanning an integer of any width, signedness and base reads the longest prefix that is a sign, an optional base prefix where the presentation allows it, and digits of that base, and stores exactly the value denoted. "
  "A value the type cannot represent is reported as too large in the right direction and never wraps or saturates; text with no such number is an invalid value.",
  ["inputs"], "every text, every integer type, every base and presentation type, narrow and wide",
  "The tests sample boundary values of some types in some bases; overflow detection depends on type, base, length and leading zeros together.",
  [IH, IC, SH], [("sign and base prefix", IH + " parse_integer_prefix/parse_integer_sign"), ("digit accumulation and overflow", IC + " parse_integer_digits / parse_decimal_integer_fast* "), ("fast decimal paths", IC + " parse_integer_value_exhaustive_valid")],
  "integer types of 8-64 bits in bases 2-36")

p("C08", "Floats: the documented syntax is read, and nothing more",
  "Scanning a floating-point value consumes the longest valid number allowed by the presentation type (decimal fixed, scientific, hexadecimal, infinity or NaN with optional payload, with optional sign) and leaves the rest, also when a partial exponent, prefix or word follows. "
  "Text that does not start with such a number is an invalid value and consumes nothing.",
  ["inputs"], "every text, float, double and long double, every presentation type",
  "The tests sample some well-formed numbers; which prefix is the longest depends on presentation type and on what follows.",
  [IH, IC], [("float syntax", IH + " float_reader::do_read_source*"), ("handing the text to the conversion", IC + " float_reader::parse_value / from_chars / strtod")],
  "shapes enumerated over the float alphabet up to length 4 (5 thorough)")

p("C09", "Floats: correctly rounded values, over- and underflow reported",
  "The value stored for a decimal or hexadecimal number is the one nearest to its exact real value, ties to even, in float, double and long double, including subnormals, halfway cases and numbers with very many digits, and keeps the sign of zero. "
  "A number too large for the type is reported as too large in the right direction, and one that underflows to zero is reported as too small; no other number is.",
  ["inputs"], "every decimal and hexadecimal number, float, double and long double",
  "The tests compare with a few literals written in C++; rounding and range errors live at specific halfway cases and range ends.",
  [IH, IC], [("conversion", IC + " float_reader / impl_from_chars, impl_strtod, impl_hexfloat"), ("range checks", IC + " float_reader get_flags/handle_error")],
  "exact rational arithmetic on base-10^4 big numbers in TLA+")

p("C10", "Strings: words, characters and character sets read what they describe",
  "Scanning a string reads a maximal run: of non-whitespace characters by default after skipping whitespace, of exactly the given number of characters with the c presentation, or of characters in the [set], where sets may use ranges, inversion and any code point. "
  "The string is exactly the consumed text, transcoded if the string type is of the other character type, a view is that part of the source itself, and an empty run is an error.",
  ["inputs", "programs"], "every input, every set, string, wide string and views",
  "The tests use a few ASCII sets and short words.",
  [IH, IC, SH], [("word reader", IH + " word_reader_impl"), ("character set", IH + " character_set_reader_impl, nonascii_specs_handler"), ("assignment and transcoding", IH + " read_*_string, assign_string")],
  "sets over ASCII and 2-4 byte code points, long texts across buffer boundaries")

p("C11", "Width, precision, fill and alignment bound what a field reads",
  "A precision bounds, and a width together with fill and alignment requires, how many columns of input a field takes, counting the display width of each code point: never more than the precision is consumed, padding is accepted only on the sides the alignment names, and a field narrower than the width is an error. "
  "Within the field the value is read as it would be from a text consisting of that field alone.",
  ["inputs", "programs"], "every type, width, precision, fill, alignment, input with characters of any display width",
  "The tests cover some combinations with ASCII fill; interplay of padding, width and wide characters is combinatorial.",
  [IC, IH, SH], [("fill and width handling", IC + " skip_fill/ width checks in arg readers"), ("counting columns", IH + " take_width_view, counted_width_iterator, calculate_valid_text_width")],
  "all combinations of alignment, width, precision on ints, strings, code points")

p("C12", "Bools, characters, code points and pointers read as documented",
  "A bool reads true/false or 0/1 as its presentation allows; a char, wchar_t or char32_t reads exactly one code unit or code point without skipping whitespace, or an integer value with an integer presentation; a pointer reads a hexadecimal address with an optional 0x prefix. "
  "Anything else is an error that consumes nothing.",
  ["inputs", "programs"], "every input, every presentation type of these types",
  "The tests sample a few inputs for each type.",
  [IH], [("bool", IH + " bool_reader_base, reader_impl_for_bool"), ("characters", IH + " reader_impl_for_char/wchar/code_point"), ("pointers", IH + " reader_impl_for_voidptr")],
  "all inputs up to length 3-4 over their alphabets")

p("C13", "Malformed encoding never becomes a value",
  "Input that is not valid UTF-8 (or not a sequence of Unicode scalar values, when wide) where a character or text is to be read makes the scan fail or stop before it; it never produces a code point or transcoded text that the input does not encode. "
  "For every sequence of bytes a scan terminates without undefined behaviour, and what it consumed and left is still exactly the input.",
  ["inputs", "fault_sequences"], "every sequence of code units, every truncation, every type",
  "The tests contain a few malformed sequences; decoders fail on specific overlong, truncated or out-of-range ones.",
  [IH, IC, SH], [("decoding", IH + " decode_code_point_exhaustive*, get_next_code_point, utf_code_point_length_by_starting_code_unit"), ("validation", IH + " validate_unicode"), ("transcoding", IH + " transcode_*")],
  "all 1-2 byte and most 3-4 byte malformed sequences, with AddressSanitizer and UndefinedBehaviorSanitizer")

p("C14", "Custom scanners and ranges compose like the built-in ones",
  "A scanner written by the user that scans from the context's range, once or many times and at any depth of nesting, sees exactly the characters that follow what was consumed before it, and the scan continues exactly where it stopped; the result is what the nested format strings describe, for every kind of source. "
  "Ranges, sets, maps, pairs and tuples read exactly their bracketed, comma-separated elements, each read as the element type with the given format specifiers, and specifiers that do not suit the element type are rejected.",
  ["inputs", "programs"], "every input, every nesting of scanners, every kind of source",
  "The tests for custom scanners read strings in one or two fixed shapes; losing the place needs a nested scan that starts or ends at a boundary between two segments of the source.",
  [SH, RH, IC], [("buffers seen through another buffer", SH + " detail::basic_scan_ref_buffer"), ("custom arguments", SH + " detail::parse_custom_arg, " + IC + " format_handler::on_format_specs"), ("ranges", RH + " range_scanner_base, tuple scanners")],
  "seven user-defined scanners (nested to depth 2), discard, vector, set, map, pair, tuple and their combinations; narrow only",
  ("scn::scan", "scn::scanner", "scn::scan_context"))

p("C15", "Dates and times are read as their format says, or not at all",
  "A std::tm, tm_with_tz, datetime_components, time_point or calendar value is read by %-specifiers, whitespace and literal text in order: each specifier consumes exactly the text of its field (as many digits as allowed, a month's, weekday's or am/pm's name in any case, an offset or zone name), a composite specifier is the same as its parts, and each field has the value written there, always inside its documented range; 12-hour times, centuries and two-digit years combine into one hour and one year. "
  "Format strings with specifiers that are unknown, set a field twice, contradict each other, don't belong to the type or leave a required field out are rejected, and text out of range or with a different literal fails.",
  ["inputs", "programs"], "every format, type, input and source",
  "The tests have one or two inputs per specifier; a wrong range, combination of specifiers, name that is a prefix of another or field at the end of a buffer is not among them.",
  [CH, IC], [("format strings", CH + " parse_chrono_format_specs, tm_format_checker, setter_state"), ("reading", IC + " detail::tm_reader"), ("values", CH + " datetime_components, time_since_unix_epoch")],
  "11 types, narrow and wide, every supported specifier with its E and O variants; L only in the classic locale; time points in UTC only",
  ("scn::scan", "scn::datetime_components", "scn::tm_with_tz"))

p("C16", "A regular expression matches what it says, from the current position",
  "A field {:/pattern/flags} reads the text that the pattern matches at the current position, never text further on: alternatives are tried from left to right, quantifiers take as much as possible (with ? as little), sets, classes, anchors and lookahead mean what they do in ECMAScript, and if no way to match exists the scan fails with invalid_scanned_value. "
  "A string gets the matched text; regex_matches gets the whole match first and then every group in order, empty for a group that took no part, with the name of exactly the groups that have one. The flags i, m and n do what they say, malformed patterns and unknown, repeated or unsupported flags are rejected with invalid_format_string, and so is a source that is not contiguous.",
  ["inputs", "programs"], "every pattern of the supported syntax, flags, input, both compiled backends",
  "The tests match one pattern per feature against one input; priorities, empty repetitions, groups that take no part, and groups with equal text are not among them.",
  [RX, IH], [("reading", IH + " read_regex_matches_impl, read_regex_string_impl, regex_matches_reader"), ("flags and pattern", SH + " parse_presentation_regex"), ("result", RX + " basic_regex_matches")],
  "std::regex and Boost.Regex with ICU (the backends that can be built here); the common syntax without backreferences and named classes; an unclosed set is not given to Boost, which reads past it itself; no precision",
  ("scn::regex_matches", "std::string with a regex"))

p("C17", "Locales count where the format says L, and nowhere else",
  "With L, an integer may have the locale's thousands separators among its digits, a floating-point number also has the locale's decimal point, and a boolean the locale's names; the value is the one the same text would have in the classic locale without the separators and with a point, and exactly that text is consumed. The locale is the one given to scan, also inside of custom scanners and ranges, or else the global C++ locale. "
  "Without L no result depends on any locale, neither a given one nor the global ones of C++ and C, and no scan changes a global locale.",
  ["inputs", "configurations"], "every locale's punctuation and names, type, input and source",
  "The tests of localized numbers use one separator or one decimal comma, never both; names that begin with each other, locales given to custom scanners and other global locales are not tested.",
  [IH, IC, SH], [("punctuation", IH + " localized_number_formatting_options, parse_integer_digits_with_thsep, float_reader::handle_separators"), ("names", IH + " bool_reader::read_localized"), ("passing the locale on", IC + " vscan_internal, scanner_scan_for_builtin_type")],
  "seven locales with facets of their own, narrow and wide; not grouping, which is not checked by the library, and not dates (C15)",
  ("scn::scan(locale, ...)", "{:L}"))

p("C18", "All entry points agree with the plain scan",
  "scan_value, scan with initial values, scan with an explicit locale, input, scan_int with a base and scan_int_exhaustive_valid give the same values, errors and remaining range as scan with the equivalent format string on the same input. "
  "Initial values are only replaced by scanned ones, and scan_int in base 0 detects the base like the i presentation.",
  ["inputs", "programs"], "every entry point, type, base, input",
  "Each entry point has a handful of tests of its own.",
  [SH, IC, XH], [("entry points", SH + " scan_value, scan_int, scan_int_exhaustive_valid, input, scan(..., initial values)"), ("base detection", IC + " scan_int_impl")],
  "the five families of entry points", ("scn::scan_value", "scn::scan_int", "scn::scan_int_exhaustive_valid", "scn::input", "scn::scan with initial values or locale"))

p("C19", "The compiler rejects exactly the malformed format strings",
  "Checked at compile time (C++20), a validly encoded format string is accepted for a source and argument types if and only if it is well-formed for them in the sense of the format language: the same strings that a scan with the format given at run time reports as invalid_format_string, for built-in types, regex_matches, dates and times, ranges and custom scanners. "
  "Reading string views or with regular expressions is accepted only from sources that are contiguous and outlive the scan.",
  ["inputs", "programs"], "every format string, list of argument types and kind of source",
  "The test suite is built as C++17 and has ten compile-fail tests, most of which would fail to compile for other reasons as well.",
  [SH, "include/scn/ranges.h", "include/scn/chrono.h"], [("the checker", SH + " format_string_checker, compile_parse_context, basic_scan_format_string"), ("specifications", SH + " scanner_parse_for_builtin_type, check_*_type_specs"), ("custom", SH + " parse_format_specs_impl")],
  "what two compilers accept, as tables of requires-expressions; the validity of the regular expression itself is only known at run time",
  ("scn::scan_format_string", "scn::basic_scan_format_string"))

p("C20", "Threads do not disturb each other's scans",
  "Scans that different threads run at the same time on sources, arguments, locales and regular expressions of their own give the outcomes they give alone, and have no data races. Scans of one C stream by several threads take effect one after another in some order that agrees with their real-time order: each sees the stream where the one before it left it, up to and including the characters that it puts back, and no character is lost, seen twice or seen out of order.",
  ["schedules", "histories"], "every number of threads, every interleaving of their reads, put-backs and ends, every scan and stream",
  "The test suite never scans in two threads; a race needs a preemption inside of a scan, such as between two characters being put back.",
  [SH, IC, IH], [("the lock of a stream", SH + " basic_scan_file_buffer, stdio_file_interface"), ("shared state", IC + " thread_local and static objects")],
  "interleavings are forced at the stream's own operations (lock, unlock, read, put-back); data races are what ThreadSanitizer sees in random schedules; standard output of scn::input and streams that the caller reads without locking are not covered",
  ("scn::scan", "scn::scan_value", "scn::scan_int", "scn::input", "scn::prompt"))

p("C21", "The surroundings of a scan do not matter to it",
  "The outcome of a scan without L in its format does not depend on the locale of C (setlocale), the locale of the thread (uselocale), the global C++ locale, the value of errno or on scans made before it, and a scan leaves these locales as they were, whether it succeeds or fails.",
  ["inputs", "histories"], "every format, input, types and source, under every combination of locales and after every history of scans",
  "The test suite runs under the C locale only; a dependency on a decimal point, a character class or a stale errno of the surroundings shows only in others.",
  [IC, IH, SH], [("floating point", IC + " strtod_impl, set_clocale_classic_guard"), ("classification", IC + " is_ascii_space, is_cp_space"), ("chrono", "include/scn/chrono.h tm_data, datetime setters")],
  "regular expressions use the global C++ locale by way of std::regex, and formats with L are decided by C17; the value of errno after a scan is not claimed",
  ("scn::scan", "scn::vscan", "scn::scan_value", "scn::scan_int"))

try:
    from mkmeta_more import more
    more(p)
except ImportError:
    pass


def main():
    ids = sorted(props.PROPS)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for i in ids:
            q = P[i]
            assert len(q["title"]) <= 80, i
            f.write(json.dumps({
                "id": i, "title": q["title"], "statement": q["statement"],
                "quantifier": {"over": q["over"], "text": q["quant"]},
                "why_tests_cant": q["why"],
                "anchors": {"files": q["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                            "observe_at": q["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    checks = []
    for i in ids:
        models = sorted(set(c for _, c in props.PROPS[i].mc))
        checks.append({
            "property": i,
            "quick_cmd": "./check.py %s --tier quick" % i,
            "thorough_cmd": "./check.py %s --tier thorough" % i,
            "technique": "TLA+ specification model-checked with TLC (%s); behaviours of the real library validated against it by TLC (%s)" % (
                ", ".join(models), props.PROPS[i].trace),
            "level": props.PROPS[i].level,
            "level_note": "The design is exhaustively checked within the constants of the configurations; the code is bound by "
                          "trace validation of real executions (sanitized build of the current tree) on enumerated and random cases: "
                          + P[i]["note"] + ". Trusts TLC, the drivers in harness/, the compiler and sanitizers."})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
         "notes": "No hooks in /repo: the drivers use the public API. Checks compile src/scn/impl.cpp and the headers of the current tree."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
