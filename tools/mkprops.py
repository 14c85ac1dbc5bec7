#!/usr/bin/env python3
"""Writes properties.jsonl (kept as Python so the texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=None)))
def m(name, where): return dict(name=name, where=where)
def s(name, meaning, where): return dict(name=name, meaning=meaning, where=where)

prop("C01", "Integer text is the canonical decimal of the value",
 "Formatting any value of any supported integer type (signed or unsigned, 8 to 64 bits), an enumerator (by its underlying value) or a stream position (by its offset) yields exactly the base-10 text of that value: '-' first if and only if it is negative, then its digits, most significant first, with no leading zero, padding or other character. This includes the minimum and maximum of every type.",
 ["inputs", "configurations"], "every value of the ten integer types, of every enum underlying type and of stream offsets; on targets where long is 64 or 32 bits",
 "The tests format 1 and 0 only; the digit paths for 2 to 20 digits, for negative values and for the type minima are never executed, and 2^64 values cannot be enumerated.",
 ["src/detail/itoa.cpp", "src/int.cpp", "include/lexi/enum.hpp", "include/lexi/lexi.hpp", "include/lexi/detail/architecture.hpp"],
 [m("u32toa/u64toa digit-pair emission per magnitude class", "src/detail/itoa.cpp"), m("i32toa/i64toa sign split", "src/detail/itoa.cpp"), m("constructor overload picks the converter of the right width and signedness", "src/int.cpp")],
 [s("DIGITS", "two-digit lookup table", "src/detail/itoa.cpp")], ["FormatInt::c_str/size/string", "lexi::lexi(x)"])

prop("C02", "Integers, enums and stream positions survive a format/extract round trip",
 "For every value of every supported integer type, enum type or stream position, extracting that same type from the text produced by formatting the value gives back exactly the value. This holds for the most negative and the largest value of every width.",
 ["inputs"], "every value of each integer type, of enums over each underlying type, and of std::streampos",
 "No test formats and re-reads a value; extraction is tested on -1, 5 and 0.",
 ["src/int.cpp", "src/detail/itoa.cpp", "include/lexi/enum.hpp", "include/lexi/lexi.hpp"],
 [m("strtoull keeps all 64 bits modulo 2^64, conversions keep the low bits", "src/int.cpp ExtractInt"), m("ExtractEnum goes through the underlying type", "include/lexi/enum.hpp")],
 [s("data_", "parsed value modulo 2^64", "include/lexi/int.hpp")], ["lexi::lexi<T>(lexi::lexi(x))"])

prop("C03", "Integer extraction is base 10 and keeps the full width",
 "For every input string, extracting an integer, enum or stream position reads it as one base-10 integer as strtoull does (leading blanks, one sign, digits up to the first other character; a leading 0 or 0x never selects another base), and the result is that integer reduced to the low-order bits of the requested type. The text is read from its first character, and every integer-like target type sees the same parsed value.",
 ["inputs"], "every input string and every integer-like target type",
 "The tests extract '102', '', '-1', '5' and '0'; none has a leading zero, a prefix, more than three digits or a value beyond 8 bits.",
 ["src/int.cpp", "include/lexi/int.hpp", "include/lexi/enum.hpp", "include/lexi/lexi.hpp"],
 [m("single parse with base 10", "src/int.cpp ExtractInt::ExtractInt"), m("per-type conversion operators", "src/int.cpp")],
 [s("data_", "parsed value modulo 2^64", "include/lexi/int.hpp")], ["lexi::lexi<T>(s)", "ExtractInt conversions"])

prop("C04", "Integer, boolean, null and character formatting stays inside its storage",
 "For every value, constructing an integer, enum, boolean, null or character formatter and reading it back writes only inside that formatter's own text buffer (terminator included) and reads only initialised bytes inside the tables and buffers it uses. No value makes it touch memory outside, including the widest negative and unsigned values.",
 ["inputs"], "every value of every non-floating type",
 "The tests format one-digit integers; the longest texts, which come closest to the end of the buffer, are never produced and an overrun of a byte does not fail a test.",
 ["src/int.cpp", "src/detail/itoa.cpp", "src/bool.cpp", "src/null.cpp", "src/char.cpp", "include/lexi/detail/fmt.hpp"],
 [m("INTEGER_SIZE covers sign, digits and terminator", "include/lexi/detail/fmt.hpp"), m("table indices stay below 200", "src/detail/itoa.cpp")],
 [s("buffer_", "fixed-size text buffer of each formatter", "include/lexi/int.hpp, bool.hpp, null.hpp, char.hpp")], ["memory accesses of the constructors and accessors"])

prop("C05", "Float formatting stays inside its storage and terminates",
 "For every float, double and long double bit pattern, formatting terminates, writes only inside the formatter's own text buffer (terminator included), and reads only inside the lookup tables and initialised bytes. This holds for subnormals, extreme exponents, values that need 17 digits and non-finite values.",
 ["inputs"], "every bit pattern of a double, hence every float and every long double (which is formatted as a double)",
 "The tests format 16 doubles; the number of digits, the layout and the table indices depend on all 64 bits of the value, and reads beyond a table do not fail a test.",
 ["src/float.cpp", "src/detail/dtoa.cpp", "src/detail/diyfp.cpp", "include/lexi/detail/fmt.hpp"],
 [m("digit generation stops within 17 digits", "src/detail/dtoa.cpp generateDigits"), m("cached power index within the table", "src/detail/dtoa.cpp getCachedPower"), m("FLOAT_SIZE covers the longest layout", "include/lexi/detail/fmt.hpp"), m("normalisation loops shift a non-zero significand", "src/detail/diyfp.cpp")],
 [s("buffer_", "fixed-size text buffer", "include/lexi/float.hpp")], ["memory accesses of FormatFloat"])

prop("C06", "Finite float text identifies the double it was made from",
 "For every finite double (and float, and long double after rounding to double), the decimal number in the formatted text, sign included, lies strictly inside the interval of reals that round to that double, so a correctly rounding reader gets back a value equal to it; zero formats as zero.",
 ["inputs", "configurations"], "every finite double; with the compiler-specific and the portable arithmetic paths",
 "The tests cover 16 doubles out of 2^64; digit generation depends on the significand, the exponent, an 87-entry power table and several rounding steps.",
 ["src/detail/dtoa.cpp", "src/detail/diyfp.cpp", "src/detail/ieee754.cpp", "src/float.cpp"],
 [m("cached powers of ten and their exponents", "src/detail/dtoa.cpp CACHED_POWERS_F/E, getCachedPower"), m("boundaries of the rounding interval, shrunk by one unit on each side", "src/detail/diyfp.cpp normalizedBoundaries, src/detail/dtoa.cpp grisu2"), m("digit generation and rounding stay within delta of the upper boundary", "src/detail/dtoa.cpp generateDigits, grisuRound"), m("layout keeps digits and decimal exponent", "src/detail/dtoa.cpp prettify, writeExponent")],
 [], ["FormatFloat::string", "lexi::lexi(double)"])

prop("C07", "Finite float text follows one fixed notation",
 "The text of a finite value is always an optional '-', and then either plain notation (at least one digit, '.', at least one digit, no superfluous leading zero) or scientific notation (one non-zero digit, optionally '.' and digits, 'e', optional '-', exponent digits without leading zero); it is a valid JSON number token. With the digits and decimal exponent produced for a non-zero value, plain notation is used exactly when the decimal point falls at most 21 places after, or less than 6 places before, the first digit, and zero of either sign is '0.0'.",
 ["inputs"], "every finite double",
 "The tests check 13 finite values; every combination of digit count (1 to 17) and decimal exponent (about 650) selects a layout and copies digits to different places.",
 ["src/detail/dtoa.cpp", "src/float.cpp"],
 [m("layout selection and digit moves", "src/detail/dtoa.cpp prettify"), m("exponent digits", "src/detail/dtoa.cpp writeExponent"), m("sign and zero handling", "src/detail/dtoa.cpp dtoa")],
 [], ["FormatFloat::string", "FormatFloat::jsonify"])

prop("C08", "Non-finite values, and only those, format as the special literals",
 "A value formats as the NaN literal if and only if it is a NaN of any sign and payload, as the infinity literal if and only if it is +infinity, as the negative infinity literal if and only if it is -infinity; every other bit pattern is formatted as a number. A long double counts as the double it rounds to. The classification of a bit pattern into NaN, infinite, finite, zero and positive is exact for all 2^64 patterns.",
 ["inputs"], "every bit pattern of a double, and float and long double specials",
 "The tests use one quiet NaN and the two infinities; signalling, negative and payload NaNs and the patterns next to infinity are not reached.",
 ["src/float.cpp", "src/detail/ieee754.cpp", "include/lexi/detail/ieee754.hpp"],
 [m("exponent and significand masks", "include/lexi/detail/ieee754.hpp"), m("classification predicates", "src/detail/ieee754.cpp"), m("dispatch in FormatFloat::format", "src/float.cpp")],
 [], ["FormatFloat::string", "detail::isNan/isInf/isInfinity/isNegativeInfinity/isFinite/isZero/isPositive"])

prop("C09", "All views of a formatter agree and are null-terminated",
 "For every formatter and every value, data() and c_str() are the same pointer to size() characters followed by a null terminator, length() equals size(), and string() and the conversion to std::string are exactly those size() characters (embedded nulls included).",
 ["inputs"], "every value of every formattable type",
 "The tests read string() or escape(); size(), length(), data(), c_str() and the terminator are not observed.",
 ["src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/null.cpp", "src/char.cpp", "src/detail/dtoa.cpp"],
 [m("first/last or size_ delimit the text", "include/lexi/*.hpp"), m("terminator written by every constructor path", "src/int.cpp, src/detail/dtoa.cpp, src/float.cpp")],
 [s("first, last, size_", "bounds of the text", "include/lexi/int.hpp, float.hpp, bool.hpp")], ["size, length, data, c_str, string, operator std::string"])

prop("C10", "Formatters are self-contained values",
 "A formatter, however it was obtained (constructed, copied, moved, assigned, self-assigned or returned by value), exposes a text that lives inside itself and equals the text of its source. It stays valid and unchanged after the source is destroyed, reassigned or goes out of scope.",
 ["programs", "histories"], "every sequence of copies, moves and assignments of formatters of every kind",
 "The tests only use temporaries, for which the compiler elides every copy.",
 ["include/lexi/int.hpp", "include/lexi/float.hpp", "include/lexi/enum.hpp", "src/int.cpp", "src/float.cpp"],
 [m("copy operations re-anchor the bounds in the new buffer", "src/int.cpp, src/float.cpp")],
 [s("first, last", "pointers into the object's own buffer", "include/lexi/int.hpp, float.hpp")], ["c_str()/data()/string() of copies"])

prop("C11", "Boolean and null extraction accept exactly their literals",
 "Extracting a boolean returns true for exactly the true literal and false for exactly the false literal, extracting null succeeds for exactly the null literal, and formatting then extracting is the identity. Every other string (a prefix, an extension, one with embedded nulls, another case, the empty string) raises std::runtime_error and yields no value, in debug and release builds.",
 ["inputs", "configurations"], "every input string; with and without NDEBUG",
 "The tests try one rejected string for bool and none for null; near misses such as 'true\\0' or 'trueish' are not tried.",
 ["src/bool.cpp", "src/null.cpp", "include/lexi/detail/define.hpp", "include/lexi/lexi.hpp"],
 [m("whole-string comparison with the literal, else throw", "src/bool.cpp ExtractBool, src/null.cpp ExtractNull"), m("LEXI_ASSERT throws std::runtime_error in every build", "include/lexi/detail/define.hpp")],
 [], ["lexi::lexi<bool>", "lexi::lexi<std::nullptr_t>"])

prop("C12", "Characters format to themselves and extract as the first byte",
 "Every char value, including the null character and bytes above 127, formats to a one-byte text that is exactly that byte, and extracts back from it. Extracting a char from any non-empty string gives its first byte, and from the empty string raises std::runtime_error, in debug and release builds.",
 ["inputs", "configurations"], "all 256 byte values, every input string, char signed or unsigned, with and without NDEBUG",
 "The tests use four characters, all below 128, and one extraction.",
 ["src/char.cpp", "include/lexi/char.hpp", "include/lexi/detail/define.hpp", "include/lexi/lexi.hpp"],
 [m("one-byte buffer with terminator", "src/char.cpp FormatChar"), m("emptiness check before front()", "src/char.cpp ExtractChar")],
 [], ["lexi::lexi(char)", "lexi::lexi<char>(s)"])

prop("C13", "Configured literals are used whole, or rejected at build time",
 "Whatever null-free strings the literals for true, false, null, NaN, infinity and negative infinity are configured to, a build that succeeds formats each value to exactly its configured literal with the matching size, and boolean and null extraction accept exactly the configured literals. A literal that does not fit the formatter's buffer is rejected when the library is built.",
 ["configurations"], "every configuration of the six LEXI_* literals",
 "The tests are built with the default literals only.",
 ["include/lexi/detail/define.hpp", "src/bool.cpp", "src/null.cpp", "src/float.cpp"],
 [m("literals copied and measured with sizeof", "src/bool.cpp, src/null.cpp, src/float.cpp"), m("static_assert that each literal fits", "src/bool.cpp, src/null.cpp, src/float.cpp")],
 [], ["FormatBool/FormatNull/FormatFloat string() and size()", "ExtractBool, ExtractNull"])

prop("C14", "escape() prefixes exactly the non-alphanumeric ASCII bytes",
 "For every string or character, escape() returns the same bytes in the same order, with one backslash inserted before each byte from 0x00 to 0x7E that is not an ASCII letter or digit, and nothing else inserted, dropped or changed (bytes from 0x7F up are left alone, so UTF-8 sequences stay intact).",
 ["inputs", "configurations"], "every byte string of any length, embedded nulls included; char signed or unsigned",
 "The tests escape four one-character strings.",
 ["src/detail/string.cpp", "src/char.cpp", "include/lexi/lexi.hpp"],
 [m("per-byte class test and append", "src/detail/string.cpp escape")],
 [], ["lexi::escape(s)", "FormatChar::escape"])

prop("C15", "jsonify() yields a JSON string literal that decodes to the input",
 "For every string or character, jsonify() returns a double-quoted JSON string literal that contains no raw control character, quote or lone backslash and that decodes to exactly the input bytes; bytes from 0x20 up other than quote and backslash appear unchanged. Distinct inputs therefore give distinct literals.",
 ["inputs", "configurations"], "every byte string of any length, embedded nulls included; char signed or unsigned",
 "The tests convert four one-character inputs out of 256 byte values.",
 ["src/detail/string.cpp", "src/char.cpp", "include/lexi/lexi.hpp"],
 [m("switch over the short escapes, \\u00XX for the other control bytes", "src/detail/string.cpp jsonify"), m("surrounding quotes", "src/char.cpp FormatChar::jsonify, include/lexi/lexi.hpp jsonify")],
 [s("HEX", "hex digit table", "src/detail/string.cpp")], ["lexi::jsonify(s)", "FormatChar::jsonify"])

prop("C16", "Every supported type is routed to its own formatter and extractor",
 "For every supported type, with any cv-qualification of the argument, exactly one formatter is selected at compile time: null for nullptr, boolean for bool, character for char, integer for the ten other standard integer types (signed and unsigned char included), float for the three floating types, enum for any enum, integer for stream positions; extraction routes the same way and returns exactly the requested type. Strings, classes derived from std::string and string literals are passed through as strings, and a type without a lexical form (a pointer, a wide character, a class) does not compile.",
 ["programs"], "every client program that formats or extracts a value of a supported or unsupported type",
 "Tests instantiate about ten types; a mis-routed type still compiles and gives plausible text, and a program that must not compile cannot be part of a test binary.",
 ["include/lexi/lexi.hpp", "include/lexi/detail/type.hpp", "include/lexi/enum.hpp"],
 [m("enable_if on the type predicates", "include/lexi/lexi.hpp Format, Extract"), m("type predicates", "include/lexi/detail/type.hpp")],
 [], ["return types of Format()(x), Extract<T>()(s), lexi(x)"])

prop("C17", "The free functions agree with the formatter objects",
 "For every value, lexi(x), string(x) and the formatter's string() are the same text; escape(x) and jsonify(x) of a number, boolean or null are that same bare text, and of a character or string are the escaped or quoted text. For every existing string, lexi(s) and string(s) return it unchanged, embedded nulls included.",
 ["inputs"], "every value of every supported type and every string",
 "The tests compare a dozen results and use jsonify() on characters only.",
 ["include/lexi/lexi.hpp", "src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/null.cpp", "src/char.cpp"],
 [m("free functions delegate to Format and detail::escape/jsonify", "include/lexi/lexi.hpp")],
 [], ["lexi::lexi, lexi::string, lexi::escape, lexi::jsonify"])

prop("C18", "Conversions are free of shared mutable state",
 "Formatting, escaping and extracting never write to memory that outlives the call other than the caller's own objects (errno and the one-time initialisation of a constant aside), never keep state from one call to the next, and formatting and escaping never depend on process-wide settings such as the locale. Any number of threads can therefore convert at the same time, on distinct objects or on a shared const formatter, and the same input always gives the same output.",
 ["schedules", "histories"], "every interleaving of conversions in any number of threads, and every history of earlier conversions",
 "The tests are single-threaded and convert each value once.",
 ["src/", "include/lexi/"],
 [m("tables are constant, every conversion works on its own object", "src/detail/*.cpp"), m("accessors are const and write nothing", "src/*.cpp")],
 [s("lookup tables and table pointers", "file-scope data", "src/detail/itoa.cpp, dtoa.cpp, pow.cpp, bigint.cpp, string.cpp")], ["all public functions"])

prop("C19", "Formatting into the object neither allocates nor throws",
 "Constructing, copying or destroying a formatter of any kind for any value, and reading size(), length(), data() or c_str(), never allocates memory and never throws. Extracting a number, enum or stream position from a std::string neither allocates nor throws either, whatever the text. Only the functions that return std::string may allocate, and among the conversions only extraction of bool, null and char rejects input, always with std::runtime_error.",
 ["inputs", "fault_sequences"], "every value of every formattable type, including when memory is exhausted",
 "The tests never run out of memory and would not notice an allocation.",
 ["src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/null.cpp", "src/char.cpp", "src/detail/itoa.cpp", "src/detail/dtoa.cpp", "src/detail/diyfp.cpp"],
 [m("fixed-size buffers inside the formatter", "include/lexi/*.hpp"), m("no throwing call on any formatting path", "src/detail/*.cpp")],
 [], ["FormatX constructors and accessors; exception types escaping the extractors"])

prop("C20", "Float extraction is rounded once, to the requested type",
 "For every input string, extracting a float, double or long double gives the correctly rounded value of the decimal number for that very type, as strtof, strtod or strtold give it, without an intermediate rounding to another type. Together with the text guarantee, formatting a finite double and extracting it gives back an equal double.",
 ["inputs"], "every input string and the three floating types",
 "No test extracts a floating-point value.",
 ["src/float.cpp", "include/lexi/float.hpp", "include/lexi/lexi.hpp"],
 [m("one parse per type", "src/float.cpp ExtractFloat")],
 [s("float_, double_, data_", "parsed values", "include/lexi/float.hpp")], ["lexi::lexi<double>(s)"])

prop("C21", "Big integers never exceed their storage: overflow is rejected",
 "For every big integer of any size up to its capacity and every operand, construction from digits, addition, multiplication, power-of-five multiplication, shifting, copying, difference, comparison and digit access read and write only the big integer's own words that are in use or being added. An operation whose result would not fit, an index out of range or a non-digit character raises std::runtime_error instead.",
 ["inputs", "histories"], "every size from one word to the full capacity, every operand and shift distance",
 "No test touches the big integer class.",
 ["src/detail/bigint.cpp", "include/lexi/detail/bigint.hpp"],
 [m("capacity checks in push_back and operator<<=", "src/detail/bigint.cpp"), m("index and digit checks", "src/detail/bigint.cpp digit, parse")],
 [s("digits_, count_", "little-endian 64-bit words in use", "include/lexi/detail/bigint.hpp")], ["BigInteger public operations"])

prop("C22", "Big integer arithmetic is exact",
 "For all operands whose result leaves at least one word of the capacity free, a big integer built from a decimal string has that value, and addition, multiplication by 32- and 64-bit factors, multiplication by a power of five, left shift, absolute difference of distinct integers (into a separate object), comparison and equality complete and give the exact mathematical result, with carries and borrows propagated through any number of words and no superfluous leading zero word. Nearer to the capacity an operation either still gives the exact result or is rejected.",
 ["inputs", "configurations"], "all word values, sizes and shift distances; with the compiler-specific and the portable multiplication",
 "No test touches the big integer class; carry chains need specific word values such as 2^64-1.",
 ["src/detail/bigint.cpp", "include/lexi/detail/bigint.hpp"],
 [m("carry and borrow propagation", "src/detail/bigint.cpp operator+=, operator*=, operator<<=, difference"), m("powers of five", "src/detail/bigint.cpp POWER5, mulPow5"), m("word comparison from the top", "src/detail/bigint.cpp compare")],
 [s("digits_, count_", "little-endian 64-bit words in use", "include/lexi/detail/bigint.hpp")], ["BigInteger public operations, count() and digit(i)"])

prop("C23", "The power-of-ten lookup is exact over its whole range",
 "For every exponent from 0 to 308 the power-of-ten lookup returns the double nearest to that power of ten, and it covers that whole range.",
 ["inputs"], "all 309 exponents",
 "No test calls it; a wrong entry shows only for that one exponent.",
 ["src/detail/pow.cpp", "include/lexi/detail/pow.hpp"],
 [m("literal table indexed by the exponent", "src/detail/pow.cpp POWER10")],
 [s("POWER10", "powers of ten as doubles", "src/detail/pow.cpp")], ["detail::pow10(n)"])

prop("C24", "Extractors own the value they parsed",
 "An extractor object keeps the value of the text it was constructed from: however it was obtained (constructed, copied, moved, assigned, self-assigned or returned by value), converting it gives that value, any number of times and to its target types in any order, after the string was changed or destroyed, after the extractor it was copied from died or was reassigned, and whatever other conversions happened in between. Extraction never changes the string.",
 ["inputs", "histories"], "every string, every extractor kind, every history of copies, reassignments and destruction of the string and of other extractors",
 "The tests convert a temporary extractor of a temporary string at once; an extractor that keeps a pointer into the string passes them.",
 ["include/lexi/int.hpp", "include/lexi/enum.hpp", "include/lexi/float.hpp", "include/lexi/bool.hpp", "include/lexi/char.hpp", "include/lexi/null.hpp", "src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/char.cpp", "src/null.cpp"],
 [m("the constructor parses at once and stores the value", "src/*.cpp Extract*::Extract*"), m("conversions only read the stored value", "src/*.cpp Extract*::operator T")],
 [s("data_, float_, double_, c", "parsed value", "include/lexi/*.hpp")], ["ExtractInt, ExtractEnum, ExtractFloat, ExtractBool, ExtractChar, ExtractNull conversions"])

prop("C25", "Extended floats compute exactly or round to nearest",
 "For the extended floats (64-bit significand, binary exponent) behind float formatting: the product of any two has the exact product of the significands divided by 2^64 and rounded to nearest, halves up, and the sum of the exponents plus 64, the same with compiler-specific and portable multiplication. Subtracting a smaller significand at the same exponent, converting any finite double (its magnitude), normalising any non-zero significand of at most 53 bits (54 for boundaries) so that its top bit is set, and the two boundaries of a non-zero significand of at most 53 bits are exact: half a unit above, half a unit below (a quarter unit below when only the hidden bit is set), with a common exponent and the upper one normalised.",
 ["inputs", "configurations"], "all significands and exponents; both multiplications",
 "No test calls these operations; a product that is off by one unit changes the text of few doubles.",
 ["src/detail/diyfp.cpp", "include/lexi/detail/diyfp.hpp"],
 [m("rounding of the low half of the product", "src/detail/diyfp.cpp mul"), m("shift to the top bit", "src/detail/diyfp.cpp normalize, normalizeBoundary"), m("half and quarter units", "src/detail/diyfp.cpp DiyFp::normalizedBoundaries")],
 [s("f, e", "significand and exponent", "include/lexi/detail/diyfp.hpp")], ["DiyFp operators and members"])

prop("C26", "Headers work alone, in any order and in any number of units",
 "Every header of the library compiles when it is the only one included, when it is included twice and in any combination and order with the others, as C++14 or a later standard with either compiler. Including the headers in any number of translation units gives no duplicate definition, and each public function they declare is defined by the library, so every program that type-checks against them links.",
 ["configurations"], "every set and order of headers, number of translation units, language standard from C++14 to C++20 and compiler",
 "The tests are built with a forced include of <cstdint> that hides missing includes, include each header once at most per unit in one order, and call only part of the declared functions.",
 ["include/lexi/lexi.hpp", "include/lexi/int.hpp", "include/lexi/enum.hpp", "include/lexi/float.hpp", "include/lexi/bool.hpp", "include/lexi/char.hpp", "include/lexi/null.hpp", "include/lexi/detail/type.hpp", "include/lexi/detail/define.hpp"],
 [m("include guards and includes of what is used", "include/lexi/*.hpp"), m("templates and constexpr variables only, no definitions with external linkage", "include/lexi/*.hpp"), m("definitions of the declared members", "src/*.cpp")],
 [], ["any program that includes the headers"])

prop("C27", "Finite float text is short and nearest",
 "For every finite non-zero double the text of FormatFloat is economical: no decimal with fewer significant digits lies inside the interval of reals that round to the value, shrunk at either end by 1/256 of its width; no other decimal with the same position of the last digit, well inside that interval, is nearer to the value by more than 1/128 of the width; and the text shows just those digits with the zeros needed to reach the decimal point, without superfluous zeros.",
 ["inputs"], "all finite non-zero doubles",
 "Which digits are generated and how the last one is rounded depends on all 53 bits and the exponent; a lost digit-saving or a rounding step skipped shows only for some doubles, and such text still reads back to the same value, so round-trip tests pass.",
 ["src/detail/dtoa.cpp", "src/detail/diyfp.cpp", "src/float.cpp"],
 [m("digits are generated until the rest is inside the interval", "src/detail/dtoa.cpp generateDigits"), m("last digit moved towards the value", "src/detail/dtoa.cpp grisuRound"), m("interval computed from the neighbours", "src/detail/diyfp.cpp normalizedBoundaries, src/detail/dtoa.cpp grisu2")],
 [s("digits, K", "significant digits and decimal exponent", "src/detail/dtoa.cpp")], ["FormatFloat of finite doubles"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
