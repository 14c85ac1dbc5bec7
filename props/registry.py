"""What each check decides, by which rule, and what it takes for granted."""
from . import ints, simple, strings, floats, bigint, copies, fextract, literals, effects, routing, own, diyfp, headers

SPECS = {}
AI = ('Path-partitioned abstract interpretation of the LLVM IR that clang makes from the current sources (drivers/*.cpp name the entry points). Values are polynomials over '
      'symbolic inputs with interval bounds and linear side conditions, memory is tracked per byte; every feasible branch outcome is a partition, so a discharged obligation '
      'holds for every concrete value in the stated input ranges. An obligation that cannot be discharged becomes a violation only when a concrete member of the partition is '
      'found that satisfies the path and breaks it; otherwise it is reported as undecided. ')
BASE = ['clang 18 compiles the sources as they are meant (x86-64, and i686 where listed; C++14); the IR is taken at -O0 with memory promoted to registers',
        'the models of the C and C++ library functions called (memcpy, memmove, strncpy, strlen, strto*, std::string members, exceptions) match their specification',
        'the abstract transfer functions in engine/ are sound (they were cross-checked while building against concrete runs of mutated and unmutated code)']


def spec(pid, make, technique, explain, assume=(), note=''):
    SPECS[pid] = dict(make=make, technique=technique, explain=explain, assume=BASE + list(assume), level='other', note=note)


T = 'static analysis: abstract interpretation of LLVM IR'

spec('C01', ints.C01, T + ' (symbolic polynomials, digit sums)',
     AI + 'Inputs: one symbol over the full range of each of the ten integer types, six enum types and stream offsets, through the constructor and the free functions. '
     'Rule canonical-decimal: sign byte iff negative, every other byte in 0..9, first digit non-zero unless alone, and sum of digit*10^i equal to the value as polynomials.',
     ['the 32-bit configuration uses the 64-bit C library headers with one stub'],
     'With 64-bit and 32-bit long. Every value of every integer, enum and stream-offset type; all obligations are discharged on the current tree.')
spec('C02', ints.C02, T + ' (format and extract composed)',
     AI + 'The value is formatted and the text extracted again in one entry point, for the objects and for the free functions; strtoull is evaluated exactly on the symbolic digits. '
     'Rule round-trip: the extracted value equals the input symbol.', [], 'Every value of every type; all obligations are discharged on the current tree.')
spec('C03', ints.C03, T + ' (string families and a symbolic string)',
     AI + 'Inputs: a string of unbounded length and unknown content (the parse is then one uninterpreted call, whose function, base and start must be the right ones), all strings of up to 3 bytes, '
     'families of signs, blanks, leading zeros, prefixes and up to 25 digits with symbolic digits, and a list of boundary strings. Rule base-10-extraction: the result equals the base-10 '
     'strtoull value modulo the width of the requested type.', ['strtoull behaves as the C standard says'],
     'Unbounded strings when the text is handed to strtoull; the listed families otherwise.')
spec('C04', simple.C04, T + ' (memory bounds and initialisation)',
     AI + 'Rule memory-access: every load, store, memcpy/strncpy range and pointer step stays inside its object and reads initialised bytes only, for every value of the integer, enum, bool, char, '
     'null and stream-position formatters and all their accessors; the text reported by data()/size() and its terminator lie inside the formatter.', [],
     'Every value of every non-floating type.')
spec('C05', floats.C05, T + ' (per binary exponent, digit-generation invariants)',
     AI + 'Every double is covered by its 2046 normal exponents, the subnormal class and the specials; digit generation is analysed per shift and step with the invariants of Grisu2 (p2 < one, delta '
     'scaled by 10 per step), rounding per digit count, layout per (digit count, decimal exponent). Rules: memory-access (tables, buffer, initialised bytes), float-storage (text and terminator inside the '
     'object), terminates (every loop has a decreasing rank).', ['long double is narrowed to double by the hardware rounding before anything else'],
     'Every bit pattern of a double, float and long double.')
spec('C06', floats.C06, T + ' (interval containment per exponent and digit position)',
     AI + 'Rules, per exponent: cached-power (the table entry is within half a unit of the exact power of ten, which is computed exactly), boundaries (the scaled neighbours are the rounding '
     'interval shrunk by at least one unit), digits (the emitted digits times the power of ten stay within delta of the upper boundary), grisu-round (the last digit only moves inside the interval), '
     'layout (the text denotes digits*10^k). Their composition puts the text strictly inside the rounding interval.', ['long double inputs are first rounded to double'],
     'Every finite double; generic and compiler-specific multiplication.')
spec('C07', floats.C07, T + ' (layout per digit count and exponent)',
     AI + 'The layout code is analysed for every digit count from 1 to 17 and every decimal exponent that a double can have, with symbolic digits. Rule: the text is exactly the plain or scientific form the '
     'statement gives for that digit count and exponent; zeros are 0.0.', [], 'Every finite double that reaches the layout with 1 to 17 digits.')
spec('C08', floats.C08, T + ' (bit-pattern partitions)',
     AI + 'The 64-bit pattern is split into sign, exponent and significand classes; rule: the literal chosen and each classification predicate are exactly those of the class, for every pattern.',
     [], 'All 2^64 patterns of a double; float and long double specials.')
spec('C09', simple.C09, T + ' (views of the formatter)',
     AI + 'Rule views-agree: data() == c_str(), length() == size(), the byte at size() is null, string() and the conversion have exactly those bytes; for every value of every formattable type.', [],
     'Every value of every formattable type.')
spec('C10', copies.C10, T + ' (object identity and lifetime of the text)',
     AI + 'Each kind of formatter is copied, moved, assigned, self-assigned, passed and returned by value while the sources die or change, with and without copy elision. Rules: self-contained (the text pointer has '
     'the object itself as its base), same-text (bytes equal those of the source).', ['one copy step from an arbitrary formatter state is enough: the result is again such a state'],
     'Every value; quick analyses four digit counts of the float texts, thorough all 17.')
spec('C11', simple.C11, T + ' (symbolic strings)',
     AI + 'Inputs: a string of any length and content, and all strings of length 0 to 6 byte by byte. Rule: returns true/false/null exactly when the string equals the literal, every other string leaves with '
     'std::runtime_error; with and without NDEBUG.', [], 'Every input string.')
spec('C12', simple.C12, T + ' (all bytes, symbolic strings)',
     AI + 'Rule: formatting a symbolic byte gives exactly this byte; extraction gives byte 0 of a non-empty symbolic string and std::runtime_error for the empty one; signed and unsigned char, with and without NDEBUG.',
     [], 'All 256 bytes and every string.')
spec('C13', literals.C13, T + ' over compile-time configurations',
     AI + 'The library is rebuilt with the six literals configured to lengths from 0 up to and beyond each buffer, with quotes, escapes and literals that are prefixes of each other. Rule: a configuration that builds formats '
     'exactly the literal with the right size and storage and extracts exactly it; a literal that does not fit must not build.', ['the literals contain no null byte'],
     'Each literal length around the buffer size, alone and together; other configurations by uniformity of the code in the literal.')
spec('C14', strings.C14, T + ' (loop summarised per iteration)',
     AI + 'The loop over the string is summarised once for an arbitrary position of a string of any length and for every byte class; rule escape-exact: each byte appends a backslash iff it is in the escaped set, then itself. All strings of length '
     'up to 3 are analysed without the summary as well.', [], 'Strings of any length; signed and unsigned char.')
spec('C15', strings.C15, T + ' (loop summarised per iteration)',
     AI + 'As for escape: every byte appends a JSON unit that decodes to it, with no raw control byte, quote or backslash, and the result is enclosed in quotes.', [], 'Strings of any length; signed and unsigned char.')
spec('C16', routing.C16, 'static analysis: compile-time witnesses decided by the type checkers of clang and gcc, and call-graph routes',
     'Rule routed: for every supported type, each cv-qualification and value category, a static_assert on the type of the call (formatter chosen, std::string results, extracted type) must hold; rule does-not-compile: a call '
     'with a type that has no lexical form must be rejected by the type checker; rule extraction-route: the call graph from the extraction of a type reaches the constructor of its own extractor only.',
     ['both compilers implement overload resolution correctly'], 'The supported types listed in the statement and 20 kinds of unsupported ones.')
spec('C17', simple.C17, T + ' (relational, all interfaces in one entry point)',
     AI + 'The formatter and every free function convert the same symbolic value in one entry point; rules: all texts are byte-wise equal, bare for numbers, booleans and null, escaped or quoted for characters and strings, unchanged for '
     'strings of any length.', [], 'Every value of every type; floats per digit count.')
spec('C18', effects.C18, 'static analysis: effects on the call graph and flow of pointers to static data',
     'Over everything reachable from the conversions: rule no-shared-writes (no store, library call or atomic update through a pointer derived from a static or thread-local variable, one-time initialisation with constant data aside), rule '
     'no-hidden-input (no call into locale, environment, time, random, stdio or floating-point environment functions; for formatting and escaping also none whose result depends on the locale), rule const-objects-only-read (no write through the object of a const '
     'member function or a const reference parameter).', ['the standard string and strto* functions are themselves thread-safe'], 'All functions reachable from the conversions in two configurations.')
spec('C19', effects.C19, 'static analysis: call-graph effects (allocation, throw), alarms confirmed by abstract interpretation',
     'Rule no-allocation-no-throw: no allocating function, std::string construction or throw is reachable from the constructors, copies, destructors and accessors of any formatter, nor from the extraction of numbers, enums and stream positions. Rule '
     'string-results-not-rejected: no throw expression of the library is reachable from the functions that return std::string. Rule rejects-with-runtime-error: every throw expression of the extractors throws std::runtime_error. A reachable effect is '
     'reported as a violation when the abstract interpreter finds an input that performs it.', ['std::string keeps up to 15 characters inside the object (libstdc++)'],
     'All entry points in three configurations.')
spec('C20', fextract.C20, T + ' (symbolic strings, exact rounding oracle)',
     AI + 'Inputs: a string of any length and content (the result must be the term strtof/strtod/strtold of that very string, for the type asked for, with no conversion in between), and boundary strings at and beside midpoints of the three formats, for which '
     'the correctly rounded value is computed with rationals.', ['strtof, strtod and strtold round correctly (glibc)'], 'Every string.')
spec('C21', bigint.C21, T + ' (symbolic words, every size up to capacity)',
     AI + 'Operands are big integers of symbolic words at every size up to and at the capacity; rule memory-access: every word access lies in use or being added; rules rejected/index/digit: an operation that would not fit, an index out of range or a non-digit raises std::runtime_error.',
     ['sizes between the analysed ones behave alike (small sizes, sizes at the capacity and a set of sizes between them are analysed)'], 'Small sizes, sizes at capacity, and between.')
spec('C22', bigint.C22, T + ' (exact polynomial arithmetic on words)',
     AI + 'Rule exact: the value of the result words, as a polynomial in the symbolic input words, equals the mathematical result; no leading zero word; comparison by value.', ['sizes up to 6 words, then uniform in the number of words (carry chains are covered by the symbolic words)'],
     'All word values at the analysed sizes; generic and compiler-specific multiplication.')
spec('C23', fextract.C23, T + ' (every index of the table)',
     AI + 'The lookup is analysed for each of the 309 exponents; rule: the constant returned is the double nearest to the exact power of ten.', [], 'All 309 exponents.')
spec('C24', own.C24, T + ' (relational: conversions after the string is gone)',
     AI + 'Extractors are built from a string of any length and content (and from listed strings), then the string dies or changes, the extractor is copied, moved, assigned, self-assigned, passed and returned by value while its source dies, '
     'and other extractions happen. Rules: keeps-its-value (each conversion is identical to the first one, for each target type and in any order), source-unchanged (the string still has its bytes), memory-access (no read of a dead object).',
     ['one copy step from an arbitrary extractor state is enough: the result is again such a state'], 'Every string; with and without copy elision, with and without NDEBUG, with 32-bit long.')
spec('C25', diyfp.C25, T + ' (exact polynomial arithmetic on significands)',
     AI + 'Significands and exponents are symbols over their whole range. Rules: product-rounded (the 64-bit significand is the exact 128-bit product divided by 2^64 and rounded to nearest, halves up), exact (difference, conversion from a double, '
     'normalisation per bit length and boundaries are exact), exponent.', ['exponents stay within 1200 of zero (those of doubles and cached powers do)'],
     'All significands; compiler-specific and generic multiplication.')
spec('C26', headers.C26, 'static analysis: inclusion witnesses decided by the compilers, symbol tables, declarations of the syntax tree against the definitions of the library',
     'Rule self-contained: each header compiles alone and included twice, as C++14, 17 and 20. Rule any-order: all ordered pairs of public headers and whole sequences of them compile. Rule one-definition: a unit that only includes a header '
     'defines no strong symbol, so any number of them link. Rule declared-is-defined: each public function declared in a header without a body is defined by the library sources.',
     ['a set of headers compiles if each of its ordered pairs does'], 'Every header, both compilers.')

spec('C27', floats.C27, T + ' (interval width per exponent, digit generation, rounding)',
     AI + 'Rules, per exponent: tight-interval (the scaled bounds give away at most a 256th of the rounding interval at either end and the scaled value is as near), no-shorter (digit generation goes on only while no number with '
     'fewer digits is in the scaled interval), round-arguments and nearest (the last digit ends at the candidate nearest to the scaled value), short-text (the text has exactly the generated digits). Their composition '
     'gives the statement.', ['long double inputs are first rounded to double'],
     'Every finite double; generic and compiler-specific multiplication.')
