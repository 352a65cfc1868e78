"""The harness parts of each property's check."""
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
# as a user's release build: optimised, assertions off; and where char is unsigned, as on ARM
RELEASE = ["-O2", "-DNDEBUG", "-U_GLIBCXX_ASSERTIONS", "-funsigned-char"]

PARTS = {
    "C01": dict(level="exploration",
        technique="bounded exhaustive enumeration of input texts on the real parser against a reference parser",
        note="Every text of the stated alphabets, edits, sizes and depths is parsed by the real code and compared with an independent "
             "reference parser of the dialect; nothing is said about texts beyond the bounds.",
        parts=[dict(name="main", src="C01.cpp"), dict(name="release", src="C01.cpp", flags=RELEASE)]),
    "C02": dict(level="exploration",
        technique="bounded exhaustive enumeration of number literals on the real parser against an exact decimal reference",
        note="Every literal of the stated words, lengths, limits and exponents is parsed by the real code and compared with exact decimal arithmetic; nothing is said about inputs beyond the stated bounds.",
        parts=[dict(name="main", src="C02.cpp"), dict(name="release", src="C02.cpp", flags=RELEASE)]),
    "C03": dict(level="exploration",
        technique="bounded exhaustive enumeration of string literals on the real parser against a reference decoder",
        note="All 65536 escapes, all surrogate pairs, all code points and all short words are decided; nothing is said about inputs beyond the stated bounds.",
        parts=[dict(name="main", src="C03.cpp"), dict(name="release", src="C03.cpp", flags=RELEASE)]),
    "C04": dict(level="exploration",
        technique="exhaustive enumeration of code points and code unit sequences through the real codecs against reference codecs",
        note="All scalar values and all unit sequences within the stated bounds go through the real codecs; nothing is said about inputs beyond the stated bounds.",
        parts=[dict(name="main", src="C04.cpp"), dict(name="release", src="C04.cpp", flags=RELEASE)]),
    "C05": dict(level="exploration",
        technique="exhaustive enumeration of code points and ill-formed unit sequences across all pairs of encodings",
        note="All code points, all pairs of 52 special characters and all short ill-formed sequences go through every pair of source, value and target; nothing is said about inputs beyond the stated bounds.",
        parts=[dict(name="main", src="C05.cpp")]),
    "C06": dict(level="exploration",
        technique="bounded exhaustive enumeration of values and dump options, round trip through the real code",
        note="Every tree within the weight bound and every boundary number is dumped and parsed back under every option set; nothing is said about inputs beyond the stated bounds.",
        parts=[dict(name="main", src="C06.cpp")]),
    "C07": dict(level="exploration",
        technique="bounded exhaustive enumeration of values, dumped text judged by an independent strict reader",
        note="Every dumped text is read by an independent strict RFC 8259 reader and compared with the value; nothing is said about inputs beyond the stated bounds.",
        parts=[dict(name="main", src="C07.cpp")]),
    "C08": dict(level="exploration",
        technique="exhaustive enumeration of boundary numbers, precisions and formats against exact decimal rounding",
        note="Every boundary integer and floats of every exponent are dumped under every setting and compared as decimal numbers with the C library's rounding; nothing is said about inputs beyond the stated bounds.",
        parts=[dict(name="main", src="C08.cpp")]),
    "C09": dict(level="exploration",
        technique="bounded exhaustive enumeration of values, indentations and routes against a reference layout",
        note="Every tree within the weight bound, every indentation 0..255 and every depth and size within the bounds is dumped by every route and compared with an independent layout; nothing is said about values beyond the stated bounds.",
        parts=[dict(name="main", src="C09.cpp")]),
    "C10": dict(level="model_checking",
        technique="explicit-state exploration of a reference container model, every transition replayed on the real values under AddressSanitizer",
        note="All states within the depth bound and every operation from each; all short sequences of smaller alphabets without merging states; hidden states of the standard containers (capacity) beyond those sequences are not distinguished.",
        parts=[dict(name="main", src="C10.cpp", flags=ASAN)]),
    "C11": dict(level="model_checking",
        technique="explicit-state exploration of copy, move, swap and mutation sequences, every transition replayed on the real values under AddressSanitizer",
        note="All states within the depth bound, every tree within the weight bound copied and moved in every way; nothing is said beyond the bounds.",
        parts=[dict(name="main", src="C11.cpp", flags=ASAN)]),
    "C12": dict(level="model_checking",
        technique="exhaustive exploration of iterator move sequences against a position model on the real iterators",
        note="All move sequences of the stated length over all values up to size 6 and all iterator kinds, all erasures, all pairs for misuse; nothing is said beyond the bounds.",
        parts=[dict(name="main", src="C12.cpp", flags=ASAN)]),
    "C13": dict(level="exploration",
        technique="exhaustive enumeration of pairs and triples of values under all comparison operators against a reference order",
        note="All pairs and triples of the stated values; nothing is said about values beyond the bounds.",
        parts=[dict(name="main", src="C13.cpp")]),
    "C14": dict(level="exploration",
        technique="exhaustive enumeration of value kinds, reading types, reading routes and source data on the real code",
        note="Every value within the weight bound is read as 20 types by every route, every 8 and 16 bit integer and floats of every exponent are made into values; nothing is said about data beyond the stated bounds.",
        parts=[dict(name="main", src="C14.cpp", flags=ASAN)]),
    "C15": dict(level="exploration",
        technique="bounded exhaustive enumeration of container objects and of values read as container types, against an independent per-type shape and reader",
        note="Every object within the size budget of some 80 container types makes the round trip, and every value tree within the weight bound is read as each type; nothing is said about larger objects (beyond flat containers of up to 699 elements) or other nestings.",
        parts=[dict(name="flat", src="C15.cpp", flags=ASAN + ["-DPART=0"]),
               dict(name="nested", src="C15.cpp", flags=ASAN + ["-DPART=1"]),
               dict(name="deep", src="C15.cpp", flags=ASAN + ["-DPART=2"])]),
    "C16": dict(level="exploration",
        technique="exhaustive enumeration of field subsets of bound structs of every arity and of single mutations of nested struct values, against the field rules",
        note="Every arity 1..50 in three binding styles, every subset of the fields up to 10 fields, and every single change of nested values within the bounds; nothing is said about other struct shapes.",
        parts=[dict(name="required", src="C16.cpp", cxx="clang++", flags=["-O0", "-DPART=0"]),
               dict(name="optional", src="C16.cpp", cxx="clang++", flags=["-O0", "-DPART=1"]),
               dict(name="mixed", src="C16.cpp", cxx="clang++", flags=["-O0", "-DPART=2"]),
               dict(name="nested", src="C16.cpp", flags=ASAN + ["-DPART=3"])]),
    "C17": dict(level="exploration",
        technique="exhaustive enumeration of texts and values over all sources and sinks, and of operation sequences on the adapter streams against standard streams",
        note="Every token word, every tree within the weight bound and every operation sequence of the stated depth; nothing is said beyond these bounds.",
        parts=[dict(name="main", src="C17.cpp", flags=ASAN)]),
    "C18": dict(level="exploration",
        technique="exhaustive enumeration of failing and succeeding operations under every handler policy, and of operation sequences sharing handlers",
        note="Every token word, edit and spoilt value of the stated bounds under ten handlers by every route; nothing is said beyond these bounds.",
        parts=[dict(name="main", src="C18.cpp", flags=ASAN)]),
    "C19": dict(level="fault_enumeration",
        technique="exhaustive enumeration of fault points: every unit position of every document and dump, times every way the source or sink can fail there",
        note="Every position of every token word, document and dumped tree within the bounds, for stream buffers, adapters, FILEs and wrapped streams; nothing is said about longer documents.",
        parts=[dict(name="main", src="C19.cpp", flags=ASAN)]),
    "C20": dict(level="fault_enumeration",
        technique="exhaustive enumeration of allocation failures: every allocation of every operation within the bounds fails, alone and with all later ones",
        note="Every allocation of every parse, dump, copy, comparison, conversion operation sequence and stop of a tour through the whole library (23 programs that between them run nearly every line of it) within the stated bounds; memory is the global operator new; nothing is said about larger operations or about failures of malloc inside the C library.",
        parts=[dict(name="main", src="C20.cpp", flags=ASAN)]),
    "C21": dict(level="model_checking",
        technique="stateless exploration of real threads under a controlled scheduler, every schedule within the preemption bound, each watched by ThreadSanitizer through a hand-over it cannot see",
        note="21 operations in every ordered pair with at most one preemption (two where the product of points is at most 3000, thorough: all), first uses in fresh processes, and triples; the 23 stops of a tour through the whole library in two threads with one preemption (quick: at every second point) and after every other operation; switching points are allocations, releases and characters moved through the caller's streams; the C++ library's compiled code is not watched for races.",
        parts=[dict(name="main", src="C21.cpp", flags=["-g", "-fsanitize=thread"])]),
    "C22": dict(level="exploration",
        technique="bounded exhaustive enumeration of documents, trees, operation sequences, numbers and failing allocations on the real library instantiated with each replaced type parameter, against the same reference models",
        note="insertion-ordered object, counting allocator (with every single failure), deque/string/boolean of one's own, nine integer and float type pairs, own binders, chosen default encodings, and for each of them a tour through the whole library compared with the plain configuration; combinations of replacements beyond the listed ones are not covered.",
        parts=[dict(name=n, src="C22.cpp", flags=["-DPART=%d" % k] + ASAN, thorough_only=False) for k, n in enumerate(["ordered", "allocator", "types", "numbers", "binders", "encodings"])]),
    "C23": dict(level="exploration",
        technique="bounded exhaustive enumeration of byte strings, token words, corruptions and repetitions on the real parser under sanitizers, from sources that count every unit asked of them, against a reference parser that also says how far it had to read",
        note="Every byte string of up to 3 bytes, every word of 4 of 26 chosen bytes and of 5 of 20 tokens, every single-byte corruption of ten documents, 55 constructs repeated up to 2^17 times; nesting is explored to 10000 (arrays) and 1025 (objects).",
        parts=[dict(name="sanitized", src="C23.cpp", flags=ASAN), dict(name="plain", src="C23.cpp", flags=["-DPLAIN"])]),
    "C24": dict(level="model_checking",
        technique="exhaustive enumeration of stream formatting states, locales and operation sequences on one stream of the real library, each step compared with a twin stream that only the user's own operations touch",
        note="All 8192 flag combinations with 5 precisions, every pair of 7 locales as global and stream locale, every sequence of 4 of 17 output and of 10 input operations, every failed state; widths to 12 and 17 negative or large ones.",
        parts=[dict(name="main", src="C24.cpp", flags=[])]),
}
