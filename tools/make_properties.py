#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks

P = []


def p(id, title, statement, over, text, why, files, mech, note, observe=("public headers include/ada/idna/*.h",)):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": list(observe), "hook_needed": None}, note=note))


p("C01", "Domain to ASCII equals the UTS #46 / WHATWG algorithm",
  "For every byte string, converting a domain to ASCII succeeds exactly when the WHATWG 'domain to ASCII' algorithm (UTS #46 non-transitional, CheckHyphens=false, CheckBidi, CheckJoiners, UseSTD3ASCIIRules=false, VerifyDnsLength=false, plus the documented pass-through of all-ASCII domains without A-labels) succeeds. When it succeeds the output is byte for byte the output of that algorithm for Unicode 17. When it fails the result is reported as failure, never as a partially converted domain.",
  ["inputs"], "every byte string up to the size limit, in particular every combination of mapped, ignored, disallowed, joining, right-to-left, combining and A-label parts across labels",
  "The tests compare a fixed list of web-platform-tests domains; interactions of mapping, normalization, label rules and Punycode at other positions, lengths and orders are never executed.",
  ["src/to_ascii.cpp", "src/mapping.cpp", "src/normalization.cpp", "src/validity.cpp", "src/punycode.cpp"],
  [("label loop with mapping, NFC, A-label verification and encoding", "src/to_ascii.cpp to_ascii"), ("mapping table lookup", "src/mapping.cpp map")],
  "every input of about 6 million in 10 stated spaces is run through the real library and an independent reference implementation; equal on all of them")
p("C02", "All-ASCII domains are lower-cased and otherwise kept byte for byte",
  "A domain of ASCII bytes within the size limit that has no label starting with the A-label prefix is converted by changing A-Z to a-z and nothing else, whatever the bytes, the length or the position. The in-place ASCII lower-casing does the same for any ASCII buffer and touches no byte outside it.",
  ["inputs"], "every ASCII string: every byte value at every position and every length around the word-sized steps, and every pair of neighbours",
  "The tests contain a handful of ASCII domains; the word-at-a-time loops with their tails make behaviour depend on length, alignment and neighbouring bytes.",
  ["src/to_ascii.cpp", "src/mapping.cpp"], [("word-at-a-time lower-casing with a partial tail word", "src/mapping.cpp ascii_map"), ("ASCII fast path", "src/to_ascii.cpp")],
  "exhaustive over all ASCII strings up to length 3, every byte at every position of all lengths to 70 and every length to the limit")
p("C03", "Conversion results obey the output contract in every form of the call",
  "A successful conversion to ASCII yields only ASCII bytes without upper-case letters, and a failed one leaves the caller's output empty. The result never depends on what the output object held before, the input is never modified, and the value-returning and output-parameter forms of each conversion agree on every input. The conversion to Unicode fails only on inputs beyond the size limit, where the value-returning form returns the input unchanged.",
  ["inputs", "histories"], "every input, every previous content of the output object, both call forms of both conversions",
  "The tests mostly use one call form with a fresh output object.",
  ["include/ada/idna/to_ascii.h", "include/ada/idna/to_unicode.h", "src/to_ascii.cpp", "src/to_unicode.cpp"],
  [("clearing of the output on failure", "src/to_ascii.cpp, src/to_unicode.cpp")], "the contract is checked on every input of the shared domain spaces with four kinds of previous output content")
p("C04", "Mapping equals the IDNA mapping table for every code point sequence",
  "Mapping a sequence of 32-bit values fails exactly when it contains a value that is disallowed in IdnaMappingTable 17.0 (or no code point), and otherwise yields the concatenation of the table's mapping of each element. The result does not depend on neighbours, position, length or what the output held before.",
  ["inputs"], "every sequence of 32-bit values: all single values, all pairs and triples of property representatives, all positions",
  "The tests map a few words; the table has 1.1 million entries packed in a two-level structure where an error hits single code points or blocks.",
  ["src/mapping.cpp", "src/mapping_tables.cpp", "src/table_blob.inc"], [("two-level lookup and two-pass copy", "src/mapping.cpp idna_lookup, map")],
  "all 2^32 single values, every code point in 10 contexts, all pairs/triples of representatives are compared with the table data")
p("C05", "Normalization is exactly Unicode NFC, and the NFC test is exact",
  "Normalizing any sequence of code points yields its Unicode 17 NFC form. The predicate that a sequence is already normalized is true exactly when normalizing would leave it unchanged.",
  ["inputs"], "every sequence of code points: all decompositions, all compositions, all orders of combining marks, Hangul in all shapes, any position and length",
  "The tests normalize a few strings; canonical ordering, blocking and Hangul arithmetic interact over sequences of three and more code points.",
  ["src/normalization.cpp", "src/table_blob.inc"], [("decompose, canonical ordering, compose", "src/normalization.cpp normalize"), ("quick check", "src/normalization.cpp is_already_nfc")],
  "all code points in 12 contexts, all pairs of first starter x mark, triples over class representatives and all Hangul shapes against an independent NFC; three repairs were made")
p("C06", "Joiner characters are allowed only where the ContextJ rules allow them",
  "A label containing U+200C or U+200D anywhere is valid only if every one of these characters satisfies the RFC 5892 ContextJ rule (preceded by a virama, or for U+200C standing between joining letters with only transparent characters in between). Labels satisfying all other rules and this one are accepted.",
  ["inputs"], "every label: all words over one representative per joining type, virama and both joiners, and every code point next to each joiner",
  "The tests contain single joiners in a few scripts; the rule quantifies over every joiner and over unbounded runs of transparent characters on both sides.",
  ["src/validity.cpp"], [("joiner context checks and joining-type lists", "src/validity.cpp is_label_valid")],
  "all label words up to length 7 over joining classes and every scalar value around joiners, against the rule; one repair was made")
p("C07", "The RFC 5893 Bidi rule holds in every label of a bidi domain",
  "If any label of a domain contains a right-to-left character (classes R, AL, AN), the conversion succeeds only if every label satisfies all six conditions of the Bidi rule. If no label contains one, the rule rejects nothing.",
  ["inputs"], "every sequence of labels: all words over the bidi classes with the dots in any place, and the class of every code point",
  "The tests contain a few Hebrew and Arabic domains; the rule is about first, last and all pairs of classes within a label and across labels.",
  ["src/validity.cpp", "src/to_ascii.cpp"], [("direction classes", "src/validity.cpp find_direction"), ("label rule", "src/validity.cpp is_label_valid"), ("domain-wide condition", "src/to_ascii.cpp")],
  "all label words up to 7 and domain words up to 6 symbols over all 14 classes and every scalar value in several contexts; one repair was made")
p("C08", "An A-label is accepted only if it is the encoding of a valid label",
  "A label with the A-label prefix is accepted exactly when its remainder is the Punycode encoding of a valid, already mapped and normalized label containing a non-ASCII character. An accepted A-label appears in the output unchanged apart from ASCII case.",
  ["inputs"], "every label starting with the prefix: all short remainders, encodings of every scalar value, all single-character edits of valid encodings",
  "The tests list some dozens of A-labels; acceptance depends on decoding, re-validation and canonical form of arbitrary remainders.",
  ["src/to_ascii.cpp", "src/punycode.cpp", "src/validity.cpp"], [("decode and validate A-labels", "src/to_ascii.cpp"), ("label validity", "src/validity.cpp is_label_valid")],
  "all remainders of up to 4 characters over the alphabet, the encoding of every scalar value and all edits; compared with the reference; one repair was made")
p("C09", "Punycode encoding follows RFC 3492 and is inverted by decoding",
  "Encoding any sequence of code points yields exactly the RFC 3492 string, or is refused because a number does not fit in 31 bits. Decoding the result yields the original sequence.",
  ["inputs"], "every sequence of code points, including large deltas, repeated insertions and every position",
  "The tests encode the RFC samples; bias adaptation and delta arithmetic depend on the whole history of insertions.",
  ["src/punycode.cpp"], [("generalised variable-length integers, bias adaptation, overflow tests", "src/punycode.cpp utf32_to_punycode")],
  "all words up to length 6 over a boundary alphabet, every code point in several contexts, and all delta sizes around the overflow limits")
p("C10", "Punycode decoding is exact, and the verifier agrees with the decoder",
  "Decoding succeeds exactly on the RFC 3492 strings over lower-case digits whose numbers fit, and yields the encoded sequence. The verifier that decodes without producing output accepts exactly the strings the decoder accepts.",
  ["inputs"], "every byte string: all short strings, all cut or extended or edited encodings, digit strings around every overflow",
  "The tests decode the RFC samples and a few bad strings; malformed input has no end of shapes and the two decoders are separate code.",
  ["src/punycode.cpp"], [("decoder with overflow tests", "src/punycode.cpp punycode_to_utf32"), ("verifier", "src/punycode.cpp verify_punycode")],
  "all payloads of up to 4 characters, all long digit words and every edit of valid payloads against an unbounded-integer reference; one repair was made")
p("C11", "Domain to Unicode decodes exactly the valid A-labels and keeps the rest",
  "Converting to Unicode replaces each label that is a valid lower-case A-label by the UTF-8 form of its decoding and leaves every other label byte for byte as it was. Within the size limit it never fails, for any bytes.",
  ["inputs"], "every byte string: all prefix variants, all short A-label remainders, all label orders, invalid UTF-8",
  "The tests convert some tens of valid domains; invalid A-labels, mixed labels and non-UTF-8 bytes are hardly touched.",
  ["src/to_unicode.cpp", "src/punycode.cpp", "src/unicode_transcoding.cpp"], [("label loop, decode, validate, transcode", "src/to_unicode.cpp to_unicode")],
  "all remainders up to 4 characters, words of prefixes and labels and the shared domain spaces against the reference")
p("C12", "Conversions are idempotent and round trips return the same domain",
  "Converting the result of a successful conversion to ASCII again yields the same result. Converting it to Unicode and back to ASCII yields it again, and converting to Unicode twice is the same as once. Whenever an A-label is converted to Unicode, the decoded label converts back to exactly that A-label.",
  ["inputs"], "every domain that converts successfully",
  "The tests never apply conversions to each other's results over a space of inputs.",
  ["src/to_ascii.cpp", "src/to_unicode.cpp"], [("both conversions use the same label validity and Punycode", "src/to_ascii.cpp, src/to_unicode.cpp")],
  "checked for every input of the shared domain spaces and for spaces of valid and invalid A-labels, without using the reference model")
p("C13", "UTF-8 decoding is strict, exact and stays in the announced buffer",
  "Decoding a byte string to UTF-32 succeeds exactly when it is well-formed UTF-8 (no overlong forms, surrogates or values above U+10FFFF), then yields its code points, and writes no more than the number of elements the length function announced. A domain with malformed UTF-8 is refused.",
  ["inputs"], "every byte string: all strings up to 3 bytes, every sequence at every offset relative to the 16-byte steps",
  "The tests decode a few strings; the fast ASCII path makes the result depend on the offset and on the surrounding bytes.",
  ["src/unicode_transcoding.cpp"], [("16-byte ASCII fast path and strict decoder", "src/unicode_transcoding.cpp utf8_to_utf32"), ("length by leading bytes", "src/unicode_transcoding.cpp utf32_length_from_utf8")],
  "all strings up to 3 bytes (4 in the thorough tier over boundary bytes) at all offsets, with guard values around the buffer")
p("C14", "UTF-32 encoding is exact, refuses non-scalars, and its length is announced",
  "Encoding UTF-32 to UTF-8 yields the UTF-8 form if all elements are Unicode scalar values and reports failure otherwise. The announced length equals the length written.",
  ["inputs"], "every sequence of 32-bit values, every position and both alignments",
  "The tests use a few strings; the two-at-a-time ASCII path depends on parity and neighbours.",
  ["src/unicode_transcoding.cpp"], [("pairwise ASCII fast path and encoder", "src/unicode_transcoding.cpp utf32_to_utf8"), ("length function", "src/unicode_transcoding.cpp utf8_length_from_utf32")],
  "all 2^32 values alone and beside an ASCII character, words over boundary values at every position")
p("C15", "Over-long input is refused without processing it; size alone never refuses less",
  "A domain longer than the documented limit of 16384 bytes is refused with an empty result, in bounded time and memory, however long it is. At the limit and below, size alone never causes a refusal.",
  ["inputs"], "every input size up to several gigabytes with several contents",
  "The tests try a size or two.",
  ["include/ada/idna/limits.h", "src/to_ascii.cpp", "src/to_unicode.cpp"], [("size tests before any work", "src/to_ascii.cpp, src/to_unicode.cpp, src/mapping.cpp")],
  "every size within 200 of the limit and multiples, and sizes around 2^16 to 2^33 in a sparse mapping, with memory and time bounds")
p("C16", "Identifier code points are exactly ID_Start and ID_Continue",
  "A code point is accepted as first (or later) character of a name exactly when it has the Unicode 17 property ID_Start (or ID_Continue) or is one ECMAScript adds ('$' and '_' first; '$', U+200C and U+200D later). Values that are no Unicode scalar value are refused.",
  ["inputs"], "all 2^32 values in both positions",
  "The tests try a few characters out of 2.2 million answers.",
  ["src/identifier.cpp", "src/table_blob.inc"], [("range tables with binary search and ASCII fast paths", "src/identifier.cpp valid_name_code_point")],
  "exhaustive: every 32-bit value in both positions")
p("C17", "Forbidden domain code points are found exactly, at any position",
  "The forbidden-code-point test is true exactly when the string contains a WHATWG forbidden domain code point (a control, space, DEL or one of # % / : < > ? @ [ \\ ] ^ |) or a non-ASCII byte, at any position and any length. Converting an all-ASCII domain neither adds nor removes such characters.",
  ["inputs"], "every byte string: all strings up to 3 bytes, every byte at every position",
  "The tests have a few strings; the loop reads several bytes per step.",
  ["src/to_ascii.cpp"], [("256-entry table and unrolled loop", "src/to_ascii.cpp contains_forbidden_domain_code_point")],
  "all byte strings up to 3 bytes and every byte at every position of strings up to 70 bytes")
p("C18", "First use from any number of threads is race-free and correct",
  "When threads make their first calls at the same time, in any interleaving, each call returns the same result as in a single-threaded program, with no data race and no deadlock. If the shared tables cannot be set up, every thread's call fails cleanly.",
  ["schedules"], "all interleavings of the synchronisation operations of two and three threads over all entry points, with and without allocation failure",
  "The tests are single-threaded; a wrong memory order or a publication before completion shows only in rare interleavings.",
  ["src/table_store.hpp", "src/raw_inflate.hpp"], [("compare-and-swap state machine with acquire/release publication and spin-wait", "src/table_store.hpp ensure_tables"), ("fixed Huffman tables built once", "src/raw_inflate.hpp")],
  "stateless exploration with dynamic partial-order reduction of the real compiled library under a controlled scheduler; happens-before race detection on every memory access; no preemption bound")
p("C19", "Damaged tables make every operation fail closed, never answer wrongly",
  "If the embedded table data is damaged in any way before first use, or memory for it is unavailable, operations that need it report failure and keep doing so. They never return results that differ from those of the intact library, and never crash.",
  ["fault_sequences"], "every single-bit error, sector loss, exchange and torn write of the table data, and every well-formed stream with a changed payload",
  "The tests damage a few bytes of separate streams; not the library's own tables.",
  ["src/table_store.hpp", "src/raw_inflate.hpp"], [("size and CRC check before publication, failed state", "src/table_store.hpp ensure_tables")],
  "each damage is applied to the real library in a fresh process and all entry points are probed")
p("C20", "Raw DEFLATE expansion is exact, bounded and memory-safe on any bytes",
  "Expanding a complete raw DEFLATE stream into a large enough buffer yields exactly its content and length. On truncated, malformed or over-long streams it reports failure, and it never reads outside the input or writes outside the output.",
  ["inputs"], "every byte string up to a length, every stream of a grammar of stored, fixed and dynamic blocks with boundary lengths, distances and code shapes, every truncation and buffer size",
  "The tests expand a few streams made by zlib, which never produces the unusual code shapes and references.",
  ["src/raw_inflate.hpp"], [("bit reader, Huffman decoding, block loop", "src/raw_inflate.hpp inflate_raw")],
  "all short strings and an exhaustive grammar of streams against zlib under sanitizers; two repairs were made")
p("C21", "Results do not depend on earlier calls or on when the first call happens",
  "Every call returns the same result whatever calls, successful or not, came before it, and whichever entry point is used first, including from initialisers that run before the library's own, from destructors and exit handlers at the end of the process or of a thread, and in a forked child. Inputs and constant objects are never modified.",
  ["histories"], "all sequences of calls up to a depth over all entry points and kinds of input, starting from a fresh process, and all static-initialisation orders",
  "The tests run calls in one fixed order in one process in which the tables are already loaded.",
  ["src/table_store.hpp", "src/to_ascii.cpp", "src/to_unicode.cpp", "src/raw_inflate.hpp"], [("lazy table loading in every entry point", "src/table_store.hpp ensure_tables"), ("reused buffers inside a call", "src/to_ascii.cpp, src/to_unicode.cpp")],
  "every call sequence up to depth 3 (4 in the thorough tier) in a fresh process, plus builds that call before and after the library's initialisation, at exit and in children")
p("C22", "No input causes memory errors or undefined behaviour in any entry point",
  "No entry point reads or writes outside the given buffers, uses invalid memory, overflows signed arithmetic or otherwise executes undefined behaviour, for any bytes and any sizes the documentation allows. It terminates on all of them.",
  ["inputs"], "every input of the spaces, in exactly sized buffers at all alignments",
  "The tests run without exact buffers over few inputs; memory errors at buffer ends need particular lengths and bytes.",
  ["src/unicode_transcoding.cpp", "src/punycode.cpp", "src/mapping.cpp", "src/normalization.cpp", "src/to_ascii.cpp", "src/to_unicode.cpp", "src/raw_inflate.hpp", "src/validity.cpp"],
  [("length checks before multi-byte reads", "src/unicode_transcoding.cpp, src/to_ascii.cpp"), ("index clamping", "src/table_store.hpp *_row")],
  "exhaustive spaces executed under address and undefined-behaviour sanitizers with exactly sized heap buffers")
p("C23", "Running out of memory is reported and leaves the library usable",
  "If any allocation fails during a call, the call reports it by the ordinary failure result or by the standard exception, without leaking memory, terminating the program or giving a wrong answer. Later calls with memory available give the right results (or keep failing closed if the shared tables could not be set up).",
  ["fault_sequences"], "every single allocation and every pair and tail of allocations of every operation, with tables loaded or not, and pairs of operations",
  "No test makes an allocation fail.",
  ["src/table_store.hpp", "src/to_ascii.cpp", "src/normalization.cpp"], [("nothrow allocation of the tables, noexcept initialisation", "src/table_store.hpp ensure_tables"), ("strings with value semantics", "src/*.cpp")],
  "every allocation of every probe operation fails once, in pairs and for good, each in a fresh process, with leak accounting")
p("C24", "Every supported build of the library behaves the same",
  "The separate sources, the single-file distribution, any supported compiler, optimisation level, instruction set, char signedness and the optional use of the external transcoding library give the same results for every input. A program that sees only the public headers builds and runs with each of them.",
  ["configurations", "inputs"], "15 build configurations x every input of the spaces",
  "The tests run one build; configuration-only code paths are not even compiled.",
  ["src/idna.cpp", "src/to_ascii.cpp", "src/to_unicode.cpp", "singleheader/amalgamate.py", "src/unicode_transcoding.cpp"],
  [("conditional compilation", "src/*.cpp #if"), ("amalgamation script", "singleheader/amalgamate.py")],
  "all configurations are built from the tree and compared on every input of the shared spaces")
p("C25", "Spellings of one domain convert alike, and different domains stay different",
  "Domains that differ only by case, by dot variants, by canonically equivalent or compatibility-mapped spelling or by ignored characters have the same conversion result. Domains with different mapped and normalized forms never have the same result.",
  ["inputs"], "all pairs of spellings over words of labels, and all pairs of accepted domains of the spaces",
  "The tests compare single inputs with single outputs, never two inputs with each other.",
  ["src/to_ascii.cpp", "src/mapping.cpp", "src/normalization.cpp"], [("mapping before normalization before encoding", "src/to_ascii.cpp")],
  "every variant of every word is compared with its base spelling, and outputs are hashed to detect two domains with one result")
p("C26", "Hosts of either byte order give the same results",
  "On a host with the opposite byte order all operations give the same results for every input, including everything derived from the embedded tables.",
  ["configurations", "inputs"], "a big-endian memory model x every input of the spaces, with compiler byte-swap intrinsics and with the portable code",
  "The tests run on a little-endian machine, where the conversion code is not executed at all.",
  ["src/table_store.hpp", "src/unicode_transcoding.cpp", "src/mapping.cpp"], [("conversion of every multi-byte table section after expansion", "src/table_store.hpp convert_table_blob_to_host_endian")],
  "the library's unoptimised compiler output is translated so that all integer memory accesses are big-endian, and compared with the native build on every input")
p("C27", "No accepted label starts with a combining mark",
  "A domain is refused if, after mapping and normalization, any of its labels begins with a combining mark (general category M), whether written directly or as an A-label, and wherever in the domain the label starts. Marks in other positions are not refused for this reason.",
  ["inputs"], "every code point as the first of a label in every label position, directly, through mapping and through A-labels",
  "The tests have two or three marks of 2500.",
  ["src/validity.cpp", "src/table_blob.inc"], [("combining range search", "src/validity.cpp is_label_valid")],
  "every scalar value is placed first in a label in all contexts and compared with the category data")
p("C28", "The table generators write exactly what the Unicode data files say",
  "Regenerating the tables from a data file yields tables whose lookups give, for every code point, the status and mapping (or identifier property) the file states, or the generator refuses with the tables unchanged. Repacking and partial regeneration leave all other table data unchanged, in any order of runs.",
  ["inputs", "histories"], "every data file of a bounded grammar, files at the limits of the format, and every sequence of generator runs up to a depth",
  "The generators have no tests; they are run only when Unicode changes, on one file.",
  ["scripts/idna_table.py", "scripts/derived_table.py", "scripts/pack_tables.py"],
  [("parsing, block sharing, packing with CRC", "scripts/idna_table.py, scripts/pack_tables.py"), ("layout assertions", "src/table_store.hpp static_assert")],
  "the real scripts run on every file of the grammar in a scratch tree; tables decoded and compared, the library rebuilt and asked about every code point; two repairs were made", observe=("src/table_blob.inc", "src/mapping_tables.cpp", "script output"))

p("C29", "Work and memory of every call are bounded by the size of its input",
  "The work of a call is linear in the number of labels of a domain and at most quadratic in the length of a label or, for normalization and label validation, in the length of a run of combining marks; mapping, transcoding and scanning are linear. The memory it holds is at most proportional to its input, nothing is kept when it returns beyond its result and the tables, and inputs refused for their size cost nothing however long they are. No input, whatever it repeats or combines, and no number of calls exceeds this.",
  ["inputs", "histories"], "every input of families of repeated words at several sizes, runs of distinct code points and of marks in all orders, refused sizes, and long histories of different inputs",
  "The tests check results on short inputs; an input that makes a hidden rescan, copy, cache or retry grow out of proportion gives the same result and no test measures its cost.",
  ["src/to_ascii.cpp", "src/to_unicode.cpp", "src/normalization.cpp", "src/validity.cpp", "src/punycode.cpp", "src/mapping.cpp"],
  [("label loop over reused buffers", "src/to_ascii.cpp to_ascii, src/to_unicode.cpp to_unicode"), ("reordering and composition in one pass", "src/normalization.cpp sort_marks, compose"), ("size limit before any processing", "src/to_ascii.cpp, src/to_unicode.cpp")],
  "work is counted in executed edges of the real code plus bytes moved and allocated, memory by a counting allocator, on about 4 million calls; bounds are about five times the present cost, and twice as many labels may cost at most 2.6 times as much")

p("C30", "Sizes beyond 2^31 and 2^32 give the same answers as small ones",
  "Every entry point without a documented size limit (scanning, lower-casing, length computation, transcoding, mapping, the NFC test, label validation, Punycode) gives for buffers of more than 2^31 and more than 2^32 bytes or elements the answer its rule gives for any size: no counter wraps, nothing is truncated, no part of the input is skipped and nothing overflows. Punycode operations refuse what needs numbers of more than 31 bits.",
  ["inputs"], "every size around 2^31 and 2^32 x contents x position of the element that decides, for every entry point without a size limit",
  "No test has an input of more than a few thousand elements; 32-bit counters work on all of them.",
  ["src/unicode_transcoding.cpp", "src/mapping.cpp", "src/punycode.cpp", "src/validity.cpp", "src/normalization.cpp", "src/to_ascii.cpp"],
  [("counters and indices of every loop over the input", "src/unicode_transcoding.cpp, src/mapping.cpp, src/punycode.cpp, src/validity.cpp")],
  "the real code runs on sparse buffers of up to 2^32 elements with closed-form expected results and overflow traps; two repairs were made")

p("C31", "Results do not depend on the process environment, which stays as it was",
  "What an operation returns depends on its arguments alone: it is the same under every C, per-thread and C++ locale, every rounding and flush-to-zero mode, whatever fresh or freed memory and the stack contain, on a thread with a stack of 128 KiB and for inputs of up to a megabyte there, with any environment variables and clocks, wherever the arguments lie and whatever lies next to them, with standard descriptors closed or full and none to be had, in any working directory, while signals arrive, while an exception is under way, inside a signal handler, and whether the tables were initialised before or in that environment. The library leaves locale, modes, signal handlers and mask, environment, directory, descriptors, files, threads, children, standard streams and the standard random generator as they were and makes no system call that reaches outside the process.",
  ["configurations", "inputs"], "every combination of the stated settings of a process x every operation on 2151 inputs, each combination in a process of its own",
  "The tests run in the C locale with default modes, the main thread's stack, clean memory and usable descriptors; a call of tolower, a stack buffer of the size of the input or a read of uninitialised memory passes them all.",
  ["src/mapping.cpp", "src/to_ascii.cpp", "src/to_unicode.cpp", "src/punycode.cpp", "src/unicode_transcoding.cpp", "src/normalization.cpp", "src/table_store.hpp"],
  [("case folding and digit tests by arithmetic, not <cctype>", "src/mapping.cpp ascii_map, src/punycode.cpp"), ("buffers on the heap, recursion-free loops", "src/to_ascii.cpp, src/normalization.cpp, src/raw_inflate.hpp"), ("tables compiled in, no file or variable consulted", "src/table_store.hpp")],
  "about 1300 environments, 80 million calls; compiled Turkish, German and Japanese locales; the process state is compared before and after")

with open(V + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({k: v for k, v in x.items() if k != "note"}) + "\n")
man = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": [],
       "notes": "No hooks: the checks build /repo's working tree as it is. Repairs of genuine defects are the 'fix:' commits in /repo listed in known_findings.txt."}
for x in P:
    c = checks.CHECKS.get(x["id"])
    if not c:
        print("no check for", x["id"])
        continue
    man["checks"].append({"property": x["id"], "quick_cmd": "python3 run_check.py " + x["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py " + x["id"],
                          "technique": c["technique"], "level": c["level"],
                          "level_note": x["note"][0].upper() + x["note"][1:] + ". Assumes: " + "; ".join(c["assumptions"]) + "."})
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
