def anchors(files, mech, state=(), observe=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "observe_at": list(observe), "hook_needed": None}
def prop(id, title, statement, over, text, why, technique, note, **a):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, technique=technique, note=note, anchors=a["anchors"])
P = [
prop("C01", "A context answers as a function of the ABIs loaded into it",
 "Every call on a context gives the answer determined by its arguments and by the ABIs most recently loaded successfully into that context: no other history (earlier calls, failed calls, other contexts, destroyed contexts) changes a success, a result or an error text. Results already handed out stay as they were: the generated binary until the next conversion to binary in that context, a returned string until the next call on that context, an action's or table's type name until its contract is replaced or the context is destroyed. Conversions agree with the published EOSIO wire and JSON formats of the types in the loaded ABI.",
 ["histories", "inputs", "fault_sequences"], "All sequences of calls over any number of contexts, with any arguments, including null and damaged ones.",
 "The tests use one context and a fixed order of calls on a handful of literals, and never look at state after a failure; none of them builds here.",
 "seeded call histories with rejected loads, damaged data, null arguments and context restarts, refinement against an executable model and against history-free twins",
 "Sampled histories; the model covers all built-in types and leaves a few documented quirks unjudged.",
 anchors=anchors(["src/abieos.cpp", "src/abi.cpp", "src/abieos.hpp", "include/eosio/abieos.h"], [("handle_exceptions and per-call result members", "src/abieos.cpp"), ("contracts map", "src/abieos.cpp abieos_set_abi*")],
   [("contracts", "ABIs by contract name", "src/abieos.cpp abieos_context_s"), ("result_bin/result_str/last_error", "results handed out", "src/abieos.cpp abieos_context_s")], ["abieos_* functions"])),
prop("C02", "Memory running out fails the call, nothing else",
 "When an allocation fails inside any library call, the call reports failure (C interface: false or null plus an error text; C++: an exception) or completes correctly; the process does not crash or terminate, no memory is lost, contexts and ABIs keep answering for what was loaded before, and the same call made again with memory available succeeds as if the failure had not happened.",
 ["fault_sequences", "inputs", "crash_points"], "All library calls, all points at which an allocation can fail, single, repeated and permanent failures.",
 "No test makes an allocation fail; each call has hundreds of allocation sites and the damage shows only in a later call.",
 "allocation failure injected at swept points of every call, then refinement against the model, leak accounting and retry",
 "Failure points are swept from seeded offsets, not all of them in one run; stack exhaustion is covered by C14.",
 anchors=anchors(["src/abieos.cpp", "src/abi.cpp", "include/eosio/abi.hpp"], [("handle_exceptions/set_error", "src/abieos.cpp"), ("std::vector growth in readers and writers", "include/eosio/stream.hpp, src/abieos.hpp")],
   [("last_error_buffer", "text of the last error", "src/abieos.cpp abieos_context_s"), ("contracts", "must not hold half an ABI", "src/abieos.cpp abieos_context_s")], ["abieos_* functions", "eosio::abi_type conversions"])),
prop("C03", "Loading an ABI replaces the contract's ABI completely or not at all, whatever format it came in",
 "Loading a complete and valid ABI for a contract makes exactly that ABI answer for it, also when another one was loaded before; a torn, damaged or invalid ABI is refused with a reason and the previous one keeps answering. JSON, binary and hex forms of one definition behave the same in every conversion and lookup, an ABI survives decoding, encoding and exporting, and definitions with unknown, duplicate, circular or wrongly nested types are refused.",
 ["histories", "inputs", "crash_points"], "All ABI definitions, in every format, torn at every length or damaged anywhere, in any order of loading.",
 "Tests load a few fixed ABIs once per contract in one format each and never compare formats or reload.",
 "distribution of contract versions over three replicas in three formats with torn and damaged deliveries, refinement and replica agreement",
 "Whether a damaged delivery still is a valid ABI is decided by the model; a few unusual definitions are left unjudged.",
 anchors=anchors(["src/abi.cpp", "src/abieos.cpp", "include/eosio/abi.hpp"], [("convert(abi_def, abi)", "src/abi.cpp"), ("abi_type resolution", "src/abi.cpp fill/get_type")],
   [("abi::abi_types", "resolved types", "include/eosio/abi.hpp"), ("contracts", "ABI by contract", "src/abieos.cpp")], ["abieos_set_abi, abieos_set_abi_bin, abieos_set_abi_hex"])),
prop("C04", "Every failure is reported with its own reason and leaves nothing else behind",
 "A call that fails returns its documented sentinel (0, false or null) and abieos_get_error then gives a non-empty text about that failure, not an earlier one; the text stays until the next failing call and reading it changes nothing. A failure changes no loaded ABI, no type name handed out and no other context. Bytes or text left over after a value, a missing contract, type, action or table, null arguments and null contexts are failures, never successes.",
 ["histories", "inputs"], "All interleavings of succeeding and failing calls, all kinds of bad argument.",
 "Tests look at error texts of single calls in one order; stale or missing reasons show only in sequences.",
 "seeded sequences of good and bad calls over contexts with error text, sentinel and twin checks",
 "The wording of errors is compared with that of a history-free context, and with the documented wording where there is one.",
 anchors=anchors(["src/abieos.cpp", "include/eosio/abieos.h"], [("handle_exceptions, set_error", "src/abieos.cpp")],
   [("last_error", "reason of the last failure", "src/abieos.cpp abieos_context_s")], ["abieos_get_error", "return values of abieos_* functions"])),
prop("C05", "Threads sharing loaded ABIs, or using contexts of their own, never influence each other",
 "Conversions run by several threads at once on one loaded ABI's types, and any calls made by several threads on contexts of their own, give exactly the answers they give alone, in every interleaving; no unsynchronised memory is written by one thread and touched by another.",
 ["schedules", "inputs"], "All interleavings of any number of threads and calls.",
 "All tests are single threaded.",
 "real caller threads under a seeded scheduler with preemption at basic blocks and at conflicting memory accesses, results compared with the serial run",
 "One thread runs at a time: reorderings by weak memory are not simulated, but any cell two threads share with a write is reported to the scheduler and explored.",
 anchors=anchors(["src/abi.cpp", "src/abieos.hpp", "src/crypto.cpp", "include/eosio/fpconv.c"], [("immutable abi_type and serializers", "include/eosio/abi.hpp"), ("static tables", "src/abi.cpp, include/eosio/from_json.hpp")],
   [("static tables and function-local statics", "read only after initialisation", "src/abi.cpp")], ["abi_type::json_to_bin, bin_to_json", "abieos_* functions on separate contexts"])),
prop("C06", "A caller can watch and stop a conversion at every step",
 "A callback passed to a conversion is called often enough that the work between two calls is bounded by the longest single piece of the data, whatever its shape; it does not change the result. What it throws reaches the caller unchanged, at once and without loss of memory, and the types convert again afterwards as before; a deadline checked in it is therefore met. Conversions started inside the callback are independent of the one being watched.",
 ["crash_points", "inputs", "histories"], "All conversions in the three directions, all steps at which the callback throws, all deadlines.",
 "Tests pass no callback, or an empty one.",
 "cancellation at swept steps, deadlines on a simulated clock with stalls, re-entrant calls and allocation failure inside watched conversions",
 "Work is measured in executed basic blocks; the bound per step is generous and quadratic in the longest string (base 58).",
 anchors=anchors(["src/abieos.hpp", "src/abi.cpp", "include/eosio/abi.hpp"], [("recurse callback of json_to_bin, json_to_bin_reorderable, bin_to_json", "src/abieos.hpp, src/abi.cpp")],
   [("conversion stacks", "state between steps", "src/abieos.hpp jvalue_to_bin_stack_entry, bin_to_json_state")], ["abi_type::json_to_bin(std::string_view, f)", "abi_type::bin_to_json(input_stream&, f)"])),
prop("C07", "Decoding hostile bytes yields a value of the type or an error, nothing else",
 "Decoding any bytes as any type, native C++ type or type of a loaded ABI, either yields the value the EOSIO wire format defines for a beginning of those bytes (whatever the object filled in held before) and takes exactly that many of them, or fails with a reason; it never reads or writes outside of the given bytes, never produces an object that is not a value of its type, and loses no memory. A record cut off anywhere is refused, and what follows a value is neither read nor changed. A stream holding a record followed by others is read record by record, whatever was damaged after it.",
 ["inputs", "crash_points"], "All types the library decodes, all byte strings, all points at which a transfer is cut off, allocations failing meanwhile.",
 "Tests decode what they encoded just before, complete and undamaged.",
 "byte streams cut at swept points, with damage aimed at lengths, counts, indices and flags, under failing allocations, refinement against an executable model of the wire format, with AddressSanitizer and guard bytes",
 "Cut points are swept; damage is sampled; about 130 native types stand for all instantiations.",
 anchors=anchors(["include/eosio/from_bin.hpp", "include/eosio/stream.hpp", "include/eosio/varint.hpp", "src/abi.cpp"], [("from_bin overloads", "include/eosio/from_bin.hpp"), ("input_stream bounds checks", "include/eosio/stream.hpp"), ("bin_to_json", "src/abi.cpp, src/abieos.hpp")],
   [("input_stream::pos/end", "what was read so far", "include/eosio/stream.hpp")], ["eosio::from_bin", "eosio::convert_from_bin", "abi_type::bin_to_json"])),
prop("C08", "Values survive any number of conversions between binary and JSON unchanged",
 "A value in its canonical binary form, converted to JSON and back any number of times, is the same bytes every time, whichever program does it, with whichever interface (C, C++, hex, strict or reordering), and the JSON made from it is always the same text. White space and escapes in the JSON make no difference. So every program that relays values ends up handing on exactly what the source sent, through restarts and failures in between.",
 ["inputs", "histories", "fault_sequences"], "All values of all types of all ABIs, all chains of conversions, all interruptions.",
 "Tests round-trip a few literals per built-in type.",
 "relays with contexts of their own over a network with loss, duplication, reordering, corruption, partitions, crashes, disk faults and failing allocations; each hop compared with the source's bytes and the first relay's text",
 "Canonical means: what conversion from JSON produces; NaN payloads and times below a millisecond have no JSON form and are left out, as are structs with two fields of one name.",
 anchors=anchors(["src/abi.cpp", "src/abieos.hpp", "include/eosio/to_json.hpp", "include/eosio/from_json.hpp", "include/eosio/fpconv.c"], [("bin_to_json", "src/abieos.hpp"), ("json_to_bin", "src/abieos.hpp"), ("to_json/from_json of built-in types", "include/eosio/*.hpp, src/abieos.hpp")],
   [("size_insertions", "array sizes filled in afterwards", "src/abieos.hpp json_to_bin_state")], ["abieos_bin_to_json, abieos_json_to_bin, abieos_json_to_bin_reorderable", "abi_type conversions"])),
prop("C09", "Reordering conversion depends only on the last value of each known field",
 "With reordering, the fields of every object may come in any order, with unknown fields among them and earlier values of a field before its last one: the result is the binary form of the same object with its fields in the order of the type, whenever that converts, and a failure as long as a required field is missing. Replicas that receive the same fields in different orders therefore agree.",
 ["inputs", "schedules", "histories"], "All orders, duplicates and unknown fields at all levels of all objects.",
 "Tests shuffle two or three fields of one object once.",
 "fields delivered one by one in network order with duplicates, stale versions and unknown names to several replicas which crash and recover; every prefix against the model, against the ordered document and against the other replicas",
 "Structs with two fields of one name are left out here.",
 anchors=anchors(["src/abieos.hpp", "src/abi.cpp"], [("json_to_jvalue", "src/abieos.hpp"), ("json_to_bin over jvalue", "src/abieos.hpp")],
   [("jobject", "fields by name", "src/abieos.hpp")], ["abieos_json_to_bin_reorderable", "abi_type::json_to_bin_reorderable"])),
prop("C10", "Data written under an older version of a type stays readable after every upgrade",
 "When a contract's ABI grows by binary extension fields at the end of a struct, by alternatives at the end of a variant and by new types, everything written before is still read as the same JSON, converts back to the same bytes, and documents made for the old version give the same bytes; a program that has not been upgraded reads the beginning it knows or refuses, never something else. Native structs behave the same: members that might not exist are read if they are there, and values converted between versions keep all fields the versions share and give the others their defaults. So nodes can be upgraded one by one, in any order, also back, without any of them misreading what is stored or sent.",
 ["histories", "inputs", "schedules"], "All sequences of such versions, all values written under any of them, all orders of upgrading, restarting and reading.",
 "Tests have one fixed struct with one extension and read it with the version that wrote it.",
 "rolling upgrades and rollbacks of nodes over a faulty network, everything stored read again after each step, against the writer's JSON and bytes and the model",
 "Versions are sampled; native structs are four hand-written versions of orders and accounts.",
 anchors=anchors(["src/abieos.hpp", "src/abi.cpp", "include/eosio/abi.hpp", "include/eosio/convert.hpp", "include/eosio/from_bin.hpp"], [("extension fields", "src/abieos.hpp pseudo_object, pseudo_extension"), ("might_not_exist", "include/eosio/abi.hpp"), ("convert, serialize_as", "include/eosio/convert.hpp, include/eosio/from_bin.hpp")],
   [("contracts", "replaced by an upgrade", "src/abieos.cpp")], ["abieos_* functions", "eosio::convert", "from_bin of might_not_exist"])),
prop("C11", "An encoder writes exactly its value, into any sink, or fails cleanly",
 "Encoding a value as binary, JSON, formatted JSON or key gives the same bytes whichever sink receives them (string, vector, fixed buffer, size counter, a caller's own), and the size counted beforehand is their number. A sink that is full or refuses bytes makes the encoding fail with that reason; what it holds then is a beginning of the encoding, and nothing outside of the buffer is touched. The value can be encoded again afterwards, and records written one behind another are read back as they were, up to a cut.",
 ["inputs", "fault_sequences", "crash_points"], "All values of all encodable types, all sinks, all sizes of a sink, all writes at which it may refuse, all allocation failures.",
 "Tests convert into strings and vectors with unlimited room.",
 "sinks that fill up or refuse at swept positions, failing allocations, logs in bounded segments torn by crashes, against the model's encoding",
 "Sizes are swept from seeded offsets for large values.",
 anchors=anchors(["include/eosio/stream.hpp", "include/eosio/to_bin.hpp", "include/eosio/to_json.hpp", "include/eosio/to_key.hpp", "include/eosio/fpconv.c"], [("fixed_buf_stream, size_stream, vector_stream, string_stream", "include/eosio/stream.hpp"), ("convert_to_bin, convert_to_json, format_json, convert_to_key", "include/eosio/*.hpp")],
   [("fixed_buf_stream::pos/end", "room left", "include/eosio/stream.hpp")], ["eosio::convert_to_bin, to_bin, to_json, format_json, to_key"])),
prop("C12", "A state history client ends up with exactly the chain its server sent",
 "Every request and result of the state history protocol is written and read the same by the native types and by the protocol's ABI, byte for byte as the protocol defines it; the traces, deltas and rows inside can be unpacked whole, one by one, in part or not at all without changing anything else, and a message cut short is refused. So a client that follows a chain through forks, broken connections and restarts ends up with exactly the blocks of the server. An ABI made from native types, exported and loaded elsewhere, converts those types' values the same way.",
 ["histories", "fault_sequences", "inputs"], "All chains, forks, message contents, client settings and interruptions; both kinds of implementation on either end.",
 "The tests have no state history messages other than a few literals, and none travels anywhere.",
 "simulated server and clients over a network with loss, duplication, reordering, corruption, partitions, crashes, disk faults and chain reorganisations; every message against the protocol's layout, final logs against the chain",
 "Contents are sampled from all row types and from trace and block versions; the framing of the transport is the simulator's.",
 anchors=anchors(["include/eosio/ship_protocol.hpp", "include/eosio/opaque.hpp", "include/eosio/abi.hpp"], [("opaque<T>", "include/eosio/opaque.hpp"), ("reflected protocol types", "include/eosio/ship_protocol.hpp"), ("abi::add_type", "include/eosio/abi.hpp")],
   [("input_stream members", "parts of a message not unpacked yet", "include/eosio/ship_protocol.hpp")], ["from_bin/to_bin of request and result", "opaque::unpack, unpack_next", "abi::add_type"])),
prop("C13", "Memory taken by a request is bounded by the size of the request",
 "Whatever bytes, text or definition somebody sends, converting, decoding or loading it needs memory in proportion to its size, however large the counts and lengths it claims; a program with that much memory to spare is never brought down by it. Nothing is kept from a request: a context that answers the same requests over and over, successful or not, with names it has not seen before, needs no more memory than after the first time.",
 ["inputs", "histories", "fault_sequences"], "All requests to the C and C++ interfaces and to native decoding, all sequences of them.",
 "Tests never measure memory; a claim of four billion elements in five bytes is not among their literals.",
 "a gateway under hostile traffic with an allocation budget per request, repeated histories with memory accounting, failing allocations, crashes and network faults",
 "Proportion means 256 kB plus 256 bytes per byte sent (and per inherited field of a definition); types without content are listed findings and not generated.",
 anchors=anchors(["include/eosio/from_bin.hpp", "src/abieos.hpp", "src/abi.cpp", "src/abieos.cpp"], [("check_available before allocation", "include/eosio/from_bin.hpp"), ("string and name results in members", "src/abieos.cpp"), ("max_stack_size", "src/abieos.hpp")],
   [("abi::abi_types", "grows with derived types only", "include/eosio/abi.hpp"), ("abieos_context_s members", "last results", "src/abieos.cpp")], ["operator new during abieos_* calls and from_bin"])),
prop("C14", "Every request is answered in time and stack bounded by its size, whatever it nests",
 "Converting, decoding or loading anything finishes after a number of steps in proportion to its size and uses a bounded amount of stack, however deep, circular, long or repetitive it is; nesting beyond the limits is refused with a reason. So a service keeps answering everybody: once faults stop every request gets its answer, and always the same one.",
 ["inputs", "histories", "schedules"], "All documents, byte strings, type names and ABI definitions; all orders of arrival, faults and restarts.",
 "Tests use small regular inputs; depth, cycles and chains in definitions are not among them.",
 "a gateway under hostile traffic on a simulated clock charged by basic blocks executed, step and stack limits per request, progress after the last fault, with network faults, crashes and failing allocations",
 "Proportion means 150000 steps plus 1200 per byte sent (for definitions 1000 per field including inherited ones on top, for text the square of its longest number or key); nested native transaction traces are a listed finding and not generated.",
 anchors=anchors(["src/abieos.hpp", "src/abi.cpp", "include/eosio/from_json.hpp"], [("max_stack_size, recursion limits", "src/abieos.hpp, src/abi.cpp"), ("skipping unknown fields", "include/eosio/from_json.hpp")],
   [("conversion stacks", "depth so far", "src/abieos.hpp")], ["basic blocks and stack used by abieos_* calls and from_bin"])),
prop("C15", "Text is taken for exactly the value it spells out, or refused",
 "Whatever text arrives as JSON for a type, converting it gives the binary form of the value it spells out according to the type, or a failure: numbers, dates, amounts, precisions and sizes out of range, impossible dates, missing, unknown or misplaced fields, wrong kinds, wrong lengths and anything left over are refused and never wrapped around, cut off or filled in. The beginning of a document is never taken for the document, and the C, C++ and native interfaces agree on what a text means.",
 ["inputs", "fault_sequences", "histories"], "All texts for all types, complete, cut at any place, damaged or put together in a wrong order; strict and reordering conversion and native parsing.",
 "Tests try a few dozen malformed literals; near misses in ranges, dates, amounts and structure are not among them.",
 "documents uploaded in pieces without checksums over a lossy, corrupting, reordering network to servers that convert whatever they have put together so far; near misses, failing allocations and crashes; all outcomes against a model of the text forms",
 "Names and odd number spellings (leading spaces, hexadecimal) may be accepted or refused but never misread; text behind a NUL character is not part of a document.",
 anchors=anchors(["include/eosio/from_json.hpp", "include/eosio/chain_conversions.hpp", "include/eosio/time.hpp", "src/abieos.hpp"], [("from_json of built-in types", "include/eosio/from_json.hpp"), ("string_to_asset, string_to_symbol, string_to_utc_*", "include/eosio/chain_conversions.hpp"), ("json_to_bin", "src/abieos.hpp")],
   [("skipped_extension, position", "fields seen so far", "src/abieos.hpp")], ["abieos_json_to_bin, abieos_json_to_bin_reorderable", "abi_type::json_to_bin", "from_json"])),
prop("C16", "Keys and signatures survive as text, and a mistaken text is never another key",
 "Every public key, private key and signature of every kind is written as one canonical text, in all interfaces alike, and reading that text, or the older text forms for it, gives back exactly the same bytes, leading zeros included. A text with a mistyped, lost, repeated, exchanged or added character, another prefix, the wrong length or a checksum that does not match is refused and never taken for a key; base 58 as such is read and written without loss.",
 ["inputs", "fault_sequences", "histories"], "All keys and signatures of all kinds, all ways of writing and reading them, all mistakes in text (up to the 32 bits of the checksum).",
 "Tests convert a handful of literal keys; mistyped ones, leading zeros and wrong lengths are hardly among them.",
 "wallets exchanging texts without protection over a lossy, corrupting, reordering network, with typing errors, crashes that tear text files, and failing allocations; every text written and every answer against an independent model of the text forms, final key books against the keys",
 "A text damaged into one with a matching 32 bit checksum is not expected among the samples; the checksum of legacy private keys is a listed finding, so the simulated channel protects those texts.",
 anchors=anchors(["src/crypto.cpp", "include/eosio/crypto.hpp", "include/eosio/abieos_ripemd160.hpp"], [("string_to_key, key_to_string", "src/crypto.cpp"), ("base58_to_binary, binary_to_base58", "src/crypto.cpp")],
   [], ["public_key_from_string and its siblings", "to_base58, from_base58", "abieos_json_to_bin, abieos_bin_to_json of key types"])),
prop("C17", "Answers depend on the request alone, and calls leave the process as it was",
 "The same requests to the same definitions are answered alike, down to the text of errors, whatever the process around the library looks like: its C and C++ locales, environment variables, working directory, clock, errno, processor modes and stream formats, and whatever memory happens to contain. Calls in turn leave all of that untouched, keep no file open, take no numbers from the program's random generator and print nothing.",
 ["configurations", "histories", "inputs"], "All settings of the surroundings, changing at any point of all histories of calls to the C, C++ and native interfaces (rounding of floating point values in unusual processor modes excepted).",
 "Tests run in one locale, on fresh zeroed memory, with a clean errno.",
 "hosts in differing simulated surroundings, switched at the border of the library for every call and verified on the way out, with restarts and failing allocations; all answers against each other and a reference model",
 "Locales are four generated ones, the two built in and three C++ ones of the simulator's own; fresh memory is what operator new returns and 96 kB of stack.",
 anchors=anchors(["include/eosio/from_json.hpp", "include/eosio/to_json.hpp", "include/eosio/fpconv.c", "src/abieos.cpp", "src/abieos.hpp"], [("use of strtof and strtod", "include/eosio/from_json.hpp"), ("fpconv instead of printf", "include/eosio/to_json.hpp")],
   [("stack entries and their positions", "initialised members", "src/abieos.hpp")], ["all of abieos.h", "from_json/to_json/from_bin/to_bin/to_key of native types"])),
prop("C18", "Keys order, separate and identify values exactly as the values themselves do",
 "For any two values of a type that has keys, the key of the first is less than the key of the second, byte by byte, exactly when the first value is less; equal values have equal keys and different ones have different keys, and no key is the beginning of another. So keys of several columns can be put one behind another, and an index built from them in any order of arrival scans in the order of the values.",
 ["inputs", "histories", "fault_sequences"], "All pairs of values of all types with keys (floating point NaNs excepted), all histories of insertions and removals, on replicas behind a lossy network.",
 "Tests compare a few pairs per type; order must hold over all pairs.",
 "replicated ordered indexes over a network with loss, duplication, reordering, corruption, partitions, crashes and disk faults, against a reference ordered by a model of value order, checked after every step",
 "Pairs are sampled with a bias to close neighbours.",
 anchors=anchors(["include/eosio/to_key.hpp", "include/eosio/fixed_bytes.hpp", "include/eosio/varint.hpp"], [("to_key overloads", "include/eosio/to_key.hpp"), ("escape of zero bytes and presence marks", "include/eosio/to_key.hpp")],
   [], ["eosio::convert_to_key"])),
prop("C19", "Ledgers of assets lose nothing, gain nothing, and refused operations change nothing",
 "Adding, subtracting, multiplying, dividing, negating and comparing assets and extended assets gives exactly the mathematical result, or is refused with a reason when symbols or contracts differ, the divisor is zero or an amount leaves the range of 2^62 - 1; a refused operation leaves its operands as they were. The same exactness holds for names (prefix, suffix, length, order), symbols and symbol codes (validity, precision, length) and times (sums, differences, seconds, block slots). So replicas of a ledger that apply the same issues, transfers and shares, through crashes, repeated deliveries and memory running out, hold the same balances, and nothing appears or vanishes.",
 ["histories", "inputs", "fault_sequences"], "All histories of operations, with all amounts however they were given (numbers, text, JSON, bytes), all points of crash and allocation failure.",
 "The tests never do arithmetic on assets; boundaries, and what a refused operation leaves behind, need histories.",
 "ledgers in the library's types, replicated over a network with loss, duplication, reordering, partitions, crashes, torn snapshots and failing allocations; every result and the whole ledger compared after each command with a reference in 128 bit arithmetic",
 "Amounts outside of the valid range enter only to be refused; times stay within their types' ranges.",
 anchors=anchors(["include/eosio/asset.hpp", "include/eosio/symbol.hpp", "include/eosio/name.hpp", "include/eosio/time.hpp", "include/eosio/operators.hpp", "include/eosio/from_string.hpp"], [("asset and extended_asset operators", "include/eosio/asset.hpp"), ("symbol_code::is_valid", "include/eosio/symbol.hpp"), ("name::prefix, suffix, length", "include/eosio/name.hpp"), ("time_point, time_point_sec, block_timestamp", "include/eosio/time.hpp")],
   [("asset::amount", "within 2^62 - 1 for valid assets", "include/eosio/asset.hpp")], ["operators of asset, extended_asset, name, symbol, time_point, block_timestamp"])),
]
NA = {}
