"""What the driver needs to know about each property."""
REAL = ["abieos C interface (src/abieos.cpp)", "ABI engine (src/abi.cpp, src/abieos.hpp)", "eosio/* headers: binary, JSON, key and text codecs", "key and signature text (src/crypto.cpp)", "floating point text (fpconv.c)"]
STUB = ["rapidjson: /verif/shim (the submodule is absent from this sandbox)", "allocator: operator new/delete of the simulator in front of malloc"]
ASSUME = ["The JSON tokenizer is a stand-in for rapidjson with the same interface and grammar.",
          "The code is compiled with clang, AddressSanitizer and basic-block counting; stack and heap start out filled with a pattern.",
          "Sampling: executions are drawn from a seeded generator, not enumerated."]
CONF = {
    "C01": dict(runs=(6000, 200000), rule="Histories of context calls (create, destroy, load good, damaged or hostile ABIs in three formats, convert, look up, null arguments) over one to three contexts, checked after every call against a model and against a context without history.",
                measures="context_states: hash over the loaded ABIs, generated binary and last result of all contexts after each call"),
    "C02": dict(runs=(5000, 150000), rule="For one ABI and a few calls on it (loads in three formats, conversions, lookups, context creation; C and C++ interface) every call is repeated with allocation k, k+s, k+2s, ... failing (one, several or all from there on), then made without failures.",
                measures="failure_points: (call, type, index of the failing allocation, number of failures)"),
    "C03": dict(runs=(3500, 120000), rule="Three contexts receive versions of one contract in JSON, binary and hex; deliveries are torn at many lengths, damaged or wrong in content; after each, conversions and lookups on all three are compared with the model and with each other.",
                measures="abi_states: hash over the loaded ABIs, generated binary and last result of all contexts after each call"),
    "C04": dict(runs=(5000, 150000), rule="Mixes of succeeding and failing calls (missing contract, missing type, damaged or null arguments, left-over bytes, unsupported versions) on one or two contexts; error text, sentinel results and twins are checked after each call.",
                measures="error_texts: different error texts seen"),
    "C05": dict(runs=(2500, 80000), flavour="race", rule="Two to four caller threads convert with one shared loaded ABI, or with contexts of their own; the scheduler runs one thread at a time and preempts at chosen basic blocks and wherever two threads touch one memory cell with a write.",
                measures="interleavings: hash over the sequence of thread switches and the code positions they happened at"),
    "C06": dict(runs=(4500, 120000), rule="Conversions with a callback that watches, throws at step k, k+s, ... (three kinds of exception), gives up at a deadline on the simulated clock, or converts with the same types itself; also with failing allocations.",
                measures="cancel_points: (type, kind of conversion, step at which the callback threw)"),
    "C07": dict(runs=(5000, 150000), flavour="native", rule="A receiver decodes native and dynamic types from streams cut at swept lengths, damaged at random or at a length, count, index or flag, followed by other records, with failing allocations; every outcome is compared with the model.",
                measures="cut_points: (type, length at which the data was cut)"),
    "C08": dict(runs=(3200, 80000), rule="A source sends ABIs and values, in binary or JSON, along chains and trees of one to five relays over a lossy network; each relay has its own context, turns binary into JSON and JSON into binary (C and C++ interface, hex, strict or reordering), respells JSON, makes unrelated failing calls, runs out of memory, crashes and recovers from snapshots.",
                measures="records: (node, last record it handed on); interleavings: hash over the events of the network"),
    "C09": dict(runs=(3200, 80000), rule="Documents travel as single fields over a lossy network without order; receivers convert what they have in the order it arrived, with older values and duplicates in front and unknown fields in between, after every few arrivals and at the end, next to the same content in the order of the type.",
                measures="documents: (type, final bytes); interleavings: hash over the events of the network"),
    "C10": dict(runs=(2400, 60000), flavour="native", rule="Up to three nodes follow a log of values written under several versions of a contract (extension fields, variant alternatives, new types, other order of definitions) and of native structs in four versions; nodes are upgraded and set back at planned times, crash and recover, and read everything again after each change.",
                measures="logs: (version, last record) of a node at the end; interleavings: hash over the events of the network"),
    "C11": dict(runs=(4500, 100000), flavour="native", rule="Values are encoded as binary, JSON, formatted JSON and key into every kind of sink, each with swept room left or a swept refused write and with failing allocations; records go into logs in bounded segments, torn by crashes, and are read back.",
                measures="full_sinks: (type, encoding, kind of sink, room in it)"),
    "C12": dict(runs=(2400, 60000), flavour="native", rule="A state history server with forks feeds one or two clients through a lossy network with connections that break, crashes and torn snapshots; each end reads and writes messages with the native types or the protocol's ABI, and unpacks traces, deltas and rows whole, one by one or in part; ABIs made from native types are exported, loaded and used.",
                measures="histories: (blocks, last block) of the chain followed; interleavings: hash over the events of the network"),
    "C13": dict(runs=(1400, 40000), flavour="native", known=True, rule="Clients send conversions of long, deep, damaged and misleading documents, oversized counts, definitions and native messages through a faulty network to a gateway with a queue, little memory and crashes; the memory each request takes is limited by its size, and all requests are repeated four times on one context.",
                measures="memory_used: (kind of request, peak memory / 64); interleavings: hash over the events of the network"),
    "C14": dict(runs=(1800, 50000), flavour="native", known=True, rule="The same gateway with more definitions: long and circular aliases, bases and variants, deep nesting, odd type names, wide and deep inheritance; the work (basic blocks) and the stack each request takes are limited by its size, work costs simulated time, and every request must be answered once faults stop.",
                measures="work_done: (kind of request, basic blocks / 64); interleavings: hash over the events of the network"),
    "C15": dict(runs=(8000, 200000), flavour="native", rule="Clients upload documents, half of them near misses of good ones, in small pieces without checksums over a network that loses, duplicates, reorders, cuts and flips; the server converts what has come together (C, C++ or native interface, strict or reordering), an impatient one after every piece; crashes, failing allocations.",
                measures="documents: (type, text, accepted); interleavings: hash over the events of the network"),
    "C16": dict(runs=(8000, 200000), flavour="native", known=True, rule="Two or three wallets tell each other keys and signatures as text of all forms, without any checksum but the text's own, over a network that loses, duplicates, reorders, cuts and flips; people mistype, swap, cut and repeat characters or mix up prefixes; crashes tear the text files; writing and reading go through the native, C and C++ interfaces, with failing allocations.",
                measures="texts: (text, accepted); interleavings: hash over the events of the network"),
    "C17": dict(runs=(6000, 150000), flavour="native", locales=True, rule="Two or three hosts answer the same requests, good and spoiled, through the C, C++ and native interfaces. They differ in C and C++ locale, arithmetic mode, errno, contents of fresh memory and stack, environment variables, working directory, stream formats and clock, which change between calls; hosts restart, allocations fail. Answers are compared with each other and the model, the surroundings after every call with those before.",
                measures="surroundings: (locales, arithmetic, errno, memory, variables) a host was given"),
    "C18": dict(runs=(12000, 300000), flavour="native", rule="One to three replicas keep an index ordered by key over one or two columns; insertions and removals of close values reach them over a faulty network, nodes crash and restart from torn snapshots; after every step scans are compared with the order of values, at the end with a reference.",
                measures="index_states: (columns, rows at the end); interleavings: hash over the events of the network"),
    "C19": dict(runs=(8000, 250000), flavour="native", rule="One to three replicas keep a ledger in eosio types and apply issues, burns, transfers, products, shares, ratios, comparisons and conversions of names, symbols and times, with amounts chosen to just fit or just not, given as numbers, text, JSON or bytes; commands reach them over a faulty network, nodes crash and restart from torn snapshots, allocations fail; after every command the result, the operands and the whole ledger are compared with a reference.",
                measures="ledgers: (ledger, kind of command); interleavings: hash over the events of the network"),
}
