"""What each property's simulator is built from, how long it runs, and what it measures."""
WRAP = "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"
COMMON = ["-std=c++20", "-include", "memory", "-I@REPO/include", "-I/opt/vp/compat", "-I/usr/include/eigen3", "-I@SIM/stubs", "-w",
          "-fno-builtin-malloc", "-fno-builtin-free", "-fno-builtin-calloc", "-fno-builtin-realloc"]
FLAVOURS = {
    "asan": {"cxx": "g++", "flags": ["-O1", "-fsanitize=address", *COMMON], "linkflags": ["-fsanitize=address", WRAP], "link": ["-lflatbuffers", "-lmsgpackc"]},
    # -fsanitize=thread makes the compiler report every access; the calls land in sim/tsrt.cpp,
    # which schedules the threads (no sanitizer library is linked)
    "sched": {"cxx": "g++", "flags": ["-O1", "-g1", "-fsanitize=thread", "-DSIM_SCHED", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset",
                                      "-fno-builtin-memcmp", "-fno-builtin-memchr", "-fno-builtin-strlen", *COMMON],
              "pure_flags": ["-O2", "-DSIM_SCHED", "-fno-tree-loop-distribute-patterns", *COMMON],
              "linkflags": ["-rdynamic", "-pthread", WRAP, "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp,--wrap=memchr,--wrap=strlen,--wrap=__cxa_allocate_exception"],
              "link": ["-lflatbuffers", "-lmsgpackc", "-ldl"]},
}
INST = ["inst.cpp:-DSIM_INST=%d" % i for i in range(5)]
OPS = ["ops_inst.cpp:-DSIM_OPS_INST=%d" % i for i in range(4)]
NET = ["net_inst.cpp:-DNET_INST=%d" % i for i in range(4)]
NETRULE = ("Each run draws two to six nodes, up to four values with routes and a protocol per hop, and link, crash and memory-exhaustion rates; nodes read, check, translate, rebuild or pass on "
           "messages, store them durably, retransmit until acknowledged and restart from what they stored; links lose, duplicate, delay and reorder; after faults stop everything must be "
           "delivered within 5 simulated seconds, and every message read anywhere must be the value sent. ")
BASE = ["driver.cpp", "alloc.cpp"]
REAL = ["all of /repo/include/zerialize as the property reaches it (headers compiled from the working tree)", "flatbuffers/flexbuffers (installed library)",
        "msgpack-c (installed library)", "libstdc++"]
STUBS = ["heap: malloc/calloc/realloc/free/operator new/delete served by the simulator while the library runs",
         "jsoncons CBOR encoder (absent here): a minimal stand-in, used only behind /repo's real CBOR writer"]
S = {"flavour": "asan", "level": "exploration", "real": REAL, "stubs": STUBS}

SCHEDBASE = ["tsrt.cpp", "alloc.cpp", "driver.cpp"]   # after the instrumented units
T = {**S, "flavour": "sched"}

PROPS = {
    "C04": {**S, "note": "Seeded search over values, styles, protocols and allocation-failure plans; not exhaustive. CBOR's encoder is a stand-in.", "units": BASE + ["c04.cpp"] + INST, "quick": (400000, 40), "thorough": (6000000, 540),
            "rule": "Each run draws a value (all kinds, boundary sizes, every way of handing it to the library), a protocol and up to six allocation-failure plans "
                    "(n-th, from n-th on, every n-th, above a size, random), serializes with plentiful memory and under each plan, and compares bytes, exceptions, "
                    "leaks and recovery. Distinct = distinct (protocol, plan mode, plan position, outcome, value shape).",
            "measure": "hash of protocol, failure plan, outcome and value shape"},
    "C05": {**S, "note": "Seeded search over values, readers, calls and allocation-failure plans; not exhaustive.", "units": BASE + ["c05.cpp"] + INST + OPS, "quick": (400000, 40), "thorough": (6000000, 540),
            "rule": "Each run draws a value, a protocol, a way of opening the reader and up to eight reading calls; each call is made with plentiful memory, under a drawn "
                    "allocation-failure plan, and again afterwards, and answers, exceptions, leaks, the reader and the message are compared. Non-trivial: at least one "
                    "allocation failure fired; distinct by event log.",
            "measure": "hash of protocol, call kind, shape of the node read, failure plan and outcome"},
    "C06": {**S, "note": "Seeded search over points and kinds of user-code failure and re-entry; not exhaustive.", "units": BASE + ["c06.cpp"] + INST, "quick": (400000, 40), "thorough": (8000000, 540),
            "rule": "Each run draws one to three (protocol, value) jobs; user serialize code then throws exceptions of ten types, makes nested serialize calls that succeed or fail, "
                    "reads or translates, at drawn points of a serialize call; exception identity, bytes of the outer and nested calls, leaks and later calls are checked. "
                    "Non-trivial: user code threw out of a serialize call; distinct by event log.",
            "measure": "hash of protocol, value shape, first action kind and position, outcome"},
    "C09": {**S, "note": "Seeded search over histories of reader, builder and dynamic-value objects on a simulated heap; not exhaustive.", "units": BASE + ["c09.cpp"] + INST + OPS, "quick": (300000, 45), "thorough": (6000000, 540),
            "rule": "Each run draws a history of up to 44 steps over five reader objects of one protocol (open by copy, move, explicit copy or borrow; copy, move, assign, "
                    "self-assign, swap, vector growth and rotation, translate, take views and key ranges, destroy; sources overwritten or freed), or over stored builders, or over "
                    "dynamic values, on a heap that poisons or at once reuses freed memory; every live object must answer as its model. Non-trivial: a history with checks; distinct by event log.",
            "measure": "hash of protocol, operation, operands and their liveness and ownership"},
    "C10": {**S, "note": "Seeded search over histories of buffer objects with a ledger of releases; not exhaustive.", "units": BASE + ["c10.cpp"] + INST, "quick": (400000, 40), "thorough": (20000000, 540),
            "rule": "Each run draws a history of up to 54 steps over six buffer objects and a growing vector of them: adopting memory through each constructor (some under allocation "
                    "failure, some invalid), vectors, results of serialize, moves, assignments, swaps, rotation, unwinding, deleters that destroy other buffers; a ledger of deleter calls "
                    "and the bytes are checked at each step. Non-trivial: memory was adopted; distinct by event log.",
            "measure": "hash of operation, operand states (engaged, holding, storage kind, aliasing) and container size"},
    "C11": {**S, "note": "Seeded search over element types, containers, shapes, placements, object histories and tampered shapes; not exhaustive.",
            "units": BASE + ["c11.cpp"] + ["c11.cpp:-DC11_P=%s,-DC11_G=%d,-DC11_F=%s%d" % (P, g, f, g) for P, f in (("Zera", "zera"), ("MsgPack", "msgpack"), ("Flex", "flex"), ("CBOR", "cbor")) for g in (0, 1, 2)] + INST,
            "quick": (1500000, 40), "thorough": (30000000, 540),
            "rule": "Each run draws a tensor (13 element types, xtensor row/column-major containers and windows, Eigen both orders and fixed sizes) inside a message laid at any of 64 "
                    "alignments in exactly-sized poisoned memory, reads it through every accessor, copies and moves the views, then frees and reuses the message memory; or a message whose "
                    "type, shape and payload disagree. Non-trivial: every run that reads a tensor; distinct by event log.",
            "measure": "hash of holder kind, rank, element size, form, placement and tamper kind"},
    "C01": {**S, "note": "Seeded search over values, damage and reading programs for ZERA, against an independent decoder; not exhaustive.",
            "units": BASE + ["c01.cpp"] + INST, "quick": (400000, 45), "thorough": (40000000, 540),
            "rule": "Each run draws one to three messages (from the library's writer, or from an independent encoder making other legal choices, or nested deeply), damages them in transit "
                    "(bit flips, overwritten and shifted fields aimed at headers, counts and lengths, stuck ranges, misdirected writes, truncation, extension, splicing), places them in "
                    "exactly-sized poisoned memory and runs a program of up to 31 reading calls, with more damage between calls; every answer is compared with an independent decoder. "
                    "Non-trivial: every run; distinct by event log.",
            "measure": "hash of the call, its outcome, the reference's verdict and the set of damage kinds done; plus value kind and validity"},
    "C02": {**S, "note": "Seeded search over values, damage and reading programs for MessagePack, against an independent decoder; not exhaustive.",
            "units": BASE + ["c02.cpp"] + INST, "quick": (400000, 45), "thorough": (40000000, 540),
            "rule": "Each run draws one to three messages (from the library's writer, or from an independent encoder making other legal choices, or nested deeply), damages them in transit "
                    "(bit flips, overwritten and shifted fields aimed at headers, counts and lengths, stuck ranges, misdirected writes, truncation, extension, splicing), places them in "
                    "exactly-sized poisoned memory and runs a program of up to 31 reading calls, with more damage between calls; every answer is compared with an independent decoder. "
                    "Non-trivial: every run; distinct by event log.",
            "measure": "hash of the call, its outcome, the reference's verdict and the set of damage kinds done; plus value kind and validity"},
    "C03": {**S, "note": "Seeded search over values, damage and reading programs for CBOR, against an independent decoder; not exhaustive.",
            "units": BASE + ["c02.cpp:-DDMG_CBOR=1"] + INST, "quick": (400000, 45), "thorough": (40000000, 540),
            "rule": "Each run draws one to three messages (from the library's writer, or from an independent encoder making other legal choices, or nested deeply), damages them in transit "
                    "(bit flips, overwritten and shifted fields aimed at headers, counts and lengths, stuck ranges, misdirected writes, truncation, extension, splicing), places them in "
                    "exactly-sized poisoned memory and runs a program of up to 31 reading calls, with more damage between calls; every answer is compared with an independent decoder. "
                    "Non-trivial: every run; distinct by event log.",
            "measure": "hash of the call, its outcome, the reference's verdict and the set of damage kinds done; plus value kind and validity"},
    "C14": {**S, "note": "Seeded search over programs of writer calls, legal and not, against a nondeterministic reference model; not exhaustive.",
            "units": BASE + ["c14.cpp"] + INST, "quick": (600000, 40), "thorough": (40000000, 540),
            "rule": "Each run draws up to three programs of up to 42 writer calls (two thirds allowed at that point, the rest any), made on the writer objects or from a user's serialize "
                    "function that lets failures out or carries on, with allocation failures inside calls; each outcome must be one the reference model of the call sequence allows and every "
                    "finished message must be, for an independent decoder and for the library, the value of the calls that succeeded. Non-trivial: a message was finished; distinct by event log.",
            "measure": "hash of call, outcome, stack depth, top container, pending key, root and model uncertainty"},
    "C12": {**S, "note": "Seeded search over values, routes, protocols, link faults, crashes and memory exhaustion in a simulated relay network; not exhaustive. CBOR's encoder is a stand-in.",
            "units": BASE + ["c12.cpp"] + NET + INST, "quick": (400000, 45), "thorough": (20000000, 540),
            "rule": NETRULE + "Non-trivial: every run; distinct by event log.",
            "measure": "hash of incoming protocol, work done, outgoing protocol, value shape and outcome"},
    "C13": {**S, "note": "Seeded search over values, encoding choices, routes and faults in a simulated network of library and independent peers; not exhaustive.",
            "units": BASE + ["c12.cpp:-DNET_FOREIGN=1"] + NET + INST, "quick": (400000, 45), "thorough": (20000000, 540),
            "rule": NETRULE + "At least one node is an independent ZERA and MessagePack implementation that makes other legal encoding choices and decodes strictly. Non-trivial: every run; distinct by event log.",
            "measure": "hash of incoming protocol, work done, outgoing protocol, value shape and outcome"},
}

TRULE = ("one process per run, so that nothing is initialised yet; half of the runs compare with answers computed before the threads start, half afterwards. Two to four threads run one to four calls "
         "each; a thread is switched after a drawn number of memory accesses (modes: every few, tens, thousands, log-uniform, only at synchronisation and allocation, serial), some threads run out of memory. "
         "Checked: every call answers as alone, no two threads access the same bytes unordered unless both read (vector clocks over every instrumented access), no deadlock. "
         "Non-trivial: threads were interleaved; distinct by event log. ")
TSTUBS = STUBS + ["thread scheduling, mutexes, once-flags and guards of function-local statics: the simulator's own", "accesses inside the shared C++ library are not seen, and not interrupted"]
PROPS["C07"] = {**T, "stubs": TSTUBS, "note": "Seeded search over messages, per-thread reading programs and schedules at memory-access granularity; not exhaustive.",
                "technique": "deterministic simulation: seeded thread scheduling at every memory access, happens-before race oracle, fault injection",
                "units": ["c07.cpp"] + INST + OPS + SCHEDBASE, "quick": (150000, 45), "thorough": (20000000, 540),
                "rule": "Each run draws one or two messages (the library's or an independent encoder's), shared readers, element views, key ranges, tensor views and buffers; " + TRULE,
                "measure": "hash of the threads' calls (object shared, call, protocol) and the scheduling mode"}
PROPS["C08"] = {**T, "stubs": TSTUBS, "note": "Seeded search over values, per-thread serialize/translate programs, failures and schedules at memory-access granularity; not exhaustive.",
                "technique": "deterministic simulation: seeded thread scheduling at every memory access, happens-before race oracle, fault injection",
                "units": ["c08.cpp"] + INST + OPS + SCHEDBASE, "quick": (150000, 45), "thorough": (20000000, 540),
                "rule": "Each run draws one or two shared sources and own ones (user values, dynamic values, tensors, builders, standard containers, readers to translate), target protocols, user code that throws; " + TRULE,
                "measure": "hash of the threads' calls (source kind) and the scheduling mode"}

PROPS["C17"] = {**S, "note": "Seeded search over values, arrival orders of a message's parts and reading programs under total memory exhaustion; not exhaustive.",
                "units": BASE + ["c17.cpp"] + INST, "quick": (400000, 40), "thorough": (30000000, 540),
                "rule": "Each run draws a value, a protocol and a writer (the library or an independent encoder) and lays the message out at a drawn alignment with the payload of strings and blobs, "
                        "and in half of the ZERA runs the tables of containers, not there yet: touching a byte that has not arrived ends the run. A program of up to 27 steps then lets payloads "
                        "arrive in drawn order and reads: kinds, numbers, sizes, string and blob views, keys, lookups and copies of readers with every allocation failing; copied strings, translated "
                        "parts and tensor views with only what they read there. Non-trivial: some part was missing; distinct by event log.",
                "measure": "hash of protocol, call, shape of the node, whether its payload had arrived"}

PROPS["C15"] = {**S, "note": "Seeded search over values, faults in memory and user code, translations and damaged text; not exhaustive. yyjson (absent here) is a stand-in behind /repo's real JSON reader and writer.",
                "stubs": STUBS + ["yyjson (absent here): a stand-in for the part of its interface json.hpp uses"],
                "units": BASE + ["c15.cpp"] + INST, "quick": (400000, 40), "thorough": (30000000, 540),
                "rule": "Each run draws a value (nearly always one JSON can carry), serializes it to JSON with plentiful memory and under up to three faults (allocation-failure plans, user code that "
                        "throws), reads the text with an independent JSON reader, then with the library's from exactly-sized memory that may be freed, through moved readers, under memory pressure, "
                        "translated to another protocol and back; half of the runs also open it under memory pressure or damaged. Non-trivial: a fault fired; distinct by event log.",
                "measure": "hash of value shape, fault kind and position, outcome"}
PROPS["C18"] = {**S, "note": "Seeded search over blobs, damage to their text and allocation-failure plans, against an independent RFC 4648 coder; not exhaustive.",
                "real": ["/repo/include/zerialize/internals/base64.hpp and errors.hpp (compiled from the working tree)", "libstdc++"], "stubs": STUBS[:1],
                "units": BASE + ["c18.cpp"], "quick": (1500000, 30), "thorough": (60000000, 540),
                "rule": "Each run sends one to four blobs (boundary sizes, patterns) as base64 text over a channel that overwrites, flips, drops, inserts, swaps, splices, truncates and extends "
                        "the text; blob and text lie in exactly-sized poisoned memory at any alignment; coding and decoding are done with plentiful memory, under up to two drawn "
                        "allocation-failure plans and again afterwards, and each answer is compared with an independent coder. Non-trivial: some text was damaged; distinct by event log.",
                "measure": "hash of the damage kinds, text and blob length classes, the reference's verdict, failure plan and outcome"}

NOT_APPLICABLE = {}
NOT_APPLICABLE["C16"] = "decided by the compiler for each program, before anything runs: no schedule, time, fault or history for a simulation to explore"
