"""Which simulations decide which property."""

COMPONENTS = dict(
    real=["all of libE57Format's sources from /repo, unmodified, compiled from the working tree", "Xerces-C", "C++ runtime"],
    simulated=["file system and descriptors (open/read/write/lseek/close/unlink/stat and relatives, linker --wrap)", "allocator (operator new/delete)",
               "thread scheduling", "random device", "time (a latency model; the library reads no clock)"],
    reference=["document model and independent E57 encoder/decoder/validator in sim/ (no library code)"])


TECHNIQUE = "deterministic simulation with fault injection"

NOT_APPLICABLE = {
    "C21": "A pure function of one string: accepting or rejecting a name depends on no schedule, disk, fault or history, so simulation would only "
           "dress up input generation.",
    "C22": "A pure function of one number: formatting and parsing depend on no schedule, disk, fault or history. The end-to-end effect of number text on "
           "stored values is covered by C01, and its dependence on the ambient locale by C19.",
}


def part(family, variant, quick, **kw):
    return dict(family=family, variant=variant, quick=quick, **kw)


PLAN = {
    "C01": dict(
        technique="seeded write sessions over a simulated disk, refinement against an executable document model",
        note="Fault-free histories sampled by seed; sizes bounded (documents up to 80 elements, 6000 records, 200 KB strings); a few runs "
             "with a blob of 2 or 4 GiB between other content, with texts of megabytes, with large trees and with records of up to 32764 fields.",
        parts=[part("roundtrip", "fast", 16000), part("roundtrip", "crazy", 4000), part("roundtrip", "asan", 1600),
               part("longtext", "fast", 32, det=4), part("bigtree", "fast", 48, det=6), part("widecv", "fast", 10, det=0, sample=False),
               part("hugewrite", "fast", 4, det=0, sample=False)],
        rule="one run = one seeded document and write session (tree, prototypes, record batches, memory types, buffer changes, blob operations, "
             "interleaved read-backs) followed by re-opening and exact comparison with the document; non-trivial when the file holds records or blobs"),
    "C02": dict(
        technique="seeded disk-fault schedules over simulated write sessions; oracle: reported exception or bytes/content equal to the fault-free run",
        note="Fault positions and kinds sampled by seed over every disk operation of small and moderate sessions; up to three planned faults or a disk "
             "capacity per session.",
        parts=[part("writefault", "fast", 8000), part("writefault", "asan", 1200), part("writefault", "crazy", 1600)],
        rule="one run = one document, its fault-free session, then several sessions each with its own fault plan; non-trivial when a planned fault fired"),
    "C03": dict(
        technique="seeded crash points over the simulated disk's write journal, re-opening and restarting on the surviving image",
        note="Crash model: a prefix of the issued writes is durable and the next one may be torn at any byte; no reordering of writes (the library issues "
             "no barrier, so nothing is promised under reordering).",
        parts=[part("crash", "fast", 8000), part("crash", "asan", 800), part("crash", "crazy", 1600)],
        rule="one run = one session with its journal and several crash points, each re-opened under a drawn checksum policy and some restarted; "
             "non-trivial when a crash image was examined"),
    "C06": dict(
        technique="seeded abandonment points and disk faults over simulated sessions; invariant on the simulated directory",
        note="Abandonment by cancel, destruction in several handle orders, after failed calls and failed close; sampled by seed.",
        parts=[part("abandon", "fast", 8000), part("abandon", "asan", 1600)],
        rule="one run = one document, one reading session ended in a drawn way, then several writing sessions abandoned at drawn points with or without "
             "faults; non-trivial when a session was abandoned"),
    "C08": dict(
        technique="seeded write sessions over a simulated disk, every closed file judged by an independent validator written from the standard",
        note="Sampled by seed; sizes as in C01.",
        parts=[part("valid", "fast", 16000), part("valid", "crazy", 4000)],
        rule="one run = one seeded write session whose closed file is parsed byte by byte by the independent validator and compared with the document"),
    "C04": dict(
        technique="seeded at-rest corruption of simulated disk images; oracle: reported exception or data equal to the document",
        note="Damage kinds (flips, bursts, stale, swapped, torn, lost pages, truncation) and places sampled by seed; checksum policy 100 for the guarantee. "
             "Damage that a 32-bit checksum cannot see is not generated on purpose.",
        parts=[part("corrupt", "fast", 16000), part("corrupt", "asan", 2400)],
        rule="one run = one file (written by the library or by the independent encoder), several rounds of damage, each read back completely under drawn "
             "reading plans; non-trivial when damaged bytes were read"),
    "C05": dict(
        technique="seeded disk-fault schedules over simulated reading sessions; oracle: reported exception or data equal to the document, then recovery",
        note="Fault positions and kinds sampled by seed over every disk operation of the session; includes bits flipped in transit and files cut while open.",
        parts=[part("readfault", "fast", 16000), part("readfault", "asan", 2400)],
        rule="one run = one file and several reading sessions with their own fault plans; non-trivial when a planned fault fired"),
    "C07": dict(
        technique="seeded histories of faulty and clean sessions under a simulated disk and allocator; conservation of descriptors and blocks after each",
        note="Sampled by seed; 3-6 sessions per run. Memory is counted at operator new/delete (the library and Xerces use nothing else).",
        parts=[part("resources", "fast", 20000), part("resources", "asan", 3200)],
        rule="one run = a history of writing, reading, malformed-file, failing-open and memory-buffer sessions with drawn faults and destruction orders; "
             "after each, open descriptors, descriptor misuse and live blocks are compared with the state before; non-trivial when a session was accounted for"),
    "C10": dict(
        technique="seeded structure-aware corruption with resealed checksums and power-loss survivors read on the simulated disk; oracle: sanitizers, "
                  "exception type, bounds on operations, time and memory, no access to other files or the network",
        note="Sampled by seed. Bounds per read: 3 million disk operations, 300 MB, 12 s of CPU.",
        parts=[part("hostile", "asan", 9600), part("hostile", "fast", 24000)],
        rule="one run = one legal file and several hostile variants of it (structural fields, XML, pages, noise, lost writes), each read completely from file "
             "or memory; non-trivial when a hostile input was read"),
    "C13": dict(
        technique="seeded paired reading histories: simulated file against guarded read-only memory",
        note="Sampled by seed, legal and damaged bytes; the buffer lies between inaccessible pages and is write protected.",
        parts=[part("membuf", "fast", 16000), part("membuf", "asan", 3200)],
        rule="one run = one file in several damaged states, the same drawn reading history on the file and on the buffer, compared call by call; non-trivial "
             "when both were read"),
    "C15": dict(
        technique="seeded writing and reading sessions with refused calls inserted at drawn points; oracle: byte equality with the same session without them",
        note="Sampled by seed; about eighty kinds of refused calls over names, ownership, types, values, ranges, buffers, extensions and casts. A call outside "
             "its documented preconditions that the library is not documented to detect (null data, too small strides) is not made.",
        parts=[part("misuse", "fast", 16000), part("misuse", "asan", 2400)],
        rule="one run = one session without and one with refused calls, or with a record set whose writing fails on a value; non-trivial when a call was refused"),
    "C16": dict(
        technique="seeded corruption and reading histories under every checksum policy on the simulated disk; oracle: window rule for detection, equality for "
                  "clean pages",
        note="Sampled by seed; policies -5..105 including all documented constants.",
        parts=[part("policy", "fast", 20000), part("policy", "asan", 2400)],
        rule="one run = one file with a drawn set of damaged pages read under drawn policies; non-trivial when a damaged page was inside a read"),
    "C09": dict(
        technique="seeded legal files in drawn layouts from an independent encoder, read by interleaved reading sessions over the simulated disk; oracle: the "
                  "document that was encoded",
        note="Sampled by seed: 1-2 files, 1-3 handles on file or memory, interleaved record readers, blob reads and element queries.",
        parts=[part("layout", "fast", 12000), part("layout", "asan", 2400)],
        rule="one run = one or two encoded files and a drawn interleaving of reading steps over all handles, every value compared with the document; "
             "non-trivial when records were compared"),
    "C11": dict(
        technique="seeded call histories over files, record readers and writers with injected disk faults, checked after every call against a small state model",
        note="Sampled by seed: up to 7 files, 40-140 calls per run in any order, including calls on closed, cancelled and destroyed objects; half of the "
             "profiles inject disk faults into the state changes.",
        parts=[part("state", "fast", 24000), part("state", "asan", 3200)],
        rule="one run = one call history; after each call the open state, counts, names and refusals of all objects are compared with the model; non-trivial "
             "when a record reader or writer was opened"),
    "C14": dict(
        technique="seeded histories of blob reads and writes beside other activity over the simulated disk with read faults; oracle: a byte array",
        note="Sampled by seed; blobs up to some tens of KB, dozens of partial accesses per run, and blobs of 2 to 16 GiB on a disk "
             "that stores blank pages for free.",
        parts=[part("blob", "fast", 20000), part("blob", "asan", 2400), part("hugeread", "fast", 1600),
               part("hugewrite", "fast", 4, det=0, sample=False)],
        rule="one run = one writing session with several blobs, its close, and re-reading from file or memory; non-trivial when blob bytes were compared"),
    "C18": dict(
        technique="seeded allocation-failure points in simulated writing and reading sessions; oracle: report or correct result, conservation, repeatability",
        note="One failing operator new per session, index sampled uniformly over all allocations of the session made by libE57Format and the C++ runtime on "
             "its behalf; allocations made inside Xerces are not failed (its own behaviour then is not the subject).",
        parts=[part("nomem", "fast", 12000), part("nomem", "asan", 2400)],
        rule="one run = two documents and six sessions (write, read, read memory, read and compare), each first fault-free to count its allocations and then "
             "with one of them failing; non-trivial when the failure fired"),
    "C12": dict(
        technique="seeded thread schedules and call interleavings of several sessions under a simulated scheduler and disk; oracle: each session's solo run",
        note="Sampled by seed: 2-4 sessions (writing, reading, hostile reading, high-level) on distinct files, one thread running at a time, switches at disk "
             "operations, locks, XML platform calls and, in the sched variant, at instrumented branches of the library; disk faults in one of the sessions.",
        parts=[part("isolate", "sched", 6000), part("isolate", "fast", 6000), part("isolate", "asan", 1200), part("guids", "sched", 1600)],
        rule="one run = the sessions alone, then together under a drawn schedule; call results, data and file bytes compared; non-trivial when the schedule "
             "switched between sessions"),
    "C17": dict(
        technique="seeded high-level writing and reading histories over the simulated disk, refinement against an executable model of scans and images",
        note="Sampled by seed: up to 4 scans and 3 images, 40000 points, all point fields, encodings, batch sizes, groupings and interleavings of the items.",
        parts=[part("simple", "fast", 20000), part("simple", "asan", 3200)],
        rule="one run = one seeded high-level file written call by call, read back twice (plainly and with drawn types, batch sizes, fields and order) and "
             "validated; non-trivial when it takes more than one writing call"),
    "C19": dict(
        technique="seeded sessions repeated under drawn locales, memory contents, clocks, paths, threads and earlier sessions of the simulated process; oracle: "
                  "byte equality",
        note="Sampled by seed. Locales: C++ facets with unusual punctuation and the installed fr_FR; uninitialised memory through allocator fill patterns.",
        parts=[part("ambient", "fast", 8000), part("ambient", "asan", 1200), part("ambientsimple", "fast", 3200)],
        rule="one run = one session repeated in 2-4 drawn surroundings, its bytes and everything read from a file compared with the plain surroundings; "
             "non-trivial when a repetition was compared"),
    "C20": dict(
        technique="seeded disk-fault schedules over simulated high-level sessions with early destruction; oracle: report or exact result, survival",
        note="Fault positions and kinds sampled by seed over every disk operation of small sessions; both destruction orders of writer and point writer.",
        parts=[part("simplefault", "fast", 12000), part("simplefault", "asan", 2400)],
        rule="one run = one high-level file, its fault-free session, then several writing or reading sessions each with its own fault plan; non-trivial when "
             "a planned fault fired"),
    "C23": dict(
        technique="seeded histories of building element trees with injected allocation and disk failures, checked after every call against a model tree",
        note="Sampled by seed: 1-3 files, all element kinds, up to some hundred calls per run; a third of the profiles fail allocations, a third disk "
             "operations.",
        parts=[part("tree", "fast", 16000), part("tree", "asan", 2000)],
        rule="one run = one history of making, attaching, appending, dropping and querying elements, every query compared with the model, then close, reopen "
             "and compare; non-trivial when elements were attached"),
    "C24": dict(
        technique="seeded transfer histories between fields and buffers of any memory type over the simulated disk with read faults; oracle: exact arithmetic "
                  "on each value",
        note="Sampled by seed: 1-3 record sets of 1-4 fields, every memory type with and without conversion and scaling, values around every type boundary "
             "and special floating point values; a quarter of the runs inject read faults.",
        parts=[part("convert", "fast", 20000), part("convert", "asan", 2400)],
        rule="one run = one writing session and one reading session of several readers, each call either refused or every value compared; non-trivial when a "
             "session was completed or a transfer refused"),
    "C25": dict(
        technique="seeded files as other programs may write them, read through the high-level reader over the simulated disk with read faults; oracle: model of "
                  "the file's content",
        note="Sampled by seed: optional elements present or absent, limits and fields in every numeric type and order, unknown extra elements, grouping, images with "
             "every representation; call sequences with indexes out of range; a third of the runs inject read faults.",
        parts=[part("foreign", "fast", 12000), part("foreign", "asan", 1600)],
        rule="one run = one file made through the low-level interface and one reader session of 5-25 calls followed by a full comparison; non-trivial when the "
             "session was completed or refused because of an injected fault"),
    "C26": dict(
        technique="seeded writing and reading sessions with and without queries, dumps and invariant checks at drawn points, under read faults and failing "
                  "allocations; oracle: the same session without them",
        note="Sampled by seed: up to 150 queries per session over files, elements, buffers, record readers and writers; a third of the profiles fail allocations "
             "inside the queries, a third inject read faults into both reading sessions.",
        parts=[part("observe", "fast", 12000), part("observe", "asan", 2000)],
        rule="one run = one document, its plain writing session and one that is looked at (file bytes equal), and one reading plan carried out plainly and looked "
             "at (call results and data equal); every query repeated must answer the same without touching the disk; non-trivial when completed"),
    "C27": dict(
        technique="seeded sessions of the high-level interface with calls that must be refused and failing allocations inserted at drawn points, over the simulated "
                  "disk; oracle: the same session without them",
        note="Sampled by seed: up to 40 refused calls per session (headers that cannot be stored, indexes, ranges and projections that do not exist, records while a "
             "writer is open, anything after Close) and calls repeated after a failing allocation.",
        parts=[part("simplemisuse", "fast", 12000), part("simplemisuse", "asan", 2000)],
        rule="one run = one plain session and one with refused and repeated calls; every refused call must fail by its result or a library exception, the file must "
             "hold the same bytes (or, where space may stay unused, the same content and be valid); then a closed reader is used; non-trivial when a call was refused"),
    "C28": dict(
        technique="seeded files of the independent encoder and of the library with one rule of the format broken and page checksums recomputed, read over the "
                  "simulated disk (also with disk faults) and from memory; oracle: the catalogue of rules says what has to be refused, the document what the rest holds",
        note="Sampled by seed: about 120 kinds of broken rules at drawn places in documents of moderate size. Numbers that are no numbers in attributes and element "
             "text, the order of index entries and record sets with fewer records than announced are outside the claim.",
        parts=[part("invalid", "fast", 6000), part("invalid", "asan", 1500)],
        rule="one run = one valid file and up to 6 damaged copies; opening, or reading the damaged element among others in drawn order, must end in a library exception "
             "every time, everything else must read as in the valid file, no file may stay open; non-trivial when a rule was broken"),
}
