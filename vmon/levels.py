"""Per-property facts used by check.py and the manifest generator."""
COMMON = [
    "CPython 3.12 and its hashlib, secrets, asyncio and file system primitives behave as documented",
    "workers run as an unprivileged user on a copy of the working tree",
]


def m(technique, rule, note, level="exploration", **kw):
    d = dict(technique=technique, rule=rule, note=note, level=level, assumptions=list(COMMON) + kw.pop("assume", []))
    d.update(kw)
    return d


META = {
    "C01": m(
        "runtime monitoring of seal/open calls under generated messages, equality and size oracles",
        "random keys, AADs, salts and messages concentrated on padded-block boundaries, each sealed through six "
        "interfaces and opened through six; non-trivial shapes are distinct (cipher, seal interface, open interface, length)",
        "Explores generated inputs; every observed round trip is compared with the original bytes. Lengths around "
        "three block boundaries are all covered; larger sizes and contents are sampled.",
    ),
    "C02": m(
        "runtime monitoring of opening attempts under systematic and random tampering; an acceptance oracle on every attempt",
        "every byte position and bit-level, structural (truncate, extend, reorder, splice) and context (key, AAD, cipher, "
        "salt, IV) mutation of genuine ciphertexts and tokens; non-trivial shapes are distinct (cipher, interface, mutation, size)",
        "Explores forgeries an outsider can build without the key, not cryptanalysis. Each attempt must raise, and a genuine "
        "opening afterwards must still succeed.",
    ),
    "C03": m(
        "runtime monitoring of the randomness used by every sealing, uniqueness oracle over populations of ciphertexts of "
        "identical inputs made by tasks, threads and forked processes; misuse calls with a refusal oracle",
        "identical key, salt, AAD and message sealed hundreds of times per interface with a frozen clock; every IV, tag, body "
        "and block must be new; non-trivial shapes are distinct IVs and misuse sequences",
        "Uniqueness is observed on populations of a few hundred ciphertexts each, so a reuse rarer than that is not seen.",
    ),
    "C04": m(
        "runtime monitoring under a controlled clock: every opening is judged against the exact age; random call histories of "
        "one decryption stream while time passes",
        "ages on both sides of the limit by one nanosecond, one second and at random; random orders of feeding, iterating and "
        "finalising streams; non-trivial shapes are distinct (interface, age, ttl) and stream histories",
        "The clock is replaced before the package is imported. Ages are counted in whole seconds as the formats define "
        "(nanoseconds for passphrase hashes, asked one microsecond off the limit).",
    ),
    "C05": m(
        "runtime monitoring of online streams: equality oracle over random and boundary divisions, interleavings and regroupings",
        "messages around block boundaries, divided at boundary and random points with empty feeds, drained fully, partly or "
        "not at all between feeds, regrouped for the receiver; non-trivial shapes are distinct (cipher, mode, length, call trace)",
        "Every single cut next to a block boundary is covered for the lengths next to one; other divisions are sampled. "
        "A decryption stream is first iterated after its first packet.",
    ),
    "C06": m(
        "runtime monitoring of decryption streams under hostile packet histories; acceptance, prefix and final-tag oracles",
        "replayed, skipped, altered, spliced and foreign packets injected alone or inside batches at every position; "
        "non-trivial shapes are distinct (cipher, mode, kind of packet, position) and histories",
        "Explores forgeries an outsider can build without the key. After every refusal the right packet must be accepted and "
        "everything yielded must be a prefix of the message.",
    ),
    "C07": m(
        "runtime monitoring of one stream fed by concurrent tasks and threads under injected yields and line-level pauses; "
        "self-describing chunks parsed out of the opened message are compared with what each feeder was told",
        "two to five feeders race with draining and closing; non-trivial shapes are distinct orders of accepted chunks and "
        "sets of refused ones",
        "Schedules are sampled by seeded yields (tasks) and random pauses at source lines (threads), not enumerated. "
        "Draining and closing happen in one task; cancelled feeds are not part of the property.",
    ),
    "C08": m(
        "runtime monitoring of guarded sections in tasks, threads and mixtures under injected yields and line-level pauses; "
        "overlap oracle at every entry and admission-order oracle for staged arrivals",
        "mixtures of exclusive and shared users of one to three targets through managers and bare guards; non-trivial shapes "
        "are distinct recent entry histories and arrival patterns",
        "Schedules are sampled. Arrival order is judged only for waiters that were surely queued before the next one asked.",
    ),
    "C09": m(
        "runtime monitoring of guards under systematic cancellation at every loop pass, errors in sections, interrupted waits "
        "and reuse; liveness judged on a virtual-time loop with a step budget, residue read from the manager",
        "the cancelled user, its kind, its neighbours and the loop pass of the cancellation are enumerated; random storms on "
        "top; non-trivial shapes are distinct (scene, pass, phase reached)",
        "Never entering means not within thousands of polling periods on an otherwise idle virtual-time loop. Interruption of "
        "blocking waits is injected through the sleep function.",
    ),
    "C10": m(
        "runtime monitoring of random database histories against an executable model of cache, files and ledgers; every result "
        "and everything visible is compared",
        "random operations on tags and up to four levels of sub-databases, with reopening by the blocking and the asynchronous "
        "database; non-trivial shapes are distinct (operation, outcome, last three operations) and visible states",
        "Histories are sampled, up to 250 operations. Values are those JSON can carry; reloading the ledger is exercised only "
        "after it was saved once.",
    ),
    "C11": m(
        "runtime monitoring of every way of reading after systematic tampering with stored files; refusal and untouched-value oracles",
        "flips, cuts, emptying, extension, exchange and splicing of record and ledger files and other keys; non-trivial shapes "
        "are distinct (kind, file, depth, way of reading)",
        "Restoring an older genuine version of the same file is outside the property. A damaged ledger may keep its database "
        "and the ones containing it from opening.",
    ),
    "C12": m(
        "runtime monitoring of all file writes (audit events) and scanning of every stored byte for planted secrets in several "
        "encodings; uniqueness oracle over rewritten files; models of databases interleaved in one directory",
        "unique random tags, names, values and keys; equal values rewritten under a frozen clock; two to four neighbours with "
        "related keys; non-trivial shapes are distinct (secret, encoding, file) and (operation, files changed)",
        "Recognises secrets in plain, hexadecimal, base64, reversed and wide form, not arbitrary encodings.",
    ),
    "C13": m(
        "fault injection at every kind of file operation: the process ends there or in the middle of a write (file size limit), "
        "or the call fails; oracles after reopening and after retrying",
        "saves, flushes, pops and deletions of nested databases with waiting changes, cut at successive file operations; "
        "non-trivial shapes are distinct (operation, interface, fault point, bytes written)",
        "Fault points are sampled per generated state; loss of data already handed to the operating system is not simulated.",
    ),
    "C14": m(
        "runtime monitoring of deletions: directory snapshots before and after, audit events, reopened view and use of deleted objects",
        "deletions of databases, sub-databases and profiles in live, fresh, preloaded, cleared and unsaved states next to "
        "neighbours and unrelated files; non-trivial shapes are distinct (interface, state, position)",
        "Records that no ledger lists (written but never saved in the ledger before a reopening) are outside the workload.",
    ),
    "C15": m(
        "runtime monitoring of profiles opened with equal and singly changed inputs, lost salts, and by racing tasks and threads "
        "under injected pauses",
        "every single change of an input including bytes moved over a boundary; non-trivial shapes are distinct (change, record) "
        "and (kind of race, existing, number)",
        "Runs with the smallest passphrase hashing costs. Racing creators are compared through what a later opening finds.",
    ),
    "C16": m(
        "runtime monitoring of salt files under racing tasks and threads as an unprivileged user; register-history oracle over "
        "unique values, permission bits at rest",
        "sequential histories over both interfaces and races of readers, updaters, creators and deleters; non-trivial shapes are "
        "distinct (operation, interface, state) and race mixes",
        "Schedules are sampled; processes sharing one directory are outside the property.",
    ),
    "C17": m(
        "runtime monitoring of tasks sharing one asynchronous database under injected yields; each task's view is compared with "
        "its own model, and the reopened database with all of them",
        "two to twelve tasks on their own tags in shared sub-databases, with and without whole-database saves, and races on one "
        "tag; non-trivial shapes are distinct (operation, state) and (mix, outcome)",
        "Schedules are sampled. Rolling a tag back while others save the whole database is not judged.",
    ),
    "C18": m(
        "runtime monitoring of packing and unpacking against an independent implementation of the format; round-trip, "
        "uniqueness and refusal oracles over generated, neighbouring and damaged inputs",
        "sequences of items around block and length-field limits, pairs that differ in one split or one byte, every single-byte "
        "change and cut of small packings; non-trivial shapes are distinct (widths, counts, kind of damage, outcome)",
        "Inputs are sampled; all cuts and byte changes are covered for small packings. Padding longer than needed by whole "
        "blocks is accepted.",
    ),
    "C19": m(
        "runtime monitoring of hashes and derivations against an independent implementation, and uniqueness oracles over "
        "populations of inputs that differ in one place",
        "domains, keys, data splits, sizes and update histories; non-trivial shapes are distinct (function, change, sizes)",
        "Agreement is with an independent implementation written from the published construction.",
    ),
    "C20": m(
        "runtime monitoring of encoders, number bases, file helpers and generator tools against plain models; round-trip, "
        "alphabet and refusal oracles",
        "byte strings and numbers around powers of two, every size and base limit, foreign symbols, chunk sizes around lengths; "
        "non-trivial shapes are distinct (helper, interface, length, size)",
        "Inputs are sampled. Only non-negative numbers and bases from two on; leading zero bytes have no place in a filename.",
    ),
    "C21": m(
        "runtime monitoring of passphrase hashing against an independent implementation of the published algorithm; "
        "binding, uniqueness and acceptance oracles over changed inputs",
        "small costs with passphrases, salts and AADs changed in one place, hashes damaged in every field, costs outside the "
        "allowed range; non-trivial shapes are distinct (costs, change, interface)",
        "Costs are small so that many hashes can be compared; the reference reads the published constants from the package.",
    ),
    "C22": m(
        "runtime monitoring of complete exchanges with every public value replaced in transit; agreement and difference oracles",
        "plain, double and triple exchanges in mixed interfaces with one value replaced, reused or malformed; non-trivial shapes "
        "are distinct (protocol, interfaces, replaced value)",
        "Explores substitutions of whole keys and malformed encodings, not cryptanalysis.",
    ),
    "C23": m(
        "runtime monitoring of signatures and package summaries under systematic changes; acceptance and refusal oracles and an "
        "executable model of the signer's versions",
        "every field of a summary, file and signature changed singly, histories of signing, reopening and updating; non-trivial "
        "shapes are distinct (field, change) and histories",
        "Explores changes an outsider can make without the signing key.",
    ),
    "C24": m(
        "runtime monitoring of identifier generators under a controlled clock and a repeating random source; uniqueness, exact "
        "field and order oracles, with threads paused at random lines",
        "bursts of up to 256 calls in one instant at every size, counter wrap-around, 2 to 256 nodes under one key, racing tasks "
        "and threads; non-trivial shapes are distinct (size, burst, counter position) and races",
        "Histories and schedules are sampled. One instance per key and node, and a clock that does not run backwards.",
    ),
    "C25": m(
        "runtime monitoring of permutations and sequence identifiers: exhaustive over one- and two-byte domains, targeted and "
        "random values in wider ones; inverse, distinctness and agreement oracles",
        "all sizes, random and extreme keys, values at both ends and those that leave the domain on the way (found by measuring "
        "the maps), random tweaks; non-trivial shapes are distinct (kind, size, interfaces)",
        "Keys are sampled; one- and two-byte domains are covered whole for each of them.",
    ),
}
NOT_APPLICABLE = {}
