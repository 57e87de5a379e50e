"""What each check runs: jobs are (build variant, seconds, only this engine or None)"""

RULES = {
    "common": "evaluations counts executed cases (one case is one generated history on one or more arenas with one "
              "Ptr type). distinct_nontrivial counts distinct histories (hash over all operations with their operands) "
              "in which at least one event relevant for the property was observed by a monitor.",
    "assumptions": [
        "verdict is about the executions observed; nothing is claimed about executions that were not generated",
        "the reference models and monitors in /verif/harness are right",
    ],
}


def std(secs=22, plain=6, serde=2):
    return [("plain", secs, None)] * plain + [("serde", secs, None)] * serde


def scaled(secs=22):
    """like `std`, with one worker for big arenas"""
    return std(secs, 5, 2) + [("plain", secs, "scale")]


MODEL = "runtime monitoring: randomized histories checked online against a reference model"

PROPS = {
    "C01": {
        "level": "exploration", "jobs": scaled(),
        "technique": MODEL + " with stale, forged and foreign Ptrs",
        "rule": "Relevant events: a stale Ptr was presented to lookups of an arena with generations and rejected, or a live one accepted.",
    },
    "C02": {
        "level": "exploration", "jobs": scaled(), "technique": MODEL + " (map from Ptr to value)",
        "rule": "Relevant events: full comparisons of an Arena with the map model, and successful operations of each kind.",
    },
    "C03": {
        "level": "exploration", "jobs": scaled(), "technique": MODEL + " (set of linear and cyclic lists)",
        "rule": "Relevant events: full comparisons of a chain arena with the list model, and successful relinking operations.",
    },
    "C04": {
        "level": "exploration", "jobs": scaled(), "technique": MODEL + " (partition with one value per set)",
        "rule": "Relevant events: full comparisons of a SurjectArena with the partition model, unions and removals.",
    },
    "C05": {
        "level": "exploration", "jobs": scaled(), "technique": MODEL + " (sorted list)",
        "rule": "Relevant events: full comparisons of an OrdArena with the sorted list, lookups of present and absent keys, insertions of duplicates, manual insertions.",
    },
    "C06": {
        "level": "exploration", "jobs": std(), "technique": "runtime monitoring: comparison counting on hooked keys against the documented bound",
        "rule": "Relevant events: lookups whose comparisons were counted, bulk operations before lookups.",
    },
    "C07": {
        "level": "exploration", "jobs": std(), "technique": "runtime monitoring: keys with hostile comparison functions, structure followed by position",
        "rule": "Relevant events: operations and full structural comparisons while the ordering of the keys is inconsistent.",
    },
    "C08": {
        "level": "exploration", "jobs": std(), "technique": "runtime monitoring: registry of instrumented values (births, clones, drops)",
        "rule": "Relevant events: cases in which every value born was accounted for at the end.",
    },
    "C09": {
        "level": "exploration",
        "jobs": [("plain", 25, None)] * 4 + [("asan", 25, None)] * 4,
        "miri": {
            "secs": 75,
            "jobs": [("layout", ""), ("panics", "-Zmiri-ignore-leaks -Zmiri-tree-borrows"), ("layout", "-Zmiri-tree-borrows"),
                     ("layout", "-Zmiri-symbolic-alignment-check -Zmiri-strict-provenance"),
                     ("panics", "-Zmiri-ignore-leaks"), ("arena", "-Zmiri-ignore-leaks"),
                     ("surject", "-Zmiri-ignore-leaks"), ("ord", "-Zmiri-ignore-leaks -Zmiri-tree-borrows")],
        },
        "technique": "runtime monitoring: Miri, AddressSanitizer and a checking allocator under random histories with hostile element layouts",
        "rule": "Relevant events: histories during which no monitor (interpreter, sanitizer, allocator, value registry) reported anything, completed histories with hostile element layouts, injected panics.",
    },
    "C10": {
        "level": "exploration", "jobs": scaled(), "technique": "runtime monitoring: advancer loops with mutating bodies, trace checked for completeness and duplicates",
        "rule": "Relevant events: advances, mutations during loops and completed loops.",
    },
    "C11": {
        "level": "exploration", "jobs": scaled(), "technique": MODEL + ", all iterators and drains",
        "rule": "Relevant events: complete iterations and full or abandoned drains.",
    },
    "C12": {
        "level": "exploration", "jobs": scaled(), "technique": MODEL + ", clone parentage tracked per value",
        "rule": "Relevant events: clonings (new, into existing, mapped) and conversions.",
    },
    "C13": {
        "level": "exploration", "jobs": scaled(), "technique": MODEL + ", relocation reports checked",
        "rule": "Relevant events: compressions (with holes) and recasts, also with unknown Ptrs.",
    },
    "C14": {
        "level": "exploration", "jobs": [("serde", 22, None)] * 7 + [("serde", 22, "scale")], "technique": MODEL + ", serialized and deserialized in three formats in the middle of the history",
        "rule": "Relevant events: round trips per format, refused serializations of uncompressed OrdArenas, use of the result afterwards.",
    },
    "C15": {
        "level": "exploration", "jobs": [("serde", 22, None)] * 8, "technique": "runtime monitoring: hostile documents, verdict of an independent validator against the result, accepted arenas monitored in further use",
        "rule": "Relevant events: documents accepted or rejected (undisturbed, semantically inconsistent, damaged bytes) and uses of accepted arenas.",
    },
    "C16": {
        "level": "exploration", "jobs": std(), "technique": "runtime monitoring: boundary workloads with 8 and 16 bit indexes and generations",
        "rule": "Relevant events: operations near a limit, limits reached, limit panics caught.",
    },
    "C17": {
        "level": "exploration", "jobs": std(), "technique": MODEL + ", state compared before and after rejection",
        "rule": "Relevant events: rejected operations.",
    },
    "C18": {
        "level": "exploration", "jobs": scaled(), "technique": "runtime monitoring: capacity trace checked after every operation, memory and allocations counted by the allocator",
        "rule": "Relevant events: reservations, clears and other operations with an expectation on capacity, measurements of the memory held.",
    },
    "C19": {
        "level": "exploration", "jobs": scaled(), "technique": "runtime monitoring: comparison of arenas that differ in one aspect against observed contents",
        "rule": "Relevant events: compared pairs that are equal and pairs that differ in one aspect.",
    },
    "C20": {
        "level": "fault_enumeration", "jobs": std(), "technique": "runtime monitoring with fault injection: a panic at every call into user code of an operation in turn",
        "rule": "Relevant events: operations that ran into an injected panic and the use of the arena after it. Every call of user code (clone, drop, comparison, closure) of the chosen operation is failed in turn.",
    },
    "C21": {
        "level": "exploration", "jobs": std(), "technique": "runtime monitoring: rendered SVG of random graphs parsed and compared with the declared graph",
        "rule": "Relevant events: complete comparisons of a drawing with its graph, edges found (direct, broken, to invalid Ptrs), annotations found at their lines, reported invalid Ptrs.",
    },
    "C22": {
        "level": "exploration", "jobs": std(), "technique": "runtime monitoring: rendered SVG of random graphs with hostile texts read by a strict parser, geometry checked",
        "rule": "Relevant events: drawings whose geometry was examined, files written.",
    },
    "C23": {
        "level": "exploration", "jobs": scaled(), "technique": "runtime monitoring: generation trace checked after every operation",
        "rule": "Relevant events: operations that must and operations that must not increment the generation.",
    },
    "C24": {
        "level": "exploration", "jobs": std(plain=4, serde=2), "technique": "runtime monitoring: CPU time of operations on small and big arenas compared",
        "rule": "Relevant events: operations and bulk operations whose cost was measured on a small and a big arena.",
    },
    "C25": {
        "level": "exploration", "jobs": std(12, 4, 4), "technique": "runtime monitoring: Ptr types of all widths probed at limits against pairs of integers, short histories with each",
        "rule": "Relevant events: Ptr types probed with 40 values and pairs each, short histories on an Arena and a ChainArena.",
    },
    "C26": {
        "level": "exploration", "jobs": std(12, 4, 4), "technique": "runtime monitoring: texts of arenas and links read back word by word, comparison and hashing of links against tuples",
        "rule": "Relevant events: arenas shown in both forms after a short history, links shown in all forms, pairs of links compared.",
    },
}
