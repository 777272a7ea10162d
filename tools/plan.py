"""Which binaries decide which property, and how"""

BINARIES = {
    "hist": {"crate": "harness", "bin": "hist"},
    "raw": {"crate": "harness", "bin": "raw"},
    "geo": {"crate": "harness", "bin": "geo"},
    "points": {"crate": "harness", "bin": "points"},
    "custom": {"crate": "harness", "bin": "custom"},
    "params": {"crate": "harness", "bin": "params"},
    "join": {"crate": "harness", "bin": "join"},
    "wrap": {"crate": "harness", "bin": "wrap"},
    "work": {"crate": "harness", "bin": "work"},
    "faults": {"crate": "harness", "bin": "faults"},
    "own": {"crate": "harness", "bin": "own"},
    "conc": {"crate": "harness", "bin": "conc"},
    "serdes": {"crate": "harness", "bin": "serdes", "args": ["--features", "serde"], "target": "serdes"},
    "tsan": {
        "crate": "harness", "bin": "conc", "nightly": True, "triple": "x86_64-unknown-linux-gnu", "target": "tsan",
        "args": ["-Zbuild-std"], "unlimited_memory": True, "reports": ["ThreadSanitizer"],
        "env": {"RUSTFLAGS": "-Zsanitizer=thread", "TSAN_OPTIONS": "halt_on_error=1"},
    },
    "asan": {
        "crate": "harness", "bin": "own", "nightly": True, "triple": "x86_64-unknown-linux-gnu", "target": "asan",
        "unlimited_memory": True, "reports": ["AddressSanitizer"],
        "env": {"RUSTFLAGS": "-Zsanitizer=address", "ASAN_OPTIONS": "detect_leaks=0"},
    },
    "plain": {
        "crate": "harness", "bin": "own", "target": "plain", "profile": "plain", "args": ["--profile", "plain"],
        "env": {"OWN_STACK_ONLY": "1"},
    },
    "miri": {
        "crate": "miri", "bin": "miri-check", "nightly": True, "miri": True, "target": "miri", "shards": 8,
        "unlimited_memory": True, "reports": ["Undefined Behavior"], "skip": ["unsupported operation"],
        "env": {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks"},
    },
}

# The same programs once more without debug assertions and overflow checks
for _name, _share in {"hist": 10, "geo": 10, "params": 1, "wrap": 8, "faults": 4, "points": 8, "custom": 6, "conc": 8}.items():
    BINARIES["shipped-" + _name] = {
        "crate": "harness", "bin": _name, "target": "shipped", "profile": "shipped",
        "args": ["--profile", "shipped", "--features", "mini"], "env": {"HARNESS_SHARE": str(_share)},
    }
BINARIES["shipped-serdes"] = {
    "crate": "harness", "bin": "serdes", "target": "shipped-serdes", "profile": "shipped",
    "args": ["--profile", "shipped", "--features", "mini,serde"], "env": {"HARNESS_SHARE": "6"},
}
BINARIES["asan"].update(args=["--profile", "shipped"], profile="shipped")

EXACT = ("coordinates lie on a grid on which all arithmetic of the scalar type is exact and does not overflow; "
         "NaN and infinite coordinates are outside the domain")
MODEL = "the model of the contents (a multiset updated with what was put in and handed out) and its exact integer geometry"
PLAN = {}


def plan(prop, runs, technique, assumptions, note, **kw):
    PLAN[prop] = dict({"level": "exploration", "runs": runs, "technique": technique, "assumptions": assumptions, "note": note}, **kw)


REACH = "Held on the executions produced; says nothing about inputs the workload never reaches."
for p, runs in {
    "C01": ["hist"], "C02": ["hist", "raw"], "C03": ["hist"], "C04": ["hist", "raw"], "C05": ["hist", "raw"],
    "C06": ["hist", "raw"], "C07": ["hist", "raw"], "C08": ["hist", "raw"], "C09": ["hist", "raw"], "C10": ["hist"],
    "C11": ["hist"], "C12": ["hist", "join"], "C13": ["hist"], "C22": ["hist"],
}.items():
    plan(p, runs + ["shipped-hist"], "runtime monitoring: the real tree runs random, adversarial and boundary histories beside an executable "
         "reference model; an oracle judges every answer and the whole state",
         [EXACT + (" (the raw workload uses arbitrary finite floats and judges only by comparisons that rounding cannot affect)" if "raw" in runs else ""),
          "trusted: " + MODEL], REACH)
plan("C14", ["serdes", "shipped-serdes"], "runtime monitoring: histories interrupted by round trips through six formats; original and copy are compared "
     "node by node and go on side by side under the reference model",
     [EXACT, "trusted: serde, serde_json (with float_roundtrip) and ciborium; " + MODEL,
      "the nesting depth of the formats limits the tree depth (JSON: 128 levels)"], REACH)
plan("C15", ["conc", "shipped-conc", "tsan"], "runtime monitoring: structural digests before and after every read, concurrent readers and clones "
     "compared with sequential answers under injected yields, and ThreadSanitizer on the same workload",
     [EXACT, "interleavings are those the scheduler and the injected yields produce; ThreadSanitizer also judges orders that did not occur"], REACH)
plan("C16", ["geo", "shipped-geo"], "runtime monitoring: every box operation on generated and boundary boxes judged by exact integer geometry",
     [EXACT], REACH)
plan("C17", ["geo", "shipped-geo"], "runtime monitoring: every shape operation judged by exact integer or rational geometry, lines within stated rounding bounds",
     [EXACT, "lines: up to floating-point rounding; lines over integer scalars only of zero length"], REACH)
plan("C18", ["wrap", "shipped-wrap"], "runtime monitoring: trees of wrapped and of bare elements run side by side; calls of the element's own methods are counted",
     [EXACT, "a borrowed element outlives its tree"], REACH)
plan("C19", ["params", "shipped-params"], "runtime monitoring: all parameter sets up to a size bound constructed, rejections compared with the stated rule, "
     "legal ones exercised under the reference model", [EXACT, "trusted: " + MODEL],
     "Every set with a maximum up to 9, a minimum up to 6 and a reinsertion count up to 8 is constructed; larger ones are sampled at the borders of the rule.")
plan("C20", ["own", "plain", "asan", "miri"], "runtime monitoring: ownership ledger, counting allocator, small stacks; AddressSanitizer and the Miri "
     "interpreter on the same kind of histories",
     ["the memory bounds are constant factors measured on this code with a margin of at least 1.8", "minimum node size of at least two for stack and memory bounds",
      "Miri interprets small trees only, with soft-float libm"], REACH)
plan("C21", ["work"], "runtime monitoring: inspections of elements and boxes are counted on large trees and compared with bounds "
     "proportional to node size times depth; the median time of each operation is compared with the time of a walk through the tree",
     ["bounds are 2.5 times the most seen on this code over 15 000 trees; a slower growth of the cost than that goes unnoticed",
      "element counts up to about 60 000 (quick) or 500 000 (thorough)"], REACH)
plan("C23", ["faults", "shipped-faults"], "runtime monitoring with fault injection: a panic at each single call of user code, then a walk of the whole tree, "
     "later queries and updates, and a drop ledger",
     ["envelope() of elements does not panic (putting a drained tree back together needs it)",
      "the panic unwinds; trees of up to 160 elements"],
     "Within each operation of each history every call of user code is struck once; the histories themselves are sampled.",
     level="fault_enumeration")
plan("C24", ["points", "raw", "shipped-points"], "runtime monitoring: the same histories over every point representation and scalar type, judged by exact integer geometry",
     [EXACT, "trusted: " + MODEL], REACH)
plan("C25", ["custom", "shipped-custom"], "runtime monitoring: histories on trees of user-defined labelled boxes under three metrics beside a list; the user's types "
     "check how they are driven, and the user's insertion strategy counts its calls",
     ["integer coordinates that do not overflow", "the user's types satisfy what the traits document: boxes enclose what they merge, metrics agree, "
      "every face of a box is touched by an element", "trusted: the list of the contents and integer geometry"], REACH)
