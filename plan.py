"""Which configurations are built and which monitors run on them."""
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent
RELEASE = ["--release"]
FULL = ["--features", "pm,loc"]
EXEMPT = "--cfg procmacro2_semver_exempt"
# what the build script turns on for compilers older than 1.79 (the oldest supported is 1.71)
OLD = "--cfg no_literal_byte_character --cfg no_literal_c_string"
X86 = "x86_64-unknown-linux-gnu"

CONFIGS = {
    # compiler integration (fallback outside a macro), locations, assertions on
    "w": {"args": RELEASE + FULL, "exe": "release/mon"},
    # no features at all: the plain fallback, as optimised by default
    "n": {"args": ["--profile", "plain"], "exe": "plain/mon"},
    # unstable API on stable: no compiler integration
    "x": {"args": RELEASE + FULL, "exe": "release/mon", "env": {"RUSTFLAGS": EXEMPT}},
    # unstable API on nightly: compiler integration and its unstable parts
    "y": {"args": RELEASE + FULL, "exe": "release/mon", "toolchain": "+nightly", "env": {"RUSTFLAGS": EXEMPT}},
    # unstable API, nothing else, as optimised by default
    "xp": {"args": ["--profile", "plain"], "exe": "plain/mon", "env": {"RUSTFLAGS": EXEMPT}},
    # locations only, unoptimised
    "ld": {"args": ["--features", "loc"], "exe": "debug/mon"},
    # compiler integration only (the crate's default features), as optimised by default
    "pp": {"args": ["--profile", "plain", "--features", "pm"], "exe": "plain/mon"},
    "np": {"args": ["--profile", "plain", "--features", "pm,loc"], "exe": "plain/mon", "toolchain": "+nightly"},
    # address sanitizer
    "asan": {"args": RELEASE + FULL + ["--target", X86], "exe": X86 + "/release/mon", "toolchain": "+nightly",
             "env": {"RUSTFLAGS": "-Zsanitizer=address"},
             "run_env": {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0"}},
    # thread sanitizer, standard library instrumented too
    "tsan": {"args": RELEASE + FULL + ["-Zbuild-std", "--target", X86], "exe": X86 + "/release/mon", "toolchain": "+nightly",
             "env": {"RUSTFLAGS": "-Zsanitizer=thread"},
             "run_env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}},
    # interpreter
    "miri": {"sub": ["miri", "run"], "args": FULL, "build_args": ["--", "NOOP"], "toolchain": "+nightly", "miri": True,
             "env": {"MIRIFLAGS": "-Zmiri-disable-isolation"}, "run_env": {"MIRIFLAGS": "-Zmiri-disable-isolation"}},
    "mirin": {"sub": ["miri", "run"], "args": [], "build_args": ["--", "NOOP"], "toolchain": "+nightly", "miri": True,
              "env": {"MIRIFLAGS": "-Zmiri-disable-isolation"}, "run_env": {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-tree-borrows"}},
    # monitors that run inside the compiler, as a procedural macro
    "pm": {"args": RELEASE + ["--features", "loc"], "exe": "release/libpmmon.so", "crate": "pmharness", "inside": "-"},
    "pmn": {"args": RELEASE + ["--features", "loc"], "exe": "release/libpmmon.so", "crate": "pmharness", "inside": "+nightly", "toolchain": "+nightly"},
    "pmy": {"args": RELEASE + ["--features", "loc"], "exe": "release/libpmmon.so", "crate": "pmharness", "inside": "+nightly", "toolchain": "+nightly",
            "env": {"RUSTFLAGS": EXEMPT}},
    # the same without compiler integration: the unstable API on stable
    "pmx": {"args": RELEASE + ["--no-default-features", "--features", "inx,loc"], "exe": "release/libpmmon.so", "crate": "pmharness", "inside": "-",
            "env": {"RUSTFLAGS": EXEMPT}},
    "pmp": {"args": ["--profile", "plain"], "exe": "plain/libpmmon.so", "crate": "pmharness", "inside": "-"},
    # as built by an old compiler
    "pmo": {"args": RELEASE + ["--features", "loc"], "exe": "release/libpmmon.so", "crate": "pmharness", "inside": "-", "env": {"RUSTFLAGS": OLD}},
    # nightly, not allowed to use unstable features
    "pma": {"args": RELEASE + ["--features", "loc"], "exe": "release/libpmmon.so", "crate": "pmharness", "inside": "+nightly", "toolchain": "+nightly",
            "env": {"RUSTFLAGS": "-Zallow-features="}},
    # compiler integration, for forcing outside a macro
    "ww": {"args": RELEASE + ["--features", "wrap,loc"], "exe": "release/mon"},
    # more corners of the build matrix, for C21
    "nd": {"args": [], "exe": "debug/mon"},
    "lp": {"args": ["--profile", "plain", "--features", "loc"], "exe": "plain/mon"},
    "nn": {"args": RELEASE, "exe": "release/mon", "toolchain": "+nightly"},
    "pb": {"args": RELEASE + ["--features", "pm"], "exe": "release/mon", "env": {"RUSTC_BOOTSTRAP": "1"}},
    "yp": {"args": ["--profile", "plain", "--features", "pm"], "exe": "plain/mon", "toolchain": "+nightly", "env": {"RUSTFLAGS": EXEMPT}},
}


def command(cfg, exe, run):
    if cfg.get("miri"):
        return ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--target-dir", str(exe),
                "--manifest-path", str(VERIF / "harness/Cargo.toml")] + cfg["args"] + ["--"]
    if cfg.get("inside"):
        return ["python3", str(VERIF / "pmdrive.py"), str(exe), cfg["inside"]]
    return [str(exe)]


def is_harness_error(text):
    """the tool cannot run the case (says nothing about the code)"""
    return any(s in text for s in (
        "error: unsupported operation", "error: could not compile", "FATAL: ThreadSanitizer", "LeakSanitizer has encountered a fatal error",
        "no suite ", "Blocking waiting for file lock on package cache\nerror"))


GEN = ("Cases come from deterministic seeded generators: every string over small themed alphabets up to a length, "
       "grammar-built sources with known tokens, token soups, mutated sources and the Rust standard library's own files. ")
TEXT = "runtime monitoring: online reference-lexer oracle over exhaustive small-alphabet, grammar-generated, mutated and real-source workloads"
MODEL = "runtime monitoring: online model-based checker over generated operation histories"


def q(quick, thorough):
    return {"quick": quick, "thorough": thorough}


PROPS = {
    "C01": {
        "technique": "runtime monitoring: crash, panic, overflow-check, stack and hang watchdog over exhaustive and hostile inputs on small stacks",
        "runs": [
            {"config": "w", "scale": q(400, 400)},
            {"config": "n", "scale": q(200, 200)},
            {"config": "x", "scale": q(100, 100)},
            {"config": "ld", "scale": q(30, 30)},
        ],
        "rule": GEN + "Non-trivial: a distinct input given to the parser and walked to the end.",
        "must_observe": ["accepted", "refused", "deeply nested inputs"],
    },
    "C07": {
        "technique": "runtime monitoring: independent literal evaluator as oracle over all bytes, 16-bit integers, characters and sampled wide values",
        "runs": [{"config": "w", "scale": q(500, 300)}, {"config": "n", "scale": q(200, 100)}, {"config": "x", "scale": q(100, 100)}],
        "rule": "Values: every 8- and 16-bit integer, every character, every byte pair, boundary and random wide integers, floats and strings. Non-trivial: a distinct value whose printed literal was decoded and compared.",
        "must_observe": ["floats", "characters", "byte pairs", "non-finite floats refused", "strings of each kind"],
    },
    "C09": {
        "technique": "runtime monitoring: independent escape decoder as oracle over exhaustive and generated literals",
        "runs": [{"config": "x", "scale": q(300, 200)}, {"config": "xp", "scale": q(100, 100)}, {"config": "y", "scale": q(100, 50)}],
        "rule": "Literals: every short text over escape alphabets, every escape of every code point, generated literals, constructed ones and all string literals of the standard library's sources. Non-trivial: a distinct literal whose decoded value was compared.",
        "must_observe": ["other kinds refused", "real source files"],
    },
    "C10": {
        "technique": "runtime monitoring: validity and comparison oracle over every character and generated words",
        "runs": [{"config": "w", "scale": q(500, 300)}, {"config": "n", "scale": q(200, 100)}, {"config": "x", "scale": q(100, 100)}],
        "rule": "Words: every Unicode scalar value as first and later character, keywords and edge words, every short string over an identifier alphabet, random words. Non-trivial: a distinct word on which creation was judged, or a distinct pair compared.",
        "must_observe": ["identifiers created", "invalid identifiers refused", "raw identifiers created", "invalid raw identifiers refused", "identifiers parsed", "strings of another beginning compared"],
    },
    "C11": {
        "technique": "runtime monitoring: independent position bookkeeping as oracle over generated sources queried repeatedly in random order",
        "runs": [{"config": "w", "scale": q(300, 300)}, {"config": "x", "scale": q(100, 100)}],
        "rule": GEN + "Non-trivial: a distinct source all of whose tokens' locations were compared with independently computed ones.",
        "must_observe": ["locations compared", "location queries", "sources with multi-byte characters"],
    },
    "C12": {
        "technique": MODEL + " (parse, query, invalidate, drop)",
        "runs": [{"config": "w", "scale": q(300, 200)}, {"config": "x", "scale": q(100, 100)}],
        "rule": "Histories of parses, refused parses, literal parses, location queries and discards, with a model of every live location. Non-trivial: a distinct history.",
        "must_observe": ["old locations queried", "invalidations", "gigabytes of source", "bytes released by discarding", "fresh locations after discarding"],
    },
    "C13": {
        "technique": "runtime monitoring: byte-range arithmetic oracle over random location combinations",
        "runs": [{"config": "w", "scale": q(300, 300)}, {"config": "x", "scale": q(300, 100)}],
        "rule": GEN + "Non-trivial: a distinct source whose locations were joined, cut and assigned and compared.",
        "must_observe": ["joins compared", "joins across sources", "subspans compared", "subspans out of bounds", "subspans through characters", "subspans asked with bounds that use the library", "tokens moved", "group delimiters compared"],
    },
    "C14": {
        "technique": "runtime monitoring: reference-lexer error positions as oracle over refused inputs",
        "runs": [{"config": "w", "scale": q(300, 300)}, {"config": "x", "scale": q(100, 100)}],
        "rule": GEN + "Non-trivial: a distinct refused input whose error position was judged.",
        "must_observe": ["error positions queried again", "errors far in or far down", "errors printed after their source was discarded"],
    },
    "C15": {
        "technique": MODEL,
        "runs": [{"config": "w", "scale": q(300, 200)}, {"config": "n", "scale": q(200, 100)}, {"config": "x", "scale": q(100, 50)}],
        "rule": "Histories of stream operations against a sequence model, and every short construction sequence. Non-trivial: a distinct history.",
        "must_observe": ["operations", "construction sequences", "long streams"],
    },
    "C16": {
        "technique": MODEL + " with injected iterator panics",
        "runs": [{"config": "w", "scale": q(300, 200)}, {"config": "n", "scale": q(200, 100)}, {"config": "x", "scale": q(100, 50)}],
        "rule": "Histories of clones, extensions, consumptions, re-locations, drops and interrupted operations; every holder is compared with its model after every step. Non-trivial: a distinct history.",
        "must_observe": ["operations", "iterator panics injected", "holders compared"],
    },
    "C17": {
        "technique": "sanitizers: Miri (stacked and tree borrows, races), AddressSanitizer, ThreadSanitizer and a counting allocator over operation histories, hostile sources and racing threads",
        "runs": [{"config": "w", "scale": q(300, 200)}, {"config": "n", "scale": q(100, 100)},
                 {"config": "asan", "scale": q(100, 200)},
                 {"config": "miri", "suite": "M17", "scale": q(100, 2000)},
                 {"config": "mirin", "suite": "M17", "scale": q(40, 1000)},
                 {"config": "tsan", "suite": "C18", "scale": q(30, 100)},
                 {"config": "miri", "suite": "M18", "shards": 4, "env": {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-seed={shard}{seed}7"}}],
        "rule": "Operation histories, hostile sources, deep structures and constructed values, each run between two readings of a counting allocator; the same kinds of case under AddressSanitizer and interpreted by Miri. Non-trivial: a distinct case that ended with balanced memory.",
        "must_observe": ["balanced cases", "races interpreted", "races in one process", "operations interpreted", "sources interpreted", "iterator panics injected", "deeply nested inputs"],
    },
    "C21": {
        "technique": "runtime monitoring: differential digests of identical call sequences in every build configuration",
        "runs": [{"config": c, "scale": q(150, 100)} for c in ("n", "w", "x", "pp", "np", "y", "lp")]
                + [{"config": c, "scale": q(150, 100)} for c in ("ld", "nd")]
                + [{"config": c, "scale": q(150, 100), "tiers": ("thorough",)} for c in ("xp", "nn", "pb", "yp")],
        "rule": "The same deterministic calls (sources of every generator, literals, values, identifiers, puncts, stream histories) run in every configuration; everything observed is digested per block of about 100 calls and compared between configurations. Non-trivial: a distinct block digest.",
        "must_observe": ["digests compared", "observations digested"],
    },
    "C18": {
        "technique": "sanitizers and runtime monitoring: ThreadSanitizer, Miri race detection and a solo-run oracle over racing threads and processes",
        "runs": [{"config": "w", "scale": q(500, 500)}, {"config": "n", "scale": q(200, 200)}, {"config": "x", "scale": q(100, 100)},
                 {"config": "tsan", "scale": q(100, 300)},
                 {"config": "miri", "suite": "M18", "shards": 8, "env": {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-seed={shard}{seed}"}, "tiers": ("quick",)},
                 {"config": "miri", "suite": "M18", "shards": 64, "env": {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-many-seeds-keep-going -Zmiri-seed={shard}{seed}"}, "tiers": ("thorough",)}],
        "rule": "Fresh processes whose first use races on many threads, and groups of threads that start, work, toggle the fallback and exit; every thread's observations are compared with a solo run. Non-trivial: a distinct group of threads.",
        "must_observe": ["threads run", "concurrent operations", "fallback toggles"],
    },
}
PROPS.update({
    "C19": {
        "technique": "runtime monitoring: monitors run inside the compiler as a procedural macro, results outside and the compiler's diagnostics as oracle",
        "runs": [{"config": "pm", "scale": q(900, 200)}, {"config": "pmn", "scale": q(300, 100)}, {"config": "pmy", "scale": q(300, 100)},
                 {"config": "pmp", "scale": q(300, 100)}, {"config": "pmo", "scale": q(100, 100)},
                 {"config": "pma", "scale": q(100, 100), "tiers": ("thorough",)}],
        "rule": GEN + "Each runs inside rustc, once with the compiler and once forced to the fallback. Non-trivial: a distinct source, literal, identifier or value on which both were compared.",
        "must_observe": ["tokens agreed", "refused alike", "literals agreed", "literals refused alike", "constructed literals agreed", "identifiers agreed", "invalid identifiers refused alike"],
    },
    "C20": {
        "technique": "runtime monitoring: model-based checker of operation histories run inside the compiler, cross-checked through the compiler's own API",
        "runs": [{"config": "pm", "scale": q(900, 200)}, {"config": "pmn", "scale": q(300, 100)}, {"config": "pmy", "scale": q(300, 100)},
                 {"config": "pmp", "scale": q(300, 100)},
                 {"config": "pma", "scale": q(100, 100), "tiers": ("thorough",)},
                 {"config": "pmx", "suite": "X20", "scale": q(100, 100)}],
        "rule": "Histories of stream operations inside rustc against a sequence model with locations, with conversions to and from the compiler's type and injected iterator panics. Non-trivial: a distinct history.",
        "must_observe": ["operations", "conversions", "input locations compared", "iterator panics injected", "long streams", "streams converted as text"],
    },
    "C22": {
        "technique": "runtime monitoring: mode-switching histories inside the compiler with a keep-or-refuse oracle, and differential digests of forced runs",
        "runs": [{"config": "pm", "scale": q(300, 200)}, {"config": "pmn", "scale": q(100, 100)}, {"config": "pmy", "scale": q(100, 100)},
                 {"config": "pma", "scale": q(100, 100), "tiers": ("thorough",)},
                 {"config": "ww", "suite": "O22", "scale": q(200, 100)},
                 {"config": "pm", "suite": "C21", "scale": q(30, 30), "env": {"MON_FORCE": "1"}},
                 {"config": "pmy", "suite": "C21", "scale": q(30, 30), "env": {"MON_FORCE": "1"}},
                 {"config": "pmx", "suite": "C21", "scale": q(30, 30)},
                 {"config": "ww", "suite": "C21", "scale": q(30, 30)}],
        "rule": "Values made by the compiler and by the fallback are combined in every way the API has, in both modes; sources parsed while forced are converted; the C21 call sequences run forced inside rustc and outside and are compared by digest. Every constructor is called in random order between switches of the mode and each value's side is asked. Non-trivial: a distinct combination, converted source or digest block.",
        "must_observe": ["combinations tried", "sides asked", "forced streams converted", "fallback toggles outside", "digests compared"],
    },
})
# the same claims inside a procedural macro
PROPS["C07"]["runs"].append({"config": "pm", "suite": "P07", "scale": q(30, 100)})
PROPS["C09"]["runs"].append({"config": "pmy", "suite": "P09", "scale": q(50, 100)})
PROPS["C10"]["runs"].append({"config": "pm", "suite": "P10", "scale": q(50, 100)})
PROPS["C13"]["runs"].append({"config": "pmy", "suite": "C20", "scale": q(50, 100)})
PROPS["C23"] = {
    "technique": "runtime monitoring: CPU-time and allocation meters over workloads of growing size, with a growth-rate oracle",
    "runs": [{"config": "w", "scale": q(100, 100)}, {"config": "n", "scale": q(50, 50)}, {"config": "x", "scale": q(50, 50)},
             {"config": "pm", "suite": "P23", "shards": 2}, {"config": "pmn", "suite": "P23", "shards": 2, "tiers": ("thorough",)}],
    "rule": "Sources of every repetitive form, repeated random text and every way of building, copying and taking apart streams, each at sizes growing by 8 up to 65 536 or 524 288 units, and groups nested up to 8 192 deep; thread CPU time, bytes allocated and peak live bytes of each stage are compared over a 64-fold growth. Non-trivial: a distinct form or text measured at every size.",
    "must_observe": ["costs compared", "nesting costs compared", "costs compared inside a macro"],
}
PROPS["C24"] = {
    "technique": "runtime monitoring: determinism and injectivity oracle on debug output over generated histories and sources, with injected writer failures",
    "runs": [{"config": "w", "scale": q(300, 200)}, {"config": "n", "scale": q(200, 100)}, {"config": "x", "scale": q(100, 50)},
             {"config": "pm", "suite": "P24", "scale": q(100, 50)}, {"config": "pmn", "suite": "P24", "tiers": ("thorough",)}],
    "rule": "Streams, tokens and iterators left by generated histories and parsed sources, each against the same tokens put together differently and against a copy with one difference. Non-trivial: a distinct history or source.",
    "must_observe": ["debug texts compared", "debug texts into writers that use the library", "near misses told apart", "debug texts of errors", "locations told apart", "writer failures injected"],
}
for _p, _rule in {
    "C02": "a distinct input whose tokens were compared with the reference lexer's",
    "C03": "a distinct input on whose acceptance the reference lexer has a verdict",
    "C04": "a distinct input with comments or whitespace whose tokens were compared",
    "C05": "a distinct stream printed, parsed again and compared token by token",
    "C06": "a distinct input whose puncts' spacing was compared",
    "C08": "a distinct text given to Literal::from_str and judged",
}.items():
    PROPS[_p] = {
        "technique": TEXT,
        "runs": [{"config": "w", "scale": q(400, 100)},
                 {"config": "n", "scale": q(200, 30)},
                 {"config": "x", "scale": q(100, 20)}],
        "rule": GEN + "Non-trivial: " + _rule + ".",
    }
PROPS["C08"]["runs"].append({"config": "pm", "suite": "C19", "scale": q(100, 100), "env": {"MON_PHASE": "literals"}})
for _p in ("C02", "C06"):
    PROPS[_p]["runs"].append({"config": "pm", "suite": "C19", "scale": q(100, 100), "env": {"MON_PHASE": "glued"}})
PROPS["C03"]["runs"].append({"config": "pm", "suite": "C19", "scale": q(100, 100), "env": {"MON_PHASE": "mutated"}})
for _p in ("C05", "C15", "C16"):
    PROPS[_p]["runs"].append({"config": "pm", "suite": "C20", "scale": q(100, 100)})
PROPS = dict(sorted(PROPS.items()))
