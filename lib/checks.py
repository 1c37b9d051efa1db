"""What each property's check builds, runs and watches."""
import concurrent.futures
import os
import re

import core
import fixture

CHECKS = {}


def check(pid):
    def deco(f):
        CHECKS[pid] = f
        return f

    return deco


def with_fixture(r, bin_, scale=0, big=False, features=(), **k):
    """Builds a monitor together with a freshly generated set of macro invocations."""
    path = os.path.join(r.work, "fixture.rs")
    f = fixture.standard(r.seed, path, scale, big)
    r.extra["generated_macro_invocations"] = f.n
    return r.build_or_stop(bin_, features=["fixture", *features], env={"FZMON_FIXTURE": path}, **k)


I686, S390X = "i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"


def elsewhere(r, bin_, triples=(I686,), fixtures=None, least=5):
    """The same monitor compiled for machines with 32-bit pointers or the other byte order, and interpreted."""
    for t in triples:
        fx, env = fixtures(t) if fixtures else ((), {})
        what = "32-bit" if t == I686 else "big-endian"
        try:
            cmd = r.foreign(bin_, t)
        except core.BuildError as e:
            raise core.Inconclusive(f"the monitor does not compile for {t}: " + e.text[-2000:])
        if fx:
            try:
                cmd = r.foreign(bin_, t, features=fx, env=env)
            except core.BuildError as e:
                r.violation(f"a program using the macros doesn't compile for {t}", case=e.text[:1500], cmd=[*(f"{k}={v}" for k, v in env.items()), "cargo", "miri", "run", "--target", t, "--bin", bin_], log=e.text[:6000])
                continue
        before = r.evaluations
        r.shards(None, what, cmd=cmd, mem=None, budget=400 if r.thorough else 40, timeout=700, args=["--scale", "1"])
        r.ev(f"cases on a {what} machine", r.evaluations - before)
        r.need(f"cases on a {what} machine", least)


@check("C01")
def c01(r):
    r.rule = (
        "Each case draws a key type, a query form, a hasher, a key distribution and a size (biased to the points where the code changes strategy), "
        "builds every run-time map type from the same list with duplicates, and asks every lookup method about each present key and about near and random absent keys; "
        "distinct non-trivial = distinct (map type, non-empty key set) fingerprints"
    )
    exe = r.build_or_stop("c01")
    r.shards(exe, "c01")
    elsewhere(r, "c01", (I686, S390X) if r.thorough else (I686,))
    r.need("lookups_hit", 1_000_000)
    r.need("lookups_miss", 1_000_000)


@check("C02")
def c02(r):
    r.rule = (
        "Each case draws an element type, a query form, a hasher, a distribution and a size, builds every run-time set type from the same list with duplicates, "
        "and asks contains and get about each element and about near and random absent values; distinct non-trivial = distinct (set type, non-empty contents) fingerprints"
    )
    exe = r.build_or_stop("c02")
    r.shards(exe, "c02")
    if r.thorough:
        elsewhere(r, "c02", (I686, S390X))
    r.need("lookups_hit", 500_000)
    r.need("lookups_miss", 500_000)


@check("C03")
def c03(r):
    r.rule = (
        "A seeded generator writes programs with invocations of the eight macros over key categories (integer and string literals in every notation, constants, expressions, enum variants, structs), "
        "sizes, shapes, short and long forms, local and static position, with repeated keys; rustc compiles them with the macros of the working tree, and each resulting collection is compared with the "
        "last-wins dictionary of the entries as written; distinct non-trivial = distinct (invocation, contents) fingerprints"
    )
    # the monitor itself must compile; only then is a compile error the fault of what the macros produced
    r.build_or_stop("c03", both=False)
    path = os.path.join(r.work, "fixture.rs")
    f = fixture.standard(r.seed, path, 24 if r.thorough else 6, True)
    r.extra["generated_macro_invocations"] = f.n
    try:
        exe = r.both("c03", features=["fixture"], env={"FZMON_FIXTURE": path})
    except core.BuildError as e:
        r.violation("a program using the macros doesn't compile", case=e.text[:1500], cmd=["FZMON_FIXTURE=" + path, "cargo", "build", "--bin", "c03", "--features", "fixture"], log=e.text[:6000])
        return
    r.shards(exe[0], "c03")
    r.shards(exe[1], "c03-optimised")

    def fixtures(t):
        path = os.path.join(r.work, f"fixture-{t}.rs")
        f = fixture.standard(r.seed, path, 8 if r.thorough else 2, False, narrow=t == I686)
        r.extra["generated_macro_invocations_" + t.split("-")[0]] = f.n
        return ["fixture"], {"FZMON_FIXTURE": path}

    elsewhere(r, "c03", (I686, S390X), fixtures, least=60)
    # known finding D7: a program that should compile and run
    try:
        exe = r.build("c03_d7", features=["d7"])
    except core.BuildError as e:
        r.known_seen["D7"] = e.text[-300:]
    else:
        import subprocess

        p = subprocess.run([exe], env=r.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        if p.returncode:
            r.violation("static string collections with expression keys misbehave", case=p.stdout[-1000:], cmd=[exe])
    r.evaluations += 1
    r.need("macro map", 40)
    r.need("macro set", 25)


@check("C04")
def c04(r):
    r.rule = (
        "The emitter is asked for every configuration that must be refused (64 combinations of symbol, alias, static, mutable and const flags, for each kind of collection, map and set) and for random valid ones with hostile entries of 30 key types; "
        "what it emits is compiled into a crate of its own, where each collection is compared with a last-wins dictionary and looked at from its parent module, from elsewhere in the crate and from another crate; "
        "distinct non-trivial = distinct emitted texts"
    )
    gen = r.build_or_stop("c04_emit", both=False, features=["emit"])
    r.shards(gen, "emit", n=1, env={"FZMON_DIR": r.work})
    if r.violations:
        return
    r.need("invalid configurations", 250)
    crate = os.path.join(core.VERIF, "emitted")
    emitted, probes = os.path.join(r.work, "emitted.rs"), os.path.join(r.work, "probes.rs")
    env = {"FZMON_EMITTED": emitted, "FZMON_PROBES": probes}
    try:
        exe = r.build("emitted", crate=crate, env=env)
    except core.BuildError as e:
        # is it the emitted code?
        for name in ("none.rs", "noprobes.rs"):
            with open(os.path.join(r.work, name), "w") as f:
                f.write("pub fn run(_: &mut Ctx) {}\n" if name == "none.rs" else "fn outside(_: &mut Ctx) {}\n")
        try:
            r.build("emitted", crate=crate, env={"FZMON_EMITTED": os.path.join(r.work, "none.rs"), "FZMON_PROBES": os.path.join(r.work, "noprobes.rs")})
        except core.BuildError:
            raise core.Inconclusive("the monitor of the emitted code does not compile against /repo's working tree: " + e.text[:2000])
        case = ""
        m = re.search(r"emitted\.rs:(\d+)", e.text)
        if m:
            above = [x for x in open(emitted).read().split("\n")[: int(m[1])] if x.startswith("//@")]
            case = above[-1][4:] if above else ""
        r.violation("emitted code doesn't compile: " + e.text.split("\n")[0][:300], case=case, cmd=[*(f"{k}={v}" for k, v in env.items()), "cargo", "build", "--manifest-path", crate + "/Cargo.toml"], log=e.text[:6000])
        return
    r.shards(exe, "emitted", n=4)
    r.need("emitted collections examined", 800)
    r.need("mutable collections", 40)
    r.need("visibilities", 300)
    r.need("lookups_hit", 50_000)


@check("C05")
def c05(r):
    r.rule = (
        "Each case builds every map and set type (and the generated inline ones) from one list and watches each of the ten map and three set traversals: stepping with size hints checked at every step, "
        "then from several split points count, fold, collect, last, nth and interleaved clones, compared with stepping; distinct non-trivial = distinct (collection type, non-empty contents) fingerprints"
    )
    exe = with_fixture(r, "c05")
    r.shards(exe, "c05")
    r.need("traversals", 10_000)
    r.need("inline collections", 30)


@check("C06")
def c06(r):
    r.rule = (
        "Each case runs a random history of get_mut, mutable traversals (partial, complete, all references held at once) and several-at-once requests (absent keys, repeated keys, checked and unchecked) "
        "on every map type, mirrors it on a dictionary and compares the whole map after each change; distinct non-trivial = distinct (map type, keys, first value) fingerprints"
    )
    exe = with_fixture(r, "c06")
    r.shards(exe, "c06")
    r.need("changes", 100_000)
    r.need("disjoint with repetition", 5_000)
    r.need("inline collections", 15)


@check("C07")
def c07(r):
    r.rule = (
        "Each case draws two lists in some relation (equal, subset, superset, disjoint, overlapping, one different, empty), builds them as frozen, std, BTree, hashbrown and inline sets, and compares every lazy result "
        "(stepping with size bounds, split points, clones), test and operator with the mathematical result; distinct non-trivial = distinct (types, two non-empty sets)"
    )
    exe = with_fixture(r, "c07")
    r.shards(exe, "c07")
    r.need("pairs", 50_000)
    r.need("inline collections", 15)


@check("C08")
def c08(r):
    r.rule = (
        "Each case draws two lists of entries that are the same up to order and repetition or differ in one respect (a value, a key, an entry more or fewer, two values swapped), builds every type from them and compares "
        "== and != of every pair with the equality of the dictionaries; clones, arrays, iterators, defaults, map-to-set conversions and debug renderings are compared with the dictionary; distinct non-trivial = distinct pairs of lists"
    )
    exe = with_fixture(r, "c08")
    r.shards(exe, "c08")
    r.need("equal pairs", 50_000)
    r.need("unequal pairs", 50_000)
    r.need("renderings", 20_000)
    r.need("inline collections", 30)


@check("C16")
def c16(r):
    r.rule = (
        "Each case builds every frozen, std and hashbrown map and set from one list and drives them through the crate's traits only (generic functions and trait objects): lookups, traversals, histories of changes, "
        "disjoint access and its panic, against one dictionary; distinct non-trivial = distinct (collection type, non-empty contents)"
    )
    exe = with_fixture(r, "c16")
    r.shards(exe, "c16")
    r.need("maps by trait", 5_000)
    r.need("sets by trait", 3_000)
    r.need("inline collections", 30)


@check("C12")
def c12(r):
    r.rule = (
        "Positions of values in increasing order are watched for strict increase: every value of the 8- and 16-bit types (thorough: 32-bit too), dense samples around the extremes, zero, powers of two and random points of the wider ones; "
        "generated enums of 1 to 400 variants must number their variants from 0; scalar maps and sets over hostile key sets reaching for both extremes are compared with a dictionary; "
        "distinct non-trivial = distinct (collection type, non-empty key set) fingerprints and sampled positions"
    )
    r.build_or_stop("c12", both=False)
    path = os.path.join(r.work, "fixture.rs")
    r.extra["generated_enums"] = fixture.enums(r.seed, path, 160 if r.thorough else 40)
    try:
        exe = r.both("c12", features=["fixture"], env={"FZMON_FIXTURE": path})
    except core.BuildError as e:
        r.violation("an enum deriving Scalar doesn't compile", case=e.text[:1500], cmd=["FZMON_FIXTURE=" + path, "cargo", "build", "--bin", "c12", "--features", "fixture"], log=e.text[:6000])
        return
    r.exhaustive = "positions of every value of the 8- and 16-bit types" + (" and of the 32-bit types" if r.thorough else "")
    r.shards(exe, "c12")

    def fixtures(t):
        path = os.path.join(r.work, "fixture-32.rs")
        fixture.enums(r.seed, path, 12)
        return ["fixture"], {"FZMON_FIXTURE": path}

    elsewhere(r, "c12", (I686,), fixtures)
    r.need("positions", 1_000_000)
    r.need("enum variants", 2_000)
    r.need("enum maps", 500)
    r.need("lookups_hit", 500_000)


@check("C13")
def c13(r):
    r.rule = (
        "Which types may be sent to and shared between threads is read off the compiled code for every collection and iterator type, for element types that may and may not be; "
        "then each case builds collections and has four threads look up, traverse, clone, render and intersect the same one with delays inside hashing and comparing, every answer compared with a dictionary, and the static collections raced for on first use; "
        "the same runs under ThreadSanitizer (standard library included) and under Miri's data race detector with varied schedules; distinct non-trivial = distinct (collection type, key set) fingerprints and distinct interleavings of the threads' operations"
    )
    marks = r.build_or_stop("c13_marks", both=False)
    r.shards(marks, "marks", n=1)
    r.need("types", 150)
    if r.violations:
        return
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        tsan = ex.submit(r.sanitized, "c13", "thread")
        native = ex.submit(r.build_or_stop, "c13")
        native, tsan = native.result(), tsan.result()
    r.shards(native, "native")
    r.need("interleaved runs", 5_000)
    opts = {"TSAN_OPTIONS": "exitcode=66 halt_on_error=1"}
    r.control("ThreadSanitizer", [tsan], {**opts, "FZMON_CONTROL": "1"}, "ThreadSanitizer: data race")
    r.shards(tsan, "tsan", mem=None, env=opts, args=["--scale", "0.5"])
    miri = r.miri("c13", lambda i: "-Zmiri-preemption-rate=0.05" if i % 2 else "-Zmiri-tree-borrows")
    r.control("Miri data races", miri(0), {"FZMON_CONTROL": "1"}, "Undefined Behavior: Data race")
    r.shards(None, "miri", mem=None, cmd=miri, args=["--scale", "0.004"])
    r.need("concurrent operations", 5_000_000)
    r.need("statics raced for", 1_000)


@check("C14")
def c14(r):
    r.rule = (
        "Each case draws a list of entries (hostile key distributions, hashers down to constant ones, outliers spanning the whole range of the scalar types) and builds every collection from it under an allocator that keeps account of the most memory held, and lists of which one is 16 times as long under the clock of the thread; "
        "panics, lack of progress, memory beyond a fixed allowance per entry, time growing 96 times and capacity or contiguity errors that come wrongly or not at all are violations; distinct non-trivial = distinct (key type, keys) with two or more distinct keys"
    )
    exe = r.build_or_stop("c14")
    r.shards(exe, "c14")
    r.need("metered constructions", 100_000)
    r.need("beyond capacity", 500)
    r.need("within capacity", 10_000)
    r.need("contiguous", 500)
    r.need("not contiguous", 500)
    r.need("capacity edges", 8)
    r.need("timed constructions", 96)


@check("C15")
def c15(r):
    r.rule = (
        "Each case builds collections of keys that count the comparisons made on them (for strings the C library's memory comparison is replaced by a counting one) and asks each lookup method about present and near-absent keys; "
        "ordered lookups are bounded one by one by 2*log2(n+1)+4, hash, string and well-spread scalar lookups by an average of 4 per collection and 2 over all, contiguous scalars by none; distinct non-trivial = distinct key sets of two or more keys"
    )
    exe = r.build_or_stop("c15")
    r.shards(exe, "c15")
    r.need("ordered lookups", 1_000_000)
    r.need("hash lookups", 1_000_000)
    r.need("compact scalar lookups", 10_000)
    r.need("comparisons seen", 1_000_000)
    r.need("inline collections", 40)
    if r.counts.get("string hits unseen"):
        r.notes.append("string comparisons were not visible to the monitor")


@check("C10")
def c10(r):
    r.rule = (
        "Each case builds collections of elements of awkward layouts (zero-sized, over-aligned, padded, large, heap-owning) or of elements whose hashing, equality, ordering, index or text is wrong, changing or panicking, and runs a random history of every operation on them, "
        "several mutable references being held, written and compared for overlap; watched by the standard library's precondition checks (debug build), by AddressSanitizer (build without debug assertions) and by Miri under both aliasing models; "
        "distinct non-trivial = distinct (collection type, key list) fingerprints"
    )
    path = os.path.join(r.work, "fixture.rs")
    f = fixture.standard(r.seed, path, 0, False)
    r.extra["generated_macro_invocations"] = f.n
    fx = {"FZMON_FIXTURE": path, "CARGO_PROFILE_DEV_OPT_LEVEL": "0"}
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        native = ex.submit(r.build_or_stop, "c10", both=False, features=["fixture"], env=fx, target_dir=os.path.join(core.TARGET, "o0"))
        asan = ex.submit(r.sanitized, "c10", "address", features=["fixture"], std=False, env={**fx, "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"})
        native, asan = native.result(), asan.result()
    r.shards(native, "native")
    # leaks are another property's business
    opts = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"}
    r.control("AddressSanitizer", [asan], {**opts, "FZMON_CONTROL": "1"}, "AddressSanitizer: heap-buffer-overflow")
    r.shards(asan, "asan", mem=None, env=opts, args=["--scale", "0.4"])
    miri = r.miri("c10", lambda i: ["", "-Zmiri-tree-borrows"][i % 2] + [" -Zmiri-symbolic-alignment-check", ""][i // 2 % 2])
    r.control("Miri", miri(0), {"FZMON_CONTROL": "1"}, "Undefined Behavior: ")
    seen = r.shards(None, "miri", mem=None, cmd=miri, args=["--scale", "8"], budget=600 if r.thorough else 70, timeout=840)
    r.extra["operations_under_miri"] = seen.get("operations", 0)
    if seen.get("operations", 0) < 2000 and not r.violations:
        raise core.Inconclusive(f"Miri got through only {seen.get('operations', 0)} operations")
    r.need("operations", 2_000_000)
    r.need("references held", 300_000)
    r.need("unchecked references held", 100_000)
    r.need("answers elements got wrong", 5_000_000)
    r.need("inline collections", 30)


@check("C11")
def c11(r):
    r.rule = (
        "Elements are entered in a ledger when created or cloned and struck off by their destructor. Each seeded scenario (build any collection, by macro or at run time, use, clone, compare, consume wholly or in part) runs once to count its calls of "
        "user code, then again with a panic in one chosen call of hash, eq, cmp, clone, fmt, as_ref, next, drop or the caller's closures, with elements larger and smaller than a pointer, of no size and over-aligned, at every call site when there are few and at sampled ones otherwise; the ledger must balance after each; "
        "distinct non-trivial = distinct (scenario, injected panic) with two or more elements"
    )
    exe = r.build_or_stop("c11")
    r.shards(exe, "c11")
    r.need("elements balanced", 1_000_000)
    for op in ["AsRef", "Clone", "Cmp", "Drop", "Eq", "Fmt", "Hash", "Next", "Visit"]:
        r.need(f"panic in {op}", 500)
    for layout in ["wide", "thin", "tiny", "huge", "nil"]:
        r.need(f"{layout} elements", 1000)


@check("C09")
def c09(r):
    r.rule = (
        "Each case builds every serializable collection from one list, watches what it writes (entries, announced length) and reads it back, and what an ordinary collection with repeated keys would write, in JSON, RON, bincode and CBOR "
        "from borrowed, streamed and owned input; mangled and truncated bytes, broken streams, false lengths and false size hints must give the same outcome as collecting the entries one by one, under an allocator that keeps account; "
        "distinct non-trivial = distinct (collection type, non-empty contents) fingerprints"
    )
    exe = with_fixture(r, "c09", features=["serde"])
    r.shards(exe, "c09")
    r.need("round trips", 10_000)
    r.need("rejected", 100_000)
    r.need("accepted", 10_000)
    r.need("false lengths", 5_000)
    r.need("size hints", 5_000)
    r.need("truncation series", 100)
    r.need("nested", 3_000)
    r.need("inline collections", 30)


@check("C17")
def c17(r):
    """The same workload under several feature sets; the recorded results must be the same."""
    import concurrent.futures
    import itertools
    import subprocess

    r.rule = (
        "A fixed seeded workload (all run-time collections, lookups, traversals, changes, set operations, capacity errors, the traits, and where enabled serialization, emitted code and macro expansions) is built and run under several "
        "combinations of the crate features and each result is recorded; the libraries are also built for a 32-bit machine and for one without an operating system; a library without the standard library declares collections with the macros and its answers are checked; an offline checker compares the records entry by entry; distinct non-trivial = distinct (result label, result) pairs"
    )
    feats = ["std", "serde", "macros", "emit"]
    if r.thorough:
        combos = [c for n in range(5) for c in itertools.combinations(feats, n)]
        plain = combos
    else:
        combos = [(), ("std",), ("serde",), ("serde", "macros", "emit"), tuple(feats)]
        plain = [("macros",), ("emit",), ("std", "macros")]
    crate = os.path.join(core.VERIF, "feat")
    name = lambda c: "+".join(c) or "none"
    base = os.path.join(core.TARGET, "feat")

    def one(c):
        d = os.path.join(base, name(c))
        try:
            return c, r.build("fzfeat", features=c, crate=crate, target_dir=d), None
        except core.BuildError as e:
            return c, None, e.text

    def bare(combos):
        """The facade crate by itself, built as cargo-hack would."""
        bad = []
        for c in combos:
            e = r.env()
            e["CARGO_TARGET_DIR"] = os.path.join(base, "plain")
            for manifest in ["/repo/frozen-collections-core/Cargo.toml", "/repo/frozen-collections/Cargo.toml"]:
                p = subprocess.run(
                    ["cargo", "check", "-q", "--offline", "--locked", "--manifest-path", manifest, "--no-default-features", "--features", ",".join(c)],
                    env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=r.work, timeout=600,
                )
                r.ev("libraries built")
                if p.returncode:
                    bad.append((c, manifest, p.stdout))
        return bad

    def elsewhere_too(target, std, combos):
        """The same for a machine with 32-bit pointers, and for one without an operating system."""
        bad = []
        e = r.env(r.NIGHTLY, CARGO_TARGET_DIR=os.path.join(base, target))
        for c in combos:
            p = subprocess.run(
                ["cargo", "check", "-q", "--offline", "--locked", "-Zbuild-std=" + std, "--target", target, "--manifest-path", "/repo/frozen-collections/Cargo.toml", "--no-default-features", "--features", ",".join(c)],
                env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=r.work, timeout=600,
            )
            if re.search(r"failed to download|may not be installed|is not installed", p.stdout):
                raise core.Inconclusive(f"no standard library for {target}: " + p.stdout[-1000:])
            r.ev("libraries built for " + target)
            if p.returncode:
                bad.append((c, "/repo/frozen-collections/Cargo.toml for " + target, p.stdout))
        return bad

    def without_std(combos):
        """A library that has no standard library and uses the macros, the derive and the run-time collections."""
        for c in combos:
            try:
                exe = r.build("nostd", features=c, crate=os.path.join(core.VERIF, "nostd"), target_dir=os.path.join(base, "nostd-" + name(c)))
            except core.BuildError as e:
                r.violation("a library without the standard library that uses the macros doesn't build", case=e.text[:1500], log=e.text[-6000:])
                continue
            p = subprocess.run([exe], env=r.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            asked = re.search(r"^asked (\d+)$", p.stdout, re.M)
            r.ev("answers of a library without the standard library", int(asked.group(1)) if asked else 0)
            if p.returncode or not asked:
                r.violation("a library without the standard library got wrong answers", case=p.stdout[-1500:], cmd=[exe])

    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        os.makedirs(base, exist_ok=True)
        futs = [
            ex.submit(bare, plain),
            ex.submit(elsewhere_too, I686, "std,panic_abort", plain if r.thorough else [tuple(feats), ("std", "macros")]),
            ex.submit(elsewhere_too, "thumbv7em-none-eabi", "core,alloc", [(), ("serde",)]),
        ]
        without = ex.submit(without_std, [(), ("serde",)] if r.thorough else [()])
        built = list(ex.map(one, combos))
        bad = [b for f in futs for b in f.result()]
    without.result()
    full = [b for b in built if len(b[0]) == 4][0]
    if full[1] is None:
        raise core.Inconclusive("the monitor does not compile with every feature on: " + full[2][-2000:])
    for c, manifest, text in bad:
        r.violation(f"{manifest} doesn't build with features {name(c)}", case=text[-1500:], log=text[-6000:])
    for c, exe, text in built:
        if exe is None:
            r.violation(f"with features {name(c)} the library or a program using it doesn't build", case=text[:1500], log=text[-6000:])
    records = {}
    for c, exe, _ in built:
        if exe is None:
            continue
        log = os.path.join(r.work, "log-" + name(c))
        r.shards(exe, "run-" + name(c), env={"FZFEAT_LOG": log}, budget=300)
        rec = {}
        for i in range(core.SHARDS):
            if not os.path.exists(f"{log}.{i}"):
                continue
            with open(f"{log}.{i}") as f:
                for k, line in enumerate(f):
                    case, label, h, _ = line.rstrip("\n").split("\t")
                    rec.setdefault((int(case), label), []).append(h)
        records[c] = (rec, exe)
        r.ev("feature sets run")
    ref, ref_exe = records[full[0]]
    stop = {n for n in r.notes if "time budget" in n}
    for c, (rec, exe) in records.items():
        gated = lambda label: (label.startswith("serde:") and "serde" not in c) or (label.startswith("emit:") and "emit" not in c) or (label.startswith("macros:") and "macros" not in c)
        shown = 0
        for key, want in ref.items():
            if gated(key[1]):
                continue
            got = rec.get(key)
            if got is None and stop:
                continue
            r.ev("results compared")
            if got != want and shown < 3:
                shown += 1
                # run the case again in both builds to show the results themselves
                texts = []
                for x in (exe, ref_exe):
                    log = os.path.join(r.work, "again")
                    subprocess.run([x, "--seed", str(r.seed), "--tier", r.tier, "--shard", f"{key[0] % core.SHARDS}/{core.SHARDS}", "--case", str(key[0])], env={**r.env(), "FZFEAT_LOG": log}, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
                    try:
                        lines = [ln.split("\t") for ln in open(f"{log}.{key[0] % core.SHARDS}")]
                        texts.append(" | ".join(ln[3].strip() for ln in lines if ln[1] == key[1])[:1500])
                    except OSError:
                        texts.append("?")
                at = next((i for i, (a, b) in enumerate(zip(*texts)) if a != b), 0)
                r.violation(f"{key[1]}: result with features {name(c)} differs from that with every feature on", case=f"case {key[0]}: ...{texts[0][max(0, at - 200):at + 300]} INSTEAD OF ...{texts[1][max(0, at - 200):at + 300]}", cmd=[exe, "--case", str(key[0])])
    r.need("results compared", 100_000)
    r.need("feature sets run", len(combos))
    r.need("answers of a library without the standard library", 17)
    import shutil

    if not r.violations:
        shutil.rmtree(base, ignore_errors=True)


@check("C18")
def c18(r):
    r.rule = (
        "Each case draws a hashing strategy, a part of the key (23 ranges), a seed and keys that share heads, tails and lengths, and observes the code of each key in seven borrowed, owned and shared forms, from the run-time hasher, "
        "the source-embedded one and their clones; a table checks that code and named part determine one another. Lengths are compared for 25 types. distinct non-trivial = distinct (code, range) and length fingerprints"
    )
    exe = r.build_or_stop("c18")
    r.shards(exe, "c18")
    elsewhere(r, "c18", (I686, S390X) if r.thorough else (I686,))
    r.need("codes of strings", 1_000_000)
    r.need("codes of slices", 300_000)
    r.need("strings too short", 10_000)
    r.need("distinct parts of strings", 50_000)
    r.need("lengths", 20_000)


@check("C19")
def c19(r):
    import json
    import subprocess

    r.rule = (
        "The functions behind the eight macros and the derive get random invocations, half of them mangled token by token (deleted, doubled, swapped, replaced, inserted, regrouped); an independent reading of the input says whether it must be refused or accepted, "
        "a monitor looks for panics, for the entries in the expansion (each surviving entry exactly once) and for the declared names, mutability and visibility; some of the refused ones are then put before the compiler, which has to complain about each without a macro having panicked; "
        "distinct non-trivial = distinct texts of input"
    )
    exe = r.build_or_stop("c19", features=["macros"])
    r.shards(exe, "c19", env={"FZMON_DIR": r.work})
    lines = []
    for i in range(core.SHARDS):
        try:
            lines += open(os.path.join(r.work, f"refused.{i}")).read().split("\n")
        except OSError:
            pass
    lines = [x for x in dict.fromkeys(lines) if x]
    good = "fz_scalar_map!{ let x : A < u8 , u8 >, { 1u8 : 2 } }"
    path = os.path.join(r.work, "refused.rs")
    with open(path, "w") as f:
        for i, x in enumerate([good, *lines]):
            f.write(f"mod m{i} {{ use frozen_collections::*; {x} }}\n" if x.startswith("#[derive") else f"fn f{i}() {{ frozen_collections::{x} }}\n")
    p = subprocess.run(
        ["cargo", "check", "-q", "--offline", "--locked", "--message-format", "json"],
        cwd=os.path.join(core.VERIF, "refused"), env={**r.env(), "FZMON_REFUSED": path}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600,
    )
    said = {}

    def where(span):
        while span:
            if span["file_name"] == path:
                yield span["line_start"]
            span = (span.get("expansion") or {}).get("span")

    for m in p.stdout.split("\n"):
        m = json.loads(m) if m.startswith("{") else {}
        if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            for span in m["message"]["spans"]:
                for n in where(span):
                    said.setdefault(n, []).append(m["message"]["message"])
    if lines and (not said or 1 in said):
        raise core.Inconclusive(f"the compiler's complaints can't be told apart: {said.get(1)} " + p.stderr[-1500:])
    for i, x in enumerate(lines):
        got = said.get(i + 2, [])
        r.ev("put before the compiler")
        bad = "the compiler accepts" if not got else "a macro panics" if any("panicked" in g for g in got) else None
        if bad:
            r.violation(f"{bad}: {x[:200]}", case=x + "\n" + "; ".join(got)[:500], cmd=["FZMON_REFUSED=" + path, "cargo", "check", "--manifest-path", os.path.join(core.VERIF, "refused/Cargo.toml")])
    r.evaluations += len(lines)
    r.need("accepted", 10_000)
    r.need("entries followed", 200_000)
    r.need("derives accepted", 500)
    r.need("refused: grammar", 10_000)
    r.need("refused: string in a scalar macro", 50)
    r.need("refused: number in a string macro", 200)
    r.need("refused: number out of range", 100)
    r.need("refused: suffixes that differ", 100)
    r.need("put before the compiler", 200)


@check("C20")
def c20(r):
    r.rule = (
        "A counting allocator stands behind every look-up, traversal, clone of an iterator, multi-key retrieval, comparison and lazy set operation on every collection type, the inline ones included, and must not be called; "
        "generated statics with literal keys and constant values are watched for being of the very type they were declared as, without lazy initialisation, for allocating nothing on first use, and for their keys; "
        "distinct non-trivial = distinct (collection type, non-empty key set) fingerprints"
    )
    r.build_or_stop("c20", both=False)
    fx, st = os.path.join(r.work, "fixture.rs"), os.path.join(r.work, "statics.rs")
    r.extra["generated_macro_invocations"] = fixture.standard(r.seed, fx, 0, False).n
    r.extra["generated_statics"] = fixture.statics(r.seed, st, 300 if r.thorough else 80)
    env = {"FZMON_FIXTURE": fx, "FZMON_STATICS": st}
    try:
        exe = r.both("c20", features=["fixture"], env=env)
    except core.BuildError as e:
        r.violation("statics of literals don't compile", case=e.text[:1500], cmd=[*(f"{k}={v}" for k, v in env.items()), "cargo", "build", "--bin", "c20", "--features", "fixture"], log=e.text[:6000])
        return
    r.shards(exe, "c20")
    r.need("constant statics", 80)
    r.need("inline collections", 40)
    r.need("reads watched", 500_000)
    r.need("several at once", 5_000)
    r.need("many at once", 1_000)
    r.need("set operations", 20_000)
    r.need("lookups_hit", 100_000)
    r.need("lookups_miss", 100_000)
