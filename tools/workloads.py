"""Sizes of the workloads and the stages of the checks that need more than one run."""
import json, os, subprocess, sys

NUMS = "numbers of every kind: small, near every power-of-two boundary, special doubles, reduced and unreduced fractions, integers found in the sources; "
EXPRS = "random expressions over the ten operators (structures, literals, names drawn per case; patterns that trigger rules; literals found in the sources); "


# guided cases in the thorough tier, as a multiple
GUIDED_THOROUGH = 12
NOT_APPLICABLE = {}
NOTE = "Held on the calls observed in the run (counts in the evidence), nothing beyond them. Trusts the monitors' own arithmetic and readers (checked by `mon selftest`) and that the hook facade only forwards."


def w(quick, thorough, rule, technique="runtime monitor: online reference-model oracle over a randomised workload", note=NOTE, **k):
    d = {"quick": quick, "thorough": thorough, "rule": rule, "technique": technique, "note": note}
    d.update(k)
    return d


WORK = {
    "C01": w(120_000, 4_000_000, NUMS + "one operator (or a chain) on integers and fractions against exact big-integer arithmetic; distinct by operator and operands, non-trivial when neither operand is zero or one", guided=80_000),
    "C02": w(400_000, 20_000_000, NUMS + "one operator with a real, pi or e operand against double arithmetic; distinct by operator and operands", guided=500_000),
    "C03": w(200_000, 8_000_000, NUMS + "histories of constructions and operations; the four recognitions compared with the value after every step; distinct by history", guided=300_000),
    "C04": w(60_000, 2_000_000, NUMS + "conversions of every primitive type, read back; fraction constructions with every kind of sign and denominator; distinct by type and value", guided=24_000),
    "C05": w(60_000, 3_000_000, NUMS + "chains of fraction operations, fields inspected after every step; pairs of fractions compared with exact cross multiplication; distinct by operands", guided=80_000),
    "C06": w(100_000, 4_000_000, NUMS + "divisions by exact zeros produced in many ways, directly and by simplification; distinct by numerator and zero", guided=500_000),
    "C07": w(200_000, 8_000_000, NUMS + "pairs at, above and below many tolerances; distinct by pair and tolerance", guided=100_000),
    "C08": w(200_000, 8_000_000, NUMS + "numbers printed by every route and read back; distinct by number", guided=150_000),
    "C09": w(2_000_000, 60_000_000, EXPRS + "simplified and compared at four points by interval evaluation (exactly for rational trees); non-trivial when a point decided and simplification changed the tree", guided=400_000),
    "C10": w(2_000_000, 60_000_000, EXPRS + "every node of the simplified tree inspected, sizes compared; non-trivial when simplification changed the tree", guided=300_000),
    "C11": w(2_000_000, 60_000_000, EXPRS + "printed, read back by an independent reader and compared at several points; non-trivial when a point decided and the tree has two operators", guided=120_000),
    "C12": w(1_500_000, 40_000_000, EXPRS + "substituted and compared node by node with a model substitution; non-trivial when the variable occurs", guided=300_000),
    "C13": w(1_000_000, 30_000_000, EXPRS + "differentiated up to four times, by one or two variables, compared with interval jets at four points; non-trivial when a point decided and the variable occurs", guided=400_000),
    "C14": w(1_000_000, 30_000_000, EXPRS + "differentiated by absent and present variables through three call forms; non-trivial when the expression has an operator and the property applies", guided=400_000),
    "C15": w(400_000, 12_000_000, EXPRS + "expanded to order 0..100 at numeric and symbolic points; coefficients times factorials compared with interval jets; non-trivial when a coefficient decided", guided=100_000),
    "C16": w(250_000, 8_000_000, EXPRS + "expanded through two call forms and two orders; counts, fields, prefixes and residuals compared; non-trivial when the variable occurs and the order is positive", guided=12_000),
    "C17": w(500_000, 15_000_000, EXPRS + "expanded, printed, read back by an independent reader and compared with the coefficients; non-trivial when a point decided", guided=40_000),
    "C18": w(1_000_000, 30_000_000, EXPRS + "operations by variables, numbers and compound expressions in every call form; distinct by expression, place-holder and replacement, non-trivial when the expression has an operator", guided=500_000),
    "C19": w(400_000, 6_000_000, EXPRS + "limits at points of continuity compared online with the value there; expressions with singular points built from pieces of known behaviour, every reported limit logged and checked offline; non-trivial when a limit was reported",
             technique="runtime monitor: event log of reported limits, offline checker evaluating near the point at two high precisions; online interval oracle for continuous cases", guided=240_000),
    "C20": w(400_000, 8_000_000, EXPRS + "quotients whose vanishing orders are known from exact power series, compositions with finite limits, the same limit with increasing tries; non-trivial when a differentiation is needed or a limit reported", guided=120_000),
    "C21": w(1_500_000, 30_000_000, EXPRS + "limits of anything at any point with up to five tries, under a bound on allocations and processor time; non-trivial when the variable occurs",
             technique="runtime monitor: work budget (allocations, live memory, processor time) around every call, panics caught", guided=500_000),
    "C22": w(2_000_000, 40_000_000, "pairs of limit classes and operators, values drawn as expressions; results compared with the determined forms and with witness functions of the classes evaluated near the point; distinct by operator, classes and values", guided=800_000),
    "C23": w(4_000, 200_000, "batches of calls of every operation on drawn arguments: alone, repeated in shuffled order, from eight threads at once (sharing arguments and with their own), in another process in reverse order under another environment, under ThreadSanitizer and under Miri with varied schedules; distinct by call and arguments",
             technique="runtime monitor: result digests across histories, threads and processes; ThreadSanitizer and Miri on the concurrent workload"),
    "C24": w(6_000, 100_000, "deep left, right, unary and zigzag chains and balanced trees of one or several operators, up to thousands of nodes; allocations and bytes of every call compared with a polynomial in the size, those of an expansion with those of its steps; operations on chains of hundreds of levels on a 2 MB stack; distinct by operation, shape and size",
             technique="runtime monitor: counting allocator as a deterministic work meter, bounded stacks"),
    "C25": w(200_000, 5_000_000, "calls of every operation on drawn arguments with live-byte balance, natively, under AddressSanitizer with leak detection (thorough: MemorySanitizer) and under Miri; distinct by call and arguments",
             technique="AddressSanitizer, LeakSanitizer, MemorySanitizer, Miri; live-byte balance of a counting allocator"),
    "C26": w(800_000, 20_000_000, EXPRS + "built step by step through every constructor and compared node by node with the requested tree; distinct by tree", guided=240_000),
    "C27": w(500_000, 20_000_000, EXPRS + "an operation done with plain names and again with every variable renamed (names of every alphabet, prefixes of one another, looking like numbers, functions or constants): trees and texts compared; distinct by operation, arguments and names, non-trivial when a variable occurs",
             technique="runtime monitor: metamorphic oracle (renaming commutes with every operation) over a randomised workload", guided=600_000),
    "C28": w(500_000, 10_000_000, EXPRS + "two to six operations one after the other on the same expression and on one built anew, the result compared at three points with the composition of the operations' meanings; non-trivial when a point decided and two steps were done",
             technique="runtime monitor: online reference-model oracle over recorded histories of operations", guided=160_000),
    "C29": w(150_000, 3_000_000, "calls of every operation on drawn arguments in a build with overflow and debug checks and in an optimised build without; the recorded results compared call by call; distinct by call and arguments",
             technique="runtime monitor: event logs of two builds compared offline"),
    "C30": w(1_000_000, 20_000_000, EXPRS + "limits of these and of expressions with singular points, at points written in many ways; kind, tree and text of what is reported inspected, by both ways of naming the variable; non-trivial when the variable occurs and a limit was found", guided=400_000),
}


def c01(ck, prop, cases, work, only, extra):
    seen = ck.explore(prop, cases, work, only, extra)
    if only is not None and only >= ck.GUIDED:
        return seen
    rel = ck.run_shards(ck.build(release=True), prop, cases, work, only, tag="-release")
    extra["digests_checked_and_unchecked_builds"] = [seen.digests, rel.digests]
    for idx, msg in rel.violations:
        seen.violations.append((idx, "build without overflow checks: " + msg))
    if not seen.violations and seen.digests != rel.digests:
        seen.violations.append((0, "the results differ between the builds with and without overflow checks"))
    seen.evaluations += rel.evaluations
    seen.calls += rel.calls
    return seen


def c19(ck, prop, cases, work, only, extra):
    seen = ck.explore(prop, cases, work, only, extra)
    n = ck.SHARDS
    procs = []
    for i in range(n):
        part = seen.events[i::n]
        a, b = os.path.join(work, "events-%d.json" % i), os.path.join(work, "verdicts-%d.json" % i)
        with open(a, "w", encoding="utf-8") as f:
            json.dump(part, f)
        procs.append((subprocess.Popen(["/opt/veriftools/pyvenv/bin/python3", os.path.join(ck.HERE, "tools", "limit_oracle.py"), a, b], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), b))
    total = {"events": len(seen.events), "held": {}, "undefined": 0, "unclear": 0}
    for p, b in procs:
        _, err = p.communicate(timeout=800)
        if p.returncode != 0:
            raise ck.NoVerdict("the offline checker failed: " + err.decode(errors="replace")[-2000:])
        o = json.load(open(b, encoding="utf-8"))
        for k, v in o["held"].items():
            total["held"][k] = total["held"].get(k, 0) + v
        total["undefined"] += o["undefined"]
        total["unclear"] += o["unclear"]
        seen.violations += [(v["index"], v["message"]) for v in o["violations"]]
    extra["offline_checker"] = total
    seen.inconclusive += total["unclear"] + total["undefined"]
    if only is None and not seen.violations and sum(total["held"].values()) < 100:
        raise ck.NoVerdict("the offline checker saw too few events: %s" % total)
    return seen


def c17(ck, prop, cases, work, only, extra):
    seen = ck.explore(prop, cases, work, only, extra)
    binary = os.path.join(ck.HARNESS, "target", "debug", "mon")
    r = subprocess.run([binary, "runmain"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    extra["demonstration_program"] = r.stdout.decode(errors="replace").splitlines()
    if r.returncode != 0:
        seen.violations.append((0, "the demonstration program ends with %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-500:])))
    else:
        q = subprocess.run([binary, "readmain"], input=r.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if q.returncode != 0:
            raise ck.NoVerdict("the reader of the demonstration failed: " + q.stderr.decode(errors="replace")[-1000:])
        seen.violations += [(0, m) for m in q.stdout.decode().splitlines()]
    seen.evaluations += 1
    return seen


def total(digests):
    return sum(int(d, 16) for d in digests) & ((1 << 64) - 1)


TSAN = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"}
ASAN = {"ASAN_OPTIONS": "detect_leaks=1:halt_on_error=1:exitcode=67:detect_stack_use_after_return=1", "LSAN_OPTIONS": "exitcode=68"}
MSAN = {"MSAN_OPTIONS": "halt_on_error=1:exitcode=69"}


def miri(ck, prop, cases, work, only, base=0):
    cmd = ck.prepare_miri()
    return ck.run_observed(cmd, prop, cases, work, only, "miri", lambda i: {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-seed=%d" % (ck.SEED * 1000 + i)}, base=base)


def c23(ck, prop, cases, work, only, extra):
    deep = ck.TIER == "thorough"
    binary = ck.build()
    seen = ck.run_shards(binary, prop, cases, work, only)
    if only is None and not seen.violations:
        env = {k: v for k, v in os.environ.items() if k in ("PATH",)}
        env.update({"LANG": "de_DE.UTF-8", "LC_ALL": "C", "TZ": "Asia/Tokyo", "RUST_BACKTRACE": "0", "HOME": work})
        back = ck.run_shards(binary, prop, cases, work, only, env=env, tag="-reverse", extra=["--reverse"])
        extra["digests"] = ["%016x" % total(seen.digests), "%016x" % total(back.digests)]
        if not back.violations and total(seen.digests) != total(back.digests):
            back.violations.append((0, "the same calls made in reverse order in another process give different results"))
        seen.merge(back, "reverse order", extra)
    if not seen.violations:
        tsan = ck.build_sanitized("thread", True)
        seen.merge(ck.run_observed(tsan, prop, 20_000 if deep else 400, work, only, "tsan", lambda i: TSAN), "ThreadSanitizer", extra)
    if not seen.violations:
        seen.merge(miri(ck, prop, 320 if deep else 16, work, only), "Miri", extra)
    return seen


def c25(ck, prop, cases, work, only, extra):
    deep = ck.TIER == "thorough"
    seen = ck.run_shards(ck.build(), prop, cases, work, only)
    if not seen.violations:
        asan = ck.build_sanitized("address", False)
        seen.merge(ck.run_observed(asan, prop, 2_000_000 if deep else 80_000, work, only, "asan", lambda i: ASAN), "AddressSanitizer", extra)
    if not seen.violations and deep:
        msan = ck.build_sanitized("memory", True)
        seen.merge(ck.run_observed(msan, prop, 1_000_000, work, only, "msan", lambda i: MSAN), "MemorySanitizer", extra)
    if not seen.violations:
        seen.merge(miri(ck, prop, 8000 if deep else 160, work, only), "Miri", extra)
    return seen


def c29(ck, prop, cases, work, only, extra):
    logs = []
    seen = None
    for tag, binary in (("checked", ck.build()), ("optimised", ck.build(release=True))):
        o = ck.run_shards(binary, prop, cases, work, only, tag="-" + tag)
        o.violations = [(i, "%s build: %s" % (tag, m)) for i, m in o.violations]
        log = dict((e[0], e[1:]) for e in o.events)
        o.events = []
        logs.append((tag, binary, log))
        if seen is None:
            seen = o
        else:
            seen.merge(o, tag + " build", extra)
    (_, ba, a), (_, bb, b) = logs
    if seen.violations:
        return seen
    if a.keys() != b.keys():
        raise ck.NoVerdict("the two builds did not run the same cases")
    odd = sorted(i for i in a if a[i] != b[i])
    extra["results_compared"] = len(a)
    extra["results_that_differ"] = len(odd)
    for i in odd[:10]:
        texts = []
        for tag, binary in (("checked", ba), ("optimised", bb)):
            t = ck.run_shards(binary, prop, cases, work, i, tag="-again-" + tag)
            texts.append("%s build: %s" % (tag, t.events[0][2][:300] if t.events else "?"))
            call = t.events[0][1][:400] if t.events else "?"
        seen.violations.append((i, "%s: %s" % (call, "; ".join(texts))))
    return seen


STAGES = {"C29": c29, "C17": c17, "C23": c23, "C25": c25, "C01": c01, "C19": c19}
