#!/usr/bin/env python3
"""check.py <property> [--only INDEX]
Builds the monitors against /repo's working tree, runs the workload of one property in several processes,
judges what they observed and writes evidence/<property>.json.
Exit 0: held on everything observed. Exit 1: violated. Exit 2: no verdict (build or harness error)."""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
SHARDS = 8
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1


class NoVerdict(Exception):
    pass


def cargo_env(target):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_TERM_COLOR"] = "never"
    return env


def forget_sut(target):
    """cargo decides by file times whether to rebuild; make it always rebuild what comes from /repo."""
    for root, dirs, _ in os.walk(target):
        for d in list(dirs):
            # .fingerprint/symbolic_rust-<hash> (stable), build/symbolic_rust/<hash> (nightly)
            if d == "symbolic_rust" or d.startswith("symbolic_rust-"):
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
        if os.path.basename(root) in (".fingerprint", "build"):
            dirs[:] = []


def build(release=False, toolchain=None, extra_env=None, args=(), target=None, timeout=800):
    target = target or os.path.join(HARNESS, "target")
    forget_sut(target)
    env = cargo_env(target)
    env.update(extra_env or {})
    cmd = ["cargo"] + ([toolchain] if toolchain else []) + ["build", "--offline", "-q"]
    if release:
        cmd.append("--release")
    cmd += list(args)
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise NoVerdict("build failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return os.path.join(target, "release" if release else "debug", "mon")


def build_both():
    """The monitors, and the monitors with the code under observation counting its edges, side by side."""
    with ThreadPoolExecutor(2) as pool:
        plain = pool.submit(build)
        guided = pool.submit(build, extra_env={"RUSTC_WRAPPER": os.path.join(HERE, "tools", "rustc_guided.sh")}, target=os.path.join(HARNESS, "target", "guided"))
        return plain.result(), guided.result()


def dictionary(path):
    """Integers, decimals and names that occur in the sources: values worth trying."""
    ints, names, floats = set(), set(), set()
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if not f.endswith(".rs") or f in ("verif_hook.rs", "tests.rs"):
                continue
            try:
                text = open(os.path.join(root, f), encoding="utf-8", errors="replace").read()
            except OSError:
                continue
            text = re.sub(r"//[^\n]*", "", text)
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?(?![\w.])", text):
                t = m.group(1).replace("_", "")
                try:
                    v = int(t, 0) if t[:2] in ("0x", "0b", "0o") else int(t)
                except ValueError:
                    continue
                for w in (v - 1, v, v + 1, -v):
                    if -(1 << 63) <= w < (1 << 63):
                        ints.add(w)
            for m in re.finditer(r"(?<![\w.])(\d[\d_]*\.\d[\d_]*(?:e[+-]?\d+)?|\d[\d_]*e[+-]?\d+)(?:_?f(?:32|64))?(?![\w.])", text, re.I):
                v = float(m.group(1).replace("_", ""))
                if 1e-30 < v < 1e30:
                    floats.add(v)
            for m in re.finditer(r"\b1 *<< *(\d+)", text):
                v = 1 << min(int(m.group(1)), 62)
                ints.update((v - 1, v, v + 1, -v))
            for m in re.finditer(r"\b(u8|i8|u16|i16|u32|i32|u64|i64|usize)::(MAX|MIN)", text):
                b = {"8": 8, "16": 16, "32": 32}.get(m.group(1)[1:], 64)
                v = (1 << (b - 1)) - 1 if m.group(1)[0] == "i" else (1 << b) - 1
                for w in (v - 1, v, -v - 1):
                    if -(1 << 63) <= w < (1 << 63):
                        ints.add(w)
            for m in re.finditer(r'"((?:[^"\\\n])*)"', text):
                if 0 < len(m.group(1)) <= 12:
                    names.add(m.group(1))
            for m in re.finditer(r"'([^'\\])'", text):
                names.add(m.group(1))
    with open(path, "w", encoding="utf-8") as f:
        for v in sorted(ints):
            f.write("i %d\n" % v)
        for v in sorted(floats):
            f.write("f %r\n" % v)
        for n in sorted(names):
            if "\n" not in n:
                f.write("n %s\n" % n)
    return len(ints), len(names)


class Observed:
    """What the shards of one run saw, merged."""

    def __init__(self):
        self.evaluations = self.calls = self.inconclusive = self.max_allocs = 0
        self.distinct = set()
        self.counts, self.samples, self.violations, self.events = {}, [], [], []
        self.digests = []

    def add(self, o):
        for k in ("evaluations", "calls", "inconclusive"):
            setattr(self, k, getattr(self, k) + o[k])
        self.max_allocs = max(self.max_allocs, o["max_allocs"])
        for k, v in o["counts"].items():
            self.counts[k] = max(self.counts.get(k, 0), v) if "most in" in k else self.counts.get(k, 0) + v
        self.samples += o["samples"][:3]
        self.violations += [(v["index"], v["message"]) for v in o["violations"]]
        self.events += o["events"]
        self.digests.append(o["digest"])

    def merge(self, other, tag, extra):
        """Adds what another run of the same workload saw."""
        extra.setdefault("stages", {})[tag] = {"evaluations": other.evaluations, "calls": other.calls, "distinct": len(other.distinct), "observed": dict(sorted(other.counts.items()))}
        self.violations += other.violations
        self.evaluations += other.evaluations
        self.calls += other.calls
        self.inconclusive += other.inconclusive
        self.distinct |= other.distinct


EXITS = {77: "needs more than the allotted allocations or memory", 78: "does not return: one minute of processor time in one call"}


def run_shards(binary, prop, cases, work, only=None, env=None, shards=SHARDS, tag="", timeout=840, extra=(), mode=None):
    """Runs the workload; a shard that dies inside a call into the system is a violation, any other death no verdict."""
    seen = Observed()
    procs = []
    n = 1 if only is not None else shards
    # a guided case depends on those before it in its shard
    of = shards if "--guided" in extra else n
    deadline = time.time() + timeout
    for i in range(n):
        base = os.path.join(work, "%s%s-%d" % (mode or prop, tag, i))
        cmd = [binary, mode or prop, "--tier", TIER, "--seed", str(SEED), "--shard", "%d/%d" % (i, of), "--cases", str(cases),
               "--dict", os.path.join(work, "dict"), "--out", base + ".json", "--distinct", base + ".d", "--journal", base + ".j"]
        cmd += list(extra)
        if only is not None:
            cmd += ["--only", str(only)]
        err = open(base + ".err", "wb")
        procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env), base, cmd, err))
    fail = None
    late, still = wait_all([p[0] for p in procs], deadline)
    for p, base, cmd, err in procs:
        err.close()
        if p.pid in late:
            fail = fail or "the workload did not finish in time: " + " ".join(cmd)
            continue
        if p.returncode == 0:
            o = json.load(open(base + ".json", encoding="utf-8"))
            seen.add(o)
            b = open(base + ".d", "rb").read()
            seen.distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            continue
        text = open(base + ".err", encoding="utf-8", errors="replace").read()[-3000:]
        try:
            j = open(base + ".j", "rb").read(16)
        except OSError:
            j = b""
        in_call = len(j) == 16 and j[8] == 1
        idx = struct.unpack("<Q", j[:8])[0] if len(j) == 16 else 0
        if in_call and p.returncode != 3:
            what = (p.pid in still and "does not return: its threads wait for each other or for something else") or EXITS.get(p.returncode) or ("ends the process with %s" % (("signal %d" % -p.returncode) if p.returncode < 0 else ("status %d" % p.returncode)))
            seen.violations.append((idx, "a call of case %d %s. %s" % (idx, what, text.strip()[-600:])))
        else:
            fail = fail or "the harness failed (%s, case %d, in call %s): %s" % (p.returncode, idx, in_call, text)
    if fail and not seen.violations:
        raise NoVerdict(fail)
    return seen


GUIDED = 1 << 40


def explore(prop, cases, work, only, extra):
    """The workload of one property: drawn at random, then guided by what the code under observation executes."""
    most = WORK[prop].get("guided")
    if not most:
        return run_shards(build(), prop, cases, work, only)
    plain, guided = build_both()
    most = most * GUIDED_THOROUGH if TIER == "thorough" else most
    if only is not None:
        return run_shards(guided, prop, most, work, only, extra=["--guided"]) if only >= GUIDED else run_shards(plain, prop, cases, work, only)
    seen = run_shards(plain, prop, cases, work)
    if not seen.violations:
        more = run_shards(guided, prop, most, work, tag="-guided", extra=["--guided"])
        reached = max((v for k, v in more.counts.items() if k.startswith("guided: edges reached")), default=0)
        if not more.violations and reached < 20:
            raise NoVerdict("the guided build does not report what it executes")
        seen.merge(more, "guided by coverage", extra)
        seen.events += more.events
    return seen


def wait_all(procs, deadline, stalled=240):
    """Waits for all; kills what runs past the deadline, and what hardly uses the processor for `stalled` polls in a
    row (a minute). Returns the sets of those that came too late and of those that stood still."""
    late, still = set(), set()
    window = {}
    left = list(procs)
    while left:
        for p in list(left):
            if p.poll() is not None:
                left.remove(p)
                continue
            try:
                f = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split()
                used = int(f[11]) + int(f[12])
            except (OSError, IndexError, ValueError):
                continue
            start, polls = window.get(p.pid, (used, 0))
            window[p.pid] = (start, polls + 1) if used - start < 40 else (used, 0)
            if time.time() > deadline or window[p.pid][1] > stalled:
                (late if time.time() > deadline else still).add(p.pid)
                p.kill()
                p.wait()
                left.remove(p)
        if left:
            time.sleep(0.25)
    return late, still


TRIPLE = "x86_64-unknown-linux-gnu"
REPORTS = r"(WARNING: ThreadSanitizer: .*|ERROR: AddressSanitizer.*|ERROR: LeakSanitizer.*|WARNING: MemorySanitizer.*|SUMMARY: \w+Sanitizer.*|error: Undefined Behavior.*|error: memory leaked.*|error: .*[Dd]ata race.*|error: unsupported operation.*|error: abnormal termination.*)"


def build_sanitized(name, std):
    """The monitors under a compiler sanitizer."""
    target = os.path.join(HARNESS, "target", name[0] + "san")
    build(toolchain="+nightly", extra_env={"RUSTFLAGS": "-Zsanitizer=" + name + (" -Zsanitizer-memory-track-origins" if name == "memory" else "")},
          args=["--target", TRIPLE] + (["-Zbuild-std"] if std else []), target=target)
    return [os.path.join(target, TRIPLE, "debug", "mon")]


def prepare_miri():
    target = os.path.join(HARNESS, "target", "miri")
    forget_sut(target)
    env = cargo_env(target)
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-deterministic-floats"
    cmd = ["cargo", "+nightly", "miri", "run", "--offline", "-q", "-p", "mon", "--"]
    r = subprocess.run(cmd + ["selftest-none", "--cases", "0"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if "unknown property" not in r.stdout:
        raise NoVerdict("miri does not run: " + r.stdout[-3000:])
    return cmd


def run_observed(cmd, prop, cases, work, only, tag, env_of, shards=SHARDS, timeout=600, base=0):
    """Shards under a sanitizer or interpreter: any report is a violation, other deaths as in run_shards."""
    seen = Observed()
    procs = []
    n = 1 if only is not None else shards
    deadline = time.time() + timeout
    for i in range(n):
        f = os.path.join(work, "%s-%s-%d" % (prop, tag, i))
        c = cmd + [prop, "--tier", TIER, "--seed", str(SEED + base), "--shard", "%d/%d" % (i, n), "--cases", str(cases), "--dict", os.path.join(work, "dict"),
                   "--small", "--out", f + ".json", "--distinct", f + ".d", "--journal", f + ".j"]
        if only is not None:
            c += ["--only", str(only)]
        env = cargo_env(os.path.join(HARNESS, "target", tag))
        env.update(env_of(i))
        err = open(f + ".err", "wb")
        procs.append((subprocess.Popen(c, cwd=HARNESS, stdout=err, stderr=err, env=env), f, err))
    fail = None
    reports = 0
    # under Miri the process is cargo, which only waits
    late, still = wait_all([p[0] for p in procs], deadline, 240 if tag != "miri" else 1 << 30)
    for p, f, err in procs:
        err.close()
        if p.pid in late:
            fail = fail or "the workload under %s did not finish in time" % tag
            continue
        text = open(f + ".err", encoding="utf-8", errors="replace").read()
        found = re.search(REPORTS, text)
        try:
            j = open(f + ".j", "rb").read(16)
        except OSError:
            j = b""
        cases_named = re.findall(r"^case (\d+)$", text, re.M)
        idx = struct.unpack("<Q", j[:8])[0] if len(j) == 16 else int(cases_named[-1]) if cases_named else 0
        if "LeakSanitizer has encountered a fatal error" in text:
            fail = fail or "LeakSanitizer cannot run here"
            continue
        if found and p.returncode != 0:
            reports += 1
            seen.violations.append((idx, "%s reports: %s" % (tag, text[found.start():found.start() + 1500])))
        elif p.returncode == 0:
            seen.add(json.load(open(f + ".json", encoding="utf-8")))
            b = open(f + ".d", "rb").read()
            seen.distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        elif len(j) == 16 and j[8] == 1 and p.returncode != 3:
            seen.violations.append((idx, "under %s a call of case %d %s. %s" % (tag, idx, (p.pid in still and "does not return") or EXITS.get(p.returncode) or "ends the process with %d" % p.returncode, text[-600:])))
        else:
            fail = fail or "the harness under %s failed (%s): %s" % (tag, p.returncode, text[-2000:])
    if fail and not seen.violations:
        raise NoVerdict(fail)
    return seen


def known_findings(prop):
    out = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) signature=(.*?) \| (.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


# property: (cases quick, cases thorough, what makes a case non-trivial)
from workloads import WORK, STAGES, GUIDED_THOROUGH  # noqa: E402


def main():
    prop = sys.argv[1]
    only = int(sys.argv[sys.argv.index("--only") + 1]) if "--only" in sys.argv else None
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="mon-%s-" % prop)
    try:
        code = decide(prop, only, work, t0)
    except NoVerdict as e:
        print("no verdict on %s: %s" % (prop, e))
        code = 2
    except subprocess.TimeoutExpired as e:
        print("no verdict on %s: timeout: %s" % (prop, e))
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, only, work, t0):
    w = WORK[prop]
    ints, names = dictionary(os.path.join(work, "dict"))
    cases = w["thorough"] if TIER == "thorough" else w["quick"]
    extra = {}
    me = sys.modules[__name__]
    if prop in STAGES:
        seen = STAGES[prop](me, prop, cases, work, only, extra)
    else:
        seen = explore(prop, cases, work, only, extra)
    known = known_findings(prop)
    new, old = [], {}
    for idx, msg in seen.violations:
        k = next((k for k in known if k[0] in msg), None)
        if k:
            old[k[0]] = k[1]
        else:
            new.append((idx, msg))
    coverage = {
        "evaluations": seen.evaluations,
        "distinct_nontrivial": len(seen.distinct),
        "rule": w["rule"],
        "samples": seen.samples[:12],
        "calls_observed": seen.calls,
        "inconclusive": seen.inconclusive,
        "most_allocations_in_a_call": seen.max_allocs,
        "observed": dict(sorted(seen.counts.items())),
        "dictionary": {"integers": ints, "names": names},
    }
    coverage.update(extra)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": coverage,
          "assumptions": w.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
    for k in old.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for n, (idx, msg) in enumerate(new[:10]):
            path = os.path.join(HERE, "replays", "%s-%d-%s-%d.json" % (prop, SEED, TIER, idx))
            with open(path, "w", encoding="utf-8") as f:
                json.dump({"property": prop, "seed": SEED, "tier": TIER, "index": idx, "message": msg,
                           "replay": "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s --only %d" % (SEED, TIER, prop, idx)}, f, indent=1, ensure_ascii=False)
                f.write("\n")
            print("violated: " + msg[:800])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    least = 1 if only is not None else w.get("least", 1000)
    if only is None and (seen.evaluations == 0 or len(seen.distinct) < min(least, cases // 20)):
        print("no verdict on %s: too little was observed: %d evaluations, %d distinct" % (prop, seen.evaluations, len(seen.distinct)))
        return 2
    print("held: %s, %d evaluations, %d distinct, %d calls, %d inconclusive, %.1f s" % (prop, seen.evaluations, len(seen.distinct), seen.calls, seen.inconclusive, time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
