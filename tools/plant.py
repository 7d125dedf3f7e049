#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: writes seeded/<id>/ from a specification and confirms it in a scratch copy:
applies, builds, keeps the 36 tests, demonstration passes without and fails with it.
SPEC.py defines SEEDS: list of dicts id, property, edits [(file, old, new)], demo (Rust test functions), where (file the
demonstration is appended to), needs, breaks."""
import difflib, json, os, re, runpy, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant"
DEMO = '''#!/bin/bash
# Builds a copy of the sources with the demonstration added, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d)
cp -r src "$scratch/src"
cat "$here/demo.rs" >> "$scratch/%s"
rustc --edition 2021 --test -A warnings %s-o "$scratch/demo" "$scratch/src/main.rs" && timeout 120 "$scratch/demo" seeded_demo
code=$?
find "$scratch" -delete
exit $code
'''


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests(tree):
    env = dict(os.environ, CARGO_TARGET_DIR="/tmp/plant-target", CARGO_NET_OFFLINE="true")
    subprocess.run("find /tmp/plant-target -name 'symbolic_rust-*' -path '*fingerprint*' -maxdepth 4 -exec rm -rf {} + 2>/dev/null", shell=True)
    r = run(["cargo", "test", "--offline", "--locked"], tree, env=env)
    m = re.search(r"test result: ok\. (\d+) passed", r.stdout)
    return (m and int(m.group(1)) == 36), r.stdout


def copy():
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.copytree("/repo", SCRATCH, ignore=shutil.ignore_patterns("target", ".git"))


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    only = sys.argv[2:]
    for s in seeds:
        if only and s["id"] not in only:
            continue
        copy()
        patch = ""
        ok = True
        for f in dict.fromkeys(e[0] for e in s["edits"]):
            a = open(os.path.join("/repo", f), encoding="utf-8").read()
            b = a
            for g, old, new in s["edits"]:
                if g == f:
                    if b.count(old) != 1:
                        print(s["id"], "BAD EDIT", f, b.count(old), repr(old))
                        ok = False
                        continue
                    b = b.replace(old, new)
            al, bl = a.splitlines(True), b.splitlines(True)
            d = "".join(difflib.unified_diff(al, bl, "a/" + f, "b/" + f))
            # files without a newline at the end
            out = ""
            for line in d.splitlines(True):
                out += line if line.endswith("\n") else line + "\n\\ No newline at end of file\n"
            patch += out
        if not ok:
            continue
        d = os.path.join(HERE, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w", encoding="utf-8").write(patch)
        where = s.get("where", "src/main.rs")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (where, s.get("flags", "")))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w", encoding="utf-8").write("\n\n#[cfg(test)]\nmod seeded_demo {\n%s\n}\n" % s["demo"].strip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        good, t0 = True, ""
        r = run(["bash", os.path.join(d, "demo.sh")], SCRATCH)
        if r.returncode != 0:
            print(s["id"], "DEMO FAILS UNPATCHED\n", r.stdout[-1500:])
            continue
        p = run(["git", "apply", "--check", "--unsafe-paths", os.path.join(d, "patch.diff")], "/repo")
        if p.returncode != 0:
            print(s["id"], "DOES NOT APPLY", p.stdout)
            continue
        p = run(["patch", "-p1", "-i", os.path.join(d, "patch.diff")], SCRATCH)
        if p.returncode != 0:
            print(s["id"], "PATCH", p.stdout)
            continue
        good, text = tests(SCRATCH)
        if not good:
            print(s["id"], "TESTS FAIL\n", text[-2500:])
            continue
        r = run(["bash", os.path.join(d, "demo.sh")], SCRATCH)
        if r.returncode == 0:
            print(s["id"], "DEMO PASSES PATCHED")
            continue
        if "error[" in r.stdout or "error:" in r.stdout.split("test result")[0] and "running" not in r.stdout:
            print(s["id"], "DEMO DOES NOT COMPILE\n", r.stdout[-1500:])
            continue
        print(s["id"], "ok")
    shutil.rmtree(SCRATCH, ignore_errors=True)


main()
