#!/usr/bin/env python3
"""Plant the bugs described in a Python file under /verif/seeded.

plant.py FILE [ID...]   FILE defines BUGS, a list of dictionaries with
  id, property, file (or edits), old/new, demo, needs, breaks

Every bug is tried in a scratch copy of /repo: it has to apply, to build, to
pass the stable tests, and its demo has to pass without it and to fail with it.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")

DEMO_SH = """#!/bin/bash
# Compiles demo.rs against the library in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
rustc --edition 2021 -A warnings %(flags)s --crate-name sqrid --crate-type rlib -o "$t/libsqrid.rlib" src/lib.rs || exit 4
%(run)s
"""
RUN = """rustc --edition 2021 -A warnings %(flags)s --extern sqrid="$t/libsqrid.rlib" -o "$t/demo" "$here/demo.rs" || exit 5
ulimit -v 8000000
timeout 60 "$t/demo"
"""

def sh(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def main():
    spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    want = sys.argv[2:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    scratch = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    repo = os.path.join(scratch, "repo")
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    bad = 0
    try:
        for b in mod.BUGS:
            if want and b["id"] not in want:
                continue
            print(b["id"], "...", flush=True)
            r = plant(b, repo, scratch)
            print("   ", r or "ok", flush=True)
            bad += bool(r)
    finally:
        shutil.rmtree(scratch)
    sys.exit(1 if bad else 0)

def plant(b, repo, scratch):
    sh(["git", "checkout", "--", "."], repo)
    edits = b.get("edits") or [(b["file"], b["old"], b["new"])]
    for f, old, new in edits:
        path = os.path.join(repo, f)
        text = open(path).read()
        n = b.get("count", 1)
        if text.count(old) != n:
            return f"text found {text.count(old)} times in {f}"
        open(path, "w").write(text.replace(old, new))
    rc, diff = sh(["git", "diff"], repo)
    if not diff:
        return "no difference"
    for f in {e[0] for e in edits}:
        rc, out = sh(["rustfmt", "--edition", "2021", "--check", f], repo)
    d = os.path.join(scratch, "seed")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    flags = b.get("flags", "")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO_SH % {"flags": flags, "run": (b.get("run") or RUN) % {"flags": flags}})
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "demo.rs"), "w") as f:
        f.write(b["demo"].lstrip("\n"))
    with open(os.path.join(d, "patch.diff"), "w") as f:
        f.write(diff)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        f.write("\n")
    demo = [os.path.join(d, "demo.sh")]
    rc, out = sh(demo, repo)
    if rc == 0:
        return "the demo passes with the bug"
    if rc in (3, 4):
        return f"demo.sh: {rc}\n{out}"
    if rc == 5 and not b.get("rejected"):
        return f"demo.rs does not compile with the bug\n{out}"
    rc, out = tests(repo, scratch)
    if rc:
        return "tests: " + out
    sh(["git", "checkout", "--", "."], repo)
    rc, out = sh(demo, repo)
    if rc:
        return f"the demo fails without the bug ({rc})\n{out}"
    rc, out = sh(["git", "apply", "--check", os.path.join(d, "patch.diff")], repo)
    if rc:
        return out
    dst = os.path.join(SEEDED, b["id"])
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(d, dst)
    return None

def tests(repo, scratch):
    """The stable tests, run in the scratch copy."""
    p = subprocess.run(["cargo", "test", "--offline"], cwd=repo,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, CARGO_TARGET_DIR=os.path.join(repo, "target")))
    if p.returncode:
        return 1, "\n".join([l for l in p.stdout.splitlines() if "FAILED" in l or "error" in l][:20])
    return 0, ""

if __name__ == "__main__":
    main()
