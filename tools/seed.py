#!/usr/bin/env python3
"""Builds and verifies planted bugs: python3 tools/seed.py SPEC.py [id...]

SPEC.py defines BUGS, a list of dicts with id, property, edits [(file, old, new)],
needs, breaks, and main (Go source of the demonstration) or sh (shell demo body).
Each is applied in a scratch copy, built, run through the stable suite, and its
demonstration is run on both trees; only then is it written to seeded/<id>."""
import json, os, re, shutil, subprocess, sys, tempfile

BASE = "d6e27d8"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GO = """#!/bin/bash
# Runs the program beside this file against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
cp "$here/main.go.txt" "$dir/main.go"
cp "$repo/go.sum" "$dir/go.sum" 2>/dev/null
ver=$(sed -n 's/^go //p' "$repo/go.mod")
cat > "$dir/go.mod" <<M
module demo

go $ver

require github.com/pandatix/go-abnf v0.0.0-00010101000000-000000000000

replace github.com/pandatix/go-abnf => $repo
M
cd "$dir" || exit 2
export GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
timeout 240 go run %s.
"""

def sh(cmd, cwd, env=None, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, env=env, timeout=timeout)

def suite(cwd):
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="")
    env.pop("GOWORK", None)
    b = sh("go build ./... ./cmd/pap/...", cwd, env)
    if b.returncode:
        return "BUILD " + b.stderr[:400]
    t = sh("timeout -k 5 120 go test -json -vet=off -count=1 -timeout 100s ./... ./cmd/pap/...", cwd, env)
    passed, failed = set(), set()
    for l in t.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Test") and e.get("Action") in ("pass", "fail"):
            (passed if e["Action"] == "pass" else failed).add(e["Package"] + "/" + e["Test"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    base = set(base["stable"])
    miss = base - (passed - failed)
    return "SUITE " + str(sorted(miss)[:5]) if miss else ""

def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only: continue
        scr = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
        repo = scr + "/repo"
        try:
            sh(["cp", "-a", "/repo", repo], "/")
            bad = ""
            for f, old, new in b["edits"]:
                src = open(f"{repo}/{f}").read()
                if src.count(old) != 1: bad = f"edit in {f}: {src.count(old)} matches"; break
                i = src.index(old)
                open(f"{repo}/{f}", "w").write(src.replace(old, new))
            if bad: print(b["id"], "REJECT", bad); continue
            diff = sh("git diff", repo).stdout
            # the lines it changes come from the original tree
            own = orig = 0
            for f, _, _ in b["edits"]:
                bl = sh(f"git blame -s {BASE}..HEAD -- {f}", "/repo").stdout.splitlines()
                cur, ln = None, 0
                seen = False
                for l in sh(f"git diff -U0 -- {f}", repo).stdout.splitlines():
                    m = re.match(r"@@ -(\d+)", l)
                    if m: ln = int(m.group(1)); seen = True; continue
                    if seen and l.startswith("-"):
                        if bl[ln-1].startswith("^"): orig += 1
                        else: own += 1
                        ln += 1
            if own: print(b["id"], f"NOTE touches {own} lines of fix commits")
            if own and not orig: print(b["id"], "REJECT only lines of fix commits"); continue
            r = suite(repo)
            if r: print(b["id"], "REJECT", r); continue
            d = f"{VERIF}/seeded/{b['id']}"
            t = scr + "/demo"
            os.makedirs(t)
            if "main" in b:
                open(t + "/main.go.txt", "w").write(b["main"].lstrip("\n"))
                open(t + "/demo.sh", "w").write(GO % b.get("goflags", ""))
            else:
                open(t + "/demo.sh", "w").write("#!/bin/bash\n" + b["sh"].lstrip("\n"))
            open(t + "/patch.diff", "w").write(diff)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(t + "/meta.json", "w"), indent=1)
            c = sh(["bash", t + "/demo.sh"], "/repo")
            m = sh(["bash", t + "/demo.sh"], repo)
            if c.returncode != 0: print(b["id"], "REJECT demo fails on clean tree:", c.stdout[-500:], c.stderr[-800:]); continue
            if m.returncode == 0: print(b["id"], "REJECT demo passes with the bug"); continue
            if sh("git status --short", "/repo").stdout: print("REPO DIRTY")
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(t, d)
            print(b["id"], b["property"], "OK:", (m.stdout + m.stderr).strip()[-160:].replace("\n", " | "))
        finally:
            shutil.rmtree(scr)
main()
