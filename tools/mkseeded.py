#!/usr/bin/env python3
"""Makes /verif/seeded/* from tools/seeds.py in scratch copies of /repo, and
confirms each: it builds, passes the repository's tests, its demonstration
passes without and fails with the change, and it changes original lines.
Usage: mkseeded.py [id...]; with --check also runs the property's check."""
import json, os, subprocess, sys, shutil, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
sys.path.insert(0, here)
import seeds
BASE = "c5e840d"
def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, **kw)
DEMO = '''#!/bin/bash
# Exits 0 when the promise holds. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/main.go"
timeout 250 go run %s"$tmp/main.go"
'''
def original(copy, path, line):
    """line (1-based, in HEAD) comes from the original repository"""
    out = sh(f"git blame -s -L {line},{line} HEAD -- {path}", "/repo").stdout
    h = out.split()[0].lstrip("^")
    return sh(f"git merge-base --is-ancestor {h} {BASE}", "/repo").returncode == 0
only = [a for a in sys.argv[1:] if not a.startswith("-")]
check = "--check" in sys.argv
bad = 0
for s in seeds.SEEDS:
    if only and s["id"] not in only:
        continue
    d = os.path.join(verif, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-")
    copy = os.path.join(tmp, "repo")
    msg = []
    try:
        shutil.copytree("/repo", copy, symlinks=True)
        for path, old, new in s["edits"]:
            p = os.path.join(copy, path)
            t = open(p).read()
            if t.count(old) != 1:
                msg.append(f"{path}: {t.count(old)} matches of {old!r}")
            t = t.replace(old, new, 1)
            open(p, "w").write(t)
        f = sh("gofmt -l miniquery/tree.go miniquery/node.go miniquery/join.go miniquery/visitor.go miniquery/parse.go gormq entmq", copy).stdout
        if f.strip():
            msg.append("gofmt: " + f)
        diff = sh("git diff", copy).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        open(os.path.join(d, "demo.go.txt"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % ("-race " if s.get("race") else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        # removed lines must be original ones
        n = ok = 0
        path, ln = None, 0
        for l in diff.splitlines():
            if l.startswith("--- "): path = l[6:]
            elif l.startswith("@@"): ln = int(l.split()[1][1:].split(",")[0])
            elif l.startswith("-") and path:
                n += 1
                if original(copy, path, ln): ok += 1
                else: msg.append("not original: " + l)
                ln += 1
            elif l.startswith("+"): pass
            else: ln += 1
        if n == 0: msg.append("no original line is changed")
        r = sh("go build ./... && go vet ./... ", copy)
        if r.returncode: msg.append("build: " + r.stderr[:500])
        r = sh("go test -count=1 ./... 2>&1 | grep -c '^ok'; go test -count=1 ./... >/dev/null 2>&1", copy)
        if r.returncode: msg.append("tests fail")
        sh("git checkout -q -- . ; git clean -fdq", copy)
        a = sh(f"bash {d}/demo.sh", copy)
        if a.returncode: msg.append("demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-800:])
        sh(f"git apply {d}/patch.diff", copy)
        b = sh(f"bash {d}/demo.sh", copy)
        if b.returncode == 0: msg.append("demo passes with the change")
        if sh("git status --short -- go.mod go.sum", copy).stdout.strip(): msg.append("demo changes go.mod")
        res = ""
        if check:
            c = sh(f"VERIF_REPO={copy} {verif}/check.sh {s['property']}", verif)
            res = {0: "MISSED", 1: "caught"}.get(c.returncode, f"exit {c.returncode} {c.stdout[-300:]}")
            if c.returncode == 1: res += " " + c.stdout.splitlines()[2].strip()[:80]
    finally:
        shutil.rmtree(tmp)
    print(s["id"], s["property"], res, "; ".join(msg) or "ok", flush=True)
    bad += bool(msg)
sys.exit(bad > 0)
