#!/usr/bin/env python3
"""Plant a bug: turn edits + a demonstration into /verif/seeded/<id>/ and confirm it.

usage: plant.py SPEC.py [ID ...]     SPEC.py defines BUGS = [dict(id, property, edits, demo, pkg, needs, breaks)]
Everything is confirmed in a scratch copy of /repo under /tmp; /repo itself is never touched.
"""
import json, os, re, shutil, subprocess, sys, tempfile, runpy

VERIF = "/verif"
BASE = "f00414e"
PKG = {"translator_test": "translator", "plurals_test": "plurals", "internal": "cmd/xtemplate/internal",
       "f_test": "f", "locale_test": "locale", "main": "cmd/xtemplate"}
RUN = {"PATH": "/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"]}

DEMO = '''#!/bin/bash
# exit 0 when the property holds, non-zero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOENV=off
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build} LANG=C.UTF-8
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
printf 'go 1.25.0\\n\\nuse (\\n\\t%s\\n\\t%s/cmd/xtemplate\\n)\\n' "$repo" "$repo" > "$tmp/go.work"
export GOWORK=$tmp/go.work
printf '{"Replace": {"%s/@PKG@/zz_demo_test.go": "%s/demo_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
cd "$repo/@PKG@" && timeout 250 go test @RACE@-overlay "$tmp/overlay.json" -vet=off -count=1 -run '^TestDemo$' .
'''


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ); e.update(RUN); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    return d


def tests(copy, work):
    env = {"GOWORK": work, "GOFLAGS": "", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOENV": "off", "LANG": "C.UTF-8"}
    out = []
    for m in (".", "cmd/xtemplate"):
        r = sh("go build ./... && go test -vet=off -count=1 ./...", cwd=os.path.join(copy, m), env=env)
        if r.returncode:
            out.append(r.stdout[-3000:] + r.stderr[-2000:])
    return out


def plant(bug):
    bid = bug["id"]
    print("==", bid, flush=True)
    scratch = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    copy = os.path.join(scratch, "repo")
    try:
        sh(f"cp -a /repo {copy}")
        sh("git checkout -q -- . && git clean -fdq", cwd=copy)
        work = os.path.join(scratch, "go.work")
        open(work, "w").write(f"go 1.25.0\n\nuse (\n\t{copy}\n\t{copy}/cmd/xtemplate\n)\n")
        dest = os.path.join(VERIF, "seeded", bid)
        new = os.path.join(scratch, "out")
        os.makedirs(new)
        pkg = bug.get("pkg") or PKG.get(bug.get("demo", "").split()[1] if "demo" in bug else "", ".")
        if "demo_sh" in bug:
            open(new + "/demo.sh", "w").write(bug["demo_sh"])
        else:
            open(new + "/demo.sh", "w").write(DEMO.replace("@PKG@", pkg).replace("@RACE@", "-race " if bug.get("race") else ""))
            open(new + "/demo_test.go", "w").write(bug["demo"].lstrip())
        os.chmod(new + "/demo.sh", 0o755)
        r = sh(new + "/demo.sh", cwd=copy)
        if r.returncode:
            print("   demo FAILS on the clean tree\n", r.stdout[-3000:], r.stderr[-3000:]); return False
        for path, old, repl in bug["edits"]:
            p = os.path.join(copy, path)
            s = open(p).read()
            if s.count(old) != 1:
                print("   edit matches", s.count(old), "times in", path, repr(old)); return False
            open(p, "w").write(s.replace(old, repl))
        sh("gofmt -w " + " ".join(sorted({e[0] for e in bug["edits"]})), cwd=copy)
        patch = sh("git diff", cwd=copy).stdout
        # every removed line has to be an original line
        added = set()
        for path in sorted({e[0] for e in bug["edits"]}):
            blame = sh(f"git blame -s -l HEAD -- {path}", cwd=copy).stdout.splitlines()
            base = set(sh(f"git rev-list {BASE}", cwd=copy).stdout.split())
            for i, l in enumerate(blame, 1):
                h = l.split()[0].lstrip("^")
                if not any(b.startswith(h) for b in base):
                    added.add((path, i))
        cur = None; line = 0; removed = 0
        for l in patch.splitlines():
            if l.startswith("--- a/"): cur = l[6:]
            elif l.startswith("@@"): line = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                removed += 1
                if (cur, line) in added: print("   WARNING: changes a line a fix added:", cur, line, l)
                line += 1
            elif l.startswith(" "): line += 1
        if not removed: print("   WARNING: no original line changed")
        bad = tests(copy, work)
        if bad:
            print("   existing tests FAIL:\n", "\n".join(bad)[-2500:]); return False
        r = sh(new + "/demo.sh", cwd=copy)
        if r.returncode == 0:
            print("   demo PASSES with the change"); return False
        if "build failed" in r.stdout + r.stderr:
            print("   demo does not build", r.stdout, r.stderr); return False
        print("   ok:", [x for x in r.stdout.splitlines() if "demo_test.go" in x or "panic" in x or "RACE" in x][:2])
        open(new + "/patch.diff", "w").write(patch)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(new + "/meta.json", "w"), indent=1, ensure_ascii=False)
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(new, dest)
        return True
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    res = {}
    for b in bugs:
        if not want or b["id"] in want:
            res[b["id"]] = plant(b)
    print("failed:", [k for k, v in res.items() if not v])


main()
