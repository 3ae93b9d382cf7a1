#!/usr/bin/env python3
"""Confirms planted bugs and runs the checks against them (a development aid; no check uses it).

usage: plant.py new SPEC.py [ID...]     make seeded/ID from a specification (see new())
       plant.py confirm [ID...]         builds, passes the stable tests, demo 0 without and non-zero with the patch
       plant.py check [ID...]           apply to /repo, run the property's quick check, undo
"""
import json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ENV = ". /opt/vp/env.sh; "

GODEMO = r'''#!/bin/bash
# Runs demo_test.go as part of the package; exit 0 if the property held.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" >"$tmp/overlay.json"
go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
SHDEMO = r'''#!/bin/bash
# exit 0 if the property held
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
go build -o "$tmp/ocibuild" . || exit 99
ocibuild="$tmp/ocibuild"
repo=$PWD
cd "$tmp" || exit 99
'''


def sh(cmd, cwd=None, **kw):
    return subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def copy():
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    return d, d + "/repo"


def new(specfile, ids):
    bugs = []
    g = {"bug": lambda *a, **k: bugs.append((a, k))}
    exec(open(specfile, encoding="utf-8").read(), g)
    for (id, prop, needs, breaks, edits), k in bugs:
        if ids and id not in ids:
            continue
        d, wt = copy()
        try:
            for f, old, neu in edits:
                p = os.path.join(wt, f)
                s = open(p, encoding="utf-8").read()
                if s.count(old) != 1:
                    sys.exit("%s: %s has the text %d times: %s" % (id, f, s.count(old), old))
                open(p, "w", encoding="utf-8").write(s.replace(old, neu))
            r = sh(ENV + "gofmt -l $(git diff --name-only); git diff", wt)
            if not r.stdout.startswith("diff"):
                print(id, "gofmt:", r.stdout.split("diff")[0])
                r = sh("git diff", wt)
            o = os.path.join(S, id)
            os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w", encoding="utf-8").write(r.stdout)
            if "go" in k:
                pkg, code = k["go"]
                open(o + "/demo.sh", "w").write(GODEMO % {"pkg": pkg})
                open(o + "/demo_test.go", "w", encoding="utf-8").write(code.lstrip("\n"))
            else:
                open(o + "/demo.sh", "w", encoding="utf-8").write(SHDEMO + k["sh"].lstrip("\n"))
            for n, body in k.get("files", {}).items():
                open(o + "/" + n, "w", encoding="utf-8").write(body)
            os.chmod(o + "/demo.sh", 0o755)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1, ensure_ascii=False)
        finally:
            shutil.rmtree(d)


BASE = None


def confirm(id):
    o = os.path.join(S, id)
    d, wt = copy()
    try:
        demo = os.path.join(d, "demo")
        shutil.copytree(o, demo)
        os.remove(demo + "/patch.diff")
        os.remove(demo + "/meta.json")
        r0 = sh("bash %s/demo.sh" % demo, wt)
        if r0.returncode != 0:
            return "BAD: demo fails on the unchanged tree: " + r0.stdout[-1500:]
        r = sh("git apply %s/patch.diff && %s go build ./... && go build -tags=aux -o /dev/null ." % (o, ENV), wt)
        if r.returncode != 0:
            return "BAD: build: " + r.stdout[-1500:]
        r1 = sh("bash %s/demo.sh" % demo, wt)
        if r1.returncode == 0:
            return "BAD: demo passes with the patch"
        r = sh(ENV + "pkgs=$(go list -e ./... | grep -vx 'github.com/datawire/ocibuild/pkg/python/pypa'); go test -json -vet=off -count=1 $pkgs > ../log; python3 /opt/vp/results.py ../out.json gojson:../log", wt)
        got = json.load(open(d + "/out.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        bl = base.get("passed") or base.get("stable") or base
        gl = got.get("passed") or got
        missing = set(bl) - set(gl)
        if missing:
            return "BAD: tests fail: %s" % sorted(missing)[:5]
        return "ok (demo says: %s)" % r1.stdout.strip()[-300:].replace("\n", " | ")
    finally:
        shutil.rmtree(d)


def original(id):
    """How many of the lines that the patch removes are the original repository's."""
    n, mine, base = 0, 0, []
    for ln in open(os.path.join(S, id, "patch.diff"), encoding="utf-8"):
        if ln.startswith("--- a/"):
            base = sh("git -C /repo show 2df8b13:" + ln[6:].strip()).stdout.splitlines()
        elif ln.startswith("-") and ln[1:].strip():
            if ln[1:].rstrip("\n") in base:
                n += 1
            else:
                mine += 1
    return "%d original lines, %d others" % (n, mine)


def check(id, prop=None):
    o = os.path.join(S, id)
    prop = prop or json.load(open(o + "/meta.json"))["property"]
    assert sh("git -C /repo status --porcelain").stdout == ""
    t = time.time()
    r = sh("git -C /repo apply %s/patch.diff" % o)
    if r.returncode:
        return "BAD: " + r.stdout
    try:
        r = sh("python3 %s/run.py %s quick" % (V, prop))
    finally:
        sh("git -C /repo checkout -- .")
    v = [ln for ln in r.stdout.splitlines() if ln.startswith("VIOLATION")]
    first = [ln for ln in r.stdout.splitlines() if "_test.go" in ln or "HANG" in ln or "panic" in ln]
    return "%s rc=%d %.0fs %s" % ("CAUGHT" if v and r.returncode == 1 else "MISSED", r.returncode, time.time() - t, (first[0][:400] if first else r.stdout[-300:]) if r.returncode else "")


def main():
    a = sys.argv[1:]
    if a[0] == "new":
        return new(a[1], a[2:])
    ids = a[1:] or sorted(os.listdir(S))
    for id in ids:
        print(id, {"confirm": confirm, "check": check, "original": original}[a[0]](id), flush=True)


if __name__ == "__main__":
    main()
