#!/usr/bin/env python3
"""Runs the check of one property (see DESIGN.md).

usage: run.py ID [quick|thorough]      run.py --replay FILE      run.py --setup

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check itself
could not do its work (build error, no scratch space, out of time, ...).
"""
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = "/repo"

# property -> harness package and needs
CHECKS = json.load(open(os.path.join(VERIF, "checks.json")))

CRASH_RE = re.compile(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*|SIGSEGV.*|unexpected fault address.*)", re.M)


def say(*a):
    print(*a, flush=True)


def die(msg):
    say("ERROR:", msg)
    sys.exit(2)


def go_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], stdout=subprocess.PIPE, check=True).stdout
    env = dict(kv.split("=", 1) for kv in out.decode("utf-8", "surrogateescape").split("\0") if "=" in kv)
    env["GOFLAGS"] = "-mod=readonly"
    env["GOSUMDB"] = "off"
    env["GOWORK"] = "off"
    for k in ("SOURCE_DATE_EPOCH", "PYTHONPATH", "PYTHONDONTWRITEBYTECODE", "PYTHONPYCACHEPREFIX"):
        env.pop(k, None)
    env["LC_ALL"] = "C.UTF-8"
    env["TZ"] = "UTC"
    return env


def build(cfg, scratch, env):
    """Builds the harness package (and the ocibuild binary) from /repo's tree."""
    jobs = []
    binary = os.path.join(scratch, "check.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", binary]
    if cfg.get("race"):
        cmd.append("-race")
        env = dict(env, CGO_ENABLED="1")
    jobs.append((cmd + ["./" + cfg["pkg"]], HARNESS))
    if cfg.get("cli"):
        jobs.append((["go", "build", "-o", os.path.join(scratch, "ocibuild"), "."], REPO))
    for cmd, cwd in jobs:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            say(p.stdout[-6000:])
            die("build failed: " + " ".join(cmd))
    return binary


class Shard:
    def __init__(self, prop, tier, seed, num, binary, scratch, env, extra=(), only=""):
        self.prop, self.num = prop, num
        self.args = (prop, tier, seed, num, binary, scratch, env, extra, only)
        self.dir = os.path.join(scratch, "shard%d" % num)
        os.makedirs(os.path.join(self.dir, "tmp"))
        self.result = os.path.join(self.dir, "result.json")
        self.journal = os.path.join(self.dir, "journal.txt")
        self.log = os.path.join(self.dir, "log.txt")
        os.chmod(os.path.join(self.dir, "tmp"), 0o1777)
        e = dict(env, VERIF_RESULT=self.result, VERIF_JOURNAL=self.journal, VERIF_SHARD=str(num),
                 VERIF_SCRATCH=os.path.join(self.dir, "tmp"), TMPDIR=os.path.join(self.dir, "tmp"),
                 VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_OCIBUILD=os.path.join(scratch, "ocibuild"),
                 VERIF_DIR=VERIF, GORACE="halt_on_error=0 exitcode=66")
        if only:
            e["VERIF_ONLY"] = only
        self.logf = open(self.log, "wb")
        self.proc = subprocess.Popen(
            [binary, "-test.run", "^Test%s$" % prop, "-test.timeout=0", "-test.count=1",
             "-rapid.shrinktime=20s", *extra],
            cwd=self.dir, env=e, stdout=self.logf, stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def text(self):
        with open(self.log, "rb") as f:
            return f.read().decode("utf-8", "replace")

    def again(self, num):
        prop, tier, seed, _, binary, scratch, env, extra, only = self.args
        env = dict(env)
        s = Shard.__new__(Shard)
        # the same shard number (and so the same cases) in a fresh process and directory
        d = os.path.join(scratch, "again%d" % num)
        os.makedirs(d)
        s.__init__(prop, tier, seed, self.num, binary, d, dict(env), extra, only)
        return s

    def outcome(self):
        """Returns (kind, detail): pass, violation, infra, hang, crash."""
        rc, text = self.proc.returncode, self.text()
        res = None
        try:
            with open(self.result) as f:
                res = json.load(f)
        except (OSError, ValueError):
            pass
        if "DATA RACE" in text:
            return ("violation", res) if "github.com/datawire/ocibuild" in text else ("infra", res)
        if rc == 0 and res and res["status"] == "pass":
            return "pass", res
        if rc == 3:
            return "infra", res
        if rc == 4:
            return "hang", res
        if rc == 1 and res and res["status"] == "fail":
            if "[rapid] only generated" in text:
                return "infra", res
            return "violation", res
        m = CRASH_RE.search(text)
        if m and "out of memory" not in text and "cannot allocate memory" not in text:
            first = text[m.start():].split("\n\ngoroutine ", 2)
            head = "\n".join(first[:2])
            if "github.com/datawire/ocibuild" in head or "stack overflow" in head or "concurrent map" in head \
                    or "all goroutines are asleep" in head:
                return "crash", res
        return "infra", res


def messages(text):
    """The failure messages, without the list of draws."""
    lines = [ln for ln in text.splitlines() if "[rapid] draw " not in ln]
    return "\n".join(lines)[:20000]


def write_replay(prop, tier, seed, shard, kind):
    text = shard.text()
    fails = sorted(glob.glob(os.path.join(shard.dir, "testdata", "rapid", "*", "*.fail")))
    rep = {"property": prop, "kind": kind, "tier": tier, "seed": seed, "shard": shard.num, "failures": [],
           "messages": messages(text)}
    for f in fails:
        part = os.path.basename(os.path.dirname(f))
        part = part[len("Test" + prop) + 1:]
        with open(f, encoding="utf-8", errors="replace") as fh:
            rep["failures"].append({"part": part, "failfile": fh.read()})
    if kind != "violation":
        rep["journal"] = ""
        if os.path.exists(shard.journal):
            with open(shard.journal, encoding="utf-8", errors="replace") as fh:
                rep["journal"] = fh.read()
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-seed%s-shard%d.json" % (prop, tier, seed, shard.num))
    with open(path, "w") as fh:
        json.dump(rep, fh, indent=1)
    return path, rep


def known_findings(prop):
    ret = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                ret.append(m.group(2))
    return ret


def wait_all(shards, limit):
    end = time.time() + limit
    try:
        for s in shards:
            s.proc.wait(timeout=max(0.1, end - time.time()))
    except subprocess.TimeoutExpired:
        for s in shards:
            s.kill()
        return False
    finally:
        for s in shards:
            if s.proc.poll() is not None:
                # whatever the check left running
                try:
                    os.killpg(s.proc.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
    return True


def run(prop, tier):
    if prop not in CHECKS:
        die("no such property: " + prop)
    cfg = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    start = time.time()
    env = go_env()
    scratch = tempfile.mkdtemp(prefix="verif-%s." % prop)
    os.chmod(scratch, 0o755)
    try:
        binary = build(cfg, scratch, env)
        nshards = cfg.get("shards", 4) if tier == "quick" else cfg.get("thorough_shards", 8)
        shards = [Shard(prop, tier, seed, i, binary, scratch, env) for i in range(nshards)]
        limit = 780 if tier == "quick" else 3 * 3600
        if not wait_all(shards, limit):
            # a check that is merely slow decides nothing; one whose guard saw a hang says so itself
            die("out of time")
        kinds, results, bad = [], [], None
        for s in shards:
            kind, res = s.outcome()
            if kind in ("hang", "crash"):
                say("%s: shard %d ended with a %s; running it again" % (prop, s.num, kind))
                s2 = s.again(s.num)
                wait_all([s2], max(60, 870 - (time.time() - start)) if tier == "quick" else limit)
                kind2, _ = s2.outcome()
                if kind2 == kind or (kind == "crash" and "concurrent map" in s.text()):
                    kind = "violation"
                    bad = bad or (s2 if kind2 != "pass" else s, "crash" if kind2 == "crash" else "hang")
                elif kind2 == "violation":
                    kind = "violation"
                    bad = bad or (s2, "violation")
                else:
                    kind = "infra"
            elif kind == "violation":
                bad = bad or (s, "violation")
            kinds.append(kind)
            if res:
                results.append(res)
        hashes, samples, labels, assumptions, evals = set(), [], {}, [], 0
        parts = {}
        rule = ""
        for r in results:
            evals += r["evaluations"]
            hashes.update(r["hashes"] or [])
            rule = r["rule"]
            if len(samples) < 9:
                samples += (r["samples"] or [])[:9 - len(samples)]
            for k, v in r["labels"].items():
                if not k.startswith("nontrivial:"):
                    labels[k] = labels.get(k, 0) + v
            for k, v in r["parts"].items():
                parts[k] = parts.get(k, 0) + v
            for a in r["assumptions"] or []:
                if a not in assumptions:
                    assumptions.append(a)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
              "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes),
                           "rule": "generated by rapid (random, seeded, shrinking); non-trivial: " + rule,
                           "samples": samples, "cases_per_part": parts, "classes": labels,
                           "processes": nshards},
              "assumptions": assumptions, "wall_s": round(time.time() - start, 2),
              "violations": sum(1 for k in kinds if k == "violation")}
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for k in known_findings(prop):
            say("KNOWN-FINDING: property=%s %s" % (prop, k))
        if bad:
            path, rep = write_replay(prop, tier, seed, bad[0], bad[1])
            say(rep["messages"][:6000])
            if rep.get("journal"):
                say("last case: " + rep["journal"][:3000])
            say("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if any(k == "infra" for k in kinds):
            for s, k in zip(shards, kinds):
                if k == "infra":
                    say("--- shard %d (exit %s)" % (s.num, s.proc.returncode))
                    say(messages(s.text())[-4000:])
            die("the check could not do its work")
        say("%s: held on %d cases (%d distinct non-trivial), %.0f s" % (prop, evals, len(hashes), time.time() - start))
        return 0
    finally:
        # scratch is the mkdtemp directory made above
        subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    rep = json.load(open(path))
    prop, cfg = rep["property"], CHECKS[rep["property"]]
    env = go_env()
    scratch = tempfile.mkdtemp(prefix="verif-%s." % prop)
    os.chmod(scratch, 0o755)
    try:
        binary = build(cfg, scratch, env)
        if rep["failures"]:
            f = rep["failures"][0]
            ff = os.path.join(scratch, "case.fail")
            with open(ff, "w") as fh:
                fh.write(f["failfile"])
            # one rapid check only: the saved case
            s = Shard(prop, rep["tier"], rep["seed"], rep["shard"], binary, scratch,
                      dict(env, VERIF_SCALE="0", VERIF_FAILFILE=ff), extra=["-rapid.failfile=" + ff], only=f["part"])
        else:
            s = Shard(prop, rep["tier"], rep["seed"], rep["shard"], binary, scratch, env)
        wait_all([s], 1800)
        kind, _ = s.outcome()
        say(messages(s.text()))
        if kind in ("violation", "crash", "hang"):
            say("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0 if kind == "pass" else 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    env = go_env()
    p = subprocess.run(["go", "version"], env=env)
    if p.returncode != 0:
        return 2
    scratch = tempfile.mkdtemp(prefix="verif-setup.")
    try:
        for prop in sorted(CHECKS):
            pass
        for pkg, race in sorted({(c["pkg"], bool(c.get("race"))) for c in CHECKS.values()}):
            build({"pkg": pkg, "race": race}, scratch, env)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--setup":
        return setup()
    if not a:
        die(__doc__)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("unknown tier " + tier)
    return run(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
