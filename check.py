#!/usr/bin/env python3
"""check.py <property> [--replay FILE] - decides one property by generated-input search.

Builds the harness (and, where needed, the repository's binaries) from /repo's
current working tree in a scratch directory, runs it in parallel shards and
writes evidence/<property>.json.  Exit 0: held on everything explored.  Exit 1
with a line "VIOLATION property=<id> replay=<path>": broken.  Anything else is
an error of the check itself.

Environment: VERIF_SEED (every random choice follows from it), VERIF_TIER
(quick or thorough).
"""
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = 8

# per property: race detector, binaries, soft budgets in seconds
RACE = {"C13", "C17"}
BINS = {"C21": ["dukptcli"], "C22": ["dukptcli"], "C24": ["server"]}
QUICK_BUDGET, THOROUGH_BUDGET = 200, 1500
HARD_EXTRA = 300  # over the soft budget, then the check gives up with an error

ASSUMPTIONS = [
    "the harness's reference model (harness/ref) states the standards correctly; it is self-tested against published vectors by every run",
    "Go's standard block ciphers and SHA-256 are correct",
    "sampling: only the generated cases were explored; absence of a violation is not a proof",
]


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def go_env(scratch):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("VH_", "GO")) or k in ("LOG_FORMAT", "HTTP_BIND_ADDRESS", "HTTP_ADMIN_BIND_ADDRESS", "HTTPS_CERT_FILE", "HTTPS_KEY_FILE"):
            del e[k]
    root = "/opt/veriftools/go1.27.3"
    home = e.get("HOME") or "/root"
    e.update(
        PATH="/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin"),
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
        GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off",
        CGO_ENABLED="1", HOME=home, TMPDIR=scratch,
    )
    if os.path.isdir(root):
        e["GOROOT"] = root
        e["PATH"] = root + "/bin:" + e["PATH"]
    return e


def start_builds(prop, scratch, env):
    """Returns [(what, Popen, log)]."""
    builds = []

    def spawn(what, cmd, cwd):
        log = open(os.path.join(scratch, "build.%s.log" % what), "w+")
        builds.append((what, subprocess.Popen(cmd, cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT), log))

    for src, name in ((os.path.join(VERIF, "harness"), "h"), (REPO, "r")):
        for f in ("mod", "sum"):
            shutil.copy(os.path.join(src, "go." + f), os.path.join(scratch, "%s.%s" % (name, f)))
    if REPO != "/repo":
        p = os.path.join(scratch, "h.mod")
        t = open(p).read().replace("=> /repo", "=> " + REPO)
        open(p, "w").write(t)
    cmd = ["go", "test", "-c", "-vet=off", "-buildvcs=false", "-modfile", os.path.join(scratch, "h.mod")]
    if prop in RACE:
        cmd.append("-race")
    spawn("harness", cmd + ["-o", os.path.join(scratch, "props.test"), "./props"], os.path.join(VERIF, "harness"))
    for b in BINS.get(prop, []):
        spawn(b, ["go", "build", "-buildvcs=false", "-modfile", os.path.join(scratch, "r.mod"), "-o", os.path.join(scratch, "bin", b), "./cmd/" + b], REPO)
    return builds


def finish_builds(builds):
    for what, p, log in builds:
        rc = p.wait()
        log.seek(0)
        out = log.read()
        log.close()
        if rc != 0:
            die("build of %s failed:\n%s" % (what, out[-4000:]))


def read_current(path):
    try:
        b = open(path, "rb").read()
        n, m = struct.unpack("<II", b[:8])
        return b[8:8 + n].decode(), json.loads(b[8 + n:8 + n + m])
    except Exception:
        return None, None


def crash_verdict(rc, out):
    """A crash of the shard process: what the code under test did, or None."""
    if rc == 66 or "WARNING: DATA RACE" in out:
        if "github.com/moov-io/dukpt" in out:
            where = re.findall(r"(?:Write|Read|Previous \w+) at .*?\n\s+(\S+)", out)
            return "data race: " + " / ".join(where[:2])
        return None
    m = re.search(r"^(fatal error: .*|panic: .*)$", out, re.M)
    if not m:
        return None
    first = out[m.start():]
    # the goroutine that died is printed first
    stack = first.split("\n\ngoroutine ", 2)
    stack = "\n".join(stack[:2])
    if "out of memory" in m.group(1) or "cannot allocate" in out:
        return None
    if "github.com/moov-io/dukpt/" in stack:
        return "process crash: " + m.group(1)[:300]
    if m.group(1).startswith("fatal error: concurrent map") and "github.com/moov-io/dukpt/" in first:
        return "process crash: " + m.group(1)[:300]
    if m.group(1).startswith("fatal error: all goroutines are asleep") and "github.com/moov-io/dukpt/" in first:
        return "deadlock: " + m.group(1)[:300]
    return None


def save_replay(prop, v):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps([v.get("group"), v.get("case")], sort_keys=True).encode()).hexdigest()[:12]
    p = os.path.join(d, "%s-%s.json" % (prop, h))
    with open(p, "w") as f:
        json.dump(v, f, indent=1)
    return p


def run_shards(prop, tier, seed, scratch, env, budget, mode="run", extra=None, shards=SHARDS):
    """Returns (violation or None, outputs)."""
    out = os.path.join(scratch, "out")
    os.makedirs(out, exist_ok=True)
    procs = []
    for s in range(shards):
        work = os.path.join(scratch, "work.%d" % s)
        os.makedirs(work, exist_ok=True)
        e = dict(env)
        e.update(VH_MODE=mode, VH_PROP=prop, VH_TIER=tier, VH_SEED=str(seed), VH_SHARD=str(s), VH_SHARDS=str(shards),
                 VH_OUT=out, VH_REPO=REPO, VH_BUDGET=str(budget), VH_BIN=os.path.join(scratch, "bin"),
                 VH_CORPUS=os.path.join(VERIF, "corpus", prop),
                 TMPDIR=work, GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="all")
        e.update(extra or {})
        log = open(os.path.join(out, "log.%d" % s), "w+", errors="replace")
        p = subprocess.Popen([os.path.join(scratch, "props.test")], cwd=work, env=e, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True)
        procs.append((s, p, log))
    hard = time.time() + budget + HARD_EXTRA
    left = {s for s, _, _ in procs}
    violation, error = None, None
    while left and violation is None and error is None:
        time.sleep(0.02)
        for s, p, log in procs:
            if s not in left:
                continue
            rc = p.poll()
            if rc is None:
                continue
            left.discard(s)
            log.seek(0)
            text = log.read()
            if rc == 0:
                continue
            vf = os.path.join(out, "violation.%d.json" % s)
            if rc == 1 and os.path.exists(vf):
                violation = json.load(open(vf))
                break
            why = crash_verdict(rc, text)
            group, case = read_current(os.path.join(out, "current.%d" % s))
            if why and group is not None:
                violation = {"property": prop, "group": group, "case": case, "message": why, "seed": seed, "shard": s, "tier": tier,
                             "how": "python3 /verif/check.py %s --replay <this file>" % prop, "output": text[-20000:]}
                break
            error = "shard %d ended with %s:\n%s" % (s, rc, text[-6000:])
            break
        if time.time() > hard:
            error = "shards %s did not end in time" % sorted(left)
    for s, p, log in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    for _, _, log in procs:
        log.close()
    if error and not violation:
        die(error)
    return violation


def write_evidence(prop, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(p + ".tmp", p)


def setup():
    """Builds everything once and self-tests the reference model."""
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        env = go_env(scratch)
        finish_builds(start_builds("C21", scratch, env))
        e = dict(env)
        e.update(VH_MODE="selftest")
        r = subprocess.run([os.path.join(scratch, "props.test")], cwd=scratch, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            die("self-test failed: " + r.stdout + r.stderr)
        print("setup: harness builds, reference model agrees with the published vectors")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        return setup()
    if not args or not re.fullmatch(r"C\d\d", args[0]):
        die("usage: check.py <property> [--replay FILE]")
    prop = args[0]
    replay = os.path.abspath(args[2]) if len(args) >= 3 and args[1] == "--replay" else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("VERIF_TIER=%s" % tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        die("VERIF_SEED is not a number")
    useed = seed & 0xFFFFFFFFFFFFFFFF
    if useed == 0:
        useed = 0x5EED
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        env = go_env(scratch)
        finish_builds(start_builds(prop, scratch, env))
        tb = time.time() - t0
        if replay:
            tries = {"C17": "400", "C13": "40"}.get(prop, "1")
            v = run_shards(prop, tier, useed, scratch, env, 600, "replay", {"VH_REPLAY": replay, "VH_TRIES": tries}, shards=1)
            print(open(os.path.join(scratch, "out", "log.0"), errors="replace").read()[-3000:], end="")
            if v:
                print(v["message"])
                print("VIOLATION property=%s replay=%s" % (prop, replay), flush=True)
                return 1
            return 0
        budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
        v = run_shards(prop, tier, useed, scratch, env, budget)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "assumptions": ASSUMPTIONS}
        if v:
            path = save_replay(prop, v)
            ev["coverage"] = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the run stopped at a violation; nothing was counted", "samples": [{"group": v.get("group"), "case": v.get("case")}], "replay": path}
            ev["violations"] = 1
            ev["wall_s"] = round(time.time() - t0, 2)
            write_evidence(prop, ev)
            print("group %s: %s" % (v.get("group"), v.get("message")))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
            return 1
        e = dict(env)
        e.update(VH_MODE="merge", VH_PROP=prop, VH_OUT=os.path.join(scratch, "out"), VH_SHARDS=str(SHARDS))
        r = subprocess.run([os.path.join(scratch, "props.test")], cwd=scratch, env=e, capture_output=True, text=True)
        if r.returncode != 0:
            die("merging failed: " + r.stdout + r.stderr)
        m = json.load(open(os.path.join(scratch, "out", "merged.json")))
        ev["coverage"] = {
            "evaluations": m["evals"],
            "distinct_nontrivial": m["hashes"] + m["extra"],
            "rule": m["rule"],
            "samples": m["samples"],
            "groups": m["groups"],
            "classes": m["classes"],
            "cases_cut_off_by_the_time_budget": m["skipped"],
            "saved_cases_replayed": m["corpus"],
            "build_s": round(tb, 2),
        }
        ev["violations"] = 0
        ev["wall_s"] = round(time.time() - t0, 2)
        write_evidence(prop, ev)
        print("property %s held on %d cases (%d distinct and non-trivial), %.1f s" % (prop, m["evals"], m["hashes"] + m["extra"], time.time() - t0))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
