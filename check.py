#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--budget SECONDS]

Builds what the check needs from /repo's working tree, runs the worker that
monitors the real code, and turns what it saw into a verdict:

  exit 0  the property held on everything explored (evidence/<id>.json)
  exit 1  "VIOLATION property=<id> replay=<path>"
  exit 2  no verdict (build failure, harness error, inconclusive run)
"""
import fcntl, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HOP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"

# stages: (worker sub-command, build flavour, seconds in the quick tier, seconds in the thorough tier)
R = "rel"
CHECKS = {
    "P01": dict(stages=[("P01", R, 20, 300)]),
    "P02": dict(stages=[("P02", R, 20, 300)]),
    "P03": dict(stages=[("P03", R, 20, 300)]),
    "P04": dict(stages=[("P04", R, 20, 300)]),
    "P05": dict(stages=[("P05", R, 20, 300)]),
    "P06": dict(stages=[("P06", R, 20, 300)]),
    "P07": dict(stages=[("P07", R, 20, 300)]),
    "P08": dict(stages=[("P08", R, 25, 400)]),
    "P09": dict(stages=[("P09", R, 25, 400)]),
    "P10": dict(stages=[("P10", R, 25, 400)]),
    "P11": dict(stages=[("P11", R, 15, 250)]),
    "P12": dict(stages=[("P12", R, 15, 250)]),
    "P13": dict(stages=[("P13", R, 15, 250)]),
    "P14": dict(stages=[("P14", R, 15, 250)]),
    "P15": dict(stages=[("P15", R, 20, 300)], bins=True),
    "P16": dict(stages=[("P16", R, 25, 300)], bins=True),
    "P17": dict(stages=[("P17", R, 20, 300)], bins=True),
    "P18": dict(stages=[("P18", R, 20, 300)], bins=True),
    "P19": dict(stages=[("P19", R, 20, 300)], bins=True),
    "P20": dict(stages=[("P20", R, 20, 300)]),
    "P21": dict(stages=[("P21", R, 20, 300)], bins=True),
    "P22": dict(stages=[("P22", R, 20, 300)]),
    "P23": dict(stages=[("P23", R, 20, 300)]),
    "P24": dict(stages=[("P24", R, 12, 200)]),
    "P26": dict(stages=[("P26heap", R, 12, 120), ("P26tsan", "tsan", 20, 300), ("P26asan", "asan", 15, 240),
                        ("P26miri", "miri", 70, 400)]),
    "P25": dict(stages=[("P25", R, 20, 300)], bins=True),
    "P27": dict(stages=[("P27", R, 15, 250)]),
    "P28": dict(stages=[("P28", R, 15, 250)]),
    "P29": dict(stages=[("P29", R, 12, 300)], bins=True),
    "P30": dict(stages=[("P30", R, 15, 200)], bins=True),
    "P31": dict(stages=[("P31", R, 20, 300)], bins=True),
    "P32": dict(stages=[("P32", R, 15, 200)]),
}
LEVEL = "exploration"


def env(extra=None):
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CI="true", RUSTC_WRAPPER="",
             PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/bin:/bin"),
             RUSTUP_TOOLCHAIN="stable-" + TRIPLE)
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def die(msg):
    print("ERROR " + msg, file=sys.stderr)
    sys.exit(2)


def sh(cmd, cwd, e, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
        die("build failed: " + " ".join(cmd))


# The hooks in the managers of sessions and subscriptions name private fields. Where they don't build (somebody
# renamed one), the harness does without what they show.
HOOKS = ["managers"]


def features(net):
    f = (["net"] if net else []) + HOOKS
    return ["--no-default-features"] + (["--features", ",".join(f)] if f else [])


def cargo(cmd, net, cwd, e):
    p = subprocess.run(cmd + features(net), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
    if p.returncode and HOOKS:
        kept, HOOKS[:] = HOOKS[:], []
        q = subprocess.run(cmd + features(net), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        if q.returncode == 0:
            print("note: built without the hooks of the managers")
            return
        HOOKS[:] = kept
    if p.returncode:
        sys.stderr.write(p.stdout.decode(errors="replace")[-6000:])
        die("build failed: " + " ".join(cmd))


def build(flavour):
    """Build one flavour from the working tree; cargo rebuilds what changed."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        t = os.path.join(BUILD, flavour)
        base = ["cargo", "build", "--offline", "--locked", "--release", "--target-dir", t]
        if flavour == "rel":
            cargo(base, True, HARNESS, env())
            return os.path.join(t, "release", "harness")
        if flavour == "bins":
            sh(["cargo", "build", "--offline", "--locked", "-p", "hop-cli", "-p", "hop-server", "--target-dir", t], REPO, env())
            sh(["gcc", "-O1", "-shared", "-fPIC", "-o", os.path.join(t, "shim.so"),
                os.path.join(VERIF, "tools", "sockaddr_shim.c")], VERIF, env())
            return os.path.join(t, "debug")
        if flavour in ("tsan", "asan"):
            san = {"tsan": "thread", "asan": "address"}[flavour]
            flags = "-Zsanitizer=" + san
            extra = []
            if flavour == "tsan":
                # The standard library too: its locks and reference counts order accesses.
                extra = ["-Zbuild-std"]
            else:
                flags += " --cfg lsan"
            cargo(base + ["--target", TRIPLE] + extra, False, HARNESS,
                  env(dict(RUSTFLAGS=flags, RUSTUP_TOOLCHAIN="nightly-" + TRIPLE)))
            return os.path.join(t, TRIPLE, "release", "harness")
        if flavour == "miri":
            return None
        raise KeyError(flavour)


CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def run_stage(prop, stage, tier, seed, budget):
    sub, flavour, quick, thorough = stage
    budget = budget or (thorough if tier == "thorough" else quick)
    exe = build(flavour)
    out = os.path.join(BUILD, "out", sub)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    e = env()
    args = ["--tier", tier, "--seed", str(seed), "--out", out, "--budget", str(budget)]
    if CHECKS[prop].get("bins"):
        b = build("bins")
        args += ["--server", os.path.join(b, "hop-server"), "--cli", os.path.join(b, "hop-cli"),
                 "--shim", os.path.join(BUILD, "bins", "shim.so")]
    if flavour == "tsan":
        e["TSAN_OPTIONS"] = "halt_on_error=1 exitcode=66 second_deadlock_stack=1 history_size=4"
    elif flavour == "asan":
        e["ASAN_OPTIONS"] = "detect_leaks=1:exitcode=66:abort_on_error=0:allocator_may_return_null=1"
    if flavour == "miri":
        e.update(RUSTUP_TOOLCHAIN="nightly-" + TRIPLE,
                 MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-disable-stacked-borrows -Zmiri-seed=%d" % seed)
        cmd = ["cargo", "miri", "run", "-q", "--offline", "--locked", "--target-dir",
               os.path.join(BUILD, "miri")] + features(False) + ["--", sub] + args
        cwd = HARNESS
    else:
        cmd, cwd = [exe, sub] + args, out
    limit = budget * 2 + 150
    t0 = time.time()
    log = open(os.path.join(out, "log"), "wb")
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
                         start_new_session=True)
    try:
        rc = p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    log.close()
    tail = open(os.path.join(out, "log"), "rb").read()[-20000:].decode(errors="replace")
    res = dict(stage=sub, flavour=flavour, rc=rc, tail=tail, wall=time.time() - t0, cmd=cmd, result=None, violation=None)
    vf, rf = os.path.join(out, "violation.json"), os.path.join(out, "result.json")
    if os.path.exists(vf):
        res["violation"] = json.load(open(vf))
    elif rc == 0 and os.path.exists(rf):
        res["result"] = json.load(open(rf))
    elif rc == 66 or (flavour == "miri" and re.search(r"error: Undefined Behavior|error: memory leaked|error: .*[Dd]ata race|error: the evaluated program deadlocked", tail)):
        res["violation"] = dict(what="a sanitizer reported an error", witness=tail)
    elif rc is not None and rc < 0 and signal.Signals(-rc) in CRASHES:
        res["violation"] = dict(what="the process running the code died of " + signal.Signals(-rc).name, witness=tail)
    return res


def main():
    a = sys.argv[1:]
    prop = a.pop(0)
    opt = dict(zip(a[::2], a[1::2]))
    tier = opt.get("--tier") or os.environ.get("VERIF_TIER") or "quick"
    seed = int(opt.get("--seed") or os.environ.get("VERIF_SEED") or 1)
    budget = float(opt["--budget"]) if "--budget" in opt else None
    t0 = time.time()
    cov, assumptions, ev = {}, [], os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    stages = CHECKS[prop]["stages"]
    cov = dict(evaluations=0, distinct_nontrivial=0, rule="", samples=[], stages=[])
    bad = None
    for st in stages:
        r = None
        for attempt in range(2):
            r = run_stage(prop, st, tier, seed + attempt * 1_000_003, budget)
            if r["result"] or r["violation"]:
                break
            sys.stderr.write("no verdict from %s (rc %s, attempt %d):\n%s\n" % (st[0], r["rc"], attempt, r["tail"][-3000:]))
        if r["violation"]:
            bad = r
            break
        if not r["result"]:
            die("stage %s gave no verdict" % st[0])
        c = r["result"]["coverage"]
        cov["evaluations"] += c.pop("evaluations")
        cov["distinct_nontrivial"] += c.pop("distinct_nontrivial")
        rule = c.pop("rule")
        cov["rule"] += ("; " if cov["rule"] and rule else "") + rule
        cov["samples"] += c.pop("samples")[:5]
        c.update(stage=r["stage"], build=r["flavour"], wall_s=round(r["wall"], 2))
        cov["stages"].append(c)
        for x in r["result"]["assumptions"]:
            if x not in assumptions:
                assumptions.append(x)
    if not HOOKS:
        assumptions.append("built without the hooks of the managers: lists of sessions and subscribers and the wrap of ids were not looked at")
    if bad:
        v = bad["violation"]
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (prop, tier, seed))
        json.dump(dict(property=prop, tier=tier, seed=seed, what=v.get("what"), witness=v.get("witness"), stage=bad["stage"],
                       build=bad["flavour"], command=bad["cmd"], log=bad["tail"][-4000:]), open(path, "w"), indent=1)
        cov["rule"] = cov["rule"] or "the run ended at the first violation"
        cov["samples"].append("%s: %s" % (v.get("what"), (v.get("witness") or "")[-800:]))
        cov["evaluations"] += 1
    doc = dict(property=prop, tier=tier, seed=seed, level=LEVEL, coverage=cov, assumptions=assumptions,
               wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
    tmp = ev + ".tmp"
    json.dump(doc, open(tmp, "w"), indent=1)
    os.replace(tmp, ev)
    if bad:
        print((bad["violation"].get("what") or "") + "\n" + (bad["violation"].get("witness") or "")[-3000:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
        die("nothing was observed")
    print("held: property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))


if __name__ == "__main__":
    main()
