#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]   decide one property on /repo's working tree
   check.py replay <file>         run one recorded failure again
   check.py setup                 build everything once (warms the Go build cache)

Exit 0: held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": broken.  Anything else: no answer.
"""
import array, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import CHECKS  # noqa: E402

ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
ENV.setdefault("HOME", "/root")
for k in list(ENV):
    if k.startswith("RAPID_"):
        del ENV[k]
GO_DIR = "/opt/veriftools/go1.27.3/bin"
if os.path.isdir(GO_DIR):
    ENV["PATH"] = GO_DIR + os.pathsep + ENV.get("PATH", "")


def build(tmp, race, extra=(), name="h.test"):
    """Compile the harness against /repo's working tree."""
    out = os.path.join(tmp, name)
    before = {f: open(os.path.join(HARNESS, f), "rb").read() for f in ("go.mod", "go.sum")}
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + list(extra) + ["."]
    r = subprocess.run(cmd, cwd=HARNESS, env=ENV, capture_output=True, text=True)
    if r.returncode == 0:
        r = subprocess.run(["go", "build", "-o", os.path.join(tmp, "aminoscan"), "github.com/tendermint/go-amino/cmd/aminoscan"],
                           cwd=HARNESS, env=ENV, capture_output=True, text=True)
    for f, b in before.items():
        if open(os.path.join(HARNESS, f), "rb").read() != b:
            open(os.path.join(HARNESS, f), "wb").write(b)
    if r.returncode != 0:
        print("BUILD FAILED", file=sys.stderr)
        print(r.stdout + r.stderr, file=sys.stderr)
        sys.exit(3)
    return out


def start(tmp, exe, pid, env, extra=(), run=None, timeout=800):
    os.makedirs(tmp, exist_ok=True)
    log = open(os.path.join(tmp, "log"), "wb")
    limited = CHECKS[pid].get("limited", False)
    if limited:
        log.write((LIMITED + "\n").encode())
        log.flush()
    cmd = [exe, "-test.run", run or "^Test%s$" % pid, "-test.v", "-test.timeout", "%ds" % timeout, "-rapid.shrinktime=15s"] + list(extra)
    return subprocess.Popen(cmd, cwd=tmp, env=env, stdout=log, stderr=subprocess.STDOUT,
                            preexec_fn=limit_memory if limited else None)


LIMITED = "VERIF-LIMITED"
FATAL = re.compile(r"fatal error: (stack overflow|concurrent map|all goroutines are asleep|sync: )|runtime: goroutine stack exceeds|unexpected fault address|SIGSEGV")


OOM = re.compile(r"out of memory: cannot allocate (\d+)-byte block|out of memory")


def limit_memory():
    """The decoders may not claim memory without end: 12 GB of address space."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


def verdict(rc, log):
    """ok, violation or error."""
    if rc == 0:
        return "ok"
    if "panic: test timed out" in log:
        return "error"
    if "VERIF-FATAL" in log or "VERIF-VIOLATION" in log:
        return "violation"
    if FATAL.search(log) and "go-amino" in log:
        return "violation"
    if LIMITED in log and OOM.search(log) and "go-amino." in log[OOM.search(log).start():]:
        return "violation"
    if "fatal error:" in log:
        return "error"
    if "panic: " in log and "[rapid]" not in log and "go-amino." in log:
        return "violation"
    if "DATA RACE" in log and "go-amino" in log:
        return "violation"
    if "--- FAIL" in log:
        bad = re.findall(r"\[rapid\] (?:failed|panic|flaky)", log)
        if not bad and "[rapid] only generated" in log:
            return "error"
        return "violation"
    return "error"


FUZZ_SECONDS, FUZZ_WORKERS = 100, 7
NOT_FUZZED = ("C18", "C23")  # race detector; a process of its own per case


def fuzz(pid, tmp, cfg, seed):
    """The coverage-guided stage of the thorough tier: the Go fuzzer mutates
    the bytes the generators draw from, guided by the coverage of go-amino."""
    exe = build(os.path.join(tmp), False, ["-fuzz=FuzzProp"], "f.test")
    d = os.path.join(tmp, "fuzz")
    os.makedirs(d)
    env = child_env(pid, d, cfg, "thorough", seed, 99, 0, 1, 100)
    del env["VERIF_EVID_OUT"]
    env.update(VERIF_FUZZ=pid, VERIF_SELF=os.path.join(tmp, "h.test"))
    secs = int(os.environ.get("VERIF_FUZZ_SECONDS", FUZZ_SECONDS))
    cmd = [exe, "-test.run=^$", "-test.fuzz=^FuzzProp$", "-test.fuzztime=%ds" % secs, "-test.fuzzminimizetime=1x",
           "-test.fuzzcachedir=" + os.path.join(d, "cache"), "-test.parallel=%d" % FUZZ_WORKERS]
    with open(os.path.join(d, "log"), "wb") as log:
        try:
            rc = subprocess.run(cmd, cwd=d, env=env, stdout=log, stderr=subprocess.STDOUT, timeout=secs + 300,
                                preexec_fn=limit_memory if cfg.get("limited") else None).returncode
        except subprocess.TimeoutExpired:
            rc = -1
    log = open(os.path.join(d, "log"), errors="replace").read()
    m = re.findall(r"execs: (\d+).*new interesting: (\d+) \(total: (\d+)\)", log)
    info = {"executions": int(m[-1][0]) if m else 0, "inputs_with_new_coverage": int(m[-1][1]) if m else 0,
            "seconds": secs, "workers": FUZZ_WORKERS, "exit": rc}
    crash = glob.glob(os.path.join(d, "testdata", "fuzz", "FuzzProp", "*"))
    m = re.search(r"FuzzProp/(seed#\d+)", log)
    if rc == 0 or not (crash or m):
        info["unsure"] = log[-2000:] if rc else ""
        return info, None
    data = crasher(crash[0]) if crash else m.group(1).encode()
    rc, log2 = shrink(exe, d, env, data)
    log2 = log2 or log
    v = verdict(rc, log2)
    if v == "ok":
        # It failed in a worker and not alone: as the workers are only the
        # same code with a history, the log of the worker decides.
        v, log2 = verdict(1, log), log
    if v != "violation" or not ("[rapid] failed" in log2 or "[rapid] panic" in log2 or "go-amino" in log2):
        info["unsure"] = log2[-2000:]
        return info, None
    return info, (data if rc == 0 else open(os.path.join(d, "shrink"), "rb").read(), log2)


def crasher(path):
    """The arguments of a Go fuzz corpus file: one byte and the input."""
    lines = open(path, "rb").read().decode("utf-8").splitlines()
    b = re.match(r"byte\((.*)\)$", lines[1]).group(1)
    r = subprocess.run(["go", "run", os.path.join(ROOT, "tools", "unquote.go"), b, lines[2][len("[]byte("):-1]], env=dict(ENV, GOFLAGS=""), capture_output=True)
    return r.stdout


def shrink(exe, d, env, data, replay=False):
    f = os.path.join(d, "shrink")
    open(f, "wb").write(data)
    env = dict(env, VERIF_SHRINK=f)
    if replay:
        env["VERIF_REPLAY"] = "1"
    r = subprocess.run([exe, "-test.run=^TestFuzzShrink$", "-test.v", "-test.timeout=120s"], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    log = r.stdout.decode(errors="replace")
    i = log.find("=== RUN   TestFuzzShrink/smallest")
    log = log[i:] if i >= 0 else log
    return r.returncode, "\n".join(x for x in log.splitlines() if "TestFuzzShrink/try#" not in x)


def seed_of(pid, shard, seed):
    h = hashlib.sha256(("%s/%d/%d" % (pid, shard, seed)).encode()).digest()
    return int.from_bytes(h[:7], "big") >> 1 | 1


def child_env(pid, tmp, cfg, tier, seed, rnd, shard, shards, scale):
    e = dict(ENV)
    e.update(VERIF_TIER=tier, VERIF_SCALE=str(scale), VERIF_SHARD=str(shard), VERIF_SHARDS=str(shards),
             VERIF_SHARD_SEED=str(seed_of(pid, rnd * shards + shard, seed)), VERIF_EVID_OUT=os.path.join(tmp, "evid.json"),
             VERIF_TMP=tmp, VERIF_AMINOSCAN=os.path.join(os.path.dirname(tmp), "aminoscan"),
             VERIF_SELF=os.path.join(os.path.dirname(tmp), "h.test"), VERIF_KNOWN=os.path.join(ROOT, "known_findings.txt"),
             GOTRACEBACK="single", TZ="UTC", GORACE="halt_on_error=0")
    for k in ("VERIF_REPLAY", "VERIF_DICT", "VERIF_REPO"):
        e.pop(k, None)
    e["GOMAXPROCS"] = str(cfg.get("maxprocs", 2))
    return e


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        tmp = tempfile.mkdtemp(prefix="verif-")
        try:
            build(tmp, False)
            build(tmp, True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    if sys.argv[1] == "replay":
        return do_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return do_check(pid, tier, seed, cfg, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def do_check(pid, tier, seed, cfg, tmp, t0):
    exe = build(tmp, cfg.get("race", False))
    shards = cfg.get("shards", 6)
    scale, rounds = cfg["quick"], 1 if tier == "quick" else cfg["thorough"]
    if os.environ.get("VERIF_SCALE_MULT"):
        scale = max(1, int(scale * float(os.environ["VERIF_SCALE_MULT"])))
    violation, errors, known = None, [], []
    tot = {"evaluations": 0, "nontrivial": 0}
    classes, subs, samples, hashes = {}, {}, [], set()
    rnd = 0
    while rnd < rounds and not violation and not errors:
        # Fresh processes every round: types made at run time are never freed.
        procs = []
        for s in range(shards):
            d = os.path.join(tmp, "r%d-s%d" % (rnd, s))
            os.makedirs(d)
            procs.append((s, d, start(d, exe, pid, child_env(pid, d, cfg, tier, seed, rnd, s, shards, scale), timeout=780)))
        for s, d, p in procs:
            rc = p.wait()
            log = open(os.path.join(d, "log"), errors="replace").read()
            v = verdict(rc, log)
            for line in log.splitlines():
                if line.startswith("KNOWN-FINDING:") and line not in known:
                    known.append(line)
            if v == "violation" and violation is None:
                violation = (rnd, s, d, log)
            elif v == "error":
                errors.append((s, rc, log))
            f = os.path.join(d, "evid.json")
            if os.path.exists(f):
                e = json.load(open(f))
                for k in tot:
                    tot[k] += e[k]
                for k, n in e["classes"].items():
                    classes[k] = classes.get(k, 0) + n
                for k, n in e["sub_checks"].items():
                    subs[k] = subs.get(k, 0) + n
                if s < 2 and len(samples) < 12:
                    samples += e["samples"] or []
                a = array.array("Q")
                a.frombytes(open(f + ".hashes", "rb").read())
                hashes.update(a)
            if v == "ok":
                shutil.rmtree(d, ignore_errors=True)
        rnd += 1
    fuzzed = None
    if tier == "thorough" and not violation and not errors and pid not in NOT_FUZZED:
        fuzzed, bad = fuzz(pid, tmp, cfg, seed)
        if bad:
            violation = (99, 0, os.path.join(tmp, "fuzz"), bad[1], bad[0])
    for line in known:
        print(line)
    rc = 0
    if violation:
        path = save_replay(pid, tier, seed, scale, shards, violation)
        print(summary_of(violation[3]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        rc = 1
    elif errors:
        for s, r, log in errors[:2]:
            print("shard %d ended with %s without an answer\n%s" % (s, r, log[-4000:]), file=sys.stderr)
        rc = 2
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"],
          "coverage": {"evaluations": tot["evaluations"], "distinct_nontrivial": len(hashes), "rule": cfg["rule"],
                       "samples": samples[:12] or ["(none)"], "sub_checks": subs, "classes": dict(sorted(classes.items())),
                       "shards": shards, "rounds": rnd, "nontrivial_with_repeats": tot["nontrivial"]},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    if known:
        ev["coverage"]["known_findings"] = known
    if fuzzed:
        ev["coverage"]["coverage_guided"] = fuzzed
    if rc != 2:
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s, exit %d" %
          (pid, tier, seed, tot["evaluations"], len(hashes), time.time() - t0, rc))
    return rc


def summary_of(log):
    i = log.find("[rapid]")
    m = re.search(r"\[rapid\] (failed|panic|flaky)", log)
    if m:
        i = m.start()
    for w in ("VERIF-FATAL", "WARNING: DATA RACE", "fatal error:"):
        if w in log:
            i = log.find(w)
            break
    return log[max(0, i - 100):][:5000]


def save_replay(pid, tier, seed, scale, shards, violation):
    rnd, s, d, log = violation[:4]
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    ff = sorted(glob.glob(os.path.join(d, "testdata", "rapid", "*", "*.fail")) +
                glob.glob(os.path.join(d, "testdata", "rapid", "*", "*", "*.fail")), key=os.path.getmtime)
    m = re.search(r'specify -run="([^"]+)"', log)
    rec = {"property": pid, "tier": tier, "seed": seed, "scale": scale, "round": rnd, "shard": s, "shards": shards,
           "run": m.group(1).replace("\\\\", "\\") if m else None,
           "failfile": open(ff[0], encoding="latin-1").read() if ff else None, "log": log[-20000:]}
    if len(violation) > 4:
        rec["fuzz"] = violation[4].hex()
    if os.path.exists(os.path.join(d, "dict.json")):
        rec["dict"] = open(os.path.join(d, "dict.json")).read()
    for j in glob.glob(os.path.join(d, "journal*")):
        rec.setdefault("journal", {})[os.path.basename(j)] = open(j, "rb").read().hex()
    path = os.path.join(ROOT, "replays", "%s-%s-seed%d-%d-%d.json" % (pid, tier, seed, rnd, s))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path


def do_replay(path):
    rec = json.load(open(path))
    pid, cfg = rec["property"], CHECKS[rec["property"]]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        exe = build(tmp, cfg.get("race", False))
        d = os.path.join(tmp, "s")
        os.makedirs(d)
        env = child_env(pid, d, cfg, rec["tier"], rec["seed"], rec.get("round", 0), rec["shard"], rec["shards"], rec["scale"])
        if rec.get("dict"):
            env["VERIF_DICT"] = os.path.join(d, "replay.dict")
            open(env["VERIF_DICT"], "w").write(rec["dict"])
        if rec.get("fuzz"):
            env["VERIF_FUZZ"] = pid
            rc, log = shrink(exe, d, env, bytes.fromhex(rec["fuzz"]), True)
            v = verdict(rc, log)
            print(log[-6000:])
            print("VIOLATION property=%s replay=%s" % (pid, path) if v == "violation" else "passes")
            return {"violation": 1, "ok": 0}.get(v, 2)
        extra, run = [], None
        if rec.get("failfile"):
            f = os.path.join(d, "replay.fail")
            open(f, "w", encoding="latin-1").write(rec["failfile"])
            extra = ["-rapid.failfile=" + f, "-rapid.checks=1"]
            env["VERIF_REPLAY"] = "1"
            env["VERIF_SCALE"] = "0"
            run = "/".join("^%s$" % x for x in rec["run"].split("/")) if rec.get("run") else None
        p = start(d, exe, pid, env, extra, run)
        rc = p.wait()
        log = open(os.path.join(d, "log"), errors="replace").read()
        v = verdict(rc, log)
        print(log[-6000:])
        if v == "violation":
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 0 if v == "ok" else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
