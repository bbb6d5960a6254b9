#!/usr/bin/env python3
"""Runtime-monitoring checks for proc-macro2.

usage: check.py <property>            run the check (VERIF_TIER, VERIF_SEED)
       check.py --replay <file>       run one recorded violation again
       check.py --setup               build everything once
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = pathlib.Path(__file__).resolve().parent
REPO = pathlib.Path("/repo")
HARNESS = VERIF / "harness"
TARGET = VERIF / "target"
CORES = os.cpu_count() or 8

sys.path.insert(0, str(VERIF))
import plan  # noqa: E402


class Broken(Exception):
    """the check itself cannot answer"""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- building

def tree_hash():
    h = hashlib.sha256()
    files = []
    for base in (REPO / "src", REPO / "build", HARNESS, VERIF / "pmharness"):
        if base.is_dir():
            files += [p for p in base.rglob("*") if p.is_file() and "target" not in p.relative_to(base).parts]
    files += [p for p in (REPO / "build.rs", REPO / "Cargo.toml") if p.is_file()]
    for p in sorted(files):
        h.update(str(p).encode() + b"\0" + hashlib.sha256(p.read_bytes()).digest())
    return h.hexdigest()


def build(name):
    """Builds one configuration from /repo's working tree; returns the binary."""
    cfg = plan.CONFIGS[name]
    tdir = TARGET / name
    tdir.mkdir(parents=True, exist_ok=True)
    with open(TARGET / (name + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash() + json.dumps(cfg, sort_keys=True)
        stamp = TARGET / (name + ".stamp")
        exe = tdir / cfg.get("exe", "")
        if stamp.exists() and stamp.read_text() == want and exe.exists():
            return exe
        # never trust timestamps: sources that differ are rebuilt from nothing
        if stamp.exists():
            stamp.unlink()
        shutil.rmtree(tdir, ignore_errors=True)
        tdir.mkdir(parents=True, exist_ok=True)
        env = base_env()
        env.update(cfg.get("env", {}))
        cmd = ["cargo"] + ([cfg["toolchain"]] if cfg.get("toolchain") else [])
        cmd += cfg.get("sub", ["build"]) + ["--offline", "--quiet", "--target-dir", str(tdir)]
        cmd += ["--manifest-path", str(VERIF / cfg.get("crate", "harness") / "Cargo.toml")]
        cmd += cfg.get("args", []) + cfg.get("build_args", [])
        t = time.time()
        r = subprocess.run(cmd, env=env, cwd=str(VERIF), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0 or not exe.exists():
            raise Broken("build of %s failed:\n%s\n%s" % (name, " ".join(cmd), r.stdout[-6000:]))
        stamp.write_text(want)
        log("built %s in %.1f s" % (name, time.time() - t))
        return exe


def base_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS", "RUSTC_BOOTSTRAP"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUST_BACKTRACE"] = "0"
    env["MON_CORPUS"] = corpus_dir()
    return env


def corpus_dir():
    try:
        root = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True).stdout.strip()
    except OSError:
        root = ""
    d = pathlib.Path(root) / "lib/rustlib/src/rust/library"
    return str(d) if d.is_dir() else ""


# ---------------------------------------------------------------- running

def run_shard(job):
    """One monitor process. Returns (job, result dict, bits or None)."""
    if STOP.is_set() and not job.get("digests"):
        return dict(job, rc="skipped"), None, None
    job, res, bits = run_shard_now(job)
    if job["rc"] not in (0, "timeout") and (res is None or res["violations"]):
        # something was found: what has not started yet need not run
        STOP.set()
    return job, res, bits


STOP = threading.Event()


def run_shard_now(job):
    out = job["out"]
    env = base_env()
    env.update(job.get("env", {}))
    cmd = job["cmd"] + ["--out", out]
    if "trace" in job:
        cmd += ["--trace", job["trace"]]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=job["timeout"], cwd=job["cwd"])
        rc, text = p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        rc, text = "timeout", (e.stdout or b"").decode("utf-8", "replace")
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    job = dict(job, wall=time.time() - t, rc=rc, text=text[-4000:])
    bits = None
    if os.path.exists(out + ".bits"):
        bits = int.from_bytes(open(out + ".bits", "rb").read(), "little")
        os.unlink(out + ".bits")
    return job, res, bits


def signame(rc):
    try:
        return signal.Signals(-rc).name
    except (ValueError, TypeError):
        return "exit %s" % rc


def died_at(job):
    """The case the monitor process was on when it died: (phase, index)."""
    try:
        b = open(job["trace"], "rb").read()
    except OSError:
        return "?", 0
    return b[8:].split(b"\0")[0].decode("utf-8", "replace") or "?", int.from_bytes(b[:8], "little")


def execute(prop, tier, seed):
    spec = plan.PROPS[prop]
    runs = [r for r in spec["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    t0 = time.time()
    names = []
    for r in runs:
        if r["config"] not in names:
            names.append(r["config"])
    # builds in parallel
    exes = {}
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        futs = {n: ex.submit(build, n) for n in names}
        for n, f in futs.items():
            exes[n] = f.result()
    work = VERIF / "work"
    work.mkdir(exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=prop + "-", dir=str(work))
    try:
        return run_all(prop, tier, seed, runs, exes, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def make_jobs(prop, tier, seed, run, exe, scratch, tag):
    cfg = plan.CONFIGS[run["config"]]
    n = run.get("shards", CORES)
    scale = run.get("scale", 100)
    if isinstance(scale, dict):
        scale = scale[tier]
    jobs = []
    for i in range(n):
        cmd = plan.command(cfg, exe, run) + [
            run.get("suite", prop), "--seed", str(seed), "--tier", tier, "--shard", "%d/%d" % (i, n),
            "--scale", str(scale)] + run.get("args", [])
        jobs.append({
            "cmd": cmd, "out": os.path.join(scratch, "%s-%d.json" % (tag, i)), "cwd": scratch,
            "timeout": run.get("timeout", {"quick": 600, "thorough": 14400}[tier]),
            "env": {k: v.replace("{shard}", str(i)).replace("{seed}", str(seed))
                    for k, v in dict(cfg.get("run_env", {}), **run.get("env", {})).items()}, "config": run["config"], "run": tag,
            "suite": run.get("suite", prop), "digests": run.get("suite", prop) == "C21",
            "trace": os.path.join(scratch, "%s-%d.trace" % (tag, i)),
        })
    return jobs


def run_all(prop, tier, seed, runs, exes, scratch, t0):
    jobs = []
    for k, run in enumerate(runs):
        jobs += make_jobs(prop, tier, seed, run, exes[run["config"]], scratch, "r%d" % k)
    evals = 0
    counters = {}
    samples = []
    viols = []
    bits = {}
    per_run = {}
    digests = {}
    extra_distinct = 0
    skipped = 0
    broken = []
    STOP.clear()
    with cf.ThreadPoolExecutor(max_workers=CORES) as ex:
        for job, res, b in ex.map(run_shard, jobs):
            rc = job["rc"]
            if rc == "skipped":
                skipped += 1
                continue
            if rc == "timeout":
                broken.append("monitor timed out: %s\n%s" % (" ".join(job["cmd"]), job["text"]))
                continue
            if rc in (-signal.SIGKILL, -signal.SIGTERM):
                broken.append("monitor was killed: %s" % " ".join(job["cmd"]))
                continue
            if res is None or (rc not in (0, 7) and not res["violations"]):
                if plan.is_harness_error(job["text"]):
                    broken.append(job["text"])
                    continue
                phase, idx = died_at(job)
                viols.append(dict(phase=phase, index=idx, msg="process died (%s): %s" % (signame(rc), job["text"][-1500:]),
                                  input="", job=job))
                continue
            evals += res["evals"]
            r = per_run.setdefault(job["run"], {"config": job["config"], "suite": job["suite"], "cases": 0, "wall_s_total": 0.0, "phases": {}})
            r["cases"] += res["evals"]
            r["wall_s_total"] = round(r["wall_s_total"] + job["wall"], 1)
            if res.get("truncated"):
                r["truncated"] = True
            for n, total, done in res["phases"]:
                r["phases"][n] = r["phases"].get(n, 0) + done
            for k, v in res["counters"].items():
                counters[k] = counters.get(k, 0) + v
            if len(samples) < 12:
                samples += res["samples"][:2]
            for v in res["violations"]:
                viols.append(dict(v, job=job))
            if b is not None:
                bits[job["suite"]] = bits.get(job["suite"], 0) | b
            for k, v in res.get("digests", {}).items():
                digests.setdefault(job["suite"], {}).setdefault(k, {}).setdefault(v, []).append(job)
            extra_distinct += res.get("extra_distinct", 0)
    # disagreement between configurations
    compared = 0
    for suite, blocks in digests.items():
        for block, byval in blocks.items():
            n = sum(len(j) for j in byval.values())
            compared += n
            if len(byval) > 1:
                groups = sorted(byval.items(), key=lambda kv: -len(kv[1]))
                msg = "; ".join("%s -> %s" % (",".join(sorted({j["config"] for j in js})), val) for val, js in groups)
                phase, _, idx = block.rpartition(":")
                if len([v for v in viols if "other" in v]) >= 20:
                    continue
                a, b = groups[-1][1][0], groups[0][1][0]
                inp, da, db = first_difference(a, b, block, scratch)
                if inp:
                    msg += "; %s observed %s, %s observed %s" % (a["config"], da[:400], b["config"], db[:400])
                viols.append(dict(phase=phase, index=int(idx), msg="configurations disagree: " + msg, input=inp, job=a, other=b))
    if compared:
        counters["digests compared"] = compared
    distinct = sum(v.bit_count() for v in bits.values()) + extra_distinct
    spec = plan.PROPS[prop]
    known, fresh = split_known(prop, viols)
    coverage = {
        "evaluations": evals,
        "distinct_nontrivial": distinct,
        "rule": spec["rule"],
        "samples": samples[:12] or ["(none)"],
        "observed": counters,
        "runs": list(per_run.values()),
        "exhaustive": False,
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / (prop + ".json")).write_text(json.dumps(ev, indent=1, ensure_ascii=True) + "\n")
    for k in known:
        log("KNOWN-FINDING: property=%s %s" % (prop, k))
    if skipped:
        log("%d monitor processes not started: a violation was found before" % skipped)
    if broken and not fresh:
        raise Broken("\n".join(broken[:3]))
    if evals == 0 or distinct == 0:
        if not fresh:
            raise Broken("nothing was observed")
    missing = [k for k in spec.get("must_observe", []) if not counters.get(k)]
    if missing and not fresh:
        raise Broken("monitors observed none of: %s" % missing)
    log("%s: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (prop, evals, distinct, len(fresh), time.time() - t0))
    log("observed: " + ", ".join("%s=%d" % kv for kv in sorted(counters.items())))
    if fresh:
        report(prop, tier, seed, fresh)
        return 1
    return 0


def first_difference(a, b, block, scratch):
    """Runs one block in both configurations and finds the first call that differs."""
    got = []
    for k, job in enumerate((a, b)):
        dump = os.path.join(scratch, "dump%d" % k)
        j = dict(job, cmd=job["cmd"] + ["--only", block], out=os.path.join(scratch, "dump.json"), env=dict(job["env"], MON_DUMP=dump))
        run_shard_now(j)
        got.append(open(dump).read().split("\n") if os.path.exists(dump) else [])
    for x, y in zip(*got):
        if x != y:
            (i, p), (_, q) = x.split("\t"), y.split("\t")
            return json.loads(i), p, q
    return "", "", ""


def split_known(prop, viols):
    """Violations listed in KNOWN_FINDINGS (by exact input) are not alarms."""
    path = VERIF / "KNOWN_FINDINGS"
    listed = []
    if path.exists():
        for line in path.read_text().splitlines():
            if line.startswith("finding: "):
                f = json.loads(line[len("finding: "):])
                if f["property"] == prop:
                    listed.append(f)
    known, fresh = set(), []
    for v in viols:
        hit = [f for f in listed if f["input"] == v["input"] and v["input"]]
        if hit:
            known.add(hit[0]["what"])
        else:
            fresh.append(v)
    return sorted(known), fresh


def report(prop, tier, seed, viols):
    rdir = VERIF / "replays"
    rdir.mkdir(exist_ok=True)
    for v in viols[:10]:
        job = v.pop("job")
        other = v.pop("other", None)
        rec = {
            "property": prop, "tier": tier, "seed": seed, "config": job["config"], "suite": job["suite"],
            "phase": v["phase"], "index": v["index"], "message": v["msg"], "input": v["input"],
            "args": job["cmd"], "env": job["env"],
        }
        if other:
            rec["other_config"], rec["other_args"], rec["other_env"] = other["config"], other["cmd"], other["env"]
        h = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:12]
        path = rdir / ("%s-%s.json" % (prop, h))
        path.write_text(json.dumps(rec, indent=1) + "\n")
        log("  [%s %s:%s] %s" % (job["config"], v["phase"], v["index"], v["msg"][:600]))
        if v["input"]:
            log("    input: %s" % json.dumps(v["input"][:300]))
        log("VIOLATION property=%s replay=%s" % (prop, path))
    if len(viols) > 10:
        log("  ... and %d more" % (len(viols) - 10))


def replay(path):
    rec = json.load(open(path))
    build(rec["config"])
    work = VERIF / "work"
    work.mkdir(exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="replay-", dir=str(work))
    try:
        if "other_args" in rec:
            build(rec["other_config"])
            block = "%s:%d" % (rec["phase"], rec["index"])
            jobs = [{"cmd": rec[k], "env": rec["env" if k == "args" else "other_env"], "cwd": scratch, "timeout": 900} for k in ("args", "other_args")]
            inp, x, y = first_difference(jobs[0], jobs[1], block, scratch)
            if x != y:
                log("input %s\n  %s: %s\n  %s: %s" % (json.dumps(inp[:2000]), rec["config"], x, rec["other_config"], y))
                log("VIOLATION property=%s replay=%s" % (rec["property"], path))
                return 1
            log("no violation")
            return 0
        cmd = rec["args"] + ["--only", "%s:%d" % (rec["phase"], rec["index"])]
        job = {"cmd": cmd, "out": os.path.join(scratch, "o.json"), "cwd": scratch, "timeout": 900, "env": rec["env"]}
        job, res, _ = run_shard_now(job)
        if res is not None and not res["violations"] and job["rc"] == 0:
            log("the case alone passes; running the whole shard")
            job = {"cmd": rec["args"], "out": os.path.join(scratch, "p.json"), "cwd": scratch, "timeout": 3600, "env": rec["env"]}
            job, res, _ = run_shard_now(job)
        if res is None or job["rc"] not in (0, 7) or res["violations"]:
            for v in (res or {}).get("violations", [])[:5]:
                log("  [%s:%s] %s" % (v["phase"], v["index"], v["msg"]))
                log("    input: %s" % json.dumps(v["input"][:2000]))
            if res is None:
                log(job["text"])
            log("VIOLATION property=%s replay=%s" % (rec["property"], path))
            return 1
        log("no violation")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        with cf.ThreadPoolExecutor(max_workers=4) as ex:
            # (each check builds what it needs; this only shows that building works)
            list(ex.map(build, ["w", "pm"]))
        return 0
    if args and args[0] == "--replay":
        return replay(args[1])
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return execute(prop, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK-ERROR: %s" % e, flush=True)
        sys.exit(2)
