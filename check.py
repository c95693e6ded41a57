#!/usr/bin/env python3
"""Runs the check of one property: builds its workloads against /repo's working tree, runs them
under the property's monitors, and reports.

    check.py C01 [quick|thorough]      the check (exit 0: held, 1: VIOLATION line, 2: no answer)
    check.py replay FILE               runs the case of a replay file again
"""
import concurrent.futures
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.environ.get("VH_TARGET", os.path.join(VERIF, "target"))
NPROC = max(1, min(16, os.cpu_count() or 8))
NIGHTLY_ALLOW = "-Aunstable_imports -Amismatched_lifetime_syntaxes"
TRIPLE = "x86_64-unknown-linux-gnu"

from properties import CHECKS  # noqa: E402


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def clean_env(extra=None):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN", "RUST_BACKTRACE"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    env.update(extra or {})
    return env


def run_build(cmd, env, what, timeout=700):
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive(f"building {what} took more than {timeout} s")
    if r.returncode != 0:
        tail = "\n".join([l for l in r.stdout.splitlines() if "error" in l or "-->" in l][:30] + r.stdout.splitlines()[-15:])
        raise Inconclusive(f"building {what} failed:\n{tail}")
    return time.time() - t


class Engine:
    """A build of the workload, and how to run it."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.bin = spec["bin"]
        self.name = spec.get("name", self.kind)

    def features(self):
        f = self.spec.get("features")
        return ["--features", f] if f else []

    def build(self):
        k = self.kind
        if k in ("checked", "release"):
            env = clean_env({"CARGO_TARGET_DIR": os.path.join(TARGET, k)})
            cmd = ["cargo", "build", "--offline", "--profile", k, "--bin", self.bin] + self.features()
        elif k == "miri":
            env = self.miri_env()
            cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--bin", self.bin] + self.features() + ["--", "cases=0", "out=/dev/null"]
        elif k == "asan":
            env = clean_env({"CARGO_TARGET_DIR": os.path.join(TARGET, "asan"), "RUSTFLAGS": NIGHTLY_ALLOW + " -Zsanitizer=address -Cforce-frame-pointers=yes"})
            cmd = ["cargo", "+nightly", "build", "--offline", "--target", TRIPLE, "--profile", "asan", "--bin", self.bin] + self.features()
        elif k == "tsan":
            env = clean_env({"CARGO_TARGET_DIR": os.path.join(TARGET, "tsan"), "RUSTFLAGS": NIGHTLY_ALLOW + " -Zsanitizer=thread"})
            cmd = ["cargo", "+nightly", "build", "--offline", "--target", TRIPLE, "-Zbuild-std", "--profile", "checked", "--bin", self.bin] + self.features()
        else:
            raise Inconclusive(f"unknown engine {k}")
        return run_build(cmd, env, f"{self.bin} ({k})")

    def miri_env(self):
        return clean_env({
            "CARGO_TARGET_DIR": os.path.join(TARGET, "miri"),
            "RUSTFLAGS": NIGHTLY_ALLOW,
            "MIRIFLAGS": "-Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-disable-isolation " + self.spec.get("miriflags", ""),
        })

    def command(self, args):
        k = self.kind
        if k in ("checked", "release"):
            return [os.path.join(TARGET, k, k, self.bin)] + args, clean_env()
        if k == "miri":
            env = self.miri_env()
            for a in args:
                if a.startswith("seed="):
                    env["MIRIFLAGS"] += f" -Zmiri-seed={int(a[5:]) % (1 << 62)}"
            return ["cargo", "+nightly", "miri", "run", "--quiet", "--offline", "--bin", self.bin] + self.features() + ["--"] + args, env
        if k == "asan":
            return [os.path.join(TARGET, "asan", TRIPLE, "asan", self.bin)] + args, clean_env({
                "ASAN_OPTIONS": "halt_on_error=1:abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096"})
        if k == "tsan":
            return [os.path.join(TARGET, "tsan", TRIPLE, "checked", self.bin)] + args, clean_env({
                "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"})
        raise Inconclusive(k)


def limits(kind):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if kind in ("checked", "release"):
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f


REPORT = re.compile(r"(AddressSanitizer|ThreadSanitizer|Undefined Behavior|unsafe precondition|memory allocation of|stack overflow|panicked at|attempt to|error:)")


def run_shard(prop, engine, tmp, seed, shard, shards, cases, budget, wall, tier, only=None, extra=()):
    out = os.path.join(tmp, f"{engine.bin}.{engine.name}.{shard}.json")
    prog = out + ".progress"
    err = out + ".stderr"
    args = [f"seed={seed}", f"tier={tier}", f"cases={cases}", f"shard={shard}", f"shards={shards}", f"budget={budget}", f"out={out}"] + list(extra)
    if engine.kind != "miri":
        args.append(f"progress={prog}")
    if only is not None:
        args.append(f"only={only}")
    cmd, env = engine.command(args)
    t = time.time()
    with open(err, "w") as ef:
        p = subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=subprocess.DEVNULL, stderr=ef, preexec_fn=limits(engine.kind))
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = None
        except BaseException:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise
    text = open(err, errors="replace").read()
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    r = {"engine": engine, "shard": shard, "rc": rc, "res": res, "stderr": text, "wall": time.time() - t, "args": args, "crash": None, "inconclusive": None}
    if rc is None:
        r["inconclusive"] = f"{engine.bin} ({engine.name}) shard {shard} didn't finish in {wall} s"
    elif res is None or rc not in (0, 1):
        case = None
        if os.path.exists(prog):
            try:
                case = int(open(prog).read().strip() or "0")
            except ValueError:
                pass
        lines = text.splitlines()
        hits = [i for i, l in enumerate(lines) if REPORT.search(l)]
        at = hits[0] if hits else max(0, len(lines) - 12)
        msg = "\n".join(lines[at:at + 14])[:3000]
        if engine.kind == "miri" and ("unsupported operation" in text or "Undefined Behavior" not in text and "error: abnormal termination" not in text and "memory leak" not in text):
            r["inconclusive"] = f"Miri gave no answer for {engine.bin}: rc={rc} {msg}"
        elif rc == -signal.SIGKILL or (rc == 137):
            r["inconclusive"] = f"{engine.bin} ({engine.name}) shard {shard} was killed"
        elif rc >= 0 and engine.kind in ("checked", "release"):
            r["inconclusive"] = f"{engine.bin} ({engine.name}) shard {shard} ended with {rc}: {msg}"
        elif rc >= 0 and engine.kind == "asan" and "AddressSanitizer" not in text:
            r["inconclusive"] = f"{engine.bin} ({engine.name}) shard {shard} ended with {rc}: {msg}"
        elif rc >= 0 and engine.kind == "tsan" and "ThreadSanitizer: data race" not in text:
            r["inconclusive"] = f"{engine.bin} ({engine.name}) shard {shard} ended with {rc}: {msg}"
        else:
            how = f"signal {-rc}" if rc < 0 else f"exit code {rc}"
            r["crash"] = (case, f"the process ended with {how}: {msg}")
    return r


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l.strip())
        if m:
            out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return out


def write_replay(prop, v, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    v = dict(v, property=prop, tier=tier, verif_seed=seed)
    h = hashlib.sha1(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, f"{prop}-{h}.json")
    with open(p, "w") as f:
        json.dump(v, f, indent=1)
    return p


def run_property(prop, tier, seed):
    spec = CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"vh-{prop}-")
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": spec["rule"], "samples": [], "events": {}, "maxima": {}, "engines": {}}
    distinct = set()
    violations = []
    inconclusive = []
    try:
        if "special" in spec:
            mod = __import__(spec["special"])
            mod.run(tier, seed, tmp, cov, distinct, violations, inconclusive)
        engines = [Engine(e) for e in spec.get("engines", []) if e.get(tier)]
        if engines:
            order = {"release": 0, "checked": 0, "asan": 1, "tsan": 1, "miri": 2}
            with concurrent.futures.ThreadPoolExecutor(4) as ex:
                bt = list(ex.map(lambda e: e.build(), sorted(engines, key=lambda e: order[e.kind])))
            log(f"{prop}: built {len(engines)} engine(s) in {time.time() - t0:.0f} s")
            jobs = []
            for i, e in enumerate(engines):
                c = e.spec[tier]
                shards = c.get("shards", NPROC)
                eseed = seed * 1000 + e.spec.get("stream", i)
                for s in range(shards):
                    jobs.append((prop, e, tmp, eseed, s, shards, c["cases"], c.get("budget", 120 if tier == "quick" else 900), c.get("wall", 420 if tier == "quick" else 3600), tier))
            results = []
            with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
                for r in ex.map(lambda j: run_shard(*j, extra=spec.get("args", ())), jobs):
                    results.append(r)
            for r in results:
                e = r["engine"]
                ec = cov["engines"].setdefault(e.name, {"runs": 0, "evaluations": 0, "cpu_wall_s": 0.0, "complete_runs": 0})
                ec["runs"] += 1
                ec["cpu_wall_s"] = round(ec["cpu_wall_s"] + r["wall"], 1)
                base = {"engine": e.name, "kind": e.kind, "bin": e.bin, "args": r["args"]}
                if r["inconclusive"]:
                    inconclusive.append(r["inconclusive"])
                if r["crash"]:
                    case, msg = r["crash"]
                    violations.append(dict(base, case=case, message=msg, description=""))
                res = r["res"]
                if res:
                    ec["evaluations"] += res["evaluations"]
                    ec["complete_runs"] += bool(res["complete"])
                    cov["evaluations"] += res["evaluations"]
                    for k, v in res["events"].items():
                        cov["events"][k] = cov["events"].get(k, 0) + v
                    for k, v in res["maxima"].items():
                        cov["maxima"][k] = max(cov["maxima"].get(k, v), v)
                    for d in res["distinct"].split():
                        distinct.add(d)
                    if len(cov["samples"]) < 6:
                        cov["samples"] += res["samples"][:2]
                    for v in res["violations"]:
                        violations.append(dict(base, case=v["case"], message=v["message"], description=v["description"]))
                    if res["evaluations"] == 0 and not res["violations"] and not r["crash"]:
                        inconclusive.append(f"{e.bin} ({e.name}) shard {r['shard']} observed nothing")
    except Inconclusive as e:
        inconclusive.append(str(e))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    cov["distinct_nontrivial"] = len(distinct)
    for name, minimum in spec.get("must_see", {}).items():
        got = cov["events"].get(name, 0)
        if got < minimum and not violations and not inconclusive:
            inconclusive.append(f"only {got} of event '{name}' were seen, at least {minimum} expected")
    if not violations and not inconclusive and (cov["evaluations"] == 0 or not distinct):
        inconclusive.append("nothing was observed")
    known = known_findings()
    fresh = []
    for v in violations:
        hit = [k for k in known if k[0] == prop and k[1].search(v["message"])]
        if hit:
            log(f"KNOWN-FINDING: property={prop} {hit[0][2]}")
        else:
            fresh.append(v)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(fresh)}
    if inconclusive:
        ev["coverage"]["inconclusive"] = inconclusive[:10]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for v in fresh[:3]:
        p = write_replay(prop, v, seed, tier)
        log(f"{prop}: case {v['case']} ({v['engine']}): {v['message'][:1500]}")
        if v.get("description"):
            log("   " + v["description"][:600])
        log(f"VIOLATION property={prop} replay={p}")
    if fresh:
        return 1
    if inconclusive:
        for x in inconclusive[:5]:
            log(f"{prop}: INCONCLUSIVE: {x}")
        return 2
    log(f"{prop}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct), {time.time() - t0:.0f} s")
    return 0


def replay(path):
    v = json.load(open(path))
    if v.get("kind") == "special":
        mod = __import__(CHECKS[v["property"]]["special"])
        return mod.replay(v)
    espec = [e for e in CHECKS[v["property"]]["engines"] if e["kind"] == v["kind"] and e["bin"] == v["bin"] and e.get("name", e["kind"]) == v["engine"]][0]
    e = Engine(espec)
    e.build()
    args = [a for a in v["args"] if not re.match(r"(out|progress|only)=", a)]
    if v["case"] is not None:
        args.append(f"only={v['case']}")
    cmd, env = e.command(args)
    log("running", " ".join(cmd))
    return subprocess.run(cmd, cwd=HARNESS, env=env).returncode


def main():
    if sys.argv[1] == "replay":
        sys.exit(1 if replay(sys.argv[2]) else 0)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int(hashlib.sha1(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
    sys.exit(run_property(prop, tier, seed))


if __name__ == "__main__":
    main()
