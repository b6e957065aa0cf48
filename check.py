#!/usr/bin/env python3
"""check.py PROPERTY...  decides properties on /repo's working tree.

Builds the harness and the crate to LLVM IR, runs the symbolic executor on every job of the property,
replays the solver's counterexamples (and a few passing models) natively against the real crate, and
writes evidence/PROPERTY.json. Exit 0: held within the bounds. Exit 1: VIOLATION, reproduced
natively. Exit 2: no verdict.

check.py --setup builds everything ahead of time.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
OUT = os.path.join(ROOT, "out")
NIGHTLY = "nightly-2026-10-29"
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import jobs as J  # noqa: E402

WORKERS = 7
NATIVE_LIMIT = 30


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
        e.pop(k, None)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "/usr/bin:/bin") + ":/usr/local/bin:" + e["HOME"] + "/.cargo/bin"
    e.update(
        CARGO_NET_OFFLINE="true",
        RUSTUP_AUTO_INSTALL="0",
        RUST_BACKTRACE="0",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER="gcc-13",
        CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER="aarch64-linux-gnu-gcc",
        CARGO_TARGET_ARMV7_UNKNOWN_LINUX_GNUEABIHF_LINKER="arm-linux-gnueabihf-gcc",
        CARGO_TARGET_THUMBV7NEON_UNKNOWN_LINUX_GNUEABIHF_LINKER="arm-linux-gnueabihf-gcc",
        CC_aarch64_unknown_linux_gnu="aarch64-linux-gnu-gcc",
        CC_armv7_unknown_linux_gnueabihf="arm-linux-gnueabihf-gcc",
        CC_thumbv7neon_unknown_linux_gnueabihf="arm-linux-gnueabihf-gcc",
    )
    return e


ENV = env()
RUNNER = {
    "a64": ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"],
    "a32": ["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"],
    "t32": ["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"],
}


class Fail(Exception):
    pass


def sh(cmd, cwd, limit, extra=None):
    e = dict(ENV)
    e.update(extra or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
    return p.returncode, p.stdout.decode("utf8", "replace")


def tree_hash():
    """Content of everything a build of the crate depends on."""
    h = hashlib.sha256()
    for base in (REPO, os.path.join(ROOT, "harness"), os.path.join(ROOT, "replay"), os.path.join(ROOT, "models")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "tests", "examples"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()


LOCKS = {}
LOCKS_L = threading.Lock()


class DirLock:
    """One build per directory at a time, across threads and processes."""

    def __init__(self, d):
        self.d = d
        with LOCKS_L:
            self.t = LOCKS.setdefault(d, threading.Lock())

    def __enter__(self):
        self.t.acquire()
        os.makedirs(self.d, exist_ok=True)
        self.f = open(os.path.join(self.d, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()
        self.t.release()


def fresh(d, crate, h, tgt):
    """Forget artefacts of path packages when any content changed (mtimes are not trusted)."""
    st = os.path.join(d, "stamp")
    old = open(st).read() if os.path.exists(st) else ""
    if old and old != h:
        pk = ["closure-ffi", "closure-ffi-proc-macros", "vfh" if crate == "harness" else "vfr"]
        for p in ("release", "checked"):
            sh(["cargo", "+" + NIGHTLY, "clean", "--offline", "--profile", p, "--target", tgt] + [x for k in pk for x in ("-p", k)], os.path.join(ROOT, crate), 60, {"CARGO_TARGET_DIR": d})
    with open(st, "w") as f:
        f.write(h)


def flags(tgt):
    return ["-Zbuild-std"] if tgt.startswith(("armv7", "thumb")) else []


def build_ir(cfg, h):
    """LLVM IR of harness + crate for a configuration (isa, profile, features)."""
    isa, prof, feats = cfg
    tgt = J.TARGETS[isa]
    d = os.path.join(BUILD, "ir", tgt + ("-" + feats if feats else ""))
    with DirLock(d):
        fresh(d, "harness", h, tgt)
        cmd = ["cargo", "+" + NIGHTLY, "rustc", "--offline", "--profile", prof, "--target", tgt, "--message-format=json"] + flags(tgt)
        if feats:
            cmd += ["--features", feats] + (["--no-default-features"] if "nosafe" in feats else [])
        cmd += ["--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]
        rc, out = sh(cmd, os.path.join(ROOT, "harness"), 800, {"CARGO_TARGET_DIR": d})
        lib = None
        for l in out.splitlines():
            if l.startswith("{") and '"compiler-artifact"' in l and '"vfh"' in l:
                m = json.loads(l)
                if m["target"]["name"] == "vfh":
                    lib = m["filenames"][0]
        if rc != 0 or not lib:
            errs = [json.loads(l)["message"]["rendered"] for l in out.splitlines() if l.startswith("{") and '"compiler-message"' in l and '"level":"error"' in l]
            raise Fail("building the harness for %s failed:\n%s" % (tgt, "\n".join(errs)[-4000:] or out[-3000:]))
        od = os.path.join(d, tgt, prof, "build", "vfh")
        ll = []
        for x, _, fs in os.walk(od):
            ll += [os.path.join(x, f) for f in fs if f.endswith(".ll")]
        if not ll:
            raise Fail("no IR produced for %s" % tgt)
        src = max(ll, key=os.path.getmtime)
        dst = os.path.join(BUILD, "ll", "%s-%s-%s-%d.ll" % (isa, prof, feats or "plain", os.getpid()))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copyfile(src, dst)
        return dst


def build_native(cfg, h):
    isa, prof, feats = cfg
    tgt = J.TARGETS[isa]
    d = os.path.join(BUILD, "rp", tgt + ("-" + feats if feats else ""))
    with DirLock(d):
        fresh(d, "replay", h, tgt)
        cmd = ["cargo", "+" + NIGHTLY, "build", "--offline", "--profile", prof, "--target", tgt] + flags(tgt)
        if feats:
            cmd += ["--features", feats] + (["--no-default-features"] if "nosafe" in feats else [])
        rc, out = sh(cmd, os.path.join(ROOT, "replay"), 800, {"CARGO_TARGET_DIR": d})
        if rc != 0:
            raise Fail("building the native replay for %s failed:\n%s" % (tgt, out[-4000:]))
        src = os.path.join(d, tgt, prof, "vfr")
        dst = os.path.join(BUILD, "ll", "vfr-%s-%s-%s-%d" % (isa, prof, feats or "plain", os.getpid()))
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy(src, dst)
        return dst


def build_symex():
    d = os.path.join(BUILD, "symex")
    with DirLock(d):
        rc, out = sh(["cargo", "+" + NIGHTLY, "build", "--offline", "--release"], os.path.join(ROOT, "symex"), 600, {"CARGO_TARGET_DIR": d})
        if rc != 0:
            raise Fail("building the executor failed:\n" + out[-3000:])
        return os.path.join(d, "release", "symex")


def native(exe, isa, entry, inputs, limit=NATIVE_LIMIT):
    """Runs an entry with concrete inputs. -> (how it ended, output)"""
    f = os.path.join(BUILD, "ll", "in-%d-%d-%d" % (os.getpid(), threading.get_ident(), time.time_ns()))
    with open(f, "w") as fh:
        for t, hx in inputs:
            fh.write("%d %s\n" % (t, hx))
    try:
        p = subprocess.run(RUNNER.get(isa, []) + [exe, entry, f], env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
        out = p.stdout.decode("utf8", "replace")
        rc = p.returncode
    except subprocess.TimeoutExpired as x:
        return "hang", (x.stdout or b"").decode("utf8", "replace")
    finally:
        os.unlink(f)
    if rc == 0:
        m = re.search(r"^END (\w+)", out, re.M)
        return ("ok" if m else "no end marker"), out
    if rc == 77:
        return "diverged", out
    if rc in (10, 11):
        return "failed", out
    if rc == 12:
        return "panic", out
    if rc < 0 or rc >= 128:
        return "crash signal %d" % (-rc if rc < 0 else rc - 128), out
    return "error %d: %s" % (rc, p.stderr.decode("utf8", "replace")[-500:]), out


def label(v):
    return "construction panics" if v["msg"].startswith("panicked") else J.CHECKS.get(v["id"], v["msg"])


def bad(end):
    return end in ("failed", "hang") or end.startswith("crash")


def notes(out):
    return [(int(m[0]), int(m[1], 16)) for m in re.findall(r"^NOTE (\d+) ([0-9a-f]+)", out, re.M)]


def run_job(sx, ll, job, tier):
    o = dict(J.OPTS)
    o.update(job.get("opts", {}))
    if tier == "thorough":
        o.update(job.get("thorough", {}))
    tmp = os.path.join(BUILD, "ll")
    cmd = [sx, ll, job["entry"], "--tmp", tmp]
    for k, v in o.items():
        cmd += ["--" + k, str(v)]
    if os.environ.get("VERIF_PARANOID"):
        # ask the solver about queries settled by known bits as well
        cmd.append("--paranoid")
    t = time.time()
    try:
        p = subprocess.run(cmd, env=ENV, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=float(o["secs"]) + 120)
    except subprocess.TimeoutExpired:
        return {"job": job, "fatal": "executor exceeded its limit"}
    try:
        r = json.loads(p.stdout)
    except ValueError:
        return {"job": job, "fatal": "executor ended with %d: %s" % (p.returncode, p.stderr.decode("utf8", "replace")[-1500:])}
    r["job"] = job
    r["secs"] = time.time() - t
    return r


def known():
    """Recorded findings: (property, isa, entry regex, check id, text)."""
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\S+) isa=(\S+) entry=(\S+) check=(\d+) (.*)", l)
            if m:
                res.append((m[1], m[2], m[3], int(m[4]), m[5].strip()))
    return res


def check(prop, tier, seed):
    t0 = time.time()
    jobs = [j for j in J.JOBS[prop] if tier == "thorough" or not j.get("thorough_only")]
    h = tree_hash()
    cfgs = sorted({(j["isa"], j.get("profile", "release"), j.get("feats", "")) for j in jobs})
    problems, results = [], []
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        fsx = ex.submit(build_symex)
        firs = {c: ex.submit(build_ir, c, h) for c in cfgs}
        fnat = {c: ex.submit(build_native, c, h) for c in cfgs}
        sx = fsx.result()
        irs = {c: f.result() for c, f in firs.items()}
        exes = {c: f.result() for c, f in fnat.items()}
    t_build = time.time() - t0
    cfg = lambda j: (j["isa"], j.get("profile", "release"), j.get("feats", ""))
    try:
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            # longest first
            order = sorted(jobs, key=lambda j: -j.get("cost", 1))
            results = list(ex.map(lambda j: run_job(sx, irs[cfg(j)], j, tier), order))
        return verdict(prop, tier, seed, jobs, results, exes, cfg, t0, t_build, problems)
    finally:
        for p in list(irs.values()) + list(exes.values()):
            if os.path.exists(p):
                os.unlink(p)


def verdict(prop, tier, seed, jobs, results, exes, cfg, t0, t_build, problems):
    kn = known()
    violations, validated, refused, known_hits, cands = [], 0, 0, [], []
    for r in results:
        j = r["job"]
        name = "%s/%s/%s" % (j["isa"], j.get("profile", "release"), j["entry"])
        if "fatal" in r:
            problems.append(name + ": " + r["fatal"])
            continue
        for k, v in r["errors"].items():
            problems.append("%s: %s (x%d)" % (name, k, v))
        if r["unknown"]:
            problems.append("%s: %d solver queries undecided" % (name, r["unknown"]))
        for v in r["violations"]:
            hit = [k for k in kn if k[0] == prop and k[1] == j["isa"] and re.fullmatch(k[2], j["entry"]) and k[3] == v["id"]]
            if hit:
                known_hits.append(hit[0])
            else:
                cands.append((r, v))
        # what the entry is there to reach must have been reached
        if not r["violations"]:
            for c in j.get("covers", []):
                if not r["covers"].get(str(c)):
                    problems.append("%s: nothing reached situation %s" % (name, c))
            if not r["ended"].get("done") and not j.get("covers"):
                problems.append("%s: no path ran to the end" % name)

    def confirm(rv):
        r, v = rv
        j = r["job"]
        tries = 40 if v.get("sched") else 2
        for _ in range(tries):
            end, out = native(exes[cfg(j)], j["isa"], j["entry"], v["inputs"], 10 if v.get("sched") else NATIVE_LIMIT)
            if end == "panic" and "panic" in v["msg"]:
                end = "failed"
            if bad(end):
                return rv, end, out
        return rv, end, out

    nrep = 0
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        # per job the first few candidates
        seen, todo = {}, []
        for rv in cands:
            k = id(rv[0])
            if seen.get(k, 0) < 6 and len(todo) < 60:
                seen[k] = seen.get(k, 0) + 1
                todo.append(rv)
        for (r, v), end, out in ex.map(confirm, todo):
            nrep += 1
            if bad(end):
                violations.append((r["job"], v, end, out))
            else:
                problems.append("%s/%s: counterexample (%s: %s) does not reproduce natively: %s" % (r["job"]["isa"], r["job"]["entry"], v["id"], v["msg"], end))

        # passing models must behave natively as predicted
        def valid(rw):
            r, w = rw
            j = r["job"]
            end, out = native(exes[cfg(j)], j["isa"], j["entry"], w["inputs"])
            return r, w, end, out

        ws = [(r, w) for r in results if "fatal" not in r and not r["job"].get("novalidate") for w in r["witnesses"][: r["job"].get("validate", 3)]]
        for r, w, end, out in ex.map(valid, ws):
            j = r["job"]
            if bad(end):
                # the executor and the real code disagree: not a solver verdict, so no verdict at all
                problems.append("%s/%s: native run of a model the executor predicted to pass: %s %s" % (j["isa"], j["entry"], end, out.strip().splitlines()[-1:] or ""))
                continue
            if end == "panic" and j["isa"] == "t32":
                # the prologue the compiler made for the native build is one the crate refuses to move
                refused += 1
                continue
            want = [(int(a), int(b, 16) if isinstance(b, str) else int(b)) for a, b in w["notes"]]
            if end != "ok" or notes(out) != want:
                problems.append("%s/%s: native run differs from the executor's prediction (%s)\n  want %s\n  got  %s" % (j["isa"], j["entry"], end, want[:12], notes(out)[:12]))
            else:
                validated += 1

    lines = []
    if violations:
        os.makedirs(OUT, exist_ok=True)
        j, v, end, out = violations[0]
        path = os.path.join(OUT, "%s-%s-%s.json" % (prop, j["isa"], j["entry"]))
        with open(path, "w") as f:
            json.dump(
                {
                    "property": prop,
                    "isa": j["isa"],
                    "target": J.TARGETS[j["isa"]],
                    "profile": j.get("profile", "release"),
                    "features": j.get("feats", ""),
                    "entry": j["entry"],
                    "check": v["id"],
                    "what": label(v),
                    "executor": v["msg"],
                    "inputs": v["inputs"],
                    "schedule": v.get("sched", []),
                    "native": end,
                    "native_output": out[-2000:],
                    "rerun": "python3 check.py --replay " + path,
                },
                f,
                indent=1,
            )
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        for j, v, end, out in violations[:8]:
            lines.append("  %s/%s: %s; native: %s %s" % (j["isa"], j["entry"], label(v) + " [" + v["msg"] + "]", end, out.strip().splitlines()[-1:] or ""))
    ok = [r for r in results if "fatal" not in r]
    fn = sorted({f for r in ok for f in r["functions"] if not f.startswith(("h_", "vf_"))})
    checks = {}
    for r in ok:
        for k, v in r["checks"].items():
            c = checks.setdefault(k, [0, 0])
            c[0] += v[0]
            c[1] += v[1]
    samples = []
    for r in ok:
        for w in r["witnesses"][:1]:
            if len(samples) < 4:
                samples.append({"isa": r["job"]["isa"], "entry": r["entry"], "inputs": w["inputs"][:8], "notes": w["notes"][:8]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] for r in ok),
            "transitions": sum(r["steps"] for r in ok),
            "traces_validated_against_impl": validated,
            "models_not_comparable_native_prologue_refused": refused,
            "samples": samples,
            "counterexamples_replayed": nrep,
            "jobs": ["%s/%s/%s: %d paths, %d queries, %.1f s" % (r["job"]["isa"], r["job"].get("profile", "release"), r["entry"], r["paths"], r["queries"], r["wall_s"]) for r in ok],
            "paths_ended": {k: sum(r["ended"].get(k, 0) for r in ok) for k in sorted({k for r in ok for k in r["ended"]})},
            "assertions_evaluated": {k: {"what": J.CHECKS.get(int(k), ""), "evaluated": v[0], "with_symbolic_condition": v[1]} for k, v in sorted(checks.items(), key=lambda x: int(x[0]))},
            "functions_encoded": len(fn),
            "functions": fn[:200],
            "queries_discharged": sum(r["queries"] for r in ok),
            "queries_unsat": sum(r["unsat"] for r in ok),
            "solver_s": round(sum(r["solver_ms"] for r in ok) / 1000, 2),
            "bounds": J.BOUNDS.get(prop, ""),
        },
        "wall_s": round(time.time() - t0, 1),
        "assumptions": J.ASSUMES.get(prop, []) + J.COMMON,
        "violations": lines,
    }
    ev["coverage"]["build_s"] = round(t_build, 1)
    if problems:
        ev["coverage"]["inconclusive"] = problems[:20]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in dict.fromkeys(known_hits):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[4]))
    c = ev["coverage"]
    print("%s: %d jobs, %d paths, %d queries, %d models validated natively, build %.0f s, total %.0f s" % (prop, len(results), c["states"], c["queries_discharged"], validated, t_build, ev["wall_s"]))
    if violations:
        print("\n".join(lines))
        return 1
    if problems:
        print("\n".join("NO VERDICT " + p for p in problems[:20]))
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    exe = build_native((r["isa"], r["profile"], r["features"]), tree_hash())
    end, out = native(exe, r["isa"], r["entry"], r["inputs"])
    os.unlink(exe)
    print(r["what"])
    print(out, end="")
    print("native run:", end)
    return 1 if bad(end) or end == "panic" else 0


def setup():
    h = tree_hash()
    cfgs = sorted({(j["isa"], j.get("profile", "release"), j.get("feats", "")) for js in J.JOBS.values() for j in js})
    with cf.ThreadPoolExecutor(5) as ex:
        fs = [ex.submit(build_symex)] + [ex.submit(b, c, h) for c in cfgs for b in (build_ir, build_native)]
        for f in fs:
            p = f.result()
            if "/ll/" in p:
                os.unlink(p)
    return 0


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in a:
        a.remove("--thorough")
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if a[:1] == ["--setup"]:
            return setup()
        if a[:1] == ["--replay"]:
            return replay(a[1])
        rc = 0
        for p in a:
            rc = max(rc, check(p, tier, seed), key=lambda x: (0, 2, 1).index(x) if x in (0, 1, 2) else 9)
        return rc
    except Fail as x:
        print("NO VERDICT", x)
        return 2
    except subprocess.TimeoutExpired as x:
        print("NO VERDICT", x)
        return 2


if __name__ == "__main__":
    sys.exit(main())
