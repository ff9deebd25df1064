#!/usr/bin/env python3
"""Decide one property by symbolic execution of the compiled library.

usage: check.py ID            (VERIF_TIER=quick|thorough, VERIF_SEED=n)
       check.py --setup       build the executor and warm the cargo caches

Exit 0: every obligation was discharged.  Exit 1: a counterexample was found
and reproduced natively.  Exit 2: no answer (build error, unsupported code,
limit reached, counterexample that does not reproduce, missing witness).
"""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from jobs import CHECKS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
CORES = os.cpu_count() or 4
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true")
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)


class NoAnswer(Exception):
    pass


def run(cmd, what, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, timeout=timeout,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise NoAnswer("%s failed:\n%s" % (what, p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout.decode(errors="replace")


def harness_dir(build):
    """A copy of the harness crate pointing at the repository under test."""
    d = os.path.join(build, "harness")
    shutil.copytree(os.path.join(HERE, "harness"), d, ignore=shutil.ignore_patterns("target"))
    if REPO != "/repo":
        p = os.path.join(d, "Cargo.toml")
        with open(p) as f:
            s = f.read()
        with open(p, "w") as f:
            f.write(s.replace('"/repo/', '"%s/' % REPO))
    tool_crate(os.path.join(d, "tool"))
    return d


def tool_crate(d):
    """The command as a library, from its current source."""
    src = os.path.join(REPO, "gift-bin")
    with open(os.path.join(src, "Cargo.toml"), "rb") as f:
        own = tomllib.load(f)
    with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
        shared = tomllib.load(f).get("workspace", {})

    def inherit(v, table, k):
        if isinstance(v, dict) and v.get("workspace"):
            w = shared.get(table, {}).get(k, "*")
            v = dict(w if isinstance(w, dict) else {"version": w}, **{a: b for a, b in v.items() if a != "workspace"})
            if "path" in v:
                v["path"] = os.path.join(REPO, v["path"])
        elif isinstance(v, dict) and "path" in v:
            v = dict(v, path=os.path.normpath(os.path.join(src, v["path"])))
        return v
    deps = {k: inherit(v, "dependencies", k) for k, v in own.get("dependencies", {}).items()}
    deps["gift"] = {"path": os.path.join(REPO, "gift")}
    edition = inherit(own["package"].get("edition", "2015"), "package", "edition")
    if isinstance(edition, dict):
        edition = edition["version"]

    def text(v):
        if isinstance(v, dict):
            return "{ %s }" % ", ".join("%s = %s" % (k, text(x)) for k, x in v.items())
        return json.dumps(v)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(src, "src"), os.path.join(d, "src"))
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "tool"\nversion = "0.1.0"\nedition = "%s"\n\n[lib]\npath = "src/main.rs"\n'
                '\n[dependencies]\n' % edition)
        for k, v in deps.items():
            f.write("%s = %s\n" % (k, text(v)))
    with open(os.path.join(d, "src", "main.rs"), "a") as f:
        f.write("\n#[doc(hidden)]\npub fn run_main() -> std::process::ExitCode {\n"
                "    std::process::Termination::report(main())\n}\n")


def build_engine(build):
    run(["make", "-s", "-j4", "-C", os.path.join(HERE, "engine"), "OUT=" + build], "engine build")


def build_ir(build, hd, feature):
    t = os.path.join(build, "ir")
    run(["cargo", "rustc", "--offline", "-q", "--lib", "--release", "--crate-type", "staticlib",
         "--features", feature + ",ir", "--", "--emit=llvm-ir", "-C", "no-vectorize-loops",
         "-C", "no-vectorize-slp"],
        "compiling to IR", cwd=hd, env=dict(ENV, CARGO_TARGET_DIR=t))
    d = os.path.join(t, "release", "deps")
    ll = [f for f in os.listdir(d) if f.startswith("harness") and f.endswith(".ll")]
    if len(ll) != 1:
        raise NoAnswer("expected one IR file, found %s" % ll)
    return os.path.join(d, ll[0])


def build_replay(build, hd, feature, profile="dev"):
    t = os.path.join(build, "native")
    run(["cargo", "build", "--offline", "-q", "--bin", "replay", "--features", feature, "--profile", profile],
        "native build", cwd=hd, env=dict(ENV, CARGO_TARGET_DIR=t))
    return os.path.join(t, "debug" if profile == "dev" else profile, "replay")


def parallel(fs):
    res, errs = [None] * len(fs), []

    def go(i, f):
        try:
            res[i] = f()
        except Exception as e:  # noqa: BLE001
            errs.append(e)
    ts = [threading.Thread(target=go, args=(i, f)) for i, f in enumerate(fs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
    return res


def pstr(params):
    return ",".join(str(p) for p in params)


class Runner:
    def __init__(self, cid, tier, seed, build):
        self.cid, self.tier, self.seed, self.build = cid, tier, seed, build
        self.spec = CHECKS[cid]
        self.results = []
        self.lock = threading.Lock()
        self.procs = set()
        self.stop = None
        self.validated = 0
        self.sample_list = []

    def gsym(self, i, job, ll):
        out = os.path.join(self.build, "job%d.json" % i)
        cmd = [os.path.join(self.build, "gsym"), ll, "--entry", job["entry"], "--out", out,
               "--jobs", str(CORES), "--slots", os.path.join(self.build, "slots"),
               "--time", str(job.get("time", 500 if self.tier == "quick" else 800)),
               "--max-steps", str(job.get("max_steps", 40000000)),
               "--samples", str(job.get("samples", 6))]
        for p in job["params"]:
            cmd += ["--param", str(p)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             start_new_session=True)
        with self.lock:
            if self.stop:
                kill(p)
            self.procs.add(p)
        log = p.communicate()[0].decode(errors="replace")
        with self.lock:
            self.procs.discard(p)
        if self.stop:
            return None
        try:
            with open(out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            return {"status": "error", "msg": "no result (exit %s) %s" % (p.returncode, log[-2000:])}
        if r["status"] == "ok" and p.returncode:
            r["status"] = "error"
        r["log"] = log[-2000:]
        return r

    def replay(self, exe, job, lines, timeout):
        try:
            p = subprocess.run([exe, job["entry"], pstr(job["params"])],
                               input=("\n".join(lines) + "\n").encode(), env=ENV,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "timeout", [], ""
        return p.returncode, p.stdout.decode().split("\n"), p.stderr.decode(errors="replace")

    def worker(self, queue, ll, exe):
        while True:
            with self.lock:
                if not queue or self.stop:
                    return
                i, job = queue.pop(0)
            r = self.gsym(i, job, ll)
            if r is None:
                return
            r["job"] = job
            with self.lock:
                self.results.append(r)
                if r["status"] != "ok" and not self.stop:
                    self.stop = r
                    for p in self.procs:
                        kill(p)
                    return
            self.validate(i, job, exe)

    def validate(self, i, job, exe):
        """Run models of completed paths natively; results must agree."""
        f = os.path.join(self.build, "job%d.json.samples" % i)
        if not os.path.exists(f):
            return
        with open(f) as h:
            ss = [json.loads(x) for x in h if x.strip()]
        if not ss:
            return
        code, lines, err = self.replay(exe, job, [s["bytes"] for s in ss], 120)
        if code not in (0, 7) and "has overflowed its stack" in err:
            # the executor counts less for a call than the native frames take
            for s in ss:
                if self.replay(exe, job, [s["bytes"]], 120)[0] not in (0, 7):
                    raise_later(self, dict(status="violation", kind="stack", msg="stack overflow", bytes=s["bytes"], job=job))
                    return
        if code != 0:
            raise_later(self, "native run of %s %s on a completed path ended with %s %s %s"
                        % (job["entry"], pstr(job["params"]), code, lines[-3:], err[-500:]))
            return
        for s, l in zip(ss, lines):
            if s["out"] != l.strip():
                raise_later(self, "native run of %s %s disagrees with the executor on %s"
                            % (job["entry"], pstr(job["params"]), s["bytes"]))
                return
        with self.lock:
            self.validated += len(ss)
            s = random.Random(self.seed + i).choice(ss)
            self.sample_list.append({"entry": job["entry"], "params": job["params"],
                                     "input": s["bytes"], "result_digest": s["out"]})

    def confirm(self, r, exe):
        """Does the counterexample fail natively?"""
        job, kind = r["job"], r["kind"]
        code, lines, err = self.replay(exe, job, [r["bytes"]], 20)
        got = " ".join(x for x in lines if x.strip())
        if kind == "assert":
            ok = code == 7
        elif kind == "hang":
            ok = code == "timeout"
        else:
            ok = code not in (0, 2, 7, 8, 9)
        return ok, "exit %s %s %s" % (code, got, err.strip()[-600:])


def raise_later(self, msg):
    with self.lock:
        if not self.stop:
            self.stop = msg if isinstance(msg, dict) else {"status": "error", "msg": msg}
            for p in self.procs:
                kill(p)


def kill(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass


def check(cid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[cid]
    build = tempfile.mkdtemp(prefix="gsym-%s-" % cid)
    evidence = os.path.join(HERE, "evidence", cid + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    for f in (evidence, os.path.join(HERE, "evidence", cid + ".replay.json")):
        if os.path.exists(f):
            os.remove(f)
    try:
        return decide(cid, tier, seed, spec, build, evidence, t0)
    except NoAnswer as e:
        print("ERROR property=%s %s" % (cid, e))
        return 2
    finally:
        shutil.rmtree(build, ignore_errors=True)


def decide(cid, tier, seed, spec, build, evidence, t0):
    hd = harness_dir(build)
    feature = spec.get("feature", cid.lower())
    _, ll, exe = parallel([lambda: build_engine(build), lambda: build_ir(build, hd, feature),
                           lambda: build_replay(build, hd, feature)])
    t_build = time.time() - t0
    jobs = [j for j in spec["jobs"] if tier == "thorough" or not j.get("thorough")]
    if tier == "thorough":
        jobs = [j for j in jobs if not j.get("quick_only")]
    # the longest first
    queue = sorted(enumerate(jobs), key=lambda j: -j[1].get("max_steps", 0))
    rn = Runner(cid, tier, seed, build)
    parallel([lambda: rn.worker(queue, ll, exe) for _ in range(min(CORES, len(jobs)))])

    status, rc, violations = "ok", 0, 0
    stop = rn.stop
    if stop and stop["status"] == "violation":
        ok, native = rn.confirm(stop, exe)
        if not ok and stop["kind"] == "stack":
            # frames differ in size when compiled like the encoded program
            ok, native = rn.confirm(stop, build_replay(build, hd, feature, "release"))
        job = stop["job"]
        desc = "%s %s: %s %s" % (job["entry"], pstr(job["params"]), stop.get("kind"), stop.get("msg"))
        if ok:
            violations, rc = 1, 1
            path = os.path.join(HERE, "evidence", cid + ".replay.json")
            with open(path, "w") as f:
                json.dump({"property": cid, "entry": job["entry"], "params": job["params"],
                           "bytes": stop["bytes"], "kind": stop["kind"], "msg": stop["msg"],
                           "where": stop.get("where", ""), "native": native,
                           "run": "echo BYTES | replay ENTRY PARAMS (harness crate, feature %s)" % feature},
                          f, indent=1)
            print(desc)
            print(stop.get("where", ""))
            print("input bytes: %s" % stop["bytes"])
            print("native: %s" % native)
            print("VIOLATION property=%s replay=%s" % (cid, path))
        else:
            raise NoAnswer("counterexample not reproduced natively: %s\n%s\nbytes %s\n%s"
                           % (desc, stop.get("where", ""), stop.get("bytes"), native))
    elif stop:
        j = stop.get("job", {})
        raise NoAnswer("%s %s: %s\n%s\n%s" % (j.get("entry", ""), pstr(j.get("params", [])), stop.get("msg"),
                                              stop.get("where", ""), stop.get("log", "")))
    else:
        for r in rn.results:
            j = r["job"]
            need = [c for c in j.get("covers", []) if not r["covers"].get(str(c))]
            if need:
                raise NoAnswer("vacuous: %s %s never reached witness %s (%s)"
                               % (j["entry"], pstr(j["params"]), need, r["covers"]))
            if r["z3_unknown"]:
                raise NoAnswer("solver gave no answer")
            if r["paths"] == 0:
                raise NoAnswer("vacuous: %s %s has no path" % (j["entry"], pstr(j["params"])))

    def tot(k):
        return sum(r.get(k, 0) for r in rn.results)
    funcs = sorted(set(f for r in rn.results for f in r.get("functions", [])))
    cov = {
        "states": tot("paths"),
        "transitions": tot("forks"),
        "traces_validated_against_impl": rn.validated,
        "samples": rn.sample_list[:12],
        "exhaustive": rc == 0,
        "instructions_executed": tot("instructions"),
        "paths_outside_assumptions": tot("assumed_away"),
        "branch_decisions_by_value_sets": tot("fd_decisions"),
        "value_set_decisions_confirmed_by_solver": tot("cross_checks"),
        "solver_queries": tot("z3_queries"),
        "solver_sat": tot("z3_sat"),
        "solver_unsat": tot("z3_unsat"),
        "solver_unknown": tot("z3_unknown"),
        "solver_time_s": round(sum(r.get("z3_time", 0) for r in rn.results), 2),
        "assertions_checked": tot("asserts"),
        "assertions_needing_decision": tot("asserts_symbolic"),
        "longest_path_instructions": max([r.get("max_path_steps", 0) for r in rn.results] or [0]),
        "functions_encoded": funcs,
        "bounds": spec["bounds"],
        "jobs": [{"entry": r["job"]["entry"], "params": r["job"]["params"], "status": r["status"],
                  "paths": r.get("paths"), "queries": r.get("z3_queries"),
                  "witnesses": r.get("covers"), "wall_s": r.get("wall")} for r in rn.results],
        "build_s": round(t_build, 2),
    }
    ev = {"property": cid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": violations,
          "assumptions": ASSUME + spec.get("assumptions", [])}
    tmp = evidence + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, evidence)
    if rc == 0:
        print("%s held: %d paths, %d assertions, %d solver queries (%.1f s), %d native traces, %.1f s"
              % (cid, cov["states"], cov["assertions_checked"], cov["solver_queries"],
                 cov["solver_time_s"], rn.validated, ev["wall_s"]))
    return rc


ASSUME = [
    "rustc's LLVM IR for the harness build (opt-level 2, overflow checks on) means what the executor implements",
    "z3 answers correctly; sets of byte values decide single-byte conditions",
    "the allocator never fails for the sizes reached",
]


def setup():
    build = tempfile.mkdtemp(prefix="gsym-setup-")
    try:
        hd = harness_dir(build)
        parallel([lambda: build_engine(build), lambda: build_ir(build, hd, "c01"),
                  lambda: build_replay(build, hd, "c01")])
        print("setup ok")
        return 0
    except NoAnswer as e:
        print("ERROR %s" % e)
        return 2
    finally:
        shutil.rmtree(build, ignore_errors=True)


if __name__ == "__main__":
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        sys.exit(setup())
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        print("usage: check.py ID")
        sys.exit(3)
    try:
        sys.exit(check(sys.argv[1]))
    except SystemExit:
        raise
    except BaseException as e:  # noqa: BLE001
        print("ERROR property=%s %r" % (sys.argv[1], e))
        sys.exit(2)
