#!/usr/bin/env python3
"""Run the check of one property: run.py ID [quick|thorough] | run.py ID --replay FILE

Exit 0: held on everything explored. Exit 1 with a line
"VIOLATION property=<id> replay=<path>": broken. Exit 2: no answer.
"""
import fcntl, json, os, re, resource, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
TRIPLE = "x86_64-unknown-linux-gnu"
NAME = "magog-monitor"
T0 = time.time()
# seconds a thorough run may spend observing
LONG = int(os.environ.get("VERIF_THOROUGH_S", "780"))


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def no_answer(msg):
    log("NO ANSWER:", msg)
    sys.exit(2)


# ---------------------------------------------------------------- building

def forget(target):
    """Make cargo look at /repo's sources again whatever their time stamps."""
    for root, dirs, _ in os.walk(target):
        if os.path.basename(root) == ".fingerprint":
            for d in dirs:
                if d.startswith("magog"):
                    shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            dirs[:] = []
        elif root.count(os.sep) - target.count(os.sep) > 3:
            dirs[:] = []


FLAVOURS = {
    "native": dict(tc="stable", args=["build", "--release"], flags="", out="release"),
    "asan": dict(tc="nightly", args=["build", "--release", "--target", TRIPLE], flags="-Zsanitizer=address --cfg asan", out=TRIPLE + "/release"),
    "tsan": dict(tc="nightly", args=["build", "--release", "-Zbuild-std", "--target", TRIPLE], flags="-Zsanitizer=thread", out=TRIPLE + "/release"),
    "miri": dict(tc="nightly", args=["miri", "run"], flags="", out=None),
}


def cargo_env(flavour):
    f = FLAVOURS[flavour]
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "MIRIFLAGS"):
            del env[k]
    env.update(RUSTUP_TOOLCHAIN=f["tc"], CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               CARGO_TARGET_DIR=os.path.join(BUILD, flavour))
    if f["flags"]:
        env["RUSTFLAGS"] = f["flags"]
    return env


def build(flavour):
    f = FLAVOURS[flavour]
    target = os.path.join(BUILD, flavour)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock-check"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        forget(target)
        t = time.time()
        p = subprocess.run(["cargo"] + f["args"] + ["--locked"], cwd=HARNESS, env=cargo_env(flavour),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print("\n".join(l for l in p.stdout.splitlines() if "error" in l or "-->" in l)[-4000:])
            print(p.stdout[-3000:])
            no_answer("the %s build fails" % flavour)
        log("built %s in %.0f s" % (flavour, time.time() - t))
    return os.path.join(target, f["out"], NAME)


# ---------------------------------------------------------------- running

class Violation(Exception):
    def __init__(self, message, replay):
        super().__init__(message)
        self.message, self.replay = message, replay


def limits(mem_gb=None, cpu_s=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        if cpu_s:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu_s, cpu_s + 5))
    return f


SAN = re.compile(r"(ERROR: AddressSanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|ERROR: ThreadSanitizer[^\n]*)")
SAN_ENV = dict(
    ASAN_OPTIONS="detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1",
    TSAN_OPTIONS="halt_on_error=1:exitcode=77:second_deadlock_stack=1",
)


def worker(binary, pid, seed, tier, stage, cases=None, cap=None, threads=8, sanitizer=False, mem=12):
    """One run of the worker. Returns its result; raises Violation."""
    work = os.path.join(HERE, "work", "%s-%s" % (pid, stage))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    cmd = [binary, "run", pid, "--seed", str(seed), "--tier", tier, "--work", work, "--threads", str(threads)]
    if cases:
        cmd += ["--cases", str(cases)]
    if cap:
        cmd += ["--cap", str(cap)]
    err_path = os.path.join(work, "stderr")
    with open(err_path, "w") as err:
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=err, env=dict(os.environ, **SAN_ENV),
                               preexec_fn=limits(None if sanitizer else mem), timeout=(cap or 600) + 300)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    with open(err_path, errors="replace") as f:
        err = f.read()
    res_path = os.path.join(work, "result.json")
    spec = dict(property=pid, seed=seed, tier=tier, stage=stage)
    m = SAN.search(err)
    if m:
        k = err.find(m.group(0))
        raise Violation(m.group(0) + "\n" + err[k:k + 6000], dict(spec, kind="sanitizer"))
    if rc == 0 and os.path.exists(res_path):
        with open(res_path, encoding="utf-8") as f:
            res = json.load(f)
        if res["violations"]:
            v = res["violations"][0]
            raise Violation(v["message"], dict(spec, kind="case", index=v["index"]))
        if res["harness"]:
            v = res["harness"][0]
            no_answer("harness failure in case %d: %s" % (v["index"], v["message"][:2000]))
        if res["missing"]:
            no_answer("not observed often enough: %s%s" % ("; ".join(res["missing"]), " (time cap hit)" if res["time_cap_hit"] else ""))
        return res
    # crashed, aborted or stalled: which case?
    log("worker ended with %s: %s" % (rc, err[-500:].strip()))
    suspects = []
    for n in sorted(os.listdir(work)):
        if n.startswith("inflight."):
            b = open(os.path.join(work, n), "rb").read(8)
            if len(b) == 8 and int.from_bytes(b, "little"):
                suspects.append(int.from_bytes(b, "little") - 1)
    for index in suspects:
        out, bad = single(binary, pid, seed, tier, index, sanitizer)
        if bad:
            raise Violation(out, dict(spec, kind="case", index=index))
    no_answer("the worker ended with %s and no case in flight (%s) does so alone" % (rc, suspects))


def single(binary, pid, seed, tier, index, sanitizer=False):
    """One case alone: (what happened, whether the property is broken)."""
    cpu = 120 if not sanitizer else 200
    try:
        p = subprocess.run([binary, "one", pid, "--seed", str(seed), "--tier", tier, "--index", str(index)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           env=dict(os.environ, **SAN_ENV), preexec_fn=limits(None if sanitizer else 6, cpu), timeout=cpu * 4)
        rc, out, err = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return "case %d does not end" % index, True
    if rc == 0:
        return out, False
    if rc == 1:
        return out, True
    if rc == 2:
        return "harness failure: " + out[:2000], False
    if rc in (-signal.SIGXCPU, -signal.SIGKILL):
        return "case %d does not end within %d s of CPU time" % (index, cpu), True
    return "case %d ends the process with %s: %s" % (index, rc, err[-3000:]), True


def miri_runs(pid_lists, seed, tier, cap, stage):
    """pid_lists: [(property, [indexes])], run in parallel, interpreted."""
    procs = []
    for n, (pid, idx) in enumerate(pid_lists):
        env = cargo_env("miri")
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-deterministic-floats -Zmiri-ignore-leaks -Zmiri-seed=%d" % (seed * 64 + n)
        cmd = ["cargo", "miri", "run", "--locked", "--quiet", "--", "many", pid, "--seed", str(seed), "--tier", tier,
               "--indexes", ",".join(map(str, idx)), "--cap", str(cap)]
        out = open(os.path.join(HERE, "work", "miri-%s-%d" % (stage, n)), "w+", errors="replace")
        procs.append((pid, idx, out, subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)))
    got, dead = [], time.time() + cap + 300
    try:
        for pid, idx, out, p in procs:
            try:
                p.wait(max(1, dead - time.time()))
            except subprocess.TimeoutExpired:
                pass
            out.seek(0)
            s = out.read()
            cases = re.findall(r"^CASE (\d+)", s, re.M)
            index = int(cases[-1]) if cases else None
            m = re.search(r"error: (Undefined Behavior[^\n]*)", s)
            spec = dict(property=pid, seed=seed, tier=tier, stage="miri", index=index)
            if m:
                k = s.find(m.group(0))
                raise Violation("Miri, case %s: %s" % (index, s[k:k + 5000]), dict(spec, kind="miri"))
            m = re.search(r"^VIOLATED (.*)", s, re.M | re.S)
            if m:
                raise Violation("Miri: " + m.group(1)[:5000], dict(spec, kind="miri"))
            m = re.search(r"^DONE (.*)", s, re.M)
            if m:
                got.append(json.loads(m.group(1)))
            elif p.poll() is None:
                # one case too heavy to interpret: what ran before it counts
                got.append(dict(cases=max(0, len(cases) - 1), distinct=0, schedules=0, categories={}))
            else:
                no_answer("Miri ended with %s: %s" % (p.returncode, s[-3000:]))
    finally:
        for _, _, out, p in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            out.close()
    return got


def pick(binary, pid, seed, n, max_us, start=0):
    p = subprocess.run([binary, "pick", pid, "--seed", str(seed), "--n", str(n), "--max-us", str(max_us), "--from", str(start)],
                       stdout=subprocess.PIPE, text=True, preexec_fn=limits(12, 600))
    if p.returncode != 0:
        # a crash here is one of a case: the sanitizer run will say which
        return []
    return [int(x) for x in p.stdout.strip().split(",") if x]


# ---------------------------------------------------------------- checks

def coverage_of(res):
    c = dict(evaluations=res["evaluations"], distinct_nontrivial=res["distinct_nontrivial"], rule=res["rule"],
             samples=res["samples"], cases=res["cases"], categories=res["categories"], worker_s=res["worker_s"])
    if "distinct_schedules" in res:
        c["distinct_schedules"] = res["distinct_schedules"]
    if "largest" in res:
        c["largest_observed"] = res["largest"]
    if res["time_cap_hit"]:
        c["time_cap_hit"] = True
    return c


def check(pid, tier, seed):
    thorough = tier == "thorough"
    native = build("native")
    if pid == "C26":
        return check_ub(native, tier, seed)
    res = worker(native, pid, seed, tier, "native", cap=(LONG // 2 if pid == "C23" else LONG) if thorough else 300)
    cov = coverage_of(res)
    log("%d cases, %d evaluations in %.1f s" % (res["cases"], res["evaluations"], res["worker_s"]))
    if pid == "C23":
        tsan = build("tsan")
        r = worker(tsan, pid, seed + 1, "quick", "tsan", cases=2_000_000_000 if thorough else 40_000, cap=LONG * 2 // 5 if thorough else 120, sanitizer=True)
        cov["thread_sanitizer"] = {k: r.get(k) for k in ("cases", "evaluations", "distinct_nontrivial", "distinct_schedules", "worker_s")}
        log("ThreadSanitizer: %d cases" % r["cases"])
    return cov


def check_ub(native, tier, seed):
    thorough = tier == "thorough"
    asan = build("asan")
    a = worker(asan, "C26", seed, "quick", "asan", cases=2_000_000_000 if thorough else 300_000, cap=LONG * 3 // 10 if thorough else 170, sanitizer=True)
    log("AddressSanitizer: %d cases" % a["cases"])
    cov = coverage_of(a)
    cov["address_sanitizer"] = {k: a[k] for k in ("cases", "evaluations", "distinct_nontrivial", "worker_s")}
    # all workers at once, so that anything they share unknowingly is seen too
    tsan = build("tsan")
    t = worker(tsan, "C26", seed + 1, "quick", "tsan", cases=2_000_000_000 if thorough else 40_000, cap=LONG // 5 if thorough else 60, sanitizer=True)
    cov["thread_sanitizer"] = {k: t.get(k) for k in ("cases", "evaluations", "distinct_nontrivial", "distinct_schedules", "worker_s")}
    log("ThreadSanitizer: %d cases" % t["cases"])
    # interpreted: small cases of every property, and concurrent ones
    n = 8
    per = 2000 if thorough else 75
    mix = pick(native, "C26", seed + 2, per * (n - 2), 15)
    con = [i for i in pick(native, "C23", seed + 2, 40_000 if thorough else 800, 10) if i % 10 == 0][: (400 if thorough else 16) * 2]
    lists = [("C26", mix[k::n - 2]) for k in range(n - 2)] + [("C23", con[k::2]) for k in range(2)]
    lists = [l for l in lists if l[1]]
    if not lists:
        no_answer("no case to interpret")
    # compile once, alone
    build_miri(seed)
    got = miri_runs(lists, seed + 2, "quick", LONG // 3 if thorough else 75, "C26")
    cats = {}
    for g in got:
        for k, v in g["categories"].items():
            cats[k] = cats.get(k, 0) + v
    cov["miri"] = dict(cases=sum(g["cases"] for g in got), distinct_nontrivial=sum(g["distinct"] for g in got),
                       concurrent_schedules=sum(g["schedules"] for g in got), categories=cats)
    log("Miri: %d cases" % cov["miri"]["cases"])
    if cov["miri"]["cases"] < 20:
        no_answer("Miri got through %d cases only" % cov["miri"]["cases"])
    return cov


def build_miri(seed):
    target = os.path.join(BUILD, "miri")
    os.makedirs(target, exist_ok=True)
    forget(target)
    env = cargo_env("miri")
    env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
    t = time.time()
    p = subprocess.run(["cargo", "miri", "run", "--locked", "--", "many", "C26", "--indexes", "none"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or "DONE" not in p.stdout:
        no_answer("Miri does not run: " + p.stdout[-3000:])
    log("built for Miri in %.0f s" % (time.time() - t))


# ---------------------------------------------------------------- results

def known():
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) match=\"([^\"]+)\" (.*)", line.strip())
                if m:
                    out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


ASSUME = [
    "The oracles of the harness are right (written independently of magog's algorithms, exact integer arithmetic).",
    "What was not generated was not observed: a sampled exploration.",
]


def evidence(pid, tier, seed, cov, violations):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    e = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=ASSUME,
             wall_s=round(time.time() - T0, 2), violations=violations)
    path = os.path.join(HERE, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
    os.replace(path + ".tmp", path)


def replay(pid, path):
    with open(path) as f:
        v = json.load(f)
    kind, stage = v["kind"], v["stage"]
    if kind == "case":
        b = build(stage)
        out, bad = single(b, pid, v["seed"], v["tier"], v["index"], stage != "native")
        print(out)
    elif kind == "miri":
        build_miri(v["seed"])
        try:
            miri_runs([(v["property"], [v["index"]])], v["seed"], v["tier"], 600, "replay")
            bad = False
        except Violation as e:
            print(e.message)
            bad = True
    else:
        b = build(stage)
        try:
            worker(b, v["property"], v["seed"], v["tier"], stage, cases=v.get("cases"), cap=600, sanitizer=True)
            bad = False
        except Violation as e:
            print(e.message)
            bad = True
    print("VIOLATION property=%s replay=%s" % (pid, path) if bad else "not reproduced")
    sys.exit(1 if bad else 0)


def main():
    args = sys.argv[1:]
    pid = args[0]
    if pid == "setup":
        for f in ("native", "asan", "tsan"):
            build(f)
        build_miri(1)
        return
    if "--replay" in args:
        replay(pid, args[args.index("--replay") + 1])
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        no_answer("tier %r" % tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
    try:
        cov = check(pid, tier, seed)
    except Violation as v:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s-%s-%s.json" % (pid, v.replay["stage"], seed, v.replay.get("index", "x")))
        with open(path, "w") as f:
            json.dump(dict(v.replay, message=v.message), f, indent=1)
        for kp, pat, what in known():
            if kp == pid and pat in v.message:
                print("KNOWN-FINDING: property=%s %s" % (pid, what))
                evidence(pid, tier, seed, dict(evaluations=1, distinct_nontrivial=1, rule="stopped at a known finding", samples=[v.message[:600]]), 0)
                sys.exit(0)
        evidence(pid, tier, seed, dict(evaluations=1, distinct_nontrivial=1, rule="stopped at the violation", samples=[v.message[:3000]]), 1)
        print(v.message[:6000])
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        sys.exit(1)
    evidence(pid, tier, seed, cov, 0)
    log("held")


if __name__ == "__main__":
    main()
