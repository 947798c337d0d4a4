#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]   explore every scenario of a property on /repo's working tree
   check.py --replay FILE               run a recorded counterexample again and print its trace"""
import fcntl, hashlib, json, os, queue, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
MOD = None
GO = "/opt/veriftools/go1.27.3/bin/go"
QUICK_S, THOROUGH_S = 90.0, 760.0
GRACE_S = 60.0  # a worker that has not answered this long after its time is up is stopped; its scenario counts as not explored


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1", GOWORK="off")
    e["PATH"] = os.path.dirname(GO) + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.setdefault("HOME", "/root")
    for k, v in (("GOPATH", "/root/go"), ("GOMODCACHE", "/root/go/pkg/mod"), ("GOCACHE", "/root/.cache/go-build")):
        e[k] = v
    e.pop("GODEBUG", None)
    return e


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def run(cmd, cwd, what, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        die(f"{what} failed:\n{p.stdout[-6000:]}")
    return p.stdout


def tree_hash(d):
    h = hashlib.sha256()
    for root, dirs, files in sorted(os.walk(d)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, d).encode())
            h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def build_dir():
    d = os.path.join(VERIF, ".build")
    os.makedirs(d, exist_ok=True)
    return d


def instrumenter():
    src = os.path.join(VERIF, "tool", "instr")
    out = os.path.join(build_dir(), "instr-" + tree_hash(src))
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        run([GO, "build", "-o", tmp, "."], src, "building the instrumenter")
        os.replace(tmp, out)
    return out


def build(prop, work, race):
    """instrument /repo's working tree and build the harness; returns the binaries"""
    h = prop.lower()
    stage, out = os.path.join(work, "stage"), os.path.join(work, "out")
    run([instrumenter(), "-src", REPO, "-verif", VERIF, "-stage", stage, "-out", out, "-harness", h], VERIF, "instrumenting")
    mod = open(os.path.join(out, "go.mod")).readline().split()[1]
    nb, rb = os.path.join(work, "n"), os.path.join(work, "r")
    procs = [([GO, "build", "-o", nb, "./zverif/h/" + h], "building the harness")]
    if race:
        cmd = [GO, "build", "-race"]
        for p in ("vrt", "vmain", "lin", "ants"):
            cmd.append(f"-gcflags={mod}/zverif/{p}=-race=false -l")
        cmd += ["-o", rb, "./zverif/h/" + h]
        procs.append((cmd, "building the harness with the race detector"))
    ts, errs = [], []

    def one(c, what):
        p = subprocess.run(c, cwd=out, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            errs.append(f"{what} failed:\n{p.stdout[-6000:]}")

    for c, what in procs:
        t = threading.Thread(target=one, args=(c, what))
        t.start()
        ts.append(t)
    for t in ts:
        t.join()
    if errs:
        die(errs[0])
    shutil.rmtree(stage, ignore_errors=True)
    return nb, rb if race else None


class Proc:
    """a worker process that explores one scenario at a time"""

    def __init__(self, binary, tier, race, work):
        self.race = race
        e = env()
        e["GORACE"] = "log_path=%s/race exitcode=0 history_size=2" % work
        e["GOTRACEBACK"] = "single"
        self.err = tempfile.TemporaryFile(dir=work)
        self.p = subprocess.Popen([binary, "serve", tier], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, text=True)

    def ask(self, name, seconds, until):
        """explores one scenario; (None, None) when the process had to be stopped because it went on for long"""
        late = []

        def stop():
            late.append(1)
            self.p.kill()

        timer = threading.Timer(max(5, min(seconds + GRACE_S, until - time.time())), stop)
        timer.start()
        try:
            r = self.ask1(name, seconds)
        finally:
            timer.cancel()
        return (None, None) if late and r[0] is None else r

    def ask1(self, name, seconds):
        try:
            self.p.stdin.write(json.dumps({"Name": name, "Seconds": seconds}) + "\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        line = self.p.stdout.readline()
        if not line:
            self.p.wait()
            self.err.seek(0)
            return None, "%s (exit status %s)" % (self.err.read()[:4000].decode(errors="replace"), self.p.returncode)
        return json.loads(line), None

    def stop(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


def known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get("property") == prop and f.get("status") == "known"]


def matches(f, name, violation):
    return f["scenario"] == name and f["message"] in violation


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        return replay_file(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="mc-%s-" % prop, dir=build_dir())
    try:
        return check(prop, tier, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, tier, work, t0):
    nb, rb = build(prop, work, True)
    built = time.time() - t0
    items = json.loads(run([nb, "list", tier], VERIF, "listing scenarios"))
    budget = float(os.environ.get("MC_SECONDS", QUICK_S if tier == "quick" else THOROUGH_S))
    deadline = time.time() + budget
    hard = deadline + (150 if tier == "quick" else 80)
    normal = [(i["Name"], False, i["Seconds"]) for i in items]
    races = [(i["Name"], True, 0) for i in items if i["Race"] and not i["Enum"]]
    # merge the race pass evenly into the exploration
    jobs = []
    k = 0
    for i, j in enumerate(normal):
        jobs.append(j)
        while k < len(races) and (k + 1) * len(normal) <= (i + 1) * len(races):
            jobs.append(races[k])
            k += 1
    jobs += races[k:]
    lock = threading.Lock()
    state = {"next": 0, "stop": False}
    results, bad, errors = [], [], []
    ncpu = max(1, min(8, os.cpu_count() or 8))
    live = set()

    def worker():
        procs = {}
        try:
            while True:
                with lock:
                    if state["stop"] or state["next"] >= len(jobs) or time.time() > hard:
                        return
                    idx = state["next"]
                    name, race, secs = jobs[idx]
                    state["next"] += 1
                    left = deadline - time.time()
                    remaining = len(jobs) - idx
                share = max(0.3, min(left, max(budget / 4, left * ncpu / max(remaining, 1) * 3)))
                if remaining <= ncpu:
                    share = max(0.3, left)
                if secs:
                    share = min(share, secs)
                pr = procs.get(race)
                if pr is None:
                    pr = procs[race] = Proc(rb if race else nb, tier, race, work)
                    with lock:
                        live.add(pr)
                r, err = pr.ask(name, share, hard)
                if err is not None and not state["stop"]:  # once more, in a new process
                    pr.stop()
                    pr = procs[race] = Proc(rb if race else nb, tier, race, work)
                    with lock:
                        live.add(pr)
                    r, err = pr.ask(name, share, hard)
                if r is None and err is None:
                    pr.stop()
                    del procs[race]
                    continue
                with lock:
                    if state["stop"]:
                        return
                    if err is not None:
                        bad.append((name, race, {"Name": name, "Violation": "the process crashed: " + err.strip(), "Choices": None, "AtBound": 0, "Crash": True}))
                        state["stop"] = True
                    elif r["Diverged"]:
                        errors.append(f"{name}: {r['Diverged']}")
                        state["stop"] = True
                    else:
                        results.append((name, race, r))
                        if r["Violation"]:
                            if any(matches(f, name, r["Violation"]) for f in known(prop)):
                                r["Known"] = True
                            else:
                                bad.append((name, race, r))
                                state["stop"] = True
                    if state["stop"]:
                        for p in live:
                            if p is not pr:
                                p.stop()
                        return
        finally:
            for p in procs.values():
                p.stop()

    ts = [threading.Thread(target=worker) for _ in range(ncpu)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    code, lines = 0, []
    for f in known(prop):
        lines.append(f"KNOWN-FINDING: property={prop} {f['what']}")
    if bad:
        code, out = confirm(prop, tier, bad[0], nb, rb, work)
        lines += out
    elif errors:
        print("ERROR: the exploration did not reproduce: " + errors[0])
        code = 2
    ev = evidence(prop, tier, results, t0, built, len(bad), len(jobs))
    for l in lines:
        print(l)
    c = ev["coverage"]
    print(f"{prop} {tier}: {c['scenarios']} scenarios, {c['states']} states, {c['transitions']} transitions, {c['executions']} executions, "
          f"exhaustive={c['exhaustive']}, wall {ev['wall_s']} s (build {built:.1f} s), exit {code}", flush=True)
    return code


def run_replay(binary, tier, path, work):
    e = env()
    e["GORACE"] = "log_path=%s/race exitcode=0" % work
    e["GOTRACEBACK"] = "single"
    p = subprocess.run([binary, "replay", tier, path], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400)
    if not p.stdout.strip():
        return {"Violation": "the process crashed: " + p.stderr[:4000].strip(), "Trace": [], "Diverged": ""}
    return json.loads(p.stdout.strip().splitlines()[-1])


def confirm(prop, tier, item, nb, rb, work):
    name, race, r = item
    binary = rb if race else nb
    mode = "explore" if r.get("Crash") or r.get("Hang") or r["Choices"] is None else "schedule"
    sv = {"property": prop, "tier": tier, "scenario": name, "race": race, "mode": mode, "bound": r["AtBound"], "choices": r["Choices"] or [],
          "violation": r["Violation"], "trace": r.get("Trace") or []}
    rd = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s.json" % (prop, hashlib.sha256((name + str(race) + r["Violation"]).encode()).hexdigest()[:10]))
    json.dump(sv, open(path, "w"), indent=1)
    n = 3 if mode == "schedule" else 1
    ok = 0
    for i in range(n):
        q = run_replay(binary, tier, path, work)
        if q["Violation"] and not q["Diverged"]:
            ok += 1
            if q.get("Trace"):
                sv["trace"] = q["Trace"]
    if ok < n and mode == "schedule":
        sv["mode"] = "explore"
        json.dump(sv, open(path, "w"), indent=1)
        q = run_replay(binary, tier, path, work)
        if not q["Violation"] or q["Diverged"]:
            print(f"ERROR: the violation found did not reproduce: {name}: {r['Violation']}")
            return 2, []
    elif ok < n:
        print(f"ERROR: the violation found did not reproduce: {name}: {r['Violation']}")
        return 2, []
    if race:
        logs = sorted(f for f in os.listdir(work) if f.startswith("race"))
        if logs:
            sv["race_report"] = open(os.path.join(work, logs[0]), errors="replace").read()[:8000].splitlines()
    json.dump(sv, open(path, "w"), indent=1)
    msg = r["Violation"]
    if race and "race_report" in sv:
        msg += "\n" + "\n".join(sv["race_report"][:24])
    return 1, [f"VIOLATION property={prop} replay={path}", f"  scenario: {name}{' (race pass)' if race else ''}", "  " + msg[:3000]]


def evidence(prop, tier, results, t0, built, nbad, njobs):
    main_r = [r for _, race, r in results if not race]
    race_r = [r for _, race, r in results if race]
    samples = []
    step = max(1, len(main_r) // 6)
    for r in main_r[::step]:
        for s in (r.get("Samples") or [])[:1]:
            samples.append(r["Name"] + ": " + s)
    bounds = {}
    for r in main_r:
        for b in r.get("Bounds") or []:
            k = "unbounded" if b < 0 else "%s<=%d" % ("delays" if r.get("Delay") else "preemptions", b)
            bounds[k] = bounds.get(k, 0) + 1
    capped = [r["Name"] for r in main_r if not r["Exhaustive"]]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": sum(r["States"] for r in main_r),
            "transitions": sum(r["Steps"] for r in main_r),
            "traces_validated_against_impl": sum(r["Replays"] for r in main_r),
            "executions": sum(r["Execs"] for r in main_r),
            "complete_executions": sum(r["Complete"] for r in main_r),
            "distinct_outcomes": sum(r["Outcomes"] for r in main_r),
            "scenarios": len(main_r),
            "scenarios_completed_by_bound": bounds,
            "scenarios_not_completed": capped[:40],
            "scenarios_not_run": njobs - len(results),
            "race_pass": {"scenarios": len(race_r), "executions": sum(r["Execs"] for r in race_r), "states": sum(r["States"] for r in race_r)},
            "exhaustive": not capped and len(results) == njobs and nbad == 0,
            "explanation": "Every execution is an execution of the code in /repo, rebuilt for this run with its synchronisation routed through the controlled "
                           "runtime; states are distinct happens-before states at scheduling points (for input enumerations: inputs evaluated), transitions "
                           "visible steps executed beyond replayed prefixes (calls checked). traces_validated_against_impl counts recorded schedules that "
                           "were run again decision by decision and gave the same state fingerprints and the same observations.",
            "samples": samples[:12],
        },
        "assumptions": ["the controlled runtime (rt/) implements the semantics of Go's channels, sync, atomic, context and timers",
                        "code between two visible operations is atomic unless the race pass reports a race"],
        "wall_s": round(time.time() - t0, 1), "violations": nbad,
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))
    return ev


def replay_file(path):
    sv = json.load(open(path))
    work = tempfile.mkdtemp(prefix="mc-replay-", dir=build_dir())
    try:
        nb, rb = build(sv["property"], work, sv["race"])
        q = run_replay(rb if sv["race"] else nb, sv["tier"], os.path.abspath(path), work)
        for l in q.get("Trace") or []:
            print(l)
        for f in os.listdir(work):
            if f.startswith("race."):
                print(open(os.path.join(work, f), errors="replace").read())
        if q.get("Diverged"):
            print("the recorded schedule does not fit this tree: " + q["Diverged"])
        print("violation: " + q["Violation"] if q["Violation"] else "no violation on this tree")
        return 1 if q["Violation"] else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
