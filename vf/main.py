"""Orchestrator: main.py PID [--tier T] [--seed N] [--replay FILE] [--only SCENARIO]"""
import argparse, ctypes, importlib, json, os, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
sys.path.insert(0, ROOT)


def known_findings(pid):
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"known: property={pid} kind="):
                kind, _, what = line[len(f"known: property={pid} kind="):].partition(" ")
                out[kind] = what
    return out


def descendants():
    """pids of all processes below this one (parsed from /proc of our own subtree only)."""
    import psutil
    try:
        return [p.pid for p in psutil.Process().children(recursive=True)]
    except psutil.Error:
        return []


def kill_tree(pid):
    import psutil
    try:
        procs = psutil.Process(pid).children(recursive=True) + [psutil.Process(pid)]
    except psutil.Error:
        procs = []
    for p in procs:
        try:
            p.kill()
        except psutil.Error:
            pass


def sweep(keep):
    """Kill and reap orphans that were re-parented to us (we are their subreaper)."""
    import psutil
    me = psutil.Process()
    for p in me.children():
        if p.pid in keep:
            continue
        try:
            if any("resource_tracker" in x for x in p.cmdline()) and p.status() != psutil.STATUS_ZOMBIE:
                # ends by itself, after it has removed shared memory
                try:
                    p.wait(2)
                    continue
                except psutil.TimeoutExpired:
                    pass
            for q in p.children(recursive=True) + [p]:
                q.kill()
        except psutil.Error:
            pass
        try:
            os.waitpid(p.pid, os.WNOHANG)
        except ChildProcessError:
            pass


class Job:
    def __init__(self, pid, scen, seed, tier, budget, hard, tmp, n, params=None, attempt=0):
        self.__dict__.update(locals())
        self.out = os.path.join(tmp, f"r{n}.{attempt}.json")
        self.log = os.path.join(tmp, f"r{n}.{attempt}.log")

    def start(self):
        self.dir = os.path.join(self.tmp, f"w{self.n}.{self.attempt}")
        os.makedirs(self.dir, exist_ok=True)
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", QT_QPA_PLATFORM="offscreen", TMPDIR=self.dir,
                   XDG_RUNTIME_DIR=os.path.join(self.tmp, "xdg"), PYTHONPATH=f"{ROOT}:/repo", PYTHONUNBUFFERED="1",
                   PYTHONFAULTHANDLER="1", VF_DIR=self.dir)
        for k in ("PYTHONSTARTUP", "PYTHONDEVMODE", "PYTHONWARNINGS"):
            env.pop(k, None)
        self.t0 = time.monotonic()
        self.p = subprocess.Popen(
            [PY, "-m", "vf.worker", self.pid, self.scen, str(self.seed), self.tier, str(self.budget), self.out, json.dumps(self.params or {})],
            cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=open(self.log, "wb"), stderr=subprocess.STDOUT)
        return self

    def load(self):
        try:
            return json.load(open(self.out))
        except (OSError, ValueError):
            return None

    def tail(self):
        txt = ""
        for path, n in ((self.out + ".err", 1200), (self.log, 300)):
            try:
                txt += open(path, errors="replace").read()[-n:]
            except OSError:
                pass
        return txt


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    a = ap.parse_args()
    pid, tier = a.pid, "thorough" if a.tier == "thorough" else "quick"
    t0 = time.monotonic()
    ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    # a background job of a shell inherits ignored signals
    signal.signal(signal.SIGINT, signal.default_int_handler)
    for s in (signal.SIGHUP, signal.SIGQUIT, signal.SIGTERM, signal.SIGCHLD):
        signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    mod = importlib.import_module(f"checks.{pid.lower()}")
    tmp = tempfile.mkdtemp(prefix=f"vf-{pid}-")
    os.makedirs(os.path.join(tmp, "xdg"), mode=0o700)
    try:
        rc = run(a, pid, tier, mod, tmp, t0)
    finally:
        sweep(set())
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(a, pid, tier, mod, tmp, t0):
    scens = mod.SCENARIOS  # name -> dict(quick=(workers, budget), thorough=(workers, budget), min=evaluations)
    jobs, n = [], 0
    if a.replay:
        r = json.load(open(a.replay))
        jobs.append(Job(pid, r["scenario"], r["seed"], r["tier"], r["budget"], r["budget"] + 120, tmp, 0, r.get("params")))
    else:
        for name, s in scens.items():
            if a.only and name != a.only:
                continue
            workers, budget = s[tier]
            for w in range(workers):
                b = a.budget or budget
                jobs.append(Job(pid, name, a.seed * 1000 + w, tier, b, b + s.get("grace", 90), tmp, n, {"w": w, "workers": workers}))
                n += 1
    limit = getattr(mod, "PARALLEL", 8)
    todo, running, done, retried, notes = jobs[::-1], [], [], [], []
    stopping, known = False, known_findings(pid)
    while todo or running:
        while todo and len(running) < limit and not stopping:
            running.append(todo.pop().start())
        if stopping and not running:
            break
        time.sleep(0.03)
        for j in list(running):
            rc = j.p.poll()
            if rc is None and time.monotonic() - j.t0 > j.hard:
                kill_tree(j.p.pid)
                j.p.wait()
                rc = "timeout"
            if rc is None:
                continue
            running.remove(j)
            res = j.load()
            bad = None
            if rc == "timeout":
                bad = f"scenario {j.scen} seed {j.seed} hit its {j.hard:.0f} s watchdog"
            elif res is None or (rc not in (0, 3)):
                bad = f"scenario {j.scen} seed {j.seed} ended with {rc} without a verdict: {j.tail()}"
            if bad and not (res and res["violations"]):
                if j.attempt == 0:
                    notes.append(bad[:600] + " -> retried")
                    todo.append(Job(pid, j.scen, j.seed, j.tier, j.budget, j.hard, tmp, j.n, j.params, 1))
                    continue
                err = (res or {}).get("error") or ""
                what = None
                if "teleprox/" in err:
                    what = "unexpected-error"
                elif rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS):
                    what = "crash"
                elif rc == "timeout":
                    what = "hangs"
                if what is None:
                    done.append((j, res, bad))
                    continue
                # it has happened twice, in code of the package
                res = res or {"scenario": j.scen, "evaluations": 0, "sigs": [], "samples": [], "counters": {}}
                res["violations"] = [{"kind": what, "msg": bad[:1500], "witness": {"error": err[-1500:]}}]
            new = [v for v in res["violations"] if v["kind"] not in known]
            if new and j.attempt == 0 and not a.replay and all("Could not establish connection" in v["msg"] + str(v["witness"]) for v in new):
                # a new client waits for 1 s only, which a machine under heavy load can exceed: it must happen twice
                notes.append(f"scenario {j.scen} seed {j.seed}: {new[0]['msg'][-300:]} -> retried")
                todo.append(Job(pid, j.scen, j.seed, j.tier, j.budget, j.hard, tmp, j.n, j.params, 1))
                continue
            done.append((j, res, None))
            if any(v["kind"] not in known for v in res["violations"]):
                stopping = True  # the rest cannot change the verdict
        if stopping:
            for j in running:
                kill_tree(j.p.pid)
                j.p.wait()
            running = []
        sweep({j.p.pid for j in running})
    # ------------------------------------------------------------------ merge
    ev, sigs, samples, counters, per = 0, set(), [], {}, {}
    viol, kn, inconclusive = [], {}, []
    for j, res, bad in done:
        if bad:
            inconclusive.append(bad)
            continue
        ev += res["evaluations"]
        sigs.update(res["sigs"])
        s = per.setdefault(j.scen, {"runs": 0, "evaluations": 0})
        s["runs"] += 1
        s["evaluations"] += res["evaluations"]
        for k, v in res["counters"].items():
            if k.startswith(("max_", "perturb_lines")):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        if sum(x["scenario"] == j.scen for x in samples) < 2:
            samples += [{"scenario": j.scen, "seed": j.seed, "case": x} for x in res["samples"][:2]]
        for v in res["violations"]:
            if v["kind"] in known:
                kn.setdefault(v["kind"], (j, v))
            else:
                viol.append((j, v))
    if not a.replay and not a.only and not viol:
        for name, s in scens.items():
            got = per.get(name, {}).get("evaluations", 0)
            if got < s.get("min", 1):
                inconclusive.append(f"scenario {name}: only {got} evaluations, {s.get('min', 1)} needed for a verdict")
    evidence = {
        "property": pid, "tier": tier, "seed": a.seed, "level": mod.LEVEL,
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(sigs), "rule": mod.RULE, "samples": samples[:14] or ["none"],
                     "scenarios": per, "observed": counters, "notes": notes[:10], "inconclusive": [x[:800] for x in inconclusive]},
        "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.monotonic() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for kind, (j, v) in kn.items():
        print(f"KNOWN-FINDING: property={pid} {kind}: {known[kind]}")
    rc = 0
    if viol:
        os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
        shown = set()
        for j, v in viol:
            if v["kind"] in shown:
                continue
            shown.add(v["kind"])
            path = os.path.join(ROOT, "replay", f"{pid}-{v['kind']}-{j.seed}.json".replace("/", "_").replace(" ", "_"))
            with open(path, "w") as f:
                json.dump({"property": pid, "scenario": j.scen, "seed": j.seed, "tier": j.tier, "budget": j.budget, "params": j.params, "violation": v}, f, indent=1)
            print(f"  {v['kind']}: {v['msg'][:900]}".replace("\n", "\n    "))
            for k, w in v["witness"].items():
                print(f"      {k}: {str(w)[:700]}".replace("\n", "\n        "))
            print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    elif inconclusive:
        for x in inconclusive:
            print("INCONCLUSIVE:", x)
        rc = 2
    print(f"{pid} {tier} seed={a.seed}: {ev} evaluations, {len(sigs)} distinct, {len(viol)} violations, {len(kn)} known findings, {time.monotonic()-t0:.1f} s")
    return rc


if __name__ == "__main__":
    main()
