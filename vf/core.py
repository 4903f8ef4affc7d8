"""Runtime-monitoring harness core: context handed to scenario functions, result format."""
import faulthandler, hashlib, json, os, random, sys, threading, time, traceback, collections

MAX_VIOL = 12
MAX_SAMPLES = 6


class Stop(Exception):
    """Raised to end a scenario early (enough violations collected)."""


class Heartbeat(threading.Thread):
    """Counts 20 ms ticks, so that a wall-clock bound is only used when this process really got to run."""

    def __init__(self):
        super().__init__(daemon=True, name="vf-heartbeat")
        self.ticks = 0
        self.start()

    def run(self):
        while True:
            time.sleep(0.02)
            self.ticks += 1


class Ctx:
    def __init__(self, pid, scenario, seed, tier, budget, out, params=None):
        self.pid, self.scenario, self.seed, self.tier, self.budget, self.out = pid, scenario, seed, tier, budget, out
        self.params = params or {}
        self.rng = random.Random(f"{pid}/{scenario}/{seed}")
        self.t0 = time.monotonic()
        self.deadline = self.t0 + budget
        self.lock = threading.RLock()
        self.evaluations = 0
        self.sigs = set()
        self.samples = []
        self.counters = collections.Counter()
        self.violations = []
        self.heart = None
        self.finished = False
        self.error = None
        self._guards = {}
        self._guard_id = 0

    # ---------------------------------------------------------------- observations
    def ev(self, n=1):
        with self.lock:
            self.evaluations += n

    def sig(self, *parts):
        h = hashlib.blake2b(repr(parts).encode("utf-8", "backslashreplace"), digest_size=8).hexdigest()
        with self.lock:
            self.sigs.add(h)
            if len(self.samples) < 2 or (len(self.samples) < MAX_SAMPLES and len(self.sigs) % 97 == 0):
                self.samples.append(_short(parts))

    def sample(self, x):
        with self.lock:
            if len(self.samples) < MAX_SAMPLES:
                self.samples.append(_short(x))

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] += n

    def top(self, name, v):
        with self.lock:
            self.counters[name] = max(self.counters[name], v)

    # ---------------------------------------------------------------- verdicts
    def violate(self, kind, msg, **witness):
        """Record a violation; `kind` names the mechanism (known findings are keyed by it)."""
        with self.lock:
            if self.finished:
                return
            same = sum(v["kind"] == kind for v in self.violations)
            if same < 3:
                self.violations.append({"kind": kind, "msg": str(msg)[:1500], "witness": {k: _short(v, 1500) for k, v in witness.items()}})
            self.counters["violations_seen"] += 1
            stop = len(self.violations) >= MAX_VIOL
        if stop:
            raise Stop()

    def check(self, cond, kind, msg, **witness):
        self.ev()
        if not cond:
            self.violate(kind, msg() if callable(msg) else msg, **witness)
        return bool(cond)

    def time_left(self):
        return self.deadline - time.monotonic()

    def more(self):
        return self.time_left() > 0

    # ---------------------------------------------------------------- bounded progress
    def guard(self, seconds, kind, msg):
        """Context manager: the body must finish within `seconds` (bounded progress).

        The bound is far above what the operation needs, and only counts while this process
        gets CPU time (heartbeat).  When it fires, the stacks of all threads are the witness.
        """
        return _Guard(self, seconds, kind, msg)

    def start_guards(self):
        self.heart = Heartbeat()
        t = threading.Thread(target=self._watch, daemon=True, name="vf-guard")
        t.start()

    def _watch(self):
        while True:
            time.sleep(0.25)
            with self.lock:
                gs = list(self._guards.values())
            for g in gs:
                if not g.done and self.heart.ticks - g.ticks0 > g.seconds / 0.02 * 0.8 and time.monotonic() - g.t0 > g.seconds:
                    stacks = all_stacks()
                    with self.lock:
                        if g.done:
                            continue
                        self.violations.append({"kind": g.kind, "msg": f"no progress within {g.seconds} s: {g.msg}", "witness": {"stacks": stacks[-6000:]}})
                        self.counters["guard_fired"] += 1
                        self.write()
                    os._exit(3)

    def result(self):
        return {
            "pid": self.pid, "scenario": self.scenario, "seed": self.seed, "evaluations": self.evaluations,
            "sigs": sorted(self.sigs), "samples": self.samples, "counters": dict(self.counters),
            "violations": self.violations, "error": self.error, "wall": time.monotonic() - self.t0, "params": self.params,
        }

    def write(self):
        tmp = f"{self.out}.tmp{os.getpid()}"
        with open(tmp, "w") as f:
            json.dump(self.result(), f)
        os.replace(tmp, self.out)


class _Guard:
    def __init__(self, ctx, seconds, kind, msg):
        self.ctx, self.seconds, self.kind, self.msg, self.done = ctx, seconds, kind, msg, False

    def __enter__(self):
        c = self.ctx
        self.t0, self.ticks0 = time.monotonic(), c.heart.ticks
        with c.lock:
            c._guard_id += 1
            self.id = c._guard_id
            c._guards[self.id] = self
        return self

    def __exit__(self, *a):
        with self.ctx.lock:
            self.done = True
            self.ctx._guards.pop(self.id, None)
        return False


def all_stacks():
    frames = sys._current_frames()
    names = {t.ident: t.name for t in threading.enumerate()}
    out = []
    for tid, fr in frames.items():
        out.append(f"--- thread {names.get(tid, tid)}\n" + "".join(traceback.format_stack(fr)[-12:]))
    return "\n".join(out)


def _short(x, n=400):
    if isinstance(x, (int, float, bool)) or x is None:
        return x if x == x and x not in (float("inf"), float("-inf")) else repr(x)
    s = x if isinstance(x, str) else repr(x)
    s = s.encode("utf-8", "backslashreplace").decode()
    return s if len(s) <= n else s[: n - 20] + f"...[{len(s)}]"
