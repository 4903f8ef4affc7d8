"""C22: published names behave like atomic shared variables."""
import json, os, random, signal, subprocess, sys, threading, time
from teleprox import RPCServer
from vf import names, perturb
from vf.rpc import RPCClient, make_server, uniq

TECHNIQUE = "runtime monitoring: concurrent histories of sets, gets and read-modify-writes recorded with their real-time intervals and checked for linearizability (WGL search per name)"
NOTE = "Samples schedules of clients in threads and processes, values by value and by proxy, failing and interrupted sets, killed clients, all kinds of servers; the checker is tested against corrupted histories in each run."
LEVEL = "exploration"
RULE = "One evaluation = one operation in a history that was decided. Distinct = distinct orders of invocations and responses with results."
ASSUMPTIONS = ["A set without reply takes effect before the next request of the same client is answered.", "A set whose outcome is unknown (timeout, killed client) may take effect at any later time or never.",
               "An object published by proxy is read through the proxy."]
SCENARIOS = {
    "threads": {"quick": (4, 14), "thorough": (5, 200), "min": 800},
    "processes": {"quick": (3, 14), "thorough": (3, 200), "min": 150},
}
TMP = os.environ.get("VF_DIR", "/tmp")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NAMES = ["a", "b", "A", "a ", "é", "é", "", "x" * 2000, "0", "00", "server", "__class__", "a.b", "名前", "\n", "name", "obj", "None"]
OPS = [["get", "set"], ["get", "set", "set_async", "get_async"], ["get", "set", "swap"], ["get", "swap", "cas"], ["get", "set_off", "set", "side_get"], ["get", "self_get", "side_get", "side_put", "set"],
       ["get", "set", "bomb"], ["get_async", "set_async", "set_off", "timeout"], ["get", "get_async", "self_get", "side_get", "set", "set_async", "set_off", "timeout", "bomb", "side_put", "fail_after", "swap", "cas"]]
FORMS = [["str"], ["plain", "str"], ["plain", "list", "array", "obj"], ["plain", "str"], ["str", "list", "dict"], ["array", "str"], ["obj", "str"], ["obj", "mixed"], ["str", "list", "dict", "array", "obj", "mixed"]]


def judge(ctx, what, ops):
    """One history."""
    by = {}
    for o in ops:
        op, err = o["op"], o["err"]
        if op == "failing set":
            if err is not None:
                continue  # without effect: its value must never be read
            if o["t1"] != names.INF:
                ctx.violate("failing-set", f"{what}: a set that cannot work reported success ({o['name']!r:.40}, {o['arg']})")
                return
            continue
        if err is not None and op == "get" and "KeyError" in err:
            o["res"], err = names.UNSET, None
        if err is not None:
            ctx.violate("unexpected-error", f"{what}: {op} {o['name']!r:.40} failed: {err}")
            return
        by.setdefault(o["name"], []).append((op, o["arg"], o["exp"], o["res"], o["t0"], o["t1"]))
    for name, h in by.items():
        values = {x[1] for x in h if x[1]} | {names.UNSET}
        for x in h:
            if x[0] != "set" and x[5] != names.INF and x[3] not in values:
                where = next((n for n, g in by.items() if x[3] in {y[1] for y in g}), None)
                ctx.violate("foreign-value", f"{what}: {x[0]} of {name!r:.40} gave {x[3]!r:.300}, which was never set{f' under this name but under {where!r:.40}' if where is not None else ''}")
                return
        r = names.linearizable(h)
        if r is None:
            ctx.count("undecided")
            continue
        ctx.ev(len(h))
        ctx.count("histories")
        order = sorted([(x[4], i, "i") for i, x in enumerate(h)] + [(x[5], i, "r") for i, x in enumerate(h)])
        at = {v: i for i, v in enumerate(sorted(values))}
        ctx.sig([(h[i][0], at.get(h[i][3]), e) for _, i, e in order])
        ctx.top("most concurrent operations", conc(order))
        if r is False:
            # shortest prefix (by response) that cannot be explained
            ts = sorted({x[5] for x in h})
            for t in ts:
                pre = [x if x[5] <= t else (*x[:5], names.INF) for x in h if x[4] <= t]
                if names.linearizable(pre) is False:
                    break
            lo = min(x[4] for x in pre)
            rel = [(x[0], x[1], x[3], round((x[4] - lo) * 1e3, 2), round((x[5] - lo) * 1e3, 2)) for x in sorted(pre, key=lambda x: x[4])]
            ctx.violate("not-linearizable", f"{what}: no order explains these operations on {name!r:.40} (operation, value, result, from ms, to ms): {rel[-14:]}")
            return
        corrupt(ctx, h)


def conc(order):
    n = best = 0
    for _, _, e in order:
        n += 1 if e == "i" else -1
        best = max(best, n)
    return best


def corrupt(ctx, h):
    """The checker must reject a history with a stale read."""
    values = [x[1] for x in h if x[1]]
    if len(set(values)) < len(values):
        return  # (the value may have been set again)
    gets = [i for i, x in enumerate(h) if x[0] == "get" and x[5] != names.INF and x[3] != names.UNSET]
    ctx.rng.shuffle(gets)
    for i in gets[:3]:
        # a value that was surely overwritten before this read: another set came after it completely and before the read
        sets = [x for x in h if x[0] == "set" and x[5] != names.INF]
        for a in sets:
            if any(b[4] > a[5] and b[5] < h[i][4] for b in sets) and a[1] != h[i][3]:
                bad = list(h)
                bad[i] = (*h[i][:3], a[1], *h[i][4:])
                r = names.linearizable(bad)
                if r is True:
                    raise AssertionError(f"the checker accepts a stale read: {bad}")
                ctx.count("corrupted histories rejected")
                return


def plan_for(ctx, rng, address, ops=None, forms=None):
    ops = ops or rng.choice(OPS)
    forms = forms or rng.choice(FORMS)
    proxies = "obj" in forms
    return {"address": address.decode(), "seed": rng.random(), "names": rng.sample(NAMES, rng.choice([1, 1, 2, 3])), "ops": ops, "forms": forms, "depth": rng.choice([0, 2, 6]),
            "pause": rng.choice([0, 0, 0, .002]), "serializers": ["msgpack"] if proxies else rng.choice([["msgpack"], ["msgpack", "json"]]), "own_server": rng.choice(["thread", "lazy"]) if proxies else None}


class Host:
    def __init__(self, ctx, rng, kinds):
        self.kind = rng.choice(kinds)
        self.server = make_server(self.kind, ctx.seed if rng.random() < .5 else None)
        self.address = self.server.address
        self.c = RPCClient.get_client(self.address)
        self.c["side"] = self.c._import("vf.names").Side()


    def close(self):
        self.server.close()


def s_threads(ctx):
    """All clients in this process."""
    rng = ctx.rng
    if ctx.params.get("w", 0) % 2:
        perturb.enable(ctx.seed, .01, .003)
    host, n = None, 0
    while ctx.more():
        if host is None or n > 12:
            if host is not None:
                host.close()
            host, n = Host(ctx, rng, ["tcp", "tcp", "inproc", "ipc", "lazy", "proc", "qt"]), 0
        n += 1
        plan = plan_for(ctx, rng, host.address)
        clients = rng.choice([2, 3, 4, 6])
        plan["n"] = rng.choice([8, 16, 25]) * 4 // clients
        plan["hold"] = hold = threading.Event()
        what = f"{host.kind} server, {clients} clients, {plan['n']} of {plan['ops']}, values {plan['forms']}, servers of the clients: {plan['own_server']}"
        lines, lock = [], threading.Lock()

        def rec(d):
            with lock:
                lines.append(d)
        # published names stay: prefix them
        pre = uniq()
        plan["names"] = [x + pre for x in plan["names"]]
        cl = [names.Client(k, plan, rec) for k in range(clients)]
        with ctx.guard(100, "hangs", what):
            for c in cl:
                c.start()
            while sum("done" in d for d in lines) < clients and all(c.is_alive() for c in cl):
                time.sleep(.002)
            hold.set()
            for c in cl:
                c.join()
        for c in cl:
            if c.error:
                ctx.violate("unexpected-error", f"{what}: {c.error[-900:]}")
                return
        judge(ctx, what, names.collect(lines))
    if host is not None:
        host.close()


def s_processes(ctx):
    """Clients in several processes, some of which are killed meanwhile."""
    rng = ctx.rng
    while ctx.more():
        host = Host(ctx, rng, ["tcp", "ipc", "lazy", "proc", "qt"])
        for _ in range(2):
            procs = rng.choice([2, 3])
            kill = rng.random() < .5
            plan = plan_for(ctx, rng, host.address, forms=[["str"], ["str", "list"], ["array", "dict"]][rng.randrange(3)] if kill else None)
            pre = uniq()
            plan["names"] = [x + pre for x in plan["names"]]
            plan["n"] = rng.choice([10, 20])
            what = f"{host.kind} server, clients in {procs} processes, {plan['n']} of {plan['ops']}, values {plan['forms']}, servers of the clients: {plan['own_server']}, {'one killed' if kill else 'none killed'}"
            ps, outs = [], []
            with ctx.guard(100, "hangs", what):
                for i in range(procs):
                    pf = os.path.join(TMP, f"plan{uniq()}")
                    with open(pf, "w") as f:
                        n = 400 if kill and i == 0 else plan["n"]
                        json.dump({**plan, "n": n, "clients": [i * 10 + j for j in range(rng.choice([1, 2]) if not (kill and i == 0) else 1)]}, f)
                    outs.append(pf + ".out")
                    ps.append(subprocess.Popen([sys.executable, os.path.join(ROOT, "vf", "names.py"), pf, pf + ".out"], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env={**os.environ, "PYTHONPATH": os.pathsep.join(["/repo", ROOT])}))

                def read(f):
                    return [json.loads(x) for x in open(f).read().splitlines() if x.endswith("}")] if os.path.exists(f) else []
                if kill:
                    while len(read(outs[0])) < 4 and ps[0].poll() is None:
                        time.sleep(.001)
                    time.sleep(rng.random() * .03)
                    ps[0].kill()
                    ps[0].wait()
                rest = list(zip(ps, outs))[1 if kill else 0:]
                for p, f in rest:
                    want = len(json.load(open(f[:-4]))["clients"])
                    while sum("done" in d for d in read(f)) < want and p.poll() is None:
                        time.sleep(.01)
                for p, f in rest:
                    if p.poll() is None:
                        p.stdin.close()
                for p in ps:
                    p.wait()
            lines = [d for f in outs for d in read(f)]
            err = [d["error"] for d in lines if "error" in d]
            for f in outs:
                os.path.exists(f) and os.unlink(f)
                os.unlink(f[:-4])
            codes = [p.returncode for p in ps]
            if err or any(codes[1 if kill else 0:]):
                ctx.violate("unexpected-error", f"{what}: {err[:1] or codes}")
                return
            ops = names.collect([d for d in lines])
            if kill:
                ctx.count("clients killed")
                ops = trim(ops)
            judge(ctx, what, ops)
        host.close()


def trim(ops):
    """A client that was killed has done much before the others began: keep what can matter."""
    start = min((o["t0"] for o in ops if o["c"] != 0), default=0)
    mine = sorted((o for o in ops if o["c"] == 0), key=lambda o: o["t0"])
    drop = set()
    by = {}
    for o in mine:
        by.setdefault(o["name"], []).append(o)
    for h in by.values():
        # all that ended before the last set that overlaps nothing earlier and ended before the start of the others
        last = next((o for o in reversed(h) if o["t1"] < start and o["op"] == "set" and o["err"] is None and not any(x["t0"] < o["t0"] <= x["t1"] for x in h)), None)
        if last is not None:
            drop |= {id(o) for o in h if o["t1"] < last["t0"]}
    return [o for o in ops if id(o) not in drop]
