"""C02: exactly-once, per-client FIFO execution in the server's thread, without overlap."""
import collections, os, random, threading, time
from vf import perturb, targets
from vf.rpc import make_server, RPCClient, RPCServer, in_threads, child, uniq, SERVER_KINDS
from vf.targets import f

TECHNIQUE = "runtime monitoring: offline checker over execution logs recorded by the called object (exactly-once, FIFO, nesting)"
NOTE = ("Samples schedules, request mixes and transports; each recorded execution history is checked completely. No claim about unexplored schedules.")
LEVEL = "exploration"
RULE = ("One evaluation = one request whose number of executions, position in its client's order, thread and nesting were judged from the execution log. "
        "Distinct = (server kind, clients, sync mode, request kind, preceding request's mode and kind) combinations seen.")
ASSUMPTIONS = ["Requests are sent to a server that keeps running until a final synchronous request of each client was answered.",
               "The log is a list the called object appends to; list.append is atomic."]
SCENARIOS = {
    "mix": {"quick": (4, 10), "thorough": (10, 90), "min": 2000},
    "burst": {"quick": (2, 9), "thorough": (6, 60), "min": 5000},
    "patience": {"quick": (1, 9), "thorough": (3, 60), "min": 15},
    "procs": {"quick": (2, 9), "thorough": (6, 60), "min": 500},
}
LOST = 40
MODES = ["sync", "async", "off"]


def issue(ctx, rng, c, rec, tok, mode, kind, futs, cb=None):
    o = {"_sync": mode}
    if mode == "sync":
        o["_timeout"] = LOST
    r = None
    try:
        if kind == "echo":
            r = rec.echo(tok, **o)
        elif kind == "slow":
            r = rec.echo(tok, .004, **o)
        elif kind == "big":
            r = rec(tok, b"x" * rng.choice([10, 3000, 200000]), k={"a": [1, 2]}, **o)
        elif kind == "setitem":
            rec[tok] = 1
        elif kind == "boom":
            r = rec.boom(tok, **o)
        elif kind == "obj":
            r = rec.obj(tok, **o)
        elif kind == "late":
            # the caller gives up before the reply: the request still executes once
            r = rec.echo(tok, .02, _timeout=.001)
        elif kind == "nested":
            r = rec.nested(tok, cb, **o)
    except TimeoutError:
        if kind != "late":
            ctx.violate("no-reply", f"{kind} {mode} {tok}: no reply in {LOST} s")
    except Exception as e:
        if kind not in ("boom",):
            raise
    if mode == "async" and r is not None:
        futs.append(r)


def client_run(ctx, address, name, seed, steps, ser, kinds, sent, modes=MODES, local=False, slow=True):
    rng = random.Random(f"{ctx.seed}/{seed}")
    c = RPCClient(address, serializer=ser, start_local_server=local)
    rec = c["rec"]
    futs = []
    prev = None
    for i in range(steps):
        if i % 16 == 0 and not ctx.more():
            break
        mode = rng.choice(modes)
        kind = rng.choice(kinds)
        if kind in ("setitem", "late"):
            mode = "sync"
        if kind == "nested" and mode == "async":
            mode = "sync"  # nobody would serve the callback in time
        if kind == "nested" and mode == "off":
            kind = "echo"
        tok = f"{name}:{i}"
        sent.append(tok)
        with ctx.guard(LOST + 20, "no-reply", f"{kind} {mode} {tok}"):
            issue(ctx, rng, c, rec, tok, mode, kind, futs, f if local else None)
        ctx.sig(len(kinds), kind, mode, prev, ser)
        prev = (kind, mode)
        if len(futs) > 60:
            for x in futs:
                with ctx.guard(LOST + 20, "no-reply", f"async {tok}"):
                    try:
                        x.result(timeout=LOST)
                    except TimeoutError:
                        ctx.violate("no-reply", f"a future of {name} got no reply in {LOST} s")
                    except Exception:
                        pass
            futs.clear()
    with ctx.guard(LOST + 40, "no-reply", f"final request of {name}"):
        rec.none(f"{name}:end", _timeout=LOST + 20)
    sent.append(f"{name}:end")
    if local:
        RPCServer.get_server().close()
    c.close()


def judge(ctx, what, sents, log, events, ident):
    """sents: {client: [tokens in sending order]}"""
    by = collections.defaultdict(list)
    for tok, tid in log:
        by[tok.rpartition(":")[0]].append(tok)
        ctx.ev()
        if tid != ident:
            ctx.violate("wrong-thread", f"{what}: request {tok} ran in thread {tid}, the server runs in {ident}")
    for name, sent in sents.items():
        got = by.pop(name, [])
        if got != sent:
            n = collections.Counter(got)
            dup = [t for t, k in n.items() if k > 1]
            lost = [t for t in sent if t not in n]
            if dup:
                ctx.violate("executed-twice", f"{what}: executed more than once: {dup[:5]} ({len(dup)} of {len(sent)})")
            elif lost:
                ctx.violate("not-executed", f"{what}: never executed: {lost[:5]} ({len(lost)} of {len(sent)})")
            else:
                i = next(i for i, (a, b) in enumerate(zip(got, sent)) if a != b)
                ctx.violate("order", f"{what}: client {name} sent {sent[i:i+4]} but {got[i:i+4]} ran in that place")
    if by:
        ctx.violate("phantom", f"{what}: executed but never sent: {list(by.items())[:2]}")
    stack, deepest = [], 0
    for e, tok in events:
        if e == "in":
            if stack and stack[-1][1] != "waiting":
                ctx.violate("overlap", f"{what}: {tok} began while {stack[-1][0]} was running (and not waiting for a remote call)")
                return
            stack.append([tok, "running"])
            deepest = max(deepest, len(stack))
        else:
            if not stack or stack[-1][0] != tok:
                ctx.violate("overlap", f"{what}: event {e} of {tok} but the innermost running request is {stack[-1:]}")
                return
            if e == "out":
                stack.pop()
            else:
                stack[-1][1] = "waiting" if e == "wait" else "running"
    ctx.top("max_nesting", deepest)
    ctx.count("executions", len(log))


def run_round(ctx, kind, nclients, steps, kinds, modes=MODES, local=False, perturbed=None):
    s = make_server(kind, perturb_seed=perturbed)
    sents = {}
    fns = []
    for i in range(nclients):
        name = f"{uniq()}c{i}"
        sents[name] = []
        ser = "json" if i % 3 == 1 else "msgpack"
        fns.append(lambda name=name, ser=ser: client_run(ctx, s.address, name, name, steps, ser, kinds, sents[name], modes, local))
    in_threads(fns)
    c = RPCClient.get_client(s.address)
    rec = c["rec"]
    ident = rec.main_ident() if kind in ("proc", "qt") else s.ident
    judge(ctx, f"{kind} server, {nclients} clients", sents, rec.get_log(_timeout=LOST), rec.get_events(_timeout=LOST), ident)
    if s.error:
        ctx.violate("server-died", s.error)
    s.close()
    ctx.sample({"server": kind, "clients": nclients, "first": {k: v[:3] for k, v in sents.items()}})
    ctx.count("rounds")


def s_mix(ctx):
    """All kinds of servers and requests; several clients at once; perturbed schedules."""
    kinds0 = ["echo", "echo", "slow", "big", "setitem", "boom", "obj", "late"]
    order = list(SERVER_KINDS)
    ctx.rng.shuffle(order)
    n = 0
    while ctx.more():
        kind = order[n % len(order)]
        n += 1
        if ctx.params.get("w", 0) % 2:
            perturb.enable(ctx.rng.random(), ctx.rng.choice([.001, .01]), .002)
        local = ctx.rng.random() < .4
        kinds = kinds0 + ["nested", "nested"] if local else kinds0
        run_round(ctx, kind, ctx.rng.choice([1, 2, 4, 6]), ctx.rng.choice([40, 120]), kinds, local=local,
                  perturbed=ctx.seed if ctx.params.get("w", 0) % 2 else None)
        perturb.disable()


def s_burst(ctx):
    """Long bursts of requests without reply (or with unread replies), from several clients, over each transport."""
    n = 0
    while ctx.more():
        kind = ["tcp", "inproc", "ipc", "proc", "lazy", "qt"][(n + ctx.params.get("w", 0) * 3) % 6]
        n += 1
        steps = ctx.rng.choice([300, 2500, 5000])
        s = make_server(kind)
        sents = {}

        def body(name, ser):
            c = RPCClient(s.address, serializer=ser)
            rec = c["rec"]
            mode = ctx.rng.choice(["off", "async", "mixed"])
            size = ctx.rng.choice([0, 0, 800])
            futs = []
            with ctx.guard(150, "no-reply", f"burst of {steps} {mode} requests to a {kind} server"):
                for i in range(steps):
                    tok = f"{name}:{i}"
                    sents[name].append(tok)
                    r = rec(tok, "y" * size, _sync=mode if mode != "mixed" else ["off", "async"][i % 2])
                    if r is not None:
                        futs.append(r)
                sents[name].append(f"{name}:end")
                rec.none(f"{name}:end", _timeout=100)
            ctx.sig("burst", kind, steps, mode, size, ser)
            c.close()
        fns = []
        for i in range(ctx.rng.choice([1, 2, 3])):
            name = f"{uniq()}b{i}"
            sents[name] = []
            fns.append(lambda name=name, i=i: body(name, ["msgpack", "json"][i % 2]))
        in_threads(fns)
        c = RPCClient.get_client(s.address)
        rec = c["rec"]
        ident = rec.main_ident() if kind in ("proc", "qt") else s.ident
        judge(ctx, f"burst at {kind} server", sents, rec.get_log(_timeout=LOST), rec.get_events(_timeout=LOST), ident)
        s.close()


def s_patience(ctx):
    """Requests that take a good part of their timeout, or longer: however long the caller waits, they are executed once."""
    rng = ctx.rng
    kinds = ["tcp", "inproc", "ipc", "tcp", "lazy"]

    def one(i):
        r = random.Random(f"{ctx.seed}/{i}/{rng.random()}")
        kind = r.choice(kinds)
        s = make_server(kind)
        name = f"{uniq()}w"
        sent = []
        c = RPCClient(s.address, serializer=r.choice(["msgpack", "json"]))
        rec = c["rec"]
        end = time.monotonic() + 2.5
        k = 0
        with ctx.guard(150, "no-reply", f"slow requests to a {kind} server"):
            while time.monotonic() < end:
                tok = f"{name}:{k}"
                k += 1
                sent.append(tok)
                t = r.choice([.05, .3, 1.2, 3, 10, None])
                d = min((t or 1) * r.choice([.2, .55, .8, .95, 1.2]), r.choice([.5, 1.5]))
                how = r.choice(["call", "call", "poll", "result"])
                try:
                    if how == "call":
                        rec.echo(tok, d, _timeout=t)
                    else:
                        fut = rec.echo(tok, d, _sync="async")
                        if how == "poll":
                            w = time.monotonic() + d * r.choice([.5, 1.5])
                            while not fut.done() and time.monotonic() < w:
                                time.sleep(.01)
                        else:
                            fut.result(timeout=t)
                except TimeoutError:
                    ctx.count("given up")
                ctx.sig("patience", kind, t, round(d / (t or 1), 1), how)
            sent.append(f"{name}:end")
            rec.none(f"{name}:end", _timeout=100)
        judge(ctx, f"slow requests to a {kind} server", {name: sent}, rec.get_log(_timeout=LOST), rec.get_events(_timeout=LOST), s.ident)
        c.close()
        s.close()
    while ctx.more():
        in_threads([lambda i=i: one(i) for i in range(10)])


def remote_client(address, name, seed, steps):
    """Runs in a child process: sends requests, returns the tokens in sending order."""
    rng = random.Random(seed)
    c = RPCClient(address.encode())
    rec = c["rec"]
    sent = []
    for i in range(steps):
        tok = f"{name}:{i}"
        sent.append(tok)
        k = rng.random()
        if k < .3:
            rec.echo(tok, _timeout=LOST)
        elif k < .6:
            rec.echo(tok, _sync="off")
        elif k < .9:
            rec.echo(tok, _sync="async")
        else:
            rec.boom(tok, _sync="async")
    sent.append(f"{name}:end")
    rec.none(f"{name}:end", _timeout=LOST)
    c.close()
    return sent


def s_procs(ctx):
    """Clients in several processes with one server (in this process, or another one)."""
    kids = [child() for _ in range(3)]
    mods = [k.client._import("checks.c02") for k in kids]
    while ctx.more():
        kind = ctx.rng.choice(["tcp", "ipc", "proc", "lazy", "qt"])
        s = make_server(kind)
        names = [f"{uniq()}k{i}" for i in range(len(kids))]
        steps = ctx.rng.choice([50, 300])
        with ctx.guard(120, "no-reply", f"{len(kids)} processes sending {steps} requests each to a {kind} server"):
            futs = [m.remote_client(s.address.decode(), nm, f"{ctx.seed}{nm}", steps, _sync="async") for m, nm in zip(mods, names)]
            sents = {nm: fu.result(timeout=100) for nm, fu in zip(names, futs)}
        c = RPCClient.get_client(s.address)
        rec = c["rec"]
        ident = rec.main_ident() if kind in ("proc", "qt") else s.ident
        judge(ctx, f"{kind} server, {len(kids)} processes", sents, rec.get_log(_timeout=LOST), rec.get_events(_timeout=LOST), ident)
        ctx.sig("procs", kind, steps)
        s.close()
    for k in kids:
        k.stop()
