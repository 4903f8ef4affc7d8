"""C06: remote objects live exactly as long as a proxy may refer to them."""
import copy, gc, os, pickle, queue, random, sys, threading, time
import teleprox
from teleprox import RemoteCallException
from vf import life
from vf.rpc import ThreadServer, RPCClient, in_threads, child, uniq

TECHNIQUE = "runtime monitoring: reference model of live proxy references against weak references observed in the server"
NOTE = "Samples histories of proxies over several clients; alive/dead state and the identity behind each proxy are compared with an exact model."
LEVEL = "exploration"
RULE = ("One evaluation = one comparison with the model (object alive or released, identity behind a proxy, error of a deleted proxy). "
        "Distinct = (server, operation, preceding operation, live references of the object, kind of reference) combinations.")
ASSUMPTIONS = ["CPython reference counting: an unreferenced object is released at once or by gc.collect().", "A proxy is used and collected in the thread of its client."]
SCENARIOS = {
    "history": {"quick": (4, 9), "thorough": (10, 120), "min": 1500},
    "race": {"quick": (2, 8), "thorough": (6, 90), "min": 200},
    "auto": {"quick": (2, 8), "thorough": (4, 60), "min": 200},
    "garbage": {"quick": (1, 8), "thorough": (3, 60), "min": 100},
}
LOST = 40


class Agent:
    """A thread with its own client; runs functions one by one for the controller."""

    def __init__(self, address, ser):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.address, self.ser = address, ser
        threading.Thread(target=self._run, daemon=True).start()
        self.run(lambda: None)

    def _run(self):
        self.client = RPCClient(self.address, serializer=self.ser)
        self.reg = self.client["reg"]
        while True:
            fn = self.q.get()
            if fn is None:
                self.reg = None
                self.client.close()
                return
            try:
                self.r.put((fn(), None))
            except Exception as e:
                e.__traceback__ = None
                self.r.put((None, e))
            fn = None

    def run(self, fn):
        self.q.put(fn)
        fn = None
        v, e = self.r.get()
        if e is not None:
            raise e
        return v


class Handle:
    """One proxy in one agent (several handles may share a reference)."""

    def __init__(self, agent, proxy, tag, ref, kind):
        self.agent, self.proxy, self.tag, self.ref, self.kind = agent, proxy, tag, ref, kind


def wait_released(reg_alive, tags):
    end = time.monotonic() + 5
    while True:
        a = reg_alive(tags, True)
        if not any(a) or time.monotonic() > end:
            return a
        time.sleep(.02)


def s_history(ctx):
    """Random histories executed step by step by several clients; exact model."""
    w = ctx.params.get("w", 0)
    proc = w % 2 == 1
    s = child() if proc else ThreadServer(["tcp", "inproc", "tcp", "ipc"][w % 4])
    address = s.client.address if proc else s.address
    if proc:
        s.client["reg"] = s.client._import("vf.life").Registry()
    else:
        s["reg"] = life.Registry()
    agents = [Agent(address, "msgpack"), Agent(address, "msgpack"), Agent(address, "json")]
    third = child() if not (not proc and w % 4 == 1) else None
    holder = third.client._import("vf.life").Holder() if third else None
    main = RPCClient.get_client(address)
    mreg = main["reg"]
    rng = ctx.rng
    live = {}     # tag -> set of live refs
    kept = set()
    handles = []  # Handle whose ref is live
    dead = []     # Handles whose reference was deleted
    held = []     # (name, tag, ref) copies in the third process
    dead_held = []
    nref, ntag, prev = 0, 0, None

    def newref(tag):
        nonlocal nref
        nref += 1
        live.setdefault(tag, set()).add(nref)
        return nref

    def kill(ref):
        nonlocal handles, held
        for h in handles:
            if h.ref == ref:
                dead.append(h)
        handles = [h for h in handles if h.ref != ref]
        dead_held.extend(x for x in held if x[2] == ref)
        held = [x for x in held if x[2] != ref]
        for t in live:
            live[t].discard(ref)

    def check_state(tags, why):
        tags = [t for t in tags if t in live]
        if not tags:
            return
        want = [bool(live[t]) or t in kept for t in tags]
        got = mreg.alive(tags, _timeout=LOST)
        if any(g and not w_ for g, w_ in zip(got, want)):
            gone = [t for t, w_ in zip(tags, want) if not w_]
            wait_released(lambda x, c: mreg.alive(x, c, _timeout=LOST), gone)
            got = mreg.alive(tags, _timeout=LOST)
        for t, g, w_ in zip(tags, got, want):
            ctx.ev()
            if g and not w_:
                ctx.violate("object-not-released", f"{why}: object {t} has no proxies left but is still alive")
            if w_ and not g:
                ctx.violate("object-lost", f"{why}: object {t} still has {len(live[t])} proxies (kept: {t in kept}) but was released")

    def expect_error(fn, why, tag):
        try:
            r = fn()
        except RemoteCallException:
            ctx.ev()
            return
        except Exception as e:
            ctx.violate("wrong-error", f"{why}: {type(e).__name__} {e}")
            return
        ctx.ev()
        ctx.violate("deleted-proxy-usable", f"{why}: a deleted proxy of {tag} was accepted and gave {r!r:.200}")

    while ctx.more():
        ops = ["make", "make", "again", "again_in", "use", "use", "use", "attr", "copy", "pass", "delete", "delete", "delete", "use_dead", "use_dead", "delete_dead",
               "keep", "unkeep", "churn", "check", "me", "value", "use_held", "back", "delete_held", "use_dead_held", "sub"]
        if len(handles) > 40:
            ops = ["delete"] * 5 + ["use", "use_dead"]
        op = rng.choice(ops)
        h = rng.choice(handles) if handles else None
        d = rng.choice(dead[-30:]) if dead else None
        a = rng.choice(agents)
        why = f"{'proc' if proc else 'thread'} {prev}->{op}"
        tag = h.tag if h else None
        with ctx.guard(LOST + 20, "no-answer", why):
            try:
                if op == "make":
                    ntag += 1
                    tag = f"o{w}-{ntag}"
                    slot = rng.random() < .6
                    p = a.run(lambda: a.reg.make(tag, slot, _timeout=LOST))
                    handles.append(Handle(a, p, tag, newref(tag), "slot" if slot else "obj"))
                    got = a.run(lambda: p.which())
                    ctx.check(got == tag, "wrong-object", f"{why}: proxy of new object {tag} reaches {got}")
                    p = None
                elif op == "again" and h:
                    p = a.run(lambda: a.reg.again(tag))
                    handles.append(Handle(a, p, tag, newref(tag), h.kind))
                    ctx.check(a.run(lambda: a.reg.same(p, tag)) is True, "wrong-object", f"{why}: another proxy of {tag} is another object")
                    p = None
                elif op == "again_in" and h:
                    r = a.run(lambda: a.reg.again_in(tag))
                    ps = [r["a"][0], r["a"][1][0]]
                    for p in ps:
                        handles.append(Handle(a, p, tag, newref(tag), h.kind))
                        ctx.check(a.run(lambda: p.which()) == tag, "wrong-object", f"{why}: nested proxy of {tag} is another object")
                    r = ps = p = None
                elif op == "use" and h:
                    got = h.agent.run(lambda: h.proxy.which(_timeout=LOST))
                    ctx.check(got == tag, "wrong-object", f"{why}: live proxy of {tag} reaches {got}")
                elif op == "value" and h:
                    got = h.agent.run(lambda: (h.agent.reg.which(h.proxy), h.agent.reg.same(h.proxy, tag)))
                    ctx.check(list(got) == [tag, True], "wrong-object", f"{why}: live proxy of {tag} sent home is {got}")
                elif op == "attr" and h:
                    p = h.agent.run(lambda: h.proxy.which)
                    ctx.check(h.agent.run(lambda: p()) == tag, "wrong-object", f"{why}: attribute of {tag}")
                    p = None
                elif op == "sub" and h and h.kind == "obj":
                    got = h.agent.run(lambda: h.proxy.sub.which())
                    ctx.check(got == tag + ".sub", "wrong-object", f"{why}: {tag}.sub reaches {got}")
                elif op == "me" and h and h.kind == "obj":
                    p = h.agent.run(lambda: h.proxy.me())
                    handles.append(Handle(h.agent, p, tag, newref(tag), h.kind))
                    p = None
                elif op == "copy" and h:
                    p = h.agent.run(lambda: copy.copy(h.proxy) if rng.random() < .5 else pickle.loads(pickle.dumps(h.proxy)))
                    handles.append(Handle(h.agent, p, tag, h.ref, h.kind))
                    p = None
                elif op == "pass" and h:
                    if third and rng.random() < .6:
                        name = f"h{ctx.seed}-{nref}-{uniq()}"
                        # the main thread relays a copy of the proxy
                        p = pickle.loads(pickle.dumps(h.proxy))
                        holder.put(name, p)
                        p = None
                        held.append((name, tag, h.ref))
                    else:
                        p = pickle.loads(pickle.dumps(h.proxy))
                        handles.append(Handle(a, p, tag, h.ref, h.kind))
                        p = None
                elif op == "use_held" and held:
                    name, tag, ref = rng.choice(held)
                    got = holder.use(name, _timeout=LOST)
                    ctx.check(got == tag, "wrong-object", f"{why}: copy of a live proxy of {tag} in a third process reaches {got}")
                elif op == "back" and held:
                    name, tag, ref = rng.choice(held)
                    p = holder.send_back(name, _timeout=LOST)
                    got = main["reg"].same(p, tag)
                    ctx.check(got is True, "wrong-object", f"{why}: proxy of {tag} returned by a third process is another object")
                    p = None
                elif op == "delete_held" and held:
                    name, tag, ref = rng.choice(held)
                    holder.delete(name, _timeout=LOST)
                    kill(ref)
                    check_state([tag], why)
                elif op == "use_dead_held" and dead_held:
                    name, tag, ref = rng.choice(dead_held[-20:])
                    expect_error(lambda: holder.use(name), why, tag)
                elif op == "delete" and h:
                    sync = rng.choice(["sync", "sync", "async", "off"])
                    h.agent.run(lambda: h.proxy._delete(sync=sync))
                    # a synchronous request of the same client comes after it
                    h.agent.run(lambda: h.agent.client.ping())
                    kill(h.ref)
                    check_state([tag] + rng.sample(sorted(live), min(3, len(live))), why + " " + sync)
                elif op == "use_dead" and d:
                    tag = d.tag
                    how = rng.choice(["call", "attr", "arg", "item", "value", "set"])
                    fn = {"call": lambda: d.proxy.which(), "attr": lambda: d.proxy.tag._get_value(), "arg": lambda: d.agent.reg.which(d.proxy), "item": lambda: d.proxy[0],
                          "value": lambda: d.proxy._get_value(), "set": lambda: setattr(d.proxy, "tag", "damaged")}[how]
                    expect_error(lambda: d.agent.run(fn), f"{why} {how}", tag)
                    fn = None
                elif op == "delete_dead" and d:
                    tag = d.tag
                    expect_error(lambda: d.agent.run(lambda: d.proxy._delete()), why, tag)
                    check_state([tag], why)
                elif op == "keep" and h:
                    h.agent.run(lambda: h.agent.reg.keep(h.proxy))
                    kept.add(tag)
                elif op == "unkeep" and kept:
                    tag = rng.choice(sorted(kept))
                    a.run(lambda: a.reg.unkeep(tag))
                    kept.discard(tag)
                    check_state([tag], why)
                elif op == "churn":
                    a.run(lambda: a.reg.churn(rng.choice([1, 10, 50])))
                elif op == "check":
                    check_state(sorted(live), why)
                else:
                    continue
            except (RemoteCallException, AttributeError, KeyError, TypeError, RuntimeError, TimeoutError) as e:
                ctx.violate("live-proxy-fails", f"{why} on {tag}: {type(e).__name__} {str(e)[-500:]}")
        ctx.sig(proc, w % 4, op, prev, min(len(live.get(tag, ())), 4), h.kind if h else None)
        prev = op
        if len(live) > 400:
            for t in [t for t in live if not live[t] and t not in kept][:200]:
                del live[t]
    check_state(sorted(live), "end")
    ctx.count("references", nref)
    for a in agents:
        a.q.put(None)
    time.sleep(.1)
    third.stop() if third else None
    s.stop() if proc else s.close()


def s_race(ctx):
    """Several clients obtain and delete references to the same few objects concurrently."""
    w = ctx.params.get("w", 0)
    s = ThreadServer()
    reg = life.Registry()
    s["reg"] = reg
    rounds = 0
    while ctx.more():
        rounds += 1
        tags = [f"r{rounds}-{i}" for i in range(4)]
        left = [[] for _ in range(4)]
        owner = [reg.make(t) for t in tags]   # kept by this side until everybody has a reference
        n0 = [0]

        barrier = threading.Barrier(5)
        b2 = threading.Barrier(5)

        def body(i):
            rng = random.Random(f"{ctx.seed}/{rounds}/{i}")
            c = RPCClient(s.address, serializer=["msgpack", "json"][i % 2])
            r = c["reg"]
            mine = {t: [r.again(t)] for t in tags}
            barrier.wait(LOST)
            for _ in range(rng.randrange(5, 40)):
                t = rng.choice(tags)
                if mine[t] and rng.random() < .5:
                    ctx.check(mine[t][-1].which() == t, "wrong-object", f"race: proxy of {t}")
                    if rng.random() < .7 and len(mine[t]) > 1:
                        p = mine[t].pop(rng.randrange(len(mine[t])))
                        p._delete(sync=rng.choice(["sync", "async", "off"]))
                else:
                    mine[t].append(r.again(t))
                if rng.random() < .3:
                    q = r.make(f"x{i}-{uniq()}", True)
                    ctx.check(q.which().startswith(f"x{i}-"), "wrong-object", "race: new object")
                    q._delete(sync="off")
            # each client keeps at least one reference to some objects
            for t in tags:
                while mine[t] and (rng.random() < .6 or int(t[-1]) == i):
                    mine[t].pop()._delete(sync=rng.choice(["sync", "off"]))
            c.ping()
            left[i] = [t for t in tags if mine[t]]
            b2.wait(LOST)   # all have deleted what they delete
            b2.wait(LOST)   # state was checked
            for t in tags:
                for p in mine[t]:
                    ctx.check(p.which() == t, "wrong-object", f"race: remaining proxy of {t}")
                    p._delete()
            b2.wait(LOST)
            c.close()
        ths = [threading.Thread(target=_safe, args=(ctx, body, i, (barrier, b2)), daemon=True) for i in range(4)]
        for t in ths:
            t.start()
        with ctx.guard(LOST + 20, "no-answer", "race"):
            try:
                barrier.wait(LOST)
                owner = None
                b2.wait(LOST)
                for t in tags:
                    want = any(t in l for l in left)
                    if not want:
                        wait_released(reg.alive, [t])
                    got = reg.refs[t]() is not None
                    ctx.check(got == want, "object-lost" if want else "object-not-released", f"race: object {t} alive={got} but proxies left={want}")
                b2.wait(LOST)
                b2.wait(LOST)
                a = wait_released(reg.alive, tags)
                ctx.check(not any(a), "object-not-released", f"race: all proxies deleted but alive: {[t for t, x in zip(tags, a) if x]}")
            except threading.BrokenBarrierError:
                pass
            for t in ths:
                t.join(LOST)
        ctx.sig(tuple(len(l) for l in left))
        reg.refs.clear()
    s.close()


def _safe(ctx, body, i, barriers):
    try:
        body(i)
    except threading.BrokenBarrierError:
        pass
    except Exception as e:
        for b in barriers:
            b.abort()
        ctx.violate("live-proxy-fails", f"race client {i}: {type(e).__name__} {str(e)[-500:]}")


def s_garbage(ctx):
    """Proxies with auto_delete in reference cycles: they are collected at any moment, in the middle of other requests of their client too."""
    import zmq
    from vf import perturb
    rng = ctx.rng
    s = ThreadServer("tcp")
    s["reg"] = life.Registry()
    s["echo"] = life.echo
    unraisable = []
    sys.unraisablehook = lambda u: unraisable.append(f"{u.exc_type.__name__}: {str(u.exc_value)[-300:]}")
    gc.collect()
    gc.disable()
    me = [None]
    prob = [0]
    done = [0]

    def act():
        if threading.get_ident() == me[0] and rng.random() < prob[0]:
            prob[0] = 0
            done[0] += gc.collect(1)

    class Node:
        pass

    def body():
        me[0] = threading.get_ident()
        n = 0
        while ctx.more():
            n += 1
            c = RPCClient(s.address, serializer=rng.choice(["msgpack", "json"]))
            reg, echo = c["reg"], c["echo"]
            tags = []
            for k in range(rng.choice([1, 3, 8, 30])):
                count = rng.choice([1, 1, 2, 10])
                what = f"garbage {n}.{k}: {count} proxies"
                with ctx.guard(LOST + 20, "no-answer", what):
                    for i in range(count):
                        tag = f"g{n}.{k}.{i}"
                        node = Node()
                        node.node = node
                        node.proxy = reg.make(tag, rng.random() < .5)
                        node.proxy._set_proxy_options(auto_delete=True)
                        if rng.random() < .3:
                            node.proxy.which()
                        tags.append(tag)
                    node = None
                    prob[0] = rng.choice([.005, .02, .1, .5])
                    futs = []
                    for i in range(rng.choice([1, 5, 20])):
                        mode = rng.choice(["sync", "sync", "async", "off", "get", "len"])
                        tok = f"{what} {i}"
                        try:
                            if mode == "sync":
                                ctx.check(echo(tok) == tok, "wrong-object", f"{what}: reply of another request")
                            elif mode == "async":
                                futs.append((tok, echo(tok, _sync="async")))
                            elif mode == "off":
                                echo(tok, _sync="off")
                            elif mode == "get":
                                ctx.check(c["reg"] == reg, "wrong-object", what)
                            elif mode == "len":
                                ctx.check(echo([1, 2]) == [1, 2], "wrong-object", what)
                        except (TimeoutError, RuntimeError, RemoteCallException) as e:
                            return ctx.violate("live-proxy-fails", f"{what}: a request of mode {mode} failed while proxies were collected: {type(e).__name__} {str(e)[-300:]}")
                    for tok, f in futs:
                        try:
                            ctx.check(f.result(timeout=LOST) == tok, "wrong-object", f"{what}: reply of another request")
                        except Exception as e:
                            return ctx.violate("live-proxy-fails", f"{what}: a future failed while proxies were collected: {type(e).__name__} {str(e)[-300:]}")
                    ctx.count("collected during requests", prob[0] == 0)
                    prob[0] = 0
                ctx.sig("garbage", count, len(futs))
            gc.collect(1)
            c.ping(timeout=LOST)
            alive = reg.alive(tags, True, _timeout=LOST)
            ctx.ev(len(tags))
            ctx.check(not any(alive), "object-not-released", f"garbage {n}: {sum(alive)} of {len(tags)} objects are alive although their proxies were collected")
            if unraisable:
                ctx.violate("auto-delete-error", f"garbage {n}: {unraisable[0]}")
                unraisable.clear()
            reg = echo = None
            c.close()
    perturb.enable(rng.random(), act=act, more=(os.path.dirname(zmq.sugar.__file__),))
    try:
        in_threads([body])
    finally:
        perturb.disable()
        gc.enable()
    ctx.count("objects collected", done[0])
    s.close()


def s_auto(ctx):
    """Proxies with auto_delete: each releases its own reference once, when it is collected."""
    w = ctx.params.get("w", 0)
    unraisable = []
    sys.unraisablehook = lambda u: unraisable.append(f"{u.exc_type.__name__}: {str(u.exc_value)[-300:]}")
    proc = w % 2 == 1
    s = child() if proc else ThreadServer()
    address = s.client.address if proc else s.address
    main = RPCClient.get_client(address)
    if proc:
        main["reg"] = main._import("vf.life").Registry()
    else:
        s["reg"] = life.Registry()
    reg0 = main["reg"]

    def body():
        rng = ctx.rng
        n = 0
        c = RPCClient(address, serializer="json" if proc and rng.random() < .5 else "msgpack")
        while ctx.more():
            n += 1
            tag = f"a{n}"
            by_client = rng.random() < .5
            c.default_proxy_options = {"auto_delete": True} if by_client else {}
            reg = c["reg"]
            p = reg.make(tag, rng.random() < .5)
            if not by_client:
                p._set_proxy_options(auto_delete=True)
            c.default_proxy_options = {}
            others = [reg.again(tag) for _ in range(rng.choice([0, 0, 1, 2]))]
            hist = []
            alive = lambda: reg0_alive(tag)
            with ctx.guard(LOST + 20, "no-answer", "auto"):
                for _ in range(rng.randrange(0, 5)):
                    k = rng.choice(["attr", "meth", "chain", "tmpattr", "copy", "self", "collect", "send", "future"])
                    hist.append(k)
                    if k == "attr":
                        q = p.tag
                        ctx.check(q._get_value() == tag, "wrong-object", f"auto {hist}")
                        q = None
                    elif k == "meth":
                        m = p.which
                        gc.collect()
                        ctx.check(m() == tag, "wrong-object", f"auto {hist}")
                        m = None
                    elif k == "chain":
                        q = p.which.__self__.which
                        ctx.check(q() == tag, "wrong-object", f"auto {hist}")
                        q = None
                    elif k == "tmpattr":
                        # the parent goes away first
                        r = reg.again(tag)
                        r._set_proxy_options(auto_delete=True)
                        q = r.which
                        r = None
                        gc.collect()
                        ctx.check(q() == tag, "wrong-object", f"auto {hist}: attribute outlives its parent")
                        q = None
                    elif k == "copy":
                        q = copy.copy(p)
                        ctx.check(q.which() == tag, "wrong-object", f"auto {hist}")
                        q = None
                    elif k == "self":
                        q = reg.again(tag)
                        q._set_proxy_options(auto_delete=True)
                        q = None
                    elif k == "send":
                        ctx.check(reg.same(p, tag) is True, "wrong-object", f"auto {hist}")
                    elif k == "future":
                        f = reg.again(tag, _sync="async")
                        q = f.result(timeout=LOST)
                        q._set_proxy_options(auto_delete=True)
                        f = q = None
                    gc.collect()
                    ctx.check(reg0_alive(c, tag) is True, "object-lost", f"auto {hist}: object was released although its proxy is alive")
                    ctx.check(p.which() == tag, "wrong-object", f"auto {hist}: proxy stopped working")
                p = None
                gc.collect()
                if others:
                    ctx.check(reg0_alive(c, tag) is True, "object-lost", f"auto {hist}: object was released although {len(others)} proxies are left")
                    for q in others:
                        ctx.check(q.which() == tag, "wrong-object", f"auto {hist}")
                    for q in others:
                        q._delete()
                    q = None
                t = time.monotonic() + 5
                while reg0_alive(c, tag, True) and time.monotonic() < t:
                    time.sleep(.02)
                ctx.check(reg0_alive(c, tag, True) is False, "object-not-released", f"auto {hist}: no proxy is left ({'client default' if by_client else 'proxy option'})")
            ctx.sig(proc, by_client, len(others), tuple(hist))
            if unraisable:
                ctx.violate("auto-delete-error", f"auto {hist}: {unraisable[0]}")
        reg = None
        gc.collect()
        c.close()

    def reg0_alive(c, tag, collect=False):
        return c["reg"].alive([tag], collect, _timeout=LOST)[0]
    try:
        in_threads([body])
    except RemoteCallException as e:
        ctx.violate("live-proxy-fails", f"auto: {str(e)[-600:]}")
    s.stop() if proc else s.close()
