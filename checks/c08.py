"""C08: proxy options, deferral, equality and printing."""
import copy, pickle, random, threading, time
import teleprox
from teleprox import ObjectProxy, RemoteCallException
from teleprox.client import Future
from vf import opt, wire
from vf.rpc import ThreadServer, RPCClient, in_threads, child, uniq

TECHNIQUE = "runtime monitoring: option model as oracle for each call, count of messages at the zmq boundary for deferral and printing, remote execution log"
NOTE = "Samples combinations of client, proxy and call options, attribute chains and changes; each call and lookup is judged exactly."
LEVEL = "exploration"
RULE = ("One evaluation = one call, lookup, comparison or print that was judged. Distinct = (client default, proxy options, call options, chain length, kind) combinations "
        "and (deferral mode, chain, change, use) combinations.")
ASSUMPTIONS = ["Options are given explicit values or None, which means the default (as a timeout: to wait as long as it takes; a timeout that is set back to None is not combined with a short default timeout of the client).", "Option inheritance is judged for deferred attribute lookups (an undeferred lookup returns a fresh result)."]
SCENARIOS = {
    "options": {"quick": (3, 9), "thorough": (6, 90), "min": 500},
    "defer": {"quick": (3, 9), "thorough": (6, 90), "min": 1000},
    "equality": {"quick": (1, 8), "thorough": (4, 60), "min": 300},
}
LOST = 40


def pick_opts(rng, timeouts=True):
    o = {}
    if rng.random() < .5:
        o["sync"] = rng.choice(["sync", "async", "off"])
    if rng.random() < .5:
        o["return_type"] = rng.choice(["auto", "proxy", "value"])
    if timeouts and rng.random() < .4:
        o["timeout"] = rng.choice([.02, 5.0, 20])
    if rng.random() < .2:
        o["safe_print"] = True
    return o


def s_options(ctx):
    """call options > options of the proxy (inherited by attributes) > client defaults > defaults."""
    w = ctx.params.get("w", 0)
    s = ThreadServer(["tcp", "inproc", "ipc"][w % 3])

    def body():
        rng = ctx.rng
        c = RPCClient(s.address, serializer=["msgpack", "json"][w % 2])
        home = c._import("vf.opt").Server()
        ctl = home.node()  # proxies made before options were changed keep the defaults
        n = 0
        while ctx.more():
            n += 1
            dflt = pick_opts(rng) if rng.random() < .6 else {}
            c.default_proxy_options = dict(dflt)
            root = home.nested(ctl)[rng.choice([0])] if rng.random() < .3 else home.back(ctl)
            own = {k: v for k, v in pick_opts(rng).items()} if rng.random() < .6 else {}
            eff = {"sync": "sync", "return_type": "auto", "timeout": 10, **dflt}
            chain = [rng.choice("ab") for _ in range(rng.randrange(4))]
            cut = rng.randrange(len(chain) + 1)
            p, q = root, ctl
            # options that are set back to None after they had a value
            before = {k: v for k, v in pick_opts(rng).items() if k != "safe_print" and k not in own and (k != "timeout" or k not in dflt)} if rng.random() < .25 else {}
            reset = dict.fromkeys(before)
            if before:
                ctx.count("reset_options")
            when = rng.choice(["at once", "root", "split"])
            if when != "at once":
                root._set_proxy_options(**before)
            if when == "root":
                root._set_proxy_options(**reset)
            elif when == "at once" and cut == 0:
                root._set_proxy_options(**before)
                root._set_proxy_options(**reset)
            own.update(reset if when == "split" else {})
            for i, x in enumerate(chain):
                if i == cut:
                    p._set_proxy_options(**own)
                p, q = getattr(p, x), getattr(q, x)
            if cut == len(chain):
                p._set_proxy_options(**own)
            eff.update({k: v for k, v in own.items() if v is not None or k == "timeout"})
            if when != "split" and "timeout" in reset:
                eff["timeout"] = None if when == "root" or cut == 0 else eff["timeout"]
            meth = rng.choice(["ident", "value", "me", "fail", "slow", "ident"])
            m = getattr(p, meth)
            if rng.random() < .2:
                extra = pick_opts(rng)
                m._set_proxy_options(**extra)
                eff.update(extra)
            call = {"_" + k: v for k, v in pick_opts(rng).items() if k != "safe_print"}
            if rng.random() < .15:
                call["_timeout"] = rng.choice([None, None, 0])  # wait as long as it takes / do not wait
            eff.update({k[1:]: v for k, v in call.items()})
            tok = f"k{n}"
            what = f"default {dflt}, proxy {own} at {cut} of {chain}, call {call}: {meth}"
            delay = rng.choice([0, .12]) if meth == "slow" else 0
            args = (delay, tok) if meth == "slow" else (tok,)
            ctx.sig(sorted(dflt.items()), sorted(own.items()), sorted(call.items()), len(chain), cut, meth)
            with ctx.guard(LOST + 20, "no-answer", what):
                t0 = time.monotonic()
                try:
                    r, err = m(*args, **call), None
                except Exception as e:
                    r, err = None, e
                dt = time.monotonic() - t0
                c.default_proxy_options = {}
                judge(ctx, c, what, eff, meth, delay, tok, r, err, dt, q, chain)
        c.close()
    in_threads([body])
    s.close()


def judge(ctx, c, what, eff, meth, delay, tok, r, err, dt, q, chain):
    if eff["sync"] == "off":
        ctx.check(err is None and r is None, "sync-option", f"{what}: without reply gave {r!r:.200} {err!r:.200}")
        ctx.check(q.get_log(_timeout=LOST).count(tok) == 1, "sync-option", f"{what}: request without reply executed {q.get_log().count(tok)} times")
        return
    if eff["sync"] == "async":
        ok = ctx.check(err is None and isinstance(r, Future), "sync-option", f"{what}: asynchronous call gave {type(r).__name__} {err!r:.200}")
        if delay:
            # (a loaded machine can delay a few calls)
            ctx.blocked = getattr(ctx, "blocked", 0) + 1 if dt >= delay * .95 else 0
            ctx.check(ctx.blocked < 5, "sync-option", f"{what}: asynchronous calls take as long as the remote function ({dt:.3f} s)")
        if not ok:
            return
        try:
            r = r.result(timeout=LOST)
        except RemoteCallException as e:
            err = e
    else:
        ctx.check(not isinstance(r, Future), "sync-option", f"{what}: synchronous call gave a Future")
        if eff["timeout"] is None:
            eff["timeout"] = float("inf")
        if delay and eff["timeout"] < delay:
            ctx.check(isinstance(err, TimeoutError), "timeout-option", f"{what}: expected a TimeoutError after {eff['timeout']} s, got {r!r:.100} {err!r:.200} after {dt:.3f} s")
            q.ident()
            return
        if isinstance(err, TimeoutError):
            if eff["timeout"] <= .05 and dt > eff["timeout"] * .9:
                q.ident()
                return  # the machine was too slow for this short timeout
            ctx.violate("timeout-option", f"{what}: TimeoutError after {dt:.3f} s")
            return
    if meth == "fail":
        ctx.check(isinstance(err, RemoteCallException) and "fail:" + tok in str(err), "wrong-result", f"{what}: {r!r:.100} {err!r:.200}")
        return
    if err is not None:
        ctx.violate("wrong-result", f"{what}: raised {type(err).__name__} {str(err)[-300:]}")
        return
    name = ".".join(["root"] + chain)
    rt = eff["return_type"]
    want_proxy = rt == "proxy" or meth == "me"
    ctx.check(isinstance(r, ObjectProxy) == want_proxy, "return-type-option", f"{what}: result is {type(r).__name__}")
    if isinstance(r, ObjectProxy):
        r._set_proxy_options(sync="sync", return_type="auto", timeout=LOST)
        v = r._get_value() if meth != "me" else r.ident()
    else:
        v = r
    exp = {"ident": name, "value": {"v": [1, tok]}, "me": name, "slow": "slow:" + tok}[meth]
    ctx.check(v == exp, "wrong-result", f"{what}: gave {v!r:.200}, expected {exp!r}")


def s_defer(ctx):
    """When attribute lookups contact the server, and what they denote."""
    wire.install()
    w = ctx.params.get("w", 0)
    s = ThreadServer(["tcp", "inproc", "ipc"][w % 3])

    def body():
        rng = ctx.rng
        c = RPCClient(s.address)
        home = c._import("vf.opt").Server()
        n = 0
        while ctx.more():
            n += 1
            ctl, p = None, home.node()
            ctl = home.back(p)
            by_default = rng.random() < .3
            defer = rng.random() < .6
            if by_default:
                c.default_proxy_options = {"defer_getattr": defer}
                p = home.back(ctl)
                c.default_proxy_options = {}
            elif not defer or rng.random() < .3:
                p._set_proxy_options(defer_getattr=defer)
            chain = [rng.choice("ab") for _ in range(rng.randrange(1, 4))]
            last = rng.choice(["name", "val", "ident", "missing", None, None])
            full = chain + ([last] if last else [])
            use = rng.choice(["value", "call", "none", "print"])
            what = f"defer={defer} {'client default ' if by_default else ''}{'.'.join(full)} use={use}"
            ctx.sig(defer, by_default, tuple(full), use)
            with ctx.guard(LOST + 20, "no-answer", what):
                q, err = p, None
                with wire.Sent() as sent:
                    try:
                        for x in full:
                            if not defer and isinstance(q, ObjectProxy):
                                q._set_proxy_options(defer_getattr=False)
                            q = getattr(q, x)
                    except RemoteCallException as e:
                        err = e
                if defer:
                    ctx.check(sent.n == 0 and err is None, "deferred-lookup-contacts-server", f"{what}: lookup sent {sent.n} messages, {err!r:.200}")
                else:
                    ctx.check(sent.n == len(full), "lookup-not-at-once", f"{what}: {sent.n} messages for {len(full)} lookups")
                    ctx.check((last == "missing") == (err is not None), "lookup-not-at-once", f"{what}: {err!r:.300}")
                    if err is not None:
                        continue
                # the object changes between lookup and use
                k = rng.randrange(len(chain))
                change = rng.choice(["replace", "val", "none"])
                if change == "replace":
                    ctl.replace(chain[:k + 1], "new")
                elif change == "val":
                    ctl.set_val(chain, n)
                changed = change == "replace" and defer
                base = "new" + "".join("." + x for x in chain[k + 1:]) if changed else ".".join(["root"] + chain)
                val = n if change == "val" and defer else 0
                if use == "print":
                    with wire.Sent() as sent:
                        r = repr(q) + str(q) + f"{q}" if isinstance(q, ObjectProxy) else ""
                    ctx.check(sent.n == 0, "print-contacts-server", f"{what}: printing sent {sent.n} messages")
                elif use != "none":
                    try:
                        if last is None:
                            got = q.ident() if use == "call" else q.name._get_value() if isinstance(q.name, ObjectProxy) else q.name
                            ctx.check(got == base, "wrong-attribute", f"{what} change={change}@{k}: denotes {got}, expected {base}")
                        elif last in ("name", "val"):
                            got = q._get_value() if isinstance(q, ObjectProxy) else q
                            exp = base if last == "name" else val
                            ctx.check(got == exp, "wrong-attribute", f"{what} change={change}@{k}: value {got}, expected {exp}")
                        elif last == "ident":
                            got = q()
                            ctx.check(got == base, "wrong-attribute", f"{what} change={change}@{k}: method of {got}, expected {base}")
                        else:
                            got = q() if use == "call" else q._get_value()
                            ctx.violate("missing-attribute", f"{what}: use of a missing attribute gave {got!r:.200}")
                    except RemoteCallException as e:
                        ctx.check(last == "missing" and e.type_str == "AttributeError", "wrong-attribute", f"{what}: {str(e)[-300:]}")
                # names of attributes do not leak into the parent
                ctx.check(ctl.ident() == "root", "wrong-attribute", f"{what}: the parent proxy denotes something else")
        c.close()
    in_threads([body])
    s.close()


def same_ids(ctx):
    """Objects of two processes that happen to have the same id() are different objects."""
    procs = [child(), child()]
    try:
        ps = []
        for n, pr in enumerate(procs):
            ps.append(pr.client._import("vf.opt").Server().fixed(n + .5, _return_type="proxy"))
        x, z = ps
        ctx.sig("same id", x._obj_id == z._obj_id)
        for a, b, v in [(x, z, .5), (z, x, 1.5)]:
            with ctx.guard(LOST + 20, "no-answer", "equality"):
                e = a == b
                ctx.check(e == ["eq", v, "ObjectProxy"], "remote-comparison", f"== of objects in different processes (ids {a._obj_id:x}, {b._obj_id:x}) gave {e!r}")
                ctx.check((a == copy.copy(a)) is True and hash(a) == hash(copy.copy(a)), "equal-proxies", "proxies of the same object")
                ctx.check([a.hex(), b.hex()] == [v.hex(), (2 - v).hex()], "wrong-object", "objects with the same id in different processes")
    finally:
        for pr in procs:
            pr.stop()


def s_equality(ctx):
    """Equality, hashing, comparisons, printing."""
    wire.install()
    s, s2 = ThreadServer(), ThreadServer()

    def body():
        rng = ctx.rng
        same_ids(ctx)
        c, c2 = RPCClient(s.address), RPCClient(s2.address)
        home, home2 = c._import("vf.opt").Server(), c2._import("vf.opt").Server()
        while ctx.more():
            v = rng.choice([1, "odd", 2.5])
            x, y = home.cmp(v), home.cmp(rng.choice([v, 9]))
            others = [home.back(x), home.nested(x)[0], home.nested(x)[1]["k"][0], copy.copy(x), pickle.loads(pickle.dumps(x))]
            path = [rng.choice(["v", "other", "n", "a"]) for _ in range(rng.randrange(3))]

            def walk(p):
                for a in path:
                    p = getattr(p, a)
                return p
            q = rng.choice(others)
            if rng.random() < .4:
                q._set_proxy_options(**pick_opts(rng))
            with ctx.guard(LOST + 20, "no-answer", "equality"):
                with wire.Sent() as sent:
                    ok = walk(x) == walk(q) and hash(walk(x)) == hash(walk(q)) and len({walk(x): 1, walk(q): 2}) == 1
                ctx.check(ok is True and sent.n == 0, "equal-proxies", f"proxies of the same object and path {path}: equal and same hash: {ok}, {sent.n} messages")
                r = rng.random()
                ctx.sig(tuple(path), type(v).__name__, int(r * 8))
                vy = y.v._get_value()
                if r < .25:
                    with wire.Sent() as sent:
                        e = x == y
                    ctx.check(e is (v == vy) and sent.n == 1, "remote-comparison", f"== of different objects ({v!r}, {vy!r}) gave {e!r} with {sent.n} messages")
                    e = x != y
                    ctx.check(e is (v != vy), "remote-comparison", f"!= of different objects ({v!r}, {vy!r}) gave {e!r}")
                elif r < .5:
                    o = rng.choice([1, "odd", 2.5, 7, None])
                    e, ne = x == o, x != o
                    ctx.check(e is (v == o) and ne == ("ne!" if o == "odd" else v != o), "remote-comparison", f"{v!r} against {o!r}: == {e!r}, != {ne!r}")
                    ctx.check((x < o) == ["lt", v], "remote-comparison", "< is evaluated by the object")
                    ctx.check((o == x) is (v == o), "remote-comparison", f"{o!r} == proxy of {v!r}")
                elif r < .6:
                    # same object, different paths; different server
                    ctx.check((x.v == x) is True, "remote-comparison", "attribute against its parent is decided by the objects")
                    ctx.check((x.n == x.other) is False, "remote-comparison", "different attributes are not equal")
                    z = home2.cmp(v)
                    ctx.check(len({x, z}) == 2 if hash(x) != hash(z) else True, "equal-proxies", "proxies of different servers")
                elif r < .7:
                    # two proxies of one class, function, module, or bound to one name
                    m = rng.choice(["builtins", "os.path", "collections", "vf.opt"])
                    a = {"builtins": ["int", "len", "Exception", "print"], "os.path": ["join", "sep"], "collections": ["OrderedDict", "abc", "abc.Mapping", "deque.popleft"], "vf.opt": ["Server", "Server.back"]}[m]
                    a = rng.choice([None] + a)

                    def get(steps):
                        p = c._import(m)
                        for k in (a or "").split(".") if a else ():
                            p = getattr(p, k)
                        return p._undefer(return_type="proxy") if steps and a else p
                    steps = rng.choice([0, 1, 1, 1])
                    p, q = get(steps), get(steps)
                    with wire.Sent() as sent:
                        ok = p == q and hash(p) == hash(q)
                    ctx.sig("same", m, a, steps)
                    ctx.check(ok is True and sent.n == 0, "equal-proxies", f"proxies of {m} {a}: equal and same hash: {ok}, {sent.n} messages")
                elif r < .8:
                    t = home.node()
                    p = t
                    names = [rng.choice("ab") for _ in range(rng.randrange(4))]
                    for a in names:
                        p = getattr(p, a)
                    with wire.Sent() as sent:
                        text = repr(p) + str(p) + "%s %r" % (p, p)
                    ctx.check(sent.n == 0 and "ObjectProxy" in text and "Node" in text and s.address.decode() in text, "print-contacts-server", f"{text} {sent.n}")
                    if rng.random() < .5:
                        p._set_proxy_options(safe_print=False)
                    else:
                        c.default_proxy_options = {"safe_print": False}
                        with wire.Sent() as sent:
                            p = p.me()
                        ctx.check(sent.n == 1, "print-contacts-server", f"receiving a proxy took {sent.n} messages")
                        c.default_proxy_options = {}
                    full = ".".join(["root"] + names)
                    got = str(p)
                    ctx.check(got == "NODE " + full, "unsafe-print", f"str() gave {got!r} for NODE {full}")
                    got = repr(p)
                    ctx.check(f"<Node {full}>" in got and "ObjectProxy" in got, "unsafe-print", f"repr() gave {got!r} for {full}")
                else:
                    try:
                        x._set_proxy_options(**{rng.choice(["synk", "Timeout", "auto_proxy_args2", "_sync"]): 1})
                        ctx.violate("unknown-option", "an unknown option was accepted")
                    except KeyError:
                        ctx.ev()
        # with the server gone printing, hashing and comparing to itself still work
        q = copy.copy(x)
        c.close_server()
        with wire.Sent() as sent:
            ok = x == q and hash(x) == hash(q) and "Cmp" in repr(x.v.w) + str(x)
        ctx.check(ok and sent.n == 0, "print-contacts-server", f"after the server closed: {ok} {sent.n}")
        c.close()
        c2.close()
    in_threads([body])
    s2.close()
