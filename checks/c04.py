"""C04: by value or by proxy as documented; objects return home as themselves."""
import random, threading
import numpy as np
import teleprox
from vf import hub as H, values
from vf.rpc import ThreadServer, RPCClient, RPCServer, in_threads, child, uniq
from teleprox import ObjectProxy
from teleprox.serializer import default_serialize_types

TECHNIQUE = "runtime monitoring: type/identity oracle evaluated at the receiving and at the owning side of generated transfers and relay paths"
NOTE = "Samples nested values, relay paths over threads and processes, and configurations; every transfer is judged exactly."
LEVEL = "exploration"
RULE = ("One evaluation = one leaf of a transferred value (by value or by proxy, of which server, which object) or one arrival at home judged. "
        "Distinct = (scenario, serializer, direction, structure) / (owner kind, path of hops with containers, attribute path) combinations.")
ASSUMPTIONS = ["Only types documented as serializable are expected by value; subclasses of container types are not generated.",
               "Proxies are not deleted meanwhile."]
SCENARIOS = {
    "types": {"quick": (2, 8), "thorough": (6, 90), "min": 500},
    "config": {"quick": (1, 8), "thorough": (3, 40), "min": 80},
    "relay": {"quick": (3, 10), "thorough": (8, 120), "min": 150},
}
LOST = 40


def close_local():
    """A lazily run server would otherwise outlive its thread (and be found by a later thread with the same id)."""
    if RPCServer.get_server() is not None:
        RPCServer.get_server().close()


def gen_spec(rng, depth=0, json=False):
    k = rng.random()
    if depth >= 3 or k < .25:
        return ("v", values.leaf(rng, json) if rng.random() < .9 else rng.choice([None, 1, "x"]))
    if k < .55:
        return ("o", rng.choice([k for k in sorted(H.EXOTIC) if json or k not in ("bytearray", "memview")]))
    n = rng.choice([0, 1, 2, 3])
    if k < .7:
        return ("l", [gen_spec(rng, depth + 1, json) for _ in range(n)])
    if k < .85:
        return ("t", [gen_spec(rng, depth + 1, json) for _ in range(n)])
    return ("d", {f"k{i}": gen_spec(rng, depth + 1, json) for i in range(n)})


def shape_of(spec):
    k, x = spec
    if k == "v":
        return type(x).__name__
    if k == "o":
        return "o:" + x
    return k, [shape_of(s) for s in (x if k != "d" else x.values())]


def expected(spec, owner, json=False, valued=False):
    """Description of the value as the receiving side must see it."""
    k, x = spec
    if k == "v":
        return H.describe(values.as_json(x) if json else x)
    if k == "o":
        return ["valued", "v"] if valued and x == "valued" else ["proxy", owner]
    if k in "lt":
        return ["list" if k == "l" or json else "tuple", [expected(s, owner, json, valued) for s in x]]
    return ["dict", [[n, expected(s, owner, json, valued)] for n, s in x.items()]]


def proxies_in(v, out):
    if isinstance(v, ObjectProxy):
        out.append(v)
    elif type(v) in (list, tuple):
        for x in v:
            proxies_in(x, out)
    elif type(v) is dict:
        for x in v.values():
            proxies_in(x, out)
    return out


def objects_in(spec, v, out):
    """Walk spec and the (returned) value together; collect what stands at the object positions."""
    k, x = spec
    if k == "o":
        out.append(v)
    elif k in "lt":
        for s, y in zip(x, v):
            objects_in(s, y, out)
    elif k == "d":
        for n, s in x.items():
            objects_in(s, v[n], out)
    return out


def norm(d):
    """tuples/lists of the description -> comparable"""
    return [norm(x) for x in d] if isinstance(d, (list, tuple)) else d


def s_types(ctx):
    """Random nested structures of values and objects as results and as arguments."""
    w = ctx.params.get("w", 0)
    s = ThreadServer() if w % 2 == 0 else child()
    address = s.address if w % 2 == 0 else s.client.address
    addr = address.decode()

    def body(i):
        rng = random.Random(f"{ctx.seed}/{i}")
        ser = ["msgpack", "json"][i % 2]
        local = i < 2
        c = RPCClient(address, serializer=ser, start_local_server=local)
        json = ser == "json"
        hub = c._import("vf.hub").Hub()
        me = RPCServer.get_server().address.decode() if local else None
        n = 0
        while ctx.more():
            spec = gen_spec(rng, json=json)
            n += 1
            with ctx.guard(LOST + 20, "lost", f"{ser} {shape_of(spec)}"):
                if i < 2 and rng.random() < .02:
                    # the thread's own server ends (from now on nobody owns arguments) or is replaced by a new one
                    if local:
                        close_local()
                    else:
                        RPCServer().run_lazy()
                    local = not local
                    me = RPCServer.get_server().address.decode() if local else None
                    ctx.count("local_server_changes")
                mode = rng.choice(["ret", "ret", "arg", "arg", "noserver", "rtype", "bounce"])
                if mode == "noserver":
                    mode = "arg" if local else mode
                elif mode in ("arg", "bounce") and not local:
                    mode = "noserver"
                ctx.sig(mode, ser, shape_of(spec))
                try:
                    one(ctx, rng, mode, spec, c, hub, ser, addr, me, n)
                except (AttributeError, TypeError, KeyError, IndexError, teleprox.RemoteCallException) as e:
                    ctx.violate("transfer-failed", f"{mode} {ser} {shape_of(spec)}: {type(e).__name__} {str(e)[-500:]}")
        c.close()
        close_local()

    in_threads([lambda i=i: body(i) for i in range(4)])
    s.close() if w % 2 == 0 else s.stop()


def one(ctx, rng, mode, spec, c, hub, ser, addr, me, n):
    json = ser == "json"
    if mode == "ret":
        # spec itself must arrive as plain values; send a recipe instead
        key = f"{id(c)}:{n}"
        v = hub.ret(recipe(spec), key, _timeout=LOST, **({"_return_type": "value"} if rng.random() < .2 else {}))
        want, got = norm(expected(spec, addr, json)), norm(H.describe(v))
        ctx.check(want == got, "wrong-result-types", f"{ser}: result {shape_of(spec)} arrived as {got}, expected {want}")
        objs = objects_in(spec, v, []) if want == got else []
        for j, p in enumerate(objs):
            ctx.check(hub.same(key, j, p, _timeout=LOST) is True, "not-the-object", f"{ser}: proxy {j} of result {shape_of(spec)} is another object at home")
    elif mode in ("arg", "bounce"):
        made = []
        v = H.build(spec, made)
        if mode == "arg":
            got = hub.describe(v, _timeout=LOST) if rng.random() < .6 else hub.describe_kw(v=v, _timeout=LOST)
            want = expected(spec, me, json)
            ctx.check(norm(got) == norm(want), "wrong-argument-types", f"{ser}: argument {shape_of(spec)} arrived as {got}, expected {want}")
        else:
            r = hub.bounce(v, _timeout=LOST)
            back = objects_in(spec, r, [])
            for a, b in zip(made, back):
                ctx.check(a is b, "not-the-object", f"{ser}: {type(a)} sent and returned came back as {b!r:.200}")
    elif mode == "noserver":
        made = []
        v = H.build(spec, made)
        before = hub.count()
        how = rng.choice(["sync", "async", "off"])
        err = None
        try:
            r = hub.describe(v, _sync=how, **({"_timeout": LOST} if how == "sync" else {}))
        except TypeError as e:
            err = e
        after = hub.count()
        if made:
            ctx.check(err is not None, "no-type-error", f"{ser} {how}: unserializable argument {shape_of(spec)} without a local server raised nothing")
            ctx.check(before == after, "request-executed", f"{ser} {how}: request with an unserializable argument was executed")
        else:
            ctx.check(err is None, "type-error", f"{ser} {how}: {shape_of(spec)} raised {err}")
            ctx.check(before + 1 == after, "request-not-executed", f"{ser} {how}: request {shape_of(spec)} executed {after - before} times")
    elif mode == "rtype":
        key = f"{id(c)}:{n}"
        p = hub.ret(recipe(spec), key, _return_type="proxy", _timeout=LOST)
        ctx.check(isinstance(p, ObjectProxy) and H.describe(p) == ["proxy", addr], "proxy-not-returned", f"{ser}: return_type='proxy' gave {H.describe(p)} for {shape_of(spec)}")
        if spec[0] != "o":
            v = p._get_value()
            want, got = norm(expected(spec, addr, json)), norm(H.describe(v))
            ctx.check(want == got, "wrong-value-of-proxy", f"{ser}: value of proxy to {shape_of(spec)} is {got}, expected {want}")
        else:
            ctx.check(hub.same(key, 0, p) is True, "not-the-object", f"{ser}: forced proxy to {spec[1]} is another object at home")


def recipe(spec):
    """The spec as plain (sendable) lists."""
    k, x = spec
    if k in "lt":
        return [k, [recipe(s) for s in x]]
    if k == "d":
        return [k, {n: recipe(s) for n, s in x.items()}]
    return [k, x]


def bare(ctx):
    """A server that sends nearly everything by proxy sends a value when it is asked for one."""
    for ser in ("msgpack", "json"):
        s = ThreadServer(ctx.rng.choice(["tcp", "inproc"]), serialize_types=(str, type(None), tuple, ObjectProxy))

        def body():
            c = RPCClient(s.address, serializer=ser)
            mod = c._import("vf.hub")
            for name, want in [("PLAIN_LIST", [1, "x"]), ("PLAIN_DICT", {"k": 2}), ("PLAIN_INT", 7)]:
                for chain in (False, True):
                    p = getattr(mod, name)
                    p = p if chain else p._undefer()
                    ctx.check(isinstance(p, ObjectProxy), "wrong-result-types", f"{ser}: {name} came as {p!r:.60}")
                    v = p._get_value()
                    ctx.check(type(v) is type(want) and v == want, "wrong-value-of-proxy", f"{ser}: value of {name} (attribute: {chain}) is {v!r:.80}")
                    v = c.get_obj(p, return_type="value")
                    ctx.check(type(v) is type(want) and v == want, "wrong-value-of-proxy", f"{ser}: get_obj(return_type='value') of {name} is {v!r:.80}")
                    v = getattr(mod, name)._undefer(return_type="value")
                    ctx.check(type(v) is type(want) and v == want, "wrong-value-of-proxy", f"{ser}: _undefer(return_type='value') of {name} is {v!r:.80}")
                    ctx.check(isinstance(c.get_obj(p), ObjectProxy), "wrong-result-types", f"{ser}: {name} by get_obj()")
                    f = mod.same(p, _return_type="value")
                    ctx.check(type(f) is type(want) and f == want, "wrong-result-types", f"{ser}: result of same({name}) asked for by value is {f!r:.80}")
                    f = mod.same(p)
                    ctx.check(isinstance(f, ObjectProxy), "wrong-result-types", f"{ser}: result of same({name}) is {f!r:.80}")
            c.close()
        try:
            with ctx.guard(LOST + 30, "lost", "bare"):
                in_threads([body])
        except (AttributeError, TypeError, KeyError, teleprox.RemoteCallException) as e:
            ctx.violate("transfer-failed", f"bare {ser}: {type(e).__name__} {str(e)[-500:]}")
        s.close()


def s_config(ctx):
    """Custom sets of serializable types at the server, at the client and for the local server."""
    types = tuple(default_serialize_types)
    more = types + (H.Valued,)
    less = tuple(t for t in types if t not in (np.ndarray,)) + ()
    n = 0
    s = ThreadServer()
    c = RPCClient(s.address, start_local_server=True)
    got = str(c._import("vf.hub").Hub().describe([bytearray(b"x"), memoryview(b"y")]))
    ctx.check("'value'" not in got, "msgpack-bytearray-by-value", f"[bytearray(b'x'), memoryview(b'y')] sent with msgpack arrived as {got}")
    c.close()
    s.close()
    bare(ctx)
    while ctx.more():
        srv_t, cli_t = ctx.rng.choice([None, more, less]), ctx.rng.choice([None, more, less])
        ser = ctx.rng.choice(["msgpack", "json"])
        local = ctx.rng.random() < .6
        name = lambda t: "default" if t is None else "more" if t is more else "less"
        what = f"{ser} server={name(srv_t)} client={name(cli_t)} local={local}"
        ctx.sig(what)
        s = ThreadServer(ctx.rng.choice(["tcp", "inproc"]), serialize_types=srv_t)

        def body():
            c = RPCClient(s.address, serializer=ser, serialize_types=cli_t, start_local_server=local)
            hub = c._import("vf.hub").Hub()
            addr, me = s.address.decode(), RPCServer.get_server().address.decode() if local else None
            v = hub.ret(["l", [["o", "valued"], ["v", 1], ["o", "thing"]]], "a")
            ctx.check(norm(H.describe(v)) == norm(["list", [["valued", "v"] if srv_t is more else ["proxy", addr], H.describe(1), ["proxy", addr]]]),
                      "wrong-result-types", f"{what}: {H.describe(v)}")
            v = hub.ret(["o", "valued"], "b")
            ctx.check(norm(H.describe(v)) == (["valued", "v"] if srv_t is more else ["proxy", addr]), "wrong-result-types", f"{what}: single Valued: {H.describe(v)}")
            v = hub.ret(["o", "valued"], "b2", _return_type="proxy")
            ctx.check(norm(H.describe(v)) == ["proxy", addr], "wrong-result-types", f"{what}: Valued with return_type='proxy': {H.describe(v)}")
            v = c._import("numpy").zeros(3)
            ctx.check(isinstance(v, ObjectProxy) == (srv_t is less), "wrong-result-types", f"{what}: array result came as {type(v)}")
            # and in the other direction
            for arg, by_value in [(H.Valued("w"), cli_t is more), (np.arange(3), cli_t is not less), ([{"k": H.Valued("w")}], cli_t is more), ((np.arange(2.),), cli_t is not less)]:
                before = hub.count()
                try:
                    got = str(hub.describe(arg))
                    ok = ("'proxy'" not in got) if by_value else (local and f"['proxy', '{me}']" in got)
                    ctx.check(ok, "wrong-argument-types", f"{what}: argument {arg!r:.80} arrived as {got}")
                    if local:
                        r = hub.bounce(arg)
                        x, y = (arg[0], r[0]) if isinstance(arg, (list, tuple)) else (arg, r)
                        x, y = (x["k"], y["k"]) if isinstance(x, dict) else (x, y)
                        # an array passed by proxy comes home as itself unless the server sends it by value
                        if not by_value:
                            ctx.check(x is y, "not-the-object", f"{what}: {x!r:.80} came back as {y!r:.80}")
                except TypeError as e:
                    ctx.check(not by_value and not local, "type-error", f"{what}: argument {arg!r:.80} raised {e}")
                    ctx.check(hub.count() == before, "request-executed", f"{what}: refused request was executed")
            c.close()
            close_local()
        try:
            with ctx.guard(LOST + 30, "lost", what):
                in_threads([body])
        except (AttributeError, TypeError, KeyError, teleprox.RemoteCallException) as e:
            ctx.violate("transfer-failed", f"{what}: {type(e).__name__} {str(e)[-500:]}")
        s.close()
        n += 1


class Party:
    def __init__(self, kind, address):
        self.kind, self.address, self.addr = kind, address, address.decode()
        self.client = RPCClient.get_client(address)
        self.hub = self.client._import("vf.hub").Hub()


def s_relay(ctx):
    """Objects travel along random paths over several parties and come home."""
    w = ctx.params.get("w", 0)
    srv = RPCServer()
    srv.run_lazy()
    servers = [ThreadServer("tcp"), ThreadServer("inproc" if w % 2 else "ipc")]
    procs = [child(qt=(w == 1)), child()]
    parties = [Party("thread", s.address) for s in servers]
    parties += [Party("proc", p.client.address) for p in procs]
    mine = H.Hub()
    rng = ctx.rng
    n = 0
    while ctx.more():
        n += 1
        tag = f"T{n}"
        usable = parties
        owner = rng.choice(["me"] + parties)
        if owner == "me" or rng.random() < .5:
            # inproc servers can only be reached from this process
            usable = [p for p in parties]
        reach = lambda a, b: not (b.addr.startswith("inproc") and a.kind == "proc")
        (mine if owner == "me" else owner.hub).new(tag)
        cur, name, hops, path = owner, tag, [], ()
        with ctx.guard(LOST + 30, "lost", "relay"):
            try:
                for h in range(rng.randrange(1, 7)):
                    wrap = rng.choice([None, None, "list", "tuple", "dict", "deep"])
                    nxt = rng.choice(parties)
                    name2 = f"{tag}.{h}"
                    if owner != "me" and owner.addr.startswith("inproc") and nxt.kind == "proc":
                        continue
                    if cur == "me":
                        how = "direct"
                        if rng.random() < .3 and h:
                            at = rng.choice(["child", "child.sub"] if not path else [""])
                            if at and isinstance(mine.store[name], ObjectProxy):
                                p = mine.store[name]
                                for a in at.split("."):
                                    p = getattr(p, a)
                                mine.store[name] = p
                                path = tuple(at.split("."))
                        mine.push(name, nxt.hub, name2, wrap)
                    else:
                        how = rng.choice(["via-me", "push", "pull"])
                        if how != "via-me" and (nxt is cur or not reach(cur, nxt) or not reach(nxt, cur)):
                            how = "via-me"
                        if how == "push":
                            cur.hub.push(name, nxt.hub, name2, wrap)
                        elif how == "pull":
                            nxt.hub.pull(cur.hub, name, name2, wrap)
                        else:
                            mine.pull(cur.hub, name, name2, wrap)
                            got = mine.store[name2]
                            if owner == "me":
                                ctx.check(mine.is_own(name2, tag, path), "not-the-object", f"{hops}: own object came back to main as {got!r:.200}")
                                # it lost nothing: continue with whatever came
                            else:
                                ctx.check(isinstance(got, ObjectProxy) and H.describe(got) == ["proxy", owner.addr], "wrong-proxy", f"{hops}: main got {got!r:.200}")
                            name = name2
                            cur = "me"
                            hops.append((how, wrap))
                            continue
                    hops.append((how, nxt.kind, nxt is owner, wrap))
                    cur, name = nxt, name2
                    if nxt is owner:
                        ctx.check(nxt.hub.is_own(name, tag, path), "not-the-object", f"{hops} {path}: object arrived at its home as {nxt.hub.describe_name(name)}")
                    else:
                        want = ["proxy", owner.addr if owner != "me" else srv.address.decode()]
                        got = nxt.hub.describe_name(name)
                        ctx.check(got == want, "wrong-proxy", f"{hops} {path}: arrived as {got}, expected {want}")
                # bring it home
                if owner == "me":
                    if cur != "me":
                        mine.pull(cur.hub, name, "end")
                        ctx.check(mine.is_own("end", tag, path), "not-the-object", f"{hops}: own object came home as {mine.store['end']!r:.200}")
                else:
                    if cur == "me":
                        mine.push(name, owner.hub, "end", rng.choice([None, "deep"]))
                    elif cur is not owner:
                        (mine.pull(cur.hub, name, "e0"), mine.push("e0", owner.hub, "end"))
                    else:
                        owner.hub.put("end", mine_get(mine, owner, name))
                    ctx.check(owner.hub.is_own("end", tag, path), "not-the-object", f"{hops} {path}: came home as {owner.hub.describe_name('end')}")
            except (AttributeError, KeyError, TypeError, teleprox.RemoteCallException) as e:
                ctx.violate("transfer-failed", f"owner {getattr(owner, 'kind', 'me')} {hops} {path}: {type(e).__name__} {str(e)[-600:]}")
        ctx.sig(owner if owner == "me" else (owner.kind, owner.addr.split(":")[0]), hops, path)
        if n % 20 == 1:
            ctx.sample({"owner": "me" if owner == "me" else owner.kind, "hops": hops, "attribute": path})
    for p in procs:
        p.stop()
    for s in servers:
        s.close()


def mine_get(mine, party, name):
    mine.pull(party.hub, name, "tmp")
    return mine.store["tmp"]
