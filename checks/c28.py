"""C28: the operations of a client, however they are spelled, do what is documented."""
import os, sys, threading
import teleprox
from teleprox import ObjectProxy, RPCServer
from vf import perturb
from vf.world import World
from vf.rpc import RPCClient, ThreadServer, LazyServer, child, uniq

TECHNIQUE = "runtime monitoring: differential test against a twin object; the same operation in every spelling (client method, send(), proxy) and mode, with the state of both worlds compared after each"
NOTE = "Samples operations and their spellings; results, error types and the state of the remote objects are compared with those of a local twin after every operation."
LEVEL = "exploration"
RULE = "One evaluation = one operation judged (result or error type, and the state of the remote world). Distinct = (server, operation, spelling, mode, return type, outcome)."
ASSUMPTIONS = []
SCENARIOS = {
    "forms": {"quick": (4, 12), "thorough": (6, 150), "min": 500},
    "imports": {"quick": (1, 10), "thorough": (2, 60), "min": 100},
}
LOST = 40


def at(w, path):
    for p in path:
        w = getattr(w, p)
    return w


ARGS = [(), (1,), (1, 2), ("x", None), ([1], {"k": 2}), (None,), (1, 2, 3), ({},), ([],), (0,), (False,), ("",)]
KW = [{}, {}, {}, {"x": 1}, {"b": 5}, {"z": None, "y": [1]}, {"a": 1, "b": 2}, {"args": 1}, {"kwargs": {"q": 1}}, {"obj": 4}, {"opts": 1, "sync": "off", "timeout": 0, "return_type": "proxy", "name": "n"}, {"func": 1, "action": 2}]
FAILS = [("ValueError", "text"), ("KeyError", 3), ("TypeError",), ("OSError", 2, "gone")]


class Case:
    def __init__(self, ctx, client, remote, local, where):
        self.ctx, self.c, self.r, self.l, self.where = ctx, client, remote, local, where
        self.server = None

    def target(self):
        rng = self.ctx.rng
        path = ["child"] * rng.choice([0, 0, 1, 2])
        return path

    def remote_at(self, path, how):
        """The proxy of the object at the path."""
        if how == "lookups":
            p = self.r
            for x in path:
                p = p._deferred_attr(x)._undefer(return_type="proxy")
            return p
        if how == "undefer" and path:
            return at(self.r, path)._undefer(return_type="proxy")
        if how == "copy":
            return at(self.r, path)._copy()
        return at(self.r, path)

    def call(self):
        ctx, rng = self.ctx, self.ctx.rng
        path = self.target() + [rng.choice(["add", "add", "count", "only_kw", "first", "odd", "fail", "none", "make", "state"])]
        args, kw = rng.choice(ARGS), rng.choice(KW)
        if path[-1] == "fail":
            args, kw = rng.choice(FAILS), {}
        form = rng.choice(["proxy", "call_obj", "call_obj", "call_obj", "send", "send"])
        how = rng.choice(["deferred", "lookups", "undefer", "copy"])
        sync = rng.choice(["sync", "sync", "sync", "async", "async", "off"])
        rt = rng.choice(["auto", "auto", "value", "proxy"])
        f = self.remote_at(path, how)
        opts = {}
        if sync != "sync" or rng.random() < .3:
            opts["sync"] = sync
        if rt != "auto" or rng.random() < .3:
            opts["return_type"] = rt
        if rng.random() < .3:
            opts["timeout"] = LOST
        a = {"args": args if args or rng.random() < .5 else rng.choice([None, []])} if args or rng.random() < .6 else {}
        if a and args and rng.random() < .3:
            a["args"] = list(args)
        k = {"kwargs": kw if kw or rng.random() < .5 else None} if kw or rng.random() < .6 else {}
        if form == "proxy":
            spelled = f"proxy(*{args}, **{kw}) {opts}"
            run = lambda: f(*args, **kw, **{"_" + x: y for x, y in opts.items()})
        elif form == "call_obj":
            pos = rng.randrange(3)
            if pos == 2 and a and k:
                run = lambda: self.c.call_obj(f, a["args"], k["kwargs"], **opts)
            elif pos == 1 and a:
                run = lambda: self.c.call_obj(f, a["args"], **k, **opts)
            else:
                run = lambda: self.c.call_obj(obj=f, **a, **k, **opts)
            spelled = f"call_obj({a}, {k}, {opts}), {pos} positional"
        else:
            run = lambda: self.c.send("call_obj", {"obj": f, **a, **k}, **opts) if rng.random() < .5 else self.c.send(action="call_obj", opts={"obj": f, **a, **k}, **opts)
            spelled = f"send('call_obj', {a}, {k}, {opts})"
        what = f"{self.where}: {'.'.join(path)} ({how}) as {spelled}"
        fl = at(self.l, path)
        self.compare(what, run, lambda: fl(*args, **kw), sync, rt, (form, how, path[-1], len(args), len(kw), sorted(a), sorted(k)))

    def get(self):
        ctx, rng = self.ctx, self.ctx.rng
        path = self.target() + rng.choice([["items"], ["table"], ["log"], [], ["nothing"], ["state"]])
        form = rng.choice(["get_obj", "get_obj", "get_value", "send", "undefer"])
        sync = rng.choice(["sync", "sync", "async", "off"]) if form != "get_value" else "sync"
        rt = rng.choice(["auto", "value", "proxy"]) if form != "get_value" else "value"
        p = at(self.r, path)
        opts = {"sync": sync, "return_type": rt, "timeout": LOST}
        run = {"get_obj": lambda: self.c.get_obj(p, **opts), "get_value": p._get_value, "send": lambda: self.c.send("get_obj", {"obj": p}, **opts), "undefer": lambda: p._undefer(**opts)}[form]
        if form == "undefer" and not path:
            return
        self.compare(f"{self.where}: {form} of {'.'.join(path)} {opts}", run, lambda: at(self.l, path), sync, rt, (form, path[-1:]))

    def transfer(self):
        """A copy is made there, and behaves as such."""
        ctx, rng = self.ctx, self.ctx.rng
        v = rng.choice([[1, 2], {"a": [1]}, (1, 2), "text", b"b", 5, None, 2.5, True, []])
        how = rng.choice(["transfer", "get_obj", "send", "async"])
        what = f"{self.where}: {how} of {v!r}"
        if how == "transfer":
            p = self.c.transfer(v)
        elif how == "get_obj":
            p = self.c.get_obj(v, return_type="proxy")
        elif how == "send":
            p = self.c.send("get_obj", {"obj": v}, return_type="proxy")
        else:
            p = self.c.transfer(v, sync="async").result(timeout=LOST)
        ctx.sig(self.where, "transfer", how, type(v).__name__)
        if not ctx.check(type(p) is ObjectProxy, "wrong-result", f"{what} is {p!r:.100}, not a proxy"):
            return
        ctx.check(same(p._get_value(), v) and (type(p._get_value()) is type(v) or isinstance(v, tuple)), "wrong-result", f"{what}: its value is {p._get_value()!r:.100}")
        if isinstance(v, list):
            p.append(9)
            ctx.check(p._get_value() == v + [9] and p.index(9) == len(v), "wrong-result", f"{what}: appending there gives {p._get_value()!r:.100}")
        if isinstance(v, dict):
            p["new"] = 3
            ctx.check(p._get_value() == {**v, "new": 3} and "new" not in v, "wrong-result", f"{what}: setting an item there gives {p._get_value()!r:.100}")
        # the proxy of a thing there denotes the very same
        if rng.random() < .3:
            q = self.c.transfer(self.r.items)
            q.append(7)
            self.l.items.append(7)
            ctx.check(type(q) is ObjectProxy and q == self.r.items._undefer(return_type="proxy"), "wrong-result", f"{what}: transfer() of a proxy gives {q!r:.100}")
            self.same_state(f"{what}, appending to a transferred proxy")

    def names(self):
        ctx, rng = self.ctx, self.ctx.rng
        n = rng.choice(["a", "b", "c", "\u00fc \u20ac", "", "x.y", "self"])
        v = rng.choice([1, "x", None, [1, 2], {"q": 1}, self.r, self.r.items])
        how = rng.choice(["item", "send", "async", "off"])
        what = f"{self.where}: publishing {type(v).__name__} as {n!r} ({how})"
        if how == "item":
            self.c[n] = v
            r = None
        else:
            r = self.c.send("set_item", {"name": n, "obj": v}, sync={"send": "sync"}.get(how, how))
            if how == "async":
                r = r.result(timeout=LOST)
        ctx.check(r is None, "wrong-result", f"{what} returns {r!r:.100}")
        ctx.sig(self.where, "names", how, type(v).__name__)
        get = rng.choice(["item", "send", "proxy"])
        if get == "item":
            g = self.c[n]
        else:
            g = self.c.send("get_item", {"name": n}, return_type="auto" if get == "send" else "proxy")
        what += f", reading it ({get})"
        if type(v) is ObjectProxy:
            if v is self.r:
                ctx.check(type(g) is ObjectProxy and g == v, "wrong-result", f"{what}: {g!r:.100}")
            elif get == "proxy":
                g.append(4)
                self.l.items.append(4)
                self.same_state(what)
            else:
                ctx.check(g == self.l.items, "wrong-result", f"{what}: {g!r:.100}")
        else:
            if get == "proxy" and ctx.check(type(g) is ObjectProxy, "wrong-result", f"{what}: {g!r:.100}"):
                g = g._get_value()
            ctx.check(same(g, v), "wrong-result", f"{what}: {g!r:.100}")

    def refused(self):
        """What is not a proper request has no effect."""
        ctx, rng = self.ctx, self.ctx.rng
        kind = rng.choice(["action", "sync", "sync proxy", "opts", "no opts", "name", "foreign delete", "option"])
        what = f"{self.where}: wrong {kind}"
        if kind == "action":
            run, err = lambda: self.c.send(rng.choice(["bogus", "", "call", "__init__"]), {"obj": self.r.count}), "ValueError"
        elif kind == "sync":
            run, err = lambda: self.c.call_obj(self.r.count, sync=rng.choice(["bogus", "", "Sync", None, True])), "ValueError"
        elif kind == "sync proxy":
            run, err = lambda: self.r.count(_sync=rng.choice(["bogus", "none", None])), "ValueError"
        elif kind == "opts":
            run, err = lambda: self.c.send("call_obj", {"function": self.r.count}), "KeyError"
        elif kind == "no opts":
            run, err = lambda: self.c.send("call_obj"), "TypeError"
        elif kind == "name":
            run, err = lambda: self.c["no such name"], "KeyError"
        elif kind == "option":
            run, err = lambda: self.r._set_proxy_options(nothing=1), "KeyError"
        else:
            run, err = lambda: self.other.delete(self.r), "AssertionError"
        ctx.sig(self.where, "refused", kind)
        try:
            r = run()
            ctx.violate("not-refused", f"{what} is not refused, but returns {r!r:.100}")
        except Exception as e:
            ctx.check(kind_of(e) == err, "wrong-error", f"{what}: {kind_of(e)} {str(e)[-200:]}")
        self.same_state(what)
        ctx.check(self.c.ping() == "pong", "unusable", f"{what}: no ping afterwards")

    # ------------------------------------------------------------------
    def compare(self, what, run, twin, sync, rt, sig):
        ctx = self.ctx
        try:
            want, err = twin(), None
        except Exception as e:
            want, err = None, type(e).__name__
        try:
            r = run()
            if sync == "async":
                f = r
                r = f.result(timeout=LOST)
                ctx.check(f.done() and f.result() is r and f.exception() is None, "wrong-result", f"{what}: the future's result changes")
            got = None
        except Exception as e:
            r, got = None, kind_of(e)
            if sync == "off":
                ctx.violate("wrong-error", f"{what}: {type(e).__name__} {str(e)[-200:]}")
                return
        ctx.sig(self.where, sync, rt, err, *sig)
        ctx.count(sync)
        ctx.count("errors", err is not None)
        if sync == "off":
            ctx.check(r is None, "wrong-result", f"{what} returns {r!r:.100}")
        elif err is None and rt == "value" and not plain(want):
            # (what cannot be sent by value is refused or arrives as a proxy)
            ctx.check(got is not None or type(r) is ObjectProxy, "wrong-result", f"{what} returns {r!r:.100}, which cannot be sent by value")
        elif not ctx.check(got == err, "wrong-error", f"{what}: {got}, and not {err}"):
            pass
        elif err is None:
            isproxy = type(r) is ObjectProxy
            ctx.check(isproxy == (rt == "proxy" or not plain(want)), "wrong-result", f"{what} returns a proxy: {isproxy}")
            if isproxy and plain(want):
                r = r._get_value()
            if plain(want):
                ctx.check(same(r, want), "wrong-result", f"{what} returns {r!r:.200}, and not {want!r:.200}")
            elif isinstance(want, World):
                ctx.check(same(r.state(), want.state()), "wrong-result", f"{what} returns another object")
        self.same_state(what)

    def same_state(self, what):
        a, b = self.r.state(_return_type="value", _timeout=LOST), self.l.state()
        self.ctx.check(same(a, b), "wrong-effect", f"{what}: the objects there are now {a!r:.300}, and not {b!r:.300}")


def plain(x):
    return x is None or isinstance(x, (int, str, float, bytes)) or isinstance(x, (list, tuple, dict)) and all(plain(y) for y in (x.values() if isinstance(x, dict) else x))


def same(a, b):
    return norm(a) == norm(b)


def norm(x):
    if isinstance(x, (list, tuple)):
        return [norm(y) for y in x]
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()}
    return (type(x).__name__, x) if not isinstance(x, ObjectProxy) else x


def kind_of(e):
    t = str(getattr(e, "type_str", "") or type(e).__name__)
    return t.split(".")[-1]


def s_forms(ctx):
    rng = ctx.rng
    kind = ["tcp", "child", "lazy", "qt", "ipc", "inproc"][ctx.seed % 1000 % 6]
    other = ThreadServer()
    if rng.random() < .5:
        perturb.enable(ctx.seed, .01, .001)
    while ctx.more():
        serializer = rng.choice(["msgpack", "msgpack", "json"])
        if kind in ("child", "qt"):
            s = child(qt=kind == "qt", serializer=serializer)
            c = s.client
            r = c._import("vf.world").World()
            end = s.stop
        else:
            s = LazyServer() if kind == "lazy" else ThreadServer(kind)
            s["w"] = World()
            c = RPCClient(s.address, serializer=serializer)
            r = c["w"]
            end = s.close
        case = Case(ctx, c, r, World(), f"{kind}, {serializer}")
        case.other = RPCClient.get_client(other.address)
        for _ in range(150):
            if not ctx.more():
                break
            op = rng.choice([case.call] * 6 + [case.get] * 3 + [case.transfer, case.names, case.refused])
            with ctx.guard(90, "hangs", f"{case.where}: {op.__name__}"):
                op()
        end()
        c.close()
    other.close()
    perturb.disable()


MODULES = ["os", "os.path", "xml.dom.minidom", "xml.dom", "xml", "email.mime.text", "json", "json.decoder", "sys", "logging.handlers", "logging", "concurrent.futures.thread", "importlib.util", "collections.abc", "vf.world", "teleprox.log.remote",
           "wsgiref.util", "unittest.mock", "http.cookies", "html.parser", "urllib.robotparser", "curses.ascii", "encodings.rot_13", "multiprocessing.dummy", "builtins"]
MISSING = ["nothing_such", "os.nothing_such", "xml.nothing.such", "", "vf.nothing", "os.path.join"]


def s_imports(ctx):
    """Modules imported there are the modules of that process."""
    rng = ctx.rng
    while ctx.more():
        p = child(qt=rng.random() < .2, serializer=rng.choice(["msgpack", "json"]))
        c = p.client
        mods = c._import("sys").modules._undefer(return_type="proxy")
        names = rng.sample(MODULES, 12) + rng.sample(MISSING, 2)
        for name in names + [rng.choice(names) for _ in range(12)]:
            how = rng.choice(["import", "import", "send", "async"])
            again = names.count(name) > 1
            names.append(name)
            what = f"{how} of {name!r}{' (again)' if again else ''}"
            if rng.random() < .2:
                # (nobody waits for this one)
                r = c._import(name, sync="off") if rng.random() < .5 else c._import(name, sync="async")
                ctx.check((r is None) == (type(r).__name__ != "Future"), "wrong-import", f"{what}: {r!r:.100}")
                del r
            ctx.sig(name, how)
            try:
                m = c._import(name) if how == "import" else c.send("import", {"module": name}) if how == "send" else c._import(name, sync="async").result(timeout=LOST)
                err = None
            except Exception as e:
                m, err = None, kind_of(e)
            if name in MISSING:
                ctx.check(err in ("ModuleNotFoundError", "ImportError", "AttributeError", "ValueError"), "wrong-import", f"{what}: {m!r:.100} {err}")
                continue
            if not ctx.check(err is None and type(m) is ObjectProxy, "wrong-import", f"{what}: {err} {m!r:.100}"):
                continue
            try:
                x = mods.get(name, _return_type="proxy")
                ctx.check(m == x, "wrong-import", f"{what}: not the module of that name, but {m!r:.100}")
                n = m.__name__._get_value()
                ctx.check(n == {"os.path": "posixpath"}.get(name, name), "wrong-import", f"{what} is {n}")
                if name == "os":
                    ctx.check(m.getpid() == p.pid, "wrong-import", f"{what}: of another process")
            except Exception as e:
                ctx.violate("wrong-import", f"{what}: cannot be used: {kind_of(e)} {str(e)[-200:]}")
                continue
            if rng.random() < .5:
                # the proxies of other imports are independent of this one
                other = c._import(name)
                m._delete() if rng.random() < .5 else c.delete(m)
                ctx.ev()
                try:
                    n = other.__name__._get_value()
                    m = c._import(name)
                    n2 = m.__name__._get_value()
                    ctx.check(n == n2, "wrong-import", f"{what}: {n2} instead of {n} after a proxy to it was deleted")
                except Exception as e:
                    ctx.violate("wrong-import", f"{what}: after another proxy to it was deleted: {kind_of(e)} {str(e)[-200:]}")
            if name == "vf.world":
                try:
                    ctx.check(same(m.World().state(), World().state()), "wrong-import", what)
                except Exception as e:
                    ctx.violate("wrong-import", f"{what}: cannot be used: {kind_of(e)} {str(e)[-200:]}")
        ctx.check(c.ping() == "pong", "unusable", "after imports")
        p.stop()
        c.close()
