"""Participants of re-entrant call programs, and the local interpreter of these programs."""
import random, re, threading
from teleprox import RPCClient, RPCServer, RemoteCallException

LOST = 60


class Boom(Exception):
    pass


class Node:
    """Executes call programs; published as 'node' by a server and run only in that server's thread."""

    def __init__(self, name, table=None, home=None):
        self.name = name
        self.table = dict(table or {})
        self.home = home
        self.wrong_thread = 0
        self.runs = 0
        self.depth = self.max_depth = 0
        self.nodes = {}

    def setup(self, table):
        self.table = dict(table)
        self.nodes = {}

    def main_thread(self):
        self.home = threading.main_thread().ident

    def set_home(self):
        self.home = threading.get_ident()

    def stats(self):
        return [self.runs, self.max_depth, self.wrong_thread]

    def peer(self, name):
        if name not in self.nodes:
            # (the own object would be received as itself, not as a proxy)
            self.nodes[name] = RPCServer.get_server().get_proxy(self) if name == self.name else RPCClient.get_client(self.table[name])["node"]
            self.nodes[name]._set_proxy_options(timeout=LOST)
        return self.nodes[name]

    def forget(self, name):
        self.nodes.pop(name, None)

    def close_client(self, address):
        """Close this thread's client of a server that is gone."""
        c = RPCClient.clients_by_thread.get((threading.get_ident(), address))
        if c is not None:
            c.close()

    def run(self, prog):
        self.runs += 1
        self.depth += 1
        self.max_depth = max(self.depth, self.max_depth)
        if self.home is not None and threading.get_ident() != self.home:
            self.wrong_thread += 1
        try:
            return self._run(prog)
        finally:
            self.depth -= 1

    def _run(self, prog):
        op = prog[0]
        me = self.name
        if op == "val":
            return f"{me}:{prog[1]}"
        if op == "boom":
            raise Boom("boom:" + prog[1])
        if op == "call":
            return f"{me}({self.peer(prog[1]).run(prog[2])})"
        if op == "seq":
            return f"{me}[" + ",".join([self.peer(i).run(p) for i, p in prog[1]]) + "]"
        if op == "par":
            futs = [self.peer(i).run(p, _sync="async") for i, p in prog[1]]
            order = list(range(len(futs)))
            random.Random(prog[2]).shuffle(order)
            res = {}
            for k in order:
                try:
                    res[k] = futs[k].result(timeout=LOST)
                except RemoteCallException as e:
                    res[k] = "!" + token(e)
            return f"{me}|" + ",".join(res[k] for k in range(len(futs))) + "|"
        if op == "catch":
            try:
                return f"{me}?{self.peer(prog[1]).run(prog[2])}"
            except RemoteCallException as e:
                return f"{me}!{token(e)}"
        if op == "back":
            # pass a callback that is executed here
            cb = RPCServer.get_server().get_proxy(self.run)
            cb._set_proxy_options(timeout=LOST)
            return f"{me}<{self.peer(prog[1]).use(cb, prog[2])}>"
        if op == "local":
            # ask the own server
            return f"{me}={self.peer(me).run(prog[1])}"
        if op == "pass":
            # give a third participant's object to the second
            return f"{me}/{self.peer(prog[1]).use(self.peer(prog[2]).run, prog[3])}"
        raise ValueError(prog)

    def use(self, callback, prog):
        if self.home is not None and threading.get_ident() != self.home:
            self.wrong_thread += 1
        if hasattr(callback, "_set_proxy_options"):
            callback._set_proxy_options(timeout=LOST)
        return f"{self.name}~{callback(prog)}"


def token(e):
    m = re.search(r"boom:(\w+)", str(e))
    return m.group(1) if m else "unexpected " + str(e)[-600:]


def interpret(me, prog):
    """The specification: what the program returns (or raises) when started at participant `me`."""
    op = prog[0]
    if op == "val":
        return f"{me}:{prog[1]}"
    if op == "boom":
        raise Boom(prog[1])
    if op == "call":
        return f"{me}({interpret(prog[1], prog[2])})"
    if op == "seq":
        return f"{me}[" + ",".join([interpret(i, p) for i, p in prog[1]]) + "]"
    if op == "par":
        res = []
        for i, p in prog[1]:
            try:
                res.append(interpret(i, p))
            except Boom as e:
                res.append("!" + e.args[0])
        return f"{me}|" + ",".join(res) + "|"
    if op == "catch":
        try:
            return f"{me}?{interpret(prog[1], prog[2])}"
        except Boom as e:
            return f"{me}!{e.args[0]}"
    if op == "back":
        return f"{me}<{prog[1]}~{interpret(me, prog[2])}>"
    if op == "local":
        return f"{me}={interpret(me, prog[1])}"
    if op == "pass":
        return f"{me}/{prog[1]}~{interpret(prog[2], prog[3])}"


def generate(rng, names, me, depth, toks, width=2):
    """A random program for participant `me`."""
    if depth <= 0 or rng.random() < .08:
        tok = toks()
        return ["boom", tok] if rng.random() < .2 else ["val", tok]
    op = rng.choice(["call", "call", "call", "catch", "back", "back", "local", "seq", "par", "pass"])
    pick = lambda: rng.choice(names)
    if op in ("call", "catch"):
        i = pick()
        return [op, i, generate(rng, names, i, depth - 1, toks, width)]
    if op == "back":
        return [op, pick(), generate(rng, names, me, depth - 1, toks, width)]
    if op == "local":
        return [op, generate(rng, names, me, depth - 1, toks, width)]
    if op == "pass":
        j = pick()
        return [op, pick(), j, generate(rng, names, j, depth - 1, toks, width)]
    subs = []
    for k in range(rng.randint(1, width)):
        i = pick()
        subs.append([i, generate(rng, names, i, depth - rng.randint(1, 3), toks, 1)])
    return ["seq", subs] if op == "seq" else ["par", subs, rng.randint(0, 99)]


def size(prog):
    if prog[0] in ("seq", "par"):
        return 1 + sum(size(p) for _, p in prog[1])
    if prog[0] in ("val", "boom"):
        return 1
    return 1 + size(prog[-1])


def height(prog):
    if prog[0] in ("seq", "par"):
        return 1 + max(height(p) for _, p in prog[1])
    if prog[0] in ("val", "boom"):
        return 1
    return (2 if prog[0] in ("back", "pass") else 1) + height(prog[-1])


def shape(prog):
    if prog[0] in ("val", "boom"):
        return prog[0][0]
    if prog[0] in ("seq", "par"):
        return prog[0][0] + "(" + "".join(i + shape(p) for i, p in prog[1]) + ")"
    return prog[0][0] + "".join(str(x) for x in prog[1:-1]) + shape(prog[-1])
