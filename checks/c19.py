"""C19: a SharedNDArray is the same memory everywhere."""
import hashlib, os, subprocess, sys, threading
import numpy as np
from teleprox import shmem
from teleprox.shmem import SharedNDArray
import multiprocessing.shared_memory as shm
from vf.rpc import RPCClient, ThreadServer, child, uniq, in_threads
from vf.core import Stop
from vf.shm import Holder, describe, write

TECHNIQUE = "runtime monitoring: contents seen by all holders (processes, serializers) compared with a plain model array after every write; existence of the shared memory after close_all()"
NOTE = "Samples shapes, dtypes, layouts, views, transfer chains, writers and close_all() in any holder."
LEVEL = "exploration"
RULE = "One evaluation = one comparison of all contents of one holder, or one existence test. Distinct = (dtype, dimensions, layout, transfers, operations) combinations."
ASSUMPTIONS = ["Arrays do not contain Python objects.", "No new holder is added after a holder's process has ended (Python's resource tracker may have unlinked the memory, as documented)."]
SCENARIOS = {
    "local": {"quick": (2, 12), "thorough": (4, 120), "min": 500},
    "processes": {"quick": (4, 15), "thorough": (6, 200), "min": 500},
    "closing": {"quick": (2, 13), "thorough": (4, 150), "min": 100},
}
DTYPES = ["u1", "i2", "<i4", ">i4", "i8", "f2", "f4", ">f8", "f8", "c8", "c16", "?", "U3", "S5", "M8[s]", "m8[ms]", "V6", [("a", "i2"), ("b", "f8")], [("x", "u1", (2,)), ("y", "U2")]]
SHAPES = [(), (1,), (7,), (1000,), (3, 4), (2, 3, 4), (0,), (2, 0, 3), (1, 1, 1, 5), (64, 65)]


def value(rng, dtype):
    """One element as bytes"""
    d = np.dtype(dtype)
    if d.names:
        v = np.zeros(1, d)
        for n in d.names:
            v[n] = np.frombuffer(value(rng, d[n].base), d[n].base)[0]
        return v.tobytes()
    k = d.kind
    if k in "iu":
        x = np.array([rng.getrandbits(7)], d)
    elif k == "f":
        x = np.array([rng.random()], d)
    elif k == "c":
        x = np.array([complex(rng.random(), rng.random())], d)
    elif k == "b":
        x = np.array([rng.random() < .5], d)
    elif k == "U":
        x = np.array(["".join(rng.choice("ab\u20ac\U0001f600") for _ in range(3))], d)
    elif k == "S":
        x = np.array([bytes(rng.choices(b"xyz\x80", k=4))], d)
    elif k in "Mm":
        x = np.array([rng.randrange(10 ** 6)], "i8").view(d)
    else:
        return rng.randbytes(d.itemsize)
    return x.tobytes()


def content(rng, shape, dtype):
    """A plain array in some memory layout"""
    n = int(np.prod(shape))
    vals = [value(rng, dtype) for _ in range(min(n, 50))]
    a = np.frombuffer(b"".join(vals[i % len(vals)] for i in range(n)), dtype).copy() if n else np.zeros(0, dtype)
    a = a.reshape(shape)
    how = rng.choice(["C", "F", "strided", "reversed", "transposed", "readonly"])
    if how == "F":
        a = np.asfortranarray(a)
    elif how == "strided" and a.ndim:
        b = np.zeros((shape[0] * 2,) + tuple(shape[1:]), dtype)
        b[::2] = a
        a = b[::2]
    elif how == "reversed" and a.ndim:
        a = a[::-1]
    elif how == "transposed":
        a = a.T
    elif how == "readonly":
        a.flags.writeable = False
    return a, how


def model_of(arr):
    """A plain array with the same layout and content as arr.data."""
    d = arr.data
    raw = np.frombuffer(arr.shmem.buf, "u1")
    off = d.__array_interface__["data"][0] - raw.__array_interface__["data"][0]
    base = raw.copy()
    if d.size == 0:
        return np.zeros(d.shape, d.dtype)
    return np.ndarray(d.shape, d.dtype, buffer=base.data, offset=off, strides=d.strides)


def views(rng, arr):
    """-> SharedNDArrays that see parts of the memory of arr"""
    d = arr.data
    out = []
    for _ in range(rng.randint(1, 4)):
        v = d
        for _ in range(rng.randint(1, 2)):
            k = rng.choice(["slice", "reverse", "T", "bytes", "item", "newaxis", "step", "empty", "field", "broadcast"])
            if k == "slice" and v.ndim:
                i = rng.randint(0, v.shape[0])
                v = v[i:]
            elif k == "reverse" and v.ndim:
                v = v[::-1]
            elif k == "T":
                v = v.T
            elif k == "bytes" and v.flags.c_contiguous and v.ndim and v.size:
                v = v.reshape(-1).view("u1")
            elif k == "item" and v.ndim and v.shape[0]:
                v = v[rng.randrange(v.shape[0]), ...]
            elif k == "newaxis":
                v = v[None]
            elif k == "step" and v.ndim:
                v = v[..., ::2]
            elif k == "empty" and v.ndim:
                v = v[:0]
            elif k == "field" and v.dtype.names:
                v = v[rng.choice(v.dtype.names)]
            elif k == "broadcast" and v.ndim == 1 and v.size:
                v = np.ndarray((3, v.shape[0]), v.dtype, buffer=arr.shmem.buf, offset=offset(arr, v), strides=(0, v.strides[0]))
        if isinstance(v, np.ndarray):
            out.append(SharedNDArray(arr.shmem, v))
    return out


def offset(arr, v):
    return v.__array_interface__["data"][0] - np.frombuffer(arr.shmem.buf, "u1").__array_interface__["data"][0]


def make(ctx, rng):
    """-> array, model, what"""
    dtype, shape = rng.choice(DTYPES), rng.choice(SHAPES)
    close = rng.random() < .7
    if rng.random() < .4:
        sh = rng.choice([shape, list(shape)]) if len(shape) != 1 else rng.choice([shape, shape[0], np.int64(shape[0])])
        arr = SharedNDArray.zeros(sh, rng.choice([dtype, np.dtype(dtype)]), close=close)
        exp, how = np.zeros(shape, dtype), "zeros"
    else:
        a, how = content(rng, shape, dtype)
        arr = SharedNDArray.copy(a, close=close)
        exp = a
    what = f"{how} {shape} {dtype}"
    ctx.check(describe(arr.data)[:4] == describe(exp)[:4], "creation", f"{what}: contains {arr.data!r:.200} instead of {exp!r:.200}")
    if how != "zeros" and a.size and a.flags.writeable:
        # it is a copy
        old = describe(arr.data)
        write(a, 0, value(rng, dtype).hex())
        ctx.check(describe(arr.data) == old, "creation", f"{what}: shares memory with its source")
    arr.what = what
    return arr, what


def s_local(ctx):
    rng = ctx.rng
    h = Holder()
    clients = []
    for ser in ("msgpack", "json"):
        srv = ThreadServer()
        srv["h"] = h
        clients.append(RPCClient(srv.address, serializer=ser))
    made = []
    while ctx.more():
        arr, what = make(ctx, rng)
        made.append(arr)
        arrs = [arr] + views(rng, arr)
        for a in arrs:
            m = model_of(a)
            d = a.data
            what2 = f"{what}, view {d.shape} {d.dtype} strides {d.strides}" if a is not arr else what
            ctx.sig("local", str(d.dtype), d.ndim, d.size == 0, d.flags.c_contiguous, d.flags.f_contiguous, a is arr)
            with works(ctx, lambda: what2):
                c = rng.choice(clients)
                holder = c["h"]
                name = "a" + uniq()
                how = rng.choice(["put", "many", "twice"])
                if how == "many":
                    holder.put_many(name, {"x": [1, a], "y": a})
                else:
                    holder.put(name, a)
                back = holder.give(name) if rng.random() < .5 else holder.give_in(name)["k"][1]
                ctx.check(isinstance(back, SharedNDArray), "transfer", f"{what2}: came back as {type(back)}")
                if how == "twice":
                    back = c["h"].give(name)
                    holder.put(name + "b", back)
                all_ = [a.data, h.arrs[name].data, back.data] + [h.arrs[name + k].data for k in "yb" if name + k in h.arrs]
                for k in range(rng.choice([1, 4])):
                    want = describe(m)[:4]
                    for i, x in enumerate(all_):
                        got = describe(x)[:4]
                        ctx.check(got == want, "content", lambda: f"{what2}, client {clients.index(c)} {how}: {['original', 'remote', 'returned', 'second'][i]} array is {got[:3]} {x!r:.150} instead of {want[:3]} {m!r:.150}")
                        ctx.check(x.flags.writeable, "content", f"{what2}: not writeable")
                    if not a.data.size:
                        break
                    v = value(rng, d.dtype.base if d.dtype.names else d.dtype).hex()
                    i = rng.randrange(10 ** 6)
                    w = rng.randrange(len(all_) + 1)
                    if w == len(all_):
                        holder.write(name, i, v)
                    else:
                        write(all_[w], i, v)
                    write(m, i, v)
            h.arrs.clear()
        if len(made) > 60:
            cleanup(made)


def cleanup(made):
    shmem.close_all()
    for a in made:
        try:
            a.shmem.unlink()
        except FileNotFoundError:
            pass
    made.clear()


def s_processes(ctx):
    """Several processes hold the same arrays, and write to them."""
    rng = ctx.rng
    while ctx.more():
        n = rng.choice([1, 2, 3])
        with ctx.guard(60, "hangs", "starting children"):
            kids = [child(serializer=rng.choice(["msgpack", "json"])) for _ in range(n)]
        holders = [None] + [k.client._import("vf.shm").Holder() for k in kids]
        local = Holder()
        end = min(ctx.deadline, __import__("time").monotonic() + 6)
        made, have = [], set()
        while __import__("time").monotonic() < end:
            with ctx.guard(60, "hangs", "shared arrays of several processes"):
                what, have = "", set()
                with works(ctx, lambda: what):
                    name = "a" + uniq()
                    creator = rng.randrange(n + 1)
                    if creator == 0:
                        arr, what = make(ctx, rng)
                        made.append(arr)
                        if rng.random() < .4:
                            vs = views(rng, arr)
                            if vs:
                                arr = rng.choice(vs)
                                what += f" view {arr.data.shape} {arr.data.dtype} {arr.data.strides}"
                    else:
                        dtype, shape = rng.choice(DTYPES), rng.choice(SHAPES)
                        what = f"made by a child: {shape} {dtype}"
                        data, _ = content(rng, shape, dtype)
                        holders[creator].make(name, list(data.shape), dtype, rng.random() < .7, data.tobytes().hex() if rng.random() < .6 else None)
                        arr = holders[creator].give(name)
                        what += f" strides {arr.data.strides}"
                    local.put(name, arr)
                    m = model_of(arr)
                    have = {0, creator}
                    chain = []
                    for _ in range(n * 2):
                        a, b = rng.choice(sorted(have)), rng.randrange(n + 1)
                        chain.append((a, b))
                        x = local.give(name) if a == 0 else rng.choice([lambda: holders[a].give(name), lambda: holders[a].give_in(name)["k"][1]])()
                        if b == 0:
                            local.put(name, x)
                        else:
                            holders[b].put(name, x)
                        have.add(b)
                    who = ["parent"] + [f"child {i}" for i in range(n)]
                    ctx.sig("processes", str(arr.data.dtype), arr.data.ndim, arr.data.size == 0, arr.data.flags.c_contiguous, creator, chain)
                    ops = 0
                    for k in range(rng.choice([2, 5, 10])):
                        want = describe(m)[:4]
                        for i in sorted(have):
                            got = (local if i == 0 else holders[i]).read(name)
                            ctx.check([list(got[0])] + list(got[1:4]) == want, "content", lambda: f"{what}, transfers {chain}, {k} writes: {who[i]} has {got} instead of {want} ({m!r:.150})")
                        if not arr.data.size:
                            break
                        v = value(rng, arr.data.dtype).hex()
                        i = rng.randrange(10 ** 6)
                        w = rng.choice(sorted(have))
                        if rng.random() < .1:
                            (local if w == 0 else holders[w]).fill(name, v)
                            m[...] = np.frombuffer(bytes.fromhex(v), m.dtype)[0]
                        elif rng.random() < .15:
                            # others close what they have created
                            w = rng.choice(sorted(have - {creator}) or [None])
                            if w is not None and w != 0:
                                holders[w].close_all()
                                ops += 1
                        else:
                            (local if w == 0 else holders[w]).write(name, i, v)
                            write(m, i, v)
                ctx.count("arrays")
                ctx.count("holders", len(have))
        # after the end of the children the rest still works
        with ctx.guard(60, "hangs", "end of children"):
            k = rng.randrange(n)
            kids[k].stop() if rng.random() < .5 else kids[k].kill()
            # (nothing is held if there was no time left)
            if have and arr.data.size:
                v = value(rng, arr.data.dtype).hex()
                for i in sorted(have - {k + 1}):
                    j = rng.randrange(10 ** 6)
                    (local if i == 0 else holders[i]).write(name, j, v)
                    write(m, j, v)
                for i in sorted(have - {k + 1}):
                    got = (local if i == 0 else holders[i]).read(name)
                    ctx.check([list(got[0])] + list(got[1:4]) == describe(m)[:4], "content", f"{what}: after the end of a holder, {who[i]} has {got} instead of {describe(m)}")
            for j, p in enumerate(kids):
                if j != k:
                    p.stop()
                p.client.close()
        cleanup(made)


class works:
    """Errors of teleprox in the body are violations."""

    def __init__(self, ctx, what):
        self.ctx, self.what = ctx, what

    def __enter__(self):
        pass

    def __exit__(self, t, e, tb):
        if isinstance(e, Exception) and not isinstance(e, (Stop, AssertionError)):
            import traceback
            self.ctx.violate("transfer-fails", f"{self.what()}: {type(e).__name__} {str(e)[-300:]}", stack="".join(traceback.format_tb(tb))[-1200:])
            return True


def exists(name):
    return os.path.exists("/dev/shm/" + name.lstrip("/"))


def s_closing(ctx):
    """close_all() and exit"""
    rng = ctx.rng
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    while ctx.more():
        if rng.random() < .1:
            exit_program(ctx, rng, root)
            continue
        p = None
        if rng.random() < .15:
            with ctx.guard(60, "hangs", "start"):
                p = child(serializer=rng.choice(["msgpack", "json"]))
            h = p.client._import("vf.shm").Holder()
        hist, holds = [], []
        with ctx.guard(90, "hangs", "closing"), works(ctx, lambda: f"{hist}"):
            mine, theirs = {}, {}  # name -> [array, close, model]; expected to exist
            gone = set()
            for i in range(rng.randint(4, 14)):
                op = rng.choice(["make", "make", "make here", "make here", "close there", "close here", "fetch", "send", "view", "twice", "vanish", "hold"])
                if p is None and op in ("make", "close there", "fetch", "send"):
                    op = "make here"
                hist.append(op)
                name = "a" + uniq()
                if op == "make":
                    close = rng.random() < .6
                    dtype, shape = rng.choice(DTYPES), rng.choice(SHAPES)
                    sn = h.make(name, list(shape), dtype, close)
                    theirs[name] = [sn, close, False]
                elif op == "make here":
                    close = rng.random() < .6
                    a = SharedNDArray.zeros(rng.choice(SHAPES), rng.choice(DTYPES), close=close)
                    mine[name] = [a.shmem.name, close, a]
                elif op == "close there":
                    h.close_all()
                    for n, x in theirs.items():
                        if x[1]:
                            gone.add(x[0])
                elif op == "close here":
                    shmem.close_all()
                    for n, x in mine.items():
                        if x[1]:
                            gone.add(x[0])
                elif op == "fetch":
                    c = [n for n, x in theirs.items() if x[0] not in gone]
                    if c:
                        n = rng.choice(c)
                        theirs[n][2] = h.give(n)
                elif op == "send":
                    c = [n for n, x in mine.items() if x[0] not in gone]
                    if c:
                        n = rng.choice(c)
                        h.put(n, mine[n][2])
                elif op == "view":
                    c = [x for x in mine.values() if x[0] not in gone and x[2].data.ndim]
                    if c:
                        x = rng.choice(c)
                        SharedNDArray(x[2].shmem, x[2].data[::-1])
                elif op == "twice":
                    # another array of the same memory that is to be closed, too
                    c = [x for x in mine.values() if x[0] not in gone]
                    if c:
                        x = rng.choice(c)
                        x[1] = True
                        SharedNDArray(x[2].shmem, x[2].data, True)
                elif op == "hold":
                    # the memory is in use elsewhere
                    c = [x for x in mine.values() if x[0] not in gone]
                    if c:
                        holds.append(memoryview(rng.choice(c)[2].shmem.buf)[:1])
                elif op == "vanish":
                    # somebody else is faster
                    c = [x for x in mine.values() if x[1] and x[0] not in gone]
                    if c:
                        x = rng.choice(c)
                        os.unlink("/dev/shm/" + x[0].lstrip("/"))
                        gone.add(x[0])
                ctx.sig("closing", hist[-4:])
                for side in (mine, theirs):
                    for n, x in side.items():
                        ctx.check(exists(x[0]) == (x[0] not in gone), "existence", lambda: f"{hist}: memory created with close={x[1]} by {'the parent' if side is mine else 'the child'} {'still exists' if x[0] in gone else 'does not exist any more'}")
                        a = x[2]
                        # (memory that was closed by this process is unmapped)
                        if a and not (side is mine and x[0] in gone) and a.data.size:
                            # whoever has it can use it
                            before = describe(a.data)
                            write(a.data, 0, value(rng, a.data.dtype).hex())
                            describe(a.data)
            if p is not None:
                p.stop() if rng.random() < .7 else p.kill()
                p.client.close()
            for n, x in mine.items():
                if x[0] not in gone and x[2].data.size:
                    write(x[2].data, 0, value(rng, x[2].data.dtype).hex())
            cleanup([x[2] for x in mine.values()])
            for x in theirs.values():
                if exists(x[0]):
                    try:
                        os.unlink("/dev/shm/" + x[0].lstrip("/"))
                    except FileNotFoundError:
                        pass


CODE = """
import sys, logging
sys.path[:0] = ["/repo"]
from teleprox.shmem import SharedNDArray, close_all
import numpy as np
a = [SharedNDArray.zeros((3,), "f8", close=c) for c in (True, True)]
a.append(SharedNDArray.copy(np.arange(5)))
print(*[x.shmem.name for x in a], flush=True)
how = sys.argv[1]
if how == "exception":
    raise ValueError
elif how == "exit":
    sys.exit(1)
elif how == "closed":
    close_all(); close_all()
elif how == "unlinked":
    a[0].shmem.unlink()
elif how == "dropped":
    a.clear()
"""


def exit_program(ctx, rng, root):
    how = rng.choice(["normal", "exception", "exit", "closed", "unlinked", "dropped"])
    with ctx.guard(60, "hangs", f"program that ends by {how}"):
        p = subprocess.run([sys.executable, "-c", CODE, how], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        names = p.stdout.decode().split()
        assert len(names) == 3, p.stderr
        ctx.sig("exit", how)
        for n in names:
            ctx.check(not exists(n), "existence", f"shared memory still exists after a program that ends by {how}")
        ctx.check(p.returncode == {"exception": 1, "exit": 1}.get(how, 0), "exit-code", f"program that ends by {how}: exit code {p.returncode}, {p.stderr.decode()[-300:]}")
