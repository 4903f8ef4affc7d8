"""Server side objects for the proxy option monitor."""
import threading, time


class Node:
    def __init__(self, name="root", depth=3):
        self.name = name
        self.val = 0
        self.log = []
        if depth:
            self.a = Node(name + ".a", depth - 1)
            self.b = Node(name + ".b", depth - 1)

    def ident(self, tok=None):
        self.log.append(tok)
        return self.name

    def slow(self, delay, tok=None):
        self.log.append(tok)
        time.sleep(delay)
        return "slow:%s" % tok

    def value(self, tok=None):
        self.log.append(tok)
        return {"v": [1, tok]}

    def me(self, tok=None):
        self.log.append(tok)
        return self

    def fail(self, tok=None):
        self.log.append(tok)
        raise ValueError("fail:%s" % tok)

    def get_log(self):
        return list(self.log)

    def replace(self, path, name):
        o = self
        for p in path[:-1]:
            o = getattr(o, p)
        setattr(o, path[-1], Node(name, 2))

    def set_val(self, path, v):
        o = self
        for p in path:
            o = getattr(o, p)
        o.val = v

    def __repr__(self):
        return "<Node %s>" % self.name

    def __str__(self):
        return "NODE " + self.name


class Cmp:
    """Equality by content; the hash is not usable."""

    def __init__(self, v):
        self.v = v
        self.other = None
        self.n = 0

    def __eq__(self, o):
        self.n += 1
        return self.v == (o.v if isinstance(o, Cmp) else o)

    def __ne__(self, o):
        self.n += 1
        return "ne!" if type(o) is str and o == "odd" else not self.v == (o.v if isinstance(o, Cmp) else o)

    def __lt__(self, o):
        return ["lt", self.v]

    __hash__ = None

    def count(self):
        return self.n


class Fixed(float):
    """Lives at an address of our choice (no gc header, no dict), so that objects of two processes have the same id()."""
    __slots__ = ()

    def __eq__(self, o):
        return ["eq", float(self), type(o).__name__]

    __hash__ = float.__hash__


_fixed = []


def fixed(v, addr=0x200000000000):
    import ctypes, mmap
    libc = ctypes.CDLL(None, use_errno=True)
    libc.mmap.restype = ctypes.c_void_p
    libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t] + [ctypes.c_int] * 3 + [ctypes.c_long]
    MAP_FIXED_NOREPLACE = 0x100000
    got = libc.mmap(addr, 4096, mmap.PROT_READ | mmap.PROT_WRITE, mmap.MAP_PRIVATE | mmap.MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0)
    if got != addr:
        raise OSError(ctypes.get_errno(), "mmap")
    src = Fixed(v)
    ctypes.memmove(addr, id(src), Fixed.__basicsize__)
    ctypes.c_ssize_t.from_address(addr).value += 1000000      # never freed
    _fixed.append(src)
    return ctypes.cast(addr, ctypes.py_object).value


class Server:
    def fixed(self, v):
        return fixed(v)

    def node(self):
        return Node()

    def cmp(self, v):
        return Cmp(v)

    def nested(self, o):
        return [o, {"k": (o,)}]

    def back(self, o):
        return o
