"""Server side registry of objects observed by weak references."""
import gc, os, threading, time, weakref

INFO = threading.Lock()


class Obj:
    def __init__(self, tag):
        self.tag = tag
        self.sub = Sub(self)

    def which(self):
        return self.tag

    def me(self):
        return self


class Sub:
    def __init__(self, parent):
        self._p = weakref.ref(parent)
        self.tag = parent.tag + ".sub"

    def which(self):
        return self.tag


class SlotObj:
    """Small objects whose addresses are reused at once."""
    __slots__ = ("tag", "__weakref__")

    def __init__(self, tag):
        self.tag = tag

    def which(self):
        return self.tag


class Registry:
    def __init__(self):
        self.refs = {}
        self.kept = {}

    def make(self, tag, slot=False):
        o = (SlotObj if slot else Obj)(tag)
        self.refs[tag] = weakref.ref(o)
        return o

    def make_many(self, tags, slot=True):
        return [self.make(t, slot) for t in tags]

    def again(self, tag):
        return self.refs[tag]()

    def again_in(self, tag):
        o = self.refs[tag]()
        return {"a": [o, (o,)]}

    def keep(self, o):
        self.kept[o.tag] = o

    def unkeep(self, tag):
        self.kept.pop(tag)

    def which(self, o):
        return o.tag

    def same(self, o, tag):
        return self.refs[tag]() is o

    def alive(self, tags, collect=False):
        if collect:
            gc.collect()
        return [self.refs[t]() is not None for t in tags]

    def churn(self, n):
        """Allocate and free objects, so that addresses are reused."""
        for i in range(n):
            o = SlotObj("churn")
            p = Obj("churn")
        del o, p


class Holder:
    """Holds copies of proxies in a third process."""

    def __init__(self):
        self.store = {}

    def put(self, name, p):
        self.store[name] = p

    def use(self, name):
        return self.store[name].which()

    def send_back(self, name):
        return self.store[name]

    def delete(self, name):
        self.store[name]._delete()

    def drop(self, name):
        self.store.pop(name)


def echo(x):
    return x
