"""Objects with state, in two copies: one here, one behind a server."""


class World:
    def __init__(self, depth=2):
        self.items = [1, 2, 3]
        self.table = {"a": 1}
        self.log = []
        self.child = World(depth - 1) if depth else None

    def add(self, *args, **kw):
        self.log.append([list(args), sorted(kw.items())])
        return len(self.log)

    def count(self):
        """Takes no arguments at all."""
        self.log.append("count")
        return len(self.log)

    def only_kw(self, *, x=1, **kw):
        self.log.append(["kw", x, sorted(kw)])
        return x

    def first(self, a, b=2):
        self.log.append(["first", a, b])
        return [a, b]

    def odd(self, obj=None, args=None, kwargs=None, opts=None, sync=None, timeout=None, return_type=None, name=None):
        self.log.append(["odd", obj, args, kwargs, opts, sync, timeout, return_type, name])
        return [obj, args, kwargs, opts, sync, timeout, return_type, name]

    def fail(self, kind="ValueError", *a):
        self.log.append(["fail", kind])
        raise {"ValueError": ValueError, "KeyError": KeyError, "TypeError": TypeError, "OSError": OSError}[kind](*a)

    def none(self):
        return None

    def make(self):
        return World(0)

    def state(self):
        return [self.items, sorted(self.table.items()), self.log[-6:], len(self.log), self.child and self.child.state()]
