"""Simulated memory: object addresses and garbage collection.

Real addresses depend on the history of the allocator and cannot be repeated,
and the collector runs when its counters say so. Here `id` gives out numbers
that follow the rules real addresses follow - constant and unique among the
objects that exist, and free to be used again afterwards - and that are used
again as early as possible (or as late, or never), and garbage is collected at
points of the simulated run only."""
import builtins
import gc
import sys
import weakref

_real_id = builtins.id


class Addresses(object):
    def __init__(self, policy="lifo"):
        self.policy = policy
        self.known = {}              # real address -> [number, holder, baseline]
        self.free = []
        self.strong = {}
        self.next = 0x7f0000001000
        self.reused = 0

    def _take(self):
        if self.free and self.policy != "fresh":
            self.reused += 1
            return self.free.pop() if self.policy == "lifo" else self.free.pop(0)
        self.next += 64
        return self.next

    def _gone(self, address, ref):
        e = self.known.get(address)
        if e is not None and e[1] is ref:
            del self.known[address]
            self.free.append(e[0])

    def _sweep(self):
        """Objects without weak references are kept here until nothing else
        refers to them."""
        for address in list(self.strong):
            box = self.strong[address]
            # the list and the argument
            if sys.getrefcount(box[0]) <= 2:
                e = self.known.pop(address)
                del self.strong[address]
                self.free.append(e[0])

    def __call__(self, obj):
        address = _real_id(obj)
        e = self.known.get(address)
        if e is not None:
            return e[0]
        self._sweep()
        number = self._take()
        try:
            ref = weakref.ref(obj, lambda r, a=address: self._gone(a, r))
            self.known[address] = [number, ref]
        except TypeError:
            self.known[address] = [number, None]
            self.strong[address] = [obj]
        return number

    def install(self):
        self.saved = builtins.id
        me = self

        def id(obj, /):
            return me(obj)
        builtins.id = id
        return self


def begin(policy="lifo"):
    """Called once in a run's own process, before anything else."""
    gc.freeze()
    gc.disable()
    return Addresses(policy).install()


def collect():
    gc.collect()
