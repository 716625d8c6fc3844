"""What every driver shares: sharding, recording, encoding of values."""
import argparse
import json
import os
import sys
import traceback
import warnings

warnings.filterwarnings("ignore")
import numpy as np


def num(x):
    return repr(float(x))


def nums(xs):
    return [num(x) for x in np.asarray(xs, dtype=float).ravel()]


def cx(z):
    z = complex(z)
    return [repr(z.real), repr(z.imag)]


def cxs(zs):
    return [cx(z) for z in np.asarray(zs).ravel()]


class Ctx:
    def __init__(self):
        ap = argparse.ArgumentParser()
        ap.add_argument("--prop", default="")
        ap.add_argument("--seed", type=int, default=1)
        ap.add_argument("--tier", default="quick")
        ap.add_argument("--shard", type=int, default=0)
        ap.add_argument("--nshards", type=int, default=1)
        ap.add_argument("--out", default="/dev/stdout")
        ap.add_argument("--scen", default=None)
        self.a = ap.parse_args()
        self.seed, self.tier, self.shard, self.nshards = self.a.seed, self.a.tier, self.a.shard, self.a.nshards
        self.quick = self.tier == "quick"
        self.out = open(self.a.out, "w")
        self.scen = json.load(open(self.a.scen)) if self.a.scen else []
        self._unit = 0

    def rng(self, *key):
        return np.random.default_rng([self.seed] + [int(k) for k in key])

    def mine(self):
        """Round-robin assignment of work units to shards."""
        u = self._unit
        self._unit += 1
        return u % self.nshards == self.shard

    def _w(self, rec):
        self.out.write(json.dumps(rec) + "\n")
        self.out.flush()

    def at(self, id):
        self._w({"op": "at", "id": id})

    def emit(self, op, id, **f):
        self._w(dict(op=op, id=id, **f))

    def unit(self, id, fn):
        """Run one work unit; an exception raised by the code under test is an event."""
        self.at(id)
        try:
            fn()
        except Exception as e:  # noqa: BLE001 - the specification judges it
            if isinstance(e, (MemoryError, OSError)):
                raise
            traceback.print_exc()
            self.emit("raise", id, what="%s: %s" % (type(e).__name__, str(e)[:300]))

    def done(self):
        self._w({"op": "done", "id": "done"})
        self.out.close()


def jaxsetup():
    import jax

    jax.config.update("jax_enable_x64", True)
    return jax
