"""Connections that deliver their bytes in generated fragments."""
import random, socket, time

from model import Mixed
from yr import Counter


def chunks(b, spec, r):
    """Cut b: spec = {"cuts": [fractions of 1000], "small": n, "nap": per mille}."""
    pts = {int(len(b) * c / 1000) for c in spec.get("cuts", ())}
    n = spec.get("small", 0)
    if n:
        # a run of single bytes somewhere
        a = r.randrange(len(b) + 1)
        pts |= set(range(a, min(len(b), a + n)))
    pts = sorted(p for p in pts if 0 < p < len(b)) + [len(b)]
    i = 0
    for p in pts:
        yield b[i:p]
        i = p


class FragMix:
    frag = None
    rnd = None

    def send(self, b):
        f = self.frag
        if not f or len(b) < 2:
            return super().send(b)
        for c in chunks(b, f, self.rnd):
            super().send(c)
            if self.rnd.random() * 1000 < f.get("nap", 500):
                time.sleep(self.rnd.choice([0.0, 0.0001, 0.0003, 0.001]))


class FragConn(FragMix, Mixed):
    pass


class FragCounter(FragMix, Counter):
    pass


def spec(r):
    x = r.random()
    d = {"nap": r.choice([0, 300, 900]), "seed": r.randrange(1 << 30)}
    if x < .7:
        d["cuts"] = sorted(r.randrange(1001) for _ in range(r.choice([1, 2, 4, 8])))
    if x > .5:
        d["small"] = r.choice([3, 10, 30])
    return d
