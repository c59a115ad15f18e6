"""C26: counter semantics."""
from cmodel import CEngine, U32
from parts import ServerPart

PROPERTY = "C26"
RULE = ("pipelined random sequences of 20..80 counter requests (acquire, release, get, dump and "
        "invalid ones) on 4 connections over 6 names of 1..65535 bytes including binary ones, with "
        "resources and maxima from {0, 1, small, around the current consumption, 2^31, 2^32-1}, "
        "compared with an exact arithmetic model.  Non-trivial: a counter was filled exactly to "
        "its maximum, an acquire was refused for lack of resources and a release was refused")
ASSUME = ["per-connection ownership as documented"]

NS = [0, 1, 1, 2, 3, 5, 10, 1 << 31, U32, U32 - 1, (1 << 31) - 1]
NAMESETS = [[b"a", b"\0", b"\0\xff", 300, 65535, b"x"],
            [b"", b"0", b"00", 20, 1024, b"\r\n"],
            [1, 7, 8, 250, 251, 65534]]


def num(r):
    if r.random() < .6:
        return r.choice([1, 1, 2, 3, 4, 5])
    return r.choice(NS)


def op(r, nconn=4, nn=6):
    o = r.choice(["acq"] * 8 + ["rel"] * 6 + ["get"] * 3 + ["noop", "dump", "bad", "unk", "magic"])
    d = {"o": o, "c": r.randrange(nconn), "j": int(r.random() < .7), "oq": r.randrange(256)}
    if o == "dump":
        return {"o": "dump"}
    if o in ("acq", "rel", "get", "bad", "magic"):
        d["k"] = min(r.randrange(nn), r.randrange(nn))
    if o == "acq":
        d["n"] = num(r)
        x = r.random()
        d["max"] = r.choice([3, 4, 5, 8, 12]) if x < .6 else r.choice(NS) if x < .8 else \
            min(U32, d["n"] + r.randrange(6))
    elif o == "rel":
        d["n"] = num(r)
    elif o == "bad":
        d.update(code=r.choice([1, 2, 2, 3]), form=r.choice(["short", "zero", "long", "args"]),
                 cut=r.randrange(40), seed=r.randrange(1 << 20))
        if d["form"] == "args":
            d["code"] = 2
    elif o == "unk":
        d.update(code=r.choice([4, 5, 6, 0xf, 0x12, 0x13, 0x40, 0x90, 0xff]),
                 len=r.choice([0, 1, 40]))
    elif o == "magic":
        d["magic"] = r.choice([0, 0x80, 0x91, 0xff, 0x67])
    if o in ("acq", "rel", "get", "noop") and r.random() < .05:
        d["junk"] = r.randint(1, 30)
    return d


class Hist(ServerPart):
    name = "history"
    examples = {"quick": 700, "thorough": 16000}
    cap = {"quick": 45, "thorough": 700}

    def config(self, ctx):
        return {"workers": 1 + ctx.shard % 4, "counter.buckets": [1, 7, 101, 1009][ctx.shard % 4],
                "counter.stat_interval": 86400}

    def generate(self, rng, ctx):
        return {"names": rng.randrange(len(NAMESETS)),
                "ops": [op(rng) for _ in range(rng.randint(20, 80))]}

    def run(self, ctx, case):
        e = CEngine(self.s, b"%d." % ctx.counter, NAMESETS[case["names"]],
                    int(self.s.cfg["counter.stat_interval"]))
        e.conns = self.conns
        e.run(case["ops"])
        e.finish()
        # keep dumps short
        if ctx.counter % 25 == 0:
            e.ctrs = {}
            self.s.set_now((self.s.now // e.iv + 1) * e.iv)
        self.s.check_alive()
        st = e.stat
        return bool(st.get("filled") and st.get("unavailable") and st.get("not_acquired")), \
            sorted(st)


PARTS = [Hist()]
