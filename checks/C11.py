"""C11: locked objects survive expiration, flushes and eviction."""
import gen
from parts import ModelPart

PROPERTY = "C11"
RULE = ("random sequences of 8..40 lock, unlock, storage, touch and read commands in both "
        "protocols from 3 connections over 5 keys with deadlines, interleaved with clock jumps "
        "past deadlines, garbage collections, immediate and delayed flushes, connection ends and "
        "rounds of memory pressure that must evict every unlocked object of the case; locked "
        "objects must keep their values, and objects unlocked later are subject to all of these "
        "again. Non-trivial: an object was locked while a flush, a pressure round or its own "
        "deadline passed")
ASSUME = ["clock driven through a stand-in for time(2)"]

T = ["lock"] * 7 + ["unlock"] * 2 + ["unlock_all", "set", "set", "add", "append", "incr", "touch",
                                     "touch", "get", "gets", "keys", "delete"]
B = ["Lock"] * 7 + ["Unlock"] * 3 + gen.BIN_LAG * 2 + ["RaU", "RaU", "Set", "Set", "Touch", "GaT",
                                                       "Get", "Append", "Keys"]


class Survive(ModelPart):
    name = "survive"
    examples = {"quick": 330, "thorough": 8000}
    cap = {"quick": 45, "thorough": 600}

    def config(self, ctx):
        return {"memory_limit": 300000, "heap_data_limit": 5000,
                "buckets": [1, 3, 101][ctx.shard % 3], "workers": 1 + ctx.shard % 4}

    def generate(self, rng, ctx):
        prof = gen.Control(gen.names(T, B), {
            "clock": lambda r: {"dt": r.choice([1, 2, 3, 5])},
            "clockto": lambda r: {"k": r.randrange(5), "d": r.choice([-1, 0, 0, 1])},
            "gc": lambda r: {},
            "flush": lambda r: {"c": r.randrange(3), "p": r.choice("tb"),
                                "q": int(r.random() < .3)},
            "flushd": lambda r: {"c": r.randrange(3), "p": r.choice("tb"),
                                 "d": r.choice([1, 2, 4]), "q": int(r.random() < .3)},
            "pressure": lambda r: {},
            "close": lambda r: {"c": r.randrange(3), "how": r.choice(["quit", "fin", "rst"])}},
            {"clock": 0.05, "clockto": 0.06, "gc": 0.02, "flush": 0.04, "flushd": 0.02,
             "pressure": 0.03, "close": 0.02},
            nconn=3, nkeys=5, casw=("0", "0", "0", "cur"),
            exps=lambda r: r.choice([0, 0, 1, 2, 4, 6]),
            vals=lambda r: ["l", r.choice(["a", "7", "xyz", "41"])] if r.random() < .85
            else ["r", r.choice([3000, 5000, 6000]), 1])
        ops = [{"p": "t", "o": "set", "c": 0, "k": k, "v": ["l", str(k)], "f": k,
                "e": rng.choice([0, 0, 2, 5]), "q": 1, "j": 1} for k in range(5)]
        return {"ops": ops + gen.ops(rng, prof, 8, 40)}

    def engine(self, ctx, case):
        e = super().engine(ctx, case)
        for n in ("flush_sweep", "ctl_pressure"):
            def wrap(*a, f=getattr(e, n), n=n):
                if any(it.owner is not None for it in e.m.items.values()):
                    e.note("locked_" + n)
                return f(*a)
            setattr(e, n, wrap)
        for n in ("ctl_clock", "ctl_clockto"):
            def wrap2(op, f=getattr(e, n)):
                f(op)
                if any(it.owner is not None and 0 < it.e <= e.m.now
                       for it in e.m.items.values()):
                    e.note("locked_past_deadline")
            setattr(e, n, wrap2)
        return e

    def nontrivial(self, e):
        return any(k.startswith("locked_flush") or k.startswith("locked_ctl") or
                   k == "locked_past_deadline" for k in e.stat)


PARTS = [Survive()]
