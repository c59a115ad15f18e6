"""C09: mutual exclusion of locks."""
import gen
from parts import ModelPart

PROPERTY = "C09"
RULE = ("random sequences of 10..60 lock, unlock, lock-and-get, replace-and-unlock, storage, "
        "counting, delete and read commands in both protocols from 4 connections over 3 keys, "
        "with clock movements past deadlines; every reply and a final read compared with the "
        "model. Non-trivial: a command was refused because of another connection's lock and a "
        "lock was obtained")
ASSUME = ["touch and get-and-touch are not protected by locks (documented)"]

T = gen.TEXT_LOCK * 4 + ["lock"] * 6 + gen.TEXT_STORE * 2 + ["incr", "decr", "delete", "delete", "get",
                                                             "gets", "keys"]
B = gen.BIN_LOCK * 2 + ["Lock"] * 4 + gen.BIN_LAG * 2 + gen.BIN_RAU * 4 + gen.BIN_STORE + \
    gen.BIN_EXT + gen.BIN_CNT + gen.BIN_DEL + ["Get", "GetK"]


class Locks(ModelPart):
    name = "locks"
    examples = {"quick": 1100, "thorough": 25000}
    cap = {"quick": 45, "thorough": 600}
    prof = gen.Control(gen.names(T, B), {
        "clock": lambda r: {"dt": r.choice([1, 2, 3])},
        "gc": lambda r: {}},
        {"clock": 0.02, "gc": 0.004},
        nconn=4, nkeys=3, casw=("0", "0", "0", "cur", "old"),
        vals=lambda r: ["l", r.choice(["a", "7", "41", "xyz", ""])],
        exps=lambda r: r.choice([0, 0, 0, 2, 4]))

    def config(self, ctx):
        return {"buckets": [1, 2, 101, 1009][ctx.shard % 4], "workers": 1 + ctx.shard}

    def generate(self, rng, ctx):
        return {"ops": gen.ops(rng, self.prof, 10, 60)}

    def nontrivial(self, e):
        return bool(e.stat.get("lock_ok") and (e.stat.get("locked_refused") or
                                               e.stat.get("lock_refused") or
                                               e.stat.get("rau_refused")))


PARTS = [Locks()]
