"""C06: expiration."""
import gen
from parts import ModelPart

PROPERTY = "C06"
RULE = ("random sequences of 8..40 commands of every kind in both protocols with expirations 0, "
        "relative (1 s to the 30-day threshold and one past it), absolute in the past and future, "
        "interleaved with clock movements to one second before, exactly at, and after deadlines, "
        "with and without a garbage collection; replies and final reads compared with the model. "
        "Non-trivial: the clock moved, and an object with a deadline was stored or touched")
ASSUME = ["the server's wall clock is driven through a link-time stand-in for time(2)",
          "binary expiration 0xffffffff has a special meaning and is not sent with Set and Touch"]

T = gen.ALL_T + ["touch"] * 4 + ["lock", "unlock", "keys", "add", "replace", "append", "prepend",
                                 "cas", "incr", "delete"]
B = gen.ALL_B + gen.BIN_GAT * 2 + gen.BIN_LAG + ["Touch"] * 4 + ["Lock", "Unlock", "RaU", "Keys",
                                                               "Add", "Append", "Delete"]


def exps(r):
    x = r.random()
    if x < 0.15:
        return 0
    if x < 0.55:
        return r.randint(1, 6)
    if x < 0.8:
        return ["a", r.randint(-3, 8)]
    return r.choice([2592000, 2592001, 2591999, 86400, 0x7fffffff, 0x80000000, 0xfffffffe, 1000000])


class Expire(ModelPart):
    name = "expire"
    examples = {"quick": 900, "thorough": 20000}
    cap = {"quick": 45, "thorough": 600}
    prof = gen.Control(gen.names(T, B), {
        "clock": lambda r: {"dt": r.choice([1, 1, 2, 3, 5])},
        "clockto": lambda r: {"k": r.randrange(4), "d": r.choice([-1, -1, 0, 0, 1])},
        "gc": lambda r: {}},
        {"clock": 0.06, "clockto": 0.12, "gc": 0.015},
        nkeys=4, exps=exps, vals=lambda r: ["l", r.choice(["", "a", "7", "41", "xyz"])]
        if r.random() < 0.9 else ["r", 5000, 1])

    def config(self, ctx):
        return {"heap_data_limit": 4096, "buckets": [1, 2, 101, 1009][ctx.shard % 4],
                "gc_interval": [10, 2, 1000, 4][ctx.shard % 4]}

    def server_args(self, ctx):
        return {"now": [2_000_000_000, 1_700_000_000, 2_500_000_000, 3_000_000_000][ctx.shard % 4]}

    def generate(self, rng, ctx):
        return {"ops": gen.ops(rng, self.prof, 8, 40)}

    def nontrivial(self, e):
        return bool((e.stat.get("clock") or e.stat.get("clock_edge")) and
                    e.stat.get("deadline") and e.stat.get("stored"))


PARTS = [Expire()]
