"""C03: compare-and-swap."""
import gen
from parts import ModelPart

PROPERTY = "C03"
RULE = ("random sequences of 10..50 conditional and unconditional updates, reads, touches, locks, "
        "deletes, expirations and (rarely) flushes over 2 keys and 3 connections, both protocols; "
        "CAS values sent are the current one, earlier ones of the same key (kept also across "
        "deletion), or never issued ones. The model tracks a version per modification: every CAS "
        "number reported must equal that of its version and a new version must have a number "
        "never reported before for the key. Non-trivial: at least one accepted and one refused "
        "conditional update")
ASSUME = ["CAS numbers >= 2^63 are never issued"]

T = ["cas"] * 8 + ["set", "set", "add", "replace", "append", "prepend", "incr", "decr", "delete",
                   "touch", "get", "gets", "gets", "gets", "lock", "unlock", "unlock_all"]
B = gen.BIN_STORE * 2 + gen.BIN_EXT + gen.BIN_CNT + gen.BIN_DEL * 2 + \
    ["Get", "GetK", "GaT", "Touch", "LaG", "RaU", "RaU", "RaUQ", "Lock", "Unlock", "UnlockAll"]


def val(r):
    if r.random() < 0.5:
        return ["l", str(gen.numbers(r))]
    return gen.values([4096, 4097])(r)


class Cas(ModelPart):
    name = "cas"
    examples = {"quick": 600, "thorough": 20000}
    cap = {"quick": 45, "thorough": 600}
    prof = gen.Control(gen.names(T, B), {
        "clock": lambda r: {"dt": r.randint(1, 4)},
        "flush": lambda r: {"c": 0, "p": r.choice("tb"), "q": r.randrange(2)},
        "gc": lambda r: {}},
        {"clock": 0.03, "flush": 0.002, "gc": 0.004},
        nkeys=2, casw=("cur", "cur", "cur", "old", "old", "rnd", "0"), vals=val,
        exps=lambda r: r.choice([0, 0, 0, 0, 3, 5, ["a", 3]]))

    def config(self, ctx):
        return {"heap_data_limit": 4096, "buckets": [1, 2, 101, 1009][ctx.shard % 4],
                "workers": 1 + ctx.shard % 5}

    def generate(self, rng, ctx):
        return {"ops": gen.ops(rng, self.prof, 10, 50)}

    def nontrivial(self, e):
        return bool(e.stat.get("cas_ok") and e.stat.get("cas_bad"))


PARTS = [Cas()]
