"""C02: sequential key-value semantics, all commands, both protocols mixed."""
import gen
from parts import ModelPart

PROPERTY = "C02"
RULE = ("random sequences of 8..40 storage, read, touch, delete and counting commands over 3 "
        "connections and 4 keys, text and binary mixed on each connection, some pipelined, "
        "noreply and quiet variants included; every reply and a final read of every key through "
        "both protocols are compared with a map model. Non-trivial: at least 2 successful "
        "updates and 1 refused command or miss")
ASSUME = ["values used for counting are plain digits or do not begin with a digit",
          "locks and expirations are covered by C06, C09-C12"]

NAMES = gen.names(gen.ALL_T, gen.ALL_B)
SIZES = [0, 1, 2000, 4095, 4096, 4097, 4098, 5000, 5001, 9000]
V = gen.values(SIZES)


class Seq(ModelPart):
    name = "sequence"
    examples = {"quick": 2500, "thorough": 60000}
    cap = {"quick": 40, "thorough": 600}
    prof = gen.Prof(NAMES, vals=lambda r: V(r) if r.random() < 0.6 else gen.numeral(r))

    def config(self, ctx):
        return ctx.cfgsel([
            {"buckets": 1, "heap_data_limit": 4096},
            {"buckets": 3},
            {"buckets": 101, "heap_data_limit": 4097, "workers": 1},
            {"buckets": 1009, "secure_erase": "true", "heap_data_limit": 5000},
        ])

    def generate(self, rng, ctx):
        return {"ops": gen.ops(rng, self.prof, 8, 40)}

    def nontrivial(self, e):
        s = e.stat
        return sum(s.get(x, 0) for x in ("stored", "cas_ok", "counted", "deleted")) >= 2 and \
            any(s.get(x) for x in ("refused", "cas_bad", "non_numeric", "miss"))


PARTS = [Seq()]
