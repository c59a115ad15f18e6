"""C04: increment and decrement."""
import gen
from parts import ModelPart

PROPERTY = "C04"
RULE = ("random sequences of 8..40 incr/decr in both protocols (quiet and noreply too) mixed with "
        "storage of numerals (boundary values of 2^k and 2^64, zero-padded, non-numeric, out of "
        "range), appends and prepends of digits, deletes, reads and clock steps; operands over "
        "the whole 64-bit range. Replies, stored text, flags and deadlines compared with exact "
        "integer arithmetic. Non-trivial: at least 3 successful counts, and a wrap, a saturation "
        "at zero, a refusal or an initialisation")
ASSUME = ["values beginning with white space or a sign, and file-backed values beginning with a "
          "digit, are outside the specified domain and not counted on"]

T = ["incr"] * 6 + ["decr"] * 6 + ["set", "set", "append", "prepend", "delete", "gets", "get"]
B = gen.BIN_CNT * 4 + ["Set", "SetQ", "Add", "Append", "Prepend", "Delete", "GetK", "Touch"]


class Count(ModelPart):
    name = "count"
    examples = {"quick": 2000, "thorough": 50000}
    cap = {"quick": 45, "thorough": 600}
    prof = gen.Control(gen.names(T, B), {
        "clock": lambda r: {"dt": r.randint(1, 4)},
        "clockto": lambda r: {"k": r.randrange(3), "d": r.choice([-1, 0])}},
        {"clock": 0.01, "clockto": 0.01}, nkeys=3,
        vals=lambda r: gen.numeral(r) if r.random() < 0.9 else gen.values([4097])(r),
        exps=lambda r: r.choice([0, 0, 0, 4, 9, ["a", 5]]),
        casw=("0", "0", "0", "0", "cur", "old"))

    def config(self, ctx):
        return {"heap_data_limit": 4096, "buckets": [1, 2, 101, 1009][ctx.shard % 4],
                "secure_erase": "true" if ctx.shard % 2 else "false"}

    def generate(self, rng, ctx):
        return {"ops": gen.ops(rng, self.prof, 8, 40)}

    def nontrivial(self, e):
        s = e.stat
        return s.get("counted", 0) >= 3 and bool(
            s.get("non_numeric") or s.get("count_init") or s.get("wrap") or s.get("zero"))


PARTS = [Count()]
