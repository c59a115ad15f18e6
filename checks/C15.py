"""C15: binary protocol responses."""
import random, struct
import gen
from model import Engine, QUIET_B
from parts import ModelPart
from yr import OP, OPNAME, INVALID, UNKNOWN, bframe

PROPERTY = "C15"
RULE = ("pipelined random sequences of 15..60 binary requests on 3 connections over 4 keys: all "
        "opcodes in ordinary and quiet form in every state (hit, miss, expired, locked by "
        "self/other, CAS mismatch, non-numeric), Stat, Keys, Version, Noop, flushes, frames with "
        "every kind of inconsistent but delimited lengths, and unknown opcodes; the exact list of "
        "responses (opcode, opaque, status, extras, key, data, CAS) is compared with the model. "
        "Non-trivial: a quiet command that must be silent, one that must report an error, and a "
        "malformed or unknown frame all occur")
ASSUME = ["responses to quiet commands are flushed by a following Noop"]

COMPLEX = {}
for n in OP:
    b = n[:-1] if n.endswith("Q") and n not in ("Q",) else n
    COMPLEX[n] = b


def rule(base, el, kl, dl):
    """Is a frame with these lengths well-formed for the command (docs)?"""
    if kl > 250:
        return False
    if base in ("Get", "GetK", "GaT", "GaTK", "LaG", "LaGK"):
        return el in (0, 4) and kl > 0 and dl == 0
    if base in ("Set", "Add", "Replace", "RaU"):
        return el == 8 and kl > 0 and dl > 0
    if base in ("Delete", "Lock", "Unlock"):
        return el == 0 and kl > 0 and dl == 0
    if base in ("Increment", "Decrement"):
        return el == 20 and kl > 0 and dl == 0
    if base in ("Append", "Prepend"):
        return el == 0 and kl > 0 and dl > 0
    if base == "Touch":
        return el == 4 and kl > 0 and dl == 0
    if base == "Flush":
        return el in (0, 4) and kl == 0 and dl == 0
    if base == "Stat":
        return el == 0 and dl == 0
    if base == "Keys":
        return el == 0 and dl == 0
    return True


CHECKED = [n for n in OP if COMPLEX[n] not in ("Quit", "Version", "Noop", "UnlockAll")]
UNKNOWNS = [c for c in range(256) if c not in OPNAME]


class BinEngine(Engine):
    def bin_step(self, op):
        o = op["o"]
        self.opq = (self.opq + 1) & 0xffffff
        opq = self.opq | (op.get("oq", 0) & 0xfd) << 24
        if opq >> 24 == 0xfe:
            opq &= 0xffffff
        if o == "Stat":
            self.note("stat")
            return bframe(OP["Stat"], op["key"].encode(), opaque=opq), [("BSTAT", opq)]
        if o == "bad":
            code = OP[op["cmd"]]
            r = random.Random(op["seed"])
            kl, el, dl = op["kl"], op["el"], op["dl"]
            if op.get("over"):
                # key and extras claim more than the whole body
                w = struct.pack(">BBHBBHIIQ", 0x80, code, kl, el, 0, 0, op["over"] - 1, opq,
                                0) + r.randbytes(op["over"] - 1)
            else:
                w = bframe(code, r.randbytes(kl), r.randbytes(el), r.randbytes(dl), opq,
                           op["cas"])
            self.note("malformed")
            if op["cmd"].endswith("Q"):
                self.note("quiet_error")
            return w, [("B", code, opq, INVALID, None, b"", b"", None)]
        if o == "unk":
            r = random.Random(op["seed"])
            self.note("unknown")
            w = bframe(op["code"], r.randbytes(op["kl"]), r.randbytes(op["el"]),
                       r.randbytes(op["dl"]), opq)
            return w, [("B", op["code"], opq, UNKNOWN, None, b"", b"", None)]
        w, e = super().bin_step(op)
        if o in QUIET_B:
            self.note("quiet_error" if e and e[0][0] == "B" and e[0][3] != 0 else
                      "quiet_silent" if not e else "quiet_hit")
        return w, e


B = (gen.BIN_STORE * 2 + gen.BIN_EXT + gen.BIN_CNT * 2 + gen.BIN_DEL + gen.BIN_GET + gen.BIN_GAT +
     gen.BIN_LAG * 2 + gen.BIN_LOCK * 2 + gen.BIN_RAU * 2 + ["Touch", "Noop", "Version", "Keys"])


def badframe(r):
    while True:
        cmd = r.choice(CHECKED)
        base = COMPLEX[cmd]
        d = {"p": "b", "o": "bad", "cmd": cmd, "el": r.choice([0, 0, 1, 3, 4, 5, 8, 8, 9, 19, 20,
                                                              20, 21, 200, 255]),
             "kl": r.choice([0, 0, 1, 2, 10, 250, 251, 252, 300, 65535]),
             "dl": r.choice([0, 0, 1, 5, 300]), "seed": r.randrange(1 << 20),
             "cas": r.choice([0, 0, 7])}
        if r.random() < .15:
            if d["kl"] + d["el"] == 0:
                continue
            d["over"] = r.randint(1, d["kl"] + d["el"])
            return d
        if not rule(base, d["el"], d["kl"], d["dl"]):
            return d


class Bin(ModelPart):
    name = "frames"
    examples = {"quick": 1700, "thorough": 30000}
    cap = {"quick": 45, "thorough": 700}

    def config(self, ctx):
        return {"heap_data_limit": 4096, "buckets": [1, 7, 101, 1009][ctx.shard % 4],
                "workers": 1 + ctx.shard % 5}

    prof = gen.Control(gen.names((), B), {
        "clock": lambda r: {"dt": r.choice([1, 2, 3])},
        "flush": lambda r: {"c": r.randrange(3), "p": "b", "q": int(r.random() < .5),
                            "zero": int(r.random() < .3)},
        "close": lambda r: {"c": r.randrange(3), "how": r.choice(["Quit", "QuitQ"])}},
        {"clock": 0.02, "flush": 0.01, "close": 0.01}, nconn=3, nkeys=4, pipe=0.8,
        exps=lambda r: r.choice([0, 0, 0, 2, 100]), nums=gen.numbers,
        vals=lambda r: gen.numeral(r) if r.random() < .6 else
        ["r", r.choice([1, 10, 500, 5000, 70000]), r.randrange(9)])

    def generate(self, rng, ctx):
        ops = []
        for _ in range(rng.randint(15, 60)):
            x = rng.random()
            if x < .06:
                d = badframe(rng)
            elif x < .09:
                d = {"p": "b", "o": "unk", "code": rng.choice(UNKNOWNS),
                     "kl": rng.choice([0, 1, 5, 250]), "el": rng.choice([0, 4, 8]),
                     "dl": rng.choice([0, 1, 90]), "seed": rng.randrange(1 << 20)}
            elif x < .11:
                d = {"p": "b", "o": "Stat", "key": rng.choice(
                    ["", "", "settings", "items", "sizes", "ops"])}
            else:
                d = gen.op(rng, self.prof)
            if "o" in d and d.get("p") == "b" and "c" not in d:
                d.update(c=rng.randrange(3), j=int(rng.random() < .8), oq=rng.randrange(256))
            ops.append(d)
        return {"ops": ops}

    def engine(self, ctx, case):
        e = BinEngine(self.s, prefix=b"%d." % ctx.counter, keys=self.keys_for(ctx, case))
        e.conns = self.conns
        return e

    def nontrivial(self, e):
        s = e.stat
        return bool(s.get("quiet_silent") and s.get("quiet_error") and
                    (s.get("malformed") or s.get("unknown")))


PARTS = [Bin()]
