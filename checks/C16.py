"""C16: text protocol replies and noreply."""
import random
import gen
from model import Engine, value
from parts import ModelPart

PROPERTY = "C16"
RULE = ("pipelined random sequences of 15..60 text commands on 3 connections over 4 keys, with "
        "noreply on a third of them, multi-key gets, extra spaces anywhere spaces may be, stats in "
        "every form, verbosity, slabs, keys, flush_all, and malformed lines (unknown commands, "
        "missing or surplus arguments, bad numbers, lone LF, data not closed by CRLF); objects are "
        "absent, present, expired, locked by self or other, non-numeric.  The exact list of reply "
        "lines up to a sentinel is compared with the model.  Non-trivial: a noreply command in a "
        "state where the command is refused, one where it succeeds, and a get of several keys")
ASSUME = ["malformed lines that announce a data block are not followed by one"]

T = (gen.TEXT_STORE * 2 + ["incr", "incr", "decr", "decr", "touch", "delete", "delete", "lock",
                           "lock", "unlock", "unlock_all", "get", "get", "gets", "gets", "keys"])

MISC = [b"stats", b"stats settings", b"stats items", b"stats sizes", b"stats ops"]
SIMPLE = [(b"slabs", b"OK"), (b"slabs reassign 1 2", b"OK"), (b"verbosity warning", b"OK"),
          (b"verbosity error", b"OK"), (b"verbosity 1", b"OK")]


def badline(r, key):
    k = key(r.randrange(4))
    n = r.choice([b"x", b"-", b"1x", b"18446744073709551616", b"99999999999999999999999", b""])
    big = r.choice([b"x", b"4294967296", b"1.5", b"99999999999999999999999"])
    f = r.choice(["unk", "bare", "set", "incr", "touch", "surplus", "flush", "lf", "crlf", "get0",
                  "nore", "verb", "case"])
    if f == "unk":
        return r.choice([b"foo", b"sett k 0 0 1", b"ge k0", b"gett k0", b"incrx k0 1", b"END",
                         b"VALUE k 0 1", b"a" * 200, b"\xff\xfe", b"stats foo", b"ERROR"]) + b"\r\n"
    if f == "bare":
        return r.choice([b"set", b"add", b"cas", b"get", b"gets", b"incr", b"decr", b"touch",
                         b"delete", b"lock", b"unlock", b"verbosity", b"replace", b"append",
                         b"prepend", b"get ", b"delete  "]) + b"\r\n"
    if f == "set":
        c = r.choice([b"set", b"add", b"replace", b"append", b"prepend", b"cas"])
        a = r.choice([k, k + b" 0", k + b" 0 0", k + b" " + big + b" 0 1", k + b" 0 x 1",
                      k + b" 0 0 " + big])
        return c + b" " + a + b"\r\n"
    if f == "incr":
        return r.choice([b"incr", b"decr"]) + b" " + k + b" " + n + b"\r\n"
    if f == "touch":
        return b"touch " + k + r.choice([b"", b" ", b" x", b" 1x", b" 99999999999999999999999"]) \
            + b"\r\n"
    if f == "surplus":
        return r.choice([b"incr %s 1 noreply x", b"delete %s 0", b"delete %s noreply noreply",
                         b"lock %s x", b"unlock %s noreply", b"touch %s 0 nope",
                         b"decr %s 1 2", b"lock %s noreply", b"delete %s x"]) % k + b"\r\n"
    if f == "nore":
        return r.choice([b"incr %s 1 norepl", b"delete %s noreplyy", b"touch %s 0 NOREPLY",
                         b"decr %s 1 no reply"]) % k + b"\r\n"
    if f == "flush":
        return b"flush_all " + r.choice([b"x", b"1x", b"noreplyy", b"5 5", b"5 noreply x",
                                         b"99999999999999999999999"]) + b"\r\n"
    if f == "verb":
        return b"verbosity " + r.choice([b"error x", b"error noreply x", b"1 2"]) + b"\r\n"
    if f == "lf":
        return r.choice([b"get %s\n", b"\n", b"delete %s\n", b"incr %s 1\n"]).replace(b"%s", k)
    if f == "crlf":
        return r.choice([b"\r\n", b"  \r\n"])
    if f == "case":
        return r.choice([b"SET ", b"Get ", b"GET ", b"DELETE "]) + k + b"\r\n"
    return b"get\r\n"


class TextEngine(Engine):
    def text_step(self, op):
        o = op["o"]
        if o == "misc":
            self.note("stats")
            return MISC[op["i"]] + b"\r\n", [("STATS",)]
        if o == "simple":
            a, b = SIMPLE[op["i"]]
            q = op["q"] and a.startswith(b"verbosity")
            return a + (b" noreply" if q else b"") + b"\r\n", [] if q else [("T", b)]
        if o == "bad":
            self.note("malformed")
            return badline(random.Random(op["seed"]), self.key), [("TE",)]
        if o == "crlf":
            # data block of the declared length, not closed by CRLF: one error, no effect
            k = self.key(op["k"])
            v = value(op["v"])
            w = b"%s %s 0 0 %d" % (op["cmd"].encode(), k, len(v))
            if op["cmd"] == "cas":
                w += b" 1"
            w += (b" noreply" if op["q"] else b"") + b"\r\n" + v + op["end"].encode()
            self.note("badblock")
            return w, [("TE",)]
        w, e = super().text_step(op)
        if op.get("q"):
            self.note("noreply")
        if o in ("get", "gets") and len(op["ks"]) > 1:
            self.note("multiget")
        sp = op.get("sp")
        if sp:
            head, rest = w.split(b"\r\n", 1)
            r = random.Random(sp)
            head = b"".join(b" " * r.choice([1, 1, 2, 5]) if ch == 32 else bytes([ch])
                            for ch in head)
            if r.random() < .3:
                head = b" " * r.randint(1, 3) + head
            if r.random() < .5:
                head += b" " * r.randint(1, 3)
            w = head + b"\r\n" + rest
            self.note("spaces")
        return w, e


    def step(self, op):
        if op["p"] != "t" or not op.get("q") or op["o"] in ("simple", "crlf"):
            return super().step(op)
        before = dict(self.stat)
        r = super().step(op)
        ok = any(self.stat.get(n, 0) > before.get(n, 0)
                 for n in ("stored", "cas_ok", "counted", "touched", "deleted"))
        self.note("noreply_ok" if ok else "noreply_refused")
        return r


class Txt(ModelPart):
    name = "lines"
    examples = {"quick": 1100, "thorough": 25000}
    cap = {"quick": 45, "thorough": 700}

    def config(self, ctx):
        return {"heap_data_limit": 4096, "buckets": [1, 7, 101, 1009][ctx.shard % 4],
                "workers": 1 + ctx.shard % 5}

    prof = gen.Control(gen.names(T, ()), {
        "clock": lambda r: {"dt": r.choice([1, 2, 3])},
        "flush": lambda r: {"c": r.randrange(3), "p": "t", "q": int(r.random() < .5),
                            "zero": int(r.random() < .3)},
        "flushd": lambda r: {"c": r.randrange(3), "p": "t", "d": r.choice([1, 2]),
                             "q": int(r.random() < .5)},
        "close": lambda r: {"c": r.randrange(3), "how": r.choice(["quit", "fin"])}},
        {"clock": 0.02, "flush": 0.01, "flushd": 0.005, "close": 0.01}, nconn=3, nkeys=4,
        pipe=0.8, quiet=.35, exps=lambda r: r.choice([0, 0, 0, 2, 100]), nums=gen.numbers,
        vals=lambda r: gen.numeral(r) if r.random() < .6 else gen.lit(r) if r.random() < .6 else
        ["r", r.choice([0, 1, 10, 500, 5000, 70000]), r.randrange(9)])

    def generate(self, rng, ctx):
        ops = []
        for _ in range(rng.randint(15, 60)):
            x = rng.random()
            d = {"p": "t", "c": rng.randrange(3), "j": int(rng.random() < .8)}
            if x < .08:
                d.update(o="bad", seed=rng.randrange(1 << 30))
            elif x < .11:
                d.update(o="crlf", k=rng.randrange(4), v=gen.lit(rng, 20),
                         cmd=rng.choice(gen.TEXT_STORE), q=int(rng.random() < .3),
                         end=rng.choice(["xx", "\n\n", "\r\r", "x\n", "\n\r"]))
            elif x < .13:
                d.update(o="misc", i=rng.randrange(len(MISC)))
            elif x < .16:
                d.update(o="simple", i=rng.randrange(len(SIMPLE)), q=int(rng.random() < .4))
            else:
                d = gen.op(rng, self.prof)
                if d.get("p") == "t" and rng.random() < .25:
                    d["sp"] = rng.randrange(1, 1 << 20)
            ops.append(d)
        return {"ops": ops}

    def engine(self, ctx, case):
        e = TextEngine(self.s, prefix=b"%d." % ctx.counter, keys=self.keys_for(ctx, case))
        e.conns = self.conns
        return e

    def nontrivial(self, e):
        s = e.stat
        return bool(s.get("noreply_ok") and s.get("noreply_refused") and s.get("multiget"))


PARTS = [Txt()]
