"""C13: replies are independent of fragmentation."""
import random, socket, struct, time
import gen, C26, C16
from cmodel import CEngine
from frag import FragConn, FragCounter, spec
from model import Engine
from parts import ModelPart, ServerPart
from yr import OP, Violation, bframe, cframe, cname

PROPERTY = "C13"
RULE = ("(memcache) random sequences of 8..40 mixed text and binary commands, including malformed "
        "text lines, sent with generated cuts, runs of single bytes, pauses and a generated cap on "
        "how much the server receives at once (1 byte .. unlimited), pipelined up to the whole "
        "sequence at once; all replies must be those of the reference model, which knows nothing "
        "of fragments; at the end an incomplete request is sent and the connection ends: no reply, "
        "no effect.  (same) the same bytes sent whole and in fragments to fresh keys must give "
        "identical reply bytes.  (counter) the same as (memcache) for the counter protocol.  "
        "Non-trivial: a request was cut into several receives")
ASSUME = ["a stand-in for recv(2) that returns at most n bytes stands for small packets"]

T = gen.ALL_T + ["lock", "unlock", "unlock_all", "keys"]
B = gen.ALL_B + gen.BIN_GAT + gen.BIN_LAG + gen.BIN_LOCK + gen.BIN_RAU + ["Keys", "Noop"]
RM = [0, 0, 0, 1, 2, 3, 5, 7, 16, 23, 24, 25, 64, 100, 1000, 4096]


class Eng(C16.TextEngine):
    frag = None

    def conn(self, c):
        if c not in self.conns:
            self.conns[c] = FragConn(self.s, self.s.port)
            self.conns[c].rnd = random.Random(0)
        self.conns[c].frag = None if c == "x" else self.frag
        return self.conns[c]


def partial(r):
    """A request that is going to be cut short."""
    k = r.randrange(4)
    return {"k": k, "o": r.choice(["set", "incr", "delete", "get", "touch", "flush", "Set",
                                   "SetQ", "Delete", "Increment", "Flush", "Get", "append"]),
            "cut": r.random(), "n": r.choice([1, 5, 300])}


def partial_bytes(p, key):
    k, o, v = key(p["k"]), p["o"], b"p" * p["n"]
    w = {"set": lambda: b"set %s 0 0 %d\r\n%s\r\n" % (k, len(v), v),
         "append": lambda: b"append %s 0 0 %d\r\n%s\r\n" % (k, len(v), v),
         "incr": lambda: b"incr %s 1\r\n" % k,
         "delete": lambda: b"delete %s\r\n" % k,
         "get": lambda: b"get %s\r\n" % k,
         "touch": lambda: b"touch %s 1\r\n" % k,
         "flush": lambda: b"flush_all\r\n",
         "Set": lambda: bframe(OP["Set"], k, b"\0" * 8, v),
         "SetQ": lambda: bframe(OP["SetQ"], k, b"\0" * 8, v),
         "Delete": lambda: bframe(OP["Delete"], k),
         "Get": lambda: bframe(OP["Get"], k),
         "Flush": lambda: bframe(OP["Flush"]),
         "Increment": lambda: bframe(OP["Increment"], k, struct.pack(">QQI", 1, 1, 0))}[o]()
    return w[:1 + int(p["cut"] * (len(w) - 1))]


class Frag(ModelPart):
    name = "memcache"
    examples = {"quick": 900, "thorough": 16000}
    cap = {"quick": 45, "thorough": 700}
    prof = gen.Control(gen.names(T, B), {"clock": lambda r: {"dt": 1}}, {"clock": 0.01},
                       nconn=2, nkeys=4, pipe=0.93, exps=lambda r: r.choice([0, 0, 0, 3]),
                       vals=lambda r: gen.numeral(r) if r.random() < .4 else gen.lit(r)
                       if r.random() < .7 else ["r", r.choice([0, 100, 1023, 4097, 20000]),
                                                r.randrange(9)])

    def config(self, ctx):
        return {"heap_data_limit": 4096, "max_data_size": "10M", "buckets": [1, 101][ctx.shard % 2],
                "workers": 1 + ctx.shard % 5}

    def generate(self, rng, ctx):
        ops = []
        for o in gen.ops(rng, self.prof, 8, 40):
            if rng.random() < .05:
                o = {"p": "t", "o": "bad", "seed": rng.randrange(1 << 30),
                     "c": rng.randrange(2), "j": 1}
            ops.append(o)
        if rng.random() < .04:
            # larger than what is received at once
            ops.insert(rng.randrange(len(ops)), {
                "p": "b", "o": "Set", "c": 0, "k": 0, "f": 1, "e": 0, "cas": 0, "j": 1,
                "v": ["r", rng.choice([70000, 2097152, 3000000]), 1]})
            rm = rng.choice([0, 1000, 100000])
        else:
            rm = rng.choice(RM)
        if rng.random() < .5:
            for o in ops:
                if "c" in o and o["o"] not in ("clock",):
                    o["c"] = 0
        return {"ops": ops, "rm": rm, "frag": spec(rng) if rng.random() < .8 else {},
                "tail": [partial(rng) for _ in range(2)]}

    def run(self, ctx, case):
        s = self.s
        s.ctl.set(recv_max=case["rm"])
        e = Eng(s, prefix=b"%d." % ctx.counter)
        e.conns = self.conns
        e.frag = case["frag"]
        for c in (0, 1):
            if case["frag"]:
                e.conn(c).rnd = random.Random(case["frag"]["seed"])
        e.run(case["ops"])
        # trailing incomplete requests
        for c, p in enumerate(case["tail"]):
            cn = e.conn(c)
            w = partial_bytes(p, e.key)
            cn.send(w)
            held = e.m.locks.get(e.cid(c), set())
            e.ctl_close({"c": c, "how": "half" if p["cut"] < .7 else "fin"})
        e.verify()
        s.ctl.set(recv_max=0)
        e.finish()
        s.check_alive()
        return bool(case["rm"] or case["frag"]), sorted(e.stat)


class Same(ServerPart):
    """Metamorphic: identical bytes, different fragments, identical replies."""
    name = "same"
    examples = {"quick": 400, "thorough": 9000}
    cap = {"quick": 30, "thorough": 500}

    def config(self, ctx):
        return {"heap_data_limit": 4096, "buckets": [1, 101][ctx.shard % 2]}

    def generate(self, rng, ctx):
        prof = gen.Prof(gen.names(["set", "add", "append", "prepend", "replace", "incr", "decr",
                                   "delete", "touch", "get", "lock", "unlock", "keys"]),
                        nconn=1, nkeys=3, quiet=.2, vals=lambda r: gen.numeral(r)
                        if r.random() < .5 else gen.lit(r))
        return {"ops": gen.ops(rng, prof, 5, 25), "frag": spec(rng), "rm": rng.choice(RM),
                "bad": [rng.randrange(1 << 30) for _ in range(rng.randint(0, 3))]}

    def run(self, ctx, case):
        s = self.s
        got = []
        for frag in (None, case["frag"]):
            e = C16.TextEngine(s, prefix=b"%d." % ctx.counter)
            w = []
            for o in case["ops"]:
                w.append(e.step(o)[0])
            for i, b in enumerate(case["bad"]):
                w.insert(b % (len(w) + 1), C16.badline(random.Random(b), e.key))
            w.append(b"unlock_all\r\nversion\r\nquit\r\n")
            s.ctl.set(recv_max=case["rm"] if frag else 0)
            c = FragConn(s, s.port)
            c.frag, c.rnd = frag, random.Random(case["frag"]["seed"])
            c.send(b"".join(w))
            got.append(c.read_all())
            c.close()
            s.ctl.set(recv_max=0)
            e.finish()
            e.close()
        if got[0] != got[1]:
            i = next((i for i, (a, b) in enumerate(zip(*got)) if a != b), min(map(len, got)))
            raise Violation("replies differ at byte %d: whole %r, in fragments %r" %
                            (i, got[0][max(0, i - 40):i + 60], got[1][max(0, i - 40):i + 60]))
        if not got[0].rstrip(b"\r\n").split(b"\r\n")[-1].startswith(b"VERSION "):
            raise Violation("replies before quit are missing: %r" % got[0][-200:])
        s.check_alive()
        return True, []


class CEng(CEngine):
    frag = None

    def conn(self, c):
        if c not in self.conns:
            self.conns[c] = FragCounter(self.s, self.s.counter_port)
            self.conns[c].rnd = random.Random(0)
        self.conns[c].frag = None if c == "x" else self.frag
        return self.conns[c]


class Cnt(ServerPart):
    name = "counter"
    examples = {"quick": 400, "thorough": 9000}
    cap = {"quick": 30, "thorough": 500}

    def config(self, ctx):
        return {"counter.buckets": [1, 101][ctx.shard % 2], "workers": 1 + ctx.shard % 4}

    def generate(self, rng, ctx):
        ops = [C26.op(rng, 2, 4) for _ in range(rng.randint(8, 40))]
        for o in ops:
            if "j" in o:
                o["j"] = int(rng.random() < .93)
        return {"ops": ops, "names": rng.randrange(2), "rm": rng.choice(RM),
                "frag": spec(rng) if rng.random() < .8 else {}, "cut": rng.random()}

    def run(self, ctx, case):
        s = self.s
        e = CEng(s, b"%d." % ctx.counter, C26.NAMESETS[case["names"]], 86400)
        e.conns = self.conns
        e.frag = case["frag"]
        s.ctl.set(recv_max=case["rm"])
        e.run(case["ops"])
        # an incomplete request has no effect
        w = cframe(2, struct.pack(">II", 1, 0xffffffff) + cname(e.name(0)))
        cn = e.conn(0)
        cn.send(w[:1 + int(case["cut"] * (len(w) - 1))])
        e.ctl_close({"c": 0, "how": "half"})
        s.ctl.set(recv_max=0)
        e.finish()
        if ctx.counter % 25 == 0:
            s.set_now((s.now // 86400 + 1) * 86400)
        s.check_alive()
        return bool(case["rm"] or case["frag"]), sorted(e.stat)


PARTS = [Frag(), Same(), Cnt()]
