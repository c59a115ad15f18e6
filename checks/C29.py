"""C29: hostile and invalid input on the counter port."""
import random, struct, time
import bytefuzz, C26
from cmodel import CEngine, OK
from frag import FragCounter, spec
from fuzzpart import FuzzPart
from parts import ServerPart
from yr import Violation, cframe, cname

PROPERTY = "C29"
RULE = ("(requests) random pipelined sequences of 20..70 counter requests, a third of them malformed "
        "(short bodies, zero or over-long inner name lengths, impossible arguments, wrong magics, "
        "unknown opcodes, surplus bytes), on 4 connections, cut into fragments; the exact list of "
        "responses and the consumption of every counter are compared with the model.  (server) "
        "hostile byte streams on 1..4 connections of a server built with sanitizers while a victim "
        "runs a model-checked history.  (parsers) coverage-guided fuzzing of the request parser "
        "with sanitizers and consistency oracles.  Non-trivial: (requests) a malformed and a "
        "successful request occur; (server) always; (parsers) an input that reached new code")
ASSUME = ["hostile clients use other counter names than the victim"]


class Requests(ServerPart):
    name = "requests"
    examples = {"quick": 600, "thorough": 15000}
    cap = {"quick": 30, "thorough": 500}
    variants = ("asan",)

    def config(self, ctx):
        return {"workers": 1 + ctx.shard % 4, "counter.buckets": [1, 101][ctx.shard % 2]}

    def generate(self, rng, ctx):
        ops = []
        for _ in range(rng.randint(20, 70)):
            d = {"c": rng.randrange(4), "j": int(rng.random() < .8), "oq": rng.randrange(256)}
            x = rng.random()
            if x < .22:
                d.update(o="bad", k=rng.randrange(4), code=rng.choice([1, 2, 2, 3]),
                         form=rng.choice(["short", "zero", "long", "args"]),
                         cut=rng.choice([rng.randrange(40), 65535]), seed=rng.randrange(1 << 20))
                if d["form"] == "args":
                    d["code"] = 2
            elif x < .28:
                d.update(o="unk", code=rng.choice([c for c in range(256)
                                                   if c not in (0, 1, 2, 3, 0x10, 0x11)]),
                         len=rng.choice([0, 1, 2, 10, 300]))
            elif x < .33:
                d.update(o="magic", k=rng.randrange(4),
                         magic=rng.choice([m for m in range(256) if m != 0x90]))
            else:
                d = C26.op(rng, 4, 4)
                if "oq" in d and rng.random() < .15 and d["o"] in ("acq", "rel", "get", "noop"):
                    d["junk"] = rng.choice([1, 2, 100, 5000])
            ops.append(d)
        return {"names": rng.randrange(2), "ops": ops, "frag": spec(rng) if rng.random() < .4 else {}}

    def run(self, ctx, case):
        s = self.s
        e = CEngine(s, b"%d." % ctx.counter, C26.NAMESETS[case["names"]], 86400)
        e.conns = self.conns
        for c in range(4):
            if c not in self.conns:
                self.conns[c] = FragCounter(s, s.counter_port)
            self.conns[c].frag = case["frag"]
            self.conns[c].rnd = random.Random(ctx.counter)
        e.run(case["ops"])
        e.finish()
        if ctx.counter % 25 == 0:
            s.set_now((s.now // 86400 + 1) * 86400)
        s.check_alive()
        return bool(e.stat.get("invalid") and e.stat.get("acquired")), sorted(e.stat)


class Hostile(ServerPart):
    name = "server"
    racy = True
    variants = ("asan",)
    examples = {"quick": 500, "thorough": 15000}
    cap = {"quick": 30, "thorough": 600}

    def config(self, ctx):
        return {"workers": 1 + ctx.shard % 5, "counter.buckets": [1, 101][ctx.shard % 2]}

    def generate(self, rng, ctx):
        names = [b"z%d" % i for i in range(4)]
        conns = []
        for _ in range(rng.randint(1, 4)):
            conns.append({"pieces": bytefuzz.stream(rng, bytefuzz.counter_req, names),
                          "end": rng.choice(["rst", "fin", "half", "open", "read"]),
                          "cut": rng.random() < .3, "seed": rng.randrange(1 << 30)})
        ops = [o for o in (C26.op(rng, 2, 3) for _ in range(rng.randint(4, 16)))]
        return {"conns": conns, "ops": ops}

    def run(self, ctx, case):
        s = self.s
        e = CEngine(s, b"V%d." % ctx.counter, C26.NAMESETS[0], 86400)
        e.conns = self.conns
        ops = case["ops"]
        n = max(1, len(ops) // max(1, len(case["conns"])))
        opened = []
        for i, h in enumerate(case["conns"]):
            a = s.raw(s.counter_port)
            a.timeout = 5
            w = bytefuzz.bytes_of(h["pieces"])
            r = random.Random(h["seed"])
            try:
                if h["cut"] and len(w) > 2:
                    p = r.randrange(1, len(w))
                    a.s.sendall(w[:p])
                    time.sleep(r.choice([0, .001]))
                    a.s.sendall(w[p:])
                else:
                    a.s.sendall(w)
            except OSError:
                pass
            if h["end"] == "rst":
                a.reset()
            elif h["end"] == "fin":
                a.close()
            elif h["end"] == "half":
                try:
                    a.s.shutdown(1)
                except OSError:
                    pass
                a.read_all_quiet()
                a.close()
            else:
                if h["end"] == "read":
                    a.s.settimeout(0.005)
                    try:
                        while a.s.recv(1 << 16):
                            pass
                    except OSError:
                        pass
                opened.append(a)
            e.run(ops[i * n:(i + 1) * n])
        for a in opened:
            a.close()
        e.check()
        e.finish()
        if ctx.counter % 15 == 0:
            s.set_now((s.now // 86400 + 1) * 86400)
        s.check_alive()
        return True, [h["end"] for h in case["conns"]]


class Parsers(FuzzPart):
    name = "parsers"
    source = "parse_fuzz"
    runs = {"quick": 250000, "thorough": 20000000}
    words = [b"\x90\x01", b"\x90\x02", b"\x90\x03", b"\0\0\0\x0b", b"\0\1k"]

    def seeds(self, r):
        return [b"\2" + bytefuzz.counter_req(r, [b"k", b"key2"])[:500] for _ in range(60)]


PARTS = [Requests(), Hostile(), Parsers()]
