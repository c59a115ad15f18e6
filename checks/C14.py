"""C14: hostile input on the memcache port."""
import random, time
import bytefuzz, gen, C15, C16
from fuzzpart import FuzzPart
from model import Engine
from parts import ModelPart, ServerPart
from yr import OP, OK, Violation, bframe

PROPERTY = "C14"
RULE = ("(server) hostile byte streams - grammar-generated text and binary requests with absurd "
        "numbers, lengths and keys, mutated at random, mixed with garbage - on 1..4 connections of "
        "a server built with address and undefined-behaviour sanitizers, ended by close, reset, "
        "half-close or left open; a victim connection with its own (locked) objects runs a random "
        "model-checked history meanwhile and every victim object must keep its value.  (recover) "
        "random sequences of valid commands of both protocols mixed with malformed lines and "
        "frames on the same connections, all replies compared with the model.  (parsers) "
        "coverage-guided fuzzing of both request parsers on exactly sized blocks with sanitizers "
        "and consistency oracles (fields inside the request, no dependence on following bytes, no "
        "proper prefix complete).  Non-trivial: (server) a mutated or garbage stream was sent; "
        "(recover) malformed input was followed by a valid command; (parsers) an input that "
        "reached new code")
ASSUME = ["victim objects are locked, since hostile clients may legitimately flush or overwrite"]


class Hostile(ServerPart):
    name = "server"
    racy = True
    variants = ("asan",)
    examples = {"quick": 800, "thorough": 20000}
    cap = {"quick": 40, "thorough": 700}

    def config(self, ctx):
        return {"heap_data_limit": 4096, "buckets": [1, 101][ctx.shard % 2],
                "workers": 1 + ctx.shard % 5}

    def generate(self, rng, ctx):
        keys = [b"z%d" % i for i in range(4)] + [b"V0", b"V1"]
        conns = []
        for _ in range(rng.randint(1, 4)):
            mixed = rng.random()
            req = (lambda r, k: (bytefuzz.text_req if r.random() < mixed else
                                 bytefuzz.bin_req)(r, k))
            conns.append({"pieces": bytefuzz.stream(rng, req, keys),
                          "end": rng.choice(["rst", "fin", "half", "open", "read"]),
                          "cut": rng.random() < .3, "seed": rng.randrange(1 << 30)})
        T = ["set", "append", "prepend", "replace", "incr", "decr", "get", "gets", "cas"]
        B = ["Set", "SetQ", "Append", "Prepend", "Increment", "Get", "GetKQ", "Replace"]
        prof = gen.Prof(gen.names(T, B), nconn=1, nkeys=3, vals=lambda r: gen.numeral(r)
                        if r.random() < .5 else ["r", r.choice([10, 3000, 5000]), r.randrange(9)])
        return {"conns": conns, "ops": gen.ops(rng, prof, 3, 12)}

    def run(self, ctx, case):
        s = self.s
        e = Engine(s, prefix=b"v%d." % ctx.counter)
        e.conns = self.conns
        ks = [e.key(i) for i in range(3)]
        # victim objects, created and locked while no flush is in effect
        end = time.monotonic() + 20
        c = e.conn(0)
        for k in ks:
            while True:
                rs = c.batch(bframe(OP["Set"], k, b"\0" * 8, b"10") + bframe(OP["Lock"], k))
                if len(rs) == 2 and rs[0].status == OK and rs[1].status == OK:
                    break
                if time.monotonic() > end:
                    raise Violation("cannot store and lock an object: %r" % rs)
                time.sleep(0.002)
            e.m.store(k, b"10", 0, 0)
            e.m.lock(e.cid(0), k)
        ops = case["ops"]
        n = max(1, len(ops) // max(1, len(case["conns"])))
        opened = []
        for i, h in enumerate(case["conns"]):
            a = s.raw()
            a.timeout = 5
            w = bytefuzz.bytes_of(h["pieces"]).replace(b"V0", ks[0]).replace(b"V1", ks[1])
            r = random.Random(h["seed"])
            try:
                if h["cut"] and len(w) > 2:
                    p = r.randrange(1, len(w))
                    a.s.sendall(w[:p])
                    time.sleep(r.choice([0, .001]))
                    a.s.sendall(w[p:])
                else:
                    a.s.sendall(w)
            except OSError:
                pass
            if h["end"] == "rst":
                a.reset()
            elif h["end"] == "fin":
                a.close()
            elif h["end"] == "half":
                try:
                    a.s.shutdown(1)
                except OSError:
                    pass
                a.read_all_quiet()
                a.close()
            elif h["end"] == "read":
                # whatever comes back, the connection is usable or closed
                a.s.settimeout(0.005)
                try:
                    while a.s.recv(1 << 16):
                        pass
                except OSError:
                    pass
                opened.append(a)
            else:
                opened.append(a)
            e.run(ops[i * n:(i + 1) * n])
        for a in opened:
            a.close()
        for k in ks:
            # lock and value are still there (deadlines may have been touched)
            it = e.m.items[k]
            r = c.call("Get", k)
            if r.status != OK or r.data != it.v:
                raise Violation("victim object %r: expected %r, got %r" % (k, it.v[:60], r))
            r = e.conn("x").call("Set", k, b"\0" * 8, b"stolen")
            if r.status != 0x10:
                raise Violation("lock of victim object %r was lost: %r" % (k, r))
        rs = c.batch(b"".join(bframe(OP["DeleteQ"], k) for k in ks))
        if rs:
            raise Violation("delete of victim objects: %r" % rs)
        if ctx.counter % 20 == 0:
            # a fresh start: no pending flush, no objects of earlier streams
            t = s.text()
            t.one(b"verbosity warning\r\n")
            t.one(b"flush_all\r\n")
            t.close()
        s.check_alive()
        return True, [h["end"] for h in case["conns"]]


class MixEng(C16.TextEngine, C15.BinEngine):
    pass


class Recover(ModelPart):
    name = "recover"
    variants = ("asan",)
    examples = {"quick": 200, "thorough": 6000}
    cap = {"quick": 40, "thorough": 500}
    T = gen.TEXT_STORE + ["incr", "delete", "touch", "get", "gets", "lock", "unlock"]
    B = ["Set", "SetQ", "Add", "Get", "GetKQ", "Delete", "Increment", "Append", "Lock", "UnlockAll",
         "GaT", "LaG", "RaU"]
    prof = gen.Prof(gen.names(T, B), nconn=3, nkeys=4, pipe=.8, vals=lambda r: gen.numeral(r)
                    if r.random() < .5 else gen.lit(r) if r.random() < .7 else ["r", 5000, 1],
                    exps=lambda r: r.choice([0, 0, 100]))

    def config(self, ctx):
        return {"heap_data_limit": 4096, "buckets": [1, 101][ctx.shard % 2]}

    def generate(self, rng, ctx):
        ops = []
        for _ in range(rng.randint(10, 50)):
            x = rng.random()
            if x < .15:
                d = {"p": "t", "o": "bad", "seed": rng.randrange(1 << 30)}
            elif x < .2:
                d = {"p": "t", "o": "crlf", "k": rng.randrange(4), "v": gen.lit(rng, 20),
                     "cmd": rng.choice(gen.TEXT_STORE), "q": 0, "end": "xx"}
            elif x < .35:
                d = C15.badframe(rng)
            elif x < .38:
                d = {"p": "b", "o": "unk", "code": rng.choice(C15.UNKNOWNS), "kl": 3, "el": 0,
                     "dl": rng.choice([0, 5]), "seed": rng.randrange(1 << 20)}
            else:
                d = gen.op(rng, self.prof)
            d.setdefault("c", rng.randrange(3))
            d.setdefault("j", int(rng.random() < .8))
            d.setdefault("oq", rng.randrange(256))
            ops.append(d)
        return {"ops": ops}

    def engine(self, ctx, case):
        e = MixEng(self.s, prefix=b"%d." % ctx.counter)
        e.conns = self.conns
        return e

    def nontrivial(self, e):
        return bool(e.stat.get("malformed") and e.stat.get("stored"))


class Parsers(FuzzPart):
    name = "parsers"
    source = "parse_fuzz"
    runs = {"quick": 250000, "thorough": 30000000}
    words = [w.encode() for w in bytefuzz.TEXT] + [b"noreply", b"\r\n", b" 0 0 5\r\nabcde\r\n",
                                                   b"\x80\x01", b" 1"]

    def seeds(self, r):
        out = []
        for _ in range(60):
            out.append(b"\0" + bytefuzz.text_req(r, [b"k", b"key2"])[:500])
            out.append(b"\1" + bytefuzz.bin_req(r, [b"k", b"key2"])[:500])
        return out


PARTS = [Hostile(), Recover(), Parsers()]
