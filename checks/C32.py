"""C32: secure_erase."""
import random, struct, time
import gen, yr
from model import Mixed
from parts import ModelPart, ServerPart
from yr import (OP, OK, NOT_FOUND, EXISTS, NOT_STORED, LOCKED, NOT_LOCKED, HarnessError, Violation,
                bframe)

PROPERTY = "C32"
TECHNIQUE = ("generated update histories with marked values against servers whose every block handed "
             "back to the allocator is searched for the marks; exact model with and without the "
             "option; shrinking")
RULE = ("erase: histories of 5..60 updates (every storage command, counting, touch, delete, locks, "
        "replace-and-unlock, expiration, flush, eviction, growth over the limit of in-memory "
        "objects, several connections at a time) whose values are made of a marker; with "
        "secure_erase no block may be freed, or reallocated, that holds the marker.  The scanner is "
        "tested on a server without the option first.  Non-trivial: 5 marked values or more were "
        "replaced or removed.  same: histories checked with the exact model, in half of the shards "
        "with secure_erase.  Non-trivial: the history modified and removed objects")
ASSUME = ["object memory is told from network buffers by sending every request in one piece, for "
          "which the server uses buffers that it does not give back",
          "values of file-backed objects are outside of the property"]

MARK = b"\xf5S3cR3t\xf6"
DMARK = b"98765012"         # for numbers: below 13 digits


def text(c, b):
    c.send(b)
    return c.next()


class Erase(ServerPart):
    name = "erase"
    variants = ("scan",)
    racy = True
    examples = {"quick": 110, "thorough": 6000}
    cap = {"quick": 22, "thorough": 700}

    def config(self, ctx):
        return {"secure_erase": "true", "workers": 1 + ctx.shard % 4, "buckets": [1, 7, 101][ctx.shard % 3],
                "gc_interval": 5,
                "heap_data_limit": 4096 if ctx.shard % 2 else "1M",
                "memory_limit": "300K" if ctx.shard % 4 >= 2 else "500M"}

    def setup(self, ctx):
        if not getattr(self, "proved", False):
            s = yr.Server({"secure_erase": "false"}, variant="scan")
            try:
                s.ctl.set_marker(MARK)
                s.ctl.set(scan_on=1)
                c = Mixed(s, s.port)
                for _ in range(10):
                    c.call("Set", b"k", bytes(8), MARK * 20)
                    c.call("Delete", b"k")
                c.close()
                if not s.ctl.get("scan_hits"):
                    raise HarnessError("the scanner of freed blocks does not work")
            finally:
                s.destroy()
            self.proved = True
        super().setup(ctx)
        self.cs = [Mixed(self.s, self.s.port) for _ in range(4)]
        for c in self.cs:
            c.call("Noop")

    def teardown(self, ctx):
        for c in getattr(self, "cs", []):
            c.close()
        super().teardown(ctx)

    def generate(self, rng, ctx):
        digits = rng.random() < .3
        ops = []
        names = ["set"] * 6 + ["add", "replace", "append", "append", "prepend", "prepend", "delete",
                               "delete", "touch", "get", "rau", "lock", "unlock", "cas", "clock", "gc",
                               "flush", "fill", "incr", "decr", "init", "storm"]
        if digits:
            names += ["incr"] * 6 + ["decr"] * 6 + ["init"] * 3
        for _ in range(rng.randint(5, 60)):
            o = rng.choice(names)
            d = {"o": o, "k": rng.randrange(4), "c": rng.randrange(4), "b": rng.randrange(2),
                 "n": rng.choice([1, 1, 2, 3, 10, 40, 120, 256, 500, 512]),
                 "e": rng.choice([0, 0, 0, 1, 4])}
            if o == "storm":
                d["s"] = rng.randrange(1 << 30)
            ops.append(d)
        return {"digits": digits, "ops": ops}

    def hits(self, what):
        for c in self.cs:
            c.call("Noop")
        if self.s.ctl.get("scan_hits"):
            self.s.ctl.set(scan_hits=0)
            raise Violation("memory of a value was given back without being overwritten: " + what)

    def run(self, ctx, case):
        s = self.s
        dg = case["digits"]
        s.ctl.set(scan_on=0, scan_hits=0)
        s.ctl.set_marker(DMARK if dg else MARK)
        s.ctl.set(scan_on=1)
        limit = 4096 if ctx.shard % 2 else 1 << 20
        pre = b"%d." % ctx.counter
        size = {}           # key -> upper bound of its length
        gone = 0
        used = set()
        try:
            for i, op in enumerate(case["ops"]):
                o, k, c = op["o"], pre + b"%d" % op["k"], self.cs[op["c"]]
                if dg:
                    v = b"%s%d" % (DMARK, (i * 7919 + op["n"]) % 9000 + 1000)
                else:
                    v = MARK * op["n"]
                n = size.get(k, 0)
                if n > limit and o not in ("set", "delete", "clock", "gc", "flush", "fill"):
                    # possibly in a file; its reading is outside of the property
                    o = "set" if i % 3 else "delete"
                if o not in ("touch", "get", "lock", "unlock", "clock"):
                    gone += 1
                used.add(o)
                self.one(s, op, o, k, c, v, size, limit, dg)
                self.hits("%s (step %d) of %r" % (o, i, {x: y for x, y in op.items() if x != "s"}))
            for k in size:
                self.cs[0].call("UnlockAll")
                for c in self.cs:
                    c.call("UnlockAll")
                c.call("Delete", k)
            self.hits("final delete")
        finally:
            s.ctl.set(scan_on=0)
        s.check_alive()
        return gone >= 5, sorted(used) + (["digits"] if dg else [])

    def one(self, s, op, o, k, c, v, size, limit, dg):
        x = lambda: struct.pack(">II", 7, op["e"])
        n = size.get(k, 0)
        if o == "set":
            if op["b"]:
                r = c.call("Set", k, x(), v).status
                ok = r == OK
                if r not in (OK, LOCKED):
                    raise Violation("Set -> %#x" % r)
            else:
                r = text(c, b"set %s 7 %d %d\r\n%s\r\n" % (k, op["e"], len(v), v))
                ok = r == b"STORED"
                if r not in (b"STORED", b"LOCKED"):
                    raise Violation("set -> %r" % r)
            size[k] = len(v) if ok else max(n, len(v))
        elif o in ("add", "replace", "rau"):
            c.call({"add": "Add", "replace": "Replace", "rau": "RaU"}[o], k, x(), v)
            size[k] = max(n, len(v))
        elif o == "cas":
            r = c.call("Get", k)
            if r.status == OK:
                c.call("Set", k, x(), v, cas=r.cas)
                size[k] = max(n, len(v))
        elif o in ("append", "prepend"):
            if dg:
                v = v[-1:]
                if n + 1 > 13:
                    return
            if op["b"]:
                c.call({"append": "Append", "prepend": "Prepend"}[o], k, b"", v)
            else:
                text(c, b"%s %s 0 0 %d\r\n%s\r\n" % (o.encode(), k, len(v), v))
            size[k] = n + len(v)
        elif o == "delete":
            if op["b"]:
                c.call("Delete", k)
            else:
                text(c, b"delete %s\r\n" % k)
        elif o == "touch":
            c.call("Touch", k, struct.pack(">I", op["e"]))
        elif o == "get":
            c.call("Get", k)
        elif o == "lock":
            c.call("Lock", k)
        elif o == "unlock":
            c.call("Unlock", k)
        elif o in ("incr", "decr"):
            if op["b"]:
                c.call("Increment" if o == "incr" else "Decrement", k,
                       struct.pack(">QQI", op["n"], 5, 0xffffffff))
            else:
                text(c, b"%s %s %d\r\n" % (o.encode(), k, op["n"]))
        elif o == "init":
            c.call("Delete", k)
            c.call("Increment", k, struct.pack(">QQI", 1, int(DMARK + b"%04d" % op["n"]), 0))
            size[k] = max(n, 13)
        elif o == "clock":
            s.advance(op["e"] + 1)
        elif o == "gc":
            s.gc()
        elif o == "flush":
            ng = int(s.stats()["gc_count"])
            c.call("Flush")
            end = time.monotonic() + 10
            while int(s.stats()["gc_count"]) == ng:
                if time.monotonic() > end:
                    raise Violation("a flush was not done in 10 s")
                time.sleep(.003)
        elif o == "fill":
            # eviction, if the memory limit is low
            w = v if dg else MARK * min(500, limit // 8)
            for i in range(60 if dg else 120):
                self.cs[i % 4].call("Set", b"%s.f%d" % (k, i), bytes(8), w)
            s.gc()
            for i in range(120):
                c.call("Delete", b"%s.f%d" % (k, i))
        elif o == "storm":
            r = random.Random(op["s"])
            ks = [k + b".s%d" % i for i in range(3)]
            for _ in range(r.randint(2, 12)):
                for c in self.cs:
                    y = r.choice(["Set", "Set", "Append", "Prepend", "Delete", "Increment", "Add",
                                  "Get"])
                    w = v if dg else MARK * r.randint(1, 30)
                    if y in ("Append", "Prepend"):
                        w = w[:1] if dg else w
                        if dg:
                            y = "Set"
                            w = v
                    d = {"Delete": b"", "Get": b""}.get(y, w)
                    e = {"Set": bytes(8), "Add": bytes(8)}.get(y, b"")
                    if y == "Increment":
                        d, e = b"", struct.pack(">QQI", 3, int(DMARK) * 10000, 0)
                    c.send(bframe(OP[y], r.choice(ks), e, d))
                for c in self.cs:
                    c.resp()
            c = self.cs[0]
            for q in ks:
                c.call("Delete", q)


class Same(ModelPart):
    name = "same"
    examples = {"quick": 160, "thorough": 6000}
    cap = {"quick": 15, "thorough": 400}
    prof = gen.Control(gen.names(gen.ALL_T + ["append", "prepend"] * 2 + gen.TEXT_LOCK,
                                 gen.ALL_B + gen.BIN_EXT + gen.BIN_CNT + gen.BIN_LOCK + gen.BIN_RAU), {
        "clock": lambda r: {"dt": r.choice([1, 3])}, "gc": lambda r: {},
        "flush": lambda r: {"c": r.randrange(3), "p": r.choice("tb")}},
        {"clock": .03, "gc": .015, "flush": .008}, nkeys=3,
        exps=lambda r: r.choice([0, 0, 1, 3]),
        vals=gen.values(sizes=(100, 3000, 4095, 4096, 4097, 9000, 70000)))

    def config(self, ctx):
        return {"secure_erase": "true" if ctx.shard % 2 else "false", "heap_data_limit": 4096,
                "workers": 1 + ctx.shard % 3, "buckets": [1, 101][ctx.shard // 2 % 2]}

    def generate(self, rng, ctx):
        return {"ops": gen.ops(rng, self.prof, 8, 50)}

    def nontrivial(self, e):
        return bool(e.stat.get("stored"))


PARTS = [Erase(), Same()]
