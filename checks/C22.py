"""C22: replication of changes."""
import random, struct, threading, time
import gen, yr
from model import Mixed
from parts import ModelPart, ServerPart
from repl import NAME, SETQ, TOUCH, DELQ, FakeSlave, ReplEngine, wait_frame
from yr import OP, OK, LOCKED, Violation, bframe

PROPERTY = "C22"
TECHNIQUE = ("generated command histories against a master with recording slaves: the state the "
             "decoded stream yields is compared with an exact reference model and, under "
             "concurrency, between slaves and with the master; shrinking")
RULE = ("stream: histories of 10..60 commands of every kind in both protocols from 3 connections, with "
        "clock movements, expiration, collections, flushes (immediate and delayed), eviction, closed "
        "connections, and 1..3 slaves of which some join or leave on the way; at several points every "
        "slave's state must equal the model's (value, flags and deadline of each key), objects "
        "whose deadline has passed must be gone from slaves after a collection, and phases of commands "
        "that only read or fail must replicate nothing; send buffers and the length of single sends "
        "are limited in half of the cases.  Non-trivial: stores, touches and removals were replicated.  conc: 2..6 connections send pipelines of updates of shared keys "
        "at the same time; each slave must end up with the master's state, slaves must have got the "
        "same changes of each key in the same order, counters must move one by one and appended "
        "values must grow; deadlines are compared by moving the clock.  Non-trivial: 3 or more "
        "connections changed the same key")
ASSUME = ["slaves that join or leave are in sync once a whole collection has passed after their "
          "joining; objects whose deadline has passed may or may not be present"]

T = gen.ALL_T + ["touch"] * 3 + ["append", "prepend", "cas", "incr", "decr", "delete"] + gen.TEXT_LOCK
B = gen.ALL_B + gen.BIN_GAT * 2 + ["Touch"] * 3 + gen.BIN_EXT + gen.BIN_CNT * 2 + gen.BIN_DEL + \
    gen.BIN_LOCK + gen.BIN_RAU * 2 + gen.BIN_LAG


def exps(r):
    x = r.random()
    if x < 0.35:
        return 0
    if x < 0.6:
        return r.randint(1, 6)
    if x < 0.8:
        return ["a", r.randint(-2, 30)]
    return r.choice([2592000, 2592001, 86400, 0x7fffffff, 0x80000000, 0xfffffffe, 1000000])


def vals(r):
    x = r.random()
    if x < .4:
        return ["l", r.choice(["", "a", "7", "41", "xyz", "18446744073709551615", "0"])]
    if x < .9:
        return gen.lit(r)
    return ["r", r.choice([1000, 4095, 4096, 4097, 20000, 300000]), r.randrange(10)]


class Stream(ModelPart):
    name = "stream"
    examples = {"quick": 90, "thorough": 4000}
    cap = {"quick": 22, "thorough": 700}
    prof = gen.Control(gen.names(T, B), {
        "clock": lambda r: {"dt": r.choice([1, 1, 2, 3, 5])},
        "clockto": lambda r: {"k": r.randrange(4), "d": r.choice([-1, 0, 0, 1])},
        "gc": lambda r: {},
        "flush": lambda r: {"c": r.randrange(3), "p": r.choice("tb"), "q": int(r.random() < .3)},
        "flushd": lambda r: {"c": r.randrange(3), "p": r.choice("tb"), "d": r.randint(1, 5),
                             "q": int(r.random() < .3)},
        "close": lambda r: {"c": r.randrange(3), "how": r.choice(["fin", "rst", "quit", "half"])},
        "burst": lambda r: {"n": [r.choice([1, 100, 65536, 300000, 1048576 - r.randrange(100)])
                                  for _ in range(r.randint(1, 8))]},
        "sync": lambda r: {}, "sweep": lambda r: {}, "reads": lambda r: {"r": r.randrange(100)},
        "join": lambda r: {"w": int(r.random() < .5), "rcv": r.choice([None, None, 2048])},
        "leave": lambda r: {"i": r.randrange(3), "rst": r.randrange(2)}},
        {"clock": .05, "clockto": .06, "gc": .012, "flush": .008, "flushd": .006, "close": .015,
         "burst": .008, "sync": .03, "sweep": .015, "reads": .02, "join": .015, "leave": .006},
        nkeys=4, exps=exps, vals=vals)

    def config(self, ctx):
        c = {"heap_data_limit": 4096, "buckets": [1, 2, 101, 1009][ctx.shard % 4],
             "gc_interval": [10, 2, 100, 4][ctx.shard % 4], "workers": 1 + ctx.shard % 4,
             "slave_timeout": 2147483647, "repl_buffer_size": 30}
        if ctx.shard % 4 == 3:
            c["memory_limit"] = 204800
        return c

    def server_args(self, ctx):
        return {"now": [2_000_000_000, 1_700_000_000, 2_500_000_000, 3_000_000_000][ctx.shard % 4]}

    def generate(self, rng, ctx):
        ops = gen.ops(rng, self.prof, 10, 60)
        if ctx.shard % 4 == 3 and rng.random() < .15:
            ops.insert(rng.randint(0, len(ops)), {"o": "pressure"})
        return {"net": rng.choice([[0, 0], [0, 0], [4096, 0], [4096, 1000], [0, 7], [0, 100]]),
                "ops": [{"o": "join", "w": 1, "rcv": rng.choice([None, 2048])}] + ops + [{"o": "sync"}, {"o": "sweep"}]}

    def engine(self, ctx, case):
        pre = b"%d." % ctx.counter
        self.e = e = ReplEngine(self.s, prefix=pre, keys=[
            b"k0", b"k1", b"\xffk" + b"2" * (248 - len(pre)), b"3"])
        e.conns = self.conns
        return e

    def reset(self, ctx):
        for sl in getattr(getattr(self, "e", None), "slaves", []):
            sl.close()
        super().reset(ctx)

    def run(self, ctx, case):
        self.s.ctl.set(sndbuf=case["net"][0], send_max=case["net"][1])
        try:
            return super().run(ctx, case)
        finally:
            self.s.ctl.set(sndbuf=0, send_max=0)
            for sl in self.e.slaves:
                sl.close()

    def nontrivial(self, e):
        return bool(e.stat.get("SetQ") and e.stat.get("Touch") and e.stat.get("DeleteQ"))


class Conc(ServerPart):
    name = "conc"
    racy = True
    examples = {"quick": 60, "thorough": 3000}
    cap = {"quick": 14, "thorough": 700}
    lists = ("conns",)

    def config(self, ctx):
        return {"heap_data_limit": 4096, "buckets": [1, 2, 101, 1009][ctx.shard % 4],
                "gc_interval": 3, "workers": [8, 2, 4, 16][ctx.shard % 4],
                "slave_timeout": 2147483647, "repl_buffer_size": 30}

    def setup(self, ctx):
        super().setup(ctx)
        self.sl = [FakeSlave(self.s) for _ in range(1 + ctx.shard % 3)]
        c = self.s.admin
        c.send(b"set first 0 0 1\r\n1\r\n")
        c.line()
        self.s.gc()
        self.s.gc()
        self.s.gc()
        self.cs = [Mixed(self.s, self.s.port) for _ in range(6)]

    def teardown(self, ctx):
        for c in getattr(self, "cs", []) + getattr(self, "sl", []):
            c.close()
        super().teardown(ctx)

    def generate(self, rng, ctx):
        names = rng.choice([["Set", "SetQ", "Delete", "Touch", "GaT", "Append", "tset", "tdelete",
                             "ttouch", "Get", "RaU", "Lock", "Add", "Replace", "tprepend"],
                            ["Set", "Delete"], ["Set", "Touch"], ["tset", "tappend", "tdelete"]])
        return {"jit": rng.choice([0, 0, 200, 500]), "gc": rng.randrange(3),
                "conns": [{"n": rng.choice([5, 30, 150]), "seed": rng.randrange(1 << 30),
                           "names": rng.choice([names, names, ["Increment"], ["tincr", "appendlog"],
                                                ["appendlog"]])}
                          for _ in range(rng.randint(2, 6))]}

    def payload(self, spec, pre, i):
        r = random.Random(spec["seed"])
        out = []
        now = self.s.now
        for j in range(spec["n"]):
            o = r.choice(spec["names"])
            k = pre + b"%d" % r.randrange(5)
            e = r.choice([0, 0, 100, 200 + r.randrange(1000)])
            v = b"%d.%d|" % (i, j) * r.choice([1, 1, 3, 30])
            if r.random() < .02:
                v = v * (5000 // len(v))
            x = struct.pack(">II", r.randrange(1 << 32), e)
            if o in ("Set", "SetQ", "Add", "Replace", "RaU"):
                out.append(bframe(OP[o], k, x, v))
            elif o == "Delete":
                out.append(bframe(OP[o], k))
            elif o in ("Touch", "GaT"):
                out.append(bframe(OP[o], k, x[4:]))
            elif o == "Append":
                out.append(bframe(OP[o], k, b"", v[:10]))
            elif o == "Get":
                out.append(bframe(OP[o], k))
            elif o == "Lock":
                out.append(bframe(OP["Lock"], k) + bframe(OP["Unlock"], k))
            elif o == "tset":
                out.append(b"set %s %d %d %d\r\n%s\r\n" % (k, r.randrange(100), e, len(v), v))
            elif o == "tdelete":
                out.append(b"delete %s\r\n" % k)
            elif o == "ttouch":
                out.append(b"touch %s %d\r\n" % (k, e))
            elif o in ("tprepend", "tappend"):
                out.append(b"%s %s 0 0 2\r\nab\r\n" % (o[1:].encode(), k))
            elif o == "Increment":
                out.append(bframe(OP[o], pre + b"cnt", struct.pack(">QQI", 1, 1, 0)))
            elif o == "tincr":
                out.append(b"incr %s 1\r\n" % (pre + b"cnt2"))
            elif o == "appendlog":
                out.append(b"append %s 0 0 4\r\n%03d,\r\n" % (pre + b"log", j))
        return out

    def run(self, ctx, case):
        s = self.s
        pre = b"%d." % ctx.counter
        a = self.cs[0]
        for k, v in ((b"cnt2", b"0"), (b"log", b"L")):
            a.call("Set", pre + k, bytes(8), v)
        s.ctl.set(jitter=case["jit"])
        try:
            bar = threading.Barrier(len(case["conns"]) + 1)
            errs = []
            pay = [self.payload(x, pre, i) for i, x in enumerate(case["conns"])]

            def feed(c, w):
                try:
                    bar.wait()
                    c.send(b"".join(w) + bframe(OP["Noop"], opaque=0x4e4f))
                    while True:
                        r = c.next()
                        if not isinstance(r, (bytes, tuple)) and r.op == OP["Noop"]:
                            return
                except BaseException as e:
                    errs.append(e)
            ths = [threading.Thread(target=feed, args=x) for x in zip(self.cs, pay)]
            for t in ths:
                t.start()
            bar.wait()
            for _ in range(case["gc"]):
                s.gc()
            for t in ths:
                while t.is_alive():
                    t.join(.01)
                    for sl in self.sl:
                        sl.pump()
            if errs:
                raise errs[0]
        finally:
            s.ctl.set(jitter=0)
        k0, v0 = pre + b"end", b"%d" % ctx.counter
        a.call("Set", k0, bytes(8), v0)
        wait_frame(self.sl, lambda sl: sl.state.get(k0, (None,))[0] == v0, "final Set", s)
        logs = []
        for sl in self.sl:
            h = {}
            for f in sl.log:
                if f[1].startswith(pre):
                    h.setdefault(f[1], []).append(f)
            sl.log = []
            logs.append(h)
        for h in logs[1:]:
            for k in set(h) | set(logs[0]):
                # collections remove expired objects; both slaves are told
                if h.get(k) != logs[0].get(k):
                    x, y = logs[0].get(k, []), h.get(k, [])
                    i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q),
                             min(len(x), len(y)))
                    raise Violation("two slaves got different changes of %r: at %d, %r / %r" %
                                    (k, i, x[i:i + 2], y[i:i + 2]))
        for name in (b"cnt", b"cnt2"):
            vs = [int(f[2]) for f in logs[0].get(pre + name, []) if f[0] == SETQ]
            for x, y in zip(vs, vs[1:]):
                if y != x + 1:
                    raise Violation("replicated values of a counter: %d, then %d" % (x, y))
        vs = [f[2] for f in logs[0].get(pre + b"log", []) if f[0] == SETQ]
        for x, y in zip(vs, vs[1:]):
            if y[:len(x)] != x or len(y) != len(x) + 4:
                raise Violation("replicated values of an appended object: %r, then %r" %
                                (x[-40:], y[-40:]))
        # state
        keys = [pre + b"%d" % i for i in range(5)] + [pre + b"cnt", pre + b"cnt2", pre + b"log"]

        def compare(when):
            now = s.now
            for k in keys:
                r = a.call("Get", k)
                for sl in self.sl:
                    g = sl.state.get(k)
                    if g is not None and g[2] and g[2] <= now:
                        g = None
                    if r.status == OK:
                        if g is None or g[0] != r.data or struct.pack(">I", g[1]) != r.extras:
                            raise Violation("%s: %r is %r on the master, %r on a slave" %
                                            (when, k, r, g))
                    elif g is not None:
                        raise Violation("%s: %r does not exist on the master, is %r on a slave" %
                                        (when, k, g))
        compare("after concurrent updates")
        if case["gc"] == 0:
            ds = {}
            for sl in self.sl:
                for k in keys:
                    if k in sl.state and sl.state[k][2] > s.now:
                        ds[sl.state[k][2]] = k
            for d in sorted(ds)[:6]:
                s.set_now(d - 1)
                compare("before the deadline %d" % d)
                s.set_now(d)
                compare("at the deadline %d" % d)
        for k in keys + [k0]:
            a.call("Delete", k)
        s.check_alive()
        for sl in self.sl:
            sl.alive()
        n = {}
        for x in case["conns"]:
            for y in set(x["names"]):
                n[y] = n.get(y, 0) + 1
        return max(n.values()) >= 3, ["%d slaves" % len(self.sl)] + sorted(n)


PARTS = [Stream(), Conc()]
