"""C21: initial replication."""
import random, struct, threading, time
import C22, gen
from model import CONTROL
from parts import ModelPart
from repl import FakeSlave, ReplEngine, wait_frame
from yr import OP, OK, Violation, bframe

PROPERTY = "C21"
TECHNIQUE = ("generated object populations, joining slaves and client updates during a slowed initial "
             "copy: the state the decoded stream of every slave yields is compared with an exact "
             "reference model, and with the master under concurrent clients; shrinking")
RULE = ("initial: 0..400 objects of every size class (empty, in memory, file-backed, up to 1 MiB; in one "
        "configuration up to 12 MiB), with flags, deadlines and locks, then 1..4 slaves that join at "
        "generated points of a history of commands, flushes, evictions, clock movements and closed "
        "connections which runs on while the copy, slowed down by its configured delay, is made; some "
        "slaves read slowly or leave during their copy.  When the copies have ended, each "
        "slave must have exactly the model's objects with value, flags and deadline.  Non-trivial: "
        "something was changed while a copy was being made.  conc: 2..6 connections send pipelines of "
        "updates while slaves join one after another; each slave must end up with the objects of "
        "the master, and with the deadlines of a slave that was there before.  Non-trivial: the "
        "copies of 2 or more slaves were made during the updates")
ASSUME = ["a copy has ended once a collection that began after the slave joined has ended"]

SIZES = [1, 1, 10, 100, 1000, 1023, 1024, 4095, 4096, 4097, 5000, 16384, 70000, 300000, 1048576]


def value(n, seed):
    return (b"%d:" % (seed * 1000003 + n) * (n // 3 + 1))[:n]


class JoinEngine(ReplEngine):
    max_slaves = 4
    joined = False

    def ctl_load(self, op):
        r = random.Random(op["seed"])
        c = self.conn("x")
        fs = []
        total = 0
        for i in range(op["n"]):
            k = self.pre + b"p%d" % i
            n = r.choice(op["sizes"])
            if total + n > 12_000_000:
                n = 10
            total += n
            f = r.choice([0, 1, 0xffffffff, r.randrange(1 << 32)])
            e = 0 if r.random() < .6 else self.m.now + r.choice([1, 3, 10, 100, 1000000])
            self.touched.add(k)
            self.m.store(k, value(n, i), f, e)
            if n == 0:
                fs.append(b"set %s %d %d 0 noreply\r\n\r\n" % (k, f, e))
            else:
                fs.append(bframe(OP["SetQ"], k, struct.pack(">II", f, e), value(n, i)))
        for i in range(0, len(fs), 50):
            x = c.batch(b"".join(fs[i:i + 50]))
            if x:
                raise Violation("loading failed: %r" % x[:2])
        self.note("load")

    def fill(self, *a):
        n = super().fill(*a)
        # a collection for new slaves may be going on: it does not count all of them
        self.s.gc()
        return n

    def exchange(self, c, payload, exp):
        r = super().exchange(c, payload, exp)
        for sl in self.slaves:
            if sl.mark is not None and not sl.slow:
                n = sl.n
                sl.pump()
                if sl.n > n and sl.state.get(sl.mark[0], (None,))[0] != sl.mark[1]:
                    self.note("during")
        return r


CONTROL.update({"load"})

T = gen.ALL_T + ["touch"] * 2 + ["append", "delete", "set"] + gen.TEXT_LOCK
B = gen.ALL_B + gen.BIN_GAT + ["Touch"] * 2 + gen.BIN_DEL + ["Set", "SetQ", "Append", "PrependQ"] + gen.BIN_LOCK + gen.BIN_RAU


def exps(r):
    x = r.random()
    if x < .4:
        return 0
    if x < .7:
        return r.randint(1, 6)
    return ["a", r.randint(-2, 30)]


def vals(r):
    x = r.random()
    if x < .4:
        return ["l", r.choice(["", "a", "7", "41", "xyz"])]
    if x < .8:
        return gen.lit(r)
    return ["r", r.choice([1000, 4096, 4097, 20000, 300000]), r.randrange(10)]


class Initial(ModelPart):
    name = "initial"
    examples = {"quick": 60, "thorough": 4000}
    cap = {"quick": 16, "thorough": 700}
    prof = gen.Control(gen.names(T, B), {
        "clock": lambda r: {"dt": r.choice([1, 1, 2, 3])},
        "clockto": lambda r: {"k": r.randrange(6), "d": r.choice([-1, 0, 0, 1])},
        "flush": lambda r: {"c": r.randrange(3), "p": r.choice("tb"), "q": int(r.random() < .3)},
        "close": lambda r: {"c": r.randrange(3), "how": r.choice(["fin", "rst", "quit", "half"])},
        "nap": lambda r: {"ms": r.choice([1, 5, 20])},
        "leave": lambda r: {"i": r.randrange(4), "rst": r.randrange(2)},
        "sync": lambda r: {},
        "join": lambda r: {"rcv": r.choice([None, None, 2048])}},
        {"clock": .03, "clockto": .03, "flush": .008, "close": .02, "nap": .04, "leave": .01,
         "sync": .01, "join": .04},
        nkeys=6, exps=exps, vals=vals)

    def config(self, ctx):
        i = ctx.shard % 4
        c = {"heap_data_limit": 4096, "buckets": [101, 1009, 211, 1009][i],
             "initial_repl_sleep_delay_usec": [1000, 100, 0, 60][i],
             "gc_interval": [10, 4, 10, 10][i], "workers": [1, 2, 4, 8][i],
             "slave_timeout": 2147483647, "repl_buffer_size": 30}
        if i == 3:
            c["memory_limit"] = 409600
        if i == 2:
            c["max_data_size"] = "12M"
        return c

    def generate(self, rng, ctx):
        sizes = rng.choice([SIZES, [0] + SIZES, [0, 1, 5], [10, 100, 5000], [4096, 4097]])
        if ctx.shard % 4 == 2 and rng.random() < .3:
            sizes = [100, 3 << 20, 12 << 20]
        elif ctx.shard % 4 == 3:
            sizes = [x for x in sizes if x <= 1000 or x > 4096] or [100]
        n = rng.choice([0, 1, 5, 30, 100, 400])
        if ctx.shard % 4 == 3:
            n = min(n, 100)
        locks = [{"o": "Lock", "p": "b", "c": rng.randrange(3), "k": rng.randrange(6), "oq": i}
                 for i in range(rng.randint(0, 3))]
        ops = gen.ops(rng, self.prof, 10, 70)
        i = rng.randint(0, len(ops) // 2)
        ops.insert(i, {"o": "join", "rcv": rng.choice([None, None, 2048])})
        if rng.random() < .15:
            ops.insert(rng.randint(0, len(ops)), {"o": "join", "w": 1})
        if ctx.shard % 4 == 3 and rng.random() < .2:
            ops.insert(rng.randint(0, len(ops)), {"o": "pressure"})
        return {"net": rng.choice([[0, 0], [0, 0], [4096, 0], [4096, 1000], [0, 100]]),
                "ops": [{"o": "load", "n": n, "sizes": sizes, "seed": rng.randrange(1 << 20)}] +
                locks + ops + [{"o": "sync"}]}

    def engine(self, ctx, case):
        pre = b"%d." % ctx.counter
        self.e = e = JoinEngine(self.s, prefix=pre, keys=[b"p%d" % i for i in range(6)])
        e.conns = self.conns
        return e

    def reset(self, ctx):
        for sl in getattr(getattr(self, "e", None), "slaves", []):
            sl.close()
        super().reset(ctx)

    def run(self, ctx, case):
        self.s.ctl.set(sndbuf=case["net"][0], send_max=case["net"][1])
        try:
            return super().run(ctx, case)
        finally:
            self.s.ctl.set(sndbuf=0, send_max=0)
            for sl in self.e.slaves:
                sl.close()

    def nontrivial(self, e):
        return bool(e.stat.get("initial") and e.stat.get("during"))


class Conc(C22.Conc):
    name = "conc"
    examples = {"quick": 40, "thorough": 3000}
    cap = {"quick": 12, "thorough": 600}
    lists = ("conns", "joins")

    def config(self, ctx):
        c = super().config(ctx)
        c["buckets"] = [11, 101, 1009, 1009][ctx.shard % 4]
        c["initial_repl_sleep_delay_usec"] = [2000, 300, 50, 0][ctx.shard % 4]
        return c

    def generate(self, rng, ctx):
        c = super().generate(rng, ctx)
        for x in c["conns"]:
            x["n"] = rng.choice([30, 150, 400])
        c["joins"] = [rng.choice([0, 0, 1, 5, 30]) for _ in range(rng.randint(1, 4))]
        c["load"] = rng.choice([0, 20, 300])
        return c

    def setup(self, ctx):
        super().setup(ctx)
        for sl in self.sl[1:]:
            sl.close()
        del self.sl[1:]
        self.s.wait_stat(lambda x: int(x["slaves"]) == 1, "places of closed slaves to be free")

    def run(self, ctx, case):
        s = self.s
        a = self.cs[0]
        pre = b"%d." % ctx.counter
        for i in range(case["load"]):
            a.send(bframe(OP["SetQ"], pre + b"x%d" % i, bytes(8), b"%d" % i))
        for k, v in ((b"cnt2", b"0"), (b"log", b"L")):
            a.call("Set", pre + k, bytes(8), v)
        pay = [self.payload(x, pre, i) for i, x in enumerate(case["conns"])]
        first = self.sl[0]
        new = []
        n0 = int(s.stats()["gc_count"])
        errs, busy = [], [0]

        def feed(c, w):
            try:
                for i in range(0, len(w), 40):
                    time.sleep(.002)
                    c.send(b"".join(w[i:i + 40]))
                c.send(bframe(OP["Noop"], opaque=0x4e4f))
                while True:
                    r = c.next()
                    if not isinstance(r, (bytes, tuple)) and r.op == OP["Noop"]:
                        return
            except BaseException as e:
                errs.append(e)
        s.ctl.set(jitter=case["jit"])
        try:
            ths = [threading.Thread(target=feed, args=x) for x in zip(self.cs, pay)]
            for t in ths:
                t.start()
            todo = list(case["joins"])
            t0 = time.monotonic()
            overlap = 0
            while any(t.is_alive() for t in ths):
                if todo and time.monotonic() - t0 >= todo[0] / 1000:
                    todo.pop(0)
                    t0 = time.monotonic()
                    new.append(FakeSlave(s))
                for sl in new:
                    if sl.pump():
                        overlap += 1
                first.pump()
                time.sleep(.001)
            if errs:
                raise errs[0]
        finally:
            s.ctl.set(jitter=0)
        try:
            for _ in todo:
                new.append(FakeSlave(s))
            s.gc()
            s.gc()
            # three collections in a row may be made for new slaves
            k0, v0 = pre + b"end", b"%d" % ctx.counter
            a.call("Set", k0, bytes(8), v0)
            wait_frame([first] + new, lambda sl: sl.state.get(k0, (None,))[0] == v0,
                       "final Set", s)
            log, first.log = first.log, []
            now = s.now
            keys = sorted({k for sl in [first] + new for k in sl.state if k.startswith(pre)} |
                          {pre + b"x%d" % i for i in range(case["load"])})
            for k in keys:
                r = a.call("Get", k)
                for sl in [first] + new:
                    who = "a slave that was there before" if sl is first else "a new slave"
                    g = sl.state.get(k)
                    if g is not None and g[2] and g[2] <= now:
                        g = None
                    if r.status == OK:
                        if g is None or g[0] != r.data or struct.pack(">I", g[1]) != r.extras:
                            raise Violation("%r is %r on the master, %r on %s" % (k, r, g, who))
                        if g[2] != first.state[k][2]:
                            raise Violation("%r has deadline %d on %s, %d on one that was there "
                                            "before" % (k, g[2], who, first.state[k][2]))
                    elif g is not None:
                        raise Violation("%r does not exist on the master at %d, is %r on %s; "
                                        "changes: %r, before: %r" % (
                                            k, now, g, who, [f for f in sl.log if f[1] == k][-3:],
                                            [f for f in log if f[1] == k][-3:]))
            for k in keys:
                a.send(bframe(OP["DeleteQ"], k))
            a.call("Get", keys[0])
            s.check_alive()
            for sl in [first] + new:
                sl.alive()
        finally:
            for sl in new:
                sl.close()
        s.wait_stat(lambda x: int(x["slaves"]) == 1, "places of closed slaves to be free")
        return overlap > 1 and len(new) > 1, ["%d slaves" % len(new)]


PARTS = [Initial(), Conc()]
