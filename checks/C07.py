"""C07: flush_all."""
import time
import gen
from parts import ModelPart, ServerPart
from yr import OP, OK, NOT_FOUND, Violation, bframe

PROPERTY = "C07"
RULE = ("(flush) random sequences of 8..40 commands of all kinds in both protocols with immediate "
        "flushes, explicit-zero flushes, relative and absolute delayed flushes (noreply and quiet "
        "forms too), clock movements to one second before, at and after the flush time, locks and "
        "garbage collections, compared with the model. Non-trivial: a flush took effect while "
        "objects existed. (pending) the same with many collections while a delayed flush is pending. "
        "Non-trivial: a collection ran before the flush was due. (overlap) histories of stores, "
        "immediate and delayed flushes without waiting, timed to fall before, into and after the collection of a previous flush over a "
        "large table: what was stored before a flush is gone at once and for good, what was "
        "stored with no flush in effect stays, and delayed flushes still come. Non-trivial: a "
        "flush was requested while another had not been completed")
ASSUME = ["clock driven through a stand-in for time(2)",
          "objects stored between a flush and the end of its collection may be lost",
          "a later flush request replaces a pending delayed one"]

T = gen.ALL_T + ["lock", "unlock", "keys"]
B = gen.ALL_B + ["Lock", "Unlock", "Keys", "LaG", "GaT", "DeleteQ"]


class Flush(ModelPart):
    name = "flush"
    examples = {"quick": 360, "thorough": 9000}
    cap = {"quick": 45, "thorough": 500}

    def config(self, ctx):
        return {"heap_data_limit": 4096, "buckets": [1, 7, 101, 1009][ctx.shard % 4],
                "gc_interval": [10, 1000][ctx.shard // 4 % 2]}

    def server_args(self, ctx):
        return {"now": [2_000_000_000, 1_500_000_000][ctx.shard % 2]}

    def generate(self, rng, ctx):
        d = lambda r: r.choice([1, 1, 2, 3, 5])
        prof = gen.Control(gen.names(T, B), {
            "clock": lambda r: {"dt": r.choice([1, 1, 2, 3])},
            "gc": lambda r: {},
            "flush": lambda r: {"c": r.randrange(3), "p": r.choice("tb"),
                                "q": int(r.random() < .3), "zero": int(r.random() < .3)},
            "flushd": lambda r: {"c": r.randrange(3), "p": r.choice("tb"), "d": d(r),
                                 "abs": int(r.random() < .4), "q": int(r.random() < .3)},
            "verify": lambda r: {}},
            {"clock": 0.07, "gc": 0.01, "flush": 0.04, "flushd": 0.04, "verify": 0.03},
            nconn=3, nkeys=5, exps=lambda r: r.choice([0, 0, 0, 2, 100]),
            vals=lambda r: ["l", r.choice(["a", "7", "xyz"])] if r.random() < .9
            else ["r", 5000, 1])
        return {"ops": gen.ops(rng, prof, 8, 40)}

    def engine(self, ctx, case):
        e = super().engine(ctx, case)
        orig = e.flush_sweep

        def sweep():
            if e.m.items:
                e.note("flushed_objects")
            orig()
        e.flush_sweep = sweep
        return e

    def nontrivial(self, e):
        return bool(e.stat.get("flushed_objects"))


class Pending(Flush):
    """Collections while a delayed flush is pending."""
    name = "pending"
    examples = {"quick": 90, "thorough": 3000}
    cap = {"quick": 15, "thorough": 400}

    def config(self, ctx):
        return dict(super().config(ctx), gc_interval=1)

    def generate(self, rng, ctx):
        prof = gen.Control(gen.names(T, B), {
            "clock": lambda r: {"dt": r.choice([1, 1, 2, 3])},
            "gc": lambda r: {},
            "flush": lambda r: {"c": r.randrange(3), "p": r.choice("tb"), "q": 0, "zero": 0},
            "flushd": lambda r: {"c": r.randrange(3), "p": r.choice("tb"),
                                 "d": r.choice([4, 5, 8, 12, 30, 1000]),
                                 "abs": int(r.random() < .4), "q": int(r.random() < .3)},
            "verify": lambda r: {}},
            {"clock": 0.08, "gc": 0.1, "flush": 0.01, "flushd": 0.08, "verify": 0.04},
            nconn=3, nkeys=5, exps=lambda r: r.choice([0, 0, 0, 6, 100]),
            vals=lambda r: ["l", r.choice(["a", "7", "xyz"])] if r.random() < .9
            else ["r", 5000, 1])
        return {"ops": gen.ops(rng, prof, 12, 40)}

    def engine(self, ctx, case):
        e = super().engine(ctx, case)
        orig = e.ctl_gc

        def gc(op):
            waiting = e.flush_at is not None and e.m.items
            orig(op)
            if waiting and e.flush_at is not None:
                e.note("gc_pending")
        e.ctl_gc = gc
        return e

    def nontrivial(self, e):
        return bool(e.stat.get("gc_pending"))


class Overlap(ServerPart):
    name = "overlap"
    racy = True
    examples = {"quick": 150, "thorough": 4000}
    cap = {"quick": 40, "thorough": 500}

    def config(self, ctx):
        return {"buckets": [400000, 1000000][ctx.shard % 2], "gc_interval": 1000}

    def generate(self, rng, ctx):
        ops = []
        for _ in range(rng.randint(5, 22)):
            o = rng.choice(["set", "set", "set", "flush", "flush", "flushd", "get", "get", "nap",
                            "nap", "nap", "done", "clock"])
            d = {"o": o}
            if o in ("set", "get"):
                a = rng.randrange(24)
                d.update(a=a, b=a + rng.randint(1, 12))
            elif o == "flush":
                d.update(p=rng.choice("tb"), z=int(rng.random() < .3))
            elif o == "flushd":
                d.update(p=rng.choice("tb"), d=rng.randint(1, 4))
            elif o == "nap":
                d["ms"] = rng.choice([0, 1, 2, 4, 8, 12, 20, 30])
            elif o == "clock":
                d["d"] = rng.randint(1, 3)
            ops.append(d)
        return {"ops": ops}

    def run(self, ctx, case):
        s = self.s
        c = s.binary()
        t = s.text()
        pre = b"%d." % ctx.counter
        key = lambda i: pre + b"k%d" % i
        st = {}                 # key -> 'in' | 'out' | '?' (stored in a window)
        val = {}
        win = False             # a flush may be in effect
        pend = None
        n = 0
        overlap = False

        def flush(op, d):
            if op["p"] == "t":
                r = t.one(b"flush_all" + (b" %d" % d if d is not None else b"") + b"\r\n")
                if r != b"OK":
                    raise Violation("flush_all -> %r" % r)
            else:
                r = c.call("Flush", extras=(b"" if d is None else d.to_bytes(4, "big")))
                if r.status != OK:
                    raise Violation("Flush -> %r" % r)

        def check(ks):
            if not ks:
                return
            rs = c.batch(b"".join(bframe(OP["Get"], k) for k in ks))
            for k, r in zip(ks, rs):
                want = st.get(k, "out")
                if r.status == OK:
                    if want == "out":
                        raise Violation("%r is visible although it was flushed" % k)
                    if r.data != val[k]:
                        raise Violation("%r has a wrong value" % k)
                elif r.status == NOT_FOUND:
                    if want == "in":
                        raise Violation("%r was lost; flush in effect: %r" % (k, win))
                else:
                    raise Violation("Get -> %r" % r)

        def done():
            """Wait until no flush is in effect."""
            nonlocal win
            end = time.monotonic() + 20
            k = pre + b"probe"
            while True:
                r = c.batch(bframe(OP["SetQ"], k, b"\0" * 8, b"p") + bframe(OP["Get"], k) +
                            bframe(OP["DeleteQ"], k))
                if r[0].status == OK:
                    break
                if time.monotonic() > end:
                    raise Violation("flush was not carried out in 20s")
                time.sleep(0.001)
            win = False
            rs = c.batch(b"".join(bframe(OP["Get"], k) for k in st))
            for k, r in zip(list(st), rs):
                if st[k] == "?":
                    st[k] = "in" if r.status == OK else "out"
            check(list(st))

        for op in case["ops"]:
            o = op["o"]
            if o == "nap":
                time.sleep(op["ms"] / 1000.0)
            elif o == "set":
                w = b""
                for i in range(op["a"], op["b"]):
                    k = key(i)
                    n += 1
                    val[k] = b"v%d" % n
                    w += bframe(OP["SetQ"], k, b"\0" * 8, val[k])
                    st[k] = "?" if win else "in"
                if c.batch(w):
                    raise Violation("SetQ failed")
            elif o == "get":
                check([key(i) for i in range(op["a"], op["b"])])
            elif o == "flush":
                overlap = overlap or win
                flush(op, 0 if op["z"] else None)
                for k in st:
                    st[k] = "out"
                win, pend = True, None
                check(list(st))
            elif o == "flushd":
                overlap = overlap or win
                flush(op, op["d"])
                pend = s.now + op["d"]
                check(list(st))
            elif o == "clock":
                s.advance(op["d"])
                if pend is not None and s.now >= pend:
                    pend, win = None, True
                    for k in st:
                        st[k] = "out"
                check(list(st))
            elif o == "done":
                done()
        done()
        if pend is not None:
            s.set_now(pend)
            for k in st:
                st[k] = "out"
            check(list(st))
            done()
        c.batch(b"".join(bframe(OP["DeleteQ"], k) for k in st))
        c.close()
        t.close()
        s.check_alive()
        return overlap, sorted({o["o"] for o in case["ops"]})


PARTS = [Flush(), Pending(), Overlap()]
