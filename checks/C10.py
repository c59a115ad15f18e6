"""C10: locks and connection ends."""
import gen
from parts import ModelPart, ServerPart
from yr import OP, OK, LOCKED, NOT_FOUND, Violation, bframe, Binary
import time

PROPERTY = "C10"
RULE = ("(ends) random sequences of 12..50 lock, unlock, unlock_all, lock-and-get and storage "
        "commands on 4 connections over 5 keys, with connections ended by quit, Quit, QuitQ, "
        "close, half-close, reset or an over-large request and reopened (reusing descriptors); "
        "every lock of an ended connection must become available and no other lock may change. "
        "Non-trivial: a connection holding locks ended while another held one. "
        "(abrupt) several connections pipeline locks and die at once without waiting for "
        "replies, while survivors keep theirs and new connections come and go. "
        "Non-trivial: a dying connection asked for a lock")
ASSUME = ["'soon' is taken as 15 seconds"]

T = gen.TEXT_LOCK + ["lock"] * 7 + ["unlock_all", "set", "delete", "get", "incr"]
B = gen.BIN_LOCK + ["Lock"] * 7 + gen.BIN_LAG + gen.BIN_RAU + ["Set", "Delete", "Get", "UnlockAll"]
HOWS = ["quit", "Quit", "QuitQ", "fin", "half", "rst"]


class Ends(ModelPart):
    name = "ends"
    examples = {"quick": 1000, "thorough": 15000}
    cap = {"quick": 40, "thorough": 600}
    prof = gen.Control(gen.names(T, B), {
        "close": lambda r: {"c": r.randrange(4), "how": r.choice(HOWS * 16 + ["big"])},
        "gc": lambda r: {}, "clock": lambda r: {"dt": r.choice([1, 3])}},
        {"close": 0.15, "gc": 0.01, "clock": 0.01}, nconn=4, nkeys=5,
        casw=("0", "0", "0", "cur"), vals=lambda r: ["l", r.choice(["a", "7", "xyz"])],
        exps=lambda r: r.choice([0, 0, 0, 0, 3]))

    def config(self, ctx):
        return {"buckets": [1, 101][ctx.shard % 2], "workers": 1 + ctx.shard}

    def generate(self, rng, ctx):
        ops = [{"p": "t", "o": "set", "c": 0, "k": k, "v": ["l", "1"], "f": 0, "e": 0, "q": 1,
                "j": 1} for k in range(5)]
        return {"ops": ops + gen.ops(rng, self.prof, 12, 50)}

    def engine(self, ctx, case):
        e = super().engine(ctx, case)
        orig = e.ctl_close

        def close(op):
            others = any(it.owner is not None and it.owner != e.cid(op["c"])
                         for it in e.m.items.values())
            n = e.stat.get("close_with_locks", 0)
            orig(op)
            if others and e.stat.get("close_with_locks", 0) > n:
                e.note("others_kept")
        e.ctl_close = close
        return e

    def nontrivial(self, e):
        return bool(e.stat.get("others_kept"))


class Abrupt(ServerPart):
    name = "abrupt"
    busy = False            # collections run all the time; unlocked objects vanish
    racy = True
    examples = {"quick": 500, "thorough": 9000}
    cap = {"quick": 35, "thorough": 500}

    def config(self, ctx):
        return {"buckets": [1, 101][ctx.shard % 2], "workers": 1 + ctx.shard}

    def generate(self, rng, ctx):
        nk = rng.randint(3, 12)
        ops = []
        for _ in range(rng.randint(4, 16)):
            ks = [rng.randrange(nk) for _ in range(rng.randint(1, 5))]
            how = rng.choice(["rst", "fin", "half", "quit", "QuitQ", "stay", "stay", "churn",
                              "cut"])
            ops.append({"ks": ks, "how": how, "cmd": rng.choice(["Lock", "LaG", "LaGKQ", "lock"]),
                        "wait": rng.random() < 0.3, "ua": rng.random() < 0.15})
        return {"nk": nk, "ops": ops, "who": rng.randrange(8)}

    def run(self, ctx, case):
        s = self.s
        x = s.binary()
        keys = [b"%d.%d" % (ctx.counter, i) for i in range(case["nk"])]
        if x.batch(b"".join(bframe(OP["SetQ"], k, b"\0" * 8, b"1") for k in keys)):
            raise Violation("set failed")
        held = {}                # key -> survivor
        surv = []
        asked = False

        def req(o, c):
            out = []
            for i in o["ks"]:
                k = keys[i]
                if o["cmd"] == "lock":
                    out.append(b"lock " + k + b"\r\n")
                else:
                    out.append(bframe(OP[o["cmd"]], k))
            return b"".join(out)

        for o in case["ops"]:
            c = s.binary()
            how = o["how"]
            if how == "churn":
                c.close()
                continue
            if how == "stay":
                for i in o["ks"]:
                    r = c.call("Lock", keys[i])
                    if r.status == OK:
                        if keys[i] in held:
                            raise Violation("%r locked twice" % keys[i])
                        held[keys[i]] = c
                    elif r.status != LOCKED and not (self.busy and r.status == NOT_FOUND):
                        raise Violation("Lock -> %r" % r)
                surv.append(c)
                continue
            asked = True
            w = req(o, c)
            if o["wait"] and o["cmd"] != "lock":
                c.batch(w)
            else:
                c.send(w)
            if how == "rst":
                c.reset()
            elif how == "fin":
                c.close()
            elif how == "half":
                c.half_close()
                surv.append(c)
            elif how == "quit":
                c.send(b"quit\r\n")
                surv.append(c)
            elif how == "QuitQ":
                c.send(bframe(OP["QuitQ"]))
                c.close()
            elif how == "cut":
                c.send(bframe(OP["Set"], keys[0], b"\0" * 8, b"abc")[:-2])
                c.close()
        # one survivor drops everything it has
        mine = sorted({id(c) for c in held.values()})
        if mine and case["who"] < 4:
            owner = [c for c in surv if id(c) == mine[case["who"] % len(mine)]][0]
            if case["who"] % 2:
                owner.batch(bframe(OP["UnlockAll"]))
            else:
                owner.close()
            held = {k: c for k, c in held.items() if c is not owner}
        end = time.monotonic() + 15
        free = [k for k in keys if k not in held]
        while free:
            if self.busy and case["who"] % 2:
                x.batch(bframe(OP["FlushQ"], b"", bytes(4)))
            rs = x.batch(b"".join(bframe(OP["Lock"], k) for k in keys))
            if len(rs) != len(keys):
                raise Violation("wrong number of replies: %r" % rs)
            if x.batch(bframe(OP["UnlockAllQ"])):
                raise Violation("UnlockAllQ failed")
            for k, r in zip(keys, rs):
                if k in held and r.status != LOCKED:
                    raise Violation("lock of %r held by an open connection was lost: %r" % (k, r))
                if k not in held and r.status not in (OK, LOCKED) and \
                        not (self.busy and r.status == NOT_FOUND):
                    raise Violation("Lock %r -> %r" % (k, r))
                if r.status != LOCKED and k in free:
                    free.remove(k)
            if time.monotonic() > end:
                raise Violation("locks of %r outlived their connections" % free)
        # new connections own nothing; survivors still do
        y = s.binary()
        for k, c in held.items():
            r = y.call("Set", k, b"\0" * 8, b"2")
            if r.status != LOCKED:
                raise Violation("set by a new connection on locked %r: %r" % (k, r))
            r = c.call("Set", k, b"\0" * 8, b"3")
            if r.status != OK:
                raise Violation("the holder cannot set %r: %r" % (k, r))
        y.close()
        for c in surv:
            c.close()
        end = time.monotonic() + 15
        todo = list(keys)
        while todo:
            todo = [k for k, r in zip(todo, x.batch(b"".join(
                bframe(OP["Delete"], k) for k in todo))) if r.status == LOCKED]
            if time.monotonic() > end:
                raise Violation("locks of %r outlived their connections (end)" % todo)
        x.close()
        s.check_alive()
        return asked and bool(held), [o["how"] for o in case["ops"]]


class Busy(Abrupt):
    """The same while the server collects without a pause (over its memory limit,
    or flushed again and again)."""
    name = "busy"
    busy = True
    examples = {"quick": 25, "thorough": 1500}
    cap = {"quick": 10, "thorough": 200}

    def config(self, ctx):
        c = super().config(ctx)
        if ctx.shard % 2:
            c["memory_limit"] = 1024
        return c

    def setup(self, ctx):
        super().setup(ctx)
        if ctx.shard % 2:
            # a locked object keeps the server over its limit
            self.pin = self.s.binary()
            self.pin.call("Set", b"pin", bytes(8), b"p" * 100000)
            self.pin.call("Lock", b"pin")


PARTS = [Ends(), Abrupt(), Busy()]
