"""C19: listing keys."""
import threading, time
import gen
from parts import ModelPart, ServerPart
from model import text_safe
from yr import OP, OK, Violation, bframe

PROPERTY = "C19"
RULE = ("(list) random sequences of stores, deletes, expirations, flushes, locks, clock movements, "
        "garbage collections and listings with empty, nested, complete and non-matching prefixes "
        "over 8 keys that share prefixes (text and binary; for binary-only cases with arbitrary "
        "bytes) on an otherwise empty server; every listing must be exactly the model's live keys "
        "with the prefix. Non-trivial: a listing with some but not all objects. (many) thousands "
        "of keys listed at once. (churn) listings while other connections add and remove keys and "
        "collections run: permanent keys exactly once, absent keys never. Non-trivial: changes "
        "happened between request and reply")
ASSUME = ["text keys contain no spaces or control characters"]

T = ["set"] * 5 + ["keys"] * 5 + ["delete", "touch", "add", "append", "lock", "unlock", "get"]
B = ["Set"] * 4 + ["Keys"] * 5 + ["Delete", "SetQ", "Touch", "Add", "Lock", "Unlock", "LaG", "RaU",
                                  "Increment", "GaT"]


class List(ModelPart):
    name = "list"
    examples = {"quick": 700, "thorough": 16000}
    cap = {"quick": 40, "thorough": 500}

    def config(self, ctx):
        return {"buckets": [1, 3, 101, 1009][ctx.shard % 4], "heap_data_limit": 4096}

    def generate(self, rng, ctx):
        binary = rng.random() < 0.4
        al = "ab:" if not binary else "a\x00\xff\r\n "
        keys = []
        while len(keys) < 8:
            if keys and rng.random() < 0.6:
                k = rng.choice(keys) + rng.choice(al)
            elif rng.random() < 0.1:
                k = rng.choice(al) * 250
            else:
                k = "".join(rng.choice(al) for _ in range(rng.randint(1, 4)))
            k = k[:250]
            if k not in keys:
                keys.append(k)

        pres = ["", "", "nope", "b" if not binary else "\xff\xff\xff"] + list(al) + keys + \
            [k[:-1] for k in keys] + [k[:len(k) // 2] for k in keys] + [keys[0] + "zzz"]
        pres = [p[:250] for p in pres]
        prof = gen.Control(gen.names(() if binary else T, B), {
            "clock": lambda r: {"dt": r.choice([1, 2, 3])},
            "gc": lambda r: {},
            "flush": lambda r: {"c": r.randrange(3), "p": r.choice("tb")},
            "close": lambda r: {"c": r.randrange(3), "how": r.choice(["fin", "quit"])}},
            {"clock": 0.06, "gc": 0.01, "flush": 0.01, "close": 0.01},
            nconn=3, nkeys=8, exps=lambda r: r.choice([0, 0, 2, 4]), prefixes=pres,
            vals=lambda r: ["l", r.choice(["a", "7"])] if r.random() < .95 else ["r", 5000, 1])
        return {"keys": keys, "ops": gen.ops(rng, prof, 10, 50)}

    def keys_for(self, ctx, case):
        return [k.encode("latin-1") for k in case["keys"]]

    def valid(self, case):
        return len(case["keys"]) == 8

    def engine(self, ctx, case):
        e = super().engine(ctx, case)
        e.pre = b""
        e.part = 0
        orig = e.keys_reply

        def reply(cn, op, x, r):
            n = sum(1 for k in e.m.items if e.m.live(k))
            if 0 < len(x[1]) < n:
                e.note("partial")
            orig(cn, op, x, r)
        e.keys_reply = reply
        return e

    def nontrivial(self, e):
        return bool(e.stat.get("partial"))


class Many(ServerPart):
    name = "many"
    examples = {"quick": 14, "thorough": 200}
    cap = {"quick": 25, "thorough": 300}

    def config(self, ctx):
        return {"buckets": [1, 50, 1009, 20011][ctx.shard % 4]}

    def generate(self, rng, ctx):
        return {"n": rng.choice([1, 10, 1000, 5000, 12000 if ctx.shard % 4 else 3000]),
                "len": rng.choice([8, 30, 240]), "dels": rng.randrange(100), "slow": rng.randrange(3)}

    def run(self, ctx, case):
        c = self.s.binary()
        t = self.s.text()
        pre = b"m%d." % ctx.counter
        keys = [(pre + b"%d." % i).ljust(case["len"], b"k") for i in range(case["n"])]
        for i in range(0, len(keys), 500):
            if c.batch(b"".join(bframe(OP["SetQ"], k, b"\0" * 8, b"v") for k in keys[i:i + 500])):
                raise Violation("set failed")
        gone = [k for i, k in enumerate(keys) if i % 100 < case["dels"] % 40]
        for i in range(0, len(gone), 500):
            if c.batch(b"".join(bframe(OP["DeleteQ"], k) for k in gone[i:i + 500])):
                raise Violation("delete failed")
        want = sorted(set(keys) - set(gone))
        for what, sent in (("binary", bframe(OP["Keys"], pre, opaque=5)),
                           ("binary all", bframe(OP["Keys"], b"", opaque=5))):
            got = []
            c.send(sent)
            if case["slow"] == 1:
                time.sleep(0.05)
            while True:
                r = c.resp()
                if r.op != OP["Keys"] or r.opaque != 5 or r.status != 0 or r.data or r.extras:
                    raise Violation("bad Keys response %r" % r)
                if not r.key:
                    break
                got.append(r.key)
            if sorted(got) != want:
                raise Violation("%s listing: %d keys (%d distinct), expected %d" % (
                    what, len(got), len(set(got)), len(want)))
        for sent in (b"keys " + pre + b"\r\n", b"keys\r\n"):
            r = t.batch(sent)
            if r[-1:] != [b"END"] or sorted(x[1] for x in r[:-1]) != want:
                raise Violation("text listing: %d lines, expected %d" % (len(r) - 1, len(want)))
        for i in range(0, len(want), 500):
            c.batch(b"".join(bframe(OP["DeleteQ"], k) for k in want[i:i + 500]))
        c.close()
        t.close()
        return case["n"] > 1, ["n%d" % case["n"]]


class Churn(ServerPart):
    name = "churn"
    racy = True
    examples = {"quick": 60, "thorough": 1000}
    cap = {"quick": 25, "thorough": 400}

    def config(self, ctx):
        return {"buckets": [1, 50, 1009, 20011][ctx.shard % 4], "gc_interval": 1}

    def generate(self, rng, ctx):
        return {"perm": rng.choice([20, 200, 1000]), "vol": rng.choice([10, 100]),
                "threads": rng.randint(1, 3), "lists": rng.randint(6, 12),
                "gc": rng.random() < 0.6, "p": rng.choice("tb")}

    def run(self, ctx, case):
        s = self.s
        pre = b"c%d." % ctx.counter
        c = s.binary()
        perm = {pre + b"p%d" % i for i in range(case["perm"])}
        if c.batch(b"".join(bframe(OP["SetQ"], k, b"\0" * 8, b"v") for k in perm)):
            raise Violation("set failed")
        stop = threading.Event()
        vol = [pre + b"v%d" % i for i in range(case["vol"])]
        err = []
        count = [0]

        def churn(w):
            try:
                cn = s.binary()
                i = 0
                while not stop.is_set():
                    k = vol[(i * 7 + w) % len(vol)]
                    b = b"".join(bframe(OP["SetQ"], vol[(i + j) % len(vol)], b"\0" * 8, b"x")
                                 for j in range(8))
                    cn.batch(b + bframe(OP["DeleteQ"], k) +
                             bframe(OP["Touch"], vol[i % len(vol)], b"\0\0\0\1"))
                    i += 1
                    count[0] += 1
                cn.close()
            except Exception as e:
                err.append(e)

        ths = [threading.Thread(target=churn, args=(w,)) for w in range(case["threads"])]
        for t in ths:
            t.start()
        moved = 0
        try:
            t = s.text()
            allowed = perm | set(vol)
            for i in range(case["lists"]):
                n = count[0]
                if case["gc"]:
                    s.ctl.set(now=s.now + 3)
                if case["p"] == "t":
                    r = t.batch(b"keys " + pre + b"\r\n")
                    got = [x[1] for x in r[:-1]]
                    if r[-1] != b"END":
                        raise Violation("listing not ended by END")
                else:
                    r = c.batch(bframe(OP["Keys"], pre))
                    got = [x.key for x in r[:-1]]
                    if r[-1].key:
                        raise Violation("listing not ended by an empty key")
                moved += count[0] > n
                g = set(got)
                if len(g & perm) != len(perm):
                    raise Violation("%d keys that always existed are missing from the listing"
                                    % (len(perm) - len(g & perm)))
                if g - allowed:
                    raise Violation("keys that never existed: %r" % sorted(g - allowed)[:3])
                if sum(1 for k in got if k in perm) != len(perm):
                    raise Violation("a key was listed twice")
            t.close()
        finally:
            stop.set()
            for th in ths:
                th.join()
        if err:
            raise err[0]
        c.batch(b"".join(bframe(OP["DeleteQ"], k) for k in list(perm) + vol))
        c.close()
        return moved > 0, ["moved"] if moved else []


PARTS = [List(), Many(), Churn()]
