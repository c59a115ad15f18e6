"""C08: eviction only under memory pressure, oldest-unused first."""
import struct
from model import Mixed, value
from parts import ServerPart
from yr import OP, OK, NOT_FOUND, LOCKED, Violation, bframe, Binary

PROPERTY = "C08"
RULE = ("collections are run one at a time (the monotonic clock is stepped).  Sequences of stores "
        "(small, large and file-backed), reads, touches, counts and other updates, deletes, locks, ambiguous "
        "accesses (refused commands) and collections on tens of keys; the memory limit is far away "
        "(calm) or crossed by fillers (pressure).  After every collection the surviving keys are "
        "listed (listing is not an access) and compared with bounds on the number of collections "
        "since each object's last access: nothing vanishes while use is within the limit, locked "
        "objects and objects accessed since the previous collection stay, no object vanishes while "
        "a longer-unaccessed unlocked one stays, and when idle the use falls under the limit.  "
        "Non-trivial: (pressure) some objects of the case were evicted while others of it, "
        "unlocked, survived the same collection; (calm) an object went unaccessed for 5 or more "
        "collections and a file-backed object existed")
ASSUME = ["used memory is what the last collection measured, as documented for the statistics"]

READS = ["get", "gets", "Get", "GetQ", "GetK", "GetKQ", "GaT", "GaTKQ", "LaG"]
WRITES = ["append", "prepend", "Append", "Prepend", "touch", "Touch", "count", "count", "cas",
          "replace", "Replace", "casq", "RaU"]
AMBI = ["add", "Add", "badcas", "lock", "unlock"]


class Obj:
    __slots__ = ("v", "lo", "hi", "locked")

    def __init__(self, v):
        self.v, self.lo, self.hi, self.locked = v, 0, 0, False


class Base(ServerPart):
    nkeys = 24
    server_kw = {"counter": False}

    def setup(self, ctx):
        super().setup(ctx)
        self.s.stepped()

    def config(self, ctx):
        return {"memory_limit": self.limit, "heap_data_limit": 6000,
                "gc_interval": [10, 600, 1800, 3600][ctx.shard % 4],
                "buckets": [1, 7, 101, 1009][ctx.shard // 2 % 4], "workers": 1 + ctx.shard % 3}

    def valid(self, case):
        return all("v" not in o or len(value(o["v"])) > 0 for o in case["ops"])

    # -- driving --------------------------------------------------------------
    def conn(self, i):
        c = self.conns.get(i)
        if c is None:
            c = self.conns[i] = Mixed(self.s, self.s.port)
        return c

    def begin(self, ctx):
        self.pre = b"%d." % ctx.counter
        self.st = {}
        self.seen = set()
        # leftovers of the previous case
        for k in self.list(b""):
            self.conn(0).send(bframe(OP["DeleteQ"], k))
        self.flushed = Binary.call(self.conn(0), "Noop") if False else None
        for _ in range(40):
            self.idle()
            if int(self.s.stats()["bytes"]) <= self.limit and not self.list(b""):
                break
        else:
            raise Violation("the emptied store does not fall under the memory limit: %r" %
                            self.s.stats())

    def idle(self):
        return self.s.step(int(self.s.cfg["gc_interval"]) + 2)

    def list(self, pre):
        c = self.conn("x")
        c.send(b"keys " + pre + b"\r\n" if pre else b"keys\r\n")
        out = set()
        while True:
            it = c.item()
            if it == b"END":
                return out
            if not isinstance(it, tuple) or it[0] != "KEY" or it[1] in out:
                raise Violation("bad keys reply %r" % (it,))
            out.add(it[1])

    def one(self, c, w):
        c.send(w)
        return c.item()

    def access(self, op):
        k = self.pre + b"%d" % op["k"]
        o = op["o"]
        c = self.conn(op.get("c", 0))
        obj = self.st.get(k)
        v = value(op["v"]) if "v" in op else b""
        name = o.capitalize() if o[0].isupper() else o

        def bad(r):
            raise Violation("%r on %s -> %r" % (op, "a present object" if obj else
                                                "an absent object", r))

        if o in ("set", "Set"):
            # the owner of locks is connection 0
            r = self.one(c, b"set %s 5 0 %d\r\n%s\r\n" % (k, len(v), v)) if o == "set" else \
                Binary.call(c, "Set", k, struct.pack(">II", 5, 0), v)
            if r != b"STORED" and getattr(r, "status", 1) != OK:
                bad(r)
            n = Obj(v)
            n.locked = obj.locked if obj else False
            self.st[k] = n
            return
        if obj is None:
            return
        if o in ("get", "gets"):
            c.send(b"%s %s\r\n" % (o.encode(), k))
            r = c.item()
            if not isinstance(r, tuple) or r[3] != obj.v or c.item() != b"END":
                bad(r)
        elif o in ("Get", "GetQ", "GetK", "GetKQ"):
            r = Binary.call(c, o, k)
            if r.status != OK or r.data != obj.v:
                bad(r)
        elif o in ("GaT", "GaTKQ"):
            r = Binary.call(c, o, k, b"\0" * 4)
            if r.status != OK or r.data != obj.v:
                bad(r)
        elif o == "LaG":
            if obj.locked:
                return
            r = Binary.call(c, o, k)
            if r.status != OK or r.data != obj.v:
                bad(r)
            obj.locked = True
        elif o in ("touch", "Touch"):
            r = self.one(c, b"touch %s 0\r\n" % k) if o == "touch" else \
                Binary.call(c, o, k, b"\0" * 4)
            if r != b"TOUCHED" and getattr(r, "status", 1) != OK:
                bad(r)
        elif o in ("append", "prepend"):
            r = self.one(c, b"%s %s 0 0 1\r\nx\r\n" % (o.encode(), k))
            if r != b"STORED":
                bad(r)
            obj.v = obj.v + b"x" if o == "append" else b"x" + obj.v
        elif o in ("Append", "Prepend"):
            r = Binary.call(c, o, k, b"", b"x")
            if r.status != OK:
                bad(r)
            obj.v = obj.v + b"x" if o == "Append" else b"x" + obj.v
        elif o == "replace":
            r = self.one(c, b"replace %s 0 0 1\r\n2\r\n" % k)
            if r != b"STORED":
                bad(r)
            obj.v = b"2"
        elif o in ("Replace", "casq", "RaU"):
            if o == "RaU" and not obj.locked:
                return
            g = Binary.call(c, "Get", k).cas if o == "casq" else 0
            if o == "RaU":
                obj.locked = False
            r = Binary.call(c, "Set" if o == "casq" else o, k, b"\0" * 8, b"3", g)
            if r.status != OK:
                bad(r)
            obj.v = b"3"
        elif o == "cas":
            g = Binary.call(c, "Get", k)
            r = self.one(c, b"cas %s 0 0 1 %d\r\n1\r\n" % (k, g.cas))
            if r != b"STORED":
                bad(r)
            obj.v = b"1"
        elif o == "count":
            if not (obj.v.isdigit() and len(obj.v) < 10):
                return
            i = op.get("i", 0)
            n = int(obj.v) + 1 if i % 2 == 0 else max(int(obj.v) - 1, 0)
            if i < 2:
                r = self.one(c, b"%s %s 1\r\n" % ((b"incr", b"decr")[i], k))
                good = r == b"%d" % n
            else:
                r = Binary.call(c, ("Increment", "Decrement")[i - 2], k,
                                struct.pack(">QQI", 1, 0, 0))
                good = r.status == OK and r.data == struct.pack(">Q", n)
            if not good:
                bad(r)
            obj.v = b"%d" % n
        elif o == "delete":
            r = self.one(c, b"delete %s\r\n" % k)
            if r != b"DELETED":
                bad(r)
            del self.st[k]
            return
        elif o in AMBI:
            if o == "add":
                r = self.one(c, b"add %s 0 0 1\r\nx\r\n" % k) == b"NOT_STORED"
            elif o == "Add":
                r = Binary.call(c, o, k, b"\0" * 8, b"x").status == 2
            elif o == "badcas":
                r = self.one(c, b"cas %s 0 0 1 %d\r\nx\r\n" % (k, 1 << 63)) == b"EXISTS"
            elif o == "lock":
                if obj.locked:
                    return
                r = self.one(c, b"lock %s\r\n" % k) == b"OK"
                obj.locked = True
            else:
                if not obj.locked:
                    return
                r = self.one(c, b"unlock %s\r\n" % k) == b"OK"
                obj.locked = False
            if not r:
                bad(r)
            obj.lo = 0
            self.seen.add("refused_access")
            return
        obj.lo = obj.hi = 0

    def need(self, k, o):
        """Least memory use of an object."""
        return len(k) + (len(o.v) if len(o.v) <= 6000 else 0)

    def collect(self, idle=False):
        """Run one collection and judge it."""
        prev = int(self.s.stats()["bytes"])
        now_use = sum(self.need(k, o) for k, o in self.st.items())
        for _ in range(6):
            if self.idle():
                break
        else:
            raise Violation("no collection in 6 intervals")
        st = self.s.stats()
        left = self.list(self.pre)
        extra = left - set(self.st)
        if extra:
            raise Violation("unknown keys listed: %r" % sorted(extra)[:5])
        gone = {k: o for k, o in self.st.items() if k not in left}
        for k, o in gone.items():
            what = "%r (locked: %s, %d..%d collections since its last access)" % \
                (k, o.locked, o.lo, o.hi)
            if o.locked:
                raise Violation("locked object evicted: " + what)
            if o.hi == 0:
                raise Violation("object accessed since the previous collection was evicted: " +
                                what)
            if prev <= self.limit and now_use * 1 <= self.limit and \
                    now_use + 400 * len(self.st) <= self.limit:
                raise Violation("object removed while memory use (%d) is within the limit (%d): %s"
                                % (prev, self.limit, what))
        if gone:
            top = min((o.hi, k) for k, o in gone.items())
            for k in left:
                o = self.st[k]
                if not o.locked and o.lo > top[0]:
                    raise Violation("%r, unaccessed for %d collections, was evicted, but %r, "
                                    "unaccessed for at least %d, was not" %
                                    (top[1], top[0], k, o.lo))
            if any(not self.st[k].locked and not k.startswith(self.pre + b"f") for k in left) and \
                    any(not k.startswith(self.pre + b"f") for k in gone):
                self.seen.add("partial")
            self.seen.add("evicted")
            if any(self.st[k].locked for k in left):
                self.seen.add("locked_kept")
            if any(self.st[k].hi == 0 for k in left):
                self.seen.add("fresh_kept")
        for k in gone:
            del self.st[k]
        for o in self.st.values():
            o.lo += 1
            o.hi += 1
            if o.lo >= 5:
                self.seen.add("old")
            if len(o.v) > 6000:
                self.seen.add("file")
        return prev, int(st["bytes"]), len(gone)

    def generate_ops(self, rng, n, extra):
        ops = []
        for _ in range(n):
            x = rng.random()
            if x < .28:
                ops.append({"o": "gc"})
                continue
            for n_, p in extra:
                if rng.random() < p:
                    ops.append({"o": n_, "n": rng.randint(1, 4)})
            o = rng.choice(["set"] * 3 + ["Set"] * 2 + READS + WRITES + AMBI +
                           ["unlock", "delete"])
            d = {"o": o, "k": rng.randrange(self.nkeys)}
            if o in ("set", "Set"):
                d["v"] = ["l", str(rng.randrange(1000))] if rng.random() < .4 else \
                    ["c", rng.choice([10, 500, 3000, 5999, 6000, 6001, 9000]), rng.randrange(9)]
            if o == "count":
                d["i"] = rng.randrange(4)
            ops.append(d)
        # some objects are accessed in one way only
        for _ in range(rng.choice([0, 0, 1, 2])):
            k, o = rng.randrange(self.nkeys), rng.choice(READS + WRITES)
            i = rng.randrange(4)
            ops = [d for d in ops if d.get("k") != k]
            out = [{"o": "set", "k": k, "v": ["l", str(rng.randrange(1000))]}]
            if o in ("LaG", "RaU"):
                continue
            for d in ops:
                if d["o"] == "gc":
                    out.append({"o": o, "k": k, "i": i})
                out.append(d)
            ops = out
        return ops

    def finish(self):
        """Every survivor still has its value; locks are given back."""
        c = self.conn(0)
        for k, o in sorted(self.st.items()):
            if k.startswith(self.pre + b"f"):
                continue
            r = Binary.call(c, "Get", k)
            if r.status != OK or r.data != o.v:
                raise Violation("%r: %r instead of its value" % (k, r))
        if self.one(c, b"unlock_all\r\n") != b"OK":
            raise Violation("unlock_all")
        self.s.check_alive()


class Pressure(Base):
    name = "pressure"
    limit = 120000
    examples = {"quick": 60, "thorough": 1500}
    cap = {"quick": 30, "thorough": 600}

    def generate(self, rng, ctx):
        return {"ops": self.generate_ops(rng, rng.randint(25, 80), [("fill", .07)])}

    def fill(self, n):
        """Fillers: n/2 times a tenth of the limit in small objects."""
        c = self.conn(0)
        w = []
        self.nf = getattr(self, "nf", 0)
        for _ in range(n * 12):
            k = self.pre + b"f%d" % self.nf
            self.nf += 1
            v = b"z" * 4000
            w.append(bframe(OP["SetQ"], k, b"\0" * 8, v))
            self.st[k] = Obj(v)
        c.send(b"".join(w))
        if Binary.call(c, "Noop").status != OK:
            raise Violation("fill")

    def run(self, ctx, case):
        self.begin(ctx)
        for op in case["ops"]:
            if op["o"] == "gc":
                self.collect()
            elif op["o"] == "fill":
                self.fill(op["n"])
            else:
                self.access(op)
        # without accesses, collections bring the use back under the limit
        for i in range(60):
            prev, now, n = self.collect(True)
            locked = sum(self.need(k, o) + 400 for k, o in self.st.items() if o.locked)
            if now <= max(self.limit, locked):
                break
        else:
            raise Violation("memory use stays at %d (limit %d) though unlocked objects have not "
                            "been accessed for 60 collections" % (now, self.limit))
        low = sum(self.need(k, o) for k, o in self.st.items())
        if now < low:
            raise Violation("%d bytes reported in use, but the objects hold at least %d" %
                            (now, low))
        self.finish()
        return "partial" in self.seen, sorted(self.seen)


class Calm(Base):
    name = "calm"
    limit = 3000000
    examples = {"quick": 45, "thorough": 1200}
    cap = {"quick": 25, "thorough": 500}

    def generate(self, rng, ctx):
        return {"ops": self.generate_ops(rng, rng.randint(20, 60), []),
                "more": rng.choice([0, 3, 8, 20, 40])}

    def run(self, ctx, case):
        self.begin(ctx)
        # fillers that use most of the limit
        c = self.conn(0)
        for i in range(500):
            k = self.pre + b"f%d" % i
            v = b"z" * 5500
            c.send(bframe(OP["SetQ"], k, b"\0" * 8, v))
            self.st[k] = Obj(v)
            if i % 10 == 0:             # file-backed: not memory
                k = self.pre + b"fb%d" % i
                v = b"z" * 70000
                c.send(bframe(OP["SetQ"], k, b"\0" * 8, v))
                self.st[k] = Obj(v)
        if Binary.call(c, "Noop").status != OK:
            raise Violation("fill")
        for op in case["ops"]:
            if op["o"] == "gc":
                self.collect()
            else:
                self.access(op)
        for _ in range(case["more"]):
            self.collect()
        self.finish()
        return "old" in self.seen and "file" in self.seen, sorted(self.seen)


PARTS = [Pressure(), Calm()]
