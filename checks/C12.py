"""C12: lock-protected read-modify-write sequences."""
import random, struct, threading, time
from model import Mixed
from parts import ServerPart
from yr import OP, OK, NOT_FOUND, LOCKED, NOT_LOCKED, Violation, bframe

PROPERTY = "C12"
TECHNIQUE = ("model-based concurrent clients performing lock, read, write, unlock in every form, with "
             "abrupt disconnections and schedule perturbation; the final values must contain every "
             "completed update exactly once; shrinking")
RULE = ("3..8 clients, each its own thread of control, run 2..12 lock-read-write-unlock sequences on "
        "1..3 shared objects in every form (lock/get/set/unlock in text, Lock/Get/Set/Unlock, "
        "Lock-and-Get with Replace-and-Unlock, mixtures, one protocol locking and the other writing, "
        "unlock_all instead of unlock), retrying while the lock is refused; each write appends a token "
        "to what was read.  Others write without locking, some clients die abruptly in the middle "
        "(close, reset, half-close, quit), large values move between memory and file, collections "
        "run, deadlines pass and flushes come while locks are held.  Every value read under a lock "
        "extends the one before, every completed update is in the final value exactly once, an "
        "interrupted one at most once, and no unlocked write gets between.  Non-trivial: a lock was "
        "refused, and updates of at least two clients alternate in one object")
ASSUME = ["a lock is retried for at most 20 seconds before it counts as leaked"]

FORMS = ["text", "bin", "lagrau", "lagset", "mix1", "mix2", "lagtext", "ua", "multi", "incr",
         "append", "delete"]


class Client:
    """One scripted client, advanced step by step by the driver: `want` is what it
    waits for, so that many clients interleave on one thread."""

    def __init__(self, part, i, spec, keys):
        self.part, self.i, self.spec, self.keys = part, i, spec, keys
        self.c = Mixed(part.s, part.s.port)
        self.done = []          # (key index, token, completed)
        self.refused = 0
        self.reads = []         # (key index, value) read under the lock
        self.dead = False

    def call(self, payload):
        """Send; yield until the reply is there; return it."""
        self.c.send(payload)
        r = yield
        return r

    def script(self):
        r = random.Random(self.spec["seed"])
        for j, s in enumerate(self.spec["ops"]):
            yield from self.one(j, s, r)

    def lock(self, k, how):
        end = time.monotonic() + 20
        while True:
            if how == "t":
                q = yield from self.call(b"lock " + k + b"\r\n")
                ok, ref = q == b"OK", q == b"LOCKED"
            elif how == "lag":
                q = yield from self.call(bframe(OP["LaG"], k))
                ok, ref = q.status == OK, q.status == LOCKED
                if ok:
                    return q
            else:
                q = yield from self.call(bframe(OP["Lock"], k))
                ok, ref = q.status == OK, q.status == LOCKED
            if ok:
                return q
            if not ref:
                raise Violation("lock of %r -> %r" % (k, q))
            self.refused += 1
            if time.monotonic() > end:
                raise Violation("the lock of %r cannot be had for 20 s" % k)

    def get(self, k, how):
        if how == "t":
            q = yield from self.call(b"get " + k + b"\r\n")
            if not isinstance(q, tuple) or q[0] != "VALUE" or q[1] != k:
                raise Violation("get of locked %r -> %r" % (k, q))
            e = self.c.next()
            if e != b"END":
                raise Violation("get not closed by END: %r" % (e,))
            return q[3]
        q = yield from self.call(bframe(OP["Get"], k))
        if q.status:
            raise Violation("Get of locked %r -> %r" % (k, q))
        return q.data

    def put(self, k, how, v, e=0):
        if how == "t":
            q = yield from self.call(b"set %s 5 %d %d\r\n%s\r\n" % (k, e, len(v), v))
            if q != b"STORED":
                raise Violation("set of %r by the holder of the lock -> %r" % (k, q))
        else:
            o = {"b": "Set", "rau": "RaU"}[how]
            q = yield from self.call(bframe(OP[o], k, struct.pack(">II", 5, e), v))
            if q.status:
                raise Violation("%s of %r by the holder of the lock -> %r" % (o, k, q))

    def unlock(self, k, how):
        if how == "t":
            q = yield from self.call(b"unlock " + k + b"\r\n")
            ok = q == b"OK"
        elif how == "ua":
            q = yield from self.call(b"unlock_all\r\n")
            ok = q == b"OK"
        else:
            q = yield from self.call(bframe(OP["Unlock"], k))
            ok = q.status == OK
        if not ok:
            raise Violation("unlock of %r by its holder -> %r" % (k, q))

    def one(self, j, s, r):
        k, ki = self.keys[s["k"]], s["k"]
        tok = b"<%d.%d>" % (self.i, j) + b"." * s.get("pad", 0)
        f = s["f"]
        if f == "multi" and len(self.keys) < 2:
            f = "text"
        die = s.get("die", -1)

        def point(n):
            return die == n
        if f == "multi":
            # several locks, always taken in the same order
            held = []
            for i, kk in enumerate(self.keys):
                yield from self.lock(kk, r.choice("tb"))
                v = yield from self.get(kk, r.choice("tb"))
                self.reads.append((i, v))
                held.append((i, kk, v))
            r.shuffle(held)
            for i, kk, v in held:
                e = [i, tok, False]
                self.done.append(e)
                yield from self.put(kk, r.choice("tb"), v + tok)
                e[2] = True
            if r.random() < .5:
                yield from self.unlock(k, "ua")
            else:
                for i, kk, v in held:
                    yield from self.unlock(kk, r.choice("tb"))
            return
        lk, g, p, u = {"text": "tttt", "bin": "bbbb", "mix1": "tbtb", "mix2": "btbt",
                       "ua": ("t", "t", "b", "ua"), "lagset": ("lag", "", "b", "b"),
                       "lagtext": ("lag", "", "t", "t"), "lagrau": ("lag", "", "rau", ""),
                       "incr": "bbbb", "append": "ttbt", "delete": "bbbb"}[f]
        q = yield from self.lock(k, lk)
        if point(0):
            return (yield from self.die(s))
        if lk == "lag":
            v = q.data
        else:
            v = yield from self.get(k, g)
        self.reads.append((ki, v))
        if s.get("hold"):
            for _ in range(s["hold"]):
                yield from self.get(k, r.choice("tb"))
        if point(1):
            return (yield from self.die(s))
        e = [ki, tok, False]
        self.done.append(e)
        if f == "append":
            w = b"append %s 0 0 %d\r\n%s\r\n" % (k, len(tok), tok)
            q = yield from self.call(w)
            if q != b"STORED":
                raise Violation("append to %r by the holder of the lock -> %r" % (k, q))
        elif f == "delete":
            # deleting drops the lock; nobody may come between delete and add unless
            # it is by add, which the others do not use
            yield from self.put(k, p, v + tok)
        else:
            if point(2):
                # die with the write in flight
                self.c.send(b"set %s 5 0 %d\r\n%s\r\n" % (k, len(v + tok), v + tok))
                return (yield from self.die(s))
            yield from self.put(k, p, v + tok, 0)
        e[2] = True
        if point(3):
            return (yield from self.die(s))
        if u:
            if f == "delete":
                v2 = yield from self.get(k, "b")
                if v2 != v + tok:
                    raise Violation("value changed under the lock")
            yield from self.unlock(k, u)

    def die(self, s):
        how = s["how"]
        if how == "rst":
            self.c.reset()
        elif how == "fin":
            self.c.close()
        elif how == "half":
            self.c.half_close()
            self.c.read_all()
            self.c.close()
        else:
            self.c.send(b"quit\r\n")
            self.c.read_all()
            self.c.close()
        self.c = Mixed(self.part.s, self.part.s.port)
        return
        yield


class Rmw(ServerPart):
    name = "rmw"
    racy = True
    examples = {"quick": 1200, "thorough": 40000}
    cap = {"quick": 28, "thorough": 1200}

    def config(self, ctx):
        return {"workers": 2 + ctx.shard % 7, "buckets": [1, 101][ctx.shard % 2],
                "heap_data_limit": 4096, "gc_interval": 1}

    def server_args(self, ctx):
        return {"counter": False, "mono": 1000, "cap_ms": 1}

    def setup(self, ctx):
        super().setup(ctx)
        self.s.ctl.set(jitter=[50, 100, 200, 30, 0][ctx.shard % 5])

    def generate(self, rng, ctx):
        n = rng.randint(3, 8)
        nk = rng.choice([1, 1, 1, 2, 3])
        big = rng.random() < .25
        death = rng.choice([0, 0, .1, .3])
        cl = []
        for _ in range(n):
            ops = []
            for _ in range(rng.randint(2, 9)):
                d = {"k": rng.randrange(nk), "f": rng.choice(FORMS[:9] + ["append"])}
                if big and rng.random() < .3:
                    d["pad"] = rng.choice([500, 1500, 3000])
                if rng.random() < death:
                    d["die"] = rng.randrange(4)
                    d["how"] = rng.choice(["rst", "fin", "half", "quit"])
                if rng.random() < .2:
                    d["hold"] = rng.randint(1, 4)
                ops.append(d)
            cl.append({"seed": rng.randrange(1 << 30), "ops": ops})
        return {"nk": nk, "clients": cl, "intruder": rng.randrange(3),
                "seed": rng.randrange(1 << 30)}

    def conn(self, i):
        if i not in self.conns:
            self.conns[i] = Mixed(self.s, self.s.port)
        return self.conns[i]

    def run(self, ctx, case):
        import select
        s = self.s
        pre = b"%d." % ctx.counter
        keys = [pre + b"k%d" % i for i in range(case["nk"])]
        x = self.conn("x")
        for k in keys:
            if x.call("Set", k, struct.pack(">II", 5, 0), b"@").status:
                raise Violation("set failed")
        cl = [Client(self, i, c, keys) for i, c in enumerate(case["clients"])]
        r = random.Random(case["seed"])
        gens = {}
        for c in cl:
            g = c.script()
            gens[c] = g
        turns = 0
        intr = self.conn("intr")
        try:
            live = set()
            for c in cl:
                if self.advance(gens[c], None):
                    live.add(c)
            while live:
                turns += 1
                fds = {c.c.s: c for c in live if not c.c.buf}
                ready = [c for c in live if c.c.buf]
                if not ready:
                    rl, _, _ = select.select(list(fds), [], [], 20)
                    if not rl:
                        s.check_alive()
                        raise Violation("no reply within 20 s")
                    ready = [fds[f] for f in rl]
                r.shuffle(ready)
                for c in ready:
                    q = c.c.next()
                    if not self.advance(gens[c], q):
                        live.discard(c)
                if case["intruder"] and turns % 7 == 0:
                    self.intrude(intr, r, keys, case["intruder"], pre)
        finally:
            for c in cl:
                c.c.close()
        # locks of everybody are released by now or soon
        inter = False
        for i, k in enumerate(keys):
            end = time.monotonic() + 15
            while True:
                q = x.call("LaG", k)
                if q.status == OK:
                    break
                if q.status != LOCKED or time.monotonic() > end:
                    raise Violation("Lock-and-Get at the end -> %r" % q)
                time.sleep(.001)
            v = q.data
            if x.call("Delete", k).status:
                raise Violation("delete at the end failed")
            if v[:1] != b"@":
                raise Violation("value of %r lost: %r" % (k, v[:60]))
            parts = [p for p in v[1:].split(b"<") if p]
            got = [b"<" + p.split(b">")[0] + b">" for p in parts]
            if b"".join(b"<" + p for p in parts) != v[1:]:
                raise Violation("garbled value %r" % v[:200])
            pads = {b"<" + p.split(b">")[0] + b">": p.split(b">", 1)[1] for p in parts}
            must, may = {}, {}
            for c in cl:
                for ki, tok, ok in c.done:
                    if ki == i:
                        h = tok.split(b">")[0] + b">"
                        (must if ok else may)[h] = tok.split(b">", 1)[1]
            for h in must:
                if got.count(h) != 1:
                    raise Violation("completed update %r is %d times in the final value of %r: %r" %
                                    (h, got.count(h), k, v[:600]))
            for h in got:
                if h not in must and h not in may:
                    raise Violation("token %r nobody wrote under a lock, in %r" % (h, v[:300]))
                if got.count(h) > 1:
                    raise Violation("token %r twice" % h)
                if pads[h] != must.get(h, may.get(h)):
                    raise Violation("token %r garbled" % h)
            for c in cl:
                last = b""
                for ki, rv in c.reads:
                    if ki == i:
                        if not v.startswith(rv):
                            raise Violation("%r read under the lock, final value %r" %
                                            (rv[-200:], v[:400]))
                        if len(rv) < len(last):
                            raise Violation("value shrank under locks")
                        last = rv
            own = [h[1:].split(b".")[0] for h in got]
            inter = inter or sum(1 for a, b in zip(own, own[1:]) if a != b) > len(set(own))
        ref = sum(c.refused for c in cl)
        s.check_alive()
        return bool(ref and inter), [d["f"] for c in case["clients"] for d in c["ops"]][:6] + (
            ["died"] if any("die" in d for c in case["clients"] for d in c["ops"]) else [])

    def advance(self, g, q):
        try:
            g.send(q)
            return True
        except StopIteration:
            return False

    def intrude(self, c, r, keys, kind, pre):
        """Commands that must have no effect on locked objects, and none on unlocked
        ones either: conditional ones that can never succeed, touches, flushes."""
        k = r.choice(keys)
        w = []
        for _ in range(3):
            w.append(r.choice([
                bframe(OP["Set"], k, bytes(8), b"BAD", 1, (1 << 63) + 5),
                bframe(OP["Append"], k, b"", b"BAD", 1, (1 << 63) + 5),
                bframe(OP["Delete"], k, opaque=1, cas=(1 << 63) + 5),
                bframe(OP["Unlock"], k, opaque=1),
                bframe(OP["RaU"], k, bytes(8), b"BAD", 1),
                bframe(OP["Add"], k, bytes(8), b"BAD", 1),
                bframe(OP["UnlockAll"], opaque=1),
                bframe(OP["Get"], k, opaque=1),
                b"add %s 0 0 3\r\nBAD\r\n" % k,
                b"cas %s 0 0 3 9223372036854775999\r\nBAD\r\n" % k,
                b"unlock_all\r\n", b"unlock %s\r\n" % k]))
        if kind == 2:
            n = pre + b"n%d" % r.randrange(3)
            w.append(r.choice([b"set %s 0 1 3\r\nabc\r\n" % n, b"delete %s\r\n" % n,
                               b"set %s 0 0 5000\r\n%s\r\n" % (n, b"y" * 5000)]))
            self.s.ctl.set(now=self.s.now + 2)
        c.send(b"".join(w) + bframe(OP["Noop"], opaque=0x7ffffff3))
        while True:
            q = c.next()
            if not isinstance(q, (bytes, tuple)) and q.opaque == 0x7ffffff3:
                break
            if q in (b"STORED", b"DELETED") and kind != 2 or \
                    not isinstance(q, (bytes, tuple)) and q.status == 0 and \
                    q.op not in (OP["Get"], OP["UnlockAll"]):
                raise Violation("a command that cannot succeed did: %r" % (q,))


PARTS = [Rmw()]
