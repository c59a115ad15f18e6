"""C20: statistics."""
import os, random, struct, time
import gen
from model import Engine, Mixed
from parts import ServerPart
from yr import OP, OPNAME, OK, Violation, bframe, Binary, Conn

PROPERTY = "C20"
RULE = ("(counts) sequences of 15..60 commands of nearly every kind in both protocols on 3 "
        "connections, with deadlines, clock steps and collections run one at a time; everything "
        "sent is tallied and every statistic compared: per-command counts, hits, misses, CAS "
        "outcomes (from the reference model), and after each collection the number, sizes, memory, "
        "largest object, expirations; text and binary reports must agree.  Non-trivial: a "
        "collection that expired something and had 2 or more survivors of different size classes, "
        "and each of hits, misses, CAS hits, badvals grew.  "
        "(conns) 5..40 connections opened and ended in all ways.  Non-trivial: 3 kinds of ends.  "
        "(burst) 3..8 connections send pipelines at the same time; the counts must be exact "
        "afterwards.  Non-trivial: 500 or more commands.  (evict) the memory limit is exceeded; "
        "evictions must equal the number of vanished objects.  Non-trivial: some but not all were "
        "evicted.  (settings) a server per case with random options; both settings reports must "
        "show them")
ASSUME = ["CAS counts are defined for text cas and binary Set/Add/Replace with a CAS value, as "
          "the code has them; for other conditional commands no claim is made",
          "whether a refused lock-and-get counts as a hit is left open"]

SIZES = [1024, 4096, 16 << 10, 64 << 10, 256 << 10, 1 << 20, 4 << 20]
TNAMES = ["set", "add", "replace", "append", "prepend", "cas", "get", "gets", "delete", "incr",
          "decr", "touch", "lock", "unlock", "unlock_all", "slabs", "stats", "flush_all",
          "version", "verbosity", "quit", "keys"]


class Tally:
    """Counts of the commands sent through a set of connections."""

    def __init__(self):
        self.n = {}

    def add(self, name):
        self.n[name] = self.n.get(name, 0) + 1

    def feed(self, b):
        """b is a sequence of complete, valid commands."""
        i = 0
        while i < len(b):
            if b[i] == 0x80:
                self.add("binary:" + OPNAME[b[i + 1]])
                i += 24 + struct.unpack_from(">I", b, i + 8)[0]
                continue
            e = b.index(b"\n", i) + 1
            w = b[i:e].split()
            c = w[0].decode()
            self.add("text:" + c)
            i = e
            if c in ("set", "add", "replace", "append", "prepend", "cas"):
                i += int(w[4]) + 2


def counted(tally):
    class C(Mixed):
        def send(self, b):
            tally.feed(bytes(b))
            super().send(b)
    return C


def bstats(c, arg=b""):
    """Binary Stat -> dict."""
    Binary.seq = (Binary.seq + 1) & 0xffff
    c.send(bframe(OP["Stat"], arg, opaque=0x5151))
    d = {}
    while True:
        r = c.resp()
        if r.op != OP["Stat"] or r.status != OK or r.opaque != 0x5151:
            raise Violation("bad Stat response %r" % r)
        if not r.key:
            return d
        k = r.key.decode()
        if k in d:
            raise Violation("statistic %r reported twice" % k)
        d[k] = r.data.decode()


class Stepped(ServerPart):
    server_kw = {"counter": False}

    def setup(self, ctx):
        super().setup(ctx)
        s = self.s
        self.tally = Tally()
        self.cls = counted(self.tally)
        s.stepped()
        if s._admin:
            s._admin.close()
        s._admin = self.cls(s, s.port)
        self.base_ops = dict(s.stats(b"ops"))
        self.tally.n.clear()
        st = s.stats()
        self.base = {k: int(v) for k, v in st.items() if v.isdigit()}
        self.hits = [0, 0]
        self.misses = 0
        self.cas = {"hits": 0, "misses": 0, "badval": 0}
        self.per = None                  # overhead of an object in `bytes`

    def agree(self):
        """Text and binary reports agree."""
        c = self.s.admin
        volatile = {"rusage_user", "rusage_system"}
        for arg in (b"", b"settings", b"items", b"sizes"):
            t, b = c.stats(arg), bstats(c, arg)
            if set(t) != set(b):
                raise Violation("stats %s: text and binary reports differ in names: %r" %
                                (arg.decode(), sorted(set(t) ^ set(b))))
            for k in t:
                if t[k] != b[k] and k not in volatile:
                    raise Violation("stats %s: %s is %r in text but %r in binary" %
                                    (arg.decode(), k, t[k], b[k]))
        t, b = c.stats(b"ops"), bstats(c, b"ops")
        b["binary:Stat"] = str(int(b["binary:Stat"]) - 1)
        if t != b:
            raise Violation("stats ops: text and binary reports differ: %r" %
                            {k: (t.get(k), b.get(k)) for k in set(t) | set(b)
                             if t.get(k) != b.get(k)})

    def counts(self):
        c = self.s.admin
        t = c.stats(b"ops")
        want = {k: int(v) for k, v in self.base_ops.items()}
        for k, v in self.tally.n.items():
            if k not in want:
                raise Violation("stats ops does not report %s" % k)
            want[k] += v
        bad = {k: (int(t.get(k, -1)), v) for k, v in want.items() if t.get(k) != str(v)}
        if bad or set(t) - set(want):
            raise Violation("stats ops: (reported, sent): %r %r" % (bad, set(t) - set(want)))
        st = {k: int(v) for k, v in c.stats().items() if v.isdigit()}
        b = self.base
        d = {k: st[k] - b[k] for k in ("get_hits", "get_misses", "cas_hits", "cas_misses",
                                       "cas_badval")}
        if not self.hits[0] <= d["get_hits"] <= self.hits[1]:
            raise Violation("get_hits grew by %d, expected %r" % (d["get_hits"], self.hits))
        if d["get_misses"] != self.misses:
            raise Violation("get_misses grew by %d, expected %d" % (d["get_misses"], self.misses))
        for k, v in self.cas.items():
            if d["cas_" + k] != v:
                raise Violation("cas_%s grew by %d, expected %d" % (k, d["cas_" + k], v))
        return st


class Counts(Stepped):
    name = "counts"
    examples = {"quick": 200, "thorough": 4000}
    cap = {"quick": 35, "thorough": 500}

    def config(self, ctx):
        return {"heap_data_limit": [4096, "256K", 20000][ctx.shard % 3], "max_data_size": "6M",
                "buckets": [1, 2, 101][ctx.shard // 2 % 3], "workers": 1 + ctx.shard % 4}

    def generate(self, rng, ctx):
        T = gen.ALL_T + gen.TEXT_LOCK + ["keys", "cas", "cas", "touch"]
        B = gen.ALL_B + gen.BIN_GAT + gen.BIN_LAG + gen.BIN_LOCK + gen.BIN_RAU + ["Keys", "Noop",
                                                                                 "Version"]
        prof = gen.Control(gen.names(T, B), {
            "clock": lambda r: {"dt": r.choice([1, 2, 3, 5])},
            "clockto": lambda r: {"k": r.randrange(6), "d": r.choice([-1, 0, 0, 1])},
            "gc": lambda r: {}, "more": lambda r: {"i": r.randrange(9)},
            "agree": lambda r: {}, "flushgc": lambda r: {"p": r.choice("tb")}},
            {"clock": .03, "clockto": .03, "gc": .08, "more": .03, "agree": .02, "flushgc": .01},
            nconn=3, nkeys=6, casw=("0", "cur", "cur", "old", "rnd"),
            exps=lambda r: r.choice([0, 0, 0, 1, 3, 6, 30]),
            vals=lambda r: ["l", str(r.randrange(100))] if r.random() < .5 else
            ["r", r.choice([10, 1000, 1023, 1024, 1025, 4000, 4095, 4096, 4097, 16383, 16384,
                            30000, 65535, 65536] + [262143, 262144, 1048576, 4194304] *
                           (r.random() < .1)), r.randrange(5)])
        ops = [{"p": "t", "o": "set", "c": 0, "k": k, "v": ["r", 900 * (k + 1), k], "f": k,
                "e": rng.choice([0, 0, 2, 12, 30]), "q": 1, "j": 1} for k in range(6)]
        ops += gen.ops(rng, prof, 15, 60)
        for o in ops:
            if o.get("cas") and o["o"] not in ("cas", "Set", "SetQ", "Replace", "ReplaceQ"):
                o["cas"] = 0
        return {"ops": ops + [{"o": "gc"}]}

    def run(self, ctx, case):
        part = self
        s = self.s
        seen = set()
        start = dict(self.cas, h=self.hits[0], m=self.misses)
        cfg = self.config(ctx)
        hdl = {"256K": 256 << 10}.get(cfg["heap_data_limit"], cfg["heap_data_limit"])

        class E(Engine):
            amb = set()

            def conn(self, c):
                if c not in self.conns:
                    self.conns[c] = part.cls(self.s, self.s.port)
                return self.conns[c]

            def resolve(self, k):
                if self.m.live(k) is not None:
                    part.hits[0] += 1
                    part.hits[1] += 1
                super().resolve(k)

            def step(self, op):
                o = op["o"]
                me = self.cid(op["c"])
                for i in op.get("ks", [op["k"]] if "k" in op else []):
                    k = self.key(i)
                    it = self.m.items.get(k)
                    live = self.m.live(k)
                    if it is not None and live is None:
                        self.amb.add(k)
                    base = o.rstrip("Q")
                    if o in ("get", "gets") or base in ("Get", "GetK", "GaT", "GaTK", "LaG",
                                                        "LaGK"):
                        if live is None:
                            part.misses += 1
                        elif base.startswith("LaG") and live.owner is not None:
                            part.hits[1] += 1
                        else:
                            part.hits[0] += 1
                            part.hits[1] += 1
                    if o == "cas" or (base in ("Set", "Replace") and op.get("cas")):
                        num, ver = self.casnum(op, k)
                        if it is not None and it.owner not in (None, me):
                            pass
                        elif live is None:
                            part.cas["misses"] += 1
                        elif ver is live.ver and num == live.ver.num:
                            part.cas["hits"] += 1
                        else:
                            part.cas["badval"] += 1
                r = super().step(op)
                if (o.startswith(("Inc", "Dec")) and r[0][:2] == b"\x80\0") or \
                        (o in ("incr", "decr") and r[0][:3] == b"get"):
                    # the engine reads where a count is out of domain
                    part.hits[0] += 1
                    part.hits[1] += 1
                return r

        e = E(s, prefix=b"%d." % ctx.counter)
        e.conns = self.conns
        e.amb = set()

        def collected():
            """Judge the numbers a collection has left behind."""
            m = e.m
            m.now = s.now
            dead = [k for k, it in m.items.items() if m.dead(it)]
            for k in dead:
                m.remove(k)
            lo = len([k for k in dead if k not in e.amb])
            amb = len([k for k in e.amb if k not in m.items])
            e.amb.clear()
            st = {k: int(v) for k, v in s.stats().items() if v.isdigit()}
            its, sz = s.stats(b"items"), s.stats(b"sizes")
            n = len(m.items)
            if st["curr_items"] != n or its["items:1:number"] != str(n):
                raise Violation("curr_items %d, items:1:number %s: there are %d objects" %
                                (st["curr_items"], its["items:1:number"], n))
            if not lo <= st["last_expirations"] <= lo + amb:
                raise Violation("last_expirations %d, but %d..%d objects expired" %
                                (st["last_expirations"], lo, lo + amb))
            if st["last_evictions"] or st["evictions"] != part.base["evictions"] or \
                    its["items:1:evicted"] != str(st["evictions"]):
                raise Violation("evictions reported without memory pressure: %r %r" % (st, its))
            lens = [len(it.v) for it in m.items.values()]
            if its["items:1:largest"] != str(max(lens, default=0)):
                raise Violation("items:1:largest %s, but the largest object has %d bytes" %
                                (its["items:1:largest"], max(lens, default=0)))
            want = {}
            for l in lens:
                k = str(next((x for x in SIZES if l < x), "huge"))
                want[k] = want.get(k, 0) + 1
            got = {k: int(v) for k, v in sz.items() if v != "0"}
            if got != want:
                raise Violation("stats sizes %r, expected %r (sizes %r)" % (got, want, lens))
            use = sum(len(k) + (len(it.v) if len(it.v) <= hdl else 0)
                      for k, it in m.items.items())
            if n == 0 and st["bytes"]:
                raise Violation("%d bytes in use by no objects" % st["bytes"])
            if n:
                per, rest = divmod(st["bytes"] - use, n)
                if rest or not 0 < per < 1000 or part.per not in (None, per):
                    raise Violation("bytes is %d for %d objects with %d bytes of keys and "
                                    "in-memory values: overhead %d, %d per object before" %
                                    (st["bytes"], n, use, st["bytes"] - use, part.per or -1))
                part.per = per
            cf = int(its["items:1:conflicts"])
            if cf > n // 2 or (cfg["buckets"] == 1 and cf != (n >= 2)) or \
                    (cfg["buckets"] == 2 and n >= 3 and not cf):
                raise Violation("conflicts %d of %d objects in %s buckets" %
                                (cf, n, cfg["buckets"]))
            if lo:
                seen.add("expired")
            if len(want) > 1:
                seen.add("classes")
            seen.add("gc")

        def tick(dt):
            n = int(s.stats()["gc_count"])
            r = s.step(dt)
            e.m.now = s.now
            if int(s.stats()["gc_count"]) != n + bool(r):
                raise Violation("gc_count grew by %d in %d collections" %
                                (int(s.stats()["gc_count"]) - n, bool(r)))
            if r:
                collected()
            return r

        def control(op):
            o = op["o"]
            if o == "clock":
                tick(op["dt"])
            elif o == "clockto":
                it = e.m.items.get(e.key(op["k"]))
                t = (it.e if it is not None else 0) + op["d"]
                if e.m.now < t < e.m.now + 100:
                    tick(t - e.m.now)
            elif o == "gc":
                for _ in range(5):
                    if tick(12):
                        break
                else:
                    raise Violation("no collection in 5 intervals")
            elif o == "agree":
                self.agree()
            elif o == "more":
                c = e.conn("y")
                w, r = [(b"slabs\r\n", b"OK"), (b"version\r\n", None), (b"verbosity error\r\n", b"OK"),
                        (b"stats settings\r\n", None), (b"unlock_all\r\n", b"OK"),
                        (bframe(OP["Noop"]), None), (bframe(OP["Version"]), None),
                        (bframe(OP["UnlockAllQ"]) + bframe(OP["Noop"]), None),
                        (b"keys zz\r\n", b"END")][op["i"]]
                c.send(w)
                x = c.next()
                while w.startswith(b"stats") and x != b"END":
                    x = c.next()
                if r is not None and x != r:
                    raise Violation("%r -> %r" % (w, x))
                if op["i"] == 2:
                    c.send(b"verbosity warning\r\n")
                    c.next()
            elif o == "flushgc":
                c = e.conn("y")
                if op["p"] == "t":
                    c.send(b"flush_all\r\n")
                    ok = c.next() == b"OK"
                else:
                    ok = Binary.call(c, "Flush").status == OK
                if not ok:
                    raise Violation("flush failed")
                e.flush_sweep()
                n = int(s.stats()["gc_count"])
                for _ in range(4):
                    s.step(0)
                    if int(s.stats()["gc_count"]) > n:
                        break
                else:
                    raise Violation("the flush did not make a collection run")
                e.amb.clear()
                x = s.stats()
                if x["curr_items"] != str(len(e.m.items)) or x["last_expirations"] != "0" or \
                        x["last_evictions"] != "0":
                    raise Violation("after a flush: %r, but %d objects" % (x, len(e.m.items)))
                # a step more: nothing left of the flush
                tick(0)

        batch = []
        for op in case["ops"]:
            if "c" in op:
                batch.append(op)
                continue
            e.run(batch)
            batch = []
            control(op)
        e.run(batch)
        st = self.counts()
        self.agree()
        e.finish()
        s.check_alive()
        if all(self.cas[k] > start[k] for k in ("hits", "badval")) and \
                self.hits[0] > start["h"] and self.misses > start["m"]:
            seen.add("all")
        return {"all", "classes", "expired"} <= seen, sorted(seen)


class Conns(Stepped):
    name = "conns"
    examples = {"quick": 60, "thorough": 1200}
    cap = {"quick": 20, "thorough": 300}

    def config(self, ctx):
        return {"workers": 1 + ctx.shard}

    def generate(self, rng, ctx):
        ops = []
        for _ in range(rng.randint(5, 60)):
            if rng.random() < .6:
                ops.append({"o": "open"})
            else:
                ops.append({"o": "end", "i": rng.randrange(100), "how": rng.choice(
                    ["fin", "rst", "half", "quit", "Quit", "QuitQ", "midrst", "lock"])})
        return {"ops": ops}

    def run(self, ctx, case):
        s = self.s
        live = []
        st = s.stats()
        cur, tot = int(st["curr_connections"]), int(st["total_connections"])
        kinds = set()

        def check(what):
            want = (cur + len(live), tot + opened)
            end = time.monotonic() + 15
            while True:
                s.step(1)
                st = s.stats()
                got = (int(st["curr_connections"]), int(st["total_connections"]))
                if got == want:
                    return
                if time.monotonic() > end:
                    raise Violation("%s: (current, total) connections are %r, expected %r" %
                                    (what, got, want))

        opened = 0
        for i, op in enumerate(case["ops"]):
            if op["o"] == "open":
                c = self.cls(s, s.port)
                if Binary.call(c, "Noop").status != OK:
                    raise Violation("noop")
                live.append(c)
                opened += 1
            elif live:
                c = live.pop(op["i"] % len(live))
                how = op["how"]
                kinds.add(how)
                if how == "fin":
                    c.close()
                elif how in ("rst", "lock"):
                    if how == "lock":
                        Binary.call(c, "Set", b"%d.%d" % (ctx.counter, i), b"\0" * 8, b"x")
                        Binary.call(c, "Lock", b"%d.%d" % (ctx.counter, i))
                    c.reset()
                elif how == "midrst":
                    Conn.send(c, b"set a 0 0 100\r\nabc")
                    c.reset()
                elif how == "half":
                    c.half_close()
                    c.read_all()
                    c.close()
                else:
                    c.send(b"quit\r\n" if how == "quit" else bframe(OP[how]))
                    c.read_all()
                    c.close()
            if i % 9 == 0:
                check("after %r" % (op,))
        check("in the end")
        for c in live:
            c.close()
        live = []
        check("all closed")
        self.counts()
        return len(kinds) >= 3, sorted(kinds)


class Burst(Stepped):
    name = "burst"
    racy = True
    examples = {"quick": 70, "thorough": 1500}
    cap = {"quick": 25, "thorough": 300}

    def config(self, ctx):
        return {"workers": 2 + ctx.shard}

    def setup(self, ctx):
        super().setup(ctx)
        self.s.ctl.set(jitter=[0, 20, 5, 50][ctx.shard % 4])

    def generate(self, rng, ctx):
        return {"seed": rng.randrange(1 << 30), "n": rng.randint(3, 8),
                "len": rng.choice([50, 200, 400])}

    def run(self, ctx, case):
        s = self.s
        keys = [b"%d.%d" % (ctx.counter, i) for i in range(4)]
        conns = [self.cls(s, s.port) for _ in range(case["n"])]
        ws, tot = [], 0
        for j, c in enumerate(conns):
            r = random.Random(case["seed"] + j)
            w = []
            for _ in range(case["len"]):
                k = r.choice(keys)
                w.append(r.choice([
                    b"set %s 0 0 1 noreply\r\n1\r\n" % k, b"get %s\r\n" % k,
                    b"incr %s 1 noreply\r\n" % k, b"delete %s noreply\r\n" % k,
                    b"cas %s 0 0 1 99999999999999 noreply\r\nx\r\n" % k,
                    bframe(OP["Get"], k), bframe(OP["GetQ"], k), bframe(OP["Touch"], k, b"\0" * 4),
                    b"gets %s %s\r\n" % (k, r.choice(keys)),
                    bframe(OP["SetQ"], k, b"\0" * 8, b"5", cas=1 << 62)]))
            ws.append(b"".join(w) + bframe(OP["Noop"], opaque=0x77))
            tot += len(w)
        import threading

        errs = []

        def go(c, w):
            try:
                t = threading.Thread(target=lambda: Conn.send(c, w))
                t.start()
                hits = miss = cash = casm = bad = 0
                while True:
                    x = c.next()
                    if not isinstance(x, (bytes, tuple)) and x.opaque == 0x77:
                        break
                    if isinstance(x, tuple):
                        hits += 1
                    elif not isinstance(x, bytes):
                        if x.op in (OP["Get"], OP["GetQ"]):
                            hits += x.status == OK
                            miss += x.status != OK
                        elif x.op == OP["SetQ"]:
                            casm += x.status == 1
                            bad += x.status == 2
                t.join()
                out.append((hits, casm, bad))
            except Exception as ex:           # reported below
                errs.append(ex)

        out = []
        for w in ws:
            self.tally.feed(w)
        ths = [threading.Thread(target=go, args=x) for x in zip(conns, ws)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if errs:
            raise errs[0]
        # outcomes: hits are seen in the replies; every lookup is a hit or a miss
        look = sum(w.count(b"get %s" % keys[0][:0]) for w in ws)
        st = {k: int(v) for k, v in s.stats().items() if v.isdigit()}
        hits = sum(x[0] for x in out)
        b = self.base
        dh = st["get_hits"] - b["get_hits"] - self.hits[0]
        dm = st["get_misses"] - b["get_misses"] - self.misses
        n_look = 0
        t = Tally()
        for w in ws:
            t.feed(w)
        n_look = t.n.get("text:get", 0) + 2 * t.n.get("text:gets", 0) + \
            t.n.get("binary:Get", 0) + t.n.get("binary:GetQ", 0)
        if dh != hits or dh + dm != n_look:
            raise Violation("%d lookups with %d hits: get_hits grew by %d, get_misses by %d" %
                            (n_look, hits, dh, dm))
        dc = {k: st["cas_" + k] - b["cas_" + k] - v for k, v in self.cas.items()}
        n_cas = t.n.get("text:cas", 0) + t.n.get("binary:SetQ", 0)
        if dc["hits"] or dc["misses"] + dc["badval"] != n_cas or \
                dc["misses"] < sum(x[1] for x in out) or dc["badval"] < sum(x[2] for x in out):
            raise Violation("%d failed CAS commands, at least %d misses and %d bad values: %r" %
                            (n_cas, sum(x[1] for x in out), sum(x[2] for x in out), dc))
        self.hits = [self.hits[0] + dh, self.hits[1] + dh]
        self.misses += dm
        for k in dc:
            self.cas[k] += dc[k]
        self.counts()
        for c in conns:
            c.close()
        c = s.admin
        c.send(b"".join(b"delete %s noreply\r\n" % k for k in keys))
        s.stats()
        s.check_alive()
        return tot >= 500, ["n%d" % (tot // 500)]


class Evict(Stepped):
    name = "evict"
    examples = {"quick": 30, "thorough": 600}
    cap = {"quick": 20, "thorough": 300}
    limit = 100000

    def config(self, ctx):
        return {"memory_limit": self.limit, "gc_interval": [10, 1800, 3600][ctx.shard % 3]}

    def generate(self, rng, ctx):
        return {"waves": [[rng.randint(1, 60), rng.choice([100, 1000, 3000]), rng.randint(1, 3)]
                          for _ in range(rng.randint(2, 8))]}

    def keys(self):
        c = self.s.admin
        c.send(b"keys\r\n")
        out = set()
        while True:
            x = c.item()
            if x == b"END":
                return out
            out.add(x[1])

    def run(self, ctx, case):
        s = self.s
        iv = int(s.cfg["gc_interval"])
        seen = set()
        c = s.admin
        n = 0
        for cnt, size, gcs in case["waves"]:
            for _ in range(cnt):
                c.send(b"set %d.%d 0 0 %d noreply\r\n%s\r\n" % (ctx.counter, n, size, b"x" * size))
                n += 1
            for _ in range(gcs):
                a = self.keys()
                st = s.stats()
                if not s.step(iv + 2) and not s.step(iv + 2):
                    raise Violation("no collection")
                b = self.keys()
                st2 = s.stats()
                gone = len(a - b)
                d = int(st2["evictions"]) - int(st["evictions"])
                if d != gone or int(st2["last_evictions"]) != gone:
                    raise Violation("%d objects vanished, evictions grew by %d, last_evictions %s" %
                                    (gone, d, st2["last_evictions"]))
                if st2["curr_items"] != str(len(b)) or st2["last_expirations"] != "0":
                    raise Violation("curr_items %s, last_expirations %s; %d objects exist" %
                                    (st2["curr_items"], st2["last_expirations"], len(b)))
                i = s.stats(b"items")
                if i["items:1:evicted"] != st2["evictions"]:
                    raise Violation("items:1:evicted %s, evictions %s" %
                                    (i["items:1:evicted"], st2["evictions"]))
                if gone:
                    seen.add("evicted")
                    if b:
                        seen.add("partial")
        for k in self.keys():
            c.send(b"delete %s noreply\r\n" % k)
        for _ in range(30):
            s.step(iv + 2)
            if not self.keys() and int(s.stats()["bytes"]) == 0:
                break
        s.check_alive()
        return {"evicted", "partial"} <= seen, sorted(seen)


class Settings(ServerPart):
    name = "settings"
    examples = {"quick": 12, "thorough": 150}
    cap = {"quick": 20, "thorough": 200}

    def setup(self, ctx):
        pass

    def reset(self, ctx):
        pass

    def generate(self, rng, ctx):
        return {"memory_limit": rng.choice(["10M", "1G", "123456", "64K", "2000K"]),
                "secure_erase": rng.choice(["true", "false"]),
                "buckets": rng.choice([1, 17, 1000, 100000]),
                "max_data_size": rng.choice(["1K", "5M", "12345", "1M"]),
                "workers": rng.randint(1, 12), "gc_interval": rng.randint(1, 4000),
                "tmp": rng.choice(["t", "temp dir", "x.y"])}

    def run(self, ctx, case):
        import tempfile, yr
        c = dict(case)
        d = tempfile.mkdtemp(dir=yr.scratch())
        td = os.path.join(d, c.pop("tmp").replace(" ", "_"))
        os.mkdir(td)
        c["temp_dir"] = td

        def num(x):
            m = {"K": 10, "M": 20, "G": 30}.get(str(x)[-1])
            return str(int(str(x)[:-1]) << m if m else int(x))
        s = yr.Server(c, counter=False)
        try:
            t = s.stats(b"settings")
            b = bstats(Mixed(s, s.port), b"settings")
            want = {"maxbytes": num(case["memory_limit"]), "tcpport": str(s.port),
                    "replport": str(s.repl_port), "virtual_ip": "127.0.0.1", "evictions": "on",
                    "cas_enabled": "on", "locking": "on",
                    "secure_erase": "on" if case["secure_erase"] == "true" else "off",
                    "lock_memory": "off", "tmp_dir": td, "buckets": None,
                    "item_size_max": num(case["max_data_size"]),
                    "num_threads": str(case["workers"]), "gc_interval": str(case["gc_interval"])}
            for n, g in (("text", t), ("binary", b)):
                bad = {k: (g.get(k), v) for k, v in want.items()
                       if v is not None and g.get(k) != v}
                if bad:
                    raise Violation("%s settings (reported, configured): %r" % (n, bad))
            if t != b or t["buckets"] != str(case["buckets"]):
                raise Violation("settings: text %r, binary %r" % (t, b))
            g = s.stats()
            if g["limit_maxbytes"] != want["maxbytes"] or g["threads"] != want["num_threads"] or \
                    g["pid"] != str(s.proc.pid):
                raise Violation("general statistics disagree with the configuration: %r" % g)
        finally:
            s.destroy()
        return True, ["settings"]


PARTS = [Counts(), Conns(), Burst(), Evict(), Settings()]
