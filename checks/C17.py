"""C17: slow and irregular readers get every byte."""
import errno, random, select, socket, struct, time
from model import Mixed
from parts import ServerPart
from yr import OP, CN, Conn, Violation, bframe, cframe, cname

PROPERTY = "C17"
TECHNIQUE = ("generated request pipelines with large responses, read by non-blocking clients on "
             "generated stop-and-go schedules under generated kernel buffer and partial-send sizes; "
             "every received byte is compared with the expected stream; shrinking")
RULE = ("1..7 clients against 1..4 workers; each pipelines 1..40 requests (text and binary gets of "
        "objects of 0 bytes to 5 MB in memory and in files, multi-key gets, quiet gets, keys, stats, "
        "sets of an object that others read, counter dumps) and reads the responses on a generated "
        "schedule (late start, pauses, tiny and large reads) with small and default socket buffers on "
        "both ends and capped send sizes; it ends by going on, half-closing, quitting, closing or "
        "resetting while data is pending.  The bytes received must be exactly the expected stream "
        "(for resets: a prefix); then the server must still serve, forget the connections and have "
        "given the memory back.  Non-trivial: more than 300 KB were awaited over a connection whose "
        "reader paused")
ASSUME = ["a client that reads is given 20 seconds for its next byte"]

SIZES = [0, 1, 10, 100, 1000, 4000, 10000, 30000, 60000, 100000, 200000, 262144, 262145, 400000,
         700000, (1 << 20) - 40, (1 << 20) - 24, 1 << 20, (1 << 20) + 1, 1500000, 2500000, 5000000]


def hotval(ver, size):
    h = b"%08d." % ver
    return (h * (size // len(h) + 1))[:max(size, 9)]


class Rd:
    """One client: what it sends, what it expects, how it reads."""

    def __init__(self, part, spec, out, want):
        self.spec, self.want = spec, want
        port = part.s.counter_port if spec["proto"] == "c" else part.s.port
        self.c = Conn(part.s, port, rcvbuf=spec["rcv"] or None)
        self.c.s.setblocking(False)
        self.out = memoryview(bytes(out))
        self.got = bytearray()
        self.pauses = 0
        self.i = 0
        self.next = time.monotonic() + spec["start"] / 1000
        self.last = time.monotonic()
        self.shut = self.eof = self.dead = False
        self.total = sum(len(w) if isinstance(w, (bytes, bytearray)) else 60 for w in want)

    def finished(self):
        return self.dead or self.eof


class Slow(ServerPart):
    name = "slow"
    examples = {"quick": 130, "thorough": 4000}
    cap = {"quick": 22, "thorough": 1200}
    lists = ("clients", "reqs", "pat")

    def config(self, ctx):
        return {"workers": 1 + ctx.shard % 4, "buckets": 1009, "max_data_size": "8M",
                "heap_data_limit": ["256K", "16K", "2M"][ctx.shard % 3]}

    def server_args(self, ctx):
        return {"env": {"MALLOC_MMAP_THRESHOLD_": "131072", "MALLOC_ARENA_MAX": "2"}}

    def setup(self, ctx):
        super().setup(ctx)
        s = self.s
        rng = random.Random(77 + ctx.shard)
        self.vals, self.cas = [], []
        b = s.binary()
        for i, n in enumerate(SIZES):
            v = rng.randbytes(n)
            if i % 3 == 0:
                v = v.replace(b"\r", b"\n")[:n]
            b.send(b"set K%d %d 0 %d\r\n%s\r\n" % (i, i, n, v))
            if b.line() != b"STORED\r\n":
                raise Violation("set failed")
            r = b.call("Get", b"K%d" % i)
            if r.status or r.data != v:
                raise Violation("get failed: %r" % r)
            self.vals.append(v)
            self.cas.append(r.cas)
        for i in range(3000):
            b.send(bframe(OP["SetQ"], b"many.%d." % i + b"x" * (i % 200), bytes(8), b"v"))
        b.batch(b"")
        # these responses have no prescribed order; what a prompt reader gets is the
        # reference for what a slow one must get
        self.keys_text = self.ref(s.port, b"keys many.\r\n", lambda g: g.endswith(b"END\r\n"))
        if self.keys_text.count(b"\r\n") != 3001:
            raise Violation("keys lists %d keys of 3000" % (self.keys_text.count(b"\r\n") - 1))
        mark = bframe(OP["Noop"], opaque=0x7f7f7f7f)
        end = b"\x81" + mark[1:]
        k = self.ref(s.port, bframe(OP["Keys"], b"many.", opaque=5) + mark,
                     lambda g: g.endswith(end))
        self.keys_bin = k[:-len(end)]
        self.cc = s.counter()
        self.cc.batch(b"".join(cframe(CN["Acquire"], struct.pack(">II", i + 1, 1 << 20) +
                                      cname(b"res%d" % i + b"y" * (i % 300)))
                               for i in range(2500)))
        cend = b"\x91\x11" + bytes(6) + b"abcd"
        self.dump = self.ref(s.counter_port, cframe(CN["Dump"], opaque=b"abcd"),
                             lambda g: g.endswith(cend))
        self.hotmax = 0
        self.hot = {}
        self.sethot(b, 1000)
        b.close()
        self.base = None
        self.conn0 = int(s.stats()["curr_connections"])

    def teardown(self, ctx):
        c = getattr(self, "cc", None)
        if c is not None:
            c.close()
        super().teardown(ctx)

    def sethot(self, b, n):
        self.hotmax += 1
        v = hotval(self.hotmax, n)
        self.hot[self.hotmax] = v
        r = b.call("Set", b"hot", bytes(8), v)
        if r.status:
            raise Violation("set failed: %r" % r)

    def ref(self, port, out, done):
        c = Conn(self.s, port)
        c.send(out)
        while not done(c.buf):
            if not c.fill():
                raise Violation("closed by server in a response")
        c.close()
        return bytes(c.buf)

    # -- cases -------------------------------------------------------------
    def generate(self, rng, ctx):
        cl = []
        if rng.random() < .06:
            # much unsent data at once, on connections that stay
            return {"clients": [{"proto": "t", "reqs": [["ver"], [p, [21]], ["ver"]][:rng.randint(2, 3)],
                                 "pat": [[1 << 20, 1]], "start": rng.choice([0, 5, 20]), "rcv": 0,
                                 "cut": 0, "end": "keep", "die": 0}
                                for p in [rng.choice(["get", "gets"])] for _ in range(8)],
                    "sndbuf": rng.choice([0, 200000]), "send_max": 0}
        n = rng.choice([1, 1, 2, 3, 5, 7])
        big = rng.random() < .5
        budget = rng.choice([400_000, 2_000_000, 6_000_000])
        if rng.random() < .04:
            budget = 25_000_000
        sndbuf, smax = rng.choice([0, 0, 1, 20000, 200000]), rng.choice([0, 0, 0, 50000, 8000, 30000])
        rcvs = rng.choice([[0], [0, 65536], [0, 2048, 10000, 65536]])
        if sndbuf == 1 or 2048 in rcvs:
            budget = min(budget, rng.choice([200_000, 200_000, 400_000, 1_500_000]))
            n = min(n, 3)
        for _ in range(n):
            proto = rng.choice("ttbbc" if rng.random() < .5 else "tb")
            reqs, tot = [], 0
            for _ in range(rng.choice([1, 2, 5, 12, 40])):
                if tot > budget:
                    break
                x = rng.random()
                if proto == "c":
                    reqs.append(["dump" if x < .6 else "noop"])
                    tot += 400_000 * (x < .6)
                    continue
                pick = lambda: rng.randrange(len(SIZES)) if big and budget > 400_000 else rng.randrange(15)
                if x < .62:
                    ks = [pick() for _ in range(rng.choice([1, 1, 1, 2, 3, 12]))]
                    ks = [k if rng.random() < .95 else -1 for k in ks]
                    cmd = rng.choice(["get", "gets"] if proto == "t" else
                                     ["Get", "GetQ", "GetK", "GetKQ"])
                    reqs.append([cmd, ks])
                    tot += sum(SIZES[k] for k in ks if k >= 0)
                elif x < .70:
                    reqs.append(["keys"])
                    tot += 350_000
                elif x < .76:
                    reqs.append(["stats"])
                elif x < .86:
                    reqs.append(["hot"])
                    tot += 100_000
                elif x < .93:
                    reqs.append(["sethot", rng.choice([9, 5000, 50000, 270000, 1000000])])
                else:
                    reqs.append(["ver"])
            pat = [[rng.choice([1, 100, 1500, 4096, 30000, 65536, 300000, 1 << 20]),
                    rng.choice([0, 0, 0, 1, 1, 3, 10])] for _ in range(rng.randint(1, 6))]
            if rng.random() < .3:
                pat.append([1 << 20, rng.choice([20, 60])])
            cl.append({"proto": proto, "reqs": reqs, "pat": pat,
                       "start": rng.choice([0, 0, 5, 20, 60]),
                       "rcv": rng.choice(rcvs),
                       "cut": rng.choice([0, 0, 0, 7, 30, 200]),
                       "end": rng.choice(["keep", "keep", "half", "half", "quit", "quit", "quitq",
                                          "rst", "close"]),
                       "die": rng.choice([0, 10, 100_000, 1_000_000])})
        return {"clients": cl, "sndbuf": sndbuf, "send_max": smax}

    def build(self, spec):
        """Bytes to send and the expected stream: bytes, or a marker for a part
        whose content is checked by a rule."""
        out, want = bytearray(), []
        t = spec["proto"] == "t"

        def w(b):
            if want and isinstance(want[-1], bytearray):
                want[-1] += b
            else:
                want.append(bytearray(b))
        opq = 0
        for r in spec["reqs"]:
            opq += 1
            k = r[0]
            if k == "dump":
                out += cframe(CN["Dump"], opaque=b"abcd")
                w(self.dump)
            elif k == "noop":
                out += cframe(CN["Noop"], opaque=b"wxyz")
                w(b"\x91\0" + bytes(6) + b"wxyz")
            elif k in ("get", "gets"):
                out += k.encode() + b"".join(b" K%d" % i for i in r[1]) + b"\r\n"
                for i in r[1]:
                    if i >= 0:
                        w(b"VALUE K%d %d %d%s\r\n" % (i, i, SIZES[i],
                                                     b" %d" % self.cas[i] if k == "gets" else b""))
                        w(self.vals[i])
                        w(b"\r\n")
                w(b"END\r\n")
            elif k in ("Get", "GetQ", "GetK", "GetKQ"):
                for i in r[1]:
                    key = b"K%d" % i
                    out += bframe(OP[k], key, opaque=opq)
                    rk = key if "K" in k else b""
                    if i >= 0:
                        w(struct.pack(">BBHBBHIIQ", 0x81, OP[k], len(rk), 4, 0, 0,
                                      4 + len(rk) + SIZES[i], opq, self.cas[i]))
                        w(struct.pack(">I", i) + rk)
                        w(self.vals[i])
                    elif "Q" not in k:
                        want.append(("miss", OP[k], opq))
            elif k == "keys":
                out += b"keys many.\r\n" if t else bframe(OP["Keys"], b"many.", opaque=5)
                w(self.keys_text if t else self.keys_bin)
            elif k == "stats":
                if t:
                    out += b"stats\r\n"
                    want.append(("stats",))
                else:
                    out += bframe(OP["Stat"], opaque=opq)
                    want.append(("bstats", opq))
            elif k == "hot":
                out += b"get hot\r\n" if t else bframe(OP["Get"], b"hot", opaque=opq)
                want.append(("hot" if t else "bhot", opq))
            elif k == "sethot":
                self.hotmax += 1
                v = self.hot[self.hotmax] = hotval(self.hotmax, r[1])
                if t:
                    out += b"set hot 0 0 %d\r\n%s\r\n" % (len(v), v)
                    w(b"STORED\r\n")
                else:
                    out += bframe(OP["Set"], b"hot", bytes(8), v, opq)
                    want.append(("stored", opq))
            elif k == "ver":
                if t:
                    out += b"verbosity 1\r\n"
                    w(b"OK\r\n")
                else:
                    out += bframe(OP["Noop"], opaque=opq)
                    w(b"\x81" + bframe(OP["Noop"], opaque=opq)[1:])
        e = spec["end"]
        if spec["proto"] == "c":
            pass
        elif e == "quit":
            if t:
                out += b"quit\r\n"
            else:
                out += bframe(OP["Quit"], opaque=9)
                w(b"\x81" + bframe(OP["Quit"], opaque=9)[1:])
        elif e == "quitq":
            out += b"quit\r\n" if t else bframe(OP["QuitQ"], opaque=9)
        # a mark at the end, so that it is known when everything has arrived
        if e in ("keep", "half") or spec["proto"] == "c":
            if spec["proto"] == "c":
                out += cframe(CN["Noop"], opaque=b"last")
                w(b"\x91\0" + bytes(6) + b"last")
            else:
                out += bframe(OP["Noop"], opaque=0x1a57)
                w(b"\x81" + bframe(OP["Noop"], opaque=0x1a57)[1:])
        return out, want

    def match(self, r):
        """Compare what a client got with what it should have got; returns True if
        complete."""
        g, p = r.got, 0
        mv = memoryview(g)
        n = len(g)
        for w in r.want:
            if isinstance(w, bytearray):
                a = mv[p:p + len(w)]
                if a != memoryview(w)[:len(a)]:
                    i = next(i for i in range(len(a)) if a[i] != w[i])
                    raise Violation("byte %d of the stream is wrong: got %r, expected %r (%d bytes "
                                    "received)" % (p + i, bytes(a[max(0, i - 20):i + 60]),
                                                   bytes(w[max(0, i - 20):i + 60]), n))
                p += len(a)
                if len(a) < len(w):
                    return False
                continue
            if w[0] == "stats":
                e = g.find(b"END\r\n", p)
                if e < 0:
                    return False
                for l in bytes(mv[p:e]).split(b"\r\n")[:-1]:
                    if not l.startswith(b"STAT ") or len(l.split(b" ")) < 2:
                        raise Violation("bad stats line %r at byte %d" % (l[:100], p))
                p = e + 5
            elif w[0] == "hot":
                e = g.find(b"\r\n", p)
                if e < 0:
                    if n - p > 100:
                        raise Violation("no VALUE line at byte %d: %r" % (p, bytes(mv[p:p + 100])))
                    return False
                f = bytes(mv[p:e]).split(b" ")
                if f[:3] != [b"VALUE", b"hot", b"0"] or len(f) != 4 or not f[3].isdigit():
                    raise Violation("bad VALUE line at byte %d: %r" % (p, bytes(mv[p:p + 100])))
                l = int(f[3])
                if l > 2_000_000:
                    raise Violation("bad length at byte %d: %r" % (p, f))
                if n < e + 2 + l + 7:
                    return False
                self.hotcheck(bytes(mv[e + 2:e + 2 + l]), e + 2)
                p = e + 2 + l
                if mv[p:p + 7] != b"\r\nEND\r\n":
                    raise Violation("value not followed by END at byte %d: %r" %
                                    (p, bytes(mv[p:p + 30])))
                p += 7
            else:
                while True:
                    if n - p < 24:
                        return False
                    m, op, kl, el, dt, st, tot, opq, cas = struct.unpack(">BBHBBHIIQ", mv[p:p + 24])
                    if m != 0x81 or tot > 10_000_000:
                        raise Violation("bad header at byte %d: %r" % (p, bytes(mv[p:p + 24])))
                    if n - p < 24 + tot:
                        return False
                    body = bytes(mv[p + 24:p + 24 + tot])
                    at = p
                    p += 24 + tot
                    if opq != w[-1]:
                        raise Violation("response %#x with opaque %d at byte %d, expected %r" %
                                        (op, opq, at, w))
                    if w[0] == "miss":
                        if op != w[1] or st != 1:
                            raise Violation("miss answered by %#x/%d" % (op, st))
                    elif w[0] == "stored":
                        if op != OP["Set"] or st or tot:
                            raise Violation("Set answered by %#x/%d" % (op, st))
                    elif w[0] == "bhot":
                        if op != OP["Get"] or st or el != 4 or kl:
                            raise Violation("Get answered by %#x/%d" % (op, st))
                        self.hotcheck(body[4:], at)
                    elif w[0] == "bstats":
                        if op != OP["Stat"] or st:
                            raise Violation("Stat answered by %#x/%d" % (op, st))
                        if tot:
                            continue
                    break
        if p != n:
            raise Violation("%d bytes more than expected: %r" % (n - p, bytes(mv[p:p + 100])))
        return True

    def hotcheck(self, v, at):
        h = v[:8]
        if not h.isdigit() or self.hot.get(int(h)) != v:
            raise Violation("value at byte %d is no value ever stored: %r" % (at, v[:60]))

    def run(self, ctx, case):
        s = self.s
        s.ctl.set(sndbuf=case["sndbuf"], send_max=case["send_max"])
        for v in [v for v in self.hot if v < self.hotmax]:
            del self.hot[v]
        if self.base is None:
            self.base = s.rss()
        cl = []
        try:
            built = [self.build(c) for c in case["clients"]]
            for c, (o, w) in zip(case["clients"], built):
                cl.append(Rd(self, c, o, w))
            self.drive(cl)
            for r in cl:
                if not r.dead and not self.match(r):
                    raise Violation("only %d bytes of the responses arrived before the end of the "
                                    "stream (client %r)" % (len(r.got), r.spec["proto"]))
                elif r.dead:
                    self.match(r)
            self.memory("while the connections are open")
        finally:
            for r in cl:
                r.c.close()
            s.ctl.set(send_max=0, sndbuf=0)
        x = self.conns.get("x")
        if x is None:
            x = self.conns["x"] = Mixed(s, s.port)
        r = x.call("Get", b"K3")
        if r.status or r.data != self.vals[3]:
            raise Violation("no service afterwards: %r" % r)
        # everybody else has gone; (the admin and x remain)
        s.wait_stat(lambda st: int(st["curr_connections"]) <= 3, "the end of connections")
        self.sethot(x, 1000)
        self.memory("after they are closed")
        s.check_alive()
        nt = any(r.total > 300_000 and r.pauses for r in cl)
        return nt, sorted({r.spec["end"] for r in cl} | {q[0] for r in cl for q in r.spec["reqs"]})

    def memory(self, when):
        s = self.s
        end = time.monotonic() + 10
        while s.rss() > self.base + (24 << 20):
            if time.monotonic() > end:
                raise Violation("memory for unsent data is not released %s: %d MB more than at the "
                                "start" % (when, (s.rss() - self.base) >> 20))
            s.stats()
            time.sleep(.01)

    def drive(self, cl):
        live = list(cl)
        while live:
            now = time.monotonic()
            rl, wl, t = [], [], .5
            for r in live:
                if r.out and not r.dead:
                    wl.append(r.c.s)
                if r.next <= now:
                    rl.append(r.c.s)
                else:
                    t = min(t, r.next - now)
            a, b, _ = select.select(rl, wl, [], max(t, 0))
            for r in list(live):
                if r.c.s in b:
                    try:
                        n = r.c.s.send(r.out[:r.spec["cut"] or len(r.out)])
                        r.out = r.out[n:]
                        r.last = time.monotonic()
                    except BlockingIOError:
                        pass
                    except OSError as e:
                        self.gone(r, "send", e)
                if not r.out and not r.shut and (r.spec["end"] == "half" or
                                                 r.spec["proto"] == "c" and
                                                 r.spec["end"] in ("quit", "quitq")):
                    r.shut = True
                    try:
                        r.c.half_close()
                    except OSError as e:
                        self.gone(r, "shutdown", e)
                if r.c.s in a:
                    n, ms = r.spec["pat"][r.i % len(r.spec["pat"])] if r.spec["pat"] else (1 << 20, 0)
                    if r.i > 60:
                        n, ms = 1 << 20, 0
                    r.i += 1
                    while n > 0:
                        try:
                            d = r.c.s.recv(min(n, 1 << 18))
                        except BlockingIOError:
                            break
                        except OSError as e:
                            self.gone(r, "recv", e)
                        if not d:
                            r.eof = True
                            break
                        r.got += d
                        n -= len(d)
                    now = r.last = time.monotonic()
                    if ms:
                        r.pauses += 1
                        r.next = now + ms / 1000
                if r.spec["end"] in ("rst", "close") and len(r.got) >= r.spec["die"]:
                    r.dead = True
                    r.c.reset() if r.spec["end"] == "rst" else r.c.close()
                if r.dead or r.eof or r.spec["end"] in ("keep", "rst", "close") and not r.out and \
                        len(r.got) >= self.least(r) and self.match(r):
                    live.remove(r)
                elif time.monotonic() - r.last > 20 and not r.out:
                    self.s.check_alive()
                    raise Violation("nothing more arrives after %d of about %d bytes (client %r, "
                                    "reads when it can)" % (len(r.got), r.total, r.spec["proto"]))
                elif time.monotonic() - r.last > 60:
                    raise Violation("server does not read requests")

    def least(self, r):
        if not hasattr(r, "min"):
            r.min = sum(len(w) if isinstance(w, bytearray) else 5 for w in r.want)
        return r.min

    def gone(self, r, what, e):
        self.s.check_alive()
        raise Violation("connection broken (%s: %s) after %d bytes of about %d" %
                        (what, e, len(r.got), r.total))


PARTS = [Slow()]
