"""Reference model of the counter extension and an engine that compares every
response of generated request sequences with it.

Operations: {"o": acq|rel|get|noop|dump|bad|unk|magic, "c": conn, "k": name index, ...}
and control operations clock, boundary, close, collect.
"""
import random, struct, time

from yr import CN, Counter, Violation, HarnessError, cframe, cname

OK, NOT_FOUND, INVALID, UNAVAILABLE, NOT_ACQUIRED, UNKNOWN = 0, 1, 4, 0x21, 0x22, 0x81
U32 = 0xffffffff


class Ctr:
    __slots__ = ("n", "peak", "t")

    def __init__(self, n, t):
        self.n, self.peak, self.t = n, n, t


class CEngine:
    def __init__(self, server, prefix, names, interval):
        self.s = server
        self.pre, self.names = prefix, names
        self.iv = interval
        self.conns = {}
        self.ctrs = {}                 # name -> Ctr
        self.held = {}                 # conn slot -> {name: n}
        self.stat = {}
        self.seq = 0
        self.ops = {}                  # executed commands by name
        self.created = 0

    def note(self, n, k=1):
        self.stat[n] = self.stat.get(n, 0) + k

    def conn(self, c):
        if c not in self.conns:
            self.conns[c] = Counter(self.s, self.s.counter_port)
        return self.conns[c]

    @property
    def now(self):
        return self.s.now

    def name(self, i):
        n = self.names[i]
        if isinstance(n, int):
            p = self.pre
            return (p + bytes([65 + i % 26]) * n)[:max(n, len(p) + 1)] if n > len(p) else \
                p + bytes([65 + i])
        return self.pre + n

    # -- model -------------------------------------------------------------
    def roll(self, c):
        """Bring a counter's peak into the current interval."""
        b = self.now // self.iv * self.iv
        if c.t < b:
            c.peak = c.n
        return c

    def dead(self, c):
        """May have been discarded."""
        return c.n == 0 and c.t < self.now // self.iv * self.iv

    def acquire(self, conn, k, n, mx):
        c = self.ctrs.get(k)
        if c is None:
            self.ctrs[k] = Ctr(n, self.now)
            self.created += 1
        else:
            if c.n + n > mx:
                return False
            self.roll(c)
            c.n += n
            c.peak = max(c.peak, c.n)
            c.t = self.now
        h = self.held.setdefault(conn, {})
        h[k] = h.get(k, 0) + n
        return True

    def release(self, conn, k, n):
        h = self.held.get(conn, {})
        if n > h.get(k, 0):
            return False
        if n:
            h[k] -= n
            if h[k] == 0:
                del h[k]
        c = self.roll(self.ctrs[k])
        c.n -= n
        c.t = self.now
        return True

    # -- one request: bytes and expectations ----------------------------------
    def step(self, op):
        o = op["o"]
        self.seq = (self.seq + 1) & 0xffffff
        opq = bytes([op.get("oq", 0) & 0xef]) + self.seq.to_bytes(3, "big")
        E = lambda code, st, body=None: [(code, opq, st, body)]
        if o == "noop":
            w = cframe(0, b"x" * op.get("junk", 0), opq)
            self.ops["noop"] = self.ops.get("noop", 0) + 1
            return w, E(0, OK, b"")
        if o in ("acq", "rel", "get"):
            k = self.name(op["k"])
            c = self.ctrs.get(k)
            body = {"acq": lambda: struct.pack(">II", op["n"], op["max"]),
                    "rel": lambda: struct.pack(">I", op["n"]), "get": lambda: b""}[o]()
            body += cname(k) + b"j" * op.get("junk", 0)
            code = {"acq": 2, "rel": 3, "get": 1}[o]
            w = cframe(code, body, opq)
            nm = {"acq": "acquire", "rel": "release", "get": "get"}[o]
            if o == "acq":
                if op["n"] == 0 or op["max"] < op["n"]:
                    self.note("invalid")
                    return w, E(code, INVALID)
                self.ops[nm] = self.ops.get(nm, 0) + 1
                if self.acquire(op["c"], k, op["n"], op["max"]):
                    self.note("acquired")
                    if self.ctrs[k].n == op["max"]:
                        self.note("filled")
                    return w, E(code, OK, struct.pack(">I", op["n"]))
                self.note("unavailable")
                if c.n + op["n"] > U32:
                    self.note("overflow_refused")
                return w, E(code, UNAVAILABLE)
            self.ops[nm] = self.ops.get(nm, 0) + 1
            if c is None:
                self.note("missing")
                return w, E(code, NOT_FOUND)
            if o == "get":
                self.note("got")
                return w, E(code, ((OK, NOT_FOUND) if self.dead(c) else OK),
                            struct.pack(">I", c.n))
            if self.dead(c):
                # whether it still exists is not specified
                if op["n"] == 0:
                    self.ops["release"] -= 1
                    self.ops["get"] = self.ops.get("get", 0) + 1
                    return cframe(1, cname(k), opq), E(1, (OK, NOT_FOUND), b"\0" * 4)
                self.note("not_acquired")
                return w, E(code, (NOT_ACQUIRED, NOT_FOUND))
            if self.release(op["c"], k, op["n"]):
                self.note("released")
                return w, E(code, OK, b"")
            self.note("not_acquired")
            return w, E(code, NOT_ACQUIRED)
        if o == "bad":
            # a delimited request with impossible lengths or arguments
            r = random.Random(op["seed"])
            k = self.name(op["k"])
            code = op["code"]
            head = {1: 0, 2: 8, 3: 4}[code]
            args = {1: b"", 2: struct.pack(">II", 1, 5), 3: struct.pack(">I", 1)}[code]
            f = op["form"]
            if f == "short":
                body = (args + cname(k))[:op["cut"] % (head + 2)]
            elif f == "zero":
                body = args + b"\0\0" + k
            elif f == "long":
                body = args + struct.pack(">H", min(65535, len(k) + 1 + op["cut"])) + k
                if len(k) >= min(65535, len(k) + 1 + op["cut"]):
                    body = args
            elif f == "args" and code == 2:
                body = struct.pack(">II", *r.choice([(0, 0), (0, 5), (6, 5), (U32, U32 - 1),
                                                     (1, 0)])) + cname(k)
            else:
                body = args
            self.note("invalid")
            return cframe(code, body, opq), E(code, INVALID)
        if o == "unk":
            self.note("unknown")
            return cframe(op["code"], b"z" * op["len"], opq), E(op["code"], UNKNOWN)
        if o == "magic":
            self.note("invalid")
            k = self.name(op["k"])
            return cframe(2, struct.pack(">II", 1, 5) + cname(k), opq, magic=op["magic"]), \
                E(2, INVALID)
        raise HarnessError("counter op %r" % (op,))

    def run(self, ops):
        pend, exp, cur = [], [], None
        for op in ops:
            o = op["o"]
            ctl = o in ("clock", "boundary", "close", "collect", "dump")
            if cur is not None and (ctl or op["c"] != cur or not op.get("j")):
                self.exchange(cur, b"".join(pend), exp)
                pend, exp, cur = [], [], None
            if ctl:
                getattr(self, "ctl_" + o)(op)
                continue
            cur = op["c"]
            w, e = self.step(op)
            pend.append(w)
            exp += [(op, x) for x in e]
        if cur is not None:
            self.exchange(cur, b"".join(pend), exp)

    def exchange(self, c, payload, exp):
        rs = self.conn(c).batch(payload)
        self.ops["noop"] = self.ops.get("noop", 0) + 1
        self.compare(exp, rs)

    def compare(self, exp, rs):
        if len(rs) != len(exp):
            raise Violation("%d responses to %d requests: %r; requests %r" %
                            (len(rs), len(exp), rs[:6], [e[0] for e in exp][:6]))
        for (op, (code, opq, st, body)), r in zip(exp, rs):
            if r.op != code or r.opaque != opq:
                raise Violation("%r: response does not match the request: %r" % (op, r))
            if r.status not in (st if isinstance(st, tuple) else (st,)):
                raise Violation("%r: expected status %r, got %r" % (op, st, r))
            if r.status == OK and r.body != body:
                raise Violation("%r: expected body %r, got %r" % (op, body, r))
            if r.status != OK and not r.body:
                raise Violation("%r: error without a message: %r" % (op, r))
            if r.flags:
                raise Violation("%r: reserved byte not zero: %r" % (op, r))

    # -- control ---------------------------------------------------------------
    def ctl_clock(self, op):
        self.s.advance(op["dt"])
        self.note("clock")

    def ctl_boundary(self, op):
        """To d seconds relative to the start of the next interval."""
        t = (self.now // self.iv + 1) * self.iv + op["d"]
        if t > self.now:
            self.s.set_now(t)
            self.note("boundary")

    def admin(self):
        return self.conn("x")

    def ctl_dump(self, op):
        self.check(op.get("c"))

    def check(self, c=None):
        """Dump must show exactly the model's counters of this case."""
        d = self.conn("x" if c is None else c).dump()
        self.ops["dump"] = self.ops.get("dump", 0) + 1
        self.ops["noop"] = self.ops.get("noop", 0) + 1
        mine = {k: v for k, v in d.items() if k.startswith(self.pre)}
        for k, c in self.ctrs.items():
            if k not in mine:
                if self.dead(c):
                    continue
                raise Violation("counter %r (consumption %d) is missing from dump" %
                                (k[:60], c.n))
            n, mx = mine.pop(k)
            if n != c.n:
                raise Violation("dump of %r: consumption %d, expected %d" % (k[:60], n, c.n))
            peak = c.n if c.t < self.now // self.iv * self.iv else c.peak
            if mx != peak:
                raise Violation("dump of %r: maximum %d, expected %d (consumption %d)" %
                                (k[:60], mx, peak, c.n))
            if peak > c.n:
                self.note("peak_above")
        if mine:
            raise Violation("dump shows unknown counters %r" % mine)
        self.note("dumped")

    def cstats(self):
        self.ops["stats"] = self.ops.get("stats", 0) + 1
        self.ops["noop"] = self.ops.get("noop", 0) + 1
        return self.conn("x").stats()

    def ctl_collect(self, op):
        """Begin a new interval and wait for the collection that follows it.  (A
        collection of the interval before may still be under way or its end not yet
        noticed, so more than one may be needed.)"""
        end = time.monotonic() + 20
        while True:
            n = int(self.cstats()["gc_count"])
            self.ctl_boundary({"d": op.get("d", 0)})
            t = time.monotonic() + 0.1
            while time.monotonic() < t and int(self.cstats()["gc_count"]) == n:
                time.sleep(0.003)
            late = time.monotonic() > end
            if int(self.cstats()["gc_count"]) == n:
                if late:
                    raise Violation("counters were not collected in a new interval")
                continue
            for k, c in list(self.ctrs.items()):
                if self.dead(c):
                    r = self.conn("x").get(k)
                    self.ops["get"] = self.ops.get("get", 0) + 1
                    self.ops["noop"] = self.ops.get("noop", 0) + 1
                    if r is None:
                        del self.ctrs[k]
                        self.note("discarded")
                    elif r != 0 or late:
                        raise Violation("released counter %r still exists (%r) after "
                                        "collections" % (k[:60], r))
                elif c.n:
                    self.note("kept_in_use")
            if not any(self.dead(c) for c in self.ctrs.values()):
                break
        self.check()

    def ctl_close(self, op):
        c = op["c"]
        cn = self.conn(c)
        how = op["how"]
        if how == "rst":
            cn.reset()
        elif how == "half":
            cn.half_close()
            if cn.read_all():
                raise Violation("data after half close")
            cn.close()
        elif how == "cut":
            cn.send(cframe(2, struct.pack(">II", 1, U32) + cname(self.name(op["k"])))[:-1])
            cn.close()
        elif how == "big":
            try:
                cn.s.sendall(struct.pack(">BBBBI", 0x90, 0, 0, 0, 64 << 20) + b"\0" * 4)
                blk = b"y" * (1 << 20)
                for _ in range(34):
                    cn.s.sendall(blk)
            except OSError:
                pass
            cn.close()
        else:
            cn.close()
        del self.conns[c]
        h = self.held.pop(c, {})
        self.note("close_" + how)
        if h:
            self.note("close_holding")
            if any(self.held.values()):
                self.note("others_kept")
        exp = {}
        for k, n in h.items():
            ct = self.roll(self.ctrs[k])
            ct.n -= n
            ct.t = self.now
        end = time.monotonic() + 15
        x = self.conn("x")
        for k, n in h.items():
            ct = self.ctrs[k]
            while True:
                v = x.get(k)
                self.ops["get"] = self.ops.get("get", 0) + 1
                self.ops["noop"] = self.ops.get("noop", 0) + 1
                if v == ct.n or (v is None and self.dead(ct)):
                    break
                if v is None or v < ct.n or v > ct.n + n:
                    raise Violation("consumption of %r is %r after a connection holding %d "
                                    "ended; others hold %d" % (k[:60], v, n, ct.n))
                if time.monotonic() > end:
                    raise Violation("resources of %r outlived their connection" % k[:60])
                time.sleep(0.001)

    def finish(self):
        self.check()
        for c, h in list(self.held.items()):
            w, n = b"", 0
            for k, v in h.items():
                w += cframe(3, struct.pack(">I", v) + cname(k))
                n += 1
            rs = self.conn(c).batch(w)
            if len(rs) != n or any(r.status for r in rs):
                raise Violation("final release failed: %r" % rs[:3])
        self.held = {}
        for c in self.ctrs.values():
            self.roll(c)
            if c.n:
                c.n = 0
                c.t = self.now
        self.check()
