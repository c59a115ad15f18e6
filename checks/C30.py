"""C30: connection limits and descriptor exhaustion."""
import errno, os, random, select, socket, struct, time
from model import Mixed
from parts import ServerPart
from yr import OP, CN, Conn, Counter, Violation, bframe, cframe, cname

PROPERTY = "C30"
TECHNIQUE = ("generated histories of connections opened, used and ended in every way, against the "
             "number of places as the model; generated descriptor exhaustion and accept() faults "
             "with a reference map for the data; shrinking")
RULE = ("limits: max_connections and counter.max_connections of 2..20; 3..30 operations open "
        "connections one by one or in storms, leave them idle, with part of a request, with locks, "
        "with unread responses, with a long pipeline running, and end them (close, reset, half-close, "
        "quit, protocol errors the server closes for).  Served and refused clients must be exactly "
        "those the model of free places says; every place comes back.  exhaust: with RLIMIT_NOFILE "
        "of 30..70, clients connect until no descriptor is left, while served ones store, read, "
        "append to and delete small and large objects, collections run and accept() fails with "
        "generated errors; data must match a reference map; waiting and new clients must be served "
        "once descriptors are free.  Non-trivial: a client was refused and a later one served "
        "(limits), descriptors ran out (exhaust)")
ASSUME = ["an end of a connection is noticed within 10 seconds"]

ENDS_M = ["fin", "fin", "rst", "rst", "half", "quit", "quitb", "large", "midreq"]
ENDS_C = ["fin", "rst", "half", "midreq"]
USES = ["idle", "noop", "part", "lock", "unread", "pipe"]


class Client:
    def __init__(self, part, port, counter):
        self.s = socket.socket()
        self.s.settimeout(10)
        self.part, self.counter = part, counter
        self.use = "idle"
        self.s.connect(("127.0.0.1", port))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)

    PING = {True: cframe(CN["Noop"], opaque=b"ping"), False: bframe(OP["Noop"], opaque=0x1234)}
    PONG = {True: b"\x91\0" + bytes(6) + b"ping",
            False: b"\x81" + bframe(OP["Noop"], opaque=0x1234)[1:]}

    def ask(self):
        try:
            self.s.sendall(self.PING[self.counter])
        except OSError:
            pass

    def served(self):
        """True if answered, False if closed by the server."""
        want, got = self.PONG[self.counter], b""
        while len(got) < len(want):
            try:
                d = self.s.recv(len(want) - len(got))
            except socket.timeout:
                self.part.s.check_alive()
                raise Violation("a new %s connection is neither served nor refused within 10 s" %
                                ("counter" if self.counter else "memcache"))
            except OSError:
                d = b""
            if not d:
                if got:
                    raise Violation("connection closed within a response")
                return False
            got += d
        if got != want:
            raise Violation("noop answered by %r" % got)
        return True

    def close(self):
        self.s.close()


class Limits(ServerPart):
    name = "limits"
    examples = {"quick": 220, "thorough": 9000}
    cap = {"quick": 14, "thorough": 700}
    lists = ("ops",)

    def config(self, ctx):
        self.mm = [2, 3, 5, 8, 20, 4, 2, 12][ctx.shard % 8]
        self.mc = [3, 2, 7, 2, 4, 20, 12, 5][ctx.shard % 8]
        return {"max_connections": self.mm, "counter.max_connections": self.mc,
                "workers": 1 + ctx.shard % 4}

    def setup(self, ctx):
        super().setup(ctx)
        self.open = {False: [], True: []}
        self.ca = self.s.counter()
        self.s.admin.set(b"big", b"x" * 900000)
        self.s.ctl.set(sndbuf=20000)

    def teardown(self, ctx):
        for l in getattr(self, "open", {}).values():
            for c in l:
                c.close()
        if getattr(self, "ca", None) is not None:
            self.ca.close()
        super().teardown(ctx)

    def generate(self, rng, ctx):
        ops = []
        for _ in range(rng.randint(3, 30)):
            c = rng.random() < .4
            x = rng.random()
            if x < .45:
                ops.append(["open", c, rng.choice([1, 1, 1, 2, 3, 10, 25]),
                            rng.choice(USES[:3] if c else USES)])
            elif x < .9:
                ops.append(["end", c, rng.choice([1, 1, 2, 5, 30]), rng.randrange(100),
                            rng.choice(ENDS_C if c else ENDS_M)])
            elif x < .93:
                ops.append(["churn", c, rng.choice([3, 10, 30]), rng.choice(["fin", "rst"])])
            elif x < .97:
                # the next end is seen by recv() as the other host being down
                ops.append(["err", c, rng.choice(["ETIMEDOUT", "EHOSTUNREACH", "ENETRESET"])])
            else:
                ops.append(["ping", c])
        return {"ops": ops}

    def count(self, c):
        return int(self.ca.stats()["curr_connections"] if c else self.s.stats()["curr_connections"])

    def settle(self, c):
        want = 1 + len(self.open[c])
        end = time.monotonic() + 10
        while True:
            n = self.count(c)
            if n == want:
                return
            if time.monotonic() > end:
                raise Violation("%s curr_connections is %d with %d clients connected" %
                                ("counter" if c else "memcache", n, want))
            time.sleep(.001)

    def run(self, ctx, case):
        s = self.s
        refused = served = False
        try:
            for o in case["ops"]:
                c = o[1]
                port = s.counter_port if c else s.port
                limit = self.mc if c else self.mm
                lst = self.open[c]
                if o[0] == "open":
                    new = [Client(self, port, c) for _ in range(o[2])]
                    for x in new:
                        x.ask()
                    free = limit - 1 - len(lst)
                    ok = []
                    for x in new:
                        if x.served():
                            ok.append(x)
                        else:
                            refused = True
                            x.close()
                    lst.extend(ok)
                    if len(ok) != min(free, len(new)):
                        raise Violation("%d of %d new %s connections were served, %d places of %d "
                                        "were free" % (len(ok), len(new), "counter" if c else
                                                       "memcache", free, limit))
                    served = served or bool(refused and ok)
                    for x in ok:
                        self.use(x, o[3], ctx)
                elif o[0] == "end":
                    for i in range(min(o[2], len(lst))):
                        self.end(lst.pop((o[3] + i * 7) % len(lst)), o[4])
                    self.settle(c)
                elif o[0] == "err":
                    s.ctl.set(recv_errno=getattr(errno, o[2]))
                elif o[0] == "churn":
                    # connections that go before they say anything: they may be accepted
                    # or refused, but must leave nothing behind
                    for _ in range(o[2]):
                        x = Client(self, port, c)
                        if o[3] == "rst":
                            self.rst(x)
                        else:
                            x.close()
                    self.settled_churn(c)
                else:
                    for x in lst:
                        if x.use in ("idle", "lock"):
                            x.ask()
                            if not x.served():
                                raise Violation("an established connection was closed")
        finally:
            s.ctl.set(recv_errno=0)
            for c in (False, True):
                for x in self.open[c]:
                    x.close()
                self.open[c] = []
        for c in (False, True):
            self.settle(c)
        s.check_alive()
        return bool(refused and served), [o[0] for o in case["ops"]] + \
            [o[4] for o in case["ops"] if o[0] == "end"]

    def settled_churn(self, c):
        # a sentinel connection that is accepted (or refused) after all others
        end = time.monotonic() + 10
        while True:
            x = Client(self, self.s.counter_port if c else self.s.port, c)
            x.ask()
            x.served()
            x.close()
            try:
                self.settle(c)
                return
            except Violation:
                if time.monotonic() > end:
                    raise

    def use(self, x, how, ctx):
        x.use = how
        if x.counter:
            if how == "part":
                x.s.sendall(cframe(CN["Acquire"], struct.pack(">II", 1, 5) + cname(b"abc"))[:-2])
            elif how == "noop":
                x.s.sendall(cframe(CN["Acquire"], struct.pack(">II", 1, 1000) + cname(b"q")))
            return
        s = x.s
        if how == "part":
            s.sendall(bframe(OP["Set"], b"k", bytes(8), b"abc")[:-2])
        elif how == "noop":
            s.sendall(b"verbosity 1\r\n")
        elif how == "lock":
            self.nlock = getattr(self, "nlock", 0) + 1
            s.sendall(bframe(OP["SetQ"], b"L%d" % self.nlock, bytes(8), b"1") +
                      bframe(OP["LockQ"], b"L%d" % self.nlock))
        elif how == "unread":
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 4096)
            # one response only: a second one would hold a worker
            s.sendall(bframe(OP["Get"], b"big"))
        elif how == "pipe":
            s.sendall(b"incr nosuch 1\r\n" * 300)

    def rst(self, x):
        x.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        x.close()

    def end(self, x, how):
        s = x.s
        if x.use == "unread" and how in ("half", "quit", "quitb", "large", "midreq"):
            how = "fin"
        if x.use == "part" and how in ("quit", "quitb", "large"):
            how = "midreq"
        try:
            if how == "rst":
                return self.rst(x)
            if how == "half":
                s.shutdown(socket.SHUT_WR)
            elif how == "quit":
                s.sendall(b"quit\r\n")
            elif how == "quitb":
                s.sendall(bframe(OP["Quit"]))
            elif how == "large":
                s.sendall(struct.pack(">BBHBBHIIQ", 0x80, 1, 1, 8, 0, 0, 60 << 20, 0, 0) +
                          b"x" * 100)
                # the server ends it on having received too much
                return self.flood(x)
            elif how == "midreq":
                s.sendall(cframe(CN["Get"], cname(b"abc"))[:-1] if x.counter else
                          b"set a 0 0 10\r\nabc")
                return self.rst(x)
            else:
                return x.close()
            while s.recv(1 << 16):
                pass
        except socket.timeout:
            self.s.check_alive()
            raise Violation("the server does not close a connection ended by %r" % how)
        except OSError:
            pass
        x.close()

    def flood(self, x):
        b = b"y" * (1 << 20)
        try:
            for _ in range(40):
                x.s.sendall(b)
            while x.s.recv(1 << 16):
                pass
        except socket.timeout:
            self.s.check_alive()
            raise Violation("the server does not end a connection with a 60 MiB request")
        except OSError:
            pass
        x.close()


class Exhaust(ServerPart):
    name = "exhaust"
    examples = {"quick": 110, "thorough": 5000}
    cap = {"quick": 13, "thorough": 700}
    lists = ("ops",)

    def config(self, ctx):
        return {"workers": 2 + ctx.shard % 3, "heap_data_limit": 4096, "gc_interval": 1,
                "log.file": "'/dev/null'".replace("'", chr(34))}

    def server_args(self, ctx):
        return {"nofile": [40, 48, 60, 90][ctx.shard % 4]}

    def setup(self, ctx):
        super().setup(ctx)
        s = self.s
        self.cc = s.counter()
        self.cc.get(b"x")
        self.st = {}
        self.cl = [Mixed(s, s.port) for _ in range(3)]
        for c in self.cl:
            c.one(bframe(OP["Noop"]))
        s.stats()
        s.gc()
        time.sleep(.01)
        self.fd0 = len(s.fds())

    def teardown(self, ctx):
        for c in getattr(self, "cl", []):
            c.close()
        if getattr(self, "cc", None) is not None:
            self.cc.close()
        super().teardown(ctx)

    def generate(self, rng, ctx):
        ops = [["fill", rng.random() < .3]] if rng.random() < .7 else []
        for _ in range(rng.randint(5, 40)):
            x = rng.random()
            k = rng.randrange(8)
            if x < .5:
                ops.append([rng.choice(["set", "set", "sett", "app", "pre", "get", "get", "get", "del",
                                        "touch", "lag"]), rng.randrange(3), k,
                            rng.choice([1, 100, 3000, 4096, 4097, 9000, 100000])])
            elif x < .6:
                ops.append(["files", rng.choice([1, 5, 20, 60])])
            elif x < .7:
                ops.append(["gc"])
            elif x < .78:
                ops.append(["fill", rng.random() < .3])
            elif x < .86:
                ops.append(["free", rng.choice([1, 2, 5, 100])])
            elif x < .92:
                ops.append(["unfile", rng.choice([1, 5, 100])])
            elif x < .97:
                ops.append(["fail", rng.choice(["EINTR", "ECONNABORTED", "EMFILE", "ENFILE"]),
                            rng.choice([1, 2, 10])])
            else:
                ops.append(["ctr"])
        return {"ops": ops}

    def newclient(self, counter):
        return Client(self, self.s.counter_port if counter else self.s.port, counter)

    def run(self, ctx, case):
        s = self.s
        pre = b"%d." % ctx.counter
        ref, nf = {}, 0
        waiting, ok = [], []
        full = False

        def poll(need, why):
            """Take the answers that have come to waiting clients."""
            end = time.monotonic() + 10
            got = 0
            while True:
                fds = {x.s: x for x in waiting}
                rl = select.select(list(fds), [], [], 0 if got >= need else .1)[0] if fds else []
                for f in rl:
                    x = fds[f]
                    waiting.remove(x)
                    if not x.served():
                        raise Violation("a waiting client was disconnected (no limit is configured)")
                    ok.append(x)
                    got += 1
                if got >= need:
                    return
                s.check_alive()
                if time.monotonic() > end:
                    raise Violation("descriptors are free but no waiting client was served in 10 s "
                                    "(%s)" % why)

        try:
            for n, o in enumerate(case["ops"]):
                k = o[0]
                if k == "fill":
                    # more clients than there are descriptors
                    for _ in range(s.nofile - len(s.fds()) + 3 if len(waiting) < 3 else 1):
                        x = self.newclient(o[1])
                        x.ask()
                        waiting.append(x)
                    t = time.monotonic() + 10
                    while len(s.fds()) < s.nofile - 1 and waiting:
                        poll(0, "fill")
                        if time.monotonic() > t:
                            raise Violation("clients are not accepted though descriptors are free")
                        time.sleep(.001)
                    full = True
                    poll(0, "fill")
                elif k == "free":
                    m = min(o[1], len(ok))
                    for _ in range(m):
                        ok.pop(n % len(ok)).close()
                    if m and waiting:
                        poll(1, "%d connections closed" % m)
                elif k == "files":
                    for i in range(o[1]):
                        key = pre + b"f%d" % nf
                        nf += 1
                        ref[key] = (b"%d " % i) * 2000
                        self.chk(self.cl[0].call("Set", key, bytes(8), ref[key]), o)
                elif k == "unfile":
                    for key in [q for q in ref if q.startswith(pre + b"f")][:o[1]]:
                        self.chk(self.cl[1].call("Delete", key), o)
                        del ref[key]
                elif k == "gc":
                    s.gc()
                elif k == "fail":
                    s.ctl.set(accept_fail=getattr(errno, o[1]), accept_n=o[2])
                    x = self.newclient(bool(o[2] & 1))
                    x.ask()
                    waiting.append(x)
                elif k == "ctr":
                    if self.cc.get(b"nosuch") is not None:
                        raise Violation("counter exists")
                else:
                    c, key = self.cl[o[1]], pre + b"k%d" % o[2]
                    v = bytes([65 + n % 26]) * o[3]
                    if k == "set":
                        self.chk(c.call("Set", key, bytes(8), v), o)
                        ref[key] = v
                    elif k == "sett":
                        c.send(b"set %s 0 0 %d\r\n%s\r\n" % (key, len(v), v))
                        if c.next() != b"STORED":
                            raise Violation("%r failed" % o)
                        ref[key] = v
                    elif k in ("app", "pre"):
                        r = c.call("Append" if k == "app" else "Prepend", key, b"", v)
                        if (r.status == 0) != (key in ref):
                            raise Violation("%r -> %r" % (o, r))
                        if key in ref:
                            if len(ref[key]) < 400000:
                                ref[key] = ref[key] + v if k == "app" else v + ref[key]
                            else:
                                del ref[key]
                                self.chk(c.call("Delete", key), o)
                    elif k == "get":
                        self.get(c, key, ref)
                    elif k == "lag":
                        r = c.call("LaG", key)
                        if (r.status == 0) != (key in ref) or key in ref and r.data != ref[key]:
                            raise Violation("%r -> %r" % (o, r))
                        if key in ref:
                            self.chk(c.call("RaU", key, bytes(8), v), o)
                            ref[key] = v
                    elif k == "del":
                        r = c.call("Delete", key)
                        if (r.status == 0) != (key in ref):
                            raise Violation("%r -> %r" % (o, r))
                        ref.pop(key, None)
                    elif k == "touch":
                        r = c.call("Touch", key, bytes(4))
                        if (r.status == 0) != (key in ref):
                            raise Violation("%r -> %r" % (o, r))
            for key in list(ref):
                self.get(self.cl[2], key, ref)
                self.chk(self.cl[2].call("Delete", key), key)
            poll(0, "")
            # everything is released: waiting and new clients are served
            for x in ok:
                x.close()
            del ok[:]
            while waiting:
                poll(1, "objects deleted, clients closed")
                while ok:
                    ok.pop().close()
            for c in (False, True):
                x = self.newclient(c)
                x.ask()
                if not x.served():
                    raise Violation("a new client is refused though descriptors are free")
                x.close()
        finally:
            for x in waiting + ok:
                x.close()
            s.ctl.set(accept_n=0)
        end = time.monotonic() + 10
        while len(s.fds()) > self.fd0:
            if time.monotonic() > end:
                raise Violation("descriptors leak: %d at the start, now %r" % (self.fd0, s.fds()))
            self.s.stats()
            time.sleep(.002)
        s.check_alive()
        return full, sorted({o[0] for o in case["ops"]})

    def chk(self, r, what):
        if r.status:
            raise Violation("%r -> %r" % (what, r))

    def get(self, c, key, ref):
        r = c.call("Get", key)
        if (r.status == 0) != (key in ref) or key in ref and r.data != ref[key]:
            raise Violation("get %r -> %r, expected %r" % (key, r, ref.get(key, b"")[:50]))


PARTS = [Limits(), Exhaust()]
