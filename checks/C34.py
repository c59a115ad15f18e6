"""C34: signals."""
import os, random, re, select, signal, socket, struct, subprocess, threading, time
from harness import Part
from model import Mixed
from parts import ServerPart
from yr import OP, CN, Conn, Counter, Violation, bframe, cframe, cname
import yr

PROPERTY = "C34"
TECHNIQUE = ("generated loads, roles and signal sequences against real servers: exit status and time, "
             "log files followed through renames and reopenings, exact responses under load; shrinking")
RULE = ("stop: a master (with slow readers, quiet storms, large gets, counters, locks, slaves that read "
        "or do not, continuous collections), a slave fed by a scripted master, a slave with no master, "
        "a promoted slave, or a master shortly after its start gets SIGTERM, SIGINT or SIGQUIT, once or "
        "several times, after other signals, at a generated moment, and must exit with status 0 within "
        "15 seconds.  logs: clients run commands with exact expectations while the log file is "
        "renamed, deleted, copied and SIGHUP, SIGUSR1 come alone or in bursts; each log line must be "
        "whole, lines after the reopening must be in a file at the configured path and no more in the "
        "old one, statistics must show the right numbers of slaves, clients and operations, all "
        "responses and finally all data must be right.  Non-trivial: load was running (stop), the "
        "file was moved and reopened (logs)")
ASSUME = ["'promptly' is taken as within 15 seconds"]

LOADS = ["none", "quiet", "slow", "mixed", "counter", "locks", "slaves", "deaf", "gc", "big", "conns"]


class Stop(Part):
    name = "stop"
    racy = True
    examples = {"quick": 120, "thorough": 5000}
    cap = {"quick": 14, "thorough": 700}
    lists = ("loads", "before")
    patience = 15

    def setup(self, ctx):
        pass

    def generate(self, rng, ctx):
        return {"role": rng.choice(["master"] * 6 + ["slave", "orphan", "promoted", "young"]),
                "loads": [rng.choice(LOADS) for _ in range(rng.choice([1, 1, 2, 3]))],
                "sig": rng.choice([15, 2, 3]), "again": rng.choice([0, 0, 1, 5]),
                "before": [rng.choice([1, 10]) for _ in range(rng.choice([0, 0, 1, 3]))],
                "ms": rng.choice([0, 0, 1, 2, 5, 20, 60]), "w": rng.choice([1, 2, 4, 8]),
                "jit": rng.choice([0, 0, 300]), "seed": rng.randrange(1 << 30)}

    def run(self, ctx, case):
        r = random.Random(case["seed"])
        role = case["role"]
        slave = role in ("slave", "orphan", "promoted")
        cfg = {"workers": case["w"], "gc_interval": 1, "heap_data_limit": 4096,
               "log.threshold": "info"}
        if slave:
            cfg["heap_data_limit"] = 1 << 20
        if "gc" in case["loads"]:
            cfg["memory_limit"] = 1024
        rport = yr.free_port()
        ms = None
        s = None
        socks = []
        jobs = []        # (socket, bytes)
        try:
            if role in ("slave", "promoted"):
                ms = socket.create_server(("127.0.0.1", rport))
                ms.settimeout(20)
            s = yr.Server(cfg, frozen=False, wait=not slave and role != "young", fake_if=1,
                          owns_vip=0 if slave else 1, repl_port=rport, sleep_div=50)
            s.ctl.set(jitter=case["jit"])
            if role == "young":
                # signals before the handler is installed have their default effect
                self.listening(s)
            if role == "orphan":
                self.listening(s)
            if ms is not None:
                m, _ = ms.accept()
                socks.append(m)
                ms.close()
                for _ in range(300):
                    jobs.append((m, bframe(OP["SetQ"], b"r%d" % r.randrange(40), bytes(8),
                                           b"z" * r.choice([3, 2000]))))
                # A slave takes up to 200 MB of a stream that never pauses before it looks at
                # signals, so the stream is of objects that it stores quickly.
                b = b"".join(x for _, x in jobs)
                jobs = [(m, b)]
                if role == "promoted":
                    m.sendall(b)
                    s.ctl.set(owns_vip=1)
                    m.close()
                    socks.remove(m)
                    jobs = []
                    s.wait_ready()
            if role in ("master", "promoted"):
                for l in case["loads"]:
                    try:
                        self.load(s, l, r, socks, jobs)
                    except socket.timeout:
                        pass        # workers are held by clients that do not read
            end = time.monotonic() + case["ms"] / 1000
            self.pump(jobs, end)
            for b in case["before"]:
                s.proc.send_signal(b)
                if r.random() < .5:
                    self.pump(jobs, time.monotonic() + .003)
            t = time.monotonic()
            for _ in range(case["again"] + 1):
                try:
                    s.proc.send_signal(case["sig"])
                except ProcessLookupError:
                    pass
            end = t + self.patience
            while s.proc.poll() is None:
                if time.monotonic() > end:
                    raise Violation("%s does not exit within %d s of signal %d" %
                                    (role, self.patience, case["sig"]))
                self.pump(jobs, time.monotonic() + .002)
            if s.proc.returncode != 0:
                raise Violation("%s exits with %d upon signal %d: %s" %
                                (role, s.proc.returncode, case["sig"], s.tail()[-800:]))
        finally:
            for x in socks:
                x.close()
            if ms is not None:
                ms.close()
            if s is not None:
                s.destroy()
        return role in ("slave", "promoted") or case["loads"] != ["none"], [role] + case["loads"]

    def listening(self, s):
        end = time.monotonic() + 20
        while True:
            if s.proc.poll() is not None:
                raise Violation("server exited at start: " + s.tail())
            try:
                c = socket.create_connection(("127.0.0.1", s.port), timeout=5)
                c.close()
                return
            except OSError:
                if time.monotonic() > end:
                    raise Violation("server does not listen")
                time.sleep(.002)

    def pump(self, jobs, end):
        """Feed and drain (those meant to be drained) until `end`."""
        while True:
            for i, j in enumerate(jobs):
                try:
                    j[0].setblocking(False)
                    n = j[0].send(j[1])
                    if n < len(j[1]):
                        jobs[i] = (j[0], j[1][n:] + j[1][:n]) + j[2:]
                except OSError:
                    pass
                if len(j) > 2:
                    try:
                        j[0].recv(j[2])
                    except OSError:
                        pass
            if time.monotonic() >= end:
                return
            if not jobs:
                time.sleep(.001)

    def conn(self, s, socks, port, rcv=None):
        c = socket.socket()
        if rcv:
            c.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcv)
        c.settimeout(.5)
        c.connect(("127.0.0.1", port))
        socks.append(c)
        return c

    def load(self, s, l, r, socks, jobs):
        if l == "quiet":
            for _ in range(r.randint(1, 4)):
                jobs.append((self.conn(s, socks, s.port), b"".join(
                    bframe(OP["SetQ"], b"q%d" % r.randrange(50), bytes(8), b"v" * r.choice([1, 5000]))
                    for _ in range(60))))
        elif l == "slow":
            c = self.conn(s, socks, s.port)
            c.sendall(b"set big 0 0 900000\r\n" + b"b" * 900000 + b"\r\n")
            c.recv(100)
            for _ in range(r.randint(1, 10)):
                c = self.conn(s, socks, s.port, 4096)
                c.sendall(b"get big big big\r\n" * 5)
        elif l in ("mixed", "big"):
            for _ in range(r.randint(1, 5)):
                n = 200000 if l == "big" else 20
                w = b"".join(b"set m%d 0 0 %d\r\n%s\r\nget m%d m2\r\n" % (i, n, b"v" * n, i)
                             for i in range(5))
                jobs.append((self.conn(s, socks, s.port), w, 1 << 18))
        elif l == "counter":
            for _ in range(r.randint(1, 4)):
                w = b"".join(cframe(CN["Acquire"], struct.pack(">II", 1, 1 << 30) + cname(b"c%d" % i))
                             for i in range(50)) + cframe(CN["Dump"])
                jobs.append((self.conn(s, socks, s.counter_port), w, 1 << 16))
        elif l == "locks":
            c = self.conn(s, socks, s.port)
            c.sendall(b"".join(bframe(OP["SetQ"], b"l%d" % i, bytes(8), b"v") +
                               bframe(OP["LockQ"], b"l%d" % i) for i in range(100)))
        elif l in ("slaves", "deaf"):
            for _ in range(r.randint(1, 5)):
                c = self.conn(s, socks, s.repl_port, 4096 if l == "deaf" else None)
                if l == "slaves":
                    jobs.append((c, b"\0", 1 << 18))
            jobs.append((self.conn(s, socks, s.port), b"".join(
                bframe(OP["SetQ"], b"q%d" % r.randrange(50), bytes(8), b"v" * 3000)
                for _ in range(60))))
        elif l == "gc":
            c = self.conn(s, socks, s.port)
            for i in range(200):
                c.sendall(bframe(OP["SetQ"], b"g%d" % i, bytes(8), b"v" * 1000))
        elif l == "conns":
            for _ in range(60):
                self.conn(s, socks, r.choice([s.port, s.counter_port]))


LINE = re.compile(rb"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d (ERROR|WARN|INFO|DEBUG) [^\0]*$")


class Logs(ServerPart):
    name = "logs"
    racy = True
    examples = {"quick": 180, "thorough": 8000}
    cap = {"quick": 14, "thorough": 700}
    lists = ("ops",)

    def config(self, ctx):
        return {"workers": 1 + ctx.shard % 4, "log.threshold": ["info", "debug"][ctx.shard % 2],
                "heap_data_limit": 4096, "gc_interval": 2,
                # the test's slaves are silent and time is accelerated
                "slave_timeout": 1000000}

    def setup(self, ctx):
        super().setup(ctx)
        s = self.s
        self.data = {}
        self.n = 0
        self.slaves = []
        self.feeders = [Mixed(s, s.port) for _ in range(3)]
        self.due = [[] for _ in self.feeders]
        for c in self.feeders:
            c.one(bframe(OP["Noop"]))
        s.stats()
        self.cc = s.counter()
        self.cc.get(b"x")
        self.ops = None

    def teardown(self, ctx):
        for c in getattr(self, "feeders", []) + getattr(self, "slaves", []):
            c.close()
        if getattr(self, "cc", None) is not None:
            self.cc.close()
        super().teardown(ctx)

    def generate(self, rng, ctx):
        ops = []
        for _ in range(rng.randint(4, 25)):
            x = rng.random()
            if x < .35:
                ops.append(["run", rng.randrange(3), rng.randrange(8), rng.choice([1, 10, 5000]),
                            rng.choice([1, 5, 40])])
            elif x < .5:
                ops.append(["sig", rng.choice([1, 10]), rng.choice([1, 1, 3, 20])])
            elif x < .65:
                ops.append([rng.choice(["move", "move", "delete", "trunc"])])
            elif x < .75:
                ops.append(["move_hup"])
            elif x < .85:
                ops.append(["stats"])
            elif x < .9:
                ops.append(["slave", rng.randrange(2)])
            elif x < .95:
                ops.append(["gc"])
            else:
                ops.append(["drain"])
        return {"ops": ops}

    def take(self, i):
        c, due = self.feeders[i], self.due[i]
        for w in due:
            if isinstance(w, tuple):
                r = c.next()
                if r != ("VALUE", w[0], 0, w[1]):
                    raise Violation("get %r -> %r" % (w[0], r))
                w = b"END"
            r = c.next()
            if r != w:
                raise Violation("expected %r, got %r" % (w, r))
        self.due[i] = []

    def lines(self, path):
        try:
            with open(path, "rb") as fp:
                b = fp.read()
        except FileNotFoundError:
            return None
        if b and not b.endswith(b"\n"):
            b = b[:b.rfind(b"\n") + 1]      # being written
        ls = b.split(b"\n")[:-1]
        for l in ls:
            if not LINE.match(l):
                raise Violation("broken log line %r" % l[:300])
        return ls

    def wait_line(self, pat, n0, what):
        """Wait until the file at the configured path has more than n0 lines that
        match; return the last."""
        end = time.monotonic() + 10
        while True:
            m = [l for l in self.lines(self.s.logfile) or [] if re.search(pat, l)]
            if len(m) > n0:
                return m[-1]
            self.s.check_alive()
            if time.monotonic() > end:
                raise Violation("%s: no line %r in the log within 10 s" % (what, pat))
            time.sleep(.001)

    def count(self, pat):
        return len([l for l in self.lines(self.s.logfile) or [] if re.search(pat, l)])

    def hup(self):
        n = self.count(rb"got SIGHUP")
        self.s.proc.send_signal(1)
        self.wait_line(rb"got SIGHUP", n, "SIGHUP")

    def run(self, ctx, case):
        s = self.s
        moved = reopened = False
        log = s.logfile
        olds = []
        nm = 0
        for o in case["ops"]:
            k = o[0]
            if k == "run":
                c, due = self.feeders[o[1]], self.due[o[1]]
                out = []
                for i in range(o[4]):
                    key = b"k%d.%d" % (o[1], o[2])
                    if i % 3 != 2 or key not in self.data:
                        v = bytes([65 + self.n % 26]) * o[3]
                        self.n += 1
                        out.append(b"set %s 0 0 %d\r\n%s\r\n" % (key, len(v), v))
                        due.append(b"STORED")
                        self.data[key] = v
                    else:
                        out.append(b"get %s\r\n" % key)
                        due.append((key, self.data[key]))
                c.send(b"".join(out))
                if sum(len(w[1]) if isinstance(w, tuple) else 9 for w in due) > 50000:
                    self.take(o[1])
            elif k == "sig":
                for _ in range(o[2]):
                    s.proc.send_signal(o[1])
                if o[1] == 1:
                    # until it has been done, so that later expectations are clear
                    self.hup()
                    reopened = reopened or moved
            elif k == "move" and os.path.exists(log):
                nm += 1
                os.rename(log, log + ".%d" % nm)
                olds.append(log + ".%d" % nm)
                moved = True
            elif k == "delete" and os.path.exists(log):
                os.unlink(log)
                moved = True
            elif k == "trunc" and os.path.exists(log):
                os.truncate(log, 0)
            elif k == "move_hup" and os.path.exists(log):
                nm += 1
                old = log + ".%d" % nm
                os.rename(log, old)
                olds.append(old)
                self.hup()
                sizes = {p: os.path.getsize(p) for p in olds}
                n = self.count(rb"memcache master:")
                s.proc.send_signal(10)
                self.wait_line(rb"memcache master:", n, "SIGUSR1 after SIGHUP")
                for p in olds:
                    if os.path.getsize(p) != sizes[p]:
                        raise Violation("lines go to the old log file after it was reopened")
                    if old == p and self.lines(p) is None:
                        raise Violation("old log vanished")
                moved = reopened = True
            elif k == "stats":
                for i in range(3):
                    self.take(i)
                self.hup()
                self.stats()
            elif k == "slave":
                if o[1] and len(self.slaves) < 4:
                    c = Conn(s, s.repl_port)
                    self.slaves.append(c)
                elif self.slaves:
                    self.slaves.pop().close()
            elif k == "gc":
                s.gc()
            elif k == "drain":
                for i in range(3):
                    self.take(i)
        for i in range(3):
            self.take(i)
        for key, v in self.data.items():
            r = self.feeders[0].call("Get", key)
            if r.status or r.data != v:
                raise Violation("data lost: %r -> %r" % (key, r))
        for p in olds:
            self.lines(p)
            os.unlink(p)
        self.hup()
        fds = "/proc/%d/fd" % s.proc.pid
        n = 0
        for f in os.listdir(fds):
            try:
                n += os.readlink(os.path.join(fds, f)).startswith(log)
            except OSError:
                pass
        if n != 1:
            raise Violation("%d descriptors of log files are open after reopening" % n)
        for c in self.slaves:
            self.drain(c)
        s.check_alive()
        return reopened, sorted({o[0] for o in case["ops"]})

    def drain(self, c):
        while select.select([c.s], [], [], 0)[0]:
            if not c.s.recv(1 << 20):
                raise Violation("a slave was disconnected")

    def stats(self):
        """The dump must show the current numbers."""
        s = self.s

        def dump():
            n = self.count(rb"memcache master:")
            m = self.count(rb"INFO counter:")
            s.proc.send_signal(10)
            l = self.wait_line(rb"memcache master:", n, "SIGUSR1")
            l2 = self.wait_line(rb"INFO counter:", m, "SIGUSR1")
            a = re.search(rb"memcache master: (\d+) slaves, (\d+) objects, (\d+) clients, "
                          rb"(\d+) total ops", l)
            b = re.search(rb"counter: (\d+) objects, (\d+) clients, (\d+) total ops", l2)
            if not a or not b:
                raise Violation("statistics line: %r / %r" % (l, l2))
            return [int(x) for x in a.groups()], [int(x) for x in b.groups()]

        end = time.monotonic() + 10
        while True:
            a, b = dump()
            if a[0] == len(self.slaves) and a[2] == len(self.feeders) + 1 and b[1] == 1:
                break
            if time.monotonic() > end:
                raise Violation("statistics show %d slaves, %d clients, %d counter clients; there are "
                                "%d, %d, 1" % (a[0], a[2], b[1], len(self.slaves),
                                               len(self.feeders) + 1))
            time.sleep(.005)
        n = 1 + self.n % 7
        c = self.feeders[0]
        for i in range(n):
            c.call("Get", b"nosuch")          # and a noop each
        for i in range(n):
            self.cc.get(b"nosuch")            # likewise
        a2, b2 = dump()
        if a2[3] - a[3] != 2 * n or b2[2] - b[2] != 2 * n:
            raise Violation("after %d operations each, total ops went from %d to %d and from %d to %d"
                            % (2 * n, a[3], a2[3], b[2], b2[2]))
        st = s.stats()
        if int(st["curr_items"]) != a2[1]:
            x, _ = dump()
            if int(s.stats()["curr_items"]) != x[1]:
                raise Violation("statistics show %d objects, curr_items is %s" %
                                (x[1], st["curr_items"]))


PARTS = [Stop(), Logs()]
