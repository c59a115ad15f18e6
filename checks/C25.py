"""C25: slave failures never harm the master."""
import random, select, socket, struct, threading, time
import gen, yr
from harness import Part
from model import CONTROL
from parts import ModelPart, ServerPart
from repl import FakeSlave, ReplEngine
from yr import OP, Violation, bframe
import importlib

PROPERTY = "C25"
TECHNIQUE = ("generated histories of slaves joining, beating, falling silent, failing and leaving against "
             "a reference model of the slave list in simulated time; and misbehaving slaves beside "
             "model-checked client histories and streams, under address sanitizer; shrinking")
RULE = ("timeout: 5..60 steps of {1..8 joins, heartbeats of some, clock steps with exactly one periodic "
        "run, FIN, RST, half-close, garbage, updates} with slave_timeout 4..1000: after every step a slave "
        "must be connected iff it is a served one that was not silent for slave_timeout seconds and "
        "did not leave, `stats slaves` must be their number, and all of them get an update; non-trivial: a time-out "
        "and a refusal happened.  "
        "harm: histories of 10..50 commands as for C22 with 1..2 good slaves, among which other slaves "
        "connect and disappear at once, RST while data is on its way, never read, send garbage, "
        "flood, half-close or come in crowds above the limit; all client replies and the good "
        "slaves' states must be exact.  Non-trivial: 3 or more misbehaving slaves")
ASSUME = ["a slave that sends heartbeats but never reads is not covered: its buffer fills and holds "
          "workers until it is gone (documented)"]

FIVE = 5


class Timeout(ServerPart):
    name = "timeout"
    variants = ("plain", "asan")
    examples = {"quick": 150, "thorough": 6000}
    cap = {"quick": 12, "thorough": 600}
    server_kw = {"counter": False}
    lists = ("ops", "who")

    def config(self, ctx):
        self.T = [4, 5, 10, 60, 1000, 4, 7, 10][ctx.shard % 8]
        return {"slave_timeout": self.T, "gc_interval": 1 if ctx.shard % 2 else 100, "workers": 2,
                "repl_buffer_size": 1}

    def setup(self, ctx):
        self.s = yr.Server(self.config(ctx), variant="asan" if ctx.shard % 4 == 3 else "plain",
                           **self.server_kw)
        self.s.stepped()
        self.sl = []

    def teardown(self, ctx):
        for x in getattr(self, "sl", []):
            x.close()
        super().teardown(ctx)

    def generate(self, rng, ctx):
        ops = []
        T = [4, 5, 10, 60, 1000, 4, 7, 10][ctx.shard % 8]
        for _ in range(rng.choice([5, 15, 30, 60])):
            o = rng.choice(["join", "join", "beat", "beat", "beat", "step", "step", "step", "step",
                            "leave", "garb", "half", "set", "crowd"])
            d = {"o": o}
            if o == "join":
                d["n"] = rng.choice([1, 1, 2, 3, 8])
            elif o == "beat":
                d["who"] = [rng.randrange(5) for _ in range(rng.choice([1, 2, 5]))]
            elif o == "step":
                d["dt"] = rng.choice([0, 1, 1, 1, 2, T - 1, T, T + 1, T // 2, 5 * T]) if \
                    rng.random() < .7 else 1
            elif o in ("leave", "garb", "half"):
                d["i"] = rng.randrange(5)
                d["how"] = rng.choice(["fin", "rst"])
                d["n"] = rng.choice([1, 100, 70000])
            elif o == "crowd":
                d["n"] = rng.choice([2, 9, 20])
                d["how"] = rng.choice(["fin", "rst"])
            ops.append(d)
        return {"ops": ops}

    def trip(self):
        """The reactor has seen everything that arrived before."""
        a = self.s.admin
        for _ in range(2):
            a.stats()

    def eof(self, sl, wait):
        end = time.monotonic() + wait
        while not sl.eof:
            try:
                sl.pump(.0 if wait <= 0 else .005)
            except ConnectionError:
                sl.eof = True
            if time.monotonic() >= end:
                break
        return sl.eof

    def gone(self, sl, why):
        if not self.eof(sl, 20):
            raise Violation("a slave is still connected: " + why)
        sl.close()

    def step(self, dt, t):
        s = self.s
        s.step(dt)
        t["dirty"] = 0
        stay = []
        for sl in self.sl:
            silent = s.now - sl.last
            if silent >= self.T:
                self.gone(sl, "silent for %d seconds, slave_timeout %d" % (silent, self.T))
                t["timeouts"] += 1
            else:
                stay.append(sl)
        self.sl = stay
        for sl in stay:
            if self.eof(sl, 0):
                raise Violation("the master closed the connection of a slave silent for %d seconds, "
                                "slave_timeout %d" % (s.now - sl.last, self.T))
        n = int(s.stats()["slaves"])
        if n != len(stay):
            raise Violation("stats slaves %d, connected %d" % (n, len(stay)))

    def beat(self, sl, b=b"\0"):
        sl.c.s.sendall(b)
        end = time.monotonic() + 20
        buf = bytearray(4)
        import fcntl, termios
        while True:
            fcntl.ioctl(sl.c.s.fileno(), termios.TIOCOUTQ, buf)
            if struct.unpack("i", buf)[0] == 0:
                break
            if time.monotonic() > end:
                raise Violation("the master does not read what a slave sends")
            time.sleep(.0005)
        sl.last = self.s.now

    def run(self, ctx, case):
        s = self.s
        t = {"dirty": 0, "timeouts": 0, "refused": 0}
        ver = 0
        try:
            for op in case["ops"]:
                o = op["o"]
                i = op.get("i", 0)
                if o in ("join", "crowd"):
                    new = []
                    for _ in range(op["n"]):
                        sl = FakeSlave(s, keep=False)
                        sl.last = s.now
                        new.append(sl)
                    self.trip()
                    self.trip()
                    for sl in new:
                        if len(self.sl) + t["dirty"] < FIVE:
                            if self.eof(sl, 0):
                                raise Violation("a slave was refused with %d of 5 places taken" %
                                                len(self.sl))
                            self.sl.append(sl)
                        elif len(self.sl) >= FIVE or not self.sl and t["dirty"] >= FIVE:
                            self.gone(sl, "%d slaves are connected" % (len(self.sl) + 1))
                            t["refused"] += 1
                        else:
                            # places of slaves that have just left may or may not be free
                            time.sleep(.003)
                            self.trip()
                            if self.eof(sl, .003):
                                sl.close()
                            else:
                                self.sl.append(sl)
                                t["dirty"] -= 1
                    if o == "crowd":
                        for sl in new:
                            if sl in self.sl:
                                self.leave(sl, op["how"], t)
                        self.trip()
                elif o == "beat":
                    for w in op["who"]:
                        if w < len(self.sl):
                            self.beat(self.sl[w])
                    self.trip()
                elif o == "step":
                    self.step(op["dt"], t)
                elif o == "leave":
                    if i < len(self.sl):
                        self.leave(self.sl[i], op["how"], t)
                        self.trip()
                elif o == "garb":
                    if i < len(self.sl):
                        self.beat(self.sl[i], random.Random(op["n"]).randbytes(op["n"]))
                        self.trip()
                elif o == "half":
                    if i < len(self.sl):
                        sl = self.sl.pop(i)
                        t["dirty"] += 1
                        sl.c.s.shutdown(socket.SHUT_WR)
                        self.trip()
                        self.gone(sl, "after a half-close")
                elif o == "set":
                    # two collections: all are in sync
                    ok = True
                    for _ in range(8):
                        for sl in self.sl:
                            self.beat(sl)
                        self.trip()
                        self.step(0, t)
                    for sl in self.sl:
                        self.beat(sl)
                    self.trip()
                    self.step(2, t)
                    self.step(0, t)
                    ver += 1
                    v = b"%d" % ver
                    k = b"key%d" % (ver % 3)
                    s.admin.set(k, v)
                    if s.cfg["gc_interval"] == 1:
                        end = time.monotonic() + 20
                        for sl in self.sl:
                            while sl.state.get(k, (b"",))[0] != v:
                                sl.pump(.005)
                                if sl.eof or time.monotonic() > end:
                                    raise Violation("an update did not reach a slave")
                s.check_alive()
        finally:
            for sl in self.sl:
                sl.close()
            self.sl = []
        end = time.monotonic() + 10
        while int(s.stats()["slaves"]):
            s.step(0)
            if time.monotonic() > end:
                raise Violation("places of slaves that left are not free")
        return bool(t["timeouts"] and t["refused"]), [k for k in t if t[k]]

    def leave(self, sl, how, t):
        self.sl.remove(sl)
        t["dirty"] += 1
        if how == "rst":
            sl.c.reset()
        else:
            sl.close()


class BadEngine(ReplEngine):
    max_slaves = 2
    bad = None

    def ctl_join(self, op):
        self.left = 1
        super().ctl_join(op)

    def ctl_bad(self, op):
        s = self.s
        kind = op["kind"]
        self.note("bad")
        self.nbad = getattr(self, "nbad", 0) + 1
        if self.bad is None:
            self.bad = []

        def conn(rcv=None):
            x = socket.socket()
            if rcv:
                x.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcv)
            x.settimeout(20)
            x.connect(("127.0.0.1", s.repl_port))
            return x

        def end(x, how):
            if how == "rst":
                x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            x.close()

        if kind == "touch":
            for _ in range(op["n"]):
                end(conn(), op["how"])
        elif kind == "crowd":
            xs = [conn() for _ in range(op["n"])]
            time.sleep(op["ms"] / 1000)
            for x in xs:
                end(x, op["how"])
        elif kind == "mute":
            x = conn(2048)
            time.sleep(op["ms"] / 1000)
            self.later(x, op["how"])
        elif kind == "garb":
            x = conn()
            try:
                x.sendall(random.Random(op["n"]).randbytes(op["n"] * 3000))
            except OSError:
                pass
            self.later(x, op["how"])
        elif kind == "half":
            x = conn()
            time.sleep(op["ms"] / 1000)
            try:
                x.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            self.later(x, op["how"])
        elif kind == "flood":
            x = conn()
            self.later(x, op["how"])
            b = b"\0" * (1 << 20)

            def run():
                try:
                    while True:
                        x.sendall(b)
                except (OSError, ValueError):
                    pass
            th = threading.Thread(target=run, daemon=True)
            th.start()
        elif kind == "errno":
            s.ctl.set(recv_errno=[110, 113][op["n"] % 2])
            x = conn()
            try:
                x.shutdown(socket.SHUT_WR)
                while x.recv(65536):
                    pass
            except OSError:
                pass
            x.close()
            s.ctl.set(recv_errno=0)

    def later(self, x, how):
        self.bad.append((x, how))
        if len(self.bad) > 1:
            self.drop(self.bad.pop(0))

    def drop(self, p):
        x, how = p
        try:
            if how == "rst":
                x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            else:
                x.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        x.close()

    def ctl_enddrop(self, op):
        while self.bad:
            self.drop(self.bad.pop())

    def finish(self, close=True):
        self.ctl_enddrop(None)
        super().finish(close)


CONTROL.update({"bad", "enddrop"})
_c22 = importlib.import_module("C22")


class Harm(_c22.Stream):
    name = "harm"
    racy = True
    variants = ("plain", "asan")
    examples = {"quick": 90, "thorough": 4000}
    cap = {"quick": 14, "thorough": 700}

    def setup(self, ctx):
        self.s = yr.Server(self.config(ctx), variant="asan" if ctx.shard % 2 else "plain",
                           **self.server_args(ctx))
        self.conns = {}

    def generate(self, rng, ctx):
        ops = [o for o in gen.ops(rng, self.prof, 10, 50) if o["o"] != "leave"]
        for _ in range(rng.choice([1, 4, 10])):
            ops.insert(rng.randint(0, len(ops)), {
                "o": rng.choice(["bad"] * 7 + ["enddrop"]),
                "kind": rng.choice(["touch", "crowd", "mute", "garb", "half", "flood", "errno"]),
                "n": rng.choice([1, 2, 8, 20]), "ms": rng.choice([0, 0, 1, 5, 20]),
                "how": rng.choice(["fin", "rst"])})
        return {"net": rng.choice([[0, 0], [4096, 0], [0, 100]]),
                "ops": [{"o": "join", "w": 1, "rcv": None}] + ops + [{"o": "sync"}, {"o": "sweep"}]}

    def engine(self, ctx, case):
        pre = b"%d." % ctx.counter
        self.e = e = BadEngine(self.s, prefix=pre, keys=[
            b"k0", b"k1", b"\xffk" + b"2" * (248 - len(pre)), b"3"])
        e.conns = self.conns
        return e

    def run(self, ctx, case):
        try:
            return super().run(ctx, case)
        finally:
            self.s.ctl.set(recv_errno=0)
            self.e.ctl_enddrop(None)

    def nontrivial(self, e):
        return getattr(e, "nbad", 0) >= 3


PARTS = [Timeout(), Harm()]
