"""Replication: a slave that records the stream of a master, and an engine that
compares what the stream yields with the reference model."""
import fcntl, select, socket, struct, termios, time

from model import CONTROL, Engine, Mixed
from yr import OP, Conn, Violation, bframe

SETQ, TOUCH, DELQ = OP["SetQ"], OP["Touch"], OP["DeleteQ"]
NAME = {SETQ: "SetQ", TOUCH: "Touch", DELQ: "DeleteQ"}


def setq(k, v, f=0, e=0):
    return bframe(SETQ, k, struct.pack(">II", f, e), v)


def touch(k, e):
    return bframe(TOUCH, k, struct.pack(">I", e))


def delq(k):
    return bframe(DELQ, k)


def decode(buf):
    """Whole frames at the start of buf -> ([(op, key, value, flags, deadline)], bytes used)."""
    out = []
    i = 0
    n = len(buf)
    while n - i >= 24:
        magic, op, kl, el, dt, st, total, opq, cas = struct.unpack_from(">BBHBBHIIQ", buf, i)
        if magic != 0x80 or op not in NAME or dt or st or \
                el != {SETQ: 8, TOUCH: 4, DELQ: 0}[op] or kl == 0 or total < el + kl:
            raise Violation("bad frame in a replication stream: %r" % bytes(buf[i:i + 24]))
        if op != SETQ and total != el + kl:
            raise Violation("replicated %s has a value" % NAME[op])
        if n - i < 24 + total:
            break
        p = i + 24
        k = bytes(buf[p + el:p + el + kl])
        if op == SETQ:
            f, e = struct.unpack_from(">II", buf, p)
            out.append((op, k, bytes(buf[p + el + kl:p + total]), f, e))
        elif op == TOUCH:
            out.append((op, k, None, None, struct.unpack_from(">I", buf, p)[0]))
        else:
            out.append((op, k, None, None, None))
        i += 24 + total
    return out, i


def apply(state, frame):
    op, k, v, f, e = frame
    if op == SETQ:
        state[k] = (v, f, e)
    elif op == TOUCH:
        if k in state:
            state[k] = state[k][:2] + (e,)
    else:
        state.pop(k, None)


class FakeSlave:
    """Connects to the replication port; keeps state and history."""

    def __init__(self, s, rcvbuf=None, keep=True, host="127.0.0.1"):
        self.c = Conn(s, s.repl_port, rcvbuf=rcvbuf, host=host)
        self.slow = rcvbuf is not None
        self.state = {}
        self.log = []
        self.keep = keep
        self.n = 0
        self.counts = {SETQ: 0, TOUCH: 0, DELQ: 0}
        self.eof = False

    def beat(self):
        self.c.s.sendall(b"\0")

    def pump(self, wait=0.0):
        """Take what has arrived; True if anything did."""
        got = False
        while not self.eof and select.select([self.c.s], [], [], wait)[0]:
            d = self.c.s.recv(1 << 20)
            if not d:
                self.eof = True
                break
            got = True
            wait = 0
            self.c.buf += d
            fs, n = decode(self.c.buf)
            del self.c.buf[:n]
            for f in fs:
                apply(self.state, f)
                self.counts[f[0]] += 1
                self.n += 1
                if self.keep:
                    self.log.append(f)
            if len(d) < 1 << 20 and not fs:
                continue
        return got

    def alive(self):
        self.pump()
        if self.eof:
            raise Violation("the master closed the connection of a slave")

    def close(self):
        self.c.close()


def wait_frame(slaves, pred, what, s, timeout=20):
    """Until every slave's state satisfies pred."""
    end = time.monotonic() + timeout
    for sl in slaves:
        while not pred(sl):
            sl.pump(.005)
            if sl.eof:
                raise Violation("the master closed the connection of a slave; " + what)
            if time.monotonic() > end:
                s.check_alive()
                raise Violation("not replicated within %d s: %s" % (timeout, what))


class ReplEngine(Engine):
    """An engine with slaves.  Control operations:
    join    a slave connects (up to `max_slaves`), "w": wait until it is in sync
    leave   slave i disconnects
    sync    compare all slaves that are in sync with the model
    reads   commands that read or fail must not replicate anything"""
    max_slaves = 3
    seq = 0

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.left = 0
        self.slaves = []        # [FakeSlave]; attribute `mark`: key awaited, None when in sync

    def sentinel(self):
        ReplEngine.seq += 1
        return b"%d" % ReplEngine.seq

    def ctl_join(self, op):
        if len(self.slaves) >= self.max_slaves:
            return
        if self.left:
            self.s.wait_stat(lambda x: int(x["slaves"]) < 5, "places of closed slaves to be free")
        k = self.pre + b"mark%d" % len(self.slaves)
        v = self.sentinel()
        self.admin_set(k, v)
        sl = FakeSlave(self.s, rcvbuf=op.get("rcv"))
        sl.mark = (k, v)
        self.slaves.append(sl)
        self.note("join")
        if op.get("w"):
            self.settle()

    def admin_set(self, k, v):
        self.touched.add(k)
        self.m.store(k, v, 0, 0)
        r = self.conn("x").call("Set", k, bytes(8), v)
        if r.status:
            raise Violation("Set %r -> %r" % (k, r))
        self.m.learn(self.m.items[k].ver, r.cas, "Set")

    def gc_once(self):
        """A collection that starts from now on has ended."""
        self.s.gc()
        self.s.gc()
        self.m.now = self.s.now
        self.flush_due()

    def settle(self):
        """Wait until all slaves have got their initial copies."""
        for sl in self.slaves:
            if sl.mark is None:
                continue
            k, v = sl.mark
            # the mark came with the initial copy, unless a flush or eviction removed it
            end = time.monotonic() + 20
            n = int(self.s.stats()["gc_count"])
            t = time.monotonic() + .1
            while sl.state.get(k, (None,))[0] != v:
                sl.pump(.002)
                if sl.eof:
                    raise Violation("the master closed the connection of a new slave")
                if k not in self.m.items or self.m.items[k].v != v:
                    break
                if time.monotonic() > t:
                    # too many joined lately: the next periodic collection does it
                    self.s.gc()
                    self.m.now = self.s.now
                    self.flush_due()
                    t = time.monotonic() + .1
                if time.monotonic() > end:
                    raise Violation("no initial copy within 20 s")
            self.gc_once()
            sl.mark = None
            self.note("initial")

    def mark_frames(self, slaves):
        """Everything sent so far has arrived at the slaves."""
        k, v = self.pre + b"sentinel", self.sentinel()
        self.touched.add(k)
        c = self.conn("x")
        r = c.call("Set", k, bytes(8), v)
        if r.status:
            raise Violation("Set %r -> %r" % (k, r))
        wait_frame(slaves, lambda sl: sl.state.get(k, (None,))[0] == v,
                   "a Set of %r after which everything is compared" % k, self.s)
        r = c.call("Delete", k)
        if r.status:
            raise Violation("Delete %r -> %r" % (k, r))

    def ctl_leave(self, op):
        if not self.slaves:
            return
        sl = self.slaves.pop(op["i"] % len(self.slaves))
        self.left += 1
        if op.get("rst"):
            sl.c.reset()
        else:
            sl.close()
        self.note("leave")

    def ctl_sync(self, op):
        if not self.slaves:
            return
        self.settle()
        self.mark_frames(self.slaves)
        for i, sl in enumerate(self.slaves):
            self.agree(sl, "slave %d of %d" % (i, len(self.slaves)))
        self.note("sync")

    def ctl_burst(self, op):
        """Large values, more than socket buffers hold."""
        for i, n in enumerate(op["n"]):
            n = max(n, 1)
            self.admin_set(self.pre + b"burst%d" % (i % 4), (b"%d." % (n + i) * (n // 4 + 1))[:n])
        self.note("burst")

    def ctl_sweep(self, op):
        """Objects whose deadline has passed are collected, at slaves too."""
        if not self.slaves:
            return
        self.settle()
        self.gc_once()
        self.mark_frames(self.slaves)
        for sl in self.slaves:
            for k, (v, f, e) in sl.state.items():
                if k.startswith(self.pre) and 0 < e <= self.m.now:
                    it = self.m.items.get(k)
                    if it is None or it.owner is None:
                        raise Violation("%r, whose deadline %d passed before a collection at %d, "
                                        "was not removed from a slave; history: %r" %
                                        (k, e, self.m.now, self.history(sl, k)))
        self.note("sweep")

    def agree(self, sl, who):
        now = self.m.now
        snt = self.pre + b"sentinel"
        for k, it in self.m.items.items():
            if it.e and it.e <= now:
                continue
            g = sl.state.get(k)
            if g is None:
                raise Violation("%s lacks %r, which is %r (deadline %d) on the master; history: %r" %
                                (who, k, it.v[:60], it.e, self.history(sl, k)))
            if g != (it.v, it.f, it.e):
                raise Violation(
                    "%s has %r as value %r (%d bytes), flags %d, deadline %d; the master has %r (%d "
                    "bytes), %d, %d; history: %r" %
                    (who, k, g[0][:60], len(g[0]), g[1], g[2], it.v[:60], len(it.v), it.f, it.e,
                     self.history(sl, k)))
        for k, (v, f, e) in sl.state.items():
            if k.startswith(self.pre) and k not in self.m.items and k != snt and \
                    not k.startswith(self.pre + b"fill") and not (e and e <= now):
                raise Violation("%s has %r = %r (deadline %d), which is gone on the master; "
                                "history: %r" % (who, k, v[:60], e, self.history(sl, k)))

    def history(self, sl, k):
        return [(NAME[f[0]], f[2][:20] if f[2] is not None else None, f[4])
                for f in sl.log if f[1] == k][-8:]

    def ctl_reads(self, op):
        """Commands that read or fail."""
        ss = [sl for sl in self.slaves if sl.mark is None]
        if not ss:
            return
        self.mark_frames(ss)
        k0 = self.pre + b"sentinel"
        # the removal of the sentinel is on its way
        base = []
        end = time.monotonic() + 10
        for sl in ss:
            while k0 in sl.state:
                sl.pump(.005)
                if time.monotonic() > end:
                    raise Violation("a Delete was not replicated within 10 s")
            base.append(sl.n)
        c = self.conn("x")
        z = struct.pack(">I", 0)
        miss = self.pre + b"missing"
        for i in range(self.nkeys if self.keys is None else len(self.keys)):
            k = self.key(i)
            it = self.m.live(k)
            w = []
            if it is None:
                if k in self.m.items:
                    continue        # expired: a command may collect it
                k = miss
            w += [bframe(OP["Get"], k), bframe(OP["GetKQ"], k), b"gets %s\r\n" % k]
            if it is None:
                w += [bframe(OP["Replace"], k, bytes(8), b"v"), bframe(OP["DeleteQ"], k),
                      bframe(OP["Append"], k, b"", b"v"), bframe(OP["GaT"], k, z),
                      bframe(OP["Touch"], k, z), bframe(OP["Lock"], k),
                      bframe(OP["LaG"], k), bframe(OP["Set"], k, bytes(8), b"v", 0, 12345 << 40),
                      bframe(OP["Increment"], k, struct.pack(">QQI", 1, 1, 0xffffffff)),
                      b"incr %s 1\r\n" % k, b"touch %s 0\r\n" % k, b"delete %s\r\n" % k,
                      b"append %s 0 0 1\r\nv\r\n" % k, b"replace %s 0 0 1\r\nv\r\n" % k,
                      b"cas %s 0 0 1 5\r\nv\r\n" % k]
            else:
                w += [bframe(OP["Add"], k, bytes(8), b"v"),
                      bframe(OP["Delete"], k, b"", b"", 0, 12345 << 40),
                      bframe(OP["Append"], k, b"", b"v", 0, 12345 << 40),
                      bframe(OP["Set"], k, bytes(8), b"v", 0, 12345 << 40),
                      b"add %s 0 0 1\r\nv\r\n" % k, b"cas %s 0 0 1 %d\r\nv\r\n" % (k, 12345 << 40)]
                if it.v[:1].isalpha():
                    w += [b"incr %s 1\r\n" % k,
                          bframe(OP["Decrement"], k, struct.pack(">QQI", 1, 1, 0))]
                if it.owner is None:
                    w += [bframe(OP["Lock"], k) + bframe(OP["Unlock"], k) + bframe(OP["LaG"], k) +
                          b"unlock %s\r\n" % k + bframe(OP["RaU"], k, bytes(8), b"v")]
                else:
                    w += [bframe(OP["Set"], k, bytes(8), b"v"), b"delete %s\r\n" % k,
                          b"lock %s\r\n" % k]
            r = op["r"] % len(w)
            for j in range(len(w)):
                c.send(w[(r + j * 7) % len(w) if len(w) % 7 else (r + j) % len(w)])
        c.send(b"keys %s\r\n" % self.pre + b"stats\r\nversion\r\nnosuchcommand\r\n")
        mark = 0xfd000000 | (ReplEngine.seq & 0xffff)
        c.send(bframe(OP["Noop"], opaque=mark))
        while True:
            r = c.next()
            if not isinstance(r, (bytes, tuple)) and r.op == OP["Noop"] and r.opaque == mark:
                break
        v = self.sentinel()
        c.call("Set", k0, bytes(8), v)
        wait_frame(ss, lambda sl: sl.state.get(k0, (None,))[0] == v, "a Set of %r" % k0, self.s)
        c.call("Delete", k0)
        for sl, b in zip(ss, base):
            new = [f for f in sl.log[len(sl.log) - (sl.n - b):] if f[1] != k0 and
                   f[1].startswith(self.pre)]
            if new:
                raise Violation("commands that read or fail were replicated: %r" %
                                [(NAME[f[0]], f[1], f[2] and f[2][:40], f[4]) for f in new[:5]])
        self.note("reads")

    def finish(self, close=True):
        for sl in self.slaves:
            self.note("SetQ", sl.counts[SETQ])
            self.note("Touch", sl.counts[TOUCH])
            self.note("DeleteQ", sl.counts[DELQ])
            sl.close()
        self.slaves = []
        self.s.wait_stat(lambda x: x["slaves"] == "0", "places of closed slaves to be free")
        super().finish(close)


CONTROL.update({"join", "leave", "sync", "reads", "sweep", "burst"})


class FakeMaster:
    """Listens on a replication port and feeds whoever connects."""

    def __init__(self, port):
        self.port = port
        self.ls = self.c = None
        self.listen()

    def listen(self):
        if self.ls is None:
            self.ls = socket.create_server(("127.0.0.1", self.port))
            self.ls.settimeout(20)

    def unlisten(self):
        if self.ls is not None:
            self.ls.close()
            self.ls = None

    def accept(self, s, rcvbuf=None):
        try:
            self.c, _ = self.ls.accept()
        except socket.timeout:
            if s.proc.poll() is not None:
                raise Violation("the slave died (status %r): %s" % (s.proc.returncode, s.tail()))
            raise Violation("the slave does not connect to its master within 20 s")
        self.c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.c.settimeout(20)

    def send(self, b, s):
        try:
            self.c.sendall(b)
        except OSError as e:
            if s.proc.poll() is not None:
                raise Violation("the slave died (status %r): %s" % (s.proc.returncode, s.tail()))
            raise Violation("the slave does not take its stream: %s" % e)

    def delivered(self, s, timeout=20):
        """Until the slave's kernel has got everything."""
        end = time.monotonic() + timeout
        b = bytearray(4)
        while True:
            fcntl.ioctl(self.c.fileno(), termios.TIOCOUTQ, b)
            if struct.unpack("i", b)[0] == 0:
                return
            if s.proc.poll() is not None:
                raise Violation("the slave died (status %r): %s" % (s.proc.returncode, s.tail()))
            if time.monotonic() > end:
                raise Violation("the slave does not take its stream")
            time.sleep(.001)

    def up(self, s, timeout=20):
        """Until the slave has sent something: its end of the connection is up, too."""
        end = time.monotonic() + timeout
        while not self.beats():
            if s.proc.poll() is not None:
                raise Violation("the slave died (status %r): %s" % (s.proc.returncode, s.tail()))
            if time.monotonic() > end:
                raise Violation("the slave sends no heartbeats")
            select.select([self.c], [], [], .05)

    def beats(self):
        """What the slave has sent."""
        n = b""
        while select.select([self.c], [], [], 0)[0]:
            try:
                d = self.c.recv(65536)
            except ConnectionError:
                break
            if not d:
                break
            n += d
        if n.strip(b"\0"):
            raise Violation("a slave sent %r to its master" % n[:100])
        return len(n)

    def end(self, how="fin"):
        if self.c is None:
            return
        if how == "rst":
            self.c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.c.close()
        self.c = None

    def close(self):
        self.end()
        self.unlisten()
