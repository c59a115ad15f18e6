"""Drivers for a yrmcdsd built from /repo: process control, clock control and
protocol clients.  Everything a server does that a correct server must not do
(malformed responses, unexpected close, hang, death) raises Violation."""
import errno, mmap, os, random, resource, shutil, signal, socket, struct, subprocess, sys
import tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build

TIMEOUT = float(os.environ.get("VERIF_IO_TIMEOUT", "20"))
SCRATCH_ROOT = "/tmp/verif-scratch"


class Violation(Exception):
    """The property is broken (observable misbehaviour)."""


class HarnessError(Exception):
    """The machinery could not do its job (not a verdict)."""


# --------------------------------------------------------------------------
# ports and scratch space

_port_lock = threading.Lock()
_port_next = None


def set_port_base(shard):
    """Give this process its own port range, below the ephemeral range."""
    global _port_next
    _port_next = 10000 + (shard % 40) * 500 + (os.getpid() * 7) % 400


def free_port():
    global _port_next
    with _port_lock:
        if _port_next is None:
            set_port_base(os.getpid() % 40)
        for _ in range(2000):
            p = _port_next
            _port_next += 1
            if _port_next >= 31500:
                _port_next = 10000
            if p in (11211, 11213, 11215):
                continue
            ok = True
            for fam, addr in ((socket.AF_INET6, "::"), (socket.AF_INET, "0.0.0.0")):
                try:
                    s = socket.socket(fam, socket.SOCK_STREAM)
                except OSError:
                    continue
                try:
                    s.bind((addr, p))
                except OSError as e:
                    if e.errno == errno.EADDRINUSE:
                        ok = False
                finally:
                    s.close()
                if not ok:
                    break
            if ok:
                return p
    raise HarnessError("no free port")


_scratch = None


def scratch():
    """Private scratch directory of this process."""
    global _scratch
    if _scratch is None or not os.path.isdir(_scratch):
        os.makedirs(SCRATCH_ROOT, mode=0o777, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix="p%d-" % os.getpid(), dir=SCRATCH_ROOT)
    return _scratch


def cleanup_scratch():
    global _scratch
    if _scratch and _scratch.startswith(SCRATCH_ROOT + "/"):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


# --------------------------------------------------------------------------
# shim control page

W = {n: i for i, n in enumerate(
    ["magic", "realtime_on", "now", "mono_num", "epoll_cap_ms", "owns_vip", "vip_be",
     "fake_if", "polls", "ifcalls", "recv_max", "send_max", "sleep_div",
     "scan_on", "scan_hits", "scan_frees"])}
W.update(file_max=24, file_fail=25, file_writes=26, jitter=27, mono_fix=28, mono_now=29,
         mono_last=30, threads=31, sndbuf=32, accept_fail=33, accept_n=34, recv_delay=35, recv_errno=36,
         iflist=37)


class Ctl:
    def __init__(self, path):
        with open(path, "wb") as fp:
            fp.write(b"\0" * 4096)
        self.path = path
        self.fp = open(path, "r+b")
        self.mm = mmap.mmap(self.fp.fileno(), 4096)
        self.set(magic=0x5953, mono_num=1, epoll_cap_ms=0, sleep_div=1, owns_vip=1)

    def set(self, **kw):
        for k, v in kw.items():
            i = W[k] * 8
            self.mm[i:i + 8] = struct.pack("<q", v)

    def get(self, k):
        i = W[k] * 8
        return struct.unpack("<q", self.mm[i:i + 8])[0]

    def set_interfaces(self, entries):
        """The interface list: (family, address, scope) each, family 0: none."""
        # in two places by turns: the server may be reading the list
        self.turn = not getattr(self, "turn", False)
        at = 1024 if self.turn else 2560
        b = b"".join(struct.pack("<iI16s", f, sc, a) for f, a, sc in entries)
        assert len(b) < 1500
        self.mm[at:at + len(b)] = b
        self.set(iflist=at << 16 | (len(entries) + 1))

    def set_marker(self, b):
        assert len(b) < 64
        self.mm[128:128 + 64] = (bytes([len(b)]) + b).ljust(64, b"\0")

    def close(self):
        self.mm.close()
        self.fp.close()


# --------------------------------------------------------------------------
# server process

_live = []


def kill_all():
    for s in list(_live):
        try:
            s.kill()
        except Exception:
            pass


EPOCH = 2_000_000_000     # frozen clock start (2033): far from small numbers


class Server:
    """One yrmcdsd process."""

    def __init__(self, cfg=None, variant="plain", frozen=True, mono=100, cap_ms=2,
                 counter=True, now=EPOCH, owns_vip=1, fake_if=0, port=None,
                 repl_port=None, counter_port=None, ctl=None, wait=True,
                 nofile=None, dir=None, as_user=None, env=None, sleep_div=1):
        self.dir = tempfile.mkdtemp(prefix="srv-", dir=dir or scratch())
        os.chmod(self.dir, 0o777)
        self.exe = build.server(variant)
        self.variant = variant
        self.port = port or free_port()
        self.repl_port = repl_port or free_port()
        self.counter_port = counter_port or (free_port() if counter else None)
        self.own_ctl = ctl is None
        self.ctl = ctl or Ctl(os.path.join(self.dir, "ctl"))
        self.tmpdir = os.path.join(self.dir, "tmp")
        os.makedirs(self.tmpdir, exist_ok=True)
        os.chmod(self.tmpdir, 0o777)
        self.logfile = os.path.join(self.dir, "log")
        c = {
            "virtual_ip": "127.0.0.1", "port": self.port, "repl_port": self.repl_port,
            "temp_dir": self.tmpdir, "log.threshold": "warning",
            "log.file": '"%s"' % self.logfile,
            "buckets": 101, "workers": 4, "gc_interval": 10,
            "repl_buffer_size": 2,
        }
        if counter:
            c.update({"counter.enable": "true", "counter.port": self.counter_port,
                      "counter.buckets": 101})
        c.update(cfg or {})
        self.cfg = c
        self.conf = os.path.join(self.dir, "yrmcds.conf")
        with open(self.conf, "w") as fp:
            for k, v in c.items():
                if v is not None:
                    fp.write("%s = %s\n" % (k, v))
        self.nofile = nofile
        self.env = env or {}
        self.frozen = frozen
        if self.own_ctl:
            self.ctl.set(realtime_on=1 if frozen else 0, now=now, mono_num=mono,
                         epoll_cap_ms=cap_ms, owns_vip=owns_vip, fake_if=fake_if,
                         sleep_div=sleep_div,
                         vip_be=struct.unpack("<I", socket.inet_aton("127.0.0.1"))[0])
        self.proc = None
        self._admin = None
        self.start(wait)

    # -- process -----------------------------------------------------------
    def start(self, wait=True):
        env = dict(os.environ)
        env.update({"VSHIM_CTL": self.ctl.path,
                    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:"
                                    "allocator_may_return_null=1:handle_abort=1",
                    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
                    "TSAN_OPTIONS": "exitcode=98:halt_on_error=0"})
        env.update(self.env)
        self.errfile = os.path.join(self.dir, "stderr")
        pre = None
        if self.nofile:
            n = self.nofile

            def pre():
                resource.setrlimit(resource.RLIMIT_NOFILE, (n, n))
        err = open(self.errfile, "ab")
        self.proc = subprocess.Popen([self.exe, "-f", self.conf], stdin=subprocess.DEVNULL,
                                     stdout=err, stderr=err, env=env, preexec_fn=pre,
                                     cwd=self.dir)
        err.close()
        _live.append(self)
        if wait:
            self.wait_ready()

    def wait_ready(self, timeout=30, port=None):
        end = time.monotonic() + timeout
        while time.monotonic() < end:
            if self.proc.poll() is not None:
                raise Violation("server exited at start with %r: %s" %
                                (self.proc.returncode, self.tail()))
            try:
                s = socket.create_connection(("127.0.0.1", port or self.port), timeout=5)
                s.settimeout(10)
                s.sendall(b"version\r\n")
                b = s.recv(200)
                s.close()
                if b.startswith(b"VERSION "):
                    return
            except OSError:
                pass
            time.sleep(0.01)
        raise Violation("server did not become ready: " + self.tail())

    def tail(self):
        out = ""
        for f in (self.errfile, self.logfile):
            try:
                with open(f, "rb") as fp:
                    b = fp.read()
                    i = max(b.rfind(b"runtime error"), b.rfind(b"==ERROR"))
                    out += (b[max(0, i - 200):i + 1500] if i >= 0 else b[-1500:]).decode("latin-1")
            except OSError:
                pass
        return out

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def check_alive(self, what=""):
        if not self.alive():
            raise Violation("server process died (status %r) %s: %s" %
                            (self.proc.returncode, what, self.tail()[:1700]))

    def kill(self):
        if self._admin:
            self._admin.close()
            self._admin = None
        if self.proc is not None and self.proc.poll() is None:
            self.proc.kill()
        if self.proc is not None:
            self.proc.wait()
        if self in _live:
            _live.remove(self)

    def destroy(self):
        self.kill()
        if self.own_ctl:
            self.ctl.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def term(self, sig=signal.SIGTERM, timeout=30):
        self.proc.send_signal(sig)
        try:
            rc = self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            raise Violation("server did not exit within %ss of signal %d" % (timeout, sig))
        if self in _live:
            _live.remove(self)
        return rc

    def fds(self):
        d = "/proc/%d/fd" % self.proc.pid
        out = []
        for f in os.listdir(d):
            try:
                out.append(os.readlink(os.path.join(d, f)))
            except OSError:
                pass
        return out

    def rss(self):
        with open("/proc/%d/statm" % self.proc.pid) as fp:
            return int(fp.read().split()[1]) * 4096

    # -- connections ---------------------------------------------------------
    def text(self):
        return Text(self, self.port)

    def binary(self):
        return Binary(self, self.port)

    def raw(self, port=None):
        return Conn(self, port or self.port)

    def counter(self):
        return Counter(self, self.counter_port)

    @property
    def admin(self):
        if self._admin is None or self._admin.closed:
            self._admin = self.text()
        return self._admin

    # -- clock ----------------------------------------------------------------
    @property
    def now(self):
        return self.ctl.get("now")

    def stats(self, arg=b""):
        return self.admin.stats(arg)

    def wait_stat(self, pred, what, timeout=30, interval=0.002):
        end = time.monotonic() + timeout
        while True:
            st = self.stats()
            if pred(st):
                return st
            if time.monotonic() > end:
                raise Violation("timed out waiting for %s; stats=%r; %s" % (what, st, self.tail()[-700:]))
            time.sleep(interval)

    def set_now(self, t):
        """Move the frozen wall clock and wait until the server has seen it."""
        self.ctl.set(now=t)
        self.wait_stat(lambda s: int(s["time"]) == t, "clock %d" % t)

    def advance(self, dt):
        self.set_now(self.now + dt)

    def stepped(self):
        """Stop the monotonic clock: from now on the server's periodic work (and
        with it garbage collection) happens in step() only."""
        time.sleep(.02)
        self.ctl.set(mono_now=self.ctl.get("mono_last") + 10_000_000_000)
        self.ctl.set(mono_fix=1)
        self.step(0)

    def step(self, dt=0, timeout=30):
        """Move the clocks (monotonic: 1.1 s, wall: dt) so that periodic work is
        done exactly once (needs counter=False).  Returns True if a collection was run, having waited
        for its end."""
        st = self.stats()
        n, th = int(st["gc_count"]), self.ctl.get("threads")
        self.ctl.set(now=self.now + dt)
        self.ctl.set(mono_now=self.ctl.get("mono_now") + 1_100_000_000)
        p = self.ctl.get("polls")
        end = time.monotonic() + timeout
        while self.ctl.get("polls") < p + 3:
            if time.monotonic() > end:
                self.check_alive("(step)")
                raise Violation("the event loop does not turn")
            time.sleep(.0005)
        if self.ctl.get("threads") == th:
            return False
        self.wait_stat(lambda s: int(s["gc_count"]) > n, "the end of a collection",
                       interval=.0005)
        # until its thread has been marked done
        time.sleep(.001)
        return True

    def gc(self, timeout=30):
        """Advance the clock enough to make a full GC run; wait for its end.
        (A GC that has just ended is noticed only at the next interval, so that
        one advance may not be enough.)"""
        iv = int(self.cfg["gc_interval"])
        n = int(self.stats()["gc_count"])
        end = time.monotonic() + timeout
        while True:
            self.advance(iv + 2)
            t = time.monotonic() + 0.08
            while time.monotonic() < t:
                if int(self.stats()["gc_count"]) != n:
                    return
                time.sleep(0.003)
            if time.monotonic() > end:
                raise Violation("GC did not run; stats=%r" % self.stats())


# --------------------------------------------------------------------------
# connections

class Conn:
    """Raw buffered connection."""

    def __init__(self, server, port, host="127.0.0.1", rcvbuf=None, timeout=None):
        self.server = server
        self.closed = False
        self.timeout = timeout or TIMEOUT
        s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(self.timeout)
        try:
            s.connect((host, port))
        except OSError as e:
            s.close()
            if server is not None:
                server.check_alive("(connect)")
            raise Violation("cannot connect to port %d: %s" % (port, e))
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s = s
        self.buf = bytearray()
        self.eof = False

    def send(self, b):
        try:
            self.s.sendall(b)
        except socket.timeout:
            self._dead("send timed out")
        except OSError as e:
            self._dead("send failed: %s" % e)

    def _dead(self, why):
        if self.server is not None:
            time.sleep(0.05)
            self.server.check_alive("(%s)" % why)
        raise Violation("connection: " + why)

    def fill(self):
        """Read some more; False at EOF."""
        if self.eof:
            return False
        try:
            d = self.s.recv(1 << 20)
        except socket.timeout:
            self._dead("no response within %ss (have %r)" %
                       (self.timeout, bytes(self.buf[:200])))
        except OSError as e:
            self._dead("recv failed: %s" % e)
        if not d:
            self.eof = True
            return False
        self.buf += d
        return True

    def need(self, n):
        while len(self.buf) < n:
            if not self.fill():
                self._dead("closed by server, wanted %d bytes, have %r" %
                           (n, bytes(self.buf[:200])))

    def read(self, n):
        self.need(n)
        b = bytes(self.buf[:n])
        del self.buf[:n]
        return b

    def line(self):
        pos = 0
        while True:
            i = self.buf.find(b"\n", pos)
            if i >= 0:
                b = bytes(self.buf[:i + 1])
                del self.buf[:i + 1]
                return b
            pos = len(self.buf)
            if not self.fill():
                self._dead("closed by server in a line, have %r" % bytes(self.buf[:200]))

    def read_all(self):
        """Read to EOF; ECONNRESET counts as EOF too."""
        while not self.eof:
            try:
                d = self.s.recv(1 << 20)
            except socket.timeout:
                self._dead("peer did not close within %ss" % self.timeout)
            except ConnectionResetError:
                self.eof = True
                break
            if not d:
                self.eof = True
                break
            self.buf += d
        b = bytes(self.buf)
        self.buf.clear()
        return b

    def half_close(self):
        self.s.shutdown(socket.SHUT_WR)

    def reset(self):
        """Close with RST."""
        try:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            try:
                self.s.close()
            except OSError:
                pass


VERSION_PREFIX = b"VERSION "


class Text(Conn):
    """Text protocol."""

    def batch(self, payload):
        """Send payload then a `version` sentinel; return the response items
        before the sentinel.  Items are byte lines without CRLF, or tuples
        ("VALUE", key, flags, data[, cas])."""
        self.send(payload + b"version\r\n")
        return self.collect()

    def item(self):
        l = self.line()
        if not l.endswith(b"\r\n"):
            raise Violation("text response line without CRLF: %r" % l[:200])
        l = l[:-2]
        if l.startswith(b"VALUE "):
            f = l.split(b" ")
            if len(f) == 2:
                return ("KEY", f[1])
            if len(f) not in (4, 5):
                raise Violation("malformed VALUE line: %r" % l[:300])
            try:
                flags, n = int(f[2]), int(f[3])
                cas = int(f[4]) if len(f) == 5 else None
            except ValueError:
                raise Violation("malformed VALUE line: %r" % l[:300])
            d = self.read(n + 2)
            if d[-2:] != b"\r\n":
                raise Violation("VALUE data not terminated by CRLF: %r..." % l[:100])
            return ("VALUE", f[1], flags, d[:-2]) + ((cas,) if cas is not None else ())
        return l

    def collect(self):
        out = []
        while True:
            it = self.item()
            if isinstance(it, bytes) and it.startswith(VERSION_PREFIX):
                return out
            out.append(it)

    def one(self, payload):
        r = self.batch(payload)
        if len(r) != 1:
            raise Violation("%r: expected one response line, got %r" % (payload[:200], r))
        return r[0]

    def stats(self, arg=b""):
        self.send(b"stats" + (b" " + arg if arg else b"") + b"\r\n")
        d = {}
        while True:
            l = self.line()
            if l == b"END\r\n":
                return d
            f = l.rstrip(b"\r\n").split(b" ", 2)
            if f[0] != b"STAT" or len(f) < 2:
                raise Violation("malformed stats line %r" % l)
            d[f[1].decode()] = f[2].decode() if len(f) == 3 else ""

    # convenience -----------------------------------------------------------
    def set(self, k, v, flags=0, exp=0, cmd=b"set"):
        return self.one(b"%s %s %d %d %d\r\n%s\r\n" % (cmd, k, flags, exp, len(v), v))

    def get(self, k):
        r = self.batch(b"get " + k + b"\r\n")
        if r == [b"END"]:
            return None
        if len(r) == 2 and r[1] == b"END" and r[0][0] == "VALUE" and r[0][1] == k:
            return r[0][2], r[0][3]
        raise Violation("get %r -> %r" % (k, r))

    def gets(self, k):
        r = self.batch(b"gets " + k + b"\r\n")
        if r == [b"END"]:
            return None
        if len(r) == 2 and r[1] == b"END" and r[0][0] == "VALUE" and r[0][1] == k \
                and len(r[0]) == 5:
            return r[0][2], r[0][3], r[0][4]
        raise Violation("gets %r -> %r" % (k, r))


# binary opcodes
OP = dict(Get=0, Set=1, Add=2, Replace=3, Delete=4, Increment=5, Decrement=6, Quit=7,
          Flush=8, GetQ=9, Noop=0xa, Version=0xb, GetK=0xc, GetKQ=0xd, Append=0xe,
          Prepend=0xf, Stat=0x10, SetQ=0x11, AddQ=0x12, ReplaceQ=0x13, DeleteQ=0x14,
          IncrementQ=0x15, DecrementQ=0x16, QuitQ=0x17, FlushQ=0x18, AppendQ=0x19,
          PrependQ=0x1a, Touch=0x1c, GaT=0x1d, GaTQ=0x1e, GaTK=0x23, GaTKQ=0x24,
          Lock=0x40, LockQ=0x41, Unlock=0x42, UnlockQ=0x43, UnlockAll=0x44,
          UnlockAllQ=0x45, LaG=0x46, LaGQ=0x47, LaGK=0x48, LaGKQ=0x49, RaU=0x4a,
          RaUQ=0x4b, Keys=0x50)
OPNAME = {v: k for k, v in OP.items()}
OK, NOT_FOUND, EXISTS, TOO_LARGE, INVALID, NOT_STORED, NON_NUMERIC = range(7)
LOCKED, NOT_LOCKED, UNKNOWN, OOM = 0x10, 0x11, 0x81, 0x82


def bframe(op, key=b"", extras=b"", data=b"", opaque=0, cas=0):
    return struct.pack(">BBHBBHIIQ", 0x80, op, len(key), len(extras), 0, 0,
                       len(extras) + len(key) + len(data), opaque, cas) + extras + key + data


class Resp:
    __slots__ = ("op", "status", "opaque", "cas", "extras", "key", "data")

    def __repr__(self):
        return "<%s st=%#x opaque=%#x cas=%d extras=%r key=%r data=%r>" % (
            OPNAME.get(self.op, hex(self.op)), self.status, self.opaque, self.cas,
            self.extras, self.key[:60], self.data[:60])


class Binary(Conn):
    seq = 0

    def resp(self):
        h = self.read(24)
        magic, op, kl, el, dt, st, total, opaque, cas = struct.unpack(">BBHBBHIIQ", h)
        if magic != 0x81:
            raise Violation("bad response magic in %r" % h)
        if kl + el > total:
            raise Violation("inconsistent response lengths in %r" % h)
        if total > (64 << 20):
            raise Violation("absurd response length in %r" % h)
        b = self.read(total)
        r = Resp()
        r.op, r.status, r.opaque, r.cas = op, st, opaque, cas
        r.extras, r.key, r.data = b[:el], b[el:el + kl], b[el + kl:]
        return r

    def batch(self, payload):
        """Send payload and a Noop sentinel; return responses before it."""
        Binary.seq = (Binary.seq + 1) & 0xffff
        mark = 0xfe000000 | Binary.seq
        self.send(payload + bframe(OP["Noop"], opaque=mark))
        out = []
        while True:
            r = self.resp()
            if r.opaque == mark and r.op == OP["Noop"]:
                if r.status != 0:
                    raise Violation("noop failed: %r" % r)
                return out
            out.append(r)

    def one(self, payload):
        r = self.batch(payload)
        if len(r) != 1:
            raise Violation("%r: expected one response, got %r" % (payload[:100], r))
        return r[0]

    def call(self, op, key=b"", extras=b"", data=b"", cas=0):
        return self.one(bframe(OP[op], key, extras, data, 0x11223344, cas))


# counter protocol
CN = dict(Noop=0, Get=1, Acquire=2, Release=3, Stats=0x10, Dump=0x11)


def cframe(op, body=b"", opaque=b"\0\0\0\0", flags=0, magic=0x90):
    return struct.pack(">BBBBI", magic, op, flags, 0, len(body)) + opaque + body


class CResp:
    __slots__ = ("op", "status", "flags", "opaque", "body")

    def __repr__(self):
        return "<counter op=%#x st=%#x opaque=%r body=%r>" % (self.op, self.status,
                                                             self.opaque, self.body[:60])


def cname(n):
    return struct.pack(">H", len(n)) + n


class Counter(Conn):
    seq = 0

    def resp(self):
        h = self.read(12)
        magic, op, st, fl, bl = struct.unpack(">BBBBI", h[:8])
        if magic != 0x91:
            raise Violation("bad counter response magic in %r" % h)
        if bl > (64 << 20):
            raise Violation("absurd counter response length in %r" % h)
        r = CResp()
        r.op, r.status, r.flags, r.opaque = op, st, fl, h[8:12]
        r.body = self.read(bl)
        return r

    def batch(self, payload):
        Counter.seq = (Counter.seq + 1) & 0xffff
        mark = b"\xfe\xfd" + struct.pack(">H", Counter.seq)
        self.send(payload + cframe(CN["Noop"], opaque=mark))
        out = []
        while True:
            r = self.resp()
            if r.opaque == mark and r.op == 0:
                if r.status != 0:
                    raise Violation("counter noop failed: %r" % r)
                return out
            out.append(r)

    def one(self, payload):
        r = self.batch(payload)
        if len(r) != 1:
            raise Violation("counter %r: expected one response, got %r" % (payload[:60], r))
        return r[0]

    def get(self, name):
        r = self.one(cframe(CN["Get"], cname(name)))
        if r.status == 0:
            if len(r.body) != 4:
                raise Violation("counter get body %r" % r)
            return struct.unpack(">I", r.body)[0]
        if r.status == 1:
            return None
        raise Violation("counter get %r -> %r" % (name, r))

    def acquire(self, name, n, maximum):
        return self.one(cframe(CN["Acquire"], struct.pack(">II", n, maximum) + cname(name)))

    def release(self, name, n):
        return self.one(cframe(CN["Release"], struct.pack(">I", n) + cname(name)))

    def dump(self):
        Counter.seq = (Counter.seq + 1) & 0xffff
        opq = b"\xfc\xfb" + struct.pack(">H", Counter.seq)
        rs = self.batch(cframe(CN["Dump"], opaque=opq))
        out = {}
        if not rs or rs[-1].body != b"" or rs[-1].status != 0:
            raise Violation("dump not terminated by an empty success: %r" % rs[-3:])
        for r in rs:
            if r.op != CN["Dump"] or r.opaque != opq or r.status != 0:
                raise Violation("bad dump response %r" % r)
        for r in rs[:-1]:
            if len(r.body) < 11:
                raise Violation("short dump body %r" % r)
            c, m, nl = struct.unpack(">IIH", r.body[:10])
            if len(r.body) != 10 + nl:
                raise Violation("bad dump body %r" % r)
            n = r.body[10:]
            if n in out:
                raise Violation("dump lists %r twice" % n)
            out[n] = (c, m)
        return out

    def stats(self):
        r = self.one(cframe(CN["Stats"]))
        out = {}
        b = r.body
        while b:
            nl, vl = struct.unpack(">HH", b[:4])
            out[b[4:4 + nl].decode()] = b[4 + nl:4 + nl + vl].decode()
            b = b[4 + nl + vl:]
        return out
