"""C24: roles follow the virtual IP; data survives failover."""
import errno, ipaddress, random, signal, socket, struct, time
import yr
from harness import Part
from model import Mixed
from repl import FakeMaster, FakeSlave, delq, setq, touch
from yr import OP, OK, NOT_FOUND, Violation, bframe

PROPERTY = "C24"
TECHNIQUE = ("generated histories of virtual IP moves, master crashes, reconnections, probes and client "
             "updates over real servers (one with a fake master; pairs that take over from each "
             "other), checked against a reference model of roles and data; address sanitizer; shrinking")
RULE = ("roles: one server, 1..14 steps of {a master appears, feeds records, ends by FIN or RST with its "
        "records partly unread, probes of all service ports, heartbeats, idling, clock jumps}, then the "
        "IP is granted (or a signal arrives); afterwards clients, counters and slaves are served, and "
        "the IP may be lost again.  pair: two servers share a virtual IP for 1..4 failovers (SIGKILL, "
        "SIGTERM, IP loss), updates running until the moment of failure; what the new master serves "
        "must be the state after some prefix of the updates that contains all replicated ones.  "
        "addresses: one server, 1..4 interface lists (IPv4, IPv6, link-local, nearly the same "
        "addresses, other families, none) with and without an IPv4 or IPv6 virtual IP.  "
        "Non-trivial: at least one promotion after a session with a master")
ASSUME = ["the two servers share one host: the new master gets the IP after the old one has exited"]


def value(n, seed):
    return (b"%d:" % (seed * 7919 + n) * (n // 3 + 1))[:n]


def refused(s, port, payload, what):
    """No service on this port."""
    try:
        c = socket.create_connection(("127.0.0.1", port), timeout=10)
    except ConnectionError:
        return
    c.settimeout(20)
    try:
        try:
            c.sendall(payload)
            b = c.recv(1000)
        except ConnectionError:
            return
        except socket.timeout:
            raise Violation("%s: the slave neither refuses nor closes the connection" % what)
        if b:
            raise Violation("%s: the slave answers %r" % (what, b))
    finally:
        c.close()


class Roles(Part):
    name = "roles"
    racy = True
    variants = ("asan",)
    examples = {"quick": 400, "thorough": 20000}
    cap = {"quick": 14, "thorough": 600}
    lists = ("steps",)

    def setup(self, ctx):
        pass

    def generate(self, rng, ctx):
        steps = []
        up = False
        for _ in range(rng.choice([1, 2, 3, 4, 6, 9, 14])):
            if up:
                o = rng.choice(["feed", "feed", "feed", "down", "down", "swap", "probe", "beats",
                                "jump", "idle"])
            else:
                o = rng.choice(["up", "up", "up", "probe", "idle", "jump"])
            st = {"o": o}
            if o == "feed":
                st["f"] = [[rng.choice("ssstd"), rng.randrange(8), rng.choice([0, 1, 20, 5000, 70000]),
                            rng.choice([0, 0, 3, 100]), rng.randrange(100)]
                           for _ in range(rng.choice([1, 3, 10, 40]))]
            elif o in ("down", "swap"):
                st["how"] = rng.choice(["fin", "rst"])
                st["wait"] = rng.choice([0, 0, 2, 30])
                st["err"] = rng.choice([0, 0, 0, 1, 2, 3])
                up = o == "swap"
            elif o == "up":
                up = True
            elif o == "jump":
                st["n"] = rng.choice([1, 10, 1000])
            elif o == "idle":
                st["n"] = rng.choice([1, 20, 80])
            steps.append(st)
        return {"steps": steps, "recv": rng.choice([0, 0, 24, 300, 5000]),
                "delay": rng.choice([0, 0, 20, 300]), "start": rng.choice(["s", "s", "s", "s", "m"]),
                "final": rng.choice(["grant", "grant", "grant", "endgrant", "term"]),
                "how": rng.choice(["fin", "rst"]),
                "lose": rng.choice([0, 0, 1, 2]), "sleep": rng.choice([50, 50, 400])}

    def valid(self, case):
        up = False
        for st in case["steps"]:
            o = st["o"]
            if o == "up":
                if up:
                    return False
                up = True
            elif o in ("feed", "down", "swap", "beats"):
                if not up:
                    return False
                up = o != "down"
        return case["sleep"] > 0

    def run(self, ctx, case):
        keys = [b"k%d" % i for i in range(8)]
        fm = FakeMaster(yr.free_port())
        fm.unlisten()
        s = None
        x = []
        state = {}
        sessions = 0
        try:
            s = yr.Server({"gc_interval": 4, "repl_buffer_size": 30,
                           "slave_timeout": 2147483647}, variant="asan", wait=False,
                          fake_if=1, owns_vip=int(case["start"] == "m"),
                          repl_port=fm.port, sleep_div=case["sleep"])
            if case["start"] == "m":
                s.wait_ready()
                self.serves(s, keys, state, x)
                return False, ["starts with the IP"]
            # wait for its start: a slave accepts and drops clients
            self.started(s)
            s.ctl.set(recv_max=case["recv"])
            s.ctl.set(recv_delay=case["delay"])
            up = False
            for st in case["steps"]:
                o = st["o"]
                if o == "up":
                    fm.listen()
                    fm.accept(s)
                    fm.up(s)
                    state = {}
                    up = True
                    sessions += 1
                elif o == "feed":
                    b = []
                    for k, i, n, e, v in st["f"]:
                        key = keys[i % 8]
                        e = e and s.now + e
                        if k == "s":
                            b.append(setq(key, value(n, v), v, e))
                            state[key] = (value(n, v), v, e)
                        elif k == "t":
                            b.append(touch(key, e))
                            if key in state:
                                state[key] = state[key][:2] + (e,)
                        else:
                            b.append(delq(key))
                            state.pop(key, None)
                    b = b"".join(b)
                    if case["recv"] and len(b) // case["recv"] > 2000:
                        s.ctl.set(recv_max=len(b) // 2000)
                    if case["delay"] and len(b) // (s.ctl.get("recv_max") or 1 << 20) > 300:
                        s.ctl.set(recv_delay=20)
                    fm.send(b, s)
                elif o in ("down", "swap"):
                    fm.delivered(s)
                    if st["how"] == "fin":
                        fm.beats()
                    if o == "down":
                        fm.unlisten()
                    s.ctl.set(recv_errno=[0, errno.ETIMEDOUT, errno.EHOSTUNREACH,
                                          errno.ENETRESET][st["err"] % 4])
                    fm.end(st["how"])
                    time.sleep(st["wait"] / 1000)
                    up = False
                    if o == "down":
                        s.ctl.set(recv_errno=0)
                    if o == "swap":
                        fm.accept(s)
                        fm.up(s)
                        state = {}
                        up = True
                        sessions += 1
                elif o == "probe":
                    self.probe(s, fm)
                elif o == "beats":
                    fm.delivered(s)
                    fm.beats()
                    fm.up(s)
                elif o == "jump":
                    s.ctl.set(now=s.now + st["n"])
                else:
                    time.sleep(st["n"] / 1000)
                s.check_alive()
            if case["final"] == "term":
                rc = s.term()
                if rc:
                    raise Violation("a slave exits with %r after SIGTERM: %s" % (rc, s.tail()))
                return sessions > 0, ["term"]
            if up:
                fm.delivered(s)
                fm.unlisten()
                if case["final"] == "endgrant":
                    if case["how"] == "fin":
                        fm.beats()
                    fm.end(case["how"])
            fm.unlisten()
            s.ctl.set(owns_vip=1)
            s.wait_ready()
            s.ctl.set(recv_max=0)
            s.ctl.set(recv_delay=0)
            self.serves(s, keys, state, x)
            if case["lose"]:
                self.lose(s, x, case["lose"] == 2)
            else:
                s.check_alive()
                rc = s.term()
                if rc:
                    raise Violation("exit status %r after SIGTERM: %s" % (rc, s.tail()))
        finally:
            fm.close()
            for c in x:
                c.close()
            if s is not None:
                s.destroy()
        return sessions > 0, [case["final"], "%d sessions" % sessions]

    def started(self, s):
        end = time.monotonic() + 20
        while True:
            try:
                socket.create_connection(("127.0.0.1", s.port), timeout=5).close()
                return
            except ConnectionError:
                pass
            if s.proc.poll() is not None:
                raise Violation("a slave died at start: %s" % s.tail())
            if time.monotonic() > end:
                return      # it need not even listen
            time.sleep(.01)

    def probe(self, s, fm):
        refused(s, s.port, b"set a 0 0 1\r\na\r\nget a\r\n", "text")
        refused(s, s.port, bframe(OP["Get"], b"k0"), "binary")
        refused(s, s.counter_port, yr.cframe(yr.CN["Noop"]), "counter")
        if fm.ls is None and fm.c is None:
            refused(s, s.repl_port, b"\0", "replication")

    def serves(self, s, keys, state, x):
        c = Mixed(s, s.port)
        x.append(c)
        for k in keys:
            r = c.call("Get", k)
            v, f, e = state.get(k, (None, 0, 0))
            if v is None or e and e <= s.now:
                if r.status != NOT_FOUND:
                    raise Violation("%r should not exist, is %r" % (k, r))
            elif r.status or r.data != v or r.extras != struct.pack(">I", f):
                raise Violation("%r was replicated with %r (%d bytes), is %s" %
                                (k, v[:30], len(v), repr(r)[:300]))
        r = c.call("Set", b"new", bytes(8), b"1")
        if r.status:
            raise Violation("Set on a master: %r" % r)
        n = yr.Counter(s, s.counter_port)
        x.append(n)
        r = n.one(yr.cframe(yr.CN["Noop"]))
        if r.status:
            raise Violation("counter Noop on a master: %r" % r)
        sl = FakeSlave(s)
        x.append(sl)
        s.gc()
        s.gc()
        want = {k: y for k, y in state.items() if not (y[2] and y[2] <= s.now)}
        want[b"new"] = (b"1", 0, 0)
        end = time.monotonic() + 20
        while {k: y for k, y in sl.state.items() if not (y[2] and y[2] <= s.now)} != want:
            sl.pump(.005)
            if sl.eof or time.monotonic() > end:
                raise Violation("a slave of the master has %r, not %r" % (sl.state, want))

    def lose(self, s, x, busy):
        """The IP goes: exit at the next collection."""
        s.ctl.set(owns_vip=0)
        c = x[0]
        end = time.monotonic() + 20
        while s.proc.poll() is None:
            s.ctl.set(now=s.now + 6)
            if busy:
                try:
                    c.call("Set", b"x", bytes(8), b"1")
                except (OSError, Violation):
                    busy = False
            else:
                time.sleep(.005)
            if time.monotonic() > end:
                raise Violation("a master that lost its virtual IP goes on")
        if s.proc.returncode != 2:
            raise Violation("a master that lost its virtual IP exits with %r: %s" %
                            (s.proc.returncode, s.tail()))


def queues_empty(port):
    """True if nothing is on its way from connections of local port `port`."""
    for f in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            with open(f) as fp:
                ls = fp.read().split("\n")[1:]
        except OSError:
            continue
        for l in ls:
            w = l.split()
            if len(w) > 4 and int(w[1].rsplit(":", 1)[1], 16) == port and w[3] == "01" and \
                    int(w[4].split(":")[0], 16):
                return False
    return True


class Pair(Part):
    name = "pair"
    racy = True
    variants = ("plain", "asan")
    examples = {"quick": 400, "thorough": 20000}
    cap = {"quick": 14, "thorough": 600}
    lists = ("rounds", "ops", "tail")

    def setup(self, ctx):
        pass

    def ops(self, r, n, nk):
        out = []
        for _ in range(n):
            o = r.choice(["set"] * 5 + ["del", "touch", "gat", "incr", "decr", "app", "pre", "rep", "add",
                                        "lockset", "textset", "cas"])
            out.append([o, r.randrange(nk), r.choice([0, 1, 1, 10, 2000, 30000, 300000]),
                        r.choice([0, 0, 0, 50, 1000]), r.randrange(1000)])
        return out

    def generate(self, rng, ctx):
        rounds = []
        nk = rng.randint(1, 10)
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            rounds.append({"ops": self.ops(rng, rng.choice([0, 3, 15, 60]), nk),
                           "join": rng.choice(["early", "mid", "late"]),
                           "tail": self.ops(rng, rng.choice([0, 0, 5, 40]), nk),
                           "how": rng.choice(["kill", "kill", "term", "vip"]),
                           "wait": rng.choice([0, 0, 1, 3]),
                           "hold": rng.choice([0, 0, 10, 200]),
                           "jump": rng.choice([0, 0, 60])})
        return {"rounds": rounds, "delay": rng.choice([0, 0, 0, 50, 500]),
                "recv": rng.choice([0, 0, 1000]), "asan": rng.randrange(4)}

    def valid(self, case):
        return bool(case["rounds"])

    def start(self, case, rp, vip, ports):
        return yr.Server({"gc_interval": 4, "repl_buffer_size": 30, "heap_data_limit": 65536,
                          "slave_timeout": 2147483647},
                         variant="asan" if case["asan"] == 1 else "plain",
                         wait=False, fake_if=1, owns_vip=vip, repl_port=rp,
                         port=ports, sleep_div=50, now=self.now, counter=False)

    def frame(self, st, op):
        """-> request bytes, expected status (text: None), new state"""
        o, ki, n, e, v = op
        k = b"k%d" % ki
        now = self.now
        cur = st.get(k)
        if cur is not None and cur[2] and cur[2] <= now:
            cur = None
        num = cur is not None and cur[0].isdigit() and len(cur[0]) < 15
        ee = e and now + e
        d = value(n, v) if v % 3 else b"%d" % v
        new = dict(st)
        ex = struct.pack(">II", v, e)
        if o in ("set", "lockset", "textset", "cas", "add", "rep"):
            d = d or b"x"
            ok = {"add": cur is None, "rep": cur is not None}.get(o, True)
            if ok:
                new[k] = (d, v, ee)
            name = {"add": "Add", "rep": "Replace"}.get(o, "Set")
            if o == "textset":
                return b"set %s %d %d %d\r\n%s\r\n" % (k, v, e, len(d), d), new
            b = bframe(OP[name], k, ex, d)
            if o == "lockset" and cur is not None:
                b = bframe(OP["Lock"], k) + b + bframe(OP["Unlock"], k)
            return b, new
        if o in ("app", "pre"):
            d = d or b"y"
            if cur is not None:
                if len(cur[0]) + len(d) > 900000:
                    return b"", new
                new[k] = ((cur[0] + d) if o == "app" else (d + cur[0]), cur[1], cur[2])
            return bframe(OP["Append" if o == "app" else "Prepend"], k, b"", d), new
        if o in ("incr", "decr"):
            if cur is not None and not num:
                return b"", new
            init = v
            if cur is None:
                # creates with the initial value
                new[k] = (b"%d" % init, 0, ee)
            else:
                x = int(cur[0])
                x = x + n if o == "incr" else max(0, x - n)
                new[k] = (b"%d" % x, cur[1], cur[2])
            return bframe(OP["Increment" if o == "incr" else "Decrement"], k,
                          struct.pack(">QQI", n, init, e)), new
        if o in ("touch", "gat"):
            if cur is not None:
                new[k] = cur[:2] + (ee,)
            return bframe(OP["Touch" if o == "touch" else "GaT"], k, struct.pack(">I", e)), new
        if o == "del":
            new.pop(k, None)
            return bframe(OP["Delete"], k), new
        raise AssertionError(o)

    def run(self, ctx, case):
        self.now = yr.EPOCH
        rp = yr.free_port()
        fleet = []
        x = []
        nsync = promos = 0
        try:
            a = self.start(case, rp, 1, yr.free_port())
            fleet.append(a)
            a.wait_ready()
            st = {}
            b = None
            for rd in case["rounds"]:
                c = Mixed(a, a.port)
                x.append(c)
                sl = None
                ops = rd["ops"]
                half = {"early": 0, "mid": len(ops) // 2, "late": len(ops)}[rd["join"]]
                for i, op in enumerate(ops + [None]):
                    if i == half:
                        self.flushed(c)
                        if b is None:
                            b = self.start(case, rp, 0, yr.free_port())
                            fleet.append(b)
                        b.ctl.set(recv_max=case["recv"])
                        b.ctl.set(recv_delay=case["delay"])
                        self.joined(a, b)
                        sl = FakeSlave(a, keep=False)
                        x.append(sl)
                        a.gc()
                        self.tick(a, b)
                    if op is not None:
                        q, st = self.frame(st, op)
                        if q:
                            c.send(q)
                self.flushed(c)
                if rd["jump"]:
                    a.set_now(a.now + rd["jump"])
                    self.tick(a, b)
                # everything so far is replicated
                a.gc()
                a.gc()
                self.tick(a, b)
                for i in range(2):
                    nsync += 1
                    v = b"%d" % nsync
                    if c.call("Set", b"sync", bytes(8), v).status:
                        raise Violation("Set failed")
                    st = dict(st)
                    st[b"sync"] = (v, 0, 0)
                end = time.monotonic() + 20
                while sl.state.get(b"sync", (b"",))[0] != v or not queues_empty(rp):
                    sl.pump(.002)
                    if sl.eof or time.monotonic() > end:
                        raise Violation("no replication within 20 s")
                    b.check_alive()
                a.check_alive()
                hist = [st]
                sl.close()
                out = b""
                for op in rd["tail"]:
                    q, n = self.frame(hist[-1], op)
                    hist.append(n)
                    out += q
                if out:
                    try:
                        c.s.settimeout(.3)
                        c.s.sendall(out)
                    except OSError:
                        pass
                time.sleep(rd["wait"] / 1000)
                if rd["how"] == "vip" and out:
                    c.s.settimeout(20)
                    self.flushed(c)
                # the master goes
                if rd["how"] == "kill":
                    a.kill()
                elif rd["how"] == "term":
                    if a.term() != 0:
                        raise Violation("status %r after SIGTERM: %s" % (a.proc.returncode, a.tail()))
                else:
                    Roles.lose(self, a, [c], False)
                self.tick(a, b)
                time.sleep(rd["hold"] / 1000)
                b.ctl.set(owns_vip=1)
                b.wait_ready()
                b.ctl.set(recv_max=0)
                b.ctl.set(recv_delay=0)
                promos += 1
                c2 = Mixed(b, b.port)
                x.append(c2)
                st = self.compare(b, c2, hist, x, "after %s" % rd["how"])
                fleet.remove(a)
                port = a.port
                a.destroy()
                a, b = b, None
            a.check_alive()
        finally:
            for y in x:
                y.close()
            for y in fleet:
                y.destroy()
        return promos > 0, [rd["how"] for rd in case["rounds"]]

    def tick(self, a, b):
        """One wall clock for all."""
        self.now = a.now
        if b is not None:
            b.ctl.set(now=self.now)

    def joined(self, a, b):
        end = time.monotonic() + 20
        while int(a.stats()["slaves"]) < 1:
            b.check_alive()
            if time.monotonic() > end:
                raise Violation("a slave does not find its master: %s" % b.tail())
            time.sleep(.003)

    def flushed(self, c):
        """All requests sent are done."""
        c.send(bframe(OP["Noop"], opaque=0xfeed))
        while True:
            r = c.next()
            if isinstance(r, yr.Resp) and r.opaque == 0xfeed:
                return

    def compare(self, b, c, hist, x, when):
        keys = sorted({k for st in hist for k in st})
        got = {}
        for k in keys:
            r = c.call("Get", k)
            if r.status == OK:
                got[k] = (r.data, struct.unpack(">I", r.extras)[0])
            elif r.status != NOT_FOUND:
                raise Violation("%s: Get %r -> %r" % (when, k, r))
        bad = None
        cands = []
        for st in reversed(hist):
            want = {k: y[:2] for k, y in st.items() if not (y[2] and y[2] <= b.now)}
            if got == want:
                cands.append(st)
                continue
            if bad is None or st is hist[0]:
                bad = want
        if cands:
            return self.deadlines(b, c, cands, x)
        for k in keys:
            if got.get(k) != bad.get(k):
                raise Violation("%s: %r is %s on the new master, replicated was %s (%d updates were "
                                "under way)" % (when, k, repr(got.get(k))[:200], repr(bad.get(k))[:200],
                                                len(hist) - 1))
        raise Violation("%s: no prefix of the updates" % when)


    def deadlines(self, a, c, cands, x):
        """Deadlines are seen in the copy that a slave gets."""
        sl = FakeSlave(a)
        try:
            a.gc()
            a.gc()
            self.tick(a, None)
            if c.call("Set", b"end", bytes(8), b"1").status:
                raise Violation("Set failed")
            end = time.monotonic() + 20
            while b"end" not in sl.state:
                sl.pump(.005)
                if sl.eof or time.monotonic() > end:
                    raise Violation("the new master does not serve slaves")
            if c.call("Delete", b"end").status:
                raise Violation("Delete failed")
            got = {k: y for k, y in sl.state.items()
                   if k != b"end" and not (y[2] and y[2] <= self.now)}
            for st in cands:
                want = {k: y for k, y in st.items() if not (y[2] and y[2] <= self.now)}
                if got == want:
                    return st
            for k in set(got) | set(want):
                if got.get(k) != want.get(k):
                    raise Violation("the new master replicates %r as %s, not %s" %
                                    (k, repr(got.get(k))[:200], repr(want.get(k))[:200]))
        finally:
            sl.close()


class Addresses(Part):
    """Is the virtual IP among the addresses of the host?"""
    name = "addresses"
    racy = True
    examples = {"quick": 400, "thorough": 20000}
    cap = {"quick": 6, "thorough": 300}
    lists = ("hosts",)
    V4 = ["127.0.0.1", "127.0.0.9", "10.0.0.1", "192.168.100.200", "203.0.113.255", "1.2.3.4"]
    V6 = ["::1", "fd00::5", "2001:db8:1:2:3:4:5:6", "fe80::1%lo", "2001:db8::", "64:ff9b::102:304"]
    QUICK = ["127.0.0.1", "127.0.0.9", "::1"]       # the absence of a master is known at once

    def setup(self, ctx):
        pass

    def near(self, rng, a):
        """Another address; entries are [family, address (hex), scope]."""
        f, h, sc = a
        b = bytearray.fromhex(h)
        k = rng.random()
        if k < .4 and f == 10 and b[:2] == b"\xfe\x80":
            return [f, h, sc + rng.choice([1, 2])]
        if k < .2:      # the same bytes in the other family
            return [10, h + "00" * 12, 0] if f == 4 else [4, h[-8:], 0]
        if k < .45:
            n = 4 if f == 4 else 16
            return [f, bytes(rng.randrange(256) for _ in range(n)).hex(), 0]
        i = rng.choice([0, 1, len(b) - 1, len(b) - 2, rng.randrange(len(b))])
        b[i] ^= 1 << rng.randrange(8)
        return [f, b.hex(), sc]

    def entry(self, vip):
        v, _, z = vip.partition("%")
        a = ipaddress.ip_address(v)
        return [4 if a.version == 4 else 10, a.packed.hex(), 1 if z else 0]

    def generate(self, rng, ctx):
        vip = rng.choice(rng.choice([self.QUICK, self.V4, self.V6]))
        me = self.entry(vip)
        text = vip
        if ":" in vip and "." not in vip and "%" not in vip and rng.random() < .5:
            text = rng.choice([ipaddress.ip_address(vip).exploded, vip.upper()])
        hosts = []
        for i in range(rng.randint(1, 4)):
            l = []
            for _ in range(rng.choice([0, 1, 2, 3, 8])):
                k = rng.random()
                if k < .12:
                    l.append([0, "", 0])
                elif k < .25:       # AF_PACKET
                    l.append([17, rng.choice([me[1], "00" * 8 + "0006" + "0242ac110002"])[:32], 0])
                elif k < .7:
                    l.append(self.near(rng, me))
                else:
                    l.append(self.entry(rng.choice(self.V4 + self.V6)))
            if me in l:
                l = [x for x in l if x != me]
            has = rng.random() < .7
            if i == 0 and vip not in self.QUICK and rng.random() < .8:
                has = True
            if has:
                l.insert(rng.randint(0, len(l)), me)
            hosts.append(l)
        return {"vip": vip, "text": text, "hosts": hosts}

    def valid(self, case):
        return bool(case["hosts"])

    def run(self, ctx, case):
        me = self.entry(case["vip"])

        def put(s, l):
            ents = []
            for f, h, sc in l:
                fam = {4: socket.AF_INET, 10: socket.AF_INET6}.get(f, f)
                ents.append((fam, bytes.fromhex(h), sc))
            s.ctl.set_interfaces(ents)
            return s.ctl.get("ifcalls")

        s = Later({"gc_interval": 1, "virtual_ip": case["text"], "repl_buffer_size": 1},
                  wait=False, fake_if=1, sleep_div=100,
                  before=lambda s: put(s, case["hosts"][0]))
        try:
            has = me in case["hosts"][0]
            moves = 0
            master = False
            for i, l in enumerate(case["hosts"]):
                has = me in l
                n = 0 if i == 0 else put(s, l)
                what = "%s the virtual IP %s among %r" % ("with" if has else "without",
                                                          case["text"], l)
                end = time.monotonic() + 20
                while True:
                    gone = s.proc.poll() is not None
                    calls = s.ctl.get("ifcalls") - n
                    if gone and not (master and not has):
                        raise Violation("the server exits with %r %s: %s" %
                                        (s.proc.returncode, what, s.tail()[-600:]))
                    if has and not master and self.listens(s):
                        master = True
                        moves += i > 0
                        break
                    if has and master and calls >= 3:
                        break
                    if not has and not master and calls >= (1 if i == 0 else 3):
                        time.sleep(.03)
                        if self.listens(s):
                            raise Violation("the server acts as master " + what)
                        break
                    if not has and master and gone:
                        if s.proc.returncode != 2:
                            raise Violation("status %r %s" % (s.proc.returncode, what))
                        return True, ["lost"]
                    if time.monotonic() > end:
                        raise Violation("the server is still %s after 20 s %s" %
                                        ("a master" if master else "no master", what))
                    if master:
                        s.ctl.set(now=s.now + 4)
                    time.sleep(.004)
                if not master and case["vip"] not in self.QUICK:
                    break       # it may be waiting for its master
            return moves > 0 or len(case["hosts"]) > 2, \
                ["promoted" if moves else "master" if master else "slave"]
        finally:
            s.destroy()

    def listens(self, s):
        try:
            socket.create_connection(("127.0.0.1", s.repl_port), timeout=5).close()
            return True
        except OSError:
            return False


class Later(yr.Server):
    """A server that starts when all is prepared."""

    def __init__(self, *a, before=None, **kw):
        self.before = before
        super().__init__(*a, **kw)

    def start(self, wait=True):
        self.before(self)
        super().start(wait)


PARTS = [Roles(), Pair(), Addresses()]
