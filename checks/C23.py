"""C23: what a promoted slave serves."""
import random, struct, time
import yr
from harness import Part
from model import Mixed
from repl import DELQ, SETQ, TOUCH, FakeMaster, FakeSlave, delq, setq, touch
from yr import OP, OK, NOT_FOUND, Violation, bframe

PROPERTY = "C23"
TECHNIQUE = ("replication streams generated and fed by a fake master to real slaves, which are then "
             "promoted; their replies and the stream of a slave of theirs are compared with a "
             "reference interpretation of the stream; shrinking")
RULE = ("1..3 masters in succession each feed 0..150 sets, touches and removals of 1..12 keys (arbitrary "
        "bytes, 1..250 long; values empty to several MiB; deadlines past, near, far, none) in random "
        "fragments, with recv() of the slave limited to a random size; each master ends by closing, "
        "resetting or just losing the virtual IP, with the last record cut anywhere in a third of the "
        "cases.  The slave is promoted at once, after a delay or after retries in vain; it must serve "
        "exactly the state of the last stream in both protocols, also after the clock has moved to "
        "deadlines, hand it to a slave of its own with exact deadlines, and execute updates and "
        "locks.  Non-trivial: at least 5 records in the last stream")
ASSUME = ["streams consist of the records a master sends; the last one may be cut"]


def value(n, seed):
    return (b"%d:" % (seed * 7919 + n) * (n // 3 + 1))[:n]


class Stream(Part):
    name = "stream"
    racy = True
    examples = {"quick": 400, "thorough": 20000}
    cap = {"quick": 22, "thorough": 800}
    lists = ("sessions",)

    def setup(self, ctx):
        pass

    def frames(self, r, n, nk, sizes):
        out = []
        for _ in range(n):
            o = r.choice("sssstd")
            f = {"o": o, "k": r.randrange(nk)}
            if o != "d":
                f["e"] = r.choice([0, 0, 0, -5, 0, 1, 2, 10, 1000, 3000000, 0x7fffffff, 0xfffffffe])
                if f["e"] < 4000000:
                    f["e"] = f["e"] and 2_000_000_000 + f["e"]
            if o == "s":
                f["n"] = r.choice(sizes)
                f["v"] = r.randrange(100)
                f["f"] = r.choice([0, 1, 0xffffffff, r.randrange(1 << 32)])
            out.append(f)
        return out

    def generate(self, rng, ctx):
        sizes = rng.choice([[0, 1, 3, 20], [0, 1, 10, 1000, 4096, 4097, 20000],
                            [1, 5, 100, 262144, 1048576], [0, 5, 3 << 20, 70000]])
        big = max(sizes) > 1 << 20
        ses = []
        for i in range(rng.choice([1, 1, 1, 2, 3])):
            n = rng.choice([0, 1, 5, 20, 60, 150])
            ses.append({"frames": self.frames(rng, min(n, 20) if big else n, rng.randint(1, 12), sizes),
                        "frag": rng.choice([0, 0, 0, 1, 7, 24, 100, 1460, 65536]),
                        "end": rng.choice(["fin", "fin", "rst"]),
                        "cut": rng.choice([0, 0, 1, rng.randint(1, 60)])})
        if rng.random() < .3:
            ses[-1]["end"] = "vip"
        return {"sessions": ses, "keys": rng.randrange(1 << 30),
                "recv": rng.choice([0, 0, 0, 1, 23, 24, 25, 100, 4096]),
                "promote": rng.choice(["before", "after", "after", "late", "down"]),
                "heap": rng.randrange(3), "pause": rng.choice([0, 0, 2, 15]),
                "jump": rng.choice([0, 0, 1, 5, 60, 100000]),
                "cap": rng.choice([0, 0, 18]), "buckets": rng.randrange(4)}

    def valid(self, case):
        # deadlines are absolute (small numbers are seconds from now)
        return bool(case["sessions"]) and all(
            x["end"] != "vip" for x in case["sessions"][:-1]) and all(
            not 0 < f.get("e", 0) < 1_900_000_000 for x in case["sessions"] for f in x["frames"])

    def keys(self, seed):
        r = random.Random(seed)
        out = []
        for i in range(12):
            n = r.choice([1, 2, 5, 20, 250])
            k = bytes([65 + i]) + bytes(r.choice([r.randrange(256), 0x61]) for _ in range(n - 1))
            out.append(k)
        return out

    def run(self, ctx, case):
        keys = self.keys(case["keys"])
        fm = FakeMaster(yr.free_port())
        s = None
        sl = None
        c = None
        jump = False
        try:
            s = yr.Server({"heap_data_limit": [4096, 262144, 4 << 20][case["heap"] % 3],
                           "buckets": [1, 2, 101, 1009][case["buckets"] % 4],
                           "gc_interval": 4, "repl_buffer_size": 30, "slave_timeout": 2147483647},
                          wait=False, fake_if=1, owns_vip=0, repl_port=fm.port, sleep_div=50,
                          cap_ms=2 + case["cap"])
            s.ctl.set(recv_max=case["recv"])
            last = len(case["sessions"]) - 1
            nrec = 0
            for i, ses in enumerate(case["sessions"]):
                fm.accept(s)
                if ses["end"] == "rst":
                    fm.up(s)
                if i == last:
                    fm.unlisten()       # the promoted server listens on this port
                state = {}
                buf = []
                fs = ses["frames"]
                nrec = len(fs)
                for j, f in enumerate(fs):
                    k = keys[f["k"]]
                    if f["o"] == "s":
                        v = value(f["n"], f["v"])
                        b = setq(k, v, f["f"], f["e"])
                    elif f["o"] == "t":
                        b = touch(k, f["e"])
                    else:
                        b = delq(k)
                    if j == len(fs) - 1 and ses["cut"]:
                        b = b[:max(0, len(b) - ses["cut"])]
                        buf.append(b)
                        break
                    buf.append(b)
                    if f["o"] == "s":
                        state[k] = (v, f["f"], f["e"])
                    elif f["o"] == "d":
                        state.pop(k, None)
                    elif k in state:
                        state[k] = state[k][:2] + (f["e"],)
                b = b"".join(buf)
                n = ses["frag"]
                if n and len(b) // n > 3000:
                    n = len(b) // 3000
                if case["recv"] and len(b) // case["recv"] > 200000:
                    s.ctl.set(recv_max=len(b) // 200000)
                for j in range(0, len(b), n or len(b) or 1):
                    fm.send(b[j:j + n] if n else b, s)
                if case["pause"]:
                    time.sleep(case["pause"] / 1000)
                    fm.beats()
                if i == last and case["promote"] == "before":
                    fm.delivered(s)
                    s.ctl.set(owns_vip=1)
                if ses["end"] == "vip":
                    fm.delivered(s)
                    s.ctl.set(owns_vip=1)
                elif ses["end"] == "rst":
                    fm.delivered(s)
                    fm.beats()
                    fm.end("rst")
                else:
                    fm.delivered(s)
                    fm.beats()
                    fm.end()
            if case["promote"] in ("late", "down"):
                time.sleep(.005 if case["promote"] == "late" else .15)
                if case["jump"] and case["sessions"][-1]["end"] != "vip":
                    # time passes without a master; then, no periodic work is done
                    jump = True
                    s.ctl.set(mono_now=s.ctl.get("mono_last"))
                    s.ctl.set(mono_fix=1)
                    s.ctl.set(now=s.now + case["jump"])
            s.ctl.set(owns_vip=1)
            s.wait_ready()
            s.ctl.set(recv_max=0)
            c = Mixed(s, s.port)
            self.compare(s, c, keys, state, "after promotion")
            if jump:
                for i in range(3):
                    k = b"\x02new%d" % i
                    x = c.call("Set", k, struct.pack(">II", i, 3 + i * 100), b"n%d" % i)
                    if x.status:
                        raise Violation("Set after promotion: %r" % x)
                    state[k] = (b"n%d" % i, i, s.now + 3 + i * 100)
                    keys = keys + [k]
                s.ctl.set(mono_fix=0)
            # a slave of the new master
            sl = FakeSlave(s)
            self.joined(s, c, sl, keys, state)
            for t in sorted({e for _, _, e in state.values() if 0 < e - s.now < 4000000})[:3]:
                for x in (t - 1, t):
                    if x > s.now:
                        s.set_now(x)
                        self.compare(s, c, keys, state, "at %d" % x)
            self.service(s, c, keys, state, sl)
            s.check_alive()
        finally:
            fm.close()
            for x in (sl, c):
                if x is not None:
                    x.close()
            if s is not None:
                s.destroy()
        return nrec >= 5, [case["sessions"][-1]["end"], case["promote"],
                           "%d masters" % len(case["sessions"])]

    def compare(self, s, c, keys, state, when):
        now = s.now
        for k in keys:
            v, f, e = state.get(k, (None, 0, 0))
            if e and e <= now:
                v = None
            c.send(bframe(OP["GetK"], k, opaque=7))
            r = c.next()
            if v is None:
                if r.status != NOT_FOUND:
                    raise Violation("%s: %r should not exist, is %r" % (when, k, r))
            elif r.status != OK or r.data != v or r.extras != struct.pack(">I", f) or r.key != k:
                raise Violation("%s: %r is %s, replicated were %r (%d bytes), flags %d" %
                                (when, k, repr(r)[:200], v[:50], len(v), f))
        ks = [k for k in keys if k.isalnum()]
        if ks:
            c.send(b"get " + b" ".join(ks) + b"\r\n")
            for k in ks:
                v, f, e = state.get(k, (None, 0, 0))
                if v is not None and not (e and e <= now):
                    r = c.next()
                    if r[:4] != ("VALUE", k, f, v):
                        raise Violation("%s: text get of %r: %s, not %r, flags %d" %
                                        (when, k, repr(r)[:200], v[:50], f))
            r = c.next()
            if r != ("T", b"END") and r != b"END":
                raise Violation("%s: unexpected %r after get" % (when, r))

    def joined(self, s, c, sl, keys, state):
        want = {k: x for k, x in state.items() if not (0 < x[2] <= s.now)}
        s.gc()
        s.gc()
        end = time.monotonic() + 20
        m = b"\x01mark"
        c.call("Set", m, bytes(8), b"m")
        while m not in sl.state:
            sl.pump(.005)
            if sl.eof or time.monotonic() > end:
                raise Violation("a slave of the promoted server gets no updates")
        got = {k: x for k, x in sl.state.items() if k != m and not (0 < x[2] <= s.now)}
        want = {k: x for k, x in want.items() if not (0 < x[2] <= s.now)}
        if got != want:
            k = next(k for k in list(got) + list(want) if got.get(k) != want.get(k))
            raise Violation("the promoted server has %r as %s; the replicated value, flags and deadline "
                            "are %s" % (k, repr(got.get(k))[:200], repr(want.get(k))[:200]))
        if c.call("Delete", m).status:
            raise Violation("Delete failed")

    def service(self, s, c, keys, state, sl):
        """Updates and locks."""
        d = Mixed(s, s.port)
        try:
            for i, k in enumerate(keys):
                live = k in state and not (0 < state[k][2] <= s.now)
                w = [("Add", OK if not live else 2), ("Lock", OK), ("Unlock", OK), ("Set", OK)]
                for n, st in w:
                    x = c.call(n, k, bytes(8) if n in ("Add", "Set") else b"",
                               b"new%d" % i if n in ("Add", "Set") else b"")
                    if x.status != st:
                        raise Violation("%s of %r after promotion: %r" % (n, k, x))
                    if n == "Lock":
                        x = d.call("Set", k, bytes(8), b"x")
                        if x.status != yr.LOCKED:
                            raise Violation("Set of %r locked by another: %r" % (k, x))
                x = d.call("Get", k)
                if x.status or x.data != b"new%d" % i:
                    raise Violation("%r was set to %r, is %r" % (k, b"new%d" % i, x))
            end = time.monotonic() + 20
            while any(sl.state.get(k, (0,))[0] != b"new%d" % i for i, k in enumerate(keys)):
                sl.pump(.005)
                if sl.eof or time.monotonic() > end:
                    raise Violation("updates after promotion are not replicated")
        finally:
            d.close()


PARTS = [Stream()]
