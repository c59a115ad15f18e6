"""C27: conservation of counter resources."""
import random, struct, time
import C26
from cmodel import CEngine, OK, UNAVAILABLE, NOT_ACQUIRED, NOT_FOUND
from parts import ServerPart
from yr import Violation, cframe, cname, Counter

PROPERTY = "C27"
RULE = ("(ends) random sequences of 20..60 counter requests on 5 connections over 4 names, with "
        "connections ended by close, half-close, reset, an unfinished request or an over-large one; "
        "the consumption must become exactly what the others hold.  Non-trivial: a connection "
        "holding resources ended while another held some.  "
        "(burst) 3..8 connections send long pipelines of acquires and releases of the same names "
        "at once, then some die abruptly without reading, others read their replies and account "
        "for them; consumption must equal the sum of holdings, never exceed the maximum, and one "
        "more acquisition succeeds exactly up to the maximum.  Non-trivial: acquisitions on several "
        "connections both succeeded and failed, and a connection died")
ASSUME = ["'released when a connection ends' is taken as within 15 seconds"]


class Ends(ServerPart):
    name = "ends"
    examples = {"quick": 450, "thorough": 9000}
    cap = {"quick": 35, "thorough": 600}

    def config(self, ctx):
        return {"workers": 1 + ctx.shard, "counter.buckets": [1, 101][ctx.shard % 2]}

    def generate(self, rng, ctx):
        ops = []
        for _ in range(rng.randint(20, 60)):
            if rng.random() < .14:
                ops.append({"o": "close", "c": rng.randrange(5), "k": rng.randrange(4),
                            "how": rng.choice(["rst", "fin", "half", "cut"] * 20 + ["big"])})
            else:
                ops.append(C26.op(rng, 5, 4))
        return {"names": rng.randrange(2), "ops": ops}

    def run(self, ctx, case):
        e = CEngine(self.s, b"%d." % ctx.counter, C26.NAMESETS[case["names"]], 86400)
        e.conns = self.conns
        e.run(case["ops"])
        e.finish()
        if ctx.counter % 25 == 0:
            self.s.set_now((self.s.now // 86400 + 1) * 86400)
        self.s.check_alive()
        return bool(e.stat.get("others_kept")), sorted(e.stat)


class Burst(ServerPart):
    name = "burst"
    racy = True
    examples = {"quick": 350, "thorough": 8000}
    cap = {"quick": 35, "thorough": 600}

    def config(self, ctx):
        return {"workers": 2 + ctx.shard, "counter.buckets": [1, 101][ctx.shard % 2]}

    def setup(self, ctx):
        super().setup(ctx)
        self.s.ctl.set(jitter=[0, 20, 5, 50][ctx.shard % 4])

    def generate(self, rng, ctx):
        n = rng.randint(3, 8)
        nk = rng.randint(1, 3)
        conns = []
        for _ in range(n):
            conns.append({"seed": rng.randrange(1 << 30), "n": rng.choice([5, 40, 150]),
                          "rel": rng.choice([0.1, 0.4, 0.5]), "waves": rng.randint(1, 3),
                          "die": rng.choice(["", "", "", "rst", "fin", "mid"])})
        return {"nk": nk, "max": rng.choice([1, 2, 5, 20, 100, 1 << 20]), "conns": conns}

    def run(self, ctx, case):
        s = self.s
        names = [b"b%d.%d" % (ctx.counter, i) for i in range(case["nk"])]
        mx = case["max"]
        conns = []
        for spec in case["conns"]:
            c = s.counter()
            conns.append([c, dict.fromkeys(names, 0), spec, random.Random(spec["seed"]), []])
        x = self.conns.get("x")
        if x is None:
            x = self.conns["x"] = s.counter()
        okn = bad = died = 0

        def make(ent, i):
            c, held, spec, r, _ = ent
            reqs, w = [], []
            guess = dict(held)
            for _ in range(spec["n"]):
                k = r.choice(names)
                if r.random() < spec["rel"]:
                    n = r.choice([1, 1, 2, 0, 3])
                    reqs.append(("r", k, n))
                    w.append(cframe(3, struct.pack(">I", n) + cname(k)))
                else:
                    n = min(r.choice([1, 1, 1, 2, 3]), mx)
                    reqs.append(("a", k, n))
                    w.append(cframe(2, struct.pack(">II", n, mx) + cname(k)))
            return reqs, b"".join(w) + cframe(0, opaque=b"\xaa\xbb\xcc\xdd")

        waves = max(c["waves"] for c in case["conns"])
        alive = list(conns)
        for wv in range(waves):
            job = []
            for ent in alive:
                if wv < ent[2]["waves"]:
                    reqs, w = make(ent, wv)
                    job.append((ent, reqs, w))
            for ent, reqs, w in job:
                ent[0].send(w if not (ent[2]["die"] == "mid" and wv == ent[2]["waves"] - 1)
                            else w[:-20])
            for ent, reqs, w in job:
                last = wv == ent[2]["waves"] - 1
                if last and ent[2]["die"]:
                    died += 1
                    if ent[2]["die"] == "rst":
                        ent[0].reset()
                    else:
                        ent[0].close()
                    alive.remove(ent)
                    continue
                rs = []
                while True:
                    q = ent[0].resp()
                    if q.opaque == b"\xaa\xbb\xcc\xdd":
                        break
                    rs.append(q)
                if len(rs) != len(reqs):
                    raise Violation("%d responses to %d requests" % (len(rs), len(reqs)))
                held = ent[1]
                for (t, k, n), q in zip(reqs, rs):
                    if t == "a":
                        if q.status == OK:
                            held[k] += n
                            okn += 1
                            if q.body != struct.pack(">I", n):
                                raise Violation("acquire response %r" % q)
                        elif q.status == UNAVAILABLE:
                            bad += 1
                        else:
                            raise Violation("acquire -> %r" % q)
                        if held[k] > mx:
                            raise Violation("one connection holds %d of %d" % (held[k], mx))
                    else:
                        if n <= held[k]:
                            # zero may meet a counter that does not exist yet
                            if q.status != OK and not (n == 0 and q.status == NOT_FOUND):
                                raise Violation("release of %d, holding %d -> %r" %
                                                (n, held[k], q))
                            held[k] -= n
                        elif q.status not in (NOT_ACQUIRED, NOT_FOUND):
                            raise Violation("release of %d, holding %d -> %r" % (n, held[k], q))
        # Requests of a dead connection may still be executed for a moment, so
        # consumption above what open connections hold is tolerated for a while.
        end = time.monotonic() + 15
        while True:
            soft = self.check(x, names, alive, mx)
            if soft is None:
                break
            if time.monotonic() > end:
                raise Violation(soft)
            time.sleep(0.001)
        # every holder can give back all it has, and no more
        for c, held, spec, r, _ in alive:
            for k in names:
                if c.release(k, held[k] + 1).status not in (NOT_ACQUIRED, NOT_FOUND):
                    raise Violation("released more than held")
                if held[k] and c.release(k, held[k]).status != OK:
                    raise Violation("cannot release what is held")
            c.close()
        for k in names:
            while True:
                v = x.get(k)
                if not v:
                    break
                if time.monotonic() > end:
                    raise Violation("consumption %r after everything was released" % v)
                time.sleep(0.001)
        if ctx.counter % 25 == 0:
            s.set_now((s.now // 86400 + 1) * 86400)
        s.check_alive()
        return bool(okn and bad and died), [c["die"] or "stay" for c in case["conns"]]

    def check(self, x, names, alive, mx):
        d = x.dump()
        for k in names:
            want = sum(e[1][k] for e in alive)
            if want > mx:
                raise Violation("connections hold %d of %d" % (want, mx))
            v = x.get(k)
            for v, peak in ((v or 0, mx), d.get(k, (0, 0))):
                if v < want or peak < want:
                    raise Violation("consumption of %r is %r (peak %r), connections hold %d" %
                                    (k, v, peak, want))
                if v > mx or peak > mx:
                    raise Violation("consumption of %r is %r (peak %r), maximum %d" %
                                    (k, v, peak, mx))
                if v != want:
                    return "consumption of %r stays %r, connections hold %d" % (k, v, want)
            # exactly the rest is available
            rest = mx - want
            if rest:
                q = x.acquire(k, rest, mx)
                if q.status == UNAVAILABLE:
                    return "%d of %d held, acquiring the rest -> %r" % (want, mx, q)
                if q.status != OK:
                    raise Violation("%d of %d held, acquiring the rest -> %r" % (want, mx, q))
            if x.acquire(k, 1, mx).status != UNAVAILABLE:
                raise Violation("acquired more than the maximum %d" % mx)
            if rest and x.release(k, rest).status != OK:
                raise Violation("release failed")
        return None


PARTS = [Ends(), Burst()]
