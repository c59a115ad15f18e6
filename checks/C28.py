"""C28: counter peaks and collection."""
import time
import C26
from cmodel import CEngine
from parts import ServerPart
from yr import Violation

PROPERTY = "C28"
RULE = ("random sequences of 20..70 counter requests on 4 connections over 5 names interleaved with "
        "clock movements to, just before and past interval boundaries, connection ends, dumps and "
        "collections, with statistics intervals of 10 s to 1 day; every dump must show the exact "
        "peak of the current interval and consumption, and counters in use must survive each "
        "collection with their history.  Non-trivial: a dump showed a peak above the consumption, "
        "a boundary was crossed with resources held, and a collection kept a counter in use")
ASSUME = ["a released counter of an earlier interval may or may not exist until a collection",
          "statistics that count objects are those of the last collection"]


class Peaks(ServerPart):
    name = "peaks"
    examples = {"quick": 220, "thorough": 5000}
    cap = {"quick": 45, "thorough": 700}

    def config(self, ctx):
        return {"workers": 1 + ctx.shard % 4, "counter.buckets": [1, 7, 101, 1009][ctx.shard % 4],
                "counter.stat_interval": [10, 60, 3600, 86400, 17, 100, 86399, 30][ctx.shard % 8]}

    def generate(self, rng, ctx):
        iv = [10, 60, 3600, 86400, 17, 100, 86399, 30][ctx.shard % 8]
        ops = []
        for _ in range(rng.randint(20, 70)):
            x = rng.random()
            if x < .07:
                ops.append({"o": "boundary", "d": rng.choice([-1, 0, 0, 1, 5])})
            elif x < .11:
                ops.append({"o": "clock", "dt": rng.choice([1, 2, 5, iv // 2, iv - 1, iv, iv + 1,
                                                            3 * iv])})
            elif x < .14:
                ops.append({"o": "collect", "d": rng.choice([0, 0, 1])})
            elif x < .24:
                ops.append({"o": "dump"})
            elif x < .28:
                ops.append({"o": "close", "c": rng.randrange(4), "k": 0,
                            "how": rng.choice(["rst", "fin", "half"])})
            else:
                d = C26.op(rng, 4, 5)
                if d["o"] in ("bad", "unk", "magic"):
                    d = {"o": "dump"}
                ops.append(d)
        return {"names": rng.randrange(2), "ops": ops}

    def run(self, ctx, case):
        s = self.s
        e = CEngine(s, b"%d." % ctx.counter, C26.NAMESETS[case["names"]],
                    int(s.cfg["counter.stat_interval"]))
        e.conns = self.conns
        a = e.cstats()
        base = dict(e.ops)
        e.run(case["ops"])
        e.check()
        # command statistics
        b = e.cstats()
        for k in ("noop", "get", "acquire", "release", "dump", "stats"):
            # the stats request itself is counted before the reply, the sentinel after
            want = e.ops.get(k, 0) - base.get(k, 0)
            got = int(b["command:" + k]) - int(a["command:" + k])
            if got != want:
                raise Violation("command:%s grew by %d, expected %d" % (k, got, want))
        if int(b["total_objects"]) - int(a["total_objects"]) < 0:
            raise Violation("total_objects went down")
        e.finish()
        end = time.monotonic() + 20
        while True:
            e.ctl_collect({"d": 0})
            if e.ctrs:
                raise Violation("released counters survived: %r" % sorted(e.ctrs))
            d = e.conn("x").dump()
            st = e.cstats()
            if not d and int(st["objects"]) == 0 and int(st["used_memory"]) == 0:
                break
            if time.monotonic() > end:
                raise Violation("dump %r, objects %s after collections of everything" %
                                (d, st["objects"]))
        s.check_alive()
        st = e.stat
        return bool(st.get("peak_above") and st.get("boundary") and st.get("kept_in_use")), \
            sorted(st)


PARTS = [Peaks()]
