"""C01: values are returned exactly as stored."""
import gen
from parts import ModelPart
from model import text_safe

PROPERTY = "C01"
RULE = ("random sequences of 6..25 stores, appends, prepends, replaces, get/gets/GetK reads and "
        "garbage collections (sometimes a dozen in a row, so that idle objects reach the age at "
        "which their files are flushed) over 4 keys of 1..250 arbitrary bytes (text commands only "
        "with printable keys), with arbitrary value bytes and sizes concentrated around "
        "heap_data_limit, powers of two, and max_data_size; on some servers file writes and reads "
        "are made partial. Every read through either protocol must return the exact bytes and "
        "flags. Non-trivial: an object of more than heap_data_limit bytes or of special bytes "
        "was read back")
ASSUME = ["text protocol keys contain no spaces or control characters"]

T = ["set"] * 4 + ["add", "replace", "append", "append", "prepend", "prepend", "get", "gets"]
B = ["Set"] * 3 + ["SetQ", "Add", "Replace", "Append", "AppendQ", "Prepend", "PrependQ", "Get",
                   "GetK", "GetQ", "GetKQ", "Delete", "GaT"]

KB = "abcdefXYZ0129._-/:\xff\x80~!$%"


def key(r, safe):
    n = r.choice([1, 2, 3, 8, 20, 100, 249, 250, r.randint(1, 250)])
    if safe or r.random() < 0.3:
        return "".join(r.choice(KB) for _ in range(n))
    return r.randbytes(n).decode("latin-1")


class Values(ModelPart):
    name = "values"
    examples = {"quick": 700, "thorough": 15000}
    cap = {"quick": 45, "thorough": 700}

    def config(self, ctx):
        return ctx.cfgsel([
            {"heap_data_limit": 4096, "buckets": 1},
            {"max_data_size": "8M"},
            {"heap_data_limit": "5000", "secure_erase": "true"},
            {"heap_data_limit": "1M", "buckets": 3},
        ])

    def setup(self, ctx):
        super().setup(ctx)
        if ctx.shard in (2, 4):
            self.s.ctl.set(file_max=777)
        if ctx.shard == 5:
            self.s.ctl.set(file_max=100000)
        h = [4096, 262144, 5000, 1 << 20][ctx.shard % 4]
        self.heap = h
        small = [0, 1, 2, 100, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 70000]
        near = [x for x in [h - 1, h, h + 1, h // 2, h // 2 + 1, h + 5000]
                if x <= 1 << 20]
        self.small = gen.values(small + near * 2, big=0.6)
        self.large = gen.values([(1 << 20) - 1, 1 << 20, 1 << 19, 300000], big=1)
        self.huge = gen.values([3 << 20, (2 << 20) + 1, 5000000], big=1)

    def vals(self, r):
        x = r.random()
        if x < 0.004 and self.heap == 262144:
            return self.huge(r)
        if x < 0.02:
            return self.large(r)
        if x < 0.10 and self.heap < 10000:
            return ["c", r.choice([4096, 100000, 250000]), r.randrange(90)]
        return self.small(r)

    def generate(self, rng, ctx):
        keys = [key(rng, True)]
        while len(keys) < 4:
            k = key(rng, False)
            if k not in keys:
                keys.append(k)
        p = gen.Control(gen.names(T, B), {"gc": lambda r: {}, "gcs": lambda r: {"n": 12}},
                        {"gc": 0.02, "gcs": 0.001}, vals=self.vals, casw=("0", "0", "0", "cur"))
        # weights below one slot: drop most of them
        ops = [o for o in gen.ops(rng, p, 6, 25) if o["o"] != "gcs" or rng.random() < 0.25]
        safe = [i for i, k in enumerate(keys) if text_safe(k.encode("latin-1"))]
        for o in ops:
            if o.get("p") != "t":
                continue
            if "k" in o and o["k"] not in safe:
                o["k"] = rng.choice(safe)
            if "ks" in o:
                o["ks"] = [i for i in o["ks"] if i in safe] or [safe[0]]
        return {"keys": keys, "ops": ops}

    def engine(self, ctx, case):
        e = super().engine(ctx, case)
        e.pre = b""
        return e

    def keys_for(self, ctx, case):
        return [k.encode("latin-1") for k in case["keys"]]

    def valid(self, case):
        return len(case["keys"]) == 4

    def after(self, ctx, case, e):
        e.stat["big"] = sum(len(it.v) > self.heap for it in e.m.items.values())
        e.stat["special"] = sum(any(b in it.v for b in b"\0\r\n") for it in e.m.items.values())

    def labels(self, e):
        return [k for k in sorted(e.stat) if e.stat[k]]

    def nontrivial(self, e):
        return bool(e.stat["big"] or e.stat["special"])


PARTS = [Values()]
