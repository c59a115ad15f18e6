"""Random generators of operation sequences (see model.py)."""

U32 = 0xffffffff
M64 = (1 << 64) - 1

WORDS = ["", "a", "ab", "0", "1", "9", "10", "007", "42", "18446744073709551615",
         "18446744073709551614", "18446744073709551616", "99999999999999999999999",
         "x1", "END\r\n", "\r\n", "VALUE k 0 1\r\n1\r\n", "\x00", "\x80\x00", "\x81",
         "get k\r\n", "quit\r\n", "abc" * 7]


def flags(r):
    if r.random() < 0.6:
        return r.choice([0, 0, 1, 0xffffffff, 0x80000000, 0x01020304])
    return r.randrange(1 << 32)


def lit(r, maxlen=40):
    if r.random() < 0.5:
        return ["l", r.choice(WORDS)]
    return ["l", r.randbytes(r.randrange(maxlen + 1)).decode("latin-1")]


def values(sizes=(), maxlen=40, big=0.33):
    def f(r):
        if sizes and r.random() < big:
            return ["r", r.choice(sizes), r.randrange(10)]
        return lit(r, maxlen)
    return f


NUMS = [0, 1, 2, 9, 10, 99, 255, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, M64 - 1, M64]


def numbers(r):
    x = r.random()
    if x < 0.4:
        return r.choice(NUMS)
    if x < 0.7:
        return r.randrange(1001)
    return r.randrange(1 << 64)


def numeral(r):
    """Values for counting: numbers, zero-padded numbers and clear non-numbers."""
    x = r.random()
    if x < 0.5:
        return ["l", str(numbers(r))]
    if x < 0.65:
        return ["l", "00" + str(numbers(r))]
    return ["l", r.choice(["", "abc", "x12", str(1 << 64), str(10 ** 25), "0", "\x00", "k",
                           "5"])]


def nonempty(v):
    if v[0] == "l" and not v[1]:
        return ["l", "e"]
    if v[0] in "rc" and v[1] == 0:
        return [v[0], 1, v[2]]
    return v


def cas(weights=("0", "cur", "old", "rnd")):
    def f(r):
        w = r.choice(weights)
        if w == "0":
            return 0
        if w == "old":
            return ["old", r.randrange(6)]
        if w == "rnd" and r.random() < .5:
            return ["near", r.randrange(32)]
        return w
    return f


TEXT_STORE = ["set", "add", "replace", "append", "prepend", "cas"]
TEXT_READ = ["get", "gets"]
BIN_GET = ["Get", "GetQ", "GetK", "GetKQ"]
BIN_GAT = ["GaT", "GaTQ", "GaTK", "GaTKQ"]
BIN_LAG = ["LaG", "LaGQ", "LaGK", "LaGKQ"]
BIN_STORE = ["Set", "SetQ", "Add", "AddQ", "Replace", "ReplaceQ"]
BIN_EXT = ["Append", "AppendQ", "Prepend", "PrependQ"]
BIN_CNT = ["Increment", "IncrementQ", "Decrement", "DecrementQ"]
BIN_DEL = ["Delete", "DeleteQ"]
TEXT_LOCK = ["lock", "unlock", "unlock_all"]
BIN_LOCK = ["Lock", "LockQ", "Unlock", "UnlockQ", "UnlockAll", "UnlockAllQ"]
BIN_RAU = ["RaU", "RaUQ"]
ALL_T = TEXT_STORE + ["set", "set"] + ["incr", "decr", "delete", "touch", "get", "gets"]
ALL_B = BIN_STORE + BIN_EXT + BIN_CNT + BIN_DEL + BIN_GET + ["Touch"] + ["Set"] * 3


def zero(r):
    return 0


class Prof:
    """What to generate."""

    def __init__(self, names, nconn=3, nkeys=4, vals=None, exps=None,
                 casw=("0", "cur", "old", "rnd"), pipe=0.5, quiet=0.25, nums=None,
                 prefixes=("", "k", "k1", "zz")):
        self.names = names        # list of (protocol, command), repetition = weight
        self.nconn, self.nkeys = nconn, nkeys
        self.vals = vals or values()
        self.exps = exps
        self.cas = cas(casw)
        self.pipe, self.quiet = pipe, quiet
        self.nums = nums or numbers
        self.prefixes = prefixes


def names(text=(), binary=()):
    return [("t", x) for x in text] + [("b", x) for x in binary]


def op(r, prof):
    p, o = r.choice(prof.names)
    d = {"p": p, "o": o, "c": r.randrange(prof.nconn), "j": int(r.random() < prof.pipe)}
    if p == "c":                           # control operation
        return dict(prof.control(r, o), o=o)
    exps = prof.exps or zero
    key = lambda: r.randrange(prof.nkeys)
    if p == "t":
        if o in ("get", "gets"):
            d["ks"] = [key() for _ in range(r.randint(1, 4))]
            return d
        if o == "keys":
            d["pre"] = r.choice(prof.prefixes)
            return d
        if o in ("unlock_all", "version"):
            return d
        d["k"] = key()
        q = int(r.random() < prof.quiet)
        if o in TEXT_STORE:
            d.update(v=prof.vals(r), f=flags(r), e=exps(r), q=q)
            if o == "cas":
                d["cas"] = prof.cas(r)
        elif o in ("incr", "decr"):
            d.update(n=prof.nums(r), q=q)
        elif o == "touch":
            d.update(e=exps(r), q=q)
        elif o == "delete":
            d["q"] = q
        return d
    d["oq"] = r.randrange(256)
    if o in ("UnlockAll", "UnlockAllQ", "Noop", "Version"):
        return d
    if o == "Keys":
        d["pre"] = r.choice(prof.prefixes)
        return d
    d["k"] = key()
    if o in BIN_STORE or o in BIN_RAU:
        d.update(v=nonempty(prof.vals(r)), f=flags(r), e=exps(r), cas=prof.cas(r))
    elif o in BIN_EXT:
        d.update(v=nonempty(prof.vals(r)), cas=prof.cas(r))
    elif o in BIN_DEL:
        d["cas"] = prof.cas(r)
    elif o in BIN_CNT:
        d.update(n=prof.nums(r), init=prof.nums(r), cas=prof.cas(r),
                 e=None if r.random() < 0.5 else exps(r))
    elif o in BIN_GAT or o == "Touch":
        d["e"] = exps(r)
    elif (o in BIN_GET or o in BIN_LAG) and prof.exps is not None:
        d["e"] = None if r.random() < 0.66 else exps(r)
    return d


def ops(r, prof, lo, hi):
    return [op(r, prof) for _ in range(r.randint(lo, hi))]


class Control(Prof):
    """Profile with control operations: controls = {name: maker(rng) -> dict}."""

    def __init__(self, names, controls, weights, **kw):
        ns = list(names) * 10
        for n, w in weights.items():
            ns += [("c", n)] * max(1, int(len(names) * 10 * w))
        super().__init__(ns, **kw)
        self.controls = controls

    def control(self, r, o):
        return self.controls[o](r)
