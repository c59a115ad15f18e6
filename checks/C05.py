"""C05: concurrent commands on the same key are atomic."""
import random, struct
from model import Mixed, is_num, M64, NONE32
from parts import ServerPart
from yr import (OP, Violation, bframe, OK, NOT_FOUND, EXISTS, NON_NUMERIC, LOCKED, NOT_LOCKED)

PROPERTY = "C05"
RULE = ("(linear) rounds in which 2..6 connections send pipelines of 3..12 commands (text and "
        "binary, with and without reply, conditional on the CAS value the round began with, "
        "optionally with locks) on 1..3 shared keys at once, in 1..3 phases, while garbage "
        "collection and other keys of the same bucket change and threads are delayed at random "
        "around mutexes, allocations and sends.  A search over all interleavings of the pipelines "
        "decides, per key, whether some one-at-a-time order explains every reply and the final "
        "value.  Non-trivial: at least two connections changed the same key in one phase and the "
        "search decided.  "
        "(burst) 3..8 connections send hundreds of commands of one kind at once: increments and "
        "decrements (their sum), appended and prepended tokens (each exactly once and in the "
        "order of its connection), adds and deletes, CAS updates (one winner each), values "
        "written whole (read back whole).  Non-trivial: commands of two connections alternated")
ASSUME = ["CAS values are unique per key among those observed in a round",
          "interleavings the search cannot decide within its node budget are not judged"]

MOD = {"set", "add", "replace", "append", "prepend", "cas", "incr", "decr", "delete", "RaU"}
NODES = 60000


class Undecided(Exception):
    pass


# An executed operation: (kind, argument, flags, cas argument, init, text?, reply)
# reply: ("?",) none and none to be had (text noreply); ("-",) binary quiet, silent;
#        ("ok", cas or None, payload or None); ("NF",) ("EX",) ("NS",) ("LK",) ("NL",) ("NN",)

def match(rep, want, cas_ok=None):
    """want: an error class or 'ok'; silent replies of quiet commands mean success."""
    t = rep[0]
    if t == "?":
        return True
    if t == "-":
        return want == "ok"
    return t == want


def apply(op, who, st):
    """Possible successor state, or None if the reply is impossible in st.
    st = (value or None, flags, cas or None, owner or -1)"""
    kind, arg, fl, cas, init, text, rep = op
    v, f, c, own = st
    if kind in ("get", "GaT", "touch"):
        if v is None:
            if rep == ("miss",) or rep[0] == "NF":
                return st
            return None
        if kind == "touch":
            if rep[0] != "ok":
                return None
        elif rep[0] != "val" or rep[1] != v or rep[2] != f:
            return None
        rc = rep[-1] if kind != "touch" else rep[1]
        if rc is None:
            return st
        if c is None:
            return (v, f, rc, own)
        return st if rc == c else None
    if kind in ("lock", "LaG"):
        if v is None:
            return st if rep[0] == "NF" else None
        if own != -1:
            return st if rep[0] == "LK" else None
        if kind == "LaG":
            if rep[0] != "val" or rep[1] != v or rep[2] != f:
                return None
            if rep[3] is not None:
                if c is not None and rep[3] != c:
                    return None
                c = rep[3]
        elif rep[0] not in ("ok", "-"):
            return None
        return (v, f, c, who)
    if kind == "unlock":
        if v is not None and own == who:
            return (v, f, c, -1) if rep[0] in ("ok", "-") else None
        return st if rep[0] in ("NL", "NF") else None
    if kind == "unlockall":
        return (v, f, c, -1) if own == who else st
    if kind == "RaU":
        if v is None:
            return st if rep[0] in ("NF", "NL") else None
        if own != who:
            return st if rep[0] == "NL" else None
        if cas and c != cas:
            return st if rep[0] == "EX" else None
        return (arg, fl, rep[1] if rep[0] == "ok" else None, -1) \
            if rep[0] in ("ok", "-") else None
    if v is not None and own not in (-1, who):
        return st if match(rep, "LK") else None

    def done(nv, nf, no=None):
        if not match(rep, "ok"):
            return None
        return (nv, nf, rep[1] if rep[0] == "ok" else None, own if no is None else no)

    def refuse(e):
        return st if match(rep, e) and rep[0] != "-" else None

    if kind == "delete":
        if v is None:
            return st if rep[0] in ("?", "-", "NF") else None
        if cas and c != cas:
            return refuse("EX")
        if not match(rep, "ok"):
            return None
        return (None, 0, None, -1)
    if v is None:
        if kind == "set" or kind == "add":
            if cas:
                return refuse("NF")
            return done(arg, fl)
        if kind in ("incr", "decr"):
            if init is None:
                return refuse("NF")
            if rep[0] == "ok" and rep[2] != init:
                return None
            return done(b"%d" % init, 0)
        return refuse("NS" if text and kind != "cas" else "NF")
    if kind == "add":
        return refuse("NS" if text else "EX")
    if cas and c != cas:
        return refuse("EX")
    if kind in ("set", "replace", "cas"):
        return done(arg, fl)
    if kind == "append":
        return done(v + arg, f)
    if kind == "prepend":
        return done(arg + v, f)
    n = is_num(v)
    if n is None:
        return refuse("NN")
    n = (n + arg) & M64 if kind == "incr" else max(0, n - arg)
    if rep[0] == "ok" and rep[2] != n:
        return None
    return done(b"%d" % n, f)


def linearize(seqs, init, final):
    """seqs: per connection [(phase, op)].  True if an order exists.
    final: (value, flags, cas) read after everything, or None."""
    n = len(seqs)
    nodes = 0
    dead = set()
    last = [len(s) for s in seqs]

    def hint(op):
        rep = op[6]
        if rep[0] == "ok":
            return rep[1] or 0
        if rep[0] == "val":
            return rep[-1] or 0
        return 0

    start = (tuple([0] * n), init)
    stack = [(start, None)]
    path = [iter(())]

    def options(node):
        pos, st = node
        ph = min((seqs[i][pos[i]][0] for i in range(n) if pos[i] < last[i]), default=None)
        out = []
        for i in range(n):
            if pos[i] < last[i] and seqs[i][pos[i]][0] == ph:
                op = seqs[i][pos[i]][1]
                ns = apply(op, i, st)
                if ns is not None:
                    out.append((hint(op) or 1 << 62, i, ns))
        out.sort(key=lambda x: x[:2])
        return [(pos[:i] + (pos[i] + 1,) + pos[i + 1:], ns) for _, i, ns in out]

    def good(node):
        pos, st = node
        if any(pos[i] < last[i] for i in range(n)):
            return False
        v, f, c, own = st
        if final is None:
            return v is None
        return v == final[0] and f == final[1] and (c is None or c == final[2])

    if good(start):
        return True
    iters = [iter(options(start))]
    nodes_at = [start]
    while iters:
        nxt = next(iters[-1], None)
        if nxt is None:
            dead.add(nodes_at.pop())
            iters.pop()
            continue
        if nxt in dead:
            continue
        nodes += 1
        if nodes > NODES:
            raise Undecided()
        if good(nxt):
            return True
        iters.append(iter(options(nxt)))
        nodes_at.append(nxt)
    return False


def short(x):
    return repr(x) if len(repr(x)) < 160 else repr(x)[:150] + "..."


class Round:
    """Encodes operations, collects replies."""

    def __init__(self, s, keys, base):
        self.s, self.keys, self.base = s, keys, base

    def encode(self, op, opq):
        k = self.keys[op["k"]]
        o, q = op["o"], op.get("q", 0)
        cas = self.base[op["k"]] if op.get("cas") else 0
        f = op.get("f", 0)
        if op["p"] == "t":
            nr = b" noreply" if q else b""
            if o in ("get", "gets"):
                return o.encode() + b" " + k + b"\r\n"
            if o in ("set", "add", "replace", "append", "prepend"):
                v = val(op["v"])
                return b"%s %s %d 0 %d%s\r\n%s\r\n" % (o.encode(), k, f, len(v), nr, v)
            if o == "cas":
                v = val(op["v"])
                return b"cas %s %d 0 %d %d%s\r\n%s\r\n" % (k, f, len(v), self.base[op["k"]] or 1,
                                                           nr, v)
            if o in ("incr", "decr"):
                return b"%s %s %d%s\r\n" % (o.encode(), k, op["n"], nr)
            if o == "delete":
                return b"delete " + k + nr + b"\r\n"
            if o == "touch":
                return b"touch " + k + b" 0" + nr + b"\r\n"
            if o in ("lock", "unlock"):
                return o.encode() + b" " + k + b"\r\n"
            return b"unlock_all\r\n"
        qq = "Q" if q else ""
        if o == "get":
            return bframe(OP["Get" + qq], k, opaque=opq)
        if o == "gets":
            return bframe(OP["GetK" + qq], k, opaque=opq)
        if o in ("set", "add", "replace"):
            return bframe(OP[o.capitalize() + qq], k, struct.pack(">II", f, 0), val(op["v"]),
                          opq, cas)
        if o == "cas":
            return bframe(OP["Replace" + qq], k, struct.pack(">II", f, 0), val(op["v"]), opq,
                          self.base[op["k"]] or 1)
        if o in ("append", "prepend"):
            return bframe(OP[o.capitalize() + qq], k, b"", val(op["v"]), opq, cas)
        if o in ("incr", "decr"):
            init = op.get("init")
            return bframe(OP[{"incr": "Increment", "decr": "Decrement"}[o] + qq], k,
                          struct.pack(">QQI", op["n"], init or 0, NONE32 if init is None else 0),
                          b"", opq, cas)
        if o == "delete":
            return bframe(OP["Delete" + qq], k, opaque=opq, cas=cas)
        if o == "touch":
            return bframe(OP["Touch"], k, struct.pack(">I", 0), opaque=opq)
        if o == "GaT":
            return bframe(OP["GaT" + qq], k, struct.pack(">I", 0), opaque=opq)
        if o == "LaG":
            return bframe(OP["LaG" + qq], k, opaque=opq)
        if o == "RaU":
            return bframe(OP["RaU" + qq], k, struct.pack(">II", f, 0), val(op["v"]), opq, cas)
        if o in ("lock", "unlock"):
            return bframe(OP[o.capitalize() + qq], k, opaque=opq)
        return bframe(OP["UnlockAll" + qq], opaque=opq)

    def kind(self, op):
        o = op["o"]
        return {"gets": "get", "unlock_all": "unlockall"}.get(o, o)

    def executed(self, op, rep):
        cas = self.base[op["k"]] if op.get("cas") and op["p"] == "b" else 0
        if op["o"] == "cas":
            cas = self.base[op["k"]] or 1
        o = op["o"]
        arg = op["n"] if "n" in op else val(op["v"]) if "v" in op else None
        return (self.kind(op), arg, op.get("f", 0), cas,
                op.get("init") if op["p"] == "b" else None, op["p"] == "t", rep)

    T = {b"STORED": ("ok", None, None), b"DELETED": ("ok", None, None), b"OK": ("ok", None, None),
         b"TOUCHED": ("ok", None, None),
         b"NOT_STORED": ("NS",), b"NOT_FOUND": ("NF",), b"EXISTS": ("EX",), b"LOCKED": ("LK",),
         b"CLIENT_ERROR object is not locked or not found": ("NL",),
         b"CLIENT_ERROR cannot increment or decrement non-numeric value": ("NN",)}
    B = {NOT_FOUND: ("NF",), EXISTS: ("EX",), LOCKED: ("LK",), NOT_LOCKED: ("NL",),
         NON_NUMERIC: ("NN",)}

    def collect(self, cn, ops, mark):
        """Replies to ops, in order."""
        out = []
        nxt = cn.next()
        for i, op in enumerate(ops):
            o, q = op["o"], op.get("q", 0)
            k = self.keys[op["k"]]
            if op["p"] == "t":
                if q and o not in ("get", "gets", "lock", "unlock", "unlock_all"):
                    out.append(("?",))
                    continue
                if o in ("get", "gets"):
                    if nxt == b"END":
                        out.append(("miss",))
                    else:
                        if not isinstance(nxt, tuple) or nxt[0] != "VALUE" or nxt[1] != k or \
                                (len(nxt) == 5) != (o == "gets"):
                            raise Violation("%s %r -> %s" % (o, k, short(nxt)))
                        out.append(("val", nxt[3], nxt[2], nxt[4] if o == "gets" else None))
                        if cn.next() != b"END":
                            raise Violation("get not closed by END")
                elif isinstance(nxt, bytes) and nxt in self.T:
                    out.append(self.T[nxt])
                elif o in ("incr", "decr") and isinstance(nxt, bytes) and nxt.isdigit():
                    out.append(("ok", None, int(nxt)))
                else:
                    raise Violation("%s %r -> %s" % (o, k, short(nxt)))
                nxt = cn.next()
                continue
            if isinstance(nxt, (bytes, tuple)) or nxt.opaque != i + 1:
                if not q:
                    raise Violation("no reply to %r; next is %s" % (op, short(nxt)))
                out.append(("miss",) if o in ("get", "gets", "GaT") else ("-",))
                continue
            if nxt.status:
                if nxt.status not in self.B:
                    raise Violation("%s %r -> %r" % (o, k, nxt))
                out.append(self.B[nxt.status])
            elif o in ("get", "gets", "GaT", "LaG"):
                if len(nxt.extras) != 4:
                    raise Violation("%s %r -> %r" % (o, k, nxt))
                out.append(("val", nxt.data, struct.unpack(">I", nxt.extras)[0], nxt.cas))
            elif o in ("incr", "decr"):
                if len(nxt.data) + len(nxt.extras) != 8:
                    raise Violation("%s %r -> %r" % (o, k, nxt))
                out.append(("ok", nxt.cas, struct.unpack(">Q", nxt.data + nxt.extras)[0]))
            elif o in ("lock", "unlock", "unlock_all", "delete"):
                out.append(("ok", None, None))
            else:
                out.append(("ok", nxt.cas, None))
            nxt = cn.next()
        if isinstance(nxt, (bytes, tuple)) or nxt.opaque != mark:
            raise Violation("unexpected reply %s" % short(nxt))
        return out


_vals = {}


def val(spec):
    t = (spec[0], spec[1], spec[2] if len(spec) > 2 else 0)
    v = _vals.get(t)
    if v is None:
        if len(_vals) > 5000:
            _vals.clear()
        v = spec[1].encode() if spec[0] == "l" else (b"<%s" % spec[2].encode()).ljust(spec[1], b".") + b">"
        _vals[t] = v
    return v


class Linear(ServerPart):
    name = "linear"
    racy = True
    examples = {"quick": 1800, "thorough": 60000}
    cap = {"quick": 15, "thorough": 800}
    lists = ("ops",)

    def config(self, ctx):
        return {"workers": 2 + ctx.shard % 7, "buckets": [1, 101][ctx.shard % 2],
                "heap_data_limit": 4096, "gc_interval": 1}

    def server_args(self, ctx):
        return {"counter": False, "mono": 1000, "cap_ms": 1}

    def setup(self, ctx):
        ServerPart.setup(self, ctx)
        self.s.ctl.set(jitter=[50, 100, 200, 30, 0][ctx.shard % 5])

    def generate(self, rng, ctx):
        n = rng.choice([2, 3, 3, 4, 4, 5, 6])
        nk = rng.choice([1, 1, 1, 2, 3])
        kinds = [rng.choice(["num", "num", "str", "str", "big", "any"]) for _ in range(nk)]
        locks = rng.random() < .3
        quiet = rng.choice([0, .1, .5])
        casp = rng.choice([0, 0, .15, .5])
        style = rng.choice([None, None, "rmw", "create", "one"])
        uid = 0
        init = []
        for kd in kinds:
            if rng.random() < .3 or style == "create" and rng.random() < .7:
                init.append(None)
            elif kd == "num":
                init.append(["l", str(rng.choice([0, 5, 99, 1000, M64 - 3]))])
            elif kd == "big":
                init.append(["b", rng.choice([3000, 4090, 4097, 9000]), "i"])
            else:
                init.append(["l", rng.choice(["abc", "7", "x" * 50])])
        conns = []
        blind = 0
        per = {2: 12, 3: 9, 4: 7, 5: 5, 6: 5}[n]
        only = rng.choice(["incr", "append", "prepend", "set", "add", "cas", "incr"])
        for ci in range(n):
            ops = []
            for j in range(rng.randint(3, per)):
                k = rng.randrange(nk)
                kd = kinds[k]
                if kd == "any":
                    kd = rng.choice(["num", "str"])
                p = rng.choice("tb")
                w = {"num": ["incr"] * 4 + ["decr"] * 2 + ["set", "get", "gets", "delete", "add",
                                                          "cas", "append", "replace", "touch"],
                     "str": ["append"] * 3 + ["prepend"] * 2 + ["set", "set", "add", "replace",
                                                              "delete", "get", "gets", "cas",
                                                              "touch", "incr", "GaT"],
                     "big": ["append", "prepend", "set", "set", "add", "replace", "delete", "get",
                             "gets", "cas", "get", "gets"]}[kd]
                if style == "rmw":
                    w = ["incr", "append", "prepend", "decr", "gets", "cas"]
                elif style == "create":
                    w = ["add", "add", "delete", "delete", "get", "set", "incr"]
                elif style == "one":
                    w = [only] * 4 + ["gets"]
                if locks:
                    w = w + ["lock", "unlock", "LaG", "RaU", "lock", "unlock", "unlock_all"]
                o = rng.choice(w)
                if o in ("LaG", "RaU", "GaT"):
                    p = "b"
                uid += 1
                d = {"p": p, "o": o, "k": k, "ph": 0}
                q = rng.random() < quiet
                if q and o not in ("touch",) and not (p == "t" and o in (
                        "get", "gets", "lock", "unlock", "unlock_all")):
                    if o in ("set", "append", "prepend", "add", "replace", "incr", "decr", "cas",
                             "delete", "RaU"):
                        if blind < 6:
                            blind += 1
                            d["q"] = 1
                    else:
                        d["q"] = 1
                if o in ("incr", "decr"):
                    d["n"] = rng.choice([1, 1, 2, 7, 10 ** 6])
                    if p == "b" and rng.random() < .3:
                        d["init"] = rng.choice([0, 50])
                if o in ("set", "add", "replace", "cas", "append", "prepend", "RaU"):
                    if kd == "num":
                        d["v"] = ["l", str(uid if o not in ("append", "prepend") else uid % 10)]
                    elif kd == "big" and o not in ("append", "prepend"):
                        d["v"] = ["b", rng.choice([100, 4096, 4097, 5000, 8000]), str(uid)]
                    elif kd == "big":
                        d["v"] = ["b", rng.choice([3, 3, 2000]), str(uid)]
                    else:
                        d["v"] = ["l", "%d." % uid]
                    d["f"] = rng.choice([0, 0, uid])
                if p == "b" and o not in ("get", "gets", "GaT", "touch", "cas", "add", "LaG",
                                          "lock", "unlock", "unlock_all") and \
                        rng.random() < casp:
                    d["cas"] = 1
                ops.append(d)
            ph = rng.choice([1, 1, 1, 2, 3])
            for d in ops:
                d["ph"] = rng.randrange(ph)
            ops.sort(key=lambda d: d["ph"])
            conns.append({"ops": ops})
        return {"kinds": kinds, "init": init, "conns": conns, "noise": rng.randrange(4),
                "locks": int(locks), "delay": rng.choice([0, 0, 0, 1, 3])}

    def run(self, ctx, case):
        s = self.s
        nk = len(case["kinds"])
        pre = b"%d." % ctx.counter
        keys = [pre + b"k%d" % i for i in range(nk)]
        x = self.conn("x")
        base, init = [], []
        for k, spec in zip(keys, case["init"]):
            if spec is None:
                base.append(0)
                init.append((None, 0, None, -1))
            else:
                r = x.call("Set", k, struct.pack(">II", 3, 0), val(spec))
                if r.status:
                    raise Violation("set -> %r" % r)
                base.append(r.cas)
                init.append((val(spec), 3, r.cas, -1))
        rd = Round(s, keys, base)
        n = len(case["conns"])
        cs = [self.conn(i) for i in range(n)]
        nz = self.conn("noise")
        rr = random.Random(ctx.counter)
        hist = [[[] for _ in range(n)] for _ in range(nk)]
        for ph in range(3):
            s.ctl.set(now=s.now + 2)
            jobs = []
            for i, c in enumerate(case["conns"]):
                ops = [o for o in c["ops"] if o["ph"] == ph]
                if ops:
                    jobs.append((i, ops, b"".join(rd.encode(o, j + 1) for j, o in enumerate(ops)) +
                                 bframe(OP["Noop"], opaque=0x7ffffff0)))
            if not jobs:
                continue
            rr.shuffle(jobs)
            if case["noise"]:
                w = []
                for j in range(case["noise"] * 4):
                    k = pre + b"n%d" % rr.randrange(4)
                    w.append(rr.choice([b"set %s 0 0 3 noreply\r\nabc\r\n" % k,
                                        b"set %s 0 1 3 noreply\r\nabc\r\n" % k,
                                        b"delete %s noreply\r\n" % k,
                                        b"set %s 0 1 5000 noreply\r\n%s\r\n" % (k, b"x" * 5000)]))
                nz.send(b"".join(w) + bframe(OP["Noop"], opaque=7))
            for i, ops, w in jobs:
                if case["delay"] and len(w) > 50:
                    cut = rr.randrange(1, len(w))
                    cs[i].send(w[:cut])
                    jobs2 = w[cut:]
                    cs[i].send(jobs2)
                else:
                    cs[i].send(w)
            if case["noise"]:
                s.ctl.set(now=s.now + 2)
            for i, ops, w in jobs:
                rs = rd.collect(cs[i], ops, 0x7ffffff0)
                for o, r in zip(ops, rs):
                    e = (ph, rd.executed(o, r))
                    if o["o"] == "unlock_all":
                        for h in hist:
                            h[i].append(e)
                    else:
                        hist[o["k"]][i].append(e)
            if case["noise"]:
                q = nz.next()
                if isinstance(q, (bytes, tuple)) or q.opaque != 7:
                    raise Violation("reply to noreply commands: %s" % short(q))
        final = []
        for k in keys:
            r = x.call("GetK", k)
            if r.status == NOT_FOUND:
                final.append(None)
            elif r.status:
                raise Violation("final get -> %r" % r)
            else:
                final.append((r.data, struct.unpack(">I", r.extras)[0], r.cas))
        if case["locks"]:
            for c in cs:
                c.call("UnlockAll")
        decided, shared = True, False
        for i in range(nk):
            self.unique(keys[i], init[i], hist[i], final[i])
            for ph in range(3):
                w = [c for c in range(n)
                     if any(p == ph and o[0] in MOD and o[6][0] in ("ok", "-", "?")
                            for p, o in hist[i][c])]
                shared = shared or len(w) >= 2
            try:
                if not linearize(hist[i], init[i], final[i]):
                    raise Violation(
                        "no order of the commands explains the replies.\nkey %r initially %s\n%s\n"
                        "finally %s" % (keys[i], short(init[i]), "\n".join(
                            "connection %d: %s" % (c, "; ".join(
                                "[%d] %s" % (p, short(o)) for p, o in h))
                            for c, h in enumerate(hist[i]) if h), short(final[i])))
            except Undecided:
                decided = False
        for k in keys:
            x.batch(b"delete %s noreply\r\n" % k)
        s.check_alive()
        return decided and shared, ["decided" if decided else "undecided",
                                    "locks" if case["locks"] else "nolocks"] + \
            sorted(set(case["kinds"]))

    def valid(self, case):
        return all(spec is None or len(spec) > 1 and spec[1] for spec in case["init"]) and \
            all(o.get("v") is None or o["v"][1] for c in case["conns"] for o in c["ops"])

    def conn(self, i):
        if i not in self.conns:
            self.conns[i] = Mixed(self.s, self.s.port)
        return self.conns[i]

    def unique(self, key, init, hist, final):
        """CAS values: one per modification, one content each."""
        made = {init[2]: "initial"} if init[2] else {}
        content = {init[2]: init[:2]} if init[2] else {}
        reads = [final + ()] if final else []
        for h in hist:
            for _, o in h:
                rep = o[6]
                if o[0] in MOD and rep[0] == "ok" and rep[1] is not None:
                    if rep[1] == 0 or rep[1] in made:
                        raise Violation("key %r: CAS value %d given to two modifications (%s, %s)" %
                                        (key, rep[1], short(o), short(made.get(rep[1]))))
                    made[rep[1]] = o
                elif rep[0] == "val" and rep[3] is not None:
                    reads.append(rep[1:])
        for v, f, c in reads:
            if content.setdefault(c, (v, f)) != (v, f):
                raise Violation("key %r: CAS value %d read with two contents %s %s" %
                                (key, c, short(content[c]), short((v, f))))


def whole(i, j, n):
    """A value that shows who wrote it and whether it is complete."""
    h = b"%d,%d,%d;" % (i, j, n)
    return h + bytes([97 + (i * 7 + j) % 26]) * max(0, n - len(h))


class Burst(ServerPart):
    name = "burst"
    racy = True
    examples = {"quick": 500, "thorough": 16000}
    cap = {"quick": 12, "thorough": 600}

    config = Linear.config
    server_args = Linear.server_args
    setup = Linear.setup
    conn = Linear.conn

    def generate(self, rng, ctx):
        n = rng.randint(3, 8)
        return {"kind": rng.choice(["sum", "sum", "tok", "tok", "add", "cas", "whole", "fresh"]),
                "n": n, "len": rng.choice([10, 60, 200, 200]), "seed": rng.randrange(1 << 30),
                "quiet": rng.choice([0, 0, .3, 1]), "nk": rng.choice([1, 1, 2, 8]),
                "big": rng.choice([0, 0, 1]), "flood": rng.random() < .3}

    def run(self, ctx, case):
        s, n, nk = self.s, case["n"], case["nk"]
        r = random.Random(case["seed"])
        pre = b"%d." % ctx.counter
        keys = [pre + b"b%d" % i for i in range(nk)]
        cs = [self.conn(i) for i in range(n)]
        x = self.conn("x")
        s.ctl.set(now=s.now + 2)
        f = getattr(self, "do_" + case["kind"])
        mixed = f(case, r, keys, cs, x)
        x.batch(b"".join(b"delete %s noreply\r\n" % k for k in keys))
        s.check_alive()
        return mixed, [case["kind"]]

    def exchange(self, cs, work, flood):
        """work: per connection [(payload, reply expected?)] -> per connection replies"""
        end = bframe(OP["Noop"], opaque=0x7ffffff1)
        for c, w in zip(cs, work):
            c.send(b"".join(p for p, _ in w) + (end if not flood else b""))
        self.s.ctl.set(now=self.s.now + 2)
        if flood:
            for c in cs:
                c.send(end)
        out = []
        for c, w in zip(cs, work):
            rs = []
            while True:
                q = c.next()
                if not isinstance(q, (bytes, tuple)) and q.opaque == 0x7ffffff1:
                    break
                rs.append(q)
            out.append(rs)
        return out

    def count(self, rs, work):
        for a, w in zip(rs, work):
            if len(a) != sum(e for _, e in w):
                raise Violation("%d replies, expected %d" % (len(a), sum(e for _, e in w)))

    def do_sum(self, case, r, keys, cs, x):
        start = 1 << 40
        for k in keys:
            if x.call("Set", k, struct.pack(">II", 9, 0), b"%d" % start).status:
                raise Violation("set failed")
        ones = r.random() < .4
        total = dict.fromkeys(keys, 0)
        work, want = [], []
        for c in cs:
            w, e = [], []
            for _ in range(case["len"]):
                k = r.choice(keys)
                d = 1 if ones else r.choice([1, 1, -1, 5, -3, 1000])
                q = r.random() < case["quiet"]
                total[k] += d
                if r.random() < .5:
                    w.append((b"%s %s %d%s\r\n" % (b"incr" if d > 0 else b"decr", k, abs(d),
                                                   b" noreply" if q else b""), not q))
                else:
                    w.append((bframe(OP[("Increment" if d > 0 else "Decrement") +
                                        ("Q" if q else "")], k,
                                     struct.pack(">QQI", abs(d), 0, NONE32), b"", 5), not q))
                if not q:
                    e.append(k)
            work.append(w)
            want.append(e)
        rs = self.exchange(cs, work, case["flood"])
        self.count(rs, work)
        got = {k: [] for k in keys}
        for a, e in zip(rs, want):
            lastv = {}
            for q, k in zip(a, e):
                if isinstance(q, bytes) and q.isdigit():
                    v = int(q)
                elif not isinstance(q, (bytes, tuple)) and q.status == 0 and len(q.data) == 8:
                    v = struct.unpack(">Q", q.data)[0]
                elif not isinstance(q, (bytes, tuple)) and q.status == 0 and len(q.extras) == 8:
                    v = struct.unpack(">Q", q.extras)[0]
                else:
                    raise Violation("incr -> %s" % short(q))
                if ones and lastv.get(k, 0) >= v:
                    raise Violation("results of increments on one connection: %d then %d" %
                                    (lastv[k], v))
                lastv[k] = v
                got[k].append(v)
        if ones:
            for k in keys:
                if len(set(got[k])) != len(got[k]):
                    raise Violation("two increments by one gave the same result")
                if case["quiet"] == 0 and sorted(got[k]) != \
                        list(range(start + 1, start + 1 + len(got[k]))):
                    raise Violation("results of increments are not consecutive")
        for k in keys:
            q = x.call("Get", k)
            if q.status or q.data != b"%d" % (start + total[k]) or q.extras != b"\0\0\0\x09":
                raise Violation("after increments and decrements %r is %r, expected %d" %
                                (k, q, start + total[k]))
        return len(cs) > 1

    def do_tok(self, case, r, keys, cs, x):
        mid = b"|" * (6000 if case["big"] else 3)
        for k in keys:
            if x.call("Set", k, struct.pack(">II", 9, 0), mid).status:
                raise Violation("set failed")
        work, left, right = [], {}, {}
        for i, c in enumerate(cs):
            w = []
            for j in range(min(case["len"], 30 if case["big"] else 100)):
                k = r.choice(keys)
                q = r.random() < case["quiet"]
                t = b"<%d.%d>" % (i, j)
                o = r.choice(["append", "append", "prepend"])
                (right if o == "append" else left).setdefault((k, i), []).append(t)
                if r.random() < .5:
                    w.append((b"%s %s 0 0 %d%s\r\n%s\r\n" % (
                        o.encode(), k, len(t), b" noreply" if q else b"", t), not q))
                else:
                    w.append((bframe(OP[o.capitalize() + ("Q" if q else "")], k, b"", t, 5),
                              not q))
            work.append(w)
        rs = self.exchange(cs, work, case["flood"])
        self.count(rs, work)
        for a in rs:
            for q in a:
                if q != b"STORED" and (isinstance(q, (bytes, tuple)) or q.status):
                    raise Violation("append -> %s" % short(q))
        mixed = False
        for k in keys:
            q = x.call("Get", k)
            if q.status or q.data.count(mid) != 1:
                raise Violation("after appends: %s" % short(q))
            a, b = q.data.split(mid)
            for part, want, rev in ((a, left, True), (b, right, False)):
                ts = [t + b">" for t in part.split(b">") if t]
                if rev:
                    ts.reverse()
                by = {}
                for t in ts:
                    by.setdefault((k, int(t[1:].split(b".")[0])), []).append(t)
                w = {kk: v for kk, v in want.items() if kk[0] == k}
                if by != w:
                    bad = [i for i in set(by) | set(w) if by.get(i) != w.get(i)][0]
                    raise Violation("tokens of connection %d: found %s, sent %s" % (
                        bad[1], short(by.get(bad)), short(w.get(bad))))
                owners = [t[1:].split(b".")[0] for t in ts]
                mixed = mixed or sum(1 for p, q2 in zip(owners, owners[1:]) if p != q2) > len(w)
        return mixed

    def race(self, case, r, cs, x, mk, winners):
        """Every connection sends mk(i, key) for many keys at once."""
        nk = min(case["len"], 80)
        pre = b"%d.%d.r" % (case["seed"] & 0xffff, r.randrange(1 << 30))
        keys = [pre + b"%d" % j for j in range(nk)]
        arg = mk(None, keys)
        work, order = [], []
        for i, c in enumerate(cs):
            ks = list(keys)
            if r.random() < .3:
                r.shuffle(ks)
            work.append([(arg(i, k), True) for k in ks])
            order.append(ks)
        rs = self.exchange(cs, work, case["flood"])
        self.count(rs, work)
        won = {k: [] for k in keys}
        for i, (a, ks) in enumerate(zip(rs, order)):
            for q, k in zip(a, ks):
                if winners(q):
                    won[k].append(i)
        for k in keys:
            if len(won[k]) != 1:
                raise Violation("%s: %r was won by connections %r" % (case["kind"], k, won[k]))
        return keys, won

    @staticmethod
    def okreply(good, bad):
        def f(q):
            if isinstance(q, bytes):
                if q in good:
                    return True
                if q in bad:
                    return False
            elif not isinstance(q, tuple):
                if q.status == 0:
                    return True
                if q.status in bad:
                    return False
            raise Violation("unexpected reply %s" % short(q))
        return f

    def do_add(self, case, r, keys, cs, x):
        def mk(_, ks):
            def arg(i, k):
                if i % 2:
                    v = whole(i, 0, 5000 if case["big"] else 20)
                    return b"add %s 0 0 %d\r\n%s\r\n" % (k, len(v), v)
                return bframe(OP["Add"], k, bytes(8), whole(i, 0, 5000 if case["big"] else 20), 5)
            return arg
        ks, won = self.race(case, r, cs, x, mk, self.okreply((b"STORED",),
                                                            (b"NOT_STORED", EXISTS)))
        for k in ks:
            q = x.call("Get", k)
            w = won[k][0]
            if q.status or q.data != whole(w, 0, 5000 if case["big"] else 20):
                raise Violation("connection %d won add of %r, but it holds %s" %
                                (w, k, short(q)))

        def mk2(_, unused):
            def arg(i, k):
                return b"delete %s\r\n" % k if i % 2 else bframe(OP["Delete"], k, opaque=5)
            return arg
        # then everybody deletes
        work = [[(mk2(None, None)(i, k), True) for k in ks] for i in range(len(cs))]
        rs = self.exchange(cs, work, case["flood"])
        self.count(rs, work)
        ok = self.okreply((b"DELETED",), (b"NOT_FOUND", NOT_FOUND))
        for j, k in enumerate(ks):
            w = [i for i in range(len(cs)) if ok(rs[i][j])]
            if len(w) != 1:
                raise Violation("delete of %r succeeded on connections %r" % (k, w))
        return len(set(w[0] for w in won.values())) > 1

    def do_cas(self, case, r, keys, cs, x):
        def mk(_, ks):
            base = {}
            for k in ks:
                q = x.call("Set", k, bytes(8), b"start")
                if q.status:
                    raise Violation("set -> %r" % q)
                base[k] = q.cas
            style = r.randrange(3)

            def arg(i, k):
                v = whole(i, 0, 5000 if case["big"] else 20)
                if style == 0 or style == 2 and i % 2:
                    return b"cas %s 0 0 %d %d\r\n%s\r\n" % (k, len(v), base[k], v)
                return bframe(OP["Replace" if i % 3 else "Set"], k, bytes(8), v, 5, base[k])
            return arg
        ks, won = self.race(case, r, cs, x, mk, self.okreply((b"STORED",), (b"EXISTS", EXISTS)))
        for k in ks:
            q = x.call("Get", k)
            w = won[k][0]
            if q.status or q.data != whole(w, 0, 5000 if case["big"] else 20):
                raise Violation("connection %d won cas of %r, but it holds %s" %
                                (w, k, short(q)))
        x.batch(b"".join(b"delete %s noreply\r\n" % k for k in ks))
        return len(set(w[0] for w in won.values())) > 1

    def do_fresh(self, case, r, keys, cs, x):
        """Counters created by whoever comes first."""
        nk = min(case["len"], 100)
        ks = [keys[0] + b".%d" % j for j in range(nk)]
        init = {k: r.choice([0, 7, 100, 12345, 10 ** 9, 1 << 45]) + j for j, k in enumerate(ks)}

        def one(k):
            return bframe(OP["Increment"], k, struct.pack(">QQI", 1, init[k], 0), b"", 5)
        per = r.choice([1, 1, 2, 5])
        work, order = [], []
        for c in cs:
            o = [k for k in ks for _ in range(per)]
            if r.random() < .5:
                r.shuffle(o)
            order.append(o)
            work.append([(one(k), True) for k in o])
        rs = self.exchange(cs, work, case["flood"])
        self.count(rs, work)
        vals = {k: [] for k in ks}
        for a, o in zip(rs, order):
            for q, k in zip(a, o):
                if isinstance(q, (bytes, tuple)) or q.status:
                    raise Violation("Increment -> %s" % short(q))
                vals[k].append(struct.unpack(">Q", (q.data or q.extras))[0])
        for k in ks:
            if sorted(vals[k]) != list(range(init[k], init[k] + per * len(cs))):
                raise Violation("increments of a fresh counter (from %d) gave %s" %
                                (init[k], short(sorted(vals[k]))))
            q = x.call("Get", k)
            if q.status or q.data != b"%d" % (init[k] + per * len(cs) - 1):
                raise Violation("fresh counter holds %s, expected %d" %
                                (short(q), init[k] + per * len(cs) - 1))
        x.batch(b"".join(b"delete %s noreply\r\n" % k for k in ks))
        return True

    def do_whole(self, case, r, keys, cs, x):
        sizes = [20, 300, 4096, 4097, 9000] if case["big"] else [20, 100, 1000]
        work, want = [], []
        written = {k: set() for k in keys}
        for k in keys:
            v = whole(99, 0, 50)
            written[k].add((v, 99))
            if x.call("Set", k, struct.pack(">II", 99, 0), v).status:
                raise Violation("set failed")
        for i, c in enumerate(cs):
            w, e = [], []
            for j in range(min(case["len"], 60)):
                k = r.choice(keys)
                if r.random() < .5:
                    v = whole(i, j, r.choice(sizes))
                    written[k].add((v, i * 1000 + j))
                    if r.random() < .5:
                        w.append((b"set %s %d 0 %d noreply\r\n%s\r\n" % (
                            k, i * 1000 + j, len(v), v), False))
                    else:
                        w.append((bframe(OP[r.choice(["SetQ", "ReplaceQ"])], k,
                                         struct.pack(">II", i * 1000 + j, 0), v, 5), False))
                else:
                    w.append((bframe(OP["GetK"], k, opaque=5), True))
                    e.append(k)
            work.append(w)
            want.append(e)
        rs = self.exchange(cs, work, case["flood"])
        self.count(rs, work)
        seen = set()
        for a, e in zip(rs, want):
            for q, k in zip(a, e):
                if isinstance(q, (bytes, tuple)) or q.status or q.key != k:
                    raise Violation("GetK of %r -> %s" % (k, short(q)))
                t = (q.data, struct.unpack(">I", q.extras)[0])
                if t not in written[k]:
                    raise Violation("read a value nobody wrote: %s flags %d" % (short(q.data), t[1]))
                seen.add(t[1] // 1000)
        return len(seen) > 1


PARTS = [Linear(), Burst()]
TECHNIQUE = ("randomized concurrent histories with schedule perturbation, decided by a search for a "
             "linearization per key, and invariants over bursts; shrinking")
