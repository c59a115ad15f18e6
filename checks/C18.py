"""C18: size limits."""
import struct, time
import gen
from model import Engine, value, is_num
from parts import ServerPart
from yr import (OP, OK, NOT_FOUND, EXISTS, TOO_LARGE, INVALID, NOT_STORED, LOCKED, Violation,
                bframe, Binary)
from model import Mixed

PROPERTY = "C18"
RULE = ("(keys) every key-carrying command of both protocols with keys of lengths around 250 (1, "
        "2, 249..252, 300, 1000, 65535) in sequences on a reference store.  (values) storage "
        "commands with data around max_data_size (512 .. 4 MiB configured) and appends/prepends; "
        "a refused value leaves the old object with its flags, deadline and CAS value.  (huge) "
        "requests of 30 MiB and more in pieces: the connection ends, its locks become free, other "
        "connections and objects are untouched; appends past 30 MiB are refused.  Non-trivial: "
        "(keys) an over-long and a 250-byte key were used; (values) a value was refused and one of "
        "exactly the limit accepted; (huge) a connection was ended for its request's size or an "
        "append refused at the hard limit")
ASSUME = ["memory of the sandbox allows several 30 MiB buffers"]

KL = [1, 2, 100, 248, 249, 250, 250, 250, 251, 251, 252, 300, 1000, 65535]
TC = ["set", "add", "replace", "append", "prepend", "cas", "get", "gets", "delete", "incr", "decr",
      "touch", "lock", "unlock"]
BC = ["Get", "GetQ", "GetK", "GetKQ", "Set", "SetQ", "Add", "Replace", "Delete", "DeleteQ",
      "Increment", "Decrement", "Append", "Prepend", "Touch", "GaT", "GaTQ", "GaTK", "GaTKQ",
      "Lock", "Unlock", "LaG", "LaGQ", "LaGK", "RaU"]


class Keys(ServerPart):
    name = "keys"
    examples = {"quick": 500, "thorough": 9000}
    cap = {"quick": 25, "thorough": 400}

    def config(self, ctx):
        return {"buckets": [1, 101][ctx.shard % 2]}

    def generate(self, rng, ctx):
        return {"ops": [{"p": rng.choice("tb"), "i": rng.randrange(64), "n": rng.choice(KL),
                         "x": rng.randrange(3), "q": int(rng.random() < .15)}
                        for _ in range(rng.randint(10, 40))]}

    def key(self, ctx, n, x):
        p = b"%d.%d." % (ctx.counter, x)
        return (p + b"k" * n)[:n] if n > len(p) else p

    def run(self, ctx, case):
        s = self.s
        c = self.conns.get(0)
        if c is None:
            c = self.conns[0] = Mixed(s, s.port)
        st = {}                        # key -> value
        seen = set()

        def ask(w):
            Binary.seq = (Binary.seq + 1) & 0xffff
            mark = 0xfe000000 | Binary.seq
            c.send(w + bframe(OP["Noop"], opaque=mark))
            out = []
            while True:
                r = c.next()
                if not isinstance(r, (bytes, tuple)) and r.opaque == mark:
                    return out
                out.append(r)

        for op in case["ops"]:
            k = self.key(ctx, op["n"], op["x"])
            long = len(k) > 250
            seen.add("long" if long else "max" if len(k) == 250 else "short")
            if op["p"] == "t":
                o = TC[op["i"] % len(TC)]
                nr = b" noreply" if op["q"] and o not in ("get", "gets", "lock", "unlock") else b""
                if o in ("set", "add", "replace", "append", "prepend", "cas"):
                    w = b"%s %s 0 0 1%s%s\r\n7\r\n" % (o.encode(), k, b" 123456789" if o == "cas"
                                                       else b"", nr)
                elif o in ("incr", "decr", "touch"):
                    w = b"%s %s 1%s\r\n" % (o.encode(), k, nr)
                    if o == "touch":
                        w = b"touch %s 0%s\r\n" % (k, nr)
                else:
                    w = o.encode() + b" " + k + nr + b"\r\n"
                rs = ask(w)
                have = st.get(k)
                if long:
                    # rejected: an error or a negative reply, never a success
                    if len(rs) > 1 or not (rs or nr):
                        raise Violation("%s with a key of %d bytes -> %r" % (o, len(k), rs))
                    ok = {"get": [b"END"], "gets": [b"END"]}.get(o)
                    if rs and ok is None and not (
                            rs[0] in (b"ERROR", b"NOT_FOUND", b"NOT_STORED") or
                            (isinstance(rs[0], bytes) and rs[0].startswith((b"CLIENT_ERROR",
                                                                            b"SERVER_ERROR")))):
                        raise Violation("%s with a key of %d bytes -> %r" % (o, len(k), rs))
                    if rs and ok is not None and rs[0] != b"END" and not (
                            isinstance(rs[0], bytes) and b"ERROR" in rs[0]):
                        raise Violation("%s with a key of %d bytes -> %r" % (o, len(k), rs))
                    continue
                exp = None
                if o == "set" or (o == "add" and have is None) or \
                        (o == "replace" and have is not None):
                    st[k] = b"7"
                    exp = b"STORED"
                elif o in ("append", "prepend") and have is not None:
                    st[k] = have + b"7" if o == "append" else b"7" + have
                    exp = b"STORED"
                elif o in ("add", "replace", "append", "prepend"):
                    exp = b"NOT_STORED"
                elif o == "cas":
                    exp = b"EXISTS" if have is not None else b"NOT_FOUND"
                elif o in ("incr", "decr"):
                    exp = b"NOT_FOUND"
                    if have is not None:
                        n = is_num(have)
                        if n is None:
                            exp = rs[0] if rs and b"ERROR" in rs[0] else b"error"
                        else:
                            n = (n + 1) % (1 << 64) if o == "incr" else max(0, n - 1)
                            st[k] = b"%d" % n
                            exp = st[k]
                elif o == "touch":
                    exp = b"TOUCHED" if have is not None else b"NOT_FOUND"
                elif o == "delete":
                    exp = b"DELETED" if have is not None else b"NOT_FOUND"
                    st.pop(k, None)
                elif o in ("get", "gets"):
                    v = [(r[1], r[3]) for r in rs if isinstance(r, tuple)]
                    if v != ([(k, have)] if have is not None else []) or rs[-1:] != [b"END"]:
                        raise Violation("%s of a key of %d bytes -> %r, expected %r" %
                                        (o, len(k), rs, have))
                    continue
                elif o == "lock":
                    exp = b"OK" if have is not None else b"NOT_FOUND"
                    if ask(b"unlock_all\r\n") != [b"OK"]:
                        raise Violation("unlock_all")
                elif o == "unlock":
                    if len(rs) != 1 or not rs[0].startswith(b"CLIENT_ERROR"):
                        raise Violation("unlock -> %r" % rs)
                    continue
                if rs != ([] if nr else [exp]):
                    raise Violation("%s with a key of %d bytes -> %r, expected %r" %
                                    (o, len(k), rs, exp))
                continue
            o = BC[op["i"] % len(BC)]
            base = o[:-1] if o.endswith("Q") else o
            ext, data = b"", b""
            if base in ("Set", "Add", "Replace", "RaU"):
                ext, data = b"\0" * 8, b"7"
            elif base in ("Append", "Prepend"):
                data = b"7"
            elif base in ("Increment", "Decrement"):
                ext = struct.pack(">QQI", 1, 0, 0xffffffff)
            elif base in ("Touch", "GaT", "GaTK"):
                ext = b"\0" * 4
            rs = ask(bframe(OP[o], k, ext, data, 0x51))
            if long:
                if len(rs) != 1 or rs[0].status not in (INVALID, TOO_LARGE) or \
                        rs[0].op != OP[o] or rs[0].opaque != 0x51:
                    raise Violation("%s with a key of %d bytes -> %r" % (o, len(k), rs))
                continue
            have = st.get(k)
            sts = OK
            if base in ("Set",) or (base == "Add" and have is None) or \
                    (base == "Replace" and have is not None):
                st[k] = b"7"
            elif base == "Add":
                sts = EXISTS
            elif have is None and base != "Increment" and base != "Decrement":
                sts = NOT_FOUND
            elif base in ("Append", "Prepend"):
                st[k] = have + b"7" if base == "Append" else b"7" + have
            elif base in ("Increment", "Decrement"):
                if have is None:
                    sts = NOT_FOUND
                else:
                    n = is_num(have)
                    if n is None:
                        sts = 6
                    else:
                        n = (n + 1) % (1 << 64) if base == "Increment" else max(0, n - 1)
                        st[k] = b"%d" % n
            elif base == "Delete":
                st.pop(k)
            elif base in ("Unlock", "RaU"):
                sts = 0x11
            if base in ("Lock", "LaG", "LaGK") and have is not None:
                if ask(b"unlock_all\r\n") != [b"OK"]:
                    raise Violation("unlock_all")
            if o in ("SetQ",) or (o in ("GetQ", "GetKQ", "GaTQ", "GaTKQ", "DeleteQ") and
                                  have is None) or o == "DeleteQ":
                if rs:
                    raise Violation("%s -> %r" % (o, rs))
                continue
            if len(rs) != 1 or rs[0].status != sts:
                raise Violation("%s with a key of %d bytes -> %r, expected status %#x" %
                                (o, len(k), rs, sts))
            if sts == OK and base in ("Get", "GetK", "GaT", "GaTK", "LaG", "LaGK"):
                if rs[0].data != have or (base.endswith("K") and rs[0].key != k):
                    raise Violation("%s -> %r, expected %r" % (o, rs, have))
        ask(b"".join(bframe(OP["DeleteQ"], k) for k in st))
        s.check_alive()
        return {"long", "max"} <= seen, sorted(seen)


class Values(ServerPart):
    name = "values"
    examples = {"quick": 220, "thorough": 5000}
    cap = {"quick": 30, "thorough": 500}
    LIMITS = ["1K", "4K", "5000", "64K", "512", "1M", "100K", "4M"]

    def limit(self, ctx):
        v = self.LIMITS[ctx.shard % 8]
        m = {"K": 1 << 10, "M": 1 << 20}.get(v[-1])
        return int(v[:-1]) * m if m else int(v)

    def config(self, ctx):
        return {"max_data_size": self.LIMITS[ctx.shard % 8], "heap_data_limit":
                [4096, "256K"][ctx.shard // 4 % 2]}

    def generate(self, rng, ctx):
        lim = self.limit(ctx)
        ops = []
        for _ in range(rng.randint(6, 24)):
            p = rng.choice("tb")
            o = rng.choice(["set", "add", "replace", "cas", "append", "prepend"] if p == "t" else
                           ["Set", "SetQ", "Add", "AddQ", "Replace", "ReplaceQ", "RaU", "Append",
                            "Prepend"])
            n = rng.choice([1, 10, lim - 1, lim, lim, lim + 1, lim + 1, lim + 2, 2 * lim,
                            lim + 24, lim + 8])
            if o.lower() in ("append", "prepend"):
                n = rng.choice([1, 10, 100, lim + 1])
            ops.append({"p": p, "o": o, "c": 0, "k": rng.randrange(3), "v": ["c", n, rng.randrange(9)],
                        "f": rng.randrange(1 << 32), "e": rng.choice([0, 0, 100]), "cas":
                        rng.choice([0, "cur"]), "j": int(rng.random() < .5),
                        "q": int(rng.random() < .15), "lock": int(rng.random() < .3)})
        return {"ops": ops}

    def run(self, ctx, case):
        lim = self.limit(ctx)
        part = self

        class E(Engine):
            def text_step(self, op):
                before = self.snap(op)
                w, e = super().text_step(op)
                return self.cut(op, w, e, before)

            def bin_step(self, op):
                before = self.snap(op)
                w, e = super().bin_step(op)
                return self.cut(op, w, e, before)

            def snap(self, op):
                k = self.key(op["k"]) if "k" in op else None
                it = self.m.items.get(k)
                return k, it, (it.v, it.f, it.e, it.owner, it.ver) if it else None, \
                    {c: set(x) for c, x in self.m.locks.items()}, list(self.m.old.get(k, []))

            def cut(self, op, w, e, before):
                """Values above the limit: refused, nothing changes."""
                o = op["o"].lower().rstrip("q")
                if o not in ("set", "add", "replace", "cas", "rau"):
                    return w, e
                n = len(value(op["v"]))
                if n == lim:
                    self.note("exact")
                if n <= lim:
                    return w, e
                k, it, v, locks, old = before
                if it is None:
                    self.m.items.pop(k, None)
                else:
                    it.v, it.f, it.e, it.owner, it.ver = v
                    self.m.items[k] = it
                self.m.locks = locks
                self.m.old[k] = old
                self.note("too_large")
                if op["p"] == "t":
                    return w, [("OPT", ("TE",)) if op.get("q") else ("TE",)]
                x = e[0][2] if e else self.opq | (op.get("oq", 0) & 0xfd) << 24
                return w, [("B", OP[op["o"]], x, TOO_LARGE, None, b"", b"", None)]

        e = E(self.s, prefix=b"%d." % ctx.counter)
        e.conns = self.conns
        ops = []
        for o in case["ops"]:
            if o["o"] == "RaU" and o["lock"]:
                ops.append({"p": "b", "o": "Lock", "c": 0, "k": o["k"], "j": 0})
            ops.append(o)
        e.run(ops)
        e.verify()
        e.finish()
        self.s.check_alive()
        return bool(e.stat.get("too_large") and e.stat.get("exact")), sorted(e.stat)


HARD = 30 << 20


class Huge(ServerPart):
    name = "huge"
    examples = {"quick": 6, "thorough": 120}
    cap = {"quick": 50, "thorough": 600}

    def config(self, ctx):
        return {"max_data_size": "29M", "memory_limit": "4G",
                "heap_data_limit": ["256K", "64M"][ctx.shard % 2]}

    def generate(self, rng, ctx):
        if rng.random() < .5:
            return {"t": "append", "first": rng.choice([29 << 20, (29 << 20) - 5, 20 << 20]),
                    "p": rng.choice("tb"), "pre": int(rng.random() < .5),
                    "over": rng.choice([1, 1, 2, 1000]), "step": rng.choice([1 << 20, 700000])}
        return {"t": "request", "kind": rng.choice(["set", "Set", "line", "set30", "Append"]),
                "extra": rng.choice([3 << 20, (3 << 20) + 1, 5 << 20]),
                "lock": int(rng.random() < .8)}

    def valid(self, case):
        # more than one buffer above the limit: certainly too large
        return case["t"] != "request" or case["extra"] >= 3 << 20

    def run(self, ctx, case):
        s = self.s
        pre = b"%d." % ctx.counter
        x = s.binary()
        x.timeout = 60
        if x.call("Set", pre + b"o", b"\0" * 8, b"other").status != OK or \
                x.call("Lock", pre + b"o").status != OK:
            raise Violation("setup failed")
        k = pre + b"k"
        if case["t"] == "append":
            c = Mixed(s, s.port)
            c.timeout = 60
            n = case["first"]
            cur = b"a" * n
            if Binary.call(c, "Set", k, b"\0" * 8, cur).status != OK:
                raise Violation("storing %d bytes failed" % n)

            def add(d):
                if case["p"] == "b":
                    return Binary.call(c, "Prepend" if case["pre"] else "Append", k, b"", d).status
                c.send(b"%s %s 0 0 %d\r\n%s\r\n" % (b"prepend" if case["pre"] else b"append", k,
                                                    len(d), d))
                l = c.line()
                return OK if l == b"STORED\r\n" else l

            i = 0
            while n < HARD:
                m = min(case["step"], HARD - n)
                d = bytes([98 + i % 20]) * m
                i += 1
                r = add(d)
                if r != OK:
                    raise Violation("append of %d bytes to %d -> %r" % (m, n, r))
                n += m
                cur = d + cur if case["pre"] else cur + d
            r = add(b"z" * case["over"])
            if r == OK:
                raise Violation("an object was grown to %d bytes" % (n + case["over"]))
            g = Binary.call(c, "Get", k)
            if g.status != OK or g.data != cur:
                raise Violation("object of %d bytes changed by a refused append (now %d bytes)" %
                                (n, len(g.data)))
            c.close()
            note = "append_refused"
        else:
            c = Mixed(s, s.port)
            c.timeout = 60
            if Binary.call(c, "Set", k, b"\0" * 8, b"mine").status != OK:
                raise Violation("setup failed")
            if case["lock"] and Binary.call(c, "Lock", k).status != OK:
                raise Violation("setup lock failed")
            n = HARD + case["extra"]
            kind = case["kind"]
            head = {"set": b"set %sbig 0 0 %d\r\n" % (pre, n),
                    "set30": b"set %s 0 0 %d\r\n" % (k, n),
                    "Set": bframe(OP["Set"], pre + b"big", b"\0" * 8, b"")[:8] +
                    struct.pack(">I", 8 + len(pre) + 3 + n) + b"\0" * 12 + b"\0" * 8 + pre + b"big",
                    "Append": bframe(OP["Append"], k)[:8] + struct.pack(">I", len(k) + n) +
                    b"\0" * 12 + k,
                    "line": b"get "}[kind]
            blk = b"q" * (1 << 20)
            left = n + 200
            try:
                c.s.sendall(head)
                while left > 0:
                    c.s.sendall(blk[:left])
                    left -= len(blk)
            except OSError:
                pass
            rest = c.read_all_quiet()
            c.close()
            note = "connection_ended"
            r = x.call("Get", pre + b"big")
            if r.status != NOT_FOUND:
                raise Violation("an object of %d bytes was stored: %r" % (n, r.status))
            end = time.monotonic() + 15
            while True:
                r = x.call("Set", k, b"\0" * 8, b"after")
                if r.status == OK:
                    break
                if r.status != LOCKED:
                    raise Violation("Set -> %r" % r)
                if time.monotonic() > end:
                    raise Violation("lock outlived the connection ended for a too large request")
                time.sleep(.005)
        y = s.binary()
        r = y.call("Get", pre + b"o")
        if r.status != OK or r.data != b"other":
            raise Violation("another object was disturbed: %r" % r)
        if y.call("Set", pre + b"o", b"\0" * 8, b"x").status != LOCKED:
            raise Violation("another connection's lock was lost")
        y.close()
        x.batch(bframe(OP["DeleteQ"], k) + bframe(OP["DeleteQ"], pre + b"o"))
        x.close()
        s.check_alive()
        return True, [note]


PARTS = [Keys(), Values(), Huge()]
