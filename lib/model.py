"""Reference model of the memcache store, and an engine that runs generated
operation sequences over mixed text/binary connections and compares every
reply with the model.

An operation is a JSON-able dict:
  {"c": connection, "p": "t"|"b", "o": command, "k": key index, ...}
optional fields
  v: value spec ["l", latin1] | ["r", length, seed] | ["n", digits]
  f: flags, e: expiration as sent (int) or ["a", delta] (absolute, now+delta)
  q: noreply (text); binary quiet commands are named (SetQ)
  cas: 0 | "cur" | ["old", i] | "rnd";   n: amount, init: initial value
  j: 1 = pipeline with the previous operation if on the same connection
Control operations: {"o": "clock", "dt": n}, {"o": "gc"}, {"o": "close", "c": i,
"how": ...}, {"o": "flush", ...}.
"""
import random, struct, time

from yr import (OP, OPNAME, Violation, HarnessError, Binary, Text, Conn, bframe,
                OK, NOT_FOUND, EXISTS, TOO_LARGE, INVALID, NOT_STORED, NON_NUMERIC,
                LOCKED, NOT_LOCKED, UNKNOWN)

M64 = (1 << 64) - 1
NONE32 = 0xffffffff
THRESH = 60 * 60 * 24 * 30


def value(spec):
    k = spec[0]
    if k == "l":
        return spec[1].encode("latin-1")
    if k == "n":
        return spec[1].encode()
    if k == "r":
        return random.Random(spec[2] * 1000003 + spec[1]).randbytes(spec[1])
    if k == "c":                      # compressible filler
        return (bytes([33 + spec[2] % 90]) * spec[1])
    raise HarnessError("value spec %r" % (spec,))


def text_safe(k):
    return 0 < len(k) and all(b > 0x20 and b != 0x7f for b in k)


class Ver:
    """A CAS unique value, learned when first seen."""
    __slots__ = ("num", "key")

    def __init__(self, key):
        self.num = None
        self.key = key


class It:
    __slots__ = ("v", "f", "e", "owner", "ver")

    def __init__(self, v, f, e, owner, ver):
        self.v, self.f, self.e, self.owner, self.ver = v, f, e, owner, ver


class Mixed(Binary, Text):
    """Connection speaking both protocols."""

    def next(self):
        """Next reply item: Resp (binary) or a text item."""
        self.need(1)
        if self.buf[0] == 0x81:
            return self.resp()
        return self.item()


class Model:
    def __init__(self, now):
        self.now = now
        self.items = {}
        self.seen = {}       # key -> {num: Ver}: every CAS value ever seen
        self.old = {}        # key -> [Ver] superseded versions
        self.locks = {}      # conn id -> set of keys

    # -- basics ----------------------------------------------------------
    def dead(self, it):
        return it.owner is None and it.e != 0 and it.e <= self.now

    def live(self, k):
        it = self.items.get(k)
        if it is None or self.dead(it):
            return None
        return it

    def exp(self, e, binary=False):
        if isinstance(e, list):
            return self.now + e[1]
        if e == 0:
            return 0
        if e > THRESH:
            return e
        return self.now + e

    def newver(self, k):
        it = self.items.get(k)
        if it is not None and it.ver is not None:
            self.old.setdefault(k, []).append(it.ver)
        return Ver(k)

    def learn(self, ver, num, what):
        if num == 0:
            raise Violation("%s: CAS value 0" % (what,))
        if ver.num is None:
            s = self.seen.setdefault(ver.key, {})
            if num in s:
                raise Violation("%s: CAS value %d was used before for this key by "
                                "another version" % (what, num))
            s[num] = ver
            ver.num = num
        elif ver.num != num:
            raise Violation("%s: CAS value %d, expected %d (object not modified in "
                            "between)" % (what, num, ver.num))

    def store(self, k, v, f, e):
        ver = self.newver(k)
        it = self.items.get(k)
        owner = it.owner if it is not None else None
        self.items[k] = It(v, f, e, owner, ver)
        return ver

    def modify(self, k, v):
        ver = self.newver(k)
        it = self.items[k]
        it.v, it.ver = v, ver
        return ver

    def remove(self, k):
        it = self.items.pop(k)
        if it.ver is not None:
            self.old.setdefault(k, []).append(it.ver)
        if it.owner is not None:
            self.locks.get(it.owner, set()).discard(k)

    def lock(self, c, k):
        self.items[k].owner = c
        self.locks.setdefault(c, set()).add(k)

    def unlock(self, k):
        it = self.items[k]
        self.locks.get(it.owner, set()).discard(k)
        it.owner = None

    def unlock_all(self, c):
        ks = self.locks.pop(c, set())
        for k in ks:
            if k in self.items and self.items[k].owner == c:
                self.items[k].owner = None
        return ks

    def drop(self):
        """Forget dead objects (optional; semantically invisible)."""


def is_num(v):
    """The decimal number v begins with; None if there is none in range."""
    i = 0
    while i < len(v) and 48 <= v[i] <= 57:
        i += 1
    if i == 0:
        return None
    n = int(v[:i]) if i < 4000 else M64 + 1
    return n if n <= M64 else None


def ambiguous(v):
    """Outside the specified domain of incr/decr: leading white space or sign,
    or a large object that begins with a digit."""
    return v[:1] in (b" ", b"\t", b"\n", b"\v", b"\f", b"\r", b"+", b"-") or \
        (len(v) > 4000 and v[:1].isdigit())


GETS_B = {"Get", "GetQ", "GetK", "GetKQ", "GaT", "GaTQ", "GaTK", "GaTKQ",
          "LaG", "LaGQ", "LaGK", "LaGKQ"}
QUIET_B = {"GetQ", "GetKQ", "SetQ", "AddQ", "ReplaceQ", "DeleteQ", "IncrementQ",
           "DecrementQ", "QuitQ", "FlushQ", "AppendQ", "PrependQ", "GaTQ", "GaTKQ",
           "LockQ", "UnlockQ", "UnlockAllQ", "LaGQ", "LaGKQ", "RaUQ"}


class Engine:
    """Runs operations on a server and checks the replies."""

    def __init__(self, server, nconn=4, prefix=b"", keys=None, nkeys=4):
        self.s = server
        self.m = Model(server.now if server.frozen else int(time.time()))
        self.conns = {}
        self.pre = prefix
        self.keys = keys
        self.nkeys = nkeys
        self.opq = 0
        self.touched = set()
        self.stat = {}
        self.gen = {}
        self.on_sync = None

    # -- connections -------------------------------------------------------
    def conn(self, c):
        if c not in self.conns:
            self.conns[c] = Mixed(self.s, self.s.port)
        return self.conns[c]

    def cid(self, c):
        """Model identity of the current incarnation of connection slot c."""
        return (c, self.gen.get(c, 0))

    def key(self, i):
        if isinstance(i, str):
            k = self.pre + i.encode("latin-1")
        elif self.keys is not None:
            k = self.pre + self.keys[i]
        else:
            k = self.pre + b"k%d" % i
        self.touched.add(k)
        return k

    def note(self, name, n=1):
        self.stat[name] = self.stat.get(name, 0) + n

    # -- CAS ---------------------------------------------------------------
    def casnum(self, op, k):
        """Resolve a CAS spec: (number, Ver or None); None number = unknown."""
        spec = op.get("cas", 0)
        if spec == 0:
            return 0, None
        if spec == "rnd":
            return (1 << 63) + (op.get("k") if isinstance(op.get("k"), int) else 7) + 12345, None
        if spec == "cur":
            it = self.m.items.get(k)
            if it is None:
                o = self.m.old.get(k)
                if not o:
                    return (1 << 63) + 99, None
                return o[-1].num, o[-1]
            return it.ver.num, it.ver
        if spec[0] == "near":
            # the current number with one of its upper bits changed
            it = self.m.items.get(k)
            if it is None:
                return (1 << 63) + 79, None
            if it.ver.num is None:
                return None, None
            return it.ver.num ^ (1 << (32 + spec[1] % 32)), None
        i = spec[1]
        o = [v for v in self.m.old.get(k, []) if v.num is not None]
        if not o:
            it = self.m.items.get(k)
            return (1 << 63) + 77, None
        return o[-1 - i % len(o)].num, o[-1 - i % len(o)]

    # -- running -------------------------------------------------------------
    def run(self, ops):
        pend, exp, cur = [], [], None

        def flush():
            nonlocal pend, exp, cur
            if cur is not None:
                self.exchange(cur, b"".join(pend), exp)
            pend, exp, cur = [], [], None

        for op in ops:
            o = op["o"]
            if o in CONTROL:
                flush()
                getattr(self, "ctl_" + o)(op)
                continue
            c = op["c"]
            if cur is not None and (c != cur or not op.get("j")):
                flush()
            # a CAS number must be known before it can be sent
            if op.get("cas", 0) != 0 and "k" in op:
                k = self.key(op["k"])
                num, ver = self.casnum(op, k)
                if num is None:
                    flush()
                    num, ver = self.casnum(op, k)
                if num is None:
                    self.resolve(k)
            cur = c
            w, e = self.step(op)
            pend.append(w)
            for x in e:
                exp.append((op, x))
        flush()

    def resolve(self, k):
        """Learn the current CAS of k through a read."""
        it = self.m.live(k)
        if it is None:
            for v in self.m.old.get(k, []):
                if v.num is None:
                    v.num = -1
            it = self.m.items.get(k)
            if it is not None and it.ver.num is None:
                it.ver.num = (1 << 63) + 5
            for v in self.m.old.get(k, []):
                if v.num == -1:
                    v.num = (1 << 63) + 6
            return
        c = self.conn("x")
        r = c.call("GetK", k)
        self.compare({"o": "resolve"}, self.b_get("GetK", 0x11223344, k, it), r)

    def exchange(self, c, payload, exp):
        cn = self.conn(c)
        Binary.seq = (Binary.seq + 1) & 0xffff
        mark = 0xfe000000 | Binary.seq
        cn.send(payload + bframe(OP["Noop"], opaque=mark))
        i = 0
        while True:
            r = cn.next()
            if not isinstance(r, (bytes, tuple)) and r.op == OP["Noop"] and \
                    r.opaque == mark:
                break
            # optional expectations are skipped when they do not match
            while i < len(exp) and exp[i][1][0] == "OPT" and \
                    not self.matches(exp[i][1][1], r):
                i += 1
            if i >= len(exp):
                raise Violation("unexpected reply %r to %r" % (r, payload[-300:]))
            op, e = exp[i]
            if e[0] == "OPT":
                e = e[1]
            if e[0] in ("KEYS", "BKEYS"):
                self.keys_reply(cn, op, e, r)
            elif e[0] == "BSTAT":
                self.bstat_reply(cn, op, e[1], r)
            elif e[0] == "STATS":
                self.stats_reply(cn, op, r)
            else:
                self.compare(op, e, r)
            i += 1
        while i < len(exp) and exp[i][1][0] == "OPT":
            i += 1
        if i < len(exp):
            raise Violation("no reply to %r: expected %r" % (exp[i][0], exp[i][1]))

    def keys_reply(self, cn, op, e, r):
        want, got = sorted(e[1]), []
        while True:
            if e[0] == "KEYS":
                if r == b"END":
                    break
                if not (isinstance(r, tuple) and r[0] == "KEY"):
                    raise Violation("bad keys reply %r" % (r,))
                got.append(r[1])
            else:
                if isinstance(r, (bytes, tuple)) or r.op != OP["Keys"] or r.status != 0 \
                        or r.opaque != e[2] or r.extras or r.data:
                    raise Violation("bad Keys reply %r" % (r,))
                if not r.key:
                    break
                got.append(r.key)
            r = cn.next()
        if sorted(got) != want:
            raise Violation("%r: keys listed %r, expected %r" % (op, sorted(got)[:40],
                                                                want[:40]))

    def bstat_reply(self, cn, op, opq, r):
        seen = set()
        while True:
            if isinstance(r, (bytes, tuple)) or r.op != OP["Stat"] or r.status != 0 \
                    or r.opaque != opq or r.extras:
                raise Violation("bad Stat reply %r" % (r,))
            if not r.key:
                if r.data:
                    raise Violation("terminating Stat response carries data: %r" % r)
                return
            if r.key in seen:
                raise Violation("statistic %r reported twice" % r.key)
            seen.add(r.key)
            r = cn.next()

    def stats_reply(self, cn, op, r):
        seen = set()
        while r != b"END":
            f = r.split(b" ", 2) if isinstance(r, bytes) else [r]
            if f[0] != b"STAT" or len(f) < 2:
                raise Violation("bad stats line %r" % (r,))
            if f[1] in seen:
                raise Violation("statistic %r reported twice" % f[1])
            seen.add(f[1])
            r = cn.next()

    def matches(self, e, r):
        try:
            self.compare({}, e, r)
            return True
        except Violation:
            return False

    def compare(self, op, e, r):
        kind = e[0]
        if kind == "ANY":
            for x in e[1:]:
                if self.matches(x, r):
                    return
            raise Violation("%r: expected one of %r, got %r" % (op, e[1:], r))
        if kind == "T":
            if r != e[1]:
                raise Violation("%r: expected %r, got %r" % (op, e[1], r))
        elif kind == "TE":            # some error line
            if not isinstance(r, bytes) or not (
                    r == b"ERROR" or r.startswith(b"CLIENT_ERROR") or
                    r.startswith(b"SERVER_ERROR")):
                raise Violation("%r: expected an error line, got %r" % (op, r))
        elif kind == "V":
            _, k, it_f, it_v, ver = e
            if not isinstance(r, tuple) or r[0] != "VALUE" or r[1] != k:
                raise Violation("%r: expected a VALUE block of %r, got %r" % (op, k, short(r)))
            if r[2] != it_f or r[3] != it_v:
                raise Violation("%r: value of %r: flags %r data %s, expected flags %r data %s"
                                % (op, k, r[2], short(r[3]), it_f, short(it_v)))
            if (ver is None) != (len(r) == 4):
                raise Violation("%r: CAS field presence wrong in %r" % (op, short(r)))
            if ver is not None:
                self.m.learn(ver, r[4], op)
        elif kind == "B":
            _, opcode, opaque, status, ver, extras, key, data = e
            if isinstance(r, (bytes, tuple)):
                raise Violation("%r: expected a binary response, got %r" % (op, short(r)))
            if r.op != opcode or r.opaque != opaque:
                raise Violation("%r: response not matching the request (opcode %#x opaque "
                                "%#x expected): %r" % (op, opcode, opaque, r))
            sts = status if isinstance(status, tuple) else (status,)
            if r.status not in sts:
                raise Violation("%r: expected status %r, got %r" % (op, status, r))
            if r.status != 0:
                if r.extras or r.key:
                    raise Violation("%r: error response with extras or key: %r" % (op, r))
                return
            if r.extras != extras or r.key != key or \
                    (data is not None and r.data != data):
                raise Violation("%r: got extras=%r key=%s data=%s, expected extras=%r key=%s "
                                "data=%s" % (op, r.extras, short(r.key), short(r.data), extras,
                                             short(key), short(data)))
            if ver is not None:
                self.m.learn(ver, r.cas, op)
        else:
            raise HarnessError("expectation %r" % (e,))

    # -- text/binary steps ---------------------------------------------------
    def step(self, op):
        if op.get("e"):
            self.note("deadline")
        if op["p"] == "t":
            return self.text_step(op)
        return self.bin_step(op)

    def text_step(self, op):
        m, o, me = self.m, op["o"], self.cid(op["c"])
        nr = b" noreply" if op.get("q") else b""
        T = lambda s: [] if nr else [("T", s)]
        if o in ("get", "gets"):
            ks = [self.key(i) for i in op["ks"]]
            out = []
            for k in ks:
                it = m.live(k)
                if it is not None:
                    out.append(("V", k, it.f, it.v, it.ver if o == "gets" else None))
                    self.note("hit")
                else:
                    self.note("miss")
            return o.encode() + b" " + b" ".join(ks) + b"\r\n", out + [("T", b"END")]
        if o == "unlock_all":
            self.note("unlock_all")
            m.unlock_all(me)
            return b"unlock_all\r\n", [("T", b"OK")]
        if o == "keys":
            self.note("keys")
            pre = self.pre + op.get("pre", "").encode("latin-1")
            return b"keys" + (b" " + pre if pre else b"") + b"\r\n", [
                ("KEYS", [k for k in m.items if m.live(k) and k.startswith(pre)])]
        if o == "version":
            return b"verbosity warning\r\n", [("T", b"OK")]
        k = self.key(op["k"])
        it = m.items.get(k)
        alive = m.live(k)
        other = it is not None and it.owner is not None and it.owner != me
        if o in ("set", "add", "replace", "append", "prepend", "cas"):
            v = value(op["v"])
            e = m.exp(op.get("e", 0))
            ew = op.get("e", 0)
            ew = m.now + ew[1] if isinstance(ew, list) else ew
            w = b"%s %s %d %d %d" % (o.encode(), k, op.get("f", 0), ew, len(v))
            if o == "cas":
                num, ver = self.casnum(op, k)
                w += b" %d" % num
            w += nr + b"\r\n" + v + b"\r\n"
            if other:
                self.note("locked_refused")
                return w, T(b"LOCKED")
            if o == "set":
                m.store(k, v, op.get("f", 0), e)
                self.note("stored")
                return w, T(b"STORED")
            if o == "add":
                if alive:
                    self.note("refused")
                    return w, T(b"NOT_STORED")
                m.store(k, v, op.get("f", 0), e)
                self.note("stored")
                return w, T(b"STORED")
            if o == "cas":
                if not alive:
                    self.note("refused")
                    return w, T(b"NOT_FOUND")
                if num == 0 or num != alive.ver.num:
                    self.note("cas_bad")
                    return w, T(b"EXISTS")
                m.store(k, v, op.get("f", 0), e)
                self.note("cas_ok")
                return w, T(b"STORED")
            if not alive:
                self.note("refused")
                return w, T(b"NOT_STORED")
            self.note("stored")
            if o == "replace":
                m.store(k, v, op.get("f", 0), e)
            elif o == "append":
                m.modify(k, alive.v + v)
            else:
                m.modify(k, v + alive.v)
            return w, T(b"STORED")
        if o in ("incr", "decr"):
            w = b"%s %s %d" % (o.encode(), k, op["n"]) + nr + b"\r\n"
            if other:
                self.note("locked_refused")
                return w, T(b"LOCKED")
            if not alive:
                return w, T(b"NOT_FOUND")
            if ambiguous(alive.v):
                return b"get " + k + b"\r\n", [("V", k, alive.f, alive.v, None), ("T", b"END")]
            n = is_num(alive.v)
            if n is None:
                self.note("non_numeric")
                return w, T(b"CLIENT_ERROR cannot increment or decrement non-numeric value")
            n = (n + op["n"]) & M64 if o == "incr" else max(0, n - op["n"])
            m.modify(k, b"%d" % n)
            self.note("counted")
            return w, T(b"%d" % n)
        if o == "touch":
            ew = op.get("e", 0)
            ew = m.now + ew[1] if isinstance(ew, list) else ew
            w = b"touch %s %d" % (k, ew) + nr + b"\r\n"
            if not alive:
                return w, T(b"NOT_FOUND")
            alive.e = m.exp(op.get("e", 0))
            self.note("touched")
            return w, T(b"TOUCHED")
        if o == "delete":
            w = b"delete " + k + nr + b"\r\n"
            if other:
                self.note("locked_refused")
                return w, T(b"LOCKED")
            if not alive:
                if it is not None:
                    m.remove(k)
                return w, T(b"NOT_FOUND")
            m.remove(k)
            self.note("deleted")
            return w, T(b"DELETED")
        if o == "lock":
            w = b"lock " + k + b"\r\n"
            if not alive:
                return w, [("T", b"NOT_FOUND")]
            if it.owner is not None:
                self.note("lock_refused")
                return w, [("T", b"LOCKED")]
            m.lock(me, k)
            self.note("lock_ok")
            return w, [("T", b"OK")]
        if o == "unlock":
            w = b"unlock " + k + b"\r\n"
            if it is not None and it.owner == me:
                m.unlock(k)
                self.note("unlock_ok")
                return w, [("T", b"OK")]
            return w, [("T", b"CLIENT_ERROR object is not locked or not found")]
        raise HarnessError("text op %r" % (op,))

    def b_get(self, o, opq, k, it):
        return ("B", OP[o], opq, OK, it.ver, struct.pack(">I", it.f),
                k if o.rstrip("Q").endswith("K") else b"", it.v)

    def bin_step(self, op):
        m, o, me = self.m, op["o"], self.cid(op["c"])
        code = OP[o]
        quiet = o in QUIET_B
        self.opq = (self.opq + 1) & 0xffffff
        opq = self.opq | (op.get("oq", 0) & 0xfd) << 24
        if opq >> 24 == 0xfe:
            opq &= 0xffffff

        def E(st):
            return [("B", code, opq, st, None, b"", b"", b"")]

        def S(ver=None, data=b"", extras=b""):
            if quiet:
                return []
            return [("B", code, opq, OK, ver, extras, b"", data)]

        if o in ("UnlockAll", "UnlockAllQ"):
            self.note("unlock_all")
            m.unlock_all(me)
            return bframe(code, opaque=opq), S()
        if o == "Noop":
            return bframe(code, opaque=opq), S()
        if o == "Version":
            return bframe(code, opaque=opq), [("B", code, opq, OK, None, b"", b"",
                                               None)]
        if o == "Keys":
            self.note("keys")
            pre = self.pre + op.get("pre", "").encode("latin-1")
            return bframe(code, pre, opaque=opq), [
                ("BKEYS", [k for k in m.items if m.live(k) and k.startswith(pre)], opq)]
        k = self.key(op["k"])
        it = m.items.get(k)
        alive = m.live(k)
        other = it is not None and it.owner is not None and it.owner != me
        ew = op.get("e")
        e = None
        if ew is not None:
            ew = m.now + ew[1] if isinstance(ew, list) else ew
            e = m.exp(op["e"])
        num, ver = self.casnum(op, k) if op.get("cas", 0) != 0 else (0, None)
        if o in GETS_B:
            ext = struct.pack(">I", ew) if ew is not None else b""
            w = bframe(code, k, ext, opaque=opq)
            lag = o.startswith("LaG")
            if not alive:
                self.note("miss")
                return w, ([] if quiet and not lag else E(NOT_FOUND))
            if lag:
                if it.owner is not None:
                    self.note("lock_refused")
                    return w, E(LOCKED)
                m.lock(me, k)
                self.note("lock_ok")
            if ew is not None:
                alive.e = e
                self.note("touched")
            self.note("hit")
            return w, [self.b_get(o, opq, k, alive)]
        base = o[:-1] if quiet else o
        if base in ("Set", "Add", "Replace", "RaU"):
            v = value(op["v"])
            if e is None:
                e, ew = 0, 0
            w = bframe(code, k, struct.pack(">II", op.get("f", 0), ew), v, opq, num)
            if len(v) == 0:
                return w, E(INVALID)
            if base == "RaU":
                if it is None:
                    return w, E(NOT_FOUND)
                if it.owner != me:
                    self.note("rau_refused")
                    if not alive:
                        return w, E((NOT_LOCKED, NOT_FOUND))
                    return w, E(NOT_LOCKED)
                if num and num != it.ver.num:
                    self.note("cas_bad")
                    return w, E(EXISTS)
                nv = m.store(k, v, op.get("f", 0), e)
                m.unlock(k)
                self.note("rau_ok")
                return w, S(nv)
            if other:
                self.note("locked_refused")
                return w, E(LOCKED)
            if not alive:
                if num or base == "Replace":
                    self.note("refused")
                    return w, E(NOT_FOUND)
            elif base == "Add":
                self.note("refused")
                return w, E(EXISTS)
            elif num and num != alive.ver.num:
                self.note("cas_bad")
                return w, E(EXISTS)
            nv = m.store(k, v, op.get("f", 0), e)
            self.note("cas_ok" if num else "stored")
            return w, S(nv)
        if base in ("Append", "Prepend"):
            v = value(op["v"])
            w = bframe(code, k, b"", v, opq, num)
            if len(v) == 0:
                return w, E(INVALID)
            if other:
                self.note("locked_refused")
                return w, E(LOCKED)
            if not alive:
                return w, E(NOT_FOUND)
            if num and num != alive.ver.num:
                self.note("cas_bad")
                return w, E(EXISTS)
            nv = m.modify(k, alive.v + v if base == "Append" else v + alive.v)
            self.note("cas_ok" if num else "stored")
            return w, S(nv)
        if base == "Delete":
            w = bframe(code, k, opaque=opq, cas=num)
            if other:
                self.note("locked_refused")
                return w, E(LOCKED)
            if not alive:
                if it is not None:
                    m.remove(k)
                return w, ([] if quiet else E(NOT_FOUND))
            if num and num != alive.ver.num:
                self.note("cas_bad")
                return w, E(EXISTS)
            m.remove(k)
            self.note("deleted")
            return w, S()
        if base in ("Increment", "Decrement"):
            if ew is None:
                ew = NONE32
            w = bframe(code, k, struct.pack(">QQI", op["n"], op.get("init", 0), ew),
                       b"", opq, num)
            if other:
                self.note("locked_refused")
                return w, E(LOCKED)
            if not alive:
                if ew == NONE32:
                    return w, E(NOT_FOUND)
                nv = m.store(k, b"%d" % op.get("init", 0), 0, m.exp(op["e"]))
                self.note("count_init")
                return w, S(nv, struct.pack(">Q", op.get("init", 0)))
            if num and num != alive.ver.num:
                self.note("cas_bad")
                return w, E(EXISTS)
            if ambiguous(alive.v):
                return bframe(OP["Get"], k, opaque=opq), [self.b_get("Get", opq, k, alive)]
            n = is_num(alive.v)
            if n is None:
                self.note("non_numeric")
                return w, E(NON_NUMERIC)
            n = (n + op["n"]) & M64 if base == "Increment" else max(0, n - op["n"])
            nv = m.modify(k, b"%d" % n)
            self.note("counted")
            return w, S(nv, struct.pack(">Q", n))
        if base == "Touch":
            w = bframe(code, k, struct.pack(">I", ew or 0), opaque=opq)
            if not alive:
                return w, E(NOT_FOUND)
            alive.e = e or 0
            self.note("touched")
            return w, S(alive.ver)
        if base == "Lock":
            w = bframe(code, k, opaque=opq)
            if not alive:
                return w, E(NOT_FOUND)
            if it.owner is not None:
                self.note("lock_refused")
                return w, E(LOCKED)
            m.lock(me, k)
            self.note("lock_ok")
            return w, S()
        if base == "Unlock":
            w = bframe(code, k, opaque=opq)
            if it is None:
                return w, E(NOT_FOUND)
            if it.owner != me:
                if not alive:
                    return w, E((NOT_LOCKED, NOT_FOUND))
                return w, E(NOT_LOCKED)
            m.unlock(k)
            self.note("unlock_ok")
            return w, S()
        raise HarnessError("binary op %r" % (op,))

    # -- control -------------------------------------------------------------
    def ctl_clock(self, op):
        self.s.advance(op["dt"])
        self.m.now = self.s.now
        self.note("clock")
        self.flush_due()

    def ctl_gc(self, op):
        self.s.gc()
        self.m.now = self.s.now
        self.note("gc")
        self.flush_due()

    def ctl_gcs(self, op):
        for _ in range(op["n"]):
            self.s.gc()
        self.m.now = self.s.now
        self.note("many_gcs")
        self.flush_due()

    def ctl_clockto(self, op):
        """Move the clock to the deadline of a key plus d."""
        it = self.m.items.get(self.key(op["k"]))
        t = (it.e if it is not None else 0) + op["d"]
        if self.m.now < t < self.m.now + (2600000 if self.m.now < 4100000000 else 100):
            self.s.set_now(t)
            self.m.now = self.s.now
            self.note("clock_edge")
            self.flush_due()

    # -- memory pressure ------------------------------------------------------
    fillseq = 0

    def fill(self, total, size=4000):
        """Store new objects of about `total` bytes; return their number."""
        Engine.fillseq += 1
        c = self.conn("x")
        n = total // size + 1
        v = b"f" * size
        for i in range(0, n, 64):
            r = c.batch(b"".join(bframe(OP["SetQ"], b"fill.%d.%d" % (Engine.fillseq, j),
                                        b"\0" * 8, v) for j in range(i, min(n, i + 64))))
            if r:
                raise Violation("storing failed: %r" % r[:2])
        return n

    def ctl_pressure(self, op):
        """Exceed the memory limit with fresh objects.  Getting back under it
        takes evicting some of them, and everything unlocked in this case has
        been unaccessed for at least as long: it must be gone, too."""
        lim = int(self.s.cfg["memory_limit"])
        iv = int(self.s.cfg["gc_interval"])
        if self.flush_at is not None and self.flush_at <= self.m.now + 40 * (iv + 2):
            return
        st = self.s.stats()
        n, ev = int(st["gc_count"]), int(st["evictions"])
        self.fill(lim + lim // 4)
        # memory use is measured by collections
        self.s.gc()
        self.m.now = self.s.now
        self.s.wait_stat(lambda s: int(s["evictions"]) > ev, "evictions after storing %d bytes "
                         "with a limit of %d" % (lim + lim // 4, lim))
        self.s.wait_stat(lambda s: int(s["bytes"]) <= lim, "memory use to fall under the limit")
        for k in [k for k, it in self.m.items.items() if it.owner is None]:
            self.m.remove(k)
            self.note("evicted")
        if any(it.owner is not None for it in self.m.items.values()):
            self.note("pressure_locked")
        self.note("pressure")
        self.verify()

    def ctl_verify(self, op):
        self.verify()

    def ctl_nap(self, op):
        time.sleep(op["ms"] / 1000.0)

    flush_at = None

    def flush_cmd(self, op, at):
        """Send a flush command; at: None or the expiration as sent."""
        if op.get("p", "t") == "t":
            w = b"flush_all" + (b" %d" % at if at is not None else b"")
            w += b" noreply" if op.get("q") else b""
            e = [] if op.get("q") else [(op, ("T", b"OK"))]
            w += b"\r\n"
        else:
            code = OP["FlushQ" if op.get("q") else "Flush"]
            w = bframe(code, b"", struct.pack(">I", at) if at is not None else b"",
                       opaque=0x99)
            e = [] if op.get("q") else [(op, ("B", code, 0x99, OK, None, b"", b"", b""))]
        self.exchange(op["c"], w, e)

    def flush_sweep(self):
        """The model's view of a flush that has taken effect."""
        for k in [k for k, it in self.m.items.items() if it.owner is None]:
            self.m.remove(k)

    def flush_done(self, timeout=20):
        """Wait until the flush has been carried out."""
        c = self.conn("x")
        k = self.pre + b"flushprobe"
        self.touched.add(k)
        end = time.monotonic() + timeout
        while True:
            r = c.batch(bframe(OP["SetQ"], k, b"\0" * 8, b"p") + bframe(OP["Get"], k) +
                        bframe(OP["DeleteQ"], k))
            if len(r) == 1 and r[0].status == OK:
                return
            if not (len(r) == 1 and r[0].status == NOT_FOUND):
                raise Violation("flush probe: %r" % r)
            if time.monotonic() > end:
                raise Violation("flush was not carried out in %ss" % timeout)
            time.sleep(0.002)

    def ctl_flush(self, op):
        """An immediate flush: at once everything unlocked is gone."""
        self.flush_cmd(op, 0 if op.get("zero") else None)
        self.flush_at = None
        self.flush_sweep()
        self.verify()
        self.flush_done()
        self.note("flush")

    def ctl_flushd(self, op):
        """A delayed flush (one pending at a time)."""
        if self.flush_at is not None:
            return
        d = op["d"]
        self.flush_cmd(op, self.m.now + d if op.get("abs") else d)
        self.flush_at = self.m.now + d
        self.note("flush_delayed")

    def flush_due(self):
        if self.flush_at is not None and self.m.now >= self.flush_at:
            self.flush_at = None
            self.flush_sweep()
            self.verify()
            self.flush_done()
            self.note("flush_fired")

    def ctl_close(self, op):
        """End a connection; its locks must be released soon after."""
        c = op["c"]
        cn = self.conn(c)
        how = op["how"]
        me = self.cid(c)
        if how in ("rst", "fin", "half"):
            # everything sent before was answered (sentinel), so no request is pending
            pass
        if how == "rst":
            cn.reset()
        elif how == "fin":
            cn.close()
        elif how == "half":
            cn.half_close()
            rest = cn.read_all()
            if rest:
                raise Violation("data after half close: %r" % rest[:200])
            cn.close()
        elif how == "quit":
            cn.send(b"quit\r\n")
            rest = cn.read_all()
            if rest:
                raise Violation("reply to quit: %r" % rest[:200])
            cn.close()
        elif how in ("Quit", "QuitQ"):
            cn.send(bframe(OP[how], opaque=77))
            rest = cn.read_all()
            if how == "Quit":
                if len(rest) != 24 or rest[1] != OP["Quit"] or rest[6:8] != b"\0\0" or \
                        rest[12:16] != struct.pack(">I", 77):
                    raise Violation("bad response to Quit: %r" % rest[:200])
            elif rest:
                raise Violation("response to QuitQ: %r" % rest[:200])
            cn.close()
        elif how == "big":
            # a request too large to be buffered: the server drops the connection
            n = 31 << 20
            try:
                cn.s.sendall(bframe(OP["Set"], b"big", b"\0" * 8, b"x" * 10)[:8] +
                             struct.pack(">I", n + 11) + b"\0" * 12)
                blk = b"y" * (1 << 20)
                for _ in range(31):
                    cn.s.sendall(blk)
            except OSError:
                pass
            cn.read_all_quiet()
            cn.close()
        else:
            raise HarnessError("close %r" % how)
        del self.conns[c]
        self.gen[c] = self.gen.get(c, 0) + 1
        held = self.m.unlock_all(me)
        self.note("close_" + how)
        if held:
            self.note("close_with_locks")
        self.wait_released(held)

    def wait_released(self, held, timeout=15):
        """Each key must become lockable by somebody else."""
        if not held:
            return
        c = self.conn("x")
        end = time.monotonic() + timeout
        for k in sorted(held):
            while True:
                r = c.call("Lock", k)
                if r.status == OK:
                    if self.m.live(k) is None:
                        raise Violation("expired object %r could be locked" % k)
                    u = c.call("Unlock", k)
                    if u.status != OK:
                        raise Violation("unlock after lock failed: %r" % u)
                    break
                if r.status == NOT_FOUND:
                    if self.m.live(k) is not None:
                        raise Violation("object %r lost when its lock was released" % k)
                    break
                if r.status != LOCKED:
                    raise Violation("Lock %r -> %r" % (k, r))
                if time.monotonic() > end:
                    raise Violation("lock of %r outlived its connection" % k)
                time.sleep(0.001)

    # -- end of case -----------------------------------------------------------
    def verify(self, keys=None):
        """Compare every key of the case with the model through both protocols."""
        c = self.conn("x")
        ks = sorted(keys if keys is not None else self.touched)
        if not ks:
            return
        ts = [k for k in ks if text_safe(k)]
        pay, exp = [], []
        op = {"o": "final check"}
        for i in range(0, len(ts), 16):
            g = ts[i:i + 16]
            pay.append(b"gets " + b" ".join(g) + b"\r\n")
            for k in g:
                it = self.m.live(k)
                if it is not None:
                    exp.append((op, ("V", k, it.f, it.v, it.ver)))
            exp.append((op, ("T", b"END")))
        for i, k in enumerate(ks):
            opq = 0x600000 + i
            pay.append(bframe(OP["GetK"], k, opaque=opq))
            it = self.m.live(k)
            if it is None:
                exp.append((op, ("B", OP["GetK"], opq, NOT_FOUND, None, b"", b"", b"")))
            else:
                exp.append((op, self.b_get("GetK", opq, k, it)))
        self.exchange("x", b"".join(pay), exp)

    def finish(self, close=True):
        """Release locks, delete the case's keys."""
        if self.flush_at is not None:
            self.s.set_now(self.flush_at)
            self.m.now = self.s.now
            self.flush_due()
        for c in list(self.conns):
            self.conns[c].batch(bframe(OP["UnlockAllQ"]))
        c = self.conn("x")
        ks = sorted(self.touched)
        for i in range(0, len(ks), 200):
            rs = c.batch(b"".join(bframe(OP["DeleteQ"], k) for k in ks[i:i + 200]))
            if rs:
                raise Violation("cleanup delete failed: %r" % rs[:3])

    def close(self):
        for c in self.conns.values():
            c.close()
        self.conns = {}


CONTROL = {"clock", "gc", "close", "clockto", "flush", "flushd", "verify", "nap", "gcs",
           "pressure"}


def _quiet_read_all(self):
    try:
        return self.read_all()
    except OSError:
        return b""


Conn.read_all_quiet = _quiet_read_all


def short(x):
    if isinstance(x, (bytes, bytearray)):
        b = bytes(x)
        if len(b) > 60:
            return "%r...(%d bytes, sum %d)" % (b[:40], len(b), sum(b) & 0xffff)
        return repr(b)
    return repr(x)[:400]
