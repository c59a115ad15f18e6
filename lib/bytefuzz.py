"""Hostile byte streams for the memcache and counter ports."""
import random, struct

from yr import OP, bframe, cframe, cname

SPECIAL = [b"\0", b"\r\n", b"\n", b" ", b"\xff", b"\x80", b"\x81", b"\x90", b"99999999999", b"-1",
           b"noreply", b"\r", b"  ", b"\x80\x01", b"4294967295", b"18446744073709551616"]
TEXT = ["set", "add", "replace", "append", "prepend", "cas", "get", "gets", "delete", "incr",
        "decr", "touch", "lock", "unlock", "unlock_all", "slabs", "stats", "flush_all", "version",
        "verbosity", "quit", "keys", "foo"]
U16 = [0, 1, 2, 3, 4, 8, 16, 20, 24, 249, 250, 251, 255, 256, 4095, 32768, 65535]
U32 = [0, 1, 2, 8, 23, 24, 100, 251, 4096, 65536, 1 << 20, (1 << 20) + 1, 30 << 20,
       (30 << 20) + 1, 0x7fffffff, 0x80000000, 0xffffffe7, 0xffffffff]


def blob(r):
    n = r.choice([0, 1, 2, 5, 20, 100, 300, 1000])
    return r.choice([r.randbytes(n), bytes([r.randrange(256)]) * n, b"7" * n])


def key(r, keys):
    x = r.random()
    if x < .75:
        return r.choice(keys)
    return r.choice([b"", b"k" * 250, b"k" * 251, b"k" * 1000, b"a b", b"\0", b"\x7f", b"x\ny"])


def text_req(r, keys):
    c = r.choice(TEXT)
    k = key(r, keys)
    num = lambda: str(r.choice(U32 + [1 << 63, 1 << 64, -1])).encode()
    v = blob(r)
    if c in ("set", "add", "replace", "append", "prepend", "cas"):
        n = len(v) if r.random() < .8 else r.choice(U32[:12])
        a = b" %s %s %s %d" % (k, num(), num(), n)
        if c == "cas" or r.random() < .03:
            a += b" " + num()
        if r.random() < .2:
            a += b" noreply"
        return c.encode() + a + b"\r\n" + v + b"\r\n"
    a = b""
    if c in ("get", "gets"):
        a = b" " + b" ".join(key(r, keys) for _ in range(r.randint(0, 6)))
    elif c in ("delete", "lock", "unlock", "keys"):
        a = b" " + k
    elif c in ("incr", "decr", "touch"):
        a = b" " + k + b" " + num()
    elif c == "stats":
        a = b" " + r.choice([b"", b"items", b"sizes", b"settings", b"ops", b"x"])
    elif c == "verbosity":
        a = b" " + r.choice([b"error", b"warning", b"x", b""])
    elif c == "flush_all":
        a = r.choice([b"", b" 0", b" 100000", b" " + num()])
    if r.random() < .15:
        a += b" noreply"
    return c.encode() + a + b"\r\n"


def bin_req(r, keys):
    op = r.choice(list(OP.values())) if r.random() < .9 else r.randrange(256)
    k = key(r, keys)
    ext = r.choice([b"", b"\0" * 4, b"\0" * 8, b"\0" * 20, b"\xff" * 4, b"\xff" * 8, b"\xff" * 20,
                    r.randbytes(8), r.randbytes(20), b"x" * 255])
    w = bframe(op, k, ext, blob(r) if r.random() < .6 else b"", r.randrange(1 << 32),
               r.choice([0, 0, 0, 1, 5, (1 << 64) - 1]))
    if r.random() < .35:
        # absurd header fields
        h = bytearray(w[:24])
        x = r.random()
        if x < .35:
            h[2:4] = struct.pack(">H", r.choice(U16))
        if x > .25 and x < .6:
            h[4] = r.choice([0, 4, 8, 20, 255])
        if x > .5:
            h[8:12] = struct.pack(">I", r.choice(U32[:12] if r.random() < .7 else U32))
        w = bytes(h) + w[24:]
    return w


def counter_req(r, names):
    op = r.choice([0, 1, 2, 2, 3, 3, 0x10, 0x11, 0x11, 4, 0x12, 0x13, 0xff])
    n = r.choice(names) if r.random() < .8 else r.randbytes(r.choice([0, 1, 100, 5000]))
    nn = cname(n) if r.random() < .8 else struct.pack(">H", r.choice(U16)) + n
    body = {2: struct.pack(">II", r.choice(U32), r.choice(U32)), 3: struct.pack(
        ">I", r.choice(U32))}.get(op, b"")
    body += nn if op < 4 else blob(r)
    w = cframe(op, body, r.randbytes(4), r.randrange(256))
    if r.random() < .3:
        h = bytearray(w[:12])
        x = r.random()
        if x < .7:
            h[4:8] = struct.pack(">I", r.choice(U32[:12] if r.random() < .7 else U32))
        else:
            h[0] = r.randrange(256)
        w = bytes(h) + w[12:]
    return w


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 5])):
        if not b:
            break
        i = r.randrange(len(b))
        x = r.random()
        if x < .25:
            b[i] ^= 1 << r.randrange(8)
        elif x < .4:
            b[i] = r.randrange(256)
        elif x < .55:
            del b[i:i + r.choice([1, 2, 8])]
        elif x < .8:
            b[i:i] = r.choice(SPECIAL)
        elif x < .9:
            j = r.randrange(len(b))
            b[i:i] = b[j:j + r.choice([1, 4, 24])]
        else:
            del b[i:]
    return bytes(b)


def stream(r, req, keys):
    """List of pieces ["l", latin1]."""
    out = []
    for _ in range(r.choice([1, 1, 2, 3, 5, 10, 20])):
        x = r.random()
        if x < .08:
            w = r.randbytes(r.choice([1, 5, 24, 100, 1000]))
        else:
            w = req(r, keys)
            if x < .45:
                w = mutate(r, w)
        out.append(["l", w.decode("latin-1")])
    return out


def bytes_of(pieces):
    out = []
    for p in pieces:
        if p[0] == "l":
            out.append(p[1].encode("latin-1"))
        else:
            out.append(random.Random(p[2]).randbytes(p[1]))
    return b"".join(out)
