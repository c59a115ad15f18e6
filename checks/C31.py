"""C31: temporary files of large objects."""
import ctypes, os, random, signal, struct, time
from model import Mixed
from parts import ServerPart
from yr import OP, Violation, bframe
import yr

PROPERTY = "C31"
TECHNIQUE = ("generated concurrent histories of large and small values; after each, descriptors and "
             "file sizes in /proc are compared with the objects the server reports; the directory is "
             "watched throughout (inotify); kills at generated moments; shrinking")
RULE = ("files: 1..3 clients pipeline 5..60 operations on 8 keys (set, add, replace, cas, append, "
        "prepend, delete, incr, touch, lock forms, replace-and-unlock) with sizes around "
        "heap_data_limit, mixed with deadlines, flushes, collections, evictions under a small "
        "memory_limit and clients that vanish; then the open files in temp_dir must be exactly one per "
        "object larger than the limit, with the object's size, none may have been written to before "
        "it was unlinked, and the directory must be empty.  kill: a server is killed or stopped in "
        "the middle of such a load; no file with data may be left.  Non-trivial: an object went from "
        "file to memory or away and another one to a file")
ASSUME = ["a server killed between creating and unlinking a file may leave an empty one"]

IN_MODIFY, IN_CREATE, IN_DELETE, IN_MOVED_FROM, IN_MOVED_TO = 2, 0x100, 0x200, 0x40, 0x80
IN_EXCL_UNLINK = 0x04000000


class Watch:
    def __init__(self, path):
        self.fd = -1
        try:
            libc = ctypes.CDLL(None, use_errno=True)
            self.fd = libc.inotify_init1(os.O_NONBLOCK | os.O_CLOEXEC)
            if self.fd >= 0 and libc.inotify_add_watch(
                    self.fd, path.encode(), IN_MODIFY | IN_CREATE | IN_DELETE | IN_MOVED_FROM |
                    IN_MOVED_TO | IN_EXCL_UNLINK) < 0:
                os.close(self.fd)
                self.fd = -1
        except (OSError, AttributeError):
            self.fd = -1
        self.linked = set()

    def check(self):
        """Process what has happened; raise if a file had data under a name."""
        created = 0
        while self.fd >= 0:
            try:
                b = os.read(self.fd, 1 << 16)
            except BlockingIOError:
                break
            while b:
                wd, mask, cookie, n = struct.unpack("iIII", b[:16])
                name = b[16:16 + n].rstrip(b"\0")
                b = b[16 + n:]
                if mask & 0x4000:
                    self.linked.clear()
                elif mask & IN_CREATE:
                    created += 1
                    self.linked.add(name)
                elif mask & IN_DELETE:
                    self.linked.discard(name)
                elif mask & IN_MODIFY and name in self.linked:
                    raise Violation("file %r in temp_dir was written to while it had a name" % name)
                elif mask & (IN_MOVED_FROM | IN_MOVED_TO):
                    raise Violation("file %r in temp_dir was renamed" % name)
        return created

    def close(self):
        if self.fd >= 0:
            os.close(self.fd)


def tempfds(s):
    """Sizes of the files in temp_dir that the server has open."""
    d = "/proc/%d/fd" % s.proc.pid
    out = []
    for f in os.listdir(d):
        p = os.path.join(d, f)
        try:
            if os.readlink(p).startswith(s.tmpdir):
                out.append(os.stat(p).st_size)
        except OSError:
            pass
    return sorted(out)


class Files(ServerPart):
    name = "files"
    racy = True
    examples = {"quick": 260, "thorough": 9000}
    cap = {"quick": 20, "thorough": 900}
    lists = ("ops",)

    def config(self, ctx):
        self.limit = [4096, 5000, 16384, 4096][ctx.shard % 4]
        c = {"workers": 1 + ctx.shard % 4, "buckets": [1, 101][ctx.shard % 2],
             "heap_data_limit": self.limit, "gc_interval": 1}
        if ctx.shard % 4 == 3:
            c["memory_limit"] = 60000
            c["max_data_size"] = 50000
        if ctx.shard % 8 == 5:
            c["secure_erase"] = "true"
        return c

    def server_args(self, ctx):
        return {"counter": False}

    def setup(self, ctx):
        super().setup(ctx)
        self.w = Watch(self.s.tmpdir)
        self.s.stepped()

    def teardown(self, ctx):
        if getattr(self, "w", None):
            self.w.close()
        super().teardown(ctx)

    def generate(self, rng, ctx):
        L = self.limit
        sizes = [0, 1, 5, L // 2, L - 1, L, L + 1, L * 2, L * 3 + 7]
        if rng.random() < .2:
            sizes += [40000]
        ops = []
        nc = rng.choice([1, 1, 3])
        for _ in range(rng.randint(5, 60)):
            x = rng.random()
            k, n, c = rng.randrange(8), rng.choice(sizes), rng.randrange(nc)
            e = rng.choice([0, 0, 0, 0, 1, 2, 5, 100])
            if x < .72:
                ops.append([rng.choice(["set", "set", "set", "tset", "tset", "add", "replace", "cas",
                                        "append", "append", "prepend", "tappend", "delete", "incr",
                                        "touch", "lagrau", "lock", "get", "unlock"]), c, k, n, e])
            elif x < .80:
                ops.append(["step", rng.choice([0, 1, 2, 3])])
            elif x < .83:
                ops.append(["flush", c, rng.choice([0, 0, 1, 3])])
            elif x < .88:
                ops.append(["vanish", c, rng.choice(["rst", "fin", "half"])])
            elif x < .9:
                ops.append(["many", c, rng.choice([3, 10, 25]), L + 100])
            else:
                ops.append(["check"])
        return {"ops": ops}

    def run(self, ctx, case):
        s = self.s
        pre = b"%d." % ctx.counter
        cl = self.conns
        pend = {i: 0 for i in range(3)}
        self.peak = self.drop = 0
        nm = 0

        def conn(i):
            if i not in cl:
                cl[i] = Mixed(s, s.port)
            return cl[i]

        def sync(i):
            if i in cl:
                cl[i].send(bframe(OP["Noop"], opaque=0x51a7))
                while True:
                    r = cl[i].next()
                    if not isinstance(r, (bytes, tuple)) and r.opaque == 0x51a7:
                        break

        for o in case["ops"]:
            k = o[0]
            if k in ("step", "check"):
                for i in range(3):
                    sync(i)
                if k == "step":
                    s.step(o[1])
                else:
                    self.check(pre)
                continue
            c = conn(o[1])
            if k == "flush":
                c.send(bframe(OP["Flush"], b"", struct.pack(">I", o[2])))
                continue
            if k == "many":
                for _ in range(o[2]):
                    c.send(bframe(OP["SetQ"], pre + b"m%d" % nm, bytes(8), b"m" * o[3]))
                    nm += 1
                continue
            if k == "vanish":
                del cl[o[1]]
                if o[2] == "rst":
                    c.reset()
                elif o[2] == "half":
                    c.half_close()
                    c.read_all()
                    c.close()
                else:
                    c.close()
                continue
            key, v = pre + b"k%d" % o[2], bytes([97 + o[2]]) * o[3]
            fe = struct.pack(">II", 0, o[4])
            if k in ("set", "add", "replace"):
                c.send(bframe(OP[k.capitalize()], key, fe, v))
            elif k == "tset":
                c.send(b"set %s 0 %d %d\r\n%s\r\n" % (key, o[4], len(v), v))
            elif k == "tappend":
                c.send(b"append %s 0 0 %d\r\n%s\r\n" % (key, len(v), v))
            elif k == "cas":
                r = None
                sync(o[1])
                r = c.call("Get", key)
                if r.status == 0:
                    c.send(bframe(OP["Set"], key, fe, v, 0, r.cas))
            elif k in ("append", "prepend"):
                c.send(bframe(OP[k.capitalize()], key, b"", v))
            elif k == "delete":
                c.send(bframe(OP["Delete"], key))
            elif k == "incr":
                c.send(bframe(OP["Increment"], key, struct.pack(">QQI", 1, 5, o[4])))
            elif k == "touch":
                c.send(bframe(OP["Touch"], key, struct.pack(">I", o[4])))
            elif k == "lagrau":
                c.send(bframe(OP["LaG"], key) + bframe(OP["RaU"], key, fe, v))
            elif k in ("lock", "unlock", "get"):
                c.send(bframe(OP[k.capitalize()], key))
            # replies are taken now and then only
            pend[o[1]] += 1
            if pend[o[1]] % 8 == 0:
                sync(o[1])
        for i in range(3):
            sync(i)
        self.check(pre)
        # everything away, by one of several ways
        for i in range(3):
            if i in cl:
                cl.pop(i).close()
        s.wait_stat(lambda st: int(st["curr_connections"]) <= 2, "the end of connections")
        x = conn("x")
        how = ctx.counter % 3
        # (requests of connections that have gone may still be executed, and their locks
        # held, for a moment)
        end = time.monotonic() + 10
        while True:
            if how == 0:
                x.call("Flush")
            else:
                for k in self.keys(x):
                    x.call("Delete", k) if how == 1 else x.call("Touch", k, struct.pack(">I", 1))
            s.step(2)
            if not tempfds(s) and not self.keys(x):
                break
            if time.monotonic() > end:
                raise Violation("after all objects were %s and collected, %d files are open, keys %r" %
                                (["flushed", "deleted", "expired"][how], len(tempfds(s)),
                                 self.keys(x)[:5]))
        s.check_alive()
        return bool(self.peak and self.drop), [o[0] for o in case["ops"]]

    def keys(self, x):
        x.send(b"keys\r\n")
        out = []
        while True:
            l = x.line()
            if l == b"END\r\n":
                return out
            if not l.startswith(b"VALUE "):
                raise Violation("keys: %r" % l[:80])
            out.append(l[6:-2].split(b" ")[0])

    def check(self, pre):
        s = self.s
        x = self.conns.get("x")
        if x is None:
            x = self.conns["x"] = Mixed(s, s.port)
        # collect what is dead, so that the objects are those that can be seen.  (A
        # collection may be put off for a round; requests of connections that have gone
        # may still be executed for a moment.)
        end = time.monotonic() + 3
        while True:
            s.step(2)
            want = []
            for k in self.keys(x):
                r = x.call("Get", k)
                if r.status == 0 and len(r.data) > self.limit:
                    want.append(len(r.data))
                elif r.status not in (0, 1):
                    raise Violation("Get -> %r" % r)
            want.sort()
            got = tempfds(s)
            if got == want:
                break
            if time.monotonic() > end:
                raise Violation("sizes of open files in temp_dir: %r; objects larger than the limit: "
                                "%r" % (got[:40], want[:40]))
        if self.peak and len(want) < self.peak:
            self.drop += 1
        self.peak = max(self.peak, len(want))
        self.w.check()
        l = os.listdir(s.tmpdir)
        end = time.monotonic() + 3
        while l:
            # just being created for a connection that has gone
            if time.monotonic() > end:
                raise Violation("temp_dir is not empty: %r" % l[:5])
            time.sleep(.001)
            l = [f for f in os.listdir(s.tmpdir) if f in l]


class Kill(ServerPart):
    name = "kill"
    patience = 30
    racy = True
    examples = {"quick": 6, "thorough": 300}
    cap = {"quick": 10, "thorough": 400}

    def setup(self, ctx):
        self.s = None
        self.conns = {}

    def generate(self, rng, ctx):
        return {"sig": rng.choice([9, 9, 9, 15, 2, 3]), "ms": rng.choice([0, 1, 3, 10, 30, 60]),
                "w": rng.randint(1, 6), "seed": rng.randrange(1 << 30), "jit": rng.choice([0, 200])}

    def run(self, ctx, case):
        s = self.s = yr.Server({"workers": case["w"], "heap_data_limit": 4096, "gc_interval": 1},
                               counter=False)
        w = Watch(s.tmpdir)
        cl = []
        try:
            r = random.Random(case["seed"])
            s.ctl.set(jitter=case["jit"])
            cl = [Mixed(s, s.port) for _ in range(case["w"] + 1)]
            buf = []
            for c in cl:
                b = b"".join(bframe(OP[r.choice(["SetQ", "SetQ", "AddQ", "SetQ"])],
                                    b"k%d" % r.randrange(60), bytes(8),
                                    b"v" * r.choice([1, 4097, 9000]))
                             if r.random() < .8 else
                             bframe(OP["DeleteQ"], b"k%d" % r.randrange(60)) for _ in range(150))
                c.s.setblocking(False)
                buf.append(memoryview(b))
            end = time.monotonic() + case["ms"] / 1000
            n = 0
            while True:
                for i, c in enumerate(cl):
                    try:
                        k = c.s.send(buf[i])
                        buf[i] = buf[i][k:] if k < len(buf[i]) else buf[i].obj and memoryview(buf[i].obj)
                        n += k
                    except BlockingIOError:
                        pass
                if time.monotonic() >= end and n:
                    break
            files = len(tempfds(s))
            w.check()
            s.proc.send_signal(case["sig"])
            s.proc.wait(self.patience)
            left = os.listdir(s.tmpdir)
            data = [f for f in left if os.path.getsize(os.path.join(s.tmpdir, f))]
            if data or len(left) > case["w"]:
                raise Violation("after signal %d, temp_dir holds %d files, %d of them with data" %
                                (case["sig"], len(left), len(data)))
            w.check()
        finally:
            for c in cl:
                c.close()
            w.close()
            s.destroy()
            self.s = None
        return files > 0, ["sig%d" % case["sig"]]


PARTS = [Files(), Kill()]
