"""C33: configuration files."""
import ipaddress, os, pwd, grp, re, socket, struct, subprocess, time
import build, yr
from harness import Part
from model import Mixed
from yr import OP, CN, Conn, Counter, Text, HarnessError, Violation, bframe, cframe

PROPERTY = "C33"
TECHNIQUE = ("configuration files generated from a grammar of valid and invalid lines, an independent "
             "reading of the documentation as the oracle for every value; real servers started "
             "with generated files; shrinking")
RULE = ("parse: files of 0..22 options in random order and layout (spaces, quotes, comments, blank "
        "lines, CRLF, no final newline), values at and around every documented bound, suffixes in "
        "both cases, and in a third of the files one or more broken lines; the loader must refuse "
        "the file or hold exactly the values written and the documented defaults.  Non-trivial: at "
        "least 5 options, or a broken line.  start: yrmcdsd is run with a generated file; with an "
        "invalid one it must exit with an error, otherwise settings, listening addresses, "
        "connection limits, object size limits, temporary files, user, group and log must be as "
        "configured.  Non-trivial: at least 5 options beyond those needed to run, or invalid")
ASSUME = ["duplicate and unknown options, plain byte counts above 2^31-1, signs and leading spaces "
          "in numbers are left open"]

I32 = (1 << 31) - 1
DEFAULTS = {"virtual_ip": "127.0.0.1", "port": 11211, "repl_port": 11213, "bind_ip": "",
            "max_connections": 0, "temp_dir": "/var/tmp", "user": "", "group": "",
            "log.threshold": "info", "log.file": "", "buckets": 1000000,
            "max_data_size": 1 << 20, "heap_data_limit": 256 << 10, "memory_limit": 1 << 30,
            "repl_buffer_size": 30, "initial_repl_sleep_delay_usec": 0, "secure_erase": "false",
            "lock_memory": "false", "workers": 8, "gc_interval": 10, "slave_timeout": 10,
            "counter.enable": "false", "counter.port": 11215, "counter.max_connections": 0,
            "counter.buckets": 1000000, "counter.stat_interval": 86400}
INTS = {"port": (1, 65535), "repl_port": (1, 65535), "max_connections": (0, I32),
        "buckets": (1, I32), "repl_buffer_size": (1, I32), "workers": (1, 64),
        "gc_interval": (1, I32), "slave_timeout": (1, I32),
        "initial_repl_sleep_delay_usec": (0, (1 << 64) - 1),
        "counter.port": (1, 65535), "counter.max_connections": (0, I32),
        "counter.buckets": (1, I32), "counter.stat_interval": (10, I32)}
SIZES = {"max_data_size": 1, "heap_data_limit": 4096, "memory_limit": 1}
BOOLS = ["secure_erase", "lock_memory", "counter.enable"]
ADDRS = ["127.0.0.1", "10.0.0.5", "192.168.100.200", "255.255.255.255", "0.0.0.0", "::1",
         "fe80:0:0:0:1:2:3:4", "2001:db8::ff", "::1:2"]
BADADDRS = ["localhost", "1.2.3.4.5", "256.1.1.1", "1.2.3.x", "::g", "1:2:3", "", "10.0.0.0/8",
            "1.2.3.4:80"]
WORDS = ["nobody", "a b", "x=y", "u#1", "root", "daemon"]


class Unknown(Exception):
    pass


class Invalid(Exception):
    pass


def addr(s):
    if re.fullmatch(r"\d+\.\d+\.\d+\.\d+", s) or ":" in s:
        try:
            a = ipaddress.ip_address(s)
        except ValueError:
            if re.fullmatch(r"[0-9.]+", s) and re.search(r"(^|\.)0\d", s):
                raise Unknown()     # octal forms
            raise Invalid()
        return a
    if re.fullmatch(r"[0-9a-fx.]*", s) and re.search(r"\d", s) and len(s.split(".")) < 4:
        raise Unknown()             # inet_aton forms
    raise Invalid()


def value(k, v):
    """The meaning of a value as documented."""
    if k in INTS:
        if re.fullmatch(r"\d+", v):
            lo, hi = INTS[k]
            if lo <= int(v) <= hi:
                return int(v)
            raise Invalid()
        if re.fullmatch(r"[ \t\v\f\r]*\+?\d+", v):
            raise Unknown()
        if re.fullmatch(r"[ \t\v\f\r]*-0+", v):
            raise Unknown()
        raise Invalid()
    if k in SIZES:
        m = re.fullmatch(r"(\d+)([kKmMgG]?)", v)
        if m:
            n = int(m.group(1))
            x = n << {"": 0, "k": 10, "m": 20, "g": 30}[m.group(2).lower()]
            if n < 1 or x < SIZES[k] or x >= 1 << 64:
                raise Invalid()
            if n > I32:
                raise Unknown()
            return x
        if re.fullmatch(r"[ \t\v\f\r]*\+?\d+[kKmMgG]?", v):
            raise Unknown()
        raise Invalid()
    if k in BOOLS:
        if v in ("true", "false"):
            return v
        raise Invalid()
    if k == "virtual_ip":
        return addr(v)
    if k == "bind_ip":
        return [addr(x) for x in v.split(" ") if x]
    if k == "log.threshold":
        if v in ("error", "warning", "info", "debug"):
            return v
        raise Invalid()
    if k == "log.file":
        if v.startswith("/"):
            return v
        raise Invalid()
    if k == "temp_dir":
        if not os.path.isdir(v):
            raise Invalid()
        return v
    return v


WS = " \f\n\r\t\v"


def meaning(text):
    """-> {option: value}; raises Invalid or Unknown."""
    conf = {}
    bad = unknown = False
    for l in text.split("\n"):
        l = l.strip(WS)
        if not l or l[0] == "#":
            continue
        if "=" not in l:
            bad = True
            continue
        k, v = l.split("=", 1)
        k, v = k.strip(WS), v.strip(WS)
        if len(v) >= 2 and v[0] == v[-1] == '"':
            v = v[1:-1]
        elif v[:1] == '"' and k not in INTS and k not in SIZES and k not in BOOLS:
            unknown = True
        if k not in DEFAULTS or k in conf:
            unknown = True
            continue
        try:
            conf[k] = value(k, v)
        except Invalid:
            bad = True
        except Unknown:
            unknown = True
    if unknown:
        raise Unknown()
    if bad:
        raise Invalid()
    return conf


def around(rng, lo, hi):
    return rng.choice([lo, lo, lo + 1, hi, hi - 1, rng.randint(lo, hi),
                       min(hi, lo + rng.randint(0, 100000))])


def good_value(rng, k, dirs):
    if k in INTS:
        return str(around(rng, *INTS[k]))
    if k in SIZES:
        u = rng.choice(["", "", "k", "K", "m", "M", "g", "G"])
        lo = max(1, -(-SIZES[k] >> {"": 0, "k": 10, "m": 20, "g": 30}[u.lower()]))
        return str(rng.choice([lo, lo + 1, rng.randint(lo, 100000), I32, rng.randint(lo, I32)])) + u
    if k in BOOLS:
        return rng.choice(["true", "false"])
    if k == "virtual_ip":
        return rng.choice(ADDRS)
    if k == "bind_ip":
        return rng.choice([" ", "  "]).join(rng.sample(ADDRS, rng.randint(1, 3)))
    if k == "log.threshold":
        return rng.choice(["error", "warning", "info", "debug"])
    if k == "log.file":
        return rng.choice(["/var/log/x.log", "/a b/c", "/x=y", "/", "/#1"])
    if k == "temp_dir":
        return rng.choice(dirs)
    return rng.choice(WORDS)


def bad_value(rng, k):
    if k in INTS:
        lo, hi = INTS[k]
        return rng.choice([str(lo - 1), str(hi + 1), "-1", "-%d" % (1 << 40), "", "abc", "1x",
                           "0x10", "1.5", "1 2", "1 # one", "99999999999999999999999", "1K", "10M",
                           "1e3", "true", "'5'", '"5', "5;", "1,000", "%d " % (hi + 1),
                           str((1 << 32) + lo + 1) if hi <= I32 else "-5",
                           str((1 << 64) + lo + 1), str(-(1 << 32) + lo + 1)])
    if k in SIZES:
        return rng.choice(["0", "0K", "-1", "-1M", "", "K", "M", "1KB", "1T", "1.5M", "10 M", "abc",
                           "1M1", "KM", "1KK", "99999999999999999999999999", "0x10", "1B", "5%",
                           '"5M', str(1 << 64)] +
                          (["4095", "3K", "1", "100"] if SIZES[k] > 1 else []))
    if k in BOOLS:
        return rng.choice(["yes", "no", "1", "0", "True", "FALSE", "on", "", "tru", "truee", "t",
                           "false true", "enable"])
    if k == "virtual_ip":
        return rng.choice(BADADDRS)
    if k == "bind_ip":
        x = rng.sample(ADDRS, rng.randint(0, 2)) + [rng.choice([b for b in BADADDRS if b])]
        rng.shuffle(x)
        return " ".join(x)
    if k == "log.threshold":
        return rng.choice(["warn", "Info", "notice", "", "none", "debug2", "0", "inf"])
    if k == "log.file":
        return rng.choice(["log", "./log", "", "~/log"])
    if k == "temp_dir":
        return rng.choice(["/nonexistent/dir", "", "/etc/passwd", "tmp-nowhere"])
    return None


BADLINES = ["port", "12345", "workers 5", "[section]", "secure_erase: true", '"quoted"',
            "buckets\t100", "true", "log.file /x", ";comment", "//"]


def layout(rng, k, v):
    sp = lambda: rng.choice(["", "", " ", "  ", "\t", " \t "])
    if rng.random() < .25 and not v.startswith('"'):
        v = '"%s"' % v
    return sp() + k + sp() + rng.choice(["=", " = ", "="]) + sp() + v + sp() + \
        rng.choice(["", "", "", "\r"])


def noise(rng):
    return rng.choice(["", "", "# comment", "  # port = 5", "#", "\t", "\r", "# a = b = c", "##",
                       '#"'])


class Parse(Part):
    name = "parse"
    examples = {"quick": 4000, "thorough": 150000}
    cap = {"quick": 20, "thorough": 600}
    lists = ("lines",)

    def setup(self, ctx):
        self.broken = None
        self.p = None
        try:
            exe = build.driver("config_driver",
                               [os.path.join(build.VERIF, "native", "config_driver.cpp")],
                               flags=["-O1"])
        except build.BuildError as e:
            self.broken = str(e)
            ctx.res["extra"]["config_driver_not_built"] = self.broken[-500:]
            return
        self.dir = yr.scratch()
        self.path = os.path.join(self.dir, "conf")
        os.makedirs(os.path.join(self.dir, "a dir"), exist_ok=True)
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, cwd=self.dir)

    def teardown(self, ctx):
        for p in (self.p,):
            if p is not None:
                p.kill()
                p.wait()
        self.p = None

    def generate(self, rng, ctx):
        dirs = ["/tmp", "/var/tmp", "/", "@/a dir", "@"]
        ks = rng.sample(sorted(DEFAULTS), rng.choice([0, 1, 2, 5, 10, 22, len(DEFAULTS)]))
        lines = [layout(rng, k, good_value(rng, k, dirs)) for k in ks]
        for _ in range(rng.choice([0, 0, 3])):
            lines.insert(rng.randint(0, len(lines)), noise(rng))
        if rng.random() < .4:
            for _ in range(rng.choice([1, 1, 1, 2])):
                if rng.random() < .2:
                    lines.insert(rng.randint(0, len(lines)), rng.choice(BADLINES))
                    continue
                k = rng.choice(sorted(DEFAULTS))
                v = bad_value(rng, k)
                if v is not None:
                    lines = [l for l in lines if l.split("=")[0].strip() != k]
                    lines.insert(rng.randint(0, len(lines)), layout(rng, k, v))
        return {"lines": lines, "nl": rng.choice([0, 1, 1])}

    def run(self, ctx, case):
        if self.broken:
            return False, ["driver not built"]
        text = "\n".join(case["lines"]).replace("@", self.dir) + "\n" * case["nl"]
        with open(self.path, "w", newline="") as fp:
            fp.write(text)
        try:
            want = meaning(text)
        except Invalid:
            want = None
        except Unknown:
            want = "unknown"
        self.p.stdin.write(self.path.encode() + b"\n")
        self.p.stdin.flush()
        r = self.p.stdout.readline().decode()
        if not r.endswith("\n"):
            raise Violation("the loader dies (status %r)" % self.p.wait())
        r = r[:-1].split("\t")
        if want == "unknown":
            return False, ["unspecified"]
        if want is None:
            if r[0] != "ERR":
                raise Violation("invalid configuration accepted")
            return True, ["invalid"]
        if r[0] != "OK":
            raise Violation("valid configuration refused: %s" % r[1])
        got = dict(x.split("=", 1) for x in r[1:])
        for k, d in DEFAULTS.items():
            g, w = got[k], want.get(k, d)
            if k == "virtual_ip":
                g, w = ipaddress.ip_address(g), ipaddress.ip_address(w)
            elif k == "bind_ip":
                g, w = [ipaddress.ip_address(x) for x in g.split()], w or []
            else:
                w = str(w)
            if g != w:
                raise Violation("%s is %s, %s: %s" % (k, g, "configured" if k in want else
                                                      "documented default", w))
        return len(want) >= 5, sorted(want)


# CAP_IPC_LOCK: without it "lock_memory" may well fail
CAN_LOCK = bool(int(re.search(r"CapEff:\s*(\w+)", open("/proc/self/status").read()).group(1), 16)
                >> 14 & 1)


class Raw(yr.Server):
    """A server with a given configuration text."""

    def __init__(self, make, **kw):
        self.make = make
        super().__init__(wait=False, counter=True, frozen=False, **kw)

    def start(self, wait=True):
        with open(self.conf, "w", newline="") as fp:
            fp.write(self.make(self))
        super().start(wait)


class Start(Part):
    name = "start"
    examples = {"quick": 30, "thorough": 1500}
    cap = {"quick": 25, "thorough": 600}
    lists = ("lines",)

    def setup(self, ctx):
        pass

    def generate(self, rng, ctx):
        vip = rng.choice(["127.0.0.1", "127.0.0.1", "127.0.0.2"])
        opt = {"virtual_ip": vip}
        put = lambda k, *v: opt.__setitem__(k, str(rng.choice(v)))
        for k, v in [("user", ["nobody"]), ("group", ["nogroup"]),
                     ("bind_ip", ["127.0.0.3", "127.0.0.3 127.0.0.4", "127.0.0.4 127.0.0.5  127.0.0.3"]),
                     ("max_connections", [0, 1, 2, 5, 10]), ("temp_dir", ["@tmp"]),
                     ("log.threshold", ["error", "warning", "info", "debug"]),
                     ("log.file", ["@dir/a.log", "@dir/b c.log"]), ("buckets", [1, 100, 12345]),
                     ("max_data_size", ["1k", "5000", "8K", "2M", "300000"]),
                     ("heap_data_limit", ["4096", "5k", "16K", "1M"]),
                     ("memory_limit", ["100M", "1G", "7g", "123456K"]),
                     ("repl_buffer_size", [1, 30, 100]),
                     ("initial_repl_sleep_delay_usec", [0, 5]), ("secure_erase", ["true", "false"]),
                     ("workers", [1, 2, 8, 63, 64]), ("gc_interval", [1, 10, 100000]),
                     ("slave_timeout", [1, 100, 7777]), ("counter.enable", ["true", "true", "false"]),
                     ("counter.max_connections", [0, 1, 3]), ("counter.buckets", [1, 777]),
                     ("counter.stat_interval", [10, 1000])]:
            if rng.random() < .5:
                put(k, *v)
        if "user" not in opt and rng.random() < .3 and CAN_LOCK:
            put("lock_memory", "true", "true", "false")
            put("workers", 1, 2, 8)         # their stacks become resident
        ks = list(opt.items()) + [("port", "@port"), ("repl_port", "@repl"), ("counter.port", "@cnt")]
        rng.shuffle(ks)
        if rng.random() < .3:
            if rng.random() < .3:
                lines = [layout(rng, k, v) for k, v in ks]
                lines.insert(rng.randint(0, len(lines)), rng.choice(BADLINES))
                return {"lines": lines}
            k = rng.choice([k for k in DEFAULTS])
            v = {"user": "no-such-user", "group": "no-such-group"}.get(k) or bad_value(rng, k)
            ks = [x for x in ks if x[0] != k]
            ks.insert(rng.randint(0, len(ks)), (k, v))
        return {"lines": [layout(rng, k, v) for k, v in ks]}

    def valid(self, case):
        # the options that keep the server where the test can reach it
        t = "\n".join(case["lines"])
        return all(x in t for x in ("@port", "@repl", "@cnt", "virtual_ip")) or \
            self.invalid(t.replace("@port", "1").replace("@repl", "1").replace("@cnt", "1")
                         .replace("@tmp", "/tmp").replace("@dir", "/tmp"))

    def invalid(self, t):
        try:
            c = meaning(t)
        except Invalid:
            return True
        except Unknown:
            return False
        return c.get("user") == "no-such-user" or c.get("group") == "no-such-group"

    def run(self, ctx, case):
        os.chmod(yr.scratch(), 0o755)
        text = []

        def make(s):
            t = "\n".join(case["lines"]) + "\n"
            for a, b in (("@port", s.port), ("@repl", s.repl_port), ("@cnt", s.counter_port),
                         ("@tmp", s.tmpdir), ("@dir", s.dir)):
                t = t.replace(a, str(b))
            text.append(t)
            return t
        vip = "127.0.0.2" if any(re.search(r'virtual_ip\s*=\s*"?127\.0\.0\.2"?\s*$', l)
                                 for l in case["lines"]) else "127.0.0.1"
        ctl_ip = struct.unpack("<I", socket.inet_aton(vip))[0]
        s = Raw(make, fake_if=1)
        try:
            s.ctl.set(vip_be=ctl_ip)
            if self.invalid(text[0]):
                end = time.monotonic() + 10
                while s.proc.poll() is None:
                    if time.monotonic() > end:
                        raise Violation("the server runs with an invalid configuration")
                    time.sleep(.002)
                if s.proc.returncode <= 0:
                    raise Violation("status %d upon an invalid configuration: %s" %
                                    (s.proc.returncode, s.tail()[-500:]))
                return True, ["invalid"]
            try:
                c = meaning(text[0])
            except Unknown:
                return False, ["unspecified"]
            self.running(s, dict(DEFAULTS, **c), vip)
            return len(c) >= 9, sorted(c)
        finally:
            s.destroy()

    def up(self, s, ip, port):
        try:
            socket.create_connection((ip, port), timeout=5).close()
            return True
        except ConnectionRefusedError:
            return False

    def running(self, s, c, vip):
        end = time.monotonic() + 20
        while not self.up(s, vip, s.repl_port):
            if s.proc.poll() is not None:
                raise Violation("the server exits with %d upon a valid configuration: %s" %
                                (s.proc.returncode, s.tail()[-800:]))
            if time.monotonic() > end:
                raise Violation("the server does not listen on the replication port")
            time.sleep(.003)
        while c["counter.enable"] == "true" and not self.up(s, vip, s.counter_port):
            if time.monotonic() > end:
                raise Violation("the counter extension is enabled but not served")
            time.sleep(.003)
        # addresses
        bound = {str(a) for a in c["bind_ip"]} | {vip} if c["bind_ip"] else None
        for i in range(1, 7):
            ip = "127.0.0.%d" % i
            for name, port in (("port", s.port), ("repl_port", s.repl_port),
                               ("counter.port", s.counter_port)):
                want = (bound is None or ip in bound) and \
                    (name != "counter.port" or c["counter.enable"] == "true")
                if self.up(s, ip, port) != want:
                    raise Violation("%s %d of %s is %s" % (name, port, ip, "not served" if want
                                                           else "served"))
        self.limits(s, vip, s.port, c["max_connections"], bframe(OP["Noop"]), 24)
        if c["counter.enable"] == "true":
            self.limits(s, vip, s.counter_port, c["counter.max_connections"], cframe(0), 12)
        t = self.admin(s, vip)
        b = lambda x: "on" if x == "true" else "off"
        got = t.stats(b"settings")
        want = {"maxbytes": c["memory_limit"], "tcpport": s.port, "replport": s.repl_port,
                "virtual_ip": vip, "secure_erase": b(c["secure_erase"]),
                "lock_memory": b(c["lock_memory"]), "tmp_dir": c["temp_dir"],
                "buckets": c["buckets"], "item_size_max": c["max_data_size"],
                "num_threads": c["workers"], "gc_interval": c["gc_interval"]}
        for k, w in want.items():
            if got.get(k) != str(w):
                raise Violation("settings report %s %r, configured %r" % (k, got.get(k), w))
        # sizes
        m, h = c["max_data_size"], c["heap_data_limit"]
        for n, key in ((m, b"m"), (m + 1, b"n"), (h, b"h"), (h + 1, b"i")):
            if n > 3 << 20:
                continue
            # the lock keeps the object from eviction while we look.
            for _ in range(1000):
                t.send(b"set %s 0 0 0\r\n\r\nlock %s\r\n" % (key, key))
                t.line()
                if t.line() == b"OK\r\n":
                    break
            else:
                raise Violation("a new object cannot be locked")
            before = self.files(s, c["temp_dir"])
            t.send(b"set %s 0 0 %d\r\n%s\r\n" % (key, n, b"v" * n))
            r = t.line()
            ok = r == b"STORED\r\n"
            if ok != (n <= m):
                raise Violation("a value of %d bytes: %r; max_data_size is %d" % (n, r, m))
            if not ok:
                t.close()
                t = self.admin(s, vip)
                continue
            after = self.files(s, c["temp_dir"])
            t.send(b"unlock %s\r\n" % key)
            t.line()
            if None not in (before, after) and bool(after - before) != (n > h):
                raise Violation("a value of %d bytes %s a temporary file; heap_data_limit is %d" %
                                (n, "is not in" if n > h else "is in", h))
        t.close()
        # privileges
        st = open("/proc/%d/status" % s.proc.pid).read()
        u = pwd.getpwnam(c["user"]).pw_uid if c["user"] else os.getuid()
        g = grp.getgrnam(c["group"]).gr_gid if c["group"] else os.getgid()
        if os.getuid() == 0:
            for n, w in (("Uid", u), ("Gid", g)):
                if set(re.search(n + r":\s*(.*)", st).group(1).split()) != {str(w)}:
                    raise Violation("%s is not %d:\n%s" % (n, w, st[:400]))
        # memory
        kb = lambda n: int(re.search(n + r":\s*(\d+) kB", st).group(1))
        if c["lock_memory"] == "false" and kb("VmLck"):
            raise Violation("%d kB locked; lock_memory is false" % kb("VmLck"))
        if c["lock_memory"] == "true" and kb("VmLck") < .9 * kb("VmRSS"):
            raise Violation("%d of %d resident kB locked; lock_memory is true" %
                            (kb("VmLck"), kb("VmRSS")))
        # log
        import signal
        s.proc.send_signal(signal.SIGUSR1)
        time.sleep(.01)
        s.proc.terminate()
        s.proc.wait(20)
        err = open(s.errfile, "rb").read()
        log = err
        if c["log.file"]:
            if not os.path.exists(c["log.file"]):
                raise Violation("no log file")
            log = open(c["log.file"], "rb").read()
            if b" INFO " in err or b" DEBUG " in err:
                raise Violation("log lines go to standard error: %r" % err[:300])
        order = ["error", "warning", "info", "debug"]
        th = order.index(c["log.threshold"])
        # before the configuration has been read the default applies
        ls = [l for l in log.split(b"\n") if b"Too small" not in l]
        for l in ls:
            m = re.match(rb"\d{4}-\S+ \S+ (ERROR|WARN|INFO|DEBUG) ", l)
            if m and [b"ERROR", b"WARN", b"INFO", b"DEBUG"].index(m.group(1)) > th:
                raise Violation("log threshold is %s, line %r" % (c["log.threshold"], l))
        if th >= 2 and not any(b"INFO got signal" in l for l in ls):
            raise Violation("no INFO lines in the log: %r" % log[-500:])

    def files(self, s, d):
        names = set()
        fds = "/proc/%d/fd" % s.proc.pid
        for f in os.listdir(fds):
            try:
                p = os.readlink(os.path.join(fds, f))
            except PermissionError:
                return None   # a server of another user, and no CAP_SYS_PTRACE
            except OSError:
                continue
            if p.startswith(d.rstrip("/") + "/") and not p.endswith((".log", "/ctl", "stderr")):
                names.add(p)
        return names

    def admin(self, s, vip):
        end = time.monotonic() + 10
        while True:
            t = Text(s, s.port, host=vip)
            try:
                t.send(b"version\r\n")
                t.line()
                return t
            except Violation:
                t.close()
                if time.monotonic() > end:
                    raise
                time.sleep(.003)

    def limits(self, s, vip, port, n, ping, size):
        """Exactly n connections are served (any number if n is 0)."""
        end = time.monotonic() + 10
        while True:
            cs = []
            try:
                served = 0
                for _ in range((n or 20) + 2):
                    c = socket.create_connection((vip, port), timeout=5)
                    cs.append(c)
                    try:
                        c.sendall(ping)
                        if c.recv(size):
                            served += 1
                    except ConnectionError:
                        pass
                    except socket.timeout:
                        raise Violation("a connection to port %d gets no answer" % port)
            finally:
                for c in cs:
                    c.close()
            if served == (n or 22):
                return
            if served > (n or 22) or time.monotonic() > end:
                raise Violation("port %d serves %d connections at a time; configured %d" %
                                (port, served, n))
            time.sleep(.005)


PARTS = [Parse(), Start()]
