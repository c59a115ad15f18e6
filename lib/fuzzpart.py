"""libFuzzer on native targets as a Part."""
import glob, hashlib, os, shutil, subprocess

import build
import yr
from harness import Part
from yr import Violation, HarnessError

FLAGS = ["-O1", "-g1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize=vptr,function"]


class FuzzPart(Part):
    """One case per shard: a libFuzzer run with a generated seed; a crashing
    input becomes the case."""
    examples = {"quick": 1, "thorough": 1}
    runs = {"quick": 300000, "thorough": 20000000}
    seconds = {"quick": 60, "thorough": 700}
    source = None
    max_len = 600
    shrinkable = False
    words = ()
    prefix = b""

    def exe(self):
        src = os.path.join(build.VERIF, "native", self.source + ".cpp")
        return build.driver(self.source, [src], cxx="clang++", flags=FLAGS)

    def setup(self, ctx):
        self.broken = None
        try:
            self.bin = self.exe()
        except build.BuildError as e:
            # internal interfaces may change their shape without any change in
            # behaviour; the checks over the wire remain
            self.broken = str(e)
            ctx.res["extra"]["fuzz_target_not_built"] = self.broken[-500:]

    def seeds(self, r):
        return []

    def generate(self, rng, ctx):
        return {"seed": rng.randrange(1, 1 << 31), "runs": self.runs[ctx.tier]}

    def env(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
        return e

    def one(self, path):
        p = subprocess.run([self.bin, path], capture_output=True, env=self.env())
        return p.returncode, p.stderr.decode("latin-1")

    def run(self, ctx, case):
        import random
        if self.broken:
            return False, ["fuzz target not built"]
        d = os.path.join(yr.scratch(), "fuzz")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/corpus")
        if "input" in case:
            f = d + "/input"
            with open(f, "wb") as fp:
                fp.write(bytes.fromhex(case["input"]))
            rc, err = self.one(f)
            if rc != 0:
                raise Violation("parser fails on input %s: %s" %
                                (case["input"][:400], err[-1500:]))
            return True, ["input"]
        r = random.Random(case["seed"])
        for i, b in enumerate(self.seeds(r)):
            with open(d + "/corpus/s%03d" % i, "wb") as fp:
                fp.write(b)
        with open(d + "/dict", "w") as fp:
            for w in self.words:
                fp.write('"%s"\n' % "".join("\\x%02x" % c for c in w))
        sec = self.seconds[ctx.tier]
        # a short first stage with a small length, for depth
        p = subprocess.run([self.bin, "-seed=%d" % case["seed"], "-runs=%d" % case["runs"],
                            "-max_len=%d" % self.max_len, "-max_total_time=%d" % sec,
                            "-timeout=20", "-rss_limit_mb=3000", "-dict=" + d + "/dict",
                            "-artifact_prefix=" + d + "/", "-print_final_stats=1",
                            d + "/corpus"], capture_output=True, env=self.env())
        err = p.stderr.decode("latin-1")
        arts = [f for f in os.listdir(d) if f.split("-")[0] in ("crash", "timeout", "oom", "leak")]
        if p.returncode != 0 and arts:
            f = os.path.join(d, arts[0])
            m = d + "/min"
            subprocess.run([self.bin, "-minimize_crash=1", "-max_total_time=15",
                            "-exact_artifact_path=" + m, f], capture_output=True, env=self.env())
            if os.path.exists(m) and self.one(m)[0] != 0:
                f = m
            with open(f, "rb") as fp:
                inp = fp.read()
            v = Violation("parser fails on input %r: %s" % (inp[:200], err[-1500:]))
            v.case = {"input": inp.hex()}
            raise v
        if p.returncode != 0:
            raise HarnessError("libFuzzer failed: " + err[-1500:])
        done = 0
        for l in err.splitlines():
            if l.startswith("stat::number_of_executed_units:"):
                done = int(l.split(":")[-1])
        res = ctx.res
        res["evaluations"] += max(0, done - 1)
        for f in os.listdir(d + "/corpus"):
            res["distinct"].add("f" + hashlib.blake2b(open(d + "/corpus/" + f, "rb").read(),
                                                     digest_size=8).hexdigest())
        return True, ["fuzz run"]
