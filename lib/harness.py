"""Generic runner: shards a property's generated-input search over processes,
shrinks failures, replays them, writes evidence.

A check module (checks/<ID>.py) defines
    PROPERTY  = "C01"
    RULE      = text: how cases are made, what makes one non-trivial
    ASSUME    = [...]
    LEVEL     = "exploration" (default) or "fault_enumeration"
    PARTS     = [Part subclass instances]
"""
import hashlib, importlib, json, os, signal, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, "checks"))

NSHARDS = int(os.environ.get("VERIF_SHARDS", "8"))


class Part:
    name = "main"
    racy = False            # schedule-dependent: one reproduction is enough
    examples = {"quick": 100, "thorough": 2000}     # per shard
    cap = {"quick": 75, "thorough": 900}            # seconds per shard, safety net
    shards = None           # None: all; else number of shards that run this part
    fresh = False           # restart servers before every case
    history = 40            # cases kept for a replay that needs a prefix
    variants = ("plain",)   # server builds this part uses
    replay_tries = None
    shrinkable = True
    lists = ("ops", "ks")   # lists (of non-dicts too) whose elements may be dropped

    def generate(self, rng, ctx):
        """Make a JSON-able case."""
        raise NotImplementedError

    def valid(self, case):
        return True

    def setup(self, ctx):
        pass

    def teardown(self, ctx):
        pass

    def reset(self, ctx):
        """After a failure: bring everything back to a known state."""
        self.teardown(ctx)
        self.setup(ctx)

    def run(self, ctx, case):
        """Execute; raise yr.Violation; return (nontrivial, labels)."""
        raise NotImplementedError


class Ctx:
    def __init__(self, prop, tier, seed, shard, nshards):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.shard, self.nshards = shard, nshards
        self.counter = 0
        self.replay = False

    @property
    def quick(self):
        return self.tier == "quick"

    def cfgsel(self, options):
        """Pick a configuration by shard (a replay records the shard)."""
        return options[self.shard % len(options)]


# Besides Violation: what a driver meets when the server misbehaves in a way it
# did not foresee (connection errors, undecodable responses).  It counts only if
# the replay reproduces it.
import struct
import yr as _yr
CAUGHT = (_yr.Violation, OSError, struct.error, ValueError, IndexError, KeyError)


def describe(e):
    if isinstance(e, _yr.Violation):
        return str(e)[:3000]
    return ("unexpected %s: %s\n" % (type(e).__name__, e) + traceback.format_exc())[-3000:]


def jdump(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


# --------------------------------------------------------------------------
# one shard

def explore(ctx, part, res, stop_at):
    import random
    import yr

    n = max(1, int(part.examples[ctx.tier] * float(os.environ.get("VERIF_SCALE", "1"))))
    cap = min(stop_at, time.monotonic() + part.cap[ctx.tier])
    distinct = res["distinct"]
    labels = res["labels"]
    recent = []
    fail = None
    try:
        try:
            part.setup(ctx)
        except CAUGHT as e:
            fail = {"case": None, "msg": "setup: " + describe(e), "prefix": []}
            n = 0
        for i in range(n):
            if time.monotonic() > cap:
                res["capped"].append(part.name)
                break
            rng = random.Random("%d/%d/%s/%d" % (ctx.seed, ctx.shard, part.name, i))
            case = part.generate(rng, ctx)
            s = jdump(case)
            case = json.loads(s)
            ctx.counter += 1
            try:
                if part.fresh and i:
                    part.reset(ctx)
                r = part.run(ctx, case)
            except CAUGHT as e:
                own = getattr(e, "case", None)      # a case the part made itself
                fail = {"case": own if own is not None else json.loads(s), "msg": describe(e),
                        "prefix": [json.loads(x) for x in recent]}
                break
            nontrivial, labs = r if r is not None else (True, ())
            recent.append(s)
            del recent[:-part.history]
            res["evaluations"] += 1
            for l in labs:
                labels[l] = labels.get(l, 0) + 1
            if nontrivial:
                h = hashlib.blake2b(s.encode(), digest_size=8).hexdigest()
                if h not in distinct:
                    distinct.add(h)
                    if len(res["samples"]) < 2 and len(s) < 4000 and \
                            len(distinct) % 7 == 3:
                        res["samples"].append({"part": part.name, "case": json.loads(s)})
        if fail is not None:
            case, msg = fail["case"], fail["msg"]
            if case is not None:
                case, msg = shrink(ctx, part, case, msg)
            res["failures"].append({
                "property": ctx.prop, "part": part.name, "shard": ctx.shard,
                "seed": ctx.seed, "tier": ctx.tier, "case": case,
                "message": msg, "first": fail})
    finally:
        try:
            part.teardown(ctx)
        except Exception:
            yr.kill_all()


def reset_hard(ctx, part):
    import yr
    try:
        part.reset(ctx)
    except CAUGHT:
        yr.kill_all()
        part.setup(ctx)


def shrink(ctx, part, case, msg):
    """Greedy structural shrinking: drop elements of lists of operations, then
    simplify numbers and literals; every step must fail again."""
    import copy
    import yr
    end = time.monotonic() + (40 if ctx.tier == "quick" else 150)
    best = [case, msg]

    def fails(c):
        if time.monotonic() > end:
            return False
        try:
            if not part.valid(c):
                return False
        except Exception:
            return False
        ctx.counter += 1
        try:
            part.run(ctx, json.loads(jdump(c)))
        except CAUGHT as e:
            best[0], best[1] = c, describe(e)
            reset_hard(ctx, part)
            return True
        except Exception:
            reset_hard(ctx, part)
            return False
        if part.fresh:
            reset_hard(ctx, part)
        return False

    reset_hard(ctx, part)
    if not part.shrinkable or not fails(case):
        return case, msg

    def get(c, path):
        for x in path:
            c = c[x]
        return c

    def edit(path, v):
        c = copy.deepcopy(best[0])
        if not path:
            return v
        get(c, path[:-1])[path[-1]] = v
        return c

    def walk(c, path=()):
        yield path, c
        if isinstance(c, dict):
            for k in sorted(c):
                yield from walk(c[k], path + (k,))
        elif isinstance(c, list):
            for i in range(len(c)):
                yield from walk(c[i], path + (i,))

    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for path in [p for p, v in walk(best[0]) if isinstance(v, list) and v and
                     (isinstance(v[0], dict) or (p and p[-1] in part.lists))]:
            try:
                v = get(best[0], path)
            except (KeyError, IndexError):
                continue
            if not isinstance(v, list):
                continue
            size = max(1, len(v) // 2)
            while size >= 1:
                i = 0
                while i < len(get(best[0], path)):
                    v = get(best[0], path)
                    if fails(edit(path, v[:i] + v[i + size:])):
                        progress = True
                    else:
                        i += size
                    if time.monotonic() > end:
                        return best
                size //= 2
        for path in [p for p, v in walk(best[0])]:
            try:
                v = get(best[0], path)
            except (KeyError, IndexError, TypeError):
                continue
            cand = []
            if isinstance(v, bool):
                pass
            elif isinstance(v, int) and v > 0:
                cand = [0, 1, v // 2, v - 1]
            elif isinstance(v, str) and len(path) >= 2 and path[-1] == 1 and \
                    get(best[0], path[:-1])[0] == "l" and v:
                cand = ["", v[:len(v) // 2], v[:-1]]
            for x in cand:
                if x != v and fails(edit(path, x)):
                    progress = True
                    break
            if time.monotonic() > end:
                break
    return best


def load(prop):
    return importlib.import_module(prop)


def shard_main(prop, tier, seed, shard, nshards, out):
    import yr
    mod = load(prop)
    yr.set_port_base(shard)
    ctx = Ctx(prop, tier, seed, shard, nshards)
    res = {"evaluations": 0, "distinct": set(), "labels": {}, "samples": [],
           "failures": [], "capped": [], "error": None, "extra": {}, "parts": {},
           "known": []}
    ctx.res = res
    stop_at = time.monotonic() + (240 if tier == "quick" else 3000)
    try:
        for part in mod.PARTS:
            if part.shards is not None and shard >= part.shards:
                continue
            t0 = time.monotonic()
            e0 = res["evaluations"]
            explore(ctx, part, res, stop_at)
            res["parts"][part.name] = [res["evaluations"] - e0,
                                       round(time.monotonic() - t0, 2)]
            if res["failures"]:
                break
    except BaseException:
        res["error"] = traceback.format_exc()[-6000:]
    finally:
        yr.kill_all()
        yr.cleanup_scratch()
    res["distinct"] = sorted(res["distinct"])
    tmp = out + ".tmp"
    with open(tmp, "w") as fp:
        json.dump(res, fp)
    os.rename(tmp, out)


# --------------------------------------------------------------------------
# replay

def replay_once(path):
    """Run the recorded case in this process.  Returns message or None."""
    import yr
    with open(path) as fp:
        f = json.load(fp)
    mod = load(f["property"])
    part = [p for p in mod.PARTS if p.name == f["part"]][0]
    yr.set_port_base(20 + os.getpid() % 15)
    ctx = Ctx(f["property"], f["tier"], f["seed"], f["shard"], NSHARDS)
    ctx.replay = True
    ctx.res = {"labels": {}, "known": [], "extra": {}}
    try:
        part.setup(ctx)
        for c in f.get("prefix") or []:
            ctx.counter += 1
            part.run(ctx, c)
        ctx.counter += 1
        for _ in range(f.get("repeat", 1)):
            if f["case"] is not None:
                part.run(ctx, f["case"])
        return None
    except CAUGHT as e:
        return describe(e) or "violation"
    finally:
        yr.kill_all()
        yr.cleanup_scratch()


def replay_sub(path, timeout):
    cmd = [sys.executable, os.path.join(VERIF, "run.py"), "--replay-once", path]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.communicate()
        return None, "replay timed out"
    if p.returncode == 1:
        return True, o.strip()
    if p.returncode == 0:
        return False, ""
    return None, e[-2000:]


def confirm(fail, mod, log):
    """Replay a failure; return path of the replay file if it is reproducible."""
    part = [p for p in mod.PARTS if p.name == fail["part"]][0]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    cands = [dict(fail, prefix=[])]
    first = fail["first"]
    if first["case"] != fail["case"]:
        cands.append(dict(fail, case=first["case"], message=first["msg"], prefix=[]))
    if first["prefix"]:
        cands.append(dict(fail, case=first["case"], message=first["msg"],
                          prefix=first["prefix"]))
    budget = time.monotonic() + 150
    for c in cands:
        c.pop("first", None)
        name = "%s-%s.json" % (fail["property"],
                               hashlib.blake2b(jdump([c["part"], c["case"], c["prefix"]])
                                               .encode(), digest_size=6).hexdigest())
        path = os.path.join(VERIF, "replays", name)
        with open(path, "w") as fp:
            json.dump(c, fp, indent=1)
        tries = part.replay_tries or (12 if part.racy else 3)
        need = 1 if part.racy else 2
        got = 0
        for i in range(tries):
            if time.monotonic() > budget:
                break
            ok, msg = replay_sub(path, 120)
            log.append([name, ok, msg[:300]])
            if ok:
                got += 1
                if got >= need:
                    c["message"] = msg
                    with open(path, "w") as fp:
                        json.dump(c, fp, indent=1)
                    return path, msg
            elif not part.racy and (i + 1 - got) > tries - need:
                break
        os.unlink(path)
    return None, None


# --------------------------------------------------------------------------
# parent

def explore_all(prop, tier, sd, agg, distinct, known, errors):
    """Run all shards with seed `sd`; returns the failures."""
    import yr
    fails = []
    work = yr.scratch()
    procs = []
    for i in range(NSHARDS):
        out = os.path.join(work, "shard-%d.json" % i)
        err = open(os.path.join(work, "shard-%d.err" % i), "wb")
        p = subprocess.Popen([sys.executable, os.path.join(VERIF, "run.py"), "--shard",
                              prop, tier, str(sd), str(i), str(NSHARDS), out],
                             stdin=subprocess.DEVNULL, stdout=err, stderr=err,
                             start_new_session=True)
        procs.append((i, p, out))
    hard = time.monotonic() + (420 if tier == "quick" else 3600)
    failed_at = None
    results = {}
    try:
        while len(results) < len(procs):
            for i, p, out in procs:
                if i in results or p.poll() is None:
                    continue
                if os.path.exists(out):
                    with open(out) as fp:
                        results[i] = json.load(fp)
                    if results[i]["failures"] and failed_at is None:
                        failed_at = time.monotonic()
                else:
                    results[i] = None
                    with open(os.path.join(work, "shard-%d.err" % i)) as fp:
                        errors.append("shard %d exited %r: %s" % (i, p.returncode,
                                                                  fp.read()[-3000:]))
            now = time.monotonic()
            if failed_at is not None and now > failed_at + 5:
                break
            if now > hard:
                errors.append("time limit")
                break
            time.sleep(0.05)
    finally:
        for i, p, out in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
    # give killed servers' descendants a chance (they share the sessions)
    for i in sorted(results):
        r = results[i]
        if not r:
            continue
        agg["evaluations"] += r["evaluations"]
        distinct.update(r["distinct"])
        for k, v in r["labels"].items():
            agg["labels"][k] = agg["labels"].get(k, 0) + v
        agg["samples"] += r["samples"]
        agg["capped"] += r["capped"]
        for k, v in r["parts"].items():
            a = agg["parts"].setdefault(k, {"cases": 0, "max_s": 0})
            a["cases"] += v[0]
            a["max_s"] = max(a["max_s"], v[1])
        for k, v in r["extra"].items():
            if isinstance(v, (int, float)):
                agg["extra"][k] = agg["extra"].get(k, 0) + v
            else:
                agg["extra"].setdefault(k, v)
        for k in r["known"]:
            if k not in known:
                known.append(k)
        fails += r["failures"]
        if r["error"]:
            errors.append("shard %d: %s" % (i, r["error"]))
    return fails


def main(prop, tier, seed):
    t0 = time.monotonic()
    import build
    import yr
    mod = load(prop)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    try:
        os.unlink(ev_path)
    except OSError:
        pass
    # build everything first, once
    vs = []
    for p in mod.PARTS:
        for v in p.variants:
            if v not in vs:
                vs.append(v)
    for v in vs:
        if v:
            build.server(v)
    if hasattr(mod, "prebuild"):
        mod.prebuild()
    agg = {"evaluations": 0, "labels": {}, "samples": [], "parts": {}, "capped": [],
           "extra": {}}
    distinct = set()
    failures = []
    known = []
    errors = []
    log = []
    viol = None
    # A failure counts when its case, or the cases before it and it, fail again.
    # When none does (the outcome depends on timing), everything is explored once
    # more with another seed, and a second failure counts as it is.
    for attempt in range(2):
        fails = explore_all(prop, tier, seed + 1000003 * attempt, agg, distinct, known,
                            errors)
        failures += fails
        for f in fails:
            path, msg = confirm(f, mod, log)
            if path:
                viol = (path, msg)
                break
            if len(log) > 24 * (attempt + 1) or \
                    (tier == "quick" and time.monotonic() - t0 > 250 * (attempt + 1)):
                break
        if viol or not fails or errors:
            break
        if attempt and len(failures) > 1:
            f = dict(fails[0])
            f.pop("first", None)
            f.setdefault("prefix", [])
            path = os.path.join(VERIF, "replays", "%s-timing.json" % prop)
            with open(path, "w") as fp:
                json.dump(f, fp, indent=1)
            viol = (path, "(not reproduced in single runs) " + f["message"])

    if hasattr(mod, "finish"):
        mod.finish(agg, tier)
    samples = []
    for s in agg["samples"]:
        if len(jdump(samples)) < 12000:
            samples.append(s)
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": agg["evaluations"],
                       "distinct_nontrivial": len(distinct),
                       "rule": mod.RULE, "samples": samples[:6],
                       "labels": agg["labels"], "parts": agg["parts"],
                       "shards": NSHARDS},
          "assumptions": mod.ASSUME, "wall_s": round(time.monotonic() - t0, 2),
          "violations": 1 if viol else 0}
    if agg["extra"]:
        ev["coverage"]["extra"] = agg["extra"]
    if agg["capped"]:
        ev["coverage"]["parts_stopped_by_time_cap"] = sorted(agg["capped"])
    if log:
        ev["coverage"]["replays"] = log[:30]
    if failures and not viol:
        ev["coverage"]["unreproduced"] = [
            {"part": f["part"], "message": f["message"][:400]} for f in failures][:5]
    if errors:
        ev["coverage"]["errors"] = [e[-1500:] for e in errors[:4]]
    with open(ev_path, "w") as fp:
        json.dump(ev, fp, indent=1)
    yr.cleanup_scratch()

    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        print(viol[1][:1500])
        print("VIOLATION property=%s replay=%s" % (prop, viol[0]))
        return 1
    if errors:
        for e in errors:
            sys.stderr.write(e + "\n")
        return 2
    for f in failures:
        try:
            with open(os.path.join(VERIF, "replays", "unreproduced-%s.json" % prop), "w") as fp:
                json.dump(f, fp)
        except OSError:
            pass
        sys.stderr.write("unreproduced failure (%s): %s\n" % (f["part"], f["message"][:500]))
    print("%s %s ok: %d cases, %d distinct non-trivial, %.1fs" % (
        prop, tier, agg["evaluations"], len(distinct), time.monotonic() - t0))
    return 0
