"""Common Part base classes."""
import yr
from harness import Part
from model import Engine
from yr import Violation


class ServerPart(Part):
    """Keeps one server per shard; each case uses its own key prefix."""
    cfg = {}
    server_kw = {}

    def config(self, ctx):
        return dict(self.cfg)

    def server_args(self, ctx):
        return dict(self.server_kw)

    def setup(self, ctx):
        self.s = yr.Server(self.config(ctx), variant=self.variants[0],
                           **self.server_args(ctx))
        self.conns = {}

    def teardown(self, ctx):
        s = getattr(self, "s", None)
        if s is not None:
            self.s = None
            s.destroy()
        self.conns = {}


class ModelPart(ServerPart):
    """Runs {"ops": [...]} cases with the reference model."""
    nconn = 4
    verify_end = True
    keys = None

    def engine(self, ctx, case):
        e = Engine(self.s, prefix=b"%d." % ctx.counter, keys=self.keys_for(ctx, case))
        e.conns = self.conns
        return e

    def keys_for(self, ctx, case):
        return self.keys

    def after(self, ctx, case, e):
        pass

    def nontrivial(self, e):
        return True

    def labels(self, e):
        return sorted(e.stat)

    def run(self, ctx, case):
        e = self.engine(ctx, case)
        e.run(case["ops"])
        self.after(ctx, case, e)
        if self.verify_end:
            e.verify()
        e.finish()
        for c in [c for c in self.conns if c not in ("x",) and not isinstance(c, int)]:
            pass
        self.s.check_alive()
        return self.nontrivial(e), self.labels(e)
