"""C33, C34: the Python and the JavaScript interface, against the same specification as the library."""
import concurrent.futures as cf
import os
import common
import solver_checks


class Runs:
    """jobs that share nothing, four at a time"""
    def __init__(self, ctx, backend, many):
        self.ctx, self.backend, self.many = ctx, backend, many
        self.pool = cf.ThreadPoolExecutor(4)
        self.jobs = []

    def go(self, *a, **b):
        self.jobs.append(self.pool.submit(self.one, *a, **b))

    def one(self, kind, name, module, inv, *args, env=None, tlc_env=None):
        """record a trace (OUT among the arguments), let the interface answer, decide"""
        ctx = self.ctx
        own = ctx.path("own-" + name)
        os.makedirs(own)
        tf = ctx.path(name + ".ndjson")
        ctx.harness(*[tf if a == "OUT" else a for a in args], env_extra=dict(env or {}, HARNESS_DIR=own))
        got = ctx.mirror(self.backend, kind, tf)
        ctx.tlc(module, "SPECIFICATION Spec\nINVARIANTS " + inv, trace=got, name="Seen_" + name, workers=3, heap="4g", env_extra=tlc_env)
        ctx.count(got)
        if self.many > 0:
            self.many -= 1
            ctx.sample(got, 1, 400)
        os.remove(tf)
        os.remove(got)

    def wait(self):
        """the first failure ends it; a violation goes before a trouble of the tools"""
        bad = []
        for f in cf.as_completed(self.jobs):
            if f.cancelled():
                continue
            e = f.exception()
            if e is not None:
                bad.append(e)
                for g in self.jobs:
                    g.cancel()
        self.pool.shutdown()
        if bad:
            raise next((e for e in bad if isinstance(e, common.Violation)), bad[0])


def c33(ctx):
    r = Runs(ctx, common.build_python(), 4)
    s, k = ctx.seed, ctx.scale(1, 12)
    r.go("game", "walks", "TraceBound", "ShownState ShownHand Displayed Clicks Progress Planes", "game", "walks", "OUT", s, 700 * k, 40)
    r.go("game", "wide", "TraceBound", "ShownState ShownHand Displayed Clicks Progress Planes", "game", "wide", "OUT", s, 60 * k, 30)
    r.go("metrics", "metrics", "TraceMetrics", "Metrics", "metrics", "random", "OUT", s, 1200 * k)
    r.go("flood", "flood", "TraceMetrics", "Flooding", "metrics", "flood", "OUT", s, 700 * k)
    r.go("lay", "lay", "TraceMetrics", "Lay", "metrics", "lay", "OUT", s, 3000 * k)
    r.go("sample", "sample", "TraceMetrics", "Sampled", "metrics", "sample", "OUT", s, 500 * k, 20)
    r.go("solver", "ded", "TraceSolver", "Sound Complete PossBoard ContraProb", "solver", "run", "ded", "-", "OUT", s, 700 * k, 100)
    r.go("poss", "poss", "TraceSolver", "MarkedFirst", "solver", "run", "poss", "-", "OUT", s, 500 * k, 100)
    r.go("guess", "guess", "TraceSolver", "Guess", "solver", "run", "guess", "-", "OUT", s, 250 * k, 100)
    r.go("mat", "mat", "TraceSolver", "Equations", "solver", "run", "mat", "-", "OUT", s, 900 * k, 100)
    boards = ctx.path("none.txt")
    open(boards, "w").close()
    r.go("solv", "solv", "TraceSolver", "Solvable NotTooStrict StructureStuck", "solver", "solvable", boards, "OUT", s, 1500 * k, 100)
    r.go("gen", "gen", "TraceSolver", "Generated", "solver", "generators", "OUT", s, 700 * k)
    rf, jf = solver_checks.requests(ctx)
    r.go("threads", "single", "TraceThreads", "Delivered Answered", "solver", "threads", "OUT", s, 900 * k, rf, "single", tlc_env={"REQUESTS": jf})
    r.go("threads", "many", "TraceThreads", "Delivered Answered", "solver", "threads", "OUT", s, 900 * k, rf, "many", tlc_env={"REQUESTS": jf})
    r.go("live", "live", "TraceLive", "LoggedThere ShownThere Revealed Clock HeadThere Stamps ReadThere Attached FinalThere", "video", "live", "OUT", s, 260 * k, 40)
    files(r, s, k, "EvfAgain")
    timed(r, s, k, "Analysed ReplayTimed Playback PlaybackOdds ByNumber")
    for fmt in ("avf", "rmv", "mvf"):
        r.go("convert", fmt + "_evf", "TraceFiles", "Converted HeadKept", "files", "convert", fmt, "OUT", s, 120 * k)
    for fmt, n in (("evf", 120), ("avf", 40), ("rmv", 40), ("mvf", 40)):
        r.go("notes", "notes_" + fmt, "TraceNotes", "Fine Guesses Luck LookAway Crooked Textbook Together", "video", "notes", "OUT", s, n * k, 30,
             env={"HARNESS_FMT": fmt, "HARNESS_RAW": "1"})
    r.wait()


def files(r, s, k, more):
    inv = "ReadsOrRefuses EvfRead %s AvfRead RmvRead MvfRead" % more
    r.go("files", "evf", "TraceFiles", inv, "files", "evf", "OUT", s, 250 * k, 24)
    for fmt in ("avf", "rmv", "mvf"):
        r.go("files", fmt, "TraceFiles", inv, "files", "read", fmt, "OUT", s, 250 * k)
    for fmt in ("evf", "avf", "rmv", "mvf"):
        r.go("files", fmt + "_broken", "TraceFiles", inv, "files", "broken", fmt, "OUT", s, 6 * k)


def timed(r, s, k, inv):
    for fmt, n in (("evf", 120), ("avf", 50), ("rmv", 50), ("mvf", 50)):
        r.go("timed", "timed_" + fmt, "TraceReplay", inv, "video", "timed", "OUT", s, n * k, 40, 30,
             env={"HARNESS_FMT": fmt, "HARNESS_RAW": "1"})


def c34(ctx):
    r = Runs(ctx, "wasm:" + common.build_wasm(), 4)
    s, k = ctx.seed, ctx.scale(1, 12)
    r.go("game", "walks", "TraceBound", "ShownState ShownHand Displayed Clicks Progress", "game", "walks", "OUT", s, 900 * k, 40)
    r.go("game", "wide", "TraceBound", "ShownState ShownHand Displayed Clicks Progress", "game", "wide", "OUT", s, 60 * k, 30)
    r.go("metrics", "metrics", "TraceMetrics", "Metrics", "metrics", "random", "OUT", s, 1200 * k)
    r.go("lay", "lay", "TraceMetrics", "Lay", "metrics", "lay", "OUT", s, 3000 * k)
    r.go("poss", "poss", "TraceSolver", "Odds", "solver", "run", "poss", "-", "OUT", s, 600 * k, 100)
    r.go("gen", "gen", "TraceSolver", "Generated", "solver", "generators", "OUT", s, 900 * k)
    rf, jf = solver_checks.requests(ctx)
    r.go("threads", "single", "TraceThreads", "Delivered Answered", "solver", "threads", "OUT", s, 900 * k, rf, "single", tlc_env={"REQUESTS": jf})
    r.go("review", "review", "TraceReview", "Judged", "video", "review", "OUT", s, 1500 * k, env={"HARNESS_RAW": "1"})
    files(r, s, k, "")
    timed(r, s, k, "Analysed ReplayTimed Playback PlaybackOdds ByNumber")
    r.wait()


SPECONLY = "what the interface does not show (such as the cell size of a file) is not decided here"
CHECKS = {
    "C33": (c33, ["the Python of this machine (3.12) stands for the others", SPECONLY]),
    "C34": (c34, ["the interface is built for this machine instead of WebAssembly and called from Rust", SPECONLY]),
}
