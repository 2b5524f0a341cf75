"""C01-C06: the game state machine."""
import random, re

GAME_EVENTS = '{"mv","lc","lr","l","rc","rr","r","mc","mr","m","cc","crl","crr","pf"}'

# property -> (trace invariants, model invariants, model action properties)
GAME = {
    "C01": ("Lifecycle", "InvType InvOutcome", "StopsAtEnd LifecycleEdges"),
    "C02": ("Displayed", "InvType InvTruth InvOutcome", "Monotone"),
    "C03": ("Clicks", "InvType InvCounters", "CounterSteps"),
    "C04": ("Progress", "InvType InvCounters", "Monotone"),
    "C05": ("MouseAutomaton", "InvType", "MouseEdges"),
    "C06": ("Level", "InvType", "RetMeaning"),
}


def mc_cfg(nr, nc, invs, props, extra=""):
    return """SPECIFICATION Spec
CONSTANTS NR = %d NC = %d
EventSet = %s
VIEW View
INVARIANTS %s
PROPERTIES %s
%s""" % (nr, nc, GAME_EVENTS, invs, props, extra)


def dump_paths(ctx, nr, nc, name):
    """One event path per distinct specification state, from TLC."""
    cfg = """SPECIFICATION Spec
CONSTANTS NR = %d NC = %d
EventSet = %s
VIEW View
INVARIANTS DumpPath
""" % (nr, nc, GAME_EVENTS)
    out = ctx.tlc("MCGame", cfg, name=name, workers=4)
    paths = []
    for l in out.splitlines():
        m = re.match(r'"PATH (\d+) (\d+) \{(.*?)\} <<(.*)>>"$', l.replace("\\\"", "'"))
        if not m:
            continue
        mines = re.findall(r"<<(\d+), (\d+)>>", m.group(3))
        evs = re.findall(r"<<'(\w+)', (\d+), (\d+)>>", m.group(4))
        paths.append("%s %s %s%s" % (m.group(1), m.group(2), " ".join(" ".join(x) for x in mines),
                                     "".join(";%s %s %s" % e for e in evs)))
    return paths


TRACE_CFG = "SPECIFICATION Spec\nINVARIANTS %s"


def game_check(ctx):
    tinv, minv, mprop = GAME[ctx.prop]
    # 1. the specification itself, exhaustively on small boards
    sizes = ctx.scale([(2, 2), (1, 4)], [(2, 2), (1, 4), (1, 5), (3, 1)])
    for nr, nc in sizes:
        ctx.tlc("MCGame", mc_cfg(nr, nc, minv, mprop), name="MCGame_%dx%d" % (nr, nc))
    # 2. every transition of the specification's state graph, replayed into the code
    total = 0
    for (nr, nc), pq, pt in [((1, 3), 30, 100), ((2, 2), 2, 60), ((3, 1), 10, 100)]:
        paths = dump_paths(ctx, nr, nc, "Paths_%dx%d" % (nr, nc))
        total += len(paths)
        pf, tf = ctx.path("paths%d%d.txt" % (nr, nc)), ctx.path("tree%d%d.ndjson" % (nr, nc))
        with open(pf, "w") as f:
            f.write("\n".join(paths) + "\n")
        ctx.harness("game", "tree", pf, tf, ctx.seed, ctx.scale(pq, pt))
        ctx.tlc("TraceGame", TRACE_CFG % tinv, trace=tf, name="Tree_%dx%d" % (nr, nc))
        ctx.count(tf)
        # ... and random events on from there
        tf = ctx.path("after%d%d.ndjson" % (nr, nc))
        ctx.harness("game", "after", pf, tf, ctx.seed, ctx.scale(2500, 40000), ctx.scale(8, 12))
        ctx.tlc("TraceGame", TRACE_CFG % (tinv + " ModelSane"), trace=tf, name="After_%dx%d" % (nr, nc))
        ctx.count(tf)
    ctx.extra["spec_states_replayed"] = total
    # 3. random play on larger boards
    tf = ctx.path("walks.ndjson")
    ctx.harness("game", "walks", tf, ctx.seed, ctx.scale(3000, 60000), ctx.scale(40, 80))
    ctx.tlc("TraceGame", TRACE_CFG % (tinv + " ModelSane"), trace=tf, name="Walks")
    ctx.count(tf)
    ctx.sample(tf)
    # ... and on boards longer than a byte counts
    tf = ctx.path("wide.ndjson")
    ctx.harness("game", "wide", tf, ctx.seed, ctx.scale(80, 1500), ctx.scale(30, 80))
    ctx.tlc("TraceGame", TRACE_CFG % tinv, trace=tf, name="Wide")
    ctx.count(tf)
    # 4. opening cells of any displayed board, several at once, known-safe marks included
    if ctx.prop == "C02":
        tf = ctx.path("flood.ndjson")
        ctx.harness("metrics", "flood", tf, ctx.seed, ctx.scale(4000, 60000))
        ctx.tlc("TraceMetrics", TRACE_CFG % "Flooding", trace=tf, name="Flood")
        ctx.count(tf)


GAME_ASSUME = ["positions are cells of the board or the out-of-board position (rows, columns)",
               "a pre-flag event lands on a closed, unflagged cell"]
CHECKS = {p: (game_check, GAME_ASSUME) for p in GAME}
