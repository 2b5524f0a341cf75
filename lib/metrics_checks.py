"""C07, C08, C26: static metrics, mine laying, the protected board."""
import re


def mc_grid(ctx, nr, nc, dump=False):
    inv = "LegalBoard LowerBound SolvedAtMost SolvedAll Reachable Partition Symmetric" if not dump else "DumpBoard"
    return ctx.tlc("MCGrid", "SPECIFICATION Spec\nCONSTANTS NR = %d NC = %d\nINVARIANTS %s%s" %
                   (nr, nc, inv, "\nCONSTRAINT AtStart" if dump else ""), name="MCGrid_%dx%d%s" % (nr, nc, "_dump" if dump else ""))


def dump_boards(ctx, sizes, fn):
    n = 0
    with open(fn, "w") as f:
        for nr, nc in sizes:
            out = mc_grid(ctx, nr, nc, dump=True)
            for l in out.splitlines():
                m = re.match(r'<<"BOARD", (\d+), (\d+), \{(.*)\}>>', l)
                if m:
                    f.write("%s %s %s\n" % (m.group(1), m.group(2), " ".join(re.findall(r"\d+", m.group(3)))))
                    n += 1
    return n


def run(ctx, inv, *args):
    tf = ctx.path(args[0] + ".ndjson")
    ctx.harness("metrics", args[0], *[tf if a == "OUT" else a for a in args[1:]])
    ctx.tlc("TraceMetrics", "SPECIFICATION Spec\nINVARIANTS " + inv, trace=tf, name="Trace_" + args[0])
    ctx.count(tf)
    ctx.sample(tf)


def c07(ctx):
    for s in ctx.scale([(2, 3), (1, 6)], [(2, 3), (1, 8), (2, 4), (3, 3)]):
        mc_grid(ctx, *s)
    bf = ctx.path("boards.txt")
    ctx.extra["boards_enumerated_by_the_specification"] = dump_boards(
        ctx, ctx.scale([(1, 7), (3, 3), (2, 5), (3, 4)], [(1, 9), (5, 1), (3, 3), (2, 6), (3, 4), (4, 4)]), bf)
    run(ctx, "Metrics", "boards", bf, "OUT", ctx.seed)
    run(ctx, "Metrics", "random", "OUT", ctx.seed, ctx.scale(4000, 60000))


def c08(ctx):
    mc_grid(ctx, 2, 3)
    run(ctx, "Lay", "lay", "OUT", ctx.seed, ctx.scale(20000, 300000))
    occurs(ctx, 0, ctx.scale(LAYOUTS, LAYOUTS + [(4, 4, 3), (4, 5, 4)]), "layouts")
    occurs(ctx, 1, ctx.scale(OPENINGS, OPENINGS + [(5, 5, 3), (6, 4, 6)]), "openings")


LAYOUTS = [(2, 2, 1), (2, 2, 3), (1, 7, 1), (1, 7, 3), (6, 1, 2), (3, 3, 2), (3, 3, 4), (3, 3, 8), (2, 4, 3), (4, 3, 9), (3, 4, 2)]
OPENINGS = [(3, 3, 2), (3, 4, 3), (1, 8, 2), (7, 1, 3), (4, 4, 2), (4, 4, 5), (5, 3, 2), (2, 6, 4)]


def every(ctx, which, sizes):
    """Requests with few layouts, made so often that a layout missing has odds below e^-45."""
    from math import comb
    fn = ctx.path("requests.txt")
    with open(fn, "w") as f:
        for r, c, n in sizes:
            for x, y in {(1, 1), (r, c), ((r + 1) // 2, c), (1, (c + 1) // 2), ((r + 1) // 2, (c + 1) // 2)}:
                free = r * c - 1
                if which == 1:
                    free = r * c - (min(r, x + 1) - max(1, x - 1) + 1) * (min(c, y + 1) - max(1, y - 1) + 1)
                if n <= free:
                    f.write("%d %d %d %d %d %d %d\n" % (which, r, c, n, x, y, 60 * comb(free, n)))
    return fn


def occurs(ctx, which, sizes, name):
    tf = ctx.path(name + ".ndjson")
    ctx.harness("metrics", "every", tf, every(ctx, which, sizes))
    ctx.tlc("TraceMetrics", "SPECIFICATION Spec\nINVARIANTS Occurs", trace=tf, name="Trace_" + name)
    ctx.count(tf)


def c32(ctx):
    run(ctx, "Sampled AsHard Counted", "sample", "OUT", ctx.seed, ctx.scale(4000, 100000), ctx.scale(250000, 1500000))


def c26(ctx):
    mc_grid(ctx, 2, 3)
    run(ctx, "Protected", "safe", "OUT", ctx.seed, ctx.scale(6000, 80000))
    run(ctx, "Metrics", "random", "OUT", ctx.seed + 1, ctx.scale(1500, 20000))


CHECKS = {"C32": (c32, ["the distribution of the sampled 3BV is compared with that of as many boards laid by laymine with the same start; that a difference is noticed is a matter of statistics (about a shift of 0.7 in 3BV is seen)"]),
          "C07": (c07, ["boards are rectangles with at least one row and one column"]),
          "C08": (c08, ["the request is feasible: N < R*C, or N <= R*C - size of the start's neighbourhood; "
                        "that every layout can occur is checked on small requests made very often"]),
          "C26": (c26, ["cell values are the documented codes (-3..8, 10..16)"])}
