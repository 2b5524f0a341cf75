"""C09-C15: deduction, probability, classification, matrices, solvable boards."""
import random
import re

INV = "TruthPossible Exact Regions Deductive Staged"


def mc(ctx, sizes):
    for nr, nc, marks in sizes:
        ctx.tlc("MCSolver", "SPECIFICATION Spec\nCONSTANTS NR = %d NC = %d Marks = %s MaxMines = 99\nINVARIANTS %s\nPROPERTY Learning" %
                (nr, nc, marks, INV), name="MCSolver_%dx%d_%s" % (nr, nc, marks))


def dump(ctx, sizes):
    """Positions the specification's player can reach, written for the harness."""
    fn = ctx.path("positions.txt")
    rng = random.Random(ctx.seed)
    total = 0
    with open(fn, "w") as f:
        for nr, nc, marks, keep in sizes:
            out = ctx.tlc("MCSolver", "SPECIFICATION Spec\nCONSTANTS NR = %d NC = %d Marks = %s MaxMines = 99\nINVARIANTS DumpPos" %
                          (nr, nc, marks), name="Positions_%dx%d_%s" % (nr, nc, marks))
            seen = sorted(set(l for l in out.splitlines() if l.startswith('<<"POS"')))
            total += len(seen)
            if len(seen) > keep:
                seen = rng.sample(seen, keep)
            for l in seen:
                v = re.findall(r"\d+", l)
                f.write("%s %d %d %s\n" % (v[0], nr, nc, " ".join(v[1:])))
    ctx.extra["positions_enumerated_by_the_specification"] = total
    return fn


def run(ctx, what, inv, pos, n, pad=0):
    tf = ctx.path(what + ".ndjson")
    ctx.harness("solver", "run", what, pos, tf, ctx.seed + pad, n, 100)
    ctx.tlc("TraceSolver", "SPECIFICATION Spec\nINVARIANTS " + inv, trace=tf, name="Trace_" + what)
    ctx.count(tf)
    ctx.sample(tf, 2)


SMALL_MC = [(2, 3, "TRUE"), (1, 5, "TRUE")]
DEEP_MC = [(2, 4, "TRUE"), (3, 3, "FALSE"), (1, 8, "TRUE")]


def models(ctx):
    mc(ctx, ctx.scale(SMALL_MC, SMALL_MC + DEEP_MC))


def c09(ctx):
    models(ctx)
    pos = dump(ctx, ctx.scale([(2, 4, "TRUE", 1500), (3, 4, "FALSE", 1500)],
                              [(2, 4, "TRUE", 30000), (3, 4, "FALSE", 30000), (1, 9, "TRUE", 9000)]))
    run(ctx, "ded", "Sound Contradiction ContraProb", pos, ctx.scale(3000, 60000))


def c10(ctx):
    models(ctx)
    pos = dump(ctx, ctx.scale([(2, 4, "TRUE", 1500), (3, 4, "FALSE", 1500)],
                              [(2, 4, "TRUE", 30000), (3, 4, "FALSE", 30000), (1, 9, "TRUE", 9000)]))
    run(ctx, "ded", "Complete", pos, ctx.scale(3000, 60000), 11)


def c11(ctx):
    models(ctx)
    pos = dump(ctx, ctx.scale([(2, 4, "TRUE", 1500), (3, 4, "FALSE", 1500)],
                              [(2, 4, "TRUE", 30000), (3, 4, "FALSE", 30000), (1, 9, "TRUE", 9000)]))
    run(ctx, "poss", "Probability", pos, ctx.scale(2500, 40000))
    run(ctx, "ded", "PossBoard", "-", ctx.scale(1200, 20000), 5)


def c12(ctx):
    models(ctx)
    pos = dump(ctx, ctx.scale([(2, 4, "TRUE", 800), (3, 4, "FALSE", 800)],
                              [(2, 4, "TRUE", 20000), (3, 4, "FALSE", 20000), (1, 9, "TRUE", 5000)]))
    run(ctx, "op", "Opening", pos, ctx.scale(2500, 40000))


def c14(ctx):
    models(ctx)
    pos = dump(ctx, ctx.scale([(2, 4, "FALSE", 1500), (3, 4, "FALSE", 2500)],
                              [(2, 4, "FALSE", 2000), (3, 4, "FALSE", 60000), (1, 9, "FALSE", 9000), (3, 3, "FALSE", 9000)]))
    run(ctx, "guess", "Guess", pos, ctx.scale(3000, 60000))


def c15(ctx):
    models(ctx)
    pos = dump(ctx, ctx.scale([(2, 4, "TRUE", 1500), (3, 4, "FALSE", 1500)],
                              [(2, 4, "TRUE", 30000), (3, 4, "FALSE", 30000), (1, 9, "TRUE", 9000)]))
    run(ctx, "mat", "Matrix", pos, ctx.scale(6000, 80000))


REQUESTS = ([(4, 4, n, 1, 1) for n in (1, 2, 3, 6, 10, 12)] + [(4, 4, n, 1, 2) for n in (1, 2, 5, 8, 10)] +
            [(4, 4, n, 2, 2) for n in (1, 3, 5, 7)] + [(4, 5, n, 2, 3) for n in (1, 2, 9, 10, 11)] +
            [(5, 5, n, 1, 1) for n in (1, 2, 20, 21)] + [(6, 6, n, 2, 2) for n in (1, 26, 27)])
MORE = [(4, 4, n, 1, 1) for n in (4, 5, 7, 8, 9, 11)] + [(4, 5, n, 2, 3) for n in (3, 4, 5, 6, 7, 8)] + [(6, 6, n, 2, 2) for n in (2, 25)]


def requests(ctx):
    reqs = ctx.scale(REQUESTS, REQUESTS + MORE)
    rf, jf = ctx.path("requests.txt"), ctx.path("requests.ndjson")
    with open(rf, "w") as f, open(jf, "w") as g:
        for r, c, m, x, y in reqs:
            f.write("%d %d %d %d %d\n" % (r, c, m, x, y))
            g.write('{"r":%d,"c":%d,"n":%d,"p":[%d,%d]}\n' % (r, c, m, x, y))
    return rf, jf


def budgets(ctx, which, n):
    """Answers of a generator under attempt limits, where the specification can say which must succeed."""
    rf, jf = requests(ctx)
    tf = ctx.path(which + ".ndjson")
    ctx.harness("solver", "threads", tf, ctx.seed, n, rf, which)
    ctx.tlc("TraceThreads", "SPECIFICATION Spec\nINVARIANTS Delivered Answered", trace=tf, env_extra={"REQUESTS": jf},
            name="Trace_" + which)
    ctx.count(tf)
    ctx.sample(tf, 1)


def c27(ctx):
    for w, b in ctx.scale([(2, 5), (3, 4)], [(2, 8), (3, 7), (4, 5)]):
        ctx.tlc("Threads", "SPECIFICATION Spec\nCONSTANTS Workers = %d Budget = %d\nINVARIANTS NoneLeft Success Exhausted WithinBudget OneLast\n"
                "INVARIANT SharesAddUp\nPROPERTIES Answers" % (w, b), name="Threads_%d_%d" % (w, b))
    budgets(ctx, "many", ctx.scale(4000, 60000))


def c13(ctx):
    models(ctx)
    rng = random.Random(ctx.seed)
    bf = ctx.path("boards.txt")
    every = list(range(1 << 16))
    some = ctx.scale(rng.sample(every, 6000), every)
    with open(bf, "w") as f:
        for m in some:
            f.write("4 4 " + " ".join("%d %d" % (i // 4 + 1, i % 4 + 1) for i in range(16) if m >> i & 1) + "\n")
    tf = ctx.path("solv.ndjson")
    ctx.harness("solver", "solvable", bf, tf, ctx.seed, ctx.scale(5000, 80000), 100)
    ctx.tlc("TraceSolver", "SPECIFICATION Spec\nINVARIANTS Solvable NotTooStrict StructureStuck", trace=tf, name="Trace_solv")
    ctx.count(tf)
    ctx.sample(tf, 1)
    tf = ctx.path("gen.ndjson")
    ctx.harness("solver", "generators", tf, ctx.seed, ctx.scale(2500, 30000))
    ctx.tlc("TraceSolver", "SPECIFICATION Spec\nINVARIANTS Generated", trace=tf, name="Trace_gen")
    ctx.count(tf)
    ctx.sample(tf, 1)
    budgets(ctx, "single", ctx.scale(1500, 20000))


SIZE = "random positions are kept to sizes whose blocks have at most 26 cells and some thousand arrangements"
CHECKS = {
    "C09": (c09, ["positions have at least one arrangement (the contradiction clause excepted)", SIZE]),
    "C10": (c10, ["positions have at least one arrangement", SIZE]),
    "C11": (c11, ["positions have at least one arrangement", SIZE, "values are compared with a tolerance of 2e-6"]),
    "C12": (c12, ["some arrangement has the given number of mines, at least 1", SIZE,
                  "values are compared with a tolerance of 1e-5"]),
    "C13": (c13, ["boards have at least 4 rows and 4 columns", "requests leave the start cell free of mines"]),
    "C14": (c14, ["positions have at least one arrangement", SIZE]),
    "C27": (c27, ["threads are scheduled by the operating system: every schedule is explored in the model, the real ones are sampled",
                  "an answer of failure against odds of e^-40 counts as wrong"]),
    "C15": (c15, ["positions have at least one arrangement", SIZE]),
}
