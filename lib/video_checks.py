"""C16-C25, C29: recorder, files, replay, playback, annotations."""
import json


SEVEN = '{"mv","lc","lr","rc","rr","mc","mr","cc","pf"}'
MOUSE5 = '{"mv","lc","lr","rc","rr"}'
MIXED6 = '{"lc","lr","cc","mc","mr","pf"}'
CLICKS = '{"lc","lr","rc"}'


def mc(ctx, invs, props, quick, thorough, name="MCVideo"):
    """(rows, columns, longest log, event set, header?) instances of the recorder model"""
    runs = ctx.scale(quick, quick + thorough)
    for n, (nr, nc, ml, es, hdr) in enumerate(runs):
        ctx.tlc("MCVideo", "SPECIFICATION Spec\nCONSTANTS NR = %d NC = %d PIX = 2 MaxLog = %d EventSet = %s Header = %s\n"
                "INVARIANTS %s\nPROPERTIES %s\nCONSTRAINT Bound" % (nr, nc, ml, es, hdr, invs, props),
                name="%s_%dx%d_%d_%d" % (name, nr, nc, ml, n))


def live(ctx, inv, n):
    tf = ctx.path("live.ndjson")
    ctx.harness("video", "live", tf, ctx.seed, n, 60)
    ctx.tlc("TraceVideo", "SPECIFICATION Spec\nINVARIANTS " + inv, trace=tf, name="Trace_live")
    ctx.count(tf)
    ctx.sample(tf, 1)


def games(ctx, inv, n, pad=0):
    tf = ctx.path("games.ndjson")
    ctx.harness("video", "replay", tf, ctx.seed + pad, n, 40)
    ctx.tlc("TraceReplay", "SPECIFICATION Spec\nINVARIANTS " + inv, trace=tf, name="Trace_games")
    ctx.count(tf)
    ctx.sample(tf, 1)
    return tf


def timed(ctx, inv, n, seeks, pad=0):
    tf = ctx.path("timed.ndjson")
    ctx.harness("video", "timed", tf, ctx.seed + pad, n, 40, seeks)
    ctx.tlc("TraceReplay", "SPECIFICATION Spec\nINVARIANTS " + inv, trace=tf, name="Trace_timed")
    ctx.count(tf)
    ctx.sample(tf, 1)
    # the same games in the files of other programs
    for fmt in ("avf", "rmv", "mvf"):
        tf = ctx.path("timed_%s.ndjson" % fmt)
        ctx.harness("video", "timed", tf, ctx.seed + pad + 1, max(30, n // 4), 40, seeks, env_extra={"HARNESS_FMT": fmt})
        ctx.tlc("TraceReplay", "SPECIFICATION Spec\nINVARIANTS " + inv, trace=tf, name="Trace_timed_" + fmt)
        ctx.count(tf)


def files(ctx, inv, tf, name):
    ctx.tlc("TraceFiles", "SPECIFICATION Spec\nINVARIANTS " + inv, trace=tf, name="Trace_" + name)
    ctx.count(tf)


def version_byte(ctx, tf, field):
    """The one known deviation: files announce layout 0 and carry the text of layout 2."""
    known = dict(ctx.findings).get("version-byte")
    seen = set()
    with open(tf) as f:
        for l in f:
            r = json.loads(l)
            if r.get(field):
                seen.add(r[field][0])
    if seen == {0} and known:
        ctx.known.append(("version-byte", known))
    elif seen - {2}:
        from common import Violation
        raise Violation("version byte %s" % sorted(seen), {"trace": tf})


def c16(ctx):
    mc(ctx, "RoundTrip Truncated", "Refused", [(1, 2, 3, CLICKS, "TRUE")], [(2, 2, 3, CLICKS, "TRUE")])
    tf = games(ctx, "RoundTrip", ctx.scale(500, 12000))
    version_byte(ctx, tf, "raw")
    # files of games whose board was laid anew while they were played
    live(ctx, "Attached Fed", ctx.scale(500, 8000))
    for name, n, side in (("evf", ctx.scale(400, 12000), 24), ("evfbig", ctx.scale(8, 200), 255)):
        tf = ctx.path(name + ".ndjson")
        ctx.harness("files", "evf", tf, ctx.seed, n, side)
        files(ctx, "ReadsOrRefuses EvfRead EvfAgain", tf, name)
        version_byte(ctx, tf, "again")
    ctx.known = ctx.known[:1]


def c17(ctx):
    mc(ctx, "LogPhase ReplayLive Linked Times", "NothingAfterEnd", [(1, 2, 3, MOUSE5, "FALSE"), (1, 2, 3, MIXED6, "FALSE")],
       [(1, 2, 3, SEVEN, "FALSE"), (2, 2, 3, CLICKS, "FALSE")])
    games(ctx, "ReplayEqual ReplayTrue", ctx.scale(600, 15000))
    timed(ctx, "Analysed ReplayTimed", ctx.scale(250, 6000), 0)


def c18(ctx):
    mc(ctx, "Truncated", "Refused", [(1, 2, 3, CLICKS, "TRUE")], [(2, 2, 3, CLICKS, "TRUE")])
    for fmt in ("evf", "avf", "rmv", "mvf"):
        tf = ctx.path(fmt + ".ndjson")
        ctx.harness("files", "broken", fmt, tf, ctx.seed, ctx.scale(25, 600))
        files(ctx, "ReadsOrRefuses", tf, fmt)
        ctx.sample(tf, 1, 300)


def c19(ctx):
    for n, t in ctx.scale([(4, 3)], [(4, 3), (6, 4)]):
        ctx.tlc("MCPlayback", "SPECIFICATION Spec\nCONSTANTS MaxEvents = %d MaxTime = %d\nINVARIANTS Where Unmoved\nPROPERTY Arrives"
                % (n, t), name="MCPlayback_%d_%d" % (n, t))
    timed(ctx, "Analysed Playback PlaybackOdds", ctx.scale(300, 8000), ctx.scale(40, 80))


def c21(ctx):
    mc(ctx, "LogPhase Linked Times", "Refused NothingAfterEnd", [(1, 2, 3, MOUSE5, "FALSE"), (1, 2, 3, MIXED6, "FALSE"), (1, 2, 3, CLICKS, "TRUE")],
       [(1, 2, 3, SEVEN, "FALSE"), (2, 2, 3, CLICKS, "FALSE")])
    live(ctx, "Logged Shows Clock Header Stamps Readable Fed", ctx.scale(700, 15000))
    timed(ctx, "Analysed Renewed", ctx.scale(60, 600), 2, 3)


def read(ctx, fmt, inv):
    tf = ctx.path(fmt + ".ndjson")
    ctx.harness("files", "read", fmt, tf, ctx.seed, ctx.scale(1200, 15000))
    files(ctx, "ReadsOrRefuses " + inv, tf, fmt)
    ctx.sample(tf, 1)
    tf = ctx.path(fmt + "b.ndjson")
    ctx.harness("files", "broken", fmt, tf, ctx.seed + 7, ctx.scale(25, 300))
    files(ctx, inv, tf, fmt + "_damaged")


def c22(ctx):
    read(ctx, "avf", "AvfRead")


def c23(ctx):
    read(ctx, "rmv", "RmvRead")


def c29(ctx):
    read(ctx, "mvf", "MvfRead")


def c24(ctx):
    mc(ctx, "Checksum FreshHasNone", "Refused", [(1, 2, 3, CLICKS, "TRUE")], [(2, 2, 3, CLICKS, "TRUE")])
    live(ctx, "Attached", ctx.scale(700, 15000))
    games(ctx, "RoundTrip", ctx.scale(300, 6000), 3)


def c20(ctx):
    for mx, bases in ctx.scale([(3, '{"a","a(2)"}')], [(3, '{"a","a(2)"}'), (5, '{"a"}'), (3, '{"a","b","a(2)"}')]):
        ctx.tlc("MCSave", "SPECIFICATION Spec\nCONSTANTS MaxNumber = %d Bases = %s\nPROPERTIES Kept" % (mx, bases), name="MCSave_%d" % mx)
    tf = ctx.path("save.ndjson")
    ctx.harness("video", "save", tf, ctx.seed, ctx.scale(800, 15000))
    ctx.tlc("TraceSave", "SPECIFICATION Spec\nINVARIANTS Stored", trace=tf, name="Trace_save")
    ctx.count(tf)
    ctx.sample(tf, 1)


def c25(ctx):
    n = ctx.scale(6, 7)
    ctx.tlc("MCNotes", 'SPECIFICATION Spec\nCONSTANTS MaxLen = %d What = {"mark","good","bad","other"}\nINVARIANTS Real Missed' % n,
            name="MCNotes_%d" % n)
    tf = ctx.path("notes.ndjson")
    ctx.harness("video", "notes", tf, ctx.seed, ctx.scale(900, 15000), 30)
    ctx.tlc("TraceNotes", "SPECIFICATION Spec\nINVARIANTS Fine Guesses Luck LookAway Crooked Textbook Together", trace=tf, name="Trace_notes")
    ctx.count(tf)
    ctx.sample(tf, 1)
    tf = ctx.path("chords.ndjson")
    ctx.harness("video", "chords", tf, ctx.seed, ctx.scale(2000, 40000))
    ctx.tlc("TraceNotes", "SPECIFICATION Spec\nINVARIANTS Chords", trace=tf, name="Trace_chords")
    ctx.count(tf)


def c30(ctx):
    mc(ctx, "LogPhase Checksum FreshHasNone", "RevealOnly NothingAfterEnd", [(1, 2, 3, CLICKS, "TRUE")], [(2, 2, 3, CLICKS, "TRUE")])
    live(ctx, "Shows Revealed Logged Attached", ctx.scale(900, 15000))


def c31(ctx):
    ctx.tlc("MCReview", "SPECIFICATION Spec\nINVARIANTS Total Strict Fair Apart")
    tf = ctx.path("review.ndjson")
    ctx.harness("video", "review", tf, ctx.seed, ctx.scale(4000, 60000))
    ctx.tlc("TraceReview", "SPECIFICATION Spec\nINVARIANTS Judged", trace=tf, name="Trace_review")
    ctx.count(tf)
    ctx.sample(tf, 1)


def c35(ctx):
    for fmt in ("avf", "rmv", "mvf"):
        tf = ctx.path(fmt + ".ndjson")
        ctx.harness("files", "convert", fmt, tf, ctx.seed, ctx.scale(900, 15000))
        files(ctx, "Converted HeadKept", tf, fmt)
        ctx.sample(tf, 1)
        # the game in the new file, played back
        tf = ctx.path("played_%s.ndjson" % fmt)
        ctx.harness("video", "timed", tf, ctx.seed + 2, ctx.scale(120, 2500), 40, ctx.scale(12, 40),
                    env_extra={"HARNESS_FMT": fmt, "HARNESS_CONVERT": "1"})
        ctx.tlc("TraceReplay", "SPECIFICATION Spec\nINVARIANTS Analysed ReplayTimed Playback", trace=tf, name="Trace_played_" + fmt)
        ctx.count(tf)


SPECONLY = "behaviour below and beyond the checked instance sizes follows the same specification text"
A_VIDEO = ["time stamps are bracketed by the wall clock around each call", "recordings use the event kinds the API admits", SPECONLY]
A_FILES = ["file layouts are those written down in the specification (published layouts and the reader's documentation)", SPECONLY]
CHECKS = {
    "C16": (c16, A_FILES), "C17": (c17, A_VIDEO), "C18": (c18, A_FILES), "C19": (c19, A_VIDEO), "C20": (c20, A_FILES), "C21": (c21, A_VIDEO),
    "C22": (c22, A_FILES), "C23": (c23, A_FILES), "C24": (c24, A_VIDEO), "C25": (c25, A_VIDEO), "C30": (c30, A_VIDEO), "C31": (c31, A_FILES), "C29": (c29, A_FILES),
    "C35": (c35, A_FILES),
}
