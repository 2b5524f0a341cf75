"""mirror.py BACKEND KIND IN OUT: what the Python (or JavaScript) interface shows for the inputs of a recorded trace.

Every line of IN is one record of the Rust recorder.  Its inputs are handed to the interface and what comes back
replaces what was recorded; what the interface does not show stays as recorded.
BACKEND is the folder of the Python module, or `wasm:PROGRAM` for the JavaScript interface."""
import json, math, os, random, sys, time

FIRST = {"evf": "EvfVideo", "avf": "AvfVideo", "rmv": "RmvVideo", "mvf": "MvfVideo"}
CAP = 2_000_000_000
STATES = ["", "Ready", "Playing", "Win", "Loss", "PreFlaging", "Display"]
HANDS = ["", "UpUp", "UpDown", "UpDownNotFlag", "DownUp", "Chording", "ChordingNotFlag", "DownUpAfterChording", "Undefined"]


def thousandths(x):
    if not math.isfinite(x):
        return -7
    return int(max(-CAP, min(CAP, math.floor(abs(x) * 1000 + 0.5) * (1 if x >= 0 else -1))))


def whole(x):
    """seconds to milliseconds"""
    if math.isnan(x):
        return 0
    if abs(x) > 1e15:
        return 9223372036854775807 if x > 0 else -9223372036854775808
    return int(math.floor(abs(x) * 1000 + 0.5)) * (1 if x >= 0 else -1)


def millionths(x):
    return int(math.floor(x * 1e6 + 0.5)) if math.isfinite(x) and x >= 0 else -7


def tla(b):
    return "<<" + ", ".join("<<" + ", ".join(str(x) for x in r) + ">>" for r in b) + ">>"


FEATURES = ["high_risk_guess", "jump_judge", "needless_guess", "survive_poss", "vision_transfer", "mouse_trace", "super_fl_local"]
SAID = [("error: 危险的猜雷", "risk", 1000), ("feature: 高难度的判雷(左键)", "left", 0), ("feature: 高难度的判雷(标雷)", "mark", 0),
        ("warning: 可以判雷时选择猜雷", "needless", 0), ("warning: 可以判雷时视野的转移", "away", 0), ("error: 过于弯曲的鼠标轨迹", "crooked", 1),
        ("warning: 弯曲的鼠标轨迹", "bent", 1), ("feature: 教科书式的FL局部", "fl", 1)]


def pieces(c):
    """a comment as (what, value, factors)"""
    r = []

    def num(t, f):
        try:
            return int(math.floor(float("".join(x for x in t if x.isdigit() or x in ".-")) * f + 0.5))
        except ValueError:
            return -1
    for p in c.split(";"):
        p = p.strip()
        if not p:
            continue
        if p.startswith("luck: "):
            a, eq, b = p[6:].partition(" = ")
            r.append(("luck", num(b if eq else a, 1e6), [num(x, 1000) for x in a.split(" * ")] if eq else []))
            continue
        for start, w, f in SAID:
            if p.startswith(start) if f else p == start:
                r.append((w, num(p.partition("(")[2].rstrip(")"), f) if f else 0, []))
                break
        else:
            r.append(("?", 0, []))
    return r


def one(ps):
    return [[p[0] + 1, p[1] + 1] for p in ps]


class Refused(Exception):
    """the call failed"""

    def plain(self):
        """it reported an error, and did not fall over on the way"""
        return "on an `Err` value" in str(self) or str(self).startswith("RuntimeError")


class Py:
    """The Python module."""
    name = "py"

    def __init__(self, where):
        sys.path.insert(0, where)
        import ms_toollib
        self.m = ms_toollib
        assert os.path.dirname(os.path.abspath(ms_toollib.__file__)) == os.path.abspath(where)

    def call(self, f, *a):
        try:
            return f(*a)
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except BaseException as e:
            raise Refused(type(e).__name__ + ": " + str(e))

    # ---- games
    def board(self, b, safe):
        return (self.m.SafeMinesweeperBoard if safe else self.m.MinesweeperBoard)(b)

    def see(self, g):
        assert (g.row, g.column) == (len(g.game_board), len(g.game_board[0]))
        return {"st": g.game_board_state, "ms": g.mouse_state, "left": g.left, "right": g.right, "dbl": g.double, "ce": g.ce,
                "flag": g.flag, "solved": g.bbbv_solved, "gb": tla(g.game_board)}

    def odds(self, g, b):
        """the position as learning programs get it"""
        n = sum(r.count(-1) for r in b)
        codes, odds = self.call(g.get_game_board_2, float(n))
        assert all(x == int(x) for r in codes for x in r)
        return {"codes": [[int(x) for x in r] for r in codes], "odds": [[millionths(x) for x in r] for r in odds]}

    def game(self, o, rng):
        g = self.board(o["b"], o["safe"])
        if not o["safe"] and rng.random() < 0.3:
            # used before
            try:
                self.call(g.step_flow, [("lc", (0, 0)), ("lr", (0, 0)), ("rc", (0, 0))])
            except Refused:
                pass
            self.call(g.reset)
            g.board = o["b"]
        elif rng.random() < 0.2:
            g.board = o["b"]
        assert g.board == o["b"], "the board given is not the board held"
        for e, i, j in o["pre"]:
            try:
                self.call(g.step, e, (i - 1, j - 1))
            except Refused:
                pass
        if o["kind"] == "flow":
            q = o["steps"][0]
            try:
                self.call(g.step_flow, [(e, (i - 1, j - 1)) for e, i, j in o["flow"]])
                ret = 0
            except Refused as e:
                ret = 9 if e.plain() else 99
            q.update(self.see(g), ret=ret, odds=[], codes=[])
            return o
        small = len(o["b"]) * len(o["b"][0]) <= 30
        for n, q in enumerate(o["steps"]):
            if o["kind"] == "tree":
                g = self.board(o["b"], o["safe"])
                for e, i, j in o["pre"]:
                    try:
                        self.call(g.step, e, (i - 1, j - 1))
                    except Refused:
                        pass
            try:
                self.call(g.step, q["e"], (q["p"][0] - 1, q["p"][1] - 1))
                ret = 0
            except Refused as e:
                ret = 9 if e.plain() else 99
            q.update(self.see(g), ret=ret, odds=[], codes=[])
            if small and o["kind"] == "chain" and (n == len(o["steps"]) - 1 or rng.random() < 0.05):
                q.update(self.odds(g, o["b"]))
        return o

    # ---- boards
    def metrics(self, o, rng):
        m = self.m
        ask = [lambda v, n=n: getattr(v, n) for n in ["op", "isl"] + ["cell%d" % k for k in range(9)]]
        v, w = m.Board(o["b"]), m.Board(o["b"])
        a = [m.cal_bbbv(o["b"]), m.cal_op(o["b"]), v.isl] + [getattr(v, "cell%d" % k) for k in range(9)]
        cells = [getattr(w, "cell%d" % k) for k in range(8, -1, -1)][::-1]
        b = [w.bbbv, w.op, w.isl] + cells
        h = m.Board(o["b"])
        name = {10: "bbbv", 11: "op", 12: "isl"}
        o.update(fun=[a, b], hist=[[q, getattr(h, name.get(q) or "cell%d" % q)] for q, _ in o["hist"]])
        return o

    def flood(self, o, rng):
        s = [(p[0] - 1, p[1] - 1) for p in o["s"]]
        got = self.m.refresh_board(o["b"], o["gb"], s)
        o.update(plain=got, safe=got)
        return o

    def lay(self, o, rng):
        f = self.m.laymine_op if o["op"] else self.m.laymine
        x, y = o["p"][0] - 1, o["p"][1] - 1
        o["b"] = f(o["r"], o["c"], o["n"], x, y) if rng.random() < 0.5 else \
            f(row=o["r"], column=o["c"], mine_num=o["n"], x0=x, y0=y)
        return o

    def sample(self, o, rng):
        if o["kind"] != "sample":
            return None
        o["h"] = self.m.sample_3BVs_exp(o["p"][0] - 1, o["p"][1] - 1, o["n"])
        return o

    def gen(self, o, rng):
        m, x, y = self.m, o["p"][0] - 1, o["p"][1] - 1
        a = [o["r"], o["c"], o["n"], x, y]
        if o["which"] == 1:
            b, v = m.laymine_solvable_adjust(*a)
        else:
            b, v = (m.laymine_solvable if o["which"] == 0 else m.laymine_solvable_thread)(*a, o["budget"])
        o.update(b=b, v=int(v))
        return o

    def threads(self, o, rng):
        self.gen(o, rng)
        o["ok"] = 1
        return o

    def solv(self, o, rng):
        m = self.m
        o.update(v=int(m.is_solvable(o["b"], o["p"][0] - 1, o["p"][1] - 1)), u=int(m.unsolvable_structure(o["b"])))
        return o

    # ---- deduction
    def ded(self, o, rng):
        m, gb = self.m, o["gb"]

        def put(name, f):
            try:
                g, safe, mine = self.call(f)
                o[name] = {"ok": 1, "err": 0, "gb": g, "safe": one(safe), "mine": one(mine)}
            except Refused as e:
                o[name] = {"ok": 0, "err": 1, "gb": [], "safe": [], "mine": [], "text": str(e)}

        def direct():
            a, x, b = m.refresh_matrixs(gb)[:3]
            return m.solve_direct(a, x, b, gb)[3:]

        def minus():
            a, x, b = m.refresh_matrixs(gb)[:3]
            return m.solve_minus(a, x, b, gb)[3:]

        def staged():
            a, x, b, g, s, i = m.solve_direct(*m.refresh_matrixs(gb)[:3], gb)
            a, x, b, g, s2, i2 = m.solve_minus(a, x, b, g)
            a, x, b, g, s3, i3 = m.solve_minus(a, x, b, g)
            # the rest of the position, as it is now
            s4, i4 = m.solve_enumerate(g)
            known = set(s) | set(s2) | set(s3) | set(i) | set(i2) | set(i3)
            return g, s + s2 + s3 + [p for p in s4 if p not in known], i + i2 + i3 + [p for p in i4 if p not in known]

        put("direct", direct)
        put("minus", minus)
        put("staged", staged)
        put("enumerate", lambda: (gb,) + tuple(m.solve_enumerate(gb)))
        put("all", lambda: m.get_all_not_and_is_mine_on_board(gb))
        put("mark", lambda: (m.mark_board(gb), [], []))
        names = ["basic_not_mine", "basic_is_mine", "enum_not_mine", "enum_is_mine", "poss"]

        def obj():
            q = m.GameBoard(o["m"])
            if rng.random() < 0.3:
                q.game_board = [[10] * len(gb[0]) for _ in gb]
                getattr(q, rng.choice(names[:4]))
            q.game_board = gb
            order = names[:]
            rng.shuffle(order)
            got = {n: getattr(q, n) for n in order}
            assert all(got[n] == getattr(q, n) for n in order), "another answer the second time"
            return got
        try:
            g = self.call(obj)
            o["obj"] = {"ok": 1, "bs": one(g[names[0]]), "bm": one(g[names[1]]), "es": one(g[names[2]]), "em": one(g[names[3]]),
                        "poss": [[millionths(x) for x in r] for r in g["poss"]]}
        except Refused as e:
            o["obj"] = {"ok": 0, "text": str(e)}
        return o

    def contra(self, o, rng):
        try:
            self.call(self.m.cal_possibility, o["gb"], 0.2)
            ok, err = 1, 0
        except Refused as e:
            err = 1
            ok = int(e.plain())
        o["poss"] = {"ok": ok, "err": err}
        return o

    def mines(self, o):
        area = len(o["gb"]) * len(o["gb"][0])
        return (o["m"] + 0.5) / area if o["frac"] else float(o["m"])

    def poss(self, o, rng):
        m = self.m
        mm = self.mines(o)
        o["mk"] = m.mark_board(o["gb"])
        bad = {"ok": 1, "err": 1, "p": [], "range": []}
        try:
            p, inner, rg, ln = self.call(m.cal_possibility, o["gb"], mm)
            o.update(ok=1, err=0, p=[[c[0] + 1, c[1] + 1, millionths(v)] for c, v in p], inner=millionths(inner), len=ln, range=list(rg))
        except Refused as e:
            o.update(bad, ok=int(e.plain()), inner=0, len=0)
        try:
            g, rg = self.call(m.cal_possibility_onboard, o["gb"], mm)
            o["board"] = {"ok": 1, "err": 0, "p": [[millionths(x) for x in r] for r in g], "range": list(rg)}
        except Refused as e:
            o["board"] = dict(bad, ok=int(e.plain()))
        return o

    def guess(self, o, rng):
        m, gb = self.m, o["gb"]
        cells = range(len(gb[0]))
        o.update(code=[[m.is_guess_while_needless(gb, (i, j)) for j in cells] for i in range(len(gb))],
                 able=[[int(m.is_able_to_solve(gb, (i, j))) for j in cells] for i in range(len(gb))])
        return o

    def mat(self, o, rng):
        m, gb = self.m, o["gb"]
        form = lambda a, x, b: {"a": a, "x": one(x), "b": b}
        a, x, b = m.refresh_matrix(gb)
        As, xs, bs, inner, marked = m.refresh_matrixs(gb)
        assert len(As) == len(xs) == len(bs)
        o.update(whole=form(a, x, b), segs=[{"blk": form(*q)} for q in zip(As, xs, bs)], unknown=inner, mines=marked, groups=[])
        return o

    # ---- videos
    def open(self, fmt, raw):
        self.n = getattr(self, "n", 0) + 1
        fn = os.path.join(os.environ["MIRROR_DIR"], "f%d.%s" % (self.n % 3, fmt))
        with open(fn, "wb") as f:
            f.write(bytes(raw))
        v = getattr(self.m, FIRST[fmt])(fn)
        return v

    def texts(self, v):
        return [list(x) for x in (v.software, v.player_designator, v.race_designator, v.uniqueness_designator, v.start_time,
                                  v.end_time, v.country)]

    def head(self, v, o):
        """what is shown of a file just read; the rest as recorded"""
        t = self.texts(v)
        try:
            check = list(self.call(lambda: v.checksum))
        except Refused:
            check = []
        o.update(done=v.is_completed, official=v.is_offical, fair=v.is_fair, h=v.row, w=v.column, mines=v.mine_num, mode=v.mode,
                 level=v.level, bbbv=v.bbbv, rtime=whole(v.rtime), rtimems=v.rtime_ms,
                 strs=t + o["strs"][len(t):], check=check)
        return o

    def events(self, v):
        return [[v.events_mouse(k), whole(v.events_time(k)), v.events_x(k), v.events_y(k)]
                for k in range(v.events_len)]

    def files(self, o, rng):
        v = self.open(o["op"], o["d"])
        g = o["got"]
        try:
            self.call(v.parse_video)
        except Refused as e:
            gone = {"out": 0 if e.plain() else 99, "err": str(e)[:200]}
            o["got"] = gone
            return o
        if g.get("out") != 1:
            o["got"] = {"out": 1, "err": "read after all"}
            return o
        self.head(v, g)
        g["ev"] = self.events(v)
        if "again" in o and o["again"] != []:
            self.call(v.generate_evf_v0_raw_data)
            o["again"] = list(v.raw_data)
            self.saved(v, o["again"])
        return o

    def convert(self, o, rng):
        """a file of another program, saved in the native format"""
        g = o["got"]
        v = self.open(o["fmt"], o["d"])
        try:
            self.call(v.parse_video)
        except Refused as e:
            o["got"] = {"out": 0 if e.plain() else 99, "err": str(e)[:200]}
            return o
        if g.get("out") != 1:
            o["got"] = {"out": 1, "err": "read after all"}
            return o
        self.head(v, g)
        g["ev"] = self.events(v)
        if o["analysed"]:
            self.call(v.analyse)
        b = self.head(v, o["before"])
        b["ev"] = self.events(v)
        try:
            self.call(v.generate_evf_v0_raw_data)
            o["res"] = 0
        except Refused:
            o["res"] = 99
        o["again"] = list(v.raw_data)
        if o["res"] == 0:
            self.saved(v, o["again"])
        a = self.head(v, o["after"])
        a["ev"] = self.events(v)
        return o

    def saved(self, v, said):
        fn = os.path.join(os.environ["MIRROR_DIR"], "again-%d" % self.n)
        self.call(v.save_to_evf_file, fn)
        made = [x for x in os.listdir(os.environ["MIRROR_DIR"]) if x.startswith("again-%d" % self.n)]
        assert len(made) == 1, made
        p = os.path.join(os.environ["MIRROR_DIR"], made[0])
        with open(p, "rb") as f:
            assert list(f.read()) == said, "another file than announced"
        os.remove(p)

    def notes(self, o, rng):
        raw = o.pop("raw")
        o["ok"] = True
        for name in o["notes"]:
            v = self.open(o["fmt"], raw)
            self.call(v.parse_video)
            want = FEATURES[5:] if o["large"] else list(FEATURES)
            rng.shuffle(want)
            try:
                self.call(v.analyse)
                self.call(v.analyse_for_features, want if name == "all" else [name])
            except Refused:
                o["ok"] = False
                continue
            r = []
            for k in range(v.events_len):
                for w, n, l in pieces(v.events_comments(k)):
                    r.append({"k": k + 1, "w": w, "v": n, "f": l})
            o["notes"][name] = r
        return o

    def view(self, v):
        def k(n, scale=1):
            try:
                return thousandths(self.call(lambda: getattr(v, n)) / scale)
            except Refused:
                return -8
        try:
            x, y = self.call(lambda: v.x_y)
        except Refused:
            x = y = -1
        return {"left": v.left, "right": v.right, "dbl": v.double, "cl": v.cl, "flag": v.flag, "ce": v.ce, "solved": v.bbbv_solved,
                "left_s": k("left_s"), "right_s": k("right_s"), "dbl_s": k("double_s"), "cl_s": k("cl_s"), "flag_s": k("flag_s"),
                "path": k("path", 10), "etime": k("etime"), "bbbv_s": k("bbbv_s"), "stnb": k("stnb"), "rqp": k("rqp"), "ce_s": k("ce_s"),
                "corr": k("corr"), "thrp": k("thrp"), "ioe": k("ioe"), "mouse": v.mouse_state, "gb": tla(v.game_board),
                "id": v.current_event_id + 1, "time": k("time"), "shown": k("time"), "x": x, "y": y}

    def statics(self, v):
        return [v.bbbv, v.op, v.isl] + [getattr(v, "cell%d" % k) for k in range(9)]

    def go(self, v, id):
        v.current_event_id = id

    def play(self, v, t):
        v.current_time = t

    def size(self, v, p):
        v.video_playing_pix_size = p

    def odds_shown(self, v):
        return [[millionths(x) for x in r] for r in v.game_board_poss]

    def note(self, v, k, q):
        """one line of the record"""
        q.update(e=v.events_mouse(k), x=v.events_x(k), y=v.events_y(k), t=whole(v.events_time(k)),
                 lvl=v.events_useful_level(k), msn=v.events_mouse_state(k))

    def prior(self, v, k):
        return [[millionths(x) for x in r] for r in v.events_prior_game_board(k).poss]

    sizes = True

    def timed(self, o, rng):
        v = self.open(o["fmt"], o["raw"])
        try:
            self.call(v.parse_video)
        except Refused:
            o["out"] = 0
            return o
        try:
            self.call(v.analyse)
            if o["twice"]:
                self.call(v.analyse)
        except Refused:
            o["analysed"] = False
            return o
        o["raw"] = []
        n = self.length(v)
        assert n == len(o["rlog"]), "%d events of %d" % (n, len(o["rlog"]))
        o["msn"] = []
        for k in range(n):
            self.note(v, k, o["rlog"][k])
            o["msn"].append(o["rlog"][k].pop("msn"))
        o.update(done=self.done(v), rstatics=self.statics(v), start=self.ends(v)[0], end=self.ends(v)[1])
        small = len(o["b"]) * len(o["b"][0]) <= 30
        o["priors"] = []
        for k in sorted(rng.sample(range(n), min(n, 2))) if small and self.sizes else []:
            o["priors"].append([k + 1, self.prior(v, k)])
        o["first"].update(self.view(v))
        for k in range(n):
            self.go(v, k)
            o["visits"][k].update(self.view(v))
        for s in o["seeks"]:
            try:
                if s["op"] == "event":
                    self.call(self.go, v, s["arg"] - 1)
                elif s["op"] == "pix":
                    self.call(self.size, v, s["pp"])
                else:
                    self.call(self.play, v, s["arg"] / 1000.0)
                s["res"] = 0
            except Refused as e:
                s["res"] = 99
            if s["poss"]:
                s["poss"] = self.call(self.odds_shown, v)
            s.update(self.view(v))
        return o

    # ---- a game recorded live
    SETTERS = {"software": "software", "player": "player_designator", "race": "race_designator", "unique": "uniqueness_designator",
               "country": "country", "uuid": "device_uuid", "official": "is_offical", "fair": "is_fair", "mode": "mode"}
    GIVEN = {"rtime": "rtime", "rtime_ms": "rtime_ms", "raw": "raw_data", "checksum": "checksum", "solved": "bbbv_solved", "ce": "ce",
             "etime": "etime", "bbbv_s": "bbbv_s", "stnb": "stnb", "rqp": "rqp", "ce_s": "ce_s", "corr": "corr", "thrp": "thrp",
             "ioe": "ioe", "video_start": "video_start_time", "video_end": "video_end_time", "xy": "x_y"}

    def happened(self, v, k):
        return {"e": v.events_mouse(k), "y": v.events_y(k), "x": v.events_x(k), "t": whole(v.events_time(k)),
                "lvl": v.events_useful_level(k), "ms": HANDS[v.events_mouse_state(k)]}

    def maybe(self, v, n, none=-1):
        try:
            return self.call(lambda: getattr(v, n))
        except Refused:
            return none

    def live(self, o, rng):
        t0 = time.monotonic()
        clock = lambda: int((time.monotonic() - t0) * 1000)
        v = self.m.BaseVideo(o["b"], o["pix"])
        ops = []
        for q in o["ops"]:
            op = q["op"]
            if op == "set" and q["field"] not in self.SETTERS:
                continue
            if op == "step":
                if rng.random() < 0.04:
                    time.sleep(rng.choice([0.001, 0.002, 0.013]))
                q["wmin"] = clock()
            try:
                if op == "step":
                    self.call(v.step, q["e"], (q["y"], q["x"]))
                elif op == "set":
                    f = q["field"]
                    self.call(setattr, v, self.SETTERS[f], q["num"] if f == "mode" else q["num"] == 1 if f in ("official", "fair") else q["val"])
                elif op == "reset":
                    self.call(v.reset, q["r"], q["c"], q["p"])
                elif op == "board":
                    self.call(setattr, v, "board", q["b"])
                elif op == "pix":
                    self.call(setattr, v, "pix_size", q["p"])
                elif op == "check":
                    self.call(setattr, v, "checksum", q["c"])
                elif op == "mark":
                    self.call(v.win_then_flag_all_mine)
                elif op == "show":
                    self.call(v.loss_then_open_all_mine)
                elif op == "gen":
                    self.call(v.generate_evf_v0_raw_data)
                res = 0
            except Refused as e:
                res = 9 if e.plain() else 99
            if op == "step":
                q["wmax"] = clock()
            q["res"] = res
            raw = self.maybe(v, "raw_data", None)
            if op == "read":
                q["got"] = {n: int(self.maybe(v, a, None) is not None) for n, a in self.GIVEN.items()}
                try:
                    self.call(setattr, v, "current_event_id", 0)
                    q["got"]["event_id"] = 1
                except Refused:
                    q["got"]["event_id"] = 0
                q["got"]["finite"] = all(not getattr(v, n) < 0 for n in ("time", "left_s", "right_s", "double_s", "cl_s", "flag_s", "path"))
            if op in ("check", "gen"):
                q["raw"] = raw or []
            if op == "gen" and rng.random() < 0.3:
                fn = os.path.join(os.environ["MIRROR_DIR"], "live")
                self.call(v.save_to_evf_file, fn)
                made = [x for x in os.listdir(os.environ["MIRROR_DIR"]) if x.startswith("live")]
                assert len(made) == 1, made
                p = os.path.join(os.environ["MIRROR_DIR"], made[0])
                with open(p, "rb") as f:
                    assert list(f.read()) == list(raw), "another file than announced"
                os.remove(p)
            n = v.events_len
            q["cmin"] = clock()
            q["clk"] = whole(v.time)
            q["cmax"] = clock()
            q.update(st=STATES[v.game_board_state], nlog=n, last=[self.happened(v, n - 1)] if n else [], gb=tla(v.game_board),
                     left=v.left, right=v.right, dbl=v.double, cl=v.cl, flag=v.flag, mouse=v.mouse_state, h=v.row, w=v.column,
                     mines=v.mine_num, level=v.level, done=v.is_completed, official=v.is_offical, fair=v.is_fair, mode=v.mode,
                     texts=self.texts(v) + [[]], rtime=whole(self.maybe(v, "rtime", -0.001)), rtimems=self.maybe(v, "rtime_ms"),
                     check=list(self.maybe(v, "checksum", [])), rawlen=-1 if raw is None else len(raw))
            q.pop("nboards", None)
            q.pop("shown", None)
            q["held"] = []
            if op in ("board", "reset") or rng.random() < 0.1:
                b = v.board
                c = self.m.SafeBoard([[0]])
                c.set(b.into_vec_vec())
                if rng.random() < 0.5:
                    b, c = c, b
                q["held"] = [c.into_vec_vec(), [[b[i][j] for j in range(v.column)] for i in range(v.row)]]
            ops.append(q)
        o["ops"] = ops
        o["log"] = [self.happened(v, k) for k in range(v.events_len)]
        over = v.game_board_state in (3, 4)
        o.update(boards=[], final=self.view(v) if over else {}, statics=self.statics(v) if over else [])
        return o if ops else None

    def length(self, v):
        return v.events_len

    def done(self, v):
        return v.is_completed

    def ends(self, v):
        return [whole(x) for x in (v.video_start_time, v.video_end_time)]


def main():
    backend, kind, fin, fout = sys.argv[1:5]
    seed = int(sys.argv[5]) if len(sys.argv) > 5 else 1
    if backend.startswith("wasm:"):
        from mirror_wasm import Js
        m = Js(backend[5:])
    else:
        m = Py(backend)
    rng = random.Random(seed)
    f = getattr(m, kind) if kind != "solver" else None
    n = 0
    with open(fin) as i, open(fout, "w") as w:
        for l in i:
            o = json.loads(l)
            sys.stderr.flush()
            g = f or getattr(m, o["kind"])
            try:
                o = g(o, rng)
            except (MemoryError, OSError) as e:
                print("TOOL %r" % e)
                return 3
            except BaseException as e:
                import traceback
                print("LINE %d: %s: %s" % (n + 1, type(e).__name__, str(e)[:600]))
                traceback.print_exc(file=sys.stdout)
                print(l[:3000])
                return 4
            if o is not None:
                w.write(json.dumps(o, separators=(",", ":")) + "\n")
            n += 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
