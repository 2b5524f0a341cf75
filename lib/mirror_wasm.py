"""The JavaScript interface, in a program of its own that answers one line for one line (wasmharness)."""
import json, subprocess
from mirror import Py, Refused, millionths, one, thousandths, tla, whole


class JsBoard:
    def __init__(self, js, b):
        self.js = js
        self.id = js.ask("board", b=json.dumps(b))

    def step(self, e, p):
        self.js.ask("step", id=self.id, e=e, x=p[0], y=p[1])

    def step_flow(self, es):
        self.js.ask("flow", id=self.id, es=json.dumps([[e, p[0], p[1]] for e, p in es]))


class Js(Py):
    name = "wasm"
    sizes = False

    def __init__(self, program):
        self.p = subprocess.Popen([program], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, op, **kw):
        kw["op"] = op
        self.p.stdin.write(json.dumps(kw) + "\n")
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            raise EOFError("the interface ended (%s)" % self.p.wait())
        r = json.loads(l)
        if "ok" in r:
            return r["ok"]
        raise Refused(r["thrown"])

    # ---- games
    def state(self, g):
        s = self.ask("state", id=g.id)
        for n in ("b", "gb"):
            s[n] = json.loads(s[n])
        assert (s["h"], s["w"]) == (len(s["gb"]), len(s["gb"][0]))
        return s

    def see(self, g):
        s = self.state(g)
        s["gb"] = tla(s["gb"])
        for n in ("b", "h", "w"):
            del s[n]
        return s

    def game(self, o, rng):
        self.ask("clear")
        if o["safe"]:
            return None
        g = JsBoard(self, o["b"])
        if rng.random() < 0.2:
            g = JsBoard(self, [[0] * len(o["b"][0]) for _ in o["b"]])
            self.ask("lay", id=g.id, b=json.dumps(o["b"]))
        assert self.state(g)["b"] == o["b"], "the board given is not the board held"
        if rng.random() < 0.1:
            # another display, and the old one again
            was = self.state(g)["gb"]
            other = [[rng.choice([0, 1, 10, 11, 14]) for _ in r] for r in was]
            self.ask("show", id=g.id, b=json.dumps(other))
            assert self.state(g)["gb"] == other, "the display given is not the display held"
            self.ask("show", id=g.id, b=json.dumps(was))

        def do(f, *a):
            try:
                f(*a)
                return 0
            except Refused as e:
                return 9 if e.plain() else 99
        for e, i, j in o["pre"]:
            do(g.step, e, (i - 1, j - 1))
        if o["kind"] == "flow":
            ret = do(g.step_flow, [(e, (i - 1, j - 1)) for e, i, j in o["flow"]])
            o["steps"][0].update(self.see(g), ret=ret, odds=[], codes=[])
            return o
        for q in o["steps"]:
            if o["kind"] == "tree":
                g = JsBoard(self, o["b"])
                for e, i, j in o["pre"]:
                    do(g.step, e, (i - 1, j - 1))
            ret = do(g.step, q["e"], (q["p"][0] - 1, q["p"][1] - 1))
            q.update(self.see(g), ret=ret, odds=[], codes=[])
        return o

    # ---- boards
    def metrics(self, o, rng):
        b = json.dumps(o["b"])
        for f in o["fun"]:
            f[0], f[1] = self.ask("cal_bbbv", b=b), self.ask("cal_op", b=b)
        return o

    def lay(self, o, rng):
        a = [o["r"], o["c"], o["n"], o["p"][0] - 1, o["p"][1] - 1]
        o["b"] = json.loads(self.ask("laymine_op" if o["op"] else "laymine", a=a))
        return o

    def gen(self, o, rng):
        if o["which"] != 0:
            return None
        b, v = json.loads(self.ask("laymine_solvable", a=[o["r"], o["c"], o["n"], o["p"][0] - 1, o["p"][1] - 1, o["budget"]]))
        o.update(b=b, v=int(v))
        return o

    # ---- deduction
    def poss(self, o, rng):
        """the flags shown are taken off and what follows from the numbers is marked first"""
        if o["frac"]:
            return None
        try:
            g, rg = json.loads(self.ask("cal_possibility_onboard", b=json.dumps(o["gb"]), a=[o["m"]]))
            if g == []:
                o["board"] = {"ok": 1, "err": 1, "p": [], "range": []}
                assert rg == [0, 0, 0]
            else:
                o["board"] = {"ok": 1, "err": 0, "p": [[millionths(x) for x in r] for r in g], "range": list(rg)}
        except Refused as e:
            o["board"] = {"ok": int(e.plain()), "err": 1, "p": [], "range": []}
        return o

    # ---- videos
    def open(self, fmt, raw):
        self.ask("clear")
        v = JsVideo(self, fmt, raw)
        return v

    def head(self, v, o):
        h = v.head
        t = h["strs"]
        for n in ("done", "official", "fair", "h", "w", "mines", "mode", "level", "bbbv"):
            o[n] = h[n]
        o.update(rtime=whole(num(h["rtime"])), rtimems=h["rtimems"], strs=t, check=h["check"] or [])
        if "pix" in o:
            o["pix"] = -1 if h["pix"] is None else h["pix"]
        return o

    def texts(self, v):
        return v.head["strs"]

    def events(self, v):
        return [[e[0], whole(num(e[1])), e[2], e[3]] for e in self.ask("events", id=v.id)]

    def files(self, o, rng):
        o["again"] = []
        o = Py.files(self, o, rng)
        if o["got"]["out"] == 1:
            assert self.last.head["raw"] == o["d"], "not the bytes given"
        return o

    def view(self, v):
        j = self.ask("view", id=v.id)
        r = {n: j[n] for n in ("left", "right", "dbl", "cl", "flag", "ce", "solved", "mouse")}
        for n in ("left_s", "right_s", "dbl_s", "cl_s", "flag_s", "etime", "bbbv_s", "stnb", "rqp", "ce_s", "corr", "thrp", "ioe"):
            r[n] = -8 if j[n] is None else thousandths(num(j[n]))
        r["path"] = -8 if j["path"] is None else thousandths(num(j["path"]) / 10)
        x, y = j["xy"] or (-1, -1)
        r.update(gb=tla(json.loads(j["gb"])), id=j["id"] + 1, x=x, y=y)
        assert j["st"] == 6, "not the state of a video shown"
        return r

    def statics(self, v):
        assert v.head["hizi"] == 0
        return v.head["statics"]

    def go(self, v, id):
        self.ask("event", id=v.id, k=id)

    def play(self, v, t):
        self.ask("time", id=v.id, t=t)

    def odds_shown(self, v):
        return [[millionths(x) for x in r] for r in json.loads(self.ask("poss", id=v.id))]

    def note(self, v, k, q):
        e = v.events[k]
        q.update(e=e[0], t=whole(num(e[1])), x=e[2], y=e[3], lvl=e[4], msn=e[5])

    def timed(self, o, rng):
        # the cell size cannot be given here
        o["seeks"] = [s for s in o["seeks"] if s["op"] != "pix"]
        for s in o["seeks"]:
            s["pp"] = o["pix"]
        return Py.timed(self, o, rng)

    def length(self, v):
        v.look()
        return len(v.events)

    def done(self, v):
        return v.head["done"]

    def ends(self, v):
        return [whole(num(v.head[n])) for n in ("start", "end")]

    def review(self, o, rng):
        v = self.open(o["fmt"], o["raw"])
        o["raw"] = []
        try:
            v.parse_video()
            v.analyse()
            o["v"] = self.ask("valid", id=v.id)
        except Refused:
            o["v"] = 99
        return o


def num(x):
    return float("inf") if x == "inf" else x


class JsVideo:
    def __init__(self, js, fmt, raw):
        self.js = js
        js.last = self
        self.id = js.ask("open", fmt=fmt, d=raw)

    def look(self):
        self.head = self.js.ask("head", id=self.id)
        self.events = self.js.ask("events", id=self.id)

    def parse_video(self):
        self.js.ask("parse", id=self.id)
        self.look()

    def analyse(self):
        self.js.ask("analyse", id=self.id)
        self.look()
