//! Drives the real game state machine and records what it does.
use crate::util::*;
use ms_toollib::{GameBoardState, MinesweeperBoard, MouseState, SafeBoard};

pub enum M {
    V(MinesweeperBoard<Vec<Vec<i32>>>),
    S(MinesweeperBoard<SafeBoard>),
}
macro_rules! on {
    ($s:expr, $m:ident, $e:expr) => {
        match $s {
            M::V($m) => $e,
            M::S($m) => $e,
        }
    };
}
impl M {
    pub fn new(b: &Grid, safe: bool) -> M {
        if safe {
            M::S(MinesweeperBoard::<SafeBoard>::new(SafeBoard::new(b.clone())))
        } else {
            M::V(MinesweeperBoard::<Vec<Vec<i32>>>::new(b.clone()))
        }
    }
    /// as new, whatever was played on it before (the plain board has a reset)
    pub fn used(b: &Grid, rng: &mut Rng) -> M {
        let (r, c) = (b.len(), b[0].len());
        let d = rng.range(5, 45);
        let other = random_board(rng, r, c, d);
        let mut m = M::new(&other, false);
        let n = rng.below(25);
        let style = rng.below(4);
        let mut pl = Player { board: &other, rng, style, queue: vec![] };
        for _ in 0..n {
            let (e, p) = pl.next_event(m.gb());
            if admissible(&m, r, c, &e, p) {
                m.step(&e, p);
            }
        }
        if let M::V(g) = &mut m {
            g.reset();
            g.board = b.clone();
        }
        m
    }
    /// several events in one call; 0, 9 = rejected, 99 = panic
    pub fn flow(&mut self, es: &[(String, P)]) -> i64 {
        let es: Vec<(&str, P)> = es.iter().map(|(e, p)| (e.as_str(), *p)).collect();
        match caught(|| on!(self, m, m.step_flow(es))) {
            None => 99,
            Some(Err(())) => 9,
            Some(Ok(())) => 0,
        }
    }
    /// 0..3, 9 = rejected, 99 = panic
    pub fn step(&mut self, e: &str, p: P) -> i64 {
        match caught(|| on!(self, m, m.step(e, p))) {
            None => 99,
            Some(Err(())) => 9,
            Some(Ok(x)) => x as i64,
        }
    }
    pub fn gb(&self) -> &Grid {
        on!(self, m, &m.game_board)
    }
    pub fn over(&self) -> bool {
        let s = on!(self, m, m.game_board_state);
        s == GameBoardState::Win || s == GameBoardState::Loss
    }
    pub fn state(&self) -> GameBoardState {
        on!(self, m, m.game_board_state)
    }
    pub fn mouse(&self) -> MouseState {
        on!(self, m, m.mouse_state)
    }
    pub fn obs(&self, e: &str, p: P, ret: i64) -> String {
        on!(
            self,
            m,
            J::obj()
                .str("e", e)
                .raw("p", &format!("[{},{}]", p.0 + 1, p.1 + 1))
                .int("ret", ret)
                .str("st", &format!("{:?}", m.game_board_state))
                .str("ms", &format!("{:?}", m.mouse_state))
                .int("left", m.left as i64)
                .int("right", m.right as i64)
                .int("dbl", m.double as i64)
                .int("ce", m.ce as i64)
                .int("flag", m.flag as i64)
                .int("solved", m.bbbv_solved as i64)
                .str("gb", &tla_grid(&m.game_board))
                .end()
        )
    }
}

pub const EV: [&str; 14] = [
    "mv", "lc", "lr", "l", "rc", "rr", "r", "mc", "mr", "m", "cc", "crl", "crr", "pf",
];

fn admissible(m: &M, rows: usize, cols: usize, e: &str, p: P) -> bool {
    e != "pf" || (p.0 < rows && p.1 < cols && m.gb()[p.0][p.1] == 10)
}

/// Random play. `style` selects how wild the mouse is.
pub struct Player<'a> {
    pub board: &'a Grid,
    pub rng: &'a mut Rng,
    pub style: usize,
    pub queue: Vec<(String, P)>,
}
impl<'a> Player<'a> {
    pub fn any_pos(&mut self, out: usize) -> P {
        let (r, c) = (self.board.len(), self.board[0].len());
        if self.rng.chance(out) {
            (r, c)
        } else {
            (self.rng.below(r), self.rng.below(c))
        }
    }
    fn choose(&mut self, ok: impl Fn(P) -> bool) -> Option<P> {
        let (r, c) = (self.board.len(), self.board[0].len());
        let mut v = vec![];
        for i in 0..r {
            for j in 0..c {
                if ok((i, j)) {
                    v.push((i, j));
                }
            }
        }
        if v.is_empty() {
            None
        } else {
            Some(*self.rng.pick(&v))
        }
    }
    /// another place where the event opens nothing
    pub fn harmless(&mut self, gb: &Grid, e: &str, p: P) -> P {
        let (r, c) = (gb.len(), gb[0].len());
        if e == "rc" || e == "mv" || p.0 >= r || p.1 >= c {
            return p;
        }
        let g = gb[p.0][p.1];
        let opens = if (1..=8).contains(&g) {
            nbr(r, c, p).iter().filter(|q| gb[q.0][q.1] == 11).count() as i32 == g
        } else {
            g == 10
        };
        if !opens {
            return p;
        }
        self.choose(|q| gb[q.0][q.1] == 0 || gb[q.0][q.1] == 11).unwrap_or((r, c))
    }
    fn push(&mut self, e: &str, p: P) {
        self.queue.push((e.to_string(), p));
    }
    /// plan a few more events given the displayed board
    fn plan(&mut self, gb: &Grid) {
        let b = self.board;
        let (r, c) = (b.len(), b[0].len());
        let out = (r, c);
        let noisy = self.style >= 2;
        match self.rng.below(if noisy { 16 } else { 12 }) {
            0..=3 => {
                // left click: mostly safe closed cells
                let careful = self.rng.chance(94);
                let p = self.choose(|p| gb[p.0][p.1] == 10 && (!careful || b[p.0][p.1] >= 0));
                let p = p.unwrap_or((0, 0));
                self.push("lc", p);
                if self.rng.chance(10) {
                    let q = self.any_pos(20);
                    self.push("mv", q);
                }
                let q = if self.rng.chance(4) { self.any_pos(60) } else { p };
                self.push("lr", q);
            }
            4..=6 => {
                // flag a mine / unflag / flag anything
                let k = self.rng.below(10);
                let p = self
                    .choose(|p| {
                        let g = gb[p.0][p.1];
                        match k {
                            0..=5 => g == 10 && b[p.0][p.1] == -1,
                            6..=7 => g == 11,
                            8 => g == 10 && b[p.0][p.1] == 0,
                            _ => true,
                        }
                    })
                    .unwrap_or((0, 0));
                self.push("rc", p);
                let q = if self.rng.chance(15) { self.any_pos(30) } else { p };
                self.push("rr", q);
            }
            7..=9 => {
                // chord on a number, preferably one that works
                let k = self.rng.below(7);
                if k >= 5 {
                    // put the flags around a number right first
                    let open = |p: P| (1..=8).contains(&gb[p.0][p.1]);
                    let left = |p: P| nbr(r, c, p).iter().any(|q| gb[q.0][q.1] == 10 && b[q.0][q.1] >= 0);
                    let big = self.choose(|p| open(p) && left(p) && gb[p.0][p.1] >= 5);
                    if let Some(p) = big.or_else(|| self.choose(|p| open(p) && left(p))) {
                        for q in nbr(r, c, p) {
                            let g = gb[q.0][q.1];
                            if (g == 10 && b[q.0][q.1] == -1) || (g == 11 && b[q.0][q.1] >= 0) {
                                self.push("rc", q);
                                self.push("rr", q);
                            }
                        }
                        for e in ["lc", "rc", "rr", "lr"] {
                            self.push(e, p);
                        }
                        return;
                    }
                }
                let p = self
                    .choose(|p| {
                        let g = gb[p.0][p.1];
                        if !(1..=8).contains(&g) {
                            return k == 4;
                        }
                        let n = nbr(r, c, p);
                        let fl = n.iter().filter(|q| gb[q.0][q.1] == 11).count() as i32;
                        let cl = n.iter().filter(|q| gb[q.0][q.1] == 10).count();
                        k >= 3 || (fl == g && cl > 0)
                    })
                    .or_else(|| self.choose(|p| (1..=8).contains(&gb[p.0][p.1])))
                    .unwrap_or((0, 0));
                let q = if self.rng.chance(8) { self.any_pos(40) } else { p };
                match self.rng.below(6) {
                    0 => {
                        for e in ["lc", "rc", "lr", "rr"] {
                            self.push(e, q);
                        }
                    }
                    1 => {
                        for e in ["rc", "lc", "rr", "lr"] {
                            self.push(e, q);
                        }
                    }
                    2 => {
                        for e in ["rc", "lc", "lr", "rr"] {
                            self.push(e, q);
                        }
                    }
                    3 => {
                        for e in ["lc", "cc", "lr", "rr"] {
                            self.push(e, q);
                        }
                    }
                    4 => {
                        for e in ["lc", "rc", "rr", "rc", "rr", "lr"] {
                            self.push(e, q);
                        }
                    }
                    _ => {
                        if noisy {
                            self.push("mc", q);
                            self.push("mr", q);
                        } else {
                            for e in ["lc", "rc", "rr", "lr"] {
                                self.push(e, q);
                            }
                        }
                    }
                }
            }
            10 => {
                let p = self.any_pos(20);
                self.push("mv", p);
            }
            11 => {
                // press inside, release outside
                let p = self.any_pos(0);
                if self.rng.chance(50) {
                    self.push("lc", p);
                    self.push("lr", out);
                } else {
                    self.push("rc", p);
                    self.push("lc", p);
                    self.push("lr", out);
                    self.push("rr", out);
                }
            }
            12 => {
                let p = self.any_pos(25);
                let e = *self.rng.pick(&["l", "l", "r", "r", "m"]);
                self.push(e, p);
                self.push(e, p);
            }
            13 => {
                let p = self.any_pos(25);
                self.push(self.rng.clone().pick(&["crl", "crr", "cc", "mr", "mc"]), p);
                self.rng.next();
            }
            _ => {
                let p = self.any_pos(15);
                let e = *self.rng.pick(&EV);
                self.push(e, p);
            }
        }
    }
    pub fn next_event(&mut self, gb: &Grid) -> (String, P) {
        if self.style == 3 && self.rng.chance(35) {
            let p = self.any_pos(15);
            let e = *self.rng.pick(&EV);
            return (e.to_string(), p);
        }
        while self.queue.is_empty() {
            self.plan(gb);
        }
        self.queue.remove(0)
    }
}

pub fn sized_board(rng: &mut Rng, k: usize) -> Grid {
    // mostly small, some middling, a few large
    let (r, c) = match k % 10 {
        0..=4 => (rng.range(1, 4), rng.range(2, 5)),
        5..=7 => (rng.range(3, 6), rng.range(3, 7)),
        8 => (rng.range(1, 2), rng.range(5, 12)),
        _ => (rng.range(7, 9), rng.range(7, 10)),
    };
    match rng.below(5) {
        4 => {
            let d = rng.range(50, 85);
            random_board(rng, r, c, d)
        }
        0 => {
            let m = rng.range(1, (r * c / 3).max(1));
            clustered_board(rng, r, c, m)
        }
        1 => random_board(rng, r, c, 8),
        2 => random_board(rng, r, c, 18),
        _ => random_board(rng, r, c, 35),
    }
}

/// game walks OUT SEED N LEN
pub fn walks(out: &str, seed: u64, n: usize, len: usize) {
    let mut o = Out::new(out);
    for t in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(t as u64));
        let board = sized_board(&mut rng, t);
        let (r, c) = (board.len(), board[0].len());
        let safe = t % 3 == 2;
        let again = !safe && rng.chance(40);
        let mut m = if again { M::used(&board, &mut rng) } else { M::new(&board, safe) };
        let mut steps = vec![];
        let style = t % 4;
        let mut pl = Player { board: &board, rng: &mut rng, style, queue: vec![] };
        let mut tail = 3;
        // some games go on and on with hardly a cell opened: counters beyond a byte
        let idle = r * c > 30 && t % 300 == 19;
        let n_steps = if idle { 4500 } else { len + if r * c > 30 { len } else { 0 } };
        while steps.len() < n_steps {
            let (e, mut p) = pl.next_event(m.gb());
            if idle && (m.state() == GameBoardState::Playing || t % 600 == 19) && steps.len() % 500 != 7 {
                p = pl.harmless(m.gb(), &e, p);
            }
            if !admissible(&m, r, c, &e, p) {
                continue;
            }
            let ret = m.step(&e, p);
            steps.push(m.obs(&e, p, ret));
            if ret == 99 {
                break;
            }
            if m.over() {
                tail -= 1;
                if tail == 0 {
                    break;
                }
            }
        }
        let line = J::obj()
            .str("kind", "chain")
            .boolean("safe", safe)
            .grid("b", &board)
            .raw("pre", "[]")
            .raw("steps", &format!("[{}]", steps.join(",")))
            .end();
        o.line(&line);
    }
    o.flush();
}

/// game wide OUT SEED N LEN : boards longer than a byte counts, half of the games in one call
pub fn wide(out: &str, seed: u64, n: usize, len: usize) {
    let mut o = Out::new(out);
    for t in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(1_000_033).wrapping_add(t as u64));
        let (r, c) = *rng.pick(&[(1, 300), (280, 1), (2, 260), (2, 261), (264, 2), (265, 2), (1, 257)]);
        // hardly a mine, and those at the far end: soon won
        let few = rng.range(1, 3);
        let straight = t % 3 == 0;
        let board = match if straight { 0 } else { rng.below(5) } {
            0 | 1 => {
                let at = |d: usize| if r > c { (r - 1 - d, d % c) } else { (d % r, c - 1 - d) };
                let ms: Vec<P> = (0..few).map(|k| at(if k < 2 { rng.below(6) } else { rng.below(r.max(c) - 1) })).collect();
                numbers(r, c, &ms)
            }
            2 => random_board(&mut rng, r, c, 8),
            3 => random_board(&mut rng, r, c, 35),
            _ => clustered_board(&mut rng, r, c, r * c / 5),
        };
        let safe = t % 4 == 3;
        let mut m = M::new(&board, safe);
        let mut steps = vec![];
        let mut path = vec![];
        let mut pl = Player { board: &board, rng: &mut rng, style: [0, 1, 3][t % 3], queue: vec![] };
        let in_one = t % 2 == 0;
        let mut guard = 0;
        while path.len() < len && guard < 40 * len {
            guard += 1;
            let (e, mut p) = match path.last() {
                // one safe cell after the other
                Some((e, p)) if straight && e == "lc" => ("lr".to_string(), *p),
                _ if straight && pl.rng.chance(95) => {
                    let (gb, b) = (m.gb().clone(), pl.board);
                    let first = |p: P| gb[p.0][p.1] == 10 && b[p.0][p.1] == 0;
                    let p = pl.choose(|p| first(p)).or_else(|| pl.choose(|p| gb[p.0][p.1] == 10 && b[p.0][p.1] > 0));
                    ("lc".to_string(), p.unwrap_or((0, 0)))
                }
                _ => pl.next_event(m.gb()),
            };
            // far ends and what lies a byte's range away from them
            if !straight && pl.rng.chance(25) && p.0 < r && p.1 < c {
                let d = pl.rng.below(6);
                p = if r > c { (r - 1 - d, p.1) } else { (p.0, c - 1 - d) };
                if pl.rng.chance(30) {
                    p = if r > c { (p.0 % 256, p.1) } else { (p.0, p.1 % 256) };
                }
            }
            if (in_one && e == "pf") || !admissible(&m, r, c, &e, p) {
                continue;
            }
            let ret = m.step(&e, p);
            path.push((e.clone(), p));
            steps.push(m.obs(&e, p, ret));
            if ret == 99 || m.over() || (in_one && ret == 9) {
                break;
            }
        }
        let j = J::obj().boolean("safe", safe).grid("b", &board).raw("pre", "[]");
        if in_one {
            let mut m = M::new(&board, safe);
            let ret = m.flow(&path);
            let last = m.obs("flow", (r, c), ret);
            o.line(&j.str("kind", "flow").raw("flow", &path_json(&path)).raw("steps", &format!("[{}]", last)).end());
        } else {
            o.line(&j.str("kind", "chain").raw("steps", &format!("[{}]", steps.join(","))).end());
        }
    }
    o.flush();
}

/// board and events of a line of a PATHS file
fn path_line(line: &str) -> (Grid, Vec<(String, P)>) {
    let parts: Vec<&str> = line.split(';').collect();
    let head: Vec<i64> = parts[0].split_whitespace().map(|x| x.parse().unwrap()).collect();
    let (r, c) = (head[0] as usize, head[1] as usize);
    let mines: Vec<P> = head[2..].chunks(2).map(|q| (q[0] as usize - 1, q[1] as usize - 1)).collect();
    let pre = parts[1..]
        .iter()
        .map(|s| {
            let w: Vec<&str> = s.split_whitespace().collect();
            (w[0].to_string(), (w[1].parse().unwrap(), w[2].parse().unwrap()))
        })
        .collect();
    (numbers(r, c, &mines), pre)
}

fn path_json(pre: &[(String, P)]) -> String {
    let v: Vec<String> = pre.iter().map(|(e, p)| format!("[\"{}\",{},{}]", e, p.0 + 1, p.1 + 1)).collect();
    format!("[{}]", v.join(","))
}

/// game after PATHS OUT SEED N LEN : N specification states, picked at random,
/// each followed by LEN random events
pub fn after(paths: &str, out: &str, seed: u64, n: usize, len: usize) {
    let mut o = Out::new(out);
    let mut rng = Rng::new(seed ^ 0xaf7e);
    let text = std::fs::read_to_string(paths).expect("paths");
    let lines: Vec<&str> = text.lines().collect();
    for _ in 0..n {
        let (board, pre) = path_line(rng.pick(&lines));
        let (r, c) = (board.len(), board[0].len());
        let safe = rng.chance(30);
        let again = !safe && rng.chance(40);
        let mut m = if again { M::used(&board, &mut rng) } else { M::new(&board, safe) };
        let mut steps = vec![];
        // the way there in one call, with any events after it, now and then
        if rng.chance(15) {
            let mut es = vec![];
            for _ in 0..rng.below(5) {
                let e = rng.pick(&EV).to_string();
                let k = rng.below(r * c + 1);
                let p = if k == r * c { (r, c) } else { (k / c, k % c) };
                if e != "pf" {
                    es.push((e, p));
                }
            }
            let all: Vec<(String, P)> = pre.iter().cloned().chain(es).collect();
            let ret = m.flow(&all);
            let last = m.obs("flow", (r, c), ret);
            o.line(
                &J::obj()
                    .str("kind", "flow")
                    .boolean("safe", safe)
                    .grid("b", &board)
                    .raw("pre", "[]")
                    .raw("flow", &path_json(&all))
                    .raw("steps", &format!("[{}]", last))
                    .end(),
            );
            continue;
        }
        let mut ok = pre.iter().all(|(e, p)| m.step(e, *p) != 99);
        if !ok {
            steps.push(m.obs("mv", (r, c), 99));
        }
        // few buttons and few places at a time
        let few: Vec<&str> = (0..3).map(|_| *rng.pick(&EV)).collect();
        let narrow = rng.chance(40);
        while ok && steps.len() < len {
            let e = if narrow { *rng.pick(&few) } else { *rng.pick(&EV) };
            let k = rng.below(r * c + 1);
            let p = if k == r * c { (r, c) } else { (k / c, k % c) };
            if !admissible(&m, r, c, e, p) {
                if narrow {
                    break;
                }
                continue;
            }
            let ret = m.step(e, p);
            steps.push(m.obs(e, p, ret));
            ok = ret != 99 && !m.over();
        }
        if steps.is_empty() {
            continue;
        }
        o.line(
            &J::obj()
                .str("kind", "chain")
                .boolean("safe", safe)
                .grid("b", &board)
                .raw("pre", &path_json(&pre))
                .raw("steps", &format!("[{}]", steps.join(",")))
                .end(),
        );
    }
    o.flush();
}

/// game tree PATHS OUT SEED PERCENT : PATHS has one line per specification
/// state: `rows cols mines... ; e x y ; e x y ...`; every event is tried after
/// every path.
pub fn tree(paths: &str, out: &str, seed: u64, percent: usize) {
    let mut o = Out::new(out);
    let mut rng = Rng::new(seed);
    for line in std::fs::read_to_string(paths).expect("paths").lines() {
        let (board, pre) = path_line(line);
        let (r, c) = (board.len(), board[0].len());
        let mut alts = vec![];
        for e in EV {
            for k in 0..=r * c {
                if percent < 100 && !rng.chance(percent) {
                    continue;
                }
                let p = if k == r * c { (r, c) } else { (k / c, k % c) };
                let safe = rng.chance(25);
                let mut m = M::new(&board, safe);
                let mut dead = false;
                for (pe, pp) in &pre {
                    if m.step(pe, *pp) == 99 {
                        dead = true;
                        break;
                    }
                }
                if dead {
                    alts.push(m.obs(e, p, 99));
                    continue;
                }
                if !admissible(&m, r, c, e, p) {
                    continue;
                }
                let ret = m.step(e, p);
                alts.push(m.obs(e, p, ret));
            }
        }
        if alts.is_empty() {
            continue;
        }
        o.line(
            &J::obj()
                .str("kind", "tree")
                .boolean("safe", false)
                .grid("b", &board)
                .raw("pre", &path_json(&pre))
                .raw("steps", &format!("[{}]", alts.join(",")))
                .end(),
        );
    }
    o.flush();
}
