//! Live recorder, native files, replay, playback, saving.
use crate::game::{sized_board, Player};
use crate::util::*;
use ms_toollib::{BaseVideo, EvfVideo, GameBoardState, SafeBoard};
use std::time::{Duration, Instant};

type Live = BaseVideo<SafeBoard>;
type Parsed = BaseVideo<Vec<Vec<i32>>>;
const STORABLE: [&str; 9] = ["mv", "lc", "lr", "rc", "rr", "mc", "mr", "pf", "cc"];

pub fn ms(t: f64) -> i64 {
    (t * 1000.0).round() as i64
}

pub fn entry<T>(v: &BaseVideo<T>, k: usize) -> String {
    let a = &v.video_action_state_recorder[k];
    J::obj()
        .str("e", &a.mouse)
        .int("y", a.y as i64)
        .int("x", a.x as i64)
        .int("t", ms(a.time))
        .int("lvl", a.useful_level as i64)
        .int("prior", a.prior_game_board_id as i64 + 1)
        .int("next", a.next_game_board_id as i64 + 1)
        .str("ms", &format!("{:?}", a.mouse_state))
        .int("left", a.key_dynamic_params.left as i64)
        .int("right", a.key_dynamic_params.right as i64)
        .int("dbl", a.key_dynamic_params.double as i64)
        .int("ce", a.key_dynamic_params.ce as i64)
        .int("flag", a.key_dynamic_params.flag as i64)
        .int("solved", a.key_dynamic_params.bbbv_solved as i64)
        .end()
}
pub fn log<T>(v: &BaseVideo<T>) -> String {
    let e: Vec<String> = (0..v.video_action_state_recorder.len()).map(|k| entry(v, k)).collect();
    format!("[{}]", e.join(","))
}
pub fn boards<T>(v: &BaseVideo<T>) -> String {
    let e: Vec<String> = v.game_board_stream.iter().map(|g| format!("\"{}\"", tla_grid(&g.game_board))).collect();
    format!("[{}]", e.join(","))
}
pub fn texts<T>(v: &BaseVideo<T>) -> String {
    let t = [
        &v.software,
        &v.player_designator,
        &v.race_designator,
        &v.uniqueness_designator,
        &v.start_time,
        &v.end_time,
        &v.country,
        &v.device_uuid,
    ];
    format!("[{}]", t.iter().map(|x| jbytes(x)).collect::<Vec<_>>().join(","))
}

pub struct Live1 {
    pub v: Live,
    pub rows: usize,
    pub cols: usize,
    pub pix: usize,
    pub began: Instant,
    pub shifted: u64,
}
pub fn r8(x: Option<Result<u8, ()>>) -> i64 {
    match x {
        None => 99,
        Some(Err(())) => 9,
        Some(Ok(k)) => k as i64,
    }
}
/// 1 given, 0 refused, 99 panic
fn given<T>(f: impl FnOnce() -> Result<T, ()>) -> i64 {
    match caught(f) {
        None => 99,
        Some(Err(())) => 0,
        Some(Ok(_)) => 1,
    }
}
impl Live1 {
    pub fn new(b: &Grid, pix: usize) -> Live1 {
        Live1 {
            v: BaseVideo::<SafeBoard>::new_before_game(b.clone(), pix as u8),
            rows: b.len(),
            cols: b[0].len(),
            pix,
            began: Instant::now(),
            shifted: 0,
        }
    }
    /// clicks outside come from the corner below and right; the mouse may be anywhere
    pub fn pixel(&self, rng: &mut Rng, e: &str, p: P) -> P {
        if p.0 >= self.rows || p.1 >= self.cols {
            let (h, w) = (self.rows * self.pix, self.cols * self.pix);
            match if e == "mv" { rng.below(4) } else { 0 } {
                1 => (h + rng.below(3 * self.pix), rng.below(w)),
                2 => (rng.below(h), w + rng.below(3 * self.pix)),
                3 => (h + rng.below(3 * self.pix), w + rng.below(3 * self.pix)),
                _ => (h, w),
            }
        } else {
            (p.0 * self.pix + rng.below(self.pix), p.1 * self.pix + rng.below(self.pix))
        }
    }
    /// let `d` ms pass: the recorder's clock is moved back instead of waiting
    pub fn pass(&mut self, micros: u64) {
        self.v.video_start_instant = self.v.video_start_instant - Duration::from_micros(micros);
        self.shifted += micros;
    }
    /// ms on the clock the recorder sees
    fn clock(&self) -> i64 {
        ((self.began.elapsed().as_micros() as u64 + self.shifted) / 1000) as i64
    }
    pub fn step(&mut self, e: &str, px: P) -> i64 {
        r8(caught(|| self.v.step(e, px)))
    }
    /// what can be seen from outside after a call; `d0` the artificial time that had passed
    fn obs(&self) -> J {
        let v = &self.v;
        let n = v.video_action_state_recorder.len();
        let nb = v.game_board_stream.len();
        let c0 = self.clock();
        let c = caught(|| v.get_time());
        let c1 = self.clock();
        J::obj()
            .int("cmin", c0)
            .int("clk", c.map(ms).unwrap_or(-1))
            .int("cmax", c1)
            .str("st", &format!("{:?}", v.game_board_state))
            .int("nlog", n as i64)
            .int("nboards", nb as i64)
            .raw("last", &if n > 0 { format!("[{}]", entry(v, n - 1)) } else { "[]".into() })
            .str("shown", &if nb > 0 { tla_grid(&v.game_board_stream[nb - 1].game_board) } else { "".into() })
            .str("gb", &tla_grid(&v.get_game_board()))
            .int("left", v.get_left() as i64)
            .int("right", v.get_right() as i64)
            .int("dbl", v.get_double() as i64)
            .int("cl", v.get_cl() as i64)
            .int("flag", v.get_flag() as i64)
            .int("mouse", v.get_mouse_state() as i64)
            .int("h", v.height as i64)
            .int("w", v.width as i64)
            .int("pix", v.cell_pixel_size as i64)
            .int("mines", v.mine_num as i64)
            .int("level", v.level as i64)
            .boolean("done", v.is_completed)
            .boolean("official", v.is_offical)
            .boolean("fair", v.is_fair)
            .int("mode", v.mode as i64)
            .raw("texts", &texts(v))
            .int("rtime", v.get_rtime().map(ms).unwrap_or(-1))
            .int("rtimems", v.get_rtime_ms().map(|x| x as i64).unwrap_or(-1))
            .raw("check", &v.get_checksum().map(|c| jbytes(&c)).unwrap_or("[]".into()))
            .int("rawlen", v.get_raw_data().map(|c| c.len() as i64).unwrap_or(-1))
    }
    fn raw(&self) -> String {
        self.v.get_raw_data().map(|c| jbytes(&c)).unwrap_or("[]".into())
    }
    /// which results may be read now
    fn readable(&mut self) -> String {
        let v = &mut self.v;
        let a = vec![
            ("rtime", given(|| v.get_rtime())),
            ("rtime_ms", given(|| v.get_rtime_ms())),
            ("raw", given(|| v.get_raw_data())),
            ("checksum", given(|| v.get_checksum())),
            ("solved", given(|| v.get_bbbv_solved())),
            ("ce", given(|| v.get_ce())),
            ("etime", given(|| v.get_etime())),
            ("bbbv_s", given(|| v.get_bbbv_s())),
            ("stnb", given(|| v.get_stnb())),
            ("rqp", given(|| v.get_rqp())),
            ("qg", given(|| v.get_qg())),
            ("ce_s", given(|| v.get_ce_s())),
            ("corr", given(|| v.get_corr())),
            ("thrp", given(|| v.get_thrp())),
            ("ioe", given(|| v.get_ioe())),
            ("op_solved", given(|| v.get_op_solved())),
            ("isl_solved", given(|| v.get_isl_solved())),
            ("video_start", given(|| v.get_video_start_time())),
            ("video_end", given(|| v.get_video_end_time())),
            ("xy", given(|| v.get_x_y())),
            ("pixsize", given(|| v.get_pix_size())),
            ("event_id", given(|| v.set_current_event_id(0))),
            ("set_rtime", given(|| v.set_rtime(5.0))),
        ];
        let mut j = J::obj();
        for (k, x) in a {
            j = j.int(k, x);
        }
        // readings that are always there
        let t = [v.get_time(), v.get_left_s(), v.get_right_s(), v.get_double_s(), v.get_cl_s(), v.get_flag_s(), v.get_path()];
        j.boolean("finite", t.iter().all(|x| !(*x < 0.0))).end()
    }
}

pub fn text(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = match rng.below(4) {
        0 => 0,
        1 => rng.below(max + 1),
        _ => rng.below(8),
    };
    (0..n)
        .map(|_| match rng.below(3) {
            0 => rng.range(1, 255) as u8,
            1 => rng.range(32, 126) as u8,
            _ => *rng.pick(&[1u8, 9, 10, 13, 48, 65, 127, 128, 200, 254, 255]),
        })
        .collect()
}

pub fn checksum(rng: &mut Rng) -> [u8; 32] {
    let mut c = [0u8; 32];
    match rng.below(5) {
        0 => {}
        1 => c = [255; 32],
        _ => c.iter_mut().for_each(|x| *x = rng.below(256) as u8),
    }
    c
}

pub fn small_board(rng: &mut Rng, t: usize) -> Grid {
    match t % 12 {
        11 => {
            // standard boards: level and mine count matter
            let (r, c, m) = *rng.pick(&[(8usize, 8usize, 10usize), (8, 8, 10), (16, 16, 40), (16, 30, 99), (8, 8, 9), (16, 16, 39)]);
            let mut cells: Vec<P> = (0..r * c).map(|k| (k / c, k % c)).collect();
            rng.shuffle(&mut cells);
            numbers(r, c, &cells[..m])
        }
        k => sized_board(rng, if k % 10 == 9 { 3 } else { k }),
    }
}

const FIELDS: [&str; 11] =
    ["software", "player", "race", "unique", "start", "end", "country", "uuid", "official", "fair", "mode"];

pub fn set_field(v: &mut Live, f: &str, val: &[u8], n: usize) -> i64 {
    let b = val.to_vec();
    r8(caught(|| match f {
        "software" => v.set_software(b),
        "player" => v.set_player_designator(b),
        "race" => v.set_race_designator(b),
        "unique" => v.set_uniqueness_designator(b),
        "start" => v.set_start_time(b),
        "end" => v.set_end_time(b),
        "country" => v.set_country(b),
        "uuid" => v.set_device_uuid(b),
        "official" => v.set_is_offical(n % 2 == 1),
        "fair" => v.set_is_fair(n % 2 == 1),
        _ => v.set_mode(n as u16),
    }))
}

/// what is solved of the board on display
fn solved(b: &Grid, gb: &Grid) -> usize {
    let (r, c) = (b.len(), b[0].len());
    let mut n = 0;
    let mut seen = vec![vec![false; c]; r];
    for i in 0..r {
        for j in 0..c {
            if b[i][j] > 0 && gb[i][j] == b[i][j] && nbr(r, c, (i, j)).iter().all(|q| b[q.0][q.1] != 0) {
                n += 1;
            }
            if b[i][j] == 0 && !seen[i][j] {
                seen[i][j] = true;
                let (mut todo, mut all) = (vec![(i, j)], true);
                while let Some(p) = todo.pop() {
                    all &= gb[p.0][p.1] == 0;
                    for q in nbr(r, c, p) {
                        if b[q.0][q.1] == 0 && !seen[q.0][q.1] {
                            seen[q.0][q.1] = true;
                            todo.push(q);
                        }
                    }
                }
                n += all as usize;
            }
        }
    }
    n
}
/// the board with mines moved between cells not opened yet, all that is displayed kept
fn rearranged(rng: &mut Rng, b: &Grid, gb: &Grid) -> Grid {
    let (r, c) = (b.len(), b[0].len());
    let closed: Vec<P> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| gb[p.0][p.1] >= 10).collect();
    let shown = |x: &Grid| {
        (0..r * c).map(|k| (k / c, k % c)).all(|p| gb[p.0][p.1] >= 10 || x[p.0][p.1] == gb[p.0][p.1]) && solved(x, gb) == solved(b, gb)
    };
    let mut now = b.clone();
    let mut moved = 0;
    for _ in 0..60 {
        if closed.is_empty() || moved > 2 {
            break;
        }
        let (p, q) = (*rng.pick(&closed), *rng.pick(&closed));
        // mostly a mine and a safe cell change places, sometimes one comes or goes
        let swap = rng.chance(85);
        if now[p.0][p.1] != -1 || (swap && now[q.0][q.1] == -1) {
            continue;
        }
        let mut mines: Vec<P> = (0..r * c).map(|k| (k / c, k % c)).filter(|x| now[x.0][x.1] == -1 && *x != p).collect();
        if swap {
            mines.push(q);
        }
        let next = numbers(r, c, &mines);
        if shown(&next) {
            now = next;
            moved += 1;
        }
    }
    now
}

/// video live OUT SEED N LEN : histories of calls on a live video
pub fn live(out: &str, seed: u64, n: usize, len: usize) {
    let mut o = Out::new(out);
    for t in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(7_000_003).wrapping_add(t as u64));
        let mut board = small_board(&mut rng, t);
        let b0 = board.clone();
        let pix0 = *rng.pick(&[1usize, 7, 16, 16, 20, 32, 255]);
        let mut l = Live1::new(&board, pix0);
        let mut ops: Vec<String> = vec![];
        let mut queue: Vec<(String, P)> = vec![];
        let style = rng.below(4);
        let mut after_end = 0;
        let meta_heavy = rng.chance(40);
        let guessing = rng.chance(25);
        if rng.chance(20) {
            for _ in 0..rng.range(1, 3) {
                queue.push(("pf".to_string(), (rng.below(l.rows), rng.below(l.cols))));
            }
        }
        while ops.len() < len {
            let over = matches!(l.v.game_board_state, GameBoardState::Win | GameBoardState::Loss);
            if over {
                after_end += 1;
            }
            let playing_share = if over { 15 } else if meta_heavy { 85 } else { 95 };
            let relay = guessing && l.v.game_board_state == GameBoardState::Playing && rng.chance(15);
            if !relay && rng.chance(playing_share) {
                let mut pl = Player { board: &board, rng: &mut rng, style, queue };
                let (e, p) = pl.next_event(&l.v.minesweeper_board.game_board);
                queue = pl.queue;
                if e == "pf" && (p.0 >= l.rows || p.1 >= l.cols || l.v.minesweeper_board.game_board[p.0][p.1] != 10) {
                    continue;
                }
                let px = l.pixel(&mut rng, &e, p);
                let d = if rng.chance(60) { 0 } else { *rng.pick(&[1u64, 3, 17, 250, 1000, 60_000]) };
                l.pass(d * 1000 + if rng.chance(50) { rng.below(1000) as u64 } else { 0 });
                let w0 = l.clock();
                let res = l.step(&e, px);
                let w1 = l.clock();
                ops.push(
                    l.obs()
                        .str("op", "step")
                        .str("e", &e)
                        .int("y", px.0 as i64)
                        .int("x", px.1 as i64)
                        .int("res", res)
                        .int("wmin", w0)
                        .int("wmax", w1)
                        .end(),
                );
                if res == 99 {
                    break;
                }
                continue;
            }
            match if relay { 3 } else { rng.below(9) } {
                8 => {
                    // the rest of the mines
                    let mark = rng.chance(50);
                    let done = caught(|| if mark { l.v.win_then_flag_all_mine() } else { l.v.loss_then_open_all_mine() }).is_some();
                    let res = if done { 0 } else { 99 };
                    ops.push(l.obs().str("op", if mark { "mark" } else { "show" }).int("res", res).end());
                }
                0 | 1 => {
                    let f = *rng.pick(&FIELDS);
                    let val = text(&mut rng, 40);
                    let k = match rng.below(3) {
                        0 => rng.below(65536),
                        _ => rng.below(12),
                    };
                    let res = set_field(&mut l.v, f, &val, k);
                    let shown = if f == "official" || f == "fair" { (k % 2) as i64 } else { k as i64 };
                    ops.push(l.obs().str("op", "set").str("field", f).raw("val", &jbytes(&val)).int("num", shown).int("res", res).end());
                }
                2 => {
                    if rng.chance(30) || (over && after_end > 6) {
                        // a fresh attempt
                        let nb = if rng.chance(60) { small_board(&mut rng, t) } else { b0.clone() };
                        let pix = *rng.pick(&[1usize, 8, 16, 33, 200]);
                        let (r, c) = (nb.len(), nb[0].len());
                        l.v.reset(r, c, pix as u8);
                        l.rows = r;
                        l.cols = c;
                        l.pix = pix;
                        queue = vec![];
                        after_end = 0;
                        ops.push(l.obs().str("op", "reset").int("r", r as i64).int("c", c as i64).int("p", pix as i64).int("res", 0).end());
                        if rng.chance(40) {
                            let w = text(&mut rng, 10);
                            let res = set_field(&mut l.v, "software", &w, 0);
                            ops.push(l.obs().str("op", "set").str("field", "software").raw("val", &jbytes(&w)).int("num", 0).int("res", res).end());
                        }
                        let res = r8(caught(|| l.v.set_board(nb.clone())));
                        ops.push(l.obs().str("op", "board").grid("b", &nb).int("res", res).end());
                        board = nb;
                    }
                }
                3 => {
                    // another board: allowed before the game ends, same size only
                    let playing = l.v.game_board_state == GameBoardState::Playing;
                    let other = small_board(&mut rng, t + 1);
                    let fits = other.len() == l.rows && other[0].len() == l.cols;
                    let nb = if rng.chance(30) && !(playing && fits) {
                        other
                    } else if playing {
                        // the mines may be laid anew where nothing is displayed yet
                        rearranged(&mut rng, &board, &l.v.minesweeper_board.game_board)
                    } else {
                        let d = rng.range(5, 40);
                        random_board(&mut rng, l.rows, l.cols, d)
                    };
                    let res = r8(caught(|| l.v.set_board(nb.clone())));
                    if res == 0 {
                        board = nb.clone();
                    }
                    ops.push(l.obs().str("op", "board").grid("b", &nb).int("res", res).end());
                }
                4 => {
                    let pix = *rng.pick(&[1usize, 5, 16, 24, 128]);
                    let res = r8(caught(|| l.v.set_pix_size(pix as u8)));
                    if res == 0 {
                        l.pix = pix;
                    }
                    ops.push(l.obs().str("op", "pix").int("p", pix as i64).int("res", res).end());
                }
                5 => {
                    let g = l.readable();
                    ops.push(l.obs().str("op", "read").raw("got", &g).int("res", 0).end());
                }
                6 => {
                    let c = checksum(&mut rng);
                    let res = r8(caught(|| l.v.set_checksum(c)));
                    ops.push(l.obs().str("op", "check").raw("raw", &l.raw()).raw("c", &jbytes(&c)).int("res", res).end());
                    if res == 99 {
                        break;
                    }
                }
                _ => {
                    // bytes of a game with only storable events
                    if !over || l.v.video_action_state_recorder.iter().any(|a| !STORABLE.contains(&a.mouse.as_str())) {
                        continue;
                    }
                    let res = if caught(|| l.v.generate_evf_v0_raw_data()).is_some() { 0 } else { 99 };
                    ops.push(l.obs().str("op", "gen").raw("raw", &l.raw()).int("res", res).end());
                    if res == 99 {
                        break;
                    }
                }
            }
        }
        let line = J::obj()
            .str("kind", "live")
            .grid("b", &b0)
            .int("pix", pix0 as i64)
            .raw("ops", &format!("[{}]", ops.join(",")))
            .raw("log", &log(&l.v))
            .raw("boards", &boards(&l.v))
            .end();
        o.line(&line);
    }
    o.flush();
}
