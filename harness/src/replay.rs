//! Whole games: recorded live, written, read back, replayed, played back.
use crate::files::*;
use crate::game::Player;
use crate::util::*;
use crate::video::*;
use ms_toollib::{BaseVideo, GameBoardState, MouseState};

pub const STORABLE: [&str; 9] = ["mv", "lc", "lr", "rc", "rr", "mc", "mr", "pf", "cc"];

/// thousandths; anything that is not a number is -7
pub fn k(x: f64) -> i64 {
    if x.is_finite() {
        ((x * 1000.0).round()).clamp(-2.0e9, 2.0e9) as i64
    } else {
        -7
    }
}
fn millionths(x: f64) -> i32 {
    if x.is_finite() {
        (x * 1_000_000.0).round() as i32
    } else {
        -7
    }
}
fn kr(x: Result<f64, ()>) -> i64 {
    x.map(k).unwrap_or(-8)
}
fn ur(x: Result<usize, ()>) -> i64 {
    x.map(|v| v as i64).unwrap_or(-8)
}
/// every statistic on display
pub fn stats<T>(v: &BaseVideo<T>) -> J {
    J::obj()
        .int("left", v.get_left() as i64)
        .int("right", v.get_right() as i64)
        .int("dbl", v.get_double() as i64)
        .int("cl", v.get_cl() as i64)
        .int("flag", v.get_flag() as i64)
        .int("ce", ur(v.get_ce()))
        .int("solved", ur(v.get_bbbv_solved()))
        .int("left_s", k(v.get_left_s()))
        .int("right_s", k(v.get_right_s()))
        .int("dbl_s", k(v.get_double_s()))
        .int("cl_s", k(v.get_cl_s()))
        .int("flag_s", k(v.get_flag_s()))
        .int("path", k(v.get_path() / 10.0))
        .int("etime", kr(v.get_etime()))
        .int("bbbv_s", kr(v.get_bbbv_s()))
        .int("stnb", kr(v.get_stnb()))
        .int("rqp", kr(v.get_rqp()))
        .int("qg", kr(v.get_qg()))
        .int("ce_s", kr(v.get_ce_s()))
        .int("corr", kr(v.get_corr()))
        .int("thrp", kr(v.get_thrp()))
        .int("ioe", kr(v.get_ioe()))
        .int("mouse", v.get_mouse_state() as i64)
        .str("gb", &tla_grid(&v.get_game_board()))
}
fn statics<T>(v: &BaseVideo<T>) -> String {
    let s = &v.static_params;
    jints(&[
        s.bbbv, s.op, s.isl, s.cell0, s.cell1, s.cell2, s.cell3, s.cell4, s.cell5, s.cell6, s.cell7, s.cell8,
    ].map(|x| x as i64))
}

fn wide_board(rng: &mut Rng) -> Grid {
    let (r, c) = (rng.range(6, 9), rng.range(6, 10));
    let d = rng.range(15, 30);
    random_board(rng, r, c, d)
}

/// a live game played to its end with events a file can hold
pub fn played(rng: &mut Rng, board: &Grid, pix: usize, len: usize, slow: bool) -> Option<Live1> {
    let (r, c) = (board.len(), board[0].len());
    let mut l = Live1::new(board, pix);
    let style = rng.below(3);
    let mut queue = vec![];
    let lose = rng.chance(35);
    let mut go = |l: &mut Live1, rng: &mut Rng, e: &str, p: P| -> bool {
        if !STORABLE.contains(&e) {
            return true;
        }
        if e == "pf" && (p.0 >= r || p.1 >= c || l.v.minesweeper_board.game_board[p.0][p.1] != 10) {
            return true;
        }
        if e == "pf" && l.v.minesweeper_board.mouse_state != MouseState::UpUp {
            return true;
        }
        let px = l.pixel(rng, e, p);
        if slow {
            let d = if rng.chance(50) { 0 } else { *rng.pick(&[1u64, 3, 17, 120, 250]) };
            l.pass(d * 1000);
        }
        l.step(e, px) != 99
    };
    let over = |l: &Live1| matches!(l.v.game_board_state, GameBoardState::Win | GameBoardState::Loss);
    let mut n = 0;
    if rng.chance(25) {
        // flags taken over from before, some of them off again
        for _ in 0..rng.range(1, 4) {
            let p = (rng.below(r), rng.below(c));
            if !go(&mut l, rng, "pf", p) {
                return None;
            }
            if rng.chance(20) {
                go(&mut l, rng, "rc", p);
                go(&mut l, rng, "rr", p);
            }
        }
    }
    while n < len && !over(&l) {
        n += 1;
        let mut pl = Player { board, rng, style, queue };
        let gb = &l.v.minesweeper_board.game_board;
        let (e, mut p) = pl.next_event(gb);
        if len > 200 && l.v.game_board_state == GameBoardState::Playing && n % 100 != 7 {
            p = pl.harmless(gb, &e, p);
        }
        queue = pl.queue;
        if !go(&mut l, rng, &e, p) {
            return None;
        }
    }
    for e in ["lr", "rr", "mr", "lr", "rr", "mr"] {
        if !over(&l) && l.v.minesweeper_board.mouse_state != MouseState::UpUp {
            go(&mut l, rng, e, (r, c));
        }
    }
    let mut todo: Vec<P> = (0..r * c).map(|i| (i / c, i % c)).collect();
    rng.shuffle(&mut todo);
    for p in todo {
        if over(&l) {
            break;
        }
        let g = l.v.minesweeper_board.game_board[p.0][p.1];
        if board[p.0][p.1] < 0 && !lose || g < 10 {
            continue;
        }
        if g == 11 {
            go(&mut l, rng, "rc", p);
            go(&mut l, rng, "rr", p);
        }
        go(&mut l, rng, "lc", p);
        go(&mut l, rng, "lr", p);
    }
    if over(&l) {
        Some(l)
    } else {
        None
    }
}

fn header<T>(v: &BaseVideo<T>) -> J {
    J::obj()
        .boolean("done", v.is_completed)
        .boolean("official", v.is_offical)
        .boolean("fair", v.is_fair)
        .int("h", v.height as i64)
        .int("w", v.width as i64)
        .int("mines", v.mine_num as i64)
        .int("pix", v.cell_pixel_size as i64)
        .int("mode", v.mode as i64)
        .int("bbbv", v.static_params.bbbv as i64)
        .int("level", v.level as i64)
        .int("rtime", v.get_rtime().map(ms).unwrap_or(-1))
        .raw("strs", &texts(v))
        .raw("check", &v.get_checksum().map(|c| jbytes(&c)).unwrap_or("[]".into()))
}

/// video replay OUT SEED N LEN : live game, its bytes, what a reader sees, and the replay
pub fn replay(out: &str, seed: u64, n: usize, len: usize) {
    let mut o = Out::new(out);
    let mut t = 0;
    while o.n < n && t < 4 * n {
        t += 1;
        let mut rng = Rng::new(seed.wrapping_mul(15_000_017).wrapping_add(t as u64));
        // now and then a long game: more events and boards than a byte counts
        let long = t % 120 == 60;
        let board = if long { wide_board(&mut rng) } else { small_board(&mut rng, t) };
        let len = if long { 1300 } else { len };
        let pix = *rng.pick(&[1usize, 7, 16, 16, 20, 32, 255]);
        let mut l = match played(&mut rng, &board, pix, len, true) {
            Some(l) => l,
            None => continue,
        };
        // the level is set together with the board
        for f in ["software", "player", "race", "unique", "start", "end", "country", "uuid", "official", "fair", "mode"] {
            if rng.chance(60) {
                let val = text(&mut rng, 60);
                let x = if rng.chance(30) { rng.below(65536) } else { rng.below(12) };
                set_field(&mut l.v, f, &val, x);
            }
        }
        let before = rng.below(3);
        let has = before < 2;
        let c = checksum(&mut rng);
        if before == 0 {
            let _ = l.v.set_checksum(c);
        }
        let gen = caught(|| l.v.generate_evf_v0_raw_data()).is_some();
        if before == 1 {
            let _ = l.v.set_checksum(c);
        }
        let raw = l.v.get_raw_data().unwrap_or(vec![]);
        let (pout, perr, pv) = parse("evf", &raw);
        let mut j = J::obj()
            .str("op", "game")
            .boolean("gen", gen)
            .grid("b", &board)
            .int("pix", pix as i64)
            .raw("hdr", &header(&l.v).end())
            .raw("attached", &if has { jbytes(&c) } else { "[]".into() })
            .raw("log", &log(&l.v))
            .raw("boards", &boards(&l.v))
            .raw("stats", &stats(&l.v).end())
            .raw("statics", &statics(&l.v))
            .raw("raw", &jbytes(&raw))
            .int("out", pout)
            .str("err", &perr);
        if let Some(mut v) = pv {
            j = j.raw("got", &seen(&v).end());
            let ok = caught(|| v.data_analyse()).is_some();
            j = j.boolean("analysed", ok);
            if ok {
                let last = v.video_action_state_recorder.len() - 1;
                let _ = v.set_current_event_id(last);
                j = j
                    .raw("rlog", &log(&v))
                    .raw("rboards", &boards(&v))
                    .raw("rhdr", &header(&v).end())
                    .int("start", v.get_video_start_time().map(ms).unwrap_or(-9_999_999))
                    .int("end", v.get_video_end_time().map(ms).unwrap_or(-9_999_999))
                    .raw("rstats", &stats(&v).end())
                    .raw("rstatics", &statics(&v));
            }
        }
        o.line(&j.end());
    }
    o.flush();
}
trait Ana {
    fn data_analyse(&mut self);
}
impl Ana for Parsed {
    fn data_analyse(&mut self) {
        self.analyse()
    }
}

/// events of a finished game with times of our own, as a file
pub struct Timed {
    pub file: EvfFile,
    pub opened: usize,
}
/// `gap` gives the time between events; the game ends `total` ms after its opening when asked for
pub fn timed_game(rng: &mut Rng, board: &Grid, pix: usize, len: usize, total: Option<usize>) -> Option<Timed> {
    let l = played(rng, board, pix, len, false)?;
    let mut ev: Vec<(String, usize, usize)> =
        l.v.video_action_state_recorder.iter().map(|a| (a.mouse.clone(), a.x as usize, a.y as usize)).collect();
    // the opening: first event after which something is open
    let opened = l
        .v
        .video_action_state_recorder
        .iter()
        .position(|a| l.v.game_board_stream[a.next_game_board_id].game_board.iter().flatten().any(|&g| g < 10 || g > 12))?;
    let mut times = vec![];
    let mut t = if rng.chance(70) { 0 } else { 125 * rng.below(20) };
    for i in 0..ev.len() {
        times.push(t);
        if total.is_none() || i < opened {
            t += 125 * *rng.pick(&[0usize, 0, 1, 1, 1, 2, 8]);
        }
    }
    if let Some(d) = total {
        let m = ev.len() - 1;
        for i in opened..=m {
            times[i] = times[opened] + if i == m { d } else { (d * (i - opened) / (m - opened).max(1)) / 125 * 125 };
        }
        if opened == m {
            return None;
        }
    }
    let rtime = times[ev.len() - 1] - times[opened];
    // the mouse may come in from beside or below the board
    if rng.chance(20) {
        for _ in 0..rng.range(1, 3) {
            let (w, h) = (board[0].len() * pix, board.len() * pix);
            let (x, y) = match rng.below(3) {
                0 => (w + rng.below(40), rng.below(h)),
                1 => (rng.below(w), h + rng.below(40)),
                _ => (w, h),
            };
            ev.insert(0, ("mv".to_string(), x, y));
            times.insert(0, times[0]);
        }
    }
    // recorders of other programs go on after the end
    if rng.chance(25) {
        let mut t = times[ev.len() - 1];
        for _ in 0..rng.range(1, 6) {
            t += 125 * rng.below(9);
            let e = *rng.pick(&["mv", "mv", "lr", "lc", "rc", "rr", "mc", "cc"]);
            ev.push((e.to_string(), rng.below(board[0].len() * pix), rng.below(board.len() * pix)));
            times.push(t);
        }
    }
    let mines = board.iter().flatten().filter(|&&x| x == -1).count();
    let strs = vec![vec![]; 8];
    Some(Timed {
        file: EvfFile {
            version: 0,
            flags: 0,
            h: board.len(),
            w: board[0].len(),
            mines,
            pix: pix as u8,
            mode: 0,
            bbbv: ms_toollib::cal_bbbv(board),
            rtime,
            strs,
            board: board.clone(),
            pad: 0,
            ev: ev.iter().zip(&times).map(|(e, t)| (kind_no(&e.0), *t, e.1, e.2)).collect(),
            check: None,
        },
        opened,
    })
}

/// where the playback stands and what it shows
fn view(v: &mut Parsed) -> J {
    let (x, y) = match caught(|| v.get_x_y()) {
        Some(Ok(p)) => (p.0 as i64, p.1 as i64),
        Some(Err(())) => (-1, -1),
        None => (-99, -99),
    };
    stats(v)
        .int("id", v.current_event_id as i64 + 1)
        .int("time", k(v.current_time))
        .int("shown", k(v.get_time()))
        .int("x", x)
        .int("y", y)
}

/// a game as another program would have stored it
fn in_format(fmt: &str, board: &Grid, evs: &mut Vec<(String, usize, usize, usize)>) -> Option<Vec<u8>> {
    // whole seconds
    let t0 = evs[0].1;
    evs.iter_mut().for_each(|e| e.1 = 8 * (e.1 - t0));
    if evs[0].1 == 0 && evs[0].0 != "mv" && evs[0].0 != "lc" {
        evs.insert(0, ("mv".to_string(), 0, evs[0].2, evs[0].3));
    }
    if fmt == "rmv" {
        // the recording starts with the left button down, and does not say so
        match evs.iter().position(|e| e.0 == "lc") {
            Some(k) if k + 1 < evs.len() => drop(evs.drain(..k + 1)),
            _ => return None,
        };
    }
    Some(plain(fmt, board, evs))
}
/// the events of a video whose game got somewhere and refused none of them; cells of 16 pixels
fn as_played(v: &Parsed, board: &Grid) -> Option<Vec<(String, usize, usize, usize)>> {
    let evs: Vec<(String, usize, usize, usize)> = v
        .video_action_state_recorder
        .iter()
        .map(|a| (a.mouse.clone(), (a.time * 1000.0).round() as usize, a.x as usize, a.y as usize))
        .collect();
    let mut g = ms_toollib::MinesweeperBoard::<Vec<Vec<i32>>>::new(board.clone());
    for e in &evs {
        let (i, j) = (e.3 / 16, e.2 / 16);
        let p = if i < board.len() && j < board[0].len() { (i, j) } else { (board.len(), board[0].len()) };
        if !matches!(caught(|| g.step(&e.0, p)), Some(Ok(_))) {
            return None;
        }
    }
    if g.bbbv_solved == 0 && !g.game_board.iter().flatten().any(|&x| x < 10 || x > 12) {
        return None;
    }
    Some(evs)
}
pub fn foreign_game(fmt: &str, rng: &mut Rng, t: usize) -> Option<Vec<u8>> {
    let board = small_board(rng, t % 10);
    let f = timed_game(rng, &board, 16, 40, None)?.file;
    let mut evs: Vec<(String, usize, usize, usize)> =
        f.ev.iter().map(|e| (KINDS[e.0 as usize - 1].to_string(), e.1, e.2, e.3)).collect();
    in_format(fmt, &board, &mut evs)
}

/// video timed OUT SEED N LEN SEEKS : own files, every event visited, then seeks
/// (HARNESS_FMT: the same in the file of another program; HARNESS_RAW: with the bytes)
pub fn timed(out: &str, seed: u64, n: usize, len: usize, seeks: usize) {
    let mut o = Out::new(out);
    let fmt = std::env::var("HARNESS_FMT").unwrap_or("evf".into());
    let keep = std::env::var("HARNESS_RAW").is_ok();
    let other = std::env::var("HARNESS_CONVERT").is_ok();
    let mut t = 0;
    while o.n < n && t < 6 * n {
        t += 1;
        let mut rng = Rng::new(seed.wrapping_mul(17_000_023).wrapping_add(t as u64));
        let total = match rng.below(4) {
            0 if fmt == "evf" => Some(1000),
            1 if fmt == "evf" => Some(1_024_000),
            _ => None,
        };
        let board = if total.is_some() && rng.chance(30) {
            let (r, c, m) = *rng.pick(&[(8usize, 8usize, 10usize), (8, 8, 10), (16, 16, 40), (16, 30, 99)]);
            let mut cells: Vec<P> = (0..r * c).map(|k| (k / c, k % c)).collect();
            rng.shuffle(&mut cells);
            numbers(r, c, &cells[..m])
        } else if t % 100 == 50 && fmt == "evf" {
            wide_board(&mut rng)
        } else {
            small_board(&mut rng, t % 10)
        };
        let len = if t % 100 == 50 { 500 } else { len };
        let pix = if fmt == "evf" { *rng.pick(&[1usize, 7, 16, 16, 24]) } else { 16 };
        let tg = match timed_game(&mut rng, &board, pix, len, total) {
            Some(g) => g,
            None => continue,
        };
        let mut f = tg.file.clone();
        let mut evs: Vec<(String, usize, usize, usize)> =
            f.ev.iter().map(|e| (KINDS[e.0 as usize - 1].to_string(), e.1, e.2, e.3)).collect();
        let raw = if fmt == "evf" {
            f.bytes()
        } else {
            match in_format(&fmt, &board, &mut evs) {
                Some(d) => d,
                None => continue,
            }
        };
        if f.ev[f.ev.len() - 1].1 * 8 > 1_000_000 && fmt != "evf" {
            continue;
        }
        let (pout, _, pv) = parse(&fmt, &raw);
        let mut v = match pv {
            Some(v) => v,
            None => {
                if fmt == "evf" {
                    o.line(&J::obj().str("op", "timed").int("out", pout).end());
                }
                continue;
            }
        };
        if fmt != "evf" {
            evs = match as_played(&v, &board) {
                Some(e) => e,
                None => continue,
            };
        }
        if other {
            // the video as it is in the native format
            v = match caught(|| v.generate_evf_v0_raw_data()).and_then(|_| v.get_raw_data().ok()).map(|d| parse("evf", &d)) {
                Some((1, _, Some(w))) => w,
                _ => {
                    o.line(&J::obj().str("op", "timed").int("out", 0).end());
                    continue;
                }
            };
        }
        f.rtime = tg.file.rtime;
        let twice = rng.chance(30);
        let ana = caught(|| v.analyse()).is_some() && (!twice || caught(|| v.analyse()).is_some());
        let evs: Vec<String> =
            evs.iter().map(|e| format!("{{\"e\":\"{}\",\"t\":{},\"x\":{},\"y\":{}}}", e.0, e.1, e.2, e.3)).collect();
        let mut j = J::obj()
            .str("op", "timed")
            .int("out", pout)
            .boolean("analysed", ana)
            .grid("b", &board)
            .int("pix", pix as i64)
            .int("mines", tg.file.mines as i64)
            .int("rtime", tg.file.rtime as i64)
            .raw("ev", &format!("[{}]", evs.join(",")));
        if keep {
            j = j.str("fmt", &fmt).raw("raw", &jbytes(&raw)).int("twice", twice as i64);
        }
        if !ana {
            o.line(&j.end());
            continue;
        }
        let first = view(&mut v).end();
        let m = v.video_action_state_recorder.len();
        let visits: Vec<String> = (0..m)
            .map(|i| {
                let _ = v.set_current_event_id(i);
                view(&mut v).end()
            })
            .collect();
        let mut sk = vec![];
        let lo = ms(v.get_video_start_time().unwrap_or(0.0));
        let hi = ms(v.get_video_end_time().unwrap_or(0.0));
        let mut last = 0i64;
        let mut playing = pix;
        let small = board.len() * board[0].len() <= 30;
        // the probabilities on display, asked for now and then
        let mut asked = 0;
        let mut poss = |v: &mut Parsed, rng: &mut Rng| -> String {
            if !small || asked > 6 || rng.chance(60) {
                return "[]".into();
            }
            asked += 1;
            match caught(|| v.get_game_board_poss()) {
                None => "[[-1]]".into(),
                Some(p) => jgrid(&p.iter().map(|r| r.iter().map(|&x| millionths(x)).collect()).collect()),
            }
        };
        for _ in 0..seeks {
            let c = rng.below(10);
            if c == 0 {
                let i = rng.below(m);
                let r = r8(caught(|| v.set_current_event_id(i)));
                let ps = poss(&mut v, &mut rng);
                sk.push(view(&mut v).raw("poss", &ps).str("op", "event").int("arg", i as i64 + 1).int("res", r).int("pp", playing as i64).end());
                continue;
            }
            if c == 1 {
                playing = *rng.pick(&[1usize, 8, 16, 20, 40, 255]);
                let r = if caught(|| v.set_video_playing_pix_size(playing as u8)).is_some() { 0 } else { 99 };
                sk.push(view(&mut v).raw("poss", "[]").str("op", "pix").int("arg", 0).int("res", r).int("pp", playing as i64).end());
                continue;
            }
            let q = match c {
                2 => last + (sk.len() % 2) as i64,
                3 => lo - 1000 * rng.below(3) as i64,
                4 => hi + 1000 * rng.below(3) as i64,
                5 => last + if sk.len() % 4 < 2 { 125 } else { 1 },
                6 => last - if sk.len() % 2 == 0 { 125 } else { 1 },
                _ => lo + 125 * rng.below(((hi - lo) / 125 + 1) as usize) as i64 + *rng.pick(&[0i64, 0, 0, -62, 62]),
            };
            last = q;
            let r = if caught(|| v.set_current_time(q as f64 / 1000.0)).is_some() { 0 } else { 99 };
            let ps = poss(&mut v, &mut rng);
            sk.push(view(&mut v).raw("poss", &ps).str("op", "time").int("arg", q).int("res", r).int("pp", playing as i64).end());
            if r == 99 {
                break;
            }
        }
        j = j
            .raw("first", &first)
            .raw("rlog", &log(&v))
            .raw("rboards", &boards(&v))
            .boolean("done", v.is_completed)
            .raw("rstatics", &statics(&v))
            .int("start", lo)
            .int("end", hi)
            .raw("visits", &format!("[{}]", visits.join(",")))
            .raw("seeks", &format!("[{}]", sk.join(",")));
        // nothing of a video is left after a reset
        let (nr, nc, np) = (rng.range(1, 9), rng.range(1, 9), rng.range(1, 255));
        let ok = caught(|| v.reset(nr, nc, np as u8)).is_some();
        j = j.raw("renewed", &emptied(&v, ok).int("nr", nr as i64).int("nc", nc as i64).int("np", np as i64).end());
        o.line(&j.end());
    }
    o.flush();
}

fn emptied<T>(v: &BaseVideo<T>, ok: bool) -> J {
    J::obj()
        .boolean("ok", ok)
        .str("st", &format!("{:?}", v.game_board_state))
        .int("h", v.height as i64)
        .int("w", v.width as i64)
        .int("pix", v.cell_pixel_size as i64)
        .str("gb", &tla_grid(&v.get_game_board()))
        .int("nlog", v.video_action_state_recorder.len() as i64)
        .int("nboards", v.game_board_stream.len() as i64)
        .int("clicks", (v.get_left() + v.get_right() + v.get_double() + v.get_flag()) as i64)
        .int("clk", ms(v.get_time()))
        .int("rates", ms(v.get_left_s() + v.get_right_s() + v.get_double_s() + v.get_flag_s() + v.get_path()))
        .int("bbbv", v.static_params.bbbv as i64)
        .boolean("closed", v.get_rtime().is_err() && v.get_raw_data().is_err() && v.get_checksum().is_err())
}

// ---------------------------------------------------------------- saving
fn listing(dir: &std::path::Path, known: &[Vec<u8>]) -> String {
    let mut v: Vec<String> = vec![];
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap() {
            let p = e.unwrap().path();
            let name = p.strip_prefix(dir).unwrap().to_string_lossy().to_string();
            let id = if p.is_dir() {
                todo.push(p.clone());
                0
            } else {
                let c = std::fs::read(&p).unwrap();
                known.iter().position(|k| *k == c).map(|k| k as i64 + 1).unwrap_or(-1)
            };
            v.push(J::obj().str("n", &name).int("c", id).end());
        }
    }
    v.sort();
    format!("[{}]", v.join(","))
}

/// video save OUT SEED N : videos stored among existing files of a scratch directory
pub fn save(out: &str, seed: u64, n: usize) {
    let mut o = Out::new(out);
    for t in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(19_000_013).wrapping_add(t as u64));
        let dir = scratch(&format!("save-{}", t % 50));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(dir.join("d")).unwrap();
        let bases = ["a", "a", "a", "a", "a(2)", "a.b", "d/a", "x y", "\u{96f7}", "a.evf", "."];
        let mut known: Vec<Vec<u8>> = vec![];
        let mut videos = vec![];
        for _ in 0..3 {
            let b = small_board(&mut rng, t);
            if rng.chance(20) {
                let l = Live1::new(&b, 16);
                known.push(vec![]);
                videos.push(Ok(l.v));
                continue;
            }
            let f = evf_random(&mut rng, 6);
            let raw = f.bytes();
            match parse("evf", &raw).2 {
                Some(mut v) => {
                    if rng.chance(50) {
                        v.generate_evf_v0_raw_data();
                    }
                    known.push(v.get_raw_data().unwrap_or(raw));
                    videos.push(Err(v));
                }
                None => {
                    let l = Live1::new(&b, 16);
                    known.push(vec![]);
                    videos.push(Ok(l.v));
                }
            }
        }
        let base = *rng.pick(&bases);
        // what is there already: some of the candidates, and names like them
        let dense = rng.chance(50);
        for k in 1..=14usize {
            if (dense && k <= 12 && rng.chance(93)) || rng.chance(25) {
                let name = if k == 1 { format!("{}.evf", base) } else { format!("{}({}).evf", base, k) };
                let c = vec![k as u8; 1 + rng.below(3)];
                known.push(c.clone());
                std::fs::write(dir.join(name), c).unwrap();
            }
        }
        for near in ["a", "a(1).evf", "a().evf", "a(0).evf", "a (2).evf", "a(2)", "a.EVF", "b.evf", "d/a.evf", "a.evf.evf", "a(02).evf"] {
            if rng.chance(20) && !dir.join(near).exists() {
                let c = vec![200, rng.below(256) as u8, rng.below(256) as u8];
                known.push(c.clone());
                std::fs::write(dir.join(near), c).unwrap();
            }
        }
        if rng.chance(10) && !dir.join(format!("{}(2).evf", base)).exists() {
            std::fs::create_dir_all(dir.join(format!("{}(2).evf", base))).unwrap();
        }
        let mut steps = vec![];
        for _ in 0..1 + rng.below(4) {
            let b = if rng.chance(80) { base } else { *rng.pick(&bases) };
            let id = rng.below(3);
            let before = listing(&dir, &known);
            let path = dir.join(b).to_string_lossy().to_string();
            let ok = caught(|| match &videos[id] {
                Ok(v) => v.save_to_evf_file(&path),
                Err(v) => v.save_to_evf_file(&path),
            })
            .is_some();
            // equal contents share a number
            let c = known.iter().position(|k| *k == known[id]).unwrap() as i64 + 1;
            steps.push(
                J::obj().str("base", b).int("c", c).boolean("ok", ok).raw("before", &before).raw("after", &listing(&dir, &known)).end(),
            );
        }
        o.line(&J::obj().str("op", "save").raw("steps", &format!("[{}]", steps.join(","))).end());
        let _ = std::fs::remove_dir_all(&dir);
    }
    o.flush();
}

// ---------------------------------------------------------------- annotations
/// comment texts as (what, value); `luck` carries its factors
fn pieces(c: &str) -> Vec<(String, i64, Vec<i64>)> {
    let mut v = vec![];
    let inner = |p: &str| -> String { p.split('(').nth(1).unwrap_or("").trim_end_matches(')').to_string() };
    let num = |t: &str, f: f64| -> i64 {
        let d: String = t.chars().filter(|c| c.is_ascii_digit() || *c == '.' || *c == '-').collect();
        d.parse::<f64>().map(|x| (x * f).round() as i64).unwrap_or(-1)
    };
    for p in c.split(';').map(|p| p.trim()).filter(|p| !p.is_empty()) {
        if p.starts_with("error: 危险的猜雷") {
            v.push(("risk".to_string(), num(&inner(p), 1000.0), vec![]));
        } else if p == "feature: 高难度的判雷(左键)" {
            v.push(("left".to_string(), 0, vec![]));
        } else if p == "feature: 高难度的判雷(标雷)" {
            v.push(("mark".to_string(), 0, vec![]));
        } else if p == "warning: 可以判雷时选择猜雷" {
            v.push(("needless".to_string(), 0, vec![]));
        } else if p == "warning: 可以判雷时视野的转移" {
            v.push(("away".to_string(), 0, vec![]));
        } else if p.starts_with("error: 过于弯曲的鼠标轨迹") {
            v.push(("crooked".to_string(), num(&inner(p), 1.0), vec![]));
        } else if p.starts_with("warning: 弯曲的鼠标轨迹") {
            v.push(("bent".to_string(), num(&inner(p), 1.0), vec![]));
        } else if p.starts_with("feature: 教科书式的FL局部") {
            v.push(("fl".to_string(), num(&inner(p), 1.0), vec![]));
        } else if p.starts_with("luck: ") {
            let body = &p[6..];
            let (a, b) = match body.split_once(" = ") {
                Some((a, b)) => (a.split(" * ").map(|x| num(x, 1000.0)).collect(), num(b, 1.0e6)),
                None => (vec![], num(body, 1.0e6)),
            };
            v.push(("luck".to_string(), b, a));
        } else {
            v.push(("?".to_string(), 0, vec![]));
        }
    }
    v
}
fn noted(v: &Parsed) -> String {
    let mut r = vec![];
    for (i, a) in v.video_action_state_recorder.iter().enumerate() {
        for (w, n, l) in pieces(&a.comments) {
            r.push(J::obj().int("k", i as i64 + 1).str("w", &w).int("v", n).ints("f", &l).end());
        }
    }
    format!("[{}]", r.join(","))
}
/// a player who flags, chords and moves about near the last place
fn flagger(rng: &mut Rng, board: &Grid, pix: usize, len: usize, hops: bool) -> Vec<(String, usize, usize)> {
    let (r, c) = (board.len(), board[0].len());
    let mut g = ms_toollib::MinesweeperBoard::<Grid>::new(board.clone());
    let mut ev: Vec<(String, usize, usize)> = vec![];
    let over = |g: &ms_toollib::MinesweeperBoard<Grid>| matches!(g.game_board_state, GameBoardState::Win | GameBoardState::Loss);
    let mut at: P = (0, 0);
    let roam = rng.below(4);
    let neat = rng.chance(50);
    let lefty = rng.chance(35);
    let centre = rng.chance(40);
    let clumsy = rng.chance(30);
    let few = board.iter().flatten().filter(|&&x| x == -1).count() * 25 < r * c;
    let mut go = |g: &mut ms_toollib::MinesweeperBoard<Grid>, rng: &mut Rng, es: &[&str], p: P| {
        let out = p.0 >= r || p.1 >= c;
        let px = |rng: &mut Rng| if out { (r * pix, c * pix) } else if centre { (p.0 * pix + pix / 2, p.1 * pix + pix / 2) } else { (p.0 * pix + rng.below(pix), p.1 * pix + rng.below(pix)) };
        for _ in 0..if rng.chance(15) { rng.below(8) } else { 0 } {
            let m = (rng.below(r * pix), rng.below(c * pix));
            ev.push(("mv".into(), m.1, m.0));
        }
        if rng.chance(60) {
            let m = px(rng);
            ev.push(("mv".into(), m.1, m.0));
        }
        let q = px(rng);
        for e in es {
            let q = if rng.chance(20) { px(rng) } else { q };
            if over(g) {
                break;
            }
            let _ = caught(|| g.step(e, p));
            ev.push((e.to_string(), q.1, q.0));
        }
    };
    for _ in 0..rng.below(3) {
        let p = (rng.below(r), rng.below(c));
        if board[p.0][p.1] < 0 && g.game_board[p.0][p.1] == 10 {
            go(&mut g, rng, &["rc", "rr"], p);
        }
    }
    let mut n = 0;
    while n < len && !over(&g) {
        n += 1;
        let mut near: Vec<P> = (0..r * c).map(|k| (k / c, k % c)).collect();
        rng.shuffle(&mut near);
        if !lefty && rng.below(4) >= roam {
            near.sort_by_key(|p| (p.0.abs_diff(at.0).max(p.1.abs_diff(at.1)) + 1) / 2);
        }
        if hops {
            // from one side to the other
            near.sort_by_key(|p| (p.0.abs_diff(at.0) + p.1.abs_diff(at.1) < 7) as u8);
        }
        let gb = g.game_board.clone();
        let closed = |p: &P| gb[p.0][p.1] == 10;
        let border = |p: &P| nbr(r, c, *p).iter().any(|q| gb[q.0][q.1] < 9);
        let k = if lefty { *rng.pick(&[88, 88, 88, 88, 88, 88, 88, 5, 75, 97]) } else { rng.below(100) };
        let pick = if n > 1 && clumsy && rng.chance(9) {
            near.first().map(|p| (*p, 4))
        } else if n == 1 && few && rng.chance(60) {
            near.iter().find(|p| closed(p) && board[p.0][p.1] > 0).or(near.iter().find(|p| closed(p) && board[p.0][p.1] == 0)).map(|p| (*p, 0))
        } else if n == 1 {
            near.iter().find(|p| closed(p) && board[p.0][p.1] == 0).or(near.iter().find(|p| closed(p) && board[p.0][p.1] > 0)).map(|p| (*p, 0))
        } else if k < 40 {
            near.iter().find(|p| closed(p) && board[p.0][p.1] < 0 && border(p)).map(|p| (*p, 1))
        } else if k < if neat { 85 } else { 70 } {
            near.iter()
                .find(|p| {
                    let m = gb[p.0][p.1];
                    let q = nbr(r, c, **p);
                    m > 0 && m < 9 && q.iter().filter(|x| gb[x.0][x.1] == 11).count() as i32 == m && q.iter().any(closed)
                })
                .map(|p| (*p, 2))
        } else if k < if neat || lefty { 92 } else { 86 } {
            near.iter().find(|p| closed(p) && board[p.0][p.1] >= 0 && (border(p) || rng.chance(30))).map(|p| (*p, 0))
        } else if k < 95 {
            near.first().map(|p| (*p, 3))
        } else {
            Some(((r, c), rng.below(4)))
        };
        if let Some((p, what)) = pick {
            if p.0 < r {
                at = p;
            }
            match what {
                0 => go(&mut g, rng, &["lc", "lr"], p),
                1 => go(&mut g, rng, &["rc", "rr"], p),
                2 => {
                    let w: &[&str] = match rng.below(4) {
                        0 => &["lc", "rc", "lr", "rr"],
                        1 => &["lc", "rc", "rr", "lr"],
                        2 => &["mc", "mr"],
                        _ => &["lc", "cc", "rr", "lr"],
                    };
                    go(&mut g, rng, w, p)
                }
                4 => {
                    // most of these chords open nothing
                    let w: &[&str] = match rng.below(5) {
                        0 => &["lc", "rc", "lr", "rr"],
                        1 | 2 => &["lc", "rc", "rr", "lr"],
                        3 => &["lc", "cc", "rr", "lr"],
                        _ => &["lc", "cc", "lr", "rr"],
                    };
                    go(&mut g, rng, w, p)
                }
                _ => match rng.below(13) / 4 {
                    0 => go(&mut g, rng, &["rc", "rr"], p),
                    1 => go(&mut g, rng, &["rc", "lc", "lr", "rr"], p),
                    2 if p.0 < r && gb[p.0][p.1] < 9 => go(&mut g, rng, &["lc", "lr"], p),
                    3 => go(&mut g, rng, &["lc", "lr"], p),
                    _ => go(&mut g, rng, &["mc", "mr"], p),
                },
            }
        }
    }
    ev
}

pub const FEATURES: [&str; 7] =
    ["high_risk_guess", "jump_judge", "needless_guess", "survive_poss", "vision_transfer", "mouse_trace", "super_fl_local"];
/// video notes OUT SEED N LEN : analysed files and their annotations; every third one on a larger
/// board, without the features that need probabilities
/// (HARNESS_FMT, HARNESS_RAW as above)
pub fn notes(out: &str, seed: u64, n: usize, len: usize) {
    let mut o = Out::new(out);
    let fmt = std::env::var("HARNESS_FMT").unwrap_or("evf".into());
    let keep = std::env::var("HARNESS_RAW").is_ok();
    let mut t = 0;
    while o.n < n && t < 6 * n {
        t += 1;
        let mut rng = Rng::new(seed.wrapping_mul(23_000_009).wrapping_add(t as u64));
        let large = t % 3 == 0;
        // wide ones leave room for looking away
        let wide = t % 3 == 1;
        let (r, c) = match (large, wide) {
            (true, _) => (rng.range(8, 16), rng.range(8, 16)),
            (_, true) if rng.chance(50) => (rng.range(2, 4), rng.range(8, 13)),
            (_, true) => (rng.range(8, 13), rng.range(2, 4)),
            _ => (rng.range(1, 6), rng.range(3, 7)),
        };
        let d = rng.range(8, if large { 26 } else { 45 });
        // next to no mines: risks of less than one in a hundred
        let sparse = t % 12 == 0;
        let (r, c) = if sparse { (rng.range(11, 24), rng.range(11, 24)) } else { (r, c) };
        let board = if sparse {
            let mut m: Vec<P> = (0..rng.range(1, 4)).map(|_| (rng.below(r), rng.below(c))).collect();
            m.sort();
            m.dedup();
            numbers(r, c, &m)
        } else {
            random_board(&mut rng, r, c, d)
        };
        let pix = if wide { *rng.pick(&[16usize, 20, 28]) } else { *rng.pick(&[4usize, 16, 16, 20]) };
        let pix = if fmt == "evf" { pix } else { 16 };
        let hops = wide && rng.chance(50);
        let evs = flagger(&mut rng, &board, pix, if large { 2 * len } else { len }, hops);
        if evs.is_empty() {
            continue;
        }
        let mines = board.iter().flatten().filter(|&&x| x == -1).count();
        let file = EvfFile {
            version: 0,
            flags: 0,
            h: r,
            w: c,
            mines,
            pix: pix as u8,
            mode: 0,
            bbbv: ms_toollib::cal_bbbv(&board),
            rtime: 0,
            strs: vec![vec![]; 8],
            board: board.clone(),
            pad: 0,
            ev: evs.iter().enumerate().map(|(i, e)| (kind_no(&e.0), 125 * i, e.1, e.2)).collect(),
            check: None,
        };
        let mut ev: Vec<(String, usize, usize, usize)> =
            file.ev.iter().map(|e| (KINDS[e.0 as usize - 1].to_string(), e.1, e.2, e.3)).collect();
        let raw = if fmt == "evf" {
            file.bytes()
        } else {
            let d = match in_format(&fmt, &board, &mut ev) {
                Some(d) => d,
                None => continue,
            };
            match parse(&fmt, &d).2.and_then(|v| as_played(&v, &board)) {
                Some(e) => ev = e,
                None => continue,
            }
            d
        };
        let want: &[&str] = if large { &FEATURES[5..] } else { &FEATURES };
        let mut parts = vec![];
        let mut ok = true;
        for f in want.iter().map(|f| vec![*f]).chain(std::iter::once({
            let mut a: Vec<&str> = want.to_vec();
            rng.shuffle(&mut a);
            a
        })) {
            let (_, _, pv) = parse(&fmt, &raw);
            let name = if f.len() == 1 { f[0] } else { "all" };
            match pv {
                None => ok = false,
                Some(mut v) => {
                    if caught(|| v.analyse()).is_none() {
                        ok = false;
                    }
                    match caught(|| v.analyse_for_features(f.clone())) {
                        None => ok = false,
                        Some(()) => parts.push(format!("\"{}\":{}", name, noted(&v))),
                    }
                }
            }
        }
        let es: Vec<String> =
            ev.iter().map(|e| format!("{{\"e\":\"{}\",\"t\":{},\"x\":{},\"y\":{}}}", e.0, e.1, e.2, e.3)).collect();
        let j = if keep { J::obj().str("fmt", &fmt).raw("raw", &jbytes(&raw)) } else { J::obj() };
        o.line(
            &j.str("op", "notes")
                .boolean("large", large)
                .boolean("ok", ok)
                .grid("b", &board)
                .int("pix", pix as i64)
                .int("mines", mines as i64)
                .raw("ev", &format!("[{}]", es.join(",")))
                .raw("notes", &format!("{{{}}}", parts.join(",")))
                .end(),
        );
    }
    o.flush();
}

/// video chords OUT SEED N : is_good_chording at every cell of displayed boards
pub fn chords(out: &str, seed: u64, n: usize) {
    let mut o = Out::new(out);
    for t in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(29_000_003).wrapping_add(t as u64));
        let (r, c) = (rng.range(1, 5), rng.range(1, 6));
        let gb: Grid = if rng.chance(60) {
            (0..r)
                .map(|_| (0..c).map(|_| *rng.pick(&[10, 10, 10, 11, 0, 1, 1, 2, 2, 3, 4, 8])).collect())
                .collect()
        } else {
            let d = rng.range(10, 40);
            let b = random_board(&mut rng, r, c, d);
            let mut g = b.clone();
            for i in 0..r {
                for j in 0..c {
                    g[i][j] = if b[i][j] < 0 { if rng.chance(80) { 11 } else { 10 } } else if rng.chance(60) { b[i][j] } else { 10 };
                }
            }
            g
        };
        let good: Grid = (0..r)
            .map(|i| {
                (0..c).map(|j| caught(|| ms_toollib::is_good_chording(&gb, (i, j))).map(|x| x as i32).unwrap_or(99)).collect()
            })
            .collect();
        o.line(&J::obj().str("op", "chords").grid("gb", &gb).grid("good", &good).end());
    }
    o.flush();
}

// ---------------------------------------------------------------- review
/// video review OUT SEED N : verdicts on analysed files of all formats
pub fn review(out: &str, seed: u64, n: usize) {
    let mut o = Out::new(out);
    let keep = std::env::var("HARNESS_RAW").is_ok();
    let names: [&[u8]; 10] = [
        "元3.2".as_bytes(), "元3.2".as_bytes(), "元3.1.7".as_bytes(), b"Arbiter", b"Arbiter", b"Viennasweeper", b"Viennasweeper", b"",
        b"arbiter", "元3.1".as_bytes(),
    ];
    for t in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(29_000_011).wrapping_add(t as u64));
        if t % 5 == 4 {
            let fmt = *rng.pick(&["avf", "rmv", "rmv", "mvf"]);
            let (raw, _) = write_of(fmt, &mut rng);
            if let (1, _, Some(mut v)) = parse(fmt, &raw) {
                if caught(|| v.analyse()).is_none() {
                    continue;
                }
                let got = caught(|| v.is_valid());
                o.line(
                    &J::obj()
                        .str("op", "review")
                        .str("fmt", fmt)
                        .raw("sw", &jbytes(&v.software))
                        .raw("start", &jbytes(&v.start_time))
                        .raw("check", "[]")
                        .boolean("fair", v.is_fair)
                        .int("n", v.video_action_state_recorder.len() as i64)
                        .int("bbbv", v.static_params.bbbv as i64)
                        .boolean("won", v.is_completed)
                        .raw("raw", &if keep { jbytes(&raw) } else { "[]".into() })
                        .int("v", got.map(|x| x as i64).unwrap_or(99))
                        .end(),
                );
            }
            continue;
        }
        let (r, c) = (rng.range(1, 4), rng.range(1, 4));
        let d = rng.range(5, 50);
        let board = random_board(&mut rng, r, c, d);
        let mines = board.iter().flatten().filter(|&&x| x == -1).count();
        let pix = 16;
        let mut ev: Vec<(u8, usize, usize, usize)> = vec![];
        let mut order: Vec<P> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| board[p.0][p.1] >= 0).collect();
        rng.shuffle(&mut order);
        let stop = match rng.below(4) {
            0 => rng.below(order.len() + 1),
            _ => order.len(),
        };
        order.truncate(stop);
        if rng.chance(15) {
            if let Some(p) = (0..r * c).map(|k| (k / c, k % c)).find(|p| board[p.0][p.1] < 0) {
                order.insert(rng.below(order.len() + 1), p);
            }
        }
        for p in &order {
            for k in ["lc", "lr"] {
                ev.push((kind_no(k), 125 * ev.len(), p.1 * pix + rng.below(pix), p.0 * pix + rng.below(pix)));
            }
        }
        // what lies around ten events to one of 3BV
        let bbbv = match rng.below(4) {
            0 => rng.below(4),
            1 => ms_toollib::cal_bbbv(&board),
            _ => rng.range(1, 6),
        };
        let want = match rng.below(4) {
            0 => ev.len(),
            1 => rng.range(10 * bbbv, 10 * bbbv + 30),
            _ => (10 * bbbv + rng.below(3)).saturating_sub(1),
        };
        // the game ends with its last event
        let mut pad: Vec<(u8, usize, usize, usize)> = (ev.len()..want).map(|_| (1, 0, rng.below(c * pix), rng.below(r * pix))).collect();
        pad.extend(ev);
        for (k, e) in pad.iter_mut().enumerate() {
            e.1 = 125 * k;
        }
        if pad.is_empty() {
            continue;
        }
        let mut strs = vec![vec![]; 8];
        strs[0] = rng.pick(&names).to_vec();
        strs[4] = match rng.below(8) {
            0 => vec![],
            1 => text(&mut rng, 14),
            2 => b"168226560".to_vec(),
            3 => format!("{}", 1682265600 + rng.below(5) as i64 - 2).into_bytes(),
            4 => format!("{:010}{}", rng.below(3_000_000_000), "123456").into_bytes(),
            5 => format!("{}000000", 1682265600 + rng.below(3) as i64 - 1).into_bytes(),
            6 => b"15822656x0".to_vec(),
            _ => format!("{:010}", rng.below(2_000_000_000)).into_bytes(),
        };
        let check = match rng.below(5) {
            0 => None,
            1 => Some([rng.below(255) as u8; 32]),
            2 => {
                let mut c = [7u8; 32];
                c[rng.below(32)] = 8;
                Some(c)
            }
            _ => Some(checksum(&mut rng)),
        };
        let fair = rng.chance(75);
        // header flags: what they say of the result does not count
        let flags = if fair { 32 } else { 0 } | if rng.chance(50) { 128 } else { 0 } | if rng.chance(50) { 64 } else { 0 };
        let file = EvfFile {
            version: 0,
            flags,
            h: r,
            w: c,
            mines,
            pix: pix as u8,
            mode: 0,
            bbbv,
            rtime: 0,
            strs: strs.clone(),
            board: board.clone(),
            pad: 0,
            ev: pad.clone(),
            check,
        };
        let got = match parse("evf", &file.bytes()) {
            (1, _, Some(mut v)) => caught(|| {
                v.analyse();
                v.is_valid()
            }),
            _ => None,
        };
        let es: Vec<String> =
            pad.iter().map(|e| format!("{{\"e\":\"{}\",\"t\":{},\"x\":{},\"y\":{}}}", KINDS[e.0 as usize - 1], e.1, e.2, e.3)).collect();
        o.line(
            &J::obj()
                .str("op", "review")
                .str("fmt", "evf")
                .raw("sw", &jbytes(&strs[0]))
                .raw("start", &jbytes(&strs[4]))
                .raw("check", &check.map(|c| jbytes(&c)).unwrap_or("[]".into()))
                .boolean("fair", fair)
                .int("n", pad.len() as i64)
                .int("bbbv", bbbv as i64)
                .grid("b", &board)
                .int("pix", pix as i64)
                .raw("ev", &format!("[{}]", es.join(",")))
                .raw("raw", &if keep { jbytes(&file.bytes()) } else { "[]".into() })
                .int("v", got.map(|x| x as i64).unwrap_or(99))
                .end(),
        );
    }
    o.flush();
}
