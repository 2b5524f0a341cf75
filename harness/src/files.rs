//! Video files: writers of its own for each format, damage, and what the parsers make of them.
use crate::util::*;
use crate::video::*;
use ms_toollib::{AvfVideo, BaseVideo, EvfVideo, MvfVideo, RmvVideo};
use std::path::PathBuf;

pub type Parsed = BaseVideo<Vec<Vec<i32>>>;
pub const KINDS: [&str; 9] = ["mv", "lc", "lr", "rc", "rr", "mc", "mr", "pf", "cc"];

pub fn scratch(name: &str) -> PathBuf {
    let d = std::env::var("HARNESS_DIR").unwrap_or_else(|_| ".".into());
    PathBuf::from(d).join(name)
}

/// parse bytes as the given format: (0 rejected, 1 read, 99 panic), the error and the video
pub fn parse(fmt: &str, bytes: &[u8]) -> (i64, String, Option<Parsed>) {
    let p = scratch(&format!("parse-{}.bin", fmt));
    std::fs::write(&p, bytes).expect("scratch file");
    let name = p.to_str().unwrap();
    macro_rules! go {
        ($t:ident) => {{
            let mut v = $t::new(name);
            match caught(|| v.parse_video()) {
                None => (99, "panic".to_string(), None),
                Some(Err(e)) => (0, format!("{:?}", e), None),
                Some(Ok(())) => (1, "".to_string(), Some(v.data)),
            }
        }};
    }
    match fmt {
        "evf" => go!(EvfVideo),
        "avf" => go!(AvfVideo),
        "rmv" => go!(RmvVideo),
        _ => go!(MvfVideo),
    }
}
pub fn events<T>(v: &BaseVideo<T>) -> String {
    let e: Vec<String> = v
        .video_action_state_recorder
        .iter()
        .map(|a| format!("[\"{}\",{},{},{}]", a.mouse, ms(a.time), a.x, a.y))
        .collect();
    format!("[{}]", e.join(","))
}
/// what a reader of the file sees
pub fn seen(v: &Parsed) -> J {
    J::obj()
        .boolean("done", v.is_completed)
        .boolean("official", v.is_offical)
        .boolean("fair", v.is_fair)
        .boolean("nf", v.nf)
        .int("h", v.height as i64)
        .int("w", v.width as i64)
        .int("mines", v.mine_num as i64)
        .int("pix", v.cell_pixel_size as i64)
        .int("mode", v.mode as i64)
        .int("level", v.level as i64)
        .int("bbbv", v.static_params.bbbv as i64)
        .int("rtime", v.get_rtime().map(ms).unwrap_or(-1))
        .int("rtimems", v.get_rtime_ms().map(|x| x as i64).unwrap_or(-1))
        .raw("strs", &texts(v))
        .grid("board", &v.board)
        .raw("ev", &events(v))
        .raw("check", &v.get_checksum().map(|c| jbytes(&c)).unwrap_or("[]".into()))
}

// ---------------------------------------------------------------- evf
#[derive(Clone)]
pub struct EvfFile {
    pub version: u8,
    pub flags: u8,
    pub h: usize,
    pub w: usize,
    pub mines: usize,
    pub pix: u8,
    pub mode: usize,
    pub bbbv: usize,
    pub rtime: usize,
    pub strs: Vec<Vec<u8>>,
    pub board: Grid,
    pub pad: u8,
    pub ev: Vec<(u8, usize, usize, usize)>,
    pub check: Option<[u8; 32]>,
}
impl EvfFile {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![self.version, self.flags, self.h as u8, self.w as u8];
        let mut n = |o: &mut Vec<u8>, v: usize, k: usize| {
            for i in (0..k).rev() {
                o.push((v >> (8 * i)) as u8)
            }
        };
        n(&mut o, self.mines, 2);
        o.push(self.pix);
        n(&mut o, self.mode, 2);
        n(&mut o, self.bbbv, 2);
        n(&mut o, self.rtime, 3);
        for s in &self.strs {
            o.extend(s);
            o.push(0);
        }
        let bits: Vec<bool> = self.board.iter().flatten().map(|&x| x == -1).collect();
        for c in bits.chunks(8) {
            let mut b = 0u8;
            for i in 0..8 {
                let on = if i < c.len() { c[i] } else { self.pad >> i & 1 == 1 };
                b = b << 1 | on as u8;
            }
            o.push(b);
        }
        for e in &self.ev {
            o.push(e.0);
            n(&mut o, e.1, 3);
            n(&mut o, e.2, 2);
            n(&mut o, e.3, 2);
        }
        match self.check {
            None => o.push(255),
            Some(c) => {
                o.push(0);
                o.extend(c);
            }
        }
        o
    }
}
pub fn kind_no(e: &str) -> u8 {
    KINDS.iter().position(|k| *k == e).map(|k| k as u8 + 1).unwrap_or(99)
}
fn edge(rng: &mut Rng, max: usize) -> usize {
    match rng.below(6) {
        0 => 0,
        1 => max,
        2 => *rng.pick(&[1usize, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536]).min(&max),
        _ => rng.below(max + 1),
    }
}
fn any_check(rng: &mut Rng) -> Option<[u8; 32]> {
    if rng.chance(50) {
        Some(checksum(rng))
    } else {
        None
    }
}
/// contents with every field anywhere in its range
pub fn evf_random(rng: &mut Rng, maxside: usize) -> EvfFile {
    let (h, w) = match rng.below(6) {
        0 => *rng.pick(&[(8usize, 8usize), (16, 16), (16, 30), (1, 1), (1, 255.min(maxside)), (255.min(maxside), 1)]),
        _ => (rng.range(1, maxside.min(9)), rng.range(1, maxside.min(9))),
    };
    let d = rng.below(60);
    let board = random_board(rng, h, w, d);
    let real = board.iter().flatten().filter(|&&x| x == -1).count();
    let n = rng.below(14);
    EvfFile {
        version: 0,
        flags: (rng.below(8) << 5) as u8,
        h,
        w,
        mines: if rng.chance(60) { real } else { edge(rng, 65535) },
        pix: edge(rng, 255) as u8,
        mode: edge(rng, 65535),
        bbbv: edge(rng, 65535),
        rtime: edge(rng, 16777215),
        strs: (0..8).map(|_| text(rng, 40)).collect(),
        board,
        pad: 0,
        ev: (0..n)
            .map(|_| (rng.range(1, 9) as u8, edge(rng, 16777215), edge(rng, 65535), edge(rng, 65535)))
            .collect(),
        check: any_check(rng),
    }
}

fn reread(fmt: &str, raw: &[u8]) -> (J, Option<Parsed>) {
    let (out, err, v) = parse(fmt, raw);
    let j = match &v {
        Some(v) => seen(v).int("out", out).str("err", &err),
        None => J::obj().int("out", out).str("err", &err),
    };
    (j, v)
}

/// files evf OUT SEED N MAXSIDE : written by the harness, read and written again by the library
pub fn evf(out: &str, seed: u64, n: usize, maxside: usize) {
    let mut o = Out::new(out);
    for t in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(9_000_011).wrapping_add(t as u64));
        let f = evf_random(&mut rng, maxside);
        let raw = f.bytes();
        let (j, v) = reread("evf", &raw);
        let mut again = vec![];
        let mut res = 1;
        if let Some(mut v) = v {
            res = match caught(|| v.generate_evf_v0_raw_data()) {
                None => 99,
                Some(()) => 0,
            };
            again = v.get_raw_data().unwrap_or(vec![]);
        }
        o.line(&J::obj().str("op", "evf").raw("d", &jbytes(&raw)).raw("got", &j.end()).raw("again", &jbytes(&again)).int("res", res).end());
    }
    o.flush();
}

// ---------------------------------------------------------------- avf
fn junk(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = rng.below(max + 1);
    (0..n)
        .map(|_| match rng.below(5) {
            0 => rng.below(256) as u8,
            1 => *rng.pick(b"[0|B]TSkin:\r1"),
            _ => rng.range(32, 126) as u8,
        })
        .collect()
}
fn pick_mines(rng: &mut Rng, h: usize, w: usize, n: usize) -> Vec<P> {
    let mut cells: Vec<P> = (0..h * w).map(|k| (k / w, k % w)).collect();
    rng.shuffle(&mut cells);
    cells.truncate(n);
    cells
}
fn decimal(rng: &mut Rng) -> String {
    let a = *rng.pick(&[1usize, 1, 2, 9, 10, 77, 999, 1000, 99999]);
    match rng.below(7) {
        0 => format!("{}", a),
        1 => format!("{}.{}", a, rng.below(10)),
        2 => format!("{},{:02}", a, rng.below(100)),
        3 => format!("{}.", a),
        4 => format!("{}.{:03}", a, rng.below(1000)),
        _ => format!("{}.{:02}", a, rng.below(100)),
    }
}
pub fn avf_bytes(rng: &mut Rng) -> Vec<u8> {
    let level = match rng.below(10) {
        0 => 3,
        1 => 4,
        2 => 5,
        _ => 6u8,
    };
    let (h, w, n) = match level {
        3 => (8, 8, 10),
        4 => (16, 16, 40),
        5 => (16, 30, 99),
        _ => {
            let (h, w) = match rng.below(12) {
                0 => (1, rng.range(1, 40)),
                1 => (rng.range(1, 40), 1),
                2 => *rng.pick(&[(2usize, 255usize), (255, 2), (1, 256), (256, 1)]),
                _ => (rng.range(1, 9), rng.range(1, 9)),
            };
            crowd(rng, h, w, 30)
        }
    };
    let mut o = junk(rng, 0);
    for _ in 0..5 {
        o.push(rng.below(256) as u8);
    }
    o.push(level);
    if level == 6 {
        o.push((w - 1) as u8);
        o.push((h - 1) as u8);
        o.push((n >> 8) as u8);
        o.push(n as u8);
    }
    for p in strays(rng, h, w, n) {
        // the row or column 256 has no byte
        o.push((p.0 + 1).min(255) as u8);
        o.push((p.1 + 1).min(255) as u8);
    }
    o.extend(junk(rng, 6));
    o.push(b'[');
    o.push(*rng.pick(b"0123"));
    o.push(b'|');
    let stamp = |rng: &mut Rng| -> Vec<u8> { text(rng, 26).into_iter().filter(|c| *c != b'|').collect() };
    o.extend(stamp(rng));
    o.push(b'|');
    o.extend(stamp(rng));
    o.push(b'|');
    if rng.chance(60) {
        if rng.chance(40) {
            o.extend(junk(rng, 5).into_iter().filter(|c| *c != b'B'));
        }
        o.push(b'|');
    }
    o.push(b'B');
    let odd = ["+7", "-7", "", "007", "12345678901", "99999999999999999999999", " 4", "4.0", "1e2", "+"];
    if rng.chance(6) {
        o.extend(rng.pick(&odd).bytes());
    } else {
        o.extend(format!("{}", *rng.pick(&[1usize, 2, 10, 77, 255, 256, 999, 1024, 2303, 9999, 65535, 65536, 100000])).bytes());
    }
    o.push(b'T');
    let odd = [
        "", "+1.5", "-2.25", "1e2", "1E+2", "2e-1", ".5", "5.", "5,", "inf", "-Infinity", "NaN", "nano", "1_0", "10-36", "1.2.3", "1,2.3", "1e", "e5",
        "+", ".", "0x1f", " 1.5", "1.5 ", "++1", "1e5.5", "12345678.5",
    ];
    if rng.chance(8) {
        o.extend(rng.pick(&odd).bytes());
    } else {
        o.extend(decimal(rng).bytes());
    }
    o.push(b']');
    o.extend(junk(rng, 4).into_iter().filter(|c| *c != 1));
    let ne = rng.range(1, 14);
    let mut sec = 1usize;
    let mut cs = 0usize;
    for k in 0..ne {
        if k > 0 {
            match rng.below(6) {
                0 => sec += rng.below(3),
                1 => sec += *rng.pick(&[1usize, 254, 255, 256, 1000]),
                _ => {}
            }
            cs = if rng.chance(20) { rng.below(100) } else { (cs + rng.below(9)).min(99) };
        }
        let x = if k == 0 { rng.below(16 * w.min(31)) } else { rng.below(16 * w + 1) };
        let y = rng.below(16 * h + 1);
        let kind = *rng.pick(&[1u8, 1, 3, 5, 9, 17, 33, 65, 145, 193, 11, 21]);
        let s = sec & 0xffff;
        o.extend([kind, (x >> 8) as u8, s as u8, x as u8, cs as u8, (y >> 8) as u8, (s >> 8) as u8, y as u8]);
    }
    let mut end = [0u8; 8];
    for i in [0usize, 1, 3, 4, 5, 7] {
        end[i] = rng.below(256) as u8;
    }
    o.extend(end);
    o.extend(junk(rng, 12));
    o.extend(b"Skin:");
    o.extend(junk(rng, 9).into_iter().filter(|c| *c != b'\r'));
    o.push(b'\r');
    o.extend(text(rng, 20).into_iter().filter(|c| *c != b'\r'));
    o.push(b'\r');
    o.extend(junk(rng, 5));
    o
}

/// the number of mines: seldom more than fits a byte, on a board with room for them
fn crowd(rng: &mut Rng, h: usize, w: usize, usual: usize) -> (usize, usize, usize) {
    if rng.chance(4) {
        let (h, w) = *rng.pick(&[(16usize, 30usize), (17, 17), (20, 24), (2, 150), (150, 2)]);
        return (h, w, *rng.pick(&[254usize, 255, 256, 257, 270, h * w]));
    }
    (h, w, rng.below((h * w).min(usual) + 1))
}

/// mines, in some files with one that lies just beside the board (and is to be refused)
fn strays(rng: &mut Rng, h: usize, w: usize, n: usize) -> Vec<(i64, i64)> {
    let mut m: Vec<(i64, i64)> = pick_mines(rng, h, w, n).iter().map(|p| (p.0 as i64, p.1 as i64)).collect();
    if n > 0 && rng.chance(6) {
        let x = rng.below(n);
        let (r, c) = (m[x].0, m[x].1);
        m[x] = match rng.below(6) {
            0 => (-1, c),
            1 => (r, -1),
            2 | 3 => (h as i64, c),
            _ => (r, w as i64),
        };
    }
    m
}

// ---------------------------------------------------------------- rmv
fn u16b(o: &mut Vec<u8>, v: usize) {
    o.push((v >> 8) as u8);
    o.push(v as u8);
}
pub fn rmv_bytes(rng: &mut Rng) -> Vec<u8> {
    let mut any = |rng: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| rng.below(256) as u8).collect() };
    let rs = match rng.below(7) {
        0 => *rng.pick(&[3usize, 4, 32, 34]),
        1 | 2 => rng.range(3, 35),
        3 => *rng.pick(&[35usize, 36]),
        4 => *rng.pick(&[255usize, 256, 300]),
        _ => rng.range(36, 64),
    };
    let vi = if rng.chance(4) { *rng.pick(&[255usize, 256, 300]) } else { rng.below(9) };
    let pre = if rng.chance(40) { rng.range(1, 6) } else { 0 };
    let props = if rng.chance(4) { *rng.pick(&[255usize, 256, 260, 300]) } else { rng.range(4, 9) };
    let mut o = b"*rmv".to_vec();
    u16b(&mut o, 1);
    o.extend(any(rng, 4));
    u16b(&mut o, rs);
    u16b(&mut o, vi);
    o.extend(any(rng, 4));
    u16b(&mut o, pre);
    u16b(&mut o, props);
    o.extend(any(rng, 7));
    if rs > 35 {
        o.extend(any(rng, rs - 32));
        let b: Vec<u8> = match rng.below(4) {
            0 => vec![b' ', b' ', b'0' + rng.below(10) as u8],
            1 => vec![b'0' + rng.below(10) as u8, b'0' + rng.below(10) as u8, b','],
            _ => (0..3).map(|_| b'0' + rng.below(10) as u8).collect(),
        };
        o.extend(b);
        o.extend(any(rng, 16));
        o.extend((0..10).map(|_| b'0' + rng.below(10) as u8));
    } else {
        o.extend(any(rng, rs - 3));
    }
    o.extend(any(rng, vi + 2));
    let infos = rng.below(6);
    u16b(&mut o, infos);
    for _ in 0..infos.min(4) {
        let t = any(rng, 0);
        let mut t2 = if rng.chance(20) { any(rng, 255) } else { text(rng, 20) };
        t2.extend(t);
        o.push(t2.len() as u8);
        o.extend(t2);
    }
    o.extend(any(rng, 4));
    let (h, w) = match rng.below(12) {
        0 => *rng.pick(&[(8usize, 8usize), (16, 16), (16, 30)]),
        1 => *rng.pick(&[(1usize, 255usize), (255, 1), (1, 1)]),
        2 => (1, rng.range(1, 20)),
        _ => (rng.range(1, 9), rng.range(1, 9)),
    };
    let (h, w, n) = crowd(rng, h, w, 40);
    o.push(w as u8);
    o.push(h as u8);
    u16b(&mut o, n);
    for p in strays(rng, h, w, n) {
        o.push(p.1.clamp(0, 255) as u8);
        o.push(p.0.clamp(0, 255) as u8);
    }
    if pre > 0 {
        let k = if rng.chance(4) { *rng.pick(&[255usize, 256, 260]) } else { rng.below(4) };
        u16b(&mut o, k);
        for _ in 0..k {
            // now and then beside the board
            o.push((rng.below(w) + rng.chance(2) as usize).min(255) as u8);
            o.push((rng.below(h) + rng.chance(2) as usize).min(255) as u8);
        }
    }
    o.push(rng.below(256) as u8);
    o.push(rng.below(3) as u8);
    o.push(rng.below(5) as u8);
    o.push(rng.below(4) as u8);
    o.extend(any(rng, props - 4));
    let ne = rng.range(1, 16);
    let mut t = 0usize;
    for _ in 0..ne {
        match rng.below(9) {
            0 => {
                o.push(0);
                o.extend(any(rng, 4));
            }
            1 => {
                o.push(*rng.pick(&[9u8, 10, 11, 12, 13, 14, 18, 22, 27]));
                o.extend(any(rng, 2));
            }
            _ => {
                t += *rng.pick(&[0usize, 1, 10, 250, 999, 60_000, 1_000_000]);
                t = t.min(16_777_215);
                o.push(rng.range(1, 7) as u8);
                o.extend([(t >> 16) as u8, (t >> 8) as u8, t as u8, rng.below(256) as u8]);
                let x = match rng.below(8) {
                    0 => rng.below(12),
                    1 => 12 + 16 * w + rng.below(40),
                    _ => 12 + rng.below(16 * w),
                };
                let y = match rng.below(8) {
                    0 => rng.below(56),
                    1 => 56 + 16 * h + rng.below(40),
                    _ => 56 + rng.below(16 * h),
                };
                u16b(&mut o, x);
                u16b(&mut o, y);
            }
        }
    }
    // at least one mouse event
    o.push(1);
    o.extend([0, 0, 7, 0]);
    u16b(&mut o, 20);
    u16b(&mut o, 60);
    o.push(rng.range(15, 17) as u8);
    o.extend(any(rng, 3));
    o
}

// ---------------------------------------------------------------- mvf
/// the forty digits that order the bits of the events, from the leading number
pub fn mvf_digits(leading: u16) -> Vec<u8> {
    const MULT: f64 = 100000000.0;
    let l = leading as f64;
    let (a, b) = (l.sqrt(), (l + 1000.0).sqrt());
    let c = (a + 1000.0).sqrt();
    let mut s = String::new();
    for v in [(c + 1000.0).cos(), b.sqrt().sin(), c.cos(), (a.sqrt() + 1000.0).sin(), (b + 1000.0).sqrt().cos()] {
        let t = format!("{:08}", (v * MULT).abs().round() as usize);
        s.push_str(&t[..8]);
    }
    s.bytes().map(|c| c - b'0').collect()
}
/// the two bytes after the player's name
fn mvf_leading(d: &[u8]) -> Option<u16> {
    let n = (*d.get(99)? as usize) << 8 | *d.get(100)? as usize;
    let q = 101 + 2 * n;
    let z = q + 1 + *d.get(q)? as usize;
    Some((*d.get(z)? as u16) << 8 | *d.get(z + 1)? as u16)
}
/// (bytes, digits)
pub fn mvf_bytes(rng: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let mut any = |rng: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| rng.below(256) as u8).collect() };
    let mut o = vec![0x11, 0x4D];
    if rng.chance(4) {
        o[rng.below(2)] ^= 1;
    }
    o.extend(any(rng, 25));
    o.push(if rng.chance(4) { b'4' } else { b'5' });
    o.extend(any(rng, 46));
    o.extend(any(rng, 7));
    o.push(rng.range(1, 4) as u8);
    o.push(rng.range(1, 4) as u8);
    u16b(&mut o, *rng.pick(&[0usize, 1, 60, 255, 256, 999, 4095, 16776, 65535]));
    o.push(rng.below(100) as u8);
    let v = rng.below(400);
    u16b(&mut o, if v % 8 == 0 { v * 163 } else { v });
    o.extend(any(rng, 9));
    let (h, w) = match rng.below(8) {
        0 => *rng.pick(&[(8usize, 8usize), (16, 16), (16, 30)]),
        1 => *rng.pick(&[(1usize, 255usize), (255, 1), (1, 1)]),
        _ => (rng.range(1, 9), rng.range(1, 9)),
    };
    let (h, w, n) = crowd(rng, h, w, 40);
    o.push(w as u8);
    o.push(h as u8);
    u16b(&mut o, n);
    for p in strays(rng, h, w, n) {
        o.push((p.1 + 1).min(255) as u8);
        o.push((p.0 + 1).min(255) as u8);
    }
    let name = if rng.chance(4) { any(rng, 255) } else { text(rng, 30) };
    o.push(name.len() as u8);
    o.extend(name);
    let leading = *rng.pick(&[0u16, 1, 255, 256, 1000, 40000, 65535, (rng.0 >> 13) as u16]);
    u16b(&mut o, leading as usize);
    let digits = mvf_digits(leading);
    let mut place: Vec<usize> = vec![];
    for v in 0..10 {
        place.extend((0..40).filter(|&k| digits[k] == v));
    }
    let ne = if rng.chance(2) { *rng.pick(&[255usize, 256, 257, 300]) } else { rng.range(1, 14) };
    o.extend([0, (ne >> 8) as u8, ne as u8]);
    let (mut x, mut y) = (rng.below(512), rng.below(512));
    let mut t = match rng.below(4) {
        0 => rng.below(102_400),
        1 => 100 * *rng.pick(&[1usize, 127, 128, 255, 256, 511, 512, 1000]) + rng.below(100),
        _ => rng.below(2000),
    };
    let mut b = [rng.below(2), rng.below(2), rng.below(2)];
    for k in 0..ne {
        if k > 0 {
            if rng.chance(50) {
                x = rng.below(512);
            }
            if rng.chance(50) {
                y = rng.below(512);
            }
            if rng.chance(60) {
                t += *rng.pick(&[1usize, 1, 7, 100, 3000, 20_000]) * rng.below(500) % 60_000;
            }
            let i = rng.below(4);
            if i < 3 {
                b[i] ^= 1;
            }
        }
        t = t.min(102_399);
        let (ths, sec) = (t % 100, t / 100);
        let mut e = [0u8; 5];
        let mut put = |n: usize, on: usize| {
            if on > 0 {
                e[place[n] / 8] |= 1 << (place[n] % 8)
            }
        };
        put(0, b[0]);
        put(1, b[1]);
        put(2, b[2]);
        for j in 0..9 {
            put(3 + j, y >> j & 1);
            put(12 + j, x >> j & 1);
        }
        for j in 0..7 {
            put(21 + j, ths >> j & 1);
        }
        for j in 0..10 {
            put(28 + j, sec >> j & 1);
        }
        put(38, rng.below(2));
        put(39, rng.below(2));
        o.extend(e);
    }
    o.extend(any(rng, 3));
    (o, digits)
}

/// a game as another program would have stored it; what cannot be said there is left out
pub fn plain(fmt: &str, board: &Grid, ev: &[(String, usize, usize, usize)]) -> Vec<u8> {
    let (h, w) = (board.len(), board[0].len());
    let mines: Vec<P> = (0..h * w).map(|k| (k / w, k % w)).filter(|p| board[p.0][p.1] == -1).collect();
    let n = mines.len();
    let bbbv = ms_toollib::cal_bbbv(board);
    let mut o = vec![];
    match fmt {
        "avf" => {
            o.extend([7u8, 9, 9, 9, 9, 6, (w - 1) as u8, (h - 1) as u8]);
            u16b(&mut o, n);
            for p in &mines {
                o.extend([(p.0 + 1) as u8, (p.1 + 1) as u8]);
            }
            o.extend(format!("[1|a|b|B{}T9.5]", bbbv).bytes());
            o.push(7);
            for (e, t, x, y) in ev {
                let k = match ["mv", "lc", "lr", "rc", "rr", "mc", "mr"].iter().position(|q| q == e) {
                    Some(k) => [1u8, 3, 5, 9, 17, 33, 65][k],
                    None => continue,
                };
                let s = (t / 1000 + 1) & 0xffff;
                o.extend([k, (x >> 8) as u8, s as u8, *x as u8, (t % 1000 / 10) as u8, (y >> 8) as u8, (s >> 8) as u8, *y as u8]);
            }
            o.extend([5, 5, 0, 5, 5, 5, 0, 5]);
            o.extend(b"Skin: s\rme\r");
        }
        "rmv" => {
            o.extend(b"*rmv");
            u16b(&mut o, 1);
            o.extend([0; 4]);
            u16b(&mut o, 36);
            u16b(&mut o, 0);
            o.extend([0; 4]);
            u16b(&mut o, 0);
            u16b(&mut o, 4);
            o.extend([0; 7 + 4]);
            o.extend(format!("{:03}", bbbv).bytes());
            o.extend([0; 16]);
            o.extend(b"1700000000");
            o.extend([0; 2]);
            u16b(&mut o, 0);
            o.extend([0; 4]);
            o.extend([w as u8, h as u8]);
            u16b(&mut o, n);
            for p in &mines {
                o.extend([p.1 as u8, p.0 as u8]);
            }
            o.extend([0, 0, 0, 3]);
            for (e, t, x, y) in ev {
                let k = match ["mv", "lc", "lr", "rc", "rr", "mc", "mr"].iter().position(|q| q == e) {
                    Some(k) => k as u8 + 1,
                    None => continue,
                };
                o.extend([k, (t >> 16) as u8, (t >> 8) as u8, *t as u8, 0]);
                u16b(&mut o, x + 12);
                u16b(&mut o, y + 56);
            }
            o.push(15);
        }
        _ => {
            o.extend([0x11, 0x4D]);
            o.extend([0; 25]);
            o.push(b'5');
            o.extend([0; 46 + 7]);
            o.extend([4, 1]);
            u16b(&mut o, 9);
            o.push(50);
            u16b(&mut o, bbbv);
            o.extend([0; 9]);
            o.extend([w as u8, h as u8]);
            u16b(&mut o, n);
            for p in &mines {
                o.extend([(p.1 + 1) as u8, (p.0 + 1) as u8]);
            }
            o.extend([1, b'x']);
            u16b(&mut o, 1000);
            let digits = mvf_digits(1000);
            let mut place: Vec<usize> = vec![];
            for v in 0..10 {
                place.extend((0..40).filter(|&k| digits[k] == v));
            }
            let mut b = [0usize; 3];
            let mut evs = vec![];
            for (e, t, x, y) in ev {
                match e.as_str() {
                    "rc" => b[0] = 1,
                    "rr" => b[0] = 0,
                    "mc" => b[1] = 1,
                    "mr" => b[1] = 0,
                    "lc" => b[2] = 1,
                    "lr" => b[2] = 0,
                    "mv" => {}
                    _ => continue,
                }
                let mut z = [0u8; 5];
                let mut put = |k: usize, on: usize| {
                    if on > 0 {
                        z[place[k] / 8] |= 1 << (place[k] % 8)
                    }
                };
                (0..3).for_each(|k| put(k, b[k]));
                (0..9).for_each(|k| put(3 + k, y >> k & 1));
                (0..9).for_each(|k| put(12 + k, x >> k & 1));
                (0..7).for_each(|k| put(21 + k, t % 1000 / 10 >> k & 1));
                (0..10).for_each(|k| put(28 + k, t / 1000 >> k & 1));
                evs.extend(z);
            }
            let m = evs.len() / 5;
            o.extend([0, (m >> 8) as u8, m as u8]);
            o.extend(evs);
            o.extend([0; 3]);
        }
    }
    o
}

pub fn write_of(fmt: &str, rng: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    match fmt {
        "evf" => (evf_random(rng, 12).bytes(), vec![]),
        "avf" => (avf_bytes(rng), vec![]),
        "rmv" => (rmv_bytes(rng), vec![]),
        _ => mvf_bytes(rng),
    }
}
fn line(o: &mut Out, fmt: &str, d: &[u8], digits: &[u8]) {
    let (j, _) = reread(fmt, d);
    o.line(&J::obj().str("op", fmt).raw("d", &jbytes(d)).raw("digits", &jbytes(digits)).raw("got", &j.end()).end());
}
/// files read FMT OUT SEED N : well-formed files
pub fn read(fmt: &str, out: &str, seed: u64, n: usize) {
    let mut o = Out::new(out);
    for t in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(11_000_027).wrapping_add(t as u64));
        let (d, g) = write_of(fmt, &mut rng);
        line(&mut o, fmt, &d, &g);
    }
    o.flush();
}
/// files convert FMT OUT SEED N : files of another program (any contents, or games), written in the
/// native format as read or once analysed
pub fn convert(fmt: &str, out: &str, seed: u64, n: usize) {
    let mut o = Out::new(out);
    for t in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(19_000_013).wrapping_add(t as u64));
        let game = t % 3 > 0;
        let (d, g) = if game {
            match crate::replay::foreign_game(fmt, &mut rng, t) {
                Some(d) => (d, if fmt == "mvf" { mvf_digits(1000).to_vec() } else { vec![] }),
                None => continue,
            }
        } else {
            write_of(fmt, &mut rng)
        };
        let (j, v) = reread(fmt, &d);
        let mut l = J::obj().str("op", "convert").str("fmt", fmt).raw("d", &jbytes(&d)).raw("digits", &jbytes(&g)).raw("got", &j.end());
        if let Some(mut v) = v {
            let mut ana = false;
            if game && rng.chance(50) {
                ana = caught(|| v.analyse()).is_some();
                if !ana {
                    continue;
                }
            }
            let before = seen(&v).end();
            let res = match caught(|| v.generate_evf_v0_raw_data()) {
                None => 99,
                Some(()) => 0,
            };
            let again = v.get_raw_data().unwrap_or(vec![]);
            l = l.int("res", res).boolean("analysed", ana).raw("before", &before).raw("again", &jbytes(&again)).raw("after", &seen(&v).end());
        }
        o.line(&l.end());
    }
    o.flush();
}
/// files broken FMT OUT SEED N : the same, damaged; `N` files, each damaged in several ways
pub fn broken(fmt: &str, out: &str, seed: u64, n: usize) {
    let mut o = Out::new(out);
    let fmts = ["evf", "avf", "rmv", "mvf"];
    for t in 0..n {
        let mut rng = Rng::new(seed.wrapping_mul(13_000_027).wrapping_add(t as u64));
        let (d, g) = write_of(fmt, &mut rng);
        // the bits of mvf events move with every change before them
        let mut emit = |o: &mut Out, d: &[u8]| {
            if fmt == "mvf" {
                line(o, fmt, d, &mvf_leading(d).map(mvf_digits).unwrap_or(vec![0; 40]))
            } else {
                line(o, fmt, d, &g)
            }
        };
        if t % 25 == 0 && d.len() < 400 {
            for k in 0..d.len() {
                emit(&mut o, &d[..k]);
            }
        }
        if t % 25 == 1 {
            for k in 0..d.len().min(300) {
                let mut e = d.clone();
                e[k] = *rng.pick(&[0u8, 1, 255, 254, 128, e[k].wrapping_add(1), e[k].wrapping_sub(1)]);
                emit(&mut o, &e);
            }
        }
        if t % 25 == 2 && d.len() < 600 {
            // every size and kind in the head, small and extreme
            let fields: &[usize] = match fmt {
                "evf" => &[0, 1, 2, 3, 5],
                "avf" => &[5, 6, 7, 9],
                "rmv" => &[5, 11, 13, 19, 21],
                _ => &[27, 81, 82, 97, 98, 100],
            };
            for k in fields.iter().filter(|k| **k < d.len()) {
                for x in (0..=40u8).chain([64, 127, 128, 192, 200, 253, 254, 255]) {
                    let mut e = d.clone();
                    e[*k] = x;
                    emit(&mut o, &e);
                }
            }
        }
        for _ in 0..4 {
            let mut e = d.clone();
            let m = rng.below(e.len());
            match rng.below(9) {
                0 => e.truncate(m),
                1 => {
                    e.remove(m);
                }
                2 => e.insert(m, rng.below(256) as u8),
                3 => {
                    let k = rng.range(1, 4);
                    for i in m..(m + k).min(e.len()) {
                        e[i] = *rng.pick(&[0u8, 255]);
                    }
                }
                4 => {
                    let m = rng.below(e.len().min(40));
                    e[m] = *rng.pick(&[0u8, 255, 1, 128]);
                }
                5 => {
                    let m = rng.below(e.len().min(64));
                    e[m] = rng.below(256) as u8;
                }
                6 => {
                    let k = rng.range(2, 8);
                    for _ in 0..k {
                        let m = rng.below(e.len());
                        e[m] = rng.below(256) as u8;
                    }
                }
                7 => {
                    // another format
                    let f = *rng.pick(&fmts);
                    e = write_of(f, &mut rng).0;
                }
                _ => {
                    let k = rng.below(60);
                    e = (0..k).map(|_| rng.below(256) as u8).collect();
                    if rng.chance(50) {
                        let head: &[u8] = match fmt {
                            "rmv" => b"*rmv\x00\x01",
                            "mvf" => b"\x11\x4d",
                            _ => &[0, 0, 2, 2],
                        };
                        let mut h = head.to_vec();
                        h.extend(e);
                        e = h;
                    }
                }
            }
            emit(&mut o, &e);
        }
    }
    o.flush();
}
