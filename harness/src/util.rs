//! Deterministic randomness, tiny JSON writer, panic capture, board helpers.
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub type Grid = Vec<Vec<i32>>;
pub type P = (usize, usize);

pub fn numbers(rows: usize, cols: usize, mines: &[P]) -> Grid {
    let mut b = vec![vec![0; cols]; rows];
    for &(x, y) in mines {
        b[x][y] = -1;
    }
    for &(x, y) in mines {
        for (i, j) in nbr(rows, cols, (x, y)) {
            if b[i][j] >= 0 {
                b[i][j] += 1;
            }
        }
    }
    b
}

pub fn nbr(rows: usize, cols: usize, p: P) -> Vec<P> {
    let mut v = vec![];
    for i in p.0.saturating_sub(1)..rows.min(p.0 + 2) {
        for j in p.1.saturating_sub(1)..cols.min(p.1 + 2) {
            if (i, j) != p {
                v.push((i, j));
            }
        }
    }
    v
}

/// A random legal board; `density` in percent; at least one safe cell.
pub fn random_board(rng: &mut Rng, rows: usize, cols: usize, density: usize) -> Grid {
    let mut mines = vec![];
    for i in 0..rows {
        for j in 0..cols {
            if rng.chance(density) {
                mines.push((i, j));
            }
        }
    }
    if mines.len() == rows * cols {
        let k = rng.below(mines.len());
        mines.remove(k);
    }
    numbers(rows, cols, &mines)
}

/// Mines in clusters: leaves large openings and isolated pockets.
pub fn clustered_board(rng: &mut Rng, rows: usize, cols: usize, mines: usize) -> Grid {
    let mut ms: Vec<P> = vec![];
    let mut guard = 0;
    while ms.len() < mines.min(rows * cols - 1) && guard < 10000 {
        guard += 1;
        let p = if !ms.is_empty() && rng.chance(70) {
            let c = *rng.pick(&ms);
            let v = nbr(rows, cols, c);
            if v.is_empty() {
                continue;
            }
            *rng.pick(&v)
        } else {
            (rng.below(rows), rng.below(cols))
        };
        if !ms.contains(&p) {
            ms.push(p);
        }
    }
    numbers(rows, cols, &ms)
}

/// Open cells of `gb` starting at p (harness-side play helper only).
pub fn play_open(board: &Grid, gb: &mut Grid, p: P) {
    let (r, c) = (board.len(), board[0].len());
    let mut todo = vec![p];
    while let Some(q) = todo.pop() {
        if gb[q.0][q.1] != 10 || board[q.0][q.1] < 0 {
            continue;
        }
        gb[q.0][q.1] = board[q.0][q.1];
        if board[q.0][q.1] == 0 {
            todo.extend(nbr(r, c, q));
        }
    }
}

/// A consistent, partially opened displayed board (10 = closed) of `board`.
pub fn partial_game(rng: &mut Rng, board: &Grid, opens: usize) -> Grid {
    let (r, c) = (board.len(), board[0].len());
    let mut gb = vec![vec![10; c]; r];
    let mut safe: Vec<P> = vec![];
    for i in 0..r {
        for j in 0..c {
            if board[i][j] >= 0 {
                safe.push((i, j));
            }
        }
    }
    rng.shuffle(&mut safe);
    for p in safe.into_iter().take(opens) {
        play_open(board, &mut gb, p);
    }
    gb
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn quiet_panics() {
    if std::env::var("HARNESS_LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

/// JSON value builder
pub struct J(pub String);
impl J {
    pub fn obj() -> J {
        J("{".into())
    }
    fn key(&mut self, k: &str) {
        if !self.0.ends_with('{') {
            self.0.push(',');
        }
        let _ = write!(self.0, "\"{}\":", k);
    }
    pub fn raw(mut self, k: &str, v: &str) -> J {
        self.key(k);
        self.0.push_str(v);
        self
    }
    pub fn int(mut self, k: &str, v: i64) -> J {
        self.key(k);
        let _ = write!(self.0, "{}", v);
        self
    }
    pub fn boolean(mut self, k: &str, v: bool) -> J {
        self.key(k);
        self.0.push_str(if v { "true" } else { "false" });
        self
    }
    pub fn str(mut self, k: &str, v: &str) -> J {
        self.key(k);
        self.0.push('"');
        for c in v.chars() {
            match c {
                '"' => self.0.push_str("\\\""),
                '\\' => self.0.push_str("\\\\"),
                '\n' => self.0.push_str("\\n"),
                c if (c as u32) < 32 => {
                    let _ = write!(self.0, "\\u{:04x}", c as u32);
                }
                c => self.0.push(c),
            }
        }
        self.0.push('"');
        self
    }
    pub fn grid(self, k: &str, g: &Grid) -> J {
        let s = jgrid(g);
        self.raw(k, &s)
    }
    pub fn ints(self, k: &str, v: &[i64]) -> J {
        let s = jints(v);
        self.raw(k, &s)
    }
    /// 1-based cell list
    pub fn cells(self, k: &str, v: &[P]) -> J {
        let s = jcells(v);
        self.raw(k, &s)
    }
    pub fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}
pub fn jints(v: &[i64]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", x);
    }
    s.push(']');
    s
}
pub fn jgrid(g: &Grid) -> String {
    let rows: Vec<String> = g
        .iter()
        .map(|r| jints(&r.iter().map(|&x| x as i64).collect::<Vec<_>>()))
        .collect();
    format!("[{}]", rows.join(","))
}
/// the text TLC's ToString gives for the same board
pub fn tla_grid(g: &Grid) -> String {
    let rows: Vec<String> = g
        .iter()
        .map(|r| format!("<<{}>>", r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")))
        .collect();
    format!("<<{}>>", rows.join(", "))
}
pub fn jcells(v: &[P]) -> String {
    let c: Vec<String> = v.iter().map(|p| format!("[{},{}]", p.0 + 1, p.1 + 1)).collect();
    format!("[{}]", c.join(","))
}
pub fn jbytes(v: &[u8]) -> String {
    jints(&v.iter().map(|&x| x as i64).collect::<Vec<_>>())
}

pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub n: usize,
}
impl Out {
    pub fn new(path: &str) -> Out {
        Out { w: std::io::BufWriter::new(std::fs::File::create(path).expect("create output")), n: 0 }
    }
    pub fn line(&mut self, s: &str) {
        use std::io::Write;
        self.w.write_all(s.as_bytes()).unwrap();
        self.w.write_all(b"\n").unwrap();
        self.n += 1;
    }
    pub fn flush(&mut self) {
        use std::io::Write;
        self.w.flush().unwrap();
    }
}
