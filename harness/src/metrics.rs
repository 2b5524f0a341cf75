//! Metric functions, the caching Board, mine laying, the protected board.
use crate::util::*;
use ms_toollib as ms;
use ms_toollib::SafeBoard;

fn funs_vec(b: &Grid) -> Vec<i64> {
    let mut v = vec![ms::cal_bbbv(b) as i64, ms::cal_op(b) as i64, ms::cal_isl(b) as i64];
    v.extend(ms::cal_cell_nums(b).iter().map(|&x| x as i64));
    v
}
fn funs_safe(b: &Grid) -> Vec<i64> {
    let b = SafeBoard::new(b.clone());
    let mut v = vec![ms::cal_bbbv(&b) as i64, ms::cal_op(&b) as i64, ms::cal_isl(&b) as i64];
    v.extend(ms::cal_cell_nums(&b).iter().map(|&x| x as i64));
    v
}
fn query(o: &mut ms::Board, q: usize) -> i64 {
    (match q {
        0 => o.get_cell0(),
        1 => o.get_cell1(),
        2 => o.get_cell2(),
        3 => o.get_cell3(),
        4 => o.get_cell4(),
        5 => o.get_cell5(),
        6 => o.get_cell6(),
        7 => o.get_cell7(),
        8 => o.get_cell8(),
        10 => o.get_bbbv(),
        11 => o.get_op(),
        _ => o.get_isl(),
    }) as i64
}
fn metrics_line(rng: &mut Rng, b: &Grid) -> String {
    let n = rng.range(3, 8);
    let qs: Vec<usize> = (0..n)
        .map(|_| if rng.chance(65) { rng.range(10, 12) } else { rng.below(9) })
        .collect();
    let r = caught(|| {
        let f = format!("[{},{}]", jints(&funs_vec(b)), jints(&funs_safe(b)));
        let mut o = ms::Board::new(b.clone());
        let h: Vec<String> = qs.iter().map(|&q| format!("[{},{}]", q, query(&mut o, q))).collect();
        (f, format!("[{}]", h.join(",")))
    });
    let j = J::obj().str("kind", "metrics").grid("b", b);
    match r {
        Some((f, h)) => j.int("ok", 1).raw("fun", &f).raw("hist", &h).end(),
        None => j.int("ok", 0).end(),
    }
}

pub fn read_boards(path: &str) -> Vec<Grid> {
    let txt = std::fs::read_to_string(path).unwrap();
    txt.lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let v: Vec<usize> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
            let ms: Vec<P> = v[2..].chunks(2).map(|c| (c[0] - 1, c[1] - 1)).collect();
            numbers(v[0], v[1], &ms)
        })
        .collect()
}

pub fn from_boards(path: &str, out: &str, seed: u64) {
    let mut rng = Rng::new(seed);
    let mut o = Out::new(out);
    for b in read_boards(path) {
        let l = metrics_line(&mut rng, &b);
        o.line(&l);
    }
    o.flush();
}

pub fn any_board(rng: &mut Rng, max: usize) -> Grid {
    let (r, c) = (rng.range(1, max), rng.range(1, max));
    match rng.below(4) {
        0 => {
            let d = rng.below(101);
            random_board(rng, r, c, d)
        }
        1 => {
            let d = rng.range(5, 25);
            random_board(rng, r, c, d)
        }
        2 => {
            let n = rng.below(r * c + 1);
            clustered_board(rng, r, c, n)
        }
        _ => {
            // walls: openings of odd shapes, separated diagonally
            let mut ms = vec![];
            let (p, q) = (rng.range(2, 5), rng.range(1, 6));
            for i in 0..r {
                for j in 0..c {
                    if (i + q * j) % (p + 3) == 0 && !rng.chance(15) {
                        ms.push((i, j));
                    }
                }
            }
            numbers(r, c, &ms)
        }
    }
}

pub fn random(out: &str, seed: u64, n: usize) {
    let mut rng = Rng::new(seed);
    let mut o = Out::new(out);
    for i in 0..n {
        let b = if i % 250 == 49 {
            // more rows, columns or openings than a byte holds
            let (r, c) = *rng.pick(&[(1, 300), (280, 1), (2, 260), (40, 60), (64, 64), (70, 20)]);
            let d = rng.range(3, 30);
            random_board(&mut rng, r, c, d)
        } else if i % 100 == 99 {
            let (r, c) = *rng.pick(&[(16, 30), (16, 16), (24, 30), (5, 40), (33, 3)]);
            let d = rng.range(5, 22);
            random_board(&mut rng, r, c, d)
        } else {
            any_board(&mut rng, 9)
        };
        let l = metrics_line(&mut rng, &b);
        o.line(&l);
    }
    o.flush();
}

pub fn lay(out: &str, seed: u64, n: usize) {
    let mut rng = Rng::new(seed);
    let mut o = Out::new(out);
    for i in 0..n {
        let (r, c) = if i % 1000 == 1 {
            *rng.pick(&[(1, 300), (280, 1), (3, 260), (40, 60), (64, 64), (100, 100)])
        } else if i % 40 == 0 { *rng.pick(&[(16, 30), (16, 16), (8, 8), (30, 16), (9, 9)]) } else { (rng.range(1, 7), rng.range(1, 7)) };
        let x = if rng.chance(30) { *rng.pick(&[0, r - 1]) } else { rng.below(r) };
        let y = if rng.chance(30) { *rng.pick(&[0, c - 1]) } else { rng.below(c) };
        let op = rng.chance(50);
        let area = if op { r * c - nbr(r, c, (x, y)).len() - 1 } else { r * c - 1 };
        let m = match rng.below(5) {
            0 => area,
            1 => area.saturating_sub(1),
            2 => rng.below(2).min(area),
            _ => rng.below(area + 1),
        };
        let b = caught(|| if op { ms::laymine_op(r, c, m, x, y) } else { ms::laymine(r, c, m, x, y) });
        let j = J::obj()
            .str("kind", "lay")
            .int("r", r as i64)
            .int("c", c as i64)
            .int("n", m as i64)
            .int("op", op as i64)
            .ints("p", &[x as i64 + 1, y as i64 + 1]);
        let l = match b {
            Some(b) => j.int("ok", 1).grid("b", &b).end(),
            None => j.int("ok", 0).end(),
        };
        o.line(&l);
    }
    o.flush();
}

fn content(rng: &mut Rng) -> Grid {
    if rng.chance(1) {
        let (r, c) = *rng.pick(&[(1, 300), (280, 1), (3, 260), (16, 30), (40, 60)]);
        let d = rng.range(3, 30);
        return random_board(rng, r, c, d);
    }
    match rng.below(3) {
        0 => any_board(rng, 9),
        1 => {
            let (r, c) = (rng.range(1, 12), rng.range(1, 12));
            (0..r).map(|_| (0..c).map(|_| { let v = rng.range(0, 19) as i32 - 3; if v == 9 { 10 } else { v } }).collect()).collect()
        }
        _ => {
            let b = any_board(rng, 9);
            let n = rng.below(6);
            partial_game(rng, &b, n)
        }
    }
}
fn safe_obs(s: &SafeBoard, put: &Grid) -> String {
    let (r, c) = (put.len(), put[0].len());
    let index: Grid = (0..r).map(|i| (0..c).map(|j| s[i][j]).collect()).collect();
    let iter: Grid = s.clone().map(|row| row.collect()).collect();
    let rows: Grid = (0..r).map(|i| s[i].into_vec()).collect();
    let whole = s.into_vec_vec();
    // a protected board is its own iterator: its number of rows by iteration
    let len = s.clone().count();
    let w = s.clone().next().map(|x| x.len()).unwrap_or(0);
    assert_eq!(w, c, "row length");
    J::obj()
        .grid("put", put)
        .grid("index", &index)
        .grid("iter", &iter)
        .grid("rows", &rows)
        .grid("whole", &whole)
        .int("len", len as i64)
        .end()
}
pub fn safe(out: &str, seed: u64, n: usize) {
    let mut rng = Rng::new(seed);
    let mut o = Out::new(out);
    for _ in 0..n {
        let k = rng.range(1, 3);
        let gs: Vec<Grid> = (0..k).map(|_| content(&mut rng)).collect();
        let partly = rng.chance(50);
        let h = caught(|| {
            let mut s = SafeBoard::new(gs[0].clone());
            let mut h = vec![safe_obs(&s, &gs[0])];
            for g in &gs[1..] {
                if partly {
                    // iterate the board itself some way before giving it a new content
                    let _ = s.next();
                }
                s.set(g.clone());
                h.push(safe_obs(&s, g));
            }
            h
        });
        let j = J::obj().str("kind", "safe");
        let l = match h {
            Some(h) => j.int("ok", 1).raw("hist", &format!("[{}]", h.join(","))).end(),
            None => j.int("ok", 0).end(),
        };
        o.line(&l);
    }
    o.flush();
}

/// metrics flood OUT SEED N : a position, some cells opened in it at once
pub fn flood(out: &str, seed: u64, n: usize) {
    let mut rng = Rng::new(seed);
    let mut o = Out::new(out);
    for k in 0..n {
        let (r, c) = if k % 40 == 0 { (rng.range(10, 18), rng.range(10, 30)) } else { (rng.range(1, 8), rng.range(1, 8)) };
        let d = *rng.pick(&[0, 4, 8, 12, 20, 40, 70, 100]);
        let b = random_board(&mut rng, r, c, d);
        let opens = rng.below(4);
        let mut gb = partial_game(&mut rng, &b, opens);
        let (fl, kn, un) = (*rng.pick(&[0, 0, 5, 25]), *rng.pick(&[0, 0, 5, 25]), *rng.pick(&[0, 0, 10]));
        for x in 0..r {
            for y in 0..c {
                if gb[x][y] == 10 && rng.chance(fl) {
                    gb[x][y] = 11;
                }
                if gb[x][y] == 10 && rng.chance(kn) && b[x][y] != -1 {
                    gb[x][y] = 12;
                }
                if gb[x][y] == 10 && rng.chance(un) && b[x][y] != -1 {
                    gb[x][y] = b[x][y];
                }
            }
        }
        let mut s: Vec<P> = vec![];
        for _ in 0..*rng.pick(&[1, 1, 1, 2, 3, 8]) {
            let p = (rng.below(r), rng.below(c));
            if gb[p.0][p.1] >= 10 && !s.contains(&p) {
                s.push(p);
            }
        }
        let j = J::obj().str("kind", "flood").grid("b", &b).grid("gb", &gb).cells("s", &s);
        let got = caught(|| {
            let mut g1 = gb.clone();
            ms::refresh_board(&b, &mut g1, s.clone());
            let mut g2 = gb.clone();
            ms::refresh_board(&SafeBoard::new(b.clone()), &mut g2, s.clone());
            (g1, g2)
        });
        o.line(&match got {
            Some((g1, g2)) => j.int("ok", 1).grid("plain", &g1).grid("safe", &g2).end(),
            None => j.int("ok", 0).end(),
        });
    }
    o.flush();
}

/// metrics sample OUT SEED N GAMES : the expert sampler, and boards laid the plain way beside it:
/// for some starts, how many of GAMES sampled and of GAMES laid boards have which 3BV
pub fn sample(out: &str, seed: u64, n: usize, games: usize) {
    let mut rng = Rng::new(seed);
    let mut o = Out::new(out);
    let mut counts: Vec<usize> = (0..20).collect();
    counts.extend([31, 32, 33, 47, 100, n]);
    for k in counts {
        let p = match rng.below(3) {
            0 => (*rng.pick(&[0usize, 15]), *rng.pick(&[0usize, 29])),
            _ => (rng.below(16), rng.below(30)),
        };
        let h = caught(|| ms::sample_3BVs_exp(p.0, p.1, k));
        let j = J::obj().str("kind", "sample").int("n", k as i64).ints("p", &[p.0 as i64 + 1, p.1 as i64 + 1]);
        o.line(&match h {
            None => j.int("ok", 0).end(),
            Some(h) => j.int("ok", 1).raw("h", &jints(&h.iter().map(|&x| x as i64).collect::<Vec<_>>())).end(),
        });
    }
    let mut shown = vec![];
    for p in [(0, 0), (8, 15), (15, rng.below(30)), (rng.below(16), 29), (rng.below(16), rng.below(30))] {
        let sampled = caught(|| ms::sample_3BVs_exp(p.0, p.1, games));
        // the same number of plain boards, laid and counted in 8 threads
        let hands: Vec<_> = (0..8)
            .map(|t| {
                let m = games / 8 + (t < games % 8) as usize;
                std::thread::spawn(move || {
                    let mut h = vec![0i64; 382];
                    let mut some = vec![];
                    for x in 0..m {
                        let b = ms::laymine(16, 30, 99, p.0, p.1);
                        let bv = hardness(&b);
                        h[bv.min(381)] += 1;
                        if x < 4 {
                            some.push((b, bv));
                        }
                    }
                    (h, some)
                })
            })
            .collect();
        let mut plain = vec![0i64; 382];
        let mut ok = true;
        for x in hands {
            match x.join() {
                Err(_) => ok = false,
                Ok((h, some)) => {
                    for (a, b) in plain.iter_mut().zip(h) {
                        *a += b;
                    }
                    shown.extend(some);
                }
            }
        }
        let j = J::obj().str("kind", "hard").int("n", games as i64).ints("p", &[p.0 as i64 + 1, p.1 as i64 + 1]);
        o.line(&match sampled {
            Some(h) if ok => {
                j.int("ok", 1).raw("h", &jints(&h.iter().map(|&x| x as i64).collect::<Vec<_>>())).raw("plain", &jints(&plain)).end()
            }
            _ => j.int("ok", 0).end(),
        });
    }
    // some of the laid boards, with the count used above
    for (b, bv) in shown {
        o.line(&J::obj().str("kind", "plain").int("ok", 1).grid("b", &b).int("bv", bv as i64).end());
    }
    o.flush();
}

/// the 3BV of a board: its openings, and the numbers that belong to none
fn hardness(b: &[Vec<i32>]) -> usize {
    let (r, c) = (b.len(), b[0].len());
    let mut done = vec![vec![false; c]; r];
    let mut bv = 0;
    for x in 0..r {
        for y in 0..c {
            if b[x][y] == 0 && !done[x][y] {
                bv += 1;
                done[x][y] = true;
                let mut todo = vec![(x, y)];
                while let Some((i, j)) = todo.pop() {
                    for u in i.saturating_sub(1)..(i + 2).min(r) {
                        for v in j.saturating_sub(1)..(j + 2).min(c) {
                            if !done[u][v] {
                                done[u][v] = true;
                                if b[u][v] == 0 {
                                    todo.push((u, v));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    bv + (0..r * c).filter(|&k| b[k / c][k % c] > 0 && !done[k / c][k % c]).count()
}

/// metrics every OUT SEED REQUESTS : which layouts occur when one request is made over and over
/// (lines of REQUESTS: which rows columns mines row column times)
pub fn every(out: &str, requests: &str) {
    let mut o = Out::new(out);
    for l in std::fs::read_to_string(requests).unwrap().lines() {
        let q: Vec<usize> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let (r, c, n, x, y) = (q[1], q[2], q[3], q[4] - 1, q[5] - 1);
        let mut seen = std::collections::BTreeSet::new();
        let done = caught(|| {
            for _ in 0..q[6] {
                let b = match q[0] {
                    0 => ms::laymine(r, c, n, x, y),
                    1 => ms::laymine_op(r, c, n, x, y),
                    2 => ms::laymine_solvable(r, c, n, x, y, 1_000_000).0,
                    _ => ms::laymine_solvable_thread(r, c, n, x, y, 1_000_000).0,
                };
                let m: Vec<P> = (0..r * c).map(|k| (k / c, k % c)).filter(|p| b[p.0][p.1] == -1).collect();
                seen.insert(m);
            }
        });
        let list: Vec<String> = seen.iter().map(|m| jcells(m)).collect();
        o.line(
            &J::obj()
                .str("kind", "every")
                .int("which", q[0] as i64)
                .int("r", r as i64)
                .int("c", c as i64)
                .int("n", n as i64)
                .ints("p", &[x as i64 + 1, y as i64 + 1])
                .int("ok", done.is_some() as i64)
                .raw("seen", &format!("[{}]", list.join(",")))
                .end(),
        );
    }
    o.flush();
}
