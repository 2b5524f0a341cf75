//! Positions and what the deduction, probability and matrix functions say of them.
use crate::metrics::read_boards;
use crate::util::*;
use ms_toollib as ms;

/// Harness-side block enumeration; used only to choose positions of a size TLC can judge
/// and to drive play, never to judge.
pub struct Block {
    pub cells: Vec<P>,
    /// solutions up to exchanging cells that the same numbers see
    pub sols: usize,
    /// arrangements
    pub ways: f64,
    /// most mines the group of a cell has in a solution
    pub mine: Vec<usize>,
}
pub fn blocks(gb: &Grid, cap: usize) -> Option<Vec<Block>> {
    let (r, c) = (gb.len(), gb[0].len());
    let mut eqs: Vec<(Vec<P>, i32)> = vec![];
    for i in 0..r {
        for j in 0..c {
            if gb[i][j] >= 0 && gb[i][j] < 10 {
                let nb = nbr(r, c, (i, j));
                let f: Vec<P> = nb.iter().cloned().filter(|&(x, y)| gb[x][y] == 10).collect();
                let m = nb.iter().filter(|&&(x, y)| gb[x][y] == 11).count() as i32;
                if !f.is_empty() {
                    eqs.push((f, gb[i][j] - m));
                }
            }
        }
    }
    let mut done = vec![false; eqs.len()];
    let mut res = vec![];
    for s in 0..eqs.len() {
        if done[s] {
            continue;
        }
        done[s] = true;
        let mut ids = vec![s];
        let mut cells: Vec<P> = eqs[s].0.clone();
        let mut k = 0;
        while k < ids.len() {
            for t in 0..eqs.len() {
                if !done[t] && eqs[t].0.iter().any(|p| eqs[ids[k]].0.contains(p)) {
                    done[t] = true;
                    ids.push(t);
                    for p in &eqs[t].0 {
                        if !cells.contains(p) {
                            cells.push(*p);
                        }
                    }
                }
            }
            k += 1;
        }
        if cells.len() > 62 {
            return None;
        }
        let es: Vec<(Vec<usize>, i32)> = ids
            .iter()
            .map(|&i| (eqs[i].0.iter().map(|p| cells.iter().position(|q| q == p).unwrap()).collect(), eqs[i].1))
            .collect();
        // cells seen by the same numbers are exchangeable: one variable per group
        let mut groups: Vec<(Vec<usize>, Vec<usize>)> = vec![];
        for i in 0..cells.len() {
            let sees: Vec<usize> = (0..es.len()).filter(|&e| es[e].0.contains(&i)).collect();
            match groups.iter_mut().find(|g| g.0 == sees) {
                Some(g) => g.1.push(i),
                None => groups.push((sees, vec![i])),
            }
        }
        let gs: Vec<(Vec<usize>, i32)> =
            (0..es.len()).map(|e| ((0..groups.len()).filter(|&g| groups[g].0.contains(&e)).collect(), es[e].1)).collect();
        let size: Vec<i32> = groups.iter().map(|g| g.1.len() as i32).collect();
        let mut v = vec![-1; groups.len()];
        let mut b = Block { mine: vec![0; cells.len()], cells, sols: 0, ways: 0.0 };
        let mut budget = 200000usize;
        let mut most = vec![0; groups.len()];
        if !rec(0, &mut v, &gs, &size, &mut most, &mut b.sols, &mut b.ways, cap, &mut budget) {
            return None;
        }
        for (g, n) in groups.iter().zip(&most) {
            for &i in &g.1 {
                b.mine[i] = *n as usize;
            }
        }
        res.push(b);
    }
    Some(res)
}
fn rec(k: usize, v: &mut Vec<i32>, es: &Vec<(Vec<usize>, i32)>, size: &Vec<i32>, most: &mut Vec<i32>, sols: &mut usize, ways: &mut f64, cap: usize, budget: &mut usize) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    for (f, n) in es {
        let on: i32 = f.iter().map(|&i| v[i].max(0)).sum();
        let free: i32 = f.iter().filter(|&&i| v[i] < 0).map(|&i| size[i]).sum();
        if on > *n || on + free < *n {
            return true;
        }
    }
    if k == v.len() {
        *sols += 1;
        *ways += (0..k).map(|i| (0..v[i]).map(|j| (size[i] - j) as f64 / (j + 1) as f64).product::<f64>()).product::<f64>();
        for i in 0..k {
            most[i] = most[i].max(v[i]);
        }
        return *sols <= cap;
    }
    for x in 0..=size[k] {
        v[k] = x;
        if !rec(k + 1, v, es, size, most, sols, ways, cap, budget) {
            return false;
        }
    }
    v[k] = -1;
    true
}

#[derive(Clone)]
pub struct Pos {
    pub gb: Grid,
    pub mines: usize,
}

/// A random position of a size TLC can judge, true to a hidden board.
pub fn position(rng: &mut Rng, maxr: usize, maxc: usize, cap: usize, marks: bool) -> Pos {
    loop {
        let (r, c) = (rng.range(1, maxr), rng.range(1, maxc));
        let board = match rng.below(3) {
            0 => {
                let d = rng.range(8, 35);
                random_board(rng, r, c, d)
            }
            1 => {
                let d = rng.range(10, 60);
                random_board(rng, r, c, d)
            }
            _ => {
                let m = rng.below(r * c / 3 + 1);
                clustered_board(rng, r, c, m)
            }
        };
        let n = match rng.below(4) {
            0 => rng.below(3),
            1 => rng.below(6),
            _ => rng.below(r * c + 1),
        };
        let mut gb = partial_game(rng, &board, n);
        if rng.chance(50) {
            // play on with certain cells: leaves the hard part
            for _ in 0..rng.range(1, 12) {
                let bs = match blocks(&gb, 4000) {
                    Some(b) => b,
                    None => break,
                };
                let safe: Vec<P> = bs
                    .iter()
                    .flat_map(|b| (0..b.cells.len()).filter(move |&i| b.mine[i] == 0).map(move |i| b.cells[i]))
                    .collect();
                if safe.is_empty() {
                    break;
                }
                let keep = rng.below(3);
                for p in safe.iter().skip(keep.min(safe.len() - 1)) {
                    play_open(&board, &mut gb, *p);
                }
            }
        }
        let mines = board.iter().flatten().filter(|&&x| x == -1).count();
        if marks && rng.chance(60) {
            let d = rng.below(70);
            let e = rng.below(40);
            for i in 0..r {
                for j in 0..c {
                    if gb[i][j] == 10 && board[i][j] == -1 && rng.chance(d) {
                        gb[i][j] = 11;
                    } else if gb[i][j] == 10 && board[i][j] != -1 && rng.chance(e) {
                        gb[i][j] = 12;
                    }
                }
            }
        }
        // also without its marks, which some functions take away
        let plain: Grid = gb.iter().map(|r| r.iter().map(|&x| x.min(10)).collect()).collect();
        let small = |g: &Grid| match blocks(g, cap) {
            Some(b) => b.iter().map(|x| x.sols).sum::<usize>() <= cap && b.iter().all(|x| x.cells.len() <= 55),
            None => false,
        };
        if small(&gb) && small(&plain) {
            return Pos { gb, mines };
        }
    }
}

/// One long block: a row or two of numbers along up to 60 closed cells.
pub fn strip(rng: &mut Rng, least: usize, longest: usize, cap: usize) -> Pos {
    loop {
        let r = *rng.pick(&[2usize, 2, 3, 3, 4]);
        let c = match r {
            2 => rng.range(least, longest),
            _ => rng.range(least / 2, longest / 2 + 6),
        };
        let turn = rng.chance(50);
        let d = rng.range(15, 60);
        let (h, w) = if turn { (c, r) } else { (r, c) };
        let mut board = random_board(rng, h, w, d);
        let line = if r == 3 { 1 } else { 0 };
        let at = |k: usize, j: usize| if turn { (j, k) } else { (k, j) };
        // no mines where the numbers are to be
        let mut mines: Vec<P> = (0..h * w).map(|k| (k / w, k % w)).filter(|&(i, j)| board[i][j] == -1).collect();
        mines.retain(|&(i, j)| (if turn { j } else { i }) != line || (j + i * 7) % 5 == 0);
        board = numbers(h, w, &mines);
        let holes = *rng.pick(&[0usize, 0, 3, 10, 25]);
        let mut gb = vec![vec![10; w]; h];
        for j in 0..c {
            let (x, y) = at(line, j);
            if board[x][y] >= 0 && !rng.chance(holes) {
                gb[x][y] = board[x][y];
            }
        }
        if r == 4 && rng.chance(50) {
            for j in 0..c {
                let (x, y) = at(3, j);
                if board[x][y] >= 0 && !rng.chance(holes) {
                    gb[x][y] = board[x][y];
                }
            }
        }
        if let Some(b) = blocks(&gb, cap) {
            let most = b.iter().map(|x| x.cells.len()).max().unwrap_or(0);
            if b.iter().map(|x| x.sols).sum::<usize>() <= cap && most >= least && most <= longest {
                return Pos { gb, mines: mines.len() };
            }
        }
    }
}
/// Scattered numbers with many closed cells around each: blocks with very many arrangements.
pub fn scattered(rng: &mut Rng, cap: usize, least: f64) -> Pos {
    loop {
        let (r, c) = match rng.below(3) {
            0 => (rng.range(2, 4), rng.range(6, 20)),
            1 => (rng.range(6, 20), rng.range(2, 4)),
            _ => (rng.range(4, 9), rng.range(4, 9)),
        };
        let d = rng.range(15, 70);
        let board = random_board(rng, r, c, d);
        let open = rng.range(6, 30);
        let gap = rng.chance(60);
        let mut gb = vec![vec![10; c]; r];
        for i in 0..r {
            for j in 0..c {
                let free = !gap || nbr(r, c, (i, j)).iter().all(|&(x, y)| gb[x][y] == 10);
                if board[i][j] >= 0 && free && rng.chance(open) {
                    gb[i][j] = board[i][j];
                }
            }
        }
        if let Some(b) = blocks(&gb, cap) {
            let most = b.iter().map(|x| x.cells.len()).max().unwrap_or(0);
            if b.iter().map(|x| x.sols).sum::<usize>() <= cap && most >= 14 && most <= 55 && b.iter().any(|x| x.ways >= least) {
                return Pos { gb, mines: board.iter().flatten().filter(|&&x| x == -1).count() };
            }
        }
    }
}
/// Numbers each sharing a corner cell or two with the next: a block of up to 55
/// cells with up to 10^11 arrangements.
pub fn chained(rng: &mut Rng) -> Pos {
    let n = rng.range(5, 7);
    let (r, c) = (2 * n + 1 + rng.below(2), 2 * n + 1 + rng.below(2));
    let back = rng.chance(50);
    let at = |k: usize| (2 * k + 1, if back { c - 2 - 2 * k } else { 2 * k + 1 });
    let mut mines: Vec<P> = vec![];
    let d = *rng.pick(&[45usize, 50, 50, 55]);
    for i in 0..r {
        for j in 0..c {
            if !(0..n).any(|k| at(k) == (i, j)) && rng.chance(d) {
                mines.push((i, j));
            }
        }
    }
    let board = numbers(r, c, &mines);
    let mut gb = vec![vec![10; c]; r];
    for k in 0..n {
        let p = at(k);
        gb[p.0][p.1] = board[p.0][p.1];
    }
    Pos { gb, mines: mines.len() }
}
/// A few numbers on a board of more than a thousand cells.
pub fn huge(rng: &mut Rng) -> Pos {
    let (r, c) = if rng.chance(80) { (rng.range(30, 44), rng.range(34, 44)) } else { (rng.range(1, 3), rng.range(500, 700)) };
    let d = *rng.pick(&[1usize, 20, 35, 45, 50, 50, 55, 65, 80]);
    let board = random_board(rng, r, c, d);
    let mut gb = vec![vec![10; c]; r];
    for _ in 0..rng.below(5) {
        let p = (rng.below(r), rng.below(c));
        if board[p.0][p.1] >= 0 {
            gb[p.0][p.1] = board[p.0][p.1];
        }
    }
    Pos { gb, mines: board.iter().flatten().filter(|&&x| x == -1).count() }
}

/// `mines r c v v v ...` lines written by the driver from TLC's output
pub fn read_positions(path: &str) -> Vec<Pos> {
    std::fs::read_to_string(path)
        .unwrap()
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| {
            let v: Vec<i32> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
            let (m, r, c) = (v[0] as usize, v[1] as usize, v[2] as usize);
            Pos { gb: (0..r).map(|i| (0..c).map(|j| v[3 + i * c + j]).collect()).collect(), mines: m }
        })
        .collect()
}

type PV = Vec<P>;
fn ded(j: J, name: &str, v: Option<(Result<(PV, PV), usize>, Grid)>) -> J {
    let s = match v {
        None => J::obj().int("ok", 0).end(),
        Some((Err(e), g)) => J::obj().int("ok", 1).int("err", e as i64).grid("gb", &g).cells("safe", &vec![]).cells("mine", &vec![]).end(),
        Some((Ok((n, m)), g)) => J::obj().int("ok", 1).int("err", 0).grid("gb", &g).cells("safe", &n).cells("mine", &m).end(),
    };
    j.raw(name, &s)
}

pub fn p6(x: f64) -> i64 {
    if x.is_finite() {
        (x * 1e6).round() as i64
    } else {
        -7
    }
}

pub fn deduction(rng: &mut Rng, p: &Pos, prev: &Pos) -> String {
    let mut j = J::obj().str("kind", "ded").grid("gb", &p.gb).int("m", p.mines as i64);
    j = ded(j, "direct", caught(|| {
        let mut g = p.gb.clone();
        let (mut a, mut x, mut b, _, _) = ms::refresh_matrixs(&g);
        let r = ms::solve_direct(&mut a, &mut x, &mut b, &mut g);
        (r, g)
    }));
    j = ded(j, "minus", caught(|| {
        let mut g = p.gb.clone();
        let (mut a, mut x, mut b, _, _) = ms::refresh_matrixs(&g);
        let r = ms::solve_minus(&mut a, &mut x, &mut b, &mut g);
        (r, g)
    }));
    // minus and enumeration after the previous stages, on the matrices they leave behind
    j = ded(j, "staged", caught(|| {
        let mut g = p.gb.clone();
        let (mut a, mut x, mut b, _, _) = ms::refresh_matrixs(&g);
        let mut s = vec![];
        let mut m = vec![];
        let (u, v) = ms::solve_direct(&mut a, &mut x, &mut b, &mut g).unwrap();
        s.extend(u);
        m.extend(v);
        let (u, v) = ms::solve_minus(&mut a, &mut x, &mut b, &mut g).unwrap();
        s.extend(u);
        m.extend(v);
        let (u, v) = ms::solve_minus(&mut a, &mut x, &mut b, &mut g).unwrap();
        s.extend(u);
        m.extend(v);
        let (u, v) = ms::solve_enumerate(&a, &x, &b);
        s.extend(u);
        m.extend(v);
        (Ok((s, m)), g)
    }));
    j = ded(j, "enumerate", caught(|| {
        let g = p.gb.clone();
        let (a, x, b, _, _) = ms::refresh_matrixs(&g);
        let r = ms::solve_enumerate(&a, &x, &b);
        (Ok(r), g)
    }));
    j = ded(j, "all", caught(|| {
        let mut g = p.gb.clone();
        let (mut a, mut x, mut b, _, _) = ms::refresh_matrixs(&g);
        let r = ms::get_all_not_and_is_mine_on_board(&mut a, &mut x, &mut b, &mut g);
        (Ok(r), g)
    }));
    j = ded(j, "mark", caught(|| {
        let mut g = p.gb.clone();
        let r = ms::mark_board(&mut g);
        (r.map(|_| (vec![], vec![])), g)
    }));
    // the caching object, possibly used before for another position
    let mut order = vec![0, 1, 2, 3, 4];
    rng.shuffle(&mut order);
    let reuse = rng.chance(40);
    let o = caught(|| {
        let mut o = ms::GameBoard::new(p.mines);
        if reuse {
            o.set_game_board(&prev.gb);
            for &q in order.iter().take(2) {
                query(&mut o, q, prev.mines == p.mines);
            }
        }
        o.set_game_board(&p.gb);
        let mut r = vec![String::new(); 4];
        for round in 0..2 {
            for &q in &order {
                let v = query(&mut o, q, true);
                if q < 4 {
                    if round == 1 {
                        assert!(r[q] == v, "answer changed");
                    }
                    r[q] = v;
                }
            }
        }
        let poss: Vec<String> = o.get_poss().iter().map(|r| jints(&r.iter().map(|&x| p6(x)).collect::<Vec<_>>())).collect();
        assert!(o.game_board == p.gb);
        (r, format!("[{}]", poss.join(",")))
    });
    let s = match o {
        None => J::obj().int("ok", 0).end(),
        Some((r, poss)) => J::obj()
            .int("ok", 1)
            .raw("bs", &r[0])
            .raw("bm", &r[1])
            .raw("es", &r[2])
            .raw("em", &r[3])
            .raw("poss", &poss)
            .end(),
    };
    j.raw("obj", &s).end()
}
fn query(o: &mut ms::GameBoard, q: usize, poss: bool) -> String {
    match q {
        0 => jcells(o.get_basic_not_mine()),
        1 => jcells(o.get_basic_is_mine()),
        2 => jcells(o.get_enum_not_mine()),
        3 => jcells(o.get_enum_is_mine()),
        _ => {
            if poss {
                o.get_poss();
            }
            String::new()
        }
    }
}

/// Positions that contradict themselves somewhere, for the marking function.
pub fn contradiction(rng: &mut Rng) -> String {
    let mut p = position(rng, 6, 6, 500, true);
    let (r, c) = (p.gb.len(), p.gb[0].len());
    for _ in 0..rng.range(1, 3) {
        let (i, j) = (rng.below(r), rng.below(c));
        if p.gb[i][j] < 10 {
            p.gb[i][j] = rng.below(9) as i32;
        } else if rng.chance(50) {
            p.gb[i][j] = rng.range(1, 8) as i32;
        }
    }
    let mut j = J::obj().str("kind", "contra").grid("gb", &p.gb);
    j = match caught(|| ms::cal_possibility_onboard(&p.gb, p.mines as f64)) {
        None => j.raw("poss", "{\"ok\":0}"),
        Some(v) => j.raw("poss", &J::obj().int("ok", 1).int("err", v.err().map_or(0, |e| e as i64)).end()),
    };
    ded(j, "mark", caught(|| {
        let mut g = p.gb.clone();
        let r = ms::mark_board(&mut g);
        (r.map(|_| (vec![], vec![])), g)
    }))
    .end()
}

fn poss_json(v: &Vec<Vec<f64>>) -> String {
    let rows: Vec<String> = v.iter().map(|r| jints(&r.iter().map(|&x| p6(x)).collect::<Vec<_>>())).collect();
    format!("[{}]", rows.join(","))
}

/// Mine probabilities; `mm` is the mine count asked for, `frac` asks with a fraction.
pub fn probability(rng: &mut Rng, p: &Pos, mm: f64) -> String {
    let mut j = J::obj().str("kind", "poss").grid("gb", &p.gb);
    let area = (p.gb.len() * p.gb[0].len()) as f64;
    let frac = mm < 1.0;
    // the documented reading of a fraction, before clamping to the feasible range
    j = j.int("m", if frac { (area * mm) as i64 } else { mm as i64 }).int("frac", frac as i64);
    let a = caught(|| ms::cal_possibility(&p.gb, mm));
    let b = caught(|| ms::cal_possibility_onboard(&p.gb, mm));
    let marked = caught(|| {
        let mut g = p.gb.clone();
        ms::mark_board(&mut g).unwrap();
        ms::cal_possibility_onboard(&g, mm)
    });
    j = match a {
        None => j.int("ok", 0),
        Some(Err(e)) => j.int("ok", 1).int("err", e as i64),
        Some(Ok((v, inner, range, len))) => {
            let mut v = v;
            if rng.chance(20) {
                v.reverse();
            }
            let cells: Vec<String> = v.iter().map(|(c, x)| format!("[{},{},{}]", c.0 + 1, c.1 + 1, p6(*x))).collect();
            j.int("ok", 1)
                .int("err", 0)
                .raw("p", &format!("[{}]", cells.join(",")))
                .int("inner", p6(inner))
                .int("len", len as i64)
                .ints("range", &range.iter().map(|&x| x as i64).collect::<Vec<_>>())
        }
    };
    for (name, v) in [("board", b), ("marked", marked)] {
        j = match v {
            None => j.raw(name, "{\"ok\":0}"),
            Some(Err(e)) => j.raw(name, &J::obj().int("ok", 1).int("err", e as i64).end()),
            Some(Ok((g, range))) => j.raw(
                name,
                &J::obj()
                    .int("ok", 1)
                    .int("err", 0)
                    .raw("p", &poss_json(&g))
                    .ints("range", &range.iter().map(|&x| x as i64).collect::<Vec<_>>())
                    .end(),
            ),
        };
    }
    j.end()
}

pub fn opening(rng: &mut Rng, p: &Pos, mm: usize, all: bool) -> String {
    let (r, c) = (p.gb.len(), p.gb[0].len());
    let mut cells: Vec<[usize; 2]> = vec![];
    for i in 0..r {
        for j in 0..c {
            if all || (if r * c > 500 { rng.below(r * c) < 4 } else { rng.chance(40) }) {
                cells.push([i, j]);
            }
        }
    }
    if rng.chance(50) {
        rng.shuffle(&mut cells);
    }
    let j = J::obj()
        .str("kind", "op")
        .grid("gb", &p.gb)
        .int("m", mm as i64)
        .cells("cells", &cells.iter().map(|x| (x[0], x[1])).collect::<Vec<P>>());
    let a = caught(|| {
        let v = ms::cal_is_op_possibility_cells(&p.gb, mm as f64, &cells);
        let single: Vec<i64> = cells.iter().map(|x| p6(ms::cal_is_op_possibility_cells(&p.gb, mm as f64, &vec![*x])[0])).collect();
        (v.iter().map(|&x| p6(x)).collect::<Vec<_>>(), single)
    });
    match a {
        None => j.int("ok", 0).end(),
        Some((v, s)) => j.int("ok", 1).ints("p", &v).ints("single", &s).end(),
    }
}

pub fn guess(p: &Pos) -> String {
    let (r, c) = (p.gb.len(), p.gb[0].len());
    let mut code: Grid = vec![vec![-9; c]; r];
    let mut able: Grid = vec![vec![-9; c]; r];
    for i in 0..r {
        for j in 0..c {
            if let Some(v) = caught(|| ms::is_guess_while_needless(&mut p.gb.clone(), &(i, j))) {
                code[i][j] = v;
            }
            if let Some(v) = caught(|| ms::is_able_to_solve(&mut p.gb.clone(), &(i, j))) {
                able[i][j] = v as i32;
            }
        }
    }
    J::obj().str("kind", "guess").grid("gb", &p.gb).grid("code", &code).grid("able", &able).end()
}

fn jmat(a: &Vec<Vec<i32>>) -> String {
    jgrid(a)
}
fn jblock(a: &Vec<Vec<i32>>, x: &PV, b: &Vec<i32>) -> String {
    J::obj().raw("a", &jmat(a)).cells("x", x).ints("b", &b.iter().map(|&v| v as i64).collect::<Vec<_>>()).end()
}
fn digits(mut x: usize) -> String {
    let mut v = vec![];
    while x > 0 {
        v.push((x % 10000) as i64);
        x /= 10000;
    }
    jints(&v)
}
pub fn matrix(p: &Pos) -> String {
    let j = J::obj().str("kind", "mat").grid("gb", &p.gb);
    let r = caught(|| {
        let (a, x, b) = ms::refresh_matrix(&p.gb);
        let whole = jblock(&a, &x, &b);
        let (a, x, b, unknown, mines) = ms::refresh_matrixs(&p.gb);
        let mut segs = vec![];
        for i in 0..a.len() {
            let (sa, sx, rel) = ms::combine(&a[i], &x[i]);
            let table = ms::cal_table_minenum_recursion(&sa, &sx, &b[i], &rel);
            let rels: Vec<String> = rel.iter().map(|g| jints(&g.iter().map(|&v| v as i64 + 1).collect::<Vec<_>>())).collect();
            let j = J::obj().raw("blk", &jblock(&a[i], &x[i], &b[i])).raw("sq", &jblock(&sa, &sx, &b[i])).raw("rel", &format!("[{}]", rels.join(",")));
            let u = |v: &Vec<usize>| jints(&v.iter().map(|&x| x as i64).collect::<Vec<_>>());
            segs.push(match table {
                Err(e) => j.int("err", e as i64).end(),
                Ok((t, cells)) => {
                    // counts as digits, base 10^4: TLC's integers have 32 bits
                    let big = |v: &Vec<usize>| format!("[{}]", v.iter().map(|&x| digits(x)).collect::<Vec<_>>().join(","));
                    let rows: Vec<String> = cells.iter().map(|v| big(v)).collect();
                    j.int("err", 0).raw("num", &u(&t[0])).raw("cnt", &big(&t[1])).raw("cell", &format!("[{}]", rows.join(","))).end()
                }
            });
        }
        let (aa, xx, bb) = ms::refresh_matrixses(&p.gb);
        let groups: Vec<String> = (0..aa.len())
            .map(|g| {
                let v: Vec<String> = (0..aa[g].len()).map(|s| jblock(&aa[g][s], &xx[g][s], &bb[g][s])).collect();
                format!("[{}]", v.join(","))
            })
            .collect();
        (whole, format!("[{}]", segs.join(",")), unknown, mines, format!("[{}]", groups.join(",")))
    });
    match r {
        None => j.int("ok", 0).end(),
        Some((w, s, u, m, g)) => j.int("ok", 1).raw("whole", &w).raw("segs", &s).int("unknown", u as i64).int("mines", m as i64).raw("groups", &g).end(),
    }
}

pub fn solvable_line(b: &Grid, p: P) -> String {
    let j = J::obj().str("kind", "solv").grid("b", b).ints("p", &[p.0 as i64 + 1, p.1 as i64 + 1]);
    match caught(|| (ms::is_solvable(b, p.0, p.1), ms::unsolvable_structure(b))) {
        None => j.int("ok", 0).end(),
        Some((v, u)) => j.int("ok", 1).int("v", v as i64).int("u", u as i64).end(),
    }
}

/// `what` selects the recorded calls; positions from a file (`-`: none) and at random.
pub fn run(what: &str, file: &str, out: &str, seed: u64, n: usize, percent: usize) {
    let mut rng = Rng::new(seed);
    let mut o = Out::new(out);
    let fixed = if file == "-" { vec![] } else { read_positions(file) };
    let mut todo: Vec<Pos> = vec![];
    for p in fixed {
        if rng.chance(percent) {
            todo.push(p);
        }
    }
    let nfixed = todo.len();
    let (mr, mc, cap) = match what {
        "op" => (5, 5, 300),
        "poss" => (8, 8, 600),
        _ => (9, 9, 1500),
    };
    for i in 0..n {
        let big = i % 25 == 24;
        let marks = what != "guess" || rng.chance(30);
        let (a, b) = if big && what != "op" { (16, 30) } else { (mr, mc) };
        todo.push(match (what, i % 50) {
            ("ded", 7 | 31) => strip(&mut rng, 25, 60, 200),
            ("poss", 7) => strip(&mut rng, 25, 55, 200),
            ("poss", 31) => strip(&mut rng, 50, 64, 200),
            ("mat" | "guess", 7) => strip(&mut rng, 25, 55, 200),
            ("poss" | "op", 17) => huge(&mut rng),
            ("poss", 27) => chained(&mut rng),
            ("op", 3 | 23) => scattered(&mut rng, 150, 500.0),
            (_, 3 | 23 | 43) => scattered(&mut rng, 1500, 0.0),
            ("poss" | "mat", 13) if i % 200 == 13 => scattered(&mut rng, 1000, 1e8),
            (_, 13 | 33) => scattered(&mut rng, 1500, 1e5),
            _ => position(&mut rng, a, b, cap, marks),
        });
    }
    let mut prev = todo[0].clone();
    for (i, p) in todo.into_iter().enumerate() {
        match what {
            "ded" => {
                let l = deduction(&mut rng, &p, &prev);
                o.line(&l);
                if i % 4 == 0 {
                    let l = contradiction(&mut rng);
                    o.line(&l);
                }
            }
            "poss" => {
                let area = p.gb.len() * p.gb[0].len();
                let mut asks = vec![p.mines as f64];
                match rng.below(4) {
                    0 => asks.push(rng.range(1, area) as f64),
                    1 => asks.push((p.mines as f64 + 1.0).min(area as f64)),
                    2 => asks.push(p.mines.saturating_sub(1) as f64),
                    _ => {
                        let den = *rng.pick(&[2usize, 4, 5, 8, 10]);
                        asks.push(rng.below(den) as f64 / den as f64);
                    }
                }
                if i < nfixed && rng.chance(50) {
                    asks.remove(0);
                }
                for m in asks {
                    let l = probability(&mut rng, &p, m);
                    o.line(&l);
                }
            }
            "op" => {
                if p.mines >= 1 {
                    let l = opening(&mut rng, &p, p.mines, i < nfixed);
                    o.line(&l);
                }
            }
            "guess" => o.line(&guess(&p)),
            "mat" => o.line(&matrix(&p)),
            _ => panic!("what"),
        }
        prev = p;
    }
    o.flush();
}

/// verdicts on boards: from a file (every safe start), and at random
pub fn solvable(file: &str, out: &str, seed: u64, n: usize, percent: usize) {
    let mut rng = Rng::new(seed);
    let mut o = Out::new(out);
    if file != "-" {
        for b in read_boards(file) {
            for i in 0..b.len() {
                for j in 0..b[0].len() {
                    if b[i][j] != -1 && rng.chance(percent) {
                        o.line(&solvable_line(&b, (i, j)));
                    }
                }
            }
        }
    }
    let mut k = 0;
    while k < n {
        let (r, c) = match rng.below(10) {
            0 => (8, 8),
            1 => (rng.range(4, 12), rng.range(4, 12)),
            _ => (rng.range(4, 7), rng.range(4, 7)),
        };
        let b = if rng.chance(30) {
            let m = rng.range(1, r * c / 4);
            clustered_board(&mut rng, r, c, m)
        } else {
            let d = rng.range(5, 30);
            random_board(&mut rng, r, c, d)
        };
        let z: Vec<P> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).filter(|&(i, j)| if rng.0 % 5 == 0 { b[i][j] >= 0 } else { b[i][j] == 0 }).collect();
        if z.is_empty() {
            continue;
        }
        let p = *rng.pick(&z);
        let l = solvable_line(&b, p);
        // most random boards are clearly unsolvable; keep a balanced choice
        if l.contains("\"v\":0") && rng.chance(50) {
            continue;
        }
        o.line(&l);
        k += 1;
    }
    o.flush();
}

fn wide(rng: &mut Rng) -> (usize, usize) {
    match rng.below(5) {
        0 => (rng.range(4, 7), rng.range(30, 70)),
        1 => (rng.range(30, 70), rng.range(4, 7)),
        2 => (16, 30),
        3 => (20, 24),
        _ => (rng.range(8, 10), rng.range(31, 40)),
    }
}

/// solvable-board generators
pub fn generators(out: &str, seed: u64, n: usize) {
    let mut rng = Rng::new(seed);
    let mut o = Out::new(out);
    for i in 0..n {
        let which = rng.below(3);
        // now and then a board with more columns or rows than usual, and few mines
        let large = i % 40 == 7;
        let (r, c) = match rng.below(8) {
            _ if large => wide(&mut rng),
            0 => (8, 8),
            1 => (rng.range(4, 9), rng.range(4, 12)),
            _ => (rng.range(4, 7), rng.range(4, 7)),
        };
        let (x, y) = match rng.below(3) {
            0 => (*rng.pick(&[0, r - 1]), *rng.pick(&[0, c - 1])),
            1 => (rng.below(r), *rng.pick(&[0, c - 1])),
            _ => (rng.below(r), rng.below(c)),
        };
        let area = r * c - nbr(r, c, (x, y)).len() - 1;
        let m = if large {
            rng.range(area / 30, area / 14)
        } else if which == 1 {
            match rng.below(6) {
                0 => rng.range(area.saturating_sub(3), (r * c - 1).min(area + 4)),
                1 => rng.range(area / 2, area),
                2 => rng.below(3),
                _ => rng.range(1, area * 6 / 10),
            }
        } else {
            rng.below(area * 4 / 10 + 1)
        };
        let budget = match rng.below(4) {
            _ if large => 2000,
            0 => rng.below(9),
            1 => rng.below(40),
            _ => 400,
        };
        let v = caught(|| match which {
            0 => ms::laymine_solvable(r, c, m, x, y, budget),
            1 => ms::laymine_solvable_adjust(r, c, m, x, y),
            _ => ms::laymine_solvable_thread(r, c, m, x, y, budget),
        });
        let j = J::obj()
            .str("kind", "gen")
            .int("which", which as i64)
            .int("r", r as i64)
            .int("c", c as i64)
            .int("n", m as i64)
            .int("budget", budget as i64)
            .ints("p", &[x as i64 + 1, y as i64 + 1]);
        let l = match v {
            None => j.int("ok", 0).end(),
            Some((b, f)) => j.int("ok", 1).int("v", f as i64).grid("b", &b).end(),
        };
        o.line(&l);
    }
    o.flush();
}

/// solver threads OUT SEED N REQUESTS : requests few enough layouts to enumerate, each asked for
/// with many budgets; half of the calls run next to others of their kind
pub fn threads(out: &str, seed: u64, n: usize, requests: &str, which: &str) {
    let mut rng = Rng::new(seed);
    let mut o = Out::new(out);
    let reqs: Vec<Vec<usize>> = std::fs::read_to_string(requests)
        .unwrap()
        .lines()
        .map(|l| l.split_whitespace().map(|x| x.parse().unwrap()).collect())
        .collect();
    let single = which == "single";
    while o.n < n {
        let alone = rng.chance(50);
        let calls: Vec<(Vec<usize>, usize)> = (0..if alone { 1 } else { 4 })
            .map(|_| {
                if rng.chance(1) {
                    let (r, c) = wide(&mut rng);
                    let (x, y) = (rng.below(r), rng.below(c));
                    return (vec![r, c, rng.range(r * c / 30, r * c / 14), x + 1, y + 1], 2000);
                }
                let q = rng.pick(&reqs).clone();
                let budget = match rng.below(6) {
                    0 => 0,
                    1 | 2 => rng.range(1, 17),
                    3 => rng.range(1, 100),
                    _ => rng.range(100, 1500),
                };
                (q, budget)
            })
            .collect();
        let (tx, rx) = std::sync::mpsc::channel();
        for (k, (q, budget)) in calls.iter().cloned().enumerate() {
            let tx = tx.clone();
            std::thread::spawn(move || {
                let v = caught(|| {
                    if single {
                        ms::laymine_solvable(q[0], q[1], q[2], q[3] - 1, q[4] - 1, budget)
                    } else {
                        ms::laymine_solvable_thread(q[0], q[1], q[2], q[3] - 1, q[4] - 1, budget)
                    }
                });
                let _ = tx.send((k, v));
            });
        }
        let mut late = false;
        let mut got: Vec<Option<Option<(Vec<Vec<i32>>, bool)>>> = vec![None; calls.len()];
        for _ in 0..calls.len() {
            match rx.recv_timeout(std::time::Duration::from_secs(100)) {
                Ok((k, v)) => got[k] = Some(v),
                Err(_) => {
                    late = true;
                    break;
                }
            }
        }
        for (k, (q, budget)) in calls.iter().enumerate() {
            let j = J::obj()
                .str("op", "threads")
                .int("which", if single { 0 } else { 2 })
                .int("r", q[0] as i64)
                .int("c", q[1] as i64)
                .int("n", q[2] as i64)
                .int("budget", *budget as i64)
                .ints("p", &[q[3] as i64, q[4] as i64]);
            let l = match &got[k] {
                Some(Some((b, f))) => j.int("ok", 1).int("v", *f as i64).grid("b", b).end(),
                _ => j.int("ok", 0).end(),
            };
            o.line(&l);
        }
        if late {
            break;
        }
    }
    o.flush();
    // a call that never came back must not keep the process
    std::process::exit(0);
}
