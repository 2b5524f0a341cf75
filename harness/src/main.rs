#![allow(clippy::all)]
mod files;
mod game;
mod metrics;
mod replay;
mod solver;
mod util;
mod video;

fn main() {
    util::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a[i].as_str();
    let n = |i: usize| a[i].parse::<usize>().expect("number");
    match (s(1), s(2)) {
        ("game", "walks") => game::walks(s(3), n(4) as u64, n(5), n(6)),
        ("game", "wide") => game::wide(s(3), n(4) as u64, n(5), n(6)),
        ("game", "tree") => game::tree(s(3), s(4), n(5) as u64, n(6)),
        ("game", "after") => game::after(s(3), s(4), n(5) as u64, n(6), n(7)),
        ("metrics", "boards") => metrics::from_boards(s(3), s(4), n(5) as u64),
        ("metrics", "random") => metrics::random(s(3), n(4) as u64, n(5)),
        ("metrics", "lay") => metrics::lay(s(3), n(4) as u64, n(5)),
        ("metrics", "sample") => metrics::sample(s(3), n(4) as u64, n(5), n(6)),
        ("metrics", "flood") => metrics::flood(s(3), n(4) as u64, n(5)),
        ("metrics", "every") => metrics::every(s(3), s(4)),
        ("metrics", "safe") => metrics::safe(s(3), n(4) as u64, n(5)),
        ("solver", "run") => solver::run(s(3), s(4), s(5), n(6) as u64, n(7), n(8)),
        ("solver", "solvable") => solver::solvable(s(3), s(4), n(5) as u64, n(6), n(7)),
        ("solver", "generators") => solver::generators(s(3), n(4) as u64, n(5)),
        ("video", "live") => video::live(s(3), n(4) as u64, n(5), n(6)),
        ("video", "replay") => replay::replay(s(3), n(4) as u64, n(5), n(6)),
        ("video", "timed") => replay::timed(s(3), n(4) as u64, n(5), n(6), n(7)),
        ("solver", "threads") => solver::threads(s(3), n(4) as u64, n(5), s(6), s(7)),
        ("video", "review") => replay::review(s(3), n(4) as u64, n(5)),
        ("video", "notes") => replay::notes(s(3), n(4) as u64, n(5), n(6)),
        ("video", "chords") => replay::chords(s(3), n(4) as u64, n(5)),
        ("video", "save") => replay::save(s(3), n(4) as u64, n(5)),
        ("files", "evf") => files::evf(s(3), n(4) as u64, n(5), n(6)),
        ("files", "read") => files::read(s(3), s(4), n(5) as u64, n(6)),
        ("files", "convert") => files::convert(s(3), s(4), n(5) as u64, n(6)),
        ("files", "broken") => files::broken(s(3), s(4), n(5) as u64, n(6)),
        _ => {
            eprintln!("unknown command");
            std::process::exit(64);
        }
    }
}
