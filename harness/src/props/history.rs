//! Independence of calls (C01) and of threads (C02). The code under test runs in forked children only,
//! so that each of them starts from the state of a fresh process.
use crate::driver::{guard, Cx, Property, Res, Suite};
use crate::ensure;
use crate::oracle::{
    maze::{self as maze_model, Dir, Walls},
    nonogram as nonogram_model, sudoku as sudoku_model, Mix,
};
use image::{Rgb, RgbImage};
use proptest::prelude::*;
use puzzle_utils as api;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::Barrier;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    ParseSudoku(String),
    SolveSudoku(Vec<u8>),
    PrintSudoku(Vec<u8>),
    ParseNonogram(String, usize),
    SolveNonogram(Vec<Vec<usize>>, Vec<Vec<usize>>),
    PrintNonogram(u32, u32, Vec<Vec<usize>>, Vec<Vec<usize>>),
    /// Width, height, size of the image in pixels, cells.
    PrintNonogramSolution(u32, u32, (u32, u32), Vec<bool>),
    CreateMaze(usize, usize),
    PrintMaze(u32, u32, Vec<Walls>),
    /// Size of the image in pixels, moves from the entrance on.
    PrintMazeSolution((u32, u32), Vec<Dir>),
    /// Size and content of the image.
    Png((u32, u32), u64),
}

fn image(w: u32, h: u32, seed: u64) -> api::RgbBuffer {
    let mut m = Mix::new(seed);
    RgbImage::from_fn(w, h, |_, _| {
        let v = m.next();
        match seed % 3 {
            0 => Rgb([v as u8, (v >> 8) as u8, (v >> 16) as u8]),
            1 => Rgb([(v % 2) as u8 * 255; 3]),
            _ => Rgb([255; 3]),
        }
    })
}

fn of_image<E: std::fmt::Debug>(r: Result<api::RgbBuffer, E>) -> String {
    match r {
        Ok(i) => format!("Ok({} x {}, {:016x})", i.width(), i.height(), crate::driver::fnv(i.as_raw())),
        Err(e) => format!("Err({e:?})"),
    }
}

fn created(w: usize, h: usize) -> Result<(), String> {
    let (nodes, solution) = api::create_maze(w, h, api::MazeAlgorithm::RecursiveBacktrack);
    let walls = maze_model::walls(&nodes);
    let exit = maze_model::perfect(w, h, &walls)?;
    let mut at = (0i64, 0i64);
    let mut cells = vec![0usize];
    for d in solution.iter().rev() {
        at = Dir::from_api(d).step(at.0, at.1);
        if at.0 < 0 || at.1 < 0 || at.0 >= w as i64 || at.1 >= h as i64 {
            return Err("the solution leaves the maze".into());
        }
        cells.push(at.1 as usize * w + at.0 as usize);
    }
    if cells != maze_model::route(w, h, &walls, exit) {
        return Err("the solution is not the route to the exit".into());
    }
    Ok(())
}

/// What the call returns, in short.
pub fn perform(c: &Call) -> String {
    guard("call", || match c {
        Call::ParseSudoku(s) => format!("{:?}", api::parse_sudoku(s)),
        Call::SolveSudoku(p) => format!("{:?}", api::solve_sudoku(p)),
        Call::PrintSudoku(p) => of_image(api::print_sudoku(p)),
        Call::ParseNonogram(s, b) => format!("{:?}", api::parse_nonogram_rules(s, *b)),
        Call::SolveNonogram(c, r) => format!("{:?}", api::solve_nonogram(c, r)),
        Call::PrintNonogram(w, h, c, r) => of_image(api::print_nonogram(*w, *h, c, r)),
        Call::PrintNonogramSolution(w, h, (iw, ih), g) => {
            of_image(api::print_nonogram_solution(*w, *h, image(*iw, *ih, 3), g))
        }
        Call::CreateMaze(w, h) => match created(*w, *h) {
            Ok(()) => "a valid maze".to_string(),
            Err(e) => format!("an invalid maze: {e}"),
        },
        Call::PrintMaze(w, h, g) => of_image(api::print_maze(*w, *h, &maze_model::nodes(g))),
        Call::PrintMazeSolution((iw, ih), d) => {
            let moves: Vec<_> = d.iter().rev().map(|d| d.api()).collect();
            of_image(api::print_maze_solution(image(*iw, *ih, 4), &moves))
        }
        Call::Png((w, h), seed) => match api::image_to_png_bytes(&image(*w, *h, *seed)) {
            Ok(b) => format!("Ok({} bytes, {:016x})", b.len(), crate::driver::fnv(&b)),
            Err(e) => format!("Err({e})"),
        },
    })
    .unwrap_or_else(|_| "panic".to_string())
}

// ------------------------------------------------------------------ generators

/// Calls on a few puzzles of a few sizes, so that many of them nearly coincide. The lower two bits of
/// `variant` choose among nearby contents, the next two among nearby shapes.
pub fn one_of(w: usize, h: usize, seed: u64, kind: u8, variant: u8) -> Call {
    let (w, h) = match variant >> 2 & 3 {
        0 => (w, h),
        1 => (h, w),
        2 => (w + 1, h),
        _ => (1 + (seed >> 20) as usize % (w + 1), 1 + (seed >> 30) as usize % (h + 1)),
    };
    let variant = variant as u64 % 4;
    let mut m = Mix::new(crate::driver::splitmix(seed ^ variant << 8));
    let sudoku = |m: &mut Mix| -> Vec<u8> {
        // The same grid and, up to the variant, the same givens.
        let full = sudoku_model::complete_grid(seed);
        let keep = 40 + m.below(35);
        let mut cells: Vec<usize> = (0..81).collect();
        m.shuffle(&mut cells);
        let mut p = vec![0u8; 81];
        for &i in &cells[..keep] {
            p[i] = full[i];
        }
        match variant {
            2 => {
                // A clash within a row.
                let i = cells[0];
                let k = i / 9 * 9 + (i + 1 + m.below(8)) % 9;
                p[k] = p[i];
            }
            3 => match m.below(3) {
                0 => p[m.below(81)] = 9 + m.below(10) as u8,
                1 => p.truncate(80 - m.below(3)),
                _ => p[cells[0]] = full[cells[0]] % 9 + 1,
            },
            _ => (),
        }
        p
    };
    let picture = |m: &mut Mix| nonogram_model::picture(w, h, m.below(256) as u8, 20 + m.below(70) as u8, m.next());
    let clues = |m: &mut Mix| {
        let g = picture(m);
        let (mut c, r) = (nonogram_model::col_clues(w, h, &g), nonogram_model::row_clues(w, h, &g));
        // Whether a large puzzle can be solved at all may take for ever to find out.
        if variant == 3 && w * h <= 49 {
            let i = m.below(w);
            c[i] = vec![m.below(h + 2)];
        }
        (c, r)
    };
    match kind % 12 {
        0 => {
            let mut s: String = sudoku(&mut m).iter().map(|d| (b'0' + d % 10) as char).collect();
            if variant == 3 {
                s.insert(m.below(s.len()), ['x', '½', '-'][m.below(3)]);
            }
            Call::ParseSudoku(s)
        }
        1 | 2 => Call::SolveSudoku(sudoku(&mut m)),
        3 => Call::PrintSudoku(sudoku(&mut m).iter().map(|d| d % 10).collect()),
        4 => {
            let (c, _) = clues(&mut m);
            let text: Vec<String> = c
                .iter()
                .map(|l| if l.is_empty() { "0".to_string() } else { l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") })
                .collect();
            let mut text = text.join(";");
            if variant == 2 {
                text.push_str(",x");
            }
            Call::ParseNonogram(text, h)
        }
        5 | 6 => {
            let (c, r) = clues(&mut m);
            Call::SolveNonogram(c, r)
        }
        7 => {
            let (c, r) = clues(&mut m);
            Call::PrintNonogram((w + (variant == 3) as usize) as u32, h as u32, c, r)
        }
        8 => {
            let g = picture(&mut m);
            let size = |n: usize| n as u32 * 50 + (n as u32 * 10).max(150);
            Call::PrintNonogramSolution(w as u32, h as u32, (size(w) + (variant == 3) as u32, size(h)), g)
        }
        9 => Call::CreateMaze(w, h),
        10 => {
            let n = w * h - (variant == 3) as usize;
            let g = (0..n).map(|_| Walls { right: m.below(2) == 0, down: m.below(2) == 0 }).collect();
            Call::PrintMaze(w as u32, h as u32, g)
        }
        _ => {
            if variant % 2 == 0 {
                Call::Png((w as u32 * 3, h as u32 * 3), m.next())
            } else {
                let (mut x, mut y) = (0i64, 0i64);
                let mut moves = Vec::new();
                for _ in 0..m.below(20) {
                    let d = Dir::ALL[m.below(4)];
                    let (nx, ny) = d.step(x, y);
                    let inside = nx >= 0 && ny >= 0 && nx < w as i64 && ny < h as i64;
                    if inside || variant == 3 && m.below(8) == 0 {
                        moves.push(d);
                        (x, y) = (nx, ny);
                    }
                }
                while variant != 3 && y < h as i64 - 1 {
                    moves.push(Dir::Down);
                    y += 1;
                }
                Call::PrintMazeSolution((w as u32 * 10 + 1, h as u32 * 10 + 1), moves)
            }
        }
    }
}

fn variants() -> impl Strategy<Value = u8> {
    prop_oneof![2 => 0u8..4, 1 => 4u8..16]
}

/// (w, h, seed) of the puzzles, and a sequence of (kind, variant).
fn calls(max: usize, kinds: std::ops::Range<u8>, size: usize, len: std::ops::Range<usize>) -> impl Strategy<Value = Vec<Call>> {
    (1..=size, 1..=size, any::<u64>(), prop::collection::vec((kinds, variants()), 1..=max)).prop_flat_map(move |(w, h, seed, pool)| {
        prop::collection::vec(any::<prop::sample::Index>(), len.clone()).prop_map(move |picks| {
            picks
                .iter()
                .map(|i| {
                    let (k, v) = pool[i.index(pool.len())];
                    one_of(w, h, seed, k, v)
                })
                .collect()
        })
    })
}

fn fewer_calls(c: &Vec<Call>) -> Vec<Vec<Call>> {
    let mut out = Vec::new();
    let mut n = c.len() / 2;
    while n > 0 {
        for i in (0..c.len()).step_by(n) {
            let mut k = c.clone();
            k.drain(i..(i + n).min(c.len()));
            if !k.is_empty() {
                out.push(k);
            }
        }
        n /= 2;
    }
    out
}

fn fewer_in_threads(t: &Threads) -> Vec<Threads> {
    let mut out = Vec::new();
    for i in 0..t.calls.len() {
        if t.calls.len() > 2 {
            let mut k = t.clone();
            k.calls.remove(i);
            out.push(k);
        }
        for l in fewer_calls(&t.calls[i]) {
            let mut k = t.clone();
            k.calls[i] = l;
            out.push(k);
        }
    }
    out
}

// ------------------------------------------------------------------ fresh processes

/// Runs `f` in a forked child.
fn fresh(f: impl FnOnce() -> Vec<String>) -> Result<Vec<String>, String> {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::alarm(120);
            let out = serde_json::to_vec(&f()).unwrap_or_default();
            let mut at = 0;
            while at < out.len() {
                let n = libc::write(fds[1], out[at..].as_ptr() as *const _, out.len() - at);
                if n <= 0 {
                    libc::_exit(67);
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = Vec::new();
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            // Ended from outside: not a verdict on the code.
            assert!(sig != libc::SIGKILL && sig != libc::SIGTERM, "a child was ended from outside");
            return Err(format!("the process died with signal {sig}"));
        }
        assert_eq!(libc::WEXITSTATUS(status), 0, "child");
        Ok(serde_json::from_slice(&out).expect("child result"))
    }
}

/// Processor time that a child should spend on its calls, in seconds.
const BUDGET: f64 = 8.0;

/// Processor time of this process so far.
fn spent() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// The result of each distinct call when it is the first one of a process.
fn alone(calls: &[&Call]) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    for c in calls {
        let key = serde_json::to_string(c).expect("call serialises");
        out.entry(key).or_insert_with(|| match fresh(|| vec![perform(c)]) {
            Ok(v) => v[0].clone(),
            Err(e) => e,
        });
    }
    out
}

/// Another working directory, and no environment but odd locale settings. In forked children only.
fn surroundings() {
    unsafe {
        libc::chdir(c"/proc".as_ptr());
        libc::clearenv();
        libc::setenv(c"LC_ALL".as_ptr(), c"tr_TR.UTF-8".as_ptr(), 1);
        libc::setenv(c"TZ".as_ptr(), c"Pacific/Kiritimati".as_ptr(), 1);
        libc::setenv(c"RUST_BACKTRACE".as_ptr(), c"1".as_ptr(), 1);
    }
}

/// Very many calls out of a small pool.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Marathon {
    w: usize,
    h: usize,
    seed: u64,
    pool: Vec<(u8, u8)>,
    n: usize,
    order: u64,
}

fn marathon(kinds: std::ops::Range<u8>, size: usize, n: std::ops::Range<usize>) -> impl Strategy<Value = Marathon> {
    (1..=size, 1..=size, any::<u64>(), prop::collection::vec((kinds, variants()), 1..4), n, any::<u64>())
        .prop_map(|(w, h, seed, pool, n, order)| Marathon { w, h, seed, pool, n, order })
}

fn endures(t: &Marathon, cx: &mut Cx) -> Res {
    let pool: Vec<Call> = t.pool.iter().map(|&(k, v)| one_of(t.w, t.h, t.seed, k, v)).collect();
    let base = alone(&pool.iter().collect::<Vec<_>>());
    let want: Vec<&String> = pool.iter().map(|c| &base[&serde_json::to_string(c).unwrap()]).collect();
    cx.nontrivial = t.n > 1;
    cx.label_if(t.n > 65_536, "over 65536 calls");
    let got = fresh(|| {
        let mut m = Mix::new(t.order);
        for i in 0..t.n {
            if spent() > BUDGET {
                break;
            }
            let k = m.below(pool.len());
            let g = perform(&pool[k]);
            if g != *want[k] || g.starts_with("an invalid") {
                return vec![format!("call {i} of {}, {}, returns {}, but as the first call of a process it returns {}", t.n, short(&format!("{:?}", pool[k])), short(&g), short(want[k]))];
            }
        }
        Vec::new()
    });
    match got {
        Ok(v) if v.is_empty() => Ok(()),
        Ok(v) => Err(v[0].clone()),
        Err(e) => {
            ensure!(base.values().any(|v| *v == e), "{e} within {} calls, though no call of them does that alone", t.n);
            cx.discarded = true;
            Ok(())
        }
    }
}

fn fewer_in_marathon(t: &Marathon) -> Vec<Marathon> {
    let mut out = Vec::new();
    for n in [t.n / 2, t.n * 3 / 4, t.n.saturating_sub(1)] {
        if n > 0 && n < t.n {
            out.push(Marathon { n, ..t.clone() });
        }
    }
    for i in 0..t.pool.len() {
        if t.pool.len() > 1 {
            let mut k = t.clone();
            k.pool.remove(i);
            out.push(k);
        }
    }
    out
}

fn short(s: &str) -> String {
    s.chars().take(300).collect()
}

fn sequence(calls: &Vec<Call>, cx: &mut Cx) -> Res {
    let base = alone(&calls.iter().collect::<Vec<_>>());
    cx.nontrivial = base.len() > 1 && calls.len() > 1;
    cx.label_if(calls.len() > base.len(), "repeats a call");
    cx.label_if(base.values().any(|v| v.starts_with("Err")), "with refused calls");
    let elsewhere = calls.len() % 3 == 2;
    cx.label_if(elsewhere, "in another directory and environment");
    let got = match fresh(|| {
        if elsewhere {
            surroundings();
        }
        calls.iter().take_while(|_| spent() < BUDGET).map(perform).collect()
    }) {
        Ok(v) => v,
        Err(e) => {
            // Crashes that a call causes on its own are judged by other properties.
            ensure!(base.values().any(|v| *v == e), "{e} in the sequence, though no call of it does that alone");
            cx.discarded = true;
            return Ok(());
        }
    };
    for (i, (c, g)) in calls.iter().zip(&got).enumerate() {
        let want = &base[&serde_json::to_string(c).unwrap()];
        let maze = matches!(c, Call::CreateMaze(..));
        ensure!(!maze || !g.starts_with("an invalid"), "call {i}, {}, makes {g}", short(&format!("{c:?}")));
        ensure!(g == want, "call {i}, {}, returns {}, but as the first call of a process it returns {}", short(&format!("{c:?}")), short(g), short(want));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    calls: Vec<Vec<Call>>,
    rounds: usize,
}

fn concurrent(t: &Threads, cx: &mut Cx) -> Res {
    let all: Vec<&Call> = t.calls.iter().flatten().collect();
    let base = alone(&all);
    let busy = t.calls.iter().filter(|c| !c.is_empty()).count();
    cx.nontrivial = busy > 1 && base.len() > 1;
    cx.label_if(base.len() < all.len(), "shares calls");
    let expected: Vec<Vec<&String>> =
        t.calls.iter().map(|l| l.iter().map(|c| &base[&serde_json::to_string(c).unwrap()]).collect()).collect();
    let got = fresh(|| {
        let gate = Barrier::new(t.calls.len());
        let found: Vec<Option<String>> = std::thread::scope(|s| {
            let handles: Vec<_> = t
                .calls
                .iter()
                .zip(&expected)
                .enumerate()
                .map(|(k, (l, want))| {
                    let gate = &gate;
                    s.spawn(move || {
                        let mut bad = None;
                        for round in 0..t.rounds {
                            // In the second half of the rounds the threads also give way where they allocate.
                            if round == t.rounds / 2 {
                                crate::alloc::give_way(k as u64 * 0x9E37_79B9 + t.calls.len() as u64);
                            }
                            gate.wait();
                            for (c, w) in l.iter().zip(want) {
                                let g = perform(c);
                                if bad.is_none() && (g != **w || g.starts_with("an invalid")) {
                                    bad = Some(format!(
                                        "thread {k}, round {round}: {} returns {}, but alone it returns {}",
                                        short(&format!("{c:?}")),
                                        short(&g),
                                        short(w)
                                    ));
                                }
                            }
                        }
                        bad
                    })
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap_or(None)).collect()
        });
        found.into_iter().flatten().collect()
    });
    match got {
        Ok(v) if v.is_empty() => Ok(()),
        Ok(v) => Err(v[0].clone()),
        Err(e) => {
            ensure!(base.values().any(|v| *v == e), "{e} with {busy} threads at work, though no call does that alone");
            cx.discarded = true;
            Ok(())
        }
    }
}

fn threads(size: usize, rounds: usize) -> impl Strategy<Value = Threads> {
    // One pool for all threads, so that they do nearly the same at the same time.
    (2usize..5, calls(6, 0..12, size, 2..25)).prop_map(move |(n, all)| {
        let mut calls = vec![Vec::new(); n];
        for (i, c) in all.into_iter().enumerate() {
            calls[i % n].push(c);
        }
        Threads { calls, rounds }
    })
}

/// Many different calls of one kind, in two orders.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    w: usize,
    h: usize,
    kinds: Vec<u8>,
    seeds: Vec<u64>,
    order: u64,
}

fn crowd(size: usize, n: std::ops::Range<usize>) -> impl Strategy<Value = Crowd> {
    let kinds = prop_oneof![2 => (0u8..9).prop_map(|k| vec![k]), 1 => (10u8..12).prop_map(|k| vec![k]), 1 => prop::collection::vec(0u8..12, 2..4)];
    (1..=size, 1..=size, kinds, n, any::<u64>(), any::<u64>()).prop_map(|(w, h, kinds, n, seed, order)| {
        let mut m = Mix::new(seed);
        let seeds = (0..n).map(|_| m.next()).collect();
        Crowd { w, h, kinds, seeds, order }
    })
}

fn in_any_order(t: &Crowd, cx: &mut Cx) -> Res {
    let calls: Vec<Call> = t
        .seeds
        .iter()
        .map(|&s| one_of(t.w, t.h, s, t.kinds[(s >> 8) as usize % t.kinds.len()], if s % 4 == 0 { 3 } else { 0 }))
        .collect();
    cx.nontrivial = calls.len() > 1;
    cx.label_if(calls.len() > 300, "over 300 different calls");
    let run = |order: &[usize]| -> Result<Vec<String>, String> {
        fresh(|| {
            let mut out = vec![String::new(); calls.len()];
            for &i in order {
                if spent() > BUDGET {
                    break;
                }
                let g = perform(&calls[i]);
                if out[i].is_empty() {
                    out[i] = g;
                } else if out[i] != g {
                    out[i] = format!("first {}, later {}", short(&out[i]), short(&g));
                }
            }
            out
        })
    };
    let there: Vec<usize> = (0..calls.len()).collect();
    // In another order, and then some of them again.
    let mut m = Mix::new(t.order);
    let mut back = there.clone();
    m.shuffle(&mut back);
    let again: Vec<usize> = (0..calls.len() / 2).map(|_| back[m.below(back.len())]).collect();
    back.extend(again);
    let (a, b) = match (run(&there), run(&back)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(a), Err(b)) if a == b => {
            cx.discarded = true;
            return Ok(());
        }
        (a, b) => return Err(format!("in one order the calls end with {:?}, in another one with {:?}", a.err(), b.err())),
    };
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        let call = || short(&format!("{:?}", calls[i]));
        ensure!(!x.starts_with("an invalid"), "{} makes {x}", call());
        if x.is_empty() || y.is_empty() {
            // Not reached in time.
            continue;
        }
        ensure!(x == y, "{} returns {} after {i} other calls, but {} when they are made in another order", call(), short(x), short(y));
        // A sample against fresh processes.
        if i % 97 == 0 {
            let alone = alone(&[&calls[i]]);
            let want = alone.values().next().unwrap();
            ensure!(x == want, "{} returns {} after {i} other calls, but as the first call of a process it returns {}", call(), short(x), short(want));
        }
    }
    Ok(())
}

fn fewer_in_crowd(t: &Crowd) -> Vec<Crowd> {
    let mut out = Vec::new();
    let mut n = t.seeds.len() / 2;
    while n > 0 && out.len() < 200 {
        for i in (0..t.seeds.len()).step_by(n) {
            let mut k = t.clone();
            k.seeds.drain(i..(i + n).min(t.seeds.len()));
            if k.seeds.len() > 1 {
                out.push(k);
            }
        }
        n /= 2;
    }
    out
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        assumptions: &["a forked child that has made no call stands for a fresh process"],
        suites: vec![
            Suite::random("mixed", "up to 24 calls out of a pool of up to six, on puzzles of one size and a few nearby ones; non-trivial: two different calls and more", 2_400, 80_000, |_| calls(6, 0..12, 6, 1..25), sequence).with_shrink(fewer_calls),
            Suite::random("one kind", "up to 30 calls of one or two functions", 2_400, 80_000, |_| (0u8..12).prop_flat_map(|k| calls(4, k..(k + 2).min(12), 6, 1..31)), sequence).with_shrink(fewer_calls),
            Suite::random("larger", "up to 24 calls that parse clues, print, make mazes or export, on puzzles of up to 40 x 40", 800, 24_000, |_| prop_oneof![calls(4, 4..5, 40, 1..25), calls(6, 7..12, 40, 1..25)], sequence).with_shrink(fewer_calls),
            Suite::random("many different", "100 to 1500 different calls of one kind or up to three, on puzzles of one size, in two orders", 96, 2_400, |_| prop_oneof![1 => crowd(3, 100..1_500), 2 => crowd(6, 100..1_500), 1 => crowd(12, 100..400)], in_any_order).with_shrink(fewer_in_crowd).batches(),
            Suite::random("long", "300 to 1200 cheap calls (parsing, solving, small images)", 96, 2_400, |_| prop_oneof![calls(4, 0..3, 5, 300..1_200), calls(4, 4..7, 5, 300..1_200), calls(5, 9..12, 5, 300..1_200)], sequence).with_shrink(fewer_calls),
            Suite::random("very long", "66000 to 80000 calls of the cheapest kinds, or 3000 to 8000 of any, out of a pool of up to three", 48, 800, |_| prop_oneof![
                2 => marathon(0..1, 3, 66_000..80_000),
                2 => marathon(4..7, 3, 66_000..80_000),
                1 => marathon(9..10, 3, 66_000..80_000),
                1 => marathon(0..3, 4, 3_000..8_000),
                1 => marathon(7..9, 1, 3_000..4_000),
                1 => marathon(3..4, 4, 3_000..4_000),
                2 => marathon(9..12, 3, 3_000..8_000),
            ], endures).with_shrink(fewer_in_marathon).batches(),
        ],
    }
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        assumptions: &[
            "a forked child that has made no call stands for a fresh process",
            "schedules are those the operating system produces on this many cores: threads start together and repeat their calls; in the second half of the rounds they also give way at random when they allocate or free memory; no schedule is forced",
        ],
        suites: vec![
            Suite::random("threads", "two to four threads with up to 24 calls in all out of a pool of up to six, repeated; non-trivial: two busy threads and two different calls", 800, 24_000, |_| threads(6, 6), concurrent).with_shrink(fewer_in_threads),
            Suite::random("many different", "two to four threads with up to 60 calls in all out of a pool of up to 60", 200, 6_000, |_| (2usize..5, 0u8..12, 2u8..6).prop_flat_map(|(n, k, kinds)| calls(60, k..(k + kinds).min(12), 6, 20..61).prop_map(move |all| {
                let mut calls = vec![Vec::new(); n];
                for (i, c) in all.into_iter().enumerate() {
                    calls[i % n].push(c);
                }
                Threads { calls, rounds: 4 }
            })), concurrent).with_shrink(fewer_in_threads),
            Suite::random("same function", "two to four threads calling one or two functions", 800, 24_000, |_| (0u8..12, 2usize..5).prop_flat_map(|(k, n)| calls(4, k..(k + 2).min(12), 6, 2..25).prop_map(move |all| {
                let mut calls = vec![Vec::new(); n];
                for (i, c) in all.into_iter().enumerate() {
                    calls[i % n].push(c);
                }
                Threads { calls, rounds: 8 }
            })), concurrent).with_shrink(fewer_in_threads),
            Suite::random("larger", "two to eight threads that parse clues, print, make mazes or export, on puzzles of up to 24 x 24", 400, 12_000, |_| (4u8..12, 2usize..9).prop_flat_map(|(k, n)| {
                let k = if k < 7 && k > 4 { 7 } else { k };
                calls(5, k..(k + if k == 4 { 1 } else { 3 }).min(12), 24, 2..33).prop_map(move |all| {
                    let mut calls = vec![Vec::new(); n];
                    for (i, c) in all.into_iter().enumerate() {
                        calls[i % n].push(c);
                    }
                    Threads { calls, rounds: 8 }
                })
            }), concurrent).with_shrink(fewer_in_threads),
        ],
    }
}
