//! What calls cost: processor time and memory in line with the size of arguments and result (P01), and nothing
//! kept afterwards (R01).
use super::history::{one_of, perform, Call};
use crate::alloc::metered;
use crate::driver::{guard, seeded, Cx, Property, Res, Suite};
use crate::ensure;
use crate::oracle::{
    maze::{self as maze_model, Dir, Walls},
    nonogram as nonogram_model, Mix,
};
use image::{Rgb, RgbImage};
use proptest::prelude::*;
use puzzle_utils as api;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------ P01

/// One call. Sizes `asked` besides those of the data make it a call that is refused.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Work {
    /// Lines, items per line, digits per item, bound, an item that is no number near the start or the end.
    ParseNonogram { lines: u32, items: u32, digits: u8, bound: u64, odd: Option<bool>, seed: u64 },
    /// Characters, one that is no digit near the start or the end.
    ParseSudoku { len: u32, odd: Option<bool> },
    Board { w: u32, h: u32, items: u32, asked: Option<(u32, u32)>, seed: u64 },
    BoardSolution { w: u32, h: u32, density: u8, asked: Option<(u32, u32)>, seed: u64 },
    Create { w: u32, h: u32, seed: u64 },
    Maze { w: u32, h: u32, asked: Option<(u32, u32)>, seed: u64 },
    MazeSolution { w: u32, h: u32, moves: u32, bad: bool, seed: u64 },
    Png { w: u32, h: u32, texture: u8, seed: u64 },
    SolveSudoku { len: u32, seed: u64 },
    /// A picture that can be found line by line.
    SolveNonogram { w: u32, h: u32, style: u8, density: u8, seed: u64 },
}

fn work() -> impl Strategy<Value = Work> {
    let seed = any::<u64>;
    let odd = || prop::option::weighted(0.4, any::<bool>());
    let log = |max: f64| prop_oneof![2 => 0.0..max, 1 => max - 1.5..max].prop_map(|x: f64| x.exp2() as u32);
    // Width and height of so many cells.
    let sides = move |max: f64| {
        (log(max), 0.0..1.0f64, prop::bool::weighted(0.7)).prop_map(move |(area, slant, square)| {
            let area = area.max(1) as f64;
            let w = if square { area.sqrt() * (0.5 + slant) } else { area.powf(slant) };
            let w = (w as u32).clamp(1, area as u32);
            (w, (area as u32 / w).max(1))
        })
    };
    let asked = || {
        prop::option::weighted(
            0.3,
            prop_oneof![
                (any::<u32>(), any::<u32>()),
                (500u32..20_000, 500u32..20_000),
                (Just(u32::MAX), 0u32..3),
                (0u32..3, Just(u32::MAX)),
                (200u32..3_000, 200u32..3_000),
            ],
        )
    };
    prop_oneof![
        2 => (log(18.0), log(18.0), 1u8..21, prop_oneof![Just(u64::MAX), 0u64..1000, any::<u64>()], odd(), seed()).prop_map(|(lines, items, digits, bound, odd, seed)| {
            let items = items.min(300_000 / lines.max(1)).max(1);
            Work::ParseNonogram { lines, items, digits, bound, odd, seed }
        }),
        1 => (log(21.0), odd()).prop_map(|(len, odd)| Work::ParseSudoku { len, odd }),
        2 => (sides(11.5), log(9.0), asked(), seed()).prop_map(|((w, h), items, asked, seed)| {
            let items = items.min(30_000 / (w + h)).max(1);
            // The margins grow with the other side.
            Work::Board { w, h, items, asked, seed }
        }),
        2 => (sides(12.0), 0u8..101, asked(), seed()).prop_map(|((w, h), density, asked, seed)| Work::BoardSolution { w, h, density, asked, seed }),
        1 => (sides(18.5), seed()).prop_map(|((w, h), seed)| Work::Create { w, h, seed }),
        2 => (sides(16.5), asked(), seed()).prop_map(|((w, h), asked, seed)| Work::Maze { w, h, asked, seed }),
        2 => (sides(16.0), log(20.0), prop::bool::weighted(0.3), seed()).prop_map(|((w, h), moves, bad, seed)| Work::MazeSolution { w, h, moves, bad, seed }),
        2 => (sides(22.5), 0u8..5, seed()).prop_map(|((w, h), texture, seed)| Work::Png { w, h, texture, seed }),
        1 => (prop_oneof![4 => Just(81u32), 1 => log(21.0)], seed()).prop_map(|(len, seed)| Work::SolveSudoku { len, seed }),
        1 => (sides(12.0), prop::sample::select(vec![0u8, 1, 2, 3, 4, 5]), 40u8..97, seed()).prop_map(|((w, h), style, density, seed)| Work::SolveNonogram { w, h, style, density, seed }),
    ]
}

/// What a call may cost: processor seconds (if that is bounded) and bytes at the same time.
struct Bound {
    seconds: Option<f64>,
    bytes: f64,
}

fn thread_seconds() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// Makes the call on arguments that `arguments` makes, up to three times while it takes too long. Says whether it
/// was refused.
fn judge<A, T, E: std::fmt::Debug>(what: &str, b: Bound, arguments: impl Fn() -> A, call: impl Fn(A) -> Result<T, E>) -> Result<bool, String> {
    let mut least = f64::MAX;
    for _ in 0..3 {
        let a = arguments();
        let (time, peak, refused) = guard(what, || {
            let t = thread_seconds();
            let (r, peak, _) = metered(|| call(a));
            (thread_seconds() - t, peak, r.is_err())
        })?;
        if std::env::var_os("VERIF_CALIBRATE").is_some() {
            { use std::io::Write; let _ = writeln!(std::fs::OpenOptions::new().append(true).create(true).open("/tmp/cost.log").unwrap(), "COST {} {:.3} {:.3}", what.split_whitespace().next().unwrap_or(""), b.seconds.map_or(0.0, |s| time / s), peak as f64 / b.bytes);}
        }
        ensure!(peak as f64 <= b.bytes, "{what} takes {peak} bytes, where {:.0} are plenty{}", b.bytes, if refused { ", and is refused" } else { "" });
        least = least.min(time);
        if b.seconds.map_or(true, |s| least <= s) {
            return Ok(refused);
        }
    }
    Err(format!("{what} computes for {least:.2} s, where {:.2} are plenty", b.seconds.unwrap_or(0.0)))
}

fn pixels(w: u32, h: u32) -> f64 {
    let side = |n: u32| n as f64 * 50.0 + (n as f64 * 10.0).max(150.0);
    side(w) * side(h)
}

/// Memory that any call may take, whatever it is given.
const SPARE: f64 = 2e6;

fn costs(t: &Work, cx: &mut Cx) -> Res {
    let refused = match *t {
        Work::ParseNonogram { lines, items, digits, bound, odd, seed } => {
            let mut m = Mix::new(seed);
            let mut all: Vec<Vec<String>> = (0..lines.max(1))
                .map(|_| (0..items.max(1)).map(|_| (0..1 + m.below(digits as usize)).map(|_| (b'0' + m.below(10) as u8) as char).collect()).collect())
                .collect();
            match odd {
                Some(false) => all[0][0] = "x".repeat(1 + m.below(3)),
                Some(true) => *all.last_mut().unwrap().last_mut().unwrap() = "x".repeat(1 + m.below(3)),
                None => (),
            }
            let text = all.iter().map(|l| l.join(",")).collect::<Vec<_>>().join(";");
            let n = text.len() as f64;
            cx.nontrivial = n > 10_000.0;
            cx.label_if(n > 1e6, "text of 1 MB and more");
            let what = format!("parse_nonogram_rules on {n} bytes, {lines} lines of {items} items");
            judge(&what, Bound { seconds: Some(0.05 + n * 1e-6), bytes: SPARE + n * 400.0 }, || (), |()| api::parse_nonogram_rules(&text, bound as usize))?
        }
        Work::ParseSudoku { len, odd } => {
            let mut text: Vec<char> = (0..len).map(|i| (b'0' + (i % 10) as u8) as char).collect();
            if let (Some(end), false) = (odd, text.is_empty()) {
                let i = if end { text.len() - 1 } else { 0 };
                text[i] = '½';
            }
            let text: String = text.into_iter().collect();
            let n = text.len() as f64;
            cx.nontrivial = n > 10_000.0;
            cx.label_if(n > 1e6, "text of 1 MB and more");
            judge(&format!("parse_sudoku on {n} bytes"), Bound { seconds: Some(0.05 + n * 0.1e-6), bytes: SPARE + n * 100.0 }, || (), |()| api::parse_sudoku(&text))?
        }
        Work::Board { w, h, items, asked, seed } => {
            let mut m = Mix::new(seed);
            let mut clues = |n: u32| (0..n).map(|_| (0..items).map(|_| m.next() as usize >> m.below(64)).collect()).collect::<Vec<Vec<usize>>>();
            let (col, row) = (clues(w), clues(h));
            let characters: f64 = col.iter().chain(&row).flatten().map(|c| 3.0 + c.to_string().len() as f64).sum();
            let (aw, ah) = asked.unwrap_or((w, h));
            let size = if asked.is_none() { pixels(w, h) } else { 0.0 };
            cx.nontrivial = size > 1e6 || asked.is_some();
            cx.label_if(size > 1e7, "image of 10 megapixels and more");
            let b = Bound { seconds: Some(0.05 + size * 0.1e-6 + characters * 0.2e-3), bytes: SPARE + size * 16.0 + characters * 1000.0 };
            judge(&format!("print_nonogram of {w} x {h} cells asked for {aw} x {ah}, {items} items a line"), b, || (), |()| api::print_nonogram(aw, ah, &col, &row))?
        }
        Work::BoardSolution { w, h, density, asked, seed } => {
            let mut m = Mix::new(seed);
            let grid: Vec<bool> = (0..w as usize * h as usize).map(|_| m.below(100) < density as usize).collect();
            let side = |n: u32| n * 50 + (n * 10).max(150);
            let (aw, ah) = asked.unwrap_or((w, h));
            let size = pixels(w, h);
            cx.nontrivial = size > 1e6 || asked.is_some();
            cx.label_if(size > 1e7, "image of 10 megapixels and more");
            let b = Bound { seconds: Some(0.05 + size * 0.1e-6), bytes: SPARE + size * 16.0 };
            judge(&format!("print_nonogram_solution of {w} x {h} cells asked for {aw} x {ah}"), b, || RgbImage::new(side(w), side(h)), |i| api::print_nonogram_solution(aw, ah, i, &grid))?
        }
        Work::Create { w, h, seed } => {
            let n = w as f64 * h as f64;
            cx.nontrivial = n >= 10_000.0;
            cx.label_if(n > 1e5, "100000 cells and more");
            let b = Bound { seconds: Some(0.05 + n * 10e-6), bytes: SPARE + n * 600.0 };
            let what = format!("create_maze of {w} x {h} cells");
            seeded(&what, seed, || {
                judge(&what, b, || (), |()| Ok::<_, ()>(api::create_maze(w as usize, h as usize, api::MazeAlgorithm::RecursiveBacktrack)))
            })??
        }
        Work::Maze { w, h, asked, seed } => {
            let mut m = Mix::new(seed);
            let grid: Vec<Walls> = (0..w as usize * h as usize).map(|_| Walls { right: m.below(2) == 0, down: m.below(2) == 0 }).collect();
            let nodes = maze_model::nodes(&grid);
            let (aw, ah) = asked.unwrap_or((w, h));
            let n = if asked.is_none() { w as f64 * h as f64 } else { 0.0 };
            cx.nontrivial = n > 1000.0 || asked.is_some();
            cx.label_if(n > 20_000.0, "20000 cells and more");
            let b = Bound { seconds: Some(0.05 + n * 10e-6), bytes: SPARE + (n + (w + h) as f64) * 1600.0 };
            judge(&format!("print_maze of {w} x {h} cells asked for {aw} x {ah}"), b, || (), |()| api::print_maze(aw, ah, &nodes))?
        }
        Work::MazeSolution { w, h, moves, bad, seed } => {
            let mut m = Mix::new(seed);
            let (mut x, mut y) = (0i64, 0i64);
            let mut walk = Vec::new();
            while walk.len() < moves as usize {
                let d = Dir::ALL[m.below(4)];
                let (nx, ny) = d.step(x, y);
                if nx >= 0 && ny >= 0 && nx < w as i64 && ny < h as i64 {
                    walk.push(d);
                    (x, y) = (nx, ny);
                } else if w == 1 && h == 1 {
                    break;
                }
            }
            while y < h as i64 - 1 {
                walk.push(Dir::Down);
                y += 1;
            }
            if bad {
                // Through the upper border at some place.
                walk.insert(0, Dir::Up);
            }
            let list: Vec<_> = walk.iter().rev().map(|d| d.api()).collect();
            let size = (w * 10 + 1) as f64 * (h * 10 + 1) as f64;
            let n = list.len() as f64;
            cx.nontrivial = n > 1000.0;
            cx.label_if(n > 50_000.0, "50000 moves and more");
            let b = Bound { seconds: Some(0.05 + size * 0.02e-6 + n * 2e-6), bytes: SPARE + size * 16.0 + n * 200.0 };
            judge(&format!("print_maze_solution of {n} moves in {w} x {h} cells"), b, || RgbImage::new(w * 10 + 1, h * 10 + 1), |i| api::print_maze_solution(i, &list))?
        }
        Work::Png { w, h, texture, seed } => {
            let mut m = Mix::new(seed);
            let image = RgbImage::from_fn(w, h, |x, y| {
                let v = m.next();
                match texture {
                    0 => Rgb([v as u8, (v >> 8) as u8, (v >> 16) as u8]),
                    1 => Rgb([(v % 2) as u8 * 255; 3]),
                    2 => Rgb([(x / 10 + y / 10) as u8 % 2 * 255; 3]),
                    3 => Rgb([x as u8, y as u8, (x * y) as u8]),
                    _ => Rgb([255; 3]),
                }
            });
            let size = w as f64 * h as f64;
            cx.nontrivial = size > 10_000.0;
            cx.label_if(size > 1e6, "image of 1 megapixel and more");
            let b = Bound { seconds: Some(0.05 + size * 3e-6), bytes: SPARE * 4.0 + size * 60.0 };
            judge(&format!("image_to_png_bytes of {w} x {h} pixels, texture {texture}"), b, || (), |()| api::image_to_png_bytes(&image))?
        }
        Work::SolveSudoku { len, seed } => {
            let mut m = Mix::new(seed);
            let mut p = crate::oracle::sudoku::complete_grid(seed);
            for _ in 0..m.below(40) {
                p[m.below(81)] = 0;
            }
            let clash = seed % 4 == 0;
            if clash {
                p[seed as usize / 4 % 81] = 9;
            }
            p.resize(len as usize, 1);
            cx.nontrivial = true;
            let b = Bound { seconds: (len != 81).then_some(0.05 + len as f64 * 0.1e-6), bytes: SPARE * 4.0 + len as f64 * 16.0 };
            judge(&format!("solve_sudoku of {len} entries"), b, || (), |()| api::solve_sudoku(&p))?
        }
        Work::SolveNonogram { w, h, style, density, seed } => {
            let (w, h) = (w as usize, h as usize);
            let g = nonogram_model::picture(w, h, style, density, seed);
            let (col, row) = (nonogram_model::col_clues(w, h, &g), nonogram_model::row_clues(w, h, &g));
            if w.max(h) > 300 || nonogram_model::by_lines(&col, &row).is_none() {
                cx.discarded = true;
                return Ok(());
            }
            cx.nontrivial = w * h > 100;
            let b = Bound { seconds: None, bytes: SPARE + ((w + h) * (w + h)) as f64 * 400.0 };
            judge(&format!("solve_nonogram of {w} x {h} cells"), b, || (), |()| api::solve_nonogram(&col, &row))?
        }
    };
    cx.label(match t {
        Work::ParseNonogram { .. } => "parse_nonogram_rules",
        Work::ParseSudoku { .. } => "parse_sudoku",
        Work::Board { .. } => "print_nonogram",
        Work::BoardSolution { .. } => "print_nonogram_solution",
        Work::Create { .. } => "create_maze",
        Work::Maze { .. } => "print_maze",
        Work::MazeSolution { .. } => "print_maze_solution",
        Work::Png { .. } => "image_to_png_bytes",
        Work::SolveSudoku { .. } => "solve_sudoku",
        Work::SolveNonogram { .. } => "solve_nonogram",
    });
    cx.label_if(refused, "refused");
    Ok(())
}

/// Smaller sizes.
fn cheaper(t: &Work) -> Vec<Work> {
    let mut out = Vec::new();
    let v = serde_json::to_value(t).expect("work serialises");
    let (kind, fields) = v.as_object().and_then(|o| o.iter().next()).expect("one variant");
    for name in ["lines", "items", "digits", "len", "w", "h", "moves"] {
        let Some(n) = fields.get(name).and_then(|n| n.as_u64()) else { continue };
        for k in [n / 2, n * 3 / 4, n.saturating_sub(1)] {
            if k >= 1 && k < n {
                let mut f = fields.clone();
                f[name] = k.into();
                if let Ok(w) = serde_json::from_value(serde_json::json!({ kind.clone(): f })) {
                    out.push(w);
                }
            }
        }
    }
    out
}

pub fn p01() -> Property {
    Property {
        id: "P01",
        assumptions: &["the bounds are twenty times and more what the work takes here, plus 2 MB and 0.05 s; processor time, the least of three calls; memory allocated by the calling thread", "the time of the solvers is judged by S08 and N08"],
        suites: vec![
            Suite::random("calls", "texts of up to several million characters, boards and mazes of up to tens of megapixels, up to a million moves and 370000 cells, nonograms of up to 300 lines, and arguments that are refused; non-trivial: 1000 to 10000 characters, cells or moves and more, or refused sizes", 2_400, 60_000, |_| work(), costs)
                .with_shrink(cheaper),
        ],
    }
}

// ------------------------------------------------------------------ R01

/// The same kind of call on many different puzzles of one size.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Repeated {
    w: usize,
    h: usize,
    kind: u8,
    variant: u8,
    n: usize,
    seed: u64,
}

fn repeated(size: usize, kinds: std::ops::Range<u8>, n: std::ops::Range<usize>) -> impl Strategy<Value = Repeated> {
    (1..=size, 1..=size, kinds, 0u8..4, n, any::<u64>()).prop_map(|(w, h, kind, variant, n, seed)| Repeated { w, h, kind, variant, n, seed })
}

/// Bytes that are still allocated after so many calls, at three points in time.
fn keeps(t: &Repeated, cx: &mut Cx) -> Res {
    let mut m = Mix::new(t.seed);
    let calls: Vec<Call> = (0..t.n * 3).map(|_| one_of(t.w, t.h, m.next(), t.kind, t.variant)).collect();
    let mut refused = 0;
    let held = seeded("calls", t.seed, || {
        let ((), _, _) = metered(|| drop(perform(&calls[0])));
        let mut held = Vec::new();
        for part in calls.chunks(t.n) {
            let (bad, _, left) = metered(|| {
                let mut bad = 0;
                for c in part {
                    bad += usize::from(perform(c).starts_with("Err"));
                }
                bad
            });
            refused += bad;
            held.push(left);
        }
        held
    })?;
    cx.nontrivial = t.n >= 10;
    cx.label_if(refused > 0, "with refused calls");
    cx.label(match calls[0] {
        Call::ParseSudoku(..) => "parse_sudoku",
        Call::SolveSudoku(..) => "solve_sudoku",
        Call::PrintSudoku(..) => "print_sudoku",
        Call::ParseNonogram(..) => "parse_nonogram_rules",
        Call::SolveNonogram(..) => "solve_nonogram",
        Call::PrintNonogram(..) => "print_nonogram",
        Call::PrintNonogramSolution(..) => "print_nonogram_solution",
        Call::CreateMaze(..) => "create_maze",
        Call::PrintMaze(..) => "print_maze",
        Call::PrintMazeSolution(..) => "print_maze_solution",
        Call::Png(..) => "image_to_png_bytes",
    });
    // What grows from each part to the next grows for ever; a buffer kept for the next call does not.
    ensure!(
        held.iter().any(|&b| b <= 0),
        "of {} calls like {}, the first third leaves {} bytes allocated, the second one another {} and the last one another {}",
        t.n * 3,
        format!("{:?}", calls[0]).chars().take(200).collect::<String>(),
        held[0],
        held[1],
        held[2]
    );
    Ok(())
}

fn fewer_repeats(t: &Repeated) -> Vec<Repeated> {
    let mut out = Vec::new();
    for n in [t.n / 2, t.n - 1] {
        if n >= 1 && n < t.n {
            out.push(Repeated { n, ..t.clone() });
        }
    }
    for (w, h) in [(t.w / 2, t.h), (t.w, t.h / 2), (t.w - 1, t.h), (t.w, t.h - 1)] {
        if w >= 1 && h >= 1 && (w, h) != (t.w, t.h) {
            out.push(Repeated { w, h, ..t.clone() });
        }
    }
    out
}

pub fn r01() -> Property {
    Property {
        id: "R01",
        assumptions: &["memory allocated and freed by the calling thread; what does not grow over three equal parts of a sequence is a buffer, not a leak"],
        suites: vec![
            Suite::random("many calls", "three times 100 to 400 calls of one function on different puzzles of up to 6 x 6 (and sudokus), accepted and refused; non-trivial: three times ten calls and more", 800, 24_000, |_| prop_oneof![
                2 => repeated(6, 0..3, 100..400),
                1 => repeated(6, 3..4, 20..40),
                3 => repeated(6, 4..7, 100..400),
                1 => repeated(3, 7..9, 40..100),
                4 => repeated(6, 9..12, 100..400),
            ], keeps).with_shrink(fewer_repeats),
            Suite::random("larger", "three times 10 to 40 calls on puzzles of up to 40 x 40 (9 x 9 solved), accepted and refused; non-trivial: as above", 400, 12_000, |_| prop_oneof![
                1 => repeated(40, 4..5, 10..40),
                1 => repeated(9, 5..7, 10..40),
                1 => repeated(20, 7..9, 5..12),
                2 => repeated(40, 9..12, 10..40),
            ], keeps).with_shrink(fewer_repeats),
        ],
    }
}
