//! Whole pipelines (S07, M09), large mazes (M10), messages of errors (E01).
use super::maze::{made, sizes, Made, Size};
use super::nonogram::Puzzle;
use super::sudoku::subset;
use crate::driver::{guard, seeded, Cx, Property, Res, Suite};
use crate::ensure;
use crate::oracle::{nonogram as nonogram_model, render, sudoku as sudoku_model, Mix};
use image::{ImageFormat, Rgb};
use proptest::prelude::*;
use puzzle_utils as api;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

/// To PNG and back.
fn through_png(img: &api::RgbBuffer) -> Result<api::RgbBuffer, String> {
    let png = guard("image_to_png_bytes", || api::image_to_png_bytes(img))?.map_err(|e| format!("export: {e}"))?;
    Ok(image::load_from_memory_with_format(&png, ImageFormat::Png).map_err(|e| format!("the exported image does not decode: {e}"))?.to_rgb8())
}

// ------------------------------------------------------------------ S07

fn sudoku_pipeline(p: &Vec<u8>, cx: &mut Cx) -> Res {
    let (v, _, nodes) = sudoku_model::solve(p, 1, 30_000);
    if nodes > 30_000 || v != sudoku_model::Verdict::Solvable {
        cx.discarded = true;
        return Ok(());
    }
    cx.nontrivial = p.contains(&0);
    let text: String = p.iter().map(|d| (b'0' + d) as char).collect();
    let read = guard("parse_sudoku", || api::parse_sudoku(&text))?.map_err(|e| format!("parsing {text}: {e:?}"))?;
    let answer = guard("solve_sudoku", || api::solve_sudoku(&read))?.map_err(|e| format!("solving {text}: {e:?}"))?;
    if let Some(e) = sudoku_model::completion_error(p, &answer) {
        return Err(format!("{text}: the answer {answer:?} is wrong: {e}"));
    }
    for (what, board) in [("puzzle", &read), ("answer", &answer)] {
        let img = guard("print_sudoku", || api::print_sudoku(board))?.map_err(|e| format!("printing the {what} of {text}: {e:?}"))?;
        let shown = render::read_sudoku(&through_png(&img)?);
        if what == "puzzle" {
            ensure!(shown == *p, "the image of the puzzle {text} reads {shown:?}");
        } else if let Some(e) = sudoku_model::completion_error(p, &shown) {
            return Err(format!("{text}: the image of the answer reads {shown:?}: {e}"));
        }
    }
    Ok(())
}

pub fn s07() -> Property {
    Property {
        id: "S07",
        assumptions: &["puzzles on which the independent solver needs more than 30000 nodes are not judged", "images are read by the best-matching digit per cell"],
        suites: vec![
            Suite::random("subset", "givens taken from a random complete grid; non-trivial: at least one open cell", 2_000, 60_000, |_| subset(), sudoku_pipeline).with_shrink(super::sudoku::fewer_givens),
        ],
    }
}

// ------------------------------------------------------------------ M09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sheet {
    size: Size,
    /// 0 no saving, 1 JSON, 2 CBOR, 3 bincode
    format: u8,
}

fn sheets() -> impl Strategy<Value = Sheet> {
    (sizes(20), 0u8..4).prop_map(|(size, format)| Sheet { size, format })
}

fn saved(m: &Made, format: u8) -> Result<(Vec<api::MazeNode>, Vec<api::MazeDirection>), String> {
    let both = (&m.nodes, &m.solution);
    match format % 4 {
        1 => {
            let t = serde_json::to_string(&both).map_err(|e| e.to_string())?;
            serde_json::from_str(&t).map_err(|e| e.to_string())
        }
        2 => {
            let mut t = Vec::new();
            ciborium::into_writer(&both, &mut t).map_err(|e| e.to_string())?;
            ciborium::from_reader(&t[..]).map_err(|e| e.to_string())
        }
        _ => {
            let t = bincode::serialize(&both).map_err(|e| e.to_string())?;
            bincode::deserialize(&t).map_err(|e| e.to_string())
        }
    }
}

/// Pixels of one colour that are connected (edge to edge) with `from`.
fn flood(img: &api::RgbBuffer, from: (u32, u32), seen: &mut [bool]) -> usize {
    let (w, h) = img.dimensions();
    let colour = *img.get_pixel(from.0, from.1);
    let mut todo = VecDeque::from([from]);
    seen[(from.1 * w + from.0) as usize] = true;
    let mut n = 0;
    while let Some((x, y)) = todo.pop_front() {
        n += 1;
        for (dx, dy) in [(1i64, 0i64), (0, 1), (-1, 0), (0, -1)] {
            let (nx, ny) = (x as i64 + dx, y as i64 + dy);
            if nx < 0 || ny < 0 || nx >= w as i64 || ny >= h as i64 {
                continue;
            }
            let (nx, ny) = (nx as u32, ny as u32);
            let i = (ny * w + nx) as usize;
            if !seen[i] && *img.get_pixel(nx, ny) == colour {
                seen[i] = true;
                todo.push_back((nx, ny));
            }
        }
    }
    n
}

fn on_paper(s: &Sheet, cx: &mut Cx) -> Res {
    let m = made(&s.size)?;
    let (w, h) = (s.size.w as u32, s.size.h as u32);
    cx.nontrivial = w * h > 3;
    cx.label(["not saved", "JSON", "CBOR", "bincode"][s.format as usize % 4]);
    let what = |e: String| format!("{w} x {h} maze (seed {}, format {}): {e}", s.size.seed, s.format);
    let (nodes, solution) = if s.format % 4 == 0 {
        (m.nodes, m.solution)
    } else {
        guard("saving and restoring", || saved(&m, s.format))?.map_err(|e| what(format!("saving and restoring: {e}")))?
    };
    let sheet = guard("print_maze", || api::print_maze(w, h, &nodes))?.map_err(|e| what(format!("print_maze: {e:?}")))?;
    let blank = through_png(&sheet)?;
    let drawn = guard("print_maze_solution", || api::print_maze_solution(sheet, &solution))?.map_err(|e| what(format!("print_maze_solution: {e:?}")))?;
    judge_paper(&blank, &through_png(&drawn)?, w, h).map_err(what)
}

/// Only from the pictures: one way in, one way out, everything reachable, no loops, and a line that leads out.
fn judge_paper(blank: &api::RgbBuffer, drawn: &api::RgbBuffer, w: u32, h: u32) -> Res {
    let (pw, ph) = (w * 10 + 1, h * 10 + 1);
    ensure!(blank.dimensions() == (pw, ph) && drawn.dimensions() == (pw, ph), "pictures of {:?} and {:?} pixels", blank.dimensions(), drawn.dimensions());
    let (black, white) = (render::BLACK, render::WHITE);
    ensure!(blank.pixels().all(|p| *p == black || *p == white), "colours other than black and white");
    let open = |edge: &str, len: u32, at: &dyn Fn(u32) -> Rgb<u8>| -> Result<Vec<u32>, String> {
        let gaps: Vec<u32> = (0..len).filter(|&k| at(k) == white).collect();
        // Each gap is the width of a corridor.
        let starts: Vec<u32> = gaps.iter().copied().filter(|&k| k == 0 || at(k - 1) == black).collect();
        for &k in &starts {
            ensure!(k % 10 == 1 && (k..k + 9).all(|j| j < len && at(j) == white) && (k + 9 >= len || at(k + 9) == black), "the {edge} edge has a gap at {k} that is not one cell wide");
        }
        Ok(starts)
    };
    let top = open("top", pw, &|k| *blank.get_pixel(k, 0))?;
    let bottom = open("bottom", pw, &|k| *blank.get_pixel(k, ph - 1))?;
    let left = open("left", ph, &|k| *blank.get_pixel(0, k))?;
    let right = open("right", ph, &|k| *blank.get_pixel(pw - 1, k))?;
    ensure!(top == [1], "the top edge is open at {top:?}");
    ensure!(bottom.len() == 1, "the bottom edge is open at {bottom:?}");
    ensure!(left.is_empty() && right.is_empty(), "the left edge is open at {left:?}, the right one at {right:?}");
    let mut seen = vec![false; (pw * ph) as usize];
    let reached = flood(blank, (5, 0), &mut seen);
    let all = blank.pixels().filter(|p| **p == white).count();
    ensure!(reached == all, "{reached} of {all} white pixels can be reached from the entrance");
    // No loops: the walls hang together in two pieces, left and right of the way through.
    let mut pieces = 0;
    for y in 0..ph {
        for x in 0..pw {
            if !seen[(y * pw + x) as usize] {
                flood(blank, (x, y), &mut seen);
                pieces += 1;
            }
        }
    }
    ensure!(pieces == 2, "the walls are in {pieces} pieces, not in two");
    // The line.
    let red = render::RED;
    let mut n = 0;
    for (x, y, p) in drawn.enumerate_pixels() {
        let q = blank.get_pixel(x, y);
        if *p == red {
            n += 1;
            ensure!(*q == white, "the line crosses a wall at ({x}, {y})");
            let near = [(1i64, 0i64), (0, 1), (-1, 0), (0, -1)]
                .iter()
                .filter(|(dx, dy)| {
                    let (nx, ny) = (x as i64 + dx, y as i64 + dy);
                    nx >= 0 && ny >= 0 && nx < pw as i64 && ny < ph as i64 && *drawn.get_pixel(nx as u32, ny as u32) == red
                })
                .count();
            let end = (x, y) == (5, 0) || (x, y) == (bottom[0] + 4, ph - 1);
            ensure!(near == if end { 1 } else { 2 }, "the line has {near} neighbours at ({x}, {y})");
        } else {
            ensure!(p == q, "drawing the line changes pixel ({x}, {y}) from {q:?} to {p:?}");
        }
    }
    ensure!(*drawn.get_pixel(5, 0) == red, "the line does not begin at the entrance");
    ensure!(*drawn.get_pixel(bottom[0] + 4, ph - 1) == red, "the line does not end at the exit");
    let mut seen = vec![false; (pw * ph) as usize];
    let run = flood(drawn, (5, 0), &mut seen);
    ensure!(run == n, "{run} of {n} pixels of the line hang together with its beginning");
    Ok(())
}

pub fn m09() -> Property {
    Property {
        id: "M09",
        assumptions: &["thread_rng takes its entropy from getrandom 0.2, which the harness replaces by a seeded stream"],
        suites: vec![
            Suite::random("sheets", "mazes of 1 x 1 to 20 x 20 cells, single rows and columns up to 40, kept or saved in one of three formats; non-trivial: four cells and more", 6_000, 200_000, |_| sheets(), on_paper),
            Suite::random("large", "mazes of up to 90 x 90 and 900 x 9 cells", 64, 2_000, |_| (prop_oneof![(40usize..90, 40usize..90), (300usize..900, 1usize..10), (1usize..10, 300usize..900)], any::<u64>(), 0u8..4).prop_map(|((w, h), seed, format)| Sheet { size: Size { w, h, seed }, format }), on_paper).batches(),
        ],
    }
}

// ------------------------------------------------------------------ M10

/// Processor time of the calling thread in seconds.
fn thread_seconds() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
}

/// Many times what the work takes.
fn limit(units: usize) -> f64 {
    3.0 + units as f64 * 20e-6
}

fn giant(s: &Size, cx: &mut Cx) -> Res {
    let (w, h) = (s.w, s.h);
    cx.nontrivial = w * h >= 100_000;
    cx.label_if(w * h >= 1_000_000, "a million cells and more");
    let what = format!("create_maze({w}, {h})");
    // A new thread with the usual stack of 2 MiB.
    let (n, moves, end, time) = seeded(&what, s.seed, || {
        let t = thread_seconds();
        let (nodes, solution) = api::create_maze(w, h, api::MazeAlgorithm::RecursiveBacktrack);
        let time = thread_seconds() - t;
        let (mut x, mut y) = (0i64, 0i64);
        for d in solution.iter().rev() {
            match d {
                api::MazeDirection::Up => y -= 1,
                api::MazeDirection::Down => y += 1,
                api::MazeDirection::Right => x += 1,
                api::MazeDirection::Left => x -= 1,
            }
        }
        (nodes.len(), solution.len(), (x, y), time)
    })?;
    ensure!(n == w * h, "{what} returns {n} cells");
    ensure!(moves < n && end.1 == h as i64 - 1 && (0..w as i64).contains(&end.0), "{what}: the solution of {moves} moves ends at {end:?}");
    ensure!(time <= limit(n), "{what} computes for {time:.1} s");
    Ok(())
}

fn giant_sheet(s: &Size, cx: &mut Cx) -> Res {
    let (w, h) = (s.w as u32, s.h as u32);
    cx.nontrivial = w * h >= 10_000;
    let what = format!("printing a maze of {w} x {h} cells");
    seeded(&what, s.seed, || -> Res {
        let (nodes, solution) = api::create_maze(s.w, s.h, api::MazeAlgorithm::RecursiveBacktrack);
        let t = thread_seconds();
        let img = api::print_maze(w, h, &nodes).map_err(|e| format!("{what}: {e:?}"))?;
        let img = api::print_maze_solution(img, &solution).map_err(|e| format!("{what}: {e:?}"))?;
        let png = api::image_to_png_bytes(&img).map_err(|e| format!("{what}: {e}"))?;
        let time = thread_seconds() - t;
        ensure!(img.dimensions() == (w * 10 + 1, h * 10 + 1), "{what}: {:?} pixels", img.dimensions());
        ensure!(png.len() > 57, "{what}: a PNG of {} bytes", png.len());
        ensure!(time <= limit(s.w * s.h * 100 / 5), "{what} computes for {time:.1} s");
        Ok(())
    })?
}

pub fn m10() -> Property {
    let big = |quick: bool| {
        let k = if quick { 1usize } else { 2 };
        (
            prop_oneof![
                3 => (300 * k..1_200 * k, 300 * k..1_200 * k),
                1 => (1usize..4, 300_000..1_000_000 * k),
                1 => (300_000..1_000_000 * k, 1usize..4),
                1 => (1_500 * k..5_000 * k, 50usize..200),
                1 => (50usize..200, 1_500 * k..5_000 * k),
            ],
            any::<u64>(),
        )
            .prop_map(|((w, h), seed)| Size { w, h, seed })
    };
    let sheet = (
        prop_oneof![
            2 => (100usize..420, 100usize..420),
            1 => (1usize..10, 1_000usize..9_000),
            1 => (1_000usize..9_000, 1usize..10),
        ],
        any::<u64>(),
    )
        .prop_map(|((w, h), seed)| Size { w, h, seed });
    Property {
        id: "M10",
        assumptions: &["the bounds are 3 s and 20 microseconds per cell (creating) or 400 (printing, drawing and export): over twenty times what the work takes here"],
        suites: vec![
            Suite::random("create", "90000 to several million cells, squares, single rows and columns and stripes, on a thread with the usual 2 MiB of stack; non-trivial: 100000 cells and more", 48, 480, move |t| big(t == crate::driver::Tier::Quick), giant).batches(),
            Suite::random("print", "up to 419 x 419, 9000 x 9 and 9 x 9000 cells printed, solved and exported; non-trivial: 10000 cells and more", 48, 480, move |_| sheet.clone(), giant_sheet).batches(),
        ],
    }
}

// ------------------------------------------------------------------ S08, N08

/// The result and the least processor time of three calls, or of one that keeps to the limit.
fn timed<T>(what: &str, limit: f64, f: impl Fn() -> T) -> Result<(T, f64), String> {
    let mut least = f64::MAX;
    for _ in 0..2 {
        let (r, time) = guard(what, || {
            let t = thread_seconds();
            let r = f();
            (r, thread_seconds() - t)
        })?;
        least = least.min(time);
        if least <= limit {
            return Ok((r, least));
        }
    }
    let t = thread_seconds();
    let r = guard(what, f)?;
    Ok((r, least.min(thread_seconds() - t)))
}

fn pace(seconds: f64, cx: &mut Cx) {
    cx.label(match seconds {
        s if s < 0.001 => "under 1 ms",
        s if s < 0.01 => "1 to 10 ms",
        s if s < 0.1 => "10 to 100 ms",
        s if s < 1.0 => "100 ms to 1 s",
        _ => "1 s and more",
    });
}

fn prompt_sudoku(p: &Vec<u8>, cx: &mut Cx) -> Res {
    let (v, _, nodes) = sudoku_model::solve(p, 1, 30_000);
    if nodes > 30_000 || v != sudoku_model::Verdict::Solvable {
        cx.discarded = true;
        return Ok(());
    }
    cx.nontrivial = p.iter().filter(|&&d| d != 0).count() < 40;
    let limit = 0.5 + nodes as f64 * 1e-4;
    let (r, time) = timed("solve_sudoku", limit, || api::solve_sudoku(p))?;
    pace(time, cx);
    ensure!(r.is_ok(), "a solvable puzzle is refused: {r:?}");
    ensure!(time <= limit, "solving computes for {time:.1} s, where {nodes} guesses are enough");
    Ok(())
}

pub fn s08() -> Property {
    Property {
        id: "S08",
        assumptions: &["the bound is half a second and 100 microseconds for each guess that the independent solver makes: some fifty times what the work takes here; processor time, the least of three calls"],
        suites: vec![
            Suite::random("minimal", "puzzles with one solution and (nearly) no superfluous given; non-trivial: under 40 givens", 6_000, 150_000, |_| super::sudoku::minimal(), prompt_sudoku).with_shrink(super::sudoku::fewer_givens),
            Suite::random("famous", "symmetric variants of hard published puzzles; non-trivial: as above", 6_000, 150_000, |_| super::sudoku::famous(), prompt_sudoku).with_shrink(super::sudoku::fewer_givens),
            Suite::random("subset", "givens taken from a random complete grid; non-trivial: as above", 6_000, 150_000, |_| subset(), prompt_sudoku).with_shrink(super::sudoku::fewer_givens),
        ],
    }
}

/// Pictures dense enough to be solved line by line.
fn solid() -> impl Strategy<Value = Puzzle> {
    let sides = prop_oneof![
        3 => (10usize..40, 10usize..40),
        2 => (40usize..100, 40usize..100),
        1 => (100usize..250, 2usize..12),
        1 => (2usize..12, 100usize..250),
    ];
    (sides, prop::sample::select(vec![0u8, 1, 2, 3, 4, 5, 2, 5]), 40u8..97, any::<u64>()).prop_map(|((w, h), style, density, seed)| {
        let g = nonogram_model::picture(w, h, style, density, seed);
        Puzzle { col: nonogram_model::col_clues(w, h, &g), row: nonogram_model::row_clues(w, h, &g) }
    })
}

fn prompt_nonogram(p: &Puzzle, cx: &mut Cx) -> Res {
    let (w, h) = (p.col.len(), p.row.len());
    let Some(passes) = nonogram_model::by_lines(&p.col, &p.row) else {
        cx.discarded = true;
        return Ok(());
    };
    cx.nontrivial = w * h >= 100;
    cx.label_if(passes > 4, "over 4 passes");
    cx.label_if(w * h >= 2_500, "2500 squares and more");
    let limit = 0.5 + (w * h * (passes + 1)) as f64 * 1e-4;
    let (r, time) = timed("solve_nonogram", limit, || api::solve_nonogram(&p.col, &p.row))?;
    pace(time, cx);
    ensure!(r.is_ok(), "a solvable puzzle of {w} x {h} squares is refused: {r:?}");
    ensure!(time <= limit, "solving {w} x {h} squares line by line computes for {time:.1} s");
    Ok(())
}

pub fn n08() -> Property {
    Property {
        id: "N08",
        assumptions: &["the bound is half a second and 100 microseconds for each square and pass: some twenty times what the work takes here; processor time, the least of three calls", "whether a puzzle can be solved line by line is decided by an independent implementation that compares leftmost and rightmost placements"],
        suites: vec![
            Suite::random("lines", "pictures of 10 x 10 to 100 x 100 and 249 x 11 squares whose clues an independent solver settles line by line, without guessing; non-trivial: 100 squares and more", 800, 20_000, |_| solid(), prompt_nonogram),
        ],
    }
}

// ------------------------------------------------------------------ E01

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    /// digits before, the character, digits after
    SudokuText(usize, char, usize),
    SudokuLength(usize),
    SudokuEntries(Vec<u8>),
    /// clue lines before, items before, the item, items and lines after
    NonogramItem(usize, usize, String, usize, usize),
}

fn bad() -> impl Strategy<Value = Bad> {
    let odd = || prop_oneof![2 => any::<char>(), 1 => prop::char::range(' ', '~'), 1 => prop::sample::select(vec!['\n', '\0', '`', '{', '}', '"', '\\', '٣', '🂱', '\u{301}', '\u{202e}'])].prop_filter("not a digit", |c| !c.is_ascii_digit());
    let item = prop_oneof![
        3 => prop::collection::vec(odd(), 1..12).prop_map(|v| v.into_iter().collect::<String>()),
        2 => prop::collection::vec(prop_oneof![odd().boxed(), prop::char::range('0', '9').boxed()], 1..300).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (21usize..400).prop_map(|n| "9".repeat(n)),
        1 => (1i64..1000).prop_map(|n| (-n).to_string()),
    ]
    .prop_map(|s| s.chars().filter(|c| !",;+".contains(*c)).collect::<String>());
    prop_oneof![
        3 => (0usize..100, odd(), 0usize..100).prop_map(|(a, c, b)| Bad::SudokuText(a, c, b)),
        1 => prop_oneof![4 => 0usize..400, 1 => 65_000usize..66_000].prop_map(Bad::SudokuLength),
        1 => prop::collection::vec(any::<u8>(), 0..400).prop_map(Bad::SudokuEntries),
        3 => (0usize..4, 0usize..4, item, 0usize..4, 0usize..4).prop_map(|(a, b, s, c, d)| Bad::NonogramItem(a, b, s, c, d)),
    ]
}

fn named<T: std::fmt::Debug, E: std::error::Error>(r: Result<T, E>, what: &str, part: &str) -> Res {
    match r {
        Ok(v) => Err(format!("{what} is accepted: {}", format!("{v:?}").chars().take(200).collect::<String>())),
        Err(e) => {
            let text = guard("the message", || e.to_string())?;
            ensure!(text.contains(part), "{what} is refused with the message {text:?}, which does not name {part:?}");
            ensure!(text.len() > part.len(), "{what} is refused with the message {text:?}, which says nothing else");
            Ok(())
        }
    }
}

fn message(b: &Bad, cx: &mut Cx) -> Res {
    cx.nontrivial = true;
    let digits = |n: usize| (0..n).map(|k| (b'1' + (k % 9) as u8) as char).collect::<String>();
    match b {
        Bad::SudokuText(before, c, after) => {
            cx.label("character in a sudoku");
            let text = format!("{}{c}{}", digits(*before), digits(*after));
            named(guard("parse_sudoku", || api::parse_sudoku(&text))?, &format!("sudoku text with {c:?} after {before} digits"), &c.to_string())
        }
        Bad::SudokuLength(n) => {
            if *n == 81 {
                cx.discarded = true;
                return Ok(());
            }
            cx.label("length of a sudoku");
            named(guard("parse_sudoku", || api::parse_sudoku(&digits(*n)))?, &format!("sudoku text of {n} digits"), &n.to_string())
        }
        Bad::SudokuEntries(p) => {
            if p.len() == 81 {
                cx.discarded = true;
                return Ok(());
            }
            cx.label("entries of a sudoku");
            let n = p.len().to_string();
            named(guard("solve_sudoku", || api::solve_sudoku(p))?, &format!("solving {n} entries"), &n)?;
            named(guard("print_sudoku", || api::print_sudoku(p).map(|_| ()))?, &format!("printing {n} entries"), &n)
        }
        Bad::NonogramItem(lines, items, item, more_items, more_lines) => {
            if item.parse::<u64>().is_ok() || item.starts_with('+') {
                cx.discarded = true;
                return Ok(());
            }
            cx.label("item of a nonogram");
            cx.label_if(item.is_empty(), "empty item");
            cx.label_if(item.len() > 30, "long item");
            let mut m = Mix::new(*items as u64);
            let mut list = |n: usize| (0..n).map(|_| (1 + m.below(5)).to_string()).collect::<Vec<_>>();
            let mut all = list(*lines);
            let mut line = list(*items);
            line.push(item.clone());
            line.extend(list(*more_items));
            all.push(line.join(","));
            all.extend(list(*more_lines));
            let text = all.join(";");
            named(guard("parse_nonogram_rules", || api::parse_nonogram_rules(&text, 1_000))?, &format!("clue text {text:?}"), item)
        }
    }
}

pub fn e01() -> Property {
    Property {
        id: "E01",
        assumptions: &["items with a leading plus sign are left out"],
        suites: vec![Suite::random("refused", "sudoku texts with one odd character or of another length, entries of another number, clue texts with one odd item of up to 400 characters; every case counts", 200_000, 6_000_000, |_| bad(), message)],
    }
}
