use crate::driver::{guard, Cx, Property, Res, Suite};
use crate::ensure;
use crate::oracle::{nonogram as model, render, Mix};
use image::Rgb;
use proptest::prelude::*;
use puzzle_utils::{
    parse_nonogram_rules, print_nonogram, print_nonogram_solution, solve_nonogram, NonogramError, RgbBuffer,
};
use serde::{Deserialize, Serialize};

const BUDGET: u64 = 200_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Puzzle {
    pub col: Vec<Vec<usize>>,
    pub row: Vec<Vec<usize>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Picture {
    pub w: usize,
    pub h: usize,
    pub g: Vec<bool>,
}

fn brief<T: std::fmt::Debug>(r: &T) -> String {
    let s = format!("{r:?}");
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "…"
    } else {
        s
    }
}

// ------------------------------------------------------------------ generators

/// Pictures up to `max` cells wide and high. Cells shrink to empty.
pub fn picture(max: usize) -> impl Strategy<Value = Picture> {
    let side = move || prop_oneof![1 => Just(1usize), 6 => 1..=max.min(6), 3 => 1..=max];
    (side(), side(), any::<u8>(), 5u8..96, any::<u64>(), prop::collection::vec(any::<bool>(), 0..4)).prop_map(
        |(w, h, style, density, seed, blank)| {
            let mut g = model::picture(w, h, style, density, seed);
            // Some blank or full lines.
            let mut m = Mix::new(seed ^ 0xB1A2);
            for b in blank {
                let full = m.below(3) == 0;
                if b {
                    let y = m.below(h);
                    (0..w).for_each(|x| g[y * w + x] = full);
                } else {
                    let x = m.below(w);
                    (0..h).for_each(|y| g[y * w + x] = full);
                }
            }
            Picture { w, h, g }
        },
    )
}

/// How a blank line is written: empty clue or a zero.
fn with_zeros(mut c: Vec<Vec<usize>>, mode: u8, seed: u64) -> Vec<Vec<usize>> {
    let mut m = Mix::new(seed);
    for l in &mut c {
        if l.is_empty() && (mode == 1 || mode == 2 && m.below(2) == 0) {
            l.push(0);
        }
    }
    c
}

fn clues(p: &Picture, mode: u8, seed: u64) -> Puzzle {
    Puzzle {
        col: with_zeros(model::col_clues(p.w, p.h, &p.g), mode, seed),
        row: with_zeros(model::row_clues(p.w, p.h, &p.g), mode, seed ^ 1),
    }
}

fn solvable(max: usize) -> impl Strategy<Value = Puzzle> {
    (picture(max), 0u8..3, any::<u64>()).prop_map(|(p, mode, seed)| clues(&p, mode, seed))
}

#[derive(Clone, Copy, Debug)]
enum Edit {
    /// exchange two lines of one direction
    Swap(bool, usize, usize),
    /// add one to an entry and take one from another line's entry
    Shift(bool, usize, usize),
    /// join two runs or split one
    Join(bool, usize),
    Split(bool, usize),
    Drop(bool, usize),
    Add(bool, usize, usize),
}

fn edit() -> impl Strategy<Value = Edit> {
    let b = any::<bool>;
    let i = || 0usize..12;
    prop_oneof![
        3 => (b(), i(), i()).prop_map(|(d, x, y)| Edit::Swap(d, x, y)),
        3 => (b(), i(), i()).prop_map(|(d, x, y)| Edit::Shift(d, x, y)),
        2 => (b(), i()).prop_map(|(d, x)| Edit::Join(d, x)),
        2 => (b(), i()).prop_map(|(d, x)| Edit::Split(d, x)),
        1 => (b(), i()).prop_map(|(d, x)| Edit::Drop(d, x)),
        1 => (b(), i(), 1usize..4).prop_map(|(d, x, n)| Edit::Add(d, x, n)),
    ]
}

fn perturb(p: &mut Puzzle, e: Edit) {
    let pick = |p: &mut Puzzle, d: bool| -> *mut Vec<Vec<usize>> { if d { &mut p.col } else { &mut p.row } };
    let (d, i) = match e {
        Edit::Swap(d, i, _) | Edit::Shift(d, i, _) | Edit::Join(d, i) | Edit::Split(d, i) | Edit::Drop(d, i) | Edit::Add(d, i, _) => (d, i),
    };
    // One of the two lists, borrowed through the match below.
    let lines: &mut Vec<Vec<usize>> = unsafe { &mut *pick(p, d) };
    let n = lines.len();
    if n == 0 {
        return;
    }
    let i = i % n;
    match e {
        Edit::Swap(_, _, j) => lines.swap(i, j % n),
        Edit::Shift(_, _, j) => {
            let j = j % n;
            if !lines[j].is_empty() && lines[j][0] > 1 {
                lines[j][0] -= 1;
                if lines[i].is_empty() {
                    lines[i].push(1);
                } else {
                    lines[i][0] += 1;
                }
            }
        }
        Edit::Join(..) => {
            if lines[i].len() > 1 {
                let x = lines[i].remove(1);
                lines[i][0] += x;
            }
        }
        Edit::Split(..) => {
            if let Some(&x) = lines[i].first() {
                if x > 1 {
                    lines[i][0] = x - 1;
                    lines[i].insert(0, 1);
                }
            }
        }
        Edit::Drop(..) => {
            lines[i].pop();
        }
        Edit::Add(_, _, k) => lines[i].push(k),
    }
}

fn perturbed(max: usize) -> impl Strategy<Value = Puzzle> {
    (solvable(max), prop::collection::vec(edit(), 1..4)).prop_map(|(mut p, es)| {
        for e in es {
            perturb(&mut p, e);
        }
        p
    })
}

/// Large pictures whose lines mostly determine each other.
fn large() -> impl Strategy<Value = Puzzle> {
    (8usize..31, 8usize..31, prop::sample::select(vec![2u8, 5]), 60u8..96, any::<u64>()).prop_map(|(w, h, style, density, seed)| {
        let g = model::picture(w, h, style, density, seed);
        clues(&Picture { w, h, g }, 2, seed)
    })
}

/// Long lines in one direction, few in the other; some squares with sides up to 70.
fn long() -> impl Strategy<Value = Picture> {
    let sides = prop_oneof![
        4 => (1usize..5, 30usize..140),
        4 => (30usize..140, 1usize..5),
        1 => (1usize..3, 250usize..320),
        1 => (250usize..320, 1usize..3),
        2 => (30usize..70, 30usize..70),
        1 => (Just(1usize), 250usize..700),
        1 => (250usize..700, Just(1usize)),
    ];
    (sides, prop::sample::select(vec![2u8, 5]), 60u8..96, any::<u64>()).prop_map(|((w, h), style, density, seed)| {
        let mut g = model::picture(w, h, style, density, seed);
        if w == 1 || h == 1 {
            // The other direction says it all, so anything goes.
            g = model::picture(w, h, (seed % 6) as u8, density, seed);
            if seed % 3 == 0 || w * h > 320 {
                // As many numbers as fit, but for a few.
                let mut m = Mix::new(seed);
                let odd = m.below(2);
                let rare = 2 + m.below(w * h);
                g = (0..w * h).map(|i| i % 2 == odd && m.below(rare) != 0).collect();
            }
        }
        Picture { w, h, g }
    })
}

fn long_puzzle() -> impl Strategy<Value = Puzzle> {
    (long(), 0u8..3, any::<u64>()).prop_map(|(p, mode, seed)| clues(&p, mode, seed))
}

/// Pictures whose clues say little, so that many squares have to be guessed: one or two cells in each line,
/// or blocks along a permutation.
fn ambiguous(max: usize) -> impl Strategy<Value = Puzzle> {
    (2..=max, 0u8..4, any::<u64>()).prop_map(|(n, kind, seed)| {
        let mut m = Mix::new(seed);
        let mut order: Vec<usize> = (0..n).collect();
        m.shuffle(&mut order);
        let (mut w, mut h) = (n, n);
        let g = match kind {
            // As many lines as columns, or some lines blank.
            0 | 1 => {
                let mut g = vec![false; n * n];
                for (y, &x) in order.iter().enumerate() {
                    g[y * n + x] = kind == 0 || m.below(5) > 0;
                }
                g
            }
            // Along the diagonal, up and down.
            2 => {
                let up = m.below(2) == 0;
                (0..n * n).map(|i| if up { i / n + i % n + 1 == n } else { i / n == i % n }).collect()
            }
            // Blocks of one size, up to 6 of them.
            _ => {
                let parts = 2 + n % 5;
                let (dx, dy) = (1 + m.below(3), 1 + m.below(3));
                let mut order: Vec<usize> = (0..parts).collect();
                m.shuffle(&mut order);
                w = parts * dx;
                h = parts * dy;
                (0..w * h).map(|i| order[i / w / dy] == i % w / dx).collect()
            }
        };
        clues(&Picture { w, h, g }, (seed % 3) as u8, seed)
    })
}

const AMBIGUOUS: &str = "one cell in each line and column (or in some) along a random permutation of up to 24, or equal blocks along one of up to 6: many squares to guess; non-trivial: as in pictures";

/// All clues a line of the given length can have.
fn line_clues(len: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> =
        (0..1u32 << len).map(|m| model::runs((0..len).map(|i| m >> i & 1 == 1))).collect();
    out.sort();
    out.dedup();
    out
}

/// All puzzles of a size, as an enumeration.
fn all_puzzles(w: usize, h: usize) -> (u64, impl Fn(u64) -> Puzzle) {
    let (for_col, for_row) = (line_clues(h), line_clues(w));
    let total = (for_col.len() as u64).pow(w as u32) * (for_row.len() as u64).pow(h as u32);
    (total, move |mut i| {
        let mut take = |from: &Vec<Vec<usize>>| {
            let n = from.len() as u64;
            let c = from[(i % n) as usize].clone();
            i /= n;
            c
        };
        Puzzle {
            col: (0..w).map(|_| take(&for_col)).collect(),
            row: (0..h).map(|_| take(&for_row)).collect(),
        }
    })
}

/// Smaller puzzles: a line less, or a number less.
fn smaller(p: &Puzzle) -> Vec<Puzzle> {
    let mut out = Vec::new();
    for d in [true, false] {
        let n = if d { p.col.len() } else { p.row.len() };
        for i in 0..n {
            let mut q = p.clone();
            (if d { &mut q.col } else { &mut q.row }).remove(i);
            out.push(q);
        }
        for i in 0..n {
            let line = if d { &p.col[i] } else { &p.row[i] };
            for k in 0..line.len() {
                let mut q = p.clone();
                (if d { &mut q.col } else { &mut q.row })[i].remove(k);
                out.push(q);
                if line[k] > 1 {
                    for v in [line[k] / 2, line[k] - 1] {
                        let mut q = p.clone();
                        (if d { &mut q.col } else { &mut q.row })[i][k] = v;
                        out.push(q);
                    }
                }
            }
        }
    }
    out.retain(|q| !q.col.is_empty() && !q.row.is_empty());
    out
}

fn classify(p: &Puzzle, cx: &mut Cx) {
    let (w, h) = (p.col.len(), p.row.len());
    cx.label_if(w == 1 || h == 1, "one line wide or high");
    cx.label_if(w != h, "not square");
    cx.label_if(p.col.iter().chain(&p.row).any(|c| model::normal(c).is_empty()), "blank line");
    cx.label_if(p.col.iter().chain(&p.row).any(|c| c.contains(&0)), "zero in a clue");
    cx.label_if(w * h > 100, "over 100 cells");
}

/// Simple leftmost/rightmost overlap, to tell which puzzles need more than single-line reasoning.
fn needs_guess(p: &Puzzle) -> bool {
    let (w, h) = (p.col.len(), p.row.len());
    if w > 12 || h > 12 {
        return false;
    }
    let mut known: Vec<Option<bool>> = vec![None; w * h];
    loop {
        let before = known.clone();
        for d in 0..w + h {
            let (cells, clue): (Vec<usize>, &Vec<usize>) = if d < w {
                ((0..h).map(|y| y * w + d).collect(), &p.col[d])
            } else {
                ((0..w).map(|x| (d - w) * w + x).collect(), &p.row[d - w])
            };
            let clue = model::normal(clue);
            let (mut all, mut any, mut some) = (u32::MAX, 0u32, false);
            for m in 0..1u32 << cells.len() {
                let fits = cells.iter().enumerate().all(|(k, &c)| known[c].is_none_or(|v| v == (m >> k & 1 == 1)));
                if fits && model::runs((0..cells.len()).map(|k| m >> k & 1 == 1)) == clue {
                    all &= m;
                    any |= m;
                    some = true;
                }
            }
            if !some {
                return false;
            }
            for (k, &c) in cells.iter().enumerate() {
                if all >> k & 1 == 1 {
                    known[c] = Some(true);
                } else if any >> k & 1 == 0 {
                    known[c] = Some(false);
                }
            }
        }
        if known == before {
            return known.iter().any(|k| k.is_none());
        }
    }
}

// ------------------------------------------------------------------ N01, N02

fn sound(p: &Puzzle, cx: &mut Cx) -> Res {
    classify(p, cx);
    match guard("solve_nonogram", || solve_nonogram(&p.col, &p.row))? {
        Ok(g) => {
            cx.label("answered");
            cx.nontrivial = g.len() > 1 && g.iter().any(|&c| c);
            if p.col.len() * p.row.len() <= 36 {
                cx.label_if(needs_guess(p), "needs a guess");
            }
            match model::violation(&p.col, &p.row, &g) {
                None => Ok(()),
                Some(e) => Err(format!("{e}; the answer was {}", brief(&g.iter().map(|&c| c as u8).collect::<Vec<_>>()))),
            }
        }
        Err(_) => {
            cx.label("refused");
            Ok(())
        }
    }
}

fn verdict(p: &Puzzle, cx: &mut Cx) -> Res {
    classify(p, cx);
    let (v, nodes) = model::solve(&p.col, &p.row, BUDGET);
    if v == model::Verdict::Unknown {
        cx.discarded = true;
        return Ok(());
    }
    judge(p, v == model::Verdict::Solvable, nodes, cx)
}

/// Puzzles of middling size, some with changed clues.
fn middling(max: usize) -> impl Strategy<Value = Puzzle> {
    let picture = (5..=max, 5..=max, 0u8..6, 20u8..96, any::<u64>())
        .prop_map(|(w, h, style, density, seed)| Picture { w, h, g: model::picture(w, h, style, density, seed) });
    (picture, 0u8..3, any::<u64>(), prop_oneof![1 => prop::collection::vec(edit(), 0..1), 1 => prop::collection::vec(edit(), 1..4)]).prop_map(|(p, mode, seed, edits)| {
        let mut p = clues(&p, mode, seed);
        for e in edits {
            perturb(&mut p, e);
        }
        p
    })
}

const MIDDLING: &str = "clues of pictures from 5 x 5 to 36 x 36, half of them with entries moved, joined, split or dropped";

fn middling_verdict(p: &Puzzle, cx: &mut Cx) -> Res {
    let (v, guesses) = model::by_guessing(&p.col, &p.row, PASSES);
    if v == model::Verdict::Unknown {
        cx.discarded = true;
        return Ok(());
    }
    cx.label_if(guesses > 0, "needs a guess");
    cx.label_if(guesses > 20, "over 20 guesses");
    judge(p, v == model::Verdict::Solvable, 0, cx)
}

/// As `middling_verdict` picks them, so that each call ends soon.
fn middling_sound(p: &Puzzle, cx: &mut Cx) -> Res {
    if model::by_guessing(&p.col, &p.row, PASSES).0 == model::Verdict::Unknown {
        cx.discarded = true;
        return Ok(());
    }
    sound(p, cx)
}

const PASSES: usize = 400;

fn judge(p: &Puzzle, want: bool, nodes: u64, cx: &mut Cx) -> Res {
    cx.nontrivial = true;
    cx.label_if(nodes > 100, "search of over 100 nodes");
    let r = guard("solve_nonogram", || solve_nonogram(&p.col, &p.row))?;
    match (want, &r) {
        (true, Ok(g)) => {
            cx.label("solvable");
            match model::violation(&p.col, &p.row, g) {
                None => Ok(()),
                Some(e) => Err(format!("the puzzle is solvable, but the answer is no solution: {e}")),
            }
        }
        (false, Err(NonogramError::NoSolution)) => {
            cx.label("unsolvable");
            let total = |l: &[Vec<usize>]| l.iter().flatten().map(|&x| x as u128).sum::<u128>();
            cx.label_if(
                total(&p.col) == total(&p.row)
                    && p.col.iter().all(|c| model::needs(c) <= p.row.len() as u128)
                    && p.row.iter().all(|c| model::needs(c) <= p.col.len() as u128),
                "unsolvable though sums agree and lines fit",
            );
            Ok(())
        }
        _ => Err(format!(
            "the puzzle is {}, the solver returned {}",
            if want { "solvable" } else { "unsolvable" },
            brief(&r)
        )),
    }
}

/// By construction solvable, so no reference solver is needed.
fn must_solve(p: &Puzzle, cx: &mut Cx) -> Res {
    classify(p, cx);
    judge(p, true, 0, cx)
}

fn enumerated(name: &'static str, rule: &'static str, w: usize, h: usize, quick: u64, thorough: u64, check: fn(&Puzzle, &mut Cx) -> Res) -> Suite {
    let (total, at) = all_puzzles(w, h);
    Suite::enumerated(name, rule, quick, thorough, total, at, check).with_shrink(smaller)
}

const LONG: &str = "structured pictures with up to 4 lines of up to 140 cells, 2 of up to 319, 1 of up to 699, or 69 x 69 cells";

pub fn n01() -> Property {
    Property {
        id: "N01",
        assumptions: &["random pictures are at most 12 x 12, structured ones at most 30 x 30, so that guessing stays cheap"],
        suites: vec![
            Suite::random("pictures", "clues of pictures in six textures up to 7 x 7; non-trivial: answered with a filled cell, more than one cell", 60_000, 1_500_000, |_| solvable(7), sound).with_shrink(smaller),
            Suite::random("pictures-12", "the same up to 12 x 12", 8_000, 200_000, |_| solvable(12), sound).with_shrink(smaller),
            Suite::random("large", "rectangles and nearly full pictures from 8 to 30 cells", 1_600, 40_000, |_| large(), sound).with_shrink(smaller),
            Suite::random("long", LONG, 1_000, 20_000, |_| long_puzzle(), sound).batches(),
            Suite::random("ambiguous", AMBIGUOUS, 400, 8_000, |_| ambiguous(24), sound).with_shrink(smaller).batches(),
            Suite::random("middling", MIDDLING, 1_800, 60_000, |_| prop_oneof![4 => middling(20), 1 => middling(36)], middling_sound).with_shrink(smaller),
            Suite::random("perturbed", "clues of pictures with entries moved, joined, split or dropped; non-trivial as above", 40_000, 1_000_000, |_| perturbed(7), sound).with_shrink(smaller),
            enumerated("all-3x3", "every pair of clue lists of a 3 x 3 grid", 3, 3, u64::MAX, u64::MAX, sound),
            enumerated("all-2x4", "every pair of clue lists of a 2 x 4 grid", 2, 4, u64::MAX, u64::MAX, sound),
            enumerated("all-4x3", "clue lists of a 4 x 3 grid: an even sample, or all", 4, 3, 40_000, u64::MAX, sound),
            enumerated("all-4x4", "clue lists of a 4 x 4 grid: an even sample", 4, 4, 40_000, 4_000_000, sound),
        ],
    }
}

pub fn n02() -> Property {
    Property {
        id: "N02",
        assumptions: &["puzzles not built from a picture are judged only if the independent solver needs at most 200000 nodes"],
        suites: vec![
            Suite::random("pictures", "clues of pictures up to 7 x 7: must be solved; every case counts", 60_000, 1_500_000, |_| solvable(7), must_solve).with_shrink(smaller_solvable),
            Suite::random("pictures-12", "the same up to 12 x 12", 8_000, 200_000, |_| solvable(12), must_solve).with_shrink(smaller_solvable),
            Suite::random("large", "rectangles and nearly full pictures from 8 to 30 cells: must be solved", 1_600, 40_000, |_| large(), must_solve),
            Suite::random("long", LONG, 1_000, 20_000, |_| long_puzzle(), must_solve).batches(),
            Suite::random("very wide", VERY_WIDE, 64, 640, |_| very_wide(), must_solve).batches(),
            Suite::random("ambiguous", AMBIGUOUS, 400, 8_000, |_| ambiguous(24), must_solve).with_shrink(smaller_solvable).batches(),
            Suite::random("middling", MIDDLING, 1_800, 60_000, |_| prop_oneof![4 => middling(20), 1 => middling(36)], middling_verdict).with_shrink(smaller),
            Suite::random("perturbed", "perturbed clues up to 7 x 7, judged by the independent solver", 60_000, 1_500_000, |_| perturbed(7), verdict).with_shrink(smaller),
            enumerated("all-3x3", "every pair of clue lists of a 3 x 3 grid", 3, 3, u64::MAX, u64::MAX, verdict),
            enumerated("all-1x5", "every pair of clue lists of a 1 x 5 grid", 1, 5, u64::MAX, u64::MAX, verdict),
            enumerated("all-5x1", "every pair of clue lists of a 5 x 1 grid", 5, 1, u64::MAX, u64::MAX, verdict),
            enumerated("all-2x4", "every pair of clue lists of a 2 x 4 grid", 2, 4, u64::MAX, u64::MAX, verdict),
            enumerated("all-4x3", "clue lists of a 4 x 3 grid: an even sample, or all", 4, 3, 40_000, u64::MAX, verdict),
            enumerated("all-4x4", "clue lists of a 4 x 4 grid: an even sample", 4, 4, 80_000, 4_000_000, verdict),
        ],
    }
}

fn smaller_solvable(p: &Puzzle) -> Vec<Puzzle> {
    smaller(p)
        .into_iter()
        .filter(|q| q.col.len() < 32 && model::solve(&q.col, &q.row, BUDGET).0 == model::Verdict::Solvable)
        .collect()
}

// ------------------------------------------------------------------ N03

fn number() -> impl Strategy<Value = usize> {
    prop_oneof![
        3 => Just(0usize),
        8 => 1usize..5,
        2 => 5usize..40,
        1 => prop::sample::select(vec![
            usize::MAX, usize::MAX - 1, usize::MAX / 2, isize::MAX as usize, u32::MAX as usize, u32::MAX as usize + 1,
            i32::MAX as usize, 1 << 40, (1 << 63) + 1, 1000, 65_536,
        ]),
    ]
}

fn line() -> impl Strategy<Value = Vec<usize>> {
    prop_oneof![
        2 => Just(vec![]),
        2 => Just(vec![0]),
        1 => prop::collection::vec(Just(0usize), 1..5),
        6 => prop::collection::vec(number(), 0..5),
    ]
}

fn any_lists() -> impl Strategy<Value = Puzzle> {
    let lists = || {
        prop_oneof![
            2 => Just(vec![]),
            10 => prop::collection::vec(line(), 1..7),
            1 => prop::collection::vec(prop_oneof![Just(vec![]), Just(vec![0])], 1..9),
        ]
    };
    (lists(), lists()).prop_map(|(col, row)| Puzzle { col, row })
}

/// Solvable puzzles with zeros sprinkled into the clues.
fn zeros() -> impl Strategy<Value = Puzzle> {
    (solvable(6), prop::collection::vec((any::<bool>(), 0usize..8, 0usize..5), 1..5)).prop_map(|(mut p, zs)| {
        for (d, i, k) in zs {
            let l = if d { &mut p.col } else { &mut p.row };
            let n = l.len();
            let line = &mut l[i % n];
            let k = k.min(line.len());
            line.insert(k, 0);
        }
        p
    })
}

fn robust(p: &Puzzle, cx: &mut Cx) -> Res {
    classify_any(p, cx);
    let r = guard("solve_nonogram", || solve_nonogram(&p.col, &p.row))?;
    let (w, h) = (p.col.len(), p.row.len());
    if w == 0 || h == 0 {
        cx.label("no row or no column");
        ensure!(matches!(r, Err(NonogramError::EmptyPuzzle)), "{w} columns and {h} rows gave {}", brief(&r));
        return Ok(());
    }
    let too_long = p.col.iter().any(|c| model::needs(c) > h as u128) || p.row.iter().any(|c| model::needs(c) > w as u128);
    if too_long {
        cx.label("a clue does not fit");
        ensure!(matches!(r, Err(NonogramError::NoSolution)), "a clue does not fit its line, but the result is {}", brief(&r));
        return Ok(());
    }
    match &r {
        Ok(g) => ensure!(g.len() == w * h, "{} cells for {w} x {h}", g.len()),
        Err(e) => ensure!(matches!(e, NonogramError::NoSolution), "refused with {e:?}"),
    }
    Ok(())
}

fn classify_any(p: &Puzzle, cx: &mut Cx) {
    let zero = p.col.iter().chain(&p.row).any(|c| c.contains(&0));
    let big = p.col.iter().chain(&p.row).flatten().any(|&x| x > 1000);
    cx.label_if(zero, "zero in a clue");
    cx.label_if(big, "number above 1000");
    cx.nontrivial = zero || big || p.col.is_empty() || p.row.is_empty() || p.col.iter().chain(&p.row).any(|c| c.is_empty());
}

pub fn n03() -> Property {
    Property {
        id: "N03",
        assumptions: &["a single request of more than 1 GiB counts as exhausting memory"],
        suites: vec![
            Suite::random("any", "arbitrary clue lists with zeros, huge numbers, blank lines, no lines; non-trivial: at least one of these", 120_000, 3_000_000, |_| any_lists(), robust).with_shrink(smaller_any),
            Suite::random("zeros", "clues of pictures with zeros inserted anywhere", 40_000, 1_000_000, |_| zeros(), robust).with_shrink(smaller_any),
            Suite::random("long", "as N01, and single rows and columns with a number of a clue changed", 1_000, 20_000, |_| (long_puzzle(), prop::option::of((any::<u64>(), 0usize..700))).prop_map(|(mut p, change)| {
                // Single rows and columns leave nothing to guess, however they are changed.
                if let (Some((at, to)), 1) = (change, p.col.len().min(p.row.len())) {
                    let lines = if at & 1 == 0 { &mut p.col } else { &mut p.row };
                    let line = (at / 2) as usize % lines.len();
                    let n = lines[line].len();
                    if n > 0 {
                        lines[line][(at >> 20) as usize % n] = to;
                    }
                }
                p
            }), robust).with_shrink(smaller_any).batches(),
            Suite::random("very wide", VERY_WIDE, 64, 640, |_| very_wide(), robust).batches(),
            Suite::enumerated("blank", "grids of w x h blank or empty clues, w and h from 0 to 11", 12 * 12 * 3, 12 * 12 * 3, 12 * 12 * 3, |i| {
                let (w, h, m) = (i as usize % 12, i as usize / 12 % 12, i / 144);
                let l = |n: usize| (0..n).map(|k| if m == 0 || m == 2 && k % 2 == 0 { vec![] } else { vec![0] }).collect();
                Puzzle { col: l(w), row: l(h) }
            }, robust),
        ],
    }
}

fn smaller_any(p: &Puzzle) -> Vec<Puzzle> {
    let mut out = Vec::new();
    for d in [true, false] {
        let n = if d { p.col.len() } else { p.row.len() };
        for i in 0..n {
            let mut q = p.clone();
            (if d { &mut q.col } else { &mut q.row }).remove(i);
            out.push(q);
        }
        for i in 0..n {
            let len = if d { p.col[i].len() } else { p.row[i].len() };
            for k in 0..len {
                let mut q = p.clone();
                (if d { &mut q.col } else { &mut q.row })[i].remove(k);
                out.push(q);
            }
        }
    }
    out
}

// ------------------------------------------------------------------ N04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text {
    text: String,
    bound: usize,
}

fn token() -> impl Strategy<Value = String> {
    prop_oneof![
        12 => (1usize..30).prop_map(|n| n.to_string()),
        2 => prop::sample::select(vec![
            "18446744073709551615", "18446744073709551614", "18446744073709551616", "9223372036854775808",
            "9223372036854775807", "99999999999999999999999", "4294967296", "4294967295", "1000000",
        ]).prop_map(String::from),
        1 => (1usize..30).prop_map(|n| format!("0{n}")),
        2 => prop::sample::select(vec!["", " ", "-1", " 1", "1 ", "a", "1.0", "0x1", "1_0", "²", "١", "１", "\u{feff}1", "1\n", "--", ":"]).prop_map(String::from),
        1 => prop::collection::vec(any::<char>(), 0..3).prop_map(|v| v.into_iter().collect()),
    ]
}

fn good_token() -> impl Strategy<Value = String> {
    prop_oneof![12 => (1usize..12).prop_map(|n| n.to_string()), 1 => (1usize..12).prop_map(|n| format!("00{n}"))]
}

fn rule_text(bad: bool) -> BoxedStrategy<Text> {
    let tok = move || if bad { prop_oneof![3 => good_token(), 1 => token()].boxed() } else { good_token().boxed() };
    let line = prop_oneof![
        6 => prop::collection::vec(tok(), 1..6).prop_map(|v| v.join(",")),
        1 => Just("0".to_string()),
    ];
    (prop::collection::vec(line, 1..7), any::<u64>(), any::<bool>())
        .prop_map(|(lines, b, tight)| {
            let text = lines.join(";");
            // Bounds at, just below and just above what some line needs.
            let need: Vec<u128> = lines.iter().filter_map(|l| line_need(l)).collect();
            let bound = if need.is_empty() || !tight {
                (b % 40) as usize
            } else {
                let n = need[(b >> 8) as usize % need.len()].min(u64::MAX as u128) as u64;
                let n = if b % 5 < 3 { need.iter().copied().max().unwrap().min(u64::MAX as u128) as u64 } else { n };
                (n.saturating_add(b % 3)).saturating_sub(1) as usize
            };
            Text { text, bound }
        })
        .boxed()
}

fn raw_text() -> impl Strategy<Value = Text> {
    let c = prop_oneof![
        6 => prop::char::range('0', '9'),
        3 => Just(','),
        2 => Just(';'),
        1 => prop::sample::select(vec!['-', ' ', '\n', 'a', '.', '٣', '６', '\u{0}']),
    ];
    (
        prop::collection::vec(c, 0..24).prop_map(|v| v.into_iter().collect::<String>()),
        prop_oneof![6 => 0usize..40, 1 => any::<usize>(), 1 => Just(usize::MAX), 1 => Just(0usize)],
    )
        .prop_map(|(text, bound)| Text { text, bound })
}

/// Numbers whose sums pass the integer maximum.
fn overflow_text() -> impl Strategy<Value = Text> {
    let t = prop_oneof![
        2 => (0u64..6).prop_map(|d| (u64::MAX - d).to_string()),
        1 => (0u64..6).prop_map(|d| ((1u64 << 63) - 3 + d).to_string()),
        3 => (1u64..5).prop_map(|d| d.to_string()),
    ];
    (
        prop::collection::vec(prop::collection::vec(t, 1..5).prop_map(|v| v.join(",")), 1..3).prop_map(|v| v.join(";")),
        prop_oneof![2 => 0usize..20, 1 => Just(usize::MAX), 1 => Just(usize::MAX - 1), 1 => Just(usize::MAX - 3)],
    )
        .prop_map(|(text, bound)| Text { text, bound })
}

/// Many lines or many numbers.
fn long_text() -> impl Strategy<Value = Text> {
    (
        prop_oneof![2 => (200usize..700, 1usize..4), 2 => (1usize..4, 100usize..400), 1 => (60_000usize..70_000, 1usize..2)],
        any::<u64>(),
        0usize..4,
        prop_oneof![4 => Just(None), 1 => token().prop_map(Some)],
    )
        .prop_map(|((lines, items), seed, slack, wrong)| {
            let mut m = Mix::new(seed);
            let mut all: Vec<Vec<String>> =
                (0..lines).map(|_| (0..1 + m.below(items)).map(|_| (1 + m.below(9)).to_string()).collect()).collect();
            if let Some(t) = wrong {
                let i = m.below(lines);
                let k = m.below(all[i].len());
                all[i][k] = t;
            }
            let lines: Vec<String> = all.iter().map(|l| l.join(",")).collect();
            let need = lines.iter().filter_map(|l| line_need(l)).max().unwrap_or(0).min(1 << 40) as usize;
            Text { text: lines.join(";"), bound: (need + slack).saturating_sub(1) }
        })
}

/// An unsigned 64-bit integer in ASCII digits. `Err(None)`: not judged (a leading plus sign).
fn integer(t: &str) -> Result<u64, Option<()>> {
    if t.starts_with('+') {
        return Err(None);
    }
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
        return Err(Some(()));
    }
    let mut n: u128 = 0;
    for b in t.bytes() {
        n = (n * 10 + (b - b'0') as u128).min(u64::MAX as u128 + 1);
    }
    u64::try_from(n).map_err(|_| Some(()))
}

fn line_need(l: &str) -> Option<u128> {
    let v: Option<Vec<u64>> = l.split(',').map(|t| integer(t).ok()).collect();
    v.map(|v| v.iter().map(|&x| x as u128).sum::<u128>() + v.len() as u128 - 1)
}

#[derive(Debug, PartialEq)]
enum Parsed {
    Values(Vec<Vec<usize>>),
    BadRule(String),
    TooLong,
}

/// What the parser must return; `None` where it is left open (plus signs; zeros beside other numbers).
fn expected(t: &Text) -> Option<Parsed> {
    let mut out = Vec::new();
    let mut open = false;
    for l in t.text.split(';') {
        let mut values = Vec::new();
        for item in l.split(',') {
            match integer(item) {
                Ok(v) => values.push(v as usize),
                Err(None) => return None,
                Err(Some(())) => {
                    // Whether an earlier open line was already refused is not known.
                    return if open { None } else { Some(Parsed::BadRule(item.to_string())) };
                }
            }
        }
        if values.len() > 1 && values.contains(&0) {
            open = true;
        } else if values.iter().map(|&v| v as u128).sum::<u128>() + values.len() as u128 - 1 > t.bound as u128 {
            return if open { None } else { Some(Parsed::TooLong) };
        }
        out.push(values);
    }
    if open {
        None
    } else {
        Some(Parsed::Values(out))
    }
}

fn parse(t: &Text, cx: &mut Cx) -> Res {
    let r = guard("parse_nonogram_rules", || parse_nonogram_rules(&t.text, t.bound))?;
    let Some(want) = expected(t) else {
        cx.label("only no panic required");
        return Ok(());
    };
    let ok = match (&want, &r) {
        (Parsed::Values(v), Ok(got)) => {
            cx.label("accepted");
            cx.nontrivial = v.len() > 1 || v[0].len() > 1;
            v == got
        }
        (Parsed::BadRule(s), Err(NonogramError::InvalidRule(got))) => {
            cx.label("bad item");
            cx.nontrivial = t.text.len() > 1;
            **s == **got
        }
        (Parsed::TooLong, Err(NonogramError::InvalidRuleDimension)) => {
            cx.label("too long");
            cx.nontrivial = true;
            true
        }
        _ => false,
    };
    ensure!(ok, "expected {}, got {}", brief(&want), brief(&r));
    Ok(())
}

pub fn n04() -> Property {
    Property {
        id: "N04",
        assumptions: &["items with a leading plus sign, and lines mixing zeros with other numbers, are only required not to panic"],
        suites: vec![
            Suite::random("well-formed", "lists of positive numbers or a lone 0 with bounds at and around the need of a line; non-trivial: more than one number", 200_000, 5_000_000, |_| rule_text(false), parse),
            Suite::random("mixed", "the same with malformed, padded or huge items; non-trivial: more than one character", 200_000, 5_000_000, |_| rule_text(true), parse),
            Suite::random("raw", "short texts over digits, separators and odd characters, any bound", 200_000, 5_000_000, |_| raw_text(), parse),
            Suite::random("overflow", "numbers whose sum passes the integer maximum", 60_000, 1_000_000, |_| overflow_text(), parse),
            Suite::random("long", "up to 70000 lines, or lines of up to 400 numbers, with bounds at and around the need", 600, 12_000, |_| long_text(), parse).batches(),
        ],
    }
}

// ------------------------------------------------------------------ N05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Board {
    col: Vec<Vec<usize>>,
    row: Vec<Vec<usize>>,
    /// added to the true width and height
    dw: i64,
    dh: i64,
}

fn clue_number() -> impl Strategy<Value = usize> {
    prop_oneof![6 => 1usize..10, 3 => 10usize..41, 1 => Just(0usize), 1 => 100usize..2000, 1 => prop_oneof![1_000usize..100_000, any::<u32>().prop_map(|n| n as usize), any::<usize>()]]
}

fn board() -> impl Strategy<Value = Board> {
    let list = || {
        prop_oneof![
            8 => prop::collection::vec(prop::collection::vec(clue_number(), 0..5), 0..12),
            1 => prop::collection::vec(prop::collection::vec(clue_number(), 0..3), 12..34),
        ]
    };
    let drawn = prop_oneof![
        2 => (list(), list()),
        2 => solvable(14).prop_map(|p| (p.col, p.row)),
        1 => large().prop_map(|p| (p.col, p.row)),
    ];
    let off = || prop_oneof![8 => Just(0i64), 1 => -2i64..3, 1 => prop::sample::select(vec![1i64 << 16, (1 << 32) - 1, 85_899_346])];
    (drawn, off(), off()).prop_map(|((col, row), dw, dh)| Board { col, row, dw, dh })
}

fn long_board() -> impl Strategy<Value = Board> {
    let clue = || prop::collection::vec(clue_number(), 0..13);
    let few = move || prop::collection::vec(clue(), 0..5);
    let many = move || prop_oneof![3 => prop::collection::vec(clue(), 30..140), 1 => prop::collection::vec(clue(), 140..320)];
    prop_oneof![(few(), many()), (many(), few())].prop_map(|(col, row)| Board { col, row, dw: 0, dh: 0 })
}

/// Pictures over 65536 pixels wide or high.
fn very_long_board() -> impl Strategy<Value = Board> {
    let clue = || prop::collection::vec(clue_number(), 0..3);
    let few = move || prop::collection::vec(clue(), 0..2);
    let many = move || prop::collection::vec(clue(), 1_080..1_200);
    prop_oneof![(few(), many()), (many(), few())].prop_map(|(col, row)| Board { col, row, dw: 0, dh: 0 })
}

/// Single lines of over a thousand cells.
fn very_long() -> impl Strategy<Value = Picture> {
    (1_080usize..1_200, any::<bool>(), 5u8..96, any::<u64>()).prop_map(|(n, wide, density, seed)| {
        let (w, h) = if wide { (n, 1) } else { (1, n) };
        Picture { w, h, g: model::picture(w, h, 0, density, seed) }
    })
}

/// Thousands of lines in one direction, one to three in the other, with few filled cells.
fn very_wide() -> impl Strategy<Value = Puzzle> {
    (prop_oneof![3 => 1_000usize..3_000, 1 => 3_000usize..9_000], 1usize..4, any::<bool>(), 0usize..4, 0u8..3, any::<u64>()).prop_map(|(n, few, wide, filled, mode, seed)| {
        let (w, h) = if wide { (n, few) } else { (few, n) };
        let mut m = Mix::new(seed);
        let mut g = vec![false; w * h];
        for _ in 0..filled {
            // A run along the longer direction, now and then at its far end.
            let (at, line, len) = (m.below(n), m.below(few), 1 + m.below(3));
            let at = if m.below(3) == 0 { n - len } else { at };
            for k in at..(at + len).min(n) {
                g[if wide { line * w + k } else { k * w + line }] = true;
            }
        }
        clues(&Picture { w, h, g }, mode, seed)
    })
}

const VERY_WIDE: &str = "1000 to 9000 lines in one direction, one to three in the other, with up to three runs of filled cells";

fn print_board(b: &Board, cx: &mut Cx) -> Res {
    let (w, h) = (b.col.len() as i64 + b.dw, b.row.len() as i64 + b.dh);
    let (Ok(w), Ok(h)) = (u32::try_from(w), u32::try_from(h)) else {
        cx.discarded = true;
        return Ok(());
    };
    let r = guard("print_nonogram", || print_nonogram(w, h, &b.col, &b.row))?;
    if b.dw != 0 || b.dh != 0 {
        cx.label("size mismatch");
        cx.nontrivial = true;
        return match r {
            Err(NonogramError::InvalidDimensions) => Ok(()),
            Err(e) => Err(format!("refused with {e:?}")),
            Ok(_) => Err(format!("{w} x {h} was accepted for {} x {} clues", b.col.len(), b.row.len())),
        };
    }
    let img = r.map_err(|e| format!("printing was refused: {e:?}"))?;
    cx.nontrivial = !b.col.is_empty() && !b.row.is_empty();
    cx.label_if(w > 15 || h > 15, "margin above its minimum");
    cx.label_if(b.col.iter().chain(&b.row).flatten().any(|&n| n > 9), "number of several digits");
    match render::difference(&img, &render::nonogram(&b.col, &b.row), 2) {
        Some(d) => Err(d),
        None => Ok(()),
    }
}

pub fn n05() -> Property {
    Property {
        id: "N05",
        assumptions: &["text drawing of imageproc and ab_glyph is trusted (the fixtures pin it)"],
        suites: vec![
            Suite::random("boards", "arbitrary clue lists and clues of pictures, one in four with a wrong width or height; non-trivial: has rows and columns, or a mismatch", 8_000, 200_000, |_| board(), print_board),
            Suite::random("long", "30 to 320 lines in one direction, up to four in the other, clues of up to 12 numbers", 240, 4_800, |_| long_board(), print_board).batches(),
            Suite::random("very long", "1080 to 1200 lines in one direction (over 65536 pixels), none or one in the other", 24, 240, |_| very_long_board(), print_board).batches(),
            Suite::enumerated("sizes", "w x h grids of one-number clues, w and h from 0 to 24", 625, 625, 625, |i| {
                let (w, h) = (i as usize % 25, i as usize / 25);
                Board { col: (0..w).map(|k| vec![k + 1]).collect(), row: (0..h).map(|k| vec![k + 1]).collect(), dw: 0, dh: 0 }
            }, print_board),
        ],
    }
}

// ------------------------------------------------------------------ N06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Drawing {
    w: u32,
    h: u32,
    grid: Vec<bool>,
    image_w: u32,
    image_h: u32,
    /// 0: printed board with clues of the grid; otherwise noise determined by it
    paper: u64,
}

fn drawing() -> impl Strategy<Value = Drawing> {
    let base = prop_oneof![
        6 => picture(12),
        1 => picture(32),
        1 => (0usize..3, 0usize..8).prop_map(|(w, h)| Picture { w, h, g: vec![true; w * h] }),
        1 => (0usize..8, 0usize..3).prop_map(|(w, h)| Picture { w, h, g: vec![false; w * h] }),
    ];
    (base, prop_oneof![1 => Just(0u64), 1 => any::<u64>()], prop_oneof![3 => Just(0u8), 1 => 1u8..9], -3i32..4, any::<bool>()).prop_map(
        |(p, paper, wrong, d, t)| {
            let (w, h) = (p.w as u32, p.h as u32);
            let size = |c: u32| c * 50 + (c * 10).max(150);
            let mut out = Drawing { w, h, grid: p.g, image_w: size(w), image_h: size(h), paper };
            let d = if d == 0 { 1 } else { d };
            let shift = |v: u32| (v as i64 + d as i64).max(0) as u32;
            match wrong {
                1 => out.image_w = shift(out.image_w),
                2 => out.image_h = shift(out.image_h),
                3 => out.grid.resize(shift(w * h) as usize, t),
                4 => out.w = shift(w),
                5 => out.h = shift(h),
                6 => std::mem::swap(&mut out.image_w, &mut out.image_h),
                7 => std::mem::swap(&mut out.w, &mut out.h),
                8 => {
                    // dimensions whose image cannot exist
                    let huge = [u32::MAX, 1 << 31, 85_899_346, 429_496_730, 71_582_789][(paper % 5) as usize];
                    match d {
                        1 => out.w = huge,
                        2 => out.h = huge,
                        3 => {
                            out.w = huge;
                            out.h = 0;
                            out.grid.clear();
                        }
                        _ => {
                            out.w = 0;
                            out.h = huge;
                            out.grid.clear();
                        }
                    }
                }
                _ => (),
            }
            out
        },
    )
}

fn paper(d: &Drawing) -> RgbBuffer {
    if d.paper == 0 && d.grid.len() == (d.w as usize).saturating_mul(d.h as usize) && d.w < 100 && d.h < 100 {
        let (w, h) = (d.w as usize, d.h as usize);
        let b = render::nonogram(&model::col_clues(w, h, &d.grid), &model::row_clues(w, h, &d.grid));
        if b.dimensions() == (d.image_w, d.image_h) {
            return b;
        }
    }
    let mut m = Mix::new(d.paper);
    RgbBuffer::from_fn(d.image_w, d.image_h, |x, y| {
        if (x ^ y) & 7 == 0 {
            let v = m.next();
            Rgb([v as u8, (v >> 8) as u8, (v >> 16) as u8])
        } else {
            Rgb([x as u8, y as u8, 200])
        }
    })
}

fn draw(d: &Drawing, cx: &mut Cx) -> Res {
    let img = paper(d);
    let size = |c: u32| c as u64 * 50 + (c as u64 * 10).max(150);
    let matches = d.grid.len() as u64 == d.w as u64 * d.h as u64
        && d.image_w as u64 == size(d.w)
        && d.image_h as u64 == size(d.h);
    let r = guard("print_nonogram_solution", || print_nonogram_solution(d.w, d.h, img.clone(), &d.grid))?;
    cx.nontrivial = !d.grid.is_empty();
    if !matches {
        cx.label("size mismatch");
        return match r {
            Err(NonogramError::InvalidDimensions) => Ok(()),
            Err(e) => Err(format!("refused with {e:?}")),
            Ok(_) => Err("sizes that do not match were accepted".into()),
        };
    }
    let got = r.map_err(|e| format!("drawing was refused: {e:?}"))?;
    cx.label_if(d.grid.iter().any(|&c| c), "some filled cell");
    match render::difference(&got, &render::nonogram_solution(d.w as usize, d.h as usize, &img, &d.grid), 0) {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

pub fn n06() -> Property {
    Property {
        id: "N06",
        assumptions: &[],
        suites: vec![
            Suite::random("drawings", "pictures on boards or noise, one in four with a size that does not match; non-trivial: grid not empty", 8_000, 200_000, |_| drawing(), draw),
            Suite::random("long", LONG, 300, 6_000, |_| (long(), any::<u64>()).prop_map(|(p, paper)| {
                let size = |c: usize| (c * 50 + (c * 10).max(150)) as u32;
                Drawing { w: p.w as u32, h: p.h as u32, image_w: size(p.w), image_h: size(p.h), grid: p.g, paper }
            }), draw).batches(),
            Suite::random("very long", "single lines of 1080 to 1200 cells (over 65536 pixels)", 24, 240, |_| (very_long(), any::<u64>()).prop_map(|(p, paper)| {
                let size = |c: usize| (c * 50 + (c * 10).max(150)) as u32;
                Drawing { w: p.w as u32, h: p.h as u32, image_w: size(p.w), image_h: size(p.h), grid: p.g, paper }
            }), draw).batches(),
            Suite::enumerated("single-cell", "w x h grids with one filled cell in a corner, w and h up to 20", 1600, 1600, 1600, |i| {
                let (w, h) = (i as usize % 20 + 1, i as usize / 20 % 20 + 1);
                let at = [0, w - 1, (h - 1) * w, w * h - 1][i as usize / 400];
                let mut grid = vec![false; w * h];
                grid[at] = true;
                let size = |c: usize| (c * 50 + (c * 10).max(150)) as u32;
                Drawing { w: w as u32, h: h as u32, grid, image_w: size(w), image_h: size(h), paper: i }
            }, draw),
        ],
    }
}

// ------------------------------------------------------------------ N07

fn write(clues: &[Vec<usize>]) -> String {
    clues
        .iter()
        .map(|c| {
            if c.is_empty() {
                "0".to_string()
            } else {
                c.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",")
            }
        })
        .collect::<Vec<_>>()
        .join(";")
}

fn pipeline(p: &Picture, cx: &mut Cx) -> Res {
    let (w, h) = (p.w, p.h);
    let (cols, rows) = (model::col_clues(w, h, &p.g), model::row_clues(w, h, &p.g));
    let blank = cols.iter().chain(&rows).filter(|c| c.is_empty()).count();
    cx.label_if(blank > 0, "blank line");
    cx.nontrivial = p.g.iter().any(|&c| c) && w * h > 1;
    let (ct, rt) = (write(&cols), write(&rows));
    let col = guard("parse_nonogram_rules", || parse_nonogram_rules(&ct, h))?.map_err(|e| format!("column clues {ct:?}: {e:?}"))?;
    let row = guard("parse_nonogram_rules", || parse_nonogram_rules(&rt, w))?.map_err(|e| format!("row clues {rt:?}: {e:?}"))?;
    let g = guard("solve_nonogram", || solve_nonogram(&col, &row))?
        .map_err(|e| format!("columns {ct:?} rows {rt:?}: {e:?}"))?;
    let board = guard("print_nonogram", || print_nonogram(w as u32, h as u32, &col, &row))?.map_err(|e| format!("print: {e:?}"))?;
    let before = board.clone();
    let done = guard("print_nonogram_solution", || print_nonogram_solution(w as u32, h as u32, board, &g))?
        .map_err(|e| format!("print solution: {e:?}"))?;
    // Read the picture back from the pixels in the middle of the cells.
    let (mx, my) = (render::nonogram_margin(w), render::nonogram_margin(h));
    let shown: Vec<bool> = (0..w * h)
        .map(|i| {
            let (x0, y0) = (mx + 50 * (i % w) as u32, my + 50 * (i / w) as u32);
            (1..50).all(|d| *done.get_pixel(x0 + d, y0 + d) == render::BLACK)
        })
        .collect();
    ensure!(done.dimensions() == before.dimensions(), "the size changed");
    if let Some(e) = model::violation(&cols, &rows, &shown) {
        return Err(format!("columns {ct:?} rows {rt:?}: the picture shown is wrong: {e}"));
    }
    Ok(())
}

pub fn n07() -> Property {
    Property {
        id: "N07",
        assumptions: &["pictures are at most 12 x 12 so that guessing stays cheap"],
        suites: vec![
            Suite::random("pictures", "pictures in six textures with blank and full lines; non-trivial: a filled cell, more than one cell", 8_000, 200_000, |_| picture(12), pipeline),
            Suite::random("long", LONG, 300, 6_000, |_| long(), pipeline).batches(),
            Suite::random("very long", "single lines of 1080 to 1200 cells (over 65536 pixels)", 24, 240, |_| very_long(), pipeline).batches(),
            Suite::enumerated("all-3x4", "every picture of 3 x 4 cells", 4096, 4096, 4096, |i| Picture { w: 3, h: 4, g: (0..12).map(|k| i >> k & 1 == 1).collect() }, pipeline),
        ],
    }
}
