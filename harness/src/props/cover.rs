//! The internal parts, through the hook: exact cover (X01, X02, S06), disjoint set (X03), random pick (U01).
use crate::driver::{guard, seeded, Cx, Property, Res, Suite, Tier};
use crate::ensure;
use crate::oracle::Mix;
use crate::props::maze::{bernstein, on_fresh_threads, processes, processes_differ};
use proptest::prelude::*;
use puzzle_utils::verif_hooks::{choose_random, DancingLinksError, DancingMatrix, DisjointSet};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

// ------------------------------------------------------------------ matrices

/// A constraint is the list of rows that satisfy it.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Matrix {
    pub cols: Vec<Vec<usize>>,
}

impl Matrix {
    fn rows(&self) -> usize {
        self.cols.iter().flatten().max().map_or(0, |m| m + 1)
    }
    fn masks(&self) -> Vec<u128> {
        let mut out = vec![0u128; self.rows()];
        for (c, rows) in self.cols.iter().enumerate() {
            for &r in rows {
                out[r] |= 1 << c;
            }
        }
        out
    }
    fn of_rows(cols: usize, rows: &[Vec<usize>]) -> Matrix {
        let mut m = Matrix { cols: vec![Vec::new(); cols] };
        for (r, cs) in rows.iter().enumerate() {
            for &c in cs {
                m.cols[c].push(r);
            }
        }
        m
    }
    fn engine(&self) -> DancingMatrix {
        DancingMatrix::new(self.cols.iter().map(|c| c.iter()))
    }
    /// Renames the rows (leaving gaps: rows without any constraint), orders the lists anew.
    fn scrambled(mut self, seed: u64, gaps: usize, shuffle: bool) -> Matrix {
        let mut m = Mix::new(seed);
        let n = self.rows();
        let mut names: Vec<usize> = (0..n + gaps).collect();
        m.shuffle(&mut names);
        for c in &mut self.cols {
            for r in c.iter_mut() {
                *r = names[*r];
            }
            if shuffle {
                m.shuffle(c);
            } else {
                c.sort_unstable();
            }
        }
        if shuffle {
            m.shuffle(&mut self.cols);
        }
        self
    }
}

/// Exact cover of `left` by rows of `masks`: `None` beyond the budget.
fn coverable(masks: &[u128], left: u128, budget: &mut u64) -> Option<bool> {
    if left == 0 {
        return Some(true);
    }
    if *budget == 0 {
        return None;
    }
    *budget -= 1;
    // The constraint with the fewest rows that still fit.
    let usable: Vec<u128> = masks.iter().copied().filter(|m| *m != 0 && m & !left == 0).collect();
    let mut best: Option<(usize, u32)> = None;
    let mut rest = left;
    while rest != 0 {
        let c = rest.trailing_zeros();
        rest &= rest - 1;
        let n = usable.iter().filter(|m| *m >> c & 1 == 1).count();
        if best.is_none_or(|(b, _)| n < b) {
            best = Some((n, c));
        }
    }
    let (n, c) = best.unwrap();
    if n == 0 {
        return Some(false);
    }
    for m in usable.iter().filter(|m| *m >> c & 1 == 1) {
        if coverable(&usable, left & !m, budget)? {
            return Some(true);
        }
    }
    Some(false)
}

const BUDGET: u64 = 20_000;

fn all(cols: usize) -> u128 {
    if cols == 128 {
        !0
    } else {
        (1u128 << cols) - 1
    }
}

fn random_rows() -> impl Strategy<Value = Matrix> {
    (0usize..13, 0usize..26, 5usize..70, any::<u64>()).prop_map(|(cols, rows, density, seed)| {
        let mut m = Mix::new(seed);
        let rows: Vec<Vec<usize>> =
            (0..rows).map(|_| (0..cols).filter(|_| m.below(100) < density).collect()).collect();
        Matrix::of_rows(cols, &rows)
    })
}

/// One or more hidden covers, perhaps damaged, and decoys.
fn planted() -> impl Strategy<Value = Matrix> {
    (2usize..25, 1usize..4, 0usize..30, 0usize..3, any::<u64>()).prop_map(|(cols, covers, decoys, damage, seed)| {
        let mut m = Mix::new(seed);
        let mut rows: Vec<Vec<usize>> = Vec::new();
        for _ in 0..covers {
            let mut order: Vec<usize> = (0..cols).collect();
            m.shuffle(&mut order);
            let mut at = 0;
            while at < cols {
                let n = (1 + m.below(4)).min(cols - at);
                rows.push(order[at..at + n].to_vec());
                at += n;
            }
        }
        for _ in 0..decoys {
            let mut order: Vec<usize> = (0..cols).collect();
            m.shuffle(&mut order);
            order.truncate(1 + m.below(4.min(cols)));
            rows.push(order);
        }
        for _ in 0..damage {
            // A constraint added to or taken from a row.
            let r = m.below(rows.len());
            let c = m.below(cols);
            match rows[r].iter().position(|x| *x == c) {
                Some(i) => drop(rows[r].swap_remove(i)),
                None => rows[r].push(c),
            }
        }
        m.shuffle(&mut rows);
        Matrix::of_rows(cols, &rows)
    })
}

/// Dominoes on a small board with holes: long searches, and parity makes many boards impossible.
fn dominoes() -> impl Strategy<Value = Matrix> {
    (1usize..7, 1usize..7, 0usize..5, any::<u64>()).prop_map(|(w, h, holes, seed)| {
        let mut m = Mix::new(seed);
        let mut cell = vec![true; w * h];
        for _ in 0..holes {
            cell[m.below(w * h)] = false;
        }
        let names: Vec<usize> = cell
            .iter()
            .scan(0, |n, c| {
                *n += *c as usize;
                Some(*n - *c as usize)
            })
            .collect();
        let mut rows = Vec::new();
        for y in 0..h {
            for x in 0..w {
                let i = y * w + x;
                if x + 1 < w && cell[i] && cell[i + 1] {
                    rows.push(vec![names[i], names[i + 1]]);
                }
                if y + 1 < h && cell[i] && cell[i + w] {
                    rows.push(vec![names[i], names[i + w]]);
                }
            }
        }
        m.shuffle(&mut rows);
        Matrix::of_rows(cell.iter().filter(|c| **c).count(), &rows)
    })
}

/// Latin squares: the structure of a sudoku, in small.
fn latin() -> impl Strategy<Value = Matrix> {
    (1usize..5).prop_map(|n| {
        let mut rows = Vec::new();
        for r in 0..n {
            for c in 0..n {
                for v in 0..n {
                    rows.push(vec![r * n + c, n * n + r * n + v, 2 * n * n + c * n + v]);
                }
            }
        }
        Matrix::of_rows(3 * n * n, &rows)
    })
}

fn matrices() -> impl Strategy<Value = Matrix> {
    let base = prop_oneof![
        4 => random_rows().boxed(),
        4 => planted().boxed(),
        2 => dominoes().boxed(),
        1 => latin().boxed(),
    ];
    (base, any::<u64>(), prop_oneof![3 => Just(0usize), 1 => 0usize..6], any::<bool>())
        .prop_map(|(m, seed, gaps, shuffle)| m.scrambled(seed, gaps, shuffle))
}

fn drop_one(m: &Matrix) -> Vec<Matrix> {
    let mut out = Vec::new();
    for c in 0..m.cols.len() {
        let mut k = m.clone();
        k.cols.remove(c);
        out.push(k);
    }
    for r in (0..m.rows()).rev() {
        let mut k = m.clone();
        for c in &mut k.cols {
            c.retain(|x| *x != r);
            for x in c.iter_mut() {
                *x -= (*x > r) as usize;
            }
        }
        out.push(k);
    }
    for c in 0..m.cols.len() {
        for i in 0..m.cols[c].len() {
            let mut k = m.clone();
            k.cols[c].remove(i);
            out.push(k);
        }
    }
    for c in 0..m.cols.len() {
        let mut k = m.clone();
        k.cols[c].sort_unstable();
        if k.cols[c] != m.cols[c] {
            out.push(k);
        }
    }
    out
}

/// The answer is an exact cover that contains the rows in `must`.
fn judge_cover(m: &Matrix, must: &[usize], answer: &[usize]) -> Res {
    let masks = m.masks();
    let mut left = all(m.cols.len());
    for (i, &r) in answer.iter().enumerate() {
        ensure!(r < masks.len(), "the answer {answer:?} names row {r}, which does not exist");
        ensure!(!answer[..i].contains(&r), "the answer {answer:?} names row {r} twice");
        ensure!(masks[r] != 0, "the answer {answer:?} names row {r}, which satisfies nothing");
        ensure!(masks[r] & !left == 0, "the answer {answer:?} satisfies a constraint twice, by row {r}");
        left &= !masks[r];
    }
    ensure!(left == 0, "the answer {answer:?} leaves constraint {} unsatisfied", left.trailing_zeros());
    for r in must {
        ensure!(answer.contains(r), "the answer {answer:?} lacks the pre-selected row {r}");
    }
    Ok(())
}

/// Rows that satisfy the same constraints are interchangeable.
fn distinct(masks: &[u128]) -> Vec<u128> {
    let mut out = masks.to_vec();
    out.sort_unstable();
    out.dedup();
    out
}

fn judge_solve(m: &Matrix, must: &[usize], got: Result<Vec<usize>, DancingLinksError>, cx: &mut Cx) -> Res {
    let masks = m.masks();
    match got {
        Ok(answer) => {
            cx.label("covered");
            judge_cover(m, must, &answer)
        }
        Err(DancingLinksError::NoSolution) => {
            let left = must.iter().fold(all(m.cols.len()), |l, &r| l & !masks[r]);
            match coverable(&distinct(&masks), left, &mut { BUDGET * 50 }) {
                Some(true) => Err(format!("no solution, although there is one (with the rows {must:?})")),
                Some(false) => {
                    cx.label("no cover");
                    Ok(())
                }
                None => {
                    cx.discarded = true;
                    Ok(())
                }
            }
        }
        Err(e) => Err(format!("solving fails with {e:?}")),
    }
}

/// The engine may need long where the reference does.
fn affordable(m: &Matrix, must: &[usize]) -> bool {
    let masks = m.masks();
    let left = must.iter().fold(all(m.cols.len()), |l, &r| l & !masks[r]);
    coverable(&masks, left, &mut { BUDGET }).is_some()
}

fn solves(m: &Matrix, cx: &mut Cx) -> Res {
    if !affordable(m, &[]) {
        cx.discarded = true;
        return Ok(());
    }
    cx.nontrivial = m.cols.len() > 1 && m.rows() > 1;
    cx.label_if(m.cols.iter().any(|c| c.is_empty()), "constraint without rows");
    cx.label_if(m.masks().contains(&0), "row without constraints");
    let got = guard("solve", || m.engine().solve())?;
    judge_solve(m, &[], got, cx)
}

/// All matrices of 3 rows and up to 4 constraints, and more.
fn tiny(i: u64) -> Matrix {
    let cols = 4;
    let rows: Vec<Vec<usize>> =
        (0..4).map(|r| (0..cols).filter(|c| i >> (r * cols + c) & 1 == 1).collect()).collect();
    Matrix::of_rows(cols, &rows)
}

// ------------------------------------------------------------------ histories

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    m: Matrix,
    requests: Vec<usize>,
}

fn histories() -> impl Strategy<Value = History> {
    (matrices(), prop::collection::vec((0u8..10, any::<prop::sample::Index>()), 0..10)).prop_map(|(m, picks)| {
        let rows = m.rows();
        let masks = m.masks();
        let mut requests: Vec<usize> = Vec::new();
        let mut left = all(m.cols.len());
        for (kind, i) in picks {
            let fits: Vec<usize> = (0..rows).filter(|&r| masks[r] != 0 && masks[r] & !left == 0).collect();
            let r = match kind {
                0..=4 if !fits.is_empty() => fits[i.index(fits.len())],
                // Shares a constraint with one that was asked for.
                5 | 6 if !requests.is_empty() => {
                    let q = requests[i.index(requests.len())];
                    let near: Vec<usize> =
                        (0..rows).filter(|&r| q < rows && masks[r] & masks[q] != 0).collect();
                    if near.is_empty() { q } else { near[i.index(near.len())] }
                }
                7 => rows + i.index(3),
                _ => i.index(rows + 1),
            };
            if r < rows && masks[r] != 0 && masks[r] & !left == 0 {
                left &= !masks[r];
            }
            requests.push(r);
        }
        History { m, requests }
    })
}

fn shrink_history(h: &History) -> Vec<History> {
    let mut out = Vec::new();
    for i in 0..h.requests.len() {
        let mut k = h.clone();
        k.requests.remove(i);
        out.push(k);
    }
    let rows = h.m.rows();
    for m in drop_one(&h.m) {
        out.push(History { m, requests: h.requests.clone() });
    }
    // Drop a row and rename the requests.
    for r in (0..rows).rev() {
        if h.requests.contains(&r) {
            continue;
        }
        let mut k = h.clone();
        for c in &mut k.m.cols {
            c.retain(|x| *x != r);
            for x in c.iter_mut() {
                *x -= (*x > r) as usize;
            }
        }
        for q in &mut k.requests {
            *q -= (*q > r) as usize;
        }
        out.push(k);
    }
    out
}

fn preselects(h: &History, cx: &mut Cx) -> Res {
    requested(h, cx, false)
}

fn requested(h: &History, cx: &mut Cx, cheap: bool) -> Res {
    let m = &h.m;
    let masks = m.masks();
    let mut left = all(m.cols.len());
    let mut accepted: Vec<usize> = Vec::new();
    // Without the engine first: which requests hold, and whether the rest is affordable.
    for &r in &h.requests {
        if r < masks.len() && masks[r] != 0 && masks[r] & !left == 0 {
            left &= !masks[r];
            accepted.push(r);
        }
    }
    if !cheap && !affordable(m, &accepted) {
        cx.discarded = true;
        return Ok(());
    }
    let got = guard("pre-selecting and solving", || {
        let mut e = m.engine();
        let mut log = Vec::new();
        for &r in &h.requests {
            log.push(e.add_solution(r));
        }
        (log, e.solve())
    })?;
    let (log, answer) = got;
    let mut left = all(m.cols.len());
    let mut n = 0;
    for (k, (&r, got)) in h.requests.iter().zip(&log).enumerate() {
        let at = || format!("request {k} of {:?} on {} rows: row {r}", h.requests, masks.len());
        if r >= masks.len() {
            cx.label("out of range");
            ensure!(matches!(got, Err(DancingLinksError::IndexError)), "{} is out of range, but the answer is {got:?}", at());
        } else if masks[r] != 0 && masks[r] & !left == 0 {
            ensure!(got.is_ok(), "{} fits, but is refused: {got:?}", at());
            left &= !masks[r];
            n += 1;
        } else {
            cx.label(if masks[r] == 0 { "row without constraints requested" } else { "conflict" });
            ensure!(got.is_err(), "{} {}, but is accepted", at(), if masks[r] == 0 { "satisfies nothing" } else { "conflicts with an earlier one" });
            ensure!(!matches!(got, Err(DancingLinksError::IndexError)), "{} exists, but is refused as out of range", at());
        }
    }
    cx.nontrivial = n > 0 && m.rows() > 2;
    cx.label_if(n > 1, "several pre-selected");
    judge_solve(m, &accepted, answer, cx).map_err(|e| format!("after the requests {:?}: {e}", h.requests))
}

// ------------------------------------------------------------------ large matrices

/// Many small independent blocks, each with a hidden cover and up to two decoys.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Blocks {
    blocks: u32,
    /// row numbers that are not used
    gap: u32,
    shuffle: bool,
    /// what to request: kind and choice
    picks: Vec<(u8, u32)>,
    seed: u64,
    /// most constraints of a block and of a row, if not twelve and four
    #[serde(default)]
    wide: u32,
}

struct Built {
    m: Matrix,
    /// the constraints of each row
    of_row: Vec<Vec<u32>>,
    /// rows of the hidden cover, and decoys
    cover: Vec<usize>,
    decoys: Vec<usize>,
}

fn build(b: &Blocks) -> Built {
    let mut m = Mix::new(b.seed);
    // (constraints, is a decoy)
    let mut rows: Vec<(Vec<usize>, bool)> = Vec::new();
    let mut cols = 0;
    for _ in 0..b.blocks {
        let (most, longest) = if b.wide > 0 { (b.wide as usize, b.wide as usize) } else { (12, 4) };
        let n = 1 + m.below(most);
        let mut order: Vec<usize> = (cols..cols + n).collect();
        m.shuffle(&mut order);
        let mut at = 0;
        while at < n {
            let k = (1 + m.below(longest)).min(n - at);
            rows.push((order[at..at + k].to_vec(), false));
            at += k;
        }
        for _ in 0..m.below(3) {
            m.shuffle(&mut order);
            rows.push((order[..1 + m.below(n.min(longest))].to_vec(), true));
        }
        cols += n;
    }
    m.shuffle(&mut rows);
    let mut names: Vec<usize> = (0..rows.len() + b.gap as usize).collect();
    m.shuffle(&mut names);
    let mut out = Built {
        m: Matrix { cols: vec![Vec::new(); cols] },
        of_row: vec![Vec::new(); names.len()],
        cover: Vec::new(),
        decoys: Vec::new(),
    };
    for ((cs, decoy), &name) in rows.iter().zip(&names) {
        for &c in cs {
            out.m.cols[c].push(name);
        }
        out.of_row[name] = cs.iter().map(|&c| c as u32).collect();
        if *decoy { &mut out.decoys } else { &mut out.cover }.push(name);
    }
    // Rows above the largest used one do not exist.
    out.of_row.truncate(out.m.rows());
    for c in &mut out.m.cols {
        if b.shuffle {
            m.shuffle(c);
        } else {
            c.sort_unstable();
        }
    }
    out
}

fn blocks(requests: usize) -> impl Strategy<Value = Blocks> {
    (
        prop_oneof![3 => 5u32..60, 1 => 60u32..250],
        prop_oneof![3 => Just(0u32), 2 => 0u32..2000, 1 => 60_000u32..140_000],
        any::<bool>(),
        prop::collection::vec((0u8..8, any::<u32>()), 0..=requests),
        any::<u64>(),
        prop_oneof![3 => Just(0u32), 1 => 13u32..80, 1 => 80u32..700],
    )
        .prop_map(|(blocks, gap, shuffle, picks, seed, wide)| Blocks {
            // Long rows in fewer blocks.
            blocks: if wide > 80 { 1 + blocks / 8 } else { blocks },
            gap,
            shuffle,
            picks,
            seed,
            wide,
        })
}

fn large(b: &Blocks, cx: &mut Cx) -> Res {
    let t = build(b);
    let n = t.of_row.len();
    cx.nontrivial = true;
    cx.label_if(t.m.cols.len() > 128, "over 128 constraints");
    let longest = t.of_row.iter().map(|c| c.len()).max().unwrap_or(0);
    cx.label_if(longest > 16, "a row with over 16 constraints");
    cx.label_if(longest > 256, "a row with over 256 constraints");
    cx.label_if(n > 1000, "over 1000 rows");
    cx.label_if(n > 65_536, "over 65536 rows");
    // The requests, and what is to become of them. Decoys are asked for only where they conflict.
    let mut taken = vec![false; t.m.cols.len()];
    let mut requests: Vec<(usize, bool)> = Vec::new();
    let mut must = Vec::new();
    for &(kind, i) in &b.picks {
        let pool = match kind {
            0..=4 => &t.cover,
            _ => &t.decoys,
        };
        let i = i as usize;
        let r = match kind {
            7 => n + i % 3,
            _ if pool.is_empty() => i % n,
            _ => pool[i % pool.len()],
        };
        let fits = r < n && !t.of_row[r].is_empty() && t.of_row[r].iter().all(|&c| !taken[c as usize]);
        if fits && !t.cover.contains(&r) {
            continue;
        }
        if fits {
            t.of_row[r].iter().for_each(|&c| taken[c as usize] = true);
            must.push(r);
        }
        requests.push((r, fits));
    }
    cx.label_if(must.len() > 100, "over 100 rows pre-selected");
    judge_large(&t.m, &t.of_row, &requests, true)
}

/// Makes the requests, each with whether it fits, and solves. Afterwards there is a cover as `coverable` says.
fn judge_large(m: &Matrix, of_row: &[Vec<u32>], requests: &[(usize, bool)], coverable: bool) -> Res {
    let n = of_row.len();
    let (log, answer) = guard("pre-selecting and solving", || {
        let mut e = m.engine();
        let log: Vec<_> = requests.iter().map(|r| e.add_solution(r.0)).collect();
        (log, e.solve())
    })?;
    for (&(r, fits), got) in requests.iter().zip(&log) {
        if r >= n {
            ensure!(matches!(got, Err(DancingLinksError::IndexError)), "row {r} of {n} is out of range, but the answer is {got:?}");
        } else if fits {
            ensure!(got.is_ok(), "row {r} of {n} fits, but is refused: {got:?}");
        } else {
            ensure!(matches!(got, Err(DancingLinksError::InvalidRow | DancingLinksError::NoSolution)), "row {r} of {n} cannot be selected, but the answer is {got:?}");
        }
    }
    let answer = match answer {
        Ok(a) => a,
        Err(DancingLinksError::NoSolution) if !coverable => return Ok(()),
        Err(e) => return Err(format!("a matrix of {} constraints and {n} rows with{} a cover by construction: {e:?}", m.cols.len(), if coverable { "" } else { "out" })),
    };
    let mut left = vec![true; m.cols.len()];
    for &r in &answer {
        ensure!(r < n && !of_row[r].is_empty(), "the answer names row {r} of {n}, which does not exist or satisfies nothing");
        for &c in &of_row[r] {
            ensure!(std::mem::take(&mut left[c as usize]), "the answer satisfies constraint {c} twice");
        }
    }
    ensure!(!left.contains(&true), "the answer leaves constraint {:?} unsatisfied", left.iter().position(|l| *l));
    for &(r, fits) in requests {
        ensure!(!fits || answer.contains(&r), "the answer lacks the pre-selected row {r}");
    }
    ensure!(coverable, "a matrix without a cover by construction is covered by {answer:?}");
    Ok(())
}

fn fewer_blocks(b: &Blocks) -> Vec<Blocks> {
    let mut out = Vec::new();
    for blocks in [b.blocks / 2, b.blocks - 1] {
        if blocks > 0 && blocks < b.blocks {
            out.push(Blocks { blocks, ..b.clone() });
        }
    }
    for wide in [0, b.wide / 2, b.wide.saturating_sub(1)] {
        if wide < b.wide {
            out.push(Blocks { wide, ..b.clone() });
        }
    }
    for gap in [0, b.gap / 2] {
        if gap < b.gap {
            out.push(Blocks { gap, ..b.clone() });
        }
    }
    for i in 0..b.picks.len() {
        let mut k = b.clone();
        k.picks.remove(i);
        out.push(k);
    }
    out
}

// ------------------------------------------------------------------ constraints with many rows

/// Few constraints, but many rows, most of them interchangeable.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tall {
    cols: usize,
    /// constraints satisfied (as bits), and by how many rows
    types: Vec<(u8, u32)>,
    gaps: usize,
    shuffle: bool,
    /// which rows to request: type (modulo) and number within the type (modulo)
    picks: Vec<(u8, u32)>,
    seed: u64,
}

fn tall(requests: usize) -> impl Strategy<Value = Tall> {
    let near = || {
        prop_oneof![
            3 => 1u32..300,
            3 => 250u32..262,
            2 => 1_000u32..9_000,
            2 => 65_530u32..65_545,
            1 => 60_000u32..140_000,
        ]
    };
    // Blocks: all rows of a block satisfy the same constraints, so no search.
    let blocks = prop::collection::vec((1usize..4, near()), 1..4).prop_map(|b| {
        let (mut at, mut types) = (0, Vec::new());
        for (n, rows) in b {
            types.push((((1u32 << n) - 1 << at) as u8, rows.min(140_000)));
            at += n;
        }
        (at.min(8), types)
    });
    // Up to three constraints, any types: a short search.
    let short = (1usize..4).prop_flat_map(|cols| {
        (
            Just(cols),
            prop::collection::vec((0u8..1 << cols, prop_oneof![2 => 1u32..40, 1 => 120u32..135, 2 => 250u32..262, 1 => 1u32..300]), 1..5),
        )
    });
    (
        prop_oneof![1 => blocks.boxed(), 1 => short.boxed()],
        prop_oneof![3 => Just(0usize), 1 => 0usize..300],
        any::<bool>(),
        prop::collection::vec((any::<u8>(), any::<u32>()), 0..=requests),
        any::<u64>(),
    )
        .prop_map(|((cols, mut types), gaps, shuffle, picks, seed)| {
            types.iter_mut().for_each(|t| t.0 &= ((1u32 << cols) - 1) as u8);
            Tall { cols, types, gaps, shuffle, picks, seed }
        })
}

fn many_rows(t: &Tall, cx: &mut Cx) -> Res {
    let mut rows: Vec<u8> = t.types.iter().flat_map(|&(m, n)| std::iter::repeat_n(m, n as usize)).collect();
    Mix::new(t.seed).shuffle(&mut rows);
    let sets: Vec<Vec<usize>> = rows.iter().map(|m| (0..t.cols).filter(|c| m >> c & 1 == 1).collect()).collect();
    let m = Matrix::of_rows(t.cols, &sets).scrambled(t.seed, t.gaps, t.shuffle);
    let masks = m.masks();
    let requests = t
        .picks
        .iter()
        .map(|&(k, i)| {
            let want = t.types[k as usize % t.types.len()].0 as u128;
            let pool: Vec<usize> = (0..masks.len()).filter(|&r| masks[r] == want).collect();
            match pool.len() {
                _ if k >= 230 => masks.len() + (i % 3) as usize,
                0 => i as usize % (masks.len() + 1),
                n => pool[i as usize % n],
            }
        })
        .collect();
    let most = m.cols.iter().map(|c| c.len()).max().unwrap_or(0);
    requested(&History { m, requests }, cx, true).map_err(|e| e.chars().take(600).collect::<String>())?;
    cx.nontrivial = most >= 250;
    cx.label_if(most > 255, "a constraint with over 255 rows");
    cx.label_if(most > 65_535, "a constraint with over 65535 rows");
    Ok(())
}

fn fewer_rows(t: &Tall) -> Vec<Tall> {
    let mut out = Vec::new();
    for i in 0..t.types.len() {
        for n in [0, t.types[i].1 / 2, t.types[i].1.saturating_sub(1)] {
            if n < t.types[i].1 {
                let mut k = t.clone();
                if n == 0 {
                    if k.types.len() == 1 {
                        continue;
                    }
                    k.types.remove(i);
                } else {
                    k.types[i].1 = n;
                }
                out.push(k);
            }
        }
    }
    for i in 0..t.picks.len() {
        let mut k = t.clone();
        k.picks.remove(i);
        out.push(k);
    }
    if t.gaps > 0 {
        out.push(Tall { gaps: 0, ..t.clone() });
    }
    if t.shuffle {
        out.push(Tall { shuffle: false, ..t.clone() });
    }
    out
}

const TALL: &str = "up to eight constraints with up to 140000 rows each, often around 256 and 65536, most rows interchangeable; non-trivial: a constraint with 250 rows and more";

// ------------------------------------------------------------------ long chains of consequences

/// Rings of constraints with rows that satisfy two neighbours each, and a few rows that satisfy a single one: a wrong
/// choice shows only after a long chain of forced ones, which all have to be taken back.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chains {
    rings: Vec<Ring>,
    shuffle: bool,
    gap: u32,
    /// requests: ring, place in it, whether the row of two constraints
    picks: Vec<(u8, u32, bool)>,
    seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ring {
    len: u32,
    /// constraints (modulo the length) that have a row of their own
    alone: Vec<u32>,
    /// pairs (modulo the length) that have no row
    missing: Vec<u32>,
}

fn chains(requests: usize) -> impl Strategy<Value = Chains> {
    let ring = |len: BoxedStrategy<u32>| {
        (len, prop::collection::vec(any::<u32>(), 0..3), prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec(any::<u32>(), 0..3)])
            .prop_map(|(len, alone, missing)| Ring { len, alone, missing })
    };
    let len = prop_oneof![1 => 3u32..12, 3 => 10u32..200].boxed();
    (
        prop_oneof![
            5 => prop::collection::vec(ring(len), 1..4),
            1 => prop::collection::vec(ring((200u32..1500).boxed()), 1..2),
        ],
        any::<bool>(),
        prop_oneof![3 => Just(0u32), 1 => 0u32..3000],
        prop::collection::vec((any::<u8>(), any::<u32>(), prop::bool::weighted(0.8)), 0..=requests),
        any::<u64>(),
    )
        .prop_map(|(rings, shuffle, gap, picks, seed)| Chains { rings, shuffle, gap, picks, seed })
}

/// Whether what is left of a ring can be covered: pair `i` satisfies `i` and `i + 1`.
fn ring_coverable(pair: &[bool], alone: &[bool], done: &[bool]) -> bool {
    let n = pair.len();
    [false, true].into_iter().any(|wrap| {
        if wrap && !pair[n - 1] {
            return false;
        }
        // Whether pair i is selected, or not, is possible.
        let mut may = [!wrap, wrap];
        for i in 0..n {
            may = if done[i] {
                [may[0], false]
            } else {
                [may[1] || may[0] && alone[i], may[0] && pair[i]]
            };
        }
        may[wrap as usize]
    })
}

fn chained(b: &Chains, cx: &mut Cx) -> Res {
    let mut rows: Vec<Vec<u32>> = Vec::new();
    // For each ring: where it starts, numbers of the rows of pairs and single ones.
    let mut rings: Vec<(usize, Vec<Option<usize>>, Vec<Option<usize>>)> = Vec::new();
    let mut cols = 0;
    for ring in &b.rings {
        let n = ring.len.max(3) as usize;
        let mut pair = vec![None; n];
        let mut alone = vec![None; n];
        for i in 0..n {
            if !ring.missing.iter().any(|m| *m as usize % n == i) {
                pair[i] = Some(rows.len());
                rows.push(vec![(cols + i) as u32, (cols + (i + 1) % n) as u32]);
            }
        }
        for a in &ring.alone {
            let i = *a as usize % n;
            if alone[i].is_none() {
                alone[i] = Some(rows.len());
                rows.push(vec![(cols + i) as u32]);
            }
        }
        rings.push((cols, pair, alone));
        cols += n;
    }
    let mut mix = Mix::new(b.seed);
    let mut names: Vec<usize> = (0..rows.len() + b.gap as usize).collect();
    mix.shuffle(&mut names);
    let mut m = Matrix { cols: vec![Vec::new(); cols] };
    let mut of_row = vec![Vec::new(); names.len()];
    for (cs, &name) in rows.iter().zip(&names) {
        for &c in cs {
            m.cols[c as usize].push(name);
        }
        of_row[name] = cs.clone();
    }
    of_row.truncate(m.rows());
    for c in &mut m.cols {
        if b.shuffle {
            mix.shuffle(c);
        } else {
            c.sort_unstable();
        }
    }
    let mut done = vec![false; cols];
    let mut requests = Vec::new();
    for &(k, i, two) in &b.picks {
        let (_, pair, alone) = &rings[k as usize % rings.len()];
        let some: Vec<usize> = if two { pair } else { alone }.iter().flatten().copied().collect();
        if some.is_empty() {
            continue;
        }
        let r = names[some[i as usize % some.len()]];
        let fits = of_row[r].iter().all(|&c| !done[c as usize]);
        if fits {
            of_row[r].iter().for_each(|&c| done[c as usize] = true);
        }
        requests.push((r, fits));
    }
    let free = |r: &Option<usize>| r.is_some_and(|r| rows[r].iter().all(|&c| !done[c as usize]));
    let coverable = rings.iter().all(|(at, pair, alone)| {
        ring_coverable(&pair.iter().map(free).collect::<Vec<_>>(), &alone.iter().map(free).collect::<Vec<_>>(), &done[*at..*at + pair.len()])
    });
    cx.nontrivial = cols >= 10;
    cx.label(if coverable { "covered" } else { "no cover" });
    cx.label_if(cols > 200, "over 200 constraints");
    cx.label_if(requests.iter().any(|r| r.1), "a row pre-selected");
    judge_large(&m, &of_row, &requests, coverable)
}

fn shorter_chains(b: &Chains) -> Vec<Chains> {
    let mut out = Vec::new();
    for i in 0..b.rings.len() {
        if b.rings.len() > 1 {
            let mut k = b.clone();
            k.rings.remove(i);
            out.push(k);
        }
        let len = b.rings[i].len;
        for l in [len / 2, len / 2 + 1, len - 1, len - 2.min(len)] {
            if l >= 3 && l < len {
                let mut k = b.clone();
                k.rings[i].len = l;
                out.push(k);
            }
        }
        for j in 0..b.rings[i].alone.len() {
            let mut k = b.clone();
            k.rings[i].alone.remove(j);
            out.push(k);
        }
        for j in 0..b.rings[i].missing.len() {
            let mut k = b.clone();
            k.rings[i].missing.remove(j);
            out.push(k);
        }
    }
    for i in 0..b.picks.len() {
        let mut k = b.clone();
        k.picks.remove(i);
        out.push(k);
    }
    if b.gap > 0 {
        out.push(Chains { gap: 0, ..b.clone() });
    }
    out
}

const CHAINS: &str = "up to three rings of up to 1500 constraints, rows of two neighbours and a few of one, so that a wrong choice shows only at the end of a long chain of forced ones; non-trivial: ten constraints and more";

// ------------------------------------------------------------------ S06, engine

fn engine_clean(h: &History, cx: &mut Cx) -> Res {
    let m = &h.m;
    let masks = m.masks();
    let mut left = all(m.cols.len());
    let mut accepted = Vec::new();
    for &r in &h.requests {
        if r < masks.len() && masks[r] != 0 && masks[r] & !left == 0 {
            left &= !masks[r];
            accepted.push(r);
        }
    }
    if !affordable(m, &accepted) {
        cx.discarded = true;
        return Ok(());
    }
    let r = crate::alloc::balanced(cx, || {
        guard("engine", || {
            let mut e = m.engine();
            for &r in &h.requests {
                let _ = e.add_solution(r);
            }
            // Every third history drops the engine unsolved.
            if h.requests.len() % 3 == 2 {
                drop(e);
                "dropped unsolved"
            } else if e.solve().is_ok() {
                "covered"
            } else {
                "no cover"
            }
        })
        .ok()
    });
    cx.nontrivial = m.rows() > 1 && m.cols.len() > 1;
    r
}

pub fn s06() -> Property {
    let mut suites = super::sudoku::s06_suites();
    suites.push(
        Suite::random("engine", "matrices with pre-selection histories, solved or dropped; non-trivial: two rows and constraints and more", 24_000, 800_000, |_| histories(), engine_clean)
            .with_shrink(shrink_history),
    );
    Property {
        id: "S06",
        assumptions: &[
            "AddressSanitizer sees accesses to freed or foreign memory, the tracking allocator sees unbalanced or mismatched frees",
            "puzzles that the reference solver cannot decide in its budget are left out",
        ],
        suites,
    }
}

pub fn x01() -> Property {
    Property {
        id: "X01",
        assumptions: &["arbitrary matrices have up to 128 constraints, larger ones consist of coverable blocks; a constraint lists each row at most once"],
        suites: vec![
            Suite::random("matrices", "random matrices, hidden covers with decoys and damage, domino boards, Latin squares; rows renamed, lists reordered; non-trivial: two rows and constraints and more", 60_000, 2_000_000, |_| matrices(), solves)
                .with_shrink(drop_one),
            Suite::enumerated("tiny", "all matrices of 4 rows and 4 constraints", 1 << 16, 1 << 16, 1 << 16, tiny, solves),
            Suite::random("large", "up to 250 independent blocks with a hidden cover each, rows of up to 700 constraints, over 1500 constraints, row numbers up to 140000; every case counts", 2_000, 60_000, |_| blocks(0), large)
                .with_shrink(fewer_blocks).batches(),
            Suite::random("tall", TALL, 400, 12_000, |_| tall(0), many_rows).with_shrink(fewer_rows).batches(),
            Suite::random("chains", CHAINS, 3_000, 100_000, |_| chains(0), chained).with_shrink(shorter_chains).batches(),
        ],
    }
}

pub fn x02() -> Property {
    Property {
        id: "X02",
        assumptions: &["arbitrary matrices have up to 128 constraints, larger ones consist of coverable blocks; a constraint lists each row at most once"],
        suites: vec![Suite::random("large", "up to 250 independent blocks with a hidden cover each, rows of up to 700 constraints, and up to 300 requests; every case counts", 2_000, 60_000, |_| blocks(300), large)
            .with_shrink(fewer_blocks).batches(),
        Suite::random("tall", TALL, 400, 12_000, |_| tall(6), many_rows).with_shrink(fewer_rows).batches(),
        Suite::random("chains", CHAINS, 3_000, 100_000, |_| chains(8), chained).with_shrink(shorter_chains).batches(),
        Suite::random("histories", "matrices as in X01 and up to nine requests: fitting, conflicting, repeated, out of range; non-trivial: something is accepted among three rows and more", 80_000, 2_500_000, |_| histories(), preselects)
            .with_shrink(shrink_history)],
    }
}

// ------------------------------------------------------------------ X03

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    Add,
    Union(usize, usize),
    Common(usize, usize),
    Find(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ops {
    start: Option<usize>,
    ops: Vec<Op>,
}

fn ops() -> impl Strategy<Value = Ops> {
    let id = || prop_oneof![10 => 0usize..14, 1 => 0usize..60, 1 => Just(usize::MAX)];
    let op = prop_oneof![
        2 => Just(Op::Add),
        5 => (id(), id()).prop_map(|(a, b)| Op::Union(a, b)),
        2 => (id(), id()).prop_map(|(a, b)| Op::Common(a, b)),
        2 => id().prop_map(Op::Find),
    ];
    (prop::option::of(prop_oneof![3 => 0usize..14, 1 => 0usize..40]), prop::collection::vec(op, 0..50))
        .prop_map(|(start, ops)| Ops { start, ops })
}

/// Longer histories on more elements, with few unions or many.
fn busy() -> impl Strategy<Value = Ops> {
    (2usize..300, 1u32..9, prop::bool::ANY).prop_flat_map(|(n, unions, balanced)| {
        let id = 0..n + 1;
        let op = prop_oneof![
            1 => Just(Op::Add),
            unions => (id.clone(), id.clone(), 0u32..9).prop_map(move |(a, b, k)| if balanced {
                // Neighbours at a distance of a power of two, so that sets of one size meet.
                let a = a >> k << k;
                Op::Union(a, a ^ (1 << k))
            } else {
                Op::Union(a, b)
            }),
            2 => (id.clone(), id.clone()).prop_map(|(a, b)| Op::Common(a, b)),
            2 => id.prop_map(Op::Find),
        ];
        prop::collection::vec(op, 100..1_500).prop_map(move |ops| Ops { start: Some(n), ops })
    })
}

fn partition(o: &Ops, cx: &mut Cx) -> Res {
    let mut label: Vec<usize> = (0..o.start.unwrap_or(0)).collect();
    let mut merges = 0;
    guard("disjoint set", || -> Res {
        let mut s = match o.start {
            Some(n) => DisjointSet::with_size(n),
            None => DisjointSet::new(),
        };
        for (k, op) in o.ops.iter().enumerate() {
            let at = || format!("operation {k} ({op:?}) of {:?}", o);
            let n = label.len();
            match *op {
                Op::Add => {
                    s.add();
                    label.push(n);
                }
                Op::Union(a, b) => {
                    let r = s.union(a, b);
                    ensure!(r.is_some() == (a < n && b < n), "{} returns {r:?} on {n} elements", at());
                    if a < n && b < n && label[a] != label[b] {
                        let (from, to) = (label[a], label[b]);
                        label.iter_mut().filter(|l| **l == from).for_each(|l| *l = to);
                        merges += 1;
                    }
                }
                Op::Common(a, b) => {
                    let want = (a < n && b < n).then(|| label[a] == label[b]);
                    let got = s.common_set(a, b);
                    ensure!(got == want, "{} returns {got:?}, expected {want:?}", at());
                }
                Op::Find(a) => {
                    let got = s.find(a);
                    match got {
                        None => ensure!(a >= n, "{} returns nothing on {n} elements", at()),
                        Some(r) => {
                            ensure!(a < n, "{} returns {r} on {n} elements", at());
                            ensure!(r < n && label[r] == label[a], "{} returns {r}, which is not in the set of {a}", at());
                        }
                    }
                }
            }
        }
        // The partition as a whole.
        let n = label.len();
        let reps: Vec<Option<usize>> = (0..n).map(|i| s.find(i)).collect();
        for i in 0..n {
            let r = reps[i];
            ensure!(r.is_some_and(|r| r < n && label[r] == label[i]), "at the end of {o:?}: the representative of {i} is {r:?}");
            for j in 0..n {
                let same = label[i] == label[j];
                ensure!((reps[i] == reps[j]) == same, "at the end of {o:?}: representatives of {i} and {j} are {:?} and {:?}", reps[i], reps[j]);
                let c = s.common_set(i, j);
                ensure!(c == Some(same), "at the end of {o:?}: common_set({i}, {j}) = {c:?}");
            }
        }
        ensure!(s.find(n).is_none() && s.common_set(n, 0).is_none() && s.common_set(0, n).is_none() && s.union(n, 0).is_none() && s.union(0, n).is_none(),
            "at the end of {o:?}: element {n} does not exist, but something is returned for it");
        Ok(())
    })??;
    cx.nontrivial = merges >= 2;
    cx.label_if(merges >= 5, "five merges and more");
    cx.label_if(o.ops.iter().any(|o| matches!(o, Op::Add)), "grows");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    n: usize,
    shape: u8,
    seed: u64,
}

/// Many elements merged in an order that is bad for one strategy or another.
fn many(b: &Big, cx: &mut Cx) -> Res {
    cx.nontrivial = b.n > 100;
    let n = b.n;
    let mut m = Mix::new(b.seed);
    let mut pairs: Vec<(usize, usize)> = match b.shape {
        0 => (1..n).map(|i| (i - 1, i)).collect(),
        1 => (1..n).map(|i| (i, i - 1)).collect(),
        2 => (1..n).rev().map(|i| (i - 1, i)).collect(),
        3 => (1..n).rev().map(|i| (i, i - 1)).collect(),
        4 => (1..n).map(|i| (0, i)).collect(),
        5 => (1..n).map(|i| (i, 0)).collect(),
        6 | 7 => {
            let mut v = Vec::new();
            let mut step = 1;
            while step < n {
                let mut i = 0;
                while i + step < n {
                    v.push(if b.shape == 6 { (i, i + step) } else { (i + step, i) });
                    i += 2 * step;
                }
                step *= 2;
            }
            v
        }
        _ => (0..n).map(|_| (m.below(n), m.below(n))).collect(),
    };
    // Two halves that stay apart.
    let half = n / 2;
    let apart = b.shape != 4 && b.shape != 5 && b.seed % 2 == 0;
    if apart {
        pairs.retain(|(a, c)| (*a < half) == (*c < half));
    }
    // Reference: breadth-first labelling of the graph of unions.
    let mut next: Vec<Vec<usize>> = vec![Vec::new(); n];
    for &(a, c) in &pairs {
        next[a].push(c);
        next[c].push(a);
    }
    let mut label = vec![usize::MAX; n];
    for i in 0..n {
        if label[i] == usize::MAX {
            label[i] = i;
            let mut todo = vec![i];
            while let Some(k) = todo.pop() {
                for &j in &next[k] {
                    if label[j] == usize::MAX {
                        label[j] = i;
                        todo.push(j);
                    }
                }
            }
        }
    }
    guard("disjoint set", || -> Res {
        let mut s = DisjointSet::with_size(n);
        for &(a, c) in &pairs {
            ensure!(s.union(a, c).is_some(), "union({a}, {c}) returns nothing on {n} elements");
        }
        let mut rep: HashMap<usize, usize> = HashMap::new();
        for i in (0..n).rev() {
            let r = s.find(i);
            ensure!(r.is_some_and(|r| r < n && label[r] == label[i]), "after {} unions of shape {}: the representative of {i} is {r:?}", pairs.len(), b.shape);
            let r = r.unwrap();
            ensure!(*rep.entry(label[i]).or_insert(r) == r, "after {} unions of shape {}: two representatives for the set of {i}", pairs.len(), b.shape);
        }
        for _ in 0..1000 {
            let (a, c) = (m.below(n), m.below(n));
            let got = s.common_set(a, c);
            ensure!(got == Some(label[a] == label[c]), "after {} unions of shape {}: common_set({a}, {c}) = {got:?}", pairs.len(), b.shape);
        }
        Ok(())
    })?
}

pub fn x03() -> Property {
    Property {
        id: "X03",
        assumptions: &["what a union returns is not judged, except that it returns nothing exactly when an element does not exist"],
        suites: vec![
            Suite::random("histories", "up to 50 operations on up to 40 elements; non-trivial: two merges and more", 40_000, 1_500_000, |_| ops(), partition),
            Suite::random("busy", "100 to 1500 operations on up to 300 elements and more; non-trivial: as above", 80, 3_000, |_| busy(), partition),
            Suite::random("many elements", "up to 300000 elements merged in nine orders (chains, stars, balanced, random); non-trivial: over 100 elements", 48, 600,
                |_| (prop_oneof![1 => 1usize..2_000, 1 => 100_000usize..300_000], 0u8..9, any::<u64>()).prop_map(|(n, shape, seed)| Big { n, shape, seed }), many),
        ],
    }
}

// ------------------------------------------------------------------ U01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Draws {
    list: Vec<u16>,
    seed: u64,
}

fn draw_all(d: &Draws, cx: &mut Cx) -> Res {
    cx.nontrivial = d.list.len() > 1;
    let (log, end) = seeded("choose_random", d.seed, || {
        // Boxed, so that a wrong copy is noticed as well.
        let mut v: Vec<Box<u16>> = d.list.iter().map(|x| Box::new(*x)).collect();
        let mut log: Vec<(u16, Vec<u16>)> = Vec::new();
        while let Some(x) = choose_random(&mut v) {
            log.push((*x, v.iter().map(|x| **x).collect()));
            if log.len() > d.list.len() {
                break;
            }
        }
        (log, v.len())
    })?;
    let mut left = d.list.clone();
    left.sort_unstable();
    for (k, (x, rest)) in log.iter().enumerate() {
        match left.binary_search(x) {
            Ok(i) => drop(left.remove(i)),
            Err(_) => return Err(format!("pick {k} from {:?} is {x}, which is not (any more) there", d.list)),
        }
        let mut got = rest.clone();
        got.sort_unstable();
        ensure!(got == left, "after pick {k} ({x}) from {:?} the list holds {got:?}, not {left:?}", d.list);
    }
    ensure!(log.len() == d.list.len(), "nothing was picked from a list of {} (of {} at first)", end, d.list.len());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    len: usize,
    seed: u64,
}

const PICKS: usize = 2_000;

fn draw_some(d: &Long, cx: &mut Cx) -> Res {
    cx.nontrivial = true;
    let (picked, mut rest) = seeded("choose_random", d.seed, || {
        let mut v: Vec<usize> = (0..d.len).collect();
        let picked: Vec<Option<usize>> = (0..PICKS).map(|_| choose_random(&mut v)).collect();
        (picked, v)
    })?;
    ensure!(picked.iter().all(|p| p.is_some()), "nothing was picked from a list of {}", d.len);
    rest.extend(picked.iter().flatten());
    ensure!(rest.len() == d.len, "{} elements are left over and picked, of {}", rest.len(), d.len);
    rest.sort_unstable();
    for (i, x) in rest.iter().enumerate() {
        ensure!(i == *x, "element {i} of {} was lost or doubled", d.len);
    }
    // Each twentieth of the list has its share of the picks.
    let (n, part) = (PICKS as f64, d.len.div_ceil(20));
    let mut hits = vec![0u64; d.len.div_ceil(part)];
    picked.iter().flatten().for_each(|x| hits[x / part] += 1);
    for (i, c) in hits.iter().enumerate() {
        // Without replacement: an interval has somewhat less spread than independent picks.
        let size = part.min(d.len - i * part);
        let p = size as f64 / d.len as f64;
        ensure!((*c as f64 - n * p).abs() <= bernstein(n, p), "{c} of {PICKS} picks from a list of {} are among elements {} to {}, expected {:.0} (less or more {:.0})", d.len, i * part, i * part + size - 1, n * p, bernstein(n, p));
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fair {
    len: usize,
    n: usize,
    seed: u64,
}

fn fair(f: &Fair, cx: &mut Cx) -> Res {
    cx.nontrivial = f.len > 1;
    let (first, orders) = seeded("choose_random", f.seed, || {
        let mut first = vec![0u64; f.len];
        let mut orders: HashMap<Vec<usize>, u64> = HashMap::new();
        let mut v: Vec<usize> = Vec::with_capacity(f.len);
        for _ in 0..f.n {
            v.clear();
            v.extend(0..f.len);
            let x = choose_random(&mut v).expect("the list is not empty");
            first[x] += 1;
            if f.len <= 4 {
                let mut order = vec![x];
                while let Some(x) = choose_random(&mut v) {
                    order.push(x);
                }
                *orders.entry(order).or_default() += 1;
            }
        }
        (first, orders)
    })?;
    let n = f.n as f64;
    let p = 1.0 / f.len as f64;
    for (i, c) in first.iter().enumerate() {
        ensure!((*c as f64 - n * p).abs() <= bernstein(n, p), "position {i} of {} was picked {c} times in {} calls, expected {:.0} (less or more {:.0})", f.len, f.n, n * p, bernstein(n, p));
    }
    // Parts of longer lists.
    if f.len > 20 {
        let part = f.len.div_ceil(20);
        for (i, hits) in first.chunks(part).enumerate() {
            let (c, p) = (hits.iter().sum::<u64>(), hits.len() as f64 / f.len as f64);
            ensure!((c as f64 - n * p).abs() <= bernstein(n, p), "{c} of {} picks from a list of {} are among the {} from {} on, expected {:.0} (less or more {:.0})", f.n, f.len, hits.len(), i * part, n * p, bernstein(n, p));
        }
    }
    if f.len <= 4 {
        let count: usize = (1..=f.len).product();
        let p = 1.0 / count as f64;
        ensure!(n * p < 200.0 || orders.len() == count, "{} of {count} orders occur when a list of {} is emptied {} times", orders.len(), f.len, f.n);
        for (o, c) in &orders {
            ensure!((*c as f64 - n * p).abs() <= bernstein(n, p), "the order {o:?} occurs {c} times in {} rounds, expected {:.0} (less or more {:.0})", f.n, n * p, bernstein(n, p));
        }
    }
    Ok(())
}

/// The first picks of many threads.
fn first_of_thread(f: &Fair, cx: &mut Cx) -> Res {
    cx.nontrivial = f.len > 1;
    let all = on_fresh_threads("choose_random", f.seed, f.n, || {
        let mut v: Vec<usize> = (0..f.len).collect();
        let a = choose_random(&mut v);
        let mut v: Vec<u8> = (0..40).collect();
        let mut order = Vec::new();
        while let Some(x) = choose_random(&mut v) {
            order.push(x);
        }
        (a, order)
    })?;
    let (n, p) = (f.n as f64, 1.0 / f.len as f64);
    let mut count = vec![0u64; f.len];
    let mut seen: HashMap<&[u8], usize> = HashMap::new();
    for (i, (a, order)) in all.iter().enumerate() {
        let a = a.ok_or("nothing was picked")?;
        ensure!(a < f.len, "{a} was picked from a list of the numbers below {}", f.len);
        count[a] += 1;
        if let Some(k) = seen.insert(order, i) {
            return Err(format!("threads {k} and {i} empty a list of 40 in the same order: {order:?}"));
        }
    }
    for (i, c) in count.iter().enumerate() {
        ensure!((*c as f64 - n * p).abs() <= bernstein(n, p), "position {i} of {} was the first pick of {c} of {} threads, expected {:.0} (less or more {:.0})", f.len, f.n, n * p, bernstein(n, p));
    }
    Ok(())
}

pub fn u01() -> Property {
    Property {
        id: "U01",
        assumptions: &[
            "thread_rng takes its entropy from getrandom 0.2, which the harness replaces by a seeded stream",
            "statistical bounds: Bernstein's inequality at 1e-14 per comparison",
        ],
        suites: vec![
            Suite::random("draw all", "lists of up to 40 elements, repeated ones too, emptied pick by pick; non-trivial: two elements and more", 20_000, 800_000,
                |_| (prop::collection::vec(prop_oneof![0u16..6, any::<u16>()], 0..40), any::<u64>()).prop_map(|(list, seed)| Draws { list, seed }), draw_all),
            Suite::random("long", "lists of 4000 to 140000 distinct elements, picked from 2000 times, and how the picks are spread over them; every case counts", 300, 8_000,
                |_| (prop_oneof![3 => 4_000usize..9_000, 1 => 60_000usize..140_000], any::<u64>()).prop_map(|(len, seed)| Long { len, seed }), draw_some).batches(),
            Suite::random("fair", "lists of 1 to 60, or up to 4000, elements picked from many times; positions and, up to four elements, orders are counted; non-trivial: two elements and more", 80, 600,
                |t| (prop_oneof![3 => 1usize..6, 1 => 1usize..25, 1 => 25usize..61, 1 => 61usize..300, 1 => 300usize..4_000], any::<u64>()).prop_map(move |(len, seed)| Fair { len, n: if t == Tier::Quick { 1_500_000 } else { 10_000_000 } / len.div_ceil(60), seed }).no_shrink(), fair).batches(),
            Suite::enumerated("every short length", "one longer round for each length from 2 to 17", 16, 16, 16, |i| Fair { len: 2 + i as usize, n: 20_000_000, seed: 0xFA1 + i }, fair),
            Suite::random("first of a thread", "the first picks of 5000 threads from lists of 2 to 12 elements; non-trivial: always", 24, 240, |_| (2usize..13, any::<u64>()).prop_map(|(len, seed)| Fair { len, n: 5_000, seed }).no_shrink(), first_of_thread).batches(),
            Suite::random("processes", "12 processes with different entropy empty a list of 60 in different orders; every case counts", 16, 160, |_| processes(), |p, cx| processes_differ(p, 1, "the orders of picks", cx)).batches(),
        ],
    }
}
