//! Independent nonogram model: clues of a picture, validity predicate, row-enumeration solver.
use super::Mix;

/// Run lengths of a line.
pub fn runs(line: impl Iterator<Item = bool>) -> Vec<usize> {
    let (mut out, mut run) = (Vec::new(), 0);
    for x in line {
        if x {
            run += 1;
        } else if run > 0 {
            out.push(run);
            run = 0;
        }
    }
    if run > 0 {
        out.push(run);
    }
    out
}

pub fn col_clues(w: usize, h: usize, g: &[bool]) -> Vec<Vec<usize>> {
    (0..w).map(|x| runs((0..h).map(|y| g[y * w + x]))).collect()
}

pub fn row_clues(w: usize, h: usize, g: &[bool]) -> Vec<Vec<usize>> {
    (0..h).map(|y| runs((0..w).map(|x| g[y * w + x]))).collect()
}

/// A clue without its zeros.
pub fn normal(c: &[usize]) -> Vec<usize> {
    c.iter().copied().filter(|&x| x != 0).collect()
}

/// Cells a clue needs at least.
pub fn needs(c: &[usize]) -> u128 {
    let c = normal(c);
    c.iter().map(|&x| x as u128).sum::<u128>() + c.len().saturating_sub(1) as u128
}

pub fn violation(col: &[Vec<usize>], row: &[Vec<usize>], g: &[bool]) -> Option<String> {
    let (w, h) = (col.len(), row.len());
    if g.len() != w * h {
        return Some(format!("the answer has {} cells, the puzzle {}", g.len(), w * h));
    }
    for (x, c) in col_clues(w, h, g).iter().enumerate() {
        if *c != normal(&col[x]) {
            return Some(format!("column {x} has runs {c:?}, its clue is {:?}", col[x]));
        }
    }
    for (y, c) in row_clues(w, h, g).iter().enumerate() {
        if *c != normal(&row[y]) {
            return Some(format!("row {y} has runs {c:?}, its clue is {:?}", row[y]));
        }
    }
    None
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Solvable,
    Unsolvable,
    Unknown,
}

/// All placements of a clue on a line, as bit masks (bit i = cell i).
fn placements(clue: &[usize], len: usize) -> Vec<u32> {
    fn go(clue: &[usize], from: usize, len: usize, mask: u32, out: &mut Vec<u32>) {
        match clue {
            [] => out.push(mask),
            [first, rest @ ..] => {
                let tail: usize = rest.iter().sum::<usize>() + rest.len();
                let mut start = from;
                while start + first + tail <= len {
                    let block = ((1u32 << first) - 1) << start;
                    go(rest, start + first + 1, len, mask | block, out);
                    start += 1;
                }
            }
        }
    }
    let mut out = Vec::new();
    go(clue, 0, len, 0, &mut out);
    out
}

struct Search<'a> {
    w: usize,
    cols: &'a [Vec<usize>],
    rows: Vec<Vec<u32>>,
    /// cells still to be filled in each column, below row y: clue position and current run
    nodes: u64,
    budget: u64,
}

#[derive(Clone, Copy)]
struct Col {
    /// index of the clue entry being filled, or next to be filled
    at: usize,
    /// length of the run in progress
    run: usize,
}

impl Search<'_> {
    fn go(&mut self, y: usize, state: &[Col]) -> Option<bool> {
        self.nodes += 1;
        if self.nodes > self.budget {
            return None;
        }
        if y == self.rows.len() {
            return Some((0..self.w).all(|x| {
                let c = &self.cols[x];
                let s = state[x];
                if s.run > 0 {
                    s.at + 1 == c.len() && s.run == c[s.at]
                } else {
                    s.at == c.len()
                }
            }));
        }
        let left = self.rows.len() - y - 1;
        let mut next = vec![Col { at: 0, run: 0 }; self.w];
        'mask: for k in 0..self.rows[y].len() {
            let mask = self.rows[y][k];
            for x in 0..self.w {
                let c = &self.cols[x];
                let s = state[x];
                let n = if mask >> x & 1 == 1 {
                    if s.at >= c.len() || s.run >= c[s.at] {
                        continue 'mask;
                    }
                    Col { at: s.at, run: s.run + 1 }
                } else if s.run > 0 {
                    if s.run != c[s.at] {
                        continue 'mask;
                    }
                    Col { at: s.at + 1, run: 0 }
                } else {
                    s
                };
                // room for the rest?
                let rest = &c[n.at.min(c.len())..];
                let need = rest.iter().sum::<usize>() + rest.len().saturating_sub(1) - n.run;
                if need > left {
                    continue 'mask;
                }
                next[x] = n;
            }
            let copy = next.clone();
            match self.go(y + 1, &copy) {
                Some(false) => (),
                other => return other,
            }
        }
        Some(false)
    }
}

/// Solvability of a puzzle at most 32 cells wide, by enumerating the placements row by row.
pub fn solve(col: &[Vec<usize>], row: &[Vec<usize>], budget: u64) -> (Verdict, u64) {
    let (w, h) = (col.len(), row.len());
    if col.iter().any(|c| needs(c) > h as u128) || row.iter().any(|c| needs(c) > w as u128) {
        return (Verdict::Unsolvable, 0);
    }
    let cols: Vec<Vec<usize>> = col.iter().map(|c| normal(c)).collect();
    let total = |l: &[Vec<usize>]| l.iter().flatten().sum::<usize>();
    let rows_n: Vec<Vec<usize>> = row.iter().map(|c| normal(c)).collect();
    if total(&cols) != total(&rows_n) {
        return (Verdict::Unsolvable, 0);
    }
    assert!(w < 32);
    let rows = rows_n.iter().map(|c| placements(c, w)).collect();
    let mut s = Search { w, cols: &cols, rows, nodes: 0, budget };
    let start = vec![Col { at: 0, run: 0 }; w];
    match s.go(0, &start) {
        Some(true) => (Verdict::Solvable, s.nodes),
        Some(false) => (Verdict::Unsolvable, s.nodes),
        None => (Verdict::Unknown, s.nodes),
    }
}

/// A picture determined by a seed, in one of several textures.
pub fn picture(w: usize, h: usize, style: u8, density: u8, seed: u64) -> Vec<bool> {
    let mut m = Mix::new(seed);
    let n = w * h;
    let mut g = vec![false; n];
    match style % 6 {
        // independent cells
        0 => g.iter_mut().for_each(|c| *c = m.below(100) < density as usize),
        // horizontal or vertical stripes with noise
        1 => {
            let vertical = m.below(2) == 0;
            let lines: Vec<bool> = (0..w.max(h)).map(|_| m.below(100) < density as usize).collect();
            for y in 0..h {
                for x in 0..w {
                    let on = lines[if vertical { x } else { y }];
                    g[y * w + x] = on ^ (m.below(20) == 0);
                }
            }
        }
        // rectangles
        2 => {
            for _ in 0..1 + m.below(4) {
                let (x0, y0) = (m.below(w), m.below(h));
                let (dx, dy) = (1 + m.below(w), 1 + m.below(h));
                let v = m.below(100) < density.max(40) as usize;
                for y in y0..(y0 + dy).min(h) {
                    for x in x0..(x0 + dx).min(w) {
                        g[y * w + x] = v;
                    }
                }
            }
        }
        // checkerboard pieces: many runs of one, many ambiguities
        3 => {
            for y in 0..h {
                for x in 0..w {
                    g[y * w + x] = (x + y) % 2 == 0 && m.below(100) < density as usize;
                }
            }
        }
        // sparse single cells (permutation-like, highly ambiguous)
        4 => {
            for y in 0..h {
                if m.below(100) < 80 {
                    g[y * w + m.below(w)] = true;
                }
            }
        }
        // dense with few holes
        _ => {
            g.iter_mut().for_each(|c| *c = true);
            for _ in 0..1 + m.below(1 + n / 6) {
                let i = m.below(n);
                g[i] = false;
            }
        }
    }
    g
}

/// Which block of the leftmost placement covers each cell (2b + 1), or which gap it lies in (2b, after b blocks).
fn leftmost(clue: &[usize], known: &[Option<bool>]) -> Option<Vec<usize>> {
    let n = known.len();
    // free[i]: how many cells from i on may be filled; last filled cell
    let mut free = vec![0; n + 1];
    for i in (0..n).rev() {
        free[i] = if known[i] == Some(false) { 0 } else { free[i + 1] + 1 };
    }
    let fits = |i: usize, c: usize| free.get(i).is_some_and(|&f| f >= c) && known.get(i + c).copied().flatten() != Some(true);
    // can[j][i]: the cells from i on can hold the blocks from j on
    let k = clue.len();
    let mut can = vec![vec![false; n + 2]; k + 1];
    can[k][n] = true;
    can[k][n + 1] = true;
    for i in (0..n).rev() {
        can[k][i] = can[k][i + 1] && known[i] != Some(true);
    }
    for j in (0..k).rev() {
        for i in (0..n).rev() {
            can[j][i] = fits(i, clue[j]) && can[j + 1][i + clue[j] + 1] || known[i] != Some(true) && can[j][i + 1];
        }
    }
    if !can[0][0] {
        return None;
    }
    let mut out = Vec::new();
    let mut j = 0;
    while out.len() < n {
        let i = out.len();
        if j < k && fits(i, clue[j]) && can[j + 1][i + clue[j] + 1] {
            out.extend(std::iter::repeat_n(2 * j + 1, clue[j]));
            j += 1;
            if out.len() < n {
                out.push(2 * j);
            }
        } else {
            out.push(2 * j);
        }
    }
    Some(out)
}

type Line = (Vec<usize>, Vec<usize>);

fn lines(col: &[Vec<usize>], row: &[Vec<usize>]) -> Vec<Line> {
    let (w, h) = (col.len(), row.len());
    (0..w)
        .map(|x| ((0..h).map(|y| y * w + x).collect(), normal(&col[x])))
        .chain((0..h).map(|y| ((0..w).map(|x| y * w + x).collect(), normal(&row[y]))))
        .collect()
}

/// Compares each line's leftmost and rightmost placement until nothing changes; the number of passes, or nothing
/// when a line cannot be completed.
fn settle(lines: &[Line], known: &mut [Option<bool>]) -> Option<usize> {
    let mut passes = 0;
    loop {
        let mut changed = false;
        passes += 1;
        for (cells, clue) in lines {
            let mut line: Vec<Option<bool>> = cells.iter().map(|&c| known[c]).collect();
            let left = leftmost(clue, &line)?;
            line.reverse();
            let back: Vec<usize> = clue.iter().rev().copied().collect();
            let right = leftmost(&back, &line)?;
            for (i, &c) in cells.iter().enumerate() {
                let (l, r) = (left[i], 2 * clue.len() - right[cells.len() - 1 - i]);
                if l == r && known[c].is_none() {
                    known[c] = Some(l % 2 == 1);
                    changed = true;
                }
            }
        }
        if !changed {
            return Some(passes);
        }
    }
}

/// Whether comparing each line's leftmost and rightmost placement, again and again, settles every cell; and in
/// how many passes.
pub fn by_lines(col: &[Vec<usize>], row: &[Vec<usize>]) -> Option<usize> {
    let mut known = vec![None; col.len() * row.len()];
    let passes = settle(&lines(col, row), &mut known)?;
    known.iter().all(|k| k.is_some()).then_some(passes)
}

/// Solvability of a puzzle of any size, by guessing a cell wherever lines do not settle any more. Also the number
/// of guesses. Gives up after that many passes over the lines.
pub fn by_guessing(col: &[Vec<usize>], row: &[Vec<usize>], budget: usize) -> (Verdict, u64) {
    fn go(lines: &[Line], mut known: Vec<Option<bool>>, budget: &mut usize, guesses: &mut u64) -> Option<bool> {
        let passes = settle(lines, &mut known);
        *budget = budget.checked_sub(passes.unwrap_or(1))?;
        if passes.is_none() {
            return Some(false);
        }
        let Some(i) = known.iter().position(|k| k.is_none()) else {
            return Some(true);
        };
        for guess in [true, false] {
            *guesses += 1;
            let mut next = known.clone();
            next[i] = Some(guess);
            if go(lines, next, budget, guesses)? {
                return Some(true);
            }
        }
        Some(false)
    }
    let (w, h) = (col.len(), row.len());
    if col.iter().any(|c| needs(c) > h as u128) || row.iter().any(|c| needs(c) > w as u128) {
        return (Verdict::Unsolvable, 0);
    }
    let (mut left, mut guesses) = (budget, 0);
    match go(&lines(col, row), vec![None; w * h], &mut left, &mut guesses) {
        Some(true) => (Verdict::Solvable, guesses),
        Some(false) => (Verdict::Unsolvable, guesses),
        None => (Verdict::Unknown, guesses),
    }
}
