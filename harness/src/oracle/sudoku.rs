//! Independent sudoku model: validity predicate and a bit-mask solver.
use super::Mix;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Verdict {
    Solvable,
    Unsolvable,
    Unknown,
}

fn units(i: usize) -> (usize, usize, usize) {
    let (r, c) = (i / 9, i % 9);
    (r, c, r / 3 * 3 + c / 3)
}

/// Why `answer` is not a completion of `puzzle`, if it is not.
pub fn completion_error(puzzle: &[u8], answer: &[u8]) -> Option<String> {
    if answer.len() != 81 {
        return Some(format!("the answer has {} entries", answer.len()));
    }
    for (i, &v) in answer.iter().enumerate() {
        if !(1..=9).contains(&v) {
            return Some(format!("entry {i} of the answer is {v}"));
        }
    }
    for (i, &v) in puzzle.iter().enumerate() {
        if v != 0 && answer[i] != v {
            return Some(format!("given {v} at {i} became {}", answer[i]));
        }
    }
    for a in 0..81 {
        for b in a + 1..81 {
            let ((r, c, x), (r2, c2, x2)) = (units(a), units(b));
            if answer[a] == answer[b] && (r == r2 || c == c2 || x == x2) {
                return Some(format!("entries {a} and {b} share a unit and are both {}", answer[a]));
            }
        }
    }
    None
}

/// Two givens that share a unit and a digit.
pub fn direct_conflict(p: &[u8]) -> bool {
    (0..81).any(|a| {
        p[a] != 0
            && (a + 1..81).any(|b| {
                let ((r, c, x), (r2, c2, x2)) = (units(a), units(b));
                p[a] == p[b] && (r == r2 || c == c2 || x == x2)
            })
    })
}

struct Search {
    grid: [u8; 81],
    rows: [u16; 9],
    cols: [u16; 9],
    boxes: [u16; 9],
    nodes: u64,
    budget: u64,
    found: u32,
    want: u32,
    order: Option<Mix>,
}

impl Search {
    fn place(&mut self, i: usize, v: u8) {
        let (r, c, x) = units(i);
        self.grid[i] = v;
        self.rows[r] |= 1 << v;
        self.cols[c] |= 1 << v;
        self.boxes[x] |= 1 << v;
    }
    fn remove(&mut self, i: usize) {
        let (r, c, x) = units(i);
        let m = !(1u16 << self.grid[i]);
        self.grid[i] = 0;
        self.rows[r] &= m;
        self.cols[c] &= m;
        self.boxes[x] &= m;
    }
    /// True: stop (enough found, or out of budget).
    fn go(&mut self) -> bool {
        self.nodes += 1;
        if self.nodes > self.budget {
            return true;
        }
        let mut best: Option<(usize, u16)> = None;
        let mut least = 10;
        for i in 0..81 {
            if self.grid[i] == 0 {
                let (r, c, x) = units(i);
                let free = !(self.rows[r] | self.cols[c] | self.boxes[x]) & 0x3FE;
                let n = free.count_ones();
                if n < least {
                    least = n;
                    best = Some((i, free));
                    if n == 0 {
                        return false;
                    }
                }
            }
        }
        let Some((cell, free)) = best else {
            self.found += 1;
            return self.found >= self.want;
        };
        let mut digits: Vec<u8> = (1..=9).filter(|d| free & (1 << d) != 0).collect();
        if let Some(m) = &mut self.order {
            m.shuffle(&mut digits);
        }
        for d in digits {
            self.place(cell, d);
            if self.go() {
                return true;
            }
            self.remove(cell);
        }
        false
    }
}

fn search(p: &[u8], want: u32, budget: u64, order: Option<Mix>) -> Option<Search> {
    let mut s = Search {
        grid: [0; 81],
        rows: [0; 9],
        cols: [0; 9],
        boxes: [0; 9],
        nodes: 0,
        budget,
        found: 0,
        want,
        order,
    };
    if p.iter().any(|&v| v > 9) || direct_conflict(p) {
        return None;
    }
    for (i, &v) in p.iter().enumerate() {
        if v != 0 {
            s.place(i, v);
        }
    }
    s.go();
    Some(s)
}

/// Verdict, number of solutions up to `want`, search nodes.
pub fn solve(p: &[u8], want: u32, budget: u64) -> (Verdict, u32, u64) {
    match search(p, want, budget, None) {
        None => (Verdict::Unsolvable, 0, 0),
        Some(s) => {
            let v = if s.found > 0 {
                Verdict::Solvable
            } else if s.nodes > s.budget {
                Verdict::Unknown
            } else {
                Verdict::Unsolvable
            };
            (v, s.found, s.nodes)
        }
    }
}

/// A complete grid determined by the seed.
pub fn complete_grid(seed: u64) -> Vec<u8> {
    let mut m = Mix::new(seed);
    // A few random consistent cells first, so that all grids are reachable, then a random search.
    let mut attempt = 0;
    loop {
        attempt += 1;
        if let Some(s) = search(&[0; 81], 1, 3000, Some(Mix::new(m.next()))) {
            if s.found > 0 {
                return s.grid.to_vec();
            }
        }
        assert!(attempt < 1000);
    }
}

/// Givens removed in an order determined by the seed as long as the puzzle stays unique.
pub fn minimise(full: &[u8], seed: u64, keep_at_least: usize) -> Vec<u8> {
    let mut m = Mix::new(seed);
    let mut p = full.to_vec();
    let mut order: Vec<usize> = (0..81).collect();
    m.shuffle(&mut order);
    let mut givens = 81;
    for i in order {
        if givens <= keep_at_least {
            break;
        }
        let v = p[i];
        p[i] = 0;
        let (verdict, n, nodes) = solve(&p, 2, 20_000);
        if verdict != Verdict::Solvable || n != 1 || nodes > 20_000 {
            p[i] = v;
        } else {
            givens -= 1;
        }
    }
    p
}

/// A relabelling that keeps solvability: digits, rows and columns within bands, bands, transposition.
pub fn symmetric(p: &[u8], seed: u64) -> Vec<u8> {
    let mut m = Mix::new(seed);
    let mut digits: Vec<u8> = (1..=9).collect();
    m.shuffle(&mut digits);
    let lines = |m: &mut Mix| {
        let mut bands = [0, 1, 2];
        m.shuffle(&mut bands);
        let mut out = Vec::new();
        for b in bands {
            let mut inner = [0, 1, 2];
            m.shuffle(&mut inner);
            out.extend(inner.iter().map(|i| b * 3 + i));
        }
        out
    };
    let (rows, cols) = (lines(&mut m), lines(&mut m));
    let transpose = m.below(2) == 1;
    let mut out = vec![0; 81];
    for r in 0..9 {
        for c in 0..9 {
            let v = p[rows[r] * 9 + cols[c]];
            let at = if transpose { c * 9 + r } else { r * 9 + c };
            out[at] = match v {
                1..=9 => digits[v as usize - 1],
                v => v,
            };
        }
    }
    out
}
