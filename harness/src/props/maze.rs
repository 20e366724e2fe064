use crate::driver::{guard, seeded, Cx, Property, Res, Suite};
use crate::ensure;
use crate::oracle::{
    maze::{self as model, Dir, Walls},
    render, Mix,
};
use image::{Rgb, RgbImage};
use proptest::prelude::*;
use puzzle_utils::{
    create_maze, print_maze, print_maze_solution, MazeAlgorithm, MazeDirection, MazeError, MazeNode, RgbBuffer,
};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

// ------------------------------------------------------------------ created mazes

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Size {
    pub w: usize,
    pub h: usize,
    pub seed: u64,
}

pub struct Made {
    pub w: usize,
    pub h: usize,
    pub nodes: Vec<MazeNode>,
    pub solution: Vec<MazeDirection>,
    pub walls: Vec<Walls>,
    /// From the entrance to the exit.
    pub moves: Vec<Dir>,
}

pub fn made(s: &Size) -> Result<Made, String> {
    let (nodes, solution) = seeded(&format!("create_maze({}, {})", s.w, s.h), s.seed, || {
        create_maze(s.w, s.h, MazeAlgorithm::RecursiveBacktrack)
    })?;
    let walls = model::walls(&nodes);
    let moves = solution.iter().rev().map(Dir::from_api).collect();
    Ok(Made { w: s.w, h: s.h, nodes, solution, walls, moves })
}

pub fn sizes(max: usize) -> impl Strategy<Value = Size> {
    let side = move || prop_oneof![4 => 1usize..7, 4 => 1..=max];
    prop_oneof![
        6 => (side(), side()),
        1 => (Just(1usize), 1..=max * 2),
        1 => (1..=max * 2, Just(1usize)),
        1 => (Just(2usize), 1..=max),
        1 => (1..=max, Just(2usize)),
    ]
    .prop_flat_map(|(w, h)| any::<u64>().prop_map(move |seed| Size { w, h, seed }))
}

pub fn large(max: usize) -> impl Strategy<Value = Size> {
    prop_oneof![
        (20..=max, 20..=max),
        (Just(1usize), 1000..=max * 40),
        (1000..=max * 40, Just(1usize)),
        (2usize..5, 500..=max * 10),
        (500..=max * 10, 2usize..5),
    ]
    .prop_flat_map(|(w, h)| any::<u64>().prop_map(move |seed| Size { w, h, seed }))
}

/// Beyond the sizes at which a 16-bit number would do, and around those at which an 8-bit one would.
pub fn huge(longest: usize) -> impl Strategy<Value = Size> {
    prop_oneof![
        2 => (250usize..310, 250usize..310),
        1 => (1usize..3, longest - 30..=longest),
        1 => (longest - 30..=longest, 1usize..3),
        2 => (254usize..260, 1usize..40),
        2 => (1usize..40, 254usize..260),
    ]
    .prop_flat_map(|(w, h)| any::<u64>().prop_map(move |seed| Size { w, h, seed }))
}

fn size_labels(s: &Size, cx: &mut Cx) {
    cx.nontrivial = s.w > 1 && s.h > 1 && s.w * s.h >= 6;
    cx.label_if(s.w == 1, "one column");
    cx.label_if(s.h == 1, "one row");
    cx.label_if(s.w * s.h >= 1000, "1000 cells and more");
}

fn with_size(s: &Size, m: String) -> String {
    format!("{} x {} maze (seed {}): {m}", s.w, s.h, s.seed)
}

fn perfect(s: &Size, cx: &mut Cx) -> Res {
    size_labels(s, cx);
    let m = made(s)?;
    let exit = model::perfect(m.w, m.h, &m.walls).map_err(|e| with_size(s, e))?;
    cx.label_if(exit == 0, "exit at the left");
    cx.label_if(exit + 1 == m.w, "exit at the right");
    Ok(())
}

fn route(s: &Size, cx: &mut Cx) -> Res {
    size_labels(s, cx);
    let m = made(s)?;
    let (mut x, mut y) = (0i64, 0i64);
    let (w, h) = (s.w as i64, s.h as i64);
    let at = |x: i64, y: i64| m.walls[(y * w + x) as usize];
    let mut seen = vec![false; s.w * s.h];
    seen[0] = true;
    ensure!(m.walls.len() == s.w * s.h, "{}", with_size(s, format!("{} cells", m.walls.len())));
    let (mut left, mut up) = (false, false);
    for (n, d) in m.moves.iter().enumerate() {
        let (nx, ny) = d.step(x, y);
        let fail = |why: &str| Err(with_size(s, format!("move {n} ({d:?} from ({x}, {y})) {why}; the moves are {:?}", &m.moves[..m.moves.len().min(60)])));
        if nx < 0 || ny < 0 || nx >= w || ny >= h {
            return fail("leaves the maze");
        }
        let closed = match d {
            Dir::Right => at(x, y).right,
            Dir::Down => at(x, y).down,
            Dir::Left => at(nx, ny).right,
            Dir::Up => at(nx, ny).down,
        };
        if closed {
            return fail("goes through a wall");
        }
        let i = (ny * w + nx) as usize;
        if seen[i] {
            return fail("comes back to a cell");
        }
        seen[i] = true;
        left |= *d == Dir::Left;
        up |= *d == Dir::Up;
        (x, y) = (nx, ny);
    }
    ensure!(y == h - 1, "{}", with_size(s, format!("the moves end at ({x}, {y}), not in the bottom row")));
    ensure!(!at(x, y).down, "{}", with_size(s, format!("the moves end at ({x}, {y}), whose lower wall is closed")));
    let first_is_exit = s.h == 1 && !m.walls[0].down;
    ensure!(m.moves.is_empty() == first_is_exit, "{}", with_size(s, "empty solution and first cell being the exit disagree".into()));
    cx.label_if(left, "goes left");
    cx.label_if(up, "goes up");
    cx.label_if(m.moves.is_empty(), "empty");
    Ok(())
}

fn farthest(s: &Size, cx: &mut Cx) -> Res {
    size_labels(s, cx);
    let m = made(s)?;
    ensure!(m.walls.len() == s.w * s.h, "{}", with_size(s, format!("{} cells", m.walls.len())));
    let base = (s.h - 1) * s.w;
    let exits: Vec<usize> = (0..s.w).filter(|x| !m.walls[base + x].down).collect();
    ensure!(exits.len() == 1, "{}", with_size(s, format!("exits at columns {exits:?}")));
    let (dist, _) = model::tree(s.w, s.h, &m.walls);
    let far: Vec<Option<usize>> = (0..s.w).map(|x| dist[base + x]).collect();
    let best = far.iter().flatten().max().copied();
    ensure!(
        far[exits[0]].is_some() && far[exits[0]] == best,
        "{}",
        with_size(s, format!("the exit is column {} at distance {:?}, but the bottom row has distances {:?}", exits[0], far[exits[0]], &far[..far.len().min(40)]))
    );
    let ties = far.iter().filter(|d| **d == best).count();
    cx.label_if(ties > 1, "several farthest cells");
    cx.nontrivial &= s.w > 2;
    Ok(())
}

// ------------------------------------------------------------------ M04

fn no_cross_edges(s: &Size, cx: &mut Cx) -> Res {
    size_labels(s, cx);
    let m = made(s)?;
    model::perfect(m.w, m.h, &m.walls).map_err(|e| with_size(s, e))?;
    // Entry and exit times of a traversal of the tree from cell 0.
    let n = s.w * s.h;
    let (mut enter, mut leave) = (vec![usize::MAX; n], vec![0; n]);
    let mut clock = 0;
    let mut stack = vec![(0usize, false)];
    while let Some((i, done)) = stack.pop() {
        clock += 1;
        if done {
            leave[i] = clock;
            continue;
        }
        enter[i] = clock;
        stack.push((i, true));
        for k in model::neighbours(s.w, s.h, &m.walls, i) {
            if enter[k] == usize::MAX {
                stack.push((k, false));
            }
        }
    }
    let above = |a: usize, b: usize| enter[a] <= enter[b] && leave[b] <= leave[a];
    for i in 0..n {
        let mut next = Vec::new();
        if (i + 1) % s.w != 0 {
            next.push(i + 1);
        }
        if i + s.w < n {
            next.push(i + s.w);
        }
        for j in next {
            ensure!(
                above(i, j) || above(j, i),
                "{}",
                with_size(s, format!("neither of the neighbours ({}, {}) and ({}, {}) lies on the other's route to the entrance: no depth-first walk does that", i % s.w, i / s.w, j % s.w, j / s.w))
            );
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Batch {
    w: usize,
    h: usize,
    n: usize,
    seed: u64,
}

/// Open inner walls as bits: right walls of all cells, then lower walls.
fn signature(w: usize, h: usize, g: &[Walls]) -> u64 {
    let mut s = 0u64;
    for y in 0..h {
        for x in 0..w {
            let i = y * w + x;
            if x + 1 < w && !g[i].right {
                s |= 1 << i;
            }
            if y + 1 < h && !g[i].down {
                s |= 1 << (i + w * h);
            }
        }
    }
    s
}

/// Probability of every maze: all walks, each unvisited neighbour being equally likely.
fn distribution(w: usize, h: usize) -> HashMap<u64, f64> {
    fn go(w: usize, h: usize, path: &mut Vec<usize>, seen: u64, open: u64, p: f64, out: &mut HashMap<u64, f64>) {
        let Some(&at) = path.last() else {
            *out.entry(open).or_default() += p;
            return;
        };
        let (x, y, n) = (at % w, at / w, w * h);
        let mut next: Vec<(usize, u64)> = Vec::new();
        if x + 1 < w {
            next.push((at + 1, 1 << at));
        }
        if y + 1 < h {
            next.push((at + w, 1 << (at + n)));
        }
        if x > 0 {
            next.push((at - 1, 1 << (at - 1)));
        }
        if y > 0 {
            next.push((at - w, 1 << (at - w + n)));
        }
        next.retain(|(k, _)| seen >> k & 1 == 0);
        if next.is_empty() {
            path.pop();
            go(w, h, path, seen, open, p, out);
            path.push(at);
            return;
        }
        let q = p / next.len() as f64;
        for (k, wall) in next {
            path.push(k);
            go(w, h, path, seen | 1 << k, open | wall, q, out);
            path.pop();
        }
    }
    let mut out = HashMap::new();
    go(w, h, &mut vec![0], 1, 0, 1.0, &mut out);
    out
}

/// Bernstein's inequality: a count with this mean strays further than that with probability < 2e-14.
pub fn bernstein(n: f64, p: f64) -> f64 {
    let l = 32.0;
    let var = n * p * (1.0 - p);
    l / 3.0 + (l * l / 9.0 + 2.0 * l * var).sqrt()
}

fn exact_distribution(b: &Batch, cx: &mut Cx) -> Res {
    cx.nontrivial = true;
    let got = seeded("create_maze", b.seed, || {
        let mut got: HashMap<u64, u64> = HashMap::new();
        // Wall flags are read once per distinct maze only: reading them is what costs.
        let mut known: HashMap<String, u64> = HashMap::new();
        for _ in 0..b.n {
            let (nodes, _) = create_maze(b.w, b.h, MazeAlgorithm::RecursiveBacktrack);
            let text = format!("{nodes:?}");
            let s = *known.entry(text).or_insert_with(|| signature(b.w, b.h, &model::walls(&nodes)));
            *got.entry(s).or_default() += 1;
        }
        got
    })?;
    judge_distribution(b, &got)
}

/// `f` on each of `n` fresh threads, one after the other within eight at a time; the random numbers of all of them derive from `seed`.
pub fn on_fresh_threads<T: Send>(what: &str, seed: u64, n: usize, f: impl Fn() -> T + Sync) -> Result<Vec<T>, String> {
    getrandom::set_seed(seed);
    (0..n).map(|_| std::thread::scope(|s| s.spawn(|| guard(what, &f)).join().expect("guarded thread ends normally"))).collect()
}

/// Cells of a maze as text, for telling mazes apart.
fn digest(g: &[Walls]) -> u64 {
    crate::driver::fnv(&g.iter().map(|c| c.right as u8 | (c.down as u8) << 1).collect::<Vec<_>>())
}

/// The first maze of each of many threads, with the exact distribution.
fn first_of_thread(b: &Batch, cx: &mut Cx) -> Res {
    cx.nontrivial = true;
    let all = on_fresh_threads("create_maze", b.seed, b.n, || {
        let (small, _) = create_maze(b.w, b.h, MazeAlgorithm::RecursiveBacktrack);
        let (large, _) = create_maze(10, 10, MazeAlgorithm::RecursiveBacktrack);
        (signature(b.w, b.h, &model::walls(&small)), digest(&model::walls(&large)))
    })?;
    let mut got: HashMap<u64, u64> = HashMap::new();
    all.iter().for_each(|(s, _)| *got.entry(*s).or_default() += 1);
    judge_distribution(b, &got).map_err(|e| format!("first mazes of {} threads: {e}", b.n))?;
    let mut seen: HashMap<u64, usize> = HashMap::new();
    for (i, (_, d)) in all.iter().enumerate() {
        if let Some(k) = seen.insert(*d, i) {
            return Err(format!("the second mazes of threads {k} and {i}, both 10 x 10, are the same"));
        }
    }
    Ok(())
}

/// Mazes of a size at which none comes up twice.
fn no_repetition(b: &Batch, cx: &mut Cx) -> Res {
    cx.nontrivial = true;
    let all = seeded("create_maze", b.seed, || {
        (0..b.n)
            .map(|_| digest(&model::walls(&create_maze(b.w, b.h, MazeAlgorithm::RecursiveBacktrack).0)))
            .collect::<Vec<u64>>()
    })?;
    let mut seen: HashMap<u64, usize> = HashMap::new();
    for (i, d) in all.iter().enumerate() {
        if let Some(k) = seen.insert(*d, i) {
            return Err(format!("mazes {k} and {i} of {}, both {} x {}, are the same", b.n, b.w, b.h));
        }
    }
    Ok(())
}

/// What a process of its own prints: a maze, and a list of 60 emptied by random picks.
pub fn once(seed: u64) -> String {
    getrandom::set_seed(seed);
    let g = model::walls(&create_maze(12, 12, MazeAlgorithm::RecursiveBacktrack).0);
    let maze: String = g.iter().map(|c| (b'0' + (c.right as u8 | (c.down as u8) << 1)) as char).collect();
    let mut list: Vec<u8> = (0..60).collect();
    let mut picks = String::new();
    #[cfg(feature = "hooks")]
    while let Some(x) = puzzle_utils::verif_hooks::choose_random(&mut list) {
        picks.push_str(&format!("{x},"));
    }
    list.clear();
    format!("{maze} {picks}")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Processes {
    pub seeds: Vec<u64>,
}

pub fn processes() -> impl Strategy<Value = Processes> {
    prop::collection::vec(any::<u64>(), 12).prop_map(|seeds| Processes { seeds })
}

/// The results of as many processes, each with other entropy, differ.
pub fn processes_differ(p: &Processes, part: usize, what: &str, cx: &mut Cx) -> Res {
    cx.nontrivial = true;
    let exe = std::env::current_exe().expect("path of the harness");
    let mut seen: HashMap<String, u64> = HashMap::new();
    for &seed in &p.seeds {
        let out = std::process::Command::new(&exe).args(["once", &seed.to_string()]).output().expect("process starts");
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let Some(field) = text.split_whitespace().nth(part) else {
            return Err(format!("a process of its own with entropy {seed} fails: {}", String::from_utf8_lossy(&out.stderr)));
        };
        if let Some(other) = seen.insert(field.to_string(), seed) {
            if other != seed {
                return Err(format!("{what} of two processes with different entropy ({other} and {seed}) are the same: {field}"));
            }
        }
    }
    Ok(())
}

fn judge_distribution(b: &Batch, got: &HashMap<u64, u64>) -> Res {
    let want = distribution(b.w, b.h);
    let n = b.n as f64;
    for (s, c) in got {
        ensure!(want.contains_key(s), "{} x {}: {c} of {} mazes (open walls {s:#x}) are not results of a depth-first walk", b.w, b.h, b.n);
    }
    let judge = |what: String, p: f64, c: u64| -> Res {
        let (e, t) = (n * p, bernstein(n, p));
        ensure!(
            (c as f64 - e).abs() <= t,
            "{} x {}: {what} has probability {p:.5}, so {e:.0} of {} mazes are expected (less or more {t:.0}), but there were {c}",
            b.w, b.h, b.n
        );
        Ok(())
    };
    for (s, p) in &want {
        judge(format!("the maze with open walls {s:#x}"), *p, got.get(s).copied().unwrap_or(0))?;
    }
    let cells = b.w * b.h;
    for bit in 0..2 * cells {
        let p: f64 = want.iter().filter(|(s, _)| *s >> bit & 1 == 1).map(|(_, p)| p).sum();
        let c: u64 = got.iter().filter(|(s, _)| *s >> bit & 1 == 1).map(|(_, c)| c).sum();
        let side = if bit < cells { "right" } else { "lower" };
        judge(format!("an open {side} wall of cell {}", bit % cells), p.clamp(0.0, 1.0), c)?;
    }
    Ok(())
}

/// The reference walk.
fn simulate(w: usize, h: usize, m: &mut Mix) -> Vec<Walls> {
    let mut g = vec![Walls { right: true, down: true }; w * h];
    let mut seen = vec![false; w * h];
    seen[0] = true;
    let mut path = vec![0usize];
    while let Some(&at) = path.last() {
        let (x, y) = (at % w, at / w);
        let mut next = Vec::new();
        for d in Dir::ALL {
            let (nx, ny) = d.step(x as i64, y as i64);
            if nx >= 0 && ny >= 0 && nx < w as i64 && ny < h as i64 {
                let k = ny as usize * w + nx as usize;
                if !seen[k] {
                    next.push((k, d));
                }
            }
        }
        if next.is_empty() {
            path.pop();
            continue;
        }
        let (k, d) = next[m.below(next.len())];
        match d {
            Dir::Right => g[at].right = false,
            Dir::Down => g[at].down = false,
            Dir::Left => g[k].right = false,
            Dir::Up => g[k].down = false,
        }
        seen[k] = true;
        path.push(k);
    }
    g
}

/// Features of a maze whose frequencies are compared: open walls, dead ends, depth of the last cell, walls by the entrance.
fn features(w: usize, h: usize, g: &[Walls], count: &mut [u64]) {
    let n = w * h;
    for y in 0..h {
        for x in 0..w {
            let i = y * w + x;
            count[i] += (x + 1 < w && !g[i].right) as u64;
            count[n + i] += (y + 1 < h && !g[i].down) as u64;
            count[2 * n + i] += (model::neighbours(w, h, g, i).len() == 1) as u64;
        }
    }
    let (dist, _) = model::tree(w, h, g);
    let depth = dist[n - 1].unwrap_or(0);
    count[3 * n + (depth * 16 / n).min(15)] += 1;
    let deepest = dist.iter().flatten().max().copied().unwrap_or(0);
    count[3 * n + 16 + (deepest * 16 / n).min(15)] += 1;
}

/// Sums over a maze whose means are compared.
fn pooled(w: usize, h: usize, g: &[Walls]) -> Vec<f64> {
    let n = w * h;
    let (dist, parent) = model::tree(w, h, g);
    let mut out = vec![0.0; POOLED];
    let mut children = vec![0usize; n];
    for i in 0..n {
        let Some(d) = dist[i] else { continue };
        let stage = match d {
            0..=15 => 0,
            16..=63 => 1,
            64..=255 => 2,
            256..=1023 => 3,
            _ => 4,
        };
        if i != 0 {
            let p = parent[i];
            children[p] += 1;
            let direction = if i == p + 1 && w > 1 {
                0
            } else if i == p + w {
                1
            } else if i + 1 == p && w > 1 {
                2
            } else {
                3
            };
            out[stage * 4 + direction] += 1.0;
            // The same by the part of the maze.
            let (x, y) = (i % w, i / w);
            let part = (x * 2 / w) + 2 * (y * 2 / h);
            out[20 + part * 4 + direction] += 1.0;
        }
        out[36] += d as f64;
    }
    for i in 0..n {
        out[37 + children[i].min(3)] += 1.0;
    }
    let bottom: Vec<usize> = (0..w).map(|x| dist[n - w + x].unwrap_or(0)).collect();
    let far = bottom.iter().copied().max().unwrap_or(0);
    out[41] = far as f64;
    out[42] = bottom.iter().position(|d| *d == far).unwrap_or(0) as f64;
    out[43] = dist.iter().flatten().max().copied().unwrap_or(0) as f64;
    out
}

const POOLED: usize = 44;

/// Larger mazes: the means of sums, which a central limit theorem governs.
fn against_reference_pooled(b: &Batch, cx: &mut Cx) -> Res {
    cx.nontrivial = true;
    let sums = |all: &mut dyn FnMut() -> Vec<Walls>| {
        let (mut s, mut q) = (vec![0.0; POOLED], vec![0.0; POOLED]);
        for _ in 0..b.n {
            for (i, v) in pooled(b.w, b.h, &all()).into_iter().enumerate() {
                s[i] += v;
                q[i] += v * v;
            }
        }
        (s, q)
    };
    let mut m = Mix::new(b.seed ^ 0x4EF1);
    let (ws, wq) = sums(&mut || simulate(b.w, b.h, &mut m));
    let (gs, gq) = seeded("create_maze", b.seed, || {
        sums(&mut || model::walls(&create_maze(b.w, b.h, MazeAlgorithm::RecursiveBacktrack).0))
    })?;
    let n = b.n as f64;
    for i in 0..POOLED {
        let var = |s: f64, q: f64| (q / n - (s / n) * (s / n)).max(0.0);
        // Nine standard deviations of the difference, and some slack for rare events.
        let t = 9.0 * ((var(ws[i], wq[i]) + var(gs[i], gq[i])) / n).sqrt() + 40.0 * (b.w * b.h) as f64 / n / n + 1e-9;
        ensure!(
            ((gs[i] - ws[i]) / n).abs() <= t,
            "{} x {}: sum {i} (directions of steps by distance and by part, distances, children, exit) has mean {:.4} over {} mazes, but {:.4} over as many reference walks (allowed difference {t:.4})",
            b.w, b.h, gs[i] / n, b.n, ws[i] / n
        );
    }
    Ok(())
}

fn against_reference(b: &Batch, cx: &mut Cx) -> Res {
    cx.nontrivial = true;
    let n = b.w * b.h;
    let len = 3 * n + 32;
    let mut want = vec![0u64; len];
    let mut m = Mix::new(b.seed ^ 0x4EF0);
    for _ in 0..b.n {
        features(b.w, b.h, &simulate(b.w, b.h, &mut m), &mut want);
    }
    let got = seeded("create_maze", b.seed, || {
        let mut got = vec![0u64; len];
        for _ in 0..b.n {
            let (nodes, _) = create_maze(b.w, b.h, MazeAlgorithm::RecursiveBacktrack);
            features(b.w, b.h, &model::walls(&nodes), &mut got);
        }
        got
    })?;
    for i in 0..len {
        // Both sides stray: add their bounds, each around the pooled estimate, widened for the estimate itself.
        let p = (got[i] + want[i]) as f64 / (2 * b.n) as f64;
        let t = 2.0 * bernstein(b.n as f64, p.clamp(0.0, 1.0)) + 20.0;
        ensure!(
            (got[i] as f64 - want[i] as f64).abs() <= t,
            "{} x {}: feature {i} (walls, dead ends, depths) occurs in {} of {} mazes, but in {} of as many reference walks (allowed difference {t:.0})",
            b.w, b.h, got[i], b.n, want[i]
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ printing

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grid {
    w: u32,
    h: u32,
    walls: Vec<Walls>,
}

fn wall_grid(max: u32) -> impl Strategy<Value = Grid> {
    let side = move || prop_oneof![1 => Just(0u32), 2 => Just(1u32), 6 => 1u32..6, 3 => 1..=max];
    (side(), side(), 0u8..5, 0u32..101).prop_flat_map(|(w, h, style, density)| {
        any::<u64>().prop_map(move |seed| {
            let mut m = Mix::new(seed);
            let n = (w * h) as usize;
            let walls = (0..n)
                .map(|i| match style {
                    // A single wall among none, a single gap among walls.
                    0 => Walls { right: i as u64 == seed % n as u64, down: i as u64 == (seed >> 20) % n as u64 },
                    1 => Walls { right: i as u64 != seed % n as u64, down: i as u64 != (seed >> 20) % n as u64 },
                    _ => Walls { right: m.below(100) < density as usize, down: m.below(100) < density as usize },
                })
                .collect();
            Grid { w, h, walls }
        })
    })
}

fn shrink_grid(g: &Grid) -> Vec<Grid> {
    let mut out = Vec::new();
    if g.walls.len() != (g.w as usize) * (g.h as usize) {
        return out;
    }
    // Drop a column or a row.
    for x in 0..g.w as usize {
        let walls = g.walls.iter().enumerate().filter(|(i, _)| i % g.w as usize != x).map(|(_, c)| *c).collect();
        out.push(Grid { w: g.w - 1, h: g.h, walls });
    }
    for y in 0..g.h as usize {
        let walls = g.walls.iter().enumerate().filter(|(i, _)| i / g.w as usize != y).map(|(_, c)| *c).collect();
        out.push(Grid { w: g.w, h: g.h - 1, walls });
    }
    for i in 0..g.walls.len() {
        for k in 0..2 {
            let mut c = g.clone();
            let f = if k == 0 { &mut c.walls[i].right } else { &mut c.walls[i].down };
            if *f {
                *f = false;
                out.push(c);
            }
        }
    }
    out
}

fn printed_walls(g: &Grid, cx: &mut Cx) -> Res {
    let got = guard("print_maze", || print_maze(g.w, g.h, &model::nodes(&g.walls)))?;
    let img = got.map_err(|e| format!("print_maze({}, {}, {} cells) = Err({e:?})", g.w, g.h, g.walls.len()))?;
    cx.nontrivial = g.walls.len() > 1;
    cx.label_if(g.w == 0 || g.h == 0, "no cells");
    let want = render::maze(g.w as usize, g.h as usize, &g.walls);
    match render::difference(&img, &want, 0) {
        None => Ok(()),
        Some(d) => Err(format!("{} x {} maze: {d}", g.w, g.h)),
    }
}

fn larger_grid() -> impl Strategy<Value = Grid> {
    let sides = prop_oneof![
        2 => (14u32..60, 14u32..60),
        1 => (60u32..420, 1u32..7),
        1 => (1u32..7, 60u32..420),
    ];
    (sides, 0u32..101, any::<u64>()).prop_map(|((w, h), density, seed)| {
        let mut m = Mix::new(seed);
        let d = density as usize;
        let walls = (0..w * h).map(|_| Walls { right: m.below(100) < d, down: m.below(100) < d }).collect();
        Grid { w, h, walls }
    })
}

fn mismatched(max_cells: usize) -> impl Strategy<Value = Grid> {
    let dim = || {
        prop_oneof![
            4 => 0u32..9,
            2 => 0u32..200,
            1 => prop::sample::select(vec![65_535u32, 65_536, 65_537, 1 << 31, u32::MAX, u32::MAX - 1, 429_496_729, 429_496_730, 429_496_731, (1 << 31) - 1]),
            1 => any::<u32>(),
        ]
    };
    (dim(), dim(), 0..max_cells, any::<u64>(), 0u8..4).prop_map(|(w, h, n, seed, kind)| {
        let exact = w as u64 * h as u64;
        // Sizes near the right one, the right one modulo 2^32, and any.
        let n = match kind {
            0 if exact < 4000 => (exact + seed % 3).saturating_sub(1) as usize,
            1 => (exact as u32 as usize).min(4000),
            2 => (w as u64 + h as u64).min(4000) as usize,
            _ => n,
        };
        let mut m = Mix::new(seed);
        let walls = (0..n).map(|_| Walls { right: m.below(2) == 0, down: m.below(2) == 0 }).collect();
        Grid { w, h, walls }
    })
}

fn wrong_size(g: &Grid, cx: &mut Cx) -> Res {
    let fits = g.w as u64 * g.h as u64 == g.walls.len() as u64;
    let (iw, ih) = (g.w as u64 * 10 + 1, g.h as u64 * 10 + 1);
    if fits && iw.max(ih) <= u32::MAX as u64 {
        if iw * ih > 50_000_000 {
            // A legal image, but too large to try.
            cx.discarded = true;
            return Ok(());
        }
        return printed_walls(g, cx);
    }
    cx.nontrivial = true;
    cx.label_if(fits, "no such image");
    cx.label_if(g.w.wrapping_mul(g.h) as usize == g.walls.len(), "equal modulo 2^32");
    let got = guard("print_maze", || print_maze(g.w, g.h, &model::nodes(&g.walls)))?;
    ensure!(
        matches!(got, Err(MazeError::InvalidDimensions)),
        "print_maze({}, {}, {} cells) = {}, expected invalid dimensions",
        g.w, g.h, g.walls.len(),
        outcome(&got)
    );
    Ok(())
}

fn outcome(r: &Result<RgbBuffer, MazeError>) -> String {
    match r {
        Ok(i) => format!("Ok({} x {} image)", i.width(), i.height()),
        Err(e) => format!("Err({e:?})"),
    }
}

fn printed_created(s: &Size, cx: &mut Cx) -> Res {
    size_labels(s, cx);
    let m = made(s)?;
    let got = guard("print_maze", || print_maze(s.w as u32, s.h as u32, &m.nodes))?;
    let img = got.map_err(|e| with_size(s, format!("print_maze = Err({e:?})")))?;
    let want = render::maze(s.w, s.h, &m.walls);
    match render::difference(&img, &want, 0) {
        None => Ok(()),
        Some(d) => Err(with_size(s, d)),
    }
}

fn drawn_solution(s: &Size, cx: &mut Cx) -> Res {
    size_labels(s, cx);
    let m = made(s)?;
    let exit = model::perfect(m.w, m.h, &m.walls).map_err(|e| with_size(s, e))?;
    let img = guard("print_maze", || print_maze(s.w as u32, s.h as u32, &m.nodes))?
        .map_err(|e| with_size(s, format!("print_maze = Err({e:?})")))?;
    let got = guard("print_maze_solution", || print_maze_solution(img.clone(), &m.solution))
        .map_err(|e| with_size(s, e))?;
    let got = got.map_err(|e| with_size(s, format!("print_maze_solution = Err({e:?}) for the solution {:?}", &m.solution[..m.solution.len().min(60)])))?;
    let cells: Vec<(i64, i64)> = model::route(s.w, s.h, &m.walls, exit)
        .into_iter()
        .map(|i| ((i % s.w) as i64, (i / s.w) as i64))
        .collect();
    if let Some(d) = render::difference(&got, &render::with_route(&img, &cells), 0) {
        return Err(with_size(s, format!("drawn solution: {d}")));
    }
    for (x, y) in render::route_pixels(&cells) {
        ensure!(*img.get_pixel(x, y) != Rgb([0, 0, 0]), "{}", with_size(s, format!("the line crosses a wall at pixel ({x}, {y})")));
    }
    cx.label_if(m.moves.contains(&Dir::Left) && cells.iter().skip(1).any(|c| c.0 == 0), "comes back to the left column");
    cx.label_if(m.moves.contains(&Dir::Up), "goes up");
    Ok(())
}

// ------------------------------------------------------------------ arbitrary moves

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Walk {
    /// Size of the image in pixels.
    iw: u32,
    ih: u32,
    /// Colours of the image: 0 is white.
    noise: u64,
    /// From the entrance on.
    moves: Vec<Dir>,
}

fn noise_image(w: u32, h: u32, noise: u64) -> RgbBuffer {
    let mut m = Mix::new(noise);
    RgbImage::from_fn(w, h, |_, _| {
        if noise == 0 {
            return Rgb([255, 255, 255]);
        }
        match m.below(4) {
            0 => Rgb([0, 0, 0]),
            1 => Rgb([255, 255, 255]),
            _ => {
                let v = m.next();
                Rgb([v as u8, (v >> 8) as u8, (v >> 16) as u8])
            }
        }
    })
}

fn any_dir() -> impl Strategy<Value = Dir> {
    prop::sample::select(Dir::ALL.to_vec())
}

/// A walk inside w x h cells, which then goes down to the bottom row if `land`.
fn inside(w: i64, h: i64, wishes: &[Dir], land: bool) -> Vec<Dir> {
    let (mut x, mut y) = (0, 0);
    let mut out = Vec::new();
    for d in wishes {
        let (nx, ny) = d.step(x, y);
        if (0..w).contains(&nx) && (0..h).contains(&ny) {
            out.push(*d);
            (x, y) = (nx, ny);
        }
    }
    while land && y < h - 1 {
        out.push(Dir::Down);
        y += 1;
    }
    out
}

fn walks(max: u32) -> impl Strategy<Value = Walk> {
    let side = move || prop_oneof![2 => Just(1u32), 5 => 1u32..5, 2 => 1..=max];
    (
        side(),
        side(),
        prop_oneof![1 => Just(0u64), 2 => any::<u64>()],
        prop::collection::vec(any_dir(), 0..60),
        any::<bool>(),
        prop::collection::vec((any::<prop::sample::Index>(), any_dir()), 0..3),
        any::<bool>(),
    )
        .prop_map(|(w, h, noise, wishes, land, wrong, corrupt)| {
            let mut moves = inside(w as i64, h as i64, &wishes, land);
            if corrupt {
                for (i, d) in wrong {
                    let i = i.index(moves.len() + 1);
                    moves.insert(i, d);
                }
            }
            Walk { iw: w * 10 + 1, ih: h * 10 + 1, noise, moves }
        })
}

/// Walks that step over exactly one border of the cells, or just do not.
fn borders(max: u32) -> impl Strategy<Value = Walk> {
    (1..=max, 1..=max, any::<u64>(), prop::collection::vec(any_dir(), 0..25), any_dir(), 0u32..3).prop_map(
        |(w, h, noise, wishes, d, extra)| {
            let mut moves = inside(w as i64, h as i64, &wishes, false);
            let (mut x, mut y) = (0, 0);
            for m in &moves {
                (x, y) = m.step(x, y);
            }
            // To the border (extra = 0), or beyond it.
            let room = match d {
                Dir::Right => w as i64 - 1 - x,
                Dir::Left => x,
                Dir::Down => h as i64 - 1 - y,
                Dir::Up => y,
            };
            for _ in 0..room + extra as i64 {
                moves.push(d);
            }
            if extra == 0 {
                for m in &moves[moves.len() - room as usize..] {
                    (x, y) = m.step(x, y);
                }
                for _ in y..h as i64 - 1 {
                    moves.push(Dir::Down);
                }
            }
            Walk { iw: w * 10 + 1, ih: h * 10 + 1, noise, moves }
        },
    )
}

fn odd_images() -> impl Strategy<Value = Walk> {
    let px = || prop_oneof![3 => 0u32..12, 2 => 0u32..45];
    (px(), px(), any::<u64>(), prop::collection::vec(any_dir(), 0..12))
        .prop_map(|(iw, ih, noise, moves)| Walk { iw, ih, noise, moves })
}

fn drawn_walk(k: &Walk, cx: &mut Cx) -> Res {
    let img = noise_image(k.iw, k.ih, k.noise);
    let api: Vec<MazeDirection> = k.moves.iter().rev().map(|d| d.api()).collect();
    let got = guard("print_maze_solution", || print_maze_solution(img.clone(), &api))?;
    let (w, h) = (k.iw.saturating_sub(1) as i64 / 10, k.ih.saturating_sub(1) as i64 / 10);
    let regular = k.iw % 10 == 1 && k.ih % 10 == 1 && w > 0 && h > 0;
    let mut cells = vec![(0i64, 0i64)];
    for d in &k.moves {
        let (x, y) = *cells.last().unwrap();
        cells.push(d.step(x, y));
    }
    let leaves = cells.iter().any(|&(x, y)| x < 0 || y < 0 || x >= w || y >= h);
    let in_bottom = cells.last().unwrap().1 == h - 1;
    let what = || format!("print_maze_solution({} x {} image, {:?} read backwards)", k.iw, k.ih, k.moves);
    if k.iw < 6 || k.ih < 6 {
        cx.label("tiny image");
        cx.nontrivial = true;
        ensure!(matches!(got, Err(MazeError::InvalidDimensions)), "{} = {}, expected invalid dimensions", what(), outcome(&got));
        return Ok(());
    }
    if regular && leaves {
        cx.label("leaves the cells");
        cx.nontrivial = true;
        ensure!(matches!(got, Err(MazeError::InvalidSolution)), "{} = {}, expected invalid solution", what(), outcome(&got));
        return Ok(());
    }
    if regular && in_bottom {
        cx.label("inside, ends in the bottom row");
        cx.nontrivial = k.moves.len() > 1;
        ensure!(got.is_ok(), "{} = {}, expected a drawing", what(), outcome(&got));
    }
    // Elsewhere a refusal is fine; a drawing has to be exact.
    if let Ok(out) = got {
        cx.label_if(!in_bottom, "drawn, ends above the bottom row");
        let fits = render_pixels_fit(&cells, k.iw, k.ih);
        ensure!(fits, "{} = Ok, though the line does not fit in the image", what());
        if let Some(d) = render::difference(&out, &render::with_route(&img, &cells), 0) {
            return Err(format!("{}: {d}", what()));
        }
    } else {
        cx.label_if(!regular, "odd image, refused");
        cx.label_if(regular, "ends above the bottom row, refused");
    }
    Ok(())
}

/// A long walk: towards a far cell with detours, then perhaps to and fro, then to the bottom row or out.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    w: u32,
    h: u32,
    steps: u32,
    /// moves to and fro between two cells
    repeat: u32,
    /// 0 ends in the bottom row, others leave on one side
    end: u8,
    /// what comes first: nothing, all the way right, all the way down, or both
    #[serde(default)]
    march: u8,
    /// whether the wandering is as often left and up as right and down
    #[serde(default)]
    even: bool,
    seed: u64,
}

fn far() -> impl Strategy<Value = Far> {
    let sides = prop_oneof![
        2 => (20u32..300, 20u32..300),
        1 => (1000u32..6600, 1u32..3),
        1 => (1u32..3, 1000u32..6600),
        1 => (6_540u32..7_500, 1u32..4),
        1 => (1u32..4, 6_540u32..7_500),
        2 => (1u32..20, 1u32..20),
    ];
    let first = (prop_oneof![2 => Just(0u8), 3 => 1u8..4], any::<bool>());
    (sides, 0u32..8000, prop_oneof![2 => Just(0u32), 1 => 0u32..3000, 1 => 60_000u32..70_000], prop_oneof![3 => Just(0u8), 1 => 1u8..5], first, any::<u64>())
        .prop_map(|((w, h), steps, repeat, end, (march, even), seed)| Far { w, h, steps, repeat, end, march, even, seed })
}

fn far_walk(f: &Far, cx: &mut Cx) -> Res {
    let mut m = Mix::new(f.seed);
    let (w, h) = (f.w as i64, f.h as i64);
    let (mut x, mut y) = (0i64, 0i64);
    let mut moves = Vec::new();
    let mut go = |d: Dir, x: &mut i64, y: &mut i64| {
        let (nx, ny) = d.step(*x, *y);
        if (0..w).contains(&nx) && (0..h).contains(&ny) {
            (*x, *y) = (nx, ny);
            moves.push(d);
            return true;
        }
        false
    };
    if f.march & 1 != 0 {
        while go(Dir::Right, &mut x, &mut y) {}
    }
    if f.march & 2 != 0 {
        while go(Dir::Down, &mut x, &mut y) {}
    }
    for _ in 0..f.steps {
        // Mostly right and down, unless it is to be even.
        let d = [Dir::Right, Dir::Down, Dir::Left, Dir::Up, Dir::Right, Dir::Down, Dir::Right, Dir::Down][m.below(if f.even { 4 } else { 8 })];
        go(d, &mut x, &mut y);
    }
    for _ in 0..f.repeat / 2 {
        for (d, back) in [(Dir::Right, Dir::Left), (Dir::Down, Dir::Up), (Dir::Left, Dir::Right), (Dir::Up, Dir::Down)] {
            if go(d, &mut x, &mut y) {
                go(back, &mut x, &mut y);
                break;
            }
        }
    }
    let out = match f.end {
        0 | 1 => Dir::Down,
        2 => Dir::Right,
        3 => Dir::Left,
        _ => Dir::Up,
    };
    while go(out, &mut x, &mut y) {}
    if f.end != 0 {
        moves.push(out);
    }
    drawn_walk(&Walk { iw: f.w * 10 + 1, ih: f.h * 10 + 1, noise: f.seed & 1, moves }, cx).map_err(|e| e.chars().take(600).collect())
}

fn render_pixels_fit(cells: &[(i64, i64)], iw: u32, ih: u32) -> bool {
    let last = cells.last().unwrap();
    cells.iter().all(|&(x, y)| x >= 0 && y >= 0 && 10 * x + 5 < iw as i64 && 10 * y + 5 < ih as i64)
        && 10 * last.1 + 10 < ih as i64
}

// ------------------------------------------------------------------ serialisation

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Saved {
    grid: Grid,
    moves: Vec<Dir>,
}

fn saved(max: u32) -> impl Strategy<Value = Saved> {
    (wall_grid(max), prop::collection::vec(any_dir(), 0..40)).prop_map(|(grid, moves)| Saved { grid, moves })
}

fn round_trips(grid: &[MazeNode], moves: &[MazeDirection]) -> Result<Vec<(&'static str, Vec<MazeNode>, Vec<MazeDirection>)>, String> {
    let mut out = Vec::new();
    let fail = |f: &str, e: String| format!("{f}: {e}");
    let both = |f: &'static str, r: Result<(Vec<MazeNode>, Vec<MazeDirection>), String>| r.map(|(g, m)| (f, g, m)).map_err(|e| fail(f, e));
    out.push(both(
        "JSON",
        guard("JSON", || -> Result<_, serde_json::Error> {
            Ok((
                serde_json::from_str(&serde_json::to_string(grid)?)?,
                serde_json::from_str(&serde_json::to_string(moves)?)?,
            ))
        })?
        .map_err(|e| e.to_string()),
    )?);
    out.push(both(
        "JSON from a reader",
        guard("JSON from a reader", || -> Result<_, serde_json::Error> {
            Ok((
                serde_json::from_reader(&serde_json::to_vec_pretty(grid)?[..])?,
                serde_json::from_reader(&serde_json::to_vec_pretty(moves)?[..])?,
            ))
        })?
        .map_err(|e| e.to_string()),
    )?);
    out.push(both(
        "JSON values",
        guard("JSON values", || -> Result<_, serde_json::Error> {
            Ok((serde_json::from_value(serde_json::to_value(grid)?)?, serde_json::from_value(serde_json::to_value(moves)?)?))
        })?
        .map_err(|e| e.to_string()),
    )?);
    out.push(both(
        "CBOR",
        guard("CBOR", || -> Result<_, String> {
            let (mut a, mut b) = (Vec::new(), Vec::new());
            ciborium::into_writer(grid, &mut a).map_err(|e| e.to_string())?;
            ciborium::into_writer(moves, &mut b).map_err(|e| e.to_string())?;
            Ok((
                ciborium::from_reader(&a[..]).map_err(|e| e.to_string())?,
                ciborium::from_reader(&b[..]).map_err(|e| e.to_string())?,
            ))
        })?,
    )?);
    out.push(both(
        "bincode",
        guard("bincode", || -> Result<_, bincode::Error> {
            Ok((
                bincode::deserialize(&bincode::serialize(grid)?)?,
                bincode::deserialize(&bincode::serialize(moves)?)?,
            ))
        })?
        .map_err(|e| e.to_string()),
    )?);
    Ok(out)
}

fn text_of(grid: &[MazeNode]) -> Vec<String> {
    grid.iter().map(|n| format!("{n:?}")).collect()
}

fn restored(w: u32, h: u32, nodes: &[MazeNode], moves: &[MazeDirection]) -> Res {
    let before = guard("print_maze", || print_maze(w, h, nodes))?.map_err(|e| format!("print_maze({w}, {h}) = Err({e:?})"))?;
    let drawn = guard("print_maze_solution", || print_maze_solution(before.clone(), moves))?;
    let dirs: Vec<Dir> = moves.iter().map(Dir::from_api).collect();
    for (format, n, m) in round_trips(nodes, moves)? {
        ensure!(n.len() == nodes.len(), "{format}: {} of {} cells come back", n.len(), nodes.len());
        let got: Vec<Dir> = m.iter().map(Dir::from_api).collect();
        ensure!(got == dirs, "{format}: the moves {dirs:?} come back as {got:?}");
        let (a, b) = (text_of(nodes), text_of(&n));
        for i in 0..a.len() {
            ensure!(a[i] == b[i], "{format}: cell {i}, {}, comes back as {}", a[i], b[i]);
        }
        let after = guard("print_maze", || print_maze(w, h, &n))?.map_err(|e| format!("{format}: print_maze = Err({e:?})"))?;
        if let Some(d) = render::difference(&after, &before, 0) {
            return Err(format!("{format}: the restored maze prints differently: {d}"));
        }
        let again = guard("print_maze_solution", || print_maze_solution(after, &m))?;
        let same = match (&again, &drawn) {
            (Ok(x), Ok(y)) => x == y,
            (Err(x), Err(y)) => format!("{x:?}") == format!("{y:?}"),
            _ => false,
        };
        ensure!(same, "{format}: the restored solution is drawn differently");
    }
    Ok(())
}

fn saved_any(s: &Saved, cx: &mut Cx) -> Res {
    let nodes = model::nodes(&s.grid.walls);
    let back = model::walls(&nodes);
    cx.nontrivial = nodes.len() > 1;
    // The flags are independent: what was put in comes out, and prints as such.
    for (i, (a, b)) in s.grid.walls.iter().zip(&back).enumerate() {
        ensure!(a == b, "cell {i}: {a:?} was read and is written as {b:?}");
    }
    let img = guard("print_maze", || print_maze(s.grid.w, s.grid.h, &nodes))?.map_err(|e| format!("print_maze = Err({e:?})"))?;
    if let Some(d) = render::difference(&img, &render::maze(s.grid.w as usize, s.grid.h as usize, &s.grid.walls), 0) {
        return Err(format!("a maze that was read prints differently from its walls: {d}"));
    }
    let api: Vec<MazeDirection> = s.moves.iter().rev().map(|d| d.api()).collect();
    restored(s.grid.w, s.grid.h, &nodes, &api)
}

fn saved_created(s: &Size, cx: &mut Cx) -> Res {
    size_labels(s, cx);
    let m = made(s)?;
    restored(s.w as u32, s.h as u32, &m.nodes, &m.solution).map_err(|e| with_size(s, e))
}

// ------------------------------------------------------------------ properties

const RANDOM: &[&str] = &[
    "thread_rng takes its entropy from getrandom 0.2, which the harness replaces by a seeded stream",
    "wall flags are read through the serialised form of a cell",
];

const SIZES: &str = "sizes 1 x 1 to 25 x 25, single rows and columns up to 50, and a seed for the random numbers; non-trivial: at least two rows and columns and six cells";
const LARGE: &str = "sizes up to 200 x 200 and 1 x 8000; non-trivial: as above";

/// Around and above a million cells.
fn giant() -> impl Strategy<Value = Size> {
    let sides = prop_oneof![
        3 => (300usize..1_200, 300usize..1_200),
        1 => (1usize..4, 200_000usize..500_000),
        1 => (200_000usize..500_000, 1usize..4),
        1 => (1_500usize..5_000, 50usize..200),
        1 => (50usize..200, 1_500usize..5_000),
    ];
    (sides, any::<u64>()).prop_map(|((w, h), seed)| Size { w, h, seed })
}

const GIANT: &str = "90000 to 1.4 million cells: squares, single rows and columns, stripes";
const HUGE: &str = "sizes up to 309 x 309 and 1 x 66000, and around 256; non-trivial: as above";

pub fn m01() -> Property {
    Property {
        id: "M01",
        assumptions: RANDOM,
        suites: vec![
            Suite::random("sizes", SIZES, 24_000, 800_000, |_| sizes(25), perfect),
            Suite::random("large", LARGE, 160, 3_000, |_| large(200), perfect),
            Suite::random("huge", HUGE, 48, 480, |_| huge(66_000), perfect).batches(),
            Suite::random("giant", GIANT, 32, 320, |_| giant(), perfect).batches(),
        ],
    }
}

pub fn m02() -> Property {
    Property {
        id: "M02",
        assumptions: RANDOM,
        suites: vec![
            Suite::random("sizes", SIZES, 24_000, 800_000, |_| sizes(25), route),
            Suite::random("large", LARGE, 160, 3_000, |_| large(200), route),
            Suite::random("huge", HUGE, 48, 480, |_| huge(66_000), route).batches(),
            Suite::random("giant", GIANT, 32, 320, |_| giant(), route).batches(),
        ],
    }
}

pub fn m03() -> Property {
    Property {
        id: "M03",
        assumptions: RANDOM,
        suites: vec![
            Suite::random("sizes", "as M01, non-trivial: also at least three columns", 24_000, 800_000, |_| sizes(25), farthest),
            Suite::random("large", LARGE, 160, 3_000, |_| large(200), farthest),
            Suite::random("huge", HUGE, 48, 480, |_| huge(66_000), farthest).batches(),
            Suite::random("giant", GIANT, 32, 320, |_| giant(), farthest).batches(),
        ],
    }
}

pub fn m04() -> Property {
    const SMALL: [(usize, usize); 14] = [
        (1, 1), (1, 4), (4, 1), (2, 2), (2, 3), (3, 2), (2, 4), (4, 2), (3, 3), (5, 2), (2, 5), (3, 4), (4, 3), (6, 2),
    ];
    const MEDIUM: [(usize, usize); 8] = [(5, 5), (4, 4), (7, 4), (4, 7), (10, 3), (3, 10), (8, 8), (12, 2)];
    const LARGER: [(usize, usize); 10] = [(16, 16), (40, 4), (4, 40), (30, 30), (25, 12), (12, 25), (60, 60), (17, 17), (300, 3), (3, 300)];
    Property {
        id: "M04",
        assumptions: &[
            "thread_rng takes its entropy from getrandom 0.2, which the harness replaces by a seeded stream",
            "statistical bounds: Bernstein's inequality at 1e-14 per comparison, so a fair generator fails with negligible probability whatever its order of draws",
        ],
        suites: vec![
            Suite::random("shape", SIZES, 16_000, 600_000, |_| sizes(25), no_cross_edges),
            Suite::random("shape of large ones", LARGE, 80, 2_000, |_| large(200), no_cross_edges),
            Suite::random("shape of huge ones", HUGE, 32, 320, |_| huge(66_000), no_cross_edges).batches(),
            Suite::random("shape of giant ones", GIANT, 32, 320, |_| giant(), no_cross_edges).batches(),
            Suite::random("exact distribution", "batches of mazes of 14 small sizes, compared with the exact distribution of all walks; every batch is non-trivial", 28, 112,
                |t| (0usize..SMALL.len(), any::<u64>()).prop_map(move |(i, seed)| Batch {
                    w: SMALL[(i + seed as usize) % SMALL.len()].0,
                    h: SMALL[(i + seed as usize) % SMALL.len()].1,
                    n: if t == crate::driver::Tier::Quick { 250_000 } else { 3_000_000 },
                    seed,
                }).no_shrink(), exact_distribution).batches(),
            Suite::enumerated("every small size", "one batch for each of the 14 small sizes", 14, 14, 14,
                |i| Batch { w: SMALL[i as usize].0, h: SMALL[i as usize].1, n: 1_500_000, seed: 0xD15 + i }, exact_distribution),
            Suite::random("against a reference walk", "batches of mazes of eight medium sizes; frequencies of open walls, dead ends and depths compared with those of a reference walk; every batch is non-trivial", 16, 160,
                |t| (0usize..MEDIUM.len(), any::<u64>()).prop_map(move |(i, seed)| Batch {
                    w: MEDIUM[i].0,
                    h: MEDIUM[i].1,
                    n: if t == crate::driver::Tier::Quick { 20_000 } else { 100_000 },
                    seed,
                }).no_shrink(), against_reference).batches(),
            Suite::random("against a reference walk, larger", "batches of mazes of ten larger sizes; means of sums over a maze (steps by direction, distance from the entrance and part of the maze; distances; branchings; exit) compared with those of a reference walk; every batch is non-trivial", 40, 400,
                |t| (0usize..LARGER.len(), any::<u64>()).prop_map(move |(i, seed)| Batch {
                    w: LARGER[i].0,
                    h: LARGER[i].1,
                    n: if t == crate::driver::Tier::Quick { 1_000_000 } else { 5_000_000 } / (LARGER[i].0 * LARGER[i].1),
                    seed,
                }).no_shrink(), against_reference_pooled).batches(),
            Suite::random("no repetition", "20000 (thorough: 100000) mazes of 10 x 10 to 12 x 12 cells, none of which comes up twice; every batch is non-trivial", 16, 160,
                |t| (10usize..13, 10usize..13, any::<u64>()).prop_map(move |(w, h, seed)| Batch { w, h, n: if t == crate::driver::Tier::Quick { 20_000 } else { 100_000 }, seed }).no_shrink(), no_repetition).batches(),
            Suite::random("first of a thread", "the first mazes of 5000 threads, of one of six small sizes compared with the exact distribution; their second ones, 10 x 10, all differ; every batch is non-trivial", 24, 240,
                |_| (prop::sample::select(vec![(2usize, 2usize), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2)]), any::<u64>()).prop_map(|((w, h), seed)| Batch { w, h, n: 5_000, seed }).no_shrink(), first_of_thread).batches(),
            Suite::random("processes", "12 processes with different entropy make different mazes of 12 x 12 cells; every case counts", 16, 160, |_| processes(), |p, cx| processes_differ(p, 0, "the first mazes", cx)).batches(),
        ],
    }
}

pub fn m05() -> Property {
    Property {
        id: "M05",
        assumptions: &["cells with arbitrary walls are built through deserialisation", "images above 50 million pixels are not tried"],
        suites: vec![
            Suite::random("any walls", "grids 0 x 0 to 14 x 14 with any walls; non-trivial: two cells and more", 12_000, 400_000, |_| wall_grid(14), printed_walls).with_shrink(shrink_grid),
            Suite::random("wrong size", "sizes and numbers of cells that differ, also only above 2^32, and sizes without an image; non-trivial: they do differ", 12_000, 400_000, |_| mismatched(60), wrong_size),
            Suite::random("created", SIZES, 4_000, 160_000, |_| sizes(25), printed_created),
            Suite::random("created large", "created mazes up to 60 x 60 and 1 x 2400", 64, 1_600, |_| large(60), printed_created),
            Suite::random("created huge", "created mazes up to 309 x 309 and 2 x 7000", 48, 480, |_| huge(7_000), printed_created).batches(),
            Suite::random("any walls, larger", "grids up to 60 x 60, 420 x 6 and 6 x 420 with any walls", 1_200, 24_000, |_| larger_grid(), printed_walls).with_shrink(shrink_grid).batches(),
        ],
    }
}

pub fn m06() -> Property {
    Property {
        id: "M06",
        assumptions: RANDOM,
        suites: vec![
            Suite::random("sizes", SIZES, 10_000, 400_000, |_| sizes(25), drawn_solution),
            Suite::random("large", "created mazes up to 60 x 60 and 1 x 2400", 96, 2_400, |_| large(60), drawn_solution),
            Suite::random("huge", "created mazes up to 309 x 309 and 2 x 7000", 48, 480, |_| huge(7_000), drawn_solution).batches(),
        ],
    }
}

pub fn m07() -> Property {
    Property {
        id: "M07",
        assumptions: &["images whose size is not that of a maze picture: any refusal is accepted, a drawing has to be exact"],
        suites: vec![
            Suite::random("walks", "walks over pictures of 1 x 1 to 9 x 9 cells, kept inside or with random moves inserted; non-trivial: two moves and more, or leaving", 16_000, 600_000, |_| walks(9), drawn_walk),
            Suite::random("borders", "walks up to or over one border", 16_000, 600_000, |_| borders(6), drawn_walk),
            Suite::random("odd images", "images of any size from 0 x 0 to 44 x 44 pixels", 8_000, 300_000, |_| odd_images(), drawn_walk),
            Suite::random("far", "walks through pictures up to 300 x 300, 7500 x 3 and 3 x 7500 cells, and walks of up to 70000 moves", 200, 4_000, |_| far(), far_walk).batches(),
        ],
    }
}

pub fn m08() -> Property {
    Property {
        id: "M08",
        assumptions: &["formats tried: JSON (text, reader, values), CBOR (self-describing) and bincode (positional)"],
        suites: vec![
            Suite::random("any", "any walls and any moves; non-trivial: two cells and more", 6_000, 240_000, |_| saved(10), saved_any),
            Suite::random("created", SIZES, 3_000, 100_000, |_| sizes(20), saved_created),
            Suite::random("created huge", "created mazes up to 309 x 309 and 2 x 7000", 24, 240, |_| huge(7_000), saved_created).batches(),
        ],
    }
}
