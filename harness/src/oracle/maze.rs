//! Independent maze model.
use puzzle_utils::{MazeDirection, MazeNode};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Walls {
    pub right: bool,
    pub down: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dir {
    Right,
    Down,
    Left,
    Up,
}

impl Dir {
    pub const ALL: [Dir; 4] = [Dir::Right, Dir::Down, Dir::Left, Dir::Up];
    pub fn step(self, x: i64, y: i64) -> (i64, i64) {
        match self {
            Dir::Right => (x + 1, y),
            Dir::Down => (x, y + 1),
            Dir::Left => (x - 1, y),
            Dir::Up => (x, y - 1),
        }
    }
    pub fn api(self) -> MazeDirection {
        match self {
            Dir::Right => MazeDirection::Right,
            Dir::Down => MazeDirection::Down,
            Dir::Left => MazeDirection::Left,
            Dir::Up => MazeDirection::Up,
        }
    }
    pub fn from_api(d: &MazeDirection) -> Dir {
        match d {
            MazeDirection::Right => Dir::Right,
            MazeDirection::Down => Dir::Down,
            MazeDirection::Left => Dir::Left,
            MazeDirection::Up => Dir::Up,
        }
    }
}

/// The walls of cells, read through their serialised form; where that does not tell, from the picture of each cell.
pub fn walls(grid: &[MazeNode]) -> Vec<Walls> {
    if let Some(walls) = serde_json::to_value(grid).ok().and_then(|v| serde_json::from_value(v).ok()) {
        return walls;
    }
    grid.iter()
        .map(|node| {
            let image = puzzle_utils::print_maze(1, 1, std::slice::from_ref(node)).expect("a cell can be printed");
            let black = |x, y| image.get_pixel(x, y).0 == [0; 3];
            Walls { right: black(10, 5), down: black(5, 10) }
        })
        .collect()
}

/// Cells with given walls, built through deserialisation; where that fails, taken from created mazes.
pub fn nodes(want: &[Walls]) -> Vec<MazeNode> {
    if let Some(nodes) = serde_json::to_value(want).ok().and_then(|v| serde_json::from_value(v).ok()) {
        return nodes;
    }
    let mut kinds: Vec<(Walls, MazeNode)> = Vec::new();
    for _ in 0..200 {
        let (grid, _) = puzzle_utils::create_maze(6, 6, puzzle_utils::MazeAlgorithm::RecursiveBacktrack);
        for (w, n) in walls(&grid).into_iter().zip(grid) {
            if kinds.iter().all(|k| k.0 != w) {
                kinds.push((w, n));
            }
        }
    }
    want.iter().map(|w| kinds.iter().find(|k| k.0 == *w).expect("every kind of cell occurs").1.clone()).collect()
}

/// Open neighbours of a cell inside the grid.
pub fn neighbours(w: usize, h: usize, g: &[Walls], i: usize) -> Vec<usize> {
    let (x, y) = (i % w, i / w);
    let mut out = Vec::new();
    if x + 1 < w && !g[i].right {
        out.push(i + 1);
    }
    if y + 1 < h && !g[i].down {
        out.push(i + w);
    }
    if x > 0 && !g[i - 1].right {
        out.push(i - 1);
    }
    if y > 0 && !g[i - w].down {
        out.push(i - w);
    }
    out
}

/// Distance and parent of every cell reachable from cell 0.
pub fn tree(w: usize, h: usize, g: &[Walls]) -> (Vec<Option<usize>>, Vec<usize>) {
    let mut dist = vec![None; w * h];
    let mut parent = vec![usize::MAX; w * h];
    dist[0] = Some(0);
    let mut todo = vec![0];
    // Depth-first on purpose: in a tree the order does not matter, and trees are checked first.
    while let Some(i) = todo.pop() {
        for n in neighbours(w, h, g, i) {
            if dist[n].is_none() {
                dist[n] = Some(dist[i].unwrap() + 1);
                parent[n] = i;
                todo.push(n);
            }
        }
    }
    (dist, parent)
}

/// Why the walls are not those of a perfect maze with one exit, if so; else the exit's column.
pub fn perfect(w: usize, h: usize, g: &[Walls]) -> Result<usize, String> {
    if g.len() != w * h {
        return Err(format!("{} cells for a {w} x {h} maze", g.len()));
    }
    for y in 0..h {
        if !g[y * w + w - 1].right {
            return Err(format!("the right border is open in row {y}"));
        }
    }
    let exits: Vec<usize> = (0..w).filter(|x| !g[(h - 1) * w + x].down).collect();
    if exits.len() != 1 {
        return Err(format!("the bottom border is open at columns {exits:?}"));
    }
    let mut open = 0;
    for y in 0..h {
        for x in 0..w {
            let c = g[y * w + x];
            open += (x + 1 < w && !c.right) as usize + (y + 1 < h && !c.down) as usize;
        }
    }
    let (dist, _) = tree(w, h, g);
    if let Some(i) = dist.iter().position(|d| d.is_none()) {
        return Err(format!("cell ({}, {}) cannot be reached", i % w, i / w));
    }
    if open != w * h - 1 {
        return Err(format!("{open} open inner walls for {} cells: there is a loop", w * h));
    }
    Ok(exits[0])
}

/// The cells from the entrance to the exit.
pub fn route(w: usize, h: usize, g: &[Walls], exit: usize) -> Vec<usize> {
    let (_, parent) = tree(w, h, g);
    let mut at = (h - 1) * w + exit;
    let mut out = vec![at];
    while at != 0 {
        at = parent[at];
        out.push(at);
    }
    out.reverse();
    out
}
