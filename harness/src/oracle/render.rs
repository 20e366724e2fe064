//! Reference renderers, written from the layout the fixtures pin, not from the library's loops.
use super::maze::Walls;
use ab_glyph::FontRef;
use image::{Rgb, RgbImage};
use puzzle_utils::RgbBuffer;
use std::sync::OnceLock;

pub const WHITE: Rgb<u8> = Rgb([255, 255, 255]);
pub const BLACK: Rgb<u8> = Rgb([0, 0, 0]);
pub const RED: Rgb<u8> = Rgb([255, 0, 0]);
pub const GRAY: Rgb<u8> = Rgb([105, 105, 105]);

// The harness has its own copy of the font: a changed font in the library is a changed picture.
const FONT: &[u8] = include_bytes!("../../assets/Roboto-Medium.ttf");

fn text(img: &mut RgbImage, x: i32, y: i32, size: f32, s: &str) {
    let font = FontRef::try_from_slice(FONT).expect("font");
    imageproc::drawing::draw_text_mut(img, BLACK, x, y, size, &font, s);
}

/// First difference of two images by more than `tolerance` levels in a channel.
pub fn difference(got: &RgbBuffer, want: &RgbBuffer, tolerance: u8) -> Option<String> {
    if got.dimensions() != want.dimensions() {
        return Some(format!("size {:?}, expected {:?}", got.dimensions(), want.dimensions()));
    }
    if got.as_raw() == want.as_raw() {
        return None;
    }
    let w = got.width() as usize;
    let at = got
        .as_raw()
        .iter()
        .zip(want.as_raw())
        .position(|(a, b)| a.abs_diff(*b) > tolerance)?;
    let (x, y) = (at / 3 % w, at / 3 / w);
    Some(format!(
        "pixel ({x}, {y}) is {:?}, expected {:?}",
        got.get_pixel(x as u32, y as u32).0,
        want.get_pixel(x as u32, y as u32).0
    ))
}

// ------------------------------------------------------------------ sudoku

type Glyph = Vec<(u32, u32, Rgb<u8>)>;

/// The pixels of each digit, relative to the corner of its cell.
fn digits() -> &'static [Glyph; 10] {
    static D: OnceLock<[Glyph; 10]> = OnceLock::new();
    D.get_or_init(|| {
        std::array::from_fn(|d| {
            if d == 0 {
                return Vec::new();
            }
            let mut img = RgbImage::from_pixel(300, 300, WHITE);
            text(&mut img, 125, 105, 100.0, &d.to_string());
            let ink: Glyph = img
                .enumerate_pixels()
                .filter(|(_, _, p)| **p != WHITE)
                .map(|(x, y, p)| {
                    assert!((102..199).contains(&x) && (102..199).contains(&y), "digit inside its cell");
                    (x - 100, y - 100, *p)
                })
                .collect();
            assert!(!ink.is_empty());
            ink
        })
    })
}

fn empty_sudoku() -> &'static RgbImage {
    static E: OnceLock<RgbImage> = OnceLock::new();
    E.get_or_init(|| {
        let line = |k: u32| k % 100 == 0 || [299, 301, 599, 601].contains(&k);
        RgbImage::from_fn(900, 900, |x, y| if line(x) || line(y) { BLACK } else { WHITE })
    })
}

pub fn sudoku(p: &[u8]) -> RgbBuffer {
    let mut img = empty_sudoku().clone();
    for (i, &v) in p.iter().enumerate() {
        let (x0, y0) = (i as u32 % 9 * 100, i as u32 / 9 * 100);
        for (x, y, c) in &digits()[v as usize] {
            img.put_pixel(x0 + x, y0 + y, *c);
        }
    }
    img
}

/// Reads a board back by the best-matching digit in every cell.
pub fn read_sudoku(img: &RgbBuffer) -> Vec<u8> {
    (0..81)
        .map(|i| {
            let (x0, y0) = (i % 9 * 100, i / 9 * 100);
            (0..10u8)
                .min_by_key(|d| {
                    let glyph = &digits()[*d as usize];
                    let mut cost = 0u64;
                    let mut want = vec![255u8; 100 * 100];
                    for (x, y, c) in glyph {
                        want[(y * 100 + x) as usize] = c.0[0];
                    }
                    for y in 2..99 {
                        for x in 2..99 {
                            cost += img
                                .get_pixel(x0 + x, y0 + y)
                                .0[0]
                                .abs_diff(want[(y * 100 + x) as usize])
                                as u64;
                        }
                    }
                    cost
                })
                .unwrap()
        })
        .collect()
}

// ------------------------------------------------------------------ nonogram

pub fn nonogram_margin(cells: usize) -> u32 {
    (cells as u32 * 10).max(150)
}

pub fn nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> RgbBuffer {
    let (w, h) = (col.len() as u32, row.len() as u32);
    let (mx, my) = (nonogram_margin(col.len()), nonogram_margin(row.len()));
    let mut img = RgbImage::from_pixel(50 * w + mx, 50 * h + my, WHITE);
    for (i, clue) in col.iter().enumerate() {
        let mut y = 10;
        for n in clue {
            text(&mut img, (mx + 50 * i as u32 + 15) as i32, y, 30.0, &n.to_string());
            y += 30;
        }
    }
    for (i, clue) in row.iter().enumerate() {
        let words: Vec<String> = clue.iter().map(|n| n.to_string()).collect();
        text(&mut img, 10, (my + 50 * i as u32 + 10) as i32, 30.0, &words.join("  "));
    }
    // A pixel belongs to a line if it is on a cell boundary, or beside every fifth one.
    let line = |k: u32, margin: u32, cells: u32| {
        (0..cells).any(|i| {
            let b = margin + 50 * i;
            k == b || (i % 5 == 0 && (k + 1 == b || k == b + 1))
        })
    };
    let xs: Vec<bool> = (0..img.width()).map(|x| line(x, mx, w)).collect();
    let ys: Vec<bool> = (0..img.height()).map(|y| line(y, my, h)).collect();
    for (x, y, p) in img.enumerate_pixels_mut() {
        if xs[x as usize] || ys[y as usize] {
            *p = GRAY;
        }
    }
    img
}

/// The board with the inside of the filled cells black.
pub fn nonogram_solution(w: usize, h: usize, board: &RgbBuffer, g: &[bool]) -> RgbBuffer {
    let (mx, my) = (nonogram_margin(w), nonogram_margin(h));
    let mut img = board.clone();
    for (x, y, p) in img.enumerate_pixels_mut() {
        if x > mx && y > my {
            let (dx, dy) = (x - mx, y - my);
            if dx % 50 != 0 && dy % 50 != 0 && g[(dy / 50) as usize * w + (dx / 50) as usize] {
                *p = BLACK;
            }
        }
    }
    img
}

// ------------------------------------------------------------------ maze

pub fn maze(w: usize, h: usize, g: &[Walls]) -> RgbBuffer {
    RgbImage::from_fn(w as u32 * 10 + 1, h as u32 * 10 + 1, |px, py| {
        let (px, py) = (px as usize, py as usize);
        let mut black = px == 0 || (py == 0 && px >= 10);
        // Right wall of cell (x, y): column 10(x+1), rows 10y..=10y+10.
        if px > 0 && px % 10 == 0 {
            let x = px / 10 - 1;
            for y in [py / 10, (py / 10).wrapping_sub(1)] {
                if y < h && (y * 10..=y * 10 + 10).contains(&py) {
                    black |= g[y * w + x].right;
                }
            }
        }
        // Lower wall of cell (x, y): row 10(y+1), columns 10x..=10x+10.
        if py > 0 && py % 10 == 0 {
            let y = py / 10 - 1;
            for x in [px / 10, (px / 10).wrapping_sub(1)] {
                if x < w && (x * 10..=x * 10 + 10).contains(&px) {
                    black |= g[y * w + x].down;
                }
            }
        }
        if black {
            BLACK
        } else {
            WHITE
        }
    })
}

/// The pixels of the red line through the centres of the given cells, in and out included.
pub fn route_pixels(cells: &[(i64, i64)]) -> Vec<(u32, u32)> {
    let centre = |(x, y): (i64, i64)| (10 * x + 5, 10 * y + 5);
    let mut points = vec![(5, 0)];
    points.extend(cells.iter().map(|c| centre(*c)));
    let last = centre(*cells.last().expect("a route has a cell"));
    points.push((last.0, last.1 + 5));
    let mut out = Vec::new();
    for pair in points.windows(2) {
        let ((x0, y0), (x1, y1)) = (pair[0], pair[1]);
        for x in x0.min(x1)..=x0.max(x1) {
            for y in y0.min(y1)..=y0.max(y1) {
                out.push((x as u32, y as u32));
            }
        }
    }
    out
}

pub fn with_route(img: &RgbBuffer, cells: &[(i64, i64)]) -> RgbBuffer {
    let mut out = img.clone();
    for (x, y) in route_pixels(cells) {
        out.put_pixel(x, y, RED);
    }
    out
}
