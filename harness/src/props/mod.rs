pub mod cost;
pub mod history;
pub mod image;
pub mod maze;
pub mod nonogram;
pub mod sudoku;
pub mod whole;

#[cfg(feature = "hooks")]
pub mod cover;

use crate::driver::Property;

pub fn find(id: &str) -> Option<Property> {
    let p = match id {
        "S01" => sudoku::s01(),
        "S02" => sudoku::s02(),
        "S03" => sudoku::s03(),
        "S04" => sudoku::s04(),
        "S05" => sudoku::s05(),
        "N01" => nonogram::n01(),
        "N02" => nonogram::n02(),
        "N03" => nonogram::n03(),
        "N04" => nonogram::n04(),
        "N05" => nonogram::n05(),
        "N06" => nonogram::n06(),
        "N07" => nonogram::n07(),
        "M01" => maze::m01(),
        "M02" => maze::m02(),
        "M03" => maze::m03(),
        "M04" => maze::m04(),
        "M05" => maze::m05(),
        "M06" => maze::m06(),
        "M07" => maze::m07(),
        "M08" => maze::m08(),
        "S07" => whole::s07(),
        "S08" => whole::s08(),
        "N08" => whole::n08(),
        "M09" => whole::m09(),
        "M10" => whole::m10(),
        "E01" => whole::e01(),
        "I01" => image::i01(),
        "P01" => cost::p01(),
        "R01" => cost::r01(),
        "C01" => history::c01(),
        "C02" => history::c02(),
        #[cfg(feature = "hooks")]
        "S06" => cover::s06(),
        #[cfg(feature = "hooks")]
        "X01" => cover::x01(),
        #[cfg(feature = "hooks")]
        "X02" => cover::x02(),
        #[cfg(feature = "hooks")]
        "X03" => cover::x03(),
        #[cfg(feature = "hooks")]
        "U01" => cover::u01(),
        #[cfg(not(feature = "hooks"))]
        "S06" | "X01" | "X02" | "X03" | "U01" => return from_outside(id),
        _ => return None,
    };
    let times = TIMES.iter().find(|t| t.0 == id).map_or(1, |t| t.1);
    Some(p.times(times))
}

/// Where the hooks do not compile, because an internal function has changed its signature: what the same
/// property says about the public functions that rest on it.
#[cfg(not(feature = "hooks"))]
fn from_outside(id: &str) -> Option<Property> {
    const NOTE: &[&str] = &["the internal functions could not be called (the hooks do not compile); they are judged through the public functions only"];
    let (id, times, suites) = match id {
        "S06" => ("S06", 2, sudoku::s06_suites()),
        "X01" => ("X01", 3, sudoku::s02().suites),
        "X02" => ("X02", 2, [sudoku::s01().suites, sudoku::s02().suites].into_iter().flatten().collect()),
        "X03" => ("X03", 20, maze::m01().suites),
        "U01" => ("U01", 8, maze::m04().suites),
        _ => return None,
    };
    Some(Property { id, assumptions: NOTE, suites }.times(times))
}

/// How often the random suites run the number of cases they give, so that a quick check takes about 25 s.
const TIMES: [(&str, u64); 31] = [
    ("S01", 5), ("S02", 3), ("S03", 12), ("S04", 2), ("S05", 4), ("S06", 2),
    ("N01", 16), ("N02", 16), ("N03", 30), ("N04", 15), ("N05", 10), ("N06", 12), ("N07", 30),
    ("M01", 20), ("M02", 20), ("M03", 20), ("M04", 8), ("M05", 8), ("M06", 20), ("M07", 80), ("M08", 40),
    ("I01", 12), ("X01", 40), ("X02", 50), ("X03", 25), ("U01", 20),
    ("M09", 15), ("M10", 4), ("E01", 15), ("S08", 3), ("N08", 8),
];
