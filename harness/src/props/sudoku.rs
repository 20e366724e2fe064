use crate::driver::{guard, Cx, Property, Res, Suite};
use crate::ensure;
use crate::oracle::{render, sudoku as model, Mix};
use proptest::prelude::*;
use puzzle_utils::{parse_sudoku, print_sudoku, solve_sudoku, SudokuError};
use serde::{Deserialize, Serialize};

/// Cost bound for the independent solver; puzzles beyond it are not judged (and counted).
const BUDGET: u64 = 30_000;

// ------------------------------------------------------------------ puzzles

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Edit {
    /// Set a cell (mod 81) to a value.
    Set(u8, u8),
    /// Copy a given into another cell of the same row, column or box (kind mod 3).
    Clash(u8, u8, u8),
    /// Exchange two cells.
    Swap(u8, u8),
}

pub fn apply(p: &mut [u8], e: Edit) {
    match e {
        Edit::Set(i, v) => p[i as usize % 81] = v,
        Edit::Swap(a, b) => p.swap(a as usize % 81, b as usize % 81),
        Edit::Clash(from, kind, to) => {
            let i = from as usize % 81;
            let (r, c) = (i / 9, i % 9);
            let k = (0..9)
                .map(|d| (to as usize + d) % 9)
                .map(|t| match kind % 3 {
                    0 => r * 9 + t,
                    1 => t * 9 + c,
                    _ => (r / 3 * 3 + t / 3) * 9 + c / 3 * 3 + t % 3,
                })
                .find(|&j| j != i)
                .unwrap();
            if p[i] != 0 {
                p[k] = p[i];
            }
        }
    }
}

/// How many givens to keep: few, around the critical number, many, nearly all.
fn givens() -> impl Strategy<Value = usize> {
    prop_oneof![
        1 => 0usize..17,
        5 => 17usize..31,
        3 => 31usize..60,
        2 => 60usize..81,
        1 => Just(81usize),
    ]
}

/// A subset of a random complete grid.
pub fn subset() -> impl Strategy<Value = Vec<u8>> {
    (any::<u64>(), any::<u64>(), givens()).prop_map(|(grid, order, n)| {
        let full = model::complete_grid(grid);
        let mut cells: Vec<usize> = (0..81).collect();
        Mix::new(order).shuffle(&mut cells);
        let mut p = vec![0; 81];
        for &i in &cells[..n] {
            p[i] = full[i];
        }
        p
    })
}

/// A puzzle with (nearly) no superfluous given: deep search.
pub fn minimal() -> impl Strategy<Value = Vec<u8>> {
    (any::<u64>(), any::<u64>(), 17usize..27)
        .prop_map(|(g, o, n)| model::minimise(&model::complete_grid(g), o, n))
}

/// Symmetric variants of published hard puzzles and of ones with unusual structure.
pub fn famous() -> impl Strategy<Value = Vec<u8>> {
    const TEXTS: [&str; 8] = [
        "800000000003600000070090200050007000000045700000100030001000068008500010090000400",
        "000000010400000000020000000000050407008000300001090000300400200050100000000806000",
        "000000000000003085001020000000507000004000100090000000500000073002010000000040009",
        "100007090030020008009600500005300900010080002600004000300000010040000007007000300",
        "000006000059000008200008000045000000003000000006003054000325006000000000000000000",
        "120300000400000300003050000004200500000080009060005070001500200000090060000007008",
        "000000012000000003002300400001800005060070800000009000008500000900040500470006000",
        "002400006030010000500008000007000002010000030900600400000007001000090080400200500",
    ];
    (0..TEXTS.len(), any::<u64>()).prop_map(|(k, s)| {
        let p: Vec<u8> = TEXTS[k].bytes().map(|b| b - b'0').collect();
        model::symmetric(&p, s)
    })
}

fn digit() -> impl Strategy<Value = u8> {
    0u8..10
}

/// Values that are not sudoku digits, with those that would spill into a neighbouring cell.
fn non_digit() -> impl Strategy<Value = u8> {
    prop_oneof![4 => 10u8..19, 2 => 10u8..=255, 1 => Just(255u8), 1 => Just(81u8), 1 => Just(128u8)]
}

fn edit() -> impl Strategy<Value = Edit> {
    prop_oneof![
        3 => (0u8..81, digit()).prop_map(|(i, v)| Edit::Set(i, v)),
        4 => (0u8..81, 0u8..3, 0u8..9).prop_map(|(a, k, t)| Edit::Clash(a, k, t)),
        1 => (0u8..81, 0u8..81).prop_map(|(a, b)| Edit::Swap(a, b)),
    ]
}

fn edited<S: Strategy<Value = Vec<u8>>>(base: S) -> impl Strategy<Value = Vec<u8>> {
    (base, prop::collection::vec(edit(), 1..4)).prop_map(|(mut p, es)| {
        for e in es {
            apply(&mut p, e);
        }
        p
    })
}

fn out_of_range() -> impl Strategy<Value = Vec<u8>> {
    (
        prop_oneof![3 => subset().boxed(), 1 => Just(vec![0; 81]).boxed()],
        prop::collection::vec((prop_oneof![1 => Just(80u8), 1 => Just(0u8), 4 => 0u8..81], non_digit()), 1..4),
        any::<bool>(),
    )
        .prop_map(|(mut p, sets, clear_next)| {
            for (i, v) in sets {
                let i = i as usize;
                p[i] = v;
                // Leave room for the value to be misread as a given of a later cell.
                if clear_next && i + 1 < 81 {
                    p[i + 1] = 0;
                }
            }
            p
        })
}

/// Full grids with one or two cells cleared or wrong.
fn nearly_complete() -> impl Strategy<Value = Vec<u8>> {
    (any::<u64>(), prop::collection::vec((0usize..81, digit()), 0..4)).prop_map(|(g, sets)| {
        let mut p = model::complete_grid(g);
        for (i, v) in sets {
            p[i] = v;
        }
        p
    })
}

/// Empties givens one by one, or in halves, while the failure stays.
pub fn fewer_givens(p: &Vec<u8>) -> Vec<Vec<u8>> {
    let given: Vec<usize> = (0..p.len()).filter(|&i| p[i] != 0).collect();
    let mut out = Vec::new();
    if given.len() > 4 {
        for half in [&given[..given.len() / 2], &given[given.len() / 2..]] {
            let mut q = p.clone();
            half.iter().for_each(|&i| q[i] = 0);
            out.push(q);
        }
    }
    for i in given {
        let mut q = p.clone();
        q[i] = 0;
        out.push(q);
    }
    out
}

fn classify(p: &[u8], cx: &mut Cx) {
    let n = p.iter().filter(|&&v| v != 0).count();
    cx.label(match n {
        0..=16 => "0-16 givens",
        17..=30 => "17-30 givens",
        31..=60 => "31-60 givens",
        61..=80 => "61-80 givens",
        _ => "81 givens",
    });
    cx.label_if(p.iter().any(|&v| v > 9), "value above 9");
    cx.label_if(p.len() == 81 && p.iter().all(|&v| v < 10) && model::direct_conflict(p), "two givens conflict");
}

fn size_error<T: std::fmt::Debug>(r: &Result<T, SudokuError>, n: usize) -> Res {
    match r {
        Err(SudokuError::InvalidSize(m)) if *m == n => Ok(()),
        other => Err(format!("{n} entries gave {}", brief(other))),
    }
}

fn brief<T: std::fmt::Debug>(r: &T) -> String {
    let mut s = format!("{r:?}");
    if s.len() > 300 {
        s = s.chars().take(300).collect::<String>() + "…";
    }
    s
}

// ------------------------------------------------------------------ S01, S02

fn sound(p: &Vec<u8>, cx: &mut Cx) -> Res {
    classify(p, cx);
    if p.iter().all(|&v| v < 10) && too_hard(p) {
        cx.discarded = true;
        return Ok(());
    }
    match guard("solve_sudoku", || solve_sudoku(p))? {
        Ok(answer) => {
            cx.label("answered");
            cx.nontrivial = p.iter().any(|&v| v == 0);
            match model::completion_error(p, &answer) {
                None => Ok(()),
                Some(e) => Err(format!("{e}; the answer was {answer:?}")),
            }
        }
        Err(_) => {
            cx.label("refused");
            Ok(())
        }
    }
}

/// Keeps the solver under test away from instances that would take it exponentially long.
fn too_hard(p: &[u8]) -> bool {
    let (v, _, nodes) = model::solve(p, 1, BUDGET);
    v == model::Verdict::Unknown || nodes > BUDGET
}

fn verdict(p: &Vec<u8>, cx: &mut Cx) -> Res {
    classify(p, cx);
    let (v, count, nodes) = model::solve(p, 2, BUDGET);
    if v == model::Verdict::Unknown || nodes > BUDGET && v != model::Verdict::Solvable {
        cx.discarded = true;
        return Ok(());
    }
    cx.label_if(count == 1 && nodes < BUDGET, "unique");
    cx.label_if(count == 2, "several solutions");
    cx.label_if(nodes > 200, "search of over 200 nodes");
    cx.nontrivial = true;
    let r = guard("solve_sudoku", || solve_sudoku(p))?;
    match (v, &r) {
        (model::Verdict::Solvable, Ok(answer)) => {
            cx.label("solvable");
            match model::completion_error(p, answer) {
                None => Ok(()),
                Some(e) => Err(format!("the puzzle is solvable, but the answer is no solution: {e}")),
            }
        }
        (model::Verdict::Unsolvable, Err(SudokuError::NoSolution)) => {
            cx.label("unsolvable");
            cx.label_if(p.iter().all(|&v| v < 10) && !model::direct_conflict(p), "unsolvable without conflict");
            Ok(())
        }
        _ => Err(format!("the puzzle is {v:?}, the solver returned {}", brief(&r))),
    }
}

pub fn s01() -> Property {
    Property {
        id: "S01",
        assumptions: &["puzzles on which the independent solver needs more than 30000 nodes are not judged"],
        suites: vec![
            Suite::random("subset", "givens taken from a random complete grid; non-trivial: answered and at least one cell was open", 24_000, 600_000, |_| subset(), sound).with_shrink(fewer_givens),
            Suite::random("minimal", "puzzles with one solution and (nearly) no superfluous given; non-trivial: answered", 2_400, 60_000, |_| minimal(), sound).with_shrink(fewer_givens),
            Suite::random("famous", "symmetric variants of hard published puzzles; non-trivial: answered", 2_400, 60_000, |_| famous(), sound).with_shrink(fewer_givens),
            Suite::random("edited", "subsets with conflicting or wrong givens; non-trivial: answered", 16_000, 400_000, |_| edited(subset()), sound).with_shrink(fewer_givens),
            Suite::random("out-of-range", "givens that are no sudoku digits; non-trivial: answered", 8_000, 200_000, |_| out_of_range(), sound).with_shrink(fewer_givens),
            Suite::random("nearly-complete", "complete grids with up to three cells changed; non-trivial: answered with an open cell", 8_000, 200_000, |_| nearly_complete(), sound).with_shrink(fewer_givens),
            Suite::enumerated("deep", DEEP, u64::MAX, u64::MAX, deep_count(), deep, deep_sound),
        ],
    }
}

/// Two or three givens only, in all relative positions.
fn few_givens() -> impl Strategy<Value = Vec<u8>> {
    prop::collection::vec((0usize..81, prop_oneof![3 => 1u8..4, 1 => 1u8..10]), 0..6).prop_map(|s| {
        let mut p = vec![0; 81];
        for (i, v) in s {
            p[i] = v;
        }
        p
    })
}

/// Givens that leave one cell, digit or unit without candidates.
fn starved() -> impl Strategy<Value = Vec<u8>> {
    (subset(), 0usize..81, 1u8..10).prop_map(|(mut p, i, v)| {
        let (r, c) = (i / 9, i % 9);
        // No cell of the box of cell i may take v any more except where v conflicts elsewhere.
        for (k, q) in p.iter_mut().enumerate() {
            if *q == v && (k / 9 / 3 == r / 3 || k % 9 / 3 == c / 3) {
                *q = 0;
            }
        }
        p[i] = if p[i] == 0 { v % 9 + 1 } else { p[i] };
        p
    })
}

pub fn s02() -> Property {
    Property {
        id: "S02",
        assumptions: &["puzzles on which the independent solver needs more than 30000 nodes are not judged"],
        suites: vec![
            Suite::random("subset", "givens taken from a random complete grid; every judged case counts", 16_000, 400_000, |_| subset(), verdict).with_shrink(fewer_givens),
            Suite::random("minimal", "puzzles with one solution and (nearly) no superfluous given", 2_400, 60_000, |_| minimal(), verdict).with_shrink(fewer_givens),
            Suite::random("minimal-edited", "the same with conflicting or wrong givens", 1_600, 40_000, |_| edited(minimal()), verdict).with_shrink(fewer_givens),
            Suite::random("famous", "symmetric variants of hard published puzzles", 1_600, 40_000, |_| famous(), verdict).with_shrink(fewer_givens),
            Suite::random("edited", "subsets with conflicting or wrong givens", 24_000, 600_000, |_| edited(subset()), verdict).with_shrink(fewer_givens),
            Suite::random("few", "up to five givens, often equal, anywhere", 6_000, 150_000, |_| few_givens(), verdict).with_shrink(fewer_givens),
            Suite::random("starved", "subsets with one digit crowded out of a region", 6_000, 150_000, |_| starved(), verdict).with_shrink(fewer_givens),
            Suite::random("out-of-range", "givens that are no sudoku digits", 8_000, 200_000, |_| out_of_range(), verdict).with_shrink(fewer_givens),
            Suite::random("nearly-complete", "complete grids with up to three cells changed", 8_000, 200_000, |_| nearly_complete(), verdict).with_shrink(fewer_givens),
            Suite::enumerated("deep", DEEP, u64::MAX, u64::MAX, deep_count(), deep, deep_verdict),
            Suite::enumerated("pairs", "all puzzles of exactly two equal givens, or an even sample", 14_580, 29_160, 81 * 80 / 2 * 9, |i| {
                // pair number and digit
                let (mut k, d) = ((i / 9) as usize, (i % 9) as u8 + 1);
                let mut a = 0;
                while k >= 80 - a {
                    k -= 80 - a;
                    a += 1;
                }
                let mut p = vec![0; 81];
                p[a] = d;
                p[a + 1 + k] = d;
                p
            }, verdict),
        ],
    }
}

/// Solvable puzzles on which a search by the scarcest constraint tries 5000 to 300000 rows in vain
/// (the first number), found by hill climbing. Reading them costs nothing, so they are not limited by BUDGET.
fn deep(i: u64) -> Vec<u8> {
    let line = include_str!("../../assets/deep.txt").lines().nth(i as usize).expect("as many lines");
    line.split(' ').nth(1).expect("number and puzzle").bytes().map(|b| b - b'0').collect()
}

fn deep_count() -> u64 {
    include_str!("../../assets/deep.txt").lines().count() as u64
}

const DEEP: &str = "fixed solvable puzzles on which an exact-cover search goes astray 5000 to 300000 times; every case counts";

fn deep_verdict(p: &Vec<u8>, cx: &mut Cx) -> Res {
    classify(p, cx);
    cx.nontrivial = true;
    match guard("solve_sudoku", || solve_sudoku(p))? {
        Ok(answer) => match model::completion_error(p, &answer) {
            None => Ok(()),
            Some(e) => Err(format!("the puzzle is solvable, but the answer is no solution: {e}")),
        },
        Err(e) => Err(format!("the puzzle is solvable, the solver returned {e:?}")),
    }
}

fn deep_sound(p: &Vec<u8>, cx: &mut Cx) -> Res {
    classify(p, cx);
    cx.nontrivial = true;
    match guard("solve_sudoku", || solve_sudoku(p))? {
        Ok(answer) => model::completion_error(p, &answer).map_or(Ok(()), |e| Err(format!("{e}; the answer was {answer:?}"))),
        Err(_) => Ok(()),
    }
}

// ------------------------------------------------------------------ S03

fn odd_char() -> impl Strategy<Value = char> {
    prop_oneof![
        3 => prop::sample::select(vec![
            ' ', '\n', '\r', '\t', '.', '-', '+', '_', ',', ';', '/', ':', '\0', 'a', 'F', 'x', 'O', 'l', '*', '|',
        ]),
        3 => prop::sample::select(vec![
            '٣', '３', '०', '９', '²', '½', '①', '߁', '𝟘', '𝟙', '🂱', '\u{feff}', '\u{a0}', '\u{200b}', 'é', 'Ⅷ', '〇', '一',
        ]),
        2 => any::<char>(),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum TextEdit {
    Insert(usize, char),
    Delete(usize),
    Replace(usize, char),
    Truncate(usize),
    Repeat,
}

fn text() -> impl Strategy<Value = String> {
    let valid = prop_oneof![
        3 => prop::collection::vec(prop::char::range('0', '9'), 81),
        1 => subset().prop_map(|p| p.iter().map(|d| (b'0' + d) as char).collect::<Vec<_>>()),
    ];
    let edits = prop::collection::vec(
        prop_oneof![
            3 => (0usize..=82, odd_char()).prop_map(|(i, c)| TextEdit::Insert(i, c)),
            2 => (0usize..=82, prop::char::range('0', '9')).prop_map(|(i, c)| TextEdit::Insert(i, c)),
            2 => (0usize..81).prop_map(TextEdit::Delete),
            4 => (0usize..81, odd_char()).prop_map(|(i, c)| TextEdit::Replace(i, c)),
            1 => (0usize..82).prop_map(TextEdit::Truncate),
            1 => Just(TextEdit::Repeat),
        ],
        0..4,
    );
    (valid, edits).prop_map(|(mut s, edits)| {
        for e in edits {
            match e {
                TextEdit::Insert(i, c) => s.insert(i.min(s.len()), c),
                TextEdit::Delete(i) => {
                    if i < s.len() {
                        s.remove(i);
                    }
                }
                TextEdit::Replace(i, c) => {
                    if i < s.len() {
                        s[i] = c;
                    }
                }
                TextEdit::Truncate(n) => s.truncate(n),
                TextEdit::Repeat => s.extend(s.clone()),
            }
        }
        s.into_iter().collect()
    })
}

fn any_text() -> impl Strategy<Value = String> {
    prop_oneof![
        1 => prop::collection::vec(any::<char>(), 0..100).prop_map(|v| v.into_iter().collect::<String>()),
        1 => prop::collection::vec(prop::char::range('0', '9'), 0..200).prop_map(|v| v.into_iter().collect::<String>()),
        1 => prop::collection::vec(prop_oneof![20 => prop::char::range('0', '9').boxed(), 1 => odd_char().boxed()], 78..85)
            .prop_map(|v| v.into_iter().collect::<String>()),
    ]
}

/// Lengths 0..1000 and 65536-20..65536+100 with digits; the same with a last or middle odd character.
fn long_text(i: u64) -> String {
    let (i, kind) = (i / 8, i % 8);
    let n = if i < 1000 { i } else { 65_536 - 20 + (i - 1000) * 2 } as usize;
    let mut s: Vec<char> = (0..n).map(|k| (b'0' + (k * 7 + n) as u8 % 10) as char).collect();
    let odd = [None, Some('x'), Some('٣'), Some('\n'), Some('🂱'), Some('é'), Some('９'), Some(' ')][kind as usize];
    if let Some(c) = odd {
        let at = if n % 2 == 0 { n.saturating_sub(1) } else { n / 2 };
        if at < n {
            s[at] = c;
        }
    }
    s.into_iter().collect()
}

fn parse(s: &String, cx: &mut Cx) -> Res {
    let r = guard("parse_sudoku", || parse_sudoku(s))?;
    let bad = s.chars().find(|c| !('0'..='9').contains(c));
    let count = s.chars().count();
    match (bad, &r) {
        (Some(c), Err(SudokuError::InvalidInteger(d))) if c == *d => {
            cx.label("other character");
            cx.nontrivial = count == 81 || s.len() == 81;
            cx.label_if(s.len() == 81 && count != 81, "81 bytes, other number of characters");
            cx.label_if(!c.is_ascii() && c.is_numeric(), "non-ASCII digit");
            Ok(())
        }
        (None, Err(SudokuError::InvalidSize(n))) if count != 81 && *n == count => {
            cx.label("other length");
            cx.nontrivial = (70..93).contains(&count) || count == 162;
            Ok(())
        }
        (None, Ok(v)) if count == 81 => {
            cx.label("accepted");
            cx.nontrivial = true;
            let want: Vec<u8> = s.bytes().map(|b| b - b'0').collect();
            ensure!(*v == want, "read as {v:?}");
            Ok(())
        }
        _ => Err(format!("first non-digit {bad:?}, {count} characters: the parser returned {}", brief(&r))),
    }
}

pub fn s03() -> Property {
    Property {
        id: "S03",
        assumptions: &[],
        suites: vec![
            Suite::random("mutated", "81-digit texts with up to three edits; non-trivial: accepted, 81 characters or bytes, or a length near 81", 400_000, 10_000_000, |_| text(), parse),
            Suite::random("arbitrary", "arbitrary Unicode or digit texts; same rule", 200_000, 5_000_000, |_| any_text(), parse),
            Suite::enumerated("every-length", "a text of digits, and one with an odd character near its end, of every length to 1000 and around 65536, with one-byte and longer characters", 8_480, 8_480, 8_480, long_text, parse),
        ],
    }
}

// ------------------------------------------------------------------ S04

fn board() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        4 => prop::collection::vec(digit(), 81),
        2 => prop::collection::vec(prop_oneof![5 => Just(0u8), 1 => 1u8..10], 81),
        2 => any::<u64>().prop_map(model::complete_grid),
        1 => (1u8..10).prop_map(|d| vec![d; 81]),
        1 => (0usize..81, 1u8..10).prop_map(|(i, d)| { let mut p = vec![0; 81]; p[i] = d; p }),
        1 => Just(vec![0; 81]),
    ]
}

fn printed(p: &Vec<u8>, cx: &mut Cx) -> Res {
    let img = match guard("print_sudoku", || print_sudoku(p))? {
        Ok(i) => i,
        Err(e) => return Err(format!("printing was refused: {e:?}")),
    };
    cx.nontrivial = p.iter().any(|&v| v != 0);
    cx.label_if(p.iter().all(|&v| v != 0), "no blank cell");
    if let Some(d) = render::difference(&img, &render::sudoku(p), 2) {
        return Err(d);
    }
    Ok(())
}

fn read_back(p: &Vec<u8>, cx: &mut Cx) -> Res {
    let img = match guard("print_sudoku", || print_sudoku(p))? {
        Ok(i) => i,
        Err(e) => return Err(format!("printing was refused: {e:?}")),
    };
    cx.nontrivial = p.iter().any(|&v| v != 0);
    let got = render::read_sudoku(&img);
    ensure!(got == *p, "the image reads {got:?}");
    Ok(())
}

pub fn s04() -> Property {
    Property {
        id: "S04",
        assumptions: &["text drawing of imageproc and ab_glyph is trusted (the fixtures pin it)"],
        suites: vec![
            Suite::random("pixels", "boards of digits compared pixel by pixel with the reference renderer; non-trivial: some digit", 8_000, 200_000, |_| board(), printed).with_shrink(fewer_givens),
            Suite::enumerated("single", "all boards with a single digit", 729, 729, 729, |i| {
                let mut p = vec![0; 81];
                p[i as usize % 81] = (i / 81) as u8 + 1;
                p
            }, printed),
            Suite::random("read-back", "boards of digits read back by the best-matching digit per cell", 800, 20_000, |_| board(), read_back).with_shrink(fewer_givens),
        ],
    }
}

// ------------------------------------------------------------------ S05

fn sized() -> impl Strategy<Value = Vec<u8>> {
    let byte = prop_oneof![4 => digit().boxed(), 1 => any::<u8>().boxed()];
    prop_oneof![
        3 => prop::collection::vec(byte.clone(), 0..200),
        2 => prop::collection::vec(byte.clone(), 79..84),
        1 => prop::sample::select(vec![0usize, 1, 9, 80, 82, 162, 243, 324, 729, 730, 6561]).prop_flat_map(move |n| prop::collection::vec(byte.clone(), n)),
        1 => (any::<u64>(), 0usize..83).prop_map(|(s, n)| { let mut p = model::complete_grid(s); p.resize(n, 5); p }),
    ]
}

fn total(p: &Vec<u8>, cx: &mut Cx) -> Res {
    if p.len() == 81 {
        if p.iter().all(|&v| v < 10) && too_hard(p) {
            cx.discarded = true;
            return Ok(());
        }
        cx.label("81 entries");
        cx.nontrivial = true;
        let r = guard("solve_sudoku", || solve_sudoku(p))?;
        ensure!(
            matches!(r, Ok(_) | Err(SudokuError::NoSolution)),
            "81 entries gave {}",
            brief(&r)
        );
        ensure!(guard("print_sudoku", || print_sudoku(p))?.is_ok(), "printing 81 entries was refused");
        return Ok(());
    }
    cx.label("other size");
    cx.nontrivial = !p.is_empty();
    size_error(&guard("solve_sudoku", || solve_sudoku(p))?, p.len())?;
    size_error(&guard("print_sudoku", || print_sudoku(p).map(|_| ()))?, p.len())
}

fn wild81() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        2 => out_of_range(),
        1 => prop::collection::vec(any::<u8>(), 81),
        1 => prop::collection::vec(digit(), 81),
        1 => prop::collection::vec(prop_oneof![8 => Just(0u8).boxed(), 1 => any::<u8>().boxed()], 81),
        2 => edited(subset()),
    ]
}

fn text_total(s: &String, cx: &mut Cx) -> Res {
    let r = guard("parse_sudoku", || parse_sudoku(s))?;
    cx.nontrivial = !s.is_empty();
    cx.label_if(r.is_ok(), "accepted");
    Ok(())
}

pub fn s05() -> Property {
    Property {
        id: "S05",
        assumptions: &["81-digit puzzles on which the independent solver needs more than 30000 nodes are not judged"],
        suites: vec![
            Suite::random("sizes", "byte slices of many lengths; non-trivial: not empty", 16_000, 400_000, |_| sized(), total),
            Suite::random("wild", "81 entries with any bytes", 6_000, 150_000, |_| wild81(), total).with_shrink(fewer_givens),
            Suite::enumerated("every-length", "a slice of every length from 0 to 1000", 1001, 1001, 1001, |n| vec![(n % 10) as u8; n as usize], total),
            Suite::enumerated("around-2^16", "slices of 65436 to 65735 entries", 300, 300, 300, |n| vec![(n % 10) as u8; 65_436 + n as usize], total),
            Suite::enumerated("2^k and 81", "slices of 81 + 2^k entries, k from 18 to 33", 16, 16, 16, |i| Huge { len: 81 + (1 << (18 + i)) }, beyond_32_bits),
            Suite::random("text", "arbitrary texts", 100_000, 2_000_000, |_| any_text(), text_total),
        ],
    }
}

/// 81 entries and a multiple of a power of two, in memory that is only reserved.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    len: u64,
}

fn beyond_32_bits(h: &Huge, cx: &mut Cx) -> Res {
    let n = h.len as usize;
    let memory = unsafe {
        libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0)
    };
    if memory == libc::MAP_FAILED {
        cx.discarded = true;
        return Ok(());
    }
    cx.nontrivial = true;
    let p = unsafe { std::slice::from_raw_parts(memory as *const u8, n) };
    let r = (|| {
        size_error(&guard("solve_sudoku", || solve_sudoku(p))?, n)?;
        size_error(&guard("print_sudoku", || print_sudoku(p).map(|_| ()))?, n)
    })();
    unsafe { libc::munmap(memory, n) };
    r
}

// ------------------------------------------------------------------ S06 (see also props/cover.rs)

fn clean(p: &Vec<u8>, cx: &mut Cx) -> Res {
    classify(p, cx);
    if p.len() == 81 && p.iter().all(|&v| v < 10) && too_hard(p) {
        cx.discarded = true;
        return Ok(());
    }
    crate::alloc::balanced(cx, || {
        guard("solve_sudoku", || solve_sudoku(p).is_ok()).ok().map(|ok| if ok { "answered" } else { "refused" })
    })
}

pub fn s06_suites() -> Vec<Suite> {
    vec![
        Suite::random("subset", "givens from a complete grid; non-trivial: over 100 allocations", 3_200, 80_000, |_| subset(), clean).with_shrink(fewer_givens),
        Suite::random("minimal", "puzzles with one solution and deep search", 800, 20_000, |_| minimal(), clean).with_shrink(fewer_givens),
        Suite::random("edited", "subsets with conflicting or wrong givens", 6_400, 160_000, |_| edited(subset()), clean).with_shrink(fewer_givens),
        Suite::random("few", "up to five givens, often equal, anywhere", 2_400, 60_000, |_| few_givens(), clean).with_shrink(fewer_givens),
        Suite::random("wild", "81 entries with any bytes, complete grids, other sizes", 3_200, 80_000, |_| prop_oneof![wild81(), nearly_complete(), sized()], clean).with_shrink(fewer_givens),
    ]
}
