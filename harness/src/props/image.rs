use crate::driver::{guard, Cx, Property, Res, Suite};
use crate::ensure;
use crate::oracle::Mix;
use image::{ImageFormat, Rgb, RgbImage};
use proptest::prelude::*;
use puzzle_utils::{image_to_png_bytes, print_nonogram, print_sudoku, RgbBuffer};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shape {
    w: u32,
    h: u32,
    /// 0 noise, 1 flat, 2 gradients, 3 black and white, 4 sparse, 5 few colours
    style: u8,
    seed: u64,
}

fn build(s: &Shape) -> RgbBuffer {
    let mut m = Mix::new(s.seed);
    let flat = s.seed.to_le_bytes();
    RgbImage::from_fn(s.w, s.h, |x, y| match s.style {
        0 => {
            let v = m.next();
            Rgb([v as u8, (v >> 8) as u8, (v >> 16) as u8])
        }
        1 => Rgb([flat[0], flat[1], flat[2]]),
        2 => Rgb([(x as u64 * 7 + s.seed) as u8, (y * 5) as u8, (x + y) as u8]),
        3 => {
            let v = if m.below(2) == 0 { 0 } else { 255 };
            Rgb([v, v, v])
        }
        4 => {
            if m.below(40) == 0 {
                Rgb([flat[0], flat[1], flat[2]])
            } else {
                Rgb([255, 255, 255])
            }
        }
        _ => {
            let v = m.below(3);
            Rgb([flat[v], flat[v + 1], flat[v + 2]])
        }
    })
}

fn shapes(max: u32) -> impl Strategy<Value = Shape> {
    let side = move || prop_oneof![2 => 1u32..4, 4 => 1u32..40, 2 => 1..=max];
    (
        prop_oneof![8 => (side(), side()), 1 => (Just(1u32), 1..=max * 8), 1 => (1..=max * 8, Just(1u32))],
        0u8..6,
        any::<u64>(),
    )
        .prop_map(|((w, h), style, seed)| Shape { w, h, style, seed })
}

fn large() -> impl Strategy<Value = Shape> {
    (
        prop_oneof![
            2 => (200u32..1200, 200u32..1200),
            1 => (1000u32..70_000, 1u32..3),
            1 => (1u32..3, 1000u32..70_000),
            1 => (65_530u32..65_545, Just(1u32)),
            1 => (Just(1u32), 65_530u32..65_545),
        ],
        0u8..6,
        any::<u64>(),
    )
        .prop_map(|((w, h), style, seed)| Shape { w, h, style, seed })
}

fn very_large() -> impl Strategy<Value = Shape> {
    (
        prop_oneof![
            2 => (2_400u32..6_000, 2_400u32..5_000),
            1 => (600_000u32..1_500_000, 1u32..6),
            1 => (1u32..6, 600_000u32..1_500_000),
        ],
        0u8..6,
        any::<u64>(),
    )
        .prop_map(|((w, h), style, seed)| Shape { w, h, style, seed })
}

/// An image with an exact number of different colours, each of them used.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Coloured {
    w: u32,
    h: u32,
    colours: u32,
    /// Gray levels only (up to 256 colours), one channel only, or any colours.
    kind: u8,
    /// The last colour appears in one pixel only: the last, the first, or any.
    rare: u8,
    seed: u64,
}

fn coloured() -> impl Strategy<Value = Coloured> {
    let counts = prop_oneof![
        3 => prop::sample::select(vec![1u32, 2, 3, 4, 5, 8, 15, 16, 17, 32, 64, 127, 128, 129, 200, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1023, 1024, 1025, 4096, 4097]),
        2 => 1u32..300,
        1 => 1u32..5000,
    ];
    (counts, 0u8..3, 0u8..4, any::<u64>()).prop_flat_map(|(colours, kind, rare, seed)| {
        let colours = if kind < 2 { colours.min(256) } else { colours };
        (1u32..100).prop_flat_map(move |w| {
            let least = colours.div_ceil(w);
            (least..least + 60).prop_map(move |h| Coloured { w, h, colours, kind, rare, seed })
        })
    })
}

fn paint(c: &Coloured) -> RgbBuffer {
    let mut m = Mix::new(c.seed);
    let mut levels: Vec<usize> = (0..256).collect();
    m.shuffle(&mut levels);
    let channel = m.below(3);
    let mut used = std::collections::HashSet::new();
    let mut palette = Vec::new();
    while palette.len() < c.colours as usize {
        let v = levels[palette.len() % 256] as u8;
        let rgb = match c.kind {
            0 => [v; 3],
            1 => {
                let mut a = [200, 30, 90];
                a[channel] = v;
                a
            }
            _ => [m.next() as u8, m.next() as u8, m.next() as u8],
        };
        if used.insert(rgb) {
            palette.push(Rgb(rgb));
        }
    }
    let n = (c.w * c.h) as usize;
    let mut which: Vec<usize> = (0..n).map(|i| if i < palette.len() { i } else { m.below(palette.len() - (c.rare > 0 && palette.len() > 1) as usize) }).collect();
    m.shuffle(&mut which);
    if c.rare > 0 {
        let at = which.iter().position(|&k| k == palette.len() - 1).expect("every colour is used");
        let to = match c.rare {
            1 => n - 1,
            2 => 0,
            _ => m.below(n),
        };
        which.swap(at, to);
    }
    RgbImage::from_fn(c.w, c.h, |x, y| palette[which[(y * c.w + x) as usize]])
}

fn coloured_image(c: &Coloured, cx: &mut Cx) -> Res {
    cx.nontrivial = c.w * c.h > 1;
    cx.label_if(c.colours > 256, "over 256 colours");
    cx.label_if(c.kind == 0, "gray levels only");
    lossless(&paint(c))
}

/// Checks the container itself: signature, chunk order, lengths and checksums.
fn container(png: &[u8], w: u32, h: u32) -> Res {
    ensure!(png.len() > 8 && png[..8] == [0x89, b'P', b'N', b'G', 13, 10, 26, 10], "no PNG signature: {:?}", &png[..png.len().min(8)]);
    let mut at = 8;
    let mut names: Vec<[u8; 4]> = Vec::new();
    while at < png.len() {
        ensure!(at + 12 <= png.len(), "a chunk is cut off at byte {at}");
        let len = u32::from_be_bytes(png[at..at + 4].try_into().unwrap()) as usize;
        let name: [u8; 4] = png[at + 4..at + 8].try_into().unwrap();
        ensure!(at + 12 + len <= png.len(), "the chunk at byte {at} is cut off");
        let sum = u32::from_be_bytes(png[at + 8 + len..at + 12 + len].try_into().unwrap());
        ensure!(sum == crc(&png[at + 4..at + 8 + len]), "the chunk at byte {at} has a wrong checksum");
        if names.is_empty() {
            ensure!(&name == b"IHDR", "the first chunk is not the header");
            let gw = u32::from_be_bytes(png[at + 8..at + 12].try_into().unwrap());
            let gh = u32::from_be_bytes(png[at + 12..at + 16].try_into().unwrap());
            ensure!((gw, gh) == (w, h), "the header says {gw} x {gh} for an image of {w} x {h}");
        }
        names.push(name);
        at += 12 + len;
        if &name == b"IEND" {
            break;
        }
    }
    ensure!(names.last() == Some(b"IEND"), "no end chunk");
    ensure!(at == png.len(), "{} bytes after the end of the PNG", png.len() - at);
    Ok(())
}

fn crc(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in data {
        c ^= b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

pub fn lossless(img: &RgbBuffer) -> Res {
    let what = format!("image_to_png_bytes({} x {})", img.width(), img.height());
    let png = guard(&what, || image_to_png_bytes(img))?.map_err(|e| format!("{what} = Err({e})"))?;
    container(&png, img.width(), img.height()).map_err(|e| format!("{what}: {e}"))?;
    let back = image::load_from_memory_with_format(&png, ImageFormat::Png).map_err(|e| format!("{what} does not decode: {e}"))?;
    if back.color().has_alpha() {
        ensure!(back.to_rgba8().pixels().all(|p| p.0[3] == 255), "{what}: decodes with transparent pixels");
    }
    let back = back.to_rgb8();
    ensure!(back.dimensions() == img.dimensions(), "{what} decodes as {:?}", back.dimensions());
    for (x, y, p) in img.enumerate_pixels() {
        let q = back.get_pixel(x, y);
        ensure!(p == q, "{what}: pixel ({x}, {y}) is {p:?} and decodes as {q:?}");
    }
    let again = guard(&what, || image_to_png_bytes(img))?.map_err(|e| format!("{what} the second time = Err({e})"))?;
    ensure!(again == png, "{what}: other bytes the second time");
    // What was decoded is the same image, so its export is the same as well.
    let third = guard(&what, || image_to_png_bytes(&back))?.map_err(|e| format!("{what} after decoding = Err({e})"))?;
    ensure!(third == png, "{what}: exporting the decoded image gives other bytes");
    Ok(())
}

fn any_image(s: &Shape, cx: &mut Cx) -> Res {
    cx.nontrivial = s.w * s.h > 1;
    cx.label_if(s.w == 1 || s.h == 1, "one pixel wide or high");
    lossless(&build(s))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Board {
    kind: u8,
    seed: u64,
}

fn board(b: &Board, cx: &mut Cx) -> Res {
    cx.nontrivial = true;
    let mut m = Mix::new(b.seed);
    let img = if b.kind == 0 {
        let p: Vec<u8> = (0..81).map(|_| m.below(10) as u8).collect();
        guard("print_sudoku", || print_sudoku(&p))?.map_err(|e| format!("print_sudoku = Err({e:?})"))?
    } else {
        let (w, h) = (1 + m.below(12), 1 + m.below(12));
        let mut clue = || (0..m.below(4)).map(|_| m.below(9)).collect::<Vec<_>>();
        let col: Vec<_> = (0..w).map(|_| clue()).collect();
        let row: Vec<_> = (0..h).map(|_| clue()).collect();
        guard("print_nonogram", || print_nonogram(w as u32, h as u32, &col, &row))?.map_err(|e| format!("print_nonogram = Err({e:?})"))?
    };
    lossless(&img)
}

fn no_pixels(&(w, h): &(u32, u32), cx: &mut Cx) -> Res {
    cx.nontrivial = true;
    let what = format!("image_to_png_bytes({w} x {h})");
    let r = guard(&what, || image_to_png_bytes(&RgbBuffer::new(w, h)))?;
    ensure!(r.is_err(), "{what} = Ok({} bytes), but there is no PNG without pixels", r.unwrap().len());
    Ok(())
}

pub fn i01() -> Property {
    Property {
        id: "I01",
        assumptions: &["the PNG decoder of the image crate, with the container also checked byte by byte"],
        suites: vec![
            Suite::random("images", "images of 1 x 1 to 120 x 120 and 960 x 1 pixels in six textures; non-trivial: two pixels and more", 8_000, 300_000, |_| shapes(120), any_image),
            Suite::random("large", "images up to 1200 x 1200, 70000 x 2 and 2 x 70000 pixels", 64, 1_200, |_| large(), any_image).batches(),
            Suite::random("very large", "images of 6000 x 5000, 1500000 x 5 and 5 x 1500000 pixels and somewhat less", 16, 160, |_| very_large(), any_image).batches(),
            Suite::random("colours", "images with an exact number of different colours (1 to 5000, often at a power of two or next to one), all of them gray levels, all differing in one channel, or any; the last one may appear in a single pixel; non-trivial: two pixels and more", 2_400, 100_000, |_| coloured(), coloured_image),
            Suite::random("no pixels", "images of 0 x 0, 0 x n and n x 0 pixels; every case counts", 200, 2_000, |_| prop_oneof![Just((0u32, 0u32)), (Just(0u32), 1u32..100_000), (1u32..100_000, Just(0u32)), (Just(0u32), Just(u32::MAX)), (Just(u32::MAX), Just(0u32))], no_pixels),
            Suite::random("boards", "printed sudoku and nonogram boards", 160, 4_000, |_| (0u8..2, any::<u64>()).prop_map(|(kind, seed)| Board { kind, seed }), board),
        ],
    }
}
