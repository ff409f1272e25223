//! Generators of images, layouts and sizes, and helpers that read images by raw index arithmetic.
//!
//! Reference models never call the library's own addressing: they read `data()` only.

use crate::engine::{Case, Rng, R};
use crate::ensure;
use imgproc_rs::image::{BaseImage, Image, ImageInfo, Number};

pub type U = Image<u8>;
pub type F = Image<f32>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Layout {
    pub ch: u8,
    pub alpha: bool,
}

pub const GRAY: Layout = Layout { ch: 1, alpha: false };
pub const GRAYA: Layout = Layout { ch: 2, alpha: true };
pub const RGB: Layout = Layout { ch: 3, alpha: false };
pub const RGBA: Layout = Layout { ch: 4, alpha: true };

/// The four documented layouts
pub fn layout(c: &mut Case) -> Layout {
    c.pick(&[GRAY, RGB, RGBA, GRAYA])
}

pub fn layout_gray(c: &mut Case) -> Layout {
    c.pick(&[GRAY, GRAYA])
}

pub fn layout_rgb(c: &mut Case) -> Layout {
    c.pick(&[RGB, RGBA])
}

/// Also channel counts nobody writes into a file
pub fn layout_any(c: &mut Case) -> Layout {
    let k = c.choice(9);
    if c.chance(1, 150) {
        // more channels than a byte vector has lanes
        let ch = c.pick(&[7u8, 8, 15, 16, 17, 31, 32, 33, 40, 64, 65, 128, 129, 255]);
        return Layout { ch, alpha: c.bool() };
    }
    match k {
        0 => GRAY,
        1 => RGB,
        2 => RGBA,
        3 => GRAYA,
        4 => Layout { ch: 2, alpha: false },
        5 => Layout { ch: 4, alpha: false },
        6 => Layout { ch: 3, alpha: true },
        7 => Layout { ch: 5, alpha: true },
        _ => Layout { ch: 6, alpha: false },
    }
}

/// Width and height, from many shape classes; `cap` bounds both sides
pub fn dims(c: &mut Case, cap: u32) -> (u32, u32) {
    let cap = cap.max(2) as i64;
    let (w, h) = match c.choice(8) {
        0 => (c.int(1, 4.min(cap)), c.int(1, 4.min(cap))),
        1 => (c.int(1, 12.min(cap)), c.int(1, 12.min(cap))),
        2 => (c.int(1, (2 * cap).min(70)), 1),
        3 => (1, c.int(1, (2 * cap).min(70))),
        4 => (c.int(1, cap), c.int(1, cap)),
        5 => (c.int(2.min(cap), 9.min(cap)), c.int(1, cap)),
        6 => (c.int(1, cap), c.int(2.min(cap), 9.min(cap))),
        _ => {
            // pixel counts around the vector widths
            let k = c.pick(&[8i64, 10, 16, 30, 32, 64, 96]).min(cap);
            let d = c.int(-2, 2);
            let w = (k + d).clamp(1, cap);
            (w, c.int(1, 3))
        }
    };
    (w as u32, h as u32)
}

/// Sizes beyond 8, 9 and 16 bit counts of pixels
pub fn dims_large(c: &mut Case) -> (u32, u32) {
    match c.choice(5) {
        0 => (c.int(257, 330) as u32, c.int(257, 300) as u32),
        1 => (c.int(65530, 66200) as u32, 1),
        2 => (1, c.int(65530, 66200) as u32),
        3 => (c.int(500, 1100) as u32, c.int(60, 140) as u32),
        _ => (c.int(60, 140) as u32, c.int(500, 1100) as u32),
    }
}

/// The same without lines of more than 65536 pixels, for operations that grow the image
pub fn dims_area(c: &mut Case) -> (u32, u32) {
    match c.choice(3) {
        0 => (c.int(257, 330) as u32, c.int(257, 300) as u32),
        1 => (c.int(500, 1100) as u32, c.int(60, 140) as u32),
        _ => (c.int(60, 140) as u32, c.int(500, 1100) as u32),
    }
}

/// Sizes just beyond 8 bit coordinates, for operations whose reference is slow
pub fn dims_wide(c: &mut Case) -> (u32, u32) {
    match c.choice(3) {
        0 => (c.int(250, 300) as u32, c.int(2, 7) as u32),
        1 => (c.int(2, 7) as u32, c.int(250, 300) as u32),
        _ => (c.int(30, 80) as u32, c.int(30, 80) as u32),
    }
}

pub fn u8s(c: &mut Case, n: usize) -> Vec<u8> {
    let kind = c.choice(8);
    let big = n > 4000;
    match kind {
        0 | 7 if !big => {
            // per-sample, few values
            let k = c.int(2, 4) as usize;
            let pal: Vec<u8> = (0..k).map(|_| c.u8()).collect();
            (0..n).map(|_| pal[c.choice(k as u64) as usize]).collect()
        }
        1 if !big => (0..n).map(|_| c.u8()).collect(),
        2 => {
            let v = c.pick(&[0u8, 255, 1, 128, 77, 254]);
            vec![v; n]
        }
        3 => {
            let a = c.int(1, 37) as usize;
            let b = c.u8() as usize;
            (0..n).map(|i| ((i * a + b) & 255) as u8).collect()
        }
        5 => {
            let mut r = Rng::new(c.choice(1 << 32));
            let pal = [0u8, 255, 1, 254, 127, 128, 0, 255];
            (0..n).map(|_| pal[(r.next() & 7) as usize]).collect()
        }
        6 => {
            let bg = c.pick(&[0u8, 255, 100]);
            let mut v = vec![bg; n];
            if n > 0 {
                for _ in 0..c.int(1, 4) {
                    let i = c.choice(n as u64) as usize;
                    v[i] = c.u8();
                }
            }
            v
        }
        _ => {
            let mut r = Rng::new(c.choice(1 << 32));
            (0..n).map(|_| (r.next() >> 56) as u8).collect()
        }
    }
}

/// Binary (0/255) samples with varying density
pub fn bits(c: &mut Case, n: usize) -> Vec<u8> {
    let kind = c.choice(5);
    match kind {
        0 if n <= 4000 => (0..n).map(|_| if c.bool() { 255 } else { 0 }).collect(),
        1 => vec![255; n],
        2 => {
            // white with few holes
            let mut v = vec![255u8; n];
            for _ in 0..c.int(1, 3) {
                let i = c.choice(n as u64) as usize;
                v[i] = 0;
            }
            v
        }
        3 => {
            let mut v = vec![0u8; n];
            for _ in 0..c.int(1, 3) {
                let i = c.choice(n as u64) as usize;
                v[i] = 255;
            }
            v
        }
        _ => {
            let d = c.int(1, 15) as u64;
            let mut r = Rng::new(c.choice(1 << 32));
            (0..n).map(|_| if (r.next() >> 60) < d { 255 } else { 0 }).collect()
        }
    }
}

/// f32 samples: dyadic values, so that the reference can be compared tightly
pub fn f32s(c: &mut Case, n: usize) -> Vec<f32> {
    let d = f32s_plain(c, n);
    if c.chance(1, 14) {
        // far from the usual range
        let by = c.pick(&[1024.0f32, -1.0, 1048576.0, 1.0 / 1024.0, -65536.0, 1.0 / 1048576.0, 1e9]);
        return d.into_iter().map(|v| v * by).collect();
    }
    d
}

fn f32s_plain(c: &mut Case, n: usize) -> Vec<f32> {
    let kind = c.choice(8);
    let big = n > 4000;
    match kind {
        0 if !big => (0..n).map(|_| c.choice(256) as f32).collect(),
        1 if !big => (0..n).map(|_| c.int(-512, 4096) as f32 / 8.0).collect(),
        2 => {
            let v = c.int(-100, 2040) as f32 / 8.0;
            vec![v; n]
        }
        3 => {
            let a = c.int(1, 37) as usize;
            (0..n).map(|i| ((i * a) & 255) as f32).collect()
        }
        4 => {
            let mut v = vec![0.0; n];
            if n > 0 {
                for _ in 0..c.int(1, 3) {
                    let i = c.choice(n as u64) as usize;
                    v[i] = c.int(1, 255) as f32;
                }
            }
            v
        }
        5 => {
            let mut r = Rng::new(c.choice(1 << 32));
            (0..n).map(|_| ((r.next() >> 40) as f32) / 65536.0).collect()
        }
        _ => {
            let mut r = Rng::new(c.choice(1 << 32));
            (0..n).map(|_| (r.next() >> 56) as f32).collect()
        }
    }
}

/// f32 samples in 0..=1
pub fn unit_f32s(c: &mut Case, n: usize) -> Vec<f32> {
    let kind = c.choice(3);
    match kind {
        0 if n <= 4000 => (0..n).map(|_| c.choice(257) as f32 / 256.0).collect(),
        1 => {
            let mut r = Rng::new(c.choice(1 << 32));
            (0..n).map(|_| ((r.next() % 256) as f32) / 255.0).collect()
        }
        _ => {
            let mut r = Rng::new(c.choice(1 << 32));
            (0..n).map(|_| ((r.next() >> 40) as f32) / 16777216.0).collect()
        }
    }
}

pub fn count(w: u32, h: u32, l: Layout) -> usize {
    w as usize * h as usize * l.ch as usize
}

/// An image whose buffer has exactly the length of its data (so that a sanitizer sees its end)
pub fn mk<T: Number>(w: u32, h: u32, l: Layout, data: Vec<T>) -> Image<T> {
    let mut d = Vec::with_capacity(data.len());
    d.extend_from_slice(&data);
    Image::from_vec(w, h, l.ch, l.alpha, d)
}

pub fn img_u8(c: &mut Case, w: u32, h: u32, l: Layout) -> U {
    let d = u8s(c, count(w, h, l));
    mk(w, h, l, d)
}

pub fn img_f32(c: &mut Case, w: u32, h: u32, l: Layout) -> F {
    let d = f32s(c, count(w, h, l));
    mk(w, h, l, d)
}

pub fn img_bits(c: &mut Case, w: u32, h: u32, l: Layout) -> U {
    let n = (w * h) as usize;
    let b = bits(c, n);
    if l.alpha {
        let a = u8s(c, n);
        let mut d = Vec::with_capacity(2 * n);
        for i in 0..n {
            d.push(b[i]);
            d.push(a[i]);
        }
        mk(w, h, l, d)
    } else {
        mk(w, h, l, b)
    }
}

pub fn lay<T: Number>(i: &Image<T>) -> Layout {
    Layout { ch: i.info().channels, alpha: i.info().alpha }
}

/// Number of colour channels
pub fn colours(l: Layout) -> usize {
    if l.alpha { l.ch as usize - 1 } else { l.ch as usize }
}

/// Raw sample
pub fn at<T: Number>(i: &Image<T>, x: usize, y: usize, k: usize) -> T {
    let w = i.info().width as usize;
    let ch = i.info().channels as usize;
    i.data()[(y * w + x) * ch + k]
}

pub fn at_clamped<T: Number>(i: &Image<T>, x: i64, y: i64, k: usize) -> T {
    let x = x.clamp(0, i.info().width as i64 - 1) as usize;
    let y = y.clamp(0, i.info().height as i64 - 1) as usize;
    at(i, x, y, k)
}

pub fn px<T: Number>(i: &Image<T>, x: usize, y: usize) -> &[T] {
    let w = i.info().width as usize;
    let ch = i.info().channels as usize;
    let s = (y * w + x) * ch;
    &i.data()[s..s + ch]
}

/// The image is well formed and has exactly this shape
pub fn shape<T: Number>(what: &str, i: &Image<T>, w: u32, h: u32, l: Layout) -> R {
    let n = i.info();
    ensure!(
        n.width == w && n.height == h && n.channels == l.ch && n.alpha == l.alpha,
        "{what}: result is {}x{} channels {} alpha {}, expected {}x{} channels {} alpha {}",
        n.width, n.height, n.channels, n.alpha, w, h, l.ch, l.alpha
    );
    ensure!(
        i.data().len() == count(w, h, l),
        "{what}: result holds {} samples, a {}x{} image with {} channels has {}",
        i.data().len(), w, h, l.ch, count(w, h, l)
    );
    Ok(())
}

pub fn same_shape<T: Number, S: Number>(what: &str, out: &Image<T>, inp: &Image<S>) -> R {
    shape(what, out, inp.info().width, inp.info().height, lay(inp))
}

/// Position of sample index, for messages
pub fn pos(i: ImageInfo, idx: usize) -> String {
    let ch = (i.channels as usize).max(1);
    let w = (i.width as usize).max(1);
    let p = idx / ch;
    format!("pixel ({}, {}) channel {}", p % w, p / w, idx % ch)
}

pub fn eq_data<T: Number + std::fmt::Debug>(what: &str, out: &Image<T>, exp: &[T]) -> R {
    ensure!(out.data().len() == exp.len(), "{what}: {} samples, expected {}", out.data().len(), exp.len());
    for (i, (a, b)) in out.data().iter().zip(exp).enumerate() {
        ensure!(a == b, "{what}: {} is {:?}, expected {:?}", pos(out.info(), i), a, b);
    }
    Ok(())
}

pub fn same_image<T: Number + std::fmt::Debug>(what: &str, out: &Image<T>, exp: &Image<T>) -> R {
    same_shape(what, out, exp)?;
    eq_data(what, out, exp.data())
}

/// f32 samples against f64 values with a tolerance for each
pub fn close_data(what: &str, out: &F, exp: &[(f64, f64)]) -> R {
    ensure!(out.data().len() == exp.len(), "{what}: {} samples, expected {}", out.data().len(), exp.len());
    for (i, (a, (b, tol))) in out.data().iter().zip(exp).enumerate() {
        let d = (*a as f64 - b).abs();
        ensure!(d <= *tol, "{what}: {} is {:?}, expected {:?} (tolerance {:.3e})", pos(out.info(), i), a, b, tol);
    }
    Ok(())
}

/// u8 result of rounding a real computed in f32: |out - clamp(real)| <= 0.5 + slack
pub fn rounded(what: &str, info: ImageInfo, i: usize, out: u8, real: f64, slack: f64) -> R {
    let r = real.clamp(0.0, 255.0);
    ensure!((out as f64 - r).abs() <= 0.5 + slack, "{what}: {} is {}, expected {:.5} rounded", pos(info, i), out, real);
    Ok(())
}

pub fn show<T: Number + std::fmt::Debug>(i: &Image<T>) -> String {
    let n = i.info();
    let d = i.data();
    let m = d.len().min(48);
    format!("{}x{} ch {} alpha {} {:?}{}", n.width, n.height, n.channels, n.alpha, &d[..m], if m < d.len() { "..." } else { "" })
}

/// The same image without its alpha channel
pub fn drop_alpha<T: Number>(i: &Image<T>) -> Image<T> {
    let n = i.info();
    if !n.alpha {
        return i.clone();
    }
    let ch = n.channels as usize;
    let mut d = Vec::new();
    for p in i.data().chunks(ch) {
        d.extend_from_slice(&p[..ch - 1]);
    }
    mk(n.width, n.height, Layout { ch: n.channels - 1, alpha: false }, d)
}
