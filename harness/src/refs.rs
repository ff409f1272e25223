//! Independent reference models, in f64 or integers. None of them calls the library.

use crate::gen::*;
use imgproc_rs::image::{BaseImage, Image, Number};
use std::f64::consts::PI;

// ---------------------------------------------------------------- colour

/// sRGB transfer curve of a sample 0..255
pub fn linearize(v: f64) -> f64 {
    let x = v / 255.0;
    if x <= 0.04045 { x / 12.92 } else { ((x + 0.055) / 1.055).powf(2.4) }
}

/// Inverse curve, as a real in sample units (not rounded, not clamped)
pub fn unlinearize(l: f64) -> f64 {
    if l <= 0.0031308 { 255.0 * 12.92 * l } else { 255.0 * (1.055 * l.powf(1.0 / 2.4) - 0.055) }
}

pub const M: [[f64; 3]; 3] = [[0.4124564, 0.3575761, 0.1804375], [0.2126729, 0.7151522, 0.0721750], [0.0193339, 0.1191920, 0.9503041]];
pub const MI: [[f64; 3]; 3] = [[3.2404542, -1.5371385, -0.4985314], [-0.9692660, 1.8760108, 0.0415560], [0.0556434, -0.2040259, 1.0572252]];

pub fn mul(m: &[[f64; 3]; 3], v: [f64; 3]) -> [f64; 3] {
    let mut o = [0.0; 3];
    for i in 0..3 {
        o[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2];
    }
    o
}

pub fn white(d50: bool) -> [f64; 3] {
    if d50 { [0.964212, 1.0, 0.825188] } else { [0.950489, 1.0, 1.088840] }
}

pub fn lab_f(t: f64) -> f64 {
    let d: f64 = 6.0 / 29.0;
    if t > d * d * d { t.cbrt() } else { t / (3.0 * d * d) + 4.0 / 29.0 }
}

pub fn lab_f_inv(t: f64) -> f64 {
    let d: f64 = 6.0 / 29.0;
    if t > d { t * t * t } else { 3.0 * d * d * (t - 4.0 / 29.0) }
}

pub fn xyz_to_lab(v: [f64; 3], d50: bool) -> [f64; 3] {
    let n = white(d50);
    let (x, y, z) = (lab_f(v[0] / n[0]), lab_f(v[1] / n[1]), lab_f(v[2] / n[2]));
    [116.0 * y - 16.0, 500.0 * (x - y), 200.0 * (y - z)]
}

pub fn lab_to_xyz(v: [f64; 3], d50: bool) -> [f64; 3] {
    let n = white(d50);
    let l = (v[0] + 16.0) / 116.0;
    [n[0] * lab_f_inv(l + v[1] / 500.0), n[1] * lab_f_inv(l), n[2] * lab_f_inv(l - v[2] / 200.0)]
}

pub fn srgb_to_xyz(p: [u8; 3]) -> [f64; 3] {
    mul(&M, [linearize(p[0] as f64), linearize(p[1] as f64), linearize(p[2] as f64)])
}

pub fn srgb_to_lab(p: [u8; 3], d50: bool) -> [f64; 3] {
    xyz_to_lab(srgb_to_xyz(p), d50)
}

/// Real sample values (unrounded, unclamped)
pub fn xyz_to_srgb(v: [f64; 3]) -> [f64; 3] {
    let l = mul(&MI, v);
    [unlinearize(l[0]), unlinearize(l[1]), unlinearize(l[2])]
}

pub fn lab_to_srgb(v: [f64; 3], d50: bool) -> [f64; 3] {
    xyz_to_srgb(lab_to_xyz(v, d50))
}

pub fn rgb_to_hsv8(p: [u8; 3]) -> [u8; 3] {
    let (r, g, b) = (p[0] as i32, p[1] as i32, p[2] as i32);
    let max = r.max(g).max(b);
    let min = r.min(g).min(b);
    let d = max - min;
    let s = if max == 0 { 0 } else { 255 * d / max };
    let mut h = 0;
    if d != 0 {
        h = if max == r {
            43 * (g - b) / d
        } else if max == g {
            85 + 43 * (b - r) / d
        } else {
            170 + 43 * (r - g) / d
        };
    }
    if h < 0 {
        h += 255;
    }
    [h as u8, s as u8, max as u8]
}

pub fn hsv8_to_rgb(p: [u8; 3]) -> [u8; 3] {
    let (h, s, v) = (p[0] as i32, p[1] as i32, p[2] as i32);
    if s == 0 {
        return [p[2]; 3];
    }
    let i = h / 43;
    let f = (h - 43 * i) * 6;
    let a = (v * (255 - s) / 255) as u8;
    let q = (v * (255 - s * f / 255) / 255) as u8;
    let t = (v * (255 - s * (255 - f) / 255) / 255) as u8;
    let v = v as u8;
    match i {
        0 => [v, t, a],
        1 => [q, v, a],
        2 => [a, v, t],
        3 => [a, q, v],
        4 => [t, a, v],
        _ => [v, a, q],
    }
}

/// Hexcone model in reals, all components 0..=1
pub fn rgb_to_hsv(p: [f64; 3]) -> [f64; 3] {
    let [r, g, b] = p;
    let max = r.max(g).max(b);
    let min = r.min(g).min(b);
    let d = max - min;
    let s = if max > 0.0 { d / max } else { 0.0 };
    let mut h = 0.0;
    if d > 0.0 {
        h = if max == r {
            (g - b) / d
        } else if max == g {
            2.0 + (b - r) / d
        } else {
            4.0 + (r - g) / d
        };
        h /= 6.0;
        if h < 0.0 {
            h += 1.0;
        }
    }
    [h, s, max]
}

pub fn hsv_to_rgb(p: [f64; 3]) -> [f64; 3] {
    let [h, s, v] = p;
    let h6 = (h * 6.0).rem_euclid(6.0);
    let f = |n: f64| -> f64 {
        let k = (n + h6) % 6.0;
        v - v * s * k.min(4.0 - k).clamp(0.0, 1.0)
    };
    [f(5.0), f(3.0), f(1.0)]
}

// ---------------------------------------------------------------- windows

/// Kernel-weighted sum with clamp padding; also the sum of magnitudes (for tolerances)
pub fn conv_at(img: &F, x: usize, y: usize, k: usize, kernel: &[f64], kw: usize, kh: usize) -> (f64, f64) {
    let (mut s, mut m) = (0.0, 0.0);
    for j in 0..kh {
        for i in 0..kw {
            let v = at_clamped(img, x as i64 + i as i64 - (kw / 2) as i64, y as i64 + j as i64 - (kh / 2) as i64, k) as f64;
            let p = v * kernel[j * kw + i];
            s += p;
            m += p.abs();
        }
    }
    (s, m)
}

/// Convolution of the whole image: (value, tolerance) per sample
pub fn conv(img: &F, kernel: &[f64], kw: usize, kh: usize, rel: f64) -> Vec<(f64, f64)> {
    let (w, h, ch) = img.info().whc();
    let mut o = Vec::new();
    for y in 0..h as usize {
        for x in 0..w as usize {
            for k in 0..ch as usize {
                let (s, m) = conv_at(img, x, y, k, kernel, kw, kh);
                o.push((s, rel * m + 1e-4 * rel.max(1e-2)));
            }
        }
    }
    o
}

pub fn outer(v: &[f64], h: &[f64]) -> Vec<f64> {
    let mut o = Vec::new();
    for a in v {
        for b in h {
            o.push(a * b);
        }
    }
    o
}

pub fn gauss2(dx: f64, dy: f64, sigma: f64) -> f64 {
    (-(dx * dx + dy * dy) / (2.0 * sigma * sigma)).exp() / (2.0 * PI * sigma * sigma)
}

pub fn log2d(dx: f64, dy: f64, sigma: f64) -> f64 {
    let q = (dx * dx + dy * dy) / (2.0 * sigma * sigma);
    -1.0 / (PI * sigma.powi(4)) * (1.0 - q) * (-q).exp()
}

pub fn gauss_kernel(size: usize, sigma: f64) -> Vec<f64> {
    let k = (size / 2) as f64;
    let mut o = Vec::new();
    for y in 0..size {
        for x in 0..size {
            o.push(gauss2(x as f64 - k, y as f64 - k, sigma));
        }
    }
    o
}

/// The sorted samples of a window, edge pixels repeated
pub fn window_u8(img: &U, x: usize, y: usize, k: usize, r: i64) -> Vec<u8> {
    let mut v = Vec::with_capacity(((2 * r + 1) * (2 * r + 1)) as usize);
    for j in -r..=r {
        for i in -r..=r {
            v.push(at_clamped(img, x as i64 + i, y as i64 + j, k));
        }
    }
    v.sort_unstable();
    v
}

/// Histogram of a window (for large radii)
pub fn window_hist(img: &U, x: usize, y: usize, k: usize, r: i64) -> [u32; 256] {
    let mut h = [0u32; 256];
    let (xs, ys) = (hits(x, img.info().width, r), hits(y, img.info().height, r));
    for (j, m) in &ys {
        for (i, n) in &xs {
            h[at(img, *i, *j, k) as usize] += (m * n) as u32;
        }
    }
    h
}

/// Coordinates covered by a window with clamped coordinates, with how often each one is
fn hits(p: usize, n: u32, r: i64) -> Vec<(usize, u64)> {
    let (p, last) = (p as i64, n as i64 - 1);
    let (lo, hi) = ((p - r).max(0), (p + r).min(last));
    (lo..=hi).map(|i| {
        let mut m = 1;
        if i == 0 { m += (r - p).max(0) }
        if i == last { m += (p + r - last).max(0) }
        (i as usize, m as u64)
    }).collect()
}

/// Exact 2D prefix sums of "is white" of the first channel
pub struct Whites {
    w: usize,
    h: usize,
    s: Vec<u64>,
}

impl Whites {
    pub fn new(img: &U) -> Whites {
        let (w, h) = (img.info().width as usize, img.info().height as usize);
        let mut s = vec![0u64; (w + 1) * (h + 1)];
        for y in 0..h {
            for x in 0..w {
                let v = (at(img, x, y, 0) == 255) as u64;
                s[(y + 1) * (w + 1) + x + 1] = v + s[y * (w + 1) + x + 1] + s[(y + 1) * (w + 1) + x] - s[y * (w + 1) + x];
            }
        }
        Whites { w, h, s }
    }
    /// (white pixels, in-image pixels, whole window is in the image)
    pub fn window(&self, x: usize, y: usize, r: u64) -> (u64, u64, bool) {
        let (w, h) = (self.w as u64, self.h as u64);
        let (x, y) = (x as u64, y as u64);
        let (x0, y0) = (x.saturating_sub(r), y.saturating_sub(r));
        let (x1, y1) = ((x + r).min(w - 1) + 1, (y + r).min(h - 1) + 1);
        let g = |a: u64, b: u64| self.s[(b as usize) * (self.w + 1) + a as usize];
        let n = g(x1, y1) + g(x0, y0) - g(x0, y1) - g(x1, y0);
        let full = x >= r && y >= r && x + r < w && y + r < h;
        (n, (x1 - x0) * (y1 - y0), full)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Morph {
    Erode,
    Dilate,
    Majority,
    Gradient,
}

/// Per pixel: Some(white?) or None where unspecified (a tie of the majority)
pub fn morph(img: &U, r: u64, m: Morph) -> Vec<Option<bool>> {
    let t = Whites::new(img);
    let mut o = Vec::with_capacity(t.w * t.h);
    for y in 0..t.h {
        for x in 0..t.w {
            let (n, area, full) = t.window(x, y, r);
            let er = full && n == area;
            let di = n > 0;
            o.push(match m {
                Morph::Erode => Some(er),
                Morph::Dilate => Some(di),
                Morph::Gradient => Some(er != di),
                Morph::Majority => if 2 * n == area { None } else { Some(2 * n > area) },
            });
        }
    }
    o
}

/// The model of a binary image after an operation (alpha kept), for chains
pub fn morph_image(img: &U, r: u64, m: Morph) -> U {
    let v = morph(img, r, m);
    let ch = img.info().channels as usize;
    let mut d = img.data().to_vec();
    for (i, b) in v.iter().enumerate() {
        d[i * ch] = if b.unwrap_or(false) { 255 } else { 0 };
    }
    mk(img.info().width, img.info().height, lay(img), d)
}

// ---------------------------------------------------------------- geometry

pub fn crop<T: Number>(i: &Image<T>, x: usize, y: usize, w: usize, h: usize) -> Vec<T> {
    let mut o = Vec::new();
    for b in 0..h {
        for a in 0..w {
            o.extend_from_slice(px(i, x + a, y + b));
        }
    }
    o
}

pub fn translate<T: Number>(i: &Image<T>, dx: u32, dy: u32) -> Vec<T> {
    let n = i.info();
    let zero: T = 0.into();
    let mut o = Vec::new();
    for y in 0..n.height {
        for x in 0..n.width {
            if x >= dx && y >= dy {
                o.extend_from_slice(px(i, (x - dx) as usize, (y - dy) as usize));
            } else {
                o.extend((0..n.channels).map(|_| zero));
            }
        }
    }
    o
}

/// `vertical`: across the line x = 0 (columns are mirrored)
pub fn reflect<T: Number>(i: &Image<T>, vertical: bool) -> Vec<T> {
    let n = i.info();
    let (w, h) = (n.width as usize, n.height as usize);
    let mut o = Vec::new();
    for y in 0..h {
        for x in 0..w {
            o.extend_from_slice(if vertical { px(i, w - 1 - x, y) } else { px(i, x, h - 1 - y) });
        }
    }
    o
}

pub fn overlay<T: Number>(b: &Image<T>, f: &Image<T>, x: u32, y: u32) -> Vec<T> {
    let n = b.info();
    let m = f.info();
    let ch = n.channels as usize;
    let mut o = b.data().to_vec();
    for j in 0..m.height as u64 {
        for i in 0..m.width as u64 {
            let (u, v) = (x as u64 + i, y as u64 + j);
            if u < n.width as u64 && v < n.height as u64 {
                let p = (v as usize * n.width as usize + u as usize) * ch;
                o[p..p + ch].copy_from_slice(px(f, i as usize, j as usize));
            }
        }
    }
    o
}
