//! C21..C24, C27: filters

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::props::p_tone::{is_err, ok, thresh};
use crate::refs;
use imgproc_rs::enums::{Bilateral, Refl};
use imgproc_rs::image::{BaseImage, Image, Number};
use imgproc_rs::{filter, transform, util};

fn fdims(c: &mut Case, cap: u32) -> (u32, u32) {
    if c.chance(1, 120) {
        dims_wide(c)
    } else if c.chance(1, 6000) {
        dims_large(c)
    } else {
        dims(c, cap)
    }
}

/// Odd window size up to `max`, on small images seldom one beyond (up to `far`)
fn window(c: &mut Case, w: u32, h: u32, max: i64, far: i64) -> usize {
    if c.chance(1, 250) && w * h <= 100 {
        odd(c, far)
    } else if w * h > 3000 {
        odd(c, 5)
    } else {
        odd(c, max)
    }
}

/// f32 sums over many terms lose more
fn more(n: usize) -> f64 {
    1.0 + n as f64 / 32.0
}

/// Kernel entries: dyadic or decimal
pub fn kernel(c: &mut Case, n: usize) -> Vec<f32> {
    if n == 0 {
        return Vec::new();
    }
    match c.choice(6) {
        0 => (0..n).map(|_| c.int(-4, 4) as f32).collect(),
        1 => (0..n).map(|_| c.int(-100, 100) as f32 / 64.0).collect(),
        2 => (0..n).map(|i| (i + 1) as f32).collect(),
        3 => {
            let mut v = vec![0.0; n];
            let i = c.choice(n as u64) as usize;
            v[i] = c.pick(&[1.0f32, -1.0, 2.0, 0.5]);
            v
        }
        4 => vec![c.pick(&[1.0 / n as f32, 0.0, 1.0]); n],
        _ => (0..n).map(|_| c.int(-1000, 1000) as f32 / 300.0).collect(),
    }
}

fn f64s(k: &[f32]) -> Vec<f64> {
    k.iter().map(|v| *v as f64).collect()
}

fn max_abs(i: &F) -> f64 {
    i.data().iter().fold(0.0, |m, v| m.max(v.abs() as f64))
}

fn l1(k: &[f64]) -> f64 {
    k.iter().map(|v| v.abs()).sum()
}

/// out against the kernel sum, with one tolerance for all samples
fn filtered(what: &str, out: &F, img: &F, k: &[f64], kw: usize, kh: usize, rel: f64) -> R {
    same_shape(what, out, img)?;
    let tol = rel * l1(k) * max_abs(img) + 1e-5;
    let exp: Vec<(f64, f64)> = refs::conv(img, k, kw, kh, 0.0).into_iter().map(|(v, _)| (v, tol)).collect();
    close_data(what, out, &exp)
}

// ---------------------------------------------------------------- C21

fn odd(c: &mut Case, max: i64) -> usize {
    (2 * c.int(0, max / 2) + 1) as usize
}

fn c21_1d(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = fdims(c, 16);
    let img = img_f32(c, w, h, l);
    let n = window(c, w, h, 11, 600);
    let k = kernel(c, n);
    let vert = c.bool();
    let what = format!("filter_1d {} of {w}x{h} {l:?} with {k:?}", if vert { "vertical" } else { "horizontal" });
    let out = ok(&what, filter::filter_1d(&img, &k, vert))?;
    let (kw, kh) = if vert { (1, n) } else { (n, 1) };
    filtered(&what, &out, &img, &f64s(&k), kw, kh, 3e-6 * more(n))?;
    let bad = kernel(c, n + 1);
    is_err(&format!("filter_1d with a kernel of length {}", n + 1), || filter::filter_1d(&img, &bad, vert))?;
    is_err("filter_1d with an empty kernel", || filter::filter_1d(&img, &[], vert))?;
    c.label_if(n as u32 > if vert { h } else { w }, "kernel longer than the image");
    c.label_if(vert, "vertical");
    c.nontrivial(n > 1 && w > 1 && h > 1 && k.iter().filter(|v| **v != 0.0).count() > 1);
    c.note(|| format!("vertical {vert} kernel {k:?} image {}", show(&img)));
    Ok(())
}

fn c21_separable(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = fdims(c, 12);
    let img = img_f32(c, w, h, l);
    let n = window(c, w, h, 7, 40);
    let (kv, kh) = (kernel(c, n), kernel(c, n));
    let what = format!("separable_filter of {w}x{h} {l:?} with vertical {kv:?} horizontal {kh:?}");
    let out = ok(&what, filter::separable_filter(&img, &kv, &kh))?;
    filtered(&what, &out, &img, &refs::outer(&f64s(&kv), &f64s(&kh)), n, n, 6e-6 * more(n))?;
    let m = n + 2;
    let longer = kernel(c, m);
    is_err(&format!("separable_filter with lengths {n} and {m}"), || filter::separable_filter(&img, &kv, &longer))?;
    is_err(&format!("separable_filter with lengths {m} and {n}"), || filter::separable_filter(&img, &longer, &kh))?;
    let even = kernel(c, n + 1);
    is_err("separable_filter with even lengths", || filter::separable_filter(&img, &even, &even))?;
    c.nontrivial(n > 1 && w > 1 && h > 1 && kv != kh);
    c.note(|| format!("vertical {kv:?} horizontal {kh:?} image {}", show(&img)));
    Ok(())
}

/// A square kernel, sometimes an outer product
pub fn square_kernel(c: &mut Case, n: usize) -> Vec<f32> {
    match c.choice(4) {
        0 => {
            let a: Vec<f32> = (0..n).map(|_| c.int(-3, 3) as f32).collect();
            let b: Vec<f32> = (0..n).map(|_| c.int(-3, 3) as f32).collect();
            refs::outer(&f64s(&a), &f64s(&b)).iter().map(|v| *v as f32).collect()
        }
        1 => {
            // one row, column or entry
            let mut k = vec![0.0; n * n];
            let i = c.choice(n as u64) as usize;
            let (row, col) = (c.bool(), c.bool());
            for j in 0..n {
                if row { k[i * n + j] = c.int(-3, 3) as f32 }
                if col { k[j * n + i] = c.int(-3, 3) as f32 }
            }
            k
        }
        _ => kernel(c, n * n),
    }
}

fn c21_2d(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = fdims(c, 12);
    let img = img_f32(c, w, h, l);
    let n = window(c, w, h, 7, 24);
    let k = square_kernel(c, n);
    let what = format!("unseparable_filter of {w}x{h} {l:?} with {k:?}");
    let out = ok(&what, filter::unseparable_filter(&img, &k))?;
    filtered(&what, &out, &img, &f64s(&k), n, n, 3e-6 * more(n * n))?;
    let what = format!("linear_filter of {w}x{h} {l:?} with {k:?}");
    let out = ok(&what, filter::linear_filter(&img, &k))?;
    filtered(&what, &out, &img, &f64s(&k), n, n, 1e-4)?;
    // lengths that are not odd squares
    let len = loop {
        let len = c.int(0, 50) as usize;
        let r = (len as f64).sqrt() as usize;
        if len % 2 == 0 || r * r != len {
            break len;
        }
        if c.trace.len() > 4000 {
            break 15;
        }
    };
    let bad = vec![1.0f32; len];
    is_err(&format!("unseparable_filter with {len} entries"), || filter::unseparable_filter(&img, &bad))?;
    is_err(&format!("linear_filter with {len} entries"), || filter::linear_filter(&img, &bad))?;
    c.label_if(n as u32 > w.min(h), "kernel larger than the image");
    c.label_if(util::separate_kernel(&k).is_some(), "reported separable");
    c.nontrivial(n > 1 && w > 1 && h > 1 && k.iter().filter(|v| **v != 0.0).count() > 1);
    c.note(|| format!("kernel {k:?} image {}", show(&img)));
    Ok(())
}

/// Kernels of hundreds of rows with a few entries, on images they dwarf
fn c21_far(c: &mut Case) -> R {
    let l = layout(c);
    let (w, h) = (c.int(1, 7) as u32, c.int(1, 7) as u32);
    let img = img_f32(c, w, h, l);
    let n = match c.choice(3) { 0 => odd(c, 60), 1 => 2 * c.int(20, 70) as usize + 1, _ => 2 * c.int(60, 190) as usize + 1 };
    let mut k = vec![0.0f32; n * n];
    let mut terms = 0;
    for _ in 0..c.int(1, 8) {
        // near the center, where the image is, at an edge of the kernel, or anywhere
        let mut along = |c: &mut Case| match c.choice(4) {
            0 => (n as i64 / 2 + c.int(-7, 7)).clamp(0, n as i64 - 1) as usize,
            1 => 0,
            2 => n - 1,
            _ => c.choice(n as u64) as usize,
        };
        let i = along(c) * n + along(c);
        k[i] = c.pick(&[1.0f32, -1.0, 2.0, 3.0, 0.5]);
        terms += 1;
    }
    let what = format!("unseparable_filter of {w}x{h} {l:?} with a {n}x{n} kernel of {terms} entries");
    let out = ok(&what, filter::unseparable_filter(&img, &k))?;
    filtered(&what, &out, &img, &f64s(&k), n, n, 1e-5)?;
    let what = format!("linear_filter of {w}x{h} {l:?} with a {n}x{n} kernel of {terms} entries");
    let out = ok(&what, filter::linear_filter(&img, &k))?;
    filtered(&what, &out, &img, &f64s(&k), n, n, 1e-4)?;
    c.label_if(n > 255, "more than 255 rows");
    c.nontrivial(terms > 1 && w > 1 && h > 1 && n > 1);
    c.note(|| format!("{n}x{n}: {:?}, image {}", k.iter().enumerate().filter(|(_, v)| **v != 0.0).map(|(i, v)| (i % n, i / n, *v)).collect::<Vec<_>>(), show(&img)));
    Ok(())
}

#[cfg(not(feature = "parallel"))]
fn apply_1d(s: &imgproc_rs::image::SubImage<f32>, k: &[f32]) -> Result<Vec<f32>, String> {
    let mut o = vec![9.0; 3];
    util::apply_1d_kernel(s, &mut o, k).map_err(|e| format!("{e:?}"))?;
    Ok(o)
}
#[cfg(not(feature = "parallel"))]
fn apply_2d(s: &imgproc_rs::image::SubImage<f32>, k: &[f32]) -> Result<Vec<f32>, String> {
    let mut o = vec![9.0; 3];
    util::apply_2d_kernel(s, &mut o, k).map_err(|e| format!("{e:?}"))?;
    Ok(o)
}
#[cfg(feature = "parallel")]
fn apply_1d(s: &imgproc_rs::image::SubImage<f32>, k: &[f32]) -> Result<Vec<f32>, String> {
    util::apply_1d_kernel(s, k).map_err(|e| format!("{e:?}"))
}
#[cfg(feature = "parallel")]
fn apply_2d(s: &imgproc_rs::image::SubImage<f32>, k: &[f32]) -> Result<Vec<f32>, String> {
    util::apply_2d_kernel(s, k).map_err(|e| format!("{e:?}"))
}

fn c21_apply(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = dims(c, 10);
    let img = img_f32(c, w, h, l);
    let n = odd(c, 7) as u32;
    let (x, y) = (c.int(0, w as i64 - 1) as u32, c.int(0, h as i64 - 1) as u32);
    let vert = c.bool();
    let k1 = kernel(c, n as usize);
    let k2 = kernel(c, (n * n) as usize);
    let s1 = img.get_neighborhood_1d(x, y, n, vert);
    let s2 = img.get_neighborhood_2d(x, y, n);
    for (name, out, vals, k) in [("apply_1d_kernel", apply_1d(&s1, &k1)?, s1.to_vec(), &k1), ("apply_2d_kernel", apply_2d(&s2, &k2)?, s2.to_vec(), &k2)] {
        let ch = l.ch as usize;
        ensure!(out.len() == ch, "{name}: {} values for {ch} channels", out.len());
        for j in 0..ch {
            let e: f64 = k.iter().enumerate().map(|(i, a)| *a as f64 * vals[i * ch + j] as f64).sum();
            let m: f64 = k.iter().enumerate().map(|(i, a)| (*a as f64 * vals[i * ch + j] as f64).abs()).sum();
            ensure!((out[j] as f64 - e).abs() <= 3e-6 * m + 1e-6, "{name} of {vals:?} with {k:?}: channel {j} is {}, expected {e}", out[j]);
        }
    }
    let wrong = vec![1.0f32; n as usize + 2];
    is_err("apply_1d_kernel with a longer kernel", || apply_1d(&s1, &wrong))?;
    is_err("apply_2d_kernel with a kernel of the wrong size", || apply_2d(&s2, &vec![1.0f32; ((n + 2) * (n + 2)) as usize]))?;
    is_err("apply_1d_kernel with an even kernel", || apply_1d(&s1, &vec![1.0f32; n as usize + 1]))?;
    is_err("apply_2d_kernel with an even kernel", || apply_2d(&s2, &vec![1.0f32; ((n + 1) * (n + 1)) as usize]))?;
    if n > 1 {
        let less = 2 * c.int(0, n as i64 / 2 - 1) as usize + 1;
        is_err("apply_1d_kernel with a shorter kernel", || apply_1d(&s1, &vec![1.0f32; less]))?;
        is_err("apply_2d_kernel with a smaller kernel", || apply_2d(&s2, &vec![1.0f32; less * less]))?;
        is_err("apply_2d_kernel with a single row", || apply_2d(&s2, &vec![1.0f32; n as usize]))?;
    }
    c.nontrivial(n > 1 && l.ch > 1);
    c.note(|| format!("window {n} at ({x}, {y}) of {}", show(&img)));
    Ok(())
}

/// filter(a f + b g) = a filter(f) + b filter(g), and reflection of image and kernel
fn c21_laws(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 40) { dims_large(c) } else { dims(c, 60) };
    let n = if w * h > 4000 { 3 } else { odd(c, 5) };
    let f = img_f32(c, w, h, l);
    let g = img_f32(c, w, h, l);
    let k = square_kernel(c, n);
    let (a, b) = (c.int(-3, 3) as f32, c.int(-3, 3) as f32);
    let mix = mk(w, h, l, f.data().iter().zip(g.data()).map(|(p, q)| a * p + b * q).collect::<Vec<f32>>());
    let run = |i: &F, k: &[f32]| ok("linear_filter", filter::linear_filter(i, k));
    let (ff, fg, fm) = (run(&f, &k)?, run(&g, &k)?, run(&mix, &k)?);
    let tol = 2e-4 * l1(&f64s(&k)) * (a.abs() as f64 * max_abs(&f) + b.abs() as f64 * max_abs(&g)) + 1e-4;
    for i in 0..fm.data().len() {
        let e = a as f64 * ff.data()[i] as f64 + b as f64 * fg.data()[i] as f64;
        ensure!((fm.data()[i] as f64 - e).abs() <= tol, "linear_filter {k:?} of {a} * f + {b} * g on {w}x{h} {l:?}: {} is {}, the parts give {e}", pos(fm.info(), i), fm.data()[i]);
    }
    let vertical = c.bool();
    let ax = || if vertical { Refl::Vertical } else { Refl::Horizontal };
    let kr: Vec<f32> = (0..n * n).map(|i| if vertical { k[(i / n) * n + n - 1 - i % n] } else { k[(n - 1 - i / n) * n + i % n] }).collect();
    let m1 = ok("reflect", transform::reflect(&ff, ax()))?;
    let m2 = run(&ok("reflect", transform::reflect(&f, ax()))?, &kr)?;
    let tol = 2e-4 * l1(&f64s(&k)) * max_abs(&f) + 1e-4;
    for i in 0..m1.data().len() {
        ensure!((m1.data()[i] - m2.data()[i]).abs() as f64 <= tol, "linear_filter {k:?} and reflection on {w}x{h} {l:?}: {} is {} or {}", pos(m1.info(), i), m1.data()[i], m2.data()[i]);
    }
    c.label_if(w * h > 4000, "large image");
    c.nontrivial(n > 1 && w > 1 && h > 1 && a != 0.0 && b != 0.0);
    c.note(|| format!("{a} f + {b} g, kernel {k:?}, f {}", show(&f)));
    Ok(())
}

// ---------------------------------------------------------------- C22

fn c22(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = fdims(c, 12);
    let img = img_f32(c, w, h, l);
    let n = window(c, w, h, 9, 40);
    let nn = n * n;
    let lo = img.data().iter().fold(f64::MAX, |m, v| m.min(*v as f64));
    let hi = img.data().iter().fold(f64::MIN, |m, v| m.max(*v as f64));
    let kind = c.choice(3);
    let (what, out, k, rel) = match kind {
        0 => {
            let what = format!("box_filter {n} of {w}x{h} {l:?}");
            (what.clone(), ok(&what, filter::box_filter(&img, n as u32))?, vec![1.0 / nn as f64; nn], 1e-5)
        }
        1 => {
            let wt = match if c.chance(1, 30) { 3 + c.choice(2) } else { c.choice(3) } { 0 => c.int(1, 8), 1 => c.int(if n == 1 { 1 } else { 0 }, 40), 2 => c.int(1, 100000), 3 => c.int(100000, u32::MAX as i64), _ => u32::MAX as i64 - c.int(0, 2 * nn as i64) };
            let what = format!("weighted_avg_filter {n} weight {wt} of {w}x{h} {l:?}");
            let mut k = vec![1.0 / (nn as f64 - 1.0 + wt as f64); nn];
            k[nn / 2] *= wt as f64;
            (what.clone(), ok(&what, filter::weighted_avg_filter(&img, n as u32, wt as u32))?, k, 1e-5)
        }
        _ => {
            let sigma = match c.choice(4) { 0 => c.int(1, 40) as f32 / 8.0, 1 => c.pick(&[1.0f32, 0.5, 0.1, 0.05, 20.0, 100.0]), _ => c.int(5, 800) as f32 / 100.0 };
            let what = format!("gaussian_blur {n} sigma {sigma} of {w}x{h} {l:?}");
            (what.clone(), ok(&what, filter::gaussian_blur(&img, n as u32, sigma))?, refs::gauss_kernel(n, sigma as f64), 1e-4)
        }
    };
    filtered(&what, &out, &img, &k, n, n, rel * more(nn))?;
    if kind < 2 {
        let t = 1e-5 * more(nn) * hi.abs().max(lo.abs()) + 1e-6;
        for (i, o) in out.data().iter().enumerate() {
            ensure!(*o as f64 >= lo - t && *o as f64 <= hi + t, "{what}: {} is {o}, outside the range {lo}..{hi} of the input", pos(out.info(), i));
        }
    }
    let even = 2 * c.int(0, 6) as u32;
    is_err(&format!("box_filter {even}"), || filter::box_filter(&img, even))?;
    is_err(&format!("weighted_avg_filter {even}"), || filter::weighted_avg_filter(&img, even, 2))?;
    is_err(&format!("gaussian_blur {even}"), || filter::gaussian_blur(&img, even, 1.0))?;
    c.label(["box", "weighted average", "gaussian"][kind as usize]);
    c.label_if(n as u32 > w.min(h), "window larger than the image");
    c.label_if(lo == hi, "constant image");
    c.nontrivial(n > 1 && w > 1 && h > 1 && lo < hi);
    c.note(|| format!("{what}: {}", show(&img)));
    Ok(())
}

// ---------------------------------------------------------------- C23

const SHARPEN: [f64; 9] = [0.0, -1.0, 0.0, -1.0, 5.0, -1.0, 0.0, -1.0, 0.0];
const LAPLACIAN: [f64; 9] = [0.0, -1.0, 0.0, -1.0, 4.0, -1.0, 0.0, -1.0, 0.0];

fn unsharp() -> Vec<f64> {
    let b = [1.0, 4.0, 6.0, 4.0, 1.0];
    let mut k: Vec<f64> = refs::outer(&b, &b).iter().map(|v| -v / 256.0).collect();
    k[12] += 2.0;
    k
}

/// Windows of hundreds of rows on images of a few pixels
fn c22_far(c: &mut Case) -> R {
    let l = layout(c);
    let (w, h) = (c.int(1, 4) as u32, c.int(1, 4) as u32);
    let img = img_f32(c, w, h, l);
    let n = match c.choice(3) { 0 => 2 * c.int(4, 30) as usize + 1, 1 => 2 * c.int(20, 70) as usize + 1, _ => 2 * c.int(60, 150) as usize + 1 };
    let nn = n * n;
    let (what, out, k, rel) = match c.choice(3) {
        0 => {
            let what = format!("box_filter {n} of {w}x{h} {l:?}");
            (what.clone(), ok(&what, filter::box_filter(&img, n as u32))?, vec![1.0 / nn as f64; nn], 2e-5)
        }
        1 => {
            let wt = match c.choice(3) { 0 => c.int(0, 8), 1 => c.int(1, 200000), _ => nn as i64 * c.int(1, 4) };
            let what = format!("weighted_avg_filter {n} weight {wt} of {w}x{h} {l:?}");
            let mut k = vec![1.0 / (nn as f64 - 1.0 + wt as f64); nn];
            k[nn / 2] *= wt as f64;
            (what.clone(), ok(&what, filter::weighted_avg_filter(&img, n as u32, wt as u32))?, k, 2e-5)
        }
        _ => {
            let sigma = c.int(1, 1600) as f32 / 8.0;
            let what = format!("gaussian_blur {n} sigma {sigma} of {w}x{h} {l:?}");
            (what.clone(), ok(&what, filter::gaussian_blur(&img, n as u32, sigma))?, refs::gauss_kernel(n, sigma as f64), 1e-4)
        }
    };
    // a sum of nn terms of one sign loses at most nn roundings
    filtered(&what, &out, &img, &k, n, n, rel + nn as f64 * 7e-8)?;
    c.label_if(n > 255, "more than 255 rows");
    c.nontrivial(w > 1 && h > 1 && img.data().iter().any(|v| *v != img.data()[0]));
    c.note(|| format!("{what}: {}", show(&img)));
    Ok(())
}

fn c23_sharpen(c: &mut Case) -> R {
    let kind = c.choice(4);
    let l = if kind >= 2 { c.pick(&[GRAY, RGB]) } else { layout_any(c) };
    let (w, h) = fdims(c, 14);
    let img = img_f32(c, w, h, l);
    let (what, out, k, n, rel) = match kind {
        0 => ("sharpen".to_string(), ok("sharpen", filter::sharpen(&img))?, SHARPEN.to_vec(), 3, 3e-6),
        1 => ("unsharp_masking".to_string(), ok("unsharp_masking", filter::unsharp_masking(&img))?, unsharp(), 5, 5e-6),
        2 => ("laplacian".to_string(), ok("laplacian", filter::laplacian(&img))?, LAPLACIAN.to_vec(), 3, 3e-6),
        _ => {
            let n = if w * h <= 16 && c.chance(1, 150) { odd(c, 95) } else { window(c, w, h, 9, 24) };
            let sigma = match c.choice(if n > 30 { 5 } else { 3 }) { 0 => c.int(2, 40) as f32 / 8.0, 1 => c.pick(&[1.0f32, 1.4, 0.5, 0.3, 10.0]), 2 => c.int(30, 400) as f32 / 100.0, _ => c.int(20, 320) as f32 / 8.0 };
            let kk = (n / 2) as f64;
            let k: Vec<f64> = (0..n * n).map(|i| refs::log2d((i % n) as f64 - kk, (i / n) as f64 - kk, sigma as f64)).collect();
            let what = format!("laplacian_of_gaussian {n} sigma {sigma}");
            let even = 2 * c.int(0, 5) as u32;
            is_err(&format!("laplacian_of_gaussian {even}"), || filter::laplacian_of_gaussian(&img, even, sigma))?;
            (what.clone(), ok(&what, filter::laplacian_of_gaussian(&img, n as u32, sigma))?, k, n, 1e-4)
        }
    };
    filtered(&format!("{what} of {w}x{h} {l:?}"), &out, &img, &k, n, n, rel)?;
    let constant = img.data().chunks(l.ch as usize).all(|p| p == px(&img, 0, 0));
    if constant && kind < 3 {
        for (i, (o, v)) in out.data().iter().zip(img.data()).enumerate() {
            let e = if kind < 2 { *v } else { 0.0 };
            ensure!((o - e).abs() <= 1e-5 * v.abs() + 1e-6, "{what} of a constant image: {} is {o}, expected {e}", pos(out.info(), i));
        }
        c.label("constant image");
    }
    c.label(["sharpen", "unsharp", "laplacian", "laplacian of gaussian"][kind as usize]);
    c.nontrivial(w > 1 && h > 1 && !constant);
    c.note(|| format!("{what}: {}", show(&img)));
    Ok(())
}

fn c23_gradient(c: &mut Case) -> R {
    let l = layout_gray(c);
    let (w, h) = fdims(c, 14);
    let img = img_f32(c, w, h, l);
    let kind = c.choice(4);
    let (what, out, kv, kh): (String, _, Vec<f64>, Vec<f64>) = match kind {
        0 => ("prewitt".into(), filter::prewitt(&img), vec![1.0; 3], vec![-1.0, 0.0, 1.0]),
        1 => ("sobel".into(), filter::sobel(&img), vec![1.0, 2.0, 1.0], vec![-1.0, 0.0, 1.0]),
        2 => {
            let wt = if c.chance(1, 50) { c.int(0, 100000) } else if c.chance(1, 50) { c.int(100000, 16_000_000) } else { c.int_special(&[2, 0, 1, 3], 0, 1000) } as u32;
            (format!("sobel_weighted {wt}"), filter::sobel_weighted(&img, wt), vec![1.0, wt as f64, 1.0], vec![-1.0, 0.0, 1.0])
        }
        _ => {
            let n = window(c, w, h, 7, 24);
            let (kv, kh) = (kernel(c, n), kernel(c, n));
            (format!("derivative_mask {kv:?} {kh:?}"), filter::derivative_mask(&img, &kv, &kh), f64s(&kv), f64s(&kh))
        }
    };
    let what = format!("{what} of {w}x{h} {l:?}");
    let out = ok(&what, out)?;
    same_shape(&what, &out, &img)?;
    let n = kv.len();
    let (kx, ky) = (refs::outer(&kv, &kh), refs::outer(&kh, &kv));
    let a = max_abs(&drop_alpha(&img));
    let tol = 1e-5 * l1(&kx) * a + 1e-5;
    for y in 0..h as usize {
        for x in 0..w as usize {
            let gx = refs::conv_at(&img, x, y, 0, &kx, n, n).0;
            let gy = refs::conv_at(&img, x, y, 0, &ky, n, n).0;
            let e = (gx * gx + gy * gy).sqrt();
            let o = at(&out, x, y, 0) as f64;
            ensure!((o - e).abs() <= tol, "{what}: pixel ({x}, {y}) is {o}, expected the magnitude {e} of ({gx}, {gy})");
            if l.alpha {
                ensure!(at(&out, x, y, 1).to_bits() == at(&img, x, y, 1).to_bits(), "{what}: alpha of ({x}, {y}) changes from {} to {}", at(&img, x, y, 1), at(&out, x, y, 1));
            }
        }
    }
    // images that are not grayscale
    let bad = loop {
        let b = layout_any(c);
        if b != GRAY && b != GRAYA {
            break b;
        }
        if c.trace.len() > 20000 {
            break RGB;
        }
    };
    let wrong = img_f32(c, 3, 2, bad);
    is_err(&format!("prewitt of {bad:?}"), || filter::prewitt(&wrong))?;
    is_err(&format!("sobel of {bad:?}"), || filter::sobel(&wrong))?;
    is_err(&format!("sobel_weighted of {bad:?}"), || filter::sobel_weighted(&wrong, 2))?;
    is_err(&format!("derivative_mask of {bad:?}"), || filter::derivative_mask(&wrong, &[1.0, 1.0, 1.0], &[1.0, 0.0, 1.0]))?;
    is_err(&format!("normalize_laplacian of {bad:?}"), || filter::normalize_laplacian(&wrong))?;
    let flat = img.data().chunks(l.ch as usize).all(|p| p[0] == img.data()[0]);
    c.label(["prewitt", "sobel", "sobel_weighted", "derivative_mask"][kind as usize]);
    c.label_if(l.alpha, "with alpha");
    c.nontrivial(w > 1 && h > 1 && !flat);
    c.note(|| format!("{what}: {}", show(&img)));
    Ok(())
}

fn transpose(i: &F) -> F {
    let (w, h) = i.info().wh();
    let mut d = vec![];
    for x in 0..w as usize {
        for y in 0..h as usize {
            d.extend_from_slice(px(i, x, y));
        }
    }
    mk(h, w, lay(i), d)
}

fn c23_symmetry(c: &mut Case) -> R {
    let l = layout_gray(c);
    let (w, h) = if c.chance(1, 40) { dims_large(c) } else { dims(c, 70) };
    let img = img_f32(c, w, h, l);
    let kind = c.choice(3);
    let run = |i: &F| match kind {
        0 => ok("prewitt", filter::prewitt(i)),
        1 => ok("sobel", filter::sobel(i)),
        _ => ok("sobel_weighted", filter::sobel_weighted(i, 5)),
    };
    let out = run(&img)?;
    let tol = 1e-4 * max_abs(&img) + 1e-5;
    let sym = |name: &str, a: F, b: F| -> R {
        for i in 0..a.data().len() {
            ensure!((a.data()[i] - b.data()[i]).abs() as f64 <= tol, "gradient {kind} of {w}x{h}, {name}: {} is {} or {}", pos(a.info(), i), a.data()[i], b.data()[i]);
        }
        Ok(())
    };
    sym("transposed", transpose(&out), run(&transpose(&img))?)?;
    let r = |i: &F, v: bool| ok("reflect", transform::reflect(i, if v { Refl::Vertical } else { Refl::Horizontal }));
    for v in [false, true] {
        sym("reflected", r(&out, v)?, run(&r(&img, v)?)?)?;
    }
    c.nontrivial(w > 1 && h > 1);
    c.note(|| format!("gradient {kind}: {}", show(&img)));
    Ok(())
}

fn c23_normalize(c: &mut Case) -> R {
    let (w, h) = dims(c, 14);
    let mut img = img_f32(c, w, h, GRAY);
    if img.data().iter().all(|v| *v == img.data()[0]) {
        if w * h < 2 {
            return Ok(());
        }
        let i = c.choice((w * h) as u64) as usize;
        img.data_mut()[i] += 1.0;
    }
    if c.bool() {
        img = ok("laplacian", filter::laplacian(&img))?;
        if img.data().iter().all(|v| *v == img.data()[0]) {
            return Ok(());
        }
    }
    let lo = img.data().iter().fold(f64::MAX, |m, v| m.min(*v as f64));
    let hi = img.data().iter().fold(f64::MIN, |m, v| m.max(*v as f64));
    if hi - lo < 1e-3 * (hi.abs() + lo.abs()) {
        return Ok(());
    }
    let out = ok("normalize_laplacian", filter::normalize_laplacian(&img))?;
    same_shape("normalize_laplacian", &out, &img)?;
    for (i, o) in out.data().iter().enumerate() {
        let v = img.data()[i] as f64;
        let e = 255.0 * (v - lo) / (hi - lo);
        let slack = 1e-3 + 1e-4 * (hi.abs() + lo.abs()) / (hi - lo);
        ensure!((*o as f64 - e).abs() <= 0.5 + slack, "normalize_laplacian of {lo}..{hi}: {} with value {v} is {o}, expected {e}", pos(out.info(), i));
        ensure!(v != lo || *o == 0, "normalize_laplacian: the smallest value {v} becomes {o}");
        ensure!(v != hi || *o == 255, "normalize_laplacian: the largest value {v} becomes {o}");
    }
    c.nontrivial(w * h > 2 && lo < 0.0);
    c.note(|| show(&img));
    Ok(())
}

// ---------------------------------------------------------------- C24

fn c24_threshold(c: &mut Case) -> R {
    let l = layout_gray(c);
    let (w, h) = if c.chance(1, 150) { dims_wide(c) } else if c.chance(1, 3000) { dims_large(c) } else { dims(c, 20) };
    let img = img_f32(c, w, h, l);
    let n = img.data().len();
    let t = match c.choice(4) {
        0 => { let i = c.choice(n as u64) as usize; img.data()[i] }
        1 => c.pick(&[0.0f32, 255.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, 127.5, f32::MAX]),
        2 => {
            let i = c.choice(n as u64) as usize;
            let v = img.data()[i];
            f32::from_bits((v.to_bits() as i64 + c.pick(&[-1i64, 1])).clamp(0, 0xff000000) as u32)
        }
        _ => c.int(0, 255) as f32,
    };
    let max = c.pick(&[255.0f32, 1.0, 0.0, -5.0, 1000.5, 128.0]);
    let m = c.choice(5);
    let what = format!("threshold {t} max {max} method {m} of {w}x{h} {l:?}");
    let out = ok(&what, filter::threshold(&img, t, max, thresh(m)))?;
    same_shape(&what, &out, &img)?;
    let ch = l.ch as usize;
    let mut above = 0;
    for (i, (o, v)) in out.data().iter().zip(img.data()).enumerate() {
        if l.alpha && i % ch == ch - 1 {
            ensure!(o.to_bits() == v.to_bits(), "{what}: alpha at {} changes from {v} to {o}", pos(out.info(), i));
            continue;
        }
        let g = *v > t;
        above += g as usize;
        let e = match m {
            0 => if g { max } else { 0.0 },
            1 => if g { 0.0 } else { max },
            2 => if g { t } else { *v },
            3 => if g { *v } else { 0.0 },
            _ => if g { 0.0 } else { *v },
        };
        ensure!(*o == e, "{what}: {} with value {v} becomes {o}, expected {e}", pos(out.info(), i));
    }
    let bad = layout_any(c);
    if bad != GRAY && bad != GRAYA {
        let wrong = img_f32(c, 2, 3, bad);
        is_err(&format!("threshold of {bad:?}"), || filter::threshold(&wrong, t, max, thresh(m)))?;
    }
    let colour = n / ch;
    c.label_if(img.data().iter().any(|v| *v == t), "a sample equals the threshold");
    c.nontrivial(above > 0 && above < colour);
    c.note(|| format!("{what}: {}", show(&img)));
    Ok(())
}

fn residual_t<T: Number + std::fmt::Debug>(c: &mut Case, l: Layout, w: u32, h: u32, pairs: Vec<(T, T)>, sub: fn(T, T) -> T) -> R {
    let a = mk(w, h, l, pairs.iter().map(|p| p.0).collect::<Vec<T>>());
    let b = mk(w, h, l, pairs.iter().map(|p| p.1).collect::<Vec<T>>());
    let what = format!("residual of {w}x{h} {l:?}");
    let out = ok(&what, filter::residual(&a, &b))?;
    same_shape(&what, &out, &a)?;
    eq_data(&what, &out, &pairs.iter().map(|p| sub(p.0, p.1)).collect::<Vec<T>>())?;
    // different shapes
    let zero: T = 0.into();
    let (w2, h2, l2) = match c.choice(5) {
        0 => (w + 1, h, l),
        1 => (w, h + 1, l),
        2 => (w, h, Layout { ch: if l.ch == 255 { 254 } else { l.ch + 1 }, alpha: l.alpha }),
        3 => (w, h, Layout { ch: l.ch, alpha: !l.alpha }),
        _ => if w != h { (h, w, l) } else { (w + 2, h, l) },
    };
    let other: Image<T> = mk(w2, h2, l2, vec![zero; count(w2, h2, l2)]);
    let what = format!("residual of {w}x{h} {l:?} and {w2}x{h2} {l2:?}");
    is_err(&what, || filter::residual(&a, &other))?;
    let blank: Image<T> = mk(w, h, l, vec![zero; count(w, h, l)]);
    let r = ok("residual", filter::residual(&a, &blank))?;
    same_image("residual against a blank image", &r, &a)?;
    c.nontrivial(w * h > 1 && pairs.iter().any(|p| p.0 != p.1));
    c.note(|| format!("{} minus {}", show(&a), show(&b)));
    Ok(())
}

fn c24_residual(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 3000) { dims_large(c) } else { dims(c, 16) };
    let n = count(w, h, l);
    match c.choice(3) {
        0 => {
            let a = u8s(c, n);
            let b = u8s(c, n);
            let p = a.iter().zip(&b).map(|(x, y)| ((*x).max(*y), (*x).min(*y))).collect();
            residual_t::<u8>(c, l, w, h, p, |a, b| a - b)
        }
        1 => {
            let a = f32s(c, n);
            let b = f32s(c, n);
            residual_t::<f32>(c, l, w, h, a.into_iter().zip(b).collect(), |a, b| a - b)
        }
        _ => {
            let a = u8s(c, n);
            let b = u8s(c, n);
            residual_t::<i32>(c, l, w, h, a.iter().zip(&b).map(|(x, y)| (*x as i32 * 3, *y as i32 * 257)).collect(), |a, b| a - b)
        }
    }
}

// ---------------------------------------------------------------- C27

fn c27(c: &mut Case) -> R {
    let l = layout_rgb(c);
    let (w, h) = if c.chance(1, 150) { dims_wide(c) } else if c.chance(1, 10000) { dims_large(c) } else { dims(c, 9) };
    let img = img_u8(c, w, h, l);
    let range = match c.choice(4) { 0 => c.int(1, 40) as f32, 1 => c.pick(&[0.05f32, 0.5, 10.0, 100.0, 1000.0, 1e6, 1e-3, 1e-25, 1e12, 1e25, f32::MAX]), _ => c.int(5, 4000) as f32 / 100.0 };
    let spatial = match c.choice(4) { 0 => c.pick(&[1.0f32, 0.5, 0.25, 2.0, 0.75, 1.25, 0.1, 1e-25]), 1 => c.int(5, 300) as f32 / 100.0, 2 => c.int(1, 12) as f32 / 4.0, _ => c.int(5, if c.depth > 1 { 600 } else { 200 }) as f32 / 100.0 };
    let spatial = if w * h > 3000 { spatial.min(0.6) } else if w * h > 200 { spatial.min(1.6) } else if w * h <= 4 && c.chance(1, 400) { c.int(160, 320) as f32 / 4.0 } else if w * h <= 16 && c.chance(1, 100) { c.int(5, 40) as f32 } else { spatial };
    let size = (spatial as f64 * 4.0 + 1.0).floor() as usize;
    let what = format!("bilateral_filter range {range} spatial {spatial} of {w}x{h} {l:?}");
    let out = ok(&what, filter::bilateral_filter(&img, range, spatial, Bilateral::Direct))?;
    same_shape(&what, &out, &img)?;
    // Lab image
    let lab: Vec<[f64; 3]> = img.data().chunks(l.ch as usize).map(|p| refs::srgb_to_lab([p[0], p[1], p[2]], false)).collect();
    let half = (size / 2) as i64;
    let mut spat = vec![0.0; size * size];
    for j in 0..size {
        for i in 0..size {
            let (dx, dy) = (i as f64 - half as f64, j as f64 - half as f64);
            spat[j * size + i] = (-(dx * dx + dy * dy) / (2.0 * (spatial as f64).powi(2))).exp();
        }
    }
    let mut changed = 0;
    for y in 0..h as i64 {
        for x in 0..w as i64 {
            let me = lab[(y * w as i64 + x) as usize];
            let mut m = [0.0; 3];
            for k in 0..3 {
                let (mut s, mut t) = (0.0, 0.0);
                for j in 0..size as i64 {
                    for i in 0..size as i64 {
                        let (a, b) = ((x + i - half).clamp(0, w as i64 - 1), (y + j - half).clamp(0, h as i64 - 1));
                        let v = lab[(b * w as i64 + a) as usize][k];
                        let d = v - me[k];
                        let g = spat[(j * size as i64 + i) as usize] * (-(d * d) / (2.0 * (range as f64).powi(2))).exp();
                        s += g * v;
                        t += g;
                    }
                }
                m[k] = s / t;
            }
            let e = refs::lab_to_srgb(m, false);
            for k in 0..3 {
                let o = at(&out, x as usize, y as usize, k);
                let r = e[k].clamp(0.0, 255.0).round();
                ensure!((o as f64 - r).abs() <= 1.0, "{what}: pixel ({x}, {y}) channel {k} is {o}, expected {:.3}", e[k]);
                changed += (o != at(&img, x as usize, y as usize, k)) as usize;
            }
        }
    }
    c.label_if(size % 2 == 0, "even window");
    c.label_if(size as u32 > w.min(h), "window larger than the image");
    c.nontrivial(size > 1 && changed > 0);
    c.note(|| format!("range {range} spatial {spatial} window {size}: {}", show(&img)));
    Ok(())
}

fn c27_params(c: &mut Case) -> R {
    let l = layout_rgb(c);
    let (w, h) = (c.int(1, 4) as u32, c.int(1, 4) as u32);
    // any positive parameters: no panic
    let p = |c: &mut Case, hi: i64| match c.choice(4) {
        0 => c.pick(&[1e-30f32, 1e-6, 1e-3, f32::MIN_POSITIVE, 0.01]),
        1 => c.int(1, hi * 100) as f32 / 100.0,
        2 => c.int(1, hi * 7) as f32 / 7.0,
        _ => c.int(1, hi) as f32,
    };
    let big = c.pick(&[1.0f32, 1e10, f32::MAX, 0.2]);
    let (range, spatial) = (p(c, 50) * big, p(c, 12));
    let img = img_u8(c, w, h, l);
    let what = format!("bilateral_filter range {range} spatial {spatial} of {w}x{h} {l:?}");
    let out = guarded(|| filter::bilateral_filter(&img, range, spatial, Bilateral::Direct)).map_err(|p| format!("{what} panics: {p}"))?;
    let out = ok(&what, out)?;
    same_shape(&what, &out, &img)?;
    // constant images stay as they are
    let v: Vec<u8> = (0..l.ch).map(|_| c.u8()).collect();
    let flat = mk(w, h, l, (0..count(w, h, l)).map(|i| v[i % v.len()]).collect::<Vec<u8>>());
    let (r2, s2) = if c.chance(1, 4) {
        let tiny = c.pick(&[1e-30f32, 1e-21, 1e-12, 1e-6, f32::MIN_POSITIVE, 0.01]);
        let huge = c.pick(&[1e10f32, 1e20, 1e30, f32::MAX]);
        match c.choice(3) { 0 => (tiny, c.int(1, 24) as f32 / 8.0), 1 => (huge, c.int(1, 24) as f32 / 8.0), _ => (c.int(1, 400) as f32 / 8.0, tiny) }
    } else {
        (c.int(1, 400) as f32 / 8.0, c.int(1, 24) as f32 / 8.0)
    };
    let out = ok("bilateral_filter", filter::bilateral_filter(&flat, r2, s2, Bilateral::Direct))?;
    for (i, (o, e)) in out.data().iter().zip(flat.data()).enumerate() {
        if l.alpha && i % 4 == 3 {
            continue;
        }
        ensure!(o == e, "bilateral_filter range {r2} spatial {s2} of constant {v:?} {w}x{h}: {} is {o}", pos(out.info(), i));
    }
    let neg = -p(c, 10);
    is_err(&format!("bilateral_filter range {neg}"), || filter::bilateral_filter(&img, neg, 1.0, Bilateral::Direct))?;
    is_err(&format!("bilateral_filter spatial {neg}"), || filter::bilateral_filter(&img, 1.0, neg, Bilateral::Direct))?;
    c.nontrivial(w * h > 1);
    c.note(|| format!("range {range} spatial {spatial}; constant {v:?} range {r2} spatial {s2}; negative {neg}"));
    Ok(())
}

pub fn defs() -> Vec<PropertyDef> {
    vec![
        PropertyDef {
            id: "C21",
            rule: "random images and kernels (smaller and larger than the image, outer products, single rows) against the kernel sum in f64 with clamped coordinates; linearity and reflection on large images; with and without multithreading; non-trivial: more than one row, column and kernel entry (and differing factors)",
            subs: vec![sub("filter_1d", c21_1d, 540000, 8100000), sub("separable", c21_separable, 360000, 5400000), sub("square", c21_2d, 130000, 1950000), sub("apply", c21_apply, 1400000, 21000000), sub("laws", c21_laws, 4400, 66000), sub("far", c21_far, 1200, 18000)],
        },
        PropertyDef {
            id: "C22",
            rule: "random images, odd sizes, weights and sigmas against the window mean in f64; range of the input; with and without multithreading; non-trivial: a window larger than one pixel on an image with differing samples",
            subs: vec![sub("smooth", c22, 1200000, 18000000), sub("far", c22_far, 4000, 60000)],
        },
        PropertyDef {
            id: "C23",
            rule: "random images against the published masks in f64, gradient magnitudes, symmetry under reflection and transposition, normalised extremes; with and without multithreading; non-trivial: more than one row and column with differing samples (negative values for normalising)",
            subs: vec![sub("sharpen", c23_sharpen, 330000, 4950000), sub("gradient", c23_gradient, 470000, 7050000), sub("symmetry", c23_symmetry, 5700, 85500), sub("normalize", c23_normalize, 1500000, 22500000)],
        },
        PropertyDef {
            id: "C24",
            rule: "random grayscale images, thresholds at, next to and away from samples, five methods, against the documented rule; residuals of three channel types; non-trivial: samples on both sides of the threshold, images that differ",
            subs: vec![sub("threshold", c24_threshold, 1500000, 22500000), sub("residual", c24_residual, 1500000, 22500000)],
        },
        PropertyDef {
            id: "C27",
            rule: "random RGB(A) images, ranges and spatial parameters (odd and even windows) against the weighted mean in Lab in f64; extreme positive parameters; with and without multithreading; non-trivial: a window larger than one pixel that changes the image, several pixels (parameters)",
            subs: vec![sub("direct", c27, 280000, 4200000), sub("parameters", c27_params, 140000, 2100000)],
        },
    ]
}
