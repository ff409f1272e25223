//! C06..C09, C13, C14, C33: tone operations

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::props::p_color::wh;
use crate::refs;
use imgproc_rs::colorspace as cs;
use imgproc_rs::enums::{Thresh, White};
use imgproc_rs::filter;
use imgproc_rs::image::{BaseImage, Image};
use imgproc_rs::{tone, util};
use std::collections::{BTreeMap, HashMap};

pub fn ok<T, E: std::fmt::Debug>(what: &str, r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{what} fails: {e:?}"))
}

pub fn is_err<T, E>(what: &str, f: impl FnOnce() -> Result<T, E>) -> R {
    match guarded(f) {
        Err(p) => Err(format!("{what} panics instead of returning an error: {p}")),
        Ok(Ok(_)) => Err(format!("{what} is accepted")),
        Ok(Err(_)) => Ok(()),
    }
}

pub fn is_ok<T, E: std::fmt::Debug>(what: &str, f: impl FnOnce() -> Result<T, E>) -> R {
    match guarded(f) {
        Err(p) => Err(format!("{what} panics: {p}")),
        Ok(Err(e)) => Err(format!("{what} is rejected: {e:?}")),
        Ok(Ok(_)) => Ok(()),
    }
}

fn bias(c: &mut Case) -> i16 {
    c.int_special(&[0, 1, -1, 255, -255, 254, -254, 127, 128, -128, 129], -255, 255) as i16
}

/// Any i16 outside -255..=255
pub fn bad_bias(c: &mut Case) -> i16 {
    match c.choice(4) {
        0 => c.pick(&[256i16, -256, i16::MAX, i16::MIN, i16::MIN + 1, 257, 511, 512]),
        1 => c.int(256, 600) as i16,
        2 => c.int(-600, -256) as i16,
        _ => { let v = c.int(256, 32768); if c.bool() { (-v) as i16 } else { v.min(32767) as i16 } }
    }
}

fn adds(img: &U, b: i16) -> Vec<u8> {
    let l = lay(img);
    let ch = l.ch as usize;
    img.data().iter().enumerate().map(|(i, v)| if l.alpha && i % ch == ch - 1 { *v } else { (*v as i32 + b as i32).clamp(0, 255) as u8 }).collect()
}

fn c06_body(c: &mut Case, large: bool) -> R {
    let l = layout_any(c);
    let (w, h) = if large { dims_large(c) } else { dims(c, 40) };
    let img = img_u8(c, w, h, l);
    let b = bias(c);
    let out = ok("brightness", tone::brightness(&img, b))?;
    same_shape("brightness", &out, &img)?;
    let exp = adds(&img, b);
    eq_data(&format!("brightness {b} of {w}x{h} {l:?}"), &out, &exp)?;
    if c.aside() {
        let bad = bad_bias(c);
        is_err(&format!("brightness {bad}"), || tone::brightness(&img, bad))?;
    }
    #[cfg(all(feature = "simd", target_arch = "x86_64"))]
    if is_x86_feature_detected!("avx2") {
        let out = unsafe { imgproc_rs::simd::adds_256_u8(&img, b) };
        same_shape("adds_256_u8", &out, &img)?;
        eq_data(&format!("adds_256_u8 {b} of {w}x{h} {l:?}"), &out, &exp)?;
    }
    let n = img.data().len();
    c.label_if(n % 32 != 0, "length not a multiple of 32");
    c.label_if(n >= 32, "at least one vector");
    c.label_if(exp.iter().zip(img.data()).any(|(a, b2)| (*a as i32 - *b2 as i32).abs() != (b as i32).abs()), "saturates or skips alpha");
    c.nontrivial(b != 0 && n > 32);
    c.note(|| format!("bias {b} {}", show(&img)));
    Ok(())
}

fn c06(c: &mut Case) -> R {
    c06_body(c, false)
}
fn c06_large(c: &mut Case) -> R {
    c06_body(c, true)
}

fn c07_body(c: &mut Case, large: bool) -> R {
    let l = layout_rgb(c);
    let (w, h) = if large { dims_large(c) } else { dims(c, 40) };
    let img = img_u8(c, w, h, l);
    let s = bias(c);
    let ch = l.ch as usize;
    let out = ok("saturation", tone::saturation(&img, s))?;
    same_shape("saturation", &out, &img)?;
    let mut hsv = cs::rgb_to_hsv(&img).data().to_vec();
    for p in hsv.chunks_mut(ch) {
        p[1] = (p[1] as i32 + s as i32).clamp(0, 255) as u8;
    }
    let exp = cs::hsv_to_rgb(&mk(w, h, l, hsv));
    eq_data(&format!("saturation {s} of {w}x{h} {l:?}"), &out, exp.data())?;
    if l.alpha {
        for (i, (p, q)) in img.data().chunks(4).zip(out.data().chunks(4)).enumerate() {
            ensure!(p[3] == q[3], "saturation {s}: alpha of pixel {i} changes from {} to {}", p[3], q[3]);
        }
    }
    if c.aside() {
        let bad = bad_bias(c);
        is_err(&format!("saturation {bad}"), || tone::saturation(&img, bad))?;
    }
    c.label_if(w * h * l.ch as u32 % 32 != 0, "partial last vector");
    c.nontrivial(s != 0 && exp.data() != img.data());
    c.note(|| format!("saturation {s} {}", show(&img)));
    Ok(())
}

fn c07(c: &mut Case) -> R {
    c07_body(c, false)
}
fn c07_large(c: &mut Case) -> R {
    c07_body(c, true)
}

/// The vector routine itself (SIMD configurations only)
#[allow(unused_variables)]
fn c07_vector(c: &mut Case) -> R {
    let l = layout_rgb(c);
    let (w, h) = if c.chance(1, 60) { dims_large(c) } else { dims(c, 40) };
    let img = img_u8(c, w, h, l);
    let s = bias(c);
    let n = c.pick(&[0u8, 1, 2, 3, 4, 5, 16, 255]);
    let ch = l.ch as usize;
    #[cfg(all(feature = "simd", target_arch = "x86_64"))]
    if is_x86_feature_detected!("avx2") {
        let out = unsafe { imgproc_rs::simd::adds_n_256_u8(&img, s, n) };
        same_shape("adds_n_256_u8", &out, &img)?;
        let exp: Vec<u8> = img.data().iter().enumerate().map(|(i, v)| if n as usize >= ch || i % ch == n as usize { (*v as i32 + s as i32).clamp(0, 255) as u8 } else { *v }).collect();
        eq_data(&format!("adds_n_256_u8 {s} to channel {n} of {w}x{h} {l:?}"), &out, &exp)?;
    }
    c.label_if(n as usize >= ch, "invalid channel number");
    c.nontrivial(s != 0 && img.data().len() > 32);
    c.note(|| format!("{s} to channel {n} of {}", show(&img)));
    Ok(())
}

fn c08_body(c: &mut Case, large: bool) -> R {
    let l = layout_rgb(c);
    let (w, h) = if large { dims_large(c) } else { dims(c, 70) };
    let img = if c.chance(1, 6) {
        // equal colour channels
        let n = (w * h) as usize;
        let g = u8s(c, n);
        let mut d = Vec::new();
        for v in g {
            d.extend_from_slice(&[v, v, v]);
            if l.alpha {
                d.push(v.wrapping_mul(3));
            }
        }
        c.label("gray input");
        mk(w, h, l, d)
    } else {
        img_u8(c, w, h, l)
    };
    let out_l = if l.alpha { GRAYA } else { GRAY };
    let ch = l.ch as usize;
    let mut exp = Vec::new();
    for p in img.data().chunks(ch) {
        exp.push(((p[0] as u32 + p[1] as u32 + p[2] as u32) / 3) as u8);
        if l.alpha {
            exp.push(p[3]);
        }
    }
    let out = cs::rgb_to_grayscale(&img);
    shape("rgb_to_grayscale", &out, w, h, out_l)?;
    eq_data(&format!("rgb_to_grayscale of {w}x{h} {l:?}"), &out, &exp)?;
    #[cfg(all(feature = "simd", target_arch = "x86_64"))]
    if is_x86_feature_detected!("avx2") {
        let out = imgproc_rs::simd::avg_checked_256_u8(&img);
        shape("avg_checked_256_u8", &out, w, h, out_l)?;
        eq_data(&format!("avg_checked_256_u8 of {w}x{h} {l:?}"), &out, &exp)?;
        let out = unsafe { if l.alpha { imgproc_rs::simd::avg_alpha_256_u8(&img) } else { imgproc_rs::simd::avg_256_u8(&img) } };
        shape("avg_256_u8", &out, w, h, out_l)?;
        eq_data(&format!("avg_256_u8 of {w}x{h} {l:?}"), &out, &exp)?;
    }
    // f32
    let f: F = if c.bool() { img.clone().into() } else { img_f32(c, w, h, l) };
    let out = cs::rgb_to_grayscale_f32(&f);
    shape("rgb_to_grayscale_f32", &out, w, h, out_l)?;
    let mut exp = Vec::new();
    for p in f.data().chunks(ch) {
        let m = p[0].abs() as f64 + p[1].abs() as f64 + p[2].abs() as f64;
        exp.push(((p[0] as f64 + p[1] as f64 + p[2] as f64) / 3.0, 1e-6 * m));
        if l.alpha {
            exp.push((p[3] as f64, 0.0));
        }
    }
    close_data("rgb_to_grayscale_f32", &out, &exp)?;
    c.label_if((w * h) % 32 != 0, "partial last vector");
    c.nontrivial(w * h >= 32);
    c.note(|| show(&img));
    Ok(())
}

fn c08(c: &mut Case) -> R {
    c08_body(c, false)
}
fn c08_large(c: &mut Case) -> R {
    c08_body(c, true)
}

/// The separating loads (SIMD configurations only)
#[allow(unused_variables)]
fn c08_deinterleave(c: &mut Case) -> R {
    let l = layout_rgb(c);
    let n = 32 + c.choice(40) as u32;
    let img = img_u8(c, n, 1, l);
    let ch = l.ch as usize;
    let start = c.choice((n - 32) as u64 + 1) as usize;
    #[cfg(all(feature = "simd", target_arch = "x86_64"))]
    if is_x86_feature_detected!("avx2") {
        let bytes = |v: std::arch::x86_64::__m256i| -> [u8; 32] { unsafe { std::mem::transmute(v) } };
        let got: Vec<[u8; 32]> = unsafe {
            if l.alpha {
                let (r, g, b, a) = imgproc_rs::simd::deinterleave_4_256_u8(&img, start * ch);
                vec![bytes(r), bytes(g), bytes(b), bytes(a)]
            } else {
                let (r, g, b) = imgproc_rs::simd::deinterleave_3_256_u8(&img, start * ch);
                vec![bytes(r), bytes(g), bytes(b)]
            }
        };
        for k in 0..ch {
            for i in 0..32 {
                let e = img.data()[(start + i) * ch + k];
                ensure!(got[k][i] == e, "channel {k} of pixel {i} after {start} is {}, expected {e}", got[k][i]);
            }
        }
    }
    c.nontrivial(start > 0);
    c.note(|| format!("from pixel {start} of {}", show(&img)));
    Ok(())
}

// ---------------------------------------------------------------- C09

pub fn gain(c: &mut Case) -> f32 {
    match c.choice(4) {
        0 => c.pick(&[1.0f32, 0.0, 0.5, 1e-3, 0.999999, 1.0 - f32::EPSILON, f32::MIN_POSITIVE]),
        1 => c.choice(101) as f32 / 100.0,
        2 => c.choice(257) as f32 / 256.0,
        _ => c.choice(1 << 24) as f32 / (1 << 24) as f32,
    }
}

fn c09_contrast(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 60) { dims_large(c) } else { dims(c, 30) };
    let img = img_u8(c, w, h, l);
    let ch = l.ch as usize;
    let g = gain(c);
    let out = ok("contrast", tone::contrast(&img, g))?;
    same_shape("contrast", &out, &img)?;
    for (i, (a, b)) in img.data().iter().zip(out.data()).enumerate() {
        if l.alpha && i % ch == ch - 1 {
            ensure!(a == b, "contrast {g}: alpha changes from {a} to {b}");
        } else {
            rounded(&format!("contrast {g} of {a}"), out.info(), i, *b, *a as f64 * g as f64, 1e-4)?;
        }
    }
    if c.aside() {
        let one = ok("contrast", tone::contrast(&img, 1.0))?;
        same_image("contrast 1", &one, &img)?;
        let bad = match c.choice(3) {
            0 => -(c.int(1, 1000) as f32) / 100.0,
            1 => 1.0 + c.int(1, 1000) as f32 / 100.0,
            _ => c.pick(&[1.0 + f32::EPSILON, -f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN]),
        };
        is_err(&format!("contrast {bad}"), || tone::contrast(&img, bad))?;
    }
    c.nontrivial(g > 0.0 && g < 1.0);
    c.label_if(l.alpha, "alpha");
    c.note(|| format!("gain {g} {}", show(&img)));
    Ok(())
}

fn c09_gamma(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 100) { dims_large(c) } else { dims(c, 30) };
    let img = img_u8(c, w, h, l);
    let ch = l.ch as usize;
    let g = match c.choice(5) {
        0 => c.pick(&[1.0f32, 0.0, 2.2, 0.45454545, 2.0, 0.5, 1.0 / 3.0]),
        1 => c.choice(60) as f32,
        2 => c.choice(1000) as f32 / 1000.0,
        _ => c.choice(5000) as f32 / 1000.0,
    };
    let max = c.int_special(&[255, 1, 2, 128, 254], 1, 255) as u8;
    let out = ok("gamma", tone::gamma(&img, g, max))?;
    same_shape("gamma", &out, &img)?;
    let m = max as f64;
    for (i, (a, b)) in img.data().iter().zip(out.data()).enumerate() {
        if l.alpha && i % ch == ch - 1 {
            ensure!(a == b, "gamma {g}: alpha changes from {a} to {b}");
        } else {
            let e = (*a as f64 / m).powf(g as f64) * m;
            rounded(&format!("gamma {g} with maximum {max} of {a}"), out.info(), i, *b, e, 1e-4 + e.min(300.0) * 1e-6 * (1.0 + g as f64))?;
        }
    }
    if c.aside() {
        let one = ok("gamma", tone::gamma(&img, 1.0, max))?;
        same_image("gamma 1", &one, &img)?;
        let bad = match c.choice(2) {
            0 => -(c.int(1, 1000) as f32) / 100.0,
            _ => c.pick(&[-f32::EPSILON, f32::NEG_INFINITY, f32::MIN]),
        };
        is_err(&format!("gamma {bad}"), || tone::gamma(&img, bad, max))?;
    }
    c.label_if(img.data().iter().any(|v| *v > max), "samples above the maximum");
    c.nontrivial(g > 0.0 && g != 1.0);
    c.note(|| format!("gamma {g} max {max} {}", show(&img)));
    Ok(())
}

// ---------------------------------------------------------------- C13

fn lab_shift(what: &str, img: &U, out: &U, d50: bool, f: &dyn Fn(f64) -> f64) -> R {
    let ch = img.info().channels as usize;
    same_shape(what, out, img)?;
    for (i, (p, q)) in img.data().chunks(ch).zip(out.data().chunks(ch)).enumerate() {
        let mut lab = refs::srgb_to_lab([p[0], p[1], p[2]], d50);
        lab[0] = f(lab[0]);
        let e = refs::lab_to_srgb(lab, d50);
        for k in 0..3 {
            rounded(&format!("{what} of {p:?}"), img.info(), i * ch + k, q[k], e[k], 0.06)?;
        }
        ensure!(ch < 4 || p[3] == q[3], "{what}: alpha changes from {} to {}", p[3], q[3]);
    }
    Ok(())
}

fn c13(c: &mut Case) -> R {
    let l = layout_rgb(c);
    let (w, h) = if c.chance(1, 3000) { dims_large(c) } else if c.chance(1, 60) { dims_wide(c) } else { dims(c, 16) };
    let img = img_u8(c, w, h, l);
    let b = bias(c);
    let out = ok("brightness_lab", tone::brightness_lab(&img, b))?;
    lab_shift(&format!("brightness_lab {b}"), &img, &out, true, &|x| x + b as f64 / 255.0 * 100.0)?;
    let g = gain(c);
    let out = ok("contrast_lab", tone::contrast_lab(&img, g))?;
    lab_shift(&format!("contrast_lab {g}"), &img, &out, true, &|x| x * g as f64)?;
    if c.aside() {
        same_image("brightness_lab 0", &ok("brightness_lab", tone::brightness_lab(&img, 0))?, &img)?;
        same_image("contrast_lab 1", &ok("contrast_lab", tone::contrast_lab(&img, 1.0))?, &img)?;
        let bad = bad_bias(c);
        is_err(&format!("brightness_lab {bad}"), || tone::brightness_lab(&img, bad))?;
        let bad = c.pick(&[-0.001f32, 1.001, 2.0, -1.0, f32::INFINITY, f32::NEG_INFINITY]);
        is_err(&format!("contrast_lab {bad}"), || tone::contrast_lab(&img, bad))?;
    }
    c.label_if(l.alpha, "alpha");
    c.nontrivial(b != 0 && g > 0.0 && g < 1.0);
    c.note(|| format!("bias {b} gain {g} {}", show(&img)));
    Ok(())
}

fn c13_gray(c: &mut Case) -> R {
    // all 256 gray values at once; results may not decrease as the parameter grows
    let l = layout_rgb(c);
    let mut d = Vec::new();
    for v in 0..=255u8 {
        d.extend_from_slice(&[v, v, v]);
        if l.alpha {
            d.push(255 - v);
        }
    }
    let img = mk(64, 4, l, d);
    let b1 = c.int(-255, 254) as i16;
    let b2 = c.int(b1 as i64, 255) as i16;
    let o1 = ok("brightness_lab", tone::brightness_lab(&img, b1))?;
    let o2 = ok("brightness_lab", tone::brightness_lab(&img, b2))?;
    for i in 0..o1.data().len() {
        ensure!(o1.data()[i] <= o2.data()[i], "brightness_lab: {} is {} with bias {b1} but {} with bias {b2}", img.data()[i], o1.data()[i], o2.data()[i]);
    }
    let g1 = gain(c);
    let g2 = gain(c);
    let (g1, g2) = if g1 <= g2 { (g1, g2) } else { (g2, g1) };
    let o1 = ok("contrast_lab", tone::contrast_lab(&img, g1))?;
    let o2 = ok("contrast_lab", tone::contrast_lab(&img, g2))?;
    for i in 0..o1.data().len() {
        ensure!(o1.data()[i] <= o2.data()[i] || g2 - g1 < 1e-5, "contrast_lab: {} is {} with gain {g1} but {} with gain {g2}", img.data()[i], o1.data()[i], o2.data()[i]);
    }
    c.nontrivial(b1 < b2);
    c.note(|| format!("bias {b1} {b2} gain {g1} {g2}"));
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14_percentiles(c: &mut Case) -> R {
    let ch = c.pick(&[3u8, 4, 1]);
    let l = Layout { ch, alpha: ch == 4 };
    let (w, h) = if c.chance(1, 100) { dims_large(c) } else { dims(c, 20) };
    let n = (w * h) as usize;
    let precision = c.pick(&[1.0f32, 10.0, 0.5, 255.0, 100.0, 0.0, 2.55, 1000.0]);
    let pal: Vec<f32> = (0..c.int(1, 12)).map(|_| c.choice(100 * 64 + 1) as f32 / 64.0).collect();
    let mut r = Rng::new(c.choice(1 << 32));
    let mut d = Vec::new();
    for _ in 0..n {
        d.push(pal[(r.next() % pal.len() as u64) as usize]);
        for _ in 1..ch {
            d.push((r.next() % 200) as f32 - 100.0);
        }
    }
    let img = mk(w, h, l, d);
    let mut map = HashMap::new();
    util::generate_histogram_percentiles(&img, &mut map, precision);
    let mut hist: BTreeMap<i32, u64> = BTreeMap::new();
    for p in img.data().chunks(ch as usize) {
        *hist.entry((p[0] * precision).round() as i32).or_insert(0) += 1;
    }
    ensure!(map.len() == hist.len(), "precision {precision}: {} bins, expected {}", map.len(), hist.len());
    let mut sum = 0;
    for (k, v) in &hist {
        sum += v;
        let e = sum as f64 / n as f64;
        match map.get(k) {
            None => return Err(format!("precision {precision}: no percentile for bin {k}")),
            Some(p) => ensure!((*p as f64 - e).abs() < 1e-6 && *p > 0.0 && *p <= 1.0, "precision {precision}: percentile of bin {k} is {p}, expected {e} ({sum} of {n} pixels)"),
        }
    }
    c.nontrivial(hist.len() > 1);
    c.note(|| format!("precision {precision} bins {hist:?}"));
    Ok(())
}

fn c14_equalize(c: &mut Case) -> R {
    let l = layout_rgb(c);
    let (w, h) = if c.chance(1, 3000) { dims_large(c) } else if c.chance(1, 60) { dims_wide(c) } else { dims(c, 16) };
    let img = img_u8(c, w, h, l);
    let d50 = c.bool();
    let ch = l.ch as usize;
    let n = (w * h) as usize;
    let a = match c.choice(3) {
        0 => c.pick(&[1.0f32, 0.0, 0.5]),
        _ => c.choice(1001) as f32 / 1000.0,
    };
    let precision = c.pick(&[255.0f32, 10.0, 1.0, 100.0, 0.1, 0.0, 2.55]);
    let out = ok("histogram_equalization", tone::histogram_equalization(&img, a, &wh(d50), precision))?;
    same_shape("histogram_equalization", &out, &img)?;
    // bins of the reference; a lightness on a bin boundary may count on either side
    let labs: Vec<[f64; 3]> = img.data().chunks(ch).map(|p| refs::srgb_to_lab([p[0], p[1], p[2]], d50)).collect();
    let eps = 2e-4 * precision as f64 + 1e-6;
    let key = |x: f64| x.round() as i64;
    let mut lo_keys: Vec<i64> = labs.iter().map(|v| key(v[0] * precision as f64 - eps)).collect();
    let mut hi_keys: Vec<i64> = labs.iter().map(|v| key(v[0] * precision as f64 + eps)).collect();
    let (klo, khi) = (lo_keys.clone(), hi_keys.clone());
    lo_keys.sort_unstable();
    hi_keys.sort_unstable();
    let mut moved = false;
    for i in 0..n {
        let p_hi = lo_keys.partition_point(|k| *k <= khi[i]) as f64 / n as f64;
        let p_lo = hi_keys.partition_point(|k| *k <= klo[i]) as f64 / n as f64;
        let mut lo = [f64::MAX; 3];
        let mut hi = [f64::MIN; 3];
        for p in [p_lo, p_hi] {
            let mut v = labs[i];
            v[0] = a as f64 * 100.0 * p + (1.0 - a as f64) * v[0];
            let e = refs::lab_to_srgb(v, d50);
            for k in 0..3 {
                lo[k] = lo[k].min(e[k]);
                hi[k] = hi[k].max(e[k]);
            }
        }
        let p = &img.data()[i * ch..(i + 1) * ch];
        let q = &out.data()[i * ch..(i + 1) * ch];
        for k in 0..3 {
            ensure!(q[k] as f64 >= lo[k].clamp(0.0, 255.0) - 0.56 && q[k] as f64 <= hi[k].clamp(0.0, 255.0) + 0.56,
                "histogram_equalization amount {a} precision {precision} D50 {d50}: pixel {i} {p:?} becomes {q:?}, expected channel {k} in [{:.3}, {:.3}]", lo[k], hi[k]);
        }
        ensure!(ch < 4 || p[3] == q[3], "histogram_equalization: alpha changes from {} to {}", p[3], q[3]);
        moved |= p != q;
    }
    if c.aside() {
        let same = ok("histogram_equalization", tone::histogram_equalization(&img, 0.0, &wh(d50), precision))?;
        same_image("histogram_equalization with amount 0", &same, &img)?;
        let bad = c.pick(&[-0.001f32, 1.001, 2.0, -1.0, f32::INFINITY]);
        is_err(&format!("histogram_equalization amount {bad}"), || tone::histogram_equalization(&img, bad, &wh(d50), precision))?;
        let bad = c.pick(&[-0.001f32, -1.0, -255.0, f32::NEG_INFINITY]);
        is_err(&format!("histogram_equalization precision {bad}"), || tone::histogram_equalization(&img, a, &wh(d50), bad))?;
    }
    c.label(if d50 { "D50" } else { "D65" });
    c.nontrivial(moved);
    c.note(|| format!("amount {a} precision {precision} {}", show(&img)));
    Ok(())
}

// ---------------------------------------------------------------- C33

/// One operation per index: u8 to u8
pub fn tone_u8(k: u64, img: &U, b: i16, g: f32, a: f32) -> Result<(U, String), String> {
    let r = match k {
        0 => (ok("brightness", tone::brightness(img, b))?, format!("brightness {b}")),
        1 => (ok("contrast", tone::contrast(img, g))?, format!("contrast {g}")),
        2 => (ok("gamma", tone::gamma(img, 2.5 * g, 200))?, format!("gamma {}", 2.5 * g)),
        3 => (ok("saturation", tone::saturation(img, b))?, format!("saturation {b}")),
        4 => (ok("brightness_lab", tone::brightness_lab(img, b))?, format!("brightness_lab {b}")),
        5 => (ok("contrast_lab", tone::contrast_lab(img, g))?, format!("contrast_lab {g}")),
        6 => (cs::rgb_to_hsv(img), "rgb_to_hsv".into()),
        7 => (cs::hsv_to_rgb(img), "hsv_to_rgb".into()),
        8 => (cs::rgb_to_grayscale(img), "rgb_to_grayscale".into()),
        9 => (ok("histogram_equalization", tone::histogram_equalization(img, a, &White::D50, 100.0))?, format!("histogram_equalization {a}")),
        10 => (cs::hsv_to_rgb_f32(&cs::rgb_to_hsv_f32(img)), "through float HSV".into()),
        11 => (cs::lab_to_srgb_f32(&cs::srgb_to_lab_f32(img, &White::D65), &White::D65), "through CIELAB".into()),
        _ => (cs::xyz_to_srgb_f32(&cs::srgb_to_xyz_f32(img)), "through XYZ".into()),
    };
    Ok(r)
}

/// u8 to f32 and f32 to f32
fn tone_f32(k: u64, img: &U, d50: bool) -> (F, &'static str, f64) {
    let f: F = img.map_channels(|v| v as f32 / 255.0);
    match k {
        0 => (cs::rgb_to_grayscale_f32(&f), "rgb_to_grayscale_f32", 1.0 / 255.0),
        1 => (cs::linearize_srgb_f32(img), "linearize_srgb_f32", 1.0),
        2 => (cs::srgb_lin_to_xyz_f32(&f), "srgb_lin_to_xyz_f32", 1.0 / 255.0),
        3 => (cs::xyz_to_srgb_lin_f32(&f), "xyz_to_srgb_lin_f32", 1.0 / 255.0),
        4 => (cs::xyz_to_lab_f32(&f, &wh(d50)), "xyz_to_lab_f32", 1.0 / 255.0),
        5 => (cs::lab_to_xyz_f32(&f, &wh(d50)), "lab_to_xyz_f32", 1.0 / 255.0),
        6 => (cs::rgb_to_hsv_f32(img), "rgb_to_hsv_f32", 1.0 / 255.0),
        7 => (cs::srgb_to_xyz_f32(img), "srgb_to_xyz_f32", 1.0),
        _ => (cs::srgb_to_lab_f32(img, &wh(d50)), "srgb_to_lab_f32", 1.0),
    }
}

fn near(a: f32, b: f32) -> bool {
    (a - b).abs() <= 1e-5 * (1.0 + a.abs().max(b.abs()))
}

fn c33_alpha(c: &mut Case) -> R {
    let (w, h) = if c.chance(1, 4000) { dims_large(c) } else if c.chance(1, 80) { dims_wide(c) } else { dims(c, 34) };
    let img = img_u8(c, w, h, RGBA);
    let plain = drop_alpha(&img);
    let k = c.choice(13);
    let (b, g, a) = (bias(c), gain(c), c.choice(101) as f32 / 100.0);
    let (out, name) = tone_u8(k, &img, b, g, a)?;
    let (ref_out, _) = tone_u8(k, &plain, b, g, a)?;
    let oc = out.info().channels as usize;
    ensure!(out.info().alpha && oc == ref_out.info().channels as usize + 1, "{name}: {:?} with alpha, {:?} without", out.info(), ref_out.info());
    for i in 0..(w * h) as usize {
        let (p, q) = (&out.data()[i * oc..(i + 1) * oc], &ref_out.data()[i * (oc - 1)..(i + 1) * (oc - 1)]);
        ensure!(p[oc - 1] == img.data()[i * 4 + 3], "{name}: alpha of pixel {i} changes from {} to {}", img.data()[i * 4 + 3], p[oc - 1]);
        ensure!(&p[..oc - 1] == q, "{name}: pixel {i} {:?} becomes {:?} with alpha but {:?} without", &img.data()[i * 4..i * 4 + 4], &p[..oc - 1], q);
    }
    // float results
    let kf = c.choice(9);
    let d50 = c.bool();
    let (out, name2, unit) = tone_f32(kf, &img, d50);
    let (ref_out, _, _) = tone_f32(kf, &plain, d50);
    let oc = out.info().channels as usize;
    for i in 0..(w * h) as usize {
        let (p, q) = (&out.data()[i * oc..(i + 1) * oc], &ref_out.data()[i * (oc - 1)..(i + 1) * (oc - 1)]);
        let e = img.data()[i * 4 + 3] as f64 * unit;
        ensure!((p[oc - 1] as f64 - e).abs() < 1e-6, "{name2}: alpha of pixel {i} is {}, expected {e}", p[oc - 1]);
        ensure!(p[..oc - 1].iter().zip(q).all(|(x, y)| near(*x, *y)), "{name2}: pixel {i} becomes {:?} with alpha but {:?} without", &p[..oc - 1], q);
    }
    c.label(name.split(' ').next().unwrap_or("").to_string());
    c.nontrivial(img.data().chunks(4).any(|p| p[3] != 255 && p[3] != 0));
    c.note(|| format!("{name}, {name2} of {}", show(&img)));
    Ok(())
}

fn c33_threshold(c: &mut Case) -> R {
    let (w, h) = dims(c, 20);
    let l = GRAYA;
    let img = img_f32(c, w, h, l);
    let plain = drop_alpha(&img);
    let t = c.int(-10, 300) as f32;
    let m = c.int(0, 300) as f32;
    let k = c.choice(5);
    let th = |i: &F| ok("threshold", filter::threshold(i, t, m, thresh(k)));
    let out = th(&img)?;
    let r = th(&plain)?;
    for i in 0..(w * h) as usize {
        ensure!(out.data()[2 * i + 1] == img.data()[2 * i + 1], "threshold: alpha of pixel {i} changes");
        ensure!(out.data()[2 * i] == r.data()[i], "threshold: pixel {i} differs with alpha");
    }
    c.nontrivial(true);
    c.note(|| format!("method {k} threshold {t} {}", show(&img)));
    Ok(())
}

pub fn thresh(k: u64) -> Thresh {
    match k {
        0 => Thresh::Binary,
        1 => Thresh::BinaryInv,
        2 => Thresh::Trunc,
        3 => Thresh::ToZero,
        _ => Thresh::ToZeroInv,
    }
}

/// A permutation of 0..n from one choice
fn permutation(c: &mut Case, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    match c.choice(3) {
        0 => {}
        1 => p.reverse(),
        _ => {
            let mut r = Rng::new(c.choice(1 << 32));
            for i in (1..n).rev() {
                p.swap(i, (r.next() % (i as u64 + 1)) as usize);
            }
        }
    }
    p
}

fn c33_rearrange(c: &mut Case) -> R {
    let l = layout_rgb(c);
    let (w, h) = if c.chance(1, 4000) { dims_large(c) } else if c.chance(1, 80) { dims_wide(c) } else { dims(c, 34) };
    let n = (w * h) as usize;
    let img = img_u8(c, w, h, l);
    let perm = permutation(c, n);
    // new shape with the same number of pixels
    let divs: Vec<usize> = (1..=n).filter(|d| n % d == 0).collect();
    let w2 = divs[c.choice(divs.len() as u64) as usize];
    let h2 = n / w2;
    let ch = l.ch as usize;
    let mut d = Vec::new();
    for i in &perm {
        d.extend_from_slice(&img.data()[i * ch..(i + 1) * ch]);
    }
    let moved = mk(w2 as u32, h2 as u32, l, d);
    let k = c.pick(&[0u64, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12]);
    let (b, g) = (bias(c), gain(c));
    let (out, name) = tone_u8(k, &img, b, g, 0.0)?;
    let (out2, _) = tone_u8(k, &moved, b, g, 0.0)?;
    let oc = out.info().channels as usize;
    shape(&name, &out2, w2 as u32, h2 as u32, lay(&out))?;
    for (j, i) in perm.iter().enumerate() {
        ensure!(out.data()[i * oc..(i + 1) * oc] == out2.data()[j * oc..(j + 1) * oc],
            "{name}: pixel {i} of {w}x{h} {:?} becomes {:?}, as pixel {j} of {w2}x{h2} {:?}", &img.data()[i * ch..(i + 1) * ch], &out.data()[i * oc..(i + 1) * oc], &out2.data()[j * oc..(j + 1) * oc]);
    }
    let kf = c.choice(9);
    let d50 = c.bool();
    let (out, name2, _) = tone_f32(kf, &img, d50);
    let (out2, _, _) = tone_f32(kf, &moved, d50);
    let oc = out.info().channels as usize;
    for (j, i) in perm.iter().enumerate() {
        ensure!((0..oc).all(|k| near(out.data()[i * oc + k], out2.data()[j * oc + k])), "{name2}: pixel {i} of {w}x{h} differs from pixel {j} of {w2}x{h2}");
    }
    // a single pixel alone gives the same
    let i = c.choice(n as u64) as usize;
    let single: Image<u8> = mk(1, 1, l, img.data()[i * ch..(i + 1) * ch].to_vec());
    let (o1, _) = tone_u8(k, &single, b, g, 0.0)?;
    let (o, _) = tone_u8(k, &img, b, g, 0.0)?;
    let oc = o.info().channels as usize;
    ensure!(o1.data() == &o.data()[i * oc..(i + 1) * oc], "{name}: pixel {i} alone becomes {:?}, inside the image {:?}", o1.data(), &o.data()[i * oc..(i + 1) * oc]);
    c.label(name.split(' ').next().unwrap_or("").to_string());
    c.nontrivial(n > 1 && (w2 != w as usize || perm.iter().enumerate().any(|(a, b)| a != *b)));
    c.note(|| format!("{name}, {name2}: {w}x{h} -> {w2}x{h2} of {}", show(&img)));
    Ok(())
}

pub fn defs() -> Vec<PropertyDef> {
    vec![
        PropertyDef {
            id: "C06",
            rule: "random image of any layout and size around vector boundaries, random bias, against saturating addition; configurations with and without SIMD; non-trivial: bias not 0 and more than 32 samples",
            subs: vec![sub("brightness", c06, 1500000, 22500000), sub("large", c06_large, 6900, 103500)],
        },
        PropertyDef {
            id: "C07",
            rule: "random RGB(A) image and amount against HSV conversion, clamped addition to S, conversion back; the vector routine for every channel number; with and without SIMD; non-trivial: the image changes (saturation), amount not 0 and more than 32 samples (vector)",
            subs: vec![sub("saturation", c07, 1000000, 15000000), sub("large", c07_large, 1300, 19500), sub("vector", c07_vector, 500000, 7500000)],
        },
        PropertyDef {
            id: "C08",
            rule: "random RGB(A) images of sizes around multiples of 32 pixels against the integer mean; with and without SIMD; non-trivial: at least 32 pixels, an offset into the image (deinterleave)",
            subs: vec![sub("grayscale", c08, 720000, 10800000), sub("large", c08_large, 1500, 22500), sub("deinterleave", c08_deinterleave, 1500000, 22500000)],
        },
        PropertyDef {
            id: "C09",
            rule: "random image, gain, exponent and maximum against the curve in f64; non-trivial: gain strictly between 0 and 1, exponent not 0 or 1",
            subs: vec![sub("contrast", c09_contrast, 45000, 675000), sub("gamma", c09_gamma, 41000, 615000)],
        },
        PropertyDef {
            id: "C13",
            rule: "random RGB(A) image, bias and gain against the Lab formulas in f64; all gray values for monotonicity; non-trivial: bias not 0 and gain strictly between 0 and 1, two different biases",
            subs: vec![sub("lab", c13, 140000, 2100000), sub("gray", c13_gray, 73000, 1095000)],
        },
        PropertyDef {
            id: "C14",
            rule: "random lightness distributions and precisions against counted percentiles; random images against the f64 blend with bins bracketed at their boundaries; non-trivial: at least two bins, the image changes",
            subs: vec![sub("percentiles", c14_percentiles, 420000, 6300000), sub("equalize", c14_equalize, 310000, 4650000)],
        },
        PropertyDef {
            id: "C33",
            rule: "random RGBA images with and without their alpha through every pixelwise operation, and images with permuted pixels and another shape; non-trivial: an alpha that is neither 0 nor 255, a real rearrangement",
            subs: vec![sub("alpha", c33_alpha, 380000, 5700000), sub("threshold", c33_threshold, 1500000, 22500000), sub("rearrange", c33_rearrange, 300000, 4500000)],
        },
    ]
}
