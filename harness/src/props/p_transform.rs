//! C15..C20: geometric transformations

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::props::p_tone::{is_err, ok};
use crate::refs;
use imgproc_rs::enums::{Refl, Scale};
use imgproc_rs::image::{BaseImage, Image, Number};
use imgproc_rs::transform;

/// An image in which every pixel is different from every other one and from black
fn distinct<T: Number>(w: u32, h: u32, l: Layout, f: fn(u64) -> T, start: u64) -> Image<T> {
    let n = count(w, h, l);
    mk(w, h, l, (0..n as u64).map(|i| f(start + i)).collect())
}

// ---------------------------------------------------------------- C15

fn any_coord(c: &mut Case, n: u32) -> u32 {
    match c.choice(8) {
        0 => 0,
        1 => n,
        2 => n + c.int(0, 5) as u32,
        3 => c.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 31) - 1, 1 << 16]),
        4 => u32::MAX - c.int(0, n as i64 + 2) as u32,
        _ => c.int(0, n as i64) as u32,
    }
}

fn c15_t<T: Number + std::fmt::Debug>(c: &mut Case, f: fn(u64) -> T) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 150) { dims_wide(c) } else if c.chance(1, 3000) { dims_large(c) } else { dims(c, 26) };
    let img = distinct(w, h, l, f, 1 + c.choice(1000));

    // crop: a rectangle inside, touching the edges often
    let cw = if c.chance(1, 4) { w } else if c.chance(1, 4) { c.int(1, 8.min(w as i64)) as u32 } else { c.int(1, w as i64) as u32 };
    let chh = if c.chance(1, 4) { h } else if c.chance(1, 4) { c.int(1, 8.min(h as i64)) as u32 } else { c.int(1, h as i64) as u32 };
    let cx = if c.bool() { w - cw } else { c.int(0, (w - cw) as i64) as u32 };
    let cy = if c.bool() { h - chh } else { c.int(0, (h - chh) as i64) as u32 };
    c.label_if(cw == w && chh == h, "crop to the whole image");
    c.label_if(cx + cw == w || cy + chh == h, "crop touches the right or bottom edge");
    let what = format!("crop ({cx}, {cy}) {cw}x{chh} of {w}x{h} {l:?}");
    let out = ok(&what, transform::crop(&img, cx, cy, cw, chh))?;
    shape(&what, &out, cw, chh, l)?;
    eq_data(&what, &out, &refs::crop(&img, cx as usize, cy as usize, cw as usize, chh as usize))?;
    // crop of a crop
    if cw > 1 && chh > 1 {
        let again = ok(&what, transform::crop(&out, 1, 1, cw - 1, chh - 1))?;
        let direct = ok(&what, transform::crop(&img, cx + 1, cy + 1, cw - 1, chh - 1))?;
        same_image("crop of a crop", &again, &direct)?;
    }

    // rectangles that do not fit
    let (mut bx, mut by, mut bw, mut bh) = (cx, cy, cw, chh);
    match c.choice(6) {
        0 => bx = w - cw + 1 + c.int(0, 3) as u32,
        1 => by = h - chh + 1 + c.int(0, 3) as u32,
        2 => bw = w - cx + 1 + c.int(0, 3) as u32,
        3 => bh = h - cy + 1 + c.int(0, 3) as u32,
        4 => bx = u32::MAX - c.int(0, cw as i64 + 2) as u32,
        _ => by = u32::MAX - c.int(0, chh as i64 + 2) as u32,
    }
    is_err(&format!("crop ({bx}, {by}) {bw}x{bh} of {w}x{h}"), || transform::crop(&img, bx, by, bw, bh))?;

    let (dx, dy) = (any_coord(c, w), any_coord(c, h));
    let what = format!("translate by ({dx}, {dy}) of {w}x{h} {l:?}");
    let out = ok(&what, transform::translate(&img, dx, dy))?;
    same_shape(&what, &out, &img)?;
    eq_data(&what, &out, &refs::translate(&img, dx, dy))?;

    for vertical in [true, false] {
        let ax = || if vertical { Refl::Vertical } else { Refl::Horizontal };
        let what = format!("reflect {} of {w}x{h} {l:?}", if vertical { "vertical" } else { "horizontal" });
        let out = ok(&what, transform::reflect(&img, ax()))?;
        same_shape(&what, &out, &img)?;
        eq_data(&what, &out, &refs::reflect(&img, vertical))?;
        let back = ok(&what, transform::reflect(&out, ax()))?;
        same_image(&format!("{what} twice"), &back, &img)?;
    }
    c.label_if(dx == 0 && dy == 0, "translate by nothing");
    c.label_if(dx >= w || dy >= h, "translate out of the image");
    c.nontrivial(w > 1 && h > 1 && (cw < w || chh < h));
    c.note(|| format!("crop ({cx}, {cy}) {cw}x{chh}, bad ({bx}, {by}) {bw}x{bh}, translate ({dx}, {dy}), {}", show(&img)));
    Ok(())
}

fn c15(c: &mut Case) -> R {
    match c.choice(4) {
        0 => c15_t::<u8>(c, |i| (1 + i % 255) as u8),
        1 => c15_t::<f32>(c, |i| i as f32 + 0.25),
        2 => c15_t::<u16>(c, |i| i as u16),
        _ => c15_t::<f64>(c, |i| -(i as f64) * 0.3),
    }
}

// ---------------------------------------------------------------- C16

fn pair_dims(c: &mut Case) -> ((u32, u32), (u32, u32)) {
    if c.chance(1, 150) {
        (dims_wide(c), dims_wide(c))
    } else if c.chance(1, 4000) {
        (dims_large(c), dims_large(c))
    } else {
        (dims(c, 18), dims(c, 18))
    }
}

fn offset(c: &mut Case, n: u32, m: u32) -> u32 {
    match c.choice(6) {
        0 => 0,
        1 => n.saturating_sub(m),
        2 => any_coord(c, n),
        _ => c.int(0, n as i64 - 1) as u32,
    }
}

fn other_layout(c: &mut Case, l: Layout) -> Layout {
    loop {
        let m = layout_any(c);
        if m.ch != l.ch {
            return m;
        }
        if c.trace.len() > 200 {
            return Layout { ch: if l.ch == 255 { 254 } else { l.ch + 1 }, alpha: false };
        }
    }
}

fn c16_overlay(c: &mut Case) -> R {
    let l = layout_any(c);
    let ((w, h), (fw, fh)) = pair_dims(c);
    let back = img_u8(c, w, h, l);
    let front = distinct::<u8>(fw, fh, l, |i| (1 + i % 251) as u8, c.choice(250));
    let (x, y) = (offset(c, w, fw), offset(c, h, fh));
    let what = format!("overlay of {fw}x{fh} at ({x}, {y}) on {w}x{h} {l:?}");
    let exp = refs::overlay(&back, &front, x, y);
    let out = ok(&what, transform::overlay(&back, &front, x, y))?;
    same_shape(&what, &out, &back)?;
    eq_data(&what, &out, &exp)?;
    // alpha flags may differ, only the channel count must agree; the result has the back's
    let l2 = Layout { ch: l.ch, alpha: !l.alpha };
    let front2 = mk(fw, fh, l2, front.data().to_vec());
    let out = ok(&what, transform::overlay(&back, &front2, x, y))?;
    same_shape(&what, &out, &back)?;
    eq_data(&what, &out, &exp)?;
    let lb = other_layout(c, l);
    let bad = img_u8(c, fw, fh, lb);
    is_err(&format!("overlay of {} channels on {}", lb.ch, l.ch), || transform::overlay(&back, &bad, x, y))?;
    let sticks = x < w && y < h && (x as u64 + fw as u64 > w as u64 || y as u64 + fh as u64 > h as u64);
    c.label_if(sticks, "front sticks out");
    c.label_if(x >= w || y >= h, "front misses the back");
    c.nontrivial(exp != back.data() && x + y > 0);
    c.note(|| format!("({x}, {y}) front {} back {}", show(&front), show(&back)));
    Ok(())
}

fn weight(c: &mut Case) -> f32 {
    match c.choice(6) {
        // next to the ends
        5 => { let d = 0.5f32.powi(c.int(4, 15) as i32); if c.bool() { d } else { 1.0 - d } }
        0 => 1.0,
        1 => 0.0,
        2 => c.pick(&[0.5f32, 0.25, 0.75, f32::MIN_POSITIVE, 1.0 - f32::EPSILON]),
        3 => c.int(1, 255) as f32 / 256.0,
        _ => c.int(1, 99) as f32 / 100.0,
    }
}

/// Weights outside [0, 1]
pub fn bad_unit(c: &mut Case) -> f32 {
    match c.choice(4) {
        0 => c.pick(&[-1.0f32, 2.0, 1.0000001, -1e-30, -f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN]),
        1 => 1.0 + c.int(1, 1000) as f32 / 100.0,
        2 => -(c.int(1, 1000) as f32 / 100.0),
        _ => 1.0 + c.int(1, 1 << 20) as f32 * f32::EPSILON,
    }
}

fn c16_superimpose(c: &mut Case) -> R {
    let l = layout_any(c);
    let ((w, h), (fw, fh)) = pair_dims(c);
    let back = img_f32(c, w, h, l);
    let front = img_f32(c, fw, fh, l);
    let (x, y) = (offset(c, w, fw), offset(c, h, fh));
    let a = weight(c);
    let what = format!("superimpose {fw}x{fh} at ({x}, {y}) with weight {a} on {w}x{h} {l:?}");
    let out = ok(&what, transform::superimpose(&back, &front, x, y, a))?;
    same_shape(&what, &out, &back)?;
    let laid = refs::overlay(&back, &front, x, y);
    // which samples are covered
    let mask_b = mk::<u8>(w, h, l, vec![0; count(w, h, l)]);
    let mask_f = mk::<u8>(fw, fh, l, vec![1; count(fw, fh, l)]);
    let mask = refs::overlay(&mask_b, &mask_f, x, y);
    for i in 0..mask.len() {
        let b = back.data()[i];
        let o = out.data()[i];
        if mask[i] == 0 {
            ensure!(o.to_bits() == b.to_bits(), "{what}: {} is outside the overlap but changes from {b} to {o}", pos(out.info(), i));
        } else {
            let f = laid[i];
            let e = a as f64 * b as f64 + (1.0 - a as f64) * f as f64;
            let tol = 1e-5 * (b.abs() as f64 + f.abs() as f64) + 1e-6;
            ensure!((o as f64 - e).abs() <= tol, "{what}: {} is {o}, expected {e} (back {b}, front {f})", pos(out.info(), i));
        }
    }
    let bad = bad_unit(c);
    if !bad.is_nan() {
        is_err(&format!("superimpose with weight {bad}"), || transform::superimpose(&back, &front, x, y, bad))?;
    }
    let lb = other_layout(c, l);
    let wrong = img_f32(c, fw, fh, lb);
    is_err(&format!("superimpose {} channels on {}", lb.ch, l.ch), || transform::superimpose(&back, &wrong, x, y, a))?;
    let sticks = x < w && y < h && (x as u64 + fw as u64 > w as u64 || y as u64 + fh as u64 > h as u64);
    c.label_if(sticks, "front sticks out");
    c.label_if(x >= w || y >= h, "front misses the back");
    c.label_if(a == 0.0 || a == 1.0, "weight 0 or 1");
    c.nontrivial(mask.iter().any(|m| *m == 1) && a > 0.0 && a < 1.0);
    c.note(|| format!("({x}, {y}) weight {a} front {} back {}", show(&front), show(&back)));
    Ok(())
}

// ---------------------------------------------------------------- C17, C18

/// A factor giving an output of at most `cap` samples along an input of length n
pub fn factor(c: &mut Case, n: u32, cap: u32) -> f32 {
    let maxf = (cap as f64 / n as f64).max(1.0);
    let f = match c.choice(10) {
        0 => 1.0,
        9 => {
            // next to a whole number or its reciprocal
            let k = c.int(1, 24) as f32;
            let f = if c.bool() { k } else { 1.0 / k };
            f32::from_bits((f.to_bits() as i64 + c.int(-3, 3)) as u32)
        }
        1 => c.int(2, 7) as f32,
        2 => c.pick(&[0.5f32, 0.25, 0.125, 0.75, 1.5, 2.5, 1.25]),
        3 => 1.0 / c.int(2, 9) as f32,
        4 => c.int(1, 400) as f32 / 100.0,
        5 => c.int(1, 64) as f32 / n as f32,
        6 => 1.0 + c.int(-40, 40) as f32 * f32::EPSILON,
        7 => c.pick(&[0.01f32, 1e-3, 1e-6, 9.99, 0.333, 0.6666667, 3.3333]),
        _ => c.int(1, 7000) as f32 / 1000.0,
    };
    (f as f64).min(maxf) as f32
}

fn scaled_dims(what: &str, out: &F, w: u32, h: u32, fx: f32, fy: f32) -> R {
    for (name, o, n, f) in [("width", out.info().width, w, fx), ("height", out.info().height, h, fy)] {
        let e = n as f64 * f as f64;
        ensure!((o as f64 - e).abs() <= 0.5 + 2e-7 * e, "{what}: {name} is {o}, expected {n} * {f} = {e} rounded");
        // The product of a half is exact in f32 too
        ensure!(e.fract() != 0.5 || o as f64 == e + 0.5, "{what}: {name} is {o}, expected {n} * {f} = {e} rounded up");
    }
    Ok(())
}

/// (width, height, largest output width, largest output height)
fn c17_dims(c: &mut Case, cap: u32) -> (u32, u32, u32, u32) {
    if c.chance(1, 150) {
        let (w, h) = dims_wide(c);
        (w, h, 1200, 1200)
    } else if c.chance(1, 3000) {
        let (w, h) = dims_large(c);
        (w, h, w, h)
    } else {
        let (w, h) = dims(c, cap);
        (w, h, 4 * cap, 4 * cap)
    }
}

/// Rarely a scaling (of few pixels) whose result is wider or higher than 65536 pixels: (width, height, factors)
fn stretch(c: &mut Case) -> Option<(u32, u32, f32, f32)> {
    if !c.chance(1, 6000) {
        return None;
    }
    let n = c.int(1, 4) as u32;
    let f = c.int(65530, 70000) as f32 / n as f32;
    let m = c.int(1, 2) as u32;
    let g = c.pick(&[1.0f32, 2.0, 0.5]);
    Some(if c.bool() { (n, m, f, g) } else { (m, n, g, f) })
}

/// Source columns the output column may be taken from
fn nn_source(x: u32, n: u32, f: f32) -> (i64, i64) {
    let p = (x as f64 + 1.0) / f as f64;
    let exact = f.fract() == 0.0 || (1.0 / f).fract() == 0.0 && f * (1.0 / f) == 1.0 && (1.0 / f).log2().fract() == 0.0;
    let near = (p - p.round()).abs() <= 3e-7 * p;
    let last = n as i64 - 1;
    if exact || !near {
        let k = ((p.ceil() - 1.0) as i64).min(last);
        (k, k)
    } else {
        let k = p.round() as i64;
        ((k - 1).clamp(0, last), k.clamp(0, last))
    }
}

fn c17(c: &mut Case) -> R {
    let l = layout_any(c);
    let wide = stretch(c);
    let (w, h, cap, cap_y) = wide.map_or_else(|| c17_dims(c, 20), |s| (s.0, s.1, 9, 9));
    let img = distinct::<f32>(w, h, l, |i| i as f32 - 700.5, c.choice(2000));
    let (fx, fy) = wide.map_or_else(|| (factor(c, w, cap), factor(c, h, cap_y)), |s| (s.2, s.3));
    c.label_if(wide.is_some(), "more than 65536 rows or columns");
    let what = format!("nearest neighbour scale of {w}x{h} {l:?} by ({fx}, {fy})");
    let out = ok(&what, transform::scale(&img, fx, fy, Scale::NearestNeighbor))?;
    scaled_dims(&what, &out, w, h, fx, fy)?;
    let (ow, oh) = out.info().wh();
    shape(&what, &out, ow, oh, l)?;
    let mut amb = 0u64;
    for y in 0..oh {
        let (y0, y1) = nn_source(y, h, fy);
        for x in 0..ow {
            let (x0, x1) = nn_source(x, w, fx);
            let o = px(&out, x as usize, y as usize);
            amb += (x0 != x1 || y0 != y1) as u64;
            let hit = [(x0, y0), (x1, y0), (x0, y1), (x1, y1)].iter().any(|(a, b)| px(&img, *a as usize, *b as usize) == o);
            ensure!(hit, "{what}: pixel ({x}, {y}) is {o:?}, expected {:?} from ({x0}, {y0})", px(&img, x0 as usize, y0 as usize));
        }
    }
    c.count(ow as u64 * oh as u64);
    c.label_if(amb > 0, "positions too close to a boundary to decide");
    c.label_if(fx == 1.0 && fy == 1.0, "identity");
    c.label_if(fx.fract() == 0.0 && fy.fract() == 0.0, "integer factors");
    c.label_if(fx < 1.0 || fy < 1.0, "shrinks");
    // other methods agree about the shape
    if ow * oh <= 600 {
        for m in [Scale::Bilinear, Scale::Bicubic, Scale::Lanczos] {
            let o = ok(&what, transform::scale(&img, fx, fy, m))?;
            shape(&format!("{what} (another method)"), &o, ow, oh, l)?;
        }
    }
    // negative factors
    let neg = -factor(c, w, cap);
    let m = match c.choice(4) { 0 => Scale::NearestNeighbor, 1 => Scale::Bilinear, 2 => Scale::Bicubic, _ => Scale::Lanczos };
    if c.bool() {
        is_err(&format!("scale by ({neg}, {fy})"), || transform::scale(&img, neg, fy, m))?;
    } else {
        is_err(&format!("scale by ({fx}, {neg})"), || transform::scale(&img, fx, neg, m))?;
    }
    c.nontrivial(ow > 1 && oh > 1 && (fx != 1.0 || fy != 1.0));
    c.note(|| format!("({fx}, {fy}) -> {ow}x{oh} of {}", show(&img)));
    Ok(())
}

/// (integer part, fraction, not within rounding of a whole number)
fn split(x: u32, f: f32) -> (i64, f64, bool) {
    let p = x as f64 / f as f64;
    let fl = p.floor();
    let fr = p - fl;
    let near = fr.min(1.0 - fr);
    // positions within rounding of a whole number that are not exactly one
    let sure = near == 0.0 || near > 4e-7 * p.max(1.0);
    (fl as i64, fr, sure)
}

fn cubic(x: f64) -> f64 {
    let p = |t: f64| if t > 0.0 { t * t * t } else { 0.0 };
    (p(x + 2.0) - 4.0 * p(x + 1.0) + 6.0 * p(x) - 4.0 * p(x - 1.0)) / 6.0
}

pub fn sinc(x: f64) -> f64 {
    if x == 0.0 { 1.0 } else { (std::f64::consts::PI * x).sin() / (std::f64::consts::PI * x) }
}

pub fn lanczos(x: f64, a: f64) -> f64 {
    if x.abs() < a { sinc(x) * sinc(x / a) } else { 0.0 }
}

/// Taps (offset, weight) of one axis
fn taps(kind: u64, s: i64, fr: f64) -> Vec<(i64, f64)> {
    match kind {
        0 => vec![(0, 1.0 - fr), (1, fr)],
        1 => (-1..3).map(|m| (m, cubic(m as f64 - fr))).collect(),
        _ => ((1 - s)..(s + 1)).map(|i| (i, lanczos(fr - i as f64, s as f64))).collect(),
    }
}

fn c18(c: &mut Case) -> R {
    let kind = c.choice(4);
    let l = layout_any(c);
    let wide = stretch(c);
    let (w, h, cap, cap_y) = wide.map_or_else(|| c17_dims(c, 13), |s| (s.0, s.1, 9, 9));
    let img = img_f32(c, w, h, l);
    let (fx, fy) = wide.map_or_else(|| (factor(c, w, cap), factor(c, h, cap_y)), |s| (s.2, s.3));
    c.label_if(wide.is_some(), "more than 65536 rows or columns");
    let s = match kind {
        3 if wide.is_none() && w <= 13 && h <= 13 && c.chance(1, 40) => c.int(7, 40),
        3 if wide.is_none() && w <= 4 && h <= 4 && c.chance(1, 40) => c.int(120, 300),
        3 => c.int(1, 6),
        _ => 3,
    };
    c.label_if(s > 6, "Lanczos windows wider than 12");
    let (name, out) = match kind {
        0 => ("bilinear", transform::scale(&img, fx, fy, Scale::Bilinear)),
        1 => ("bicubic", transform::scale(&img, fx, fy, Scale::Bicubic)),
        2 => ("Lanczos", transform::scale(&img, fx, fy, Scale::Lanczos)),
        _ => ("scale_lanczos", transform::scale_lanczos(&img, fx, fy, s as u32)),
    };
    let what = format!("{name} scale of {w}x{h} {l:?} by ({fx}, {fy}) size {s}");
    let out = ok(&what, out)?;
    scaled_dims(&what, &out, w, h, fx, fy)?;
    let (ow, oh) = out.info().wh();
    shape(&what, &out, ow, oh, l)?;
    let a = img.data().iter().fold(0.0f64, |m, v| m.max(v.abs() as f64));
    let lo = img.data().iter().fold(f64::MAX, |m, v| m.min(*v as f64));
    let hi = img.data().iter().fold(f64::MIN, |m, v| m.max(*v as f64));
    let grow = 1.0 + (w.max(h) as f64) / 100.0;
    let tol = grow * a * if kind <= 1 { 2e-4 } else { 5e-4 } + 1e-4;
    let mut unsure = 0u64;
    for y in 0..oh {
        let (iy, fry, sy) = split(y, fy);
        let ty = taps(kind, s, fry);
        for x in 0..ow {
            let (ix, frx, sx) = split(x, fx);
            let sure = sx && sy;
            unsure += !sure as u64;
            let tx = taps(kind, s, frx);
            for k in 0..l.ch as usize {
                let o = at(&out, x as usize, y as usize, k) as f64;
                if kind <= 1 {
                    let t = 2e-5 * a + 1e-5;
                    ensure!(o >= lo - t && o <= hi + t, "{what}: pixel ({x}, {y}) channel {k} is {o}, outside the range {lo}..{hi} of the input");
                }
                let mut e = 0.0;
                for (j, b) in &ty {
                    for (i, d) in &tx {
                        e += b * d * at_clamped(&img, ix + i, iy + j, k) as f64;
                    }
                }
                ensure!((o - e).abs() <= tol, "{what}: pixel ({x}, {y}) channel {k} is {o}, expected {e} (source position ({}, {}))", ix as f64 + frx, iy as f64 + fry);
            }
        }
    }
    c.count(ow as u64 * oh as u64);
    if fx == 1.0 && fy == 1.0 && kind != 1 {
        for (i, (o, e)) in out.data().iter().zip(img.data()).enumerate() {
            let t = if kind == 0 { 1e-6 * a } else { 2e-5 * a };
            ensure!((*o as f64 - *e as f64).abs() <= t, "{what}: factor 1 changes {} from {e} to {o}", pos(img.info(), i));
        }
        c.label("factor 1");
    }
    if kind == 2 {
        let o2 = ok(&what, transform::scale_lanczos(&img, fx, fy, 3))?;
        same_shape("scale_lanczos", &o2, &out)?;
        for (i, (p, q)) in o2.data().iter().zip(out.data()).enumerate() {
            ensure!((p - q).abs() as f64 <= 1e-5 * a + 1e-6, "{what}: {} is {q}, scale_lanczos with size 3 gives {p}", pos(out.info(), i));
        }
    }
    if kind >= 2 {
        let neg = -factor(c, w, cap);
        is_err(&format!("scale_lanczos by {neg}"), || transform::scale_lanczos(&img, neg, fy, 3))?;
        is_err(&format!("scale_lanczos by {neg}"), || transform::scale_lanczos(&img, fx, neg, 3))?;
    }
    c.label(name);
    c.label_if(unsure > 0, "positions within rounding of a whole number");
    c.nontrivial(ow > 1 && oh > 1 && (fx != 1.0 || fy != 1.0) && lo < hi);
    c.note(|| format!("{name} ({fx}, {fy}) size {s} -> {ow}x{oh} of {}", show(&img)));
    Ok(())
}

/// A constant image stays constant (bilinear, bicubic), also far from the usual range
fn c18_constant(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = dims(c, 16);
    let (fx, fy) = (factor(c, w, 64), factor(c, h, 64));
    let vals: Vec<f32> = (0..l.ch).map(|_| c.pick(&[0.0f32, 1.0, 255.0, -3.5, 1e6, 1e-6, 77.25])).collect();
    let img = mk(w, h, l, (0..count(w, h, l)).map(|i| vals[i % l.ch as usize]).collect::<Vec<f32>>());
    for (name, m) in [("bilinear", Scale::Bilinear), ("bicubic", Scale::Bicubic)] {
        let out = ok(name, transform::scale(&img, fx, fy, m))?;
        for (i, o) in out.data().iter().enumerate() {
            let v = vals[i % l.ch as usize];
            ensure!((o - v).abs() <= 2e-5 * v.abs() + 1e-9, "{name} scale of constant {w}x{h} by ({fx}, {fy}): {} is {o}, expected {v}", pos(out.info(), i));
        }
    }
    c.nontrivial(w > 1 && h > 1 && (fx != 1.0 || fy != 1.0));
    c.note(|| format!("({fx}, {fy}) constant {vals:?} {w}x{h}"));
    Ok(())
}

// ---------------------------------------------------------------- C19

fn angle(c: &mut Case) -> f32 {
    match c.choice(10) {
        9 => c.int(-4, 4) as f32 * 90.0 + c.int(-99, 99) as f32 * c.pick(&[1e-2f32, 1e-3, 1e-4, 1e-5]),
        0 => c.pick(&[0.0f32, 90.0, 180.0, 270.0, 360.0, -90.0, -180.0, -270.0, -360.0, 450.0, -0.0, 720.0]),
        1 => c.pick(&[45.0f32, 135.0, 30.0, 60.0, -45.0, 225.0, 315.0]),
        2 => c.int(-360, 720) as f32,
        3 => c.int(-36000, 36000) as f32 / 100.0,
        4 => c.int(-4, 8) as f32 * 90.0 + c.int(-1000, 1000) as f32 * 1e-4,
        5 => c.int(-1000, 1000) as f32 * 90.0,
        6 => c.pick(&[1e-6f32, -1e-6, 1e-30, 1e6, -1e6, 123456.7, 89.99999, 90.00001]),
        7 => c.pick(&[f32::MAX, f32::MIN, 1e30, -1e20, f32::MIN_POSITIVE]),
        _ => c.int(-1800, 1800) as f32 / 10.0,
    }
}

fn c19(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 120) { dims_wide(c) } else if c.chance(1, 8000) { (c.int(250, 380) as u32, c.int(250, 380) as u32) } else { dims(c, 24) };
    // a line so long that a fraction of a hundredth of a degree shows
    let long = c.chance(1, 16000);
    let (w, h) = if !long { (w, h) } else if c.bool() { (c.int(5000, 70000) as u32, c.int(1, 3) as u32) } else { (c.int(1, 3) as u32, c.int(5000, 70000) as u32) };
    let img = distinct::<f32>(w, h, l, |i| i as f32 + 1.0, c.choice(100));
    let deg = if long { c.int(-2, 2) as f32 * 90.0 + c.int(-99, 99) as f32 * c.pick(&[1e-3f32, 1e-4]) } else { angle(c) };
    c.label_if(long, "long line, small angle");
    let what = format!("rotation of {w}x{h} {l:?} by {deg} degrees");
    let out = ok(&what, transform::rotate(&img, deg))?;
    let (ow, oh) = out.info().wh();
    shape(&what, &out, ow, oh, l)?;
    let th = ((deg as f64) % 360.0).to_radians();
    let (s, co) = th.sin_cos();
    let (fw, fh) = (w as f64, h as f64);
    // an angle is only as exact as its f32 value; the box may be computed in f32
    let slack = 1e-5 * (fw + fh);
    let (bw, bh) = (fw * co.abs() + fh * s.abs(), fw * s.abs() + fh * co.abs());
    ensure!((ow as f64 - bw).abs() <= 0.5 + slack && (oh as f64 - bh).abs() <= 0.5 + slack,
        "{what}: result is {ow}x{oh}, the rotated bounding box is {bw:.4}x{bh:.4}");
    let m = 2e-7 * (fw + fh) + 1e-6;
    let zero = vec![0.0f32; l.ch as usize];
    for j in 0..oh {
        for i in 0..ow {
            let (x1, y1) = (i as f64 + 0.5 - ow as f64 / 2.0, oh as f64 / 2.0 - (j as f64 + 0.5));
            let (u, v) = (x1 * co + y1 * s, -x1 * s + y1 * co);
            let (sx, sy) = (u + fw / 2.0, fh / 2.0 - v);
            let o = px(&out, i as usize, j as usize);
            let outside = |m: f64| sx < -m || sy < -m || sx >= fw + m || sy >= fh + m;
            if outside(m) {
                ensure!(o == &zero[..], "{what}: pixel ({i}, {j}) is {o:?} but its source ({sx:.4}, {sy:.4}) lies outside the image");
                continue;
            }
            if outside(-m) && o == &zero[..] {
                continue;
            }
            let hit = [(-m, -m), (m, -m), (-m, m), (m, m), (0.0, 0.0)].iter().any(|(a, b)| {
                let (p, q) = ((sx + a).floor(), (sy + b).floor());
                p >= 0.0 && q >= 0.0 && p < fw && q < fh && px(&img, p as usize, q as usize) == o
            });
            ensure!(hit, "{what}: pixel ({i}, {j}) is {o:?}, its source ({sx:.4}, {sy:.4}) is {:?}",
                px(&img, (sx.max(0.0) as usize).min(w as usize - 1), (sy.max(0.0) as usize).min(h as usize - 1)));
        }
    }
    c.count(ow as u64 * oh as u64);
    c.label_if(deg % 90.0 == 0.0, "multiple of 90");
    c.nontrivial(w > 1 && h > 1 && deg % 360.0 != 0.0);
    c.note(|| format!("{deg} degrees -> {ow}x{oh} of {}", show(&img)));
    Ok(())
}

fn c19_quarter(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 100) { dims_large(c) } else { dims(c, 40) };
    let img = distinct::<f32>(w, h, l, |i| i as f32 + 1.0, c.choice(100));
    let turns = c.pick(&[0i64, 1, 2, 3, 4, -1, -2, -3, 5, 1001, -998]);
    let deg = turns as f32 * 90.0;
    let what = format!("rotation of {w}x{h} {l:?} by {deg} degrees");
    let out = ok(&what, transform::rotate(&img, deg))?;
    let t = turns.rem_euclid(4);
    let (ow, oh) = if t % 2 == 0 { (w, h) } else { (h, w) };
    shape(&what, &out, ow, oh, l)?;
    for y in 0..oh as usize {
        for x in 0..ow as usize {
            let (w, h) = (w as usize, h as usize);
            let (sx, sy) = match t {
                0 => (x, y),
                1 => (w - 1 - y, x),
                2 => (w - 1 - x, h - 1 - y),
                _ => (y, h - 1 - x),
            };
            ensure!(px(&out, x, y) == px(&img, sx, sy), "{what}: pixel ({x}, {y}) is {:?}, expected {:?} from ({sx}, {sy})", px(&out, x, y), px(&img, sx, sy));
        }
    }
    if w * h < 3000 {
        let mut r = img.clone();
        for _ in 0..4 {
            r = ok("quarter turn", transform::rotate(&r, 90.0))?;
        }
        same_image("four quarter turns", &r, &img)?;
        let there = ok("turn", transform::rotate(&out, -deg))?;
        same_image("turn and turn back", &there, &img)?;
    }
    c.nontrivial(t != 0 && w > 1 && h > 1);
    c.note(|| format!("{turns} quarter turns of {}", show(&img)));
    Ok(())
}

// ---------------------------------------------------------------- C20

fn shear_factor(c: &mut Case, n: u32) -> f32 {
    // bounded so that the growth stays small
    let steep = c.chance(1, 60);
    let lim = (300.0 / n as f64).min(if steep { 300.0 } else { 8.0 });
    let f = match c.choice(9) {
        _ if steep => c.int(-3000, 3000) as f32 / c.pick(&[10.0f32, 100.0]),
        0 => 0.0,
        1 => c.pick(&[1.0f32, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25, 0.75, 1.5, 3.0]),
        2 => c.int(-300, 300) as f32 / 100.0,
        3 => 1.0 / c.int(1, 40) as f32,
        4 => -1.0 / c.int(1, 40) as f32,
        5 => {
            // products that land next to a whole number
            let k = c.int(1, 20) as f32 / c.int(1, 20) as f32;
            let u = f32::from_bits((k.to_bits() as i64 + c.int(-2, 2)) as u32);
            if c.bool() { -u } else { u }
        }
        6 => c.pick(&[0.1f32, 0.3, 0.7, 0.9, -0.1, -0.3, -0.7, 0.01, 1e-3, -1e-3, 1e-10, -1e-10, 0.99999994, 1.0000001]),
        7 => c.int(-100, 100) as f32 / 7.0,
        _ => c.int(-1000, 1000) as f32 / 997.0,
    };
    if (f as f64).abs() > lim { (f as f64 / (f as f64).abs() * lim) as f32 } else { f }
}

/// Possible whole parts of a position computed in f64
fn floors(v: f64) -> (i64, i64) {
    let f = v.floor();
    let lo = if v - f < 1e-9 && v != f { f - 1.0 } else { f };
    let hi = if f + 1.0 - v < 1e-9 { f + 1.0 } else { f };
    (lo as i64, hi as i64)
}

fn c20(c: &mut Case) -> R {
    let l = layout_any(c);
    let far = c.chance(1, 10000);
    let (w, h) = if far { (c.int(1, 4) as u32, c.int(1, 4) as u32) } else if c.chance(1, 100) { dims_wide(c) } else if c.chance(1, 6000) { dims_area(c) } else { dims(c, 22) };
    let img = distinct::<f32>(w, h, l, |i| i as f32 + 1.0, c.choice(100));
    let mode = c.choice(if far { 2 } else { 3 });
    // displacements beyond 16 bits
    let long = if far { c.int(65500, 70000) as f32 / if mode == 0 { h } else { w } as f32 * c.pick(&[1.0f32, -1.0]) } else { 0.0 };
    let sx = if mode == 1 { 0.0 } else if far { long } else { shear_factor(c, h) };
    let sy = if mode == 0 { 0.0 } else if far { long } else { shear_factor(c, w) };
    c.label_if(far, "displacement beyond 16 bits");
    let what = format!("shear of {w}x{h} {l:?} by ({sx}, {sy})");
    let out = ok(&what, transform::shear(&img, sx, sy))?;
    let (ow, oh) = out.info().wh();
    let (gx, gy) = (h as f64 * sx as f64, w as f64 * sy as f64);
    shape(&what, &out, w + gx.abs() as u32, h + gy.abs() as u32, l)?;
    // where every pixel goes
    let mut sources: Vec<Vec<usize>> = vec![vec![]; ow as usize * oh as usize];
    let mut doubt = vec![false; ow as usize * oh as usize];
    let mut unsure = 0u64;
    for y in 0..h {
        for x in 0..w {
            let dy = if sx > 0.0 { (h - y) as f64 * sx as f64 } else { -(y as f64) * sx as f64 };
            let dx = if sy > 0.0 { (w - x) as f64 * sy as f64 } else { -(x as f64) * sy as f64 };
            let (u, v) = (x as f64 + dy, y as f64 + dx);
            let ((u0, u1), (v0, v1)) = (floors(u), floors(v));
            let sure = u0 == u1 && v0 == v1;
            unsure += !sure as u64;
            for a in u0..=u1 {
                for b in v0..=v1 {
                    if a < 0 || b < 0 || a >= ow as i64 || b >= oh as i64 {
                        ensure!(!sure, "reference places ({x}, {y}) at ({u}, {v}) outside {ow}x{oh}");
                        continue;
                    }
                    let i = b as usize * ow as usize + a as usize;
                    sources[i].push((y * w + x) as usize);
                    doubt[i] |= !sure;
                }
            }
        }
    }
    let ch = l.ch as usize;
    let zero = vec![0.0f32; ch];
    for i in 0..sources.len() {
        let o = &out.data()[i * ch..(i + 1) * ch];
        let (x, y) = (i % ow as usize, i / ow as usize);
        if sources[i].is_empty() {
            ensure!(o == &zero[..], "{what}: pixel ({x}, {y}) is {o:?}, but no input pixel is moved there");
            continue;
        }
        if doubt[i] && o == &zero[..] {
            continue;
        }
        let hit = sources[i].iter().any(|s| &img.data()[s * ch..(s + 1) * ch] == o);
        ensure!(hit, "{what}: pixel ({x}, {y}) is {o:?}, expected {:?} from pixel {}", &img.data()[sources[i][0] * ch..(sources[i][0] + 1) * ch], sources[i][0]);
    }
    // along one axis no pixel is lost: rows (columns) reappear whole
    if mode != 2 {
        let kept = out.data().chunks(ch).filter(|p| *p != &zero[..]).count();
        ensure!(kept == (w * h) as usize, "{what}: {kept} of {} pixels are left", w * h);
        for a in 0..(if mode == 0 { h } else { w }) as usize {
            let line: Vec<&[f32]> = if mode == 0 { (0..ow as usize).map(|x| px(&out, x, a)).collect() } else { (0..oh as usize).map(|y| px(&out, a, y)).collect() };
            let got: Vec<&[f32]> = line.iter().copied().skip_while(|p| *p == &zero[..]).take(if mode == 0 { w } else { h } as usize).collect();
            let exp: Vec<&[f32]> = if mode == 0 { (0..w as usize).map(|x| px(&img, x, a)).collect() } else { (0..h as usize).map(|y| px(&img, a, y)).collect() };
            ensure!(got == exp, "{what}: line {a} does not reappear in order");
        }
    }
    if sx == 0.0 && sy == 0.0 {
        same_image(&what, &out, &img)?;
    }
    c.label_if(unsure > 0, "positions too close to a whole number to decide");
    c.label_if(mode == 2 && sx != 0.0 && sy != 0.0, "both axes");
    c.label_if(sx < 0.0 || sy < 0.0, "negative");
    c.nontrivial(w > 1 && h > 1 && (sx != 0.0 || sy != 0.0));
    c.note(|| format!("({sx}, {sy}) -> {ow}x{oh} of {}", show(&img)));
    Ok(())
}

pub fn defs() -> Vec<PropertyDef> {
    vec![
        PropertyDef {
            id: "C15",
            rule: "random image of four channel types with distinct pixels, rectangles touching edges, rectangles that do not fit (also near u32::MAX), any offsets, both axes, against index arithmetic; configurations with and without multithreading; non-trivial: more than one row and column and a proper crop",
            subs: vec![sub("move", c15, 1500000, 22500000)],
        },
        PropertyDef {
            id: "C16",
            rule: "random pairs of images at random offsets (inside, sticking out, missing, near u32::MAX), random weights; non-trivial: the front changes the back at an offset (overlay), a covered sample and a weight strictly between 0 and 1 (superimpose)",
            subs: vec![sub("overlay", c16_overlay, 1500000, 22500000), sub("superimpose", c16_superimpose, 1500000, 22500000)],
        },
        PropertyDef {
            id: "C17",
            rule: "random images with distinct pixels and factors (whole, dyadic, reciprocal, close to 1, tiny) against the cell rule in f64, accepting both cells when a position is within float rounding of a boundary; with and without multithreading; non-trivial: more than one row and column in the result and a factor other than 1",
            subs: vec![sub("nearest", c17, 420000, 6300000)],
        },
        PropertyDef {
            id: "C18",
            rule: "random images, factors and kernel sizes against interpolation weights in f64; with and without multithreading; non-trivial: more than one row and column in the result, a factor other than 1, samples that differ",
            subs: vec![sub("interpolate", c18, 100000, 1500000), sub("constant", c18_constant, 200000, 3000000)],
        },
        PropertyDef {
            id: "C19",
            rule: "random images with distinct pixels and any finite angle against rotating pixel centres back in f64 (both pixels accepted within float rounding of a boundary); quarter turns against exact permutations; non-trivial: more than one row and column, not a full turn",
            subs: vec![sub("rotate", c19, 1500000, 22500000), sub("quarter", c19_quarter, 440000, 6600000)],
        },
        PropertyDef {
            id: "C20",
            rule: "random images with distinct pixels and shear factors, many chosen so that products land next to whole numbers, against the map in f64; non-trivial: more than one row and column, a factor other than 0",
            subs: vec![sub("shear", c20, 1500000, 22500000)],
        },
    ]
}
