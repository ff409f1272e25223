//! C31 (configurations), C32 (memory), C34 (arguments), C35 (chains)

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::ops::{self, Op, Tol, V};
use crate::props::p_filter::{kernel, square_kernel};
use crate::props::p_tone::{bad_bias, is_err, is_ok};
use crate::serve::{ask_all, call, draw, Out};
use imgproc_rs::enums::{Bilateral, Scale, Thresh, White};
use imgproc_rs::image::{BaseImage, Image};
use imgproc_rs::{colorspace as cs, filter, morphology, tone, transform, util};

// ---------------------------------------------------------------- C31

fn agree(tol: Tol, a: &V, b: &V) -> R {
    ensure!(a.is_f() == b.is_f() && a.dims() == b.dims(), "shapes differ: {:?} and {:?}", a.dims(), b.dims());
    ensure!(a.len() == b.len(), "numbers of samples differ: {} and {}", a.len(), b.len());
    match (a, b) {
        (V::U(x), V::U(y)) => {
            for (i, (p, q)) in x.data().iter().zip(y.data()).enumerate() {
                ensure!(p == q || tol == Tol::Round && p.abs_diff(*q) <= 1, "{} is {p} and {q}", pos(x.info(), i));
            }
        }
        (V::F(x), V::F(y)) => {
            let m = x.data().iter().filter(|v| v.is_finite()).fold(0.0f64, |m, v| m.max(v.abs() as f64));
            let slack = if tol == Tol::Exact { 0.0 } else { 1e-4 * m + 1e-5 };
            for (i, (p, q)) in x.data().iter().zip(y.data()).enumerate() {
                let same = p == q || p.is_nan() && q.is_nan() || (*p as f64 - *q as f64).abs() <= slack;
                ensure!(same, "{} is {p} and {q}", pos(x.info(), i));
            }
        }
        _ => {}
    }
    Ok(())
}

fn kind(name: &str) -> String {
    name.split(|ch: char| ch == '(' || ch == ' ').next().unwrap_or("").to_string()
}

fn c31_small(c: &mut Case) -> R {
    c31(c, false)
}
fn c31_big(c: &mut Case) -> R {
    c31(c, true)
}

fn c31(c: &mut Case, big: bool) -> R {
    let (v, o) = draw(c, big);
    let mut request = c.trace.clone();
    let mut first = String::new();
    if !big && c.chance(1, 3) {
        // Only here, first, the same with one choice changed: the result must not depend on what was done before
        let mut other = request.clone();
        let k = c.choice(other.len() as u64) as usize;
        let old = other[k];
        other[k] = match c.choice(3) { 0 => old.saturating_add(1), 1 => old.saturating_sub(1), _ => c.choice(old.saturating_mul(2).saturating_add(10)) };
        let (v2, o2) = draw(&mut Case::fixed(other), false);
        let _ = guarded(|| (o2.f)(&v2));
        first = format!(" (after {} of {})", clip(&o2.name, 200), clip(&v2.show(), 200));
        c.label("another call first");
    }
    request.push(big as u64);
    let mine = call(&v, &o);
    let input = v.show();
    let run = |what: &str, out: &Out| -> R {
        let pre = || format!("{} of {}{first}", clip(&o.name, 300), clip(&input, 300));
        match (&mine, out) {
            (_, Out::Unstable) => Err(format!("{}: with {what} two equal calls give different results", pre())),
            (Out::Value(a), Out::Value(b)) => agree(o.tol, a, b).map_err(|m| format!("{}: this configuration and {what} disagree: {m}", pre())),
            (Out::Error(_), Out::Error(_)) | (Out::Panic(_), Out::Panic(_)) => Ok(()),
            (a, b) => Err(format!("{}: {} here, but {} with {what}", pre(), clip(&a.show(), 300), clip(&b.show(), 300))),
        }
    };
    run("this configuration itself", &mine)?;
    for (name, r) in ask_all(&request) {
        match r {
            Err(m) => return Err(format!("{} of {}: {name}: {m}", clip(&o.name, 300), clip(&input, 300))),
            Ok(out) => run(&name, &out)?,
        }
        c.count(1);
    }
    c.label(kind(&o.name));
    match &mine {
        Out::Error(_) => c.label("an error"),
        Out::Panic(_) => c.label("a panic"),
        _ => {}
    }
    c.nontrivial(match &mine {
        Out::Value(x) => x.len() > 1 && !x.same(&v),
        _ => true,
    });
    c.note(|| format!("{} of {input}", o.name));
    Ok(())
}

// ---------------------------------------------------------------- C32

/// Memory errors end the process (the sanitizer's report); this only has to make the calls
fn c32_simd(c: &mut Case) -> R {
    let l = if c.chance(1, 4) { layout(c) } else { layout_rgb(c) };
    let (w, h) = match c.choice(4) {
        0 => (c.int(1, 140) as u32, 1),
        1 => (1, c.int(1, 140) as u32),
        2 => (c.int(1, 40) as u32, c.int(1, 40) as u32),
        _ => dims(c, 70),
    };
    let img = img_u8(c, w, h, l);
    let b = c.int(-255, 255) as i16;
    let n = c.pick(&[0u8, 1, 2, 3, 4, 5, 31, 32, 255]);
    let what = format!("{w}x{h} {l:?}");
    let all = |o: &U, ch: usize| -> R {
        ensure!(o.data().len() == (w * h) as usize * ch, "{what}: {} samples", o.data().len());
        Ok(())
    };
    #[cfg(all(feature = "simd", target_arch = "x86_64"))]
    if is_x86_feature_detected!("avx2") {
        unsafe {
            all(&imgproc_rs::simd::adds_256_u8(&img, b), l.ch as usize)?;
            all(&imgproc_rs::simd::adds_n_256_u8(&img, b, n), l.ch as usize)?;
            if l == RGB {
                all(&imgproc_rs::simd::avg_256_u8(&img), 1)?;
            }
            if l == RGBA {
                all(&imgproc_rs::simd::avg_alpha_256_u8(&img), 2)?;
            }
            if w * h >= 32 && l.ch >= 3 {
                // the last whole vector of pixels
                let k = c.pick(&[(w * h) as usize - 32, 0]) * l.ch as usize;
                if l == RGB {
                    std::hint::black_box(imgproc_rs::simd::deinterleave_3_256_u8(&img, k));
                } else {
                    std::hint::black_box(imgproc_rs::simd::deinterleave_4_256_u8(&img, k));
                }
            }
        }
    }
    all(&tone::brightness(&img, b).map_err(|e| format!("{e:?}"))?, l.ch as usize)?;
    if l.ch >= 3 {
        all(&tone::saturation(&img, b).map_err(|e| format!("{e:?}"))?, l.ch as usize)?;
        all(&cs::rgb_to_grayscale(&img), l.ch as usize - 2)?;
    }
    c.label_if(img.data().len() % 32 != 0, "partial last vector");
    c.label_if(img.data().len() < 32, "less than a vector");
    c.nontrivial(img.data().len() % 32 != 0 || img.data().len() >= 32);
    c.note(|| format!("bias {b} channel {n} {}", show(&img)));
    Ok(())
}

/// Every operation, with valid and with wild arguments: an error or a panic is memory safe
fn c32_ops(c: &mut Case) -> R {
    let any = c.chance(1, 4);
    let mut v = ops::start(c, 24, any);
    for _ in 0..c.int(1, 3) {
        let wild = c.bool();
        let o = ops::step(c, &v, wild);
        c.label(kind(&o.name));
        c.nontrivial(v.len() > 1);
        c.note(|| format!("{} of {}", o.name, v.show()));
        if let Ok(Ok(x)) = guarded(|| (o.f)(&v)) {
            // read everything that was returned
            let sum = match &x {
                V::U(i) => i.data().iter().map(|x| *x as f64).sum::<f64>(),
                V::F(i) => i.data().iter().map(|x| *x as f64).sum::<f64>(),
            };
            std::hint::black_box(sum);
            if (1..=4000).contains(&x.len()) {
                v = x;
            }
        }
    }
    Ok(())
}

/// Images with fewer or more samples than their size says (as `empty` makes them): a panic is memory safe
fn c32_malformed(c: &mut Case) -> R {
    let mut v = ops::start(c, 40, true);
    if c.chance(1, 3) {
        let l = layout_any(c);
        let (w, h) = (c.int(1, 150) as u32, c.int(1, 4) as u32);
        v = V::U(img_u8(c, w, h, l));
    }
    let wild = c.bool();
    let o = ops::step(c, &v, wild);
    let n = v.len();
    let m = match c.choice(5) {
        0 => 0,
        1 => n - 1 - c.choice(n.min(70) as u64) as usize,
        2 => c.choice(n as u64) as usize,
        3 => n + c.int(1, 70) as usize,
        _ => n / v.dims().2.ch as usize,
    };
    let (w, h, l) = v.dims();
    let bad = match &v {
        V::U(i) => V::U(Image::from_vec(w, h, l.ch, l.alpha, (0..m).map(|k| i.data()[k % n]).collect())),
        V::F(i) => V::F(Image::from_vec(w, h, l.ch, l.alpha, (0..m).map(|k| i.data()[k % n]).collect())),
    };
    if let Ok(Ok(x)) = guarded(|| (o.f)(&bad)) {
        let sum = match &x {
            V::U(i) => i.data().iter().map(|x| *x as f64).sum::<f64>(),
            V::F(i) => i.data().iter().map(|x| *x as f64).sum::<f64>(),
        };
        std::hint::black_box(sum);
    }
    c.label(kind(&o.name));
    c.label_if(m < n, "too few samples");
    c.nontrivial(m != n);
    c.note(|| format!("{} of {w}x{h} {l:?} with {m} samples", o.name));
    Ok(())
}

// ---------------------------------------------------------------- C34

fn odd_vec(c: &mut Case, max: i64) -> Vec<f32> {
    let n = 2 * c.int(0, max) as usize + 1;
    kernel(c, n)
}

fn bad_unit(c: &mut Case) -> f32 {
    match c.choice(3) {
        0 => c.pick(&[-1e-6f32, 1.0 + f32::EPSILON, 2.0, -1.0, 255.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN]),
        1 => c.int(257, 2000) as f32 / 256.0,
        _ => c.int(-2000, -1) as f32 / 256.0,
    }
}

fn good_unit(c: &mut Case) -> f32 {
    match c.choice(2) {
        0 => c.pick(&[0.0f32, 1.0, 1.0 - f32::EPSILON, f32::MIN_POSITIVE, -0.0]),
        _ => c.int(0, 256) as f32 / 256.0,
    }
}

fn negative(c: &mut Case) -> f32 {
    match c.choice(2) {
        0 => c.pick(&[-1e-6f32, -1.0, f32::NEG_INFINITY, f32::MIN, -f32::MIN_POSITIVE, f32::NAN]),
        _ => -(c.int(1, 5000) as f32) / 256.0,
    }
}

fn even(c: &mut Case) -> u32 {
    match c.choice(2) {
        0 => c.pick(&[0u32, 2, 4]),
        _ => 2 * c.int(1, 20) as u32,
    }
}

/// Kernel lengths so long that squares and numbers next to squares are hard to tell apart in f32
fn c34_long(c: &mut Case) -> R {
    let side = 2 * c.int(2040, 2200) as usize + 1;
    let d = c.pick(&[2i64, -2, 4, -4, 6]);
    let n = (side as i64 * side as i64 + d) as usize;
    let mut kernel = vec![0.0f32; n];
    // the largest entry lies beyond the last whole row
    let i = c.pick(&[n - 1, 0, n / 2]);
    kernel[i] = 1.0;
    let l = layout(c);
    let img = img_f32(c, 1, 1, l);
    is_err(&format!("linear_filter with {side}^2 + {d} entries"), || filter::linear_filter(&img, &kernel))?;
    is_err(&format!("unseparable_filter with {side}^2 + {d} entries"), || filter::unseparable_filter(&img, &kernel))?;
    c.nontrivial(true);
    c.note(|| format!("{side}^2 + {d} entries"));
    Ok(())
}

fn not_gray(c: &mut Case) -> Layout {
    c.pick(&[RGB, RGBA, Layout { ch: 2, alpha: false }, Layout { ch: 1, alpha: true }, Layout { ch: 3, alpha: true }, Layout { ch: 5, alpha: false }])
}

fn thresh(c: &mut Case) -> Thresh {
    match c.choice(5) {
        0 => Thresh::Binary,
        1 => Thresh::BinaryInv,
        2 => Thresh::Trunc,
        3 => Thresh::ToZero,
        _ => Thresh::ToZeroInv,
    }
}

fn method(c: &mut Case) -> Scale {
    match c.choice(4) {
        0 => Scale::NearestNeighbor,
        1 => Scale::Bilinear,
        2 => Scale::Bicubic,
        _ => Scale::Lanczos,
    }
}

fn small(c: &mut Case) -> (u32, u32) {
    (c.int(1, 6) as u32, c.int(1, 6) as u32)
}

/// Tone operations
fn c34_tone(c: &mut Case) -> R {
    let (w, h) = small(c);
    let l = layout_rgb(c);
    let img = img_u8(c, w, h, l);
    let k = c.choice(6);
    let (bb, bu, gu) = (bad_bias(c), bad_unit(c), good_unit(c));
    let gb = if c.bool() { c.pick(&[255i16, -255, 0, 1, -1]) } else { c.int(-255, 255) as i16 };
    let neg = negative(c);
    let white = White::D65;
    match k {
        0 => {
            is_err(&format!("brightness {bb}"), || tone::brightness(&img, bb))?;
            is_ok(&format!("brightness {gb}"), || tone::brightness(&img, gb))?;
        }
        1 => {
            is_err(&format!("brightness_lab {bb}"), || tone::brightness_lab(&img, bb))?;
            is_ok(&format!("brightness_lab {gb}"), || tone::brightness_lab(&img, gb))?;
        }
        2 => {
            is_err(&format!("saturation {bb}"), || tone::saturation(&img, bb))?;
            is_ok(&format!("saturation {gb}"), || tone::saturation(&img, gb))?;
        }
        3 => {
            is_err(&format!("contrast {bu}"), || tone::contrast(&img, bu))?;
            is_ok(&format!("contrast {gu}"), || tone::contrast(&img, gu))?;
            is_err(&format!("contrast_lab {bu}"), || tone::contrast_lab(&img, bu))?;
            is_ok(&format!("contrast_lab {gu}"), || tone::contrast_lab(&img, gu))?;
        }
        4 => {
            is_err(&format!("gamma {neg}"), || tone::gamma(&img, neg, 255))?;
            let g = c.pick(&[0.0f32, f32::MIN_POSITIVE, 1.0, 1e6]);
            is_ok(&format!("gamma {g}"), || tone::gamma(&img, g, 255))?;
        }
        _ => {
            let p = c.pick(&[1.0f32, 0.5, 255.0]);
            is_err(&format!("histogram_equalization amount {bu}"), || tone::histogram_equalization(&img, bu, &white, p))?;
            is_err(&format!("histogram_equalization precision {neg}"), || tone::histogram_equalization(&img, gu, &white, neg))?;
            is_ok(&format!("histogram_equalization amount {gu}"), || tone::histogram_equalization(&img, gu, &white, p))?;
            is_ok("histogram_equalization precision 0", || tone::histogram_equalization(&img, gu, &white, 0.0))?;
        }
    }
    c.label(format!("kind {k}"));
    c.nontrivial(true);
    c.note(|| format!("kind {k}: {bb} {bu} {gu} {neg} on {}", show(&img)));
    Ok(())
}

fn rect(c: &mut Case, n: u32, fits: bool) -> (u32, u32) {
    if fits {
        let s = c.int(1, n as i64) as u32;
        (if c.bool() { n - s } else { c.int(0, (n - s) as i64) as u32 }, s)
    } else {
        // past the edge by one, by much, or past the range of u32
        let s = c.int(1, n as i64 + 2) as u32;
        let x = (n + 1).saturating_sub(s);
        match c.choice(4) {
            0 => (x, s),
            1 => (x + c.int(0, 300) as u32, s),
            2 => (c.int(1, 9) as u32, u32::MAX - c.int(0, 8) as u32),
            _ => (u32::MAX - c.int(0, 8) as u32, s),
        }
    }
}

/// Geometric operations
fn c34_transform(c: &mut Case) -> R {
    let (w, h) = small(c);
    let l = layout(c);
    let img = img_f32(c, w, h, l);
    let k = c.choice(5);
    let (bu, gu, neg) = (bad_unit(c), good_unit(c), negative(c));
    match k {
        0 => {
            let which = c.choice(3);
            let (x, a) = rect(c, w, which == 1);
            let (y, b) = rect(c, h, which == 0);
            is_err(&format!("crop({x}, {y}, {a}, {b}) of {w}x{h}"), || transform::crop(&img, x, y, a, b))?;
            let (x, a) = rect(c, w, true);
            let (y, b) = rect(c, h, true);
            is_ok(&format!("crop({x}, {y}, {a}, {b}) of {w}x{h}"), || transform::crop(&img, x, y, a, b))?;
        }
        1 => {
            let (a, b) = small(c);
            let other = layout(c);
            let front = img_f32(c, a, b, other);
            let (x, y) = (c.pick(&[0u32, 1, 3, 7, u32::MAX, u32::MAX - 2]), c.pick(&[0u32, 1, 3, 7, u32::MAX]));
            let what = format!("of {a}x{b} {other:?} on {w}x{h} {l:?} at ({x}, {y})");
            if other.ch != l.ch {
                is_err(&format!("overlay {what}"), || transform::overlay(&img, &front, x, y))?;
                is_err(&format!("superimpose {what}"), || transform::superimpose(&img, &front, x, y, gu))?;
                c.label("different channels");
            } else {
                is_ok(&format!("overlay {what}"), || transform::overlay(&img, &front, x, y))?;
                is_ok(&format!("superimpose weight {gu} {what}"), || transform::superimpose(&img, &front, x, y, gu))?;
                is_err(&format!("superimpose weight {bu} {what}"), || transform::superimpose(&img, &front, x, y, bu))?;
            }
        }
        2 | 3 => {
            let good = c.pick(&[0.0f32, 1.0, 0.01, 0.5, 2.5, 3.0, -0.0]);
            let (fx, fy) = if c.bool() { (neg, good) } else { (good, neg) };
            let m = c.choice(4);
            let n = c.int(1, 4) as u32;
            let mk_m = || match m { 0 => Scale::NearestNeighbor, 1 => Scale::Bilinear, 2 => Scale::Bicubic, _ => Scale::Lanczos };
            is_err(&format!("scale({fx}, {fy}, method {m}) of {w}x{h}"), || transform::scale(&img, fx, fy, mk_m()))?;
            is_err(&format!("scale_lanczos({fx}, {fy}, {n}) of {w}x{h}"), || transform::scale_lanczos(&img, fx, fy, n))?;
            let g2 = c.pick(&[0.0f32, 1.0, 0.01, 0.5, 2.5, 3.0]);
            is_ok(&format!("scale({good}, {g2}, method {m}) of {w}x{h}"), || transform::scale(&img, good, g2, mk_m()))?;
            is_ok(&format!("scale_lanczos({good}, {g2}, {n}) of {w}x{h}"), || transform::scale_lanczos(&img, good, g2, n))?;
        }
        _ => {
            let (x, y) = (c.pick(&[0u32, 1, 6, 7, 1 << 31, u32::MAX]), c.pick(&[0u32, 1, 6, 7, 1 << 31, u32::MAX]));
            is_ok(&format!("translate({x}, {y}) of {w}x{h}"), || transform::translate(&img, x, y))?;
        }
    }
    c.label(format!("kind {k}"));
    c.nontrivial(true);
    c.note(|| format!("kind {k}: {bu} {gu} {neg} on {}", show(&img)));
    Ok(())
}

/// Filters and morphology
fn c34_filter(c: &mut Case) -> R {
    let (w, h) = small(c);
    let k = c.choice(13);
    let l = layout(c);
    let img = img_f32(c, w, h, l);
    let gl = layout_gray(c);
    let gray = img_f32(c, w, h, gl);
    let nl = not_gray(c);
    let other = img_f32(c, w, h, nl);
    let what = format!("{w}x{h} {l:?}");
    let e = even(c);
    match k {
        0 => {
            let v = c.bool();
            let bad = kernel(c, e as usize);
            is_err(&format!("filter_1d with {e} entries"), || filter::filter_1d(&img, &bad, v))?;
            let good = odd_vec(c, 4);
            is_ok(&format!("filter_1d with {} entries of {what}", good.len()), || filter::filter_1d(&img, &good, v))?;
        }
        1 => {
            let (a, b) = (odd_vec(c, 3), odd_vec(c, 3));
            let what = format!("separable_filter with {} and {} entries of {what}", a.len(), b.len());
            if a.len() == b.len() {
                is_ok(&what, || filter::separable_filter(&img, &a, &b))?;
            } else {
                is_err(&what, || filter::separable_filter(&img, &a, &b))?;
            }
            let bad = kernel(c, e as usize);
            is_err(&format!("separable_filter with {e} entries twice"), || filter::separable_filter(&img, &bad, &bad))?;
            is_err(&format!("separable_filter with {} and {e} entries", a.len()), || filter::separable_filter(&img, &a, &bad))?;
            is_err(&format!("separable_filter with {e} and {} entries", a.len()), || filter::separable_filter(&img, &bad, &a))?;
        }
        2 => {
            // lengths that are not an odd square
            let n = loop_len(c);
            let bad = kernel(c, n);
            is_err(&format!("linear_filter with {n} entries"), || filter::linear_filter(&img, &bad))?;
            is_err(&format!("unseparable_filter with {n} entries"), || filter::unseparable_filter(&img, &bad))?;
            let z = c.pick(&[1usize, 3, 5, 7]);
            let good = square_kernel(c, z);
            is_ok(&format!("linear_filter with {good:?} of {what}"), || filter::linear_filter(&img, &good))?;
            is_ok(&format!("unseparable_filter with {good:?} of {what}"), || filter::unseparable_filter(&img, &good))?;
        }
        3 => {
            let s = c.pick(&[0.5f32, 1.0, 3.0]);
            let e = if c.chance(1, 4) { c.pick(&[1u32 << 10, 1 << 16, 1 << 31, u32::MAX - 1]) } else { e };
            is_err(&format!("box_filter {e}"), || filter::box_filter(&img, e))?;
            is_err(&format!("weighted_avg_filter {e}"), || filter::weighted_avg_filter(&img, e, 2))?;
            is_err(&format!("gaussian_blur {e}"), || filter::gaussian_blur(&img, e, s))?;
            is_err(&format!("generate_gaussian_kernel {e}"), || util::generate_gaussian_kernel(e, s))?;
            is_err(&format!("generate_log_kernel {e}"), || util::generate_log_kernel(e, s))?;
            is_err(&format!("laplacian_of_gaussian {e}"), || filter::laplacian_of_gaussian(&gray, e, s))?;
            let o = 2 * c.int(0, 4) as u32 + 1;
            is_ok(&format!("box_filter {o}"), || filter::box_filter(&img, o))?;
            is_ok(&format!("weighted_avg_filter {o}"), || filter::weighted_avg_filter(&img, o, 2))?;
            is_ok(&format!("gaussian_blur {o}"), || filter::gaussian_blur(&img, o, s))?;
            is_ok(&format!("generate_gaussian_kernel {o}"), || util::generate_gaussian_kernel(o, s))?;
            is_ok(&format!("generate_log_kernel {o}"), || util::generate_log_kernel(o, s))?;
            is_ok(&format!("laplacian_of_gaussian {o}"), || filter::laplacian_of_gaussian(&gray, o, s))?;
        }
        4 => {
            let m = thresh(c);
            let (t, x) = (c.int(-10, 300) as f32, c.int(0, 255) as f32);
            is_err(&format!("threshold of {nl:?}"), || filter::threshold(&other, t, x, m))?;
            let m = thresh(c);
            is_ok(&format!("threshold of {gl:?}"), || filter::threshold(&gray, t, x, m))?;
        }
        5 => {
            let (a, b) = small(c);
            let l2 = layout(c);
            let second = img_f32(c, a, b, l2);
            let what = format!("residual of {w}x{h} {l:?} and {a}x{b} {l2:?}");
            if (a, b, l2) == (w, h, l) {
                is_ok(&what, || filter::residual(&img, &second))?;
            } else {
                is_err(&what, || filter::residual(&img, &second))?;
            }
            // the same samples in another shape
            let n = count(w, h, l) as u32;
            if (w, h) != (h, w) {
                let turned = mk(h, w, l, img.data().to_vec());
                is_err(&format!("residual of {w}x{h} and {h}x{w}"), || filter::residual(&img, &turned))?;
            }
            if l == GRAYA {
                let turned = mk(w, h, Layout { ch: 2, alpha: false }, img.data().to_vec());
                is_err("residual of two channels with and without alpha", || filter::residual(&img, &turned))?;
            }
            if l != GRAY {
                let flat: Image<f32> = mk(n, 1, GRAY, img.data().to_vec());
                is_err("residual of different layouts", || filter::residual(&img, &flat))?;
            }
            is_ok("residual with itself", || filter::residual(&img, &img))?;
        }
        6 | 7 => {
            let (a, b) = (odd_vec(c, 3), odd_vec(c, 3));
            let q = c.int(0, 9) as u32;
            is_err(&format!("prewitt of {nl:?}"), || filter::prewitt(&other))?;
            is_err(&format!("sobel of {nl:?}"), || filter::sobel(&other))?;
            is_err(&format!("sobel_weighted {q} of {nl:?}"), || filter::sobel_weighted(&other, q))?;
            is_err(&format!("derivative_mask of {nl:?}"), || filter::derivative_mask(&other, &a, &a))?;
            is_err(&format!("normalize_laplacian of {nl:?}"), || filter::normalize_laplacian(&other))?;
            is_ok(&format!("prewitt of {gl:?}"), || filter::prewitt(&gray))?;
            is_ok(&format!("sobel of {gl:?}"), || filter::sobel(&gray))?;
            is_ok(&format!("sobel_weighted {q} of {gl:?}"), || filter::sobel_weighted(&gray, q))?;
            let what = format!("derivative_mask with {} and {} entries of {gl:?}", a.len(), b.len());
            if a.len() == b.len() {
                is_ok(&what, || filter::derivative_mask(&gray, &a, &b))?;
            } else {
                is_err(&what, || filter::derivative_mask(&gray, &a, &b))?;
            }
        }
        8 => {
            let bytes = img_u8(c, w, h, l);
            let r = c.int(0, 4) as u32;
            let size = (2 * r + 1) * (2 * r + 1);
            let odd = match c.choice(3) {
                0 => 2 * c.int(0, size as i64) as u32 + 1,
                1 => u32::MAX,
                _ => size,
            };
            is_err(&format!("alpha_trimmed_mean_filter radius {r} alpha {odd}"), || filter::alpha_trimmed_mean_filter(&bytes, r, odd))?;
            let far = c.pick(&[1u32 << 15, 1 << 16, 1 << 31, u32::MAX]);
            is_err(&format!("alpha_trimmed_mean_filter radius {far} alpha {odd}"), || filter::alpha_trimmed_mean_filter(&bytes, far, odd))?;
            let big = c.pick(&[size + 1, u32::MAX - 1, 1 << 31, size + 3]);
            is_err(&format!("alpha_trimmed_mean_filter radius {r} alpha {big}"), || filter::alpha_trimmed_mean_filter(&bytes, r, big))?;
            let good = if c.bool() { size - 1 } else { 2 * c.int(0, (size / 2) as i64) as u32 };
            is_ok(&format!("alpha_trimmed_mean_filter radius {r} alpha {good} of {what}"), || filter::alpha_trimmed_mean_filter(&bytes, r, good))?;
        }
        9 => {
            let l = layout_rgb(c);
            let bytes = img_u8(c, w, h, l);
            let neg = negative(c);
            let g = c.pick(&[0.5f32, 1.0, 10.0, f32::MIN_POSITIVE, 1e-3]);
            let s = c.pick(&[0.5f32, 1.0, 0.25, 1e-3]);
            is_err(&format!("bilateral_filter({neg}, {s})"), || filter::bilateral_filter(&bytes, neg, s, Bilateral::Direct))?;
            is_err(&format!("bilateral_filter({g}, {neg})"), || filter::bilateral_filter(&bytes, g, neg, Bilateral::Direct))?;
            is_ok(&format!("bilateral_filter({g}, {s}) of {w}x{h} {l:?}"), || filter::bilateral_filter(&bytes, g, s, Bilateral::Direct))?;
        }
        10 | 11 => {
            let bad = img_u8(c, w, h, nl);
            let r = if c.chance(1, 8) { c.pick(&[100u32, 1000, 65536, 1 << 20, 1 << 31, u32::MAX]) } else { c.int(0, 8) as u32 };
            let bin = img_bits(c, w, h, gl);
            let fs: [(&str, fn(&U, u32) -> imgproc_rs::error::ImgProcResult<U>); 6] = [("erode", morphology::erode), ("dilate", morphology::dilate), ("majority", morphology::majority), ("open", morphology::open), ("close", morphology::close), ("gradient", morphology::gradient)];
            for (n, f) in fs {
                is_err(&format!("{n} {r} of {nl:?}"), || f(&bad, r))?;
                is_ok(&format!("{n} {r} of {w}x{h} {gl:?}"), || f(&bin, r))?;
            }
        }
        _ => {
            // helpers
            let n = c.int(1, 5) as usize;
            let m = c.int(0, 30) as usize;
            let (mat, v) = (kernel(c, m), kernel(c, n));
            let mut o = Vec::new();
            let what = format!("vector_mul of {m} entries by {n}");
            if m == n * n {
                is_ok(&what, || util::vector_mul(&mat, &v))?;
                is_ok(&what, std::panic::AssertUnwindSafe(|| util::vector_mul_mut(&mat, &v, &mut o)))?;
            } else {
                is_err(&what, || util::vector_mul(&mat, &v))?;
                is_err(&what, std::panic::AssertUnwindSafe(|| util::vector_mul_mut(&mat, &v, &mut o)))?;
            }
            let neg = negative(c);
            let x = c.int(-20, 20) as f32 / 4.0;
            is_err(&format!("gaussian_fn({x}, {neg})"), || util::gaussian_fn(x, neg))?;
            is_ok(&format!("gaussian_fn({x}, 2)"), || util::gaussian_fn(x, 2.0))?;
            let z = c.int(1, 6) as u32;
            is_err(&format!("generate_spatial_mat({z}, {neg})"), || util::generate_spatial_mat(z, neg))?;
            is_ok(&format!("generate_spatial_mat({z}, 1.5)"), || util::generate_spatial_mat(z, 1.5))?;
        }
    }
    c.label(format!("kind {k}"));
    c.nontrivial(true);
    c.note(|| format!("kind {k} on {}", show(&img)));
    Ok(())
}

/// A length that is not the square of an odd number
fn loop_len(c: &mut Case) -> usize {
    let n = match c.choice(3) {
        0 => c.pick(&[0usize, 2, 3, 4, 5, 7, 8, 10, 16, 24, 26, 36, 48, 50]),
        1 => (c.int(1, 10) * c.int(1, 10) * 2) as usize,
        _ => c.int(0, 130) as usize,
    };
    let r = (n as f64).sqrt().round() as usize;
    if n % 2 == 1 && r * r == n { n + 2 } else { n }
}

// ---------------------------------------------------------------- C35

fn well_formed(what: &str, v: &V) -> R {
    let (w, h, l) = v.dims();
    ensure!(v.len() == w as usize * h as usize * l.ch as usize, "{what}: {w}x{h} with {} channels holds {} samples", l.ch, v.len());
    Ok(())
}

fn apply(what: &str, v: &V, o: &Op) -> Result<V, String> {
    let before = v.clone();
    let out = guarded(|| (o.f)(v)).map_err(|p| format!("{what}: panics: {p}"))?.map_err(|e| format!("{what}: fails: {e}"))?;
    ensure!(v.same(&before), "{what}: the input image is modified");
    well_formed(what, &out)?;
    if let Some((f, w, h, l)) = o.shape {
        ensure!(out.is_f() == f && out.dims() == (w, h, l), "{what}: returns {} {:?}, expected {:?}", if out.is_f() { "f32" } else { "u8" }, out.dims(), (w, h, l));
    }
    if let Some(m) = &o.model {
        agree(Tol::Exact, m, &out).map_err(|e| format!("{what}: the model and the result differ: {e}"))?;
    }
    Ok(out)
}

fn c35(c: &mut Case) -> R {
    let any = c.chance(1, 8);
    let mut v = ops::start(c, 20, any);
    let steps = c.int(1, 14);
    let mut names: Vec<String> = Vec::new();
    let mut modelled = 0;
    let mut kinds = std::collections::BTreeSet::new();
    for i in 0..steps {
        if v.is_empty() {
            break;
        }
        let (w, h, _) = v.dims();
        let o = if w as u64 * h as u64 > 3000 {
            // keep the images small
            ops::crop(&v, c.int(1, 20).min(w as i64) as u32, c.int(1, 20).min(h as i64) as u32)
        } else {
            ops::step(c, &v, false)
        };
        let what = format!("step {i}: {} of {} (after {})", clip(&o.name, 200), clip(&v.show(), 200), clip(&names.join(", "), 300));
        let out = apply(&what, &v, &o)?;
        modelled += o.model.is_some() as u32;
        kinds.insert(kind(&o.name));
        names.push(clip(&o.name, 60));
        v = out;
    }
    for k in &kinds {
        c.label(k.clone());
    }
    c.label_if(kinds.len() >= 4, "four or more kinds of operation");
    c.nontrivial(kinds.len() >= 3 && modelled >= 1);
    c.note(|| names.join(" -> "));
    Ok(())
}

pub fn defs() -> Vec<PropertyDef> {
    vec![
        PropertyDef {
            id: "C31",
            rule: "A random image (any type and layout, mostly up to 40x40, sometimes beyond 250 pixels on a side) and a random operation with random, one time in three wild, arguments; the call is made twice here and twice in a process of every other configuration and thread count, and all outcomes are compared. Comparisons count the answers of other processes. Non-trivial: the operation changed the image, or failed.",
            subs: vec![sub("agree", c31_small, 100000, 3000000), sub("large", c31_big, 600, 9000)],
        },
        PropertyDef {
            id: "C32",
            rule: "Run under AddressSanitizer. simd: the vector operations on images of every length class with buffers of exactly the image's size. ops: one to three random operations with valid and wild arguments. malformed: an operation on an image whose buffer is shorter or longer than its size says. Any report of the sanitizer or crash is a violation. Non-trivial: a malformed image, more than one pixel, or a length that needs a whole vector or a partial one.",
            subs: vec![sub("simd", c32_simd, 1500000, 22500000), sub("ops", c32_ops, 820000, 12300000), sub("malformed", c32_malformed, 300000, 4500000)],
        },
        PropertyDef {
            id: "C34",
            rule: "For every fallible operation, argument values just outside, far outside and exactly on the boundary of its restriction on random small images, and kernel lengths of 16 million and more that are almost squares; outside must give an error (no result, no panic), inside a result. Every case is non-trivial: it makes at least one call of each kind where both exist.",
            subs: vec![sub("tone", c34_tone, 1500000, 22500000), sub("transform", c34_transform, 1500000, 22500000), sub("filter", c34_filter, 920000, 13800000), sub("long", c34_long, 24, 360)],
        },
        PropertyDef {
            id: "C35",
            rule: "Chains of up to 14 random operations with valid arguments from a random image; after each step: well-formed result of the documented shape, input untouched, equal to the model where the operation is exact. Non-trivial: at least three kinds of operation and one modelled step.",
            subs: vec![sub("chain", c35, 300000, 4500000)],
        },
    ]
}
