//! C36, C37: numeric helpers and kernels

use crate::engine::*;
use crate::ensure;
use crate::props::p_filter::square_kernel;
use crate::props::p_tone::{is_err, ok};
use crate::props::p_transform::{lanczos, sinc};
use crate::refs;
use imgproc_rs::image::Number;
use imgproc_rs::util::{self, constants as k};

fn float(c: &mut Case) -> f32 {
    match c.choice(6) {
        0 => c.int(-3, 3) as f32,
        1 => c.int(-1000, 1000) as f32 / 64.0,
        2 => c.pick(&[0.0f32, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 1e-45, 1e30, -1e30]),
        3 => f32::from_bits(c.choice(1 << 32) as u32),
        _ => c.int(-30000, 30000) as f32 / 100.0,
    }
}

fn finite(c: &mut Case) -> f32 {
    let v = float(c);
    if v.is_finite() { v } else { 1.0 }
}

fn close(what: &str, got: f32, exp: f64, tol: f64) -> R {
    // values beyond the range of f32 become infinite
    if exp.abs() + tol > 3.4e38 && got.abs() > 3.39e38 && (got > 0.0) == (exp > 0.0) {
        return Ok(());
    }
    ensure!((got as f64 - exp).abs() <= tol, "{what} is {got}, expected {exp}");
    Ok(())
}

/// Positive numbers of every magnitude that f32 has
fn magnitude(c: &mut Case) -> f32 {
    let e = c.int(-148, 127) as i32;
    let m = 1.0 + c.int(0, 1023) as f64 / 1024.0;
    (m * 2f64.powi(e)) as f32
}

fn c36_extremes(c: &mut Case) -> R {
    let mut v = [finite(c), finite(c), finite(c), finite(c)];
    // ties
    for i in 1..4 {
        if c.chance(1, 4) {
            v[i] = v[c.choice(i as u64) as usize];
        }
    }
    let [a, b, d, e] = v;
    let max = |s: &[f32]| s.iter().fold(f32::MIN, |m, x| if *x > m { *x } else { m });
    let min = |s: &[f32]| s.iter().fold(f32::MAX, |m, x| if *x < m { *x } else { m });
    ensure!(util::max_3(a, b, d) == max(&v[..3]), "max_3({a}, {b}, {d}) is {}", util::max_3(a, b, d));
    ensure!(util::min_3(a, b, d) == min(&v[..3]), "min_3({a}, {b}, {d}) is {}", util::min_3(a, b, d));
    ensure!(util::max_4(a, b, d, e) == max(&v), "max_4({a}, {b}, {d}, {e}) is {}", util::max_4(a, b, d, e));
    ensure!(util::min_4(a, b, d, e) == min(&v), "min_4({a}, {b}, {d}, {e}) is {}", util::min_4(a, b, d, e));
    let z = if a > 0.0 { a } else { 0.0 };
    ensure!(util::clamp_zero(a) == z, "clamp_zero({a}) is {}", util::clamp_zero(a));
    c.nontrivial(a != b || b != d || d != e);
    c.label_if(a == b || b == d || d == e || a == d || a == e || b == e, "ties");
    c.note(|| format!("{v:?}"));
    Ok(())
}

/// All orderings (weak ones included) of four values
fn c36_orders(c: &mut Case) -> R {
    let i = c.choice(256);
    let v: Vec<f32> = (0..4).map(|j| ((i >> (2 * j)) & 3) as f32 - 1.0).collect();
    let mut s = v.clone();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ensure!(util::max_4(v[0], v[1], v[2], v[3]) == s[3], "max_4{v:?} is {}", util::max_4(v[0], v[1], v[2], v[3]));
    ensure!(util::min_4(v[0], v[1], v[2], v[3]) == s[0], "min_4{v:?} is {}", util::min_4(v[0], v[1], v[2], v[3]));
    let mut s = v[..3].to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ensure!(util::max_3(v[0], v[1], v[2]) == s[2], "max_3{:?} is {}", &v[..3], util::max_3(v[0], v[1], v[2]));
    ensure!(util::min_3(v[0], v[1], v[2]) == s[0], "min_3{:?} is {}", &v[..3], util::min_3(v[0], v[1], v[2]));
    c.nontrivial(s[0] != s[2]);
    c.note(|| format!("{v:?}"));
    Ok(())
}

fn mul_t<T: Number + std::fmt::Debug>(c: &mut Case, f: fn(i64) -> T) -> R {
    let n = if c.chance(1, 8) { c.int(7, 20) as usize } else { c.int(1, 6) as usize };
    let m: Vec<i64> = (0..n * n).map(|_| c.int(-50, 50)).collect();
    let v: Vec<i64> = (0..n).map(|_| c.int(-50, 50)).collect();
    let mt: Vec<T> = m.iter().map(|x| f(*x)).collect();
    let vt: Vec<T> = v.iter().map(|x| f(*x)).collect();
    let e: Vec<T> = (0..n).map(|i| f((0..n).map(|j| m[i * n + j] * v[j]).sum())).collect();
    let o = ok("vector_mul", util::vector_mul(&mt, &vt))?;
    ensure!(o == e, "vector_mul {m:?} {v:?} is {o:?}, expected {e:?}");
    let mut o2: Vec<T> = (0..c.choice(9)).map(|i| f(i as i64 + 3)).collect();
    ok("vector_mul_mut", util::vector_mul_mut(&mt, &vt, &mut o2))?;
    ensure!(o2 == e, "vector_mul_mut {m:?} {v:?} is {o2:?}, expected {e:?}");
    // matrices that do not fit
    let len = loop {
        let len = c.int(0, 40) as usize;
        if len != n * n {
            break len;
        }
        if c.trace.len() > 500 {
            break n * n + 1;
        }
    };
    let bad: Vec<T> = (0..len).map(|i| f(i as i64)).collect();
    is_err(&format!("vector_mul of {len} entries and a vector of {n}"), || util::vector_mul(&bad, &vt))?;
    is_err(&format!("vector_mul_mut of {len} entries and a vector of {n}"), || util::vector_mul_mut(&bad, &vt, &mut o2.clone()))?;
    c.nontrivial(n > 1);
    c.note(|| format!("{m:?} {v:?}"));
    Ok(())
}

fn c36_matrix(c: &mut Case) -> R {
    match c.choice(3) {
        0 => mul_t::<f32>(c, |v| v as f32),
        1 => mul_t::<i32>(c, |v| v as i32),
        _ => mul_t::<f64>(c, |v| v as f64),
    }
}

fn c36_functions(c: &mut Case) -> R {
    // coordinates
    let w = c.int_special(&[1, 2, 3, 65536, 1000003], 1, 4000) as u32;
    let i = match c.choice(3) { 0 => c.choice(1 << 32) as u32, 1 => (w as u64 * c.choice(50)).min(u32::MAX as u64) as u32, _ => c.choice(10000) as u32 };
    ensure!(util::get_2d_coords(i, w) == (i % w, i / w), "get_2d_coords({i}, {w}) is {:?}", util::get_2d_coords(i, w));
    // distance
    let p: Vec<u32> = match c.choice(4) {
        0 => (0..4).map(|_| c.choice(1 << 32) as u32).collect(),
        1 => {
            // near each other, far from the origin
            let b: Vec<u32> = (0..2).map(|_| c.choice((1 << 32) - 2000) as u32).collect();
            (0..4).map(|i| b[i % 2] + c.int(0, 2000) as u32).collect()
        }
        _ => (0..4).map(|_| c.int_special(&[0, 1], 0, 100000) as u32).collect(),
    };
    let (dx, dy) = (p[0] as f64 - p[2] as f64, p[1] as f64 - p[3] as f64);
    let e = (dx * dx + dy * dy).sqrt();
    close(&format!("distance{p:?}"), util::distance(p[0], p[1], p[2], p[3]), e, 1e-6 * e)?;
    // sinc, Lanczos
    let x = match c.choice(4) { 0 => c.int(-8, 8) as f32, 1 => c.int(-4000, 4000) as f32 / 500.0, 2 => c.pick(&[0.0f32, -0.0, 1e-3, 1e-10, 1e-40, 0.5]), _ => c.int(-100000, 100000) as f32 / 999.0 };
    let a = if c.chance(1, 4) { c.int(1, 90) as f32 / 10.0 } else { c.int(1, 9) as f32 };
    close(&format!("sinc_norm({x})"), util::sinc_norm(x), sinc(x as f64), 2e-6)?;
    close(&format!("lanczos_kernel({x}, {a})"), util::lanczos_kernel(x, a), lanczos(x as f64, a as f64), 4e-6)?;
    if x.abs() >= a {
        ensure!(util::lanczos_kernel(x, a) == 0.0, "lanczos_kernel({x}, {a}) is {}, beyond its support", util::lanczos_kernel(x, a));
    }
    close(&format!("sinc_norm(-{x}) against sinc_norm({x})"), util::sinc_norm(-x), util::sinc_norm(x) as f64, 1e-6)?;
    close(&format!("lanczos_kernel(-{x}, {a}) against its mirror"), util::lanczos_kernel(-x, a), util::lanczos_kernel(x, a) as f64, 1e-6)?;
    // cubic weights
    let t = match c.choice(3) { 0 => c.int(-4, 4) as f64 / 2.0, 1 => c.int(-2000, 2000) as f64 / 1000.0, _ => c.int(-512, 512) as f64 / 256.0 } as f32;
    let u = t.abs() as f64;
    let e = if u < 1.0 { 2.0 / 3.0 - u * u + u * u * u / 2.0 } else if u < 2.0 { (2.0 - u).powi(3) / 6.0 } else { 0.0 };
    close(&format!("cubic_weighting_fn({t})"), util::cubic_weighting_fn(t), e, 1e-5)?;
    let d = c.int(0, 1000) as f32 / 1000.0;
    let s: f32 = (-1..3).map(|m| util::cubic_weighting_fn(m as f32 - d)).sum();
    close(&format!("sum of the cubic weights at {d}"), s, 1.0, 2e-5)?;
    // Gaussian
    let sigma = match c.choice(4) { 0 => c.int(1, 40) as f32 / 8.0, 1 => c.pick(&[1.0f32, 0.01, 0.1, 100.0, 1e4]), 2 => c.int(1, 5000) as f32 / 100.0, _ => magnitude(c) };
    let g = match c.choice(4) { 0 => c.int(-6, 6) as f32, 1 => c.int(-600, 600) as f32 / 100.0 * sigma, 2 => c.int(-1000, 1000) as f32 / 50.0, _ => if c.bool() { magnitude(c) } else { -magnitude(c) } };
    let g = g.clamp(f32::MIN, f32::MAX);
    let q = (g as f64).powi(2) / (2.0 * (sigma as f64).powi(2));
    let e = (-q).exp() / (2.0 * std::f64::consts::PI * (sigma as f64).powi(2));
    let what = format!("gaussian_fn({g}, {sigma})");
    close(&what, ok(&what, util::gaussian_fn(g, sigma))?, e, e * 2e-6 * (1.0 + q) + 1e-37)?;
    close(&what, ok(&what, util::gaussian_fn(-g, sigma))?, e, e * 2e-6 * (1.0 + q) + 1e-37)?;
    is_err(&format!("gaussian_fn({g}, -{sigma})"), || util::gaussian_fn(g, -sigma))?;
    // Lab helpers
    let v = match c.choice(3) { 0 => c.int(0, 2000) as f32 / 1000.0, 1 => 0.008856452 + c.int(-200, 200) as f32 * 1e-6, _ => c.int(-200, 300) as f32 / 100.0 };
    let lf = util::xyz_to_lab_fn(v);
    close(&format!("xyz_to_lab_fn({v})"), lf, refs::lab_f(v as f64), 2e-6 * (1.0 + v.abs() as f64 * 8.0))?;
    let f = match c.choice(3) { 0 => c.int(0, 1500) as f32 / 1000.0, 1 => 0.20689655 + c.int(-200, 200) as f32 * 1e-6, _ => c.int(-100, 200) as f32 / 100.0 };
    close(&format!("lab_to_xyz_fn({f})"), util::lab_to_xyz_fn(f), refs::lab_f_inv(f as f64), 3e-6 * (1.0 + (f as f64).abs().powi(3)))?;
    close(&format!("lab_to_xyz_fn(xyz_to_lab_fn({v}))"), util::lab_to_xyz_fn(lf), v as f64, 4e-6 * (1.0 + v.abs() as f64))?;
    let v2 = v + c.int(1, 100) as f32 * 1e-3;
    ensure!(util::xyz_to_lab_fn(v2) > lf, "xyz_to_lab_fn({v2}) = {} is not larger than xyz_to_lab_fn({v}) = {lf}", util::xyz_to_lab_fn(v2));
    let f2 = f + c.int(1, 100) as f32 * 1e-2;
    ensure!(util::lab_to_xyz_fn(f2) > util::lab_to_xyz_fn(f), "lab_to_xyz_fn is not increasing between {f} and {f2}");
    c.nontrivial(x != 0.0 && g != 0.0);
    c.note(|| format!("index {i} width {w}, points {p:?}, x {x} a {a}, cubic {t}, gaussian {g} {sigma}, lab {v} {f}"));
    Ok(())
}

fn c36_table(c: &mut Case) -> R {
    let (a, b) = (c.u8(), c.int(1, 255) as u8);
    let mut t = [7u8; 256];
    util::generate_lookup_table(&mut t, |i| i.wrapping_mul(b).wrapping_add(a));
    for i in 0..256usize {
        let e = ((i * b as usize + a as usize) & 255) as u8;
        ensure!(t[i] == e, "lookup table of {b} * i + {a}: entry {i} is {}, expected {e}", t[i]);
    }
    let mut t = [0.0f32; 256];
    util::generate_lookup_table(&mut t, |i| i as f32 / b as f32);
    for i in 0..256usize {
        ensure!(t[i] == i as f32 / b as f32, "lookup table of i / {b}: entry {i} is {}", t[i]);
    }
    c.nontrivial(b > 1);
    c.note(|| format!("{b} * i + {a}"));
    Ok(())
}

// ---------------------------------------------------------------- C37

fn c37_kernels(c: &mut Case) -> R {
    let n = if c.chance(1, 2000) { (2 * c.int(10, 300) + 1) as usize } else { (2 * c.int(0, 9) + 1) as usize };
    let sigma = match c.choice(20) { 0..=6 => c.int(2, 64) as f32 / 8.0, 7..=12 => c.pick(&[1.0f32, 0.3, 0.5, 1.4, 50.0, 300.0]), 13 => magnitude(c), _ => c.int(20, 2000) as f32 / 100.0 };
    let m = (n / 2) as f64;
    let at = |i: usize| ((i % n) as f64 - m, (i / n) as f64 - m);
    let what = format!("gaussian kernel {n} sigma {sigma}");
    let g = ok(&what, util::generate_gaussian_kernel(n as u32, sigma))?;
    ensure!(g.len() == n * n, "{what} has {} entries", g.len());
    for i in 0..n * n {
        let (dx, dy) = at(i);
        let e = refs::gauss2(dx, dy, sigma as f64);
        let q = (dx * dx + dy * dy) / (2.0 * (sigma as f64).powi(2));
        close(&format!("{what}: entry ({dx}, {dy})"), g[i], e, e * 2e-6 * (1.0 + q) + 1e-37)?;
    }
    let what = format!("Laplacian of Gaussian kernel {n} sigma {sigma}");
    let g = ok(&what, util::generate_log_kernel(n as u32, sigma))?;
    ensure!(g.len() == n * n, "{what} has {} entries", g.len());
    for i in 0..n * n {
        let (dx, dy) = at(i);
        let e = refs::log2d(dx, dy, sigma as f64);
        let q = (dx * dx + dy * dy) / (2.0 * (sigma as f64).powi(2));
        let scale = (1.0 + q) * (-q).exp() / (std::f64::consts::PI * (sigma as f64).powi(4));
        close(&format!("{what}: entry ({dx}, {dy})"), g[i], e, scale * 4e-6 * (1.0 + q) + 1e-37)?;
    }
    let even = 2 * c.int(0, 8) as u32;
    is_err(&format!("gaussian kernel of size {even}"), || util::generate_gaussian_kernel(even, sigma))?;
    is_err(&format!("Laplacian of Gaussian kernel of size {even}"), || util::generate_log_kernel(even, sigma))?;
    c.nontrivial(n > 1);
    c.note(|| format!("size {n} sigma {sigma}"));
    Ok(())
}

fn c37_spatial(c: &mut Case) -> R {
    let n = if c.chance(1, 2000) { c.int(23, 600) as usize } else { c.int(1, 22) as usize };
    let s = match c.choice(20) { 0..=6 => c.int(1, 64) as f32 / 8.0, 7..=12 => c.pick(&[1.0f32, 0.5, 0.25, 0.1, 50.0]), 13 => magnitude(c), _ => c.int(10, 2000) as f32 / 100.0 };
    let what = format!("spatial matrix {n} spatial {s}");
    let g = match guarded(|| util::generate_spatial_mat(n as u32, s)) {
        Ok(r) => ok(&what, r)?,
        Err(p) => return Err(format!("{what} panics: {p}")),
    };
    ensure!(g.len() == n * n, "{what} has {} entries", g.len());
    for y in 0..n {
        for x in 0..n {
            let (dx, dy) = (x as f64 - (n / 2) as f64, y as f64 - (n / 2) as f64);
            let e = refs::gauss2(dx, dy, s as f64);
            let q = (dx * dx + dy * dy) / (2.0 * (s as f64).powi(2));
            close(&format!("{what}: entry ({x}, {y})"), g[y * n + x], e, e * 3e-6 * (1.0 + q) + 1e-37)?;
        }
    }
    is_err(&format!("spatial matrix {n} spatial -{s}"), || util::generate_spatial_mat(n as u32, -s))?;
    c.label_if(n % 2 == 0, "even size");
    c.nontrivial(n > 1);
    c.note(|| format!("size {n} spatial {s}"));
    Ok(())
}

fn c37_separate(c: &mut Case) -> R {
    let n = if c.chance(1, 6) { c.int(8, 15) as usize } else { c.int(1, 7) as usize };
    let mut kern = square_kernel(c, n);
    if c.chance(1, 3) {
        // almost an outer product
        let m = kern.iter().fold(0.0f32, |m, x| m.max(x.abs()));
        let i = c.choice((n * n) as u64) as usize;
        kern[i] += m * c.pick(&[0.1f32, 0.01, 1e-3, 3e-4, 1e-4, 1e-5, 1e-6, -0.1, -0.01, -1e-3, -3e-4, -1e-4]);
        c.label("one entry moved a little");
    }
    let scale = c.pick(&[1.0f32, 1.0 / 256.0, 1000.0, 0.1]);
    for v in kern.iter_mut() {
        *v *= scale;
    }
    let what = format!("separate_kernel {kern:?}");
    let r = guarded(|| util::separate_kernel(&kern)).map_err(|p| format!("{what} panics: {p}"))?;
    if let Some((v, h)) = &r {
        ensure!(v.len() == n && h.len() == n, "{what}: vectors of length {} and {}", v.len(), h.len());
        let m = kern.iter().fold(0.0f64, |m, x| m.max(x.abs() as f64));
        for i in 0..n * n {
            let p = v[i / n] as f64 * h[i % n] as f64;
            ensure!((p - kern[i] as f64).abs() <= 2e-5 * n as f64 * m, "{what}: reported separable as {v:?} x {h:?}, whose entry ({}, {}) is {p}", i % n, i / n);
        }
    }
    // an exact outer product is found
    let n2 = if c.chance(1, 800) { c.int(10, 70) as usize } else { c.int(1, 9) as usize };
    let a: Vec<f64> = (0..n2).map(|_| c.int(-9, 9) as f64).collect();
    let b: Vec<f64> = (0..n2).map(|_| c.int(-9, 9) as f64).collect();
    let s2 = c.pick(&[1.0f64, 0.0625, 4.0]);
    let prod: Vec<f32> = refs::outer(&a, &b).iter().map(|x| (x * s2) as f32).collect();
    if prod.iter().any(|x| *x != 0.0) {
        let what = format!("separate_kernel {prod:?}");
        match guarded(|| util::separate_kernel(&prod)).map_err(|p| format!("{what} panics: {p}"))? {
            None => return Err(format!("{what}: the outer product of {a:?} and {b:?} times {s2} is reported as not separable")),
            Some((v, h)) => {
                ensure!(v.len() == n2 && h.len() == n2, "{what}: vectors of length {} and {}", v.len(), h.len());
                let m = prod.iter().fold(0.0f64, |m, x| m.max(x.abs() as f64));
                for i in 0..n2 * n2 {
                    let p = v[i / n2] as f64 * h[i % n2] as f64;
                    ensure!((p - prod[i] as f64).abs() <= 2e-5 * m, "{what}: separated into {v:?} x {h:?}, whose entry ({}, {}) is {p}", i % n2, i / n2);
                }
            }
        }
        c.label("outer product");
    }
    c.label_if(r.is_some(), "reported separable");
    c.nontrivial(n > 1);
    c.note(|| format!("{what} -> {r:?}; {prod:?}"));
    Ok(())
}

fn c37_constants(c: &mut Case) -> R {
    let what = c.choice(3);
    match what {
        0 => {
            for (name, two, one, bin) in [("3", &k::K_GAUSSIAN_BLUR_2D_3[..], &k::K_GAUSSIAN_BLUR_1D_3[..], vec![1.0, 2.0, 1.0]), ("5", &k::K_GAUSSIAN_BLUR_2D_5[..], &k::K_GAUSSIAN_BLUR_1D_5[..], vec![1.0, 4.0, 6.0, 4.0, 1.0])] {
                let n = one.len();
                let s: f64 = bin.iter().sum();
                for i in 0..n {
                    close(&format!("1D blur kernel {name} entry {i}"), one[i], bin[i] / s, 1e-7)?;
                }
                close("sum of the 1D blur kernel", one.iter().sum(), 1.0, 1e-6)?;
                close("sum of the 2D blur kernel", two.iter().sum(), 1.0, 1e-6)?;
                for i in 0..n * n {
                    close(&format!("2D blur kernel {name} entry {i}"), two[i], one[i / n] as f64 * one[i % n] as f64, 1e-7)?;
                }
            }
        }
        1 => {
            close("sum of the sharpening kernel", k::K_SHARPEN.iter().sum(), 1.0, 1e-6)?;
            close("sum of the unsharp masking kernel", k::K_UNSHARP_MASKING.iter().sum(), 1.0, 1e-6)?;
            close("sum of the Laplacian kernel", k::K_LAPLACIAN.iter().sum(), 0.0, 1e-6)?;
            for i in 0..25 {
                let e = if i == 12 { 2.0 } else { 0.0 } - k::K_GAUSSIAN_BLUR_2D_5[i] as f64;
                close(&format!("unsharp masking kernel entry {i}"), k::K_UNSHARP_MASKING[i], e, 1e-6)?;
            }
            ensure!(k::K_SOBEL_1D_VERT == [1.0, 2.0, 1.0] && k::K_PREWITT_1D_VERT == [1.0; 3] && k::K_SOBEL_1D_HORZ == k::K_PREWITT_1D_HORZ, "gradient kernels");
        }
        _ => {
            // the XYZ matrices are inverse to each other
            for i in 0..3 {
                for j in 0..3 {
                    let p: f64 = (0..3).map(|t| k::XYZ_TO_SRGB_MAT[i * 3 + t] as f64 * k::SRGB_TO_XYZ_MAT[t * 3 + j] as f64).sum();
                    ensure!((p - if i == j { 1.0 } else { 0.0 }).abs() < 1e-5, "product of the colour matrices at ({i}, {j}) is {p}");
                }
            }
        }
    }
    c.nontrivial(true);
    c.note(|| format!("constants group {what}"));
    Ok(())
}

pub fn defs() -> Vec<PropertyDef> {
    vec![
        PropertyDef {
            id: "C36",
            rule: "random arguments with ties and extremes (extremes), all 256 orderings of four values (orders), integer matrices of sizes 1 to 6 and lengths that do not fit (matrix), arguments around the joints of the piecewise functions (functions), lookup tables; non-trivial: values that differ, size above 1, non-zero arguments",
            subs: vec![sub("extremes", c36_extremes, 1500000, 22500000), all("orders", c36_orders, 256, 256), sub("matrix", c36_matrix, 1500000, 22500000), sub("functions", c36_functions, 1500000, 22500000), sub("table", c36_table, 890000, 13350000)],
        },
        PropertyDef {
            id: "C37",
            rule: "random sizes and sigmas, every entry against its formula in f64 (kernels, spatial), random square kernels, outer products and single rows multiplied back (separate), the predefined kernels (constants); non-trivial: size above 1",
            subs: vec![sub("kernels", c37_kernels, 180000, 2700000), sub("spatial", c37_spatial, 380000, 5700000), sub("separate", c37_separate, 1500000, 22500000), all("constants", c37_constants, 3, 3)],
        },
    ]
}
