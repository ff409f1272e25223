//! C25, C26, C28, C29: order statistics, morphology, summed-area tables

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::props::p_tone::{is_err, ok};
use crate::refs::{self, Morph};
use imgproc_rs::image::BaseImage;
use imgproc_rs::{filter, morphology, util};

/// Sizes around multiples of the block of columns processed at once
fn rank_case(c: &mut Case) -> (Layout, u32, u32, u32) {
    let l = layout_any(c);
    if c.chance(1, 1500) {
        // windows of more than 65535 samples
        let r = c.int(100, if c.depth > 1 { 300 } else { 190 }) as u32;
        let l = c.pick(&[GRAY, RGB, GRAYA]);
        return (l, r, c.int(1, 5) as u32, c.int(1, 4) as u32);
    }
    if c.chance(1, 300) {
        let (w, h) = if c.chance(1, 10) { dims_large(c) } else { dims_wide(c) };
        return (l, c.int(0, 2) as u32, w, h);
    }
    let r = match c.choice(6) {
        0 => c.int(0, 2),
        1 => c.int(1, 4),
        2 => c.int(0, 8),
        3 => c.int(3, 12),
        4 => 1,
        _ => c.int(0, if c.depth > 1 { 40 } else { 20 }),
    } as u32;
    // keep (2r+1)^2 * samples bounded
    let budget = if c.depth > 1 { 1_500_000u64 } else { 400_000 };
    let per = (2 * r as u64 + 1).pow(2) * l.ch as u64;
    let cells = (budget / per).clamp(4, 2500);
    let (w, h) = match c.choice(5) {
        0 => {
            let cols = { let n = (4.0 * (r as f64).powf(2.0 / 3.0)).floor() as i64; if n % 2 == 0 { n + 1 } else { n } };
            let w = (cols * c.int(1, 3) + c.int(-1, 1)).clamp(1, cells as i64);
            (w, c.int(1, (cells as i64 / w).clamp(1, 30)))
        }
        1 => (c.int(1, 6), c.int(1, (cells as i64 / 6).clamp(1, 60))),
        2 => (c.int(1, (cells as i64 / 6).clamp(1, 80)), c.int(1, 6)),
        _ => {
            let s = ((cells as f64).sqrt() as i64).clamp(2, 30);
            (c.int(1, s), c.int(1, s))
        }
    };
    (l, r, w as u32, h as u32)
}

/// Value at sorted position `k` of a histogram
fn nth(hist: &[u32; 256], k: u64) -> u8 {
    let mut s = 0u64;
    for v in 0..256 {
        s += hist[v] as u64;
        if s > k {
            return v as u8;
        }
    }
    255
}

fn c25(c: &mut Case) -> R {
    let (l, r, w, h) = rank_case(c);
    let img = img_u8(c, w, h, l);
    let what = format!("median_filter radius {r} of {w}x{h} {l:?}");
    let out = ok(&what, filter::median_filter(&img, r))?;
    same_shape(&what, &out, &img)?;
    let n = (2 * r as u64 + 1).pow(2);
    for y in 0..h as usize {
        for x in 0..w as usize {
            for k in 0..l.ch as usize {
                let e = nth(&refs::window_hist(&img, x, y, k, r as i64), n / 2);
                let o = at(&out, x, y, k);
                ensure!(o == e, "{what}: pixel ({x}, {y}) channel {k} is {o}, the median of its window is {e}");
            }
        }
    }
    if r == 0 {
        same_image(&what, &out, &img)?;
    }
    c.count(count(w, h, l) as u64);
    c.label_if(r >= w.min(h), "radius not smaller than the image");
    c.label_if(r == 0, "radius 0");
    c.nontrivial(r > 0 && h > 1 && out.data() != img.data());
    c.note(|| format!("radius {r}: {}", show(&img)));
    Ok(())
}

fn c26(c: &mut Case) -> R {
    let (l, r, w, h) = rank_case(c);
    let img = img_u8(c, w, h, l);
    let n = (2 * r as u64 + 1).pow(2);
    let top = (n - 1) / 2;
    let half = match c.choice(5) { 0 => 0, 1 => top, 2 => 1.min(top), 3 => c.choice(4).min(top), _ => c.choice(top + 1) };
    let alpha = (2 * half) as u32;
    let what = format!("alpha_trimmed_mean_filter radius {r} alpha {alpha} of {w}x{h} {l:?}");
    let out = ok(&what, filter::alpha_trimmed_mean_filter(&img, r, alpha))?;
    same_shape(&what, &out, &img)?;
    for y in 0..h as usize {
        for x in 0..w as usize {
            for k in 0..l.ch as usize {
                let hist = refs::window_hist(&img, x, y, k, r as i64);
                // samples with sorted position in half..n - half
                let (mut below, mut sum) = (0u64, 0u64);
                for v in 0..256u64 {
                    let cnt = hist[v as usize] as u64;
                    let a = below.max(half);
                    let b = (below + cnt).min(n - half);
                    if b > a {
                        sum += v * (b - a);
                    }
                    below += cnt;
                }
                let e = sum as f64 / (n - 2 * half) as f64;
                let o = at(&out, x, y, k);
                ensure!((o as f64 - e).abs() <= 0.5 + 1e-4, "{what}: pixel ({x}, {y}) channel {k} is {o}, the trimmed mean of its window is {e}");
            }
        }
    }
    c.count(count(w, h, l) as u64);
    let odd = (alpha + 1).min((n - 1) as u32 | 1);
    is_err(&format!("alpha_trimmed_mean_filter radius {r} alpha {odd}"), || filter::alpha_trimmed_mean_filter(&img, r, odd))?;
    let over = match c.choice(4) { 0 => n as u32 + 1, 1 => n as u32, 2 => u32::MAX - 1, _ => (n as u32 + c.choice(1000) as u32 + 1) & !1 };
    is_err(&format!("alpha_trimmed_mean_filter radius {r} alpha {over}"), || filter::alpha_trimmed_mean_filter(&img, r, over))?;
    c.label_if(alpha == 0, "alpha 0");
    c.label_if(half == top, "only the median left");
    c.label_if(r >= w.min(h), "radius not smaller than the image");
    c.nontrivial(r > 0 && h > 1 && alpha > 0);
    c.note(|| format!("radius {r} alpha {alpha}: {}", show(&img)));
    Ok(())
}

// ---------------------------------------------------------------- C28

fn run(m: u64, img: &U, r: u32) -> Result<U, String> {
    let name = NAMES[m as usize];
    let f = || match m {
        0 => morphology::erode(img, r),
        1 => morphology::dilate(img, r),
        2 => morphology::majority(img, r),
        3 => morphology::gradient(img, r),
        4 => morphology::open(img, r),
        _ => morphology::close(img, r),
    };
    match guarded(f) {
        Ok(x) => ok(name, x),
        Err(p) => Err(format!("{name} radius {r} of {}x{} panics: {p}", img.info().width, img.info().height)),
    }
}

const NAMES: [&str; 6] = ["erode", "dilate", "majority", "gradient", "open", "close"];

/// Expected values of an operation
pub fn morph_model(m: u64, img: &U, r: u64) -> Vec<Option<bool>> {
    match m {
        0 => refs::morph(img, r, Morph::Erode),
        1 => refs::morph(img, r, Morph::Dilate),
        2 => refs::morph(img, r, Morph::Majority),
        3 => refs::morph(img, r, Morph::Gradient),
        4 => refs::morph(&refs::morph_image(img, r, Morph::Erode), r, Morph::Dilate),
        _ => refs::morph(&refs::morph_image(img, r, Morph::Dilate), r, Morph::Erode),
    }
}

fn c28_body(c: &mut Case, w: u32, h: u32, r: u32, only: Option<u64>) -> R {
    let l = layout_gray(c);
    let img = img_bits(c, w, h, l);
    c28_check(c, &img, r, only)
}

fn c28_check(c: &mut Case, img: &U, r: u32, only: Option<u64>) -> R {
    let (w, h) = img.info().wh();
    let l = lay(img);
    let ch = l.ch as usize;
    let mut seen = (false, false);
    for m in 0..6u64 {
        if only.map_or(false, |o| o != m) {
            continue;
        }
        let out = run(m, img, r)?;
        let what = format!("{} radius {r} of {w}x{h} {l:?}", NAMES[m as usize]);
        same_shape(&what, &out, img)?;
        let exp = morph_model(m, img, r as u64);
        for (i, e) in exp.iter().enumerate() {
            let o = out.data()[i * ch];
            ensure!(o == 0 || o == 255, "{what}: {} is {o}, neither black nor white", pos(out.info(), i * ch));
            if let Some(e) = e {
                ensure!((o == 255) == *e, "{what}: {} is {o}, expected {}", pos(out.info(), i * ch), if *e { 255 } else { 0 });
            }
            seen.0 |= o == 0;
            seen.1 |= o == 255;
            if l.alpha {
                ensure!(out.data()[i * ch + 1] == img.data()[i * ch + 1], "{what}: alpha of {} changes from {} to {}", pos(out.info(), i * ch), img.data()[i * ch + 1], out.data()[i * ch + 1]);
            }
        }
    }
    c.label_if(r >= w.max(h), "radius not smaller than the image");
    c.label_if(l.alpha, "with alpha");
    c.nontrivial(seen.0 && seen.1 && r > 0);
    c.note(|| format!("radius {r}: {}", show(img)));
    Ok(())
}

fn radius(c: &mut Case, n: u32) -> u32 {
    match c.choice(7) {
        0 => 0,
        1 => 1,
        2 => c.int(0, n as i64 + 2) as u32,
        3 => n.saturating_sub(1),
        4 => c.pick(&[n, 1000, 32768, 65536, u32::MAX, u32::MAX / 2, (1 << 31) - 1, 1 << 31]),
        5 => c.int(1, 4) as u32,
        _ => c.int(0, 3) as u32,
    }
}

fn c28(c: &mut Case) -> R {
    let (w, h) = dims(c, 24);
    let r = radius(c, w.max(h));
    c28_body(c, w, h, r, None)?;
    let bad = layout_any(c);
    if bad != GRAY && bad != GRAYA {
        let wrong = mk(2, 2, bad, vec![255u8; count(2, 2, bad)]);
        let what = |s: &str| format!("{s} of {bad:?}");
        is_err(&what("erode"), || morphology::erode(&wrong, 1))?;
        is_err(&what("dilate"), || morphology::dilate(&wrong, 1))?;
        is_err(&what("majority"), || morphology::majority(&wrong, 1))?;
        is_err(&what("gradient"), || morphology::gradient(&wrong, 1))?;
        is_err(&what("open"), || morphology::open(&wrong, 1))?;
        is_err(&what("close"), || morphology::close(&wrong, 1))?;
    }
    Ok(())
}

/// More than 2^24 / 255 white pixels: sums beyond exact f32 integers
fn c28_large(c: &mut Case) -> R {
    let (w, h) = match c.choice(3) {
        0 => (c.int(257, 340) as u32, c.int(257, 340) as u32),
        1 => (c.int(600, 900) as u32, c.int(110, 140) as u32),
        _ => (c.int(110, 140) as u32, c.int(600, 900) as u32),
    };
    let r = match c.choice(5) { 0 => 0, 1 => 1, 2 => c.int(2, 9) as u32, 3 => c.int(10, 140) as u32, _ => c.int(0, 3) as u32 };
    let m = c.choice(6);
    if c.chance(1, 24) {
        // windows of more than 8 bit radius that fit into the image
        let (w, h, r) = (c.int(515, 560) as u32, c.int(515, 560) as u32, c.int(250, 262) as u32);
        let (ground, other) = if matches!(m, 0 | 2 | 4) { (255u8, 0u8) } else { (0, 255) };
        let l = layout_gray(c);
        let mut d = vec![ground; count(w, h, l)];
        for _ in 0..c.int(1, 3) {
            // near the border, so that some windows miss it
            let (x, y) = (c.choice(w as u64) as usize, c.choice(8) as usize);
            let (x, y) = if c.bool() { (x, y) } else { (x, h as usize - 1 - y) };
            d[(y * w as usize + x) * l.ch as usize] = other;
        }
        return c28_check(c, &mk(w, h, l, d), r, Some(m));
    }
    if m == 2 && c.bool() {
        // a window in which the majority is decided by one or two pixels
        let l = layout_gray(c);
        let img = img_bits(c, w, h, l);
        let mut d = img.data().to_vec();
        let (x, y, r) = (c.int(0, w as i64 - 1), c.int(0, h as i64 - 1), if c.bool() { r as i64 } else { c.int(20, 900) });
        let xs = ((x - r).max(0), (x + r).min(w as i64 - 1));
        let ys = ((y - r).max(0), (y + r).min(h as i64 - 1));
        let cells: Vec<usize> = (ys.0..=ys.1).flat_map(|j| (xs.0..=xs.1).map(move |i| (j * w as i64 + i) as usize * l.ch as usize)).collect();
        let goal = (cells.len() as i64 / 2 + c.int(0, 2)).min(cells.len() as i64);
        let mut white = cells.iter().filter(|i| d[**i] == 255).count() as i64;
        let start = c.choice(cells.len() as u64) as usize;
        for k in 0..cells.len() {
            let i = cells[(start + k * 7) % cells.len()];
            if white < goal && d[i] == 0 {
                d[i] = 255;
                white += 1;
            } else if white > goal && d[i] == 255 {
                d[i] = 0;
                white -= 1;
            }
        }
        c.label_if(white == goal && 2 * white != cells.len() as i64, "majority decided by a pixel or two");
        return c28_check(c, &mk(w, h, l, d), r as u32, Some(m));
    }
    c28_body(c, w, h, r, Some(m))
}

// ---------------------------------------------------------------- C29

fn c29(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 100) { dims_wide(c) } else if c.chance(1, 3000) { dims_large(c) } else { dims(c, 24) };
    let n = count(w, h, l);
    let ch = l.ch as usize;
    // integers, possibly negative, with a total below 2^23 in magnitude (intermediate sums stay below 2^24)
    let lim = ((1i64 << 23) - 1) / (w as i64 * h as i64);
    let lim = lim.min(c.pick(&[255i64, 1, 70000, 1000]));
    let raw = u8s(c, n);
    let signed = c.bool();
    let data: Vec<f32> = raw.iter().map(|v| { let x = *v as i64 * lim / 255; (if signed && v % 2 == 1 { -x } else { x }) as f32 }).collect();
    let img = mk(w, h, l, data);
    let t = util::generate_summed_area_table(&img);
    let what = format!("summed-area table of {w}x{h} {l:?}");
    same_shape(&what, &t, &img)?;
    // prefix sums
    let mut pre = vec![0i64; (w as usize + 1) * (h as usize + 1) * ch];
    let id = |x: usize, y: usize, k: usize| (y * (w as usize + 1) + x) * ch + k;
    for y in 0..h as usize {
        for x in 0..w as usize {
            for k in 0..ch {
                pre[id(x + 1, y + 1, k)] = at(&img, x, y, k) as i64 + pre[id(x, y + 1, k)] + pre[id(x + 1, y, k)] - pre[id(x, y, k)];
                let (o, e) = (at(&t, x, y, k), pre[id(x + 1, y + 1, k)]);
                ensure!(o as f64 == e as f64, "{what}: entry ({x}, {y}) channel {k} is {o}, expected {e}");
            }
        }
    }
    let queries = if w * h <= 36 { 0 } else { 12 };
    let check = |x0: u32, y0: u32, x1: u32, y1: u32| -> R {
        let s = util::rectangular_intensity_sum(&t, x0, y0, x1, y1);
        ensure!(s.len() == ch, "rectangle sum has {} values for {ch} channels", s.len());
        for k in 0..ch {
            let e = pre[id(x1 as usize + 1, y1 as usize + 1, k)] - pre[id(x0 as usize, y1 as usize + 1, k)] - pre[id(x1 as usize + 1, y0 as usize, k)] + pre[id(x0 as usize, y0 as usize, k)];
            ensure!(s[k] as f64 == e as f64, "sum of ({x0}, {y0})..({x1}, {y1}) of {w}x{h} {l:?} channel {k} is {}, expected {e}", s[k]);
        }
        Ok(())
    };
    let mut done = 0u64;
    if queries == 0 {
        for y0 in 0..h { for x0 in 0..w { for y1 in y0..h { for x1 in x0..w {
            check(x0, y0, x1, y1)?;
            done += 1;
        } } } }
    } else {
        for _ in 0..queries {
            let x0 = if c.chance(1, 4) { 0 } else { c.int(0, w as i64 - 1) as u32 };
            let y0 = if c.chance(1, 4) { 0 } else { c.int(0, h as i64 - 1) as u32 };
            let x1 = if c.chance(1, 4) { w - 1 } else { c.int(x0 as i64, w as i64 - 1) as u32 };
            let y1 = if c.chance(1, 4) { h - 1 } else { c.int(y0 as i64, h as i64 - 1) as u32 };
            check(x0, y0, x1, y1)?;
            done += 1;
        }
    }
    c.count(done);
    c.nontrivial(w > 1 && h > 1 && raw.iter().any(|v| *v != raw[0]));
    c.note(|| show(&img));
    Ok(())
}

/// Samples that are not integers: to float accuracy
fn c29_float(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = dims(c, 20);
    let img = img_f32(c, w, h, l);
    let t = util::generate_summed_area_table(&img);
    let a: f64 = img.data().iter().map(|v| v.abs() as f64).sum::<f64>() + 1.0;
    let (x0, y0) = (c.int(0, w as i64 - 1) as usize, c.int(0, h as i64 - 1) as usize);
    let (x1, y1) = (c.int(x0 as i64, w as i64 - 1) as usize, c.int(y0 as i64, h as i64 - 1) as usize);
    let s = util::rectangular_intensity_sum(&t, x0 as u32, y0 as u32, x1 as u32, y1 as u32);
    for k in 0..l.ch as usize {
        let mut e = 0.0;
        for y in y0..=y1 {
            for x in x0..=x1 {
                e += at(&img, x, y, k) as f64;
            }
        }
        ensure!((s[k] as f64 - e).abs() <= 1e-5 * a, "sum of ({x0}, {y0})..({x1}, {y1}) of {w}x{h} {l:?} channel {k} is {}, expected {e}", s[k]);
    }
    c.nontrivial(x1 > x0 && y1 > y0);
    c.note(|| format!("({x0}, {y0})..({x1}, {y1}) of {}", show(&img)));
    Ok(())
}

pub fn defs() -> Vec<PropertyDef> {
    vec![
        PropertyDef {
            id: "C25",
            rule: "random images with widths around multiples of the block of columns processed at once, radii 0 to 20 (40 thorough), against the sorted window; non-trivial: radius at least 1, several rows, the filter changes the image",
            subs: vec![sub("median", c25, 120000, 1800000)],
        },
        PropertyDef {
            id: "C26",
            rule: "random images, radii and even alphas (0, 2, everything but the median) against the mean of the sorted window without its ends; non-trivial: radius at least 1, several rows, alpha at least 2",
            subs: vec![sub("trimmed", c26, 51000, 765000)],
        },
        PropertyDef {
            id: "C28",
            rule: "random binary images (dense, sparse, solid with holes), radii from 0 to u32::MAX, six operations against window counts in u64; images above 65793 white pixels; ties of the majority are not judged; non-trivial: radius at least 1 and both colours in the results",
            subs: vec![sub("binary", c28, 1200000, 18000000), sub("large", c28_large, 6400, 96000)],
        },
        PropertyDef {
            id: "C29",
            rule: "random integer-valued images with totals below 2^23, every entry and all (or 12 random) rectangles against i64 prefix sums; non-integer samples to float accuracy; non-trivial: more than one row and column with differing samples, a rectangle of several rows and columns",
            subs: vec![sub("exact", c29, 1200000, 18000000), sub("float", c29_float, 1500000, 22500000)],
        },
    ]
}
