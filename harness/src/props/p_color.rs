//! C10..C12: colour spaces

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs;
use imgproc_rs::colorspace as cs;
use imgproc_rs::enums::White;
use imgproc_rs::image::BaseImage;

pub fn wh(d50: bool) -> White {
    if d50 { White::D50 } else { White::D65 }
}

fn img_case(c: &mut Case) -> U {
    let l = layout_rgb(c);
    let (w, h) = if c.chance(1, 4000) { dims_large(c) } else if c.chance(1, 50) { dims_wide(c) } else { dims(c, 14) };
    img_u8(c, w, h, l)
}

/// Mostly small, at times beyond 8 and 16 bit counts
fn spread(c: &mut Case, cap: u32) -> (u32, u32) {
    if c.chance(1, 8000) { dims_large(c) } else if c.chance(1, 300) { dims_wide(c) } else { dims(c, cap) }
}

/// Repeats the pixels drawn, shifted by one each time round, until there are `n`
fn fill(d: Vec<f32>, n: usize) -> Vec<f32> {
    if n == 0 || d.is_empty() {
        return d;
    }
    let ch = d.len() / n.min(700);
    let own = d.len() / ch;
    (0..n).flat_map(|i| { let k = (i + i / own) % own * ch; d[k..k + ch].to_vec() }).collect()
}

fn p3(p: &[u8]) -> [u8; 3] {
    [p[0], p[1], p[2]]
}

fn f3(p: &[f32]) -> [f64; 3] {
    [p[0] as f64, p[1] as f64, p[2] as f64]
}

fn note_colours(c: &mut Case, i: &U) {
    let ch = i.info().channels as usize;
    let gray = i.data().chunks(ch).all(|p| p[0] == p[1] && p[1] == p[2]);
    c.nontrivial(!gray);
    c.label_if(gray, "gray only");
    c.label_if(i.info().alpha, "alpha");
    c.note(|| show(i));
}

/// Largest per-channel error of RGB -> 8-bit HSV -> RGB over all 2^24 colours (measured; the
/// quantisation of hue in steps of 1/255 and of the 43-wide sectors)
const HSV8_ERR: i32 = 18;

fn c10_u8(c: &mut Case) -> R {
    let img = img_case(c);
    let ch = img.info().channels as usize;
    let hsv = cs::rgb_to_hsv(&img);
    same_shape("rgb_to_hsv", &hsv, &img)?;
    for (i, (p, q)) in img.data().chunks(ch).zip(hsv.data().chunks(ch)).enumerate() {
        let e = refs::rgb_to_hsv8(p3(p));
        ensure!(q[..3] == e, "rgb_to_hsv: pixel {i} {:?} becomes {:?}, expected {:?}", &p[..3], &q[..3], e);
        ensure!(ch < 4 || q[3] == p[3], "rgb_to_hsv: alpha {} becomes {}", p[3], q[3]);
    }
    let back = cs::hsv_to_rgb(&hsv);
    same_shape("hsv_to_rgb", &back, &img)?;
    for (p, q) in img.data().chunks(ch).zip(back.data().chunks(ch)) {
        for k in 0..3 {
            let d = (p[k] as i32 - q[k] as i32).abs();
            ensure!(d <= HSV8_ERR, "through 8-bit HSV {:?} becomes {:?}", p, q);
        }
        ensure!(!(p[0] == p[1] && p[1] == p[2]) || q == p, "gray {p:?} becomes {q:?} through 8-bit HSV");
        ensure!(ch < 4 || q[3] == p[3], "alpha {} becomes {} through 8-bit HSV", p[3], q[3]);
    }
    // the image taken as HSV
    let rgb = cs::hsv_to_rgb(&img);
    same_shape("hsv_to_rgb", &rgb, &img)?;
    for (p, q) in img.data().chunks(ch).zip(rgb.data().chunks(ch)) {
        let e = refs::hsv8_to_rgb(p3(p));
        ensure!(q[..3] == e, "hsv_to_rgb: {:?} becomes {:?}, expected {:?}", &p[..3], &q[..3], e);
        ensure!(ch < 4 || q[3] == p[3], "hsv_to_rgb: alpha {} becomes {}", p[3], q[3]);
    }
    note_colours(c, &img);
    Ok(())
}

fn c10_f32(c: &mut Case) -> R {
    let img = img_case(c);
    let ch = img.info().channels as usize;
    let hsv = cs::rgb_to_hsv_f32(&img);
    same_shape("rgb_to_hsv_f32", &hsv, &img)?;
    for (p, q) in img.data().chunks(ch).zip(hsv.data().chunks(ch)) {
        let e = refs::rgb_to_hsv([p[0] as f64 / 255.0, p[1] as f64 / 255.0, p[2] as f64 / 255.0]);
        let dh = (q[0] as f64 - e[0]).abs();
        ensure!(dh.min(1.0 - dh).abs() < 1e-5 && (0.0..=1.0).contains(&q[0]), "rgb_to_hsv_f32: hue of {p:?} is {}, expected {}", q[0], e[0]);
        ensure!((q[1] as f64 - e[1]).abs() < 1e-5, "rgb_to_hsv_f32: saturation of {p:?} is {}, expected {}", q[1], e[1]);
        ensure!((q[2] as f64 - e[2]).abs() < 1e-6, "rgb_to_hsv_f32: value of {p:?} is {}, expected {}", q[2], e[2]);
        ensure!(ch < 4 || (q[3] as f64 - p[3] as f64 / 255.0).abs() < 1e-6, "rgb_to_hsv_f32: alpha {} becomes {}", p[3], q[3]);
    }
    let back = cs::hsv_to_rgb_f32(&hsv);
    same_image("through float HSV", &back, &img)?;
    note_colours(c, &img);
    Ok(())
}

fn c10_hsv(c: &mut Case) -> R {
    let l = layout_rgb(c);
    let (w, h) = spread(c, 8);
    let n = (w * h) as usize;
    let own = n.min(700);
    let mut d = Vec::new();
    let mut edge = false;
    for _ in 0..own {
        let hue = match c.choice(5) {
            0 => c.pick(&[0.0f32, 1.0, 1.0 / 6.0, 2.0 / 6.0, 0.5, 4.0 / 6.0, 5.0 / 6.0]),
            1 => c.choice(256) as f32 / 255.0,
            2 => (c.choice(7) as f32 / 6.0 + c.int(-4, 4) as f32 * 1e-7).clamp(0.0, 1.0),
            _ => c.choice(1 << 20) as f32 / (1 << 20) as f32,
        };
        edge |= hue == 1.0;
        let unit = |c: &mut Case| match c.choice(3) {
            0 => c.pick(&[1.0f32, 0.0, 0.5]),
            1 => c.choice(256) as f32 / 255.0,
            _ => c.choice(4097) as f32 / 4096.0,
        };
        d.push(hue);
        let s = unit(c);
        let v = unit(c);
        d.push(s);
        d.push(v);
        if l.alpha {
            d.push(if c.chance(1, 2) { c.choice(256) as f32 / 255.0 } else { c.choice((1 << 20) + 1) as f32 / (1 << 20) as f32 });
        }
    }
    let img = mk(w, h, l, fill(d, n));
    let out = cs::hsv_to_rgb_f32(&img);
    same_shape("hsv_to_rgb_f32", &out, &img)?;
    let ch = l.ch as usize;
    for (p, q) in img.data().chunks(ch).zip(out.data().chunks(ch)) {
        let e = refs::hsv_to_rgb(f3(p));
        for k in 0..3 {
            ensure!((q[k] as f64 - 255.0 * e[k]).abs() <= 0.5 + 2e-3, "hsv_to_rgb_f32: {:?} becomes {:?}, expected {:?}", &p[..3], &q[..3], [e[0] * 255.0, e[1] * 255.0, e[2] * 255.0]);
        }
        ensure!(ch < 4 || (q[3] as f64 - 255.0 * p[3] as f64).abs() <= 0.5 + 1e-4, "hsv_to_rgb_f32: alpha {} becomes {}", p[3], q[3]);
    }
    c.label_if(edge, "hue 1.0");
    c.nontrivial(img.data().chunks(ch).any(|p| p[1] > 0.0 && p[2] > 0.0));
    c.note(|| show(&img));
    Ok(())
}

/// All colours with one red value: float HSV there and back, and both 8-bit conversions
fn c10_all(c: &mut Case) -> R {
    let r = c.choice(256) as u8;
    let mut d = Vec::with_capacity(3 << 16);
    for g in 0..=255u8 {
        for b in 0..=255u8 {
            d.extend_from_slice(&[r, g, b]);
        }
    }
    let img = mk(256, 256, RGB, d);
    let back = cs::hsv_to_rgb_f32(&cs::rgb_to_hsv_f32(&img));
    same_image("through float HSV", &back, &img)?;
    let hsv = cs::rgb_to_hsv(&img);
    let rgb = cs::hsv_to_rgb(&hsv);
    let rgb2 = cs::hsv_to_rgb(&img);
    for i in 0..65536 {
        let p = p3(&img.data()[3 * i..]);
        let e = refs::rgb_to_hsv8(p);
        ensure!(hsv.data()[3 * i..3 * i + 3] == e, "rgb_to_hsv: {p:?} becomes {:?}, expected {e:?}", &hsv.data()[3 * i..3 * i + 3]);
        let e = refs::hsv8_to_rgb(p);
        ensure!(rgb2.data()[3 * i..3 * i + 3] == e, "hsv_to_rgb: {p:?} becomes {:?}, expected {e:?}", &rgb2.data()[3 * i..3 * i + 3]);
        for k in 0..3 {
            let d = (p[k] as i32 - rgb.data()[3 * i + k] as i32).abs();
            ensure!(d <= HSV8_ERR, "through 8-bit HSV {p:?} becomes {:?}", &rgb.data()[3 * i..3 * i + 3]);
        }
    }
    c.count(65536 * 3);
    c.nontrivial(true);
    c.note(|| format!("all 65536 colours with red {r}"));
    Ok(())
}

// ---------------------------------------------------------------- C11

fn c11_lin(c: &mut Case) -> R {
    let l = if c.chance(1, 6) { layout_any(c) } else { layout(c) };
    let (w, h) = if c.chance(1, 20) { (256, 1) } else { spread(c, 14) };
    let img = if w == 256 { mk(w, h, l, (0..count(w, h, l)).map(|i| (i / l.ch as usize) as u8).collect()) } else { img_u8(c, w, h, l) };
    let ch = l.ch as usize;
    let lin = cs::linearize_srgb_f32(&img);
    same_shape("linearize_srgb_f32", &lin, &img)?;
    let mut seen: Vec<Option<f32>> = vec![None; 256];
    for (i, (a, b)) in img.data().iter().zip(lin.data()).enumerate() {
        if l.alpha && i % ch == ch - 1 {
            ensure!(*b == *a as f32, "linearize_srgb_f32: alpha {a} becomes {b}");
        } else {
            let e = refs::linearize(*a as f64);
            ensure!((*b as f64 - e).abs() <= 1e-5 * e + 1e-9, "linearize_srgb_f32: {a} becomes {b}, expected {e}");
            seen[*a as usize] = Some(*b);
        }
    }
    let vals: Vec<(usize, f32)> = seen.iter().enumerate().filter_map(|(i, v)| v.map(|x| (i, x))).collect();
    for p in vals.windows(2) {
        ensure!(p[0].1 < p[1].1, "linearisation is not strictly increasing: {:?} then {:?}", p[0], p[1]);
    }
    for (i, v) in &vals {
        ensure!((0.0..=1.0).contains(v), "linearisation of {i} is {v}");
        ensure!(*i != 0 || *v == 0.0, "0 linearises to {v}");
        ensure!(*i != 255 || (*v - 1.0).abs() < 1e-6, "255 linearises to {v}");
    }
    same_image("linearised and back", &cs::unlinearize_srgb_f32(&lin), &img)?;
    c.nontrivial(vals.len() > 2);
    c.label_if(l.alpha, "alpha");
    c.note(|| show(&img));
    Ok(())
}

fn c11_unlin(c: &mut Case) -> R {
    let l = if c.chance(1, 6) { layout_any(c) } else { layout(c) };
    let (w, h) = spread(c, 10);
    let n = count(w, h, l);
    let ch = l.ch as usize;
    let mut d: Vec<f32> = Vec::with_capacity(n);
    for i in 0..n.min(700 * ch) {
        if l.alpha && i % ch == ch - 1 {
            d.push(c.choice(256) as f32);
            continue;
        }
        let v = match c.choice(6) {
            // next to the breakpoint of the curve
            0 => 0.0031308 + c.int(-2000, 2000) as f32 * 1e-7,
            // next to a rounding boundary
            1 => refs::linearize(c.int(0, 254) as f64 + 0.5) as f32 + c.int(-50, 50) as f32 * 1e-7,
            2 => c.int(-2000, 3000) as f32 / 1000.0,
            3 => c.pick(&[0.0f32, 1.0, -0.0, 1e-10, -1e-10, 1.0000001, 5.0, -5.0, 1e10, -1e10, 1e30, -1e30, f32::INFINITY, f32::NEG_INFINITY]),
            4 => c.choice(1 << 14) as f32 / (1 << 20) as f32,
            _ => c.choice(1 << 20) as f32 / (1 << 20) as f32,
        };
        d.push(v);
    }
    let img = mk(w, h, l, fill(d, (w * h) as usize));
    let out = cs::unlinearize_srgb_f32(&img);
    same_shape("unlinearize_srgb_f32", &out, &img)?;
    let mut pairs: Vec<(f32, u8)> = Vec::new();
    for i in 0..n {
        let (v, o) = (img.data()[i], out.data()[i]);
        if l.alpha && i % ch == ch - 1 {
            ensure!(o as f32 == v, "unlinearize_srgb_f32: alpha {v} becomes {o}");
            continue;
        }
        let e = if v <= 0.0 { 0.0 } else if v >= 1.0 { 255.0 } else { refs::unlinearize(v as f64) };
        ensure!((o as f64 - e).abs() <= 0.5 + 2e-3, "unlinearize_srgb_f32: {v:?} becomes {o}, expected {e:.5} rounded");
        pairs.push((v, o));
    }
    pairs.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    for p in pairs.windows(2) {
        ensure!(p[0].1 <= p[1].1 || p[1].0 - p[0].0 < 1e-6, "unlinearisation decreases: {:?} then {:?}", p[0], p[1]);
    }
    c.label_if(pairs.iter().any(|p| (p.0 - 0.0031308).abs() < 3e-4), "near the breakpoint");
    c.nontrivial(pairs.iter().any(|p| p.0 > 0.0 && p.0 < 1.0));
    c.note(|| show(&img));
    Ok(())
}

// ---------------------------------------------------------------- C12

fn c12_forward(c: &mut Case) -> R {
    let img = img_case(c);
    let d50 = c.bool();
    let ch = img.info().channels as usize;
    let lin = cs::linearize_srgb_f32(&img);
    let xyz = cs::srgb_to_xyz_f32(&img);
    same_shape("srgb_to_xyz_f32", &xyz, &img)?;
    let xyz2 = cs::srgb_lin_to_xyz_f32(&lin);
    same_shape("srgb_lin_to_xyz_f32", &xyz2, &img)?;
    let lab = cs::srgb_to_lab_f32(&img, &wh(d50));
    same_shape("srgb_to_lab_f32", &lab, &img)?;
    let lab2 = cs::xyz_to_lab_f32(&xyz, &wh(d50));
    same_shape("xyz_to_lab_f32", &lab2, &img)?;
    for i in 0..img.data().len() / ch {
        let s = i * ch;
        let p = p3(&img.data()[s..]);
        let ex = refs::srgb_to_xyz(p);
        let el = refs::srgb_to_lab(p, d50);
        for k in 0..3 {
            let (a, b) = (xyz.data()[s + k] as f64, xyz2.data()[s + k] as f64);
            ensure!((a - ex[k]).abs() < 5e-6, "srgb_to_xyz_f32: {p:?} component {k} is {a}, expected {}", ex[k]);
            ensure!((b - ex[k]).abs() < 5e-6, "srgb_lin_to_xyz_f32: {p:?} component {k} is {b}, expected {}", ex[k]);
            let (a, b) = (lab.data()[s + k] as f64, lab2.data()[s + k] as f64);
            ensure!((a - el[k]).abs() < 3e-3, "srgb_to_lab_f32 (D50 {d50}): {p:?} component {k} is {a}, expected {}", el[k]);
            ensure!((b - el[k]).abs() < 3e-3, "xyz_to_lab_f32 (D50 {d50}): {p:?} component {k} is {b}, expected {}", el[k]);
        }
        let q = &lab.data()[s..s + 3];
        ensure!(q[0] > -1e-3 && q[0] < 100.001 && q[1] >= -128.0 && q[1] <= 127.0 && q[2] >= -128.0 && q[2] <= 127.0, "Lab of {p:?} out of range: {q:?}");
        if ch == 4 {
            let a = img.data()[s + 3] as f32;
            for (what, o) in [("srgb_to_xyz_f32", &xyz), ("srgb_lin_to_xyz_f32", &xyz2), ("srgb_to_lab_f32", &lab), ("xyz_to_lab_f32", &lab2)] {
                ensure!(o.data()[s + 3] == a, "{what}: alpha {a} becomes {}", o.data()[s + 3]);
            }
        }
    }
    // round trips
    same_image("through XYZ", &cs::xyz_to_srgb_f32(&xyz), &img)?;
    same_image("through CIELAB", &cs::lab_to_srgb_f32(&lab, &wh(d50)), &img)?;
    let lin2 = cs::xyz_to_srgb_lin_f32(&xyz);
    same_shape("xyz_to_srgb_lin_f32", &lin2, &img)?;
    let xyz3 = cs::lab_to_xyz_f32(&lab, &wh(d50));
    same_shape("lab_to_xyz_f32", &xyz3, &img)?;
    for i in 0..img.data().len() {
        ensure!((lin2.data()[i] - lin.data()[i]).abs() < 5e-6, "linear sRGB through XYZ: {} becomes {}", lin.data()[i], lin2.data()[i]);
        ensure!((xyz3.data()[i] - xyz.data()[i]).abs() < 1e-5, "XYZ through CIELAB: {} becomes {}", xyz.data()[i], xyz3.data()[i]);
    }
    c.label(if d50 { "D50" } else { "D65" });
    note_colours(c, &img);
    Ok(())
}

/// Inverse conversions on arbitrary values, not only images of sRGB colours
fn c12_inverse(c: &mut Case) -> R {
    let l = layout_rgb(c);
    let (w, h) = spread(c, 8);
    let d50 = c.bool();
    let n = (w * h) as usize;
    let ch = l.ch as usize;
    let mut xyz = Vec::new();
    let mut lab = Vec::new();
    for _ in 0..n.min(700) {
        for _ in 0..3 {
            xyz.push(match c.choice(3) {
                0 => c.choice(1101) as f32 / 1000.0,
                1 => c.choice(300) as f32 / 10000.0,
                _ => c.choice(1 << 20) as f32 / (1 << 20) as f32,
            });
        }
        lab.push(match c.choice(3) {
            0 => c.int(0, 100) as f32,
            1 => c.int(0, 160) as f32 / 10.0,
            _ => c.choice(100 << 10) as f32 / 1024.0,
        });
        lab.push(c.int(-128 * 16, 127 * 16) as f32 / 16.0);
        lab.push(c.int(-128 * 16, 127 * 16) as f32 / 16.0);
        if l.alpha {
            let a = c.u8() as f32;
            xyz.push(a);
            lab.push(a);
        }
    }
    let xyz = mk(w, h, l, fill(xyz, n));
    let lab = mk(w, h, l, fill(lab, n));
    let to_lab = cs::xyz_to_lab_f32(&xyz, &wh(d50));
    let to_lin = cs::xyz_to_srgb_lin_f32(&xyz);
    let to_xyz = cs::lab_to_xyz_f32(&lab, &wh(d50));
    let lin_xyz = cs::srgb_lin_to_xyz_f32(&xyz);
    let to_srgb = cs::lab_to_srgb_f32(&lab, &wh(d50));
    let x_srgb = cs::xyz_to_srgb_f32(&xyz);
    let lab_back = cs::xyz_to_lab_f32(&to_xyz, &wh(d50));
    let xyz_back = cs::lab_to_xyz_f32(&to_lab, &wh(d50));
    let lin_back = cs::srgb_lin_to_xyz_f32(&to_lin);
    for (what, o) in [("xyz_to_lab_f32", &to_lab), ("xyz_to_srgb_lin_f32", &to_lin), ("lab_to_xyz_f32", &to_xyz), ("srgb_lin_to_xyz_f32", &lin_xyz)] {
        same_shape(what, o, &xyz)?;
    }
    same_shape("lab_to_srgb_f32", &to_srgb, &xyz)?;
    same_shape("xyz_to_srgb_f32", &x_srgb, &xyz)?;
    let close = |what: &str, i: usize, o: &F, e: [f64; 3], from: &F, tol: f64| -> R {
        for k in 0..3 {
            let a = o.data()[i * ch + k] as f64;
            ensure!((a - e[k]).abs() <= tol * (1.0 + e[k].abs()), "{what} (D50 {d50}): {:?} component {k} is {a}, expected {}", &from.data()[i * ch..i * ch + 3], e[k]);
        }
        ensure!(ch < 4 || o.data()[i * ch + 3] == from.data()[i * ch + 3], "{what}: alpha changes to {}", o.data()[i * ch + 3]);
        Ok(())
    };
    for i in 0..n {
        let p = f3(&xyz.data()[i * ch..]);
        let q = f3(&lab.data()[i * ch..]);
        close("xyz_to_lab_f32", i, &to_lab, refs::xyz_to_lab(p, d50), &xyz, 2e-3)?;
        close("xyz_to_srgb_lin_f32", i, &to_lin, refs::mul(&refs::MI, p), &xyz, 5e-6)?;
        close("srgb_lin_to_xyz_f32", i, &lin_xyz, refs::mul(&refs::M, p), &xyz, 5e-6)?;
        close("lab_to_xyz_f32", i, &to_xyz, refs::lab_to_xyz(q, d50), &lab, 1e-5)?;
        // every conversion is undone by its inverse, also outside the sRGB gamut, where XYZ may be negative
        close("CIELAB through XYZ", i, &lab_back, f3(&lab.data()[i * ch..]), &lab, 2e-3)?;
        close("XYZ through CIELAB", i, &xyz_back, f3(&xyz.data()[i * ch..]), &xyz, 2e-5)?;
        close("XYZ through linear sRGB", i, &lin_back, f3(&xyz.data()[i * ch..]), &xyz, 1e-5)?;
        for (what, o, e) in [("lab_to_srgb_f32", &to_srgb, refs::lab_to_srgb(q, d50)), ("xyz_to_srgb_f32", &x_srgb, refs::xyz_to_srgb(p))] {
            for k in 0..3 {
                rounded(what, o.info(), i * ch + k, o.data()[i * ch + k], e[k], 0.02)?;
            }
            ensure!(ch < 4 || o.data()[i * ch + 3] as f32 == xyz.data()[i * ch + 3], "{what}: alpha changes");
        }
    }
    c.label(if d50 { "D50" } else { "D65" });
    c.nontrivial(n > 0);
    c.note(|| format!("xyz {} lab {}", show(&xyz), show(&lab)));
    Ok(())
}

/// All colours with one red value, through XYZ and CIELAB and back, both white points
fn c12_all(c: &mut Case) -> R {
    let i = c.choice(256) as usize;
    // a scattered order, so that a prefix of the enumeration covers the whole range
    let r = ((i * 151 + 13) % 256) as u8;
    let mut d = Vec::with_capacity(3 << 16);
    for g in 0..=255u8 {
        for b in 0..=255u8 {
            d.extend_from_slice(&[r, g, b]);
        }
    }
    let img = mk(256, 256, RGB, d);
    let xyz = cs::srgb_to_xyz_f32(&img);
    same_image("through XYZ", &cs::xyz_to_srgb_f32(&xyz), &img)?;
    for d50 in [true, false] {
        let white = imgproc_rs::util::xyz_tristimulus_vals(&wh(d50));
        let e = refs::white(d50);
        let close = |a: f32, b: f64| (a as f64 - b).abs() < 2e-4;
        ensure!(close(white.0, 100.0 * e[0]) && close(white.1, 100.0 * e[1]) && close(white.2, 100.0 * e[2]), "white point (D50 {d50}) is {white:?}, expected 100 times {e:?}");
        let lab = cs::xyz_to_lab_f32(&xyz, &wh(d50));
        for p in lab.data().chunks(3) {
            ensure!(p[0] > -1e-3 && p[0] < 100.001 && p[1] >= -128.0 && p[1] <= 127.0 && p[2] >= -128.0 && p[2] <= 127.0, "Lab out of range (D50 {d50}): {p:?}");
        }
        same_image(&format!("through CIELAB (D50 {d50})"), &cs::lab_to_srgb_f32(&lab, &wh(d50)), &img)?;
    }
    c.count(3 * 65536);
    c.nontrivial(true);
    c.note(|| format!("all 65536 colours with red {r}"));
    Ok(())
}

pub fn defs() -> Vec<PropertyDef> {
    vec![
        PropertyDef {
            id: "C10",
            rule: "random RGB(A) images and HSV triples (sector boundaries, hue 1.0) against the hexcone formulas; all 2^24 colours enumerated by red value; non-trivial: a colour that is not gray, S and V above 0",
            subs: vec![sub("u8", c10_u8, 1000000, 15000000), sub("f32", c10_f32, 1000000, 15000000), sub("hsv", c10_hsv, 1500000, 22500000), all("colours", c10_all, 256, 256)],
        },
        PropertyDef {
            id: "C11",
            rule: "random images of all layouts and random linear values at breakpoint and rounding boundaries against the sRGB curve; non-trivial: three different samples, a value inside (0, 1)",
            subs: vec![sub("linearize", c11_lin, 1500000, 22500000), sub("unlinearize", c11_unlin, 1500000, 22500000)],
        },
        PropertyDef {
            id: "C12",
            rule: "random RGB(A) images and random XYZ and Lab values against the CIE formulas in f64; all 2^24 colours enumerated by red value; non-trivial: a colour that is not gray",
            subs: vec![sub("forward", c12_forward, 220000, 3300000), sub("inverse", c12_inverse, 1000000, 15000000), all("colours", c12_all, 256, 256)],
        },
    ]
}
