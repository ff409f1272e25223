//! C01..C05: the image store, mapping, iteration, windows, channel types

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use imgproc_rs::convert;
use imgproc_rs::image::{BaseImage, Image, ImageInfo, Number, Pixel, PixelIter, SubImage};
use std::fmt::Debug;

/// A channel type the generators can produce
pub trait Chan: Number + Debug + Default + 'static {
    fn draw(c: &mut Case) -> Self;
    fn negated(_v: Self) -> Option<Self> {
        None
    }
    const NAME: &'static str;
}
impl Chan for u8 {
    fn draw(c: &mut Case) -> u8 {
        c.u8()
    }
    const NAME: &'static str = "u8";
}
impl Chan for u16 {
    fn draw(c: &mut Case) -> u16 {
        c.choice(65536) as u16
    }
    const NAME: &'static str = "u16";
}
impl Chan for i32 {
    fn draw(c: &mut Case) -> i32 {
        c.int(-100000, 100000) as i32
    }
    fn negated(v: i32) -> Option<i32> {
        Some(-v)
    }
    const NAME: &'static str = "i32";
}
impl Chan for f32 {
    fn draw(c: &mut Case) -> f32 {
        c.int(-2000, 2000) as f32 / 8.0
    }
    fn negated(v: f32) -> Option<f32> {
        Some(-v)
    }
    const NAME: &'static str = "f32";
}
impl Chan for f64 {
    fn draw(c: &mut Case) -> f64 {
        c.int(-2000, 2000) as f64 / 8.0
    }
    const NAME: &'static str = "f64";
}

fn draw_n<T: Chan>(c: &mut Case, n: usize) -> Vec<T> {
    if n > 600 {
        // many samples from a few choices: distinct neighbours, no long trace
        let pal: Vec<T> = (0..13).map(|_| T::draw(c)).collect();
        let mut r = Rng::new(c.choice(1 << 32));
        (0..n).map(|_| pal[(r.next() % 13) as usize]).collect()
    } else {
        (0..n).map(|_| T::draw(c)).collect()
    }
}

fn check_all<T: Chan>(img: &Image<T>, model: &[T], info: ImageInfo, what: &str) -> R {
    ensure!(img.info() == info, "{what}: image information changed to {:?}", img.info());
    ensure!(img.data() == model, "{what}: samples differ from the model: {:?} vs {:?}", clip(&format!("{:?}", img.data()), 300), clip(&format!("{:?}", model), 300));
    Ok(())
}

/// Cuts the samples into runs of the given lengths, the last one holding what remains
fn ragged<'a, T>(model: &'a [T], runs: &[usize]) -> Vec<&'a [T]> {
    let mut rest = model;
    let mut out = Vec::new();
    for n in runs {
        let (a, b) = rest.split_at((*n).min(rest.len()));
        out.push(a);
        rest = b;
    }
    out.push(rest);
    out
}

fn store_t<T: Chan>(c: &mut Case, large: bool) -> R {
    let mut l = layout_any(c);
    if !large && c.chance(1, 12) {
        l.ch = c.int(1, 255) as u8;
    }
    let (w, h) = if l.ch > 6 { dims(c, 5) } else if large { dims_large(c) } else { dims(c, 14) };
    let n = count(w, h, l);
    let ch = l.ch as usize;
    let how = c.choice(9);
    // runs of samples of any length, also none
    let runs: Vec<usize> = if how > 6 { (0..c.int(1, 8)).map(|_| c.int(0, 2 * ch as i64 * w.min(40) as i64) as usize).collect() } else { Vec::new() };
    let mut model: Vec<T> = if how == 5 { vec![T::default(); n] } else { draw_n(c, n) };
    let mut img: Image<T> = match how {
        0 => Image::from_vec(w, h, l.ch, l.alpha, model.clone()),
        1 => Image::from_slice(w, h, l.ch, l.alpha, &model),
        2 => Image::from_vec_of_vec(w, h, l.ch, l.alpha, model.chunks(ch).map(|p| p.to_vec()).collect()),
        3 => Image::from_vec_of_slice(w, h, l.ch, l.alpha, model.chunks(ch).collect()),
        4 => Image::from_vec_of_vec(w, h, l.ch, l.alpha, model.chunks(ch * w as usize).map(|p| p.to_vec()).collect()),
        5 => Image::blank(ImageInfo::new(w, h, l.ch, l.alpha)),
        6 => Image::from_vec_of_slice(w, h, l.ch, l.alpha, model.chunks(ch * w as usize).collect()),
        7 => Image::from_vec_of_slice(w, h, l.ch, l.alpha, ragged(&model, &runs)),
        _ => Image::from_vec_of_vec(w, h, l.ch, l.alpha, ragged(&model, &runs).iter().map(|p| p.to_vec()).collect()),
    };
    let info = ImageInfo { width: w, height: h, channels: l.ch, alpha: l.alpha };
    check_all(&img, &model, info, "after construction")?;
    // reported sizes
    let i = img.info();
    ensure!(i.wh() == (w, h) && i.whc() == (w, h, l.ch) && i.whca() == (w, h, l.ch, l.alpha), "wh/whc/whca disagree with the construction");
    ensure!(i.channels_non_alpha() as usize == colours(l), "channels_non_alpha is {} for {:?}", i.channels_non_alpha(), l);
    ensure!(i.size() as usize == w as usize * h as usize, "size is {} for {w}x{h}", i.size());
    ensure!(i.full_size() as usize == n, "full_size is {} instead of {n}", i.full_size());
    let text = format!("{}", i);
    for part in [format!("width: {w}"), format!("height: {h}"), format!("channels: {}", l.ch), format!("alpha: {}", l.alpha)] {
        ensure!(text.contains(&part), "printed information lacks {part:?}: {text:?}");
    }
    if how == 5 {
        let e: Image<T> = Image::empty(info);
        ensure!(e.info() == info && e.data().is_empty(), "empty image has {} samples", e.data().len());
    }
    let steps = if large { 6 } else { c.int(1, 24) };
    let mut kinds = 0u32;
    for step in 0..steps {
        let op = c.choice(17);
        kinds |= 1 << op;
        let x = c.choice(w as u64) as u32;
        let y = c.choice(h as u64) as u32;
        let p = (y as usize * w as usize + x as usize) * ch;
        let what = format!("step {step} op {op} at ({x}, {y}) of {w}x{h} {l:?} {}", T::NAME);
        let val: Vec<T> = (0..ch).map(|_| T::draw(c)).collect();
        // out-of-range coordinates: just outside, aliasing into the buffer, huge
        let bad = |c: &mut Case, n: u32| -> u32 {
            match c.choice(4) {
                0 => n,
                1 => n + c.choice(1000) as u32,
                2 => u32::MAX,
                _ => u32::MAX - c.choice(40) as u32,
            }
        };
        match op {
            0 => {
                img.set_pixel(x, y, &val);
                model[p..p + ch].clone_from_slice(&val);
            }
            1 => {
                img.set_pixel_indexed(p / ch, &val);
                model[p..p + ch].clone_from_slice(&val);
            }
            2 => {
                let m = img.get_pixel_mut(x, y);
                ensure!(m.len() == ch && *m == model[p..p + ch], "{what}: get_pixel_mut shows {m:?}");
                m.clone_from_slice(&val);
                model[p..p + ch].clone_from_slice(&val);
            }
            3 => {
                let m = img.get_pixel_mut_unchecked(x, y);
                ensure!(m.len() == ch && *m == model[p..p + ch], "{what}: get_pixel_mut_unchecked shows {m:?}");
                m.clone_from_slice(&val);
                model[p..p + ch].clone_from_slice(&val);
            }
            4 => {
                let m = &mut img[p / ch];
                ensure!(m.len() == ch && *m == model[p..p + ch], "{what}: mutable index shows {m:?}");
                m.clone_from_slice(&val);
                model[p..p + ch].clone_from_slice(&val);
            }
            5 => {
                let k = c.choice(n as u64) as usize;
                img.data_mut()[k] = val[0];
                model[k] = val[0];
            }
            6 => {
                // one channel through the mutable views
                let k = c.choice(ch as u64) as usize;
                if c.bool() { img.get_pixel_mut(x, y)[k] = val[0] } else { img[p / ch][k] = val[0] }
                model[p + k] = val[0];
            }
            7 => ensure!(*img.get_pixel(x, y) == model[p..p + ch], "{what}: get_pixel gives {:?}, model {:?}", img.get_pixel(x, y), &model[p..p + ch]),
            8 => ensure!(*img.get_pixel_unchecked(x, y) == model[p..p + ch], "{what}: get_pixel_unchecked gives {:?}", img.get_pixel_unchecked(x, y)),
            9 => ensure!(img[p / ch] == model[p..p + ch], "{what}: indexing gives {:?}", &img[p / ch]),
            10 => ensure!(img.index(x, y) == p, "{what}: index gives {}", img.index(x, y)),
            11 => {
                let (bx, by) = if c.bool() { (bad(c, w), y) } else { (x, bad(c, h)) };
                let r = guarded(|| img.get_pixel(bx, by).to_vec());
                ensure!(r.is_err(), "{what}: get_pixel({bx}, {by}) outside the image returns {:?}", r.unwrap());
            }
            12 => {
                let (bx, by) = if c.bool() { (bad(c, w), y) } else { (x, bad(c, h)) };
                ensure!(panics(|| img.set_pixel(bx, by, &val)), "{what}: set_pixel({bx}, {by}) outside the image succeeds");
            }
            13 => {
                let (bx, by) = if c.bool() { (bad(c, w), y) } else { (x, bad(c, h)) };
                ensure!(panics(|| img.get_pixel_mut(bx, by)[0] = val[0]), "{what}: get_pixel_mut({bx}, {by}) outside the image succeeds");
            }
            14 => {
                let size = w as usize * h as usize;
                let i = match c.choice(4) {
                    0 | 1 => size + c.choice(3) as usize,
                    2 => size + c.choice(3 * n as u64) as usize,
                    // what is left of these in 8, 16, 32 or 48 bits lies inside
                    _ => {
                        let unit = 1usize << c.pick(&[32usize, 31, 33, 40, 48, 8, 16, 24]);
                        (unit + p / ch).max(size)
                    }
                };
                ensure!(panics(|| img[i].to_vec()), "{what}: reading index {i} past the end succeeds");
                ensure!(panics(|| img.set_pixel_indexed(i, &val)), "{what}: writing index {i} past the end succeeds");
                ensure!(panics(|| img[i][0] = val[0]), "{what}: mutable index {i} past the end succeeds");
            }
            _ => {
                let len = match c.choice(4) {
                    0 => ch - 1,
                    1 => ch + 1,
                    2 => ch + 256,
                    _ => 0,
                };
                let wrong: Vec<T> = (0..len).map(|_| val[0]).collect();
                if op == 15 {
                    ensure!(panics(|| img.set_pixel(x, y, &wrong)), "{what}: a pixel of {len} channels is accepted");
                } else {
                    ensure!(panics(|| img.set_pixel_indexed(p / ch, &wrong)), "{what}: an indexed pixel of {len} channels is accepted");
                }
            }
        }
        check_all(&img, &model, info, &what)?;
        c.count(1);
    }
    // every address at the end
    if !large {
        for y in 0..h {
            for x in 0..w {
                let p = (y as usize * w as usize + x as usize) * ch;
                let m = &model[p..p + ch];
                ensure!(img.get_pixel(x, y) == m && img.get_pixel_unchecked(x, y) == m && &img[p / ch] == m && img.index(x, y) == p,
                    "pixel ({x}, {y}) reads differently through different addresses");
            }
        }
        let copy = img.clone();
        ensure!(copy == img, "a clone is not equal to the image");
    }
    c.label(format!("type {}", T::NAME));
    c.label_if(w > 1 && h > 1, "two-dimensional");
    c.nontrivial(n > ch && kinds.count_ones() >= 3);
    c.note(|| format!("{w}x{h} {l:?} {} constructor {how}, {steps} steps", T::NAME));
    Ok(())
}

fn c01_store(c: &mut Case) -> R {
    match c.choice(4) {
        0 => store_t::<u8>(c, false),
        1 => store_t::<f32>(c, false),
        2 => store_t::<u16>(c, false),
        _ => store_t::<i32>(c, false),
    }
}

fn c01_large(c: &mut Case) -> R {
    match c.choice(2) {
        0 => store_t::<u8>(c, true),
        _ => store_t::<f32>(c, true),
    }
}

/// Images of more samples than a float or a 24 bit index can count
fn c01_huge(c: &mut Case) -> R {
    let l = layout(c);
    let ch = l.ch as usize;
    let (w, h) = match c.choice(4) {
        0 => (c.int(4097, 5000) as u32, c.int(4097, 4300) as u32),
        1 => (c.int(66000, 70000) as u32, c.int(256, 300) as u32),
        2 => (c.int(256, 300) as u32, c.int(66000, 70000) as u32),
        _ => ((1 << 24) + c.int(1, 5000) as u32, 1),
    };
    let n = w as usize * h as usize * ch;
    let mut img: Image<u8> = Image::blank(ImageInfo::new(w, h, l.ch, l.alpha));
    ensure!(img.data().len() == n && img.info().full_size() as usize == n && img.info().size() as usize == n / ch, "{w}x{h} {l:?}: {} samples", img.data().len());
    let mut model: std::collections::BTreeMap<usize, u8> = Default::default();
    for step in 0..c.int(3, 9) {
        let (x, y) = match c.choice(4) {
            0 => (w - 1 - c.choice(3).min(w as u64 - 1) as u32, h - 1),
            1 => (w - 1, h - 1 - c.choice(h as u64) as u32),
            _ => (c.choice(w as u64) as u32, c.choice(h as u64) as u32),
        };
        let i = y as usize * w as usize + x as usize;
        let p: Vec<u8> = (0..ch).map(|_| c.int(1, 255) as u8).collect();
        match c.choice(6) {
            0 => img.set_pixel(x, y, &p),
            1 => img.set_pixel_indexed(i, &p),
            2 => img.get_pixel_mut(x, y).copy_from_slice(&p),
            3 => img.get_pixel_mut_unchecked(x, y).copy_from_slice(&p),
            4 => img[i].copy_from_slice(&p),
            _ => img.data_mut()[i * ch..(i + 1) * ch].copy_from_slice(&p),
        }
        for k in 0..ch {
            model.insert(i * ch + k, p[k]);
        }
        ensure!(*img.get_pixel(x, y) == p[..] && *img.get_pixel_unchecked(x, y) == p[..] && img[i] == p[..] && img.index(x, y) == i * ch,
            "step {step}: ({x}, {y}) of {w}x{h} {l:?} reads differently from what was written");
    }
    let found: Vec<(usize, u8)> = img.data().iter().enumerate().filter(|(_, v)| **v != 0).map(|(i, v)| (i, *v)).collect();
    ensure!(found == model.iter().map(|(i, v)| (*i, *v)).collect::<Vec<_>>(), "{w}x{h} {l:?}: samples set at {found:?}, expected {model:?}");
    c.nontrivial(true);
    c.note(|| format!("{w}x{h} {l:?} {} pixels written", model.len() / ch));
    Ok(())
}

/// The reported sizes alone, for sizes no test image has
fn c01_info(c: &mut Case) -> R {
    let ch = c.int(1, 255);
    let alpha = c.bool();
    let w = c.int_special(&[1, 256, 65535, 65536], 1, 1 << 20);
    let max_h = ((u32::MAX as i64) / ch / w).max(1);
    let h = c.int(1, max_h.min(1 << 24));
    if w * h * ch > u32::MAX as i64 {
        return Ok(());
    }
    let i = ImageInfo::new(w as u32, h as u32, ch as u8, alpha);
    ensure!(i.width as i64 == w && i.height as i64 == h && i.channels as i64 == ch && i.alpha == alpha, "ImageInfo::new changed a field: {i:?}");
    ensure!(i.size() as i64 == w * h, "size of {w}x{h} is {}", i.size());
    ensure!(i.full_size() as i64 == w * h * ch, "full_size of {w}x{h}x{ch} is {}", i.full_size());
    ensure!(i.channels_non_alpha() as i64 == ch - alpha as i64, "channels_non_alpha of {i:?}");
    ensure!(i.whca() == (w as u32, h as u32, ch as u8, alpha), "whca of {i:?}");
    c.nontrivial(w * h * ch > 65536);
    c.note(|| format!("{w}x{h}x{ch}"));
    Ok(())
}

// ---------------------------------------------------------------- C02

fn image_t<T: Chan>(c: &mut Case, l: Layout, w: u32, h: u32) -> Image<T> {
    let n = count(w, h, l);
    let d = draw_n::<T>(c, n);
    mk(w, h, l, d)
}

fn c02_map(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 40) { dims_large(c) } else { dims(c, 14) };
    let img: U = image_t(c, l, w, h);
    let ch = l.ch as usize;
    let k = c.int(1, 5) as usize;
    let salt = c.u8();
    // distinguishes position in the pixel, sees all channels it is given
    let f = move |p: &[u8], out: &mut Vec<u16>| {
        for j in 0..k {
            let mut s = 7 * j as u16 + salt as u16;
            for (i, v) in p.iter().enumerate() {
                s = s.wrapping_mul(31).wrapping_add(*v as u16 + i as u16);
            }
            out.push(s.wrapping_add(p.len() as u16));
        }
    };
    let g = |a: u8| 60000u16 + a as u16;

    let out = img.map_pixels(f);
    shape("map_pixels", &out, w, h, Layout { ch: k as u8, alpha: l.alpha })?;
    let mut exp = Vec::new();
    for p in img.data().chunks(ch) {
        f(p, &mut exp);
    }
    eq_data("map_pixels", &out, &exp)?;

    let out = img.map_pixels_if_alpha(f, g);
    let mut exp = Vec::new();
    for p in img.data().chunks(ch) {
        if l.alpha {
            f(&p[..ch - 1], &mut exp);
            exp.push(g(p[ch - 1]));
        } else {
            f(p, &mut exp);
        }
    }
    shape("map_pixels_if_alpha", &out, w, h, Layout { ch: (k + l.alpha as usize) as u8, alpha: l.alpha })?;
    eq_data("map_pixels_if_alpha", &out, &exp)?;

    let fc = move |v: u8| 3.5 * v as f32 + salt as f32;
    let gc = |v: u8| -1.0 - v as f32;
    let out = img.map_channels(fc);
    same_shape("map_channels", &out, &img)?;
    eq_data("map_channels", &out, &img.data().iter().map(|v| fc(*v)).collect::<Vec<_>>())?;
    let out = img.map_channels_if_alpha(fc, gc);
    same_shape("map_channels_if_alpha", &out, &img)?;
    let exp: Vec<f32> = img.data().iter().enumerate().map(|(i, v)| if l.alpha && i % ch == ch - 1 { gc(*v) } else { fc(*v) }).collect();
    eq_data("map_channels_if_alpha", &out, &exp)?;
    // functions that keep a state see every pixel and channel once
    let n = w as usize * h as usize;
    let (calls, others) = (std::cell::Cell::new(0usize), std::cell::Cell::new(0usize));
    let up = |x: &std::cell::Cell<usize>| x.set(x.get() + 1);
    let mut once = |what: &str, a: usize, b: usize| -> R {
        let (x, y) = (calls.replace(0), others.replace(0));
        ensure!(x == a && y == b, "{what} of {w}x{h} {l:?}: the function is called {x} times instead of {a}, that of the alpha {y} times instead of {b}");
        Ok(())
    };
    let alphas = if l.alpha { n } else { 0 };
    img.map_pixels(|p: &[u8], o: &mut Vec<u8>| { up(&calls); o.push(p[0]) });
    once("map_pixels", n, 0)?;
    img.map_pixels_if_alpha(|p: &[u8], o: &mut Vec<u8>| { up(&calls); o.extend_from_slice(p) }, |a| { up(&others); a });
    once("map_pixels_if_alpha", n, alphas)?;
    img.map_channels(|v| { up(&calls); v });
    once("map_channels", n * ch, 0)?;
    img.map_channels_if_alpha(|v| { up(&calls); v }, |a| { up(&others); a });
    once("map_channels_if_alpha", n * colours(l), alphas)?;
    let mut copy = img.clone();
    copy.apply_pixels(|p, o| { up(&calls); o.extend_from_slice(p) });
    once("apply_pixels", n, 0)?;
    copy.apply_pixels_if_alpha(|p, o| { up(&calls); o.extend_from_slice(p) }, |a| { up(&others); a });
    once("apply_pixels_if_alpha", n, alphas)?;
    copy.apply_channels(|v| { up(&calls); v });
    once("apply_channels", n * ch, 0)?;
    copy.apply_channels_if_alpha(|v| { up(&calls); v }, |a| { up(&others); a });
    once("apply_channels_if_alpha", n * colours(l), alphas)?;
    copy.edit_channel(|v| { up(&calls); v }, ch - 1);
    once("edit_channel", n, 0)?;
    same_image("after functions that change nothing", &copy, &img)?;
    c.label_if(l.alpha, "alpha");
    c.nontrivial(w * h > 1 && img.data().iter().any(|v| *v != img.data()[0]));
    c.note(|| format!("{} -> {k} channels per pixel", show(&img)));
    Ok(())
}

fn apply_t<T: Chan>(c: &mut Case, fc: fn(T) -> T, gc: fn(T) -> T) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 40) { dims_large(c) } else { dims(c, 14) };
    let img: Image<T> = image_t(c, l, w, h);
    let ch = l.ch as usize;
    let n_col = colours(l);
    // pixel function: a rotation of the channels, each changed
    let rot = move |p: &[T], out: &mut Vec<T>| {
        for i in 0..p.len() {
            out.push(fc(p[(i + 1) % p.len()]));
        }
    };
    let is_alpha = |i: usize| l.alpha && i % ch == ch - 1;

    let mut a = img.clone();
    a.apply_pixels(rot);
    let mut exp = Vec::new();
    for p in img.data().chunks(ch) {
        rot(p, &mut exp);
    }
    same_shape("apply_pixels", &a, &img)?;
    eq_data("apply_pixels", &a, &exp)?;

    let mut a = img.clone();
    a.apply_pixels_if_alpha(rot, gc);
    let mut exp = Vec::new();
    for p in img.data().chunks(ch) {
        rot(&p[..n_col], &mut exp);
        if l.alpha {
            exp.push(gc(p[ch - 1]));
        }
    }
    same_shape("apply_pixels_if_alpha", &a, &img)?;
    eq_data("apply_pixels_if_alpha", &a, &exp)?;
    same_image("map_pixels_if_alpha against apply_pixels_if_alpha", &img.map_pixels_if_alpha(rot, gc), &a)?;

    let mut a = img.clone();
    a.apply_channels(fc);
    same_shape("apply_channels", &a, &img)?;
    eq_data("apply_channels", &a, &img.data().iter().map(|v| fc(*v)).collect::<Vec<_>>())?;

    let mut a = img.clone();
    a.apply_channels_if_alpha(fc, gc);
    same_shape("apply_channels_if_alpha", &a, &img)?;
    let exp: Vec<T> = img.data().iter().enumerate().map(|(i, v)| if is_alpha(i) { gc(*v) } else { fc(*v) }).collect();
    eq_data("apply_channels_if_alpha", &a, &exp)?;

    let k = c.choice(ch as u64) as usize;
    let mut a = img.clone();
    a.edit_channel(fc, k);
    same_shape("edit_channel", &a, &img)?;
    let exp: Vec<T> = img.data().iter().enumerate().map(|(i, v)| if i % ch == k { fc(*v) } else { *v }).collect();
    eq_data(&format!("edit_channel {k}"), &a, &exp)?;
    c.label(format!("type {}", T::NAME));
    c.nontrivial(w * h > 1 && ch > 1);
    c.note(|| show(&img));
    Ok(())
}

fn c02_apply(c: &mut Case) -> R {
    match c.choice(3) {
        0 => apply_t::<u8>(c, |v| v.wrapping_mul(7).wrapping_add(3), |v| 255 - v),
        1 => apply_t::<f32>(c, |v| v * 2.0 + 1.0, |v| -v),
        _ => apply_t::<i32>(c, |v| v * 3 - 1, |v| v + 100),
    }
}

fn pixel_t<T: Chan>(c: &mut Case, fc: fn(T) -> T, gc: fn(T) -> T) -> R {
    let n = c.int(1, 7) as usize;
    let zero: T = 0.into();
    let mut p: Vec<T> = (0..n).map(|_| if c.chance(2, 3) { zero } else { T::draw(c) }).collect();
    if n > 2 && c.chance(1, 6) {
        // samples that cancel each other
        let (i, j) = (c.choice(n as u64) as usize, c.choice(n as u64) as usize);
        let v = T::draw(c);
        if let Some(m) = T::negated(v) {
            p[i] = v;
            p[j] = m;
        }
    }
    ensure!(p.alpha() == p[n - 1], "alpha of {p:?} is {:?}", p.alpha());
    ensure!(*p.channels_without_alpha() == p[..n - 1], "channels_without_alpha of {p:?}");
    let all: Vec<T> = p.map_all(fc);
    ensure!(all == p.iter().map(|v| fc(*v)).collect::<Vec<_>>(), "map_all of {p:?} is {all:?}");
    let ma: Vec<T> = p.map_alpha(fc, gc);
    let exp: Vec<T> = (0..n).map(|i| if i == n - 1 { gc(p[i]) } else { fc(p[i]) }).collect();
    ensure!(ma == exp, "map_alpha of {p:?} is {ma:?}");
    let mut q = p.clone();
    q.apply(fc);
    ensure!(q == all, "apply of {p:?} is {q:?}");
    let mut q = p.clone();
    q.apply_alpha(fc, gc);
    ensure!(q == exp, "apply_alpha of {p:?} is {q:?}");
    ensure!(p.is_black() == p.iter().all(|v| *v == zero), "is_black of {p:?} is {}", p.is_black());
    ensure!(p.is_black_alpha() == p[..n - 1].iter().all(|v| *v == zero), "is_black_alpha of {p:?} is {}", p.is_black_alpha());
    c.label_if(p.is_black(), "black");
    c.nontrivial(n > 1);
    c.note(|| format!("{p:?}"));
    Ok(())
}

fn c02_pixel(c: &mut Case) -> R {
    match c.choice(3) {
        0 => pixel_t::<u8>(c, |v| v.wrapping_add(9), |v| 255 - v),
        1 => pixel_t::<f32>(c, |v| v * 2.0 + 1.0, |v| -v - 3.0),
        _ => pixel_t::<i32>(c, |v| v * 3 - 1, |v| v + 100),
    }
}

// ---------------------------------------------------------------- C03

fn c03_iter(c: &mut Case) -> R {
    let l = layout_any(c);
    let (mut w, mut h) = if c.chance(1, 60) { dims_large(c) } else { dims(c, 14) };
    if c.chance(1, 8) {
        match c.choice(3) {
            0 => w = 0,
            1 => h = 0,
            _ => {
                w = 0;
                h = 0
            }
        }
    }
    let img: U = image_t(c, l, w, h);
    let total = w as usize * h as usize;
    let want = |i: usize| -> (u32, u32, &[u8]) {
        let (x, y) = (i % w as usize, i / w as usize);
        (x as u32, y as u32, px(&img, x, y))
    };
    // a plain walk
    let mut it = if c.bool() { PixelIter::new(&img) } else { img.into_iter() };
    for i in 0..=total {
        let rest = total - i;
        let (lo, hi) = it.size_hint();
        ensure!(lo <= rest && hi.map_or(true, |v| v >= rest), "{w}x{h}: after {i} items the size hint is ({lo}, {hi:?}) with {rest} to come");
        match it.next() {
            Some(v) => {
                ensure!(i < total, "{w}x{h}: item {i} although there are only {total}");
                ensure!(v == want(i), "{w}x{h}: item {i} is {v:?}, expected {:?}", want(i));
            }
            None => ensure!(i == total, "{w}x{h}: exhausted after {i} of {total} items"),
        }
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "{w}x{h}: an item after the end");
    }
    let (lo, hi) = it.size_hint();
    ensure!(lo == 0, "{w}x{h}: after the end the size hint is ({lo}, {hi:?})");
    c.count(total as u64);
    // the adaptors the standard library derives from next and size_hint
    let it = img.into_iter();
    ensure!(it.clone().count() == total, "{w}x{h}: count() gives {}", it.clone().count());
    let all: Vec<_> = it.clone().collect();
    ensure!(all.len() == total && all.iter().enumerate().all(|(i, v)| *v == want(i)), "{w}x{h}: collect() differs");
    ensure!(it.clone().last() == if total > 0 { Some(want(total - 1)) } else { None }, "{w}x{h}: last() differs");
    let k = c.choice(total as u64 + 3) as usize;
    let mut nth = it.clone();
    let got = nth.nth(k);
    ensure!(got == if k < total { Some(want(k)) } else { None }, "{w}x{h}: nth({k}) is {got:?}");
    let after = nth.next();
    ensure!(after == if k + 1 < total { Some(want(k + 1)) } else { None }, "{w}x{h}: next() after nth({k}) is {after:?}");
    let rest = total.saturating_sub(k + 2);
    ensure!(nth.clone().count() == rest, "{w}x{h}: {} items after {k}+2, expected {rest}", nth.clone().count());
    // a copy taken on the way goes on from there, and leaves the original where it is
    let mut part = img.into_iter();
    let m = k.min(total);
    for _ in 0..m {
        part.next();
    }
    let copy = part.clone();
    ensure!(copy.size_hint() == part.size_hint(), "{w}x{h}: a copy after {m} items has another size hint");
    ensure!(copy.clone().count() == total - m, "{w}x{h}: count() after {m} items is {}", copy.clone().count());
    ensure!(copy.clone().last() == if m < total { Some(want(total - 1)) } else { None }, "{w}x{h}: last() after {m} items differs");
    let (seen, at) = copy.clone().fold((0usize, true), |(i, ok), v| (i + 1, ok && v == want(m + i)));
    ensure!(seen == total - m && at, "{w}x{h}: fold() after {m} items sees {seen} of {}", total - m);
    let key = |v: &(u32, u32, &[u8])| (v.1, v.0);
    ensure!(copy.clone().map(|v| key(&v)).min() == if m < total { Some((want(m).1, want(m).0)) } else { None }, "{w}x{h}: smallest position after {m} items");
    if m < total {
        let goal = want(m + (total - m) / 2);
        let mut search = copy.clone();
        ensure!(search.position(|v| (v.0, v.1) == (goal.0, goal.1)) == Some((total - m) / 2), "{w}x{h}: position() after {m} items");
        let next = m + (total - m) / 2 + 1;
        ensure!(search.next() == if next < total { Some(want(next)) } else { None }, "{w}x{h}: next() after position()");
    }
    drop(copy);
    let by: Vec<_> = part.by_ref().take(3).collect();
    ensure!(by.len() == 3.min(total - m) && by.iter().enumerate().all(|(i, v)| *v == want(m + i)), "{w}x{h}: take(3) after {m} items is {by:?}");
    ensure!(part.count() == (total - m).saturating_sub(3), "{w}x{h}: items left after take(3)");
    let step = c.int(1, 5) as usize;
    let stepped: Vec<_> = it.skip(k).step_by(step).map(|v| (v.0, v.1)).collect();
    let exp: Vec<_> = (k..total).step_by(step).map(|i| (want(i).0, want(i).1)).collect();
    ensure!(stepped == exp, "{w}x{h}: skip({k}).step_by({step}) differs");
    let mut sum = 0;
    for (x, y, p) in &img {
        ensure!(p.len() == l.ch as usize, "a pixel of {} channels", p.len());
        sum += (x + y * w) as u64;
    }
    ensure!(sum == (total as u64) * (total as u64).saturating_sub(1) / 2, "{w}x{h}: a for loop visits other pixels");
    c.label_if(total == 0, "no pixels");
    c.label_if(w == 1 || h == 1, "single row or column");
    c.nontrivial(total == 0 || (w > 1 && h > 1));
    c.note(|| format!("{w}x{h} {l:?}, nth({k}), step {step}"));
    Ok(())
}

// ---------------------------------------------------------------- C04

fn sub_matches<T: Chan>(what: &str, s: &SubImage<T>, w: u32, h: u32, l: Layout, exp: &dyn Fn(u32, u32) -> Vec<T>) -> R {
    let i = s.info();
    ensure!(i.whca() == (w, h, l.ch, l.alpha), "{what}: information is {i:?}, expected {w}x{h} {l:?}");
    ensure!(s.data().len() == (w * h) as usize, "{what}: {} pixels", s.data().len());
    let mut flat: Vec<T> = Vec::new();
    for y in 0..h {
        for x in 0..w {
            let e = exp(x, y);
            ensure!(*s.get_pixel(x, y) == e[..], "{what}: ({x}, {y}) reads {:?}, expected {e:?}", s.get_pixel(x, y));
            let k = (y * w + x) as usize;
            ensure!(s[k] == e[..], "{what}: index {k} reads {:?}, expected {e:?}", &s[k]);
            ensure!(*s.data()[k] == e[..], "{what}: data()[{k}] reads {:?}, expected {e:?}", s.data()[k]);
            flat.extend_from_slice(&e);
        }
    }
    ensure!(s.to_vec() == flat, "{what}: to_vec gives {:?}, expected {flat:?}", s.to_vec());
    ensure!(panics(|| s.get_pixel(w, 0).to_vec()), "{what}: reading at x = width {w} does not panic");
    ensure!(panics(|| s.get_pixel(0, h).to_vec()), "{what}: reading at y = height {h} does not panic");
    Ok(())
}

fn c04_sub_t<T: Chan>(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 400) { dims_large(c) } else if c.chance(1, 30) { dims_wide(c) } else { dims(c, 14) };
    let img: Image<T> = image_t(c, l, w, h);
    let x = c.choice(w as u64) as u32;
    let y = c.choice(h as u64) as u32;
    let extent = |c: &mut Case, n: u32| match c.choice(3) { 0 => 1 + c.choice(n as u64) as u32, 1 => n, _ => n.min(2 + c.choice(3) as u32) };
    let sw = extent(c, w - x);
    let sh = extent(c, h - y);
    let s = img.get_subimage(x, y, sw, sh);
    sub_matches("get_subimage", &s, sw, sh, l, &|i, j| px(&img, (x + i) as usize, (y + j) as usize).to_vec())?;
    // a copy made from the window is the window
    let copy = Image::from_vec(sw, sh, l.ch, l.alpha, s.to_vec());
    for j in 0..sh {
        for i in 0..sw {
            ensure!(copy.get_pixel(i, j) == img.get_pixel(x + i, y + j), "copy of the sub-image differs at ({i}, {j})");
        }
    }
    let far = c.choice(5) as u32;
    ensure!(panics(|| img.get_subimage(w + far, y, 1, 1).to_vec()), "get_subimage at x = {} of width {w} does not panic", w + far);
    ensure!(panics(|| img.get_subimage(x, h + far, 1, 1).to_vec()), "get_subimage at y = {} of height {h} does not panic", h + far);
    ensure!(panics(|| img.get_subimage(x, y, w - x + 1 + far, 1).to_vec()), "a sub-image beyond the right edge does not panic");
    ensure!(panics(|| img.get_subimage(x, y, 1, h - y + 1 + far).to_vec()), "a sub-image beyond the bottom edge does not panic");
    // a view made by hand
    let view = SubImage::new(sh, sw, l.ch, l.alpha, s.data().to_vec());
    sub_matches("SubImage::new", &view, sh, sw, l, &|i, j| s.data()[(j * sh + i) as usize].to_vec())?;
    c.label_if(sw > 1 && sh > 1, "two-dimensional");
    c.label_if(x + sw == w && y + sh == h, "touches the corner");
    c.nontrivial(sw > 1 && sh > 1);
    c.note(|| format!("({x}, {y}) {sw}x{sh} of {}", show(&img)));
    Ok(())
}

fn c04_sub(c: &mut Case) -> R {
    if c.bool() { c04_sub_t::<u8>(c) } else { c04_sub_t::<f32>(c) }
}

fn c04_near_t<T: Chan>(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 300) { dims_large(c) } else if c.chance(1, 30) { dims_wide(c) } else { dims(c, 14) };
    let img: Image<T> = image_t(c, l, w, h);
    let corner = |c: &mut Case, n: u32| if c.chance(1, 4) { n - 1 - c.choice(n.min(4) as u64) as u32 } else { c.choice(n as u64) as u32 };
    let x = corner(c, w);
    let y = corner(c, h);
    // lines longer than 15 and 16 bits
    let line = c.chance(1, 6000);
    let size = if line { c.int(32700, 70000) as u32 } else if c.chance(1, 1000) { c.int(250, 300) as u32 } else if c.chance(1, 10) { c.int(1, 60) as u32 } else { c.int(1, 9) as u32 };
    let k = size as i64 / 2;
    let read = |dx: i64, dy: i64| -> Vec<T> {
        let xx = (x as i64 + dx).clamp(0, w as i64 - 1) as usize;
        let yy = (y as i64 + dy).clamp(0, h as i64 - 1) as usize;
        px(&img, xx, yy).to_vec()
    };
    let v = img.get_neighborhood_1d(x, y, size, true);
    sub_matches(&format!("vertical neighbourhood of size {size} at ({x}, {y}) of {w}x{h}"), &v, 1, size, l, &|_, j| read(0, j as i64 - k))?;
    let v = img.get_neighborhood_1d(x, y, size, false);
    sub_matches(&format!("horizontal neighbourhood of size {size} at ({x}, {y}) of {w}x{h}"), &v, size, 1, l, &|i, _| read(i as i64 - k, 0))?;
    c.label_if(line, "line of more than 32700 pixels");
    let size = if line { c.int(1, 9) as u32 } else { size };
    let k = size as i64 / 2;
    let v = img.get_neighborhood_2d(x, y, size);
    sub_matches(&format!("2D neighbourhood of size {size} at ({x}, {y}) of {w}x{h}"), &v, size, size, l, &|i, j| read(i as i64 - k, j as i64 - k))?;
    let far = c.choice(3) as u32;
    ensure!(panics(|| img.get_neighborhood_1d(w + far, y, size, true).to_vec()), "vertical neighbourhood at x = {} does not panic", w + far);
    ensure!(panics(|| img.get_neighborhood_1d(x, h + far, size, true).to_vec()), "vertical neighbourhood at y = {} does not panic", h + far);
    ensure!(panics(|| img.get_neighborhood_1d(w + far, y, size, false).to_vec()), "horizontal neighbourhood at x = {} does not panic", w + far);
    ensure!(panics(|| img.get_neighborhood_1d(x, h + far, size, false).to_vec()), "horizontal neighbourhood at y = {} does not panic", h + far);
    ensure!(panics(|| img.get_neighborhood_2d(w + far, y, size).to_vec()), "2D neighbourhood at x = {} does not panic", w + far);
    ensure!(panics(|| img.get_neighborhood_2d(x, h + far, size).to_vec()), "2D neighbourhood at y = {} does not panic", h + far);
    let near = (x as i64) < k || (y as i64) < k || x as i64 + k >= w as i64 || y as i64 + k >= h as i64;
    c.label_if(near, "crosses the border");
    c.label_if(size % 2 == 0, "even size");
    c.nontrivial(size > 1 && w * h > 1);
    c.note(|| format!("({x}, {y}) size {size} of {}", show(&img)));
    Ok(())
}

fn c04_near(c: &mut Case) -> R {
    if c.bool() { c04_near_t::<u8>(c) } else { c04_near_t::<f32>(c) }
}

// ---------------------------------------------------------------- C05

fn float_special(c: &mut Case) -> f64 {
    match c.choice(9) {
        0 => c.int(-3, 258) as f64 + 0.5,
        1 => c.int(-2, 257) as f64,
        2 => c.int(0, 256) as f64 + 0.49,
        3 => c.int(0, 256) as f64 + 0.51,
        4 => -0.0,
        5 => c.pick(&[1e9, -1e9, 1e30, -1e30, 256.0, 65536.0, 4294967296.0, 255.5, 254.5, 0.49999997]),
        6 => c.pick(&[f64::INFINITY, f64::NEG_INFINITY]),
        _ => c.int(-1 << 20, 300 << 16) as f64 / 65536.0,
    }
}

fn sat_round(v: f64) -> u8 {
    // nearest, halves away from zero, saturating
    let r = v.round();
    if r <= 0.0 { 0 } else if r >= 255.0 { 255 } else { r as u8 }
}

fn c05_from(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 40) { dims_large(c) } else { dims(c, 12) };
    let n = count(w, h, l);
    let u: U = mk(w, h, l, u8s(c, n));
    let as32: Image<f32> = u.clone().into();
    same_shape("u8 to f32", &as32, &u)?;
    eq_data("u8 to f32", &as32, &u.data().iter().map(|v| *v as f32).collect::<Vec<_>>())?;
    let as64: Image<f64> = u.clone().into();
    same_shape("u8 to f64", &as64, &u)?;
    eq_data("u8 to f64", &as64, &u.data().iter().map(|v| *v as f64).collect::<Vec<_>>())?;
    let back: U = as32.clone().into();
    same_image("u8 to f32 and back", &back, &u)?;
    let back: U = as64.clone().into();
    same_image("u8 to f64 and back", &back, &u)?;
    // wide integers
    let m = n.min(600);
    let (w2, h2, l2) = if n <= 600 { (w, h, l) } else { (m as u32, 1, GRAY) };
    let wide: Vec<u64> = (0..m).map(|_| match c.choice(4) { 0 => c.choice(70000), 1 => c.choice(1 << 33), 2 => c.choice(1 << 53), _ => c.pick(&[0, 65535, 65536, 4294967295, 4294967296, (1 << 53) - 1]) }).collect();
    let a: Image<f64> = mk(w2, h2, l2, wide.iter().map(|v| (*v & 0xffff) as u16).collect::<Vec<_>>()).into();
    shape("u16 to f64", &a, w2, h2, l2)?;
    eq_data("u16 to f64", &a, &wide.iter().map(|v| (*v & 0xffff) as f64).collect::<Vec<_>>())?;
    let a: Image<f64> = mk(w2, h2, l2, wide.iter().map(|v| (*v & 0xffff_ffff) as u32).collect::<Vec<_>>()).into();
    shape("u32 to f64", &a, w2, h2, l2)?;
    eq_data("u32 to f64", &a, &wide.iter().map(|v| (*v & 0xffff_ffff) as f64).collect::<Vec<_>>())?;
    let a: Image<f64> = mk(w2, h2, l2, wide.clone()).into();
    shape("u64 to f64", &a, w2, h2, l2)?;
    eq_data("u64 to f64", &a, &wide.iter().map(|v| *v as f64).collect::<Vec<_>>())?;
    let a: Image<f64> = mk(w2, h2, l2, wide.iter().map(|v| *v as usize).collect::<Vec<_>>()).into();
    shape("usize to f64", &a, w2, h2, l2)?;
    eq_data("usize to f64", &a, &wide.iter().map(|v| *v as f64).collect::<Vec<_>>())?;
    let a: Image<f64> = mk(w2, h2, l2, wide.iter().map(|v| *v as u128).collect::<Vec<_>>()).into();
    shape("u128 to f64", &a, w2, h2, l2)?;
    eq_data("u128 to f64", &a, &wide.iter().map(|v| *v as f64).collect::<Vec<_>>())?;
    // wider than 64 bits, with no more significant bits than f64 has
    let huge: Vec<u128> = wide.iter().map(|v| (*v as u128) << c.choice(76)).collect();
    let a: Image<f64> = mk(w2, h2, l2, huge.clone()).into();
    eq_data("wide u128 to f64", &a, &huge.iter().map(|v| *v as f64).collect::<Vec<_>>())?;
    // floats: every bit pattern of a finite float is a value to preserve
    let fl: Vec<f64> = (0..m).map(|_| float_special(c)).collect();
    let f32v: Vec<f32> = fl.iter().map(|v| *v as f32).collect();
    let fi = mk(w2, h2, l2, f32v.clone());
    let a: Image<f64> = fi.clone().into();
    shape("f32 to f64", &a, w2, h2, l2)?;
    eq_data("f32 to f64", &a, &f32v.iter().map(|v| *v as f64).collect::<Vec<_>>())?;
    let a: U = fi.into();
    shape("f32 to u8", &a, w2, h2, l2)?;
    for i in 0..m {
        ensure!(a.data()[i] == sat_round(f32v[i] as f64), "f32 {:?} converts to {}, expected {}", f32v[i], a.data()[i], sat_round(f32v[i] as f64));
    }
    let a: U = mk(w2, h2, l2, fl.clone()).into();
    shape("f64 to u8", &a, w2, h2, l2)?;
    for i in 0..m {
        ensure!(a.data()[i] == sat_round(fl[i]), "f64 {:?} converts to {}, expected {}", fl[i], a.data()[i], sat_round(fl[i]));
    }
    // not a number: no value is right, but the conversion must not panic
    let _: U = mk(1, 1, GRAY, vec![f32::NAN]).into();
    let _: U = mk(1, 1, GRAY, vec![f64::NAN]).into();
    c.nontrivial(n > 3);
    c.label_if(fl.iter().any(|v| *v < 0.0 || *v > 255.0), "saturates");
    c.note(|| format!("{}; floats {:?}", show(&u), &fl[..m.min(12)]));
    Ok(())
}

fn c05_scale(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = dims(c, 12);
    let n = count(w, h, l);
    let lo = c.int(-4096, 4096) as f64 / 16.0;
    let hi = { let d = c.int(1, 8192) as f64 / 16.0; if c.chance(1, 6) { lo - d } else { lo + d } };
    let slo = c.int(-4096, 4096) as f64 / 16.0;
    let shi = c.int(-4096, 4096) as f64 / 16.0;
    let outside = c.chance(1, 5);
    let mut d: Vec<f32> = (0..n.min(300)).map(|_| {
        // the map goes on outside the range
        let k = if outside && c.chance(1, 3) { c.int(-640, 704) * c.pick(&[1, 10, 1000]) } else { c.int(0, 64) };
        (lo + (hi - lo) * (k as f64 / 64.0)) as f32
    }).collect();
    while d.len() < n {
        let v = d[d.len() % 300];
        d.push(v);
    }
    d[0] = lo as f32;
    d[n - 1] = hi as f32;
    let img = mk(w, h, l, d.clone());
    let out = match convert::scale_channels(&img, lo as f32, slo as f32, hi as f32, shi as f32) {
        Ok(o) => o,
        Err(e) => return Err(format!("scale_channels({lo}, {slo}, {hi}, {shi}) fails: {e:?}")),
    };
    same_shape("scale_channels", &out, &img)?;
    let far = d.iter().fold(lo.abs().max(hi.abs()), |a, v| a.max(v.abs() as f64));
    let amp = far / (hi - lo).abs() * (shi - slo).abs() + slo.abs() + shi.abs();
    let exp: Vec<(f64, f64)> = d.iter().map(|v| ((*v as f64 - lo) / (hi - lo) * (shi - slo) + slo, 2e-6 * amp + 1e-6)).collect();
    close_data(&format!("scale_channels from [{lo}, {hi}] to [{slo}, {shi}]"), &out, &exp)?;
    // and back
    if (shi - slo).abs() > 0.05 {
        let back = convert::scale_channels(&out, slo as f32, lo as f32, shi as f32, hi as f32).map_err(|e| format!("{e:?}"))?;
        let k = (hi - lo).abs() / (shi - slo).abs();
        let exp: Vec<(f64, f64)> = d.iter().map(|v| (*v as f64, 1e-5 * (amp * k + lo.abs() + hi.abs()) + 1e-5)).collect();
        close_data("scale_channels and back", &back, &exp)?;
    }
    c.label_if(outside, "samples outside the range");
    c.nontrivial(n > 1 && slo != shi);
    c.note(|| format!("[{lo}, {hi}] -> [{slo}, {shi}] {}", show(&img)));
    Ok(())
}

fn c05_unit(c: &mut Case) -> R {
    let l = layout_any(c);
    let (w, h) = if c.chance(1, 40) { dims_large(c) } else { dims(c, 14) };
    let img = img_u8(c, w, h, l);
    let scale = match c.choice(4) {
        0 => c.pick(&[1u32, 255, 100, 256, 65535]),
        1 => c.int(1, 1000) as u32,
        2 => c.int(1, u32::MAX as i64) as u32,
        _ => c.pick(&[u32::MAX, 1 << 24, (1 << 24) + 1, 2, 3]),
    };
    let f = convert::u8_to_f32_scale(&img, scale);
    same_shape("u8_to_f32_scale", &f, &img)?;
    let exp: Vec<(f64, f64)> = img.data().iter().map(|v| (*v as f64 / 255.0 * scale as f64, scale as f64 * 5e-7)).collect();
    close_data(&format!("u8_to_f32_scale with scale {scale}"), &f, &exp)?;
    let back = convert::f32_to_u8_scale(&f, scale);
    same_image(&format!("u8 to 0..{scale} and back"), &back, &img)?;
    // arbitrary floats in and around the range
    let n = img.data().len().min(500);
    let fl: Vec<f32> = (0..n).map(|_| (c.int(-100, 1100) as f64 / 1000.0 * scale as f64) as f32).collect();
    let fi = mk(n as u32, 1, GRAY, fl.clone());
    let out = convert::f32_to_u8_scale(&fi, scale);
    same_shape("f32_to_u8_scale", &out, &fi)?;
    for i in 0..n {
        rounded(&format!("f32_to_u8_scale of {} with scale {scale}", fl[i]), out.info(), i, out.data()[i], fl[i] as f64 / scale as f64 * 255.0, 1e-3)?;
    }
    c.nontrivial(img.data().len() > 2);
    c.note(|| format!("scale {scale} {}", show(&img)));
    Ok(())
}

pub fn defs() -> Vec<PropertyDef> {
    vec![
        PropertyDef {
            id: "C01",
            rule: "random constructor, layout, channel type and sequence of reads, writes and invalid accesses against a flat vector model; non-trivial: at least two pixels and three kinds of step (store, large), all (huge), more than 65536 samples (info)",
            subs: vec![sub("store", c01_store, 300000, 4500000), sub("large", c01_large, 4400, 66000), sub("huge", c01_huge, 250, 4000), sub("info", c01_info, 1500000, 22500000)],
        },
        PropertyDef {
            id: "C02",
            rule: "random image and position-sensitive pixel and channel functions against a loop over the raw samples; non-trivial: at least two pixels that differ (map), two pixels and two channels (apply), two channels (pixel)",
            subs: vec![sub("map", c02_map, 51000, 765000), sub("apply", c02_apply, 49000, 735000), sub("pixel", c02_pixel, 1500000, 22500000)],
        },
        PropertyDef {
            id: "C03",
            rule: "random image (including no pixels) iterated step by step and through the iterator adaptors; non-trivial: no pixels, or more than one row and column",
            subs: vec![sub("iter", c03_iter, 530000, 7950000)],
        },
        PropertyDef {
            id: "C04",
            rule: "random window or neighbourhood of a random image, read through every accessor, against raw samples; non-trivial: a two-dimensional window, a neighbourhood larger than 1",
            subs: vec![sub("subimage", c04_sub, 440000, 6600000), sub("neighbourhood", c04_near, 270000, 4050000)],
        },
        PropertyDef {
            id: "C05",
            rule: "random samples of every channel type with rounding ties, saturating and extreme values; random range maps; non-trivial: at least four samples, distinct target bounds",
            subs: vec![sub("types", c05_from, 85000, 1275000), sub("affine", c05_scale, 1500000, 22500000), sub("scale", c05_unit, 130000, 1950000)],
        },
    ]
}
