//! One random operation of the library applicable to an image, with random arguments.
//!
//! Used by the checks that quantify over operations: configurations agree (C31), memory (C32),
//! chains of operations (C35).

use crate::engine::Case;
use crate::gen::*;
use crate::refs;
use imgproc_rs::enums::{Bilateral, Refl, Scale, Thresh, White};
use imgproc_rs::image::{BaseImage, Image, Number};
use imgproc_rs::{colorspace as cs, convert, filter, morphology, tone, transform, util};

#[derive(Clone)]
pub enum V {
    U(U),
    F(F),
}

impl V {
    pub fn dims(&self) -> (u32, u32, Layout) {
        match self {
            V::U(i) => (i.info().width, i.info().height, lay(i)),
            V::F(i) => (i.info().width, i.info().height, lay(i)),
        }
    }
    pub fn is_f(&self) -> bool {
        matches!(self, V::F(_))
    }
    pub fn show(&self) -> String {
        match self {
            V::U(i) => format!("u8 {}", show(i)),
            V::F(i) => format!("f32 {}", show(i)),
        }
    }
    pub fn len(&self) -> usize {
        match self {
            V::U(i) => i.data().len(),
            V::F(i) => i.data().len(),
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    /// Bitwise equality
    pub fn same(&self, o: &V) -> bool {
        if self.dims() != o.dims() {
            return false;
        }
        match (self, o) {
            (V::U(a), V::U(b)) => a.data() == b.data(),
            (V::F(a), V::F(b)) => a.data().len() == b.data().len() && a.data().iter().zip(b.data()).all(|(x, y)| x.to_bits() == y.to_bits()),
            _ => false,
        }
    }
}

/// How results may differ between configurations
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tol {
    /// Not at all
    Exact,
    /// One 8-bit level, or float rounding
    Round,
}

pub struct Op {
    pub name: String,
    pub f: Box<dyn Fn(&V) -> Result<V, String>>,
    /// What a valid call returns: float?, size, layout
    pub shape: Option<(bool, u32, u32, Layout)>,
    /// Exactly what a valid call returns
    pub model: Option<V>,
    pub tol: Tol,
    /// The arguments are valid
    pub valid: bool,
}

trait Ty: Number {
    fn get(v: &V) -> &Image<Self>
    where
        Self: Sized;
    fn put(i: Image<Self>) -> V
    where
        Self: Sized;
    const F: bool;
    fn random(c: &mut Case, w: u32, h: u32, l: Layout) -> Image<Self>
    where
        Self: Sized;
}

impl Ty for u8 {
    fn get(v: &V) -> &U {
        match v {
            V::U(i) => i,
            _ => panic!("harness: not a u8 image"),
        }
    }
    fn put(i: U) -> V {
        V::U(i)
    }
    const F: bool = false;
    fn random(c: &mut Case, w: u32, h: u32, l: Layout) -> U {
        img_u8(c, w, h, l)
    }
}

impl Ty for f32 {
    fn get(v: &V) -> &F {
        match v {
            V::F(i) => i,
            _ => panic!("harness: not an f32 image"),
        }
    }
    fn put(i: F) -> V {
        V::F(i)
    }
    const F: bool = true;
    fn random(c: &mut Case, w: u32, h: u32, l: Layout) -> F {
        img_f32(c, w, h, l)
    }
}

fn e<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|x| format!("{x:?}"))
}

fn op<A: Ty + 'static, B: Ty + 'static>(name: String, tol: Tol, shape: (u32, u32, Layout), f: impl Fn(&Image<A>) -> Result<Image<B>, String> + 'static) -> Op {
    Op { name, f: Box::new(move |v| f(A::get(v)).map(B::put)), shape: Some((B::F, shape.0, shape.1, shape.2)), model: None, tol, valid: true }
}

impl Op {
    fn model(mut self, v: V) -> Op {
        self.model = Some(v);
        self
    }
    /// Arguments that may be invalid: nothing is expected of the result
    fn wild(mut self) -> Op {
        self.valid = false;
        self.shape = None;
        self.model = None;
        self
    }
}

fn off(c: &mut Case, n: u32, wild: bool) -> u32 {
    if wild && c.chance(1, 3) {
        return c.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16, 300]);
    }
    c.int(0, n as i64 + 3) as u32
}

/// Operations that work on every type and layout
fn geometric<T: Ty + std::fmt::Debug + 'static>(c: &mut Case, v: &V, wild: bool) -> Op {
    let img = T::get(v);
    let (w, h, l) = v.dims();
    match c.choice(4) {
        0 => {
            if wild && c.bool() {
                let (x, y, a, b) = (off(c, w, true), off(c, h, true), off(c, w, false), off(c, h, false));
                return op::<T, T>(format!("crop({x}, {y}, {a}, {b})"), Tol::Exact, (a, b, l), move |i| e(transform::crop(i, x, y, a, b))).wild();
            }
            let a = c.int(1, w as i64) as u32;
            let b = c.int(1, h as i64) as u32;
            let x = if c.bool() { w - a } else { c.int(0, (w - a) as i64) as u32 };
            let y = if c.bool() { h - b } else { c.int(0, (h - b) as i64) as u32 };
            op::<T, T>(format!("crop({x}, {y}, {a}, {b})"), Tol::Exact, (a, b, l), move |i| e(transform::crop(i, x, y, a, b))).model(T::put(mk(a, b, l, refs::crop(img, x as usize, y as usize, a as usize, b as usize))))
        }
        1 => {
            let (x, y) = (off(c, w, wild), off(c, h, wild));
            op::<T, T>(format!("translate({x}, {y})"), Tol::Exact, (w, h, l), move |i| e(transform::translate(i, x, y))).model(T::put(mk(w, h, l, refs::translate(img, x, y))))
        }
        2 => {
            let vertical = c.bool();
            op::<T, T>(format!("reflect(vertical: {vertical})"), Tol::Exact, (w, h, l), move |i| e(transform::reflect(i, if vertical { Refl::Vertical } else { Refl::Horizontal }))).model(T::put(mk(w, h, l, refs::reflect(img, vertical))))
        }
        _ => {
            let (a, b) = (c.int(1, 9) as u32, c.int(1, 9) as u32);
            let fl = if wild && c.chance(1, 4) { layout_any(c) } else { l };
            let front = T::random(c, a, b, fl);
            let (x, y) = (off(c, w, wild), off(c, h, wild));
            let m = if fl.ch == l.ch { Some(T::put(mk(w, h, l, refs::overlay(img, &front, x, y)))) } else { None };
            let o = op::<T, T>(format!("overlay(front {}, {x}, {y})", show(&front)), Tol::Exact, (w, h, l), move |i| e(transform::overlay(i, &front, x, y)));
            match m {
                Some(m) => o.model(m),
                None => o.wild(),
            }
        }
    }
}

fn bias(c: &mut Case, wild: bool) -> (i16, bool) {
    if wild && c.chance(1, 3) {
        let b = c.pick(&[256i16, -256, i16::MIN, i16::MAX, 300, -400]);
        return (b, false);
    }
    (c.int_special(&[0, 1, -1, 255, -255, 128, -128], -255, 255) as i16, true)
}

fn unit(c: &mut Case, wild: bool) -> (f32, bool) {
    if wild && c.chance(1, 4) {
        return (c.pick(&[-0.01f32, 1.01, 2.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN]), false);
    }
    (c.int(0, 64) as f32 / 64.0, true)
}

fn keep(o: Op, valid: bool) -> Op {
    if valid { o } else { o.wild() }
}

fn white(d50: bool) -> White {
    if d50 { White::D50 } else { White::D65 }
}

fn is_gray(l: Layout) -> bool {
    l.ch == 1 && !l.alpha || l.ch == 2 && l.alpha
}

fn is_rgb(l: Layout) -> bool {
    l.ch == 3 && !l.alpha || l.ch == 4 && l.alpha
}

fn gray_of(l: Layout) -> Layout {
    if l.alpha { GRAYA } else { GRAY }
}

fn dim(mask: u64, c: &mut Case) -> u64 {
    c.choice(mask)
}

fn u8_op(c: &mut Case, v: &V, wild: bool) -> Op {
    let (w, h, l) = v.dims();
    let img = u8::get(v);
    let s = (w, h, l);
    let n = if is_rgb(l) { 28 } else if is_gray(l) { 22 } else { 14 };
    let k = dim(n, c);
    match k {
        0..=3 => geometric::<u8>(c, v, wild),
        4 | 5 => {
            let (b, ok) = bias(c, wild);
            let ch = l.ch as usize;
            let m: Vec<u8> = img.data().iter().enumerate().map(|(i, x)| if l.alpha && i % ch == ch - 1 { *x } else { (*x as i32 + b as i32).clamp(0, 255) as u8 }).collect();
            keep(op::<u8, u8>(format!("brightness({b})"), Tol::Exact, s, move |i| e(tone::brightness(i, b))).model(V::U(mk(w, h, l, m))), ok)
        }
        6 => {
            let (g, ok) = unit(c, wild);
            keep(op::<u8, u8>(format!("contrast({g})"), Tol::Round, s, move |i| e(tone::contrast(i, g))), ok)
        }
        7 => {
            let g = c.int(0, 96) as f32 / 16.0;
            let m = c.int(1, 255) as u8;
            op::<u8, u8>(format!("gamma({g}, {m})"), Tol::Round, s, move |i| e(tone::gamma(i, g, m)))
        }
        8 => {
            let r = c.int(0, 4) as u32;
            op::<u8, u8>(format!("median_filter({r})"), Tol::Exact, s, move |i| e(filter::median_filter(i, r)))
        }
        9 => {
            let r = c.int(0, 3) as u32;
            let size = (2 * r + 1) * (2 * r + 1);
            let (a, ok) = if wild && c.chance(1, 3) { (c.pick(&[1u32, 3, size, size + 1, size - 1 + 2, u32::MAX, u32::MAX - 1]), false) } else { (2 * c.int(0, (size / 2) as i64) as u32, true) };
            keep(op::<u8, u8>(format!("alpha_trimmed_mean_filter({r}, {a})"), Tol::Exact, s, move |i| e(filter::alpha_trimmed_mean_filter(i, r, a))), ok)
        }
        10 => {
            let d: Vec<f32> = img.data().iter().map(|x| *x as f32).collect();
            op::<u8, f32>("into f32".into(), Tol::Exact, s, |i| Ok(i.clone().into())).model(V::F(mk(w, h, l, d)))
        }
        11 => {
            let sc = c.pick(&[1u32, 255, 100, 3, 65535]);
            op::<u8, f32>(format!("u8_to_f32_scale({sc})"), Tol::Round, s, move |i| Ok(convert::u8_to_f32_scale(i, sc)))
        }
        12 => {
            // a subtrahend that is nowhere larger
            let d = u8s(c, img.data().len());
            let m: Vec<u8> = d.iter().zip(img.data()).map(|(a, b)| (*a).min(*b)).collect();
            let r: Vec<u8> = img.data().iter().zip(&m).map(|(a, b)| a - b).collect();
            let other = mk(w, h, l, m);
            op::<u8, u8>(format!("residual(minus {})", show(&other)), Tol::Exact, s, move |i| e(filter::residual(i, &other))).model(V::U(mk(w, h, l, r)))
        }
        13 => {
            // pure per-channel mapping through the in-place form
            let t = c.u8();
            let m: Vec<u8> = img.data().iter().map(|x| x ^ t).collect();
            op::<u8, u8>(format!("apply_channels(xor {t})"), Tol::Exact, s, move |i| { let mut o = i.clone(); o.apply_channels(|x| x ^ t); Ok(o) }).model(V::U(mk(w, h, l, m)))
        }
        _ if is_gray(l) => {
            // binary morphology of the image made binary
            let t = c.int(1, 255) as u8;
            let r = if c.chance(1, 12) { c.pick(&[20u32, 300, 70000]) } else { c.int(0, 4) as u32 };
            let ch = l.ch as usize;
            let d: Vec<u8> = img.data().iter().enumerate().map(|(i, x)| if i % ch == 0 { if *x >= t { 255 } else { 0 } } else { *x }).collect();
            let bin = mk(w, h, l, d);
            let which = c.choice(6);
            let name = ["erode", "dilate", "gradient", "majority", "open", "close"][which as usize];
            let rr = r as u64;
            use refs::Morph::*;
            let m = match which {
                0 => Some(refs::morph_image(&bin, rr, Erode)),
                1 => Some(refs::morph_image(&bin, rr, Dilate)),
                2 => Some(refs::morph_image(&bin, rr, Gradient)),
                3 => None,
                4 => Some(refs::morph_image(&refs::morph_image(&bin, rr, Erode), rr, Dilate)),
                _ => Some(refs::morph_image(&refs::morph_image(&bin, rr, Dilate), rr, Erode)),
            };
            let o = op::<u8, u8>(format!("{name}(radius {r}) of the image binarised at {t}"), Tol::Exact, s, move |_| {
                e(match which {
                    0 => morphology::erode(&bin, r),
                    1 => morphology::dilate(&bin, r),
                    2 => morphology::gradient(&bin, r),
                    3 => morphology::majority(&bin, r),
                    4 => morphology::open(&bin, r),
                    _ => morphology::close(&bin, r),
                })
            });
            match m {
                Some(m) => o.model(V::U(m)),
                None => o,
            }
        }
        14 | 15 => {
            let g = gray_of(l);
            let ch = l.ch as usize;
            let mut d = Vec::new();
            for p in img.data().chunks(ch) {
                d.push(((p[0] as u32 + p[1] as u32 + p[2] as u32) / 3) as u8);
                if l.alpha {
                    d.push(p[3]);
                }
            }
            op::<u8, u8>("rgb_to_grayscale".into(), Tol::Exact, (w, h, g), |i| Ok(cs::rgb_to_grayscale(i))).model(V::U(mk(w, h, g, d)))
        }
        16 => op::<u8, u8>("rgb_to_hsv".into(), Tol::Exact, s, |i| Ok(cs::rgb_to_hsv(i))),
        17 => op::<u8, u8>("hsv_to_rgb".into(), Tol::Exact, s, |i| Ok(cs::hsv_to_rgb(i))),
        18 => op::<u8, f32>("rgb_to_hsv_f32".into(), Tol::Round, s, |i| Ok(cs::rgb_to_hsv_f32(i))),
        19 => op::<u8, f32>("linearize_srgb_f32".into(), Tol::Round, s, |i| Ok(cs::linearize_srgb_f32(i))),
        20 => op::<u8, f32>("srgb_to_xyz_f32".into(), Tol::Round, s, |i| Ok(cs::srgb_to_xyz_f32(i))),
        21 => {
            let d = c.bool();
            op::<u8, f32>(format!("srgb_to_lab_f32(D50: {d})"), Tol::Round, s, move |i| Ok(cs::srgb_to_lab_f32(i, &white(d))))
        }
        22 | 23 => {
            let (b, ok) = bias(c, wild);
            keep(op::<u8, u8>(format!("saturation({b})"), Tol::Exact, s, move |i| e(tone::saturation(i, b))), ok)
        }
        24 => {
            let (b, ok) = bias(c, wild);
            keep(op::<u8, u8>(format!("brightness_lab({b})"), Tol::Round, s, move |i| e(tone::brightness_lab(i, b))), ok)
        }
        25 => {
            let (g, ok) = unit(c, wild);
            keep(op::<u8, u8>(format!("contrast_lab({g})"), Tol::Round, s, move |i| e(tone::contrast_lab(i, g))), ok)
        }
        26 => {
            let (a, ok) = unit(c, wild);
            let d = c.bool();
            let p = c.pick(&[1.0f32, 10.0, 255.0, 0.5]);
            keep(op::<u8, u8>(format!("histogram_equalization({a}, D50: {d}, {p})"), Tol::Round, s, move |i| e(tone::histogram_equalization(i, a, &white(d), p))), ok)
        }
        _ => {
            let (range, ok) = if wild && c.chance(1, 4) { (-1.0f32, false) } else { (c.pick(&[10.0f32, 1.0, 50.0, 0.5, 300.0]), true) };
            let sp = c.pick(&[1.0f32, 0.5, 0.25, 0.75, 1.25]);
            keep(op::<u8, u8>(format!("bilateral_filter({range}, {sp})"), Tol::Round, s, move |i| e(filter::bilateral_filter(i, range, sp, Bilateral::Direct))), ok)
        }
    }
}

fn sane(v: f32, lo: f32, hi: f32) -> f32 {
    if v.is_finite() { v.clamp(lo, hi) } else { lo }
}

/// The image with its colour samples brought into lo..=hi (per channel) and alpha into 0..=alpha
fn sanitised(i: &F, lo: [f32; 3], hi: [f32; 3], alpha: f32) -> F {
    let l = lay(i);
    let ch = l.ch as usize;
    let d: Vec<f32> = i.data().iter().enumerate().map(|(k, v)| {
        let p = k % ch;
        if l.alpha && p == ch - 1 { sane(*v, 0.0, alpha) } else { sane(if hi[p.min(2)] <= 1.0 { *v / 255.0 } else { *v }, lo[p.min(2)], hi[p.min(2)]) }
    }).collect();
    mk(i.info().width, i.info().height, l, d)
}

fn fac(c: &mut Case, n: u32, wild: bool) -> (f32, bool) {
    if wild && c.chance(1, 5) {
        let v = c.pick(&[-0.5f32, -1.0, f32::NEG_INFINITY, 0.0, 0.001]);
        return (v, v >= 0.0);
    }
    let f = match c.choice(4) {
        0 => c.int(1, 3) as f32,
        1 => 1.0 / c.int(1, 4) as f32,
        2 => c.int(8, 40) as f32 / 16.0,
        _ => c.int(20, 300) as f32 / 100.0,
    };
    (if n > 200 { f.min(1.0) } else { f }, true)
}

fn scaled(n: u32, f: f32) -> u32 {
    (n as f32 * f).round() as u32
}

fn odd_size(c: &mut Case, wild: bool) -> (u32, bool) {
    if wild && c.chance(1, 4) {
        return (c.pick(&[2u32, 0, 4, 6]), false);
    }
    (2 * c.int(0, 3) as u32 + 1, true)
}

fn f32_op(c: &mut Case, v: &V, wild: bool) -> Op {
    let (w, h, l) = v.dims();
    let img = f32::get(v);
    let s = (w, h, l);
    let n = if is_rgb(l) { 34 } else if is_gray(l) { 32 } else { 26 };
    let k = dim(n, c);
    let finite = img.data().iter().all(|x| x.is_finite());
    match k {
        0..=3 => geometric::<f32>(c, v, wild),
        4 => {
            let (a, b) = (c.int(1, 9) as u32, c.int(1, 9) as u32);
            let front = img_f32(c, a, b, l);
            let (x, y) = (off(c, w, wild), off(c, h, wild));
            let (t, ok) = unit(c, wild);
            keep(op::<f32, f32>(format!("superimpose(front {}, {x}, {y}, {t})", show(&front)), Tol::Round, s, move |i| e(transform::superimpose(i, &front, x, y, t))), ok)
        }
        5..=8 => {
            let ((fx, ok1), (fy, ok2)) = (fac(c, w, wild), fac(c, h, wild));
            let m = c.choice(4);
            let name = ["NearestNeighbor", "Bilinear", "Bicubic", "Lanczos"][m as usize];
            let (a, b) = (scaled(w, fx), scaled(h, fy));
            let tol = if m == 0 { Tol::Exact } else { Tol::Round };
            keep(op::<f32, f32>(format!("scale({fx}, {fy}, {name})"), tol, (a, b, l), move |i| {
                e(transform::scale(i, fx, fy, match m { 0 => Scale::NearestNeighbor, 1 => Scale::Bilinear, 2 => Scale::Bicubic, _ => Scale::Lanczos }))
            }), ok1 && ok2)
        }
        9 => {
            let ((fx, ok1), (fy, ok2)) = (fac(c, w, wild), fac(c, h, wild));
            let z = c.int(1, 4) as u32;
            keep(op::<f32, f32>(format!("scale_lanczos({fx}, {fy}, {z})"), Tol::Round, (scaled(w, fx), scaled(h, fy), l), move |i| e(transform::scale_lanczos(i, fx, fy, z))), ok1 && ok2)
        }
        10 | 11 => {
            let d = if c.bool() { 90.0 * c.int(-4, 4) as f32 } else { c.int(-7200, 7200) as f32 / 16.0 };
            let mut o = op::<f32, f32>(format!("rotate({d})"), Tol::Exact, s, move |i| e(transform::rotate(i, d)));
            if d % 90.0 == 0.0 {
                let q = (d / 90.0) as i64;
                o.shape = Some(if q % 2 == 0 { (true, w, h, l) } else { (true, h, w, l) });
                // the exact permutation
                let mut m = img.clone();
                for _ in 0..q.rem_euclid(4) {
                    let (a, b) = (m.info().width as usize, m.info().height as usize);
                    let mut out = Vec::with_capacity(m.data().len());
                    for y in 0..a {
                        for x in 0..b {
                            out.extend_from_slice(px(&m, a - 1 - y, x));
                        }
                    }
                    m = mk(b as u32, a as u32, l, out);
                }
                o.model = Some(V::F(m));
            } else {
                let r = (d as f64).to_radians();
                let (sn, cn) = (r.sin().abs(), r.cos().abs());
                let (a, b) = (w as f64 * cn + h as f64 * sn, w as f64 * sn + h as f64 * cn);
                let near = |z: f64| (z.fract() - 0.5).abs() < 1e-3;
                o.shape = if near(a) || near(b) { None } else { Some((true, a.round() as u32, b.round() as u32, l)) };
            }
            o
        }
        12 => {
            let (x, y) = (c.int(-16, 16) as f32 / 8.0, c.int(-16, 16) as f32 / 8.0);
            let (a, b) = (w + (h as f32 * x).abs() as u32, h + (w as f32 * y).abs() as u32);
            op::<f32, f32>(format!("shear({x}, {y})"), Tol::Exact, (a, b, l), move |i| e(transform::shear(i, x, y)))
        }
        13 => {
            let (z, ok) = odd_size(c, wild);
            let vert = c.bool();
            let kern = crate::props::p_filter::kernel(c, z as usize);
            keep(op::<f32, f32>(format!("filter_1d({kern:?}, vertical: {vert})"), Tol::Round, s, move |i| e(filter::filter_1d(i, &kern, vert))), ok)
        }
        14 => {
            let (z, ok) = odd_size(c, wild);
            let (a, b) = (crate::props::p_filter::kernel(c, z as usize), crate::props::p_filter::kernel(c, z as usize));
            keep(op::<f32, f32>(format!("separable_filter({a:?}, {b:?})"), Tol::Round, s, move |i| e(filter::separable_filter(i, &a, &b))), ok)
        }
        15 | 16 => {
            let z = c.pick(&[1usize, 3, 5]);
            let mut kern = crate::props::p_filter::square_kernel(c, z);
            let mut ok = true;
            if wild && c.chance(1, 4) {
                kern.extend_from_slice(&[1.0, 2.0]);
                ok = false;
            }
            let lin = k == 15;
            keep(op::<f32, f32>(format!("{}({kern:?})", if lin { "linear_filter" } else { "unseparable_filter" }), Tol::Round, s, move |i| e(if lin { filter::linear_filter(i, &kern) } else { filter::unseparable_filter(i, &kern) })), ok)
        }
        17 => {
            let (z, ok) = odd_size(c, wild);
            keep(op::<f32, f32>(format!("box_filter({z})"), Tol::Round, s, move |i| e(filter::box_filter(i, z))), ok)
        }
        18 => {
            let (z, ok) = odd_size(c, wild);
            let q = c.int(1, 9) as u32;
            keep(op::<f32, f32>(format!("weighted_avg_filter({z}, {q})"), Tol::Round, s, move |i| e(filter::weighted_avg_filter(i, z, q))), ok)
        }
        19 => {
            let (z, ok) = odd_size(c, wild);
            let q = c.int(4, 32) as f32 / 8.0;
            keep(op::<f32, f32>(format!("gaussian_blur({z}, {q})"), Tol::Round, s, move |i| e(filter::gaussian_blur(i, z, q))), ok)
        }
        20 => op::<f32, f32>("sharpen".into(), Tol::Round, s, |i| e(filter::sharpen(i))),
        21 => op::<f32, f32>("unsharp_masking".into(), Tol::Round, s, |i| e(filter::unsharp_masking(i))),
        22 => {
            let d: Vec<u8> = img.data().iter().map(|x| x.round().clamp(0.0, 255.0) as u8).collect();
            let o = op::<f32, u8>("into u8".into(), Tol::Exact, s, |i| Ok(i.clone().into()));
            if finite { o.model(V::U(mk(w, h, l, d))) } else { o }
        }
        23 => {
            let sc = c.pick(&[255u32, 1, 100]);
            op::<f32, u8>(format!("f32_to_u8_scale({sc})"), Tol::Round, s, move |i| Ok(convert::f32_to_u8_scale(i, sc)))
        }
        24 => {
            let (a, b) = (c.int(-50, 50) as f32, c.int(51, 300) as f32);
            op::<f32, f32>(format!("scale_channels({a}, 0, {b}, 255)"), Tol::Round, s, move |i| e(convert::scale_channels(i, a, 0.0, b, 255.0)))
        }
        25 => op::<f32, f32>("generate_summed_area_table".into(), Tol::Round, s, |i| Ok(util::generate_summed_area_table(i))),
        _ if is_gray(l) => match k {
            26 | 27 => {
                let (t, m) = (c.int(-10, 300) as f32, c.int(0, 255) as f32);
                let which = c.choice(5);
                let d: Vec<f32> = img.data().iter().enumerate().map(|(i, x)| {
                    if l.alpha && i % 2 == 1 {
                        return *x;
                    }
                    let up = *x > t;
                    match which {
                        0 => if up { m } else { 0.0 },
                        1 => if up { 0.0 } else { m },
                        2 => if up { t } else { *x },
                        3 => if up { *x } else { 0.0 },
                        _ => if up { 0.0 } else { *x },
                    }
                }).collect();
                let o = op::<f32, f32>(format!("threshold({t}, {m}, {})", ["Binary", "BinaryInv", "Trunc", "ToZero", "ToZeroInv"][which as usize]), Tol::Exact, s, move |i| {
                    e(filter::threshold(i, t, m, match which { 0 => Thresh::Binary, 1 => Thresh::BinaryInv, 2 => Thresh::Trunc, 3 => Thresh::ToZero, _ => Thresh::ToZeroInv }))
                });
                if finite { o.model(V::F(mk(w, h, l, d))) } else { o }
            }
            28 => {
                let which = c.choice(3);
                let q = c.int(1, 5) as u32;
                op::<f32, f32>(format!("{}({q})", ["prewitt", "sobel", "sobel_weighted"][which as usize]), Tol::Round, s, move |i| e(match which { 0 => filter::prewitt(i), 1 => filter::sobel(i), _ => filter::sobel_weighted(i, q) }))
            }
            29 => op::<f32, f32>("laplacian".into(), Tol::Round, s, |i| e(filter::laplacian(i))),
            30 => {
                let (z, ok) = odd_size(c, wild);
                let q = c.int(4, 32) as f32 / 8.0;
                keep(op::<f32, f32>(format!("laplacian_of_gaussian({z}, {q})"), Tol::Round, s, move |i| e(filter::laplacian_of_gaussian(i, z, q))), ok)
            }
            _ => {
                let lo = img.data().iter().fold(f32::INFINITY, |a, b| a.min(*b));
                let hi = img.data().iter().fold(f32::NEG_INFINITY, |a, b| a.max(*b));
                if finite && hi > lo {
                    op::<f32, u8>("normalize_laplacian".into(), Tol::Round, s, |i| e(filter::normalize_laplacian(i)))
                } else {
                    op::<f32, f32>("laplacian".into(), Tol::Round, s, |i| e(filter::laplacian(i)))
                }
            }
        },
        26 | 27 => {
            let g = gray_of(l);
            op::<f32, f32>("rgb_to_grayscale_f32".into(), Tol::Round, (w, h, g), |i| Ok(cs::rgb_to_grayscale_f32(i)))
        }
        28 => {
            let which = c.choice(4);
            let name = ["unlinearize_srgb_f32", "hsv_to_rgb_f32", "xyz_to_srgb_f32", "lab_to_srgb_f32"][which as usize];
            op::<f32, u8>(format!("{name} of the image brought into range"), Tol::Round, s, move |i| {
                let u = |a| sanitised(i, [0.0; 3], [1.0; 3], a);
                Ok(match which {
                    0 => cs::unlinearize_srgb_f32(&u(255.0)),
                    1 => cs::hsv_to_rgb_f32(&u(1.0)),
                    2 => cs::xyz_to_srgb_f32(&u(255.0)),
                    _ => cs::lab_to_srgb_f32(&sanitised(i, [0.0, -128.0, -128.0], [100.0, 127.0, 127.0], 255.0), &White::D50),
                })
            })
        }
        29..=31 => {
            let which = c.choice(3);
            let name = ["srgb_lin_to_xyz_f32", "xyz_to_srgb_lin_f32", "xyz_to_lab_f32"][which as usize];
            op::<f32, f32>(format!("{name} of the image brought into range"), Tol::Round, s, move |i| {
                let u = sanitised(i, [0.0; 3], [1.0; 3], 255.0);
                Ok(match which {
                    0 => cs::srgb_lin_to_xyz_f32(&u),
                    1 => cs::xyz_to_srgb_lin_f32(&u),
                    _ => cs::xyz_to_lab_f32(&u, &White::D65),
                })
            })
        }
        _ => {
            let d = c.bool();
            op::<f32, f32>(format!("lab_to_xyz_f32(D50: {d}) of the image brought into range"), Tol::Round, s, move |i| Ok(cs::lab_to_xyz_f32(&sanitised(i, [0.0, -128.0, -128.0], [100.0, 127.0, 127.0], 255.0), &white(d))))
        }
    }
}

/// An operation for RGB(A) or grayscale images, whatever the layout of this image is
fn foreign(c: &mut Case, v: &V) -> Op {
    let (w, h, l) = v.dims();
    let s = (w, h, l);
    let b = c.int(-255, 255) as i16;
    let r = c.int(0, 3) as u32;
    let d = c.bool();
    match v {
        V::U(_) => match c.choice(12) {
            0..=3 => op::<u8, u8>("rgb_to_grayscale".into(), Tol::Exact, s, |i| Ok(cs::rgb_to_grayscale(i))),
            4 => op::<u8, u8>("rgb_to_hsv".into(), Tol::Exact, s, |i| Ok(cs::rgb_to_hsv(i))),
            5 => op::<u8, u8>("hsv_to_rgb".into(), Tol::Exact, s, |i| Ok(cs::hsv_to_rgb(i))),
            6 => op::<u8, f32>("rgb_to_hsv_f32".into(), Tol::Round, s, |i| Ok(cs::rgb_to_hsv_f32(i))),
            7 => op::<u8, f32>(format!("srgb_to_lab_f32(D50: {d})"), Tol::Round, s, move |i| Ok(cs::srgb_to_lab_f32(i, &white(d)))),
            8 => op::<u8, u8>(format!("saturation({b})"), Tol::Exact, s, move |i| e(tone::saturation(i, b))),
            9 => op::<u8, u8>(format!("brightness_lab({b})"), Tol::Round, s, move |i| e(tone::brightness_lab(i, b))),
            10 => op::<u8, u8>(format!("erode({r})"), Tol::Exact, s, move |i| e(morphology::erode(i, r))),
            _ => op::<u8, u8>(format!("close({r})"), Tol::Exact, s, move |i| e(morphology::close(i, r))),
        },
        V::F(_) => match c.choice(6) {
            0 | 1 => op::<f32, f32>("rgb_to_grayscale_f32".into(), Tol::Round, s, |i| Ok(cs::rgb_to_grayscale_f32(i))),
            2 => op::<f32, u8>("hsv_to_rgb_f32".into(), Tol::Round, s, |i| Ok(cs::hsv_to_rgb_f32(&sanitised(i, [0.0; 3], [1.0; 3], 1.0)))),
            3 => op::<f32, f32>("sobel".into(), Tol::Round, s, |i| e(filter::sobel(i))),
            4 => op::<f32, f32>("threshold".into(), Tol::Exact, s, |i| e(filter::threshold(i, 1.0, 2.0, Thresh::Binary))),
            _ => op::<f32, f32>("srgb_lin_to_xyz_f32".into(), Tol::Round, s, |i| Ok(cs::srgb_lin_to_xyz_f32(&sanitised(i, [0.0; 3], [1.0; 3], 255.0)))),
        },
    }
    .wild()
}

/// A random operation for this image; with `wild` its arguments may be invalid
pub fn step(c: &mut Case, v: &V, wild: bool) -> Op {
    if wild && c.chance(1, 10) {
        return foreign(c, v);
    }
    match v {
        V::U(_) => u8_op(c, v, wild),
        V::F(_) => f32_op(c, v, wild),
    }
}

/// One of the operations with vector or multithreaded code, at a size beyond 16 bit counts
pub fn big(c: &mut Case) -> (V, Op) {
    let k = c.choice(12);
    let l = if matches!(k, 9 | 10) { layout_rgb(c) } else { layout(c) };
    let (w, h) = dims_area(c);
    let s = (w, h, l);
    if k >= 8 {
        let v = V::U(img_u8(c, w, h, l));
        let b = c.int(-255, 255) as i16;
        return (v, match k {
            8 => op::<u8, u8>(format!("brightness({b})"), Tol::Round, s, move |i| e(tone::brightness(i, b))),
            9 => op::<u8, u8>(format!("saturation({b})"), Tol::Exact, s, move |i| e(tone::saturation(i, b))),
            10 => op::<u8, u8>("rgb_to_grayscale".into(), Tol::Round, (w, h, gray_of(l)), |i| Ok(cs::rgb_to_grayscale(i))),
            _ => {
                let (x, y) = (c.int(0, 40) as u32, c.int(0, 40) as u32);
                op::<u8, u8>(format!("crop({x}, {y}, {}, {})", w - x, h - y), Tol::Exact, (w - x, h - y, l), move |i| e(transform::crop(i, x, y, w - x, h - y)))
            }
        });
    }
    let v = V::F(img_f32(c, w, h, l));
    let o = match k {
        0..=3 => {
            let (fx, fy) = (c.pick(&[1.0f32, 1.01, 1.25]), c.pick(&[1.0f32, 1.03, 0.95]));
            let size = (((w as f32 * fx).round()) as u32, ((h as f32 * fy).round()) as u32, l);
            op::<f32, f32>(format!("scale({fx}, {fy}, method {k})"), if k == 0 { Tol::Exact } else { Tol::Round }, size, move |i| {
                e(transform::scale(i, fx, fy, match k { 0 => Scale::NearestNeighbor, 1 => Scale::Bilinear, 2 => Scale::Bicubic, _ => Scale::Lanczos }))
            })
        }
        4 => {
            let kern = crate::props::p_filter::kernel(c, 5);
            let vert = c.bool();
            op::<f32, f32>(format!("filter_1d({kern:?}, vertical: {vert})"), Tol::Round, s, move |i| e(filter::filter_1d(i, &kern, vert)))
        }
        5 => {
            let kern = crate::props::p_filter::square_kernel(c, 3);
            op::<f32, f32>(format!("unseparable_filter({kern:?})"), Tol::Round, s, move |i| e(filter::unseparable_filter(i, &kern)))
        }
        6 => {
            let (a, b) = (crate::props::p_filter::kernel(c, 3), crate::props::p_filter::kernel(c, 3));
            op::<f32, f32>(format!("separable_filter({a:?}, {b:?})"), Tol::Round, s, move |i| e(filter::separable_filter(i, &a, &b)))
        }
        _ => {
            let (x, y) = (c.int(0, 40) as u32, c.int(0, 40) as u32);
            let front = v.clone();
            op::<f32, f32>(format!("superimpose with itself at ({x}, {y})"), Tol::Round, s, move |i| e(transform::superimpose(i, f32::get(&front), x, y, 0.25)))
        }
    };
    (v, o)
}

/// A random image to start from
pub fn start(c: &mut Case, cap: u32, any: bool) -> V {
    let l = if any { layout_any(c) } else { layout(c) };
    let (w, h) = dims(c, cap);
    if c.bool() { V::F(img_f32(c, w, h, l)) } else { V::U(img_u8(c, w, h, l)) }
}

/// The upper left corner of the image
pub fn crop(v: &V, a: u32, b: u32) -> Op {
    fn go<T: Ty + std::fmt::Debug + 'static>(v: &V, a: u32, b: u32) -> Op {
        let img = T::get(v);
        let l = lay(img);
        let m = T::put(mk(a, b, l, refs::crop(img, 0, 0, a as usize, b as usize)));
        op::<T, T>(format!("crop(0, 0, {a}, {b})"), Tol::Exact, (a, b, l), move |i| e(transform::crop(i, 0, 0, a, b))).model(m)
    }
    match v {
        V::U(_) => go::<u8>(v, a, b),
        V::F(_) => go::<f32>(v, a, b),
    }
}
