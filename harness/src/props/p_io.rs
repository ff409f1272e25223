//! C30: files

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use imgproc_rs::image::{BaseImage, Image};
use imgproc_rs::io;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};

/// A scratch directory of one case, removed when the case ends
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("pbt-io-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).expect("harness: cannot create a scratch directory");
        Scratch(d)
    }
    fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// (extension, layouts that the format stores without loss)
const FORMATS: &[(&str, &[Layout])] = &[
    ("png", &[GRAY, GRAYA, RGB, RGBA]),
    ("tga", &[GRAY, GRAYA, RGB, RGBA]),
    ("bmp", &[RGB, RGBA]),
    ("tiff", &[GRAY, RGB, RGBA]),
    ("ppm", &[RGB]),
    ("pgm", &[GRAY]),
    ("pam", &[GRAY, RGB]),
    ("ico", &[RGBA]),
    ("PNG", &[GRAY, GRAYA, RGB, RGBA]),
    ("tif", &[GRAY, RGB, RGBA]),
];

fn get(what: &str, path: &str) -> Result<Result<U, String>, String> {
    match guarded(|| io::read(path)) {
        Err(p) => Err(format!("{what}: read panics: {p}")),
        Ok(Err(e)) => Ok(Err(clip(&format!("{e:?}"), 200))),
        Ok(Ok(i)) => {
            let n = i.info();
            let l = lay(&i);
            ensure!(i.data().len() == n.width as usize * n.height as usize * n.channels as usize, "{what}: read returns a {}x{} image with {} channels and {} samples", n.width, n.height, n.channels, i.data().len());
            ensure!([GRAY, GRAYA, RGB, RGBA].contains(&l), "{what}: read returns {} channels with alpha {}", l.ch, l.alpha);
            Ok(Ok(i))
        }
    }
}

fn put(what: &str, img: &U, path: &str) -> Result<Result<(), String>, String> {
    match guarded(|| io::write(img, path)) {
        Err(p) => Err(format!("{what}: write panics: {p}")),
        Ok(r) => Ok(r.map_err(|e| clip(&format!("{e:?}"), 200))),
    }
}

fn any_dims(c: &mut Case) -> (u32, u32) {
    if c.chance(1, 16) {
        dims_wide(c)
    } else if c.chance(1, 300) {
        dims_area(c)
    } else if c.chance(1, 100) {
        let (n, m) = (c.int(4000, 16000) as u32, c.int(1, 3) as u32);
        if c.bool() { (n, m) } else { (m, n) }
    } else {
        dims(c, 40)
    }
}

fn roundtrip(c: &mut Case) -> R {
    let s = Scratch::new();
    let k = c.choice(2 * FORMATS.len() as u64) as usize;
    let (ext, layouts) = FORMATS[if k < FORMATS.len() { k } else { 0 }];
    let path = s.path(&format!("{}.{ext}", c.pick(&["a", "image.x", "b c", "ü"])));
    let steps = c.int(1, 3);
    let mut held = false;
    for step in 0..steps {
        // the file may already hold another image, a longer one or rubbish
        if c.chance(1, 6) {
            let n = c.int(0, 3000) as usize;
            std::fs::write(&path, vec![c.u8(); n]).expect("harness: cannot write");
            held = true;
        }
        let l = c.pick(layouts);
        let (mut w, mut h) = any_dims(c);
        if ext == "ico" {
            w = w.min(256);
            h = h.min(256);
        }
        let img = img_u8(c, w, h, l);
        let what = format!("step {step}: {ext} of {w}x{h} {l:?}");
        if let Err(e) = put(&what, &img, &path)? {
            return Err(format!("{what}: write fails: {e}"));
        }
        match get(&what, &path)? {
            Err(e) => return Err(format!("{what}: read after write fails: {e}")),
            Ok(out) => same_image(&what, &out, &img)?,
        }
        // reading does not change the file
        let again = get(&what, &path)?;
        ensure!(again.as_ref().map_or(false, |o| o.data() == img.data()), "{what}: a second read differs");
        c.label(format!("{ext} {}", l.ch));
        c.label_if(held, "overwrites");
        held = true;
        c.nontrivial(img.data().iter().any(|v| *v != img.data()[0]));
        c.note(|| format!("{ext} {}", show(&img)));
    }
    Ok(())
}

// An encoder of its own: PNG with stored blocks, so that reading is judged without the library's writing

fn crc(data: &[u8]) -> u32 {
    let mut c = 0xffff_ffffu32;
    for b in data {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { 0xedb8_8320 ^ (c >> 1) } else { c >> 1 };
        }
    }
    !c
}

fn chunk(out: &mut Vec<u8>, kind: &[u8; 4], body: &[u8]) {
    out.extend_from_slice(&(body.len() as u32).to_be_bytes());
    let mut x = kind.to_vec();
    x.extend_from_slice(body);
    out.extend_from_slice(&x);
    out.extend_from_slice(&crc(&x).to_be_bytes());
}

fn zlib(raw: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    let mut parts = raw.chunks(60000).peekable();
    while let Some(p) = parts.next() {
        o.push(parts.peek().is_none() as u8);
        o.extend_from_slice(&(p.len() as u16).to_le_bytes());
        o.extend_from_slice(&(!(p.len() as u16)).to_le_bytes());
        o.extend_from_slice(p);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for v in raw {
        a = (a + *v as u32) % 65521;
        b = (b + a) % 65521;
    }
    o.extend_from_slice(&((b << 16) | a).to_be_bytes());
    o
}

fn png(c: &mut Case, w: u32, h: u32, colour: u8, depth: u8, bpp: usize, bytes: &[u8]) -> Vec<u8> {
    let row = w as usize * bpp;
    let mut raw = Vec::new();
    for y in 0..h as usize {
        let f = c.choice(5) as u8;
        raw.push(f);
        for x in 0..row {
            let v = bytes[y * row + x];
            let a = if x >= bpp { bytes[y * row + x - bpp] } else { 0 };
            let b = if y > 0 { bytes[(y - 1) * row + x] } else { 0 };
            let d = if x >= bpp && y > 0 { bytes[(y - 1) * row + x - bpp] } else { 0 };
            let p = match f {
                0 => 0,
                1 => a,
                2 => b,
                3 => ((a as u16 + b as u16) / 2) as u8,
                _ => {
                    let e = a as i32 + b as i32 - d as i32;
                    let (x, y, z) = ((e - a as i32).abs(), (e - b as i32).abs(), (e - d as i32).abs());
                    if x <= y && x <= z { a } else if y <= z { b } else { d }
                }
            };
            raw.push(v.wrapping_sub(p));
        }
    }
    let mut o = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    let mut ih = Vec::new();
    ih.extend_from_slice(&w.to_be_bytes());
    ih.extend_from_slice(&h.to_be_bytes());
    ih.extend_from_slice(&[depth, colour, 0, 0, 0]);
    chunk(&mut o, b"IHDR", &ih);
    let z = zlib(&raw);
    for p in z.chunks(if c.bool() { 5000 } else { 1 << 20 }) {
        chunk(&mut o, b"IDAT", p);
    }
    chunk(&mut o, b"IEND", &[]);
    o
}

/// Files written by the encoders above are read as the image they hold
fn foreign(c: &mut Case) -> R {
    let s = Scratch::new();
    let kind = c.choice(6);
    let (w, h) = any_dims(c);
    match kind {
        0 | 1 => {
            let l = layout(c);
            let img = img_u8(c, w, h, l);
            let colour = match l.ch { 1 => 0, 2 => 4, 3 => 2, _ => 6 };
            let f = png(c, w, h, colour, 8, l.ch as usize, img.data());
            let p = s.path("f.png");
            std::fs::write(&p, f).unwrap();
            let what = format!("foreign png {w}x{h} {l:?}");
            match get(&what, &p)? {
                Err(e) => return Err(format!("{what}: {e}")),
                Ok(o) => same_image(&what, &o, &img)?,
            }
            c.label(format!("png {}", l.ch));
        }
        2 => {
            // 16 bits per channel cannot be an Image<u8>
            let ch = c.pick(&[1usize, 3, 4, 2]);
            let d = u8s(c, w as usize * h as usize * ch * 2);
            let colour = match ch { 1 => 0, 2 => 4, 3 => 2, _ => 6 };
            let f = png(c, w, h, colour, 16, ch * 2, &d);
            let p = s.path("f.png");
            std::fs::write(&p, f).unwrap();
            let what = format!("16 bit png {w}x{h} with {ch} channels");
            if let Ok(o) = get(&what, &p)? {
                return Err(format!("{what}: read returns {}", show(&o)));
            }
            c.label("png 16 bit");
        }
        3 => {
            // a PNM file in plain text or binary
            let rgb = c.bool();
            let l = if rgb { RGB } else { GRAY };
            let img = img_u8(c, w, h, l);
            let text = c.bool();
            let mut f = format!("P{}\n{} {}\n255\n", match (rgb, text) { (false, true) => 2, (true, true) => 3, (false, false) => 5, _ => 6 }, w, h).into_bytes();
            if text {
                for v in img.data() {
                    f.extend_from_slice(format!("{v}\n").as_bytes());
                }
            } else {
                f.extend_from_slice(img.data());
            }
            let p = s.path(if rgb { "f.ppm" } else { "f.pgm" });
            std::fs::write(&p, f).unwrap();
            let what = format!("foreign pnm {w}x{h} {l:?} text {text}");
            match get(&what, &p)? {
                Err(e) => return Err(format!("{what}: {e}")),
                Ok(o) => same_image(&what, &o, &img)?,
            }
            c.label("pnm");
        }
        4 => {
            // 24 bit BMP: bottom up, blue first, rows padded to four bytes
            let img = img_u8(c, w, h, RGB);
            let row = (w as usize * 3 + 3) / 4 * 4;
            let mut f = b"BM".to_vec();
            f.extend_from_slice(&((54 + row * h as usize) as u32).to_le_bytes());
            f.extend_from_slice(&[0; 4]);
            f.extend_from_slice(&54u32.to_le_bytes());
            f.extend_from_slice(&40u32.to_le_bytes());
            f.extend_from_slice(&(w as i32).to_le_bytes());
            f.extend_from_slice(&(h as i32).to_le_bytes());
            f.extend_from_slice(&[1, 0, 24, 0]);
            f.extend_from_slice(&[0; 24]);
            for y in (0..h as usize).rev() {
                for x in 0..w as usize {
                    let q = px(&img, x, y);
                    f.extend_from_slice(&[q[2], q[1], q[0]]);
                }
                f.resize(54 + row * (h as usize - y), 0);
            }
            let p = s.path("f.bmp");
            std::fs::write(&p, f).unwrap();
            let what = format!("foreign bmp {w}x{h}");
            match get(&what, &p)? {
                Err(e) => return Err(format!("{what}: {e}")),
                Ok(o) => same_image(&what, &o, &img)?,
            }
            c.label("bmp");
        }
        _ => {
            // uncompressed TGA
            let l = layout_rgb(c);
            let img = img_u8(c, w, h, l);
            let mut f = vec![0u8, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0];
            f.extend_from_slice(&(w as u16).to_le_bytes());
            f.extend_from_slice(&(h as u16).to_le_bytes());
            f.push(l.ch * 8);
            let top = c.bool();
            f.push(if l.alpha { 8 } else { 0 } | if top { 0x20 } else { 0 });
            for y in 0..h as usize {
                let y = if top { y } else { h as usize - 1 - y };
                for x in 0..w as usize {
                    let q = px(&img, x, y);
                    f.extend_from_slice(&[q[2], q[1], q[0]]);
                    if l.alpha {
                        f.push(q[3]);
                    }
                }
            }
            let p = s.path("f.tga");
            std::fs::write(&p, f).unwrap();
            let what = format!("foreign tga {w}x{h} {l:?} top {top}");
            match get(&what, &p)? {
                Err(e) => return Err(format!("{what}: {e}")),
                Ok(o) => same_image(&what, &o, &img)?,
            }
            c.label("tga");
        }
    }
    c.nontrivial(w * h > 1);
    c.note(|| format!("foreign file kind {kind} {w}x{h}"));
    Ok(())
}

/// What cannot be written is refused
fn refused(c: &mut Case) -> R {
    let s = Scratch::new();
    let (w, h) = dims(c, 20);
    let kind = c.choice(6);
    let l = layout(c);
    match kind {
        0 => {
            let (ch, alpha) = loop_layout(c);
            let img = img_u8(c, w, h, Layout { ch, alpha });
            let what = format!("write of {ch} channels with alpha {alpha}");
            ensure!(put(&what, &img, &s.path("a.png"))?.is_err(), "{what} is accepted");
        }
        1 => {
            // fewer samples than the size declares
            let n = count(w, h, l);
            let k = c.choice(n as u64) as usize;
            let img: U = Image::from_vec(w, h, l.ch, l.alpha, vec![7; k]);
            let what = format!("write of {k} samples as a {w}x{h} {l:?} image");
            ensure!(put(&what, &img, &s.path("a.png"))?.is_err(), "{what} is accepted");
        }
        2 => {
            let img = img_u8(c, w, h, l);
            let name = c.pick(&["a.xyz", "a", "a.pngx", "png", "a.", "a.png.bak", "a.txt", ".png"]);
            let what = format!("write to {name:?}");
            ensure!(put(&what, &img, &s.path(name))?.is_err(), "{what} is accepted");
        }
        3 => {
            let img = img_u8(c, w, h, l);
            std::fs::create_dir(s.path("d.png")).unwrap();
            for name in ["missing/a.png", "d.png"] {
                let what = format!("write to {name:?}");
                ensure!(put(&what, &img, &s.path(name))?.is_err(), "{what} is accepted");
                let what = format!("read of {name:?}");
                ensure!(get(&what, &s.path(name))?.is_err(), "{what} is accepted");
            }
        }
        4 => {
            for name in ["missing.png", "", "missing"] {
                let what = format!("read of missing {name:?}");
                ensure!(get(&what, &if name.is_empty() { String::new() } else { s.path(name) })?.is_err(), "{what} is accepted");
            }
        }
        _ => {
            // empty files and rubbish, under every extension
            let n = c.int(0, 40) as usize;
            let mut d = u8s(c, n);
            if c.bool() && n > 0 {
                d[0] = 0;
            }
            let name = c.pick(&["a.png", "a.xyz", "a"]);
            std::fs::write(s.path(name), &d).unwrap();
            let what = format!("read of {n} bytes {d:?} as {name:?}");
            ensure!(get(&what, &s.path(name))?.is_err(), "{what} is accepted");
        }
    }
    c.label(format!("kind {kind}"));
    c.nontrivial(true);
    c.note(|| format!("refusal kind {kind} {w}x{h} {l:?}"));
    Ok(())
}

fn loop_layout(c: &mut Case) -> (u8, bool) {
    c.pick(&[(2u8, false), (4, false), (3, true), (1, true), (5, false), (5, true), (6, false), (8, true)])
}

/// Truncated and corrupted PNG files
fn faults(c: &mut Case) -> R {
    let s = Scratch::new();
    let (w, h) = dims(c, 24);
    let l = layout(c);
    let img = img_u8(c, w, h, l);
    let p = s.path("a.png");
    if let Err(e) = put("png", &img, &p)? {
        return Err(format!("png of {w}x{h} {l:?}: write fails: {e}"));
    }
    let good = std::fs::read(&p).unwrap();
    let n = good.len();
    let mut bad = good.clone();
    let mut what = String::new();
    let mut cut = false;
    for _ in 0..c.int(1, 3) {
        let m = bad.len().max(1) as u64;
        match c.choice(5) {
            0 => {
                let k = c.choice(m) as usize;
                bad.truncate(k);
                cut = true;
                what += &format!("cut to {k} of {n} bytes; ");
            }
            1 => {
                let (k, b) = (c.choice(m) as usize, c.int(1, 255) as u8);
                if k < bad.len() {
                    bad[k] ^= b;
                }
                what += &format!("byte {k} xor {b}; ");
            }
            2 => {
                let (k, b) = (c.choice(m) as usize, c.u8());
                bad.insert(k.min(bad.len()), b);
                what += &format!("byte {b} inserted at {k}; ");
            }
            3 => {
                let (k, q) = (c.choice(m) as usize, c.int(1, 16) as usize);
                let e = (k + q).min(bad.len());
                if k < e {
                    bad.drain(k..e);
                }
                what += &format!("{q} bytes removed at {k}; ");
            }
            _ => {
                let (k, q) = (c.choice(m) as usize, c.int(1, 16) as usize);
                let v = c.u8();
                for b in bad.iter_mut().skip(k).take(q) {
                    *b = v;
                }
                what += &format!("{q} bytes from {k} set to {v}; ");
            }
        }
    }
    std::fs::write(&p, &bad).unwrap();
    let name = format!("png of {w}x{h} {l:?} with {what}");
    let r = get(&name, &p)?;
    if let Ok(o) = &r {
        // whatever is accepted keeps the declared size
        ensure!(o.info() == img.info(), "{name}: read returns a {}x{} image with {} channels", o.info().width, o.info().height, o.info().channels);
    }
    // cut inside the compressed pixels or before: no complete image is left
    if cut && bad.len() < 41 {
        ensure!(r.is_err(), "{name}: read accepts {} bytes", bad.len());
    }
    c.label_if(r.is_err(), "rejected");
    c.label_if(r.is_ok(), "accepted");
    // the path stays usable
    if let Err(e) = put("png", &img, &p)? {
        return Err(format!("{name}: write over it fails: {e}"));
    }
    match get(&name, &p)? {
        Err(e) => return Err(format!("{name}: overwritten, but read fails: {e}")),
        Ok(o) => same_image("overwritten", &o, &img)?,
    }
    c.nontrivial(bad != good);
    c.note(|| name.clone());
    Ok(())
}

pub fn defs() -> Vec<PropertyDef> {
    vec![PropertyDef {
        id: "C30",
        rule: "Random images of the four layouts are written to a scratch file in a lossless format and read back, up to three times over the same path; files made by an encoder of the harness (PNG with all filters, 16-bit PNG, PNM, BMP, TGA) are read; unwritable images and paths must be refused; written PNG files are cut, changed, extended and shortened. Non-trivial: the image is not constant (round trip), more than one pixel (foreign), the file really changed (faults).",
        subs: vec![sub("roundtrip", roundtrip, 18000, 270000), sub("foreign", foreign, 21000, 315000), sub("refused", refused, 17000, 255000), sub("faults", faults, 16000, 240000)],
    }]
}
