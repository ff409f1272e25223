//! Runs one operation per request in this process's configuration, for the comparison of configurations (C31)

use crate::engine::*;
use crate::gen::*;
use crate::ops::{self, Op, V};
use std::cell::RefCell;
use std::io::{Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

/// What a call came to
#[derive(Clone)]
pub enum Out {
    Value(V),
    Error(String),
    Panic(String),
    /// The same call twice gave different results
    Unstable,
}

impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Value(v) => v.show(),
            Out::Error(e) => format!("error {e}"),
            Out::Panic(p) => format!("panic {p}"),
            Out::Unstable => "two different results for the same call".into(),
        }
    }
}

/// The image and operation of a case (drawn in the same way by every process)
pub fn draw(c: &mut Case, big: bool) -> (V, Op) {
    if big {
        return ops::big(c);
    }
    let wild = c.chance(1, 3);
    let any = c.chance(1, 8);
    let v = if c.chance(1, 24) {
        let l = layout(c);
        let (w, h) = dims_wide(c);
        if c.bool() { V::F(img_f32(c, w, h, l)) } else { V::U(img_u8(c, w, h, l)) }
    } else if c.chance(1, 1500) {
        let l = layout(c);
        let (w, h) = dims_area(c);
        if c.bool() { V::F(img_f32(c, w, h, l)) } else { V::U(img_u8(c, w, h, l)) }
    } else {
        ops::start(c, 40, any)
    };
    let o = ops::step(c, &v, wild);
    (v, o)
}

/// Leaves freed memory with a recognisable content, so that a result made of it is not stable
fn dirty(n: usize, b: u8) {
    for k in [n, 4 * n, n / 4 + 1] {
        let v = vec![b; k.clamp(1, 1 << 20)];
        std::hint::black_box(&v);
    }
}

/// Runs the operation twice
pub fn call(v: &V, o: &Op) -> Out {
    let n = v.len();
    dirty(n, 0x5a);
    let a = guarded(|| (o.f)(v));
    dirty(n, 0xc3);
    let b = guarded(|| (o.f)(v));
    match (a, b) {
        (Ok(Ok(x)), Ok(Ok(y))) => if x.same(&y) { Out::Value(x) } else { Out::Unstable },
        (Ok(Err(x)), Ok(Err(_))) => Out::Error(x),
        (Err(x), Err(_)) => Out::Panic(x),
        _ => Out::Unstable,
    }
}

fn put_bytes(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(&(b.len() as u32).to_le_bytes());
    o.extend_from_slice(b);
}

fn encode(out: &Out) -> Vec<u8> {
    let mut o = Vec::new();
    match out {
        Out::Error(e) => {
            o.push(0);
            put_bytes(&mut o, e.as_bytes());
        }
        Out::Panic(e) => {
            o.push(3);
            put_bytes(&mut o, e.as_bytes());
        }
        Out::Unstable => {
            o.push(4);
            put_bytes(&mut o, &[]);
        }
        Out::Value(v) => {
            let (w, h, l) = v.dims();
            o.push(if v.is_f() { 2 } else { 1 });
            o.extend_from_slice(&w.to_le_bytes());
            o.extend_from_slice(&h.to_le_bytes());
            o.extend_from_slice(&[l.ch, l.alpha as u8]);
            match v {
                V::U(i) => put_bytes(&mut o, i.data()),
                V::F(i) => put_bytes(&mut o, &i.data().iter().flat_map(|x| x.to_bits().to_le_bytes()).collect::<Vec<u8>>()),
            }
        }
    }
    o
}

fn exact<R: Read>(r: &mut R, n: usize) -> std::io::Result<Vec<u8>> {
    let mut b = vec![0; n];
    r.read_exact(&mut b)?;
    Ok(b)
}

fn u32_of<R: Read>(r: &mut R) -> std::io::Result<u32> {
    Ok(u32::from_le_bytes(exact(r, 4)?.try_into().unwrap()))
}

fn decode<R: Read>(r: &mut R) -> std::io::Result<Out> {
    let tag = exact(r, 1)?[0];
    if tag == 1 || tag == 2 {
        let (w, h) = (u32_of(r)?, u32_of(r)?);
        let x = exact(r, 2)?;
        let l = Layout { ch: x[0], alpha: x[1] == 1 };
        let n = u32_of(r)? as usize;
        let b = exact(r, n)?;
        return Ok(Out::Value(if tag == 1 { V::U(mk(w, h, l, b)) } else { V::F(mk(w, h, l, b.chunks(4).map(|q| f32::from_bits(u32::from_le_bytes(q.try_into().unwrap()))).collect())) }));
    }
    let n = u32_of(r)? as usize;
    let s = String::from_utf8_lossy(&exact(r, n)?).into_owned();
    Ok(match tag {
        0 => Out::Error(s),
        3 => Out::Panic(s),
        _ => Out::Unstable,
    })
}

pub fn serve() -> i32 {
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    loop {
        let Ok(n) = u32_of(&mut i) else { return 0 };
        let Ok(b) = exact(&mut i, n as usize * 8) else { return 0 };
        // whether it is a big one, and the choices
        let mut choices: Vec<u64> = b.chunks(8).map(|q| u64::from_le_bytes(q.try_into().unwrap())).collect();
        let big = choices.pop() == Some(1);
        let mut c = Case::fixed(choices);
        let (v, op) = draw(&mut c, big);
        let r = encode(&call(&v, &op));
        if o.write_all(&r).is_err() || o.flush().is_err() {
            return 0;
        }
    }
}

pub struct Peer {
    pub name: String,
    child: Child,
    i: ChildStdin,
    o: ChildStdout,
}

impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Peer {
    fn start(name: &str, bin: &str, threads: &str) -> Peer {
        let mut cmd = Command::new(bin);
        cmd.arg("serve").stdin(Stdio::piped()).stdout(Stdio::piped());
        if !threads.is_empty() {
            cmd.env("RAYON_NUM_THREADS", threads);
        }
        let mut child = cmd.spawn().unwrap_or_else(|e| panic!("harness: cannot start {bin}: {e}"));
        let (i, o) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
        Peer { name: name.into(), child, i, o }
    }

    fn ask(&mut self, choices: &[u64]) -> std::io::Result<Out> {
        let mut m = (choices.len() as u32).to_le_bytes().to_vec();
        for c in choices {
            m.extend_from_slice(&c.to_le_bytes());
        }
        self.i.write_all(&m)?;
        self.i.flush()?;
        decode(&mut self.o)
    }
}

thread_local! {
    static PEERS: RefCell<Option<Vec<Peer>>> = const { RefCell::new(None) };
}

/// Asks every other configuration (PBT_CHILDREN: name=binary[=threads], separated by commas)
pub fn ask_all(choices: &[u64]) -> Vec<(String, Result<Out, String>)> {
    PEERS.with(|p| {
        let mut p = p.borrow_mut();
        let list = std::env::var("PBT_CHILDREN").expect("harness: PBT_CHILDREN is not set");
        let start = || -> Vec<Peer> {
            list.split(',').map(|s| {
                let f: Vec<&str> = s.split('=').collect();
                Peer::start(f[0], f[1], f.get(2).copied().unwrap_or(""))
            }).collect()
        };
        if p.is_none() {
            *p = Some(start());
        }
        let peers = p.as_mut().unwrap();
        let mut out = Vec::new();
        let mut dead = false;
        for x in peers.iter_mut() {
            let r = x.ask(choices).map_err(|e| {
                dead = true;
                format!("the process died ({e})")
            });
            out.push((x.name.clone(), r));
        }
        if dead {
            *p = None;
        }
        out
    })
}
