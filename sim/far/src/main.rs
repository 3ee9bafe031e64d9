//! Carries out one plan (the first argument) and prints what came out, one
//! line per result: thread, number of the operation, when it was done relative
//! to the others, and the bytes. What should have come out is worked out
//! natively, by ../../src/far.rs.
use std::io::{self, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

fn bytes(seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng(seed);
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(len);
    v
}

fn key(seed: u64) -> [u8; 32] {
    let mut k = [0; 32];
    k.copy_from_slice(&bytes(seed, 32));
    k
}

/// Hands out a few bytes at a time, with interruptions.
struct Slow {
    data: Vec<u8>,
    at: usize,
    step: usize,
    every: usize,
    calls: usize,
}

impl Read for Slow {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.every > 0 && self.calls % self.every == 0 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = self.step.min(buf.len()).min(self.data.len() - self.at);
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

type Op = Vec<String>;

/// Crosses threads whatever the library has made of its types; Miri says if it must not.
struct Cross<T>(T);
unsafe impl<T> Send for Cross<T> {}
unsafe impl<T> Sync for Cross<T> {}
impl<T> Cross<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn into(self) -> T {
        self.0
    }
}

// Relaxed: says in what order things happened without ordering anything.
static ORDER: AtomicUsize = AtomicUsize::new(0);

struct Client<'a> {
    thread: usize,
    slots: Vec<Option<baokeshed::Hasher>>,
    shared: &'a [Option<baokeshed::Hasher>],
    out: Vec<String>,
}

fn num(op: &[String], i: usize) -> u64 {
    op.get(i).map_or(0, |s| s.parse().unwrap_or(0))
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push(b"0123456789abcdef"[(x >> 4) as usize] as char);
        s.push(b"0123456789abcdef"[(x & 15) as usize] as char);
    }
    s
}

fn blocks(mut o: baokeshed::Output, n: u64) -> String {
    if n == 0 {
        return o.to_hash().to_hex().to_string();
    }
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(&hex(&o.read()));
    }
    s
}

impl<'a> Client<'a> {
    fn say(&mut self, i: usize, s: String) {
        let at = ORDER.fetch_add(1, Relaxed);
        self.out.push(format!("{} {} {} {}", self.thread, i, at, s));
    }

    fn run(&mut self, i: usize, op: &Op) {
        let slot = num(op, 2) as usize % 4;
        match op[1].as_str() {
            "new" => {
                let k = key(num(op, 4));
                self.slots[slot] = Some(match num(op, 3) {
                    0 => baokeshed::Hasher::new(),
                    1 => baokeshed::Hasher::new_keyed(&k),
                    _ => baokeshed::Hasher::new_derive_key(&k),
                });
            }
            "upd" => {
                let d = bytes(num(op, 3), num(op, 4) as usize);
                if let Some(h) = self.slots[slot].as_mut() {
                    match num(op, 5) {
                        0 => {
                            h.update(&d);
                        }
                        1 => h.write_all(&d).unwrap(),
                        n => {
                            for p in d.chunks(n as usize) {
                                h.update(p);
                            }
                        }
                    }
                }
            }
            "copy" => {
                let data = bytes(num(op, 3), num(op, 4) as usize);
                let len = data.len() as u64;
                let mut r = Slow { data, at: 0, step: num(op, 5).max(1) as usize, every: num(op, 6) as usize, calls: 0 };
                if let Some(h) = self.slots[slot].as_mut() {
                    let n = baokeshed::copy::copy_wide(&mut r, h).unwrap();
                    assert_eq!(n, len, "bytes copied");
                }
            }
            "fin" => {
                if let Some(h) = &self.slots[slot] {
                    let d = h.finalize();
                    assert!(d == baokeshed::Hash::from(*d.as_bytes()));
                    self.say(i, d.to_hex().to_string());
                }
            }
            "xof" => {
                if let Some(h) = &self.slots[slot] {
                    let s = blocks(h.finalize_xof(), num(op, 3));
                    self.say(i, s);
                }
            }
            "clone" => self.slots[num(op, 3) as usize % 4] = self.slots[slot].clone(),
            "sfin" => {
                if let Some(h) = &self.shared[slot] {
                    let s = blocks(h.finalize_xof(), num(op, 3));
                    self.say(i, s);
                }
            }
            "sclone" => self.slots[num(op, 3) as usize % 4] = self.shared[slot].clone(),
            "one" => {
                let k = key(num(op, 3));
                let d = bytes(num(op, 4), num(op, 5) as usize);
                let o = match num(op, 2) {
                    0 => baokeshed::hash_xof(&d),
                    1 => baokeshed::keyed_hash_xof(&k, &d),
                    _ => baokeshed::derive_key_xof(&k, &d),
                };
                let s = blocks(o, num(op, 6));
                self.say(i, s);
            }
            "ref" => {
                let k = key(num(op, 3));
                let d = bytes(num(op, 4), num(op, 5) as usize);
                let mut h = match num(op, 2) {
                    0 => reference_impl::Hasher::new(),
                    1 => reference_impl::Hasher::new_keyed(&k),
                    _ => reference_impl::Hasher::new_derive_key(&k),
                };
                for p in d.chunks(num(op, 7).max(1) as usize) {
                    h.update(p);
                }
                let mut out = vec![0; num(op, 6) as usize];
                h.finalize(&mut out);
                self.say(i, hex(&out));
            }
            "sleep" => {
                for _ in 0..num(op, 2) {
                    std::thread::yield_now();
                }
            }
            _ => {}
        }
    }
}

fn main() {
    let plan = std::env::args().nth(1).unwrap_or_default();
    let ops: Vec<Op> = plan
        .lines()
        .map(|l| l.split_whitespace().map(|s| s.to_string()).collect::<Op>())
        .filter(|l: &Op| l.len() > 1)
        .collect();
    let of = |t: usize, from: usize, to: usize| -> Vec<(usize, &Op)> {
        (from..to).filter(|&i| ops[i][0].parse() == Ok(t)).map(|i| (i, &ops[i])).collect()
    };
    let fork = ops.iter().position(|o| o[1] == "fork").unwrap_or_else(|| ops.len());
    let mut main = Client { thread: 0, slots: vec![None, None, None, None], shared: &[], out: vec![] };
    for (i, op) in of(0, 0, fork) {
        main.run(i, op);
    }
    let n = ops.get(fork).map_or(0, |o| num(o, 2)) as usize;
    let shared = Cross(main.slots.clone());
    let mut lines = std::mem::take(&mut main.out);
    std::thread::scope(|s| {
        let mut running = vec![];
        for t in 1..=n {
            let (shared, mine) = (&shared, of(t, fork, ops.len()));
            // thread 1 goes on with the hashers of the main thread itself
            let slots = if t == 1 { std::mem::take(&mut main.slots) } else { vec![None, None, None, None] };
            let slots = Cross(slots);
            running.push(s.spawn(move || {
                let mut c = Client { thread: t, slots: slots.into(), shared: &shared.get()[..], out: vec![] };
                for (i, op) in mine {
                    c.run(i, op);
                }
                c.out
            }));
        }
        for r in running {
            lines.extend(r.join().unwrap());
        }
    });
    for l in lines {
        println!("{}", l);
    }
    println!("done");
}
