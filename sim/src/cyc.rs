//! Long lives: the same sixteen small histories over and over in one process,
//! each with its digest compared every time, while the memory in use is
//! watched (property C23). Nothing in the loop itself keeps memory.
use crate::exec::{in_pool, oneshot, oneshot_xof, viol, Ctx};
use crate::io::InjectedPanic;
use crate::model::{Mode, Msg};
use crate::plan::{arg, num};
use crate::rng::{mix, Rng};
use crate::shm::{self, *};
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// At most this much at once, whatever the sizes.
const PEAK: i64 = 4 << 20;

#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Eof,
    Err,
    Custom,
    Panic,
}

struct R<'a> {
    d: &'a [u8],
    at: usize,
    piece: usize,
    every: u32,
    calls: u32,
    end: End,
}

fn event(end: End) -> io::Result<usize> {
    match end {
        End::Eof => Ok(0),
        End::Err => Err(io::ErrorKind::ConnectionReset.into()),
        End::Custom => Err(io::Error::new(io::ErrorKind::Other, "injected")),
        End::Panic => std::panic::panic_any(InjectedPanic),
    }
}

impl Read for R<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.every > 0 && self.calls % self.every == 0 {
            shm::count(C_REINTR, 1);
            return Err(io::ErrorKind::Interrupted.into());
        }
        if self.at == self.d.len() {
            match self.end {
                End::Eof => {}
                End::Panic => shm::count(C_RPANIC, 1),
                _ => shm::count(C_RERR, 1),
            }
            return event(self.end);
        }
        let n = self.piece.min(b.len()).min(self.d.len() - self.at);
        b[..n].copy_from_slice(&self.d[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// Takes `cap` bytes at a time and up to `room` bytes.
struct W {
    got: u64,
    cap: usize,
    room: u64,
    end: End,
}

impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = (b.len().min(self.cap) as u64).min(self.room - self.got.min(self.room)) as usize;
        if n == 0 && !b.is_empty() {
            shm::count(C_WERR, 1);
            return event(if self.end == End::Eof { End::Err } else { self.end });
        }
        self.got += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum K {
    Rust(baokeshed::Hasher),
    #[cfg(feature = "c_portable")]
    C(baokeshed::c::Hasher),
    Ref(reference_impl::Hasher),
}

impl K {
    fn new(kind: &str, mode: Mode, key: &[u8; 32]) -> K {
        match kind {
            #[cfg(feature = "c_portable")]
            "c" => {
                let k = if mode == Mode::Hash { crate::model::iv_bytes() } else { *key };
                K::C(baokeshed::c::Hasher::new(&k, mode.flags() as u8))
            }
            "ref" => K::Ref(match mode {
                Mode::Hash => reference_impl::Hasher::new(),
                Mode::Keyed => reference_impl::Hasher::new_keyed(key),
                Mode::Derive => reference_impl::Hasher::new_derive_key(key),
            }),
            _ => K::Rust(match mode {
                Mode::Hash => baokeshed::Hasher::new(),
                Mode::Keyed => baokeshed::Hasher::new_keyed(key),
                Mode::Derive => baokeshed::Hasher::new_derive_key(key),
            }),
        }
    }
    fn update(&mut self, d: &[u8]) {
        match self {
            K::Rust(h) => {
                h.update(d);
            }
            #[cfg(feature = "c_portable")]
            K::C(h) => h.update(d),
            K::Ref(h) => h.update(d),
        }
    }
    fn digest(&self) -> [u8; 32] {
        match self {
            K::Rust(h) => *h.finalize().as_bytes(),
            #[cfg(feature = "c_portable")]
            K::C(h) => h.finalize(),
            K::Ref(h) => {
                let mut b = [0; 32];
                h.finalize(&mut b);
                b
            }
        }
    }
}

/// One step of a small history.
#[derive(Clone, Copy)]
enum S {
    Upd(usize),
    Write(usize),
    Copy { n: usize, piece: usize, every: u32, end: End, wide: bool },
    /// go on with a clone, dropping the original
    Swap,
    /// overwrite with a clone of itself
    From,
    Fin,
    /// a one-shot call on the side
    One(usize),
    Out(u8),
    Show,
    /// a copy which has nothing to do with the hasher
    Aside { n: usize, piece: usize, cap: usize, room: u64, end: End },
}

const VARIANTS: usize = 16;

fn size(r: &mut Rng, max: u64) -> usize {
    match r.below(5) {
        0 => r.below(70),
        1 => 2048 * r.range(1, 20) + r.below(3) - 1,
        2 => r.below(5000),
        3 => r.below(max + 1),
        _ => 1024 * r.below(10) + r.below(64),
    }
    .min(max) as usize
}

fn ends(r: &mut Rng) -> End {
    *r.pick(&[End::Eof, End::Eof, End::Err, End::Custom, End::Panic])
}

fn history(seed: u64, v: usize, max: u64, ones: bool) -> Vec<S> {
    let mut r = Rng::new(mix(seed, v as u64));
    let n = r.range(1, 7);
    (0..n)
        .map(|_| match r.below(if ones { 15 } else { 12 }) {
            12.. => S::One(size(&mut r, max)),
            0..=3 => S::Upd(size(&mut r, max)),
            4 => S::Write(size(&mut r, max)),
            5 | 6 => S::Copy {
                n: size(&mut r, max),
                piece: (size(&mut r, 70_000) + 1).max(40),
                every: if r.pct(40) { r.range(2, 5) as u32 } else { 0 },
                end: ends(&mut r),
                wide: r.pct(70),
            },
            7 => *r.pick(&[S::Swap, S::From]),
            8 => S::Fin,
            9 => S::Out(r.below(5) as u8),
            10 => S::Aside {
                n: size(&mut r, max),
                piece: (size(&mut r, 70_000) + 1).max(40),
                cap: (size(&mut r, 70_000) + 1).max(40),
                room: if r.pct(50) { u64::MAX } else { r.below(max) },
                end: ends(&mut r),
            },
            _ => S::Show,
        })
        .collect()
}

struct Null;
impl std::fmt::Write for Null {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}

fn quiet<T>(f: impl FnOnce() -> T) {
    if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
        crate::guard::unwound();
        if !p.is::<InjectedPanic>() {
            std::panic::resume_unwind(p);
        }
    }
}

/// Goes through one history, returning how many bytes were taken.
fn play(k: &mut K, steps: &[S], data: &[u8], mut at: usize, mode: Mode, key: &[u8; 32]) -> usize {
    let start = at;
    for s in steps {
        match *s {
            S::Upd(n) => {
                k.update(&data[at..at + n]);
                at += n;
            }
            S::Write(n) => {
                match k {
                    K::Rust(h) => {
                        let _ = h.write_all(&data[at..at + n]);
                    }
                    _ => k.update(&data[at..at + n]),
                }
                at += n;
            }
            S::Copy { n, piece, every, end, wide } => {
                let mut r = R { d: &data[at..at + n], at: 0, piece, every, calls: 0, end };
                match k {
                    K::Rust(h) => quiet(|| if wide { probe::copy_to_hasher(&mut r, h) } else { io::copy(&mut r, h) }),
                    _ => {
                        k.update(&data[at..at + n]);
                        r.at = n;
                    }
                }
                at += r.at;
            }
            S::Swap => {
                if let K::Rust(h) = k {
                    let c = h.clone();
                    *h = c;
                }
            }
            S::From => {
                if let K::Rust(h) = k {
                    let c = h.clone();
                    h.clone_from(&c);
                }
            }
            S::Fin => {
                let d = k.digest();
                shm::log(d[0] as u64);
            }
            S::One(n) => {
                let mut h = K::new("rust", mode, key);
                h.update(&data[..n]);
                shm::count(C_ONESHOT, 1);
                if oneshot(mode, key, &data[..n]) != h.digest() {
                    viol("digest", &format!("one-shot and hasher differ for {} bytes", n));
                }
            }
            S::Out(n) => {
                if let K::Rust(h) = k {
                    let mut o = h.finalize_xof();
                    for _ in 0..n {
                        o.read();
                    }
                    let c = o.clone();
                    if n == 0 {
                        let _ = c.to_hash().to_hex();
                    }
                }
            }
            S::Show => {
                use std::fmt::Write;
                if let K::Rust(h) = k {
                    let _ = write!(Null, "{:?} {:?} {:?}", h, h.finalize_xof(), h.finalize());
                }
            }
            S::Aside { n, piece, cap, room, end } => {
                let mut r = R { d: &data[..n], at: 0, piece, every: 0, calls: 0, end };
                let mut w = W { got: 0, cap, room, end };
                quiet(|| probe::copy(&mut r, &mut w));
            }
        }
    }
    at - start
}

/// All the time, not just once or twice: what is set up late, such as a pool
/// of threads, is not a leak.
pub fn growing(low: &[i64; 8], slack: i64) -> bool {
    let total = low[7] - low[1];
    total > slack && (2..8).all(|i| low[i] - low[i - 1] >= total / 30)
}

struct Watch {
    on: bool,
    slack: i64,
    base: i64,
    n: u64,
    low: [i64; 8],
}

impl Watch {
    fn new(ctx: &Ctx, n: u64, pool: bool) -> Watch {
        unsafe { shm::sim_mem_mark() };
        Watch { on: ctx.bounds, slack: if pool { 24 << 10 } else { 1 << 10 }, base: unsafe { shm::sim_mem_live() }, n, low: [i64::MAX; 8] }
    }
    /// After each cycle: the least in use in each eighth of the run.
    fn cycle(&mut self, i: u64) {
        let l = unsafe { shm::sim_mem_live() } - self.base;
        let q = &mut self.low[((i * 8) / self.n.max(1)).min(7) as usize];
        *q = (*q).min(l);
    }
    fn end(&self) {
        let peak = unsafe { shm::sim_mem_peak() } - self.base;
        if std::env::var_os("SIM_MEASURE").is_some() {
            eprintln!("measure n {} peak {} low {:?}", self.n, peak, self.low);
        }
        if !self.on {
            return;
        }
        shm::count(C_CHECKS, 1);
        if peak > PEAK {
            viol("memory", &format!("{} bytes in use at once", peak));
        }
        if self.n >= 64 && growing(&self.low, self.slack) {
            viol("leak", &format!("memory in use keeps growing: at least {:?} bytes in the eighths of {} cycles", self.low, self.n));
        }
    }
}

/// cyc N WHAT KIND MODE KEY SEED MAX POOL
pub fn run(ctx: &Ctx, l: &[String]) {
    let n = num(l, 1);
    let (kind, mode) = (arg(l, 3), Mode::parse(arg(l, 4)));
    let key = *ctx.keys[num(l, 5) as usize % ctx.keys.len()];
    let (seed, max, pool) = (num(l, 6), num(l, 7), num(l, 8));
    let wrong = |what: &str, i: u64| -> ! { viol("digest", &format!("{} differs in cycle {}", what, i)) };
    match arg(l, 2) {
        // one hasher per cycle, or one for all of them
        // or one hasher and one thread per cycle
        w @ ("hist" | "feed" | "threads") => {
            let ones = pool > 0;
            let hs: Vec<Vec<S>> = (0..VARIANTS).map(|v| history(seed, v, max, ones)).collect();
            let data = crate::plan::pattern("rand", seed, 8 * max as usize + 4096);
            // the first round says how much each history takes
            let mut want = vec![];
            let mut takes = vec![];
            for h in &hs {
                let mut k = K::new(kind, mode, &key);
                let t = play(&mut k, h, &data, 0, mode, &key);
                takes.push(t);
                want.push(Msg::of(mode, key, &data[..t]).digest());
            }
            let mut one = K::new(kind, mode, &key);
            let mut m = Watch::new(ctx, n, w == "threads" || ones);
            for i in 0..n {
                let v = i as usize % VARIANTS;
                if w == "threads" {
                    let (h, d, w) = (&hs[v], &data[..], &want[v]);
                    std::thread::scope(|s| {
                        let t = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(s, move || {
                            let mut k = K::new(kind, mode, &key);
                            play(&mut k, h, d, 0, mode, &key);
                            if k.digest() != *w {
                                wrong("the digest", i);
                            }
                        });
                        if t.map(|t| t.join().is_err()).unwrap_or(false) {
                            viol("panic", "in a thread of its own");
                        }
                    });
                } else if w == "hist" {
                    let mut k = K::new(kind, mode, &key);
                    play(&mut k, &hs[v], &data, 0, mode, &key);
                    if k.digest() != want[v] {
                        wrong("the digest", i);
                    }
                } else {
                    play(&mut one, &hs[v], &data, 0, mode, &key);
                }
                m.cycle(i);
            }
            m.end();
            shm::count(C_CHECKS, n);
            if w == "feed" {
                let mut msg = Msg::new(mode, key);
                for i in 0..n {
                    msg.push(&data[..takes[i as usize % VARIANTS]]);
                }
                let d = one.digest();
                shm::log(d[0] as u64);
                if d != msg.root().digest() {
                    wrong("the digest", n);
                }
            }
        }
        "one" => {
            let data = crate::plan::pattern("rand", seed, max as usize + 64);
            let mut r = Rng::new(seed);
            let lens: Vec<usize> = (0..VARIANTS).map(|_| if r.pct(50) { r.below(max + 1) as usize } else { size(&mut r, max) }).collect();
            let want: Vec<[u8; 32]> = lens.iter().enumerate().map(|(i, &t)| Msg::of(mode, key, &data[i..i + t]).digest()).collect();
            let mut m = Watch::new(ctx, n, true);
            for i in 0..n {
                let v = i as usize % VARIANTS;
                let d = &data[v..v + lens[v]];
                shm::count(C_ONESHOT, 1);
                let got = in_pool(ctx, pool, || {
                    if i % 3 == 2 {
                        *oneshot_xof(mode, &key, d).to_hash().as_bytes()
                    } else {
                        oneshot(mode, &key, d)
                    }
                });
                if got != want[v] {
                    wrong("the digest", i);
                }
                m.cycle(i);
            }
            shm::count(C_CHECKS, n);
            m.end();
        }
        // a long input in one call
        "big" => {
            let key = crate::big::big_key();
            let d = crate::big::mapped(max);
            let root = crate::big::message(mode, max, crate::big::MARK).root();
            let want = root.digest();
            let mut m = Watch::new(ctx, n, true);
            for i in 0..n {
                shm::count(C_ONESHOT, 1);
                let got = in_pool(ctx, pool, || oneshot(mode, &key, d));
                if got != want {
                    wrong("the digest", i);
                }
                m.cycle(i);
            }
            shm::count(C_CHECKS, n);
            m.end();
        }
        "xof" => {
            let data = crate::plan::pattern("rand", seed, max as usize);
            let root = Msg::of(mode, key, &data).root();
            let want = root.xof_block(n);
            let mut h = K::new("rust", mode, &key);
            h.update(&data);
            let K::Rust(h) = h else { return };
            let mut m = Watch::new(ctx, n, false);
            let mut o = h.finalize_xof();
            for i in 0..n {
                let b = o.read();
                if i % 64 == 0 {
                    shm::log(b[0] as u64);
                    o = o.clone();
                }
                m.cycle(i);
            }
            if o.read()[..] != want[..] {
                wrong("the output", n);
            }
            shm::count(C_CHECKS, 1);
            m.end();
        }
        // N bytes through the copy helper
        "copy" => {
            struct P {
                at: u64,
                len: u64,
                piece: usize,
                every: u64,
                calls: u64,
                per: std::sync::Arc<Vec<u8>>,
            }
            impl Read for P {
                fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
                    self.calls += 1;
                    if self.every > 0 && self.calls % self.every == 0 {
                        shm::count(C_REINTR, 1);
                        return Err(io::ErrorKind::Interrupted.into());
                    }
                    let i = (self.at % self.per.len() as u64) as usize;
                    let n = self.piece.min(b.len()).min(self.per.len() - i).min((self.len - self.at) as usize);
                    b[..n].copy_from_slice(&self.per[i..i + n]);
                    self.at += n as u64;
                    Ok(n)
                }
            }
            let mut r = Rng::new(seed);
            let piece = (size(&mut r, 70_000) + 1).max(600);
            let mut p = P { at: 0, len: n, piece, every: if r.pct(50) { r.range(2, 9) } else { 0 }, calls: 0, per: crate::big::period() };
            let key = crate::big::big_key();
            let want = if kind == "rust" { Some(crate::big::message(mode, n, crate::big::MARK).root().digest()) } else { None };
            let mut m = Watch::new(ctx, 1, false);
            if let Some(want) = want {
                let K::Rust(mut h) = K::new("rust", mode, &key) else { return };
                let res = probe::copy_to_hasher(&mut p, &mut h);
                if !matches!(res, Ok(x) if x == n) || *h.finalize().as_bytes() != want {
                    wrong("the digest", 0);
                }
            } else {
                let mut w = W { got: 0, cap: (size(&mut r, 70_000) + 1).max(600), room: u64::MAX, end: End::Eof };
                let res = probe::copy(&mut p, &mut w);
                if !matches!(res, Ok(x) if x == n) || w.got != n {
                    wrong("the count", 0);
                }
            }
            shm::count(C_BYTES, n);
            shm::count(C_CHECKS, 1);
            shm::log(p.calls);
            m.cycle(0);
            m.end();
        }
        _ => {}
    }
}
