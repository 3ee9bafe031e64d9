//! Runs a library plan in this process (a fork made for it) and never returns.
use crate::guard::{Arena, Guarded};
use crate::io::*;
use crate::model::{self, Mode, Msg, Node};
use crate::plan::{self, arg, num, Plan};
use crate::shm::{self, *};
use std::cell::{Cell, RefCell};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub enum H {
    Rust(Guarded<baokeshed::Hasher>),
    #[cfg(feature = "c_portable")]
    C(Guarded<baokeshed::c::Hasher>),
    Ref(Guarded<reference_impl::Hasher>),
}

impl H {
    fn intact(&self) -> bool {
        match self {
            H::Rust(g) => g.intact(),
            #[cfg(feature = "c_portable")]
            H::C(g) => g.intact(),
            H::Ref(g) => g.intact(),
        }
    }
}

/// A hasher and the message it has been given, by the model's account.
pub struct HSlot {
    pub h: H,
    pub msg: Msg,
    owner: u64,
}

/// An output reader, the root it belongs to, and the next block.
pub struct OSlot {
    pub o: Guarded<baokeshed::Output>,
    pub root: Node,
    pub pos: u64,
}

impl HSlot {
    pub fn new(h: H, msg: Msg) -> HSlot {
        HSlot { h, msg, owner: 0 }
    }
}

pub const NS: usize = 16;

#[derive(Default)]
pub struct Local {
    pub h: Vec<Option<HSlot>>,
    pub o: Vec<Option<OSlot>>,
}

impl Local {
    pub fn new() -> Local {
        Local { h: (0..NS).map(|_| None).collect(), o: (0..NS).map(|_| None).collect() }
    }
}

pub struct Ctx {
    pub bufs: Vec<Vec<u8>>,
    pub keys: Vec<&'static [u8; 32]>,
    pub globals: Vec<Mutex<Option<HSlot>>>,
    pub oglobals: Vec<Mutex<Option<OSlot>>>,
    pub shared: Vec<Mutex<Option<Arc<HSlot>>>>,
    /// single-threaded, so the steps taken are an operation's own
    pub work: bool,
    /// memory is watched
    pub bounds: bool,
    #[cfg(feature = "par")]
    pub pools: Vec<rayon::ThreadPool>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static CUR_LINE: RefCell<String> = const { RefCell::new(String::new()) };
    static CLIENT: Cell<u64> = const { Cell::new(0) };
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let p = i.payload();
        if p.is::<InjectedPanic>() {
            return;
        }
        let m = p
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = format!("{} at {}", m.replace('\n', " "), loc);
        }
    }));
}

/// Ends the run with a violation. `class` is what minimisation preserves.
pub fn viol(class: &str, detail: &str) -> ! {
    let line = CUR_LINE.with(|c| c.borrow().clone());
    let client = CLIENT.with(|c| c.get());
    shm::die(ST_VIOLATION, &format!("{}|client {}: {}|{}", class, client, line, detail))
}

fn check_digest(what: &str, got: &[u8], want: &[u8]) {
    shm::count(C_CHECKS, 1);
    shm::log(u64::from_le_bytes([got[0], got[1], got[2], got[3], got[4], got[5], got[6], got[7]]));
    if got != want {
        viol(
            what,
            &format!("got {} want {}", &model::hex(&got[..got.len().min(32)]), &model::hex(&want[..want.len().min(32)])),
        );
    }
}

fn key_of<'a>(ctx: &'a Ctx, i: u64) -> &'a [u8; 32] {
    ctx.keys[i as usize % ctx.keys.len()]
}

/// What the C code takes for a hasher, against the memory it is given. (Not
/// known if it could not be found out when this was built.)
#[cfg(feature = "c_portable")]
fn check_room() {
    let c: usize = option_env!("SIM_C_HASHER").and_then(|n| n.parse().ok()).unwrap_or(0);
    let rust = std::mem::size_of::<baokeshed::c::Hasher>();
    if ROOM.load(std::sync::atomic::Ordering::Relaxed) && c > rust {
        viol("containment", &format!("the C code takes {} bytes for a hasher, and is given {}", c, rust));
    }
}
/// Property C10: judge that.
#[cfg(feature = "c_portable")]
pub static ROOM: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn new_hasher(kind: &str, mode: Mode, key: &[u8; 32]) -> Option<H> {
    Some(match kind {
        "c" => {
            #[cfg(feature = "c_portable")]
            {
                check_room();
                let iv = model::iv_bytes();
                let k = if mode == Mode::Hash { &iv } else { key };
                H::C(Guarded::new(baokeshed::c::Hasher::new(k, mode.flags() as u8)))
            }
            #[cfg(not(feature = "c_portable"))]
            return None;
        }
        "ref" => H::Ref(Guarded::new(match mode {
            Mode::Hash => reference_impl::Hasher::new(),
            Mode::Keyed => reference_impl::Hasher::new_keyed(key),
            Mode::Derive => reference_impl::Hasher::new_derive_key(key),
        })),
        _ => H::Rust(Guarded::new(match mode {
            Mode::Hash => baokeshed::Hasher::new(),
            Mode::Keyed => baokeshed::Hasher::new_keyed(key),
            Mode::Derive => baokeshed::Hasher::new_derive_key(key),
        })),
    })
}

pub fn feed(h: &mut H, d: &[u8]) {
    match h {
        H::Rust(g) => {
            g.update(d);
        }
        #[cfg(feature = "c_portable")]
        H::C(g) => g.update(d),
        H::Ref(g) => g.update(d),
    }
}

fn clone_h(h: &H) -> Option<H> {
    Some(match h {
        H::Rust(g) => H::Rust(Guarded::new((**g).clone())),
        #[cfg(feature = "c_portable")]
        H::C(g) => H::C(Guarded::new(**g)),
        H::Ref(_) => return None,
    })
}

/// Output length used when a reference hasher is merely asked for a digest.
fn finalize(h: &H, arena: &mut Arena, n: usize, place: &str) -> Vec<u8> {
    match h {
        H::Rust(g) => g.finalize().as_bytes().to_vec(),
        #[cfg(feature = "c_portable")]
        H::C(g) => g.finalize().to_vec(),
        H::Ref(g) => {
            let (v, ok) = arena.out(n, place, |b| {
                g.finalize(b);
                b.to_vec()
            });
            if !ok {
                viol("containment", "finalize wrote outside the output slice");
            }
            v
        }
    }
}

/// A long output: every block of the first and last part and next to powers
/// of two, and one in some hundreds elsewhere.
fn check_big_fin(s: &HSlot, n: usize) {
    let g = match &s.h {
        H::Ref(g) => g,
        _ => return,
    };
    let mut buf = crate::big::anonymous(n);
    let out = buf.bytes(n);
    g.finalize(out);
    shm::count(C_BYTES, n as u64);
    shm::count(C_CHECKS, 1);
    let root = s.msg.root();
    let blocks = n.div_ceil(64) as u64;
    let mut i = 0;
    while i < blocks {
        let at = i as usize * 64;
        let end = n.min(at + 64);
        if out[at..end] != root.xof_block(i)[..end - at] {
            viol("digest", &format!("output of {} bytes: block {} differs: got {}", n, i, model::hex(&out[at..end])));
        }
        let near = i.next_power_of_two() - i <= 40 || i - (i + 1).next_power_of_two() / 2 <= 40;
        i += if i < 2000 || blocks - i < 2000 || near { 1 } else { 1 + (i * 0x9e37) % (blocks >> 13).clamp(2, 39) };
    }
    if !buf.rest_clean(n) {
        viol("containment", "finalize wrote outside the output slice");
    }
}

fn check_fin(s: &HSlot, arena: &mut Arena, n: usize, place: &str, what: &str) {
    let got = finalize(&s.h, arena, n, place);
    let want = s.msg.root().xof(got.len());
    if got.is_empty() {
        return;
    }
    if got.len() < 8 {
        shm::count(C_CHECKS, 1);
        if got != want {
            viol(what, &format!("got {} want {}", model::hex(&got), model::hex(&want)));
        }
        return;
    }
    check_digest(what, &got, &want);
}

fn check_trace(t: &Trace, r: Result<&std::io::Result<u64>, ()>, read: &[u8], written: &[u8]) {
    shm::count(C_CHECKS, 1);
    let fail = |d: String| -> ! {
        viol("copy", &format!("{} (reads {} writes {} interrupts {})", d, t.reads, t.writes, t.interrupts))
    };
    if t.after_end {
        fail(format!("I/O after the terminal event {:?}", t.end));
    }
    if written.len() > read.len() || written != &read[..written.len()] {
        let at = written.iter().zip(read).take_while(|(a, b)| a == b).count();
        fail(format!("delivered bytes differ from those read, from byte {} (read {}, delivered {})", at, read.len(), written.len()));
    }
    let all = |f: &str| {
        if written.len() != read.len() {
            fail(format!("{}: read {} bytes but delivered {}", f, read.len(), written.len()))
        }
    };
    match (t.end, r) {
        (End::None, _) => fail("returned before any terminal event".into()),
        (End::Eof, Ok(Ok(n))) => {
            all("end of input");
            if *n != read.len() as u64 {
                fail(format!("reported {} of {} bytes", n, read.len()));
            }
        }
        (End::ReadErr(k), Ok(Err(e))) => {
            all("read error");
            if !same_err(e, &make_err(k)) {
                fail(format!("reader failed with {:?}, got {:?}", make_err(k), e));
            }
        }
        (End::WriteErr(k), Ok(Err(e))) => {
            if !same_err(e, &make_err(k)) {
                fail(format!("writer failed with {:?}, got {:?}", make_err(k), e));
            }
        }
        (End::WriteZero, Ok(Err(e))) => {
            if e.kind() != std::io::ErrorKind::WriteZero {
                fail(format!("writer accepted nothing, got {:?}", e));
            }
        }
        (End::ReadPanic, Err(())) => all("read panic"),
        (End::WritePanic, Err(())) => {}
        (e, Ok(r)) => fail(format!("after {:?} the result was {:?}", e, r)),
        (e, Err(())) => fail(format!("unexpected panic after {:?}", e)),
    }
}

/// Crosses threads, whatever the library has made of its types.
#[cfg(feature = "par")]
struct Cross<T>(T);
#[cfg(feature = "par")]
unsafe impl<T> Send for Cross<T> {}
#[cfg(feature = "par")]
impl<T> Cross<T> {
    fn get(self) -> T {
        self.0
    }
}

#[cfg(feature = "par")]
pub fn in_pool<R>(ctx: &Ctx, pool: u64, f: impl FnOnce() -> R) -> R {
    if pool == 0 || ctx.pools.is_empty() {
        f()
    } else {
        let f = Cross(f);
        ctx.pools[(pool as usize - 1) % ctx.pools.len()].install(|| Cross((f.get())())).get()
    }
}
#[cfg(not(feature = "par"))]
pub fn in_pool<R>(_: &Ctx, _: u64, f: impl FnOnce() -> R) -> R {
    f()
}

pub fn oneshot(mode: Mode, key: &[u8; 32], data: &[u8]) -> [u8; 32] {
    match mode {
        Mode::Hash => *baokeshed::hash(data).as_bytes(),
        Mode::Keyed => *baokeshed::keyed_hash(key, data).as_bytes(),
        Mode::Derive => baokeshed::derive_key(key, data),
    }
}
pub fn oneshot_xof(mode: Mode, key: &[u8; 32], data: &[u8]) -> baokeshed::Output {
    match mode {
        Mode::Hash => baokeshed::hash_xof(data),
        Mode::Keyed => baokeshed::keyed_hash_xof(key, data),
        Mode::Derive => baokeshed::derive_key_xof(key, data),
    }
}

/// With every way of asking for it.
fn debug_text<T: std::fmt::Debug>(x: &T) -> String {
    let mut t = format!("{:?} {:#?} {:x?} {:#X?} {:300?} {:.2?} {:<+9.70?} {:#08.1?}", x, x, x, x, x, x, x, x);
    use std::fmt::Write;
    let _ = write!(t, " {:?} {:#?}", (Some(x), [x]), Err::<(), _>(x));
    t
}

fn debug_of_fresh() -> String {
    debug_text(&baokeshed::Hasher::new())
}
fn debug_of_fresh_output() -> String {
    debug_text(&baokeshed::Hasher::new().finalize_xof())
}
fn check_debug(got: &str, want: &str) {
    shm::count(C_CHECKS, 1);
    shm::log(crate::rng::hash_str(got));
    if got != want {
        viol("debug", &format!("shows {} where a fresh one shows {}", got.replace('\n', " "), want.replace('\n', " ")));
    }
}

fn rust_digest(g: &baokeshed::Hasher, want: &[u8; 32]) -> baokeshed::Hash {
    let d = g.finalize();
    check_digest("digest", d.as_bytes(), want);
    d
}

/// Another digest, differing from `d` in a way chosen by `r`: equal, one bit,
/// the same bit in two places, one byte, from some byte on, or everywhere.
fn variant_of(d: &[u8; 32], r: &mut crate::rng::Rng) -> [u8; 32] {
    let mut v = *d;
    let at = r.below(32) as usize;
    let bit = 1u8 << r.below(8);
    match r.below(12) {
        0 => {}
        8..=10 => {
            // a run of one byte value, often aligned to a word or to a half
            let unit = *r.pick(&[1usize, 2, 4, 8, 16, 32]);
            let from = at / unit * unit;
            let to = (from + unit * r.range(1, 3) as usize).min(32);
            let b = *r.pick(&[0u8, 0, 0, 0xff, 0x80, 0x7f, 0x0f, 1]);
            v[from..to].fill(b);
            if r.below(3) == 0 {
                v[to - 1] = 1;
            }
        }
        11 => {
            // a small number, counted from either end
            let b = v[at];
            v = [0; 32];
            v[*r.pick(&[0, 31, at])] = b;
        }
        1 | 2 => v[at] ^= bit,
        3 => {
            v[at] ^= bit;
            v[(at + r.range(1, 31) as usize) % 32] ^= bit;
        }
        4 => v[at] = r.next() as u8,
        5 => {
            // byte sums stay the same
            let b = (at + r.range(1, 31) as usize) % 32;
            v[at] = v[at].wrapping_add(bit);
            v[b] = v[b].wrapping_sub(bit);
        }
        6 => v.swap(at, (at + r.range(1, 31) as usize) % 32),
        _ => v[at..].iter_mut().for_each(|b| *b = r.next() as u8),
    }
    v
}

/// A digest as a value: equality, text form, conversions.
fn check_value(d: &baokeshed::Hash, bytes: &[u8; 32], r: &mut crate::rng::Rng) {
    let fail = |w: String| viol("digest-value", &w);
    for _ in 0..6 {
        let v = variant_of(bytes, r);
        let other = baokeshed::Hash::from(v);
        shm::count(C_CHECKS, 1);
        let want = v == *bytes;
        let got = [
            probe::eq_hash(d, &other),
            probe::eq_hash(&other, d),
            !probe::ne_hash(d, &other),
            probe::eq_array(d, &v),
            !probe::ne_array(d, &v),
            probe::eq_array(&other, bytes),
        ];
        if got != [want; 6] {
            fail(format!("{} and {}: equality says {:?}", model::hex(bytes), model::hex(&v), got));
        }
        let back: [u8; 32] = other.into();
        if back != v || *other.as_bytes() != v {
            fail(format!("{} does not survive conversion", model::hex(&v)));
        }
        if other.to_hex().as_str() != model::hex(&v) {
            fail(format!("{} as text is {}", model::hex(&v), other.to_hex()));
        }
    }
    if d.to_hex().as_str() != model::hex(bytes) {
        fail(format!("{} as text is {}", model::hex(bytes), d.to_hex()));
    }
}

/// Simulated time (control-flow steps, and bytes looked at by comparison
/// routines) of comparing `d` with others.
fn check_timing(d: &baokeshed::Hash, bytes: &[u8; 32], r: &mut crate::rng::Rng) {
    type F<'a> = &'a dyn Fn(&baokeshed::Hash, &[u8; 32]) -> bool;
    let ways: [(&str, F); 4] = [
        ("Hash == Hash", &|o, _| probe::eq_hash(d, o)),
        ("Hash != Hash", &|o, _| probe::ne_hash(d, o)),
        ("Hash == array", &|_, v| probe::eq_array(d, v)),
        ("Hash != array", &|_, v| probe::ne_array(d, v)),
    ];
    let mut seen: [[Option<(u64, [u8; 32])>; 2]; 4] = Default::default();
    for i in 0..12 {
        let v = if i == 0 { *bytes } else { variant_of(bytes, r) };
        let o = baokeshed::Hash::from(v);
        for (w, f) in ways.iter().enumerate() {
            shm::count(C_CHECKS, 1);
            let t = unsafe {
                shm::sim_timed = 1;
                let t0 = shm::sim_ticks();
                std::hint::black_box(f.1(&o, &v));
                let t = shm::sim_ticks() - t0;
                shm::sim_timed = 0;
                t
            };
            shm::log(t);
            let e = (v == *bytes) as usize;
            match seen[w][e] {
                None => seen[w][e] = Some((t, v)),
                Some((u, x)) if u != t => viol(
                    "timing",
                    &format!("{}: {} against {} takes {} steps but against {} {}", f.0, model::hex(bytes), model::hex(&v), t, model::hex(&x), u),
                ),
                _ => {}
            }
        }
    }
}

fn slice<'a>(ctx: &'a Ctx, b: u64, off: u64, len: u64) -> &'a [u8] {
    let v = &ctx.bufs[b as usize % ctx.bufs.len()];
    let off = (off as usize).min(v.len());
    let len = (len as usize).min(v.len() - off);
    &v[off..off + len]
}

pub fn run_op(ctx: &Ctx, loc: &mut Local, arena: &mut Arena, l: &[String]) {
    let ix = |i: usize| num(l, i) as usize % NS;
    match l[0].as_str() {
        // new SLOT KIND MODE KEY
        "new" => {
            let mode = Mode::parse(arg(l, 3));
            let key = key_of(ctx, num(l, 4));
            if let Some(h) = new_hasher(arg(l, 2), mode, key) {
                loc.h[ix(1)] = Some(HSlot { h, msg: Msg::new(mode, *key), owner: CLIENT.with(|c| c.get()) });
            }
        }
        // upd|wr|wall|wv|wf SLOT BUF OFF LEN PLACE: direct update, write,
        // write_all, write_vectored, formatted write (of the data as text)
        "upd" | "wr" | "wall" | "wv" | "wf" => {
            let data = slice(ctx, num(l, 2), num(l, 3), num(l, 4));
            let Some(s) = loc.h[ix(1)].as_mut() else { return };
            let text;
            let data = if l[0] == "wf" {
                text = model::hex(data);
                text.as_bytes()
            } else {
                data
            };
            shm::count(C_BYTES, data.len() as u64);
            let mut taken = data.len();
            arena.with(data, arg(l, 5), |d| match &mut s.h {
                H::Rust(g) => match l[0].as_str() {
                    "upd" => {
                        g.update(d);
                    }
                    "wr" | "wv" => {
                        let r = if l[0] == "wr" {
                            g.write(d)
                        } else {
                            // up to four slices, some of them empty
                            let mut r = crate::rng::Rng::new(num(l, 3) ^ (num(l, 4) << 20));
                            let mut cut = [0, r.below(d.len() as u64 + 1) as usize, r.below(d.len() as u64 + 1) as usize, d.len()];
                            if r.pct(30) {
                                cut[1] = 0;
                            }
                            cut.sort();
                            let v: Vec<std::io::IoSlice> = cut.windows(2).map(|c| std::io::IoSlice::new(&d[c[0]..c[1]])).collect();
                            g.write_vectored(&v)
                        };
                        match r {
                            Ok(n) => {
                                if n > d.len() || (n == 0 && !d.is_empty()) {
                                    viol("write-count", &format!("write of {} bytes reported {}", d.len(), n));
                                }
                                taken = n;
                            }
                            Err(e) => viol("write-error", &format!("{:?}", e)),
                        }
                    }
                    "wf" => {
                        if let Err(e) = write!(**g, "{}", unsafe { std::str::from_utf8_unchecked(d) }) {
                            viol("write-error", &format!("{:?}", e));
                        }
                    }
                    _ => {
                        if let Err(e) = g.write_all(d).and_then(|_| g.flush()) {
                            viol("write-error", &format!("{:?}", e));
                        }
                    }
                },
                #[cfg(feature = "c_portable")]
                H::C(g) => g.update(d),
                H::Ref(g) => g.update(d),
            });
            s.msg.push(&data[..taken]);
        }
        // cw|ioc SLOT BUF OFF LEN SCRIPT
        "cw" | "ioc" => {
            let data = slice(ctx, num(l, 2), num(l, 3), num(l, 4));
            let Some(s) = loc.h[ix(1)].as_mut() else { return };
            let H::Rust(g) = &mut s.h else { return };
            let trace: TraceRef = Rc::new(RefCell::new(Trace::new()));
            let mut r = SimReader::new(data, arg(l, 5), trace.clone());
            let res = catch_unwind(AssertUnwindSafe(|| {
                if l[0] == "cw" {
                    probe::copy_to_hasher(&mut r, &mut **g)
                } else {
                    std::io::copy(&mut r, &mut **g)
                }
            }));
            let res = match res {
                Ok(x) => Ok(x),
                Err(p) => {
                    crate::guard::unwound();
                    if !p.is::<InjectedPanic>() {
                        std::panic::resume_unwind(p);
                    }
                    Err(())
                }
            };
            let read = &data[..r.pos];
            shm::count(C_BYTES, read.len() as u64);
            check_trace(&trace.borrow(), res.as_ref().map_err(|_| ()), read, read);
            s.msg.push(read);
            if trace.borrow().end != End::Eof {
                check_fin(s, arena, 32, "e0", "resume");
            }
        }
        // copy BUF OFF LEN RSCRIPT WSCRIPT
        "copy" => {
            let data = slice(ctx, num(l, 1), num(l, 2), num(l, 3));
            let trace: TraceRef = Rc::new(RefCell::new(Trace::new()));
            let mut r = SimReader::new(data, arg(l, 4), trace.clone());
            let mut w = SimWriter::new(arg(l, 5), trace.clone());
            let res = catch_unwind(AssertUnwindSafe(|| probe::copy(&mut r, &mut w)));
            let res = match res {
                Ok(x) => Ok(x),
                Err(p) => {
                    crate::guard::unwound();
                    if !p.is::<InjectedPanic>() {
                        std::panic::resume_unwind(p);
                    }
                    Err(())
                }
            };
            shm::count(C_BYTES, r.pos as u64);
            check_trace(&trace.borrow(), res.as_ref().map_err(|_| ()), &data[..r.pos], &w.got);
        }
        // clone DST SRC
        "clone" => {
            let c = match &loc.h[ix(2)] {
                Some(s) => clone_h(&s.h).map(|h| HSlot { h, msg: s.msg.clone(), owner: s.owner }),
                None => return,
            };
            if c.is_some() {
                loc.h[ix(1)] = c;
            }
        }
        // clonef DST SRC: overwrite one hasher with a clone of another
        "clonef" => {
            let (a, b) = (ix(1), ix(2));
            if a == b || loc.h[a].is_none() || loc.h[b].is_none() {
                return;
            }
            let src = loc.h[b].take().unwrap();
            let dst = loc.h[a].as_mut().unwrap();
            match (&mut dst.h, &src.h) {
                (H::Rust(d), H::Rust(s)) => {
                    (**d).clone_from(&**s);
                    dst.msg = src.msg.clone();
                }
                #[cfg(feature = "c_portable")]
                (H::C(d), H::C(s)) => {
                    **d = **s;
                    dst.msg = src.msg.clone();
                }
                _ => {}
            }
            loc.h[b] = Some(src);
        }
        // restore DST SRC: DST crashed, continue from the checkpoint SRC
        "restore" => {
            shm::count(C_RESTORE, 1);
            loc.h[ix(1)] = None;
            if let Some(s) = &loc.h[ix(2)] {
                loc.h[ix(1)] = clone_h(&s.h).map(|h| HSlot { h, msg: s.msg.clone(), owner: s.owner });
            }
        }
        "drop" => loc.h[ix(1)] = None,
        "swap" => loc.h.swap(ix(1), ix(2)),
        // fin SLOT [N PLACE]
        "fin" => {
            if let Some(s) = &loc.h[ix(1)] {
                let n = if l.len() > 2 { num(l, 2) as usize } else { 32 };
                check_fin(s, arena, n, if l.len() > 3 { arg(l, 3) } else { "e0" }, "digest");
            }
        }
        // bigfin SLOT N: a long output of the reference hasher
        "bigfin" => {
            if let Some(s) = &loc.h[ix(1)] {
                check_big_fin(s, num(l, 2) as usize);
            }
        }
        // xof OSLOT SLOT
        "xof" => {
            if let Some(s) = &loc.h[ix(2)] {
                if let H::Rust(g) = &s.h {
                    loc.o[ix(1)] = Some(OSlot { o: Guarded::new(g.finalize_xof()), root: s.msg.root(), pos: 0 });
                }
            }
        }
        // rd OSLOT N
        "rd" => {
            if let Some(o) = loc.o[ix(1)].as_mut() {
                for _ in 0..num(l, 2) {
                    let got = o.o.read();
                    let want = o.root.xof_block(o.pos);
                    if got[..] != want[..] {
                        viol("xof", &format!("block {} differs: got {} want {}", o.pos, model::hex(&got), model::hex(&want)));
                    }
                    o.pos += 1;
                }
                shm::count(C_CHECKS, num(l, 2));
            }
        }
        "oclone" => {
            if let Some(s) = &loc.o[ix(2)] {
                loc.o[ix(1)] = Some(OSlot { o: Guarded::new((*s.o).clone()), root: s.root.clone(), pos: s.pos });
            }
        }
        "oclonef" => {
            let (a, b) = (ix(1), ix(2));
            if a == b || loc.o[a].is_none() || loc.o[b].is_none() {
                return;
            }
            let src = loc.o[b].take().unwrap();
            let dst = loc.o[a].as_mut().unwrap();
            (*dst.o).clone_from(&*src.o);
            dst.root = src.root.clone();
            dst.pos = src.pos;
            loc.o[b] = Some(src);
        }
        // dbg SLOT / odbg OSLOT: what debugging output shows is a constant
        "dbg" => {
            if let Some(s) = &loc.h[ix(1)] {
                if let H::Rust(g) = &s.h {
                    check_debug(&debug_text(&**g), &debug_of_fresh());
                }
            }
        }
        "odbg" => {
            if let Some(o) = &loc.o[ix(1)] {
                check_debug(&debug_text(&*o.o), &debug_of_fresh_output());
            }
        }
        // hval|cteq SLOT SEED: the digest as a value; timing of comparisons
        "hval" | "cteq" => {
            if let Some(s) = &loc.h[ix(1)] {
                if let H::Rust(g) = &s.h {
                    let want = s.msg.root().digest();
                    let d = rust_digest(g, &want);
                    let mut r = crate::rng::Rng::new(num(l, 2));
                    if l[0] == "hval" {
                        check_value(&d, &want, &mut r);
                    } else {
                        check_timing(&d, &want, &mut r);
                    }
                }
            }
        }
        "odrop" => loc.o[ix(1)] = None,
        // ohash OSLOT: the digest is the head of the stream
        "ohash" => {
            if let Some(o) = &loc.o[ix(1)] {
                if o.pos == 0 {
                    check_digest("digest", (*o.o).clone().to_hash().as_bytes(), &o.root.digest());
                }
            }
        }
        // one MODE KEY BUF OFF LEN PLACE POOL [BLOCKS]
        "one" => {
            let mode = Mode::parse(arg(l, 1));
            let key = *key_of(ctx, num(l, 2));
            let data = slice(ctx, num(l, 3), num(l, 4), num(l, 5));
            shm::count(C_BYTES, data.len() as u64);
            shm::count(C_ONESHOT, 1);
            let root = Msg::of(mode, key, data).root();
            let blocks = num(l, 8);
            arena.with(data, arg(l, 6), |d| {
                if blocks == 0 {
                    let got = in_pool(ctx, num(l, 7), || oneshot(mode, &key, d));
                    check_digest("digest", &got, &root.digest());
                } else {
                    let mut o = in_pool(ctx, num(l, 7), || oneshot_xof(mode, &key, d));
                    for i in 0..blocks {
                        check_digest("xof", &o.read(), &root.xof_block(i));
                    }
                }
            });
        }
        // bigone MODE LEN BLOCKS MARK: a long input in one call
        "bigone" => {
            let mode = Mode::parse(arg(l, 1));
            let key = crate::big::big_key();
            let d = crate::big::mapped(num(l, 2));
            shm::count(C_BYTES, d.len() as u64);
            shm::count(C_ONESHOT, 1);
            let mark = if l.len() > 4 { num(l, 4) } else { crate::big::MARK };
            let root = crate::big::message(mode, d.len() as u64, mark).root();
            if num(l, 3) == 0 {
                check_digest("digest", &oneshot(mode, &key, d), &root.digest());
            } else {
                let mut o = oneshot_xof(mode, &key, d);
                for i in 0..num(l, 3) {
                    check_digest("xof", &o.read(), &root.xof_block(i));
                }
            }
        }
        // bigcopy LEN READ WRITE: the copy helper moving a great many bytes,
        // at most READ and WRITE at a time
        "bigcopy" => {
            struct R(u64, u64, usize);
            struct W(u64, usize);
            fn at(pos: u64, n: usize) -> (usize, usize) {
                let p = crate::big::PERIOD;
                let i = (pos % p as u64) as usize;
                (i, n.min(p - i))
            }
            impl std::io::Read for R {
                fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                    let (i, n) = at(self.0, b.len().min(self.2).min((self.1 - self.0) as usize));
                    b[..n].copy_from_slice(&crate::big::period()[i..i + n]);
                    self.0 += n as u64;
                    Ok(n)
                }
            }
            impl std::io::Write for W {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                    let (i, n) = at(self.0, b.len().min(self.1));
                    if b[..n] != crate::big::period()[i..i + n] {
                        viol("copy", &format!("wrong bytes delivered at {}", self.0));
                    }
                    self.0 += n as u64;
                    Ok(n)
                }
                fn flush(&mut self) -> std::io::Result<()> {
                    Ok(())
                }
            }
            let (mut r, mut w) = (R(0, num(l, 1), num(l, 2) as usize), W(0, num(l, 3) as usize));
            let res = probe::copy(&mut r, &mut w);
            shm::count(C_CHECKS, 1);
            shm::count(C_BYTES, r.0);
            shm::log(w.0);
            match res {
                Ok(n) if n == num(l, 1) && w.0 == n => {}
                x => viol("copy", &format!("of {} bytes {} were read, {} delivered, and the result was {:?}", num(l, 1), r.0, w.0, x)),
            }
        }
        // cyc N WHAT KIND MODE KEY SEED MAX POOL: the same over and over
        "cyc" => crate::cyc::run(ctx, l),
        // par N POOL MODE KEY BUF OFF LEN: N one-shot hashes of overlapping
        // inputs as parallel jobs of one scope
        "par" => {
            #[cfg(feature = "par")]
            {
                let mode = Mode::parse(arg(l, 3));
                let key = *key_of(ctx, num(l, 4));
                let n = num(l, 1);
                let (b, off, len) = (num(l, 5), num(l, 6), num(l, 7));
                let line = CUR_LINE.with(|c| c.borrow().clone());
                let client = CLIENT.with(|c| c.get());
                let body = || {
                    rayon::scope(|s| {
                        for i in 0..n {
                            let line = line.clone();
                            s.spawn(move |_| {
                                CUR_LINE.with(|c| *c.borrow_mut() = line);
                                CLIENT.with(|c| c.set(client));
                                let d = slice(ctx, b, off + i, len - (len.min(i * 3)));
                                shm::count(C_ONESHOT, 1);
                                let got = oneshot(mode, &key, d);
                                check_digest("digest", &got, &Msg::of(mode, key, d).digest());
                            });
                        }
                    })
                };
                in_pool(ctx, num(l, 2), body);
            }
        }
        // put SLOT G / take SLOT G: hand a hasher to another thread
        "put" => {
            if let Some(s) = loc.h[ix(1)].take() {
                *ctx.globals[ix(2)].lock().unwrap() = Some(s);
            }
        }
        "take" => {
            let g = ctx.globals[ix(2)].lock().unwrap().take();
            if let Some(mut s) = g {
                let me = CLIENT.with(|c| c.get());
                if s.owner != me {
                    shm::count(C_MIGRATE, 1);
                    s.owner = me;
                }
                loc.h[ix(1)] = Some(s);
            }
        }
        "oput" => {
            if let Some(s) = loc.o[ix(1)].take() {
                *ctx.oglobals[ix(2)].lock().unwrap() = Some(s);
            }
        }
        "otake" => {
            let g = ctx.oglobals[ix(2)].lock().unwrap().take();
            if let Some(s) = g {
                shm::count(C_MIGRATE, 1);
                loc.o[ix(1)] = Some(s);
            }
        }
        // share SLOT S / sfin S / sclone SLOT S / sxof OSLOT S
        "share" => {
            if let Some(s) = loc.h[ix(1)].take() {
                *ctx.shared[ix(2)].lock().unwrap() = Some(Arc::new(s));
            }
        }
        "sfin" => {
            let s = ctx.shared[ix(1)].lock().unwrap().clone();
            if let Some(s) = s {
                check_fin_shared(&s, arena);
            }
        }
        "sclone" => {
            let s = ctx.shared[ix(2)].lock().unwrap().clone();
            if let Some(s) = s {
                if let Some(h) = clone_h(&s.h) {
                    let msg = Msg::of(s.msg.mode, s.msg.key, &s.msg.tail);
                    loc.h[ix(1)] = Some(HSlot { h, msg, owner: CLIENT.with(|c| c.get()) });
                }
            }
        }
        "sxof" => {
            let s = ctx.shared[ix(2)].lock().unwrap().clone();
            if let Some(s) = s {
                if let H::Rust(g) = &s.h {
                    let root = Msg::of(s.msg.mode, s.msg.key, &s.msg.tail).root();
                    loc.o[ix(1)] = Some(OSlot { o: Guarded::new(g.finalize_xof()), root, pos: 0 });
                }
            }
        }
        "cpu" => {
            shm::count(C_CPU, 1);
            if let Some(s) = shm::cur() {
                s.cpu_level = num(l, 1) as u32;
            }
        }
        "slp" => unsafe { shm::sim_sleep(num(l, 1)) },
        "yld" => std::thread::yield_now(),
        _ => {}
    }
}

// The model's caches aren't for sharing between threads: use a fresh one.
fn check_fin_shared(s: &HSlot, arena: &mut Arena) {
    let got = finalize(&s.h, arena, 32, "e0");
    let want = Msg::of(s.msg.mode, s.msg.key, &s.msg.tail).digest();
    check_digest("digest", &got, &want);
}

// HSlot holds a Msg with a RefCell cache. Shared slots are only used through
// check_fin_shared, sclone and sxof above, which don't touch the cache.
unsafe impl Sync for HSlot {}

/// The steps an operation took, against a budget linear in what it was given:
/// several times what it takes, at every granularity of steps.
fn check_work(l: &[String], bytes: u64, steps: u64) {
    let blocks = match l[0].as_str() {
        "upd" | "wr" | "wall" | "wv" | "wf" | "cw" | "ioc" | "copy" | "clone" | "clonef" | "drop" | "xof" | "oclone" | "oclonef" => 0,
        "rd" => num(l, 2),
        "fin" => {
            if l.len() > 2 {
                num(l, 2) / 64
            } else {
                0
            }
        }
        _ => return,
    };
    let (base, byte, block) = if option_env!("SIM_FINE").is_some() { (120_000, 60, 12_000) } else { (20_000, 8, 1000) };
    let max = base + byte * bytes + block * blocks;
    if steps > max {
        viol("work", &format!("{} steps for {} bytes and {} blocks", steps, bytes, blocks));
    }
}

fn run_ops(ctx: &Ctx, loc: &mut Local, arena: &mut Arena, client: u64, ops: &[(usize, Vec<String>)]) {
    CLIENT.with(|c| c.set(client));
    for (i, l) in ops {
        if let Some(s) = shm::cur() {
            s.cur_client = client as u32;
            s.cur_op = *i as u32;
        }
        CUR_LINE.with(|c| *c.borrow_mut() = l.join(" "));
        shm::point();
        let b0 = shm::cur().map(|s| s.cnt[C_BYTES]).unwrap_or(0);
        let t0 = unsafe { shm::sim_ticks() };
        let r = catch_unwind(AssertUnwindSafe(|| run_op(ctx, loc, arena, l)));
        if ctx.work {
            let bytes = shm::cur().map(|s| s.cnt[C_BYTES]).unwrap_or(0) - b0;
            check_work(l, bytes, unsafe { shm::sim_ticks() } - t0);
        }
        if r.is_err() {
            let m = LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
            viol("panic", &m);
        }
        for s in loc.h.iter().flatten() {
            if !s.h.intact() {
                viol("containment", "memory around a hasher was overwritten");
            }
        }
        for s in loc.o.iter().flatten() {
            if !s.o.intact() {
                viol("containment", "memory around an output reader was overwritten");
            }
        }
    }
}

type Ops = Vec<(usize, Vec<String>)>;

pub struct Program {
    main: Ops,
    clients: Vec<Ops>,
    epi: Ops,
}

pub fn program(p: &Plan) -> Program {
    let mut prog = Program { main: vec![], clients: vec![], epi: vec![] };
    let mut sect = 0;
    let mut id = 0usize;
    for (i, l) in p.lines.iter().enumerate() {
        if l[0] == "client" {
            match arg(l, 1) {
                "main" => sect = 1,
                "epi" => sect = 3,
                _ => {
                    sect = 2;
                    id = (num(l, 1) as usize).min(15);
                    while prog.clients.len() <= id {
                        prog.clients.push(vec![]);
                    }
                }
            }
            continue;
        }
        match sect {
            1 => prog.main.push((i, l.clone())),
            2 => prog.clients[id].push((i, l.clone())),
            3 => prog.epi.push((i, l.clone())),
            _ => {}
        }
    }
    prog
}

pub fn context(p: &Plan) -> Ctx {
    let mut bufs: Vec<Vec<u8>> = Vec::new();
    let mut keys: Vec<[u8; 32]> = Vec::new();
    for l in &p.lines {
        match l[0].as_str() {
            "src" => bufs.push(plan::pattern(arg(l, 2), num(l, 3), (num(l, 4) as usize).min(64 << 20))),
            "key" => keys.push(plan::key(arg(l, 2), num(l, 3))),
            _ => {}
        }
    }
    if bufs.is_empty() {
        bufs.push(vec![]);
    }
    if keys.is_empty() {
        keys.push([7; 32]);
    }
    #[cfg(feature = "c_portable")]
    ROOM.store(p.str("prop") == "C10", std::sync::atomic::Ordering::Relaxed);
    Ctx {
        bufs,
        keys: keys.iter().enumerate().map(|(i, k)| crate::guard::key(k, i)).collect(),
        globals: (0..NS).map(|_| Mutex::new(None)).collect(),
        oglobals: (0..NS).map(|_| Mutex::new(None)).collect(),
        shared: (0..NS).map(|_| Mutex::new(None)).collect(),
        bounds: p.str("prop") == "C23",
        work: p.get("prop").is_some_and(|l| arg(l, 1) == "C15")
            && p.num("pool", 0) == 0
            && !p.lines.iter().any(|l| match l[0].as_str() {
                "xpool" | "one" | "bigone" | "par" => true,
                "client" => arg(l, 1) != "main",
                _ => false,
            }),
        #[cfg(feature = "par")]
        pools: Vec::new(),
    }
}

/// Runs the plan to its end or to a violation, then exits the process.
/// `prepared` is main's state after a prefix executed before forking.
pub fn run(p: &Plan, region: &Region, prepared: Option<Local>) -> ! {
    let prog = program(p);
    #[allow(unused_mut)]
    let mut ctx = context(p);
    let cap = ctx.bufs.iter().map(|b| b.len()).max().unwrap_or(0) + 8192;
    let mut arena = Arena::new(cap);
    let mut arenas: Vec<Arena> = prog.clients.iter().map(|_| Arena::new(cap)).collect();
    let sh = region.get();
    plan::apply_sched(p, sh);
    sh.status = ST_RUNNING;
    unsafe { shm::sim_start(region.p) };
    #[cfg(feature = "par")]
    {
        let global = p.num("pool", 0) as usize;
        if global > 0 {
            let _ = rayon::ThreadPoolBuilder::new().num_threads(global).build_global();
        }
        for l in p.lines.iter().filter(|l| l[0] == "xpool") {
            if let Ok(x) = rayon::ThreadPoolBuilder::new().num_threads(num(l, 1).clamp(1, 8) as usize).build() {
                ctx.pools.push(x);
            }
        }
    }
    let ctx = &ctx;
    let mut loc = prepared.unwrap_or_else(Local::new);
    run_ops(ctx, &mut loc, &mut arena, 100, &prog.main);
    if !prog.clients.is_empty() {
        std::thread::scope(|s| {
            for (i, ops) in prog.clients.iter().enumerate() {
                let mut a = arenas.remove(0);
                std::thread::Builder::new()
                    .stack_size(1 << 20)
                    .spawn_scoped(s, move || {
                        let mut loc = Local::new();
                        run_ops(ctx, &mut loc, &mut a, i as u64, ops);
                    })
                    .expect("spawn");
            }
        });
    }
    run_ops(ctx, &mut loc, &mut arena, 101, &prog.epi);
    unsafe { shm::sim_stop() };
    region.get().status = ST_OK;
    unsafe { libc::_exit(0) }
}
