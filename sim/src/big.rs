//! Long messages and far output positions, up to and past 4 GiB. A worker
//! brings a hasher or an output reader close to a mark once, then forks a
//! simulated run per plan from there. The expected chaining values of the
//! subtrees left of the mark are computed by the model; for the mark at 4 GiB
//! they come from golden_big.txt, which the model made.
use crate::exec::{self, HSlot, Local, OSlot};
use crate::guard::{map, Guarded};
use crate::mini;
use crate::model::{self, Big, Mode, Msg};
use crate::plan::{self, num, Plan};
use crate::rng::{hash_str, mix, Rng};
use crate::run::{child_setup, outcome, wait, Outcome, Runner};
use crate::shm::{self, libc};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};
use std::time::Instant;

pub const PERIOD: usize = 1 << 20;
/// Everything below this is covered by the golden table.
pub const GAP: u64 = 1 << 14;
pub const MARK: u64 = 1 << 32;

pub fn period() -> Arc<Vec<u8>> {
    static P: OnceLock<Arc<Vec<u8>>> = OnceLock::new();
    P.get_or_init(|| Arc::new(plan::pattern("rand", 0xB16, PERIOD))).clone()
}

pub fn big_key() -> [u8; 32] {
    plan::key("rand", 77)
}

/// (start, length) of the largest aligned subtrees that make up [0, base).
fn pieces(base: u64) -> Vec<(u64, u64)> {
    let mut v = vec![];
    let mut at = 0;
    for k in (11..63).rev() {
        if (base - at) >> k > 0 {
            v.push((at, 1 << k));
            at += 1 << k;
        }
    }
    v
}

fn golden(mode: Mode) -> Arc<Big> {
    let mut known = vec![];
    for l in include_str!("../golden_big.txt").lines().filter(|l| !l.starts_with('#')) {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() == 4 && f[0] == mode.name() {
            let mut k = [0u8; 32];
            for (i, b) in k.iter_mut().enumerate() {
                *b = u8::from_str_radix(&f[3][2 * i..2 * i + 2], 16).unwrap();
            }
            known.push((f[1].parse().unwrap(), f[2].parse().unwrap(), model::key_words(&k)));
        }
    }
    Arc::new(Big { mode, key: big_key(), known })
}

/// The chaining values left of `mark`, computed once per process (and
/// inherited by the runs forked from it).
fn table(mode: Mode, mark: u64) -> Arc<Big> {
    static T: Mutex<Vec<(Mode, u64, Arc<Big>)>> = Mutex::new(Vec::new());
    let mut t = T.lock().unwrap();
    if let Some(e) = t.iter().find(|e| e.0 == mode && e.1 == mark) {
        return e.2.clone();
    }
    let b = if mark == MARK {
        golden(mode)
    } else {
        let mut m = Msg::new(mode, big_key());
        m.base = mark;
        m.period = period();
        let known = pieces(mark - GAP).iter().map(|p| (p.0, p.1, m.subtree(p.0, p.1))).collect();
        Arc::new(Big { mode, key: big_key(), known })
    };
    t.push((mode, mark, b.clone()));
    b
}

/// `base` bytes of the periodic content, where everything left of `mark` - GAP
/// is known.
pub fn message(mode: Mode, base: u64, mark: u64) -> Msg {
    let mut m = Msg::new(mode, big_key());
    m.base = base;
    m.period = period();
    m.big = Some(table(mode, mark));
    m
}

/// Recomputes the table's entries up to `max` bytes with the model alone.
fn derive(mode: Mode, max: u64, check: bool) -> i32 {
    let mut m = Msg::new(mode, big_key());
    m.base = MARK;
    m.period = period();
    let t = golden(mode);
    for (at, n) in pieces(MARK - GAP).into_iter().filter(|p| p.1 <= max) {
        let cv = m.subtree(at, n);
        let b: Vec<u8> = cv.iter().flat_map(|w| w.to_le_bytes()).collect();
        if check {
            if !t.known.iter().any(|k| k.0 == at && k.1 == n && k.2 == cv) {
                println!("golden table differs at {} {}", at, n);
                return 2;
            }
        } else {
            println!("{} {} {} {}", mode.name(), at, n, model::hex(&b));
        }
    }
    0
}

/// The periodic content, len bytes of it, in address space only.
pub fn mapped(len: u64) -> &'static [u8] {
    unsafe {
        let fd = libc::memfd_create(b"period\0".as_ptr(), 0);
        assert!(fd >= 0 && libc::ftruncate(fd, PERIOD as i64) == 0);
        let w = libc::mmap(std::ptr::null_mut(), PERIOD, 3, libc::MAP_SHARED, fd, 0);
        assert!(w as isize != -1);
        std::ptr::copy_nonoverlapping(period().as_ptr(), w, PERIOD);
        let n = (len as usize).div_ceil(PERIOD).max(1);
        let p = map(n * PERIOD + 4096);
        libc::mprotect(p.add(n * PERIOD), 4096, libc::PROT_NONE);
        for i in 0..n {
            let q = libc::mmap(p.add(i * PERIOD), PERIOD, libc::PROT_READ, libc::MAP_SHARED | libc::MAP_FIXED, fd, 0);
            assert!(q as isize != -1, "mmap period");
        }
        std::slice::from_raw_parts(p, len as usize)
    }
}

/// Memory for a long output, not backed by the heap.
pub struct Anonymous {
    p: *mut u8,
    len: usize,
}

pub fn anonymous(n: usize) -> Anonymous {
    let len = (n + 8192) & !4095;
    Anonymous { p: unsafe { map(len) }, len }
}

impl Anonymous {
    pub fn bytes(&mut self, n: usize) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.p, n) }
    }
    pub fn rest_clean(&self, n: usize) -> bool {
        unsafe { std::slice::from_raw_parts(self.p.add(n), self.len - n) }.iter().all(|b| *b == 0)
    }
}

impl Drop for Anonymous {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.p as *mut _, self.len) };
    }
}

/// prep KIND MODE LEVEL WHAT MARK: a hasher (WHAT=stream) fed with MARK - GAP
/// bytes, or an output reader (WHAT=xof) read up to shortly before MARK.
fn prepare(r: &Runner, l: &[String]) -> Local {
    let mut loc = Local::new();
    let mode = Mode::parse(plan::arg(l, 2));
    let mark = mark_of(l);
    let s = r.region.get();
    s.cpu_level = num(l, 3) as u32;
    unsafe { shm::sim_shm = r.region.p };
    match plan::arg(l, 4) {
        "stream" => {
            let mut h = exec::new_hasher(plan::arg(l, 1), mode, &big_key()).expect("kind");
            let p = period();
            let mut left = mark - GAP;
            while left > 0 {
                let n = (left as usize).min(PERIOD);
                exec::feed(&mut h, &p[..n]);
                left -= n as u64;
            }
            loc.h[0] = Some(HSlot::new(h, message(mode, mark - GAP, mark)));
        }
        "xof" => {
            let data = plan::pattern("rand", 5, 100);
            let mut o = match exec::new_hasher("rust", mode, &big_key()) {
                Some(exec::H::Rust(mut g)) => {
                    g.update(&data);
                    g.finalize_xof()
                }
                _ => unreachable!(),
            };
            let n = mark / 64 - 40;
            for _ in 0..n {
                o.read();
            }
            loc.o[0] = Some(OSlot { o: Guarded::new(o), root: Msg::of(mode, big_key(), &data).root(), pos: n });
        }
        "one" => {
            table(mode, mark);
        }
        _ => {}
    }
    loc
}

/// Marks are multiples of the chunk length, beyond the gap and 40 blocks.
fn mark_of(l: &[String]) -> u64 {
    let m = if l.len() > 5 { num(l, 5) } else { MARK };
    (m & !2047).max(2 * GAP)
}

pub fn run_one(r: &Runner, p: &Plan) -> Outcome {
    let empty = vec![];
    let l = p.get("prep").unwrap_or(&empty).clone();
    let head = l.join(" ");
    {
        let mut c = r.prep.borrow_mut();
        if c.as_ref().map(|x| x.0 != head).unwrap_or(true) {
            *c = None;
            *c = Some((head, prepare(r, &l)));
            r.region.reset();
        }
    }
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        child_setup(r.show, 0);
        let local = r.prep.borrow_mut().take().unwrap().1;
        exec::run(p, &r.region, Some(local));
    }
    if pid < 0 {
        return Outcome::Harness("fork".into());
    }
    outcome(wait(pid), r.region.get(), false)
}

/// A plan continuing from the prepared state.
fn gen_tail(t: &Task, seed: u64) -> Plan {
    let Task { prop, kind, mode, level, what, mark, .. } = t;
    let (kind, what) = (kind.as_str(), what.as_str());
    let mut r = Rng::new(mix(seed, hash_str("big")));
    if what == "cli" {
        return crate::gencli::big(prop, seed, *level, mode, &mut r);
    }
    let mut p = Plan::new();
    p.add("plan v1".into());
    p.add(format!("prop {}", prop));
    p.add("kind big".into());
    p.add(format!("seed {}", seed));
    p.add(format!("prep {} {} {} {} {}", kind, mode, level, what, mark));
    p.add(format!("cpu {}", level));
    let mut ops: Vec<String> = vec![];
    let mut pool = 0;
    let mut srclen = 6000;
    match what {
        "one" => {
            pool = r.range(1, 4);
            let len = *mark as i64
                + *r.pick(&[-1i64, 0, 1, 64, 2047, 2048, 2049, 4096, 8191, 16384, 32769])
                + if r.pct(50) { 2048 * r.below(500) as i64 } else { 0 };
            ops.push(format!("bigone {} {} {} {}", mode, len, r.below(3), mark));
        }
        "copy" => {
            let len = *mark as i64 + *r.pick(&[-1i64, 0, 1, 2048, 16384, 16385, 100_000]);
            ops.push(format!("bigcopy {} {} {}", len, r.pick(&[1u64 << 20, 16384, 16383, 8192, 12345]), r.pick(&[1u64 << 20, 8192, 10_000])));
        }
        "refout" => {
            ops.push(format!("new 0 ref {}", mode));
            ops.push(format!("upd 0 0 0 {} p", r.below(5000)));
            let n = *mark as i64 + *r.pick(&[-1i64, 0, 1, 64, 65, 4096, 70_000]);
            ops.push(format!("bigfin 0 {}", n));
        }
        "xof" => {
            let mut live = vec![0u64];
            for _ in 0..r.range(5, 40) {
                let o = *r.pick(&live);
                match r.below(6) {
                    0 => {
                        let d = r.below(5);
                        ops.push(format!("oclone {} {}", d, o));
                        if !live.contains(&d) {
                            live.push(d);
                        }
                    }
                    1 if live.len() > 1 => {
                        live.retain(|x| *x != o);
                        ops.push(format!("odrop {}", o));
                    }
                    _ => ops.push(format!("rd {} {}", o, r.range(1, 30))),
                }
            }
            for o in live {
                ops.push(format!("rd {} {}", o, r.range(1, 60)));
            }
        }
        _ => {
            srclen = 400_000;
            let mut live = vec![0u64];
            let mut pos: HashMap<u64, u64> = HashMap::new();
            let mut budget = 700_000u64;
            for _ in 0..r.range(3, 30) {
                let s = *r.pick(&live);
                let at = *pos.get(&s).unwrap_or(&0);
                // aim at the mark, at later chunk boundaries, or anywhere
                let max = if r.pct(80) { 9000 } else { 250_000 };
                let n = if at < GAP && r.pct(55) {
                    (GAP - at + r.below(5)).saturating_sub(2)
                } else {
                    crate::gen::length(&mut r, max)
                }
                .min(budget);
                match r.below(10) {
                    0..=4 => {
                        let op = *r.pick(&["upd", "upd", "wr", "wall", "wv"]);
                        ops.push(format!("{} {} 0 {} {} {}", op, s, r.below(srclen - n), n, r.pick(&["p", "e0", "s1", "m7"])));
                        *pos.entry(s).or_insert(0) += n;
                        budget -= n;
                    }
                    5 if kind == "rust" => {
                        let sc = crate::gen::rscript(&mut r, 0, false);
                        ops.push(format!("cw {} 0 {} {} {}", s, r.below(srclen - n), n, sc));
                        *pos.entry(s).or_insert(0) += n;
                        budget -= n;
                    }
                    6 if kind != "ref" => {
                        let d = r.below(4);
                        ops.push(format!("clone {} {}", d, s));
                        pos.insert(d, at);
                        if !live.contains(&d) {
                            live.push(d);
                        }
                    }
                    7 if kind == "rust" => {
                        ops.push(format!("xof 0 {}", s));
                        ops.push(format!("rd 0 {}", r.range(1, 4)));
                    }
                    8 if live.len() > 1 => {
                        let d = *r.pick(&live);
                        if d != s {
                            ops.push(format!("restore {} {}", d, s));
                            pos.insert(d, at);
                        }
                    }
                    _ => ops.push(format!("fin {}", s)),
                }
            }
            for s in live {
                ops.push(format!("fin {}", s));
            }
        }
    }
    p.add(format!("src 0 {} {} {}", crate::gen::pat(&mut r), r.below(1 << 20), srclen));
    if pool > 0 {
        p.add(format!("pool {}", pool));
        p.add(format!("sched rnd {} {} 5", r.next() >> 16, 20_000));
    } else {
        p.add("sched list".into());
    }
    p.add(if what == "refout" {
        format!("maxticks {}", 4_000_000_000 + 20 * mark)
    } else if prop == "C15" { format!("maxticks {}", 40_000_000 + 4 * mark) } else { "maxticks 4000000000".into() });
    p.add("client main".into());
    for o in ops {
        p.add(o);
    }
    p
}

pub struct Task {
    prop: String,
    kind: String,
    mode: String,
    what: String,
    level: u64,
    mark: u64,
    variant: String,
}

impl Task {
    fn name(&self) -> String {
        format!("{}-{}-{}-{}-{}-{}", self.prop, self.variant, self.kind, self.what, self.level, self.mark)
    }
}

/// One task: prepare, then explore tails, in a child so that a crash while
/// preparing is a finding rather than the end of the worker.
pub fn main(a: &crate::Args) -> i32 {
    if a.has("derive") {
        return derive(Mode::parse(&a.s("derive", "hash")), a.n("max", u64::MAX), a.has("check"));
    }
    let t = Task {
        prop: a.s("prop", "C13"),
        kind: a.s("hkind", "rust"),
        mode: a.s("mode", "hash"),
        what: a.s("what", "stream"),
        level: a.n("level", 2),
        mark: mark_of(&["prep".into(), "".into(), "".into(), "".into(), "".into(), a.n("mark", MARK).to_string()]),
        variant: a.s("variant", "rel"),
    };
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe { libc::setrlimit(libc::RLIMIT_CPU, &[400, 410]) };
        let c = task(a, &t);
        std::process::exit(c);
    }
    let st = wait(pid);
    let sig = st & 0x7f;
    if sig == 0 && (st >> 8) & 0xff <= 2 {
        return (st >> 8) & 0xff;
    }
    if sig == 9 || sig == 15 {
        return 2;
    }
    // died while preparing (or panicked)
    let mut p = gen_tail(&t, 1);
    let at = p.lines.iter().position(|l| l[0] == "client").unwrap();
    p.lines.truncate(at + 1);
    let rep = mini::Report {
        plan: p,
        class: format!("signal {}", sig),
        detail: format!("the process died while being brought to byte {}", t.mark),
        reproducible: true,
        tries: 1,
        trace_hash: 0,
    };
    let mut stats = crate::Stats { violations: 1, ..Default::default() };
    let path = crate::save_report(&a.s("replays", "."), &t.variant, &format!("{}-prep.plan", t.name()), &rep);
    stats.reports.push(format!("{}\n{}: {}", path, rep.class, rep.detail));
    crate::write_stats(a, &stats);
    1
}

fn task(a: &crate::Args, t: &Task) -> i32 {
    let r = Runner::new(a.s("cli", ""), false);
    let mut st = crate::Stats::default();
    let t0 = Instant::now();
    let salt = hash_str(&format!("{} {} {} {} {} {}", t.variant, t.kind, t.mode, t.level, t.what, t.mark));
    for i in 0..a.n("count", 20) {
        if t0.elapsed().as_secs() >= a.n("limit", 600) {
            break;
        }
        let seed = mix(mix(a.n("seed", 1), salt), i);
        let p = gen_tail(t, seed);
        let o = r.run(&p);
        st.add(&p, r.region.get());
        if st.samples.is_empty() {
            st.samples.push(p.text());
        }
        match o {
            Outcome::Ok => {}
            Outcome::Harness(m) => {
                st.harness.push(m);
                break;
            }
            Outcome::Violation { class, detail } => {
                st.violations += 1;
                let rep = mini::minimise(&r, &p, &class, &detail, if ["one", "cli", "refout"].contains(&t.what.as_str()) { 30 } else { a.n("minsecs", 40) });
                let path = crate::save_report(&a.s("replays", "."), &t.variant, &format!("{}-{}.plan", t.name(), seed), &rep);
                st.reports.push(format!("{}\n{}: {}", path, class, rep.detail));
                break;
            }
        }
    }
    st.wall = t0.elapsed().as_secs_f64();
    crate::write_stats(a, &st);
    if st.violations > 0 {
        1
    } else if !st.harness.is_empty() {
        2
    } else {
        0
    }
}
