//! Seed -> plan. Swarm style: every run draws its own sizes, workload mix,
//! fault kinds, CPU level, pool size and scheduling strategy.
use crate::plan::Plan;
use crate::rng::{hash_str, mix, Rng};

/// What the binary running the plan was built with.
#[derive(Clone, Copy)]
pub struct Feat {
    pub c: bool,
    pub par: bool,
    pub thorough: bool,
    /// for the command
    pub cli: bool,
    /// for the interpreter
    pub far: bool,
}

pub fn feat() -> Feat {
    Feat { c: cfg!(feature = "c_portable"), par: cfg!(feature = "par"), thorough: false, cli: false, far: false }
}

#[derive(Clone, Default)]
struct W {
    new: u64,
    feed: u64,
    cw: u64,
    ioc: u64,
    fin: u64,
    xof: u64,
    rd: u64,
    oclone: u64,
    clone: u64,
    restore: u64,
    drop: u64,
    one: u64,
    par: u64,
    copy: u64,
    hand: u64,
    share: u64,
    cpu: u64,
    pause: u64,
    dbg: u64,
    hval: u64,
    cteq: u64,
}

struct G<'a> {
    r: Rng,
    p: Plan,
    kinds: Vec<&'a str>,
    src_len: Vec<u64>,
    nkeys: u64,
    npools: u64,
    fatal: u64,
    w: W,
    bytes: u64,
    max_piece: u64,
    guard_bias: u64,
    large: bool,
}

pub fn length(r: &mut Rng, max: u64) -> u64 {
    let n = match r.weighted(&[(20, 0), (12, 1), (38, 2), (12, 3), (18, 4)]) {
        0 => r.below(131),
        1 => (64 * r.range(1, 40) + r.below(3)).saturating_sub(1),
        2 => {
            let k = match r.below(6) {
                0 => r.range(1, 3),
                1 => r.range(3, 10),
                2 => r.range(14, 18),
                3 => r.range(30, 34),
                4 => r.range(1, 64),
                _ => 8 * r.range(1, 8),
            };
            let d = *r.pick(&[0i64, 0, 0, -1, 1, 1, 2, 63, 64, 65, -64, 1024]);
            let d = if r.pct(20) { r.below(2048) as i64 } else { d };
            (2048 * k as i64 + d) as u64
        }
        3 => {
            let j = r.below(8);
            let d = *r.pick(&[0i64, 0, -1, 1, 2048, -2048, 64, 2049]);
            ((2048i64 << j) + d).max(0) as u64
        }
        _ => r.below(max + 1),
    };
    n.min(max)
}

fn place(r: &mut Rng, bias: u64) -> String {
    if r.pct(35 - bias.min(35)) {
        return "p".into();
    }
    match r.below(6) {
        0 | 1 => "e0".into(),
        2 => format!("e{}", r.range(1, 64)),
        3 => "s0".into(),
        4 => format!("s{}", r.range(1, 64)),
        _ => format!("m{}", r.below(65)),
    }
}

fn piece(r: &mut Rng) -> u64 {
    match r.below(7) {
        0 => r.range(1, 3),
        1 => r.range(1, 70),
        2 => r.range(60, 68),
        3 => r.range(2040, 2056),
        4 => r.range(1, 5000),
        5 => 2048 * r.range(1, 8),
        _ => r.range(8000, 17000),
    }
}

/// Reader script. Fatal events are placed after some delivered data more often
/// than not.
pub fn rscript(r: &mut Rng, fatal_pct: u64, storms: bool) -> String {
    let n = match r.below(4) {
        0 => 0,
        1 => r.range(1, 4),
        2 => r.range(2, 8),
        _ => r.range(5, 24),
    };
    let eintr = r.pct(60);
    let scrib = r.pct(40);
    let delay = r.pct(25);
    let mut t: Vec<String> = Vec::new();
    for _ in 0..n {
        let x = r.below(10);
        if x < 2 && eintr {
            let k = if storms && r.pct(10) { r.range(10, 300) } else if r.pct(20) { r.range(2, 6) } else { 1 };
            t.push(format!("i{}", k));
        } else if x == 2 && delay {
            t.push(format!("t{}", r.range(1, 1_000_000)));
        } else if x < 5 && scrib {
            t.push(format!("j{}", piece(r)));
        } else {
            t.push(format!("d{}", piece(r)));
        }
    }
    if r.pct(fatal_pct) {
        let f = match r.below(8) {
            0 => "w".to_string(),
            1 => "x".to_string(),
            2 => "f".to_string(),
            _ => format!("e{}", if r.pct(60) { r.below(14) } else { r.below(66) }),
        };
        let at = r.range(t.len() as u64 / 2, t.len() as u64) as usize;
        t.insert(at, f);
        t.truncate(at + 1 + r.below(3) as usize);
    }
    if t.is_empty() {
        "-".into()
    } else {
        t.join(",")
    }
}

pub fn wscript(r: &mut Rng, fatal_pct: u64) -> String {
    let n = match r.below(3) {
        0 => 0,
        1 => r.range(1, 5),
        _ => r.range(3, 24),
    };
    let eintr = r.pct(60);
    let mut t: Vec<String> = Vec::new();
    for _ in 0..n {
        let x = r.below(10);
        if x < 2 && eintr {
            t.push(format!("i{}", if r.pct(15) { r.range(2, 50) } else { 1 }));
        } else if x == 2 {
            t.push(format!("t{}", r.range(1, 100_000)));
        } else {
            t.push(format!("a{}", piece(r)));
        }
    }
    if r.pct(fatal_pct) {
        let f = match r.below(6) {
            0 => "z".to_string(),
            1 => "x".to_string(),
            2 => "w".to_string(),
            _ => format!("e{}", if r.pct(60) { r.below(14) } else { r.below(66) }),
        };
        let at = r.range(t.len() as u64 / 2, t.len() as u64) as usize;
        t.insert(at, f);
    }
    if t.is_empty() {
        "-".into()
    } else {
        t.join(",")
    }
}

pub fn pat(r: &mut Rng) -> &'static str {
    r.weighted(&[(55, "rand"), (10, "zero"), (10, "ff"), (10, "ctr"), (8, "w32"), (7, "sparse")])
}
pub fn keykind(r: &mut Rng) -> &'static str {
    r.weighted(&[(60, "rand"), (10, "zero"), (10, "ff"), (8, "iv"), (12, "ctr")])
}
pub fn mode(r: &mut Rng) -> &'static str {
    r.weighted(&[(40, "hash"), (32, "keyed"), (28, "derive")])
}

pub fn sched(r: &mut Rng, ticks: u64) -> String {
    let spur = if r.pct(30) { r.range(1, 200) } else { 0 };
    match r.below(10) {
        0..=4 => {
            // keep the number of context switches bounded
            let q = *r.pick(&[3u64, 12, 60, 300, 2000, 15000]);
            let q = q.max(ticks / 4000);
            format!("sched rnd {} {} {}", r.next() >> 16, q, spur)
        }
        5..=7 => format!("sched pct {} {} {} {}", r.next() >> 16, r.range(1, 8), ticks, spur),
        8 => format!("sched starve {} {} {}", r.next() >> 16, r.pick(&[50u64, 500, 5000]).max(&(ticks / 4000)), spur),
        _ => format!("sched block {} {}", r.next() >> 16, spur),
    }
}

impl G<'_> {
    fn slice(&mut self, max: u64) -> (u64, u64, u64) {
        let b = self.r.below(self.src_len.len() as u64);
        let total = self.src_len[b as usize];
        let n = length(&mut self.r, max.min(total));
        let off = if self.r.pct(40) { 0 } else { self.r.below(total - n + 1) };
        (b, off, n)
    }

    /// Ops for one thread.
    fn ops(&mut self, n: u64, budget: u64, cpu_max: u64) -> Vec<String> {
        let mut out = Vec::new();
        let mut w = self.w.clone();
        // swarm: leave out a random subset of the optional operations
        for f in [
            &mut w.ioc, &mut w.cw, &mut w.clone, &mut w.restore, &mut w.drop, &mut w.xof, &mut w.oclone, &mut w.one,
            &mut w.par, &mut w.hand, &mut w.share, &mut w.cpu, &mut w.pause, &mut w.fin,
        ] {
            if self.r.pct(25) {
                *f = 0;
            }
        }
        let mut live: Vec<u64> = vec![];
        let mut olive: Vec<u64> = vec![];
        let mut left = budget;
        // a few fixed feed sizes make long trains of equal writes
        let train = length(&mut self.r, self.max_piece.max(1));
        let nslots = self.r.range(1, 5);
        let mut i = 0;
        while i < n {
            i += 1;
            let mut table: Vec<(u64, u32)> = vec![
                (w.new, 0), (w.feed, 1), (w.cw, 2), (w.ioc, 3), (w.fin, 4), (w.xof, 5), (w.rd, 6), (w.oclone, 7),
                (w.clone, 8), (w.restore, 9), (w.drop, 10), (w.one, 11), (w.par, 12), (w.copy, 13), (w.hand, 14),
                (w.share, 15), (w.cpu, 16), (w.pause, 17),
                (w.dbg, 18), (w.hval, 19), (w.cteq, 20),
            ];
            if live.is_empty() {
                for t in table.iter_mut() {
                    if [1, 2, 3, 4, 5, 8, 9, 10, 18, 19, 20].contains(&t.1) {
                        t.0 = 0;
                    }
                }
                if w.feed > 0 {
                    table[0].0 += 20;
                }
            }
            if olive.is_empty() {
                table[6].0 = 0;
                table[7].0 = 0;
            }
            let op = self.r.weighted(&table);
            let pick = |r: &mut Rng, v: &Vec<u64>| if v.is_empty() { 0 } else { *r.pick(v) };
            match op {
                0 => {
                    let s = self.r.below(nslots);
                    let kind = *self.r.pick(&self.kinds.clone());
                    let m = mode(&mut self.r);
                    out.push(format!("new {} {} {} {}", s, kind, m, self.r.below(self.nkeys)));
                    if !live.contains(&s) {
                        live.push(s);
                    }
                }
                1 => {
                    let s = pick(&mut self.r, &live);
                    let (b, off, mut n) = self.slice(self.max_piece.min(left));
                    let reps = if self.r.pct(8) { self.r.range(2, 20) } else { 1 };
                    if reps > 1 {
                        n = n.min(train).min(left / reps);
                    }
                    for k in 0..reps {
                        let op = self.r.weighted(&[(54, "upd"), (17, "wr"), (17, "wall"), (10, "wv"), (2, "wf")]);
                        let n = if op == "wf" { n.min(3000) } else { n };
                        let pl = place(&mut self.r, self.guard_bias);
                        let total = self.src_len[b as usize];
                        let o = if total > n { (off + k * n) % (total - n + 1) } else { 0 };
                        out.push(format!("{} {} {} {} {} {}", op, s, b, o, n, pl));
                        left = left.saturating_sub(n);
                        self.bytes += n;
                    }
                }
                2 | 3 => {
                    let s = pick(&mut self.r, &live);
                    let (b, off, n) = self.slice((3 * self.max_piece).min(left));
                    let sc = rscript(&mut self.r, self.fatal, true);
                    out.push(format!("{} {} {} {} {} {}", if op == 2 { "cw" } else { "ioc" }, s, b, off, n, sc));
                    left = left.saturating_sub(n);
                    self.bytes += n;
                }
                4 => {
                    let s = pick(&mut self.r, &live);
                    if self.kinds.contains(&"ref") {
                        let n = if self.r.pct(50) { 32 } else { length(&mut self.r, 300) };
                        let pl = place(&mut self.r, 35);
                        out.push(format!("fin {} {} {}", s, n, pl));
                    } else {
                        out.push(format!("fin {}", s));
                    }
                }
                5 => {
                    let s = pick(&mut self.r, &live);
                    let o = self.r.below(6);
                    out.push(format!("xof {} {}", o, s));
                    if !olive.contains(&o) {
                        olive.push(o);
                    }
                    if self.r.pct(30) {
                        out.push(format!("ohash {}", o));
                    }
                }
                6 => {
                    let o = pick(&mut self.r, &olive);
                    let n = if self.r.pct(85) { self.r.range(1, 5) } else { self.r.range(5, 80) };
                    out.push(format!("rd {} {}", o, n));
                }
                7 => {
                    let o = pick(&mut self.r, &olive);
                    let d = self.r.below(6);
                    let op = if self.r.pct(20) { "oclonef" } else { "oclone" };
                    out.push(format!("{} {} {}", op, d, o));
                    if op == "oclone" && !olive.contains(&d) {
                        olive.push(d);
                    }
                    if self.r.pct(20) {
                        out.push(format!("odrop {}", o));
                    }
                }
                8 => {
                    let s = pick(&mut self.r, &live);
                    let d = self.r.below(nslots + 2);
                    let op = if self.r.pct(20) { "clonef" } else { "clone" };
                    out.push(format!("{} {} {}", op, d, s));
                    if op == "clone" && !live.contains(&d) {
                        live.push(d);
                    }
                }
                9 => {
                    let s = pick(&mut self.r, &live);
                    let d = pick(&mut self.r, &live);
                    if s != d {
                        out.push(format!("restore {} {}", d, s));
                    }
                }
                10 => {
                    let s = pick(&mut self.r, &live);
                    if live.len() > 1 {
                        live.retain(|x| *x != s);
                        out.push(format!("drop {}", s));
                    }
                }
                11 => {
                    let (b, off, n) = self.slice((4 * self.max_piece).min(left.max(300)));
                    let pool = if self.npools > 0 && self.r.pct(30) { self.r.range(1, self.npools) } else { 0 };
                    let blocks = if self.r.pct(25) { self.r.range(1, 4) } else { 0 };
                    let pl = place(&mut self.r, self.guard_bias);
                    let m = mode(&mut self.r);
                    out.push(format!("one {} {} {} {} {} {} {} {}", m, self.r.below(self.nkeys), b, off, n, pl, pool, blocks));
                    left = left.saturating_sub(n);
                    self.bytes += n;
                }
                12 => {
                    let (b, off, mut n) = self.slice((self.max_piece).min(left.max(300)));
                    if self.large && self.r.pct(60) {
                        n = (self.src_len[b as usize] - off).min(self.max_piece);
                    }
                    let pool = if self.npools > 0 && self.r.pct(50) { self.r.range(1, self.npools) } else { 0 };
                    let m = mode(&mut self.r);
                    let jobs = self.r.range(2, 5);
                    out.push(format!("par {} {} {} {} {} {} {}", jobs, pool, m, self.r.below(self.nkeys), b, off, n));
                    left = left.saturating_sub(n * jobs);
                    self.bytes += n * jobs;
                }
                13 => {
                    let (b, off, n) = self.slice((4 * self.max_piece).min(left));
                    let f = self.fatal;
                    let rs = rscript(&mut self.r, f, true);
                    let ws = wscript(&mut self.r, f);
                    out.push(format!("copy {} {} {} {} {}", b, off, n, rs, ws));
                    left = left.saturating_sub(n);
                    self.bytes += n;
                }
                14 => match self.r.below(6) {
                    0 | 1 => {
                        let s = pick(&mut self.r, &live);
                        live.retain(|x| *x != s);
                        out.push(format!("put {} {}", s, self.r.below(4)));
                    }
                    2 | 3 => {
                        let s = self.r.below(nslots);
                        if !live.contains(&s) {
                            live.push(s);
                        }
                        out.push(format!("take {} {}", s, self.r.below(4)));
                    }
                    4 => {
                        let o = pick(&mut self.r, &olive);
                        out.push(format!("oput {} {}", o, self.r.below(3)));
                    }
                    _ => {
                        let o = self.r.below(6);
                        if !olive.contains(&o) {
                            olive.push(o);
                        }
                        out.push(format!("otake {} {}", o, self.r.below(3)));
                    }
                },
                15 => match self.r.below(4) {
                    0 | 1 => out.push(format!("sfin {}", self.r.below(3))),
                    2 => {
                        let s = self.r.below(nslots);
                        if !live.contains(&s) {
                            live.push(s);
                        }
                        out.push(format!("sclone {} {}", s, self.r.below(3)));
                    }
                    _ => {
                        let o = self.r.below(6);
                        if !olive.contains(&o) {
                            olive.push(o);
                        }
                        out.push(format!("sxof {} {}", o, self.r.below(3)));
                    }
                },
                18 => {
                    if !olive.is_empty() && self.r.pct(40) {
                        out.push(format!("odbg {}", pick(&mut self.r, &olive)));
                    } else {
                        out.push(format!("dbg {}", pick(&mut self.r, &live)));
                    }
                }
                19 | 20 => {
                    let s = pick(&mut self.r, &live);
                    out.push(format!("{} {} {}", if op == 19 { "hval" } else { "cteq" }, s, self.r.below(1 << 30)));
                }
                16 => out.push(format!("cpu {}", self.r.below(cpu_max + 1))),
                _ => {
                    if self.r.pct(50) {
                        out.push("yld".into());
                    } else {
                        out.push(format!("slp {}", self.r.range(1, 100_000)));
                    }
                }
            }
        }
        for s in live {
            out.push(format!("fin {}", s));
        }
        for o in olive {
            out.push(format!("rd {} 1", o));
        }
        out
    }
}

fn base_w() -> W {
    W { new: 6, feed: 50, ..W::default() }
}

/// Long lives: the same small histories many times over in one process.
fn cycles(prop: &str, seed: u64, ft: Feat, r: &mut Rng) -> Plan {
    let mut p = Plan::new();
    p.add("plan v1".into());
    p.add(format!("prop {}", prop));
    p.add("kind lib".into());
    p.add(format!("seed {}", seed));
    p.add(format!("cpu {}", r.weighted(&[(35, 2), (33, 1), (32, 0)])));
    p.add(format!("key 0 {} {}", keykind(r), r.below(1 << 20)));
    let kind = match prop {
        "C05" => "c",
        "C14" => "ref",
        "C23" if ft.c => r.weighted(&[(80, "c"), (20, "rust")]),
        "C23" => r.weighted(&[(80, "rust"), (20, "ref")]),
        "C09" if ft.c => r.weighted(&[(60, "c"), (40, "rust")]),
        _ => "rust",
    };
    let rust = kind == "rust";
    let what = match prop {
        "C03" => "one",
        "C09" | "C05" | "C14" => r.weighted(&[(70, "hist"), (30, "feed")]),
        "C23" => r.weighted(&[
            (34, "hist"),
            (14, "feed"),
            (12, "threads"),
            (if rust { 24 } else { 0 }, "one"),
            (if rust && !ft.c { 4 } else { 0 }, "big"),
            (if rust { 5 } else { 0 }, "xof"),
            (if rust { 10 } else { 0 }, "copy"),
        ]),
        _ => r.weighted(&[(60, "hist"), (20, "feed"), (10, "xof"), (10, "threads")]),
    };
    let max = r.weighted(&[(25, 60u64), (25, 3000), (40, 20_000), (10, 70_000)]);
    let small = if max <= 60 { 8 } else { 1 };
    let scale = if ft.thorough { 4 } else { 1 };
    let fine = if option_env!("SIM_FINE").is_some() { 10 } else { 1 };
    let (n, max) = match what {
        "threads" => (r.range(300, 1000), max),
        "big" => (r.range(1, 2), r.range(4 << 20, 60 << 20)),
        "xof" => (scale * r.range(2000, 200_000), max),
        "copy" => (scale * r.range(6 << 20, 40 << 20), max),
        _ if r.below(20) == 0 => (66_000, 40),
        _ => (scale * small * r.range(1200, 4000), max),
    };
    let n = if what == "big" { n } else { n / fine };
    let mode = mode(r);
    let ones = rust && matches!(what, "threads" | "hist") && r.pct(40);
    let pool = if ft.par && (what == "one" || what == "big" || ones) { r.range(1, 6) } else { 0 };
    if pool > 0 {
        p.add(format!("pool {}", pool));
        p.add(format!("xpool {}", r.range(1, 4)));
    }
    let s = sched(r, 100 * n);
    p.add(if pool > 0 || what == "threads" || prop == "C09" { s } else { "sched list".into() });
    p.add("maxticks 400000000000".into());
    p.add("client main".into());
    let key_or = |r: &mut Rng, kind: &str, n: u64| {
        let kind = if what == "copy" && r.pct(30) { "sink" } else { kind };
        format!("cyc {} {} {} {} 0 {} {} {}", n, what, kind, mode, r.below(1 << 20), max, if matches!(what, "threads" | "hist") { ones as u64 } else { r.below(2) })
    };
    if prop == "C09" {
        for t in 0..r.range(2, 3) {
            p.add(format!("client {}", t));
            let n = (n / 20).max(20);
            p.add(key_or(r, kind, n));
        }
    } else {
        p.add(key_or(r, kind, n));
    }
    p
}

pub fn gen(prop: &str, seed: u64, ft: Feat) -> Plan {
    if ft.far {
        return crate::far::gen(prop, seed, ft);
    }
    let mut r = Rng::new(mix(seed, hash_str(prop)));
    if let Some(p) = crate::gencli::gen(prop, seed, &mut r, ft.cli) {
        return p;
    }
    let long = match prop {
        "C23" => true,
        "C01" | "C02" | "C05" | "C14" => r.below(400) == 0,
        "C03" => ft.par && r.below(300) == 0,
        "C09" => r.below(40) == 0,
        _ => false,
    };
    if long {
        return cycles(prop, seed, ft, &mut r);
    }
    let mut w = base_w();
    let mut kinds: Vec<&str> = vec!["rust"];
    let mut threads = 0; // client threads besides main
    let mut pool = 0u64;
    let mut xpools = 0u64;
    let mut fatal = 0;
    let mut nops = r.range(4, 30);
    let mut budget = r.weighted(&[(25, 6_000u64), (40, 60_000), (28, 260_000), (7, 1_200_000)]);
    let mut max_piece = r.weighted(&[(15, 200u64), (20, 3_000), (40, 40_000), (25, 140_000)]);
    let mut guard_bias = 0;
    let mut cpu_changes = false;
    match prop {
        "C01" => {
            w.cw = 14;
            w.ioc = 6;
            w.fin = 8;
            w.xof = 2;
            w.rd = 3;
            fatal = 10;
            nops = r.range(3, 40);
        }
        "C02" => {
            w.fin = 25;
            w.xof = 8;
            w.rd = 8;
            w.oclone = 2;
            w.clone = 16;
            w.restore = 8;
            w.drop = 5;
            w.cw = 5;
            fatal = 20;
            nops = r.range(6, 50);
        }
        "C03" => {
            w.new = 1;
            w.feed = if r.pct(30) { 6 } else { 0 };
            w.one = 50;
            w.par = 15;
            w.pause = 5;
            pool = if r.pct(3) { r.range(7, 24) } else { r.range(1, 6) };
            xpools = r.below(3);
            threads = if r.pct(55) { r.range(1, 3) } else { 0 };
            nops = r.range(1, 6);
            max_piece = r.weighted(&[(30, 12_000u64), (50, 40_000), (20, 200_000)]);
        }
        "C04" => {
            w.one = 25;
            w.par = 2;
            w.fin = 15;
            w.clone = 5;
            w.xof = 5;
            w.rd = 6;
            w.cw = 5;
            w.cpu = if r.pct(50) { 15 } else { 0 };
            cpu_changes = true;
            pool = r.range(1, 3);
            nops = r.range(4, 25);
        }
        "C05" => {
            kinds = vec!["c"];
            w.fin = 20;
            w.clone = 10;
            w.restore = 5;
            w.drop = 3;
            nops = r.range(4, 50);
            threads = if r.pct(15) { 2 } else { 0 };
            if r.pct(20) {
                kinds.push("rust");
            }
        }
        "C06" => {
            w.feed = 25;
            w.fin = 5;
            w.xof = 20;
            w.rd = 40;
            w.oclone = 18;
            w.clone = 4;
            w.one = 8;
            w.hand = if r.pct(40) { 8 } else { 0 };
            threads = if w.hand > 0 { r.range(1, 3) } else { 0 };
            pool = r.range(1, 2);
            nops = r.range(8, 50);
            budget = budget.min(260_000);
        }
        "C07" => {
            w = W { copy: 50, ..W::default() };
            fatal = if r.pct(70) { 60 } else { 0 };
            nops = r.range(1, 8);
            threads = if r.pct(15) { 2 } else { 0 };
            max_piece = r.weighted(&[(30, 3_000u64), (40, 20_000), (30, 60_000)]);
        }
        "C08" => {
            w.feed = 8;
            w.cw = 45;
            w.ioc = if r.pct(20) { 5 } else { 0 };
            w.fin = 10;
            w.clone = 15;
            w.restore = 15;
            w.drop = 2;
            fatal = 65;
            nops = r.range(4, 30);
        }
        "C09" => {
            w.fin = 15;
            w.xof = 6;
            w.rd = 10;
            w.clone = 8;
            w.one = 8;
            w.hand = 10;
            w.share = 12;
            w.cw = 6;
            w.cpu = if r.pct(15) { 3 } else { 0 };
            w.pause = 4;
            threads = r.range(2, 4);
            pool = r.range(1, 3);
            nops = r.range(3, 14);
            budget = r.weighted(&[(40, 6_000u64), (50, 50_000), (10, 150_000)]);
            if ft.c {
                kinds.push("c");
                kinds.push("c");
            }
            if r.pct(20) {
                kinds.push("ref");
            }
        }
        "C10" | "C24" => {
            w.fin = 10;
            w.clone = 5;
            w.one = 30;
            w.xof = 3;
            w.rd = 5;
            w.copy = 4;
            w.cw = 5;
            guard_bias = if prop == "C24" { 90 } else { 35 };
            pool = r.range(1, 2);
            cpu_changes = r.pct(20);
            w.cpu = if cpu_changes { 5 } else { 0 };
            if ft.c {
                kinds = vec!["c", "c", "rust"];
            } else if r.pct(20) {
                kinds.push("ref");
            }
        }
        "C14" => {
            kinds = vec!["ref"];
            w.fin = 22;
            nops = r.range(4, 50);
            if r.pct(20) {
                kinds.push("rust");
            }
            budget = budget.min(260_000);
        }
        "C15" => {
            w.cw = 15;
            w.copy = 15;
            w.one = 25;
            w.par = 20;
            w.fin = 10;
            w.pause = 5;
            w.hand = 4;
            fatal = 30;
            pool = if r.pct(40) { 1 } else if r.pct(4) { r.range(7, 24) } else { r.range(1, 6) };
            xpools = r.below(3);
            threads = r.below(4);
            nops = r.range(1, 10);
        }
        "C17" => {
            w.feed = 25;
            w.cteq = 40;
            w.clone = 5;
            max_piece = max_piece.min(3000);
        }
        "C18" => {
            w.dbg = 40;
            w.fin = 8;
            w.xof = 12;
            w.rd = 15;
            w.oclone = 6;
            w.clone = 10;
            w.restore = 6;
            w.cw = 12;
            fatal = 20;
            w.hand = 8;
            threads = if r.pct(40) { r.range(1, 3) } else { 0 };
        }
        "C22" => {
            w.feed = 25;
            w.hval = 40;
            w.clone = 5;
            w.hand = 5;
            threads = if r.pct(30) { r.range(1, 3) } else { 0 };
            max_piece = max_piece.min(20_000);
        }
        _ => {}
    }
    if !ft.par {
        w.par = 0;
        xpools = 0;
        pool = 0;
    }
    if ft.thorough && r.pct(25) {
        budget *= 4;
        nops *= 2;
    }
    max_piece = max_piece.min(budget.max(64));
    // Some runs are a few large one-shot calls, several of them at a time.
    let large = ft.par && ["C03", "C09", "C15"].contains(&prop) && r.pct(if prop == "C09" { 4 } else { 10 });
    if large {
        max_piece = r.weighted(&[(50, 400_000u64), (40, 900_000), (10, 2_200_000)]);
        budget = 6 * max_piece;
        nops = r.range(1, 4);
        w.one = 40;
        w.par = 40;
    }
    let cpu_max = 2;
    let mut p = Plan::new();
    p.add("plan v1".into());
    p.add(format!("prop {}", prop));
    p.add("kind lib".into());
    p.add(format!("seed {}", seed));
    let cpu = r.weighted(&[(35, 2), (33, 1), (32, 0)]);
    p.add(format!("cpu {}", cpu));
    let nsrc = r.range(1, 2);
    let mut src_len = vec![];
    for i in 0..nsrc {
        let n = (max_piece * 4).min(600_000).max(2000).max(max_piece);
        p.add(format!("src {} {} {} {}", i, pat(&mut r), r.below(1 << 20), n));
        src_len.push(n);
    }
    let nkeys = r.range(1, 3);
    for i in 0..nkeys {
        p.add(format!("key {} {} {}", i, keykind(&mut r), r.below(1 << 20)));
    }
    if pool > 0 {
        p.add(format!("pool {}", pool));
    }
    for _ in 0..xpools {
        p.add(format!("xpool {}", r.range(1, 4)));
    }
    let sched_at = p.lines.len();
    let mut g = G {
        r,
        p,
        kinds,
        src_len,
        nkeys,
        npools: xpools,
        fatal,
        w,
        bytes: 0,
        max_piece,
        guard_bias,
        large,
    };
    let _ = cpu_changes;
    if threads == 0 {
        let ops = g.ops(nops, budget, cpu_max);
        g.p.add("client main".into());
        for o in ops {
            g.p.add(o);
        }
    } else {
        // main prepares shared and handed-over hashers, and finishes them
        g.p.add("client main".into());
        if g.w.share > 0 || g.w.hand > 0 {
            for s in 0..3u64 {
                let kind = *g.r.pick(&g.kinds.clone());
                let m = mode(&mut g.r);
                let k = g.r.below(g.nkeys);
                g.p.add(format!("new {} {} {} {}", s, kind, m, k));
                let (b, off, n) = g.slice(g.max_piece.min(budget / 2));
                g.p.add(format!("upd {} {} {} {} p", s, b, off, n));
                g.bytes += n;
                if g.w.share > 0 && g.r.pct(75) {
                    g.p.add(format!("share {} {}", s, s));
                } else {
                    g.p.add(format!("put {} {}", s, s));
                }
            }
        }
        for t in 0..threads {
            let ops = g.ops(nops, budget / threads, cpu_max);
            g.p.add(format!("client {}", t));
            for o in ops {
                g.p.add(o);
            }
        }
        g.p.add("client epi".into());
        for s in 0..4 {
            g.p.add(format!("take 5 {}", s));
            g.p.add("fin 5".into());
            g.p.add(format!("sfin {}", s));
        }
    }
    // A generous ceiling: many times what any operation here takes.
    let est = 3000 * (threads + pool + 1) + g.bytes * if cpu == 0 { 2 } else { 1 } / 4;
    let s = sched(&mut g.r, est.max(100));
    let mut p = g.p;
    let tail = p.lines.split_off(sched_at);
    if threads > 0 || pool > 0 {
        p.add(s);
    } else {
        p.add("sched list".into());
    }
    // C15 is about work in proportion to the input.
    p.add(format!("maxticks {}", if prop == "C15" { 4_000_000 + g.bytes * 40 } else { 40_000_000 + g.bytes * 400 }));
    p.lines.extend(tail);
    p
}
