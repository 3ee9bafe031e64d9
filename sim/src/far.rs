//! Runs on machines this one is not: the library interpreted by Miri for
//! processors with another byte order or word size, and with threads that
//! Miri's seeded scheduler interleaves and that see memory as weakly ordered
//! as the language allows. The plan goes to the crate in ../far; what it
//! should print is worked out here.
use crate::model::{hex, Mode, Msg};
use crate::plan::{num, Plan};
use crate::rng::{hash_str, mix, Rng};
use crate::run::{Outcome, Runner};
use crate::shm::*;
use std::collections::HashMap;
use std::io::Read;
use std::process::{Command, Stdio};

/// What a run may cost, in bytes hashed (the interpreter does some 4 kB/s).
fn length(r: &mut Rng, left: &mut u64) -> u64 {
    let n = match r.below(10) {
        0 => 0,
        1..=4 => r.range(1, 70),
        5..=6 => r.range(60, 200),
        7 => *r.pick(&[63, 64, 65, 127, 128, 129, 192, 256]),
        8 => r.range(200, 2040),
        _ => 2048 * r.range(1, 2) + r.range(0, 6) - 3,
    };
    let n = n.min(*left);
    *left -= n;
    n
}

fn seed(r: &mut Rng) -> u64 {
    r.next() >> 1
}

pub fn gen(prop: &str, s: u64, ft: crate::gen::Feat) -> Plan {
    let mut r = Rng::new(mix(s, hash_str("far")));
    let mut p = Plan::new();
    p.add(format!("prop {}", prop));
    p.add("kind far".into());
    p.add(format!("seed {}", s));
    let threads = match prop {
        "C09" => r.range(2, 3),
        "C03" => r.weighted(&[(2, 0), (2, 1), (1, 2)]),
        _ => 0,
    };
    let rate = r.weighted(&[(1, 1), (2, 5), (2, 20), (1, 60)]);
    p.add(format!("miri {} {}", r.below(1 << 32), if threads > 0 { rate } else { 1 }));
    let mut left = if ft.thorough { 12_000 } else { 5_000 };
    if threads > 0 {
        left = r.weighted(&[(6, 600), (3, 2_000), (1, 7_000)]);
    }
    if prop == "C03" {
        // one-shot calls, on the pool and at the same time from several threads
        for k in 0..threads.max(1) {
            if threads > 0 && k == 0 {
                p.add(format!("0 fork {}", threads));
            }
            for _ in 0..r.weighted(&[(3, 1), (1, 2)]) {
                let n = (2048 * r.range(1, 4 - threads) + r.pick(&[0, 1, 3, 600, 2046, 2047])).min(9000);
                p.add(format!("{} one {} {} {} {} {}", if threads > 0 { k + 1 } else { 0 }, r.below(3), seed(&mut r), seed(&mut r), n, r.below(2)));
            }
        }
        return p;
    }
    let mut used = [false; 4];
    let mut base = [false; 4];
    let nk = r.range(1, 3);
    let keys: Vec<u64> = (0..nk).map(|_| seed(&mut r)).collect();
    // before any threads there are
    let n = if threads > 0 { r.below(6) } else { r.range(4, 16) };
    for i in 0..n {
        ops(&mut r, &mut p, 0, &mut base, &[false; 4], &keys, &mut left, if i == 0 { 100 } else { 15 });
    }
    if threads > 0 {
        p.add(format!("0 fork {}", threads));
        let mut per: Vec<(u64, [bool; 4])> = (1..=threads).map(|t| (t, if t == 1 { base } else { used })).collect();
        for _ in 0..threads * r.range(2, 6) {
            let k = r.below(threads) as usize;
            let (t, slots) = &mut per[k];
            ops(&mut r, &mut p, *t, slots, &base, &keys, &mut left, 30);
        }
        used = base;
    }
    let _ = used;
    p
}

fn ops(r: &mut Rng, p: &mut Plan, t: u64, mine: &mut [bool; 4], shared: &[bool; 4], keys: &[u64], left: &mut u64, newp: u64) {
    let have: Vec<usize> = (0..4).filter(|&i| mine[i]).collect();
    let there: Vec<usize> = (0..4).filter(|&i| shared[i]).collect();
    if t > 0 && !there.is_empty() && r.pct(40) {
        let s = *r.pick(&there);
        if r.pct(60) {
            p.add(format!("{} sfin {} {}", t, s, r.below(3)));
        } else {
            let d = r.below(4) as usize;
            mine[d] = true;
            p.add(format!("{} sclone {} {}", t, s, d));
        }
        return;
    }
    if have.is_empty() || r.pct(newp) {
        match if p.str("prop") == "C14" && r.pct(80) { 9 } else { r.below(10) } {
            0..=5 => {
                let d = r.below(4) as usize;
                mine[d] = true;
                p.add(format!("{} new {} {} {}", t, d, r.below(3), r.pick(keys)));
                if r.pct(70) {
                    let n = length(r, left);
                    p.add(format!("{} upd {} {} {} {}", t, d, seed(r), n, r.below(2)));
                    p.add(format!("{} fin {}", t, d));
                }
            }
            6..=8 => {
                let n = length(r, left);
                p.add(format!("{} one {} {} {} {} {}", t, r.below(3), r.pick(keys), seed(r), n, r.below(3)));
            }
            _ => {
                let n = length(r, left);
                p.add(format!("{} ref {} {} {} {} {} {}", t, r.below(3), r.pick(keys), seed(r), n, r.range(0, 100), r.range(1, 90).max(n / 8)));
            }
        }
        return;
    }
    let s = *r.pick(&have);
    match r.below(12) {
        0..=3 => {
            let n = length(r, left);
            let how = match r.below(4) {
                0 => 0,
                1 => 1,
                _ => r.range(2, 100).max(n / 16),
            };
            p.add(format!("{} upd {} {} {} {}", t, s, seed(r), n, how));
        }
        4 => {
            let n = length(r, left);
            p.add(format!("{} copy {} {} {} {} {}", t, s, seed(r), n, r.range(1, 300).max(n / 8), *r.pick(&[0, 2, 3, 5])));
        }
        5..=7 => p.add(format!("{} fin {}", t, s)),
        8 => p.add(format!("{} xof {} {}", t, s, r.range(1, 3))),
        9..=10 => {
            let d = r.below(4) as usize;
            mine[d] = true;
            p.add(format!("{} clone {} {}", t, s, d));
        }
        _ => p.add(format!("{} sleep {}", t, r.range(1, 5))),
    }
}

fn bytes(seed: u64, len: u64) -> Vec<u8> {
    let mut v = vec![0; len as usize];
    Rng::new(seed).fill(&mut v);
    v
}

fn key(seed: u64) -> [u8; 32] {
    let mut k = [0; 32];
    Rng::new(seed).fill(&mut k);
    k
}

fn mode(n: u64) -> Mode {
    Mode::parse(["hash", "keyed", "derive"][n.min(2) as usize])
}

fn stream(m: &Msg, blocks: u64) -> String {
    hex(&m.root().xof(if blocks == 0 { 32 } else { 64 * blocks as usize }))
}

/// The lines the run must print: (thread, number of the operation) -> bytes.
fn expected(ops: &[Vec<String>]) -> HashMap<(u64, u64), String> {
    let mut out = HashMap::new();
    let fork = ops.iter().position(|o| o[1] == "fork").unwrap_or(ops.len());
    let none = || -> Vec<Option<Msg>> { vec![None, None, None, None] };
    let mut shared = none();
    let mut slots: HashMap<u64, Vec<Option<Msg>>> = HashMap::new();
    for (i, op) in ops.iter().enumerate() {
        let t = num(op, 0);
        if i == fork {
            shared = slots.entry(0).or_insert_with(none).clone();
            let first = shared.clone();
            slots.insert(1, first);
            continue;
        }
        // the clients exist only after the fork, the main thread's work is before it
        if (t == 0) != (i < fork) || (t > 0 && t > num(&ops[fork], 2)) {
            continue;
        }
        let mine = slots.entry(t).or_insert_with(none);
        let s = num(op, 2) as usize % 4;
        let d = num(op, 3) as usize % 4;
        let at = (t, i as u64);
        match op[1].as_str() {
            "new" => mine[s] = Some(Msg::new(mode(num(op, 3)), key(num(op, 4)))),
            "upd" | "copy" => {
                if let Some(m) = mine[s].as_mut() {
                    m.push(&bytes(num(op, 3), num(op, 4)));
                }
            }
            "fin" => {
                if let Some(m) = &mine[s] {
                    out.insert(at, stream(m, 0));
                }
            }
            "xof" => {
                if let Some(m) = &mine[s] {
                    out.insert(at, stream(m, num(op, 3)));
                }
            }
            "clone" => mine[d] = mine[s].clone(),
            "sfin" => {
                if let Some(m) = &shared[s] {
                    out.insert(at, stream(m, num(op, 3)));
                }
            }
            "sclone" => mine[d] = shared[s].clone(),
            "one" => {
                let m = Msg::of(mode(num(op, 2)), key(num(op, 3)), &bytes(num(op, 4), num(op, 5)));
                out.insert(at, stream(&m, num(op, 6)));
            }
            "ref" => {
                let m = Msg::of(mode(num(op, 2)), key(num(op, 3)), &bytes(num(op, 4), num(op, 5)));
                out.insert(at, hex(&m.root().xof(num(op, 6) as usize)));
            }
            _ => {}
        }
    }
    out
}

const HEAD: [&str; 7] = ["prop", "kind", "seed", "miri", "variant", "expect", "trace"];

pub fn run(r: &Runner, p: &Plan) -> Outcome {
    let s = r.region.get();
    let ops: Vec<Vec<String>> = p.lines.iter().filter(|l| !HEAD.contains(&l[0].as_str()) && l.len() > 1).cloned().collect();
    let m = p.get("miri").cloned().unwrap_or_default();
    let text: String = ops.iter().map(|l| l.join(" ") + "\n").collect();
    let child = Command::new("timeout")
        .args(["-k", "5", "240", &r.cli, &num(&m, 1).to_string(), &num(&m, 2).to_string(), &text])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn();
    let Ok(mut child) = child else {
        return Outcome::Harness("could not start the interpreter".into());
    };
    let (mut out, mut err) = (String::new(), vec![]);
    let mut e = child.stderr.take().unwrap();
    let reader = std::thread::spawn(move || {
        let _ = e.read_to_end(&mut err);
        String::from_utf8_lossy(&err).into_owned()
    });
    let _ = child.stdout.take().unwrap().read_to_string(&mut out);
    let err = reader.join().unwrap_or_default();
    let code = child.wait().ok().and_then(|c| c.code()).unwrap_or(-1);
    if r.show {
        println!("{}{}", out, err);
    }
    let v = |c: &str, d: String| Outcome::Violation { class: c.into(), detail: d };
    let want = expected(&ops);
    let mut got = 0;
    let mut order: Vec<(u64, u64)> = vec![];
    for l in out.lines().filter(|l| *l != "done") {
        let f: Vec<String> = l.split_whitespace().map(|t| t.to_string()).collect();
        let at = (num(&f, 0), num(&f, 1));
        let hex = f.get(3).map(|x| x.as_str()).unwrap_or("");
        s.cnt[C_CHECKS] += 1;
        s.trace_hash = mix(s.trace_hash, hash_str(l));
        order.push((num(&f, 2), at.0));
        got += 1;
        if want.get(&at).map(|w| w.as_str()) != Some(hex) {
            return v("digest", format!("operation {} of thread {} ({}) gave {}, the model has {}", at.1, at.0,
                ops.get(at.1 as usize).map(|o| o.join(" ")).unwrap_or_default(), hex, want.get(&at).cloned().unwrap_or_default()));
        }
    }
    order.sort_unstable();
    for (k, (_, t)) in order.iter().enumerate() {
        if k > 0 && order[k - 1].1 != *t {
            s.cnt[0] += 1;
        }
        s.sched_hash = mix(s.sched_hash, *t);
    }
    s.cnt[C_BYTES] += ops.iter().map(|o| if ["upd", "copy"].contains(&o[1].as_str()) { num(o, 4) } else if o[1] == "one" || o[1] == "ref" { num(o, 5) } else { 0 }).sum::<u64>();
    s.cnt[C_ONESHOT] += ops.iter().filter(|o| o[1] == "one").count() as u64;
    s.n_threads = 1 + ops.iter().find(|o| o[1] == "fork").map_or(0, |o| num(o, 2)) as u32;
    if out.ends_with("done\n") && code == 0 {
        if got != want.len() {
            return v("digest", format!("{} results instead of {}", got, want.len()));
        }
        return Outcome::Ok;
    }
    let first = err.lines().find(|l| l.starts_with("error")).unwrap_or("").to_string();
    if first.contains("Data race detected") {
        // the thread pool's own are no concern of ours
        let place = err.lines().skip_while(|l| !l.starts_with("error")).find(|l| l.contains("-->")).unwrap_or("").trim();
        if !place.contains("/.cargo/") {
            return v("data race", format!("{} {}", first, place));
        }
    }
    if first.contains("deadlock") {
        return v("deadlock", first);
    }
    if let Some(l) = err.lines().find(|l| l.contains("panicked at")) {
        let what = err.lines().skip_while(|x| *x != l).nth(1).unwrap_or("");
        return v("panic", format!("{} {}", l, what));
    }
    // what the interpreter cannot do, or not in time, says nothing
    s.cnt[C_FARSKIP] += 1;
    Outcome::Ok
}
