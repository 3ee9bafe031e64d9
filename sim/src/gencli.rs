//! Plans for the command.
use crate::gen;
use crate::plan::Plan;
use crate::rng::Rng;

const NAMES: [&str; 27] = [
    "a.bin", "b.bin", "data/x", "./y", "z.tar.gz", "%C3%A9t%C3%A9", "with%20space", "/abs/path/file", "0", "deadbeef",
    "x%0Ay", "bao:", "c", "very/long/name/that/goes/on/and/on/and/on/file.extension", "./-", "a%20%20b%20", "%20", "%24HOME",
    "*.txt", "~", "a=b", "%5Cx", "tab%09bed", "<inputs>", "[x]", "dir/../z", "%25s%25n",
];

const DASHED: [&str; 6] = ["-x", "--", "--help", "--length=5", "--key", "-a.bin"];

fn errno(r: &mut Rng, v: &[u64]) -> u64 {
    *r.pick(v)
}

/// Read script in the command's vocabulary: dN, eERRNO, tN.
fn rs(r: &mut Rng, fatal: bool) -> String {
    let n = match r.below(4) {
        0 => 0,
        1 => r.range(1, 4),
        2 => r.range(2, 10),
        _ => r.range(6, 40),
    };
    let eintr = r.pct(60);
    let delay = r.pct(30);
    let mut t: Vec<String> = vec![];
    for _ in 0..n {
        let x = r.below(10);
        if x < 2 && eintr {
            for _ in 0..if r.pct(15) { r.range(2, 60) } else { 1 } {
                t.push("e4".into());
            }
        } else if x == 2 && delay {
            t.push(format!("t{}", r.range(1, 5_000_000)));
        } else {
            let k = match r.below(6) {
                0 => r.range(1, 3),
                1 => r.range(1, 100),
                2 => r.range(2040, 2056),
                3 => 2048 * r.range(1, 8),
                4 => r.range(4000, 17000),
                _ => r.range(1, 3000),
            };
            t.push(format!("d{}", k));
        }
    }
    if fatal {
        let e = errno(r, &[5, 5, 11, 12, 21, 104, 110, 121, 116, 13, 1, 6, 19, 22, 32, 61, 74, 117, 123]);
        let at = r.range(t.len() as u64 / 2, t.len() as u64) as usize;
        t.insert(at, format!("e{}", e));
    }
    if t.is_empty() {
        "-".into()
    } else {
        t.join(",")
    }
}

fn ws(r: &mut Rng) -> String {
    let n = match r.below(3) {
        0 => return "-".into(),
        1 => r.range(1, 8),
        _ => r.range(4, 60),
    };
    let mut t: Vec<String> = vec![];
    for _ in 0..n {
        match r.below(8) {
            0 | 1 => t.push("e4".into()),
            2 => t.push(format!("t{}", r.range(1, 1_000_000))),
            _ => t.push(format!("d{}", r.range(1, 120))),
        }
    }
    t.join(",")
}

/// Much input, much output or many inputs (property C23).
fn much(seed: u64, r: &mut Rng) -> Plan {
    let mut p = Plan::new();
    p.add("plan v1".into());
    p.add("prop C23".into());
    p.add("kind cli".into());
    p.add(format!("seed {}", seed));
    p.add(format!("cpu {}", r.weighted(&[(60, 2), (30, 1), (10, 0)])));
    p.add(format!("threads {}", r.range(1, 5)));
    let shape = r.weighted(&[(25, 0u64), (20, 1), (20, 2), (25, 3), (10, 4)]);
    let top = r.weighted(&[(80, 12u64), (20, 60)]);
    let long = r.range(5 << 20, top << 20);
    let mut ins: Vec<String> = vec![];
    if shape == 0 {
        p.add(format!("stdin period 0 {}", long));
        if r.pct(60) {
            p.add(format!("rcap - {}", r.range(800, 70_000)));
        }
        if r.pct(40) {
            ins.push("-".into());
        }
    } else {
        p.add(format!("stdin {} {} {}", gen::pat(r), r.below(1 << 20), r.below(3000)));
    }
    p.add(format!("rs - {}", rs(r, false)));
    let mut len = None;
    match shape {
        1 | 2 => {
            // streamed or mapped
            let (kind, stat, mm) = if shape == 2 { (0, long, 0) } else if r.pct(50) { (r.range(1, 2), 0, 0) } else { (0, *r.pick(&[0, 1u64 << 63, u64::MAX]), 0) };
            p.add(format!("file a.bin {} {} 0 0 {} period 0 {}", kind, stat, mm, long));
            p.add(format!("rs a.bin {}", rs(r, false)));
            if shape == 1 && r.pct(60) {
                p.add(format!("rcap a.bin {}", r.range(800, 70_000)));
            }
            for _ in 0..r.range(1, 3) {
                ins.push("a.bin".into());
            }
        }
        3 => {
            // many inputs, good and bad ones
            let k = r.range(1, 8);
            for (i, name) in NAMES.iter().take(k as usize).enumerate() {
                let n = gen::length(r, 20_000);
                let mut kind = r.weighted(&[(70, 0u64), (15, 1), (15, 2)]);
                let mut stat = if kind == 0 && r.pct(85) { n } else { 0 };
                let (mut open, mut st, mut mm) = (0, 0, 0);
                let mut script = rs(r, false);
                match r.below(10) {
                    0 => open = errno(r, &[2, 13, 24, 40]),
                    1 => st = errno(r, &[5, 12, 75]),
                    2 if kind == 0 && stat > 0 => mm = errno(r, &[19, 12, 13]),
                    3 => kind = 3,
                    4 => {
                        stat = 0;
                        script = rs(r, true);
                    }
                    _ => {}
                }
                p.add(format!("file {} {} {} {} {} {} {} {} {}", name, kind, stat, open, st, mm, gen::pat(r), i, n));
                p.add(format!("rs {} {}", name, script));
            }
            let (lo, hi) = r.weighted(&[(40, (40, 120)), (50, (120, 350)), (10, (350, 700))]);
            let total = r.range(lo, hi);
            for _ in 0..total {
                ins.push(NAMES[r.below(k) as usize].into());
            }
            if r.pct(20) {
                ins.push("missing-file".into());
            }
        }
        4 => {
            let top = if r.pct(20) { 3_000_000 } else { 600_000 };
            len = Some(r.range(100_000, top));
        }
        _ => {}
    }
    p.add(format!("ws {}", ws(r)));
    if r.pct(4) {
        p.add(format!("tfail {} {}", r.range(1, 5), r.weighted(&[(50, 1u64), (20, 2), (30, 99)])));
    }
    if r.pct(6) {
        p.add(afail(r));
    }
    p.add(gen::sched(r, 200_000));
    p.add("maxticks 4000000000".into());
    p.add("args".into());
    for i in ins {
        p.add(format!("in {}", i));
    }
    match r.below(4) {
        0 => p.add("key ok rand 77".into()),
        1 => p.add("dkey ok rand 77".into()),
        _ => {}
    }
    if let Some(n) = len {
        p.add(format!("len {}", n));
    }
    p.add(format!("place {}", r.below(1 << 20)));
    p
}

/// Which allocations fail: of any size or of large ones, all along or only
/// once the first input was reached.
fn afail(r: &mut Rng) -> String {
    let late = r.pct(65);
    let n = if late { r.range(1, 40) } else { r.range(1, 6000) };
    let min = r.weighted(&[(60, 1u64), (20, 200), (20, 4000)]);
    let n = if min > 1 { 1 + n / 20 } else { n };
    let count = r.weighted(&[(50, 1u64), (20, 2), (30, 99)]);
    format!("afail {} {} {} {}", n, count, min, late as u32)
}

pub fn gen(prop: &str, seed: u64, r: &mut Rng, cli: bool) -> Option<Plan> {
    if prop == "C23" && cli {
        return Some(much(seed, r));
    }
    // the ways of the other properties
    let of = prop;
    let prop = match of {
        "C24" if cli => r.weighted(&[(40, "C11"), (50, "C12"), (10, "C16")]),
        "C18" if cli => r.weighted(&[(40, "C11"), (55, "C12"), (5, "C16")]),
        _ => of,
    };
    let cli = match prop {
        "C11" | "C12" | "C16" => true,
        // the termination property covers the command too
        "C15" => r.pct(20),
        _ => false,
    };
    if !cli {
        return None;
    }
    let mut p = Plan::new();
    p.add("plan v1".into());
    p.add(format!("prop {}", of));
    p.add("kind cli".into());
    p.add(format!("seed {}", seed));
    p.add(format!("cpu {}", r.weighted(&[(35, 2), (33, 1), (32, 0)])));
    p.add(format!("threads {}", if r.pct(3) { r.range(6, 16) } else { r.range(1, 5) }));
    let max = r.weighted(&[(30, 300u64), (25, 6_000), (30, 70_000), (15, 300_000)]);
    let mut bytes = 0u64;
    let failing = match prop {
        "C12" => r.weighted(&[(20, 0u64), (50, 35), (30, 70)]),
        "C15" => r.weighted(&[(50, 0u64), (50, 40)]),
        "C11" => 0,
        _ => 0,
    };
    let nfiles = match prop {
        "C16" => r.range(0, 2),
        "C12" => r.range(0, 6),
        _ => r.range(0, 5),
    };
    // standard input
    let n = gen::length(r, max);
    bytes += n;
    let stdin_fails = r.pct(failing);
    let skind = r.weighted(&[(55, 1u64), (35, 0), (7, 2), (if failing > 0 { 3 } else { 0 }, 3)]);
    let spos = if skind == 0 && r.pct(50) { gen::length(r, n.max(1)).min(n) } else { 0 };
    p.add(format!("stdin {} {} {} {} {}", gen::pat(r), r.below(1 << 20), n, skind, spos));
    p.add(format!("rs - {}", rs(r, stdin_fails)));
    let mut names: Vec<&str> = vec![];
    // names that look like options, after "--"
    let dashes = r.pct(8);
    // a name that is not Unicode
    let bytes_name = of == "C11" && r.below(200) == 0;
    let mut any_fail = stdin_fails;
    for _ in 0..nfiles {
        let name = loop {
            let c = if bytes_name && names.is_empty() {
                *r.pick(&["caf%E9", "%FF", "dir/%C3%28.txt"])
            } else if dashes && r.pct(50) {
                *r.pick(&DASHED)
            } else {
                *r.pick(&NAMES)
            };
            if !names.contains(&c) {
                break c;
            }
        };
        names.push(name);
        let mut n = gen::length(r, max);
        let (mut open, mut stat, mut mm) = (0, 0, 0);
        // 0 regular 1 fifo 2 char device 3 directory 4 block device
        let mut kind = r.weighted(&[(60, 0u64), (20, 1), (15, 2), (5, 4)]);
        let mut statlen = n;
        let mut fatal = false;
        let mut bad = None;
        if r.pct(failing) {
            any_fail = true;
            match r.below(if of == "C12" { 7 } else { 6 }) {
                6 if r.pct(50) => {
                    // a disk error in the middle
                    n = n.max(1);
                    bad = Some(4096 * r.below(n.div_ceil(4096)));
                    statlen = if kind == 0 && r.pct(60) { n } else { 0 };
                }
                0 => open = errno(r, &[2, 13, 24, 40, 20, 6, 26, 1, 5, 12, 16, 19, 23, 36, 116, 117]),
                1 => stat = errno(r, &[5, 12, 75, 13, 116, 117]),
                2 => {
                    kind = 0;
                    if n == 0 {
                        n = 1;
                    }
                    statlen = n;
                    mm = errno(r, &[19, 12, 13, 11, 23, 1, 22]);
                }
                3 => kind = 3,
                _ => {
                    // a failing read must be on a streamed input
                    fatal = true;
                    if kind == 0 {
                        statlen = 0;
                    }
                }
            }
        } else if kind == 0 {
            match r.below(12) {
                0 => statlen = 0,                                   // like /proc: size unknown
                1 => statlen = (1u64 << 63) + r.below(1000),        // too long to map
                2 => n += r.range(1, 5000).min(max),                // grew after it was examined
                3 if failing > 0 => {
                    mm = 19; // like /sys: a nominal size, not mappable
                    statlen = 4096;
                    n = n.min(4000);
                }
                4 => statlen = u64::MAX,
                _ => {}
            }
        }
        if kind != 0 {
            statlen = if bad.is_some() || r.pct(80) { 0 } else { r.below(100_000) };
        }
        bytes += n;
        p.add(format!(
            "file {} {} {} {} {} {} {} {} {}",
            name, kind, statlen, open, stat, mm, gen::pat(r), r.below(1 << 20), n
        ));
        p.add(format!("rs {} {}", name, rs(r, fatal)));
        if let Some(at) = bad {
            p.add(format!("bad {} {}", name, at));
        }
    }
    p.add(format!("ws {}", ws(r)));
    let mut wfail = false;
    if (prop == "C12" || prop == "C15") && r.pct(25) {
        wfail = true;
        let at = if r.pct(30) { r.below(3) } else { r.below(70 * (nfiles + 1) + 40) };
        p.add(format!("wfail {} {}", at, errno(r, &[28, 32, 5, 27, 122, 104])));
    }
    if (prop == "C12" || prop == "C15") && r.pct(6) {
        p.add(format!("tfail {} {}", r.range(1, 5), r.weighted(&[(50, 1u64), (20, 2), (30, 99)])));
    }
    if prop == "C12" && r.pct(6) {
        p.add(afail(r));
    }
    let sched_at = p.lines.len();
    p.add("args".into());
    // inputs
    if nfiles > 0 || r.pct(30) {
        let mut list: Vec<String> = names.iter().map(|s| s.to_string()).collect();
        if r.pct(25) || list.is_empty() {
            let at = r.below(list.len() as u64 + 1) as usize;
            list.insert(at, "-".into());
        }
        if r.pct(10) && !list.is_empty() && !any_fail {
            let again = r.pick(&list).clone();
            list.push(again);
        }
        if r.pct(6) {
            list.push("missing-file".into());
            any_fail = true;
        }
        for n in &list {
            p.add(format!("in {}", n));
        }
    }
    let _ = any_fail;
    // options
    let (none, bad) = match (of, prop) {
        ("C18", _) => (2, 30),
        (_, "C11") => (45, 13),
        _ => (45, 3),
    };
    match r.weighted(&[(none, 0), (22, 1), (20, 2), (bad, 3)]) {
        0 => {}
        1 => p.add(format!("key {} {} {}", r.weighted(&[(80, "ok"), (20, "upper")]), gen::keykind(r), r.below(1 << 20))),
        2 => p.add(format!("dkey {} {} {}", r.weighted(&[(80, "ok"), (20, "upper")]), gen::keykind(r), r.below(1 << 20))),
        _ => {
            let bad = *r.pick(&["short", "long", "odd", "nothex", "empty", "prefix", "double", "space", "trail"]);
            let opt = if r.pct(50) { "key" } else { "dkey" };
            p.add(format!("{} {} {} {}", opt, bad, gen::keykind(r), r.below(1 << 20)));
            if r.pct(15) {
                p.add(format!("{} ok rand 1", if opt == "key" { "dkey" } else { "key" }));
            }
        }
    }
    let mut digits = 70 * (nfiles + 1);
    match prop {
        "C16" => {
            let n: String = match r.below(12) {
                0 => "0".into(),
                1 => "1".into(),
                2 | 3 => r.range(0, 200).to_string(),
                4 => (32 * r.range(1, 10)).to_string(),
                5 => (64 * r.range(1, 40) + r.below(3) - 1).to_string(),
                6 => r.range(200, 20_000).to_string(),
                7 => r.range(20_000, 100_000).to_string(),
                _ => {
                    // cannot complete: the consumer goes away
                    let n = match r.below(7) {
                        0 => u64::MAX - r.below(100),
                        1 => (1u64 << 63) + r.below(100),
                        2 => (1u64 << 63) - 1 - r.below(100),
                        3 => (1u64 << 62) + r.below(1000),
                        4 => (1u64 << 32) + r.below(1000),
                        5 => (1u64 << 31) + r.below(1000),
                        _ => r.next() | (1 << 40),
                    };
                    let at = match r.below(4) {
                        0 => r.below(3),
                        1 => r.below(200),
                        2 => r.below(5000),
                        _ => r.below(60_000),
                    };
                    if !wfail {
                        let l = format!("wfail {} {}", at, errno(r, &[32, 28, 5]));
                        let tail = p.lines.split_off(sched_at);
                        p.add(l);
                        p.lines.extend(tail);
                    }
                    n.to_string()
                }
            };
            digits = n.parse::<u64>().unwrap().min(100_000) * 2 * (nfiles + 1);
            p.add(format!("len {}", n));
        }
        _ => {
            if r.pct(35) {
                if prop == "C11" && r.pct(15) {
                    p.add(format!("len {}", r.pick(&["abc", "-1", "18446744073709551616", "1.5", "0x10", "1e3", "99999999999999999999999"])));
                } else {
                    let n = match r.below(4) {
                        0 => 0,
                        1 => r.range(1, 32),
                        2 => r.range(33, 300),
                        _ => 64 * r.range(1, 20),
                    };
                    digits = 2 * n * (nfiles + 1);
                    p.add(format!("len {}", n));
                }
            }
        }
    }
    if dashes {
        p.add("dashes".into());
    }
    p.add(format!("place {}", r.below(1 << 20)));
    let est = 4000 + bytes / 2 + digits;
    let s = gen::sched(r, est);
    let tail = p.lines.split_off(sched_at);
    p.add(s);
    let scale = if prop == "C15" { 1 } else { 10 };
    p.add(format!("maxticks {}", scale * (6_000_000 + 40 * bytes + 40 * digits)));
    p.lines.extend(tail);
    Some(p)
}

/// One input of more than 2 or 4 GiB, in one of the ways it can reach the
/// command, perhaps with small ones around it.
pub fn big(prop: &str, seed: u64, shape: u64, mode: &str, r: &mut Rng) -> Plan {
    let mut p = Plan::new();
    p.add("plan v1".into());
    p.add(format!("prop {}", prop));
    p.add("kind cli".into());
    p.add(format!("seed {}", seed));
    p.add(format!("cpu {}", r.weighted(&[(75, 2), (25, 1)])));
    p.add(format!("threads {}", r.range(1, 4)));
    let base = if shape < 4 { 1u64 << 32 } else { 1 << 31 };
    let len = base + *r.pick(&[1, 63, 64, 1000, 2047, 2048, 2049, 4096, 16384, 70_001]);
    let len = if base == 1 << 32 && r.pct(25) { base - r.below(3) } else { len };
    let stdin = shape == 1 || (shape == 5 && r.pct(30));
    if stdin {
        p.add(format!("stdin period 0 {}", len));
    } else {
        p.add(format!("stdin {} {} {}", gen::pat(r), r.below(1 << 20), r.below(3000)));
    }
    p.add(format!("rs - {}", rs(r, false)));
    let mut ins: Vec<String> = vec![];
    if !stdin {
        let (kind, statlen) = match shape {
            0 | 4 => (0, if r.pct(25) { len - r.below(5) } else { len }),
            3 => (0, *r.pick(&[0, 1u64 << 63, u64::MAX])),
            _ => (r.range(1, 2), 0),
        };
        p.add(format!("file a.bin {} {} 0 0 0 period 0 {}", kind, statlen, len));
        p.add(format!("rs a.bin {}", rs(r, false)));
        ins.push("a.bin".into());
    } else if r.pct(50) {
        ins.push("-".into());
    }
    if r.pct(50) {
        p.add(format!("file b.bin 0 900 0 0 0 {} 1 900", gen::pat(r)));
        if ins.is_empty() {
            ins.push("-".into());
        }
        ins.insert(r.below(ins.len() as u64 + 1) as usize, "b.bin".into());
    }
    p.add(format!("ws {}", ws(r)));
    p.add(format!("sched rnd {} 20000 5", r.next() >> 16));
    p.add("maxticks 4000000000".into());
    p.add("args".into());
    for i in ins {
        p.add(format!("in {}", i));
    }
    match mode {
        "keyed" => p.add("key ok rand 77".into()),
        "derive" => p.add("dkey ok rand 77".into()),
        _ => {}
    }
    if r.pct(30) {
        p.add(format!("len {}", r.range(0, 200)));
    }
    p.add(format!("place {}", r.below(1 << 20)));
    p
}
