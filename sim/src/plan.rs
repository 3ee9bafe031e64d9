//! A plan is the complete, textual description of one simulated run: workload,
//! faults and schedule. The generator makes one from a seed; a replay file is
//! one, with the schedule as a list of deviations from the default policy.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub lines: Vec<Vec<String>>,
}

impl Plan {
    pub fn new() -> Plan {
        Plan { lines: Vec::new() }
    }
    pub fn parse(text: &str) -> Plan {
        let lines = text
            .lines()
            .map(|l| l.split('#').next().unwrap())
            .map(|l| l.split_whitespace().map(|t| t.to_string()).collect::<Vec<_>>())
            .filter(|l| !l.is_empty())
            .collect();
        Plan { lines }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for l in &self.lines {
            s.push_str(&l.join(" "));
            s.push('\n');
        }
        s
    }
    pub fn add(&mut self, l: String) {
        self.lines.push(l.split_whitespace().map(|t| t.to_string()).collect());
    }
    pub fn get(&self, key: &str) -> Option<&Vec<String>> {
        self.lines.iter().find(|l| l[0] == key)
    }
    pub fn str(&self, key: &str) -> &str {
        self.get(key).and_then(|l| l.get(1)).map(|s| s.as_str()).unwrap_or("")
    }
    pub fn num(&self, key: &str, def: u64) -> u64 {
        self.get(key).and_then(|l| l.get(1)).and_then(|s| s.parse().ok()).unwrap_or(def)
    }
}

pub fn arg(l: &[String], i: usize) -> &str {
    l.get(i).map(|s| s.as_str()).unwrap_or("")
}

pub fn num(l: &[String], i: usize) -> u64 {
    l.get(i).and_then(|s| s.parse().ok()).unwrap_or(0)
}

pub fn pattern(kind: &str, seed: u64, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    let mut r = Rng::new(seed);
    match kind {
        "zero" => {}
        "ff" => v.fill(0xff),
        "ctr" => v.iter_mut().enumerate().for_each(|(i, b)| *b = (i % 251) as u8),
        "w32" => {
            for (i, c) in v.chunks_mut(4).enumerate() {
                let b = (i as u32).wrapping_sub(3).wrapping_mul(0x01000193).to_le_bytes();
                c.copy_from_slice(&b[..c.len()]);
            }
        }
        "sparse" => {
            for _ in 0..(len / 600 + 1) {
                if len > 0 {
                    let at = r.below(len as u64) as usize;
                    v[at] = r.next() as u8;
                }
            }
        }
        _ => r.fill(&mut v),
    }
    v
}

pub fn key(kind: &str, seed: u64) -> [u8; 32] {
    let mut k = [0u8; 32];
    match kind {
        "zero" => {}
        "ff" => k = [0xff; 32],
        "iv" => k = crate::model::iv_bytes(),
        "ctr" => k.iter_mut().enumerate().for_each(|(i, b)| *b = i as u8),
        _ => Rng::new(seed).fill(&mut k),
    }
    k
}

/// Programs the scheduler part of the shared region.
pub fn apply_sched(p: &Plan, s: &mut crate::shm::Shared) {
    s.cpu_level = p.num("cpu", 255) as u32;
    s.max_ticks = p.num("maxticks", 2_000_000_000);
    s.strategy = 0;
    s.seed = 1;
    s.spurious_pm = 0;
    if let Some(l) = p.get("sched") {
        s.seed = num(l, 2);
        match arg(l, 1) {
            "rnd" => {
                s.strategy = 1;
                s.quantum = num(l, 3);
                s.spurious_pm = num(l, 4) as u32;
            }
            "pct" => {
                s.strategy = 2;
                s.pct_depth = num(l, 3) as u32;
                s.pct_len = num(l, 4);
                s.spurious_pm = num(l, 5) as u32;
            }
            "starve" => {
                s.strategy = 3;
                s.quantum = num(l, 3);
                s.spurious_pm = num(l, 4) as u32;
            }
            "block" => {
                s.strategy = 4;
                s.spurious_pm = num(l, 3) as u32;
            }
            _ => {}
        }
    }
    let mut n = 0;
    for l in p.lines.iter().filter(|l| l[0] == "dev") {
        if n < crate::shm::MAX_DEV {
            s.dev[n] = crate::shm::Dev { tick: num(l, 1), kind: num(l, 2) as u32, arg: num(l, 3) as u32 };
            n += 1;
        }
    }
    s.n_dev = n as u32;
}

/// The same plan with the schedule actually taken, as a list.
pub fn with_recorded(p: &Plan, s: &crate::shm::Shared) -> Option<Plan> {
    if s.rec_overflow != 0 {
        return None;
    }
    let mut q = Plan::new();
    for l in &p.lines {
        if l[0] == "sched" || l[0] == "dev" {
            continue;
        }
        q.lines.push(l.clone());
    }
    let mut at = q.lines.len();
    for (i, l) in q.lines.iter().enumerate() {
        if l[0] == "client" || l[0] == "args" {
            at = i;
            break;
        }
    }
    let tail = q.lines.split_off(at);
    q.add("sched list".into());
    for d in &s.rec[..s.n_rec as usize] {
        q.add(format!("dev {} {} {}", d.tick, d.kind, d.arg));
    }
    q.lines.extend(tail);
    Some(q)
}
