//! Minimisation of a failing plan: fewer schedule deviations, fewer operations
//! and faults, smaller numbers, as long as the class of violation stays.
use crate::plan::{self, Plan};
use crate::run::{Outcome, Runner};
use std::time::Instant;

pub struct Mini<'a> {
    pub r: &'a Runner,
    pub class: String,
    pub until: Instant,
    pub tries: u64,
}

const FIXED: [&str; 12] = ["miri", "prep", "plan", "prop", "kind", "seed", "cpu", "sched", "maxticks", "client", "args", "src"];

impl Mini<'_> {
    fn fails(&mut self, p: &Plan) -> bool {
        self.tries += 1;
        matches!(self.r.run(p), Outcome::Violation { class, .. } if class == self.class)
    }
    fn time_up(&self) -> bool {
        Instant::now() >= self.until
    }

    /// Removes as many as possible of the lines selected by `sel`.
    fn ddmin(&mut self, p: &mut Plan, sel: &dyn Fn(&[String]) -> bool) {
        let mut chunk = p.lines.iter().filter(|l| sel(l)).count();
        while chunk > 0 && !self.time_up() {
            let mut start = 0;
            let mut any = false;
            loop {
                let idx: Vec<usize> = (0..p.lines.len()).filter(|&i| sel(&p.lines[i])).collect();
                if start >= idx.len() || self.time_up() {
                    break;
                }
                let cut: std::collections::HashSet<usize> =
                    idx[start..(start + chunk).min(idx.len())].iter().copied().collect();
                let q = Plan {
                    lines: p.lines.iter().enumerate().filter(|(i, _)| !cut.contains(i)).map(|(_, l)| l.clone()).collect(),
                };
                if self.fails(&q) {
                    *p = q;
                    any = true;
                } else {
                    start += chunk;
                }
            }
            if chunk == 1 && !any {
                break;
            }
            if chunk > 1 {
                chunk = chunk.div_ceil(2);
            }
        }
    }

    fn try_token(&mut self, p: &mut Plan, i: usize, j: usize, t: String) -> bool {
        if p.lines[i][j] == t {
            return false;
        }
        let mut q = p.clone();
        q.lines[i][j] = t;
        if self.fails(&q) {
            *p = q;
            return true;
        }
        false
    }

    fn shrink_num(&mut self, p: &mut Plan, i: usize, j: usize, pre: &str, min: u64) {
        let get = |p: &Plan| -> Option<u64> { p.lines[i][j].strip_prefix(pre)?.parse().ok() };
        let Some(mut n) = get(p) else { return };
        if n > min && self.try_token(p, i, j, format!("{}{}", pre, min)) {
            return;
        }
        let mut step = (n - min.min(n)) / 2;
        while step > 0 && !self.time_up() {
            if n >= min + step && self.try_token(p, i, j, format!("{}{}", pre, n - step)) {
                n -= step;
            } else {
                step /= 2;
            }
        }
    }

    fn shrink_tokens(&mut self, p: &mut Plan) {
        let mut i = 0;
        while i < p.lines.len() {
            let op = p.lines[i][0].clone();
            let skip = (FIXED.contains(&op.as_str()) && op != "src") || op == "dev" || op == "in";
            let from = match op.as_str() {
                "src" => 4,
                "file" => 6,
                "stdin" => 2,
                "rs" => 2,
                _ => 1,
            };
            for j in from..p.lines[i].len() {
                if skip || self.time_up() {
                    break;
                }
                let t = p.lines[i][j].clone();
                if t.contains(',') {
                    // a script: drop steps
                    let mut k = 0;
                    loop {
                        let toks: Vec<String> = p.lines[i][j].split(',').map(|s| s.to_string()).collect();
                        if k >= toks.len() || self.time_up() {
                            break;
                        }
                        let mut s: Vec<String> = toks.clone();
                        s.remove(k);
                        let s = if s.is_empty() { "-".to_string() } else { s.join(",") };
                        if !self.try_token(p, i, j, s) {
                            k += 1;
                        }
                    }
                } else if t.bytes().all(|b| b.is_ascii_digit()) {
                    self.shrink_num(p, i, j, "", 0);
                } else if t.len() > 1 && t[1..].bytes().all(|b| b.is_ascii_digit()) && "esm".contains(&t[..1]) {
                    if !self.try_token(p, i, j, "p".into()) {
                        self.shrink_num(p, i, j, &t[..1], 0);
                    }
                } else if op == "src" || op == "new" {
                    // keep
                }
            }
            i += 1;
        }
    }

    pub fn run(&mut self, p: &mut Plan) {
        self.ddmin(p, &|l| l[0] == "dev");
        self.ddmin(p, &|l| l[0] != "dev" && !FIXED.contains(&l[0].as_str()));
        self.shrink_tokens(p);
        self.ddmin(p, &|l| l[0] != "dev" && !FIXED.contains(&l[0].as_str()));
        self.ddmin(p, &|l| l[0] == "dev");
    }
}

pub struct Report {
    pub plan: Plan,
    pub class: String,
    pub detail: String,
    pub reproducible: bool,
    pub tries: u64,
    pub trace_hash: u64,
}

/// From a failing plan to a minimised one that fails the same way.
pub fn minimise(r: &Runner, p: &Plan, class: &str, detail: &str, secs: u64) -> Report {
    let mut m = Mini { r, class: class.into(), until: Instant::now() + std::time::Duration::from_secs(secs), tries: 0 };
    let mut rep = Report {
        plan: p.clone(),
        class: class.into(),
        detail: detail.into(),
        reproducible: false,
        tries: 0,
        trace_hash: 0,
    };
    if !m.fails(p) {
        return rep;
    }
    rep.reproducible = true;
    // as a list of deviations, if that fails too
    if let Some(q) = plan::with_recorded(p, r.region.get()) {
        if m.fails(&q) {
            rep.plan = q;
        }
    }
    let mut q = rep.plan.clone();
    m.run(&mut q);
    rep.tries = m.tries;
    // the final word on the minimised plan
    match r.run(&q) {
        Outcome::Violation { class: c, detail } if c == class => {
            rep.plan = q;
            rep.detail = detail;
        }
        _ => {
            if let Outcome::Violation { detail, .. } = r.run(&rep.plan) {
                rep.detail = detail;
            }
        }
    }
    rep.trace_hash = r.region.get().trace_hash;
    rep
}
