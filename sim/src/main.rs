mod big;
mod cli;
mod cyc;
mod exec;
mod far;
mod gen;
mod gencli;
mod guard;
mod io;
mod mini;
mod model;
mod plan;
mod rng;
mod run;
mod shm;

use plan::Plan;
use run::{Outcome, Runner};
use shm::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::time::Instant;

extern "C" {
    fn sim_edges() -> u32;
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Args(HashMap<String, String>);
impl Args {
    pub fn s(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    pub fn n(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
    pub fn has(&self, k: &str) -> bool {
        self.0.contains_key(k)
    }
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub violations: u64,
    pub harness: Vec<String>,
    pub cnt: Vec<u64>,
    pub runs_with: Vec<u64>,
    pub ticks: u64,
    pub sim_ns: u64,
    pub max_ticks: u64,
    pub max_cap_pct: u64,
    pub multi: u64,
    pub threads_max: u64,
    pub traces: Vec<u64>,
    pub scheds: Vec<u64>,
    pub cov: Vec<u8>,
    pub samples: Vec<String>,
    pub reports: Vec<String>,
    /// violations of a class listed as a known finding
    pub known: Vec<String>,
    pub wall: f64,
}

impl Stats {
    pub fn add(&mut self, p: &Plan, s: &Shared) {
        self.runs += 1;
        self.cnt.resize(NCNT, 0);
        self.runs_with.resize(NCNT, 0);
        self.cov.resize(COV, 0);
        for i in 0..NCNT {
            self.cnt[i] += s.cnt[i];
            self.runs_with[i] += (s.cnt[i] > 0) as u64;
        }
        self.ticks += s.ticks;
        self.sim_ns += s.sim_ns;
        self.max_ticks = self.max_ticks.max(s.ticks);
        let cap = p.num("maxticks", u64::MAX);
        self.max_cap_pct = self.max_cap_pct.max(s.ticks.saturating_mul(1000) / cap.max(1));
        self.threads_max = self.threads_max.max(s.n_threads as u64);
        // nontrivial: something was compared, and either bytes flowed or a
        // fault fired
        if s.cnt[C_CHECKS] > 0 {
            self.traces.push(s.trace_hash);
            if s.cnt[0] > 0 {
                self.multi += 1;
                self.scheds.push(s.sched_hash);
            }
        }
        for (a, b) in self.cov.iter_mut().zip(s.cov.iter()) {
            *a |= *b;
        }
    }
    fn json(&self) -> String {
        let mut o = String::from("{");
        let _ = write!(
            o,
            "\"runs\":{},\"violations\":{},\"ticks\":{},\"sim_ns\":{},\"max_ticks\":{},\"max_cap_permille\":{},\"multi\":{},\"threads_max\":{},\"edges_total\":{},\"wall\":{:.3}",
            self.runs, self.violations, self.ticks, self.sim_ns, self.max_ticks, self.max_cap_pct, self.multi, self.threads_max,
            unsafe { sim_edges() }, self.wall
        );
        o.push_str(",\"counters\":{");
        let mut first = true;
        for (i, n) in CNT_NAMES.iter() {
            if self.cnt.is_empty() {
                break;
            }
            let _ = write!(o, "{}\"{}\":[{},{}]", if first { "" } else { "," }, n, self.cnt[*i], self.runs_with[*i]);
            first = false;
        }
        o.push('}');
        for (name, v) in [("samples", &self.samples), ("reports", &self.reports), ("known", &self.known)] {
            let _ = write!(o, ",\"{}\":[{}]", name, v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
        }
        let _ = write!(o, ",\"harness\":[{}]", self.harness.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
        let cov: String = self.cov.chunks(4).map(|c| {
            let v = c.iter().enumerate().fold(0u8, |a, (i, b)| a | ((*b & 1) << i));
            char::from_digit(v as u32, 16).unwrap()
        }).collect();
        let _ = write!(o, ",\"cov\":\"{}\"", cov);
        o.push('}');
        o
    }
}

fn write_hashes(path: &str, v: &[u64]) {
    let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(path, b).expect("write hashes");
}

pub fn write_stats(a: &Args, st: &Stats) {
    let out = a.s("out", "out.json");
    write_hashes(&format!("{}.traces", out), &st.traces);
    write_hashes(&format!("{}.scheds", out), &st.scheds);
    std::fs::write(out, st.json()).expect("write stats");
}

pub fn save_report(dir: &str, variant: &str, name: &str, rep: &mini::Report) -> String {
    let path = format!("{}/{}", dir, name);
    let mut t = String::new();
    let _ = writeln!(t, "# violation of {}: {}", rep.plan.str("prop"), rep.class);
    let _ = writeln!(t, "# {}", rep.detail.replace('\n', " "));
    let _ = writeln!(t, "# found with seed {}; variant {}; {} runs to minimise; {}", rep.plan.str("seed"), variant, rep.tries,
        if rep.reproducible { "replays exactly" } else { "did not fail again when replayed" });
    let _ = writeln!(t, "# replay: python3 /verif/check.py --replay {}", path);
    let _ = writeln!(t, "variant {}", variant);
    let _ = writeln!(t, "expect {}", rep.class.replace(' ', "_"));
    if rep.reproducible {
        let _ = writeln!(t, "trace {:016x}", rep.trace_hash);
    }
    t.push_str(&rep.plan.text());
    std::fs::write(&path, t).expect("write replay");
    path
}

fn batch(a: &Args) -> i32 {
    let prop = a.s("prop", "C01");
    let seed = a.n("seed", 1);
    let (start, count, stride) = (a.n("start", 0), a.n("count", 100), a.n("stride", 1));
    let limit = a.n("limit", 3600);
    let variant = a.s("variant", "rel");
    let salt = rng::hash_str(&variant);
    let mut ft = gen::feat();
    ft.thorough = a.has("thorough");
    ft.cli = a.s("variant", "").starts_with("cli");
            ft.far = a.s("variant", "").starts_with("far");
    let r = Runner::new(a.s("cli", ""), false);
    let mut st = Stats::default();
    let t0 = Instant::now();
    let mut log = a.0.get("log").map(|p| std::io::BufWriter::new(std::fs::File::create(p).expect("log")));
    let known: Vec<String> = a.s("known", "").split(',').filter(|k| !k.is_empty()).map(|k| k.to_string()).collect();
    let mut i = start;
    while i < start + count * stride {
        if t0.elapsed().as_secs() >= limit {
            break;
        }
        let rs = rng::mix(rng::mix(seed, salt), i);
        let p = gen::gen(&prop, rs, ft);
        let o = r.run(&p);
        let s = r.region.get();
        st.add(&p, s);
        if let Some(l) = log.as_mut() {
            use std::io::Write;
            let _ = writeln!(l, "{} {:016x} {:016x} {} {} {:?}", i, s.trace_hash, s.sched_hash, s.ticks, s.cnt[C_CHECKS], o);
        }
        if st.samples.len() < 2 && s.cnt[C_CHECKS] > 0 && (st.runs > 3) {
            st.samples.push(p.text());
        }
        match o {
            Outcome::Ok => {}
            Outcome::Harness(m) => {
                st.harness.push(format!("seed {}: {}", rs, m));
                if st.harness.len() > 3 {
                    break;
                }
            }
            // a listed finding: noted, and on with the search
            Outcome::Violation { class, detail } if known.contains(&class.replace(' ', "_")) => {
                if st.known.len() < 3 {
                    st.known.push(format!("seed {}\n{}: {}", rs, class, detail));
                }
            }
            Outcome::Violation { class, detail } => {
                st.violations += 1;
                let rep = mini::minimise(&r, &p, &class, &detail, a.n("minsecs", 40));
                let path = save_report(&a.s("replays", "."), &variant, &format!("{}-{}-{}.plan", prop, variant, rs), &rep);
                st.reports.push(format!("{}\n{}: {}", path, class, rep.detail));
                break;
            }
        }
        i += stride;
    }
    st.wall = t0.elapsed().as_secs_f64();
    write_stats(a, &st);
    if st.violations > 0 {
        1
    } else if !st.harness.is_empty() {
        2
    } else {
        0
    }
}

fn replay(path: &str, a: &Args) -> i32 {
    let p = Plan::parse(&std::fs::read_to_string(path).expect("read plan"));
    let r = Runner::new(a.s("cli", ""), a.has("show"));
    let o = r.run(&p);
    let s = r.region.get();
    println!("outcome {:?}", o);
    println!("trace {:016x} schedule {:016x} steps {} threads {} comparisons {}", s.trace_hash, s.sched_hash, s.ticks, s.n_threads, s.cnt[C_CHECKS]);
    if a.has("show") && p.str("kind") == "cli" {
        println!("stdout <{}>", String::from_utf8_lossy(&s.out[..(s.out_total as usize).min(4000)]));
        println!("stderr <{}>", String::from_utf8_lossy(&s.err[..(s.err_total as usize).min(4000)]));
    }
    match o {
        Outcome::Ok => 0,
        Outcome::Violation { .. } => 1,
        Outcome::Harness(_) => 2,
    }
}

/// The model against vectors of the Python implementation.
fn selftest(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("golden vectors");
    let mut n = 0;
    for l in text.lines().filter(|l| !l.starts_with('#') && !l.is_empty()) {
        let f: Vec<String> = l.split_whitespace().map(|s| s.to_string()).collect();
        // MODE KEYKIND KEYSEED PAT SEED LEN HEX
        let mode = model::Mode::parse(&f[0]);
        let data = plan::pattern(&f[3], plan::num(&f, 4), plan::num(&f, 5) as usize);
        let key = plan::key(&f[1], plan::num(&f, 2));
        let m = model::Msg::of(mode, key, &data);
        let got = model::hex(&m.root().xof(f[6].len() / 2));
        if got != f[6] {
            println!("model differs from the golden vector: {}", l);
            return 2;
        }
        n += 1;
    }
    println!("model agrees with {} golden vectors", n);
    if n == 0 {
        2
    } else {
        0
    }
}

fn main() {
    // Addresses play no role in the simulation, but keep them the same anyway.
    unsafe {
        if std::env::var_os("SIM_NOASLR").is_none() {
            std::env::set_var("SIM_NOASLR", "1");
            if libc::personality(0x0040000) != -1 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
                eprintln!("re-exec: {}", e);
            }
        }
    }
    exec::install_panic_hook();
    let mut m = HashMap::new();
    let mut pos = vec![];
    let mut it = std::env::args().skip(1).peekable();
    while let Some(a) = it.next() {
        if let Some(k) = a.strip_prefix("--") {
            let v = if it.peek().is_some_and(|n| !n.starts_with("--")) { it.next().unwrap() } else { String::new() };
            m.insert(k.to_string(), v);
        } else {
            pos.push(a);
        }
    }
    let a = Args(m);
    if a.has("pin") {
        let mut mask = [0u8; 128];
        let c = a.n("pin", 0) as usize % 1024;
        mask[c / 8] |= 1 << (c % 8);
        unsafe { libc::sched_setaffinity(0, 128, mask.as_ptr()) };
    }
    let code = match pos.first().map(|s| s.as_str()) {
        Some("batch") => batch(&a),
        Some("run") => replay(&pos[1], &a),
        Some("gen") => {
            let mut ft = gen::feat();
            ft.thorough = a.has("thorough");
            ft.cli = a.s("variant", "").starts_with("cli");
            ft.far = a.s("variant", "").starts_with("far");
            print!("{}", gen::gen(&a.s("prop", "C01"), a.n("seed", 1), ft).text());
            0
        }
        Some("selftest") => selftest(&pos[1]),
        Some("bytes") => {
            // the harness's inputs, for making golden vectors elsewhere
            use std::io::Write;
            let f: Vec<String> = pos[1..].to_vec();
            let d = if f[0] == "key" { plan::key(&f[1], plan::num(&f, 2)).to_vec() } else { plan::pattern(&f[0], plan::num(&f, 1), plan::num(&f, 2) as usize) };
            std::io::stdout().write_all(&d).unwrap();
            0
        }
        Some("big") => big::main(&a),
        _ => {
            eprintln!("usage: sim batch|run|gen|selftest|bytes|big ...");
            2
        }
    };
    std::process::exit(code);
}
