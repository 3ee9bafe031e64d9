//! Runs a plan for the command: builds the virtual files, executes the real
//! program on the simulator runtime, and judges what it printed.
use crate::model::{self, Mode, Msg};
use crate::plan::{self, arg, num, Plan};
use crate::rng::Rng;
use crate::shm::*;
use std::ffi::CString;

pub fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() {
            if let Ok(x) = u8::from_str_radix(&s[i + 1..i + 3], 16) {
                v.push(x);
                i += 3;
                continue;
            }
        }
        v.push(b[i]);
        i += 1;
    }
    v
}

struct File {
    name: Vec<u8>,
    idx: usize,
    kind: u64,
    stat_len: u64,
    open_err: i32,
    mmap_err: i32,
    data: Vec<u8>,
    /// if not 0, the content is `data` repeated up to this length
    big: u64,
}

impl File {
    fn len(&self) -> u64 {
        if self.big > 0 {
            self.big
        } else {
            self.data.len() as u64
        }
    }
}

// What the command may hold at once (property C23).
const CLI_MEM: u64 = 4 << 20;
/// times the square of the number of inputs: docopt's matching
const CLI_MEM_EACH: u64 = 64;
const CLI_GROWTH: i64 = 16 << 10;
const CLI_FDS: u32 = 32;
const CLI_MAPS: u32 = 32;

pub struct Scenario {
    files: Vec<File>, // [0] is standard input
    inputs: Vec<Vec<u8>>,
    argv: Vec<Vec<u8>>,
    bad: bool,
    mode: Mode,
    key: [u8; 32],
    len: u64,
    wfail: bool,
    /// threads may fail to be created
    tfail: bool,
    /// allocations may fail
    pub afail: bool,
    /// what is held at once is bounded
    bounds: bool,
    /// nothing may be changed
    pure: bool,
    /// the key may not be shown
    secret: bool,
}

fn steps(s: &mut Shared, at: &mut usize, script: &str) -> (u32, u32) {
    let first = *at;
    for t in script.split(',').filter(|t| !t.is_empty() && *t != "-") {
        if *at >= MAX_STEPS {
            break;
        }
        let n: u64 = t.get(1..).and_then(|x| x.parse().ok()).unwrap_or(0);
        let (kind, n) = match t.as_bytes()[0] {
            b'e' => (1, if n == 0 { 5 } else { n }),
            b't' => (2, n),
            _ => (0, n.max(1)),
        };
        s.steps[*at] = Step { kind, pad: 0, arg: n };
        *at += 1;
    }
    (first as u32, (*at - first) as u32)
}

/// None: the plan describes something the world would not do (a file mapped
/// beyond its end), which only a minimiser could have made.
pub fn build(p: &Plan, region: &Region) -> Option<Scenario> {
    let s = region.get();
    let mut sc = Scenario {
        files: vec![],
        inputs: vec![],
        argv: vec![],
        bad: false,
        mode: Mode::Hash,
        key: [0; 32],
        len: 32,
        wfail: false,
        tfail: false,
        afail: false,
        bounds: p.str("prop") == "C23",
        pure: p.str("prop") == "C24",
        secret: p.str("prop") == "C18",
    };
    let script_of = |name: &str| {
        p.lines.iter().find(|l| l[0] == "rs" && arg(l, 1) == name).map(|l| arg(l, 2)).unwrap_or("-").to_string()
    };
    let mut step_at = 0;
    let mut off = 0usize;
    let mut add = |s: &mut Shared, sc: &mut Scenario, l: &[String], step_at: &mut usize| -> Option<()> {
        // NAME KIND STATLEN OPENERR STATERR MMAPERR PAT SEED LEN
        let idx = sc.files.len();
        if idx >= MAX_FILES {
            return None;
        }
        let name = unescape(&l[0]);
        let len = num(l, 8) as usize;
        let big = arg(l, 6) == "period" && len > 0;
        let data = if big { crate::big::period().to_vec() } else { plan::pattern(arg(l, 6), num(l, 7), len.min(2 << 20)) };
        // what the model can work out in reasonable time
        let top = 1u64 << (63 - (len as u64 | 1).leading_zeros());
        if big && len as u64 > 64 << 20 && len as u64 <= crate::big::MARK - crate::big::GAP && (top < 1 << 31 || len as u64 - top > 16 << 20 || len as u64 == top) {
            return None;
        }
        if off + data.len() > CONTENT_CAP || name.len() > 95 {
            return None;
        }
        let f = &mut s.files[idx];
        f.name = [0; 96];
        f.name[..name.len()].copy_from_slice(&name);
        f.kind = num(l, 1) as u32;
        f.stat_len = num(l, 2);
        f.open_err = num(l, 3) as i32;
        f.stat_err = num(l, 4) as i32;
        f.mmap_err = num(l, 5) as i32;
        f.off = off as u64;
        f.period = if big { data.len() as u64 } else { 0 };
        f.len = if big { len as u64 } else { data.len() as u64 };
        f.fired = 0;
        f.bad = p.lines.iter().find(|b| b[0] == "bad" && arg(b, 1) == l[0]).map_or(u64::MAX, |b| num(b, 2) & !4095);
        f.mapped = 0;
        f.rcap = p.lines.iter().find(|b| b[0] == "rcap" && arg(b, 1) == l[0]).map_or(0, |b| num(b, 2));
        s.content[off..off + data.len()].copy_from_slice(&data);
        off += data.len();
        let (kind, stat_len, open_err, mmap_err) = (f.kind as u64, f.stat_len, f.open_err, f.mmap_err);
        if kind == 0 && mmap_err == 0 && stat_len > f.len && stat_len < 1 << 63 {
            return None;
        }
        let bad = s.files[idx].bad < s.files[idx].len;
        if bad && (big || (kind == 0 && stat_len > 0 && stat_len != len as u64 && stat_len < 1 << 63)) {
            return None;
        }
        let (a, b) = steps(s, step_at, &script_of(&l[0]));
        s.files[idx].script = a;
        s.files[idx].n_script = b;
        sc.files.push(File { name, idx, kind, stat_len, open_err, mmap_err, data, big: if big { len as u64 } else { 0 } });
        Some(())
    };
    let st = p.get("stdin").cloned().unwrap_or_default();
    let w = |t: &str| t.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
    // PAT SEED LEN [KIND [POS]]: POS bytes of a regular file were taken before
    let kind = if st.len() > 4 { num(&st, 4) } else { 1 };
    let pos = if kind == 0 { num(&st, 5).min(num(&st, 3)) } else { 0 };
    let pat = if arg(&st, 1).is_empty() { "zero" } else { arg(&st, 1) };
    if kind == 0 && pat == "period" {
        return None;
    }
    let size = if kind == 0 { num(&st, 3) } else { 0 };
    add(s, &mut sc, &w(&format!("- {} {} 0 0 0 {} {} {}", kind, size, pat, num(&st, 2), num(&st, 3))), &mut step_at)?;
    s.stdin_pos = pos;
    let d = &mut sc.files[0].data;
    d.drain(..(pos as usize).min(d.len()));
    for l in p.lines.iter().filter(|l| l[0] == "file" && l.len() >= 10) {
        add(s, &mut sc, &l[1..], &mut step_at)?;
    }
    for l in p.lines.iter().filter(|l| l[0] == "in") {
        let n = unescape(arg(l, 1));
        if n != b"-" && !sc.files.iter().any(|f| f.name == n) {
            add(s, &mut sc, &w(&format!("{} 0 0 2 0 0 zero 0 0", arg(l, 1))), &mut step_at)?;
        }
        sc.inputs.push(n);
    }
    s.n_files = sc.files.len() as u32;
    let (a, b) = steps(s, &mut step_at, p.str("ws"));
    s.wscript = a;
    s.n_wscript = b;
    for i in 0..b {
        // interruptions only: a hard failure of the output is the job of wfail
        let x = &mut s.steps[(a + i) as usize];
        if x.kind == 1 {
            x.arg = 4;
        }
    }
    s.wfail_at = u64::MAX;
    if let Some(l) = p.get("wfail") {
        s.wfail_at = num(l, 1);
        s.wfail_errno = (num(l, 2) as u32).max(1);
        if s.wfail_errno == 4 || s.wfail_errno == 9 {
            s.wfail_errno = 5;
        }
        sc.wfail = true;
    }
    if let Some(l) = p.get("tfail") {
        s.tfail_from = num(l, 1) as u32;
        s.tfail_count = num(l, 2) as u32;
        sc.tfail = s.tfail_from > 0;
    }
    if let Some(l) = p.get("afail") {
        s.afail_from = num(l, 1);
        s.afail_count = num(l, 2);
        s.afail_min = num(l, 3);
        s.afail_late = num(l, 4);
        sc.afail = s.afail_from > 0;
    }
    plan::apply_sched(p, s);

    // the argument list
    let mut opts: Vec<(String, String)> = vec![];
    let nkeys = p.lines.iter().filter(|l| l[0] == "key" || l[0] == "dkey").count();
    for l in p.lines.iter().filter(|l| l[0] == "key" || l[0] == "dkey") {
        let k = plan::key(arg(l, 2), num(l, 3));
        let h = model::hex(&k);
        let v = match arg(l, 1) {
            "ok" => h,
            "upper" => h.to_uppercase(),
            "short" => h[..62].into(),
            "long" => format!("{}00", h),
            "odd" => h[..63].into(),
            "nothex" => format!("{}g", &h[..63]),
            "empty" => String::new(),
            "prefix" => format!("0x{}", h),
            "double" => format!("{}{}", h, h),
            "space" => format!("{} {}", &h[..32], &h[32..]),
            _ => format!("{} ", h),
        };
        if !matches!(arg(l, 1), "ok" | "upper") {
            sc.bad = true;
        }
        sc.key = k;
        sc.mode = if l[0] == "key" { Mode::Keyed } else { Mode::Derive };
        opts.push((if l[0] == "key" { "--key" } else { "--derive-key" }.into(), v));
    }
    if nkeys > 1 {
        sc.bad = true;
    }
    if let Some(l) = p.lines.iter().rev().find(|l| l[0] == "len") {
        match arg(l, 1).parse::<u64>() {
            Ok(n) => sc.len = n,
            Err(_) => sc.bad = true,
        }
        opts.push(("--length".into(), arg(l, 1).into()));
    }
    let mut r = Rng::new(p.num("place", 0));
    // everything after "--" is a name
    let dashes = p.get("dashes").is_some();
    if !dashes && sc.inputs.iter().any(|n| n.len() > 1 && n[0] == b'-') {
        return None;
    }
    let mut argv: Vec<Vec<u8>> = if dashes { vec![] } else { sc.inputs.clone() };
    for (o, v) in opts {
        let at = r.below(argv.len() as u64 + 1) as usize;
        // don't separate an option from its value
        let at = if at > 0 && argv[at - 1].starts_with(b"--") && !argv[at - 1].contains(&b'=') { at - 1 } else { at };
        if r.pct(50) || v.is_empty() || v.starts_with('-') {
            argv.insert(at, format!("{}={}", o, v).into_bytes());
        } else {
            argv.insert(at, v.into_bytes());
            argv.insert(at, o.into_bytes());
        }
    }
    if dashes {
        argv.push(b"--".to_vec());
        argv.extend(sc.inputs.iter().cloned());
    }
    sc.argv = argv;
    // the model knows the large subtrees under one key only
    if sc.files.iter().any(|f| f.big > 0) && sc.mode != Mode::Hash && sc.key != crate::big::big_key() {
        return None;
    }
    Some(sc)
}

/// In the forked child: become the command. Never returns.
pub fn exec(path: &str, p: &Plan, sc: &Scenario, region: &Region) -> ! {
    let mut av = vec![CString::new("baokeshed").unwrap()];
    for a in &sc.argv {
        av.push(CString::new(a.clone()).unwrap());
    }
    let env: Vec<CString> = [
        format!("SIM_SHM_FD={}", region.fd),
        format!("RAYON_NUM_THREADS={}", p.num("threads", 2).clamp(1, 16)),
        "RUST_BACKTRACE=0".into(),
        "PATH=/usr/bin:/bin".into(),
    ]
    .iter()
    .map(|s: &String| CString::new(s.as_str()).unwrap())
    .collect();
    let mut ap: Vec<*const u8> = av.iter().map(|c| c.as_ptr() as *const u8).collect();
    ap.push(std::ptr::null());
    let mut ep: Vec<*const u8> = env.iter().map(|c| c.as_ptr() as *const u8).collect();
    ep.push(std::ptr::null());
    let pc = CString::new(path).unwrap();
    unsafe {
        libc::execve(pc.as_ptr() as *const u8, ap.as_ptr(), ep.as_ptr());
        libc::_exit(77)
    }
}

enum Want {
    Digest(Vec<Vec<u8>>), // acceptable lines
    Fail,
    Either(Vec<u8>),
    Any,
}

fn printable(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(200)]).replace('\n', "\\n");
    if b.len() > 200 {
        format!("{}... ({} bytes)", s, b.len())
    } else {
        s
    }
}

fn find(hay: &[u8], needle: &[u8]) -> bool {
    needle.is_empty() || hay.windows(needle.len()).any(|w| w == needle)
}

fn has_token(text: &[u8], hexlen: usize) -> bool {
    text.split(|b| b" \n:\t".contains(b)).any(|t| t.len() == hexlen && t.iter().all(|c| c.is_ascii_hexdigit()))
}

/// Matches `text` (what was printed) against the expectations, in order.
/// Returns the text that belongs to no digest line and, for each input,
/// whether its digest was found; None if they can't be matched.
fn walk(text: &[u8], want: &[Want]) -> Option<(Vec<u8>, Vec<bool>)> {
    let Some(w) = want.first() else { return Some((text.to_vec(), vec![])) };
    let (lines, must): (&[Vec<u8>], bool) = match w {
        Want::Digest(l) => (l, true),
        Want::Either(l) => (std::slice::from_ref(l), false),
        Want::Fail | Want::Any => (&[], false),
    };
    // skip whole lines (reports) up to the digest line
    let mut at = 0;
    while !lines.is_empty() {
        if let Some(l) = lines.iter().find(|l| text[at..].starts_with(l)) {
            if let Some((rest, mut found)) = walk(&text[at + l.len()..], &want[1..]) {
                let mut other = text[..at].to_vec();
                other.extend_from_slice(&rest);
                found.insert(0, true);
                return Some((other, found));
            }
            if must {
                return None;
            }
        }
        match text[at..].iter().position(|&b| b == b'\n') {
            Some(nl) => at += nl + 1,
            None => break,
        }
    }
    if must {
        return None;
    }
    let (other, mut found) = walk(text, &want[1..])?;
    found.insert(0, false);
    Some((other, found))
}

/// The command was killed by SIGBUS: an input was mapped, and the disk could
/// not deliver one of its pages.
pub fn judge_bus(sc: &Scenario, s: &mut Shared) -> (String, String) {
    s.cnt[C_CHECKS] += 1;
    let n = sc.files.iter().find(|f| s.files[f.idx].fired & 16 != 0).map(|f| printable(&f.name));
    match n {
        Some(n) => (
            "mapped-page-error".into(),
            format!("arguments {:?}: killed by SIGBUS, as a page of {} can't be read; the failure is not reported and the inputs after it are not hashed", argv_text(sc), n),
        ),
        None => ("signal 7".into(), "the process died".into()),
    }
}

const SHOWN: usize = 12;
/// Whether a text shows part of a key that was given, right or malformed: so
/// many digits of it in a row, or its bytes or words, raw, in hexadecimal or
/// as a list of numbers.
fn shown(sc: &Scenario, text: &[u8]) -> Option<String> {
    let text = text.to_ascii_lowercase();
    let bare: Vec<u8> = text.iter().copied().filter(|c| !c.is_ascii_whitespace()).collect();
    let has = |t: &[u8], x: &[u8]| x.len() <= t.len() && t.windows(x.len()).any(|w| w == x);
    for a in &sc.argv {
        let at = match (a.starts_with(b"--"), a.iter().position(|&c| c == b'=')) {
            (true, Some(at)) if a[..at].ends_with(b"key") => at,
            _ => continue,
        };
        let key = a[at + 1..].to_ascii_lowercase();
        if let Some(w) = key.windows(SHOWN).find(|w| w.iter().all(|c| c.is_ascii_hexdigit()) && has(&text, w)) {
            return Some(format!("the digits {} of the key are shown", printable(w)));
        }
        let bytes: Vec<u8> = key
            .chunks_exact(2)
            .map_while(|d| std::str::from_utf8(d).ok().and_then(|d| u8::from_str_radix(d, 16).ok()))
            .collect();
        if bytes.windows(8).any(|w| has(&text, w)) {
            return Some("bytes of the key are shown".into());
        }
        let list = |w: &[u8], f: &dyn Fn(&u8) -> String| w.iter().map(f).collect::<Vec<_>>().join(",").into_bytes();
        let part = |w: &[u8]| has(&bare, &list(w, &|b| format!("{}", b))) || has(&bare, &list(w, &|b| format!("{:x}", b))) || has(&bare, &list(w, &|b| format!("0x{:x}", b)));
        if bytes.windows(6).any(part) {
            return Some("bytes of the key are listed".into());
        }
        let words: Vec<u32> = bytes.chunks_exact(4).map(|w| u32::from_le_bytes([w[0], w[1], w[2], w[3]])).collect();
        if words.windows(2).any(|w| w[0] > 9999 && w[1] > 9999 && has(&bare, format!("{},{}", w[0], w[1]).as_bytes())) {
            return Some("words of the key are listed".into());
        }
    }
    None
}

/// Judges a finished run. Err((class, detail)).
pub fn judge(sc: &Scenario, s: &mut Shared, code: i32) -> Result<(), (String, String)> {
    let fail = |c: &str, d: String| Err((c.to_string(), d));
    let total = s.out_total;
    let out: Vec<u8> = s.out[..(total as usize).min(OUT_CAP)].to_vec();
    let err: Vec<u8> = s.err[..(s.err_total as usize).min(ERR_CAP)].to_vec();
    s.cnt[C_CHECKS] += 1;
    let write_failed = s.cnt[23] > 0;
    if code == 101 && total == 0 && sc.inputs.iter().any(|n| std::str::from_utf8(n).is_err()) {
        return fail("non-utf8-name", format!("arguments {:?}: exit 101, no input was hashed; stderr \"{}\"", argv_text(sc), printable(&err)));
    }
    if sc.pure && s.effect[0] != 0 {
        let n = s.effect.iter().position(|&b| b == 0).unwrap_or(s.effect.len());
        return fail("side-effect", format!("arguments {:?}: tried to {}", argv_text(sc), printable(&s.effect[..n])));
    }
    if sc.secret {
        if let Some(what) = shown(sc, &out).or_else(|| shown(sc, &err)) {
            return fail("key-shown", format!("{}: printed \"{}\", stderr \"{}\"", what, printable(&out), printable(&err)));
        }
    }
    if sc.bounds {
        let n = sc.inputs.len() as u64;
        if std::env::var_os("SIM_MEASURE").is_some() {
            eprintln!("measure inputs {} mem {} fd {} map {} samples {:?}", n, s.mem_peak, s.fd_peak, s.map_peak, &s.samples[..s.n_samples as usize]);
        }
        if s.mem_peak > CLI_MEM + CLI_MEM_EACH * n * n {
            return fail("memory", format!("{} bytes of memory in use at once, with {} inputs and {} bytes printed", s.mem_peak, n, total));
        }
        let k = s.n_samples as usize;
        let low: [i64; 8] = std::array::from_fn(|q| s.samples[q * k / 8..(q + 1) * k / 8].iter().map(|&x| x as i64).min().unwrap_or(0));
        if k >= SAMPLES / 2 && crate::cyc::growing(&low, CLI_GROWTH) {
            return fail("leak", format!("memory in use keeps growing: at least {:?} bytes in the eighths of {} reads and writes", low, s.sample_every * k as u64));
        }
        if s.fd_peak > CLI_FDS {
            return fail("descriptors", format!("{} descriptors open at once, with {} inputs", s.fd_peak, n));
        }
        if s.map_peak > CLI_MAPS {
            return fail("mappings", format!("{} inputs mapped at once, of {}", s.map_peak, n));
        }
    }
    let hexlen = sc.len.saturating_mul(2).min(1 << 30) as usize;
    if sc.bad {
        if code == 0 {
            return fail("bad-option-accepted", format!("arguments {:?}: exit status 0, output {}", argv_text(sc), printable(&out)));
        }
        for n in [64usize, hexlen] {
            if n >= 16 && (has_token(&out, n) || out.len() >= n && out[..n].iter().all(|c| c.is_ascii_hexdigit())) {
                return fail("bad-option-digest", format!("arguments {:?}: printed {}", argv_text(sc), printable(&out)));
            }
        }
        return Ok(());
    }
    let known = std::cell::RefCell::new(std::collections::HashMap::new());
    let hexout = |f: &File, len: u64| -> Vec<u8> {
        if let Some(v) = known.borrow().get(&(f.idx, f.kind, len)) {
            return Vec::clone(v);
        }
        // no more than what can be compared
        let cap = OUT_CAP as u64 / 2;
        let n = if sc.len < cap { sc.len } else { (total / 2).min(cap) + 64 } as usize;
        let root = if f.big > 0 {
            crate::big::message(sc.mode, len, crate::big::MARK).root()
        } else {
            Msg::of(sc.mode, sc.key, &f.data[..len as usize]).root()
        };
        let v = model::hex(&root.xof(n)).into_bytes();
        known.borrow_mut().insert((f.idx, f.kind, len), v.clone());
        v
    };
    let many = sc.inputs.len() > 1;
    let line = |f: &File, len: u64, name: &[u8]| -> Vec<u8> {
        let mut v = hexout(f, len);
        if many {
            v.extend_from_slice(b"  ");
            v.extend_from_slice(name);
        }
        v.push(b'\n');
        v
    };
    let fired = |f: &File| s.files[f.idx].fired;
    let mut want: Vec<Want> = vec![];
    let mut names: Vec<Vec<u8>> = vec![];
    let implicit = sc.inputs.is_empty();
    let list: Vec<Vec<u8>> = if implicit { vec![b"-".to_vec()] } else { sc.inputs.clone() };
    let mut stdin_used = 0;
    let nothing = File { name: vec![], idx: 0, kind: 1, stat_len: 0, open_err: 0, mmap_err: 0, data: vec![], big: 0 };
    for n in &list {
        names.push(n.clone());
        if n == b"-" {
            let f = &sc.files[0];
            stdin_used += 1;
            if fired(f) & 11 != 0 {
                want.push(if stdin_used > 1 || list.iter().filter(|x| *x == b"-").count() > 1 { Want::Any } else { Want::Fail });
            } else {
                want.push(Want::Digest(vec![if stdin_used == 1 { line(f, f.len(), n) } else { line(&nothing, 0, n) }]));
            }
            continue;
        }
        let f = sc.files.iter().skip(1).find(|f| f.name == *n).expect("listed");
        let fr = fired(f);
        if fr & 25 != 0 || f.kind == 3 || f.open_err != 0 {
            want.push(Want::Fail);
        } else if fr & 6 != 0 {
            // whether to go on without knowing the size, or without a mapping,
            // is the command's choice
            want.push(Want::Either(line(f, f.len(), n)));
        } else {
            let mut l = vec![line(f, f.len(), n)];
            if f.kind == 0 && f.mmap_err == 0 && f.stat_len > 0 && f.stat_len < f.len() && f.stat_len < 1 << 63 {
                l.push(line(f, f.stat_len, n));
            }
            want.push(Want::Digest(l));
        }
    }
    let uncertain = want.iter().any(|w| !matches!(w, Want::Digest(l) if l.len() == 1));
    let all_ok = want.iter().all(|w| matches!(w, Want::Digest(_)));
    let threads_failed = (sc.tfail && s.cnt[C_TFAIL] > 0) || (sc.afail && s.cnt[28] > 0);
    if write_failed || (threads_failed && code != 0) {
        if code == 0 {
            return fail("write-error-ignored", "standard output failed but the exit status is 0".into());
        }
        if !uncertain {
            let full: Vec<u8> = want
                .iter()
                .flat_map(|w| match w {
                    Want::Digest(l) => l[0].clone(),
                    _ => vec![],
                })
                .collect();
            let n = out.len().min(full.len());
            if out[..n] != full[..n] {
                let at = out.iter().zip(&full).take_while(|(a, b)| a == b).count();
                return fail("output", format!("before the failure, byte {} of the output is wrong: {}", at, printable(&out[at..])));
            }
            if out.len() > full.len() {
                return fail("output", "more output than expected before the failure".into());
            }
        }
        return Ok(());
    }
    if implicit && matches!(want[0], Want::Fail) {
        if code == 0 {
            return fail("status", "standard input failed but the exit status is 0".into());
        }
        if has_token(&out, hexlen) && hexlen >= 16 {
            return fail("failed-input-digest", format!("standard input failed, yet printed {}", printable(&out)));
        }
        if err.is_empty() && out.is_empty() {
            return fail("unreported", "standard input failed and nothing was reported".into());
        }
        return Ok(());
    }
    if all_ok && !uncertain {
        let full: Vec<u8> = want
            .iter()
            .flat_map(|w| match w {
                Want::Digest(l) => l[0].clone(),
                _ => vec![],
            })
            .collect();
        let n = full.len().min(OUT_CAP);
        if out.len() != n || out[..] != full[..n] {
            let at = out.iter().zip(&full).take_while(|(a, b)| a == b).count();
            return fail(
                "output",
                format!(
                    "arguments {:?}: exit {}, {} bytes printed; from byte {} got \"{}\" want \"{}\"; stderr \"{}\"",
                    argv_text(sc), code, total, at, printable(&out[at..]), printable(&full[at.min(full.len())..]), printable(&err)
                ),
            );
        }
        if sc.len < OUT_CAP as u64 / 2 && total != full.len() as u64 {
            return fail("output", format!("{} bytes printed, expected {}", total, full.len()));
        }
        if code != 0 {
            return fail("status", format!("every input succeeded but the exit status is {}", code));
        }
        return Ok(());
    }
    let Some((other, found)) = walk(&out, &want) else {
        return fail(
            "output",
            format!("arguments {:?}: a digest line is missing, wrong or out of order: exit {}, printed \"{}\" stderr \"{}\"", argv_text(sc), code, printable(&out), printable(&err)),
        );
    };
    let any = want.iter().any(|w| matches!(w, Want::Any));
    let mut fails = false;
    for ((w, n), hit) in want.iter().zip(&names).zip(&found) {
        if matches!(w, Want::Any) || *hit {
            continue;
        }
        fails = true;
        if !find(&other, n) && !find(&err, n) {
            return fail("unreported", format!("the failure of {:?} was not reported; exit {}, printed \"{}\"", printable(n), code, printable(&out)));
        }
    }
    if !any && hexlen >= 16 && has_token(&other, hexlen) {
        return fail("failed-input-digest", format!("a digest was printed for an input that failed: \"{}\"", printable(&other)));
    }
    if fails && code == 0 {
        return fail("status", format!("an input failed but the exit status is 0; printed \"{}\"", printable(&out)));
    }
    if !fails && !any && code != 0 {
        return fail("status", format!("every input succeeded but the exit status is {}", code));
    }
    let either = want.iter().any(|w| matches!(w, Want::Either(_)));
    if !fails && !any && !either && !other.is_empty() {
        return fail("output", format!("unexpected output \"{}\"", printable(&other)));
    }
    Ok(())
}

pub fn argv_text(sc: &Scenario) -> Vec<String> {
    sc.argv.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect()
}
