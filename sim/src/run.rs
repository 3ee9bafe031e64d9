//! One simulated run: a forked (and, for the command, executed) process.
use crate::plan::Plan;
use crate::shm::*;
use crate::{cli, exec};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Violation { class: String, detail: String },
    Harness(String),
}

pub struct Runner {
    pub region: Region,
    pub cli: String,
    pub show: bool,
    pub prep: std::cell::RefCell<Option<(String, exec::Local)>>,
}

extern "C" {
    fn alarm(s: u32) -> u32;
}

pub fn child_setup(show: bool, as_limit: u64) {
    unsafe {
        if !show {
            let fd = libc::open(b"/dev/null\0".as_ptr() as *const i8, 2);
            for t in 0..3 {
                libc::dup2(fd, t);
            }
        }
        libc::setrlimit(libc::RLIMIT_CORE, &[0, 0]);
        libc::setrlimit(libc::RLIMIT_CPU, &[100, 110]);
        if as_limit > 0 && !crate::guard::exact() {
            libc::setrlimit(9, &[as_limit, as_limit]);
        }
        alarm(700);
    }
}

/// Turns the way a child ended, and what it left in the region, into an outcome.
pub fn outcome(st: i32, s: &Shared, cli: bool) -> Outcome {
    let msg = {
        let n = s.msg.iter().position(|&b| b == 0).unwrap_or(0);
        String::from_utf8_lossy(&s.msg[..n]).into_owned()
    };
    let at = |what: &str| format!("{} (client {} line {})", what, s.cur_client, s.cur_op);
    let v = |c: &str, d: String| Outcome::Violation { class: c.into(), detail: d };
    let sig = st & 0x7f;
    if sig != 0 {
        return match sig {
            24 => v("hang", at("the CPU time limit was reached without a step")),
            9 | 14 | 15 => Outcome::Harness(format!("killed by signal {}", sig)),
            n => v(&format!("signal {}", n), at("the process died")),
        };
    }
    let code = (st >> 8) & 0xff;
    match s.status {
        ST_OK if code == 0 => Outcome::Ok,
        ST_VIOLATION => {
            let mut it = msg.splitn(2, '|');
            let class = it.next().unwrap_or("").to_string();
            v(&class, it.next().unwrap_or("").to_string())
        }
        ST_DEADLOCK => v("deadlock", at(&msg)),
        ST_STEPCAP => v("no-progress", at(&msg)),
        ST_HARNESS => Outcome::Harness(msg),
        _ if cli => {
            if code == 77 || code == 88 {
                Outcome::Harness("could not execute the command".into())
            } else {
                Outcome::Ok // judged by the caller
            }
        }
        _ => v("exit", at(&format!("the process exited with status {}", code))),
    }
}

pub fn wait(pid: i32) -> i32 {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            return st;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(4) {
            return 9;
        }
    }
}

impl Runner {
    pub fn new(cli: String, show: bool) -> Runner {
        Runner { region: Region::new(), cli, show, prep: Default::default() }
    }
    pub fn run(&self, p: &Plan) -> Outcome {
        self.region.reset();
        match p.str("kind") {
            "cli" => self.run_cli(p),
            "far" => crate::far::run(self, p),
            "big" => crate::big::run_one(self, p),
            _ => {
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    child_setup(self.show, 16 << 30);
                    exec::run(p, &self.region, None);
                }
                if pid < 0 {
                    return Outcome::Harness("fork".into());
                }
                outcome(wait(pid), self.region.get(), false)
            }
        }
    }
    fn run_cli(&self, p: &Plan) -> Outcome {
        let Some(sc) = cli::build(p, &self.region) else {
            return Outcome::Harness("impossible plan".into());
        };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            child_setup(self.show, 64 << 30);
            cli::exec(&self.cli, p, &sc, &self.region);
        }
        if pid < 0 {
            return Outcome::Harness("fork".into());
        }
        let st = wait(pid);
        if st & 0x7f == 7 {
            let (class, detail) = cli::judge_bus(&sc, self.region.get());
            return Outcome::Violation { class, detail };
        }
        if st & 0x7f == 6 && sc.afail && self.region.get().cnt[28] > 0 {
            // giving up is all right when there is no memory
            return match cli::judge(&sc, self.region.get(), 134) {
                Ok(()) => Outcome::Ok,
                Err((class, detail)) => Outcome::Violation { class, detail },
            };
        }
        match outcome(st, self.region.get(), true) {
            Outcome::Ok => match cli::judge(&sc, self.region.get(), (st >> 8) & 0xff) {
                Ok(()) => Outcome::Ok,
                Err((class, detail)) => Outcome::Violation { class, detail },
            },
            o => o,
        }
    }
}
