//! Mirror of rt/simrt.h, and the runtime's entry points.
#![allow(dead_code)]

pub const MAX_DEV: usize = 16384;
pub const COV: usize = 32768;
pub const NCNT: usize = 64;
pub const MSG: usize = 4096;
pub const SAMPLES: usize = 128;
pub const MAX_FILES: usize = 16;
pub const MAX_STEPS: usize = 8192;
pub const OUT_CAP: usize = 1 << 20;
pub const ERR_CAP: usize = 1 << 16;
pub const CONTENT_CAP: usize = 16 << 20;

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_DEADLOCK: u32 = 3;
pub const ST_STEPCAP: u32 = 4;
pub const ST_HARNESS: u32 = 5;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Dev {
    pub tick: u64,
    pub kind: u32,
    pub arg: u32,
}

#[repr(C)]
pub struct VFile {
    pub name: [u8; 96],
    pub kind: u32,
    pub open_err: i32,
    pub stat_err: i32,
    pub mmap_err: i32,
    pub off: u64,
    pub len: u64,
    pub stat_len: u64,
    pub script: u32,
    pub n_script: u32,
    pub fired: u32,
    pub mapped: u32,
    pub period: u64,
    pub rcap: u64,
    pub bad: u64,
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Step {
    pub kind: u32,
    pub pad: u32,
    pub arg: u64,
}

#[repr(C)]
pub struct Shared {
    pub magic: u32,
    pub cpu_level: u32,
    pub strategy: u32,
    pub spurious_pm: u32,
    pub seed: u64,
    pub quantum: u64,
    pub max_ticks: u64,
    pub pct_len: u64,
    pub pct_depth: u32,
    pub n_dev: u32,
    pub n_files: u32,
    pub n_wscript: u32,
    pub wscript: u32,
    pub wfail_errno: u32,
    pub tfail_from: u32,
    pub tfail_count: u32,
    pub afail_from: u64,
    pub afail_count: u64,
    pub afail_min: u64,
    pub afail_late: u64,
    pub stdin_pos: u64,
    pub wfail_at: u64,
    pub status: u32,
    pub cur_client: u32,
    pub cur_op: u32,
    pub n_threads: u32,
    pub ticks: u64,
    pub sim_ns: u64,
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub out_total: u64,
    pub err_total: u64,
    pub mem_peak: u64,
    pub fd_peak: u32,
    pub map_peak: u32,
    pub n_samples: u32,
    pub pad2: u32,
    pub sample_every: u64,
    pub samples: [u64; SAMPLES],
    pub n_rec: u32,
    pub rec_overflow: u32,
    pub n_edges: u32,
    pub pad1: u32,
    pub cnt: [u64; NCNT],
    pub effect: [u8; 160],
    pub msg: [u8; MSG],
    pub cov: [u8; COV],
    pub dev: [Dev; MAX_DEV],
    pub rec: [Dev; MAX_DEV],
    pub files: [VFile; MAX_FILES],
    pub steps: [Step; MAX_STEPS],
    pub out: [u8; OUT_CAP],
    pub err: [u8; ERR_CAP],
    pub content: [u8; CONTENT_CAP],
}

// Counters incremented by the C side, by index.
pub const CNT_NAMES: [(usize, &str); 49] = [
    (0, "sched_switches"),
    (1, "sched_preemptions"),
    (2, "futex_waits"),
    (3, "futex_wakes"),
    (4, "fault_spurious_wakeup"),
    (5, "thread_yields"),
    (6, "threads_created"),
    (7, "sim_sleeps"),
    (8, "futex_timeouts"),
    (9, "fault_thread_starved"),
    (10, "vfs_open"),
    (11, "fault_vfs_open_error"),
    (27, "fault_vfs_bad_sector"),
    (12, "fault_vfs_stat_error"),
    (13, "vfs_mmap"),
    (14, "fault_vfs_mmap_error"),
    (15, "vfs_read"),
    (16, "fault_vfs_short_read"),
    (17, "fault_vfs_read_eintr"),
    (18, "fault_vfs_read_error"),
    (19, "fault_vfs_read_delay"),
    (20, "vfs_write"),
    (21, "fault_vfs_short_write"),
    (22, "fault_vfs_write_eintr"),
    (23, "fault_vfs_write_error"),
    (24, "fault_vfs_write_delay"),
    (25, "fault_vfs_file_grew"),
    (28, "fault_allocation"),
    (C_TFAIL, "fault_thread_creation"),
    (C_CHECKS, "oracle_comparisons"),
    (C_BYTES, "message_bytes"),
    (C_RSHORT, "fault_reader_short"),
    (C_REINTR, "fault_reader_interrupted"),
    (C_RERR, "fault_reader_error"),
    (C_RPANIC, "fault_reader_panic"),
    (C_REOF, "fault_reader_early_eof"),
    (C_RDELAY, "fault_reader_delay"),
    (C_RSCRIB, "fault_reader_scribble"),
    (C_WSHORT, "fault_writer_short"),
    (C_WEINTR, "fault_writer_interrupted"),
    (C_WZERO, "fault_writer_zero"),
    (C_WERR, "fault_writer_error"),
    (C_WPANIC, "fault_writer_panic"),
    (C_RESTORE, "fault_crash_restore_from_checkpoint"),
    (C_CPU, "fault_cpu_level_change"),
    (C_GUARD, "guarded_inputs"),
    (C_MIGRATE, "hasher_thread_migrations"),
    (C_ONESHOT, "oneshot_hashes"),
    (C_FARSKIP, "interpreter_gave_no_answer"),
];
pub const C_TFAIL: usize = 26;
pub const C_CHECKS: usize = 32;
pub const C_BYTES: usize = 33;
pub const C_RSHORT: usize = 34;
pub const C_REINTR: usize = 35;
pub const C_RERR: usize = 36;
pub const C_RPANIC: usize = 37;
pub const C_REOF: usize = 38;
pub const C_RDELAY: usize = 39;
pub const C_RSCRIB: usize = 40;
pub const C_WSHORT: usize = 41;
pub const C_WEINTR: usize = 42;
pub const C_WZERO: usize = 43;
pub const C_WERR: usize = 44;
pub const C_WPANIC: usize = 45;
pub const C_RESTORE: usize = 46;
pub const C_CPU: usize = 47;
pub const C_GUARD: usize = 48;
pub const C_MIGRATE: usize = 49;
pub const C_ONESHOT: usize = 50;
pub const C_FARSKIP: usize = 51;

extern "C" {
    pub static mut sim_shm: *mut Shared;
    pub fn sim_start(s: *mut Shared);
    pub fn sim_stop();
    pub fn sim_point();
    pub fn sim_sleep(ns: u64);
    pub fn sim_log(v: u64);
    pub fn sim_ticks() -> u64;
    pub static mut sim_timed: i32;
    pub fn sim_mem_live() -> i64;
    pub fn sim_mem_peak() -> i64;
    pub fn sim_mem_mark();
    fn sim_die(status: u32, msg: *const u8) -> !;
}

pub mod libc {
    #![allow(non_camel_case_types)]
    extern "C" {
        pub fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        pub fn munmap(a: *mut u8, len: usize) -> i32;
        pub fn mprotect(a: *mut u8, len: usize, prot: i32) -> i32;
        pub fn fork() -> i32;
        pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        pub fn _exit(c: i32) -> !;
        pub fn memfd_create(name: *const u8, flags: u32) -> i32;
        pub fn ftruncate(fd: i32, len: i64) -> i32;
        pub fn execve(p: *const u8, argv: *const *const u8, envp: *const *const u8) -> i32;
        pub fn dup2(a: i32, b: i32) -> i32;
        pub fn open(p: *const i8, fl: i32, ...) -> i32;
        pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
        pub fn sched_setaffinity(pid: i32, len: usize, mask: *const u8) -> i32;
        pub fn personality(p: u64) -> i32;
    }
    pub const PROT_NONE: i32 = 0;
    pub const PROT_READ: i32 = 1;
    pub const PROT_WRITE: i32 = 2;
    pub const MAP_SHARED: i32 = 1;
    pub const MAP_PRIVATE: i32 = 2;
    pub const MAP_FIXED: i32 = 0x10;
    pub const MAP_ANON: i32 = 0x20;
    pub const MAP_NORESERVE: i32 = 0x4000;
    pub const RLIMIT_CPU: i32 = 0;
    pub const RLIMIT_CORE: i32 = 4;
}

/// The shared region, as a memfd so that exec'd children can map it too.
pub struct Region {
    pub p: *mut Shared,
    pub fd: i32,
}

impl Region {
    pub fn new() -> Region {
        unsafe {
            let fd = libc::memfd_create(b"sim\0".as_ptr(), 0);
            let len = std::mem::size_of::<Shared>();
            assert!(fd >= 0 && libc::ftruncate(fd, len as i64) == 0);
            let p = libc::mmap(std::ptr::null_mut(), len, 3, libc::MAP_SHARED, fd, 0);
            assert!(p as isize != -1);
            Region { p: p as *mut Shared, fd }
        }
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut Shared {
        unsafe { &mut *self.p }
    }
    pub fn reset(&self) {
        let s = self.get();
        let head = unsafe {
            std::slice::from_raw_parts_mut(
                self.p as *mut u8,
                (&s.dev as *const _ as usize) - (self.p as usize),
            )
        };
        head.fill(0);
        for f in s.files.iter_mut() {
            f.name[0] = 0;
            f.fired = 0;
            f.mapped = 0;
        }
        s.magic = 0x51;
        s.wfail_at = u64::MAX;
    }
}

pub fn cur() -> Option<&'static mut Shared> {
    unsafe {
        let p = sim_shm;
        if p.is_null() {
            None
        } else {
            Some(&mut *p)
        }
    }
}

pub fn count(i: usize, n: u64) {
    if let Some(s) = cur() {
        s.cnt[i] += n;
    }
}

pub fn log(v: u64) {
    unsafe { sim_log(v) }
}

pub fn point() {
    unsafe { sim_point() }
}

pub fn die(status: u32, msg: &str) -> ! {
    let mut m: Vec<u8> = msg.bytes().filter(|&b| b != 0).take(MSG - 2).collect();
    m.push(0);
    unsafe { sim_die(status, m.as_ptr()) }
}
