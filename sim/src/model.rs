//! Executable specification, written from the published algorithm and checked
//! against vectors of the Python implementation (golden.txt). Shares no code
//! with the implementation under test.
use std::cell::RefCell;

pub const CHUNK: u64 = 2048;
pub const BLOCK: usize = 64;

pub const IV: [u32; 8] = [
    0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19,
];

const F_START: u32 = 1;
const F_END: u32 = 2;
const F_PARENT: u32 = 4;
const F_ROOT: u32 = 8;

// Permutation applied to the message words between rounds; the schedule rows
// are its powers.
const SCHED: [[u8; 16]; 7] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Hash,
    Keyed,
    Derive,
}

impl Mode {
    pub fn flags(self) -> u32 {
        match self {
            Mode::Hash => 0,
            Mode::Keyed => 16,
            Mode::Derive => 32,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Mode::Hash => "hash",
            Mode::Keyed => "keyed",
            Mode::Derive => "derive",
        }
    }
    pub fn parse(s: &str) -> Mode {
        match s {
            "keyed" => Mode::Keyed,
            "derive" => Mode::Derive,
            _ => Mode::Hash,
        }
    }
}

#[inline(always)]
fn mixg(v: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
    v[d] = (v[d] ^ v[a]).rotate_right(16);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(12);
    v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
    v[d] = (v[d] ^ v[a]).rotate_right(8);
    v[c] = v[c].wrapping_add(v[d]);
    v[b] = (v[b] ^ v[c]).rotate_right(7);
}

pub fn compress(cv: &[u32; 8], block: &[u8; 64], len: u32, offset: u64, flags: u32) -> [u32; 16] {
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]);
    }
    let mut v = [
        cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], IV[0], IV[1], IV[2], IV[3],
        offset as u32, (offset >> 32) as u32, len, flags,
    ];
    for s in SCHED.iter() {
        let w = |i: usize| m[s[i] as usize];
        mixg(&mut v, 0, 4, 8, 12, w(0), w(1));
        mixg(&mut v, 1, 5, 9, 13, w(2), w(3));
        mixg(&mut v, 2, 6, 10, 14, w(4), w(5));
        mixg(&mut v, 3, 7, 11, 15, w(6), w(7));
        mixg(&mut v, 0, 5, 10, 15, w(8), w(9));
        mixg(&mut v, 1, 6, 11, 12, w(10), w(11));
        mixg(&mut v, 2, 7, 8, 13, w(12), w(13));
        mixg(&mut v, 3, 4, 9, 14, w(14), w(15));
    }
    for i in 0..8 {
        v[i] ^= v[i + 8];
        v[i + 8] ^= cv[i];
    }
    v
}

pub fn key_words(k: &[u8; 32]) -> [u32; 8] {
    let mut w = [0; 8];
    for i in 0..8 {
        w[i] = u32::from_le_bytes([k[4 * i], k[4 * i + 1], k[4 * i + 2], k[4 * i + 3]]);
    }
    w
}

pub fn iv_bytes() -> [u8; 32] {
    let mut b = [0; 32];
    for i in 0..8 {
        b[4 * i..4 * i + 4].copy_from_slice(&IV[i].to_le_bytes());
    }
    b
}

/// A node of the tree just before its last compression.
#[derive(Clone)]
pub struct Node {
    cv: [u32; 8],
    block: [u8; 64],
    len: u32,
    offset: u64,
    flags: u32,
}

impl Node {
    fn value(&self) -> [u32; 8] {
        let o = compress(&self.cv, &self.block, self.len, self.offset, self.flags);
        let mut r = [0; 8];
        r.copy_from_slice(&o[..8]);
        r
    }
    /// Block number n of the extended output, with this node as the root.
    pub fn xof_block(&self, n: u64) -> [u8; 64] {
        let o = compress(&self.cv, &self.block, self.len, n.wrapping_mul(64), self.flags | F_ROOT);
        let mut r = [0; 64];
        for i in 0..16 {
            r[4 * i..4 * i + 4].copy_from_slice(&o[i].to_le_bytes());
        }
        r
    }
    pub fn digest(&self) -> [u8; 32] {
        let mut d = [0; 32];
        d.copy_from_slice(&self.xof_block(0)[..32]);
        d
    }
    pub fn xof(&self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 64);
        let mut i = 0;
        while v.len() < n {
            v.extend_from_slice(&self.xof_block(i));
            i += 1;
        }
        v.truncate(n);
        v
    }
}

fn chunk_node(key: &[u32; 8], data: &[u8], offset: u64, flags: u32) -> Node {
    let mut cv = *key;
    let mut start = F_START;
    let mut rest = data;
    while rest.len() > BLOCK {
        let mut b = [0; 64];
        b.copy_from_slice(&rest[..64]);
        let o = compress(&cv, &b, 64, offset, flags | start);
        cv.copy_from_slice(&o[..8]);
        start = 0;
        rest = &rest[64..];
    }
    let mut b = [0; 64];
    b[..rest.len()].copy_from_slice(rest);
    Node { cv, block: b, len: rest.len() as u32, offset, flags: flags | start | F_END }
}

fn parent_node(key: &[u32; 8], l: &[u32; 8], r: &[u32; 8], flags: u32) -> Node {
    let mut b = [0; 64];
    for i in 0..8 {
        b[4 * i..4 * i + 4].copy_from_slice(&l[i].to_le_bytes());
        b[32 + 4 * i..36 + 4 * i].copy_from_slice(&r[i].to_le_bytes());
    }
    Node { cv: *key, block: b, len: 64, offset: 0, flags: flags | F_PARENT }
}

/// Chaining values of aligned subtrees at the left edge of the periodic
/// content, from golden_big.txt: (start, length, value).
pub struct Big {
    pub mode: Mode,
    pub key: [u8; 32],
    pub known: Vec<(u64, u64, [u32; 8])>,
}

/// A message: optionally `base` bytes of the periodic pattern, then `tail`.
#[derive(Clone)]
pub struct Msg {
    pub mode: Mode,
    pub key: [u8; 32],
    pub base: u64,
    pub period: std::sync::Arc<Vec<u8>>,
    pub big: Option<std::sync::Arc<Big>>,
    pub tail: Vec<u8>,
    cvs: RefCell<Vec<[u32; 8]>>,
}

impl Msg {
    pub fn new(mode: Mode, key: [u8; 32]) -> Msg {
        Msg {
            mode,
            key,
            base: 0,
            period: Default::default(),
            big: None,
            tail: Vec::new(),
            cvs: RefCell::new(Vec::new()),
        }
    }
    pub fn of(mode: Mode, key: [u8; 32], data: &[u8]) -> Msg {
        let mut m = Msg::new(mode, key);
        m.push(data);
        m
    }
    pub fn push(&mut self, data: &[u8]) {
        self.tail.extend_from_slice(data);
    }
    pub fn len(&self) -> u64 {
        self.base + self.tail.len() as u64
    }
    fn kw(&self) -> [u32; 8] {
        if self.mode == Mode::Hash {
            IV
        } else {
            key_words(&self.key)
        }
    }
    fn bytes(&self, start: u64, len: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(len);
        let mut p = start;
        while v.len() < len {
            if p < self.base {
                let at = (p % self.period.len() as u64) as usize;
                let n = (self.period.len() - at).min(len - v.len()).min((self.base - p) as usize);
                v.extend_from_slice(&self.period[at..at + n]);
                p += n as u64;
            } else {
                let at = (p - self.base) as usize;
                let n = len - v.len();
                v.extend_from_slice(&self.tail[at..at + n]);
                p += n as u64;
            }
        }
        v
    }
    fn chunk(&self, start: u64, len: u64) -> Node {
        let f = self.mode.flags();
        if self.base == 0 {
            chunk_node(&self.kw(), &self.tail[start as usize..(start + len) as usize], start, f)
        } else {
            chunk_node(&self.kw(), &self.bytes(start, len as usize), start, f)
        }
    }
    fn chunk_cv(&self, start: u64, len: u64) -> [u32; 8] {
        // Full chunks at the head of a message never change: remember them.
        let i = (start / CHUNK) as usize;
        if self.base == 0 && len == CHUNK {
            let mut c = self.cvs.borrow_mut();
            if i < c.len() {
                return c[i];
            }
            let v = self.chunk(start, len).value();
            if i == c.len() {
                c.push(v);
            }
            return v;
        }
        self.chunk(start, len).value()
    }
    fn node(&self, start: u64, len: u64) -> Node {
        let left = left_size(len);
        let l = self.value(start, left);
        let r = self.value(start + left, len - left);
        parent_node(&self.kw(), &l, &r, self.mode.flags())
    }
    fn value(&self, start: u64, len: u64) -> [u32; 8] {
        if len <= CHUNK {
            return self.chunk_cv(start, len);
        }
        if let Some(b) = &self.big {
            if start + len <= self.base && b.mode == self.mode && b.key == self.key {
                for k in &b.known {
                    if k.0 == start && k.1 == len {
                        return k.2;
                    }
                }
            }
        }
        self.node(start, len).value()
    }
    /// Chaining value of an inner subtree (to make the golden table).
    pub fn subtree(&self, start: u64, len: u64) -> [u32; 8] {
        self.value(start, len)
    }
    pub fn root(&self) -> Node {
        let len = self.len();
        if len <= CHUNK {
            self.chunk(0, len)
        } else {
            self.node(0, len)
        }
    }
    pub fn digest(&self) -> [u8; 32] {
        self.root().digest()
    }
}

/// Bytes of the left subtree: the largest power of two of chunks that leaves
/// at least one byte for the right.
fn left_size(len: u64) -> u64 {
    let mut s = CHUNK;
    while s * 2 < len {
        s *= 2;
    }
    s
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
