//! Memory with hard edges: inputs placed against inaccessible pages and made
//! read-only during calls, and hashers placed at the end of a page with
//! canaries around them.
use crate::shm::{self, libc};
use std::ops::{Deref, DerefMut};

const PAGE: usize = 4096;
const CANARY: u8 = 0xA7;

extern "C" {
    static sim_asan_on: i32;
    fn sim_asan_poison(p: *mut u8, n: usize);
    fn sim_asan_allow(p: *mut u8, n: usize);
    fn sim_asan_clear_stack();
}
/// Is this one of the variants with byte-exact bounds (rt/asan.c)?
pub fn exact() -> bool {
    unsafe { sim_asan_on != 0 }
}
/// Frames left by a panic no longer count.
pub fn unwound() {
    unsafe { sim_asan_clear_stack() }
}

pub fn map(len: usize) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANON | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p as isize != -1, "mmap");
        p
    }
}

pub struct Arena {
    start: *mut u8,
    len: usize,
}

unsafe impl Send for Arena {}

impl Arena {
    pub fn new(cap: usize) -> Arena {
        let len = (cap + PAGE + 63) / PAGE * PAGE + PAGE;
        let p = map(len + 2 * PAGE);
        unsafe {
            libc::mprotect(p, PAGE, libc::PROT_NONE);
            libc::mprotect(p.add(PAGE + len), PAGE, libc::PROT_NONE);
            sim_asan_poison(p.add(PAGE), len);
            Arena { start: p.add(PAGE), len }
        }
    }

    fn at(&self, len: usize, place: &str) -> *mut u8 {
        let k: usize = place.get(1..).and_then(|s| s.parse().ok()).unwrap_or(0);
        let room = self.len - len;
        let off = match place.as_bytes().first() {
            Some(b's') => k.min(room),
            Some(b'm') => (PAGE + k).min(room),
            _ => room - k.min(room),
        };
        unsafe { self.start.add(off) }
    }

    /// Copies the data to the place and runs f on it while it is read-only.
    pub fn with<R>(&mut self, data: &[u8], place: &str, f: impl FnOnce(&[u8]) -> R) -> R {
        let any = format!("m{}", data.as_ptr() as usize & 15);
        let place = match place.starts_with('p') {
            true if exact() => &any,
            true => return f(data),
            false => place,
        };
        shm::count(shm::C_GUARD, 1);
        let p = self.at(data.len(), place);
        struct Poison(*mut u8, usize);
        impl Drop for Poison {
            fn drop(&mut self) {
                unsafe { sim_asan_poison((self.0 as usize & !7) as *mut u8, self.1 + 16) }
            }
        }
        struct Unprotect(*mut u8, usize);
        impl Drop for Unprotect {
            fn drop(&mut self) {
                unsafe { libc::mprotect(self.0, self.1, 3) };
            }
        }
        unsafe {
            std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
            let a = (p as usize) & !(PAGE - 1);
            let b = ((p as usize) + data.len() + PAGE - 1) & !(PAGE - 1);
            let _u = if b > a {
                libc::mprotect(a as *mut u8, b - a, libc::PROT_READ);
                Some(Unprotect(a as *mut u8, b - a))
            } else {
                None
            };
            sim_asan_allow(p, data.len());
            let _p = Poison(p, data.len());
            f(std::slice::from_raw_parts(p, data.len()))
        }
    }

    /// A writable buffer at the place, with canaries on both sides.
    pub fn out<R>(&mut self, len: usize, place: &str, f: impl FnOnce(&mut [u8]) -> R) -> (R, bool) {
        let p = self.at(len, place);
        unsafe {
            let lo = (p as usize - self.start as usize).min(64);
            let hi = (self.start as usize + self.len - (p as usize + len)).min(64);
            std::ptr::write_bytes(p.sub(lo), CANARY, lo + len + hi);
            sim_asan_allow(p, len);
            let r = f(std::slice::from_raw_parts_mut(p, len));
            sim_asan_poison((p as usize & !7) as *mut u8, len + 16);
            let ok = (0..lo).all(|i| *p.sub(1 + i) == CANARY)
                && (0..hi).all(|i| *p.add(len + i) == CANARY);
            (r, ok)
        }
    }
}

/// A key that can only be read, between inaccessible pages. It stays.
pub fn key(k: &[u8; 32], i: usize) -> &'static [u8; 32] {
    unsafe {
        let p = map(3 * PAGE);
        let at = p.add(PAGE + if i % 2 == 0 { PAGE - 32 } else { 0 });
        std::ptr::copy_nonoverlapping(k.as_ptr(), at, 32);
        sim_asan_poison(p.add(PAGE), PAGE);
        sim_asan_allow(at, 32);
        libc::mprotect(p, PAGE, libc::PROT_NONE);
        libc::mprotect(p.add(PAGE), PAGE, libc::PROT_READ);
        libc::mprotect(p.add(2 * PAGE), PAGE, libc::PROT_NONE);
        &*(at as *const [u8; 32])
    }
}

/// A value at the very end of its pages.
pub struct Guarded<T> {
    base: *mut u8,
    len: usize,
    val: *mut T,
}

// Whatever the library has made of T: the scheduler runs one thread at a time,
// and a library that takes Send or Sync away is to be run all the same.
unsafe impl<T> Send for Guarded<T> {}
unsafe impl<T> Sync for Guarded<T> {}

impl<T> Guarded<T> {
    pub fn new(v: T) -> Guarded<T> {
        let size = std::mem::size_of::<T>();
        let align = std::mem::align_of::<T>();
        let len = (size + align + 64 + PAGE - 1) / PAGE * PAGE;
        let base = map(len + PAGE);
        unsafe {
            libc::mprotect(base.add(len), PAGE, libc::PROT_NONE);
            std::ptr::write_bytes(base, CANARY, len);
            let at = (base as usize + len - size) & !(align - 1);
            let val = at as *mut T;
            std::ptr::write(val, v);
            sim_asan_poison(base, len);
            sim_asan_allow(val as *mut u8, size);
            Guarded { base, len, val }
        }
    }
    pub fn intact(&self) -> bool {
        let v = self.val as usize;
        let end = v + std::mem::size_of::<T>();
        let lim = self.base as usize + self.len;
        unsafe {
            (self.base as usize..v).rev().take(512).all(|a| *(a as *const u8) == CANARY)
                && (end..lim).all(|a| *(a as *const u8) == CANARY)
        }
    }
}

impl<T> Deref for Guarded<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.val }
    }
}
impl<T> DerefMut for Guarded<T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.val }
    }
}
impl<T> Drop for Guarded<T> {
    fn drop(&mut self) {
        unsafe {
            std::ptr::drop_in_place(self.val);
            sim_asan_allow(self.base, self.len);
            libc::munmap(self.base, self.len + PAGE);
        }
    }
}
