//! What is left in freed memory: an allocator that looks for secrets in the blocks it gets back.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

/// Freed memory is overwritten from now on, so that nothing is found in a block that was freed before.
pub static POISON: AtomicBool = AtomicBool::new(false);
pub const PIECE: usize = 8;

#[derive(Clone, Copy)]
struct Watch {
    p: *const u8,
    n: usize,
    found: usize,
}
thread_local! {
    static WATCH: Cell<Watch> = const { Cell::new(Watch { p: std::ptr::null(), n: 0, found: 0 }) };
}
/// To be called for every block before it is freed
pub unsafe fn freed(p: *mut u8, size: usize) {
    let _ = WATCH.try_with(|w| {
        let mut x = w.get();
        if x.n == 0 || size < PIECE {
            return;
        }
        let secret = std::slice::from_raw_parts(x.p, x.n);
        if contains(p, size, secret) {
            x.found += 1;
            w.set(x);
        }
    });
    if POISON.load(Ordering::Relaxed) {
        std::ptr::write_bytes(p, 0xdd, size);
    }
}
/// one of the pieces of the secret is found in the memory
pub unsafe fn contains(p: *const u8, size: usize, secret: &[u8]) -> bool {
    let at = |i: usize| std::ptr::read_volatile(p.add(i));
    for piece in secret.chunks(PIECE).filter(|c| c.len() == PIECE) {
        for i in 0..=size - PIECE {
            if at(i) == piece[0] && (1..PIECE).all(|k| at(i + k) == piece[k]) {
                return true;
            }
        }
    }
    false
}
/// How many blocks that this thread frees during the call contain a piece of the secret. The secret should
/// be random.
pub fn watch<T>(secret: &[u8], f: impl FnOnce() -> T) -> (T, usize) {
    WATCH.with(|w| w.set(Watch { p: secret.as_ptr(), n: secret.len(), found: 0 }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let found = WATCH.with(|w| w.replace(Watch { p: std::ptr::null(), n: 0, found: 0 }).found);
    match r {
        Ok(r) => (r, found),
        Err(e) => std::panic::resume_unwind(e),
    }
}
/// An object is dropped where it stands: whether a piece of the secret was there before and after, or in a
/// block that is freed meanwhile
pub fn dropped<T>(x: T, secret: &[u8]) -> (bool, bool) {
    let mut m = std::mem::MaybeUninit::new(x);
    let p = m.as_mut_ptr() as *const u8;
    let n = std::mem::size_of::<T>();
    unsafe {
        let before = n >= PIECE && contains(p, n, secret);
        let (_, found) = watch(secret, || std::ptr::drop_in_place(m.as_mut_ptr()));
        (before, found > 0 || n >= PIECE && contains(p, n, secret))
    }
}
/// random bytes, also where the generator yields zeros
pub fn secret(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed ^ 0x5ec2_e7b0_1d5e_c2e7;
    (0..n)
        .map(|_| {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            ((z ^ (z >> 31)) >> 24) as u8
        })
        .collect()
}
pub struct Watched;
unsafe impl GlobalAlloc for Watched {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        freed(p, l.size());
        System.dealloc(p, l)
    }
}
