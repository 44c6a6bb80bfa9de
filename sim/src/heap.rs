//! Memory of the simulated processes: every allocation is charged to the process
//! whose code (not the simulator's below it) asked for it, until it is freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

const MAX: usize = 256;
thread_local! {
    /// 1 + process of this thread
    static OWNER: Cell<u32> = const { Cell::new(0) };
    static HELD: Cell<u32> = const { Cell::new(0) };
}
static LIVE: [AtomicI64; MAX] = [const { AtomicI64::new(0) }; MAX];
static PEAK: [AtomicI64; MAX] = [const { AtomicI64::new(0) }; MAX];

/// the thread is inside the simulator
pub struct Hold(());
impl Hold {
    #[inline(always)]
    pub fn new() -> Hold {
        let _ = HELD.try_with(|h| h.set(h.get() + 1));
        Hold(())
    }
}
impl Drop for Hold {
    #[inline(always)]
    fn drop(&mut self) {
        let _ = HELD.try_with(|h| h.set(h.get() - 1));
    }
}

pub fn own(proc: usize) {
    OWNER.with(|o| o.set(proc as u32 + 1));
}
pub fn reset(p: usize) {
    if p < MAX {
        LIVE[p].store(0, Relaxed);
        PEAK[p].store(0, Relaxed);
    }
}
pub fn live(p: usize) -> i64 {
    LIVE.get(p).map_or(0, |x| x.load(Relaxed))
}
/// the most since the last call of `mark`
pub fn peak(p: usize) -> i64 {
    PEAK.get(p).map_or(0, |x| x.load(Relaxed))
}
pub fn mark(p: usize) {
    if p < MAX {
        PEAK[p].store(live(p), Relaxed);
    }
}

fn owner() -> u32 {
    if !crate::kern::in_sim() || HELD.try_with(|h| h.get()).unwrap_or(1) != 0 {
        return 0;
    }
    OWNER.try_with(|o| o.get()).unwrap_or(0)
}
#[inline(always)]
fn charge(o: u32, n: i64) {
    if o == 0 || o as usize > MAX {
        return;
    }
    let i = o as usize - 1;
    let v = LIVE[i].fetch_add(n, Relaxed) + n;
    if v > PEAK[i].load(Relaxed) {
        PEAK[i].store(v, Relaxed);
    }
}

pub struct Counting;
#[inline(always)]
fn head(l: &Layout) -> usize {
    l.align().max(16)
}
#[inline(always)]
unsafe fn finish(p: *mut u8, l: Layout) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    let o = owner();
    let q = p.add(head(&l));
    (q as *mut u32).sub(1).write(o);
    charge(o, l.size() as i64);
    q
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Ok(b) = Layout::from_size_align(l.size() + head(&l), l.align().max(16)) else { return std::ptr::null_mut() };
        finish(System.alloc(b), l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let Ok(b) = Layout::from_size_align(l.size() + head(&l), l.align().max(16)) else { return std::ptr::null_mut() };
        finish(System.alloc_zeroed(b), l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let o = (p as *mut u32).sub(1).read();
        charge(o, -(l.size() as i64));
        System.dealloc(p.sub(head(&l)), Layout::from_size_align_unchecked(l.size() + head(&l), l.align().max(16)))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let h = head(&l);
        if n.checked_add(h).is_none() {
            return std::ptr::null_mut();
        }
        let o = (p as *mut u32).sub(1).read();
        let b = Layout::from_size_align_unchecked(l.size() + h, l.align().max(16));
        let q = System.realloc(p.sub(h), b, n + h);
        if q.is_null() {
            return q;
        }
        // it stays with whom it belongs to
        charge(o, n as i64 - l.size() as i64);
        q.add(h)
    }
}
