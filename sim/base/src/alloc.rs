//! The process allocator, behind a seam: counts and poisons blocks, quarantines
//! freed ones, and refuses requests when a fault plan is armed.
//!
//! State is per thread; the simulation runs on one thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

/// Which requests are refused.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Plan {
    /// 0: none, 1: only the k-th, 2: every one from the k-th, 3: those of at
    /// least `a` bytes, 4: those beyond a budget of `a` bytes, 5: all.
    pub kind: u64,
    pub a: u64,
    seen: u64,
    used: u64,
}

impl Plan {
    #[must_use]
    pub const fn new(kind: u64, a: u64) -> Self {
        Self { kind, a, seen: 0, used: 0 }
    }
    /// Decides one request.
    pub fn deny(&mut self, bytes: usize) -> bool {
        let k = self.seen;
        self.seen += 1;
        match self.kind {
            1 => k == self.a,
            2 => k >= self.a,
            3 => bytes as u64 >= self.a,
            4 => {
                if self.used.saturating_add(bytes as u64) > self.a {
                    true
                } else {
                    self.used += bytes as u64;
                    false
                }
            }
            5 => true,
            _ => false,
        }
    }
}

const LIVE: u64 = 0x4c49_5645_4c49_5645;
const FREED: u64 = 0x4652_4545_4652_4545;
const HEAD: usize = 32;
/// Requests above this are always refused (the sandbox has no swap).
pub const HUGE: usize = 1 << 30;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    flag: u64,
}

const QN: usize = 2048;
const QBYTES: usize = 8 << 20;

struct State {
    live: i64,
    allocs: u64,
    plan: Plan,
    armed: bool,
    fired: u64,
    watch: bool,
    watch_live: i64,
    watch_grown: u64,
    corrupt: u64,
    q: [(*mut u8, usize, usize); QN],
    qh: usize,
    qn: usize,
    qb: usize,
    /// Freed blocks per 64-byte granule, hashed; kept while `track`.
    track: bool,
    gran: [u16; GRAN],
}

const GRAN: usize = 1 << 14;
fn granules(p: usize, len: usize) -> impl Iterator<Item = usize> {
    ((p >> 6)..=((p + len.max(1) - 1) >> 6)).take(GRAN).map(|g| (g ^ g >> 14) % GRAN)
}

thread_local! {
    static ST: UnsafeCell<State> = const {
        UnsafeCell::new(State {
            live: 0, allocs: 0, plan: Plan::new(0, 0), armed: false, fired: 0,
            watch: false, watch_live: 0, watch_grown: 0, corrupt: 0,
            q: [(std::ptr::null_mut(), 0, 0); QN], qh: 0, qn: 0, qb: 0,
            track: false, gran: [0; GRAN],
        })
    };
}

fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    // SAFETY: single-threaded access per thread; closures never re-enter.
    ST.with(|s| f(unsafe { &mut *s.get() }))
}

pub struct SimGlobal;

fn pre(align: usize) -> usize {
    HEAD.max(align)
}

unsafe fn raw_alloc(size: usize, align: usize) -> *mut u8 {
    unsafe {
        let p = pre(align);
        let base = System.alloc(Layout::from_size_align_unchecked(size + p, align.max(16)));
        if base.is_null() {
            return base;
        }
        let user = base.add(p);
        let h = user.sub(HEAD).cast::<Header>();
        h.write(Header { magic: LIVE, size, align, flag: 0 });
        user
    }
}

unsafe fn raw_free(user: *mut u8, size: usize, align: usize) {
    unsafe {
        let p = pre(align);
        System.dealloc(user.sub(p), Layout::from_size_align_unchecked(size + p, align.max(16)));
    }
}

impl State {
    unsafe fn push_quarantine(&mut self, user: *mut u8, size: usize, align: usize) {
        unsafe {
            while self.qn == QN || (self.qn > 0 && self.qb + size > QBYTES) {
                self.pop_quarantine();
            }
            let i = (self.qh + self.qn) % QN;
            self.q[i] = (user, size, align);
            self.qn += 1;
            self.qb += size;
            if self.track {
                granules(user as usize, size).for_each(|g| self.gran[g] += 1);
            }
        }
    }
    unsafe fn pop_quarantine(&mut self) {
        unsafe {
            let (user, size, align) = self.q[self.qh];
            self.qh = (self.qh + 1) % QN;
            self.qn -= 1;
            self.qb -= size;
            if self.track {
                granules(user as usize, size).for_each(|g| self.gran[g] -= 1);
            }
            // A write after free destroys the poison.
            let len = size.min(256);
            let mut bad = false;
            for i in 0..len / 8 {
                bad |= user.add(i * 8).cast::<u64>().read_unaligned() != 0xdddd_dddd_dddd_dddd;
            }
            for i in len / 8 * 8..len {
                bad |= *user.add(i) != 0xdd;
            }
            if bad {
                self.corrupt += 1;
            }
            raw_free(user, size, align);
        }
    }
}

unsafe impl GlobalAlloc for SimGlobal {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let refuse = st(|s| {
            s.allocs += 1;
            if layout.size() > HUGE || (s.armed && s.plan.deny(layout.size())) {
                s.fired += u64::from(s.armed);
                true
            } else {
                false
            }
        });
        if refuse {
            return std::ptr::null_mut();
        }
        unsafe {
            let p = raw_alloc(layout.size(), layout.align());
            if !p.is_null() {
                std::ptr::write_bytes(p, 0xcd, layout.size());
                st(|s| {
                    s.live += 1;
                    if s.watch {
                        s.watch_live += 1;
                        (*p.sub(HEAD).cast::<Header>()).flag = 1;
                    }
                });
            }
            p
        }
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        unsafe {
            let p = self.alloc(layout);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, layout.size());
            }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        unsafe {
            let h = p.sub(HEAD).cast::<Header>();
            let magic = (*h).magic;
            if magic == FREED {
                st(|s| s.corrupt += 1);
                return;
            }
            if magic != LIVE || (*h).size != layout.size() || (*h).align != layout.align() {
                st(|s| s.corrupt += 1);
                return;
            }
            let flag = (*h).flag;
            (*h).magic = FREED;
            std::ptr::write_bytes(p, 0xdd, layout.size());
            st(|s| {
                s.live -= 1;
                if flag == 1 && s.watch {
                    s.watch_live -= 1;
                }
                s.push_quarantine(p, layout.size(), layout.align());
            });
        }
    }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        unsafe {
            let new = Layout::from_size_align_unchecked(new_size, layout.align());
            let grow = new_size > layout.size();
            let flag = (*p.sub(HEAD).cast::<Header>()).flag;
            let q = self.alloc(new);
            if q.is_null() {
                return q;
            }
            if grow && flag == 0 {
                st(|s| s.watch_grown += u64::from(s.watch));
            }
            std::ptr::copy_nonoverlapping(p, q, layout.size().min(new_size));
            self.dealloc(p, layout);
            q
        }
    }
}

/// Live blocks.
#[must_use]
pub fn live() -> i64 {
    st(|s| s.live)
}
/// Detected heap corruption (double free, foreign free, write after free),
/// after flushing the quarantine.
#[must_use]
pub fn corruption() -> u64 {
    st(|s| {
        unsafe {
            while s.qn > 0 {
                s.pop_quarantine();
            }
        }
        std::mem::take(&mut s.corrupt)
    })
}
/// Whether `len` bytes at `p` touch a block that was freed (and is still in
/// quarantine).
#[must_use]
pub fn freed(p: usize, len: usize) -> bool {
    st(|s| {
        if s.track && granules(p, len).all(|g| s.gran[g] == 0) {
            return false;
        }
        (0..s.qn).any(|k| {
            let (q, n, _) = s.q[(s.qh + k) % QN];
            let q = q as usize;
            p < q + n && q < p + len.max(1)
        })
    })
}
/// Makes [`freed`] fast. Flushes the quarantine.
pub fn track() {
    st(|s| {
        // SAFETY: the quarantine owns its blocks.
        unsafe {
            while s.qn > 0 {
                s.pop_quarantine();
            }
        }
        s.track = true;
    });
}
/// Requests made so far (diagnostics).
#[must_use]
pub fn allocs() -> u64 {
    st(|s| s.allocs)
}

/// Arms `plan` until [`disarm`].
pub fn arm(plan: Plan) {
    st(|s| {
        s.plan = plan;
        s.armed = plan.kind != 0;
        s.fired = 0;
    });
}
/// Disarms and returns how many requests were refused.
pub fn disarm() -> u64 {
    st(|s| {
        s.armed = false;
        s.plan = Plan::new(0, 0);
        std::mem::take(&mut s.fired)
    })
}

/// Start watching for storage growth.
pub fn watch() {
    st(|s| {
        s.watch = true;
        s.watch_live = 0;
        s.watch_grown = 0;
    });
}
/// Ends watching: (blocks acquired and still held, blocks grown in place).
pub fn unwatch() -> (i64, u64) {
    st(|s| {
        s.watch = false;
        (s.watch_live, s.watch_grown)
    })
}

/// Suspends faults and watching while caller code runs; nests.
pub struct Pause {
    armed: bool,
    plan: Plan,
    fired: u64,
    watch: bool,
}
impl Pause {
    #[must_use]
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        st(|s| {
            let p = Self { armed: s.armed, plan: s.plan, fired: s.fired, watch: s.watch };
            s.armed = false;
            s.watch = false;
            p
        })
    }
}
impl Drop for Pause {
    fn drop(&mut self) {
        let panicking = std::thread::panicking();
        st(|s| {
            s.fired = self.fired;
            s.plan = self.plan;
            // While unwinding, nothing may fail any more.
            s.armed = self.armed && !panicking;
            s.watch = self.watch;
        });
    }
}
