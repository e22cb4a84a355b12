//! Caller-supplied item iterators, scripted by the simulator.
use crate::alloc::Pause;
use crate::storage::SimPanic;
use crate::val::{Item, Val};
use std::marker::PhantomData;
use std::panic::panic_any;

/// How the iterator estimates its size; every mode is a legal `size_hint`.
pub const HINTS: u64 = 7;

pub struct Feed<'h> {
    pub vals: Vec<Val>,
    pub pos: usize,
    /// Items handed out before the end.
    pub pulled: usize,
    /// Panic instead of answering the call made at this position.
    pub panic_at: Option<usize>,
    pub hint: u64,
    /// Items offered again after the first `None`.
    pub ghosts: Vec<Val>,
    pub ended: bool,
    pub after_end: u64,
    /// Other work done by the producer at a position.
    pub nest: Option<(usize, Box<dyn FnOnce() + 'h>)>,
    /// Panic when asked for a size estimate for the time this says (from 1).
    pub hint_panic: u64,
    /// Panic when let go of. Not for constructors: rustc leaks the value of a
    /// function whose locals panic when dropped (rust-lang/rust#47949).
    pub drop_panic: bool,
    pub panicked: bool,
    /// Yields `vals` over and over; never ends.
    pub endless: bool,
}

impl<'h> Feed<'h> {
    #[must_use]
    pub fn new(vals: Vec<Val>) -> Self {
        Self {
            vals, pos: 0, pulled: 0, panic_at: None, hint: 0, ghosts: Vec::new(), ended: false,
            after_end: 0, nest: None, hint_panic: 0, drop_panic: false, panicked: false, endless: false,
        }
    }
    fn next_val(&mut self) -> Option<Val> {
        if let Some((at, _)) = &self.nest
            && *at <= self.pos
            && let Some((_, f)) = self.nest.take()
        {
            f();
        }
        if self.panic_at == Some(self.pos) && !self.ended {
            self.panic_at = None;
            self.panicked = true;
            panic_any(SimPanic::Feed);
        }
        if self.endless && self.pos >= self.vals.len() {
            self.pos = 0;
        }
        if self.pos < self.vals.len() {
            self.pos += 1;
            self.pulled += 1;
            return Some(self.vals[self.pos - 1].clone());
        }
        if self.ended {
            self.after_end += 1;
            return self.ghosts.pop();
        }
        self.ended = true;
        None
    }
    fn hint(&mut self) -> (usize, Option<usize>) {
        if self.hint_panic > 0 {
            self.hint_panic -= 1;
            if self.hint_panic == 0 {
                self.panicked = true;
                panic_any(SimPanic::Feed);
            }
        }
        if self.endless {
            return (if self.hint == 1 { 0 } else { usize::MAX }, None);
        }
        let rem = self.vals.len() - self.pos;
        match self.hint {
            0 => (rem, Some(rem)),
            1 => (0, None),
            2 => (0, Some(usize::MAX)),
            3 => (rem / 2, Some(rem.saturating_mul(2) + 3)),
            4 => (rem, None),
            5 => (0, Some(rem)),
            _ => (rem.min(1), Some(usize::MAX / 2)),
        }
    }
}

/// A feed seen as an iterator of one item type.
pub struct FeedIter<'f, 'h, T>(pub *mut Feed<'h>, PhantomData<(&'f mut Feed<'h>, T)>);
impl<'f, 'h, T> FeedIter<'f, 'h, T> {
    pub fn new(f: &'f mut Feed<'h>) -> Self {
        Self(f, PhantomData)
    }
}
impl<T> Drop for FeedIter<'_, '_, T> {
    fn drop(&mut self) {
        // SAFETY: as below.
        let f = unsafe { &mut *self.0 };
        if f.drop_panic && !std::thread::panicking() {
            let _p = Pause::new();
            f.drop_panic = false;
            f.panicked = true;
            panic_any(SimPanic::Feed);
        }
    }
}
impl<T: Item> Iterator for FeedIter<'_, '_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let _p = Pause::new();
        // SAFETY: the exclusive borrow taken in `new` is alive.
        let f = unsafe { &mut *self.0 };
        f.next_val().map(|v| T::from_val(&v))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let _p = Pause::new();
        // SAFETY: as above; `size_hint` never runs during `next`.
        let f = unsafe { &mut *self.0 };
        f.hint()
    }
}
