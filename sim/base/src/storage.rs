//! Caller-supplied storage behind a simulated allocator handle.
//!
//! `SimVec` is a growable storage a user of `narrow` could write: it acquires
//! every block through a handle that the simulator owns, and that handle may
//! refuse. Growth policy and the way a bulk extension is staged vary per handle.

use crate::alloc::Plan;
use narrow::{
    buffer::Buffer,
    collection::{
        AllocError, Collection, CollectionAllocIn, CollectionRealloc,
        view::AsView,
    },
    fixed_size::FixedSize,
    length::Length,
};
use std::borrow::{Borrow, BorrowMut};
use std::cell::{Cell, RefCell};
use std::panic::panic_any;
use std::rc::Rc;

/// Panics raised on purpose by the simulated environment.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SimPanic {
    Feed,
    Storage,
}

#[derive(Debug)]
pub struct Handle {
    pub id: u64,
    pub plan: Cell<Plan>,
    pub requests: Cell<u64>,
    pub refused: Cell<u64>,
    /// bit 0: amortised growth; bit 1: staged bulk extension.
    pub policy: Cell<u64>,
}

#[derive(Clone, Debug)]
pub struct SimAlloc(pub Rc<Handle>);

thread_local! {
    static HANDLES: RefCell<Vec<SimAlloc>> = const { RefCell::new(Vec::new()) };
}

/// Creates the handles of one run; handle 0 is the ambient default.
pub fn reset_handles(policies: &[u64]) {
    HANDLES.with(|h| {
        let mut h = h.borrow_mut();
        *h = policies
            .iter()
            .enumerate()
            .map(|(id, p)| {
                SimAlloc(Rc::new(Handle {
                    id: id as u64,
                    plan: Cell::new(Plan::new(0, 0)),
                    requests: Cell::new(0),
                    refused: Cell::new(0),
                    policy: Cell::new(*p),
                }))
            })
            .collect();
    });
}
/// Drops every handle (so a leak check sees nothing of ours).
pub fn clear_handles() {
    HANDLES.with(|h| *h.borrow_mut() = Vec::new());
}
#[must_use]
pub fn handle(id: u64) -> SimAlloc {
    HANDLES.with(|h| {
        let h = h.borrow();
        h[(id as usize) % h.len()].clone()
    })
}
pub fn handles() -> usize {
    HANDLES.with(|h| h.borrow().len())
}

impl Default for SimAlloc {
    fn default() -> Self {
        handle(0)
    }
}

impl SimAlloc {
    fn request(&self, bytes: usize) -> bool {
        let h = &self.0;
        h.requests.set(h.requests.get() + 1);
        let mut plan = h.plan.get();
        let deny = bytes > crate::alloc::HUGE || plan.deny(bytes);
        h.plan.set(plan);
        if deny {
            h.refused.set(h.refused.get() + 1);
        }
        !deny
    }
    fn amortised(&self) -> bool {
        self.0.policy.get() & 1 != 0
    }
    fn staged(&self) -> bool {
        self.0.policy.get() & 2 != 0
    }
}

#[derive(Debug)]
pub struct SimVec<T> {
    data: Vec<T>,
    cap: usize,
    alloc: SimAlloc,
}

impl<T> SimVec<T> {
    pub fn id(&self) -> u64 {
        self.alloc.0.id
    }
    pub fn slice(&self) -> &[T] {
        &self.data
    }
    pub fn from_vec(data: Vec<T>, alloc: SimAlloc) -> Self {
        let cap = data.len();
        Self { data, cap, alloc }
    }
    fn grow(&mut self, additional: usize) -> Result<(), AllocError> {
        let need = self.data.len().checked_add(additional).ok_or(AllocError)?;
        if need <= self.cap {
            return Ok(());
        }
        let new = if self.alloc.amortised() {
            need.max(self.cap.saturating_mul(2)).max(4)
        } else {
            need
        };
        let bytes = new.checked_mul(size_of::<T>()).ok_or(AllocError)?;
        if !self.alloc.request(bytes) {
            return Err(AllocError);
        }
        self.data.reserve(new.min(need.saturating_mul(2)) - self.data.len());
        self.cap = new;
        Ok(())
    }
    fn grow_or_panic(&mut self, additional: usize) {
        if self.grow(additional).is_err() {
            panic_any(SimPanic::Storage);
        }
    }
}

const STAGE: usize = 4096;
/// Takes up to one batch, never asking again after the end.
fn stage<T>(iter: &mut impl Iterator<Item = T>) -> Vec<T> {
    let mut items = Vec::new();
    while items.len() < STAGE {
        match iter.next() {
            Some(x) => items.push(x),
            None => break,
        }
    }
    items
}

impl<T> Length for SimVec<T> {
    fn len(&self) -> usize {
        self.data.len()
    }
}
impl<T> Borrow<[T]> for SimVec<T> {
    fn borrow(&self) -> &[T] {
        &self.data
    }
}
impl<T> BorrowMut<[T]> for SimVec<T> {
    fn borrow_mut(&mut self) -> &mut [T] {
        &mut self.data
    }
}
impl<T: Clone> Clone for SimVec<T> {
    fn clone(&self) -> Self {
        Self { data: self.data.clone(), cap: self.data.len(), alloc: self.alloc.clone() }
    }
}
impl<T> Default for SimVec<T> {
    fn default() -> Self {
        Self { data: Vec::new(), cap: 0, alloc: SimAlloc::default() }
    }
}
impl<T: FixedSize> Collection for SimVec<T> {
    type View<'c>
        = T
    where
        Self: 'c;
    type Owned = T;
    fn view(&self, index: usize) -> Option<T> {
        self.data.get(index).copied()
    }
    type Iter<'c>
        = std::iter::Copied<std::slice::Iter<'c, T>>
    where
        Self: 'c;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.data.iter().copied()
    }
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter_owned(self) -> Self::IntoIter {
        self.data.into_iter()
    }
}
impl<T: FixedSize> FromIterator<T> for SimVec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        Self::from_iter_in(iter, SimAlloc::default())
    }
}
impl<T: FixedSize> Extend<T> for SimVec<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        let mut iter = iter.into_iter();
        if self.alloc.staged() {
            // Collects before it commits, in bounded batches.
            loop {
                let items = stage(&mut iter);
                self.grow_or_panic(items.len());
                let full = items.len() == STAGE;
                self.data.extend(items);
                if !full {
                    break;
                }
            }
        } else {
            self.grow_or_panic(iter.size_hint().0);
            while let Some(item) = iter.next() {
                if self.data.len() == self.cap {
                    self.grow_or_panic(1);
                }
                self.data.push(item);
            }
        }
    }
}
impl<T: FixedSize> CollectionAllocIn for SimVec<T>
where
    T: for<'any> AsView<'any>,
{
    type Alloc = SimAlloc;
    fn with_capacity_in(capacity: usize, alloc: SimAlloc) -> Self {
        let mut s = Self { data: Vec::new(), cap: 0, alloc };
        s.grow_or_panic(capacity);
        s
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(iter: I, alloc: SimAlloc) -> Self {
        let mut s = Self { data: Vec::new(), cap: 0, alloc };
        s.extend(iter);
        s
    }
    fn try_with_capacity_in(capacity: usize, alloc: SimAlloc) -> Result<Self, AllocError> {
        let mut s = Self { data: Vec::new(), cap: 0, alloc };
        s.grow(capacity)?;
        Ok(s)
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(
        iter: I,
        alloc: SimAlloc,
    ) -> Result<Self, AllocError> {
        let mut s = Self { data: Vec::new(), cap: 0, alloc };
        s.try_extend(iter)?;
        Ok(s)
    }
}
impl<T: FixedSize> CollectionRealloc for SimVec<T>
where
    T: for<'any> AsView<'any>,
{
    fn allocator(&self) -> SimAlloc {
        self.alloc.clone()
    }
    fn try_reserve(&mut self, additional: usize) -> Result<(), AllocError> {
        self.grow(additional)
    }
    fn try_extend<I: IntoIterator<Item = T>>(&mut self, iter: I) -> Result<(), AllocError> {
        let mut iter = iter.into_iter();
        let len = self.data.len();
        if self.alloc.staged() {
            loop {
                let items = stage(&mut iter);
                let full = items.len() == STAGE;
                if self.grow(items.len()).is_err() {
                    self.data.truncate(len);
                    return Err(AllocError);
                }
                self.data.extend(items);
                if !full {
                    break;
                }
            }
        } else {
            self.grow(iter.size_hint().0)?;
            while let Some(item) = iter.next() {
                if self.data.len() == self.cap && self.grow(1).is_err() {
                    self.data.truncate(len);
                    return Err(AllocError);
                }
                self.data.push(item);
            }
        }
        Ok(())
    }
    fn reserve(&mut self, additional: usize) {
        self.grow_or_panic(additional);
    }
    fn truncate(&mut self, len: usize) {
        self.data.truncate(len);
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct SimBuffer;
impl Buffer for SimBuffer {
    type For<T: FixedSize> = SimVec<T>;
}

/// Storage that is created once, through a handle, and never grows.
#[derive(Clone, Debug, Default)]
pub struct SimFix<T>(pub SimVec<T>);
#[derive(Clone, Copy, Debug, Default)]
pub struct SimFixBuffer;
impl Buffer for SimFixBuffer {
    type For<T: FixedSize> = SimFix<T>;
}
impl<T> Length for SimFix<T> {
    fn len(&self) -> usize {
        self.0.len()
    }
}
impl<T> Borrow<[T]> for SimFix<T> {
    fn borrow(&self) -> &[T] {
        self.0.slice()
    }
}
impl<T: FixedSize> Collection for SimFix<T> {
    type View<'c>
        = T
    where
        Self: 'c;
    type Owned = T;
    fn view(&self, index: usize) -> Option<T> {
        self.0.view(index)
    }
    type Iter<'c>
        = std::iter::Copied<std::slice::Iter<'c, T>>
    where
        Self: 'c;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.0.iter_views()
    }
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter_owned(self) -> Self::IntoIter {
        self.0.into_iter_owned()
    }
}
impl<T: FixedSize> FromIterator<T> for SimFix<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        Self(iter.into_iter().collect())
    }
}
impl<T: FixedSize> CollectionAllocIn for SimFix<T>
where
    T: for<'any> AsView<'any>,
{
    type Alloc = SimAlloc;
    fn with_capacity_in(capacity: usize, alloc: SimAlloc) -> Self {
        Self(SimVec::with_capacity_in(capacity, alloc))
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(iter: I, alloc: SimAlloc) -> Self {
        Self(SimVec::from_iter_in(iter, alloc))
    }
    fn try_with_capacity_in(capacity: usize, alloc: SimAlloc) -> Result<Self, AllocError> {
        SimVec::try_with_capacity_in(capacity, alloc).map(Self)
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(iter: I, alloc: SimAlloc) -> Result<Self, AllocError> {
        SimVec::try_from_iter_in(iter, alloc).map(Self)
    }
}
