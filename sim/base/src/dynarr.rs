//! Object-safe faces of arrays, so that the simulated world is written once.

use crate::alloc::Pause;
use crate::feed::{Feed, FeedIter};
use crate::phys::{Buf, Noise, Phys, Res};
use crate::storage::{SimAlloc, handle};
use crate::val::{Item, Shape, Val};
use narrow::collection::{CollectionAlloc, CollectionAllocIn, CollectionRealloc};
use std::any::Any;

/// An iterator over items as values.
pub trait ValIter {
    fn next(&mut self) -> Option<Val>;
    fn hint(&self) -> (usize, Option<usize>);
    /// The exact remaining length, where the iterator promises one.
    fn exact(&self) -> Option<usize>;
    fn nth(&mut self, n: usize) -> Option<Val>;
    /// Up to `n` items through an adapter that borrows the iterator.
    fn some(&mut self, n: usize) -> Vec<Val>;
    fn count_rest(self: Box<Self>) -> usize;
    fn last_rest(self: Box<Self>) -> Option<Val>;
    fn fold_rest(self: Box<Self>) -> Vec<Val>;
    fn rest(self: Box<Self>) -> Vec<Val>;
}

/// An iterator and how its items become values; `exact` tells whether the
/// iterator is an `ExactSizeIterator`.
pub struct Adapt<I, F> {
    pub it: I,
    pub to: F,
    pub len: Option<fn(&I) -> usize>,
}
impl<I: Iterator, F: Fn(I::Item) -> Val> ValIter for Adapt<I, F> {
    fn next(&mut self) -> Option<Val> {
        self.it.next().map(&self.to)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn exact(&self) -> Option<usize> {
        self.len.map(|f| f(&self.it))
    }
    fn nth(&mut self, n: usize) -> Option<Val> {
        self.it.nth(n).map(&self.to)
    }
    fn some(&mut self, n: usize) -> Vec<Val> {
        self.it.by_ref().take(n).map(&self.to).collect()
    }
    fn count_rest(self: Box<Self>) -> usize {
        self.it.count()
    }
    fn last_rest(self: Box<Self>) -> Option<Val> {
        self.it.last().map(self.to)
    }
    fn fold_rest(self: Box<Self>) -> Vec<Val> {
        let to = self.to;
        self.it.fold(Vec::new(), |mut v, x| {
            v.push(to(x));
            v
        })
    }
    fn rest(self: Box<Self>) -> Vec<Val> {
        self.it.map(self.to).collect()
    }
}
/// Every borrowed iterator of the library is an `ExactSizeIterator`, whose
/// contract makes the size hint exact.
pub fn hinted<I: Iterator>(it: &I) -> usize {
    let (lo, hi) = it.size_hint();
    if hi == Some(lo) { lo } else { usize::MAX }
}

pub trait DynRead: Any {
    fn len(&self) -> usize;
    fn is_empty_q(&self) -> bool;
    fn view(&self, i: usize) -> Option<Val>;
    fn owned(&self, i: usize) -> Option<Val>;
    fn iter<'a>(&'a self) -> Box<dyn ValIter + 'a>;
    fn into_iter(self: Box<Self>) -> Box<dyn ValIter>;
    /// Iterators over the lists in one row.
    fn row<'a>(&'a self, i: usize) -> Vec<Box<dyn ValIter + 'a>>;
    fn walk(&self) -> Res;
    fn decode(&self) -> Res<Vec<Val>>;
    fn queries(&self) -> Res;
    fn probe(&self) -> Res;
    fn bufs(&self) -> Vec<Buf>;
    fn bit_offsets(&self) -> Vec<usize>;
    fn reassemble(self: Box<Self>) -> Res<Box<dyn DynRead>>;
    fn share(&self) -> Box<dyn DynRead>;
    fn any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
}

pub struct Holder<C>(pub C);

impl<C: Phys> DynRead for Holder<C> {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty_q(&self) -> bool {
        self.0.is_empty()
    }
    fn view(&self, i: usize) -> Option<Val> {
        self.0.view(i).map(C::vval)
    }
    fn owned(&self, i: usize) -> Option<Val> {
        self.0.owned(i).map(|x| x.to_val())
    }
    fn iter<'a>(&'a self) -> Box<dyn ValIter + 'a> {
        Box::new(Adapt { it: self.0.iter_views(), to: C::vval, len: Some(hinted) })
    }
    fn into_iter(self: Box<Self>) -> Box<dyn ValIter> {
        Box::new(Adapt {
            it: self.0.into_iter_owned(),
            to: |x: C::Owned| x.to_val(),
            len: Some(ExactSizeIterator::len),
        })
    }
    fn row<'a>(&'a self, i: usize) -> Vec<Box<dyn ValIter + 'a>> {
        let mut out = Vec::new();
        if let Some(v) = self.0.view(i) {
            C::row_iters(v, &mut out);
        }
        out
    }
    fn walk(&self) -> Res {
        self.0.iter_views().try_for_each(C::walk_row)
    }
    fn decode(&self) -> Res<Vec<Val>> {
        self.0.decode()
    }
    fn queries(&self) -> Res {
        self.0.queries()
    }
    fn probe(&self) -> Res {
        self.0.probe()
    }
    fn bufs(&self) -> Vec<Buf> {
        let mut v = Vec::new();
        self.0.bufs(&mut v);
        v
    }
    fn bit_offsets(&self) -> Vec<usize> {
        let mut v = Vec::new();
        self.0.bit_offsets(&mut v);
        v
    }
    fn reassemble(self: Box<Self>) -> Res<Box<dyn DynRead>> {
        Ok(Box::new(Holder(self.0.reassemble()?)))
    }
    fn share(&self) -> Box<dyn DynRead> {
        Box::new(Holder(self.0.share()))
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
}

/// An allocator handle the simulator can name.
pub trait Sel: Clone {
    fn sel(id: u64) -> Self;
    fn id(&self) -> u64;
}
impl Sel for () {
    fn sel(_: u64) {}
    fn id(&self) -> u64 {
        0
    }
}
impl Sel for SimAlloc {
    fn sel(id: u64) -> Self {
        handle(id)
    }
    fn id(&self) -> u64 {
        self.0.id
    }
}

pub trait DynGrow: DynRead {
    fn extend(&mut self, f: &mut Feed<'_>);
    fn try_extend(&mut self, f: &mut Feed<'_>) -> Result<(), ()>;
    fn reserve(&mut self, n: usize);
    fn try_reserve(&mut self, n: usize) -> Result<(), ()>;
    fn truncate(&mut self, n: usize);
    fn alloc_id(&self) -> u64;
    fn reassemble_grow(self: Box<Self>) -> Res<Box<dyn DynGrow>>;
    fn share_grow(&self) -> Box<dyn DynGrow>;
    fn read(&self) -> &dyn DynRead;
    fn into_read(self: Box<Self>) -> Box<dyn DynRead>;
}

impl<C> DynGrow for Holder<C>
where
    C: Phys + CollectionRealloc<Alloc: Sel>,
{
    fn extend(&mut self, f: &mut Feed<'_>) {
        self.0.extend(FeedIter::<C::Owned>::new(f));
    }
    fn try_extend(&mut self, f: &mut Feed<'_>) -> Result<(), ()> {
        self.0.try_extend(FeedIter::<C::Owned>::new(f)).map_err(|_| ())
    }
    fn reserve(&mut self, n: usize) {
        self.0.reserve(n);
    }
    fn try_reserve(&mut self, n: usize) -> Result<(), ()> {
        self.0.try_reserve(n).map_err(|_| ())
    }
    fn truncate(&mut self, n: usize) {
        self.0.truncate(n);
    }
    fn alloc_id(&self) -> u64 {
        self.0.allocator().id()
    }
    fn reassemble_grow(self: Box<Self>) -> Res<Box<dyn DynGrow>> {
        Ok(Box::new(Holder(self.0.reassemble()?)))
    }
    fn share_grow(&self) -> Box<dyn DynGrow> {
        Box::new(Holder(self.0.share()))
    }
    fn read(&self) -> &dyn DynRead {
        self
    }
    fn into_read(self: Box<Self>) -> Box<dyn DynRead> {
        self
    }
}

/// Constructors of a growable type.
pub trait Make {
    fn name(&self) -> &'static str;
    fn shape(&self) -> Shape;
    /// Whether storage is acquired through simulated handles.
    fn sim(&self) -> bool;
    fn default(&self) -> Box<dyn DynGrow>;
    fn with_capacity(&self, n: usize) -> Box<dyn DynGrow>;
    fn with_capacity_in(&self, n: usize, id: u64) -> Box<dyn DynGrow>;
    fn try_with_capacity_in(&self, n: usize, id: u64) -> Result<Box<dyn DynGrow>, ()>;
    fn from_iter(&self, f: &mut Feed<'_>) -> Box<dyn DynGrow>;
    fn from_iter_in(&self, f: &mut Feed<'_>, id: u64) -> Box<dyn DynGrow>;
    fn try_from_iter_in(&self, f: &mut Feed<'_>, id: u64) -> Result<Box<dyn DynGrow>, ()>;
    fn build(&self, vals: &[Val], noise: &mut Noise<'_>) -> Box<dyn DynGrow>;
    fn clone_of(&self, _: &dyn DynRead) -> Option<Box<dyn DynGrow>>;
}

pub struct Ty<C>(
    pub &'static str,
    pub bool,
    pub Option<fn(&C) -> C>,
);
impl<C> Make for Ty<C>
where
    C: Phys + CollectionRealloc<Alloc: Sel> + CollectionAlloc,
{
    fn name(&self) -> &'static str {
        self.0
    }
    fn shape(&self) -> Shape {
        <C::Owned as Item>::shape()
    }
    fn sim(&self) -> bool {
        self.1
    }
    fn default(&self) -> Box<dyn DynGrow> {
        Box::new(Holder(C::default()))
    }
    fn with_capacity(&self, n: usize) -> Box<dyn DynGrow> {
        Box::new(Holder(<C as CollectionAlloc>::with_capacity(n)))
    }
    fn with_capacity_in(&self, n: usize, id: u64) -> Box<dyn DynGrow> {
        Box::new(Holder(<C as CollectionAllocIn>::with_capacity_in(n, Sel::sel(id))))
    }
    fn try_with_capacity_in(&self, n: usize, id: u64) -> Result<Box<dyn DynGrow>, ()> {
        match <C as CollectionAllocIn>::try_with_capacity_in(n, Sel::sel(id)) {
            Ok(c) => {
                let _p = Pause::new();
                Ok(Box::new(Holder(c)))
            }
            Err(_) => Err(()),
        }
    }
    fn from_iter(&self, f: &mut Feed<'_>) -> Box<dyn DynGrow> {
        let c: C = FeedIter::<C::Owned>::new(f).collect();
        Box::new(Holder(c))
    }
    fn from_iter_in(&self, f: &mut Feed<'_>, id: u64) -> Box<dyn DynGrow> {
        Box::new(Holder(<C as CollectionAllocIn>::from_iter_in(
            FeedIter::<C::Owned>::new(f),
            Sel::sel(id),
        )))
    }
    fn try_from_iter_in(&self, f: &mut Feed<'_>, id: u64) -> Result<Box<dyn DynGrow>, ()> {
        match <C as CollectionAllocIn>::try_from_iter_in(
            FeedIter::<C::Owned>::new(f),
            Sel::sel(id),
        ) {
            Ok(c) => {
                let _p = Pause::new();
                Ok(Box::new(Holder(c)))
            }
            Err(_) => Err(()),
        }
    }
    fn build(&self, vals: &[Val], noise: &mut Noise<'_>) -> Box<dyn DynGrow> {
        Box::new(Holder(C::build(vals, noise)))
    }
    fn clone_of(&self, a: &dyn DynRead) -> Option<Box<dyn DynGrow>> {
        let f = self.2?;
        let h = a.any().downcast_ref::<Holder<C>>()?;
        Some(Box::new(Holder(f(&h.0))))
    }
}
