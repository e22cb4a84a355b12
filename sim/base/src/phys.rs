//! Physical access to every layout: decoding raw buffers by the Arrow columnar
//! specification, structural checks, decomposition and reassembly, building
//! arrays with unusual but legal representations.

use crate::dynarr::{Adapt, ValIter, hinted};
use crate::rng::Rng;
use crate::storage::{SimBuffer, SimFix, SimFixBuffer, SimVec, handle};
use crate::val::{Gen, Item, Prim, Val, gen_val};
use narrow::{
    array::Array,
    bitmap::{Bitmap, ValidityBitmap},
    buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, Buffer, BufferRef, RcBuffer, SliceBuffer, VecBuffer},
    collection::{ChildRef, Collection, flatten::{Flatten, FlattenView}},
    fixed_size::FixedSize,
    layout::{
        ArrayItem, boolean::Boolean, fixed_size_list::FixedSizeList,
        fixed_size_primitive::FixedSizePrimitive, variable_size_list::VariableSizeList,
    },
    length::Length,
    nullability::{NonNullable, Nullable},
    offset::{Offset, OffsetView, Offsets},
    validity::Validity,
};
use std::any::Any;
use std::borrow::Borrow;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::Arc;

/// One physical buffer, as seen from outside.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Buf {
    pub ptr: usize,
    pub bytes: usize,
    pub id: u64,
}
impl Buf {
    fn of<T>(s: &[T], id: u64) -> Self {
        Self { ptr: s.as_ptr() as usize, bytes: size_of_val(s), id }
    }
}

/// Freedom in how a given sequence of items is represented.
pub struct Noise<'r> {
    pub rng: &'r mut Rng,
    /// non-zero bit offsets allowed
    pub offs: bool,
    /// bytes beyond the logical end of bitmaps, children beyond the last offset
    pub extra: bool,
    /// all-valid arrays may omit their bitmap
    pub absent: bool,
    /// handle for simulated storage
    pub alloc: u64,
}

/// Storages the simulator can fill.
pub trait SimBuf: Buffer + 'static {
    const NAME: &'static str;
    fn mk<T: FixedSize>(v: Vec<T>, alloc: u64) -> Self::For<T>;
    fn share<T: FixedSize>(b: &Self::For<T>) -> Self::For<T>;
    fn id<T: FixedSize>(_: &Self::For<T>) -> u64 {
        0
    }
}
impl SimBuf for VecBuffer {
    const NAME: &'static str = "Vec";
    fn mk<T: FixedSize>(v: Vec<T>, _: u64) -> Vec<T> {
        v
    }
    fn share<T: FixedSize>(b: &Vec<T>) -> Vec<T> {
        b.clone()
    }
}
impl SimBuf for BoxBuffer {
    const NAME: &'static str = "Box";
    fn mk<T: FixedSize>(v: Vec<T>, _: u64) -> Box<[T]> {
        v.into()
    }
    fn share<T: FixedSize>(b: &Box<[T]>) -> Box<[T]> {
        b.clone()
    }
}
impl SimBuf for RcBuffer {
    const NAME: &'static str = "Rc";
    fn mk<T: FixedSize>(v: Vec<T>, _: u64) -> Rc<[T]> {
        v.into()
    }
    fn share<T: FixedSize>(b: &Rc<[T]>) -> Rc<[T]> {
        b.clone()
    }
}
impl SimBuf for ArcBuffer {
    const NAME: &'static str = "Arc";
    fn mk<T: FixedSize>(v: Vec<T>, _: u64) -> Arc<[T]> {
        v.into()
    }
    fn share<T: FixedSize>(b: &Arc<[T]>) -> Arc<[T]> {
        b.clone()
    }
}
impl SimBuf for SimBuffer {
    const NAME: &'static str = "Sim";
    fn mk<T: FixedSize>(v: Vec<T>, alloc: u64) -> SimVec<T> {
        SimVec::from_vec(v, handle(alloc))
    }
    fn share<T: FixedSize>(b: &SimVec<T>) -> SimVec<T> {
        b.clone()
    }
    fn id<T: FixedSize>(b: &SimVec<T>) -> u64 {
        b.id()
    }
}
impl SimBuf for SimFixBuffer {
    const NAME: &'static str = "SimFix";
    fn mk<T: FixedSize>(v: Vec<T>, alloc: u64) -> SimFix<T> {
        SimFix(SimVec::from_vec(v, handle(alloc)))
    }
    fn share<T: FixedSize>(b: &SimFix<T>) -> SimFix<T> {
        b.clone()
    }
    fn id<T: FixedSize>(b: &SimFix<T>) -> u64 {
        b.0.id()
    }
}

thread_local! {
    static ARENA: RefCell<Vec<Box<dyn Any>>> = const { RefCell::new(Vec::new()) };
}
/// Drops everything borrowed slices point to. Nothing may use them any more.
pub fn clear_arena() {
    ARENA.with(|a| *a.borrow_mut() = Vec::new());
}
impl SimBuf for SliceBuffer<'static> {
    const NAME: &'static str = "Slice";
    fn mk<T: FixedSize>(v: Vec<T>, _: u64) -> &'static [T] {
        let b: Box<[T]> = v.into();
        let b: Box<Box<[T]>> = Box::new(b);
        let p: *const [T] = &**b;
        ARENA.with(|a| a.borrow_mut().push(b));
        // SAFETY: the arena outlives every array of the run that borrows it.
        unsafe { &*p }
    }
    fn share<T: FixedSize>(b: &&'static [T]) -> &'static [T] {
        b
    }
}
impl<const N: usize> SimBuf for ArrayBuffer<N> {
    const NAME: &'static str = "Array";
    fn mk<T: FixedSize>(v: Vec<T>, _: u64) -> [T; N] {
        assert!(v.len() <= N && (!v.is_empty() || N == 0), "array storage cannot hold this");
        std::array::from_fn(|i| v[i.min(v.len() - 1)])
    }
    fn share<T: FixedSize>(b: &[T; N]) -> [T; N] {
        *b
    }
}

pub type Res<T = ()> = Result<T, String>;

pub trait Phys: Collection<Owned: Item> + Sized + 'static {
    fn vval<'a>(v: Self::View<'a>) -> Val
    where
        Self: 'a;
    /// Checks structure and decodes the raw buffers by specification.
    fn decode(&self) -> Res<Vec<Val>>;
    fn reassemble(self) -> Res<Self>;
    /// A second array over the same buffers (shared where the storage can).
    fn share(&self) -> Self;
    fn bufs(&self, out: &mut Vec<Buf>);
    fn bit_offsets(&self, out: &mut Vec<usize>);
    /// Validity queries against the items, at every level.
    fn queries(&self) -> Res;
    /// Reads beyond the end of one row, at every level.
    fn probe_row<'a>(v: Self::View<'a>) -> Res
    where
        Self: 'a;
    /// Iterators over the lists in one row, borrowed and owned.
    fn row_iters<'a>(_: Self::View<'a>, _: &mut Vec<Box<dyn ValIter + 'a>>)
    where
        Self: 'a,
    {
    }
    /// Walks one row's lists at every level, checking remaining lengths.
    fn walk_row<'a>(_: Self::View<'a>) -> Res
    where
        Self: 'a,
    {
        Ok(())
    }
    /// Reads beyond the end of this collection and, recursively, its children.
    fn probe(&self) -> Res {
        probe_collection::<Self>(self)
    }
    fn build(vals: &[Val], noise: &mut Noise<'_>) -> Self;
}

pub fn beyond(len: usize) -> [usize; 9] {
    [
        len,
        len.saturating_add(1),
        len.saturating_add(7),
        len.saturating_add(64),
        usize::MAX,
        usize::MAX - 1,
        usize::MAX / 2,
        usize::MAX / 3 + 1,
        usize::MAX - len,
    ]
}

const SHIFTS: [u32; 15] = [8, 16, 24, 31, 32, 33, 48, 56, 57, 58, 59, 60, 61, 62, 63];
const WIDTHS: [u128; 9] = [3, 5, 6, 7, 9, 10, 12, 19, 100];
pub const ALIASES: usize = 2 * 15 + 9 + 20;

/// An index far outside that is inside, or near it, once it is cut to fewer
/// bits, multiplied by a width or added to a position without care.
pub fn alias(len: usize, which: usize) -> usize {
    let n = SHIFTS.len();
    let cut = |k: u32| (1u128 << k) as usize;
    match which % ALIASES {
        w if w < n => cut(SHIFTS[w]),
        w if w < 2 * n => cut(SHIFTS[w - n]).wrapping_add(len.wrapping_sub(1)),
        w if w < 2 * n + WIDTHS.len() => ((1u128 << 64) / WIDTHS[w - 2 * n] + 1) as usize,
        w => usize::MAX - (w - 2 * n - WIDTHS.len()),
    }
}

thread_local! { static ROW: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

/// Aliases for one row: a different few for each row of a probe.
fn row_aliases(len: usize) -> impl Iterator<Item = usize> {
    let first = ROW.get();
    ROW.set(first.wrapping_add(5));
    (first..first.wrapping_add(5)).map(move |w| alias(len, w)).filter(move |i| *i >= len)
}

fn probe_collection<C: Phys>(c: &C) -> Res {
    let len = c.len();
    ROW.set(len);
    for i in beyond(len).into_iter().chain((0..ALIASES).map(|w| alias(len, w))) {
        if i >= len && c.view(i).is_some() {
            return Err(format!("view({i}) of {len} items is not absent"));
        }
        if i >= len && c.owned(i).is_some() {
            return Err(format!("owned({i}) of {len} items is not absent"));
        }
    }
    let step = (len / 64).max(1);
    for i in (0..len).step_by(step) {
        match c.view(i) {
            None => return Err(format!("view({i}) of {len} items is absent")),
            Some(v) => C::probe_row(v)?,
        }
    }
    Ok(())
}

fn fill(rng: &mut Rng) -> u8 {
    match rng.below(4) {
        0 => 0,
        1 => 0xff,
        _ => rng.u64() as u8,
    }
}

// ---------------------------------------------------------------- leaves

macro_rules! leaf {
    ([$($g:tt)*] $ty:ty, $slice:expr, $id:expr, $mk:expr, $share:expr) => {
        impl<T: Prim, $($g)*> Phys for $ty {
            fn vval<'a>(v: Self::View<'a>) -> Val where Self: 'a { Item::to_val(&v) }
            fn decode(&self) -> Res<Vec<Val>> {
                let f: fn(&Self) -> &[T] = $slice;
                Ok(f(self).iter().map(Item::to_val).collect())
            }
            fn reassemble(self) -> Res<Self> { Ok(self) }
            fn share(&self) -> Self { let f: fn(&Self) -> Self = $share; f(self) }
            fn bufs(&self, out: &mut Vec<Buf>) {
                let f: fn(&Self) -> &[T] = $slice;
                let id: fn(&Self) -> u64 = $id;
                out.push(Buf::of(f(self), id(self)));
            }
            fn bit_offsets(&self, _: &mut Vec<usize>) {}
            fn queries(&self) -> Res { Ok(()) }
            fn probe_row<'a>(_: Self::View<'a>) -> Res where Self: 'a { Ok(()) }
            fn build(vals: &[Val], noise: &mut Noise<'_>) -> Self {
                let f: fn(Vec<T>, u64) -> Self = $mk;
                f(vals.iter().map(|v| T::from_val(v)).collect(), noise.alloc)
            }
        }
    };
}
leaf!([] Vec<T>, |s| s, |_| 0, |v, _| v, |s| s.clone());
leaf!([] Box<[T]>, |s| s, |_| 0, |v, _| v.into(), |s| s.clone());
leaf!([] Rc<[T]>, |s| s, |_| 0, |v, _| v.into(), |s| s.clone());
leaf!([] Arc<[T]>, |s| s, |_| 0, |v, _| v.into(), |s| s.clone());
leaf!([] &'static [T], |s| s, |_| 0, <SliceBuffer<'static> as SimBuf>::mk, |s| s);
leaf!([] SimVec<T>, |s| s.slice(), |s| s.id(), <SimBuffer as SimBuf>::mk, |s| s.clone());
leaf!([] SimFix<T>, |s| s.0.slice(), |s| s.0.id(), <SimFixBuffer as SimBuf>::mk, |s| s.clone());
leaf!([const N: usize] [T; N], |s| s, |_| 0, <ArrayBuffer<N> as SimBuf>::mk, |s| *s);

/// Vectors of items that are not fixed-size: plain collections of the library.
macro_rules! plain {
    ($t:ty) => {
        plain!($t, Vec<$t>);
        plain!($t, Box<[$t]>);
        plain!($t, Rc<[$t]>);
        plain!($t, Arc<[$t]>);
    };
    ($t:ty, $c:ty) => {
        impl Phys for $c {
            fn vval<'a>(v: Self::View<'a>) -> Val
            where
                Self: 'a,
            {
                let o: $t = narrow::collection::owned::IntoOwned::into_owned(v);
                o.to_val()
            }
            fn decode(&self) -> Res<Vec<Val>> {
                Ok(self.iter().map(Item::to_val).collect())
            }
            fn reassemble(self) -> Res<Self> {
                Ok(self)
            }
            fn share(&self) -> Self {
                self.clone()
            }
            fn bufs(&self, _: &mut Vec<Buf>) {}
            fn bit_offsets(&self, _: &mut Vec<usize>) {}
            fn queries(&self) -> Res {
                Ok(())
            }
            fn probe_row<'a>(_: Self::View<'a>) -> Res
            where
                Self: 'a,
            {
                Ok(())
            }
            fn build(vals: &[Val], _: &mut Noise<'_>) -> Self {
                vals.iter().map(<$t as Item>::from_val).collect()
            }
        }
    };
}
plain!(bool);
plain!(Vec<u8>);
plain!([u16; 3]);
plain!(Option<u32>);

// ---------------------------------------------------------------- bitmap

fn raw_bits(bytes: &[u8], offset: usize, bits: usize) -> Res<Vec<bool>> {
    let end = offset.checked_add(bits).ok_or("bit range overflows")?;
    if end > bytes.len() * 8 {
        return Err(format!("bitmap of {bits} bits at offset {offset} exceeds {} bytes", bytes.len()));
    }
    Ok((offset..end).map(|i| bytes[i / 8] >> (i % 8) & 1 == 1).collect())
}

pub fn build_bitmap<S: SimBuf>(bits: &[bool], noise: &mut Noise<'_>, cap_bytes: Option<usize>) -> Bitmap<S> {
    let off = if noise.offs && noise.rng.pct(60) {
        // Mostly inside a byte; some around words, a few far into the bytes.
        let o = match noise.rng.below(100) {
            0..65 => noise.rng.us(9),
            65..88 => noise.rng.us(20),
            88..97 => 64 * noise.rng.us(4) + noise.rng.us(72),
            _ => crate::rng::many(noise.rng).min(5000) as usize,
        };
        match cap_bytes {
            Some(c) => o.min((c * 8).saturating_sub(bits.len())),
            None => o,
        }
    } else {
        0
    };
    let mut n = (off + bits.len()).div_ceil(8);
    if noise.extra && cap_bytes.is_none() && noise.rng.pct(40) {
        let most = if noise.rng.pct(6) { 300 } else { 4 };
        n += noise.rng.us(most);
    }
    if let Some(c) = cap_bytes {
        n = c;
    }
    let mut bytes: Vec<u8> = (0..n).map(|_| fill(noise.rng)).collect();
    for (i, b) in bits.iter().enumerate() {
        let p = off + i;
        bytes[p / 8] = bytes[p / 8] & !(1 << (p % 8)) | (u8::from(*b) << (p % 8));
    }
    Bitmap::try_from_parts(S::mk(bytes, noise.alloc), bits.len(), off).expect("well-formed bitmap parts")
}

impl<S: SimBuf> Phys for Bitmap<S> {
    fn vval<'a>(v: bool) -> Val
    where
        Self: 'a,
    {
        Val::B(v)
    }
    fn decode(&self) -> Res<Vec<Val>> {
        let bytes: &[u8] = self.buffer_ref().borrow();
        Ok(raw_bits(bytes, self.bit_offset(), self.len())?.into_iter().map(Val::B).collect())
    }
    fn reassemble(self) -> Res<Self> {
        let (len, off) = (self.len(), self.bit_offset());
        let (buffer, bits, offset) = self.into_parts();
        if (bits, offset) != (len, off) {
            return Err(format!("bitmap parts ({bits},{offset}) differ from ({len},{off})"));
        }
        Bitmap::try_from_parts(buffer, bits, offset).map_err(|e| format!("bitmap parts rejected: {e}"))
    }
    fn share(&self) -> Self {
        Bitmap::try_from_parts(S::share(self.buffer_ref()), self.len(), self.bit_offset())
            .expect("parts of a live bitmap")
    }
    fn bufs(&self, out: &mut Vec<Buf>) {
        let b = self.buffer_ref();
        out.push(Buf::of::<u8>(b.borrow(), S::id(b)));
    }
    fn bit_offsets(&self, out: &mut Vec<usize>) {
        out.push(self.bit_offset());
    }
    fn queries(&self) -> Res {
        Ok(())
    }
    fn probe_row<'a>(_: bool) -> Res
    where
        Self: 'a,
    {
        Ok(())
    }
    fn build(vals: &[Val], noise: &mut Noise<'_>) -> Self {
        let bits: Vec<bool> = vals.iter().map(|v| *v == Val::B(true)).collect();
        build_bitmap::<S>(&bits, noise, array_bytes::<S>())
    }
}
/// Byte capacity forced by array storage.
fn array_bytes<S: SimBuf>() -> Option<usize> {
    (S::NAME == "Array").then(|| size_of::<S::For<u8>>())
}

// ---------------------------------------------------------------- validity

impl<C: Phys, S: SimBuf> Phys for Validity<C, S>
where
    Option<C::Owned>: Item,
{
    fn vval<'a>(v: Option<C::View<'a>>) -> Val
    where
        Self: 'a,
    {
        v.map_or(Val::Null, C::vval)
    }
    fn decode(&self) -> Res<Vec<Val>> {
        let mut vals = self.child_ref().decode()?;
        if let Some(b) = self.bitmap_ref() {
            let bytes: &[u8] = b.buffer_ref().borrow();
            let bits = raw_bits(bytes, b.bit_offset(), b.len())?;
            if bits.len() != vals.len() {
                return Err(format!("validity of {} bits covers {} values", bits.len(), vals.len()));
            }
            for (v, bit) in vals.iter_mut().zip(bits) {
                if !bit {
                    *v = Val::Null;
                }
            }
        }
        Ok(vals)
    }
    fn reassemble(self) -> Res<Self> {
        let (c, b) = self.into_parts();
        let c = c.reassemble()?;
        match b {
            None => Ok(Validity::from_collection(c)),
            Some(b) => Validity::try_from_parts(c, b.reassemble()?)
                .map_err(|e| format!("validity parts rejected: {e}")),
        }
    }
    fn share(&self) -> Self {
        let c = self.child_ref().share();
        match self.bitmap_ref() {
            None => Validity::from_collection(c),
            Some(b) => Validity::try_from_parts(c, b.share()).expect("parts of a live validity"),
        }
    }
    fn bufs(&self, out: &mut Vec<Buf>) {
        if let Some(b) = self.bitmap_ref() {
            b.bufs(out);
        }
        self.child_ref().bufs(out);
    }
    fn bit_offsets(&self, out: &mut Vec<usize>) {
        if let Some(b) = self.bitmap_ref() {
            out.push(b.bit_offset());
        }
        self.child_ref().bit_offsets(out);
    }
    fn queries(&self) -> Res {
        self.child_ref().queries()?;
        let len = self.len();
        let mut nulls = 0usize;
        let step = if len > 512 { 7 } else { 1 };
        for (i, v) in self.iter_views().enumerate() {
            let null = v.is_none();
            nulls += usize::from(null);
            if i % step == 0 || i + 9 > len {
                if self.is_null(i) != Some(null) || self.is_valid(i) != Some(!null) {
                    return Err(format!(
                        "item {i} null={null} but is_null={:?} is_valid={:?}",
                        self.is_null(i),
                        self.is_valid(i)
                    ));
                }
                let viewed = self.view(i).map(|v| v.is_none());
                if viewed != Some(null) {
                    return Err(format!("item {i} null={null} but view says {viewed:?}"));
                }
            }
        }
        for i in beyond(len) {
            if i >= len && (self.is_null(i).is_some() || self.is_valid(i).is_some()) {
                return Err(format!("validity of item {i} of {len} is not absent"));
            }
        }
        let got = (
            self.null_count(), self.valid_count(), self.any_null(), self.all_null(),
            self.any_valid(), self.all_valid(),
        );
        let want = (nulls, len - nulls, nulls > 0, nulls == len, nulls < len, nulls == 0);
        if got != want {
            return Err(format!(
                "queries (null_count, valid_count, any_null, all_null, any_valid, all_valid) = {got:?}, items say {want:?}"
            ));
        }
        Ok(())
    }
    fn probe_row<'a>(v: Option<C::View<'a>>) -> Res
    where
        Self: 'a,
    {
        v.map_or(Ok(()), C::probe_row)
    }
    fn row_iters<'a>(v: Option<C::View<'a>>, out: &mut Vec<Box<dyn ValIter + 'a>>)
    where
        Self: 'a,
    {
        if let Some(v) = v {
            C::row_iters(v, out);
        }
    }
    fn walk_row<'a>(v: Option<C::View<'a>>) -> Res
    where
        Self: 'a,
    {
        v.map_or(Ok(()), C::walk_row)
    }
    fn probe(&self) -> Res {
        let len = self.len();
        for i in beyond(len).into_iter().chain((0..ALIASES).map(|w| alias(len, w))) {
            if i >= len && (self.is_null(i).is_some() || self.is_valid(i).is_some()) {
                return Err(format!("validity of item {i} of {len} is not absent"));
            }
        }
        probe_collection(self)?;
        if let Some(b) = self.bitmap_ref() {
            probe_collection(b)?;
        }
        self.child_ref().probe()
    }
    fn build(vals: &[Val], noise: &mut Noise<'_>) -> Self {
        let g = Gen { nulls: 30, list: 3, long: 0 };
        let shape = <C::Owned as Item>::shape();
        let all_valid = !vals.contains(&Val::Null);
        let inner: Vec<Val> = vals
            .iter()
            .map(|v| if *v == Val::Null { gen_val(&shape, noise.rng, g) } else { v.clone() })
            .collect();
        let c = C::build(&inner, noise);
        if all_valid && noise.absent && noise.rng.pct(40) {
            return Validity::from_collection(c);
        }
        let bits: Vec<bool> = vals.iter().map(|v| *v != Val::Null).collect();
        let b = build_bitmap::<S>(&bits, noise, array_bytes::<S>());
        Validity::try_from_parts(c, b).expect("well-formed validity parts")
    }
}

// ---------------------------------------------------------------- lists

/// A borrowed iterator together with the row view it borrows.
struct RowViews<'a, C: Phys, O: Offset + Prim, S: SimBuf> {
    // Dropped before the row it borrows.
    it: <OffsetView<'a, C, O, S, Vec<C::Owned>> as Collection>::Iter<'a>,
    _row: Box<OffsetView<'a, C, O, S, Vec<C::Owned>>>,
}
impl<'a, C: Phys, O: Offset + Prim, S: SimBuf> RowViews<'a, C, O, S> {
    fn new(v: OffsetView<'a, C, O, S, Vec<C::Owned>>) -> Self {
        let row = Box::new(v);
        // SAFETY: the box is kept, unmoved on the heap, as long as the iterator.
        let it = unsafe { &*std::ptr::from_ref(&*row) }.iter_views();
        Self { it, _row: row }
    }
}
impl<C: Phys, O: Offset + Prim, S: SimBuf> ValIter for RowViews<'_, C, O, S> {
    fn next(&mut self) -> Option<Val> {
        self.it.next().map(C::vval)
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn exact(&self) -> Option<usize> {
        Some(hinted(&self.it))
    }
    fn nth(&mut self, n: usize) -> Option<Val> {
        self.it.nth(n).map(C::vval)
    }
    fn some(&mut self, n: usize) -> Vec<Val> {
        self.it.by_ref().take(n).map(C::vval).collect()
    }
    fn count_rest(mut self: Box<Self>) -> usize {
        self.it.by_ref().count()
    }
    fn last_rest(mut self: Box<Self>) -> Option<Val> {
        self.it.by_ref().last().map(C::vval)
    }
    fn fold_rest(mut self: Box<Self>) -> Vec<Val> {
        self.it.by_ref().fold(Vec::new(), |mut v, x| {
            v.push(C::vval(x));
            v
        })
    }
    fn rest(mut self: Box<Self>) -> Vec<Val> {
        self.it.by_ref().map(C::vval).collect()
    }
}

impl<C: Phys, O: Offset + Prim, S: SimBuf> Phys for Offsets<C, O, S, Vec<C::Owned>>
where
    Vec<C::Owned>: Item,
{
    fn vval<'a>(v: OffsetView<'a, C, O, S, Vec<C::Owned>>) -> Val
    where
        Self: 'a,
    {
        let n = v.len();
        let l: Vec<Val> = v.iter_views().map(C::vval).collect();
        if l.len() != n {
            // A row that iterates differently from its length.
            return Val::L(vec![Val::Null; n + 1]);
        }
        Val::L(l)
    }
    fn decode(&self) -> Res<Vec<Val>> {
        let child = self.child_ref().decode()?;
        let offs: &[O] = self.buffer_ref().borrow();
        if offs.is_empty() {
            return Err("no offsets".into());
        }
        if offs.len() != self.len() + 1 {
            return Err(format!("{} offsets for {} rows", offs.len(), self.len()));
        }
        let mut rows = Vec::with_capacity(offs.len());
        let mut prev = 0usize;
        for (i, o) in offs.iter().enumerate() {
            let o: usize = (*o).try_into().map_err(|_| format!("offset {i} is negative"))?;
            if i == 0 {
                if o != 0 {
                    return Err(format!("first offset is {o}"));
                }
                continue;
            }
            if o < prev || o > child.len() {
                return Err(format!("offset {i} is {o} after {prev} over {} items", child.len()));
            }
            rows.push(Val::L(child[prev..o].to_vec()));
            prev = o;
        }
        Ok(rows)
    }
    fn reassemble(self) -> Res<Self> {
        let (c, o) = self.into_parts();
        let c = c.reassemble()?;
        Offsets::try_from_parts(c, o).map_err(|e| format!("offsets rejected: {e}"))
    }
    fn share(&self) -> Self {
        Offsets::try_from_parts(self.child_ref().share(), S::share(self.buffer_ref()))
            .expect("parts of live offsets")
    }
    fn bufs(&self, out: &mut Vec<Buf>) {
        let b = self.buffer_ref();
        out.push(Buf::of::<O>(b.borrow(), S::id(b)));
        self.child_ref().bufs(out);
    }
    fn bit_offsets(&self, out: &mut Vec<usize>) {
        self.child_ref().bit_offsets(out);
    }
    fn queries(&self) -> Res {
        self.child_ref().queries()
    }
    fn probe_row<'a>(v: OffsetView<'a, C, O, S, Vec<C::Owned>>) -> Res
    where
        Self: 'a,
    {
        let len = v.len();
        for i in beyond(len).into_iter().chain(row_aliases(len)) {
            if i >= len && v.view(i).is_some() {
                return Err(format!("view({i}) of a row of {len} items is not absent"));
            }
        }
        for i in 0..len {
            match v.view(i) {
                None => return Err(format!("view({i}) of a row of {len} items is absent")),
                Some(x) => C::probe_row(x)?,
            }
        }
        if v.owned(len).is_some() {
            return Err(format!("owned({len}) of a row of {len} items is not absent"));
        }
        Ok(())
    }
    fn row_iters<'a>(v: OffsetView<'a, C, O, S, Vec<C::Owned>>, out: &mut Vec<Box<dyn ValIter + 'a>>)
    where
        Self: 'a,
    {
        out.push(Box::new(RowViews::<'a, C, O, S>::new(v)));
        out.push(Box::new(Adapt {
            it: v.into_iter_owned(),
            to: |x: C::Owned| x.to_val(),
            len: Some(hinted),
        }));
    }
    fn walk_row<'a>(v: OffsetView<'a, C, O, S, Vec<C::Owned>>) -> Res
    where
        Self: 'a,
    {
        let len = v.len();
        let mut it = v.iter_views();
        for left in (0..=len).rev() {
            if it.size_hint() != (left, Some(left)) {
                return Err(format!("a row of {len} items with {left} left reports {:?}", it.size_hint()));
            }
            match it.next() {
                Some(x) if left > 0 => C::walk_row(x)?,
                None if left == 0 => {}
                _ => return Err(format!("a row of {len} items ends with {left} left")),
            }
        }
        let mut it = v.into_iter_owned();
        for left in (0..=len).rev() {
            if it.size_hint() != (left, Some(left)) {
                return Err(format!("an owned row of {len} items with {left} left reports {:?}", it.size_hint()));
            }
            if it.next().is_some() != (left > 0) {
                return Err(format!("an owned row of {len} items ends with {left} left"));
            }
        }
        Ok(())
    }
    fn probe(&self) -> Res {
        probe_collection(self)?;
        self.child_ref().probe()
    }
    fn build(vals: &[Val], noise: &mut Noise<'_>) -> Self {
        let mut flat = Vec::new();
        let mut offs: Vec<O> = vec![O::default()];
        for v in vals {
            if let Val::L(l) = v {
                flat.extend(l.iter().cloned());
            }
            offs.push(O::try_from(flat.len()).expect("small offset"));
        }
        if noise.extra && noise.rng.pct(30) {
            let shape = <C::Owned as Item>::shape();
            let most = if noise.rng.pct(5) { 200 } else { 4 };
            for _ in 0..noise.rng.us(most) {
                flat.push(gen_val(&shape, noise.rng, Gen { nulls: 30, list: 2, long: 0 }));
            }
        }
        let c = C::build(&flat, noise);
        Offsets::try_from_parts(c, S::mk(offs, noise.alloc)).expect("well-formed offsets")
    }
}

impl<C: Phys, const N: usize> Phys for Flatten<C, N>
where
    [C::Owned; N]: Item,
{
    fn vval<'a>(v: FlattenView<'a, C, N>) -> Val
    where
        Self: 'a,
    {
        Val::L(v.iter().map(|x| C::vval(*x)).collect())
    }
    fn decode(&self) -> Res<Vec<Val>> {
        let child = self.child_ref().decode()?;
        if child.len() != self.len() * N {
            return Err(format!("{} child items for {} rows of {N}", child.len(), self.len()));
        }
        Ok(child.chunks(N).map(|c| Val::L(c.to_vec())).collect())
    }
    fn reassemble(self) -> Res<Self> {
        Flatten::try_from_parts(self.into_parts().reassemble()?)
            .map_err(|e| format!("fixed-size-list child rejected: {e}"))
    }
    fn share(&self) -> Self {
        Flatten::try_from_parts(self.child_ref().share()).expect("parts of a live fixed-size list")
    }
    fn bufs(&self, out: &mut Vec<Buf>) {
        self.child_ref().bufs(out);
    }
    fn bit_offsets(&self, out: &mut Vec<usize>) {
        self.child_ref().bit_offsets(out);
    }
    fn queries(&self) -> Res {
        self.child_ref().queries()
    }
    fn probe_row<'a>(v: FlattenView<'a, C, N>) -> Res
    where
        Self: 'a,
    {
        v.iter().try_for_each(|x| C::probe_row(*x))
    }
    fn row_iters<'a>(v: FlattenView<'a, C, N>, out: &mut Vec<Box<dyn ValIter + 'a>>)
    where
        Self: 'a,
    {
        v.iter().for_each(|x| C::row_iters(*x, out));
    }
    fn walk_row<'a>(v: FlattenView<'a, C, N>) -> Res
    where
        Self: 'a,
    {
        v.iter().try_for_each(|x| C::walk_row(*x))
    }
    fn probe(&self) -> Res {
        probe_collection(self)?;
        self.child_ref().probe()
    }
    fn build(vals: &[Val], noise: &mut Noise<'_>) -> Self {
        let mut flat = Vec::new();
        for v in vals {
            if let Val::L(l) = v {
                flat.extend(l.iter().cloned());
            }
        }
        Flatten::try_from_parts(C::build(&flat, noise)).expect("well-formed fixed-size list")
    }
}

// ---------------------------------------------------------------- wrappers

macro_rules! wrap {
    ([$($g:tt)*] $ty:ty, $inner:ty $(, where $($w:tt)*)?) => {
        impl<$($g)*> Phys for $ty $(where $($w)*)? {
            fn vval<'a>(v: Self::View<'a>) -> Val where Self: 'a { <$inner as Phys>::vval(v) }
            fn decode(&self) -> Res<Vec<Val>> {
                let d = self.buffer_ref().decode()?;
                if d.len() != self.len() {
                    return Err(format!("{} physical items, length {}", d.len(), self.len()));
                }
                Ok(d)
            }
            fn reassemble(self) -> Res<Self> { Ok(Self::from_buffer(<$inner as Phys>::reassemble(self.into_buffer())?)) }
            fn share(&self) -> Self { Self::from_buffer(self.buffer_ref().share()) }
            fn bufs(&self, out: &mut Vec<Buf>) { self.buffer_ref().bufs(out) }
            fn bit_offsets(&self, out: &mut Vec<usize>) { self.buffer_ref().bit_offsets(out) }
            fn queries(&self) -> Res { self.buffer_ref().queries() }
            fn probe_row<'a>(v: Self::View<'a>) -> Res where Self: 'a { <$inner as Phys>::probe_row(v) }
            fn row_iters<'a>(v: Self::View<'a>, out: &mut Vec<Box<dyn ValIter + 'a>>) where Self: 'a { <$inner as Phys>::row_iters(v, out) }
            fn walk_row<'a>(v: Self::View<'a>) -> Res where Self: 'a { <$inner as Phys>::walk_row(v) }
            fn probe(&self) -> Res { probe_collection(self)?; self.buffer_ref().probe() }
            fn build(vals: &[Val], noise: &mut Noise<'_>) -> Self { Self::from_buffer(<$inner as Phys>::build(vals, noise)) }
        }
    };
}

wrap!([S: SimBuf] Boolean<NonNullable, S>, Bitmap<S>);
wrap!([S: SimBuf] Boolean<Nullable, S>, Validity<Bitmap<S>, S>);
wrap!([T: Prim, S: SimBuf] FixedSizePrimitive<T, NonNullable, S>, S::For<T>, where S::For<T>: Phys);
wrap!([T: Prim, S: SimBuf] FixedSizePrimitive<T, Nullable, S>, Validity<S::For<T>, S>, where S::For<T>: Phys);
wrap!([T: ArrayItem + Item, const N: usize, S: SimBuf] FixedSizeList<T, N, NonNullable, S>, Flatten<T::Memory<S>, N>, where T::Memory<S>: Phys);
wrap!([T: ArrayItem + Item, const N: usize, S: SimBuf] FixedSizeList<T, N, Nullable, S>, Validity<Flatten<T::Memory<S>, N>, S>, where T::Memory<S>: Phys);
wrap!([T: ArrayItem + Item, O: Offset + Prim, S: SimBuf] VariableSizeList<T, NonNullable, O, S>, Offsets<T::Memory<S>, O, S>, where T::Memory<S>: Phys);
wrap!([T: ArrayItem + Item, O: Offset + Prim, S: SimBuf] VariableSizeList<T, Nullable, O, S>, Validity<Offsets<T::Memory<S>, O, S>, S>, where T::Memory<S>: Phys);
wrap!([T: ArrayItem + Item, S: SimBuf] Array<T, S>, T::Memory<S>, where T::Memory<S>: Phys);
