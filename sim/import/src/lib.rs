//! A foreign producer: structures built with every freedom the C Data
//! Interface allows, damaged and repaired, imported while other imports of
//! the same structures are alive.
#![allow(clippy::type_complexity)]

use sim_base::alloc::{self, freed};
use sim_base::cdata::{CArray, CSchema, FTy, Kind, NULLABLE, Sch};
use sim_base::dynarr::{Holder, ValIter};
use sim_ffi::{DynExport, ImportFn};
use sim_base::op::{Op, Outcome, Scenario, Violation, bump};
use sim_base::val::offsets_defects;
use sim_base::phys::{Phys, beyond, clear_arena};
use sim_readers::{Reader, row_wants};
use sim_base::rng::{Hash, Rng, many, mix2};
use sim_base::storage::{clear_handles, reset_handles};
use sim_base::val::{Gen, Shape, Val, gen_val, gen_vals, show, spoken};
use narrow::{array::Array, buffer::SliceBuffer, layout::ArrayItem};
use narrow_ffi::{ArrowArray, ArrowSchema, Export, Import, ImportError};
use std::any::Any;
use std::cell::Cell;
use std::ffi::{CString, c_void};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

/// An item type that can be imported.
pub struct Ty {
    pub name: &'static str,
    pub shape: Shape,
    pub sch: Sch,
    pub import: ImportFn,
}
fn ty<T>(name: &'static str) -> Ty
where
    T: FTy + ArrayItem,
    Array<T, SliceBuffer<'static>>: Phys + Export + Import<'static>,
{
    Ty {
        name,
        shape: T::shape(),
        sch: T::sch(),
        // SAFETY: callers pass structures the world keeps.
        import: |a, s| Ok(Box::new(Holder(unsafe { <Array<T, SliceBuffer<'static>> as Import>::import(a, s) }?))),
    }
}
pub fn types() -> Vec<Ty> {
    macro_rules! tys {
        ($($t:ty),* $(,)?) => { vec![$(ty::<$t>(stringify!($t))),*] };
    }
    tys!(
        i8, u8, i16, u16, i32, u32, i64, u64, f32, f64, bool,
        Option<i8>, Option<u8>, Option<i16>, Option<u16>, Option<i32>, Option<u32>, Option<i64>, Option<u64>,
        Option<f32>, Option<f64>, Option<bool>,
        [u8; 0], [u8; 1], [u8; 3], [bool; 3], [Option<u8>; 2], Option<[u32; 2]>, Option<[Option<bool>; 3]>, [[bool; 2]; 2],
        [u16; 12], [i32; 9], [bool; 19], Option<[Option<u8>; 32]>, [i64; 100], Option<[f64; 10]>, [u8; 300], Option<[bool; 257]>, Vec<[u8; 256]>, [Option<u8>; 1000],
        Vec<u8>, Vec<bool>, Vec<f64>, Option<Vec<u16>>, Vec<Option<u8>>, Option<Vec<Option<bool>>>,
        Vec<Vec<u8>>, Option<Vec<Option<Vec<Option<u8>>>>>, [Vec<u8>; 2], Option<[Option<Vec<u8>>; 2]>,
        Vec<[Option<bool>; 2]>, Vec<Option<[Vec<Option<u8>>; 2]>>, Option<Vec<[[i32; 2]; 2]>>
    )
}

// ---------------------------------------------------------------- producer

/// No key-value pairs.
static METADATA: [std::ffi::c_char; 4] = [0; 4];
/// Items beyond the declared length every buffer has room for.
const SLACK: usize = 20;

struct Level {
    arr: Box<CArray>,
    ptrs: Box<[*const c_void]>,
    kids: Box<[*mut CArray]>,
    bufs: Vec<Vec<u64>>,
    format: CString,
    nullable: bool,
    sch: Option<Box<SchemaLevel>>,
}
struct SchemaLevel {
    s: Box<CSchema>,
    kids: Box<[*mut CSchema]>,
    format: CString,
    _name: CString,
}

unsafe extern "C" fn release_array(a: *mut CArray) {
    // SAFETY: private data is the counter of the foreign structure.
    unsafe {
        let n = &*(*a).private_data.cast::<Cell<u64>>();
        n.set(n.get() + 1);
        (*a).release = None;
    }
}
unsafe extern "C" fn release_schema(s: *mut CSchema) {
    // SAFETY: as above.
    unsafe {
        let n = &*(*s).private_data.cast::<Cell<u64>>();
        n.set(n.get() + 1);
        (*s).release = None;
    }
}

/// A structure somebody else made.
struct Foreign {
    ty: usize,
    levels: Vec<Level>,
    released: Rc<Cell<u64>>,
    /// Values to put back, latest last.
    undo: Vec<(Box<dyn FnOnce(&mut Vec<Level>)>, u64)>,
    /// Groups what one damage did.
    hits: u64,
    damaged: bool,
    /// Formats of this structure's own.
    formats: Vec<CString>,
    pin: Rc<()>,
    /// What the undamaged structure encodes.
    vals: Vec<Val>,
}

fn set_bit(b: &mut [u8], i: usize, v: bool) {
    b[i / 8] = b[i / 8] & !(1 << (i % 8)) | u8::from(v) << (i % 8);
}
fn bytes_of(b: &[u64]) -> &[u8] {
    // SAFETY: any bytes are bytes.
    unsafe { std::slice::from_raw_parts(b.as_ptr().cast(), b.len() * 8) }
}
fn bytes_mut(b: &mut [u64]) -> &mut [u8] {
    // SAFETY: as above.
    unsafe { std::slice::from_raw_parts_mut(b.as_mut_ptr().cast(), b.len() * 8) }
}

impl Foreign {
    fn new(ty: usize, t: &Ty, vals: Vec<Val>, r: &mut Rng) -> Self {
        let mut f = Self {
            ty, levels: Vec::new(), released: Rc::new(Cell::new(0)), undo: Vec::new(), hits: 0, damaged: false, formats: Vec::new(), pin: Rc::new(()), vals: vals.clone(),
        };
        f.level(&t.sch, &t.shape, vals, r);
        // Children are linked once every level has its place.
        for d in (1..f.levels.len()).rev() {
            let c: *mut CArray = &raw mut *f.levels[d].arr;
            f.levels[d - 1].kids[0] = c;
        }
        f.schema(r);
        f
    }
    fn schema(&mut self, r: &mut Rng) {
        for d in (0..self.levels.len()).rev() {
            let n = self.levels.len();
            let mut kids: Box<[*mut CSchema]> = Box::new([std::ptr::null_mut()]);
            if d + 1 < n {
                kids[0] = &raw mut *self.levels[d + 1].sch.as_mut().expect("child schema").s;
            }
            let last = d + 1 == n;
            let format = self.levels[d].format.clone();
            let name = CString::new(if r.pct(50) { "" } else { "field" }).expect("no nul");
            let nullable = self.levels[d].nullable;
            let extra = if r.pct(20) { *r.pick(&[1, 4, 5]) } else { 0 };
            let s = Box::new(CSchema {
                format: format.as_ptr(),
                name: if r.pct(20) { std::ptr::null() } else { name.as_ptr() },
                metadata: if r.pct(20) { METADATA.as_ptr() } else { std::ptr::null() },
                flags: if nullable { NULLABLE } else { 0 } | extra,
                n_children: i64::from(!last),
                children: if last && r.pct(50) { std::ptr::null_mut() } else { kids.as_mut_ptr() },
                dictionary: std::ptr::null_mut(),
                release: Some(release_schema),
                private_data: Rc::as_ptr(&self.released).cast_mut().cast(),
            });
            self.levels[d].sch = Some(Box::new(SchemaLevel { s, kids, format, _name: name }));
        }
    }
    fn level(&mut self, sch: &Sch, shape: &Shape, vals: Vec<Val>, r: &mut Rng) {
        let n = vals.len();
        let room = |bytes: usize, r: &mut Rng| -> Vec<u64> {
            let words = (bytes.div_ceil(8)).max((n + SLACK + 1) * 2);
            let fill = r.below(3);
            (0..words).map(|_| match fill { 0 => 0, 1 => u64::MAX, _ => r.u64() }).collect()
        };
        let nulls = vals.iter().filter(|v| **v == Val::Null).count();
        let inner = match shape {
            Shape::Opt(s) => &**s,
            s => s,
        };
        let g = Gen { nulls: 30, list: 2, long: 0 };
        // What lies under a null is anybody's business.
        let phys: Vec<Val> = vals.iter().map(|v| if *v == Val::Null { gen_val(inner, r, g) } else { v.clone() }).collect();
        let with = nulls > 0 || r.pct(if sch.nullable { 60 } else { 25 });
        let mut validity = room(n.div_ceil(8), r);
        vals.iter().enumerate().for_each(|(i, v)| set_bit(bytes_mut(&mut validity), i, *v != Val::Null));
        let null_count = if with && r.pct(40) { -1 } else { nulls as i64 };
        let mut child = None;
        let second = match sch.kind {
            Kind::Bool => {
                let mut b = room(n.div_ceil(8), r);
                phys.iter().enumerate().for_each(|(i, v)| set_bit(bytes_mut(&mut b), i, *v == Val::B(true)));
                Some(b)
            }
            Kind::Prim(w) => {
                let mut b = room(n * w, r);
                for (i, v) in phys.iter().enumerate() {
                    if let Val::P(p) = v {
                        bytes_mut(&mut b)[i * w..(i + 1) * w].copy_from_slice(&p.to_le_bytes()[..w]);
                    }
                }
                Some(b)
            }
            Kind::Fixed(_) | Kind::List => {
                let (Shape::Fixed(_, s) | Shape::List(s)) = inner else { unreachable!("nested shape") };
                let mut flat = Vec::new();
                let mut offs = vec![0i32];
                for v in &phys {
                    if let Val::L(l) = v {
                        flat.extend(l.iter().cloned());
                    }
                    offs.push(flat.len() as i32);
                }
                let list = matches!(sch.kind, Kind::List);
                if list && r.pct(30) {
                    flat.extend((0..r.us(4)).map(|_| gen_val(s, r, g)).collect::<Vec<_>>());
                }
                child = Some(((**s).clone(), flat));
                list.then(|| {
                    let mut b = room(offs.len() * 4, r);
                    for (i, o) in offs.iter().enumerate() {
                        bytes_mut(&mut b)[i * 4..i * 4 + 4].copy_from_slice(&o.to_ne_bytes());
                    }
                    b
                })
            }
        };
        let mut bufs = vec![validity];
        let two = second.is_some();
        bufs.extend(second);
        let mut ptrs: Box<[*const c_void]> = Box::new([std::ptr::null(); 2]);
        if with {
            ptrs[0] = bufs[0].as_ptr().cast();
        }
        if two && (n > 0 || matches!(sch.kind, Kind::List) || r.pct(60)) {
            ptrs[1] = bufs[1].as_ptr().cast();
        }
        let mut kids: Box<[*mut CArray]> = Box::new([std::ptr::null_mut()]);
        let arr = Box::new(CArray {
            length: n as i64,
            null_count,
            offset: 0,
            n_buffers: sch.buffers(),
            n_children: sch.children(),
            buffers: ptrs.as_mut_ptr(),
            children: if child.is_none() && r.pct(50) { std::ptr::null_mut() } else { kids.as_mut_ptr() },
            dictionary: std::ptr::null_mut(),
            release: Some(release_array),
            private_data: Rc::as_ptr(&self.released).cast_mut().cast(),
        });
        let format = CString::new(sch.fmt.clone()).expect("no nul");
        self.levels.push(Level { arr, ptrs, kids, bufs, format, nullable: sch.nullable, sch: None });
        if let Some((s, flat)) = child {
            self.level(sch.child.as_ref().expect("child type"), &s, flat, r);
        }
    }
    fn whole(&self) -> bool {
        self.levels.iter().all(|l| l.sch.is_some())
    }
    fn top(&self) -> (*const CArray, *const CSchema) {
        (&raw const *self.levels[0].arr, &raw const *self.levels[0].sch.as_ref().expect("schema").s)
    }
    /// Everything an importer must leave alone.
    fn bytes(&self) -> Vec<u64> {
        let mut h = Hash::default();
        let mut out = Vec::new();
        let mut add = |b: &[u8]| b.chunks(8).for_each(|c| h.add(c.iter().fold(0, |x, y| x << 8 | u64::from(*y))));
        for l in &self.levels {
            // SAFETY: plain data without padding.
            add(unsafe { std::slice::from_raw_parts((&raw const *l.arr).cast(), size_of::<CArray>()) });
            l.bufs.iter().for_each(|b| add(bytes_of(b)));
            l.ptrs.iter().for_each(|p| add(&(*p as usize).to_le_bytes()));
            l.kids.iter().for_each(|p| add(&(*p as usize).to_le_bytes()));
            if let Some(s) = &l.sch {
                // SAFETY: as above.
                add(unsafe { std::slice::from_raw_parts((&raw const *s.s).cast(), size_of::<CSchema>()) });
                add(s.format.as_bytes());
                s.kids.iter().for_each(|p| add(&(*p as usize).to_le_bytes()));
            }
        }
        out.push(h.0);
        out.push(self.released.get());
        out
    }
    fn owns(&self, p: usize, len: usize) -> bool {
        self.levels.iter().flat_map(|l| &l.bufs).any(|b| {
            let q = b.as_ptr() as usize;
            q <= p && p + len <= q + b.len() * 8
        })
    }
}

// ---------------------------------------------------------------- judge

#[derive(Default)]
struct Verdict {
    /// Defects really present.
    defects: Vec<ImportError>,
    /// Peculiarities an importer may object to.
    maybe: Vec<ImportError>,
}

fn width(f: &[u8]) -> Option<Option<usize>> {
    let d = f.strip_prefix(b"+w:")?;
    if d.is_empty() || !d.iter().all(u8::is_ascii_digit) {
        return Some(None);
    }
    Some(std::str::from_utf8(d).ok().and_then(|s| s.parse().ok()))
}

/// Reads one level by the specification and, where that makes sense, those
/// below. Returns its items unless something is wrong.
fn judge(a: *const CArray, s: *const CSchema, t: &Sch, f: &Foreign, d: usize, v: &mut Verdict) -> Option<Vec<Val>> {
    // SAFETY: the world owns the structures and keeps them.
    let (a, s) = unsafe { (&*a, &*s) };
    let before = v.defects.len();
    let (dead, sdead) = (a.release.is_none(), s.release.is_none());
    if dead {
        v.defects.push(ImportError::ReleasedArray);
    }
    if sdead {
        v.defects.push(ImportError::ReleasedSchema);
    }
    if !sdead {
        if s.format.is_null() {
            v.defects.push(ImportError::MissingFormat);
        } else {
            // SAFETY: formats are the world's strings.
            let fmt = unsafe { std::ffi::CStr::from_ptr(s.format) }.to_bytes();
            if fmt != t.fmt.as_bytes() {
                // Leading zeros are not ruled out by the specification.
                let same = matches!(t.kind, Kind::Fixed(n) if width(fmt) == Some(Some(n)));
                if same { v.maybe.push(ImportError::UnexpectedFormat) } else { v.defects.push(ImportError::UnexpectedFormat) }
            }
        }
        if (s.flags & NULLABLE != 0) != t.nullable {
            v.defects.push(ImportError::UnexpectedFlags { flags: s.flags });
        } else if s.flags & !7 != 0 {
            v.maybe.push(ImportError::UnexpectedFlags { flags: s.flags });
        }
    }
    if dead {
        return None;
    }
    let n = usize::try_from(a.length);
    if n.is_err() {
        v.defects.push(ImportError::InvalidLength { length: a.length });
    }
    if a.offset != 0 {
        v.defects.push(ImportError::NonZeroOffset { offset: a.offset });
    }
    if a.null_count < -1 || a.null_count > a.length || (!t.nullable && a.null_count > 0) {
        v.defects.push(ImportError::UnexpectedNullCount { null_count: a.null_count });
    }
    if a.n_buffers != t.buffers() {
        v.defects.push(ImportError::UnexpectedBufferCount { count: a.n_buffers });
    }
    if !sdead && (a.n_children != t.children() || s.n_children != t.children()) {
        v.defects.push(ImportError::UnexpectedChildCount { array: a.n_children, schema: s.n_children });
    }
    if !a.dictionary.is_null() || (!sdead && !s.dictionary.is_null()) {
        v.defects.push(ImportError::UnexpectedDictionary);
    }
    let mut ptrs: Option<&[*const c_void]> = None;
    if a.buffers.is_null() {
        v.defects.push(ImportError::MissingBufferPointers);
    } else {
        // SAFETY: pointer arrays always have two places.
        ptrs = Some(unsafe { std::slice::from_raw_parts(a.buffers, 2) });
    }
    // SAFETY: reads inside the world's buffers only, see `SLACK`.
    let read = |p: *const c_void, len: usize| -> &[u8] {
        assert!(len == 0 || f.owns(p as usize, len), "the producer promises too little");
        if len == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p.cast(), len) } }
    };
    // The child.
    let mut kid = None;
    let mut kid_len = None;
    if let Some(ct) = &t.child {
        if let Kind::Fixed(0) = t.kind {
            v.defects.push(ImportError::UnsupportedFixedSizeListSize { size: 0 });
        }
        let mut c = std::ptr::null_mut();
        if a.children.is_null() {
            v.defects.push(ImportError::MissingArrayChildren);
        } else {
            // SAFETY: child arrays have at least one place.
            c = unsafe { *a.children };
            if c.is_null() {
                v.defects.push(ImportError::MissingArrayChildren);
            }
        }
        let mut cs = std::ptr::null_mut();
        if !sdead {
            if s.children.is_null() {
                v.defects.push(ImportError::MissingSchemaChildren);
            } else {
                // SAFETY: as above.
                cs = unsafe { *s.children };
                if cs.is_null() {
                    v.defects.push(ImportError::MissingSchemaChildren);
                }
            }
        }
        if !c.is_null() && !cs.is_null() {
            kid = judge(c, cs, ct, f, d + 1, v);
        }
        if !c.is_null() {
            // SAFETY: children are never freed before their parents.
            kid_len = unsafe { ((*c).release.is_some()).then_some((*c).length) }.and_then(|l| usize::try_from(l).ok());
        }
    }
    let n = n.ok()?;
    if let (Kind::Fixed(w), Some(l)) = (&t.kind, kid_len)
        && *w > 0
        && n.checked_mul(*w) != Some(l)
    {
        v.defects.push(ImportError::FixedSizeListLengthMismatch { length: n, child_length: l, size: *w });
    }
    // The producer has room for this many rows only.
    if n >= f.levels[d].bufs[0].len() / 2 {
        assert!(v.defects.len() > before, "the producer promises too many rows");
        return None;
    }
    let ptrs = ptrs?;
    let mut valid = vec![true; n];
    if t.nullable {
        if ptrs[0].is_null() {
            if a.null_count != 0 {
                if n > 0 {
                    v.defects.push(ImportError::MissingValidityBuffer);
                } else if a.null_count == -1 {
                    v.maybe.push(ImportError::MissingValidityBuffer);
                }
            }
        } else {
            let b = read(ptrs[0], n.div_ceil(8));
            valid.iter_mut().enumerate().for_each(|(i, x)| *x = b[i / 8] >> (i % 8) & 1 == 1);
            let actual = valid.iter().filter(|x| !**x).count();
            if a.null_count >= 0 && a.null_count != actual as i64 {
                v.defects.push(ImportError::NullCountMismatch { declared: a.null_count, actual });
            }
        }
    } else if a.null_count == -1 && ptrs[0].is_null() {
        v.maybe.push(ImportError::MissingValidityBuffer);
    } else if a.null_count == -1 {
        let b = read(ptrs[0], n.div_ceil(8));
        let actual = (0..n).filter(|i| b[i / 8] >> (i % 8) & 1 == 0).count();
        if actual > 0 {
            v.maybe.push(ImportError::UnexpectedNullCount { null_count: -1 });
            v.maybe.push(ImportError::NullCountMismatch { declared: -1, actual });
        }
    }
    let items: Vec<Val> = match t.kind {
        Kind::Bool | Kind::Prim(_) => {
            if n > 0 && ptrs[1].is_null() {
                v.defects.push(ImportError::MissingValuesBuffer);
                return None;
            }
            let w = if let Kind::Prim(w) = t.kind { w } else { 1 };
            if n > 0 && ptrs[1] as usize % w != 0 {
                v.defects.push(ImportError::MisalignedValuesBuffer { alignment: w });
                return None;
            }
            if let Kind::Bool = t.kind {
                let b = read(ptrs[1], n.div_ceil(8));
                (0..n).map(|i| Val::B(b[i / 8] >> (i % 8) & 1 == 1)).collect()
            } else {
                let b = read(ptrs[1], n * w);
                b.chunks(w)
                    .map(|c| {
                        let mut x = [0; 16];
                        x[..w].copy_from_slice(c);
                        Val::P(u128::from_le_bytes(x))
                    })
                    .collect()
            }
        }
        Kind::Fixed(w) => {
            let kid = kid?;
            if w == 0 || kid.len() != n * w {
                return None;
            }
            kid.chunks(w).map(|c| Val::L(c.to_vec())).collect()
        }
        Kind::List => {
            // An empty list array need not have offsets at all.
            let put = if n == 0 { &mut v.maybe } else { &mut v.defects };
            if ptrs[1].is_null() {
                put.push(ImportError::MissingOffsetsBuffer);
                if n > 0 {
                    return None;
                }
            } else if ptrs[1] as usize % 4 != 0 {
                put.push(ImportError::MisalignedOffsetsBuffer { alignment: 4 });
                if n > 0 {
                    return None;
                }
            }
            let offs: Vec<i64> = if ptrs[1].is_null() {
                Vec::new()
            } else {
                read(ptrs[1], (n + 1) * 4).chunks(4).map(|c| i64::from(i32::from_ne_bytes(c.try_into().expect("four")))).collect()
            };
            if let Some(l) = kid_len
                && !offs.is_empty()
            {
                for error in offsets_defects(l, &offs) {
                    put.push(ImportError::InvalidOffsets { error });
                }
            }
            if v.defects.len() > before || (n > 0 && kid.is_none()) {
                return None;
            }
            let kid = kid.unwrap_or_default();
            if n == 0 { Vec::new() } else { offs.windows(2).map(|w| Val::L(kid[w[0] as usize..w[1] as usize].to_vec())).collect() }
        }
    };
    if v.defects.len() > before {
        return None;
    }
    Some(items.into_iter().zip(valid).map(|(x, ok)| if ok { x } else { Val::Null }).collect())
}

// ---------------------------------------------------------------- world

struct Held {
    // Dropped before what it borrows.
    arr: Box<dyn DynExport>,
    vals: Vec<Val>,
    ty: usize,
    _pin: Rc<()>,
}

struct World<'k> {
    types: &'k [Ty],
    held: Vec<Rc<Held>>,
    readers: Vec<Reader>,
    foreign: Vec<Foreign>,
    hash: Hash,
    imports: u64,
}

type Step = Result<(), (&'static str, String)>;
fn bad<T>(kind: &'static str, msg: impl Into<String>) -> Result<T, (&'static str, String)> {
    Err((kind, msg.into()))
}

/// Replaces a field and remembers how to put it back.
macro_rules! hit {
    ($f:expr, $d:expr, $l:ident, $place:expr, $new:expr) => {{
        let d = $d;
        let old = {
            let $l = &mut $f.levels[d];
            let old = $place;
            $place = $new;
            old
        };
        let hits = $f.hits;
        $f.undo.push((Box::new(move |levels: &mut Vec<Level>| {
            let $l = &mut levels[d];
            $place = old;
        }), hits));
    }};
}

const FORMATS: [&std::ffi::CStr; 24] = [
    c"", c"c", c"C", c"s", c"S", c"i", c"I", c"l", c"L", c"f", c"g", c"b", c"+l", c"+L", c"+w:", c"+w:2", c"+w:3", c"+w:03",
    c"+w:3x", c"+w:-3", c"+w:18446744073709551619", c"+w: 3", c"n", c"+w:0",
];

/// A format a careless reader may take for `fmt`.
fn near_format(fmt: &str, r: &mut Rng) -> CString {
    let mut b = fmt.as_bytes().to_vec();
    match (fmt.strip_prefix("+w:").and_then(|d| d.parse::<u128>().ok()), r.below(8)) {
        // Characters after the digits, carried over from the next place.
        (Some(w), 0..=2) if w >= 10 => {
            let last = b.len() - 1;
            let ten = (0..last).rev().find(|i| b[*i] > b'0' && b[*i] <= b'9').unwrap_or(last);
            if ten + 1 == last {
                b[ten] -= 1;
                b[last] += 10;
                if r.pct(60) && b[ten] == b'0' {
                    b.remove(ten);
                }
            }
        }
        // The same number after an overflow.
        (Some(w), 3) => b = format!("+w:{}", (1u128 << *r.pick(&[8, 16, 31, 32, 63, 64, 65])) + w).into_bytes(),
        (Some(w), 4) => b = format!("+w:{}", w.wrapping_add(*r.pick(&[1, 10, u128::MAX, 100])) % 1000).into_bytes(),
        (Some(_), 5) => b.insert(3, *r.pick(b"+- 0_")),
        (_, 6) => b.push(*r.pick(b"0 :;/1+\n")),
        (_, 7) => {
            b.pop();
        }
        _ => {
            let i = r.us(b.len());
            b[i] ^= 1 << r.below(7);
        }
    }
    b.retain(|c| *c != 0);
    CString::new(b).expect("no nul")
}

impl World<'_> {
    fn pick<T>(v: &[T], op: &Op) -> Option<usize> {
        (!v.is_empty()).then(|| op.us("a") % v.len())
    }

    fn damage(&mut self, op: &Op) {
        let Some(i) = Self::pick(&self.foreign, op) else { return };
        let f = &mut self.foreign[i];
        if Rc::strong_count(&f.pin) > 1 || !f.whole() {
            return;
        }
        let mut r = Rng::new(op.get("x"));
        let d = op.us("d") % f.levels.len();
        let t = self.types[f.ty].sch.level(d);
        let n = f.levels[d].arr.length;
        let wild = |r: &mut Rng| *r.pick(&[-1, 1, 2, 3, -2, i64::MIN, i64::MAX, 1 << 32, 256, 0, 8, -8]);
        // A number that is right in its low bits only.
        let alias = |r: &mut Rng, x: i64| x.wrapping_add(*r.pick(&[1i64, -1]) * (1 << *r.pick(&[7, 8, 8, 15, 16, 31, 32, 33, 48, 62])));
        let nowhere = |r: &mut Rng| *r.pick(&[8usize, 16, 1, usize::MAX - 7]);
        f.damaged = true;
        f.hits += 1;
        match op.get("f") {
            0 => {
                let fixed = matches!(t.kind, Kind::Fixed(w) if w > 1);
                let x = match r.below(6) {
                    0 => -1,
                    1 => *r.pick(&[i64::MIN, (-1i64).saturating_sub(n), -9]),
                    2 => n.saturating_add(1 + r.below(8) as i64),
                    3 => n.saturating_sub(1 + r.below(8) as i64).max(-2),
                    4 if fixed && r.pct(50) => alias(&mut r, n),
                    4 if fixed => *r.pick(&[i64::MAX, 1 << 62, 1 << 32, i64::MAX / 3 + 1]),
                    5 => 0,
                    _ => n.saturating_add(1),
                };
                // Lengths stay within the producer's room unless they must
                // be refused before any buffer is read.
                let huge = fixed && x > n.saturating_add(SLACK as i64 / 2);
                let room = f.levels[d].bufs[0].len() as i64 / 2 - 1;
                if x <= room || huge {
                    hit!(f, d, l, l.arr.length, x);
                    bump("fault.length");
                }
            }
            1 => {
                let truth = f.levels[d].arr.null_count;
                let x = match r.below(6) {
                    0 => wild(&mut r),
                    4 => alias(&mut r, truth),
                    5 => truth ^ (1 << r.below(64 - u64::from(n.max(1).leading_zeros()))),
                    1 => f.levels[d].arr.null_count.saturating_add(1),
                    2 => f.levels[d].arr.null_count.saturating_sub(1),
                    _ => n,
                };
                hit!(f, d, l, l.arr.null_count, x);
                bump("fault.null_count");
            }
            2 => {
                let x = wild(&mut r);
                hit!(f, d, l, l.arr.offset, x);
                bump("fault.offset");
            }
            3 => {
                let x = match r.below(8) {
                    0..=3 => r.below(4) as i64,
                    4 | 5 => alias(&mut r, f.levels[d].arr.n_buffers),
                    _ => wild(&mut r),
                };
                hit!(f, d, l, l.arr.n_buffers, x);
                bump("fault.buffer_count");
            }
            4 => {
                let x = match r.below(10) {
                    0..=4 => r.below(3) as i64,
                    5 | 6 => alias(&mut r, f.levels[d].arr.n_children),
                    _ => wild(&mut r),
                };
                if r.pct(50) {
                    hit!(f, d, l, l.arr.n_children, x);
                } else {
                    hit!(f, d, l, l.sch.as_mut().expect("schema").s.n_children, x);
                }
                bump("fault.child_count");
            }
            5 => {
                if r.pct(50) {
                    let x = nowhere(&mut r) as *mut CArray;
                    hit!(f, d, l, l.arr.dictionary, x);
                } else {
                    let x = nowhere(&mut r) as *mut CSchema;
                    hit!(f, d, l, l.sch.as_mut().expect("schema").s.dictionary, x);
                }
                bump("fault.dictionary");
            }
            6 => {
                let b = r.us(2);
                match r.below(4) {
                    0 => hit!(f, d, l, l.arr.buffers, std::ptr::null_mut()),
                    1 | 2 => hit!(f, d, l, l.ptrs[b], std::ptr::null()),
                    _ => {
                        // Swapped buffers have room for either meaning.
                        let (x, y) = (f.levels[d].ptrs[0], f.levels[d].ptrs[1]);
                        hit!(f, d, l, l.ptrs[0], y);
                        hit!(f, d, l, l.ptrs[1], x);
                    }
                }
                bump("fault.buffer_pointer");
            }
            7 => {
                let by = 1 + r.us(7);
                let b = usize::from(r.pct(80));
                let x = f.levels[d].ptrs[b];
                if !x.is_null() {
                    hit!(f, d, l, l.ptrs[b], x.wrapping_byte_add(by));
                    bump("fault.misaligned_pointer");
                }
            }
            8 => {
                // A released array's other fields mean nothing.
                if r.pct(70) {
                    let p = nowhere(&mut r);
                    hit!(f, d, l, l.arr.buffers, p as *mut *const c_void);
                    hit!(f, d, l, l.arr.children, p as *mut *mut CArray);
                    hit!(f, d, l, l.arr.private_data, std::ptr::null_mut());
                }
                if r.pct(30) {
                    let x = wild(&mut r);
                    hit!(f, d, l, l.arr.length, x);
                }
                hit!(f, d, l, l.arr.release, None);
                bump("fault.released_array");
            }
            9 => {
                if r.pct(70) {
                    let p = nowhere(&mut r);
                    hit!(f, d, l, l.sch.as_mut().expect("schema").s.format, p as *const std::ffi::c_char);
                    hit!(f, d, l, l.sch.as_mut().expect("schema").s.children, p as *mut *mut CSchema);
                }
                hit!(f, d, l, l.sch.as_mut().expect("schema").s.release, None);
                bump("fault.released_schema");
            }
            10 => {
                if f.levels[d].sch.as_ref().expect("schema").s.release.is_none() {
                    return;
                }
                let x = match r.below(10) {
                    0 => std::ptr::null(),
                    1..=5 => {
                        f.formats.push(near_format(&t.fmt, &mut r));
                        f.formats[f.formats.len() - 1].as_ptr()
                    }
                    _ => r.pick(&FORMATS).as_ptr(),
                };
                hit!(f, d, l, l.sch.as_mut().expect("schema").s.format, x);
                bump("fault.format");
            }
            11 => {
                let old = f.levels[d].sch.as_ref().expect("schema").s.flags;
                let x = match r.below(4) {
                    0 | 1 => old ^ NULLABLE,
                    2 => old ^ *r.pick(&[1, 4, 8, 1 << 40, i64::MIN]),
                    _ => wild(&mut r),
                };
                hit!(f, d, l, l.sch.as_mut().expect("schema").s.flags, x);
                bump("fault.flags");
            }
            12 => {
                // List offsets, wherever there are any.
                let Some(d) = (0..f.levels.len()).map(|k| (d + k) % f.levels.len()).find(|k| matches!(self.types[f.ty].sch.level(*k).kind, Kind::List)) else {
                    return;
                };
                let room = f.levels[d].bufs[1].len() as i64 * 2 - 1;
                let n = f.levels[d].arr.length.clamp(0, room) as usize;
                let i = r.us(n + 1);
                let mut old = [0u8; 4];
                old.copy_from_slice(&bytes_of(&f.levels[d].bufs[1])[i * 4..i * 4 + 4]);
                let o = i32::from_ne_bytes(old);
                let x: i32 = match r.below(5) {
                    0 => -1 - r.below(3) as i32,
                    1 => o.wrapping_add(1 + r.below(9) as i32),
                    2 => o.wrapping_sub(1 + r.below(9) as i32),
                    3 => *r.pick(&[i32::MAX, i32::MIN, 1 << 30, 0]),
                    _ => o ^ 1 << r.below(32),
                };
                bytes_mut(&mut f.levels[d].bufs[1])[i * 4..i * 4 + 4].copy_from_slice(&x.to_ne_bytes());
                f.undo.push((Box::new(move |levels| bytes_mut(&mut levels[d].bufs[1])[i * 4..i * 4 + 4].copy_from_slice(&old)), f.hits));
                bump("fault.list_offset");
            }
            13 => {
                let b = if self.types[f.ty].sch.level(d).nullable && r.pct(70) { 0 } else { f.levels[d].bufs.len() - 1 };
                if b == 0 && !self.types[f.ty].sch.level(d).nullable {
                    return;
                }
                let bits = (n.max(0) as usize + 9).min(f.levels[d].bufs[b].len() * 64);
                let i = r.us(bits);
                bytes_mut(&mut f.levels[d].bufs[b])[i / 8] ^= 1 << (i % 8);
                f.undo.push((Box::new(move |levels| bytes_mut(&mut levels[d].bufs[b])[i / 8] ^= 1 << (i % 8)), f.hits));
                bump("fault.bit_flip");
            }
            _ => {
                if t.child.is_none() {
                    return;
                }
                match r.below(4) {
                    0 => hit!(f, d, l, l.arr.children, std::ptr::null_mut()),
                    1 => hit!(f, d, l, l.kids[0], std::ptr::null_mut()),
                    2 => hit!(f, d, l, l.sch.as_mut().expect("schema").s.children, std::ptr::null_mut()),
                    _ => hit!(f, d, l, l.sch.as_mut().expect("schema").kids[0], std::ptr::null_mut()),
                }
                bump("fault.child_pointer");
            }
        }
    }

    fn import(&mut self, op: &Op) -> Step {
        let Some(i) = Self::pick(&self.foreign, op) else { return Ok(()) };
        let f = &self.foreign[i];
        if !f.whole() {
            return Ok(());
        }
        let t = &self.types[f.ty];
        let (a, s) = f.top();
        let mut v = Verdict::default();
        let want = judge(a, s, &t.sch, f, 0, &mut v);
        if want.is_none() && v.defects.is_empty() {
            return bad("harness", "no items and no defect");
        }
        if want.is_some() && !v.defects.is_empty() {
            return bad("harness", "items and defects");
        }
        if !f.damaged && (!v.defects.is_empty() || want.as_ref() != Some(&f.vals)) {
            return bad("harness", format!("an undamaged structure is judged {:?} {:?}", v.defects, want));
        }
        let before = f.bytes();
        // SAFETY: the structures outlive what borrows them; the defects are
        // of the kind an importer has to find.
        let r = catch_unwind(AssertUnwindSafe(|| unsafe { (t.import)(&*a.cast(), &*s.cast()) }));
        self.imports += 1;
        self.hash.add(v.defects.len() as u64 | (want.as_ref().map_or(u32::MAX as usize, Vec::len) as u64) << 8);
        if f.bytes() != before {
            return bad("modified", format!("import of {} changed or released the structures", t.name));
        }
        match r {
            Err(_) => bad("panic", format!("import of {} panicked; defects {:?}", t.name, v.defects)),
            Ok(Err(e)) => {
                bump("op.import_refused");
                spoken(&e).map_err(|m| ("error", m))?;
                if v.defects.contains(&e) || v.maybe.contains(&e) {
                    return Ok(());
                }
                bad("error", format!("import of {} reports {e:?}, present are {:?}", t.name, v.defects))
            }
            Ok(Ok(arr)) => {
                let Some(vals) = want else {
                    std::mem::forget(arr);
                    return bad("accepted", format!("import of {} accepts {:?}", t.name, v.defects));
                };
                bump("op.import_accepted");
                let got: Vec<Val> = (0..arr.len()).map(|i| arr.view(i).unwrap_or(Val::Null)).collect();
                if got != vals {
                    return bad("items", format!("import of {} reads {}, encoded {}", t.name, show(&got), show(&vals)));
                }
                for b in arr.bufs() {
                    if b.bytes > 0 && !f.owns(b.ptr, b.bytes) {
                        return bad("copy", format!("{} bytes of an imported buffer are not the structure's own", b.bytes));
                    }
                }
                let h = Held { arr, vals, ty: f.ty, _pin: Rc::clone(&f.pin) };
                self.held.push(Rc::new(h));
                let h = &self.held[self.held.len() - 1];
                self.check_held(h)
            }
        }
    }

    fn check_held(&self, h: &Held) -> Step {
        let n = h.vals.len();
        for b in h.arr.bufs() {
            if b.bytes > 0 && freed(b.ptr, b.bytes) {
                return bad("dangling", "an imported array's storage was freed");
            }
        }
        if h.arr.len() != n || h.arr.is_empty_q() != (n == 0) {
            return bad("items", format!("an import of {n} items has length {}", h.arr.len()));
        }
        for (i, v) in h.vals.iter().enumerate() {
            let (x, o) = (h.arr.view(i), h.arr.owned(i));
            if x.as_ref() != Some(v) || o.as_ref() != Some(v) {
                return bad("items", format!("imported item {i} is {x:?} / {o:?}, encoded {v}"));
            }
        }
        let d = h.arr.decode().map_err(|m| ("items", m))?;
        if d != h.vals {
            return bad("items", format!("imported buffers hold {}, encoded {}", show(&d), show(&h.vals)));
        }
        h.arr.queries().map_err(|m| ("items", m))?;
        let b = beyond(n)[n % 9];
        if b >= n && h.arr.view(b).is_some() {
            return bad("items", format!("imported item {b} of {n} is not absent"));
        }
        Ok(())
    }

    fn step(&mut self, op: &Op) -> Step {
        match op.k {
            "make" => {
                let ty = op.us("ty") % self.types.len();
                let t = &self.types[ty];
                let zero = matches!(t.sch.kind, Kind::Fixed(0));
                let vals = gen_vals(&t.shape, op.us("n"), op.get("v"), Gen { nulls: op.get("nulls"), list: 4, long: 8 });
                let mut r = Rng::new(mix2(op.get("v"), 5));
                let mut f = Foreign::new(ty, t, vals, &mut r);
                f.damaged = zero;
                self.foreign.push(f);
                bump("op.foreign_structure");
            }
            "damage" => self.damage(op),
            "repair" => {
                if let Some(i) = Self::pick(&self.foreign, op) {
                    let f = &mut self.foreign[i];
                    if f.whole() && Rc::strong_count(&f.pin) == 1 {
                        let all = op.get("one") == 0;
                        while let Some((u, g)) = f.undo.pop() {
                            u(&mut f.levels);
                            if !all && f.undo.last().is_none_or(|(_, h)| *h != g) {
                                break;
                            }
                        }
                        let zero = matches!(self.types[f.ty].sch.kind, Kind::Fixed(0));
                        f.damaged = zero || !f.undo.is_empty();
                        bump("op.repair");
                    }
                }
            }
            "import" => self.import(op)?,
            "blank" => {
                // Structures nobody filled in count as released.
                let Some(i) = Self::pick(&self.foreign, op) else { return Ok(()) };
                let f = &self.foreign[i];
                if f.damaged || !f.whole() {
                    return Ok(());
                }
                let (a, s) = f.top();
                let (ba, bs) = (ArrowArray::default(), ArrowSchema::default());
                let m = op.get("d") % 3;
                // SAFETY: the blank structures are refused; otherwise as for
                // any import.
                let r = catch_unwind(AssertUnwindSafe(|| unsafe {
                    let a = if m == 1 { a.cast() } else { &raw const ba };
                    let s = if m == 2 { s.cast() } else { &raw const bs };
                    (self.types[f.ty].import)(&*a, &*s).map(|_| ())
                }));
                match r {
                    Ok(Err(ImportError::ReleasedArray)) if m != 1 => {}
                    Ok(Err(ImportError::ReleasedSchema)) if m != 2 => {}
                    Ok(r) => return bad("blank", format!("import of a structure nobody filled in ({m}) gives {r:?}")),
                    Err(_) => return bad("blank", "import of a structure nobody filled in panicked"),
                }
                bump("fault.blank_structure");
            }
            "srel" => {
                // The schema is only needed while importing.
                if let Some(i) = Self::pick(&self.foreign, op) {
                    let f = &mut self.foreign[i];
                    if f.undo.is_empty() && f.whole() {
                        for l in &mut f.levels {
                            if let Some(mut s) = l.sch.take() {
                                // SAFETY: the callback of this very structure.
                                unsafe { (s.s.release.expect("unreleased"))(&raw mut *s.s) };
                            }
                        }
                        bump("op.release_schema");
                    }
                }
            }
            "schema" => {
                if let Some(i) = Self::pick(&self.foreign, op) {
                    let f = &mut self.foreign[i];
                    if !f.whole() {
                        f.schema(&mut Rng::new(op.get("x")));
                    }
                }
            }
            "end" => {
                if let Some(i) = Self::pick(&self.foreign, op)
                    && Rc::strong_count(&self.foreign[i].pin) == 1
                {
                    self.foreign.swap_remove(i);
                    bump("op.release_array");
                }
            }
            "share" => {
                if let Some(i) = Self::pick(&self.held, op) {
                    let h = &self.held[i];
                    let new = Held { arr: h.arr.share_export(), vals: h.vals.clone(), ty: h.ty, _pin: Rc::clone(&h._pin) };
                    self.held.push(Rc::new(new));
                }
            }
            "close" => {
                if let Some(i) = Self::pick(&self.held, op) {
                    self.held.swap_remove(i);
                }
            }
            "read" => {
                if let Some(i) = Self::pick(&self.held, op) {
                    self.check_held(&self.held[i])?;
                    bump("op.read");
                }
            }
            "iter" | "into" => {
                if let Some(i) = Self::pick(&self.held, op) {
                    let h = Rc::clone(&self.held[i]);
                    let (it, what) = if op.k == "iter" {
                        // SAFETY: the reader keeps the array and is dropped first.
                        (unsafe { std::mem::transmute::<Box<dyn ValIter + '_>, Box<dyn ValIter + 'static>>(h.arr.iter()) }, "borrowed iterator")
                    } else {
                        (h.arr.share().into_iter(), "owned iterator")
                    };
                    self.readers.push(Reader { it: Some(it), want: h.vals.clone(), _cell: Some(h as Rc<dyn Any>), pos: 0, what });
                }
            }
            "row" => {
                if let Some(i) = Self::pick(&self.held, op) {
                    let h = Rc::clone(&self.held[i]);
                    let i = if h.vals.is_empty() { 0 } else { op.us("i") % h.vals.len() };
                    let mut wants = Vec::new();
                    if let Some(v) = h.vals.get(i) {
                        row_wants(&self.types[h.ty].shape, v, &mut wants);
                    }
                    // SAFETY: as for borrowed iterators.
                    let its: Vec<Box<dyn ValIter>> = unsafe { std::mem::transmute::<Vec<Box<dyn ValIter + '_>>, Vec<Box<dyn ValIter + 'static>>>(h.arr.row(i)) };
                    if its.len() == wants.len() {
                        for (it, want) in its.into_iter().zip(wants) {
                            self.readers.push(Reader { it: Some(it), want, _cell: Some(Rc::<Held>::clone(&h)), pos: 0, what: "row iterator" });
                        }
                    }
                }
            }
            "next" => {
                if let Some(i) = Self::pick(&self.readers, op) {
                    let r = &mut self.readers[i];
                    for _ in 0..op.get("n").max(1) {
                        let left = r.left();
                        let got = r.it.as_mut().and_then(|it| it.next());
                        r.got(got, 0)?;
                        r.hint()?;
                        if left == 0 {
                            break;
                        }
                    }
                    bump("op.next");
                }
            }
            _ => {}
        }
        Ok(())
    }
}

pub fn execute(sc: &Scenario, types: &[Ty], trace: bool) -> Outcome {
    alloc::track();
    let live0 = alloc::live();
    reset_handles(&[3]);
    let mut w = World { types, held: Vec::new(), readers: Vec::new(), foreign: Vec::new(), hash: Hash::default(), imports: 0 };
    let mut v = None;
    let mut events = 0;
    let props = || vec!["C15"];
    for (step, op) in sc.ops.iter().enumerate().skip(1) {
        if trace {
            eprintln!("op {step} {op}");
        }
        events += 1;
        bump("events");
        w.hash.add(op.a.iter().filter(|(n, _)| *n != "v").fold(u64::from(op.k.as_bytes()[0]), |h, (_, x)| mix2(h, *x)));
        match catch_unwind(AssertUnwindSafe(|| w.step(op))) {
            Ok(Ok(())) => {}
            Ok(Err((kind, msg))) => v = Some(Violation { kind, props: props(), step, msg }),
            Err(_) => v = Some(Violation { kind: "panic", props: props(), step, msg: format!("{} panicked", op.k) }),
        }
        if v.is_some() {
            break;
        }
    }
    if v.is_none() {
        let r = catch_unwind(AssertUnwindSafe(|| w.held.iter().try_for_each(|h| w.check_held(h))));
        match r {
            Ok(Ok(())) => {}
            Ok(Err((kind, msg))) => v = Some(Violation { kind, props: props(), step: sc.ops.len(), msg }),
            Err(_) => v = Some(Violation { kind: "panic", props: props(), step: sc.ops.len(), msg: "reading an import panicked".into() }),
        }
    }
    let nontrivial = w.imports > 0;
    let hash = w.hash.0;
    if v.is_some() {
        std::mem::forget(w);
    } else {
        w.readers.clear();
        w.held.clear();
        let released: u64 = w.foreign.iter().filter(|f| f.whole()).map(|f| f.released.get()).sum();
        let _ = released;
        drop(w);
    }
    clear_arena();
    clear_handles();
    let corrupt = alloc::corruption();
    if v.is_none() {
        let left = alloc::live() - live0;
        if left != 0 || corrupt != 0 {
            v = Some(Violation { kind: "leak", props: props(), step: sc.ops.len(), msg: format!("{left} blocks left, {corrupt} heap violations after the last import") });
        }
    }
    Outcome { v, hash, events, nontrivial }
}

/// Leaves under one item, lists apart.
fn wide(s: &Sch) -> usize {
    let here = if let Kind::Fixed(w) = s.kind { w } else { 1 };
    here * s.child.as_ref().map_or(1, |c| wide(c))
}

pub fn generate(seed: u64, types: &[Ty]) -> Scenario {
    let mut r = Rng::new(seed);
    let nested: Vec<u64> = (0..types.len()).filter(|t| types[*t].sch.child.is_some()).map(|t| t as u64).collect();
    let make = |r: &mut Rng| {
        let ty = if r.pct(55) { *r.pick(&nested) } else { r.below(types.len() as u64) };
        let n = match r.below(10) {
            0 | 1 => 0,
            2..=6 => r.below(10),
            7 => r.range(63, 65),
            8 if r.pct(2) && wide(&types[ty as usize].sch) <= 4 => many(r),
            8 if r.pct(15) && wide(&types[ty as usize].sch) <= 4 => r.range(255, 520),
            _ => r.below(24),
        };
        Op::new("make").set("ty", ty).set("n", n).set("v", r.below(1 << 40)).set("nulls", *r.pick(&[0, 30, 50, 90]))
    };
    let damage = |r: &mut Rng, a: u64| Op::new("damage").set("a", a).set("d", r.below(5)).set("f", r.below(15)).set("x", r.below(1 << 30));
    let mut ops = vec![Op::new("import")];
    ops.push(make(&mut r));
    let steps = if r.pct(10) { r.range(20, 40) } else { r.range(3, 14) };
    for _ in 0..steps {
        let a = r.below(4);
        match r.below(24) {
            0 | 1 => ops.push(make(&mut r)),
            2..=5 => ops.push(Op::new("import").set("a", a)),
            6..=11 => {
                for _ in 0..*r.pick(&[1, 1, 1, 1, 2, 3]) {
                    let o = damage(&mut r, a);
                    ops.push(o);
                }
                ops.push(Op::new("import").set("a", a));
                if r.pct(70) {
                    ops.push(Op::new("repair").set("a", a).set("one", u64::from(r.pct(30))));
                }
            }
            12 | 13 => {
                ops.push(Op::new("repair").set("a", a));
                ops.push(Op::new("import").set("a", a));
            }
            14 if r.pct(15) => ops.push(Op::new("blank").set("a", a).set("d", r.below(3))),
            14 => ops.push(Op::new("srel").set("a", a)),
            15 => ops.push(Op::new("schema").set("a", a).set("x", r.below(1 << 20))),
            16 => ops.push(Op::new("share").set("a", a)),
            17 | 18 => ops.push(Op::new("close").set("a", a)),
            19 => ops.push(Op::new("read").set("a", a)),
            20 => ops.push(Op::new(*r.pick(&["iter", "into", "row"])).set("a", a).set("i", r.below(32))),
            21 | 22 => ops.push(Op::new("next").set("a", a).set("n", r.below(8))),
            _ => ops.push(Op::new("end").set("a", a)),
        }
    }
    Scenario { ops }
}

// ---------------------------------------------------------------- the world, as the driver sees it

pub struct ImportWorld(&'static [crate::Ty]);
impl ImportWorld {
    #[must_use]
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(Box::leak(crate::types().into_boxed_slice()))
    }
}
impl sim_base::driver::World for ImportWorld {
    fn name(&self) -> &'static str {
        "import"
    }
    fn generate(&self, _: &str, seed: u64) -> Scenario {
        crate::generate(seed, self.0)
    }
    fn execute(&self, sc: &Scenario, trace: bool) -> Outcome {
        crate::execute(sc, self.0, trace)
    }
    fn describe(&self, sc: &Scenario) -> String {
        let mut out = String::new();
        for op in sc.ops.iter().filter(|o| o.k == "make") {
            out.push_str(&format!("# type {} {}\n", op.get("ty"), self.0[op.us("ty") % self.0.len()].name));
        }
        out
    }
}

