//! The Arrow C Data Interface as the other side of it sees it: the structures
//! by their specified layout, an independent decoder, and snapshots.

use crate::alloc::freed;
use crate::val::{Item, Val};
use narrow_ffi::{ArrowArray, ArrowSchema};
use std::ffi::{CStr, c_char, c_void};

#[repr(C)]
pub struct CSchema {
    pub format: *const c_char,
    pub name: *const c_char,
    pub metadata: *const c_char,
    pub flags: i64,
    pub n_children: i64,
    pub children: *mut *mut CSchema,
    pub dictionary: *mut CSchema,
    pub release: Option<unsafe extern "C" fn(*mut CSchema)>,
    pub private_data: *mut c_void,
}
#[repr(C)]
pub struct CArray {
    pub length: i64,
    pub null_count: i64,
    pub offset: i64,
    pub n_buffers: i64,
    pub n_children: i64,
    pub buffers: *mut *const c_void,
    pub children: *mut *mut CArray,
    pub dictionary: *mut CArray,
    pub release: Option<unsafe extern "C" fn(*mut CArray)>,
    pub private_data: *mut c_void,
}
pub const AB: usize = size_of::<CArray>();
pub const SB: usize = size_of::<CSchema>();
const _: () = assert!(AB == size_of::<ArrowArray>() && SB == size_of::<ArrowSchema>());

pub const NULLABLE: i64 = 2;

/// What the specification says a type looks like.
#[derive(Clone, Debug)]
pub enum Kind {
    Bool,
    Prim(usize),
    Fixed(usize),
    List,
}
#[derive(Clone, Debug)]
pub struct Sch {
    pub fmt: String,
    pub kind: Kind,
    pub nullable: bool,
    pub child: Option<Box<Sch>>,
}
impl Sch {
    pub fn depth(&self) -> usize {
        1 + self.child.as_ref().map_or(0, |c| c.depth())
    }
    pub fn level(&self, d: usize) -> &Sch {
        if d == 0 { self } else { self.child.as_ref().expect("level exists").level(d - 1) }
    }
    /// Identifies the item type.
    pub fn key(&self) -> String {
        format!("{}{}{}", self.fmt, if self.nullable { "?" } else { "" }, self.child.as_ref().map_or(String::new(), |c| format!("({})", c.key())))
    }
    pub fn buffers(&self) -> i64 {
        match self.kind {
            Kind::Fixed(_) => 1,
            _ => 2,
        }
    }
    pub fn children(&self) -> i64 {
        i64::from(self.child.is_some())
    }
}

/// Item types with a C Data format.
pub trait FTy: Item {
    fn sch() -> Sch;
}
macro_rules! fty {
    ($($t:ty = $f:literal),*) => {$(
        impl FTy for $t {
            fn sch() -> Sch {
                Sch { fmt: $f.into(), kind: Kind::Prim(size_of::<$t>()), nullable: false, child: None }
            }
        }
    )*};
}
fty!(i8 = "c", u8 = "C", i16 = "s", u16 = "S", i32 = "i", u32 = "I", i64 = "l", u64 = "L", f32 = "f", f64 = "g");
impl FTy for bool {
    fn sch() -> Sch {
        Sch { fmt: "b".into(), kind: Kind::Bool, nullable: false, child: None }
    }
}
impl<T: FTy> FTy for Option<T> {
    fn sch() -> Sch {
        Sch { nullable: true, ..T::sch() }
    }
}
impl<T: FTy, const N: usize> FTy for [T; N] {
    fn sch() -> Sch {
        Sch { fmt: format!("+w:{N}"), kind: Kind::Fixed(N), nullable: false, child: Some(Box::new(T::sch())) }
    }
}
impl<T: FTy> FTy for Vec<T> {
    fn sch() -> Sch {
        Sch { fmt: "+l".into(), kind: Kind::List, nullable: false, child: Some(Box::new(T::sch())) }
    }
}
type Res<T = ()> = Result<T, String>;

fn alive(p: usize, len: usize, what: &str) -> Res {
    if freed(p, len) { Err(format!("{what} lies in freed memory")) } else { Ok(()) }
}

/// `len` bytes at `p`, which must not be null when there are any.
fn bytes<'a>(p: *const c_void, len: usize, what: &str) -> Res<&'a [u8]> {
    if len == 0 {
        return Ok(&[]);
    }
    if p.is_null() {
        return Err(format!("{what} is null but {len} bytes are needed"));
    }
    alive(p as usize, len, what)?;
    // SAFETY: the producer promises these bytes; freed memory was ruled out.
    Ok(unsafe { std::slice::from_raw_parts(p.cast(), len) })
}
fn cstr(p: *const c_char, what: &str) -> Res<String> {
    if p.is_null() {
        return Err(format!("{what} is null"));
    }
    alive(p as usize, 1, what)?;
    // SAFETY: the producer promises a terminated string.
    Ok(unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned())
}
/// Reads the key-value pairs at `p` as the specification encodes them.
fn metadata(p: *const c_char) -> Res {
    if p.is_null() {
        return Ok(());
    }
    let mut at = p as usize;
    let int = |at: &mut usize| -> Res<usize> {
        let b = bytes(*at as *const c_void, 4, "the metadata")?;
        *at += 4;
        usize::try_from(i32::from_ne_bytes(b.try_into().expect("four bytes"))).map_err(|_| "negative length in the metadata".into())
    };
    for _ in 0..2 * int(&mut at)? {
        let len = int(&mut at)?;
        bytes(at as *const c_void, len, "the metadata")?;
        at += len;
    }
    Ok(())
}
fn bit(b: &[u8], i: usize) -> bool {
    b[i / 8] >> (i % 8) & 1 == 1
}
fn off(b: &[u8], i: usize) -> Res<usize> {
    let o = i32::from_ne_bytes(b[i * 4..i * 4 + 4].try_into().expect("four bytes"));
    usize::try_from(o).map_err(|_| format!("offset {i} is {o}"))
}
fn prim(b: &[u8]) -> Val {
    let mut x = [0u8; 16];
    x[..b.len()].copy_from_slice(b);
    Val::P(u128::from_le_bytes(x))
}
fn prim_at(b: &[u8], size: usize, i: usize) -> Val {
    prim(&b[i * size..(i + 1) * size])
}

/// Bytes of each buffer of an array the specification makes a consumer read.
fn sizes(s: &Sch, n: usize, validity: bool) -> Vec<usize> {
    let v = if validity { n.div_ceil(8) } else { 0 };
    match s.kind {
        Kind::Bool => vec![v, n.div_ceil(8)],
        Kind::Prim(b) => vec![v, n * b],
        Kind::Fixed(_) => vec![v],
        Kind::List => vec![v, (n + 1) * 4],
    }
}

/// One level of an array as it looked when it was exported.
#[derive(Clone, Debug, PartialEq)]
pub struct LevelSnap {
    nums: [i64; 5],
    ptrs: [usize; 5],
    bufs: Vec<(usize, Vec<u8>)>,
}
impl LevelSnap {
    /// length, null count, offset, buffers, children
    pub fn nums(&self) -> &[i64; 5] {
        &self.nums
    }
    /// Where the buffers are, with the bytes that are read there.
    pub fn places(&self) -> impl Iterator<Item = (usize, usize)> {
        self.bufs.iter().map(|(p, b)| (*p, b.len()))
    }
}

fn level_snap(a: *const CArray, s: &Sch) -> Res<LevelSnap> {
    alive(a as usize, AB, "an array structure")?;
    // SAFETY: not freed, and the producer promises it is valid.
    let a = unsafe { &*a };
    if a.release.is_none() {
        return Err("an array that was not released is marked released".into());
    }
    if a.n_buffers != s.buffers() || a.n_children != s.children() {
        return Err(format!("{} buffers and {} children in {}", a.n_buffers, a.n_children, s.fmt));
    }
    if a.length < 0 || a.offset < 0 {
        return Err(format!("length {} offset {}", a.length, a.offset));
    }
    if !a.dictionary.is_null() {
        return Err("unexpected dictionary".into());
    }
    let nb = a.n_buffers as usize;
    if a.buffers.is_null() {
        return Err("no buffer pointers".into());
    }
    alive(a.buffers as usize, nb * 8, "the buffer pointer array")?;
    // SAFETY: as above.
    let ptrs = unsafe { std::slice::from_raw_parts(a.buffers, nb) };
    let n = (a.length + a.offset) as usize;
    let mut bufs = Vec::new();
    for (p, len) in ptrs.iter().zip(sizes(s, n, !ptrs[0].is_null())) {
        bufs.push((*p as usize, bytes(*p, len, "a buffer")?.to_vec()));
    }
    if s.child.is_some() {
        if a.children.is_null() {
            return Err("no child pointers".into());
        }
        alive(a.children as usize, 8, "the child pointer array")?;
    }
    Ok(LevelSnap {
        nums: [a.length, a.null_count, a.offset, a.n_buffers, a.n_children],
        ptrs: [a.buffers as usize, a.children as usize, a.dictionary as usize, a.release.map_or(0, |r| r as usize), a.private_data as usize],
        bufs,
    })
}

pub fn child(a: *const CArray) -> Res<*mut CArray> {
    // SAFETY: callers took a snapshot of this level first.
    let c = unsafe { *(*a).children };
    if c.is_null() { Err("a child pointer is null".into()) } else { Ok(c) }
}
pub fn schild(s: *const CSchema) -> Res<*mut CSchema> {
    // SAFETY: callers took a snapshot of this level first.
    let c = unsafe { *(*s).children };
    if c.is_null() { Err("a child schema pointer is null".into()) } else { Ok(c) }
}

/// Snapshots the levels above `gone`, whose child was moved out.
pub fn snap(a: *const CArray, s: &Sch, gone: usize) -> Res<Vec<LevelSnap>> {
    let mut out = Vec::new();
    let (mut a, mut s) = (a, s);
    loop {
        out.push(level_snap(a, s)?);
        let Some(c) = &s.child else { break };
        a = child(a)?;
        s = c;
        if out.len() == gone {
            alive(a as usize, AB, "a moved child's place")?;
            // SAFETY: the parent owns the place.
            if unsafe { (*a).release.is_some() } {
                return Err("a moved child reappeared".into());
            }
            break;
        }
    }
    Ok(out)
}

/// Decodes a whole array by the specification; also returns the items of
/// every level.
pub fn decode(a: *const CArray, s: &Sch, phys: &mut Vec<Vec<Val>>) -> Res<Vec<Val>> {
    let l = level_snap(a, s)?;
    let at = phys.len();
    phys.push(Vec::new());
    let (length, null_count, offset) = (l.nums[0] as usize, l.nums[1], l.nums[2] as usize);
    let mut nulls = 0;
    let mut valid = vec![true; length];
    if l.bufs[0].0 == 0 {
        if null_count != 0 {
            return Err(format!("null count {null_count} without a validity buffer"));
        }
    } else {
        for (i, v) in valid.iter_mut().enumerate() {
            *v = bit(&l.bufs[0].1, offset + i);
            nulls += i64::from(!*v);
        }
    }
    if null_count != nulls && null_count != -1 {
        return Err(format!("null count {null_count}, the validity buffer has {nulls} nulls"));
    }
    if nulls != 0 && !s.nullable {
        return Err("nulls in a non-nullable array".into());
    }
    let kid = match &s.child {
        Some(c) => decode(child(a)?, c, phys)?,
        None => Vec::new(),
    };
    let mut items = Vec::with_capacity(length);
    for i in 0..length {
        let p = offset + i;
        items.push(match s.kind {
            Kind::Bool => Val::B(bit(&l.bufs[1].1, p)),
            Kind::Prim(b) => prim_at(&l.bufs[1].1, b, p),
            Kind::Fixed(n) => {
                let r = kid.get(p * n..(p + 1) * n).ok_or_else(|| format!("row {p} of width {n} exceeds a child of {}", kid.len()))?;
                Val::L(r.to_vec())
            }
            Kind::List => {
                let (x, y) = (off(&l.bufs[1].1, p)?, off(&l.bufs[1].1, p + 1)?);
                let r = kid.get(x..y).ok_or_else(|| format!("offsets {x}..{y} over a child of {}", kid.len()))?;
                Val::L(r.to_vec())
            }
        });
        if !valid[i] {
            items[i] = Val::Null;
        }
    }
    phys[at] = items.clone();
    Ok(items)
}

/// One level of a schema as it looked when it was exported.
#[derive(Clone, Debug, PartialEq)]
pub struct SchemaSnap {
    format: String,
    name: Option<String>,
    nums: [i64; 2],
    ptrs: [usize; 7],
}
/// Checks the levels of a schema above `gone`.
pub fn snap_schema(p: *const CSchema, s: &Sch, gone: usize) -> Res<Vec<SchemaSnap>> {
    let mut out = Vec::new();
    let (mut p, mut s) = (p, s);
    loop {
        alive(p as usize, SB, "a schema structure")?;
        // SAFETY: not freed, and the producer promises it is valid.
        let x = unsafe { &*p };
        if x.release.is_none() {
            return Err("a schema that was not released is marked released".into());
        }
        let format = cstr(x.format, "the format")?;
        if format != s.fmt {
            return Err(format!("format {format:?} for {:?}", s.fmt));
        }
        let name = if x.name.is_null() { None } else { Some(cstr(x.name, "the name")?) };
        metadata(x.metadata)?;
        if (x.flags & NULLABLE != 0) != s.nullable {
            return Err(format!("flags {} for nullable={}", x.flags, s.nullable));
        }
        if x.n_children != s.children() || !x.dictionary.is_null() {
            return Err(format!("{} children in the schema of {}", x.n_children, s.fmt));
        }
        if s.child.is_some() {
            if x.children.is_null() {
                return Err("no child schema pointers".into());
            }
            alive(x.children as usize, 8, "the child schema pointer array")?;
        }
        out.push(SchemaSnap {
            format,
            name,
            nums: [x.flags, x.n_children],
            ptrs: [
                x.format as usize, x.name as usize, x.metadata as usize, x.children as usize, x.dictionary as usize,
                x.release.map_or(0, |r| r as usize), x.private_data as usize,
            ],
        });
        let Some(c) = &s.child else { break };
        p = schild(p)?;
        s = c;
        if out.len() == gone {
            alive(p as usize, SB, "a moved child schema's place")?;
            // SAFETY: the parent owns the place.
            if unsafe { (*p).release.is_some() } {
                return Err("a moved child schema reappeared".into());
            }
            break;
        }
    }
    Ok(out)
}
