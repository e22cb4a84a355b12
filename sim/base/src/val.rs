//! Items as plain values, for the reference models.
use crate::rng::Rng;
use narrow::fixed_size::{FixedSize, FixedSizeArray};
use narrow::offset::OffsetsError;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    Null,
    B(bool),
    P(u128),
    L(Vec<Val>),
}

impl std::fmt::Display for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::Null => write!(f, "null"),
            Val::B(b) => write!(f, "{}", u8::from(*b)),
            Val::P(p) => write!(f, "{p:x}"),
            Val::L(l) => {
                write!(f, "[")?;
                for (i, v) in l.iter().enumerate() {
                    if i > 0 {
                        write!(f, " ")?;
                    }
                    write!(f, "{v}")?;
                }
                write!(f, "]")
            }
        }
    }
}

pub fn show(vals: &[Val]) -> String {
    let mut s = String::new();
    for v in vals.iter().take(24) {
        s.push_str(&format!("{v} "));
    }
    if vals.len() > 24 {
        s.push_str("...");
    }
    format!("{} items: {}", vals.len(), s.trim_end())
}

#[derive(Clone, Debug)]
pub enum Shape {
    Bool,
    Prim(u32),
    Fixed(usize, Box<Shape>),
    List(Box<Shape>),
    Opt(Box<Shape>),
}

impl Shape {
    /// Leaf values under one item, long lists apart.
    pub fn leaves(&self) -> usize {
        match self {
            Shape::Bool | Shape::Prim(_) => 1,
            Shape::Fixed(n, s) => n * s.leaves(),
            Shape::List(s) => 2 * s.leaves(),
            Shape::Opt(s) => s.leaves(),
        }
    }
    /// Items of this shape, `n` of them unless those are too many to handle.
    pub fn cap(&self, n: usize) -> usize {
        n.min(200_000 / self.leaves().max(1))
    }
    pub fn nullable_anywhere(&self) -> bool {
        match self {
            Shape::Bool | Shape::Prim(_) => false,
            Shape::Fixed(_, s) | Shape::List(s) => s.nullable_anywhere(),
            Shape::Opt(_) => true,
        }
    }
}

/// The message of an error says the numbers the error carries.
pub fn spoken(e: &(impl std::fmt::Debug + std::fmt::Display)) -> Result<(), String> {
    let (fields, text) = (format!("{e:?}"), e.to_string());
    let numbers = |s: &str| -> Vec<String> {
        s.split(|c: char| !c.is_ascii_digit()).filter(|n| !n.is_empty()).map(String::from).collect()
    };
    let said = numbers(&text);
    match numbers(&fields).into_iter().find(|n| !said.contains(n)) {
        None if !text.is_empty() => Ok(()),
        _ => Err(format!("the message {text:?} does not say what {fields} carries")),
    }
}

/// How item values are drawn.
#[derive(Clone, Copy, Debug)]
pub struct Gen {
    pub nulls: u64,
    pub list: u64,
    /// Lists in a thousand that are far longer.
    pub long: u64,
}

pub fn gen_val(shape: &Shape, rng: &mut Rng, g: Gen) -> Val {
    match shape {
        Shape::Bool => Val::B(rng.pct(50)),
        Shape::Prim(bytes) => {
            let raw = (u128::from(rng.u64()) << 64) | u128::from(rng.u64());
            let v = if rng.pct(6) { *rng.pick(&[0, u128::MAX, 1, u128::MAX << (bytes * 8 - 1), u128::MAX >> (129 - bytes * 8)]) } else { raw };
            Val::P(if *bytes >= 16 { v } else { v & ((1u128 << (bytes * 8)) - 1) })
        }
        Shape::Fixed(n, s) => Val::L((0..*n).map(|_| gen_val(s, rng, g)).collect()),
        Shape::List(s) => {
            let (mut n, mut g) = (rng.below(g.list + 1), g);
            if g.long > 0 && rng.below(1000) < g.long {
                g = Gen { list: g.list.min(2), long: 0, ..g };
                n = match rng.below(40) {
                    0 if s.leaves() == 1 && rng.pct(20) => {
                        let at = if rng.pct(10) { 65_536 } else { *rng.pick(&[2048, 4096, 8192]) };
                        rng.range(at - 4, at + 4)
                    }
                    0 if s.leaves() <= 4 => rng.range(1020, 1030),
                    1 | 2 if s.leaves() <= 16 => rng.range(250, 260),
                    3..=9 => rng.range(60, 68),
                    _ => rng.below(40),
                };
            }
            Val::L((0..n).map(|_| gen_val(s, rng, g)).collect())
        }
        Shape::Opt(s) => {
            if rng.pct(g.nulls) {
                Val::Null
            } else {
                gen_val(s, rng, g)
            }
        }
    }
}

pub fn gen_vals(shape: &Shape, n: usize, seed: u64, g: Gen) -> Vec<Val> {
    let mut rng = Rng::new(seed);
    (0..n).map(|_| gen_val(shape, &mut rng, g)).collect()
}

pub trait Item: Sized + 'static {
    fn shape() -> Shape;
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
    /// What a physical slot under a null holds when garbage is wanted.
    fn garbage(rng: &mut Rng, g: Gen) -> Self {
        Self::from_val(&gen_val(&Self::shape(), rng, g))
    }
}

/// Items stored directly in a fixed-size buffer.
pub trait Prim: FixedSize + Item {}

macro_rules! prim {
    ($($t:ty: $to:expr, $from:expr;)*) => {$(
        impl Item for $t {
            fn shape() -> Shape { Shape::Prim(size_of::<$t>() as u32) }
            fn from_val(v: &Val) -> Self { match v { Val::P(p) => { let f: fn(u128) -> $t = $from; f(*p) } _ => unreachable!("value of the wrong shape") } }
            fn to_val(&self) -> Val { let f: fn($t) -> u128 = $to; Val::P(f(*self)) }
        }
        impl Prim for $t {}
    )*};
}
prim! {
    u8: |x| x.into(), |p| p as u8;
    u16: |x| x.into(), |p| p as u16;
    u32: |x| x.into(), |p| p as u32;
    u64: |x| x.into(), |p| p as u64;
    u128: |x| x, |p| p;
    usize: |x| x as u128, |p| p as usize;
    i8: |x| x as u8 as u128, |p| p as u8 as i8;
    i16: |x| x as u16 as u128, |p| p as u16 as i16;
    i32: |x| x as u32 as u128, |p| p as u32 as i32;
    i64: |x| x as u64 as u128, |p| p as u64 as i64;
    i128: |x| x as u128, |p| p as i128;
    isize: |x| x as usize as u128, |p| p as usize as isize;
    f32: |x| x.to_bits().into(), |p| f32::from_bits(p as u32);
    f64: |x| x.to_bits().into(), |p| f64::from_bits(p as u64);
}

impl<T: Prim, const N: usize> Item for FixedSizeArray<T, N> {
    fn shape() -> Shape {
        Shape::Fixed(N, Box::new(T::shape()))
    }
    fn from_val(v: &Val) -> Self {
        let a: [T; N] = Item::from_val(v);
        a.into()
    }
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(Item::to_val).collect())
    }
}
impl<T: Prim, const N: usize> Prim for FixedSizeArray<T, N> {}

impl Item for bool {
    fn shape() -> Shape {
        Shape::Bool
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::B(b) => *b,
            _ => unreachable!("value of the wrong shape"),
        }
    }
    fn to_val(&self) -> Val {
        Val::B(*self)
    }
}
impl<T: Item, const N: usize> Item for [T; N] {
    fn shape() -> Shape {
        Shape::Fixed(N, Box::new(T::shape()))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::L(l) => std::array::from_fn(|i| T::from_val(&l[i])),
            _ => unreachable!("value of the wrong shape"),
        }
    }
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(Item::to_val).collect())
    }
}
impl<T: Item> Item for Vec<T> {
    fn shape() -> Shape {
        Shape::List(Box::new(T::shape()))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::L(l) => l.iter().map(T::from_val).collect(),
            _ => unreachable!("value of the wrong shape"),
        }
    }
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(Item::to_val).collect())
    }
}
impl<T: Item> Item for Option<T> {
    fn shape() -> Shape {
        Shape::Opt(Box::new(T::shape()))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Null => None,
            v => Some(T::from_val(v)),
        }
    }
    fn to_val(&self) -> Val {
        self.as_ref().map_or(Val::Null, Item::to_val)
    }
}

/// Everything wrong with offsets into `n` items.
pub fn offsets_defects(n: usize, offs: &[i64]) -> Vec<OffsetsError> {
    let mut bad = Vec::new();
    match offs.first() {
        None => bad.push(OffsetsError::Empty),
        Some(f) if *f > 0 => bad.push(OffsetsError::NonZeroFirst { first: *f as usize }),
        _ => {}
    }
    for (index, o) in offs.iter().enumerate() {
        if *o < 0 {
            bad.push(OffsetsError::Negative { index });
        }
        if index > 0 && *o < offs[index - 1] {
            bad.push(OffsetsError::NonMonotonic { index });
        }
    }
    if let Some(l) = offs.last()
        && *l >= 0
        && *l as u64 > n as u64
    {
        bad.push(OffsetsError::OutOfBounds { last: *l as usize, data: n });
    }
    bad
}
