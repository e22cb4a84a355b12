//! Arrays taken apart, stored, damaged by the medium, and put together again:
//! validated construction must accept exactly what is well-formed.
#![allow(clippy::type_complexity)]

use sim_base::alloc;
use sim_base::dynarr::{DynRead, Holder};
use sim_base::op::{Op, Outcome, Scenario, Violation, bump};
use sim_base::phys::{Noise, Phys, SimBuf, beyond};
use sim_base::rng::{Hash, Rng, many};
use sim_base::storage::{SimBuffer, clear_handles, reset_handles};
use sim_base::val::{offsets_defects, Gen, Item, Prim, Shape, Val, gen_vals, show, spoken};
use narrow::{
    bitmap::{Bitmap, BitmapError},
    bitmap::ValidityBitmap,
    buffer::{ArcBuffer, BoxBuffer, BufferRef, RcBuffer, SliceBuffer, VecBuffer},
    collection::{ChildRef, Collection, flatten::{Flatten, FlattenError}},
    length::Length,
    offset::{Offset, Offsets, OffsetsError},
    validity::{Validity, ValidityError},
};
use std::borrow::Borrow;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// A stored bitmap.
#[derive(Clone, Default, Debug)]
struct Bits {
    bytes: Vec<u8>,
    bits: usize,
    off: usize,
}
/// Everything stored of one component: leaf values, bitmaps, offsets. Which
/// parts are used depends on the kind.
#[derive(Clone, Default, Debug)]
struct Rec {
    vals: Vec<u32>,
    a: Bits,
    b: Bits,
    offs: Vec<i64>,
}

const KINDS: u64 = 9;

fn leaf(b: &Bits) -> Option<Vec<bool>> {
    let end = b.off as u128 + b.bits as u128;
    if end > b.bytes.len() as u128 * 8 {
        return None;
    }
    Some((b.off..b.off + b.bits).map(|i| b.bytes[i / 8] >> (i % 8) & 1 == 1).collect())
}
fn bools(v: &[bool]) -> Vec<Val> {
    v.iter().map(|b| Val::B(*b)).collect()
}

/// The defects that are really present, by layer; the first layer with any
/// decides.
#[derive(Debug, PartialEq)]
enum Want {
    Items(Vec<Val>),
    Bitmap { off: usize, bits: usize, bytes: usize },
    Validity { c: usize, b: usize },
    Offsets(Vec<OffsetsError>),
    Flatten(FlattenError),
}

fn want_bits(b: &Bits) -> Result<Vec<bool>, Want> {
    leaf(b).ok_or(Want::Bitmap { off: b.off, bits: b.bits, bytes: b.bytes.len() })
}
fn want_valid(items: Vec<Val>, b: &Bits) -> Result<Vec<Val>, Want> {
    let bits = want_bits(b)?;
    if bits.len() != items.len() {
        return Err(Want::Validity { c: items.len(), b: bits.len() });
    }
    Ok(items.into_iter().zip(bits).map(|(v, b)| if b { v } else { Val::Null }).collect())
}
fn want_offs(items: &[Val], offs: &[i64]) -> Result<Vec<Val>, Want> {
    let bad = offsets_defects(items.len(), offs);
    if bad.is_empty() {
        Ok(offs.windows(2).map(|w| Val::L(items[w[0] as usize..w[1] as usize].to_vec())).collect())
    } else {
        Err(Want::Offsets(bad))
    }
}
fn want_flat(items: &[Val], n: usize) -> Result<Vec<Val>, Want> {
    if n == 0 {
        return Err(Want::Flatten(FlattenError::ZeroChunkSize));
    }
    if items.len() % n != 0 {
        return Err(Want::Flatten(FlattenError::NotMultiple { len: items.len(), n }));
    }
    Ok(items.chunks(n).map(|c| Val::L(c.to_vec())).collect())
}
fn prims(v: &[u32]) -> Vec<Val> {
    v.iter().map(Item::to_val).collect()
}

fn expect(kind: u64, n: usize, r: &Rec) -> Want {
    let e = || -> Result<Vec<Val>, Want> {
        match kind {
            0 => want_bits(&r.a).map(|b| bools(&b)),
            1 => want_valid(prims(&r.vals), &r.a),
            2 | 3 => want_offs(&prims(&r.vals), &r.offs),
            4 => want_flat(&prims(&r.vals), n),
            5 => want_valid(bools(&want_bits(&r.b)?), &r.a),
            // Option<Vec<bool>>: offsets over bits, then validity
            6 => want_valid(want_offs(&bools(&want_bits(&r.b)?), &r.offs)?, &r.a),
            // Vec<Option<u32>>
            7 => want_offs(&want_valid(prims(&r.vals), &r.a)?, &r.offs),
            // Option<[bool; N]>
            _ => want_valid(want_flat(&bools(&want_bits(&r.b)?), n)?, &r.a),
        }
    };
    match e() {
        Ok(v) => Want::Items(v),
        Err(w) => w,
    }
}

/// What the library said.
enum Got {
    Built(Box<dyn DynRead>),
    Bitmap(BitmapError),
    Validity(ValidityError),
    Offsets(OffsetsError),
    Flatten(FlattenError),
}
impl From<BitmapError> for Got {
    fn from(e: BitmapError) -> Self {
        Self::Bitmap(e)
    }
}
impl From<ValidityError> for Got {
    fn from(e: ValidityError) -> Self {
        Self::Validity(e)
    }
}
impl From<OffsetsError> for Got {
    fn from(e: OffsetsError) -> Self {
        Self::Offsets(e)
    }
}
impl From<FlattenError> for Got {
    fn from(e: FlattenError) -> Self {
        Self::Flatten(e)
    }
}

fn bm<S: SimBuf>(b: &Bits) -> Result<Bitmap<S>, BitmapError> {
    Bitmap::try_from_parts(S::mk(b.bytes.clone(), 0), b.bits, b.off)
}
fn lists<C: Phys, O: Offset + Prim, S: SimBuf>(c: C, offs: &[i64]) -> Result<Offsets<C, O, S>, OffsetsError> {
    let o: Vec<O> = offs.iter().map(|o| O::from_val(&Val::P(*o as u64 as u128))).collect();
    Offsets::try_from_parts(c, S::mk(o, 0))
}
fn hold<C: Phys>(c: C) -> Got {
    Got::Built(Box::new(Holder(c)))
}
fn flat<const N: usize, S: SimBuf>(kind: u64, r: &Rec) -> Result<Got, Got>
where
    S::For<u32>: Phys + Collection<Owned = u32>,
{
    Ok(if kind == 4 {
        hold(Flatten::<_, N>::try_from_parts(S::mk(r.vals.clone(), 0))?)
    } else {
        hold(Validity::<_, S>::try_from_parts(Flatten::<_, N>::try_from_parts(bm::<S>(&r.b)?)?, bm::<S>(&r.a)?)?)
    })
}
fn mount<S: SimBuf>(kind: u64, n: usize, r: &Rec) -> Got
where
    S::For<u32>: Phys + Collection<Owned = u32>,
{
    let e = || -> Result<Got, Got> {
        Ok(match kind {
            0 => hold(bm::<S>(&r.a)?),
            1 => hold(Validity::<_, S>::try_from_parts(S::mk(r.vals.clone(), 0), bm::<S>(&r.a)?)?),
            2 => hold(lists::<S::For<u32>, i32, S>(S::mk(r.vals.clone(), 0), &r.offs)?),
            3 => hold(lists::<S::For<u32>, i64, S>(S::mk(r.vals.clone(), 0), &r.offs)?),
            5 => hold(Validity::<_, S>::try_from_parts(bm::<S>(&r.b)?, bm::<S>(&r.a)?)?),
            6 => hold(Validity::<_, S>::try_from_parts(lists::<_, i32, S>(bm::<S>(&r.b)?, &r.offs)?, bm::<S>(&r.a)?)?),
            7 => hold(lists::<_, i64, S>(Validity::<_, S>::try_from_parts(S::mk(r.vals.clone(), 0), bm::<S>(&r.a)?)?, &r.offs)?),
            _ => match n {
                // Width zero has no items, so it has no reader of ours.
                0 => {
                    let e = if kind == 4 {
                        Flatten::<_, 0>::try_from_parts(S::mk(r.vals.clone(), 0)).err()
                    } else {
                        Flatten::<_, 0>::try_from_parts(bm::<S>(&r.b)?).err()
                    };
                    match e {
                        Some(e) => e.into(),
                        None => hold(S::mk(r.vals.clone(), 0)),
                    }
                }
                1 => flat::<1, S>(kind, r)?,
                2 => flat::<2, S>(kind, r)?,
                3 => flat::<3, S>(kind, r)?,
                _ => flat::<5, S>(kind, r)?,
            },
        })
    };
    e().unwrap_or_else(|e| e)
}

/// Stores what the library's own parts of a fresh component are.
fn snapshot(kind: u64, n: usize, rows: usize, seed: u64) -> Rec {
    let mut rng = Rng::new(seed);
    let g = Gen { nulls: *rng.pick(&[0, 20, 50]), list: 4, long: 8 };
    let mut rec = Rec::default();
    let bits = |b: &Bitmap| Bits {
        bytes: Borrow::<[u8]>::borrow(b.buffer_ref()).to_vec(),
        bits: b.len(),
        off: b.bit_offset(),
    };
    let opt = |s: Shape| Shape::Opt(Box::new(s));
    let (p, b) = (Shape::Prim(4), Shape::Bool);
    let list = |s: Shape| Shape::List(Box::new(s));
    let width = match n {
        0 => 1,
        n => n,
    };
    let shape = match kind {
        0 => b,
        1 => opt(p),
        2 | 3 => list(p),
        4 => p,
        5 => opt(b),
        6 => opt(list(b)),
        7 => list(opt(p)),
        _ => b,
    };
    let count = if kind == 4 || kind == 8 { rows * width } else { rows };
    let vals = gen_vals(&shape, count, rng.u64(), g);
    let offs = rng.pct(50);
    let mut noise = Noise { rng: &mut rng, offs, extra: true, absent: false, alloc: 0 };
    let off64 = |o: &[i32]| o.iter().map(|x| i64::from(*x)).collect();
    match kind {
        0 => rec.a = bits(&<Bitmap as Phys>::build(&vals, &mut noise)),
        1 => {
            let v = <Validity<Vec<u32>> as Phys>::build(&vals, &mut noise);
            rec.vals = v.child_ref().clone();
            rec.a = bits(v.bitmap_ref().expect("stored"));
        }
        2 | 3 => {
            let v = <Offsets<Vec<u32>> as Phys>::build(&vals, &mut noise);
            rec.vals = v.child_ref().clone();
            rec.offs = off64(v.buffer_ref());
        }
        4 => rec.vals = vals.iter().map(u32::from_val).collect(),
        5 => {
            let v = <Validity<Bitmap> as Phys>::build(&vals, &mut noise);
            rec.b = bits(v.child_ref());
            rec.a = bits(v.bitmap_ref().expect("stored"));
        }
        6 => {
            let v = <Validity<Offsets<Bitmap>> as Phys>::build(&vals, &mut noise);
            rec.b = bits(v.child_ref().child_ref());
            rec.offs = off64(v.child_ref().buffer_ref());
            rec.a = bits(v.bitmap_ref().expect("stored"));
        }
        7 => {
            let v = <Offsets<Validity<Vec<u32>>> as Phys>::build(&vals, &mut noise);
            rec.offs = off64(v.buffer_ref());
            rec.vals = v.child_ref().child_ref().clone();
            rec.a = bits(v.child_ref().bitmap_ref().expect("stored"));
        }
        _ => {
            rec.b = bits(&<Bitmap as Phys>::build(&vals, &mut noise));
            let valid = gen_vals(&Shape::Bool, rows, 77 ^ seed, g);
            rec.a = bits(&<Bitmap as Phys>::build(&valid, &mut noise));
        }
    }
    rec
}

fn torn<T: Clone>(new: &mut Vec<T>, old: &[T], at: usize) {
    // The write reached `at` elements; the rest is what was there before.
    let at = at.min(new.len());
    let mut v = new[..at].to_vec();
    v.extend(old.iter().skip(at).cloned());
    *new = v;
}
fn shift<T: Clone>(v: &mut Vec<T>, at: usize) {
    // One element written twice, moving the rest.
    if let Some(x) = v.get(at).cloned() {
        v.insert(at, x);
    }
}
fn swap<T>(v: &mut [T], i: usize) {
    if i + 1 < v.len() {
        v.swap(i, i + 1);
    }
}
const ODD: [i64; 12] = [
    -1, 0, 1, i32::MAX as i64, i32::MIN as i64, i64::MAX, i64::MIN, -2, 2, i32::MAX as i64 - 1, 1 << 40, 9,
];
const ODDU: [usize; 12] = [
    0, 1, 7, 8, 9, usize::MAX, usize::MAX - 7, usize::MAX / 2, usize::MAX / 8, usize::MAX / 8 + 1, 64, 63,
];

fn fault(rec: &mut Rec, old: &Rec, op: &Op, wide: bool) {
    let at = op.us("at");
    let part = op.get("part") % 4;
    match op.k {
        "torn" => match part {
            0 => torn(&mut rec.vals, &old.vals, at),
            1 => torn(&mut rec.a.bytes, &old.a.bytes, at),
            2 => torn(&mut rec.b.bytes, &old.b.bytes, at),
            _ => torn(&mut rec.offs, &old.offs, at),
        },
        // Bytes lost from the end.
        "short" => match part {
            0 => rec.vals.truncate(rec.vals.len().saturating_sub(at)),
            1 => rec.a.bytes.truncate(rec.a.bytes.len().saturating_sub(at)),
            2 => rec.b.bytes.truncate(rec.b.bytes.len().saturating_sub(at)),
            _ => rec.offs.truncate(rec.offs.len().saturating_sub(at)),
        },
        "extra" => {
            let mut r = Rng::new(op.get("v"));
            for _ in 0..at.min(40) {
                let x = r.u64();
                match part {
                    0 => rec.vals.push(x as u32),
                    1 => rec.a.bytes.push(x as u8),
                    2 => rec.b.bytes.push(x as u8),
                    _ => rec.offs.push(rec.offs.last().copied().unwrap_or(0).wrapping_add((x % 3) as i64)),
                }
            }
        }
        // A write that was acknowledged and lost.
        "stale" => match part {
            0 => rec.vals = old.vals.clone(),
            1 => rec.a = old.a.clone(),
            2 => rec.b = old.b.clone(),
            _ => rec.offs = old.offs.clone(),
        },
        "dup" => match part {
            0 => shift(&mut rec.vals, at),
            1 => shift(&mut rec.a.bytes, at),
            2 => shift(&mut rec.b.bytes, at),
            _ => shift(&mut rec.offs, at),
        },
        "swap" => match part {
            0 => swap(&mut rec.vals, at),
            1 => swap(&mut rec.a.bytes, at),
            2 => swap(&mut rec.b.bytes, at),
            _ => swap(&mut rec.offs, at),
        },
        "flip" => {
            let bit = op.get("v");
            match part {
                0 => rec.vals.iter_mut().skip(at).take(1).for_each(|x| *x ^= 1 << (bit % 32)),
                1 => rec.a.bytes.iter_mut().skip(at).take(1).for_each(|x| *x ^= 1 << (bit % 8)),
                2 => rec.b.bytes.iter_mut().skip(at).take(1).for_each(|x| *x ^= 1 << (bit % 8)),
                _ => rec.offs.iter_mut().skip(at).take(1).for_each(|x| *x ^= 1i64 << (bit % 64)),
            }
        }
        "set" => {
            let x = ODD[op.us("v") % ODD.len()];
            if let Some(o) = rec.offs.get_mut(at) {
                *o = if op.get("v") >= ODD.len() as u64 { o.wrapping_add(x) } else { x };
            }
        }
        "num" => {
            let b = if part % 2 == 0 { &mut rec.a } else { &mut rec.b };
            let f = if at % 2 == 0 { &mut b.bits } else { &mut b.off };
            let v = op.us("v");
            *f = match v / ODDU.len() {
                0 => ODDU[v % ODDU.len()],
                1 => f.wrapping_add(v % ODDU.len()),
                _ => f.wrapping_sub(v % ODDU.len()),
            };
        }
        _ => {}
    }
    if !wide {
        for o in &mut rec.offs {
            *o = i64::from(*o as i32);
        }
    }
}

fn used(kind: u64) -> &'static [u64] {
    match kind {
        0 => &[1],
        1 => &[0, 1],
        2 | 3 => &[0, 3],
        4 => &[0],
        5 => &[1, 2],
        6 => &[1, 2, 3],
        7 => &[0, 1, 3],
        _ => &[1, 2],
    }
}

fn read_back(d: Box<dyn DynRead>, want: &[Val]) -> Result<(), String> {
    if d.len() != want.len() {
        return Err(format!("accepted parts have {} items, they encode {}", d.len(), want.len()));
    }
    for (i, w) in want.iter().enumerate() {
        if d.view(i).as_ref() != Some(w) || d.owned(i).as_ref() != Some(w) {
            return Err(format!("item {i} reads {:?}, the parts encode {w}", d.view(i)));
        }
    }
    for i in beyond(want.len()) {
        if i >= want.len() && d.view(i).is_some() {
            return Err(format!("item {i} of {} is not absent", want.len()));
        }
    }
    let got = d.iter().rest();
    if got != want {
        return Err(format!("iteration gives {}, the parts encode {}", show(&got), show(want)));
    }
    if d.decode()? != want {
        return Err("the accepted buffers decode differently".into());
    }
    d.queries()?;
    let d = d.reassemble()?;
    let got = d.into_iter().rest();
    if got != want {
        return Err(format!("owned iteration gives {}, the parts encode {}", show(&got), show(want)));
    }
    Ok(())
}

fn judge(got: Got, want: &Want) -> Result<&'static str, String> {
    match &got {
        Got::Bitmap(e) => spoken(e)?,
        Got::Validity(e) => spoken(e)?,
        Got::Offsets(e) => spoken(e)?,
        Got::Flatten(e) => spoken(e)?,
        Got::Built(_) => {}
    }
    match (got, want) {
        (Got::Built(d), Want::Items(v)) => read_back(d, v).map(|()| "op.mount_accepted"),
        (Got::Built(_), w) => Err(format!("malformed parts were accepted: {w:?}")),
        (Got::Bitmap(e), Want::Bitmap { off, bits, bytes })
            if e == BitmapError::OutOfBounds { offset: *off, bits: *bits, bytes: *bytes } =>
        {
            Ok("op.rejected_bitmap")
        }
        (Got::Validity(e), Want::Validity { c, b })
            if e == ValidityError::LengthMismatch { collection: *c, bitmap: *b } =>
        {
            Ok("op.rejected_validity")
        }
        (Got::Offsets(e), Want::Offsets(bad)) if bad.contains(&e) => Ok(match e {
            OffsetsError::Empty => "op.rejected_offsets_empty",
            OffsetsError::NonZeroFirst { .. } => "op.rejected_offsets_first",
            OffsetsError::Negative { .. } => "op.rejected_offsets_negative",
            OffsetsError::NonMonotonic { .. } => "op.rejected_offsets_order",
            OffsetsError::OutOfBounds { .. } => "op.rejected_offsets_bound",
        }),
        (Got::Flatten(e), Want::Flatten(f)) if e == *f => Ok("op.rejected_width"),
        (g, w) => {
            let g = match g {
                Got::Bitmap(e) => e.to_string(),
                Got::Validity(e) => e.to_string(),
                Got::Offsets(e) => e.to_string(),
                Got::Flatten(e) => e.to_string(),
                Got::Built(_) => unreachable!("handled above"),
            };
            Err(match w {
                Want::Items(_) => format!("well-formed parts were rejected: {g}"),
                w => format!("the error {g:?} does not describe what is wrong: {w:?}"),
            })
        }
    }
}

pub fn execute(sc: &Scenario, trace: bool) -> Outcome {
    let cfg = &sc.ops[0];
    let kind = cfg.get("kind") % KINDS;
    let n = [0usize, 1, 2, 3, 5][cfg.us("w") % 5];
    let wide = matches!(kind, 3 | 7);
    let live0 = alloc::live();
    reset_handles(&[3]);
    let mut hash = Hash::default();
    hash.add(kind << 8 | n as u64);
    let mut old = Rec::default();
    let mut rec = snapshot(kind, n, cfg.us("n"), cfg.get("v"));
    let mut v = None;
    let (mut events, mut mounts) = (0, 0);
    for (step, op) in sc.ops.iter().enumerate().skip(1) {
        if trace {
            eprintln!("op {step} {op}");
        }
        events += 1;
        bump("events");
        hash.add(u64::from(op.k.as_bytes()[0]) ^ op.get("at") << 8 ^ op.get("part") << 40);
        match op.k {
            "snap" => {
                old = std::mem::replace(&mut rec, snapshot(kind, n, op.us("n"), op.get("v")));
                bump("op.stored");
            }
            "mount" => {
                let want = expect(kind, n, &rec);
                mounts += 1;
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let got = match op.get("st") % 6 {
                        0 => mount::<VecBuffer>(kind, n, &rec),
                        1 => mount::<BoxBuffer>(kind, n, &rec),
                        2 => mount::<ArcBuffer>(kind, n, &rec),
                        3 => mount::<RcBuffer>(kind, n, &rec),
                        4 => mount::<SliceBuffer<'static>>(kind, n, &rec),
                        _ => mount::<SimBuffer>(kind, n, &rec),
                    };
                    judge(got, &want)
                }));
                if trace {
                    eprintln!("  parts {rec:?}\n  expected {want:?}");
                }
                match r {
                    Ok(Ok(what)) => {
                        bump(what);
                        what.bytes().for_each(|b| hash.add(u64::from(b)));
                    }
                    Ok(Err(m)) => v = Some(Violation { kind: "parts", props: vec!["C08"], step, msg: m }),
                    Err(_) => v = Some(Violation { kind: "parts-panic", props: vec!["C08"], step, msg: format!("construction or reading panicked; expected {want:?}") }),
                }
            }
            _ => {
                fault(&mut rec, &old, op, wide);
                bump(match op.k {
                    "torn" => "fault.torn_write",
                    "short" => "fault.short_write",
                    "extra" => "fault.garbage_after_end",
                    "stale" => "fault.lost_write",
                    "dup" => "fault.duplicated_element",
                    "swap" => "fault.reordered_elements",
                    "flip" => "fault.flipped_bit",
                    "set" => "fault.overwritten_offset",
                    _ => "fault.overwritten_number",
                });
            }
        }
        if v.is_some() {
            break;
        }
    }
    drop((rec, old));
    clear_handles();
    sim_base::phys::clear_arena();
    if v.is_none() {
        let left = alloc::live() - live0;
        let corrupt = alloc::corruption();
        if left != 0 || corrupt != 0 {
            v = Some(Violation { kind: "leak", props: vec!["C08"], step: sc.ops.len(), msg: format!("{left} blocks left, {corrupt} heap violations") });
        }
    }
    Outcome { v, hash: hash.0, events, nontrivial: mounts > 0 }
}

pub fn generate(_: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let kind = r.below(KINDS);
    let rows = |r: &mut Rng| match r.below(8) {
        0 => 0,
        1..=4 => r.below(10),
        5 => r.range(62, 66),
        6 if r.pct(6) => many(r),
        _ => r.below(40),
    };
    let n = rows(&mut r);
    let cfg = Op::new("parts").set("kind", kind).set("w", if r.pct(6) { 0 } else { r.range(1, 4) }).set("n", n).set("v", r.below(1 << 40));
    let mut ops = vec![cfg];
    for _ in 0..r.range(1, 4) {
        if r.pct(60) {
            // A newer version of about the same size, or another one.
            let m = if r.pct(50) { n.saturating_add(r.below(4)).saturating_sub(r.below(3)) } else { rows(&mut r) };
            ops.push(Op::new("snap").set("n", m).set("v", r.below(1 << 40)));
        }
        for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 2, 3]) {
            let part = *r.pick(used(kind));
            let near = |r: &mut Rng| if r.pct(60) { r.below(n + 3) } else { r.below(6) };
            let op = match r.below(12) {
                0 | 1 => Op::new("torn").set("at", near(&mut r)),
                2 => Op::new("short").set("at", r.range(1, 4)),
                3 => Op::new("extra").set("at", r.range(1, 5)).set("v", r.below(1 << 30)),
                4 => Op::new("stale"),
                5 => Op::new("dup").set("at", near(&mut r)),
                6 => Op::new("swap").set("at", near(&mut r)),
                7 => Op::new("flip").set("at", near(&mut r)).set("v", r.below(64)),
                8 | 9 => Op::new("set").set("at", near(&mut r)).set("v", r.below(24)),
                _ => Op::new("num").set("at", r.below(2)).set("v", r.below(36)),
            };
            ops.push(op.set("part", part));
        }
        ops.push(Op::new("mount").set("st", r.below(6)));
    }
    Scenario { ops }
}

// ---------------------------------------------------------------- the world, as the driver sees it

pub struct Parts;
impl sim_base::driver::World for Parts {
    fn name(&self) -> &'static str {
        "parts"
    }
    fn generate(&self, prop: &str, seed: u64) -> Scenario {
        crate::generate(prop, seed)
    }
    fn execute(&self, sc: &Scenario, trace: bool) -> Outcome {
        crate::execute(sc, trace)
    }
}

