//! Lists whose child is so long that offsets run out: the child is virtual for
//! all but its most recent items, so that billions of items cost nothing.
#![allow(clippy::type_complexity)]

use sim_base::alloc::Plan;
use sim_base::feed::Feed;
use sim_base::feed::{FeedIter, HINTS};
use sim_base::op::{Op, Outcome, Scenario, Violation, bump};
use sim_base::rng::{Hash, Rng};
use sim_base::storage::{SimAlloc, SimBuffer, SimPanic, SimVec, clear_handles, handle, reset_handles};
use sim_base::val::{Gen, Item, Shape, Val, gen_vals};
use narrow::{
    bitmap::ValidityBitmap,
    collection::{
        AllocError, ChildRef, Collection, CollectionAllocIn, CollectionRealloc,
    },
    length::Length,
    offset::{Offset, Offsets},
    validity::Validity,
};
use narrow::buffer::BufferRef;
use std::borrow::Borrow;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// `prefix` implied items, then stored ones.
#[derive(Clone, Debug, Default)]
pub struct Runs {
    prefix: usize,
    tail: SimVec<u32>,
}
fn implied(i: usize) -> u32 {
    (i as u32).wrapping_mul(2_654_435_761)
}
impl Length for Runs {
    fn len(&self) -> usize {
        self.prefix + self.tail.len()
    }
}
pub struct RunsIter {
    runs: Runs,
    range: std::ops::Range<usize>,
}
impl Iterator for RunsIter {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        let i = self.range.next()?;
        self.runs.view(i)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.range.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<u32> {
        let i = self.range.nth(n)?;
        self.runs.view(i)
    }
}
impl ExactSizeIterator for RunsIter {}
pub struct RunsViews<'a>(&'a Runs, std::ops::Range<usize>);
impl Iterator for RunsViews<'_> {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        let i = self.1.next()?;
        self.0.view(i)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<u32> {
        let i = self.1.nth(n)?;
        self.0.view(i)
    }
}
impl ExactSizeIterator for RunsViews<'_> {}
impl Collection for Runs {
    type View<'a> = u32;
    type Owned = u32;
    fn view(&self, i: usize) -> Option<u32> {
        if i < self.prefix { Some(implied(i)) } else { self.tail.view(i - self.prefix) }
    }
    type Iter<'a> = RunsViews<'a>;
    fn iter_views(&self) -> RunsViews<'_> {
        RunsViews(self, 0..self.len())
    }
    type IntoIter = RunsIter;
    fn into_iter_owned(self) -> RunsIter {
        let range = 0..self.len();
        RunsIter { runs: self, range }
    }
}
impl FromIterator<u32> for Runs {
    fn from_iter<I: IntoIterator<Item = u32>>(iter: I) -> Self {
        Self { prefix: 0, tail: iter.into_iter().collect() }
    }
}
impl Extend<u32> for Runs {
    fn extend<I: IntoIterator<Item = u32>>(&mut self, iter: I) {
        self.tail.extend(iter);
    }
}
impl CollectionAllocIn for Runs {
    type Alloc = SimAlloc;
    fn with_capacity_in(n: usize, a: SimAlloc) -> Self {
        Self { prefix: 0, tail: SimVec::with_capacity_in(n, a) }
    }
    fn from_iter_in<I: IntoIterator<Item = u32>>(iter: I, a: SimAlloc) -> Self {
        Self { prefix: 0, tail: SimVec::from_iter_in(iter, a) }
    }
    fn try_with_capacity_in(n: usize, a: SimAlloc) -> Result<Self, AllocError> {
        Ok(Self { prefix: 0, tail: SimVec::try_with_capacity_in(n, a)? })
    }
    fn try_from_iter_in<I: IntoIterator<Item = u32>>(iter: I, a: SimAlloc) -> Result<Self, AllocError> {
        Ok(Self { prefix: 0, tail: SimVec::try_from_iter_in(iter, a)? })
    }
}
impl CollectionRealloc for Runs {
    fn allocator(&self) -> SimAlloc {
        self.tail.allocator()
    }
    fn try_reserve(&mut self, n: usize) -> Result<(), AllocError> {
        self.tail.try_reserve(n)
    }
    fn try_extend<I: IntoIterator<Item = u32>>(&mut self, iter: I) -> Result<(), AllocError> {
        self.tail.try_extend(iter)
    }
    fn reserve(&mut self, n: usize) {
        self.tail.reserve(n);
    }
    fn truncate(&mut self, len: usize) {
        self.tail.truncate(len.saturating_sub(self.prefix));
        self.prefix = self.prefix.min(len);
    }
}

type List<O> = Offsets<Runs, O, SimBuffer, Vec<u32>>;

/// A list array near its limit.
trait Near {
    fn len(&self) -> usize;
    /// `None`: absent; `Some(None)`: null; otherwise start and length.
    fn row(&self, i: usize) -> Option<Option<usize>>;
    fn item(&self, i: usize, k: usize) -> Option<u32>;
    fn rows_iter(&self) -> Vec<Option<usize>>;
    fn offsets(&self) -> Result<Vec<usize>, String>;
    fn child_len(&self) -> usize;
    fn validity_len(&self) -> Option<usize>;
    fn extend(&mut self, f: &mut Feed<'_>);
    fn try_extend(&mut self, f: &mut Feed<'_>) -> bool;
    fn reserve(&mut self, n: usize, fallible: bool) -> bool;
    fn truncate(&mut self, n: usize);
}
fn raw<O: Offset>(l: &List<O>) -> Result<Vec<usize>, String> {
    let o: &[O] = l.buffer_ref().borrow();
    o.iter().enumerate().map(|(i, o)| (*o).try_into().map_err(|_| format!("offset {i} is negative"))).collect()
}
impl<O: Offset> Near for List<O>
where
    SimVec<O>: CollectionRealloc<Alloc = SimAlloc, Owned = O>,
{
    fn len(&self) -> usize {
        Length::len(self)
    }
    fn row(&self, i: usize) -> Option<Option<usize>> {
        self.view(i).map(|v| Some(v.len()))
    }
    fn item(&self, i: usize, k: usize) -> Option<u32> {
        self.view(i)?.view(k)
    }
    fn rows_iter(&self) -> Vec<Option<usize>> {
        self.iter_views().map(|v| Some(v.len())).collect()
    }
    fn offsets(&self) -> Result<Vec<usize>, String> {
        raw(self)
    }
    fn child_len(&self) -> usize {
        self.child_ref().len()
    }
    fn validity_len(&self) -> Option<usize> {
        None
    }
    fn extend(&mut self, f: &mut Feed<'_>) {
        Extend::extend(self, FeedIter::<Vec<u32>>::new(f));
    }
    fn try_extend(&mut self, f: &mut Feed<'_>) -> bool {
        CollectionRealloc::try_extend(self, FeedIter::<Vec<u32>>::new(f)).is_ok()
    }
    fn reserve(&mut self, n: usize, fallible: bool) -> bool {
        if fallible {
            CollectionRealloc::try_reserve(self, n).is_ok()
        } else {
            CollectionRealloc::reserve(self, n);
            true
        }
    }
    fn truncate(&mut self, n: usize) {
        CollectionRealloc::truncate(self, n);
    }
}
impl<O: Offset> Near for Validity<List<O>, SimBuffer>
where
    SimVec<O>: CollectionRealloc<Alloc = SimAlloc, Owned = O>,
{
    fn len(&self) -> usize {
        Length::len(self)
    }
    fn row(&self, i: usize) -> Option<Option<usize>> {
        self.view(i).map(|v| v.map(|v| v.len()))
    }
    fn item(&self, i: usize, k: usize) -> Option<u32> {
        self.view(i)??.view(k)
    }
    fn rows_iter(&self) -> Vec<Option<usize>> {
        self.iter_views().map(|v| v.map(|v| v.len())).collect()
    }
    fn offsets(&self) -> Result<Vec<usize>, String> {
        raw(self.child_ref())
    }
    fn child_len(&self) -> usize {
        self.child_ref().child_ref().len()
    }
    fn validity_len(&self) -> Option<usize> {
        self.bitmap_ref().map(Length::len)
    }
    fn extend(&mut self, f: &mut Feed<'_>) {
        Extend::extend(self, FeedIter::<Option<Vec<u32>>>::new(f));
    }
    fn try_extend(&mut self, f: &mut Feed<'_>) -> bool {
        CollectionRealloc::try_extend(self, FeedIter::<Option<Vec<u32>>>::new(f)).is_ok()
    }
    fn reserve(&mut self, n: usize, fallible: bool) -> bool {
        if fallible {
            CollectionRealloc::try_reserve(self, n).is_ok()
        } else {
            CollectionRealloc::reserve(self, n);
            true
        }
    }
    fn truncate(&mut self, n: usize) {
        CollectionRealloc::truncate(self, n);
    }
}

fn start<O: Offset>(prefix: usize, nullable: bool) -> Box<dyn Near>
where
    SimVec<O>: CollectionRealloc<Alloc = SimAlloc, Owned = O>,
{
    let runs = Runs { prefix, tail: SimVec::default() };
    let Ok(end) = O::try_from(prefix) else { unreachable!("prefix fits") };
    let offs = SimVec::from_vec(vec![O::default(), end], handle(0));
    let list: List<O> = Offsets::try_from_parts(runs, offs).expect("well-formed huge list");
    if nullable { Box::new(Validity::<_, SimBuffer>::from_collection(list)) } else { Box::new(list) }
}

/// Model row: the huge first one, or a short one.
#[derive(Clone, PartialEq, Debug)]
enum Row {
    Big(usize),
    Null,
    Short(Vec<u32>),
}
impl Row {
    fn of(v: &Val) -> Self {
        match v {
            Val::Null => Self::Null,
            Val::L(_) => Self::Short(<Vec<u32> as Item>::from_val(v)),
            _ => unreachable!("list items"),
        }
    }
    fn len(&self) -> Option<usize> {
        match self {
            Self::Big(n) => Some(*n),
            Self::Null => None,
            Self::Short(v) => Some(v.len()),
        }
    }
}

fn check(a: &dyn Near, model: &[Row]) -> Result<(), String> {
    if a.len() != model.len() {
        return Err(format!("{} rows, history implies {}", a.len(), model.len()));
    }
    let lens: Vec<Option<usize>> = model.iter().map(Row::len).collect();
    let got = a.rows_iter();
    if got != lens {
        return Err(format!("row lengths {got:?}, history implies {lens:?}"));
    }
    for (i, r) in model.iter().enumerate() {
        if a.row(i) != Some(r.len()) {
            return Err(format!("row {i} has length {:?}, history implies {:?}", a.row(i), r.len()));
        }
        match r {
            Row::Null => {}
            Row::Big(n) => {
                for k in [0, 1, n / 2, n - 1] {
                    if a.item(i, k) != Some(implied(k)) {
                        return Err(format!("item {k} of row {i} reads {:?}", a.item(i, k)));
                    }
                }
                if a.item(i, *n).is_some() {
                    return Err(format!("item {n} of row {i} is not absent"));
                }
            }
            Row::Short(v) => {
                for (k, x) in v.iter().enumerate() {
                    if a.item(i, k) != Some(*x) {
                        return Err(format!("item {k} of row {i} reads {:?}, history implies {x}", a.item(i, k)));
                    }
                }
                if a.item(i, v.len()).is_some() {
                    return Err(format!("item {} of row {i} is not absent", v.len()));
                }
            }
        }
    }
    if a.row(model.len()).is_some() || a.row(usize::MAX).is_some() {
        return Err("a row beyond the end is not absent".into());
    }
    let offs = a.offsets()?;
    let bad = offs.len() != model.len() + 1 || offs[0] != 0 || offs.windows(2).any(|w| w[0] > w[1]);
    if bad || offs[offs.len() - 1] > a.child_len() {
        return Err(format!("offsets {offs:?} over {} items", a.child_len()));
    }
    if a.validity_len().is_some_and(|l| l != model.len()) {
        return Err(format!("validity of {:?} bits for {} rows", a.validity_len(), model.len()));
    }
    Ok(())
}

fn limit(wide: bool) -> usize {
    if wide { i64::MAX as usize } else { i32::MAX as usize }
}

pub fn execute(sc: &Scenario, trace: bool) -> Outcome {
    let cfg = &sc.ops[0];
    let (wide, nullable) = (cfg.get("wide") > 0, cfg.get("null") > 0);
    reset_handles(&[cfg.get("pol") & 3]);
    let max = limit(wide);
    let prefix = max - cfg.us("room").min(max / 2);
    let mut hash = Hash::default();
    let mut a = if wide { start::<i64>(prefix, nullable) } else { start::<i32>(prefix, nullable) };
    let mut model = vec![Row::Big(prefix)];
    let mut v: Option<Violation> = None;
    let list = Shape::List(Box::new(Shape::Prim(4)));
    let shape = if nullable { Shape::Opt(Box::new(list)) } else { list };
    let g = Gen { nulls: cfg.get("np"), list: cfg.get("ml"), long: 0 };
    let mut events = 0;
    let mut overflows = 0u64;
    for (step, op) in sc.ops.iter().enumerate().skip(1) {
        if trace {
            eprintln!("op {step} {op}");
        }
        events += 1;
        bump("events");
        let mut fail = |kind: &'static str, props: &[&'static str], msg: String| {
            if v.is_none() {
                v = Some(Violation { kind, props: props.to_vec(), step, msg });
            }
        };
        hash.add(u64::from(op.k.as_bytes()[0]) ^ op.get("n") << 8);
        let before = handle(0).0.refused.get();
        let plan = Plan::new(op.get("dk"), op.get("da"));
        let mut ctx: Vec<&'static str> = vec!["C01"];
        match op.k {
            "ext" | "try" => {
                let fallible = op.k == "try";
                let vals = gen_vals(&shape, op.us("n"), op.get("v"), g);
                let rows: Vec<Row> = vals.iter().map(Row::of).collect();
                // The first row that cannot be addressed.
                let mut at: usize = model.iter().map(|r| r.len().unwrap_or(0)).sum();
                let mut over = None;
                for (i, r) in rows.iter().enumerate() {
                    match at.checked_add(r.len().unwrap_or(0)).filter(|x| *x <= max) {
                        Some(x) => at = x,
                        None => {
                            over = Some(i);
                            break;
                        }
                    }
                }
                let mut f = Feed::new(vals);
                f.hint = op.get("h") % HINTS;
                if op.get("p") > 0 {
                    f.panic_at = Some(op.us("p") - 1);
                }
                handle(0).0.plan.set(plan);
                let end = catch_unwind(AssertUnwindSafe(|| if fallible { a.try_extend(&mut f) } else {
                    a.extend(&mut f);
                    true
                }));
                handle(0).0.plan.set(Plan::new(0, 0));
                let refused = handle(0).0.refused.get() - before;
                if refused > 0 {
                    bump("fault.storage_refused");
                }
                if f.panicked {
                    bump("fault.producer_panicked");
                }
                let pulled = f.pulled;
                drop(f);
                if over.is_some() {
                    overflows += 1;
                    bump("fault.offsets_exhausted");
                }
                match end {
                    Ok(true) => {
                        if let Some(i) = over {
                            fail("overflow-accepted", &["C04", "C01"], format!("{} of rows up to item {max} accepted row {i} beyond it", op.k));
                        }
                        model.extend(rows);
                        hash.add(1);
                    }
                    Ok(false) => {
                        hash.add(2);
                        ctx.extend(["C03", "C04"]);
                        if over.is_none() && refused == 0 {
                            fail("spurious-err", &["C04"], format!("fallible extension by {} rows that fit was refused", rows.len()));
                        }
                    }
                    Err(p) => {
                        hash.add(3);
                        let sim = p.downcast_ref::<SimPanic>().copied();
                        let own = sim.is_none();
                        if fallible && (own || sim == Some(SimPanic::Storage)) {
                            fail("try-panic", &["C04", "C03"], "a fallible extension beyond the offset limit panicked".into());
                        }
                        if own && !fallible && over.is_none() {
                            fail("own-panic", &["C01"], "an extension whose rows fit panicked".into());
                        }
                        ctx.push("C02");
                        let cap = over.unwrap_or(rows.len()).min(pulled);
                        let old = model.len();
                        let len = a.len();
                        if len < old || len - old > cap {
                            fail("prefix", &["C02", "C01"], format!("{len} rows after a panic; there were {old} and at most {cap} could have been added"));
                        } else {
                            model.extend(rows.into_iter().take(len - old));
                            hash.add((len - old) as u64);
                        }
                    }
                }
            }
            "tres" | "res" => {
                let fallible = op.k == "tres";
                handle(0).0.plan.set(plan);
                let n = match op.get("hg") {
                    0 => op.us("n"),
                    1 => usize::MAX,
                    2 => usize::MAX / 2,
                    _ => 1 << 62,
                };
                let end = catch_unwind(AssertUnwindSafe(|| a.reserve(n, fallible)));
                handle(0).0.plan.set(Plan::new(0, 0));
                let refused = handle(0).0.refused.get() - before;
                match end {
                    Ok(true) if op.get("hg") > 0 => fail("exhaustion-accepted", &["C04", "C12"], format!("a reservation of {n} rows succeeded")),
                    Ok(false) if refused == 0 && op.get("hg") == 0 => fail("spurious-err", &["C04"], format!("try_reserve({n}) failed although nothing was refused")),
                    Err(_) if fallible => fail("try-panic", &["C04"], format!("try_reserve({n}) panicked")),
                    Ok(false) => ctx.extend(["C03", "C04"]),
                    Err(_) => ctx.push("C02"),
                    _ => {}
                }
            }
            "trunc" => {
                let n = 1 + op.us("n");
                let end = catch_unwind(AssertUnwindSafe(|| a.truncate(n)));
                if end.is_err() {
                    fail("own-panic", &["C01"], format!("truncate({n}) panicked"));
                }
                model.truncate(n);
            }
            _ => {}
        }
        if v.is_none() {
            let r = catch_unwind(AssertUnwindSafe(|| check(&*a, &model)));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) => v = Some(Violation { kind: "contents", props: ctx, step, msg: m }),
                Err(_) => v = Some(Violation { kind: "read-panic", props: ctx, step, msg: "reading panicked".into() }),
            }
        }
        hash.add(model.len() as u64);
        if v.is_some() {
            break;
        }
    }
    drop(a);
    clear_handles();
    Outcome { v, hash: hash.0 ^ u64::from(wide) ^ u64::from(nullable) << 1, events, nontrivial: overflows > 0 || model.len() > 1 }
}

pub fn generate(prop: &str, seed: u64) -> Scenario {
    let mut r = Rng::new(seed);
    let large = r.pct(15);
    let cfg = Op::new("huge")
        .set("wide", r.below(2))
        .set("null", r.below(2))
        .set("pol", r.below(4))
        .set("np", *r.pick(&[0, 10, 40]))
        .set("ml", r.range(1, 5))
        .set("room", if large { r.below(4000) } else { r.below(40) });
    let mut ops = vec![cfg];
    for _ in 0..r.range(1, 8) {
        let v = r.below(1 << 40);
        let op = match r.below(10) {
            0..=6 => {
                let k = if r.pct(if prop == "C02" { 30 } else { 70 }) { "try" } else { "ext" };
                let n = if large && r.pct(60) { 1000 + r.below(60) } else { r.below(14) };
                let mut op = Op::new(k).set("v", v).set("n", n);
                if r.pct(25) {
                    op.put("h", r.below(HINTS));
                }
                if r.pct(20) {
                    op.put("dk", r.range(1, 2));
                    op.put("da", r.below(8));
                }
                if r.pct(if prop == "C02" { 40 } else { 10 }) {
                    op.put("p", 1 + r.below(n + 1));
                }
                op
            }
            7 => {
                let mut op = Op::new(if r.pct(70) { "tres" } else { "res" }).set("n", r.below(20));
                if r.pct(20) {
                    op.put("hg", r.range(1, 3));
                }
                op
            }
            _ => Op::new("trunc").set("n", r.below(12)),
        };
        ops.push(op);
    }
    Scenario { ops }
}

// ---------------------------------------------------------------- the world, as the driver sees it

pub struct Huge;
impl sim_base::driver::World for Huge {
    fn name(&self) -> &'static str {
        "huge"
    }
    fn generate(&self, prop: &str, seed: u64) -> Scenario {
        crate::generate(prop, seed)
    }
    fn execute(&self, sc: &Scenario, trace: bool) -> Outcome {
        crate::execute(sc, trace)
    }
}

