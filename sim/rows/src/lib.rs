//! Comparing rows of different list collections, each with its own history of
//! growth, faults and truncation, or its own unusual representation.
#![allow(clippy::type_complexity)]

use sim_base::alloc::{self, Plan};
use sim_base::dynarr::{DynGrow, DynRead, Holder, Make, Sel, Ty};
use sim_base::feed::{Feed, HINTS};
use sim_base::op::{Op, Outcome, Scenario, Violation, bump};
use sim_base::phys::{Noise, Phys, clear_arena};
use sim_base::rng::{Hash, Rng, mix2};
use sim_base::storage::{SimBuffer, SimPanic, SimVec, clear_handles, handle, reset_handles};
use sim_base::val::{Gen, Item, Shape, Val, gen_val, show};
use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::{ArcBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer},
    collection::{Collection, CollectionAlloc, CollectionRealloc},
    offset::Offsets,
    validity::Validity,
};
use std::any::Any;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// A list collection of one group, growable or not.
pub enum Slot {
    Grow(Box<dyn DynGrow>),
    Read(Box<dyn DynRead>),
}
impl Slot {
    fn read(&self) -> &dyn DynRead {
        match self {
            Self::Grow(g) => g.read(),
            Self::Read(r) => &**r,
        }
    }
}
pub struct Kind {
    name: &'static str,
    make: fn() -> Slot,
    build: fn(&[Val], &mut Noise<'_>) -> Slot,
}
type Cmp = fn(&dyn Any, usize, &dyn Any, usize) -> Option<bool>;
/// Compares a row with a collection made from these items.
type Flat = fn(&dyn Any, usize, &[Val]) -> Option<bool>;

/// Compares the view of a row with that very view.
type Own = fn(&dyn Any, usize) -> Option<bool>;

/// List collections with one item type, and how their rows compare.
pub struct Group {
    pub name: &'static str,
    shape: Shape,
    float: bool,
    kinds: Vec<Kind>,
    cmp: Vec<Vec<Cmp>>,
    flat: Vec<Vec<Flat>>,
    own: Vec<Own>,
}

fn hold<C: 'static>(a: &dyn Any) -> Option<&C> {
    a.downcast_ref::<Holder<C>>().map(|h| &h.0)
}
fn grows<C: Phys + CollectionRealloc<Alloc: Sel> + CollectionAlloc>(name: &'static str) -> Kind {
    Kind {
        name,
        make: || Slot::Grow(Ty::<C>("", false, None).default()),
        build: |v, n| Slot::Grow(Ty::<C>("", false, None).build(v, n)),
    }
}
fn fixed<C: Phys>(name: &'static str) -> Kind {
    Kind {
        name,
        make: || {
            let mut rng = Rng::new(1);
            Slot::Read(Box::new(Holder(C::build(&[], &mut Noise { rng: &mut rng, offs: false, extra: false, absent: false, alloc: 0 }))))
        },
        build: |v, n| Slot::Read(Box::new(Holder(C::build(v, n)))),
    }
}

macro_rules! table {
    ([$($l:ty),*] $rs:tt) => { vec![$( table!(@row $l, $rs) ),*] };
    (@row $l:ty, [$($r:ty),*]) => { vec![$( (|a: &dyn Any, i: usize, b: &dyn Any, j: usize| {
        let (a, b) = (hold::<$l>(a)?, hold::<$r>(b)?);
        // SAFETY: comparing views needs a right side that outlives everything;
        // the view is gone before the array is.
        let b: &'static $r = unsafe { &*std::ptr::from_ref(b) };
        let (x, y) = (a.view(i)?, b.view(j)?);
        Some(<<$l as Collection>::View<'_> as PartialEq<<$r as Collection>::View<'static>>>::eq(&x, &y))
    }) as Cmp ),*] };
}
macro_rules! flats {
    ([$($l:ty),*] $rs:tt) => { vec![$( flats!(@row $l, $rs) ),*] };
    (@row $l:ty, [$($r:ty),*]) => { vec![$( (|a: &dyn Any, i: usize, vals: &[Val]| {
        let a = hold::<$l>(a)?;
        let flat: $r = vals.iter().map(<<$r as Collection>::Owned as Item>::from_val).collect();
        Some(<<$l as Collection>::View<'_> as PartialEq<$r>>::eq(&a.view(i)?, &flat))
    }) as Flat ),*] };
}
macro_rules! owns {
    ([$($l:ty),*]) => { vec![$( (|a: &dyn Any, i: usize| {
        // SAFETY: as above; the view is gone before the array is.
        let a: &'static $l = unsafe { &*std::ptr::from_ref(hold::<$l>(a)?) };
        let x = a.view(i)?;
        Some(<<$l as Collection>::View<'static> as PartialEq<<$l as Collection>::View<'static>>>::eq(&x, &x))
    }) as Own ),*] };
}
macro_rules! group {
    ($v:ident, $name:literal, $e:ty, $float:expr; [$($g:ty),*] [$($f:ty),*] [$($c:ty),*]) => {
        $v.push(Group {
            name: $name,
            shape: <$e as Item>::shape(),
            float: $float,
            kinds: vec![$( grows::<$g>(stringify!($g)), )* $( fixed::<$f>(stringify!($f)), )*],
            cmp: table!([$($g,)* $($f),*] [$($g,)* $($f),*]),
            flat: flats!([$($g,)* $($f),*] [$($c),*]),
            own: owns!([$($g,)* $($f),*]),
        });
    };
}

type Sl = SliceBuffer<'static>;
pub fn groups() -> Vec<Group> {
    let mut v = Vec::new();
    group!(v, "u8", u8, false;
        [Array<Vec<u8>, VecBuffer>, Array<Vec<u8>, SimBuffer>, Offsets<Vec<u8>, i64>, Offsets<SimVec<u8>, i64, SimBuffer>]
        [Array<Vec<u8>, RcBuffer>, Array<Vec<u8>, Sl>, Offsets<Box<[u8]>, i64, ArcBuffer>]
        [Vec<u8>, Box<[u8]>, std::rc::Rc<[u8]>, SimVec<u8>]);
    group!(v, "f32", f32, true;
        [Array<Vec<f32>, VecBuffer>, Offsets<SimVec<f32>, i64, SimBuffer>]
        [Array<Vec<f32>, ArcBuffer>, Array<Vec<f32>, Sl>]
        [Vec<f32>, std::sync::Arc<[f32]>]);
    group!(v, "bool", bool, false;
        [Array<Vec<bool>, VecBuffer>, Array<Vec<bool>, SimBuffer>, Offsets<Bitmap<SimBuffer>, i64, SimBuffer>]
        [Array<Vec<bool>, RcBuffer>, Array<Vec<bool>, Sl>, Offsets<Bitmap<BoxBuffer>, i64, ArcBuffer>]
        [Vec<bool>, Bitmap<VecBuffer>, Bitmap<SimBuffer>, Box<[bool]>]);
    group!(v, "Option<u16>", Option<u16>, false;
        [Array<Vec<Option<u16>>, VecBuffer>, Array<Vec<Option<u16>>, SimBuffer>, Offsets<Validity<Vec<u16>>, i64, VecBuffer>]
        [Array<Vec<Option<u16>>, RcBuffer>, Array<Vec<Option<u16>>, Sl>]
        [Vec<Option<u16>>, Validity<Vec<u16>>, Box<[Option<u16>]>]);
    group!(v, "Option<bool>", Option<bool>, false;
        [Array<Vec<Option<bool>>, VecBuffer>, Offsets<Validity<Bitmap<SimBuffer>, SimBuffer>, i64, SimBuffer>]
        [Array<Vec<Option<bool>>, ArcBuffer>, Array<Vec<Option<bool>>, Sl>]
        [Vec<Option<bool>>, Validity<Bitmap>]);
    group!(v, "i64", i64, false;
        [Array<Vec<i64>, VecBuffer>, Array<Vec<i64>, SimBuffer>]
        [Array<Vec<i64>, ArcBuffer>]
        [Vec<i64>, Array<i64>, Array<i64, SimBuffer>]);
    group!(v, "Option<f64>", Option<f64>, true;
        [Array<Vec<Option<f64>>, VecBuffer>, Offsets<Validity<SimVec<f64>, SimBuffer>, i64, SimBuffer>]
        [Array<Vec<Option<f64>>, RcBuffer>]
        [Vec<Option<f64>>, Array<Option<f64>>, Array<Option<f64>, SimBuffer>]);
    v
}

/// Item equality, from the values alone.
fn eq(shape: &Shape, float: bool, a: &Val, b: &Val) -> bool {
    match (shape, a, b) {
        (Shape::Prim(n), Val::P(a), Val::P(b)) if float => {
            if *n == 4 { f32::from_bits(*a as u32) == f32::from_bits(*b as u32) } else { f64::from_bits(*a as u64) == f64::from_bits(*b as u64) }
        }
        (Shape::List(s) | Shape::Fixed(_, s), Val::L(a), Val::L(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(s, float, a, b)),
        (Shape::Opt(s), a, b) if *a != Val::Null && *b != Val::Null => eq(s, float, a, b),
        (_, a, b) => a == b,
    }
}
fn rows_eq(g: &Group, a: &[Val], b: &[Val]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(&g.shape, g.float, a, b))
}

/// Draws primitives from a few values, so that rows coincide often.
fn narrow_down(shape: &Shape, float: bool, v: &mut Val) {
    match (shape, v) {
        (Shape::Prim(n), Val::P(p)) => {
            let few: [u128; 8] = match (float, n) {
                (true, 4) => [0, 0x8000_0000, 0x7fc0_0000, 0x7fc0_0001, 0x3f80_0000, 0x7f80_0000, 1, 0x3f80_0000],
                (true, _) => [0, 0x8000_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff8_0000_0000_0001, 0x3ff0_0000_0000_0000, 1, 2, 1],
                (_, 2) => [0, 1, 2, 3, 255, 256, 65535, 0],
                _ => [0, 1, 2, 3, 127, 128, 255, 0],
            };
            *p = few[(*p % 8) as usize];
        }
        (Shape::List(s) | Shape::Fixed(_, s), Val::L(l)) => l.iter_mut().for_each(|v| narrow_down(s, float, v)),
        (Shape::Opt(s), v) if *v != Val::Null => narrow_down(s, float, v),
        _ => {}
    }
}

/// A row: one of a few contents, or one that differs from it in one place.
fn row(g: &Group, nulls: u64, base: u64, id: u64) -> Vec<Val> {
    let gen_ = Gen { nulls, list: 3, long: 5 };
    let mut r = Rng::new(mix2(base, id >> 4));
    let n = match r.below(12) {
        0 | 1 => 0,
        2..=7 => r.us(5),
        8 => 7 + r.us(3),
        9 => 62 + r.us(8),
        10 => 126 + r.us(150),
        _ => 1,
    };
    let one = |r: &mut Rng| {
        let mut v = gen_val(&g.shape, r, gen_);
        narrow_down(&g.shape, g.float, &mut v);
        v
    };
    let mut v: Vec<Val> = (0..n).map(|_| one(&mut r)).collect();
    let mut r = Rng::new(mix2(base ^ 7, id));
    match id % 16 {
        0..=6 => {}
        7 => drop(v.pop()),
        8 => v.push(one(&mut r)),
        9 => {
            if let Some(x) = v.last_mut() {
                *x = one(&mut r);
            }
        }
        10 => {
            if let Some(x) = v.first_mut() {
                *x = one(&mut r);
            }
        }
        11 => v.truncate(n / 2),
        12 => v.reverse(),
        13 => {
            let w = v.clone();
            v.extend(w);
        }
        14 => {
            if !v.is_empty() {
                let i = if r.pct(50) { r.us(v.len()) } else { (r.us(v.len().div_ceil(8)) * 8 + 7 * r.us(2)).min(v.len() - 1) };
                v[i] = one(&mut r);
            }
        }
        _ => v.insert(0, one(&mut r)),
    }
    v
}
fn rows(g: &Group, base: u64, n: usize, seed: u64, nulls: u64, pool: u64) -> Vec<Val> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| Val::L(row(g, nulls, base, r.below(pool.max(1) * 16)))).collect()
}

struct World<'g> {
    g: &'g Group,
    base: u64,
    slots: Vec<(usize, Slot, Vec<Val>)>,
    hash: Hash,
    compared: u64,
    equal: u64,
}
type Bad = Result<(), (&'static str, String)>;

impl World<'_> {
    fn pair(&mut self, a: usize, b: usize) -> Bad {
        let (ka, sa, va) = &self.slots[a];
        let (kb, sb, vb) = &self.slots[b];
        for (i, x) in va.iter().enumerate() {
            for (j, y) in vb.iter().enumerate() {
                let (Val::L(x), Val::L(y)) = (x, y) else { continue };
                let want = rows_eq(self.g, x, y);
                let got = self.g.cmp[*ka][*kb](sa.read().any(), i, sb.read().any(), j);
                if got != Some(want) {
                    return Err(("equality", format!(
                        "row {i} of {} compared with row {j} of {} gives {got:?}; the rows are {} and {}",
                        self.g.kinds[*ka].name, self.g.kinds[*kb].name, show(x), show(y)
                    )));
                }
                self.compared += 1;
                self.equal += u64::from(want);
            }
        }
        self.hash.add(self.equal);
        Ok(())
    }
    fn flat(&mut self, a: usize, pick: usize) -> Bad {
        let (ka, sa, va) = &self.slots[a];
        let flats = &self.g.flat[*ka];
        let f = flats[pick % flats.len()];
        for (i, x) in va.iter().enumerate() {
            if let Val::L(x) = x {
                let (want, got) = (rows_eq(self.g, x, x), self.g.own[*ka](sa.read().any(), i));
                if got != Some(want) {
                    return Err(("equality", format!("row {i} of {} compared with itself gives {got:?}; it is {}", self.g.kinds[*ka].name, show(x))));
                }
            }
            for y in va {
                let (Val::L(x), Val::L(y)) = (x, y) else { continue };
                let want = rows_eq(self.g, x, y);
                let got = f(sa.read().any(), i, y);
                if got != Some(want) {
                    return Err(("equality", format!(
                        "row {i} of {} compared with a collection gives {got:?}; they hold {} and {}",
                        self.g.kinds[*ka].name, show(x), show(y)
                    )));
                }
                self.compared += 1;
                self.equal += u64::from(want);
            }
        }
        Ok(())
    }
    fn step(&mut self, op: &Op) -> Bad {
        let n = op.us("n");
        if op.k == "new" {
            let k = op.us("k") % self.g.kinds.len();
            let kind = &self.g.kinds[k];
            let vals = if n == 0 { Vec::new() } else { rows(self.g, self.base, n, op.get("v"), op.get("nulls"), op.get("pool")) };
            let f = op.get("f");
            let slot = if n == 0 {
                (kind.make)()
            } else {
                let mut rng = Rng::new(mix2(op.get("v"), 5));
                (kind.build)(&vals, &mut Noise { rng: &mut rng, offs: f & 1 != 0, extra: f & 2 != 0, absent: f & 4 != 0, alloc: op.get("al") % 2 })
            };
            self.slots.push((k, slot, vals));
            bump("op.new_list");
            return Ok(());
        }
        if self.slots.is_empty() {
            return Ok(());
        }
        let (a, b) = (op.us("a") % self.slots.len(), op.us("b") % self.slots.len());
        match op.k {
            "cmp" => {
                self.pair(a, b)?;
                bump("op.compare_rows");
            }
            "flat" => {
                self.flat(a, op.us("c"))?;
                bump("op.compare_row_with_collection");
            }
            "drop" => {
                self.slots.swap_remove(a);
                bump("op.drop_list");
            }
            "trunc" => {
                let (_, slot, vals) = &mut self.slots[a];
                if let Slot::Grow(s) = slot {
                    s.truncate(n);
                    vals.truncate(n);
                    bump("op.truncate");
                }
            }
            "share" => {
                let (k, slot, vals) = &self.slots[a];
                let copy = match slot {
                    Slot::Grow(g) => Slot::Grow(g.share_grow()),
                    Slot::Read(r) => Slot::Read(r.share()),
                };
                let next = (*k, copy, vals.clone());
                self.slots.push(next);
                bump("op.share_storage");
            }
            "ext" | "try" => {
                let (g, base) = (self.g, self.base);
                let (k, slot, vals) = &mut self.slots[a];
                // Simulated storage is refused by its handle instead.
                let sim = g.kinds[*k].name.contains("Sim");
                let Slot::Grow(s) = slot else { return Ok(()) };
                let new = rows(g, base, n, op.get("v"), op.get("nulls"), op.get("pool"));
                let mut f = Feed::new(new.clone());
                f.hint = op.get("h") % HINTS;
                if op.get("p") > 0 {
                    f.panic_at = Some(op.us("p") - 1);
                }
                let fallible = op.k == "try";
                let plan = Plan::new(op.get("dk"), op.get("da"));
                let before = (handle(0).0.refused.get(), handle(1).0.refused.get());
                handle(0).0.plan.set(plan);
                handle(1).0.plan.set(plan);
                let end = catch_unwind(AssertUnwindSafe(|| {
                    if fallible && !sim {
                        alloc::arm(plan);
                    }
                    let r = if fallible { s.try_extend(&mut f).is_ok() } else {
                        s.extend(&mut f);
                        true
                    };
                    alloc::disarm();
                    r
                }));
                alloc::disarm();
                for h in [0, 1] {
                    handle(h).0.plan.set(Plan::new(0, 0));
                }
                if (handle(0).0.refused.get(), handle(1).0.refused.get()) != before {
                    bump("fault.storage_refused");
                }
                if f.panicked {
                    bump("fault.producer_panicked");
                }
                drop(f);
                match end {
                    Ok(true) => vals.extend(new),
                    Ok(false) => bump("fault.extension_refused"),
                    Err(p) => {
                        if p.downcast_ref::<SimPanic>().is_none() && !fallible {
                            return Err(("own-panic", "an extension panicked on its own".into()));
                        }
                        // What was kept is a prefix of what was offered.
                        let len = s.len();
                        let kept = len.saturating_sub(vals.len()).min(new.len());
                        vals.extend(new.into_iter().take(kept));
                    }
                }
                bump("op.extend");
            }
            _ => {}
        }
        Ok(())
    }
}

pub fn execute(sc: &Scenario, groups: &[Group], trace: bool) -> Outcome {
    let cfg = &sc.ops[0];
    let g = &groups[cfg.us("ty") % groups.len()];
    reset_handles(&[cfg.get("pol") & 3, cfg.get("pol") >> 2 & 3]);
    let mut w = World { g, base: cfg.get("base"), slots: Vec::new(), hash: Hash::default(), compared: 0, equal: 0 };
    w.hash.add(cfg.get("ty"));
    let mut v = None;
    let mut events = 0;
    let all = [Op::new("all")];
    for (step, op) in sc.ops.iter().chain(&all).enumerate().skip(1) {
        if trace {
            eprintln!("op {step} {op}");
        }
        events += 1;
        bump("events");
        w.hash.add(u64::from(op.k.as_bytes()[0]) ^ op.get("n") << 8);
        let r = catch_unwind(AssertUnwindSafe(|| {
            if op.k != "all" {
                return w.step(op);
            }
            for a in 0..w.slots.len() {
                for b in 0..w.slots.len() {
                    w.pair(a, b)?;
                }
            }
            Ok(())
        }));
        match r {
            Ok(Ok(())) => {}
            Ok(Err((kind, msg))) => v = Some(Violation { kind, props: vec!["C19"], step, msg }),
            Err(_) => v = Some(Violation { kind: "panic", props: vec!["C19"], step, msg: format!("{} panicked", op.k) }),
        }
        for (_, _, vals) in &w.slots {
            w.hash.add(vals.len() as u64);
        }
        if v.is_some() {
            break;
        }
    }
    let (nontrivial, hash) = (w.equal >= 2 && w.compared > w.equal, w.hash.0);
    drop(w);
    clear_arena();
    clear_handles();
    Outcome { v, hash, events, nontrivial }
}

pub fn generate(seed: u64, groups: &[Group]) -> Scenario {
    let mut r = Rng::new(seed);
    let mut ops = vec![Op::new("rows").set("ty", r.below(groups.len() as u64)).set("pol", r.below(16)).set("base", r.below(1 << 30))];
    let nulls = *r.pick(&[0, 20, 50]);
    let pool = r.range(1, 5);
    let new = |r: &mut Rng| {
        let n = if r.pct(30) { 0 } else { r.range(1, 5) };
        Op::new("new").set("k", r.below(16)).set("n", n).set("v", r.below(1 << 40)).set("nulls", nulls).set("pool", pool).set("f", r.below(8)).set("al", r.below(2))
    };
    for _ in 0..r.range(1, 3) {
        ops.push(new(&mut r));
    }
    for _ in 0..r.range(2, 14) {
        let a = r.below(8);
        ops.push(match r.below(16) {
            0..=6 => {
                let n = r.below(6);
                let mut op = Op::new(if r.pct(50) { "try" } else { "ext" }).set("a", a).set("n", n).set("v", r.below(1 << 40)).set("nulls", nulls).set("pool", pool);
                if r.pct(25) {
                    op.put("h", r.below(HINTS));
                }
                if r.pct(25) {
                    op.put("dk", r.range(1, 2));
                    op.put("da", r.below(8));
                }
                if r.pct(25) {
                    op.put("p", 1 + r.below(n + 1));
                }
                op
            }
            7 | 8 => Op::new("trunc").set("a", a).set("n", r.below(6)),
            9 | 10 => Op::new("flat").set("a", a).set("c", r.below(8)),
            11 | 12 => Op::new("cmp").set("a", a).set("b", r.below(8)),
            13 => Op::new("share").set("a", a),
            14 => Op::new("drop").set("a", a),
            _ => new(&mut r),
        });
    }
    Scenario { ops }
}

/// Names of the kinds, for descriptions.
#[must_use]
pub fn describe(g: &Group) -> String {
    let mut s = format!("# items {}\n", g.name);
    for (i, k) in g.kinds.iter().enumerate() {
        s.push_str(&format!("# kind {i} {}\n", k.name));
    }
    s
}

// ---------------------------------------------------------------- the world, as the driver sees it

pub struct Rows(&'static [crate::Group]);
impl Rows {
    #[must_use]
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(Box::leak(crate::groups().into_boxed_slice()))
    }
}
impl sim_base::driver::World for Rows {
    fn name(&self) -> &'static str {
        "rows"
    }
    fn generate(&self, _: &str, seed: u64) -> Scenario {
        crate::generate(seed, self.0)
    }
    fn execute(&self, sc: &Scenario, trace: bool) -> Outcome {
        crate::execute(sc, self.0, trace)
    }
    fn describe(&self, sc: &Scenario) -> String {
        crate::describe(&self.0[sc.ops[0].us("ty") % self.0.len()])
    }
}

