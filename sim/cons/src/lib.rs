//! Arrays whose storage is created once and cannot grow: every way of
//! constructing them, from producers and under storage that misbehave.
#![allow(clippy::type_complexity)]

use sim_base::alloc::{self, Pause, Plan};
use sim_base::dynarr::{DynRead, Holder, Sel};
use sim_base::feed::{Feed, FeedIter, HINTS};
use sim_base::op::{Op, Outcome, Scenario, Violation, bump};
use sim_base::phys::Phys;
use sim_base::rng::{Hash, Rng};
use sim_base::storage::{SimFix, SimFixBuffer, SimPanic, clear_handles, handle, reset_handles};
use sim_base::val::{Gen, Item, Shape, Val, gen_vals, show};
use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::BoxBuffer,
    collection::{CollectionAlloc, CollectionAllocIn, flatten::Flatten},
    fixed_size::FixedSizeArray,
};
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};

type Made = Result<Box<dyn DynRead>, ()>;
pub struct Ty {
    pub name: &'static str,
    shape: Shape,
    sim: bool,
    make: fn(u64, &mut Feed<'_>, u64) -> Made,
    empty: fn(u64, usize, u64) -> Made,
}
fn boxed<C: Phys>(c: C) -> Box<dyn DynRead> {
    let _p = Pause::new();
    Box::new(Holder(c))
}
fn ty<C: Phys + CollectionAlloc + CollectionAllocIn<Alloc: Sel>>(name: &'static str, sim: bool) -> Ty {
    Ty {
        name,
        shape: <C::Owned as Item>::shape(),
        sim,
        make: |how, f, id| {
            let it = FeedIter::<C::Owned>::new(f);
            match how {
                0 => Ok(boxed(it.collect::<C>())),
                1 => Ok(boxed(C::from_iter_in(it, Sel::sel(id)))),
                _ => C::try_from_iter_in(it, Sel::sel(id)).map(boxed).map_err(|_| ()),
            }
        },
        empty: |how, n, id| match how {
            0 => Ok(boxed(C::default())),
            1 => Ok(boxed(<C as CollectionAlloc>::with_capacity(n))),
            2 => Ok(boxed(C::with_capacity_in(n, Sel::sel(id)))),
            _ => C::try_with_capacity_in(n, Sel::sel(id)).map(boxed).map_err(|_| ()),
        },
    }
}
#[must_use]
pub fn types() -> Vec<Ty> {
    type FA = FixedSizeArray<u16, 3>;
    let mut v = Vec::new();
    macro_rules! add { ($sim:expr; $($t:ty),* $(,)?) => { $( v.push(ty::<$t>(stringify!($t), $sim)); )* }; }
    add!(false;
        Array<u8, BoxBuffer>, Array<u32, BoxBuffer>, Array<f64, BoxBuffer>, Array<u128, BoxBuffer>, Array<FA, BoxBuffer>,
        Array<bool, BoxBuffer>, Array<[u8; 3], BoxBuffer>, Array<[bool; 3], BoxBuffer>, Array<[bool; 8], BoxBuffer>,
        Array<[[u16; 2]; 3], BoxBuffer>, Array<[[bool; 3]; 2], BoxBuffer>,
        Box<[u64]>, Box<[bool]>, Box<[Vec<u8>]>, Bitmap<BoxBuffer>, Flatten<Box<[u16]>, 3>, Flatten<Bitmap<BoxBuffer>, 5>);
    add!(true;
        Array<u16, SimFixBuffer>, Array<u64, SimFixBuffer>, Array<bool, SimFixBuffer>, Array<[u8; 3], SimFixBuffer>,
        Array<[bool; 5], SimFixBuffer>, Array<[[bool; 2]; 2], SimFixBuffer>, Bitmap<SimFixBuffer>, SimFix<u32>, Flatten<SimFix<u8>, 4>);
    v
}

struct World<'t> {
    ty: &'t Ty,
    made: Vec<(Box<dyn DynRead>, Vec<Val>, u64)>,
    bad: Option<(&'static str, Vec<&'static str>, String)>,
    hash: Hash,
    g: Gen,
}
impl World<'_> {
    fn fail(&mut self, kind: &'static str, props: &[&'static str], msg: String) {
        if self.bad.is_none() {
            self.bad = Some((kind, props.to_vec(), msg));
        }
    }
    fn check(&mut self, at: usize, extra: &[&'static str]) {
        let (a, vals, id) = &self.made[at];
        let mut props = vec!["C01"];
        props.extend(extra);
        let items = || -> Result<(), (&'static str, Vec<&'static str>, String)> {
            if a.len() != vals.len() || a.is_empty_q() != vals.is_empty() {
                return Err(("contents", props.clone(), format!("length {}, written {}", a.len(), show(vals))));
            }
            let mut it = a.iter();
            let mut got = Vec::new();
            while let Some(v) = it.next() {
                got.push(v);
            }
            if got != *vals {
                return Err(("contents", props.clone(), format!("reads {}, written {}", show(&got), show(vals))));
            }
            for (i, v) in vals.iter().enumerate() {
                if a.view(i).as_ref() != Some(v) || a.owned(i).as_ref() != Some(v) {
                    return Err(("contents", props.clone(), format!("item {i} reads {:?}, written {v}", a.view(i))));
                }
            }
            a.probe().map_err(|m| ("probe", vec!["C11"], m))?;
            a.queries().map_err(|m| ("queries", vec!["C09"], m))?;
            let d = a.decode().map_err(|m| ("phys", vec!["C07"], m))?;
            if d != *vals {
                return Err(("phys-contents", vec!["C07", "C01"], format!("buffers hold {}, written {}", show(&d), show(vals))));
            }
            if self.ty.sim && a.bufs().iter().any(|b| b.id != *id) {
                return Err(("alloc-foreign", vec!["C05"], format!("created with handle {id}, buffers {:?}", a.bufs())));
            }
            Ok(())
        };
        let r = items();
        if let Err((k, p, m)) = r {
            self.fail(k, &p, m);
        }
    }
}

fn make(w: &RefCell<World<'_>>, op: &Op, depth: u32) {
    let (ty, g) = {
        let w = w.borrow();
        (w.ty, w.g)
    };
    let how = op.get("how");
    let id = if how % 10 == 0 || how == 11 { 0 } else { op.get("al") % 2 };
    let plan = Plan::new(op.get("dk"), op.get("da"));
    let fallible = how == 2 || how == 13;
    let live = alloc::live();
    let kept = w.borrow().made.len();
    let others = handle(1 - id).0.requests.get();
    let refused0 = handle(id).0.refused.get();
    let mut vals = if how < 10 { gen_vals(&ty.shape, op.us("n"), op.get("v"), g) } else { Vec::new() };
    let mut f = Feed::new(vals.clone());
    f.hint = op.get("h") % HINTS;
    if op.get("g") > 0 {
        f.ghosts = gen_vals(&ty.shape, op.us("g"), op.get("v") ^ 1, g);
    }
    if op.get("p") > 0 {
        f.panic_at = Some(op.us("p") - 1);
    }
    f.hint_panic = op.get("hp");
    let endless = op.get("inf") > 0 && how == 2 && plan.kind != 0;
    if endless {
        // Whatever the plan was, the supply ends.
        f.endless = true;
        f.hint = op.get("h") % 2;
    }
    let inner = (op.get("ns") > 0 && depth < 2).then(|| {
        op.clone().set("ns", 0).set("how", op.get("nh") % 3).set("n", op.get("nn")).set("v", op.get("v") ^ 0x55).set("dk", 0).set("p", 0).set("hp", 0).set("inf", 0).set("al", op.get("al") ^ 1)
    });
    let nested = inner.is_some();
    if let Some(i) = inner {
        f.nest = Some((op.us("ns") - 1, Box::new(move || make(w, &i, depth + 1))));
    }
    let n = match op.get("hg") {
        0 => op.us("n"),
        1 => usize::MAX,
        2 => usize::MAX / 2,
        3 => usize::MAX / 3 + 1,
        _ => 1 << 62,
    };
    let prior = handle(id).0.plan.replace(if ty.sim { plan } else { Plan::new(0, 0) });
    if !ty.sim && fallible {
        alloc::arm(plan);
    }
    let end = catch_unwind(AssertUnwindSafe(|| if how < 10 { (ty.make)(how, &mut f, id) } else { (ty.empty)(how - 10, n, id) }));
    let mut refused = alloc::disarm();
    handle(id).0.plan.set(prior);
    refused += handle(id).0.refused.get() - refused0;
    let (panicked, ghosts, hinted) = (f.panicked, op.get("g") > 0, op.get("h") > 0);
    drop(f);
    if refused > 0 {
        bump("fault.storage_refused");
    }
    if panicked {
        bump("fault.producer_panicked");
    }
    if ghosts {
        bump("input.resumable_producer");
    }
    if nested {
        bump("schedule.nested_construction");
    }
    let mut w = w.borrow_mut();
    w.hash.add(how << 8 | u64::from(refused > 0) << 1 | u64::from(panicked));
    if ty.sim && !nested && handle(1 - id).0.requests.get() != others {
        w.fail("alloc-foreign", &["C05"], format!("created with handle {id}, but handle {} was asked", 1 - id));
    }
    match end {
        Ok(Ok(a)) => {
            w.made.push((a, std::mem::take(&mut vals), id));
            let at = w.made.len() - 1;
            if endless {
                w.fail("endless", &["C04"], "a constructor returned from an endless producer".into());
            }
            if how >= 10 && op.get("hg") > 0 && how > 10 {
                w.fail("exhaustion-accepted", &["C04"], format!("a capacity of {n} items was granted"));
            }
            let mut extra = Vec::new();
            if ghosts || hinted {
                extra.push("C06");
            }
            if refused > 0 {
                extra.extend(["C03", "C04"]);
            }
            w.check(at, &extra);
            bump("op.construct");
        }
        Ok(Err(())) => {
            bump("fault.construction_refused");
            if refused == 0 && op.get("hg") == 0 && !endless {
                w.fail("spurious-err", &["C04", "C06"], format!("constructing from {} items failed although nothing was refused", op.us("n")));
            }
        }
        Err(p) => {
            let sim = p.downcast_ref::<SimPanic>().copied();
            let expected = match sim {
                Some(SimPanic::Feed) => panicked,
                Some(SimPanic::Storage) => !fallible && refused > 0,
                None => !fallible && op.get("hg") > 0,
            };
            if !expected {
                w.fail("own-panic", if fallible { &["C04"] } else { &["C01"] }, format!("construction {how} panicked ({sim:?}, {refused} refused)"));
            }
        }
    }
    drop(vals);
    // Nothing made, nothing held (nested constructions may have been kept).
    let new = w.made.len() - kept;
    if new == 0 && !nested {
        let left = alloc::live() - live;
        if left > 0 {
            w.fail("leak", if panicked { &["C02"] } else { &["C03"] }, format!("construction {how} made nothing and left {left} blocks"));
        }
    }
}

pub fn execute(sc: &Scenario, types: &[Ty], trace: bool) -> Outcome {
    let cfg = &sc.ops[0];
    let ty = &types[cfg.us("ty") % types.len()];
    reset_handles(&[cfg.get("pol") & 3, cfg.get("pol") >> 2 & 3]);
    let w = RefCell::new(World { ty, made: Vec::with_capacity(64), bad: None, hash: Hash::default(), g: Gen { nulls: cfg.get("np"), list: 4, long: 10 } });
    w.borrow_mut().hash.add(cfg.get("ty"));
    let mut v = None;
    let mut events = 0;
    let mut stored = 0;
    for (step, op) in sc.ops.iter().enumerate().skip(1) {
        if trace {
            eprintln!("op {step} {op}");
        }
        events += 1;
        bump("events");
        let r = catch_unwind(AssertUnwindSafe(|| match op.k {
            "make" => make(&w, op, 0),
            "drop" => {
                let mut w = w.borrow_mut();
                if !w.made.is_empty() {
                    let at = op.us("a") % w.made.len();
                    drop(w.made.swap_remove(at));
                    bump("op.drop_array");
                }
            }
            "again" => {
                let mut w = w.borrow_mut();
                if !w.made.is_empty() {
                    let at = op.us("a") % w.made.len();
                    let (a, vals, id) = w.made.swap_remove(at);
                    match a.reassemble() {
                        Ok(a) => w.made.push((a, vals, id)),
                        Err(m) => w.fail("reasm-rejected", &["C07"], m),
                    }
                    bump("op.reassemble");
                }
            }
            _ => {
                let mut w = w.borrow_mut();
                if !w.made.is_empty() {
                    let at = op.us("a") % w.made.len();
                    let (a, vals, _) = w.made.swap_remove(at);
                    let mut it = a.into_iter();
                    let (lo, hi) = it.hint();
                    let mut got = Vec::new();
                    while let Some(v) = it.next() {
                        got.push(v);
                    }
                    if got != vals || lo != vals.len() || hi != Some(lo) {
                        w.fail("contents", &["C01", "C10"], format!("owned iteration gives {}, written {}, estimate {lo} {hi:?}", show(&got), show(&vals)));
                    }
                    bump("op.into_iter");
                }
            }
        }));
        if r.is_err() {
            w.borrow_mut().fail("panic", &["C01"], format!("{} panicked", op.k));
        }
        let mut w = w.borrow_mut();
        for at in 0..w.made.len() {
            w.check(at, &[]);
        }
        let lens: usize = w.made.iter().map(|m| m.1.len()).sum();
        stored = stored.max(lens);
        w.hash.add(lens as u64);
        if let Some((kind, props, msg)) = w.bad.take() {
            v = Some(Violation { kind, props, step, msg });
            break;
        }
    }
    let w = w.into_inner();
    let hash = w.hash.0;
    drop(w);
    clear_handles();
    if v.is_none() && alloc::corruption() != 0 {
        v = Some(Violation { kind: "heap", props: vec!["C01", "C03"], step: sc.ops.len(), msg: "heap violations".into() });
    }
    Outcome { v, hash, events, nontrivial: stored >= 2 }
}

pub fn generate(prop: &str, seed: u64, types: &[Ty]) -> Scenario {
    let mut r = Rng::new(seed);
    let mut ops = vec![Op::new("cons").set("ty", r.below(types.len() as u64)).set("pol", r.below(16)).set("np", *r.pick(&[0, 30]))];
    for _ in 0..r.range(1, 7) {
        ops.push(match r.below(12) {
            0..=6 => {
                let n = match r.below(12) {
                    0 => 0,
                    1..=6 => r.below(12),
                    7 => r.range(60, 70),
                    8 => r.range(1000, 1100),
                    _ => r.below(40),
                };
                let how = if ["C03", "C04"].contains(&prop) && r.pct(60) { 2 } else { r.below(3) };
                let mut op = Op::new("make").set("how", how).set("n", n).set("v", r.below(1 << 40)).set("al", r.below(2));
                if r.pct(50) {
                    op.put("h", r.below(HINTS));
                }
                if r.pct(25) {
                    op.put("g", r.range(1, 12));
                }
                if r.pct(40) {
                    op.put("dk", r.range(1, 5));
                    op.put("da", if op.get("dk") <= 2 { r.below(8) } else { r.below(2000) });
                }
                if r.pct(15) {
                    op.put("p", 1 + r.below(n + 1));
                }
                if r.pct(3) {
                    op.put("hp", r.range(1, 3));
                }
                if r.pct(15) {
                    op.put("ns", 1 + r.below(n + 1));
                    op.put("nh", r.below(3));
                    op.put("nn", r.below(20));
                }
                if n > 0 && how == 2 && r.pct(4) {
                    op.put("inf", 1);
                    op.put("dk", 4);
                    op.put("da", r.below(1 << 14));
                }
                op
            }
            7 | 8 => {
                let mut op = Op::new("make").set("how", 10 + r.below(4)).set("n", r.below(40)).set("al", r.below(2));
                if r.pct(30) && op.get("how") == 13 {
                    op.put("hg", r.range(1, 4));
                } else if r.pct(40) {
                    op.put("dk", r.range(1, 5));
                    op.put("da", r.below(300));
                }
                op
            }
            9 => Op::new("drop").set("a", r.below(8)),
            10 => Op::new("again").set("a", r.below(8)),
            _ => Op::new("into").set("a", r.below(8)),
        });
    }
    Scenario { ops }
}

// ---------------------------------------------------------------- the world, as the driver sees it

pub struct Cons(&'static [crate::Ty]);
impl Cons {
    #[must_use]
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(Box::leak(crate::types().into_boxed_slice()))
    }
}
impl sim_base::driver::World for Cons {
    fn name(&self) -> &'static str {
        "cons"
    }
    fn generate(&self, prop: &str, seed: u64) -> Scenario {
        crate::generate(prop, seed, self.0)
    }
    fn execute(&self, sc: &Scenario, trace: bool) -> Outcome {
        crate::execute(sc, self.0, trace)
    }
    fn describe(&self, sc: &Scenario) -> String {
        format!("# type {}\n", self.0[sc.ops[0].us("ty") % self.0.len()].name)
    }
}
