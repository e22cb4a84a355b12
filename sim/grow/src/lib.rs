//! The growable world: several arrays of one type, their histories interleaved,
//! producers and storage failing underneath them, against a sequence model.
#![allow(clippy::type_complexity)]
mod types;

use sim_base::alloc::{self, Plan};
use sim_base::dynarr::{DynGrow, Make, ValIter};
use sim_base::feed::{Feed, HINTS};
use sim_base::op::{Op, Outcome, Scenario, Violation, bump};
use sim_base::phys::Noise;
use sim_base::rng::{Hash, Rng};
use sim_base::storage::{SimPanic, clear_handles, handle, handles, reset_handles};
use sim_base::val::{Gen, Shape, Val, gen_vals, show};
use std::any::Any;
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

#[derive(Default)]
struct Slot {
    arr: Option<Box<dyn DynGrow>>,
    model: Vec<Val>,
    id: u64,
    panicked: bool,
    erred: bool,
    hinted: bool,
    busy: bool,
}

struct World {
    slots: Vec<Slot>,
    mk: &'static dyn Make,
    shape: Shape,
    v: Option<Violation>,
    hash: Hash,
    step: usize,
    trace: bool,
    g: Gen,
    /// Items written so far.
    stored: u64,
}
type W = Rc<RefCell<World>>;


/// How a piece of library code ended.
enum End<T> {
    Done(T),
    Feed,
    Storage,
    Own(String),
}

fn run<T>(f: impl FnOnce() -> T) -> End<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => End::Done(t),
        Err(p) => end_of(p),
    }
}
fn end_of<T>(p: Box<dyn Any + Send>) -> End<T> {
    match p.downcast_ref::<SimPanic>() {
        Some(SimPanic::Feed) => End::Feed,
        Some(SimPanic::Storage) => End::Storage,
        None => End::Own(text_of(&p)),
    }
}
fn text_of(p: &Box<dyn Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(ToString::to_string))
        .unwrap_or_else(|| "panic".into())
}

type Finding = (&'static str, String);

/// Properties a finding speaks about, before context.
fn base(kind: &str) -> &'static [&'static str] {
    match kind {
        "contents" => &["C01"],
        "phys-contents" => &["C07", "C01"],
        "phys" | "reasm-rejected" => &["C07"],
        "reasm-panic" => &["C07", "C08"],
        "decode-panic" => &["C07"],
        "query" | "query-panic" => &["C09"],
        "oob" | "oob-panic" => &["C11"],
        "view-absent" | "read-panic" => &["C01", "C11"],
        "alloc-id" | "alloc-foreign" => &["C05"],
        "own-panic" => &["C01"],
        "try-panic" => &["C04", "C01", "C03"],
        "try-storage-panic" => &["C04", "C03"],
        "prefix" => &["C02", "C01"],
        "spurious-err" => &["C04"],
        "exhaustion-accepted" => &["C04", "C12"],
        "retry-failed" => &["C04"],
        "err-changed" => &["C03", "C01"],
        "cap-refused" => &["C12"],
        "cap-failed" => &["C12", "C04"],
        "leak" => &["C03"],
        "heap" => &["C01", "C02", "C03", "C07", "C18"],
        _ => &["C01"],
    }
}

fn verify(slot: &Slot, sim: bool) -> Vec<Finding> {
    let mut out: Vec<Finding> = Vec::new();
    let Some(arr) = &slot.arr else { return out };
    let model = &slot.model;
    let len = model.len();
    let arr: &dyn DynGrow = &**arr;
    match run(|| (arr.len(), arr.is_empty_q())) {
        End::Done((l, e)) => {
            if l != len || e != (len == 0) {
                out.push(("contents", format!("length {l} (empty={e}), history implies {len}")));
            }
        }
        _ => out.push(("read-panic", "len panicked".into())),
    }
    let step = (len / 96).max(1);
    match run(|| {
        for i in (0..len).step_by(step).chain(len.saturating_sub(3)..len) {
            let v = arr.view(i);
            if v.as_ref() != Some(&model[i]) {
                return Some((i, v));
            }
            let o = arr.owned(i);
            if o.as_ref() != Some(&model[i]) {
                return Some((i, o));
            }
        }
        None
    }) {
        End::Done(None) => {}
        End::Done(Some((i, None))) => {
            out.push(("view-absent", format!("item {i} of {len} is absent")));
        }
        End::Done(Some((i, Some(v)))) => {
            out.push(("contents", format!("item {i} reads {v}, history implies {}", model[i])));
        }
        End::Own(p) => out.push(("read-panic", format!("lookup panicked: {p}"))),
        _ => out.push(("read-panic", "lookup raised a caller panic".into())),
    }
    match run(|| drain_check(arr.iter(), model)) {
        End::Done(Ok(())) => {}
        End::Done(Err(m)) => out.push(("contents", format!("borrowed iteration: {m}"))),
        End::Own(p) => out.push(("read-panic", format!("borrowed iteration panicked: {p}"))),
        _ => out.push(("read-panic", "iteration raised a caller panic".into())),
    }
    match run(|| arr.decode()) {
        End::Done(Ok(d)) => {
            if d != *model {
                out.push(("phys-contents", diff("decoding the raw buffers", &d, model)));
            }
        }
        End::Done(Err(m)) => out.push(("phys", m)),
        _ => out.push(("decode-panic", "decoding panicked".into())),
    }
    match run(|| arr.queries()) {
        End::Done(Ok(())) => {}
        End::Done(Err(m)) => out.push(("query", m)),
        End::Own(p) => out.push(("query-panic", format!("a validity query panicked: {p}"))),
        _ => out.push(("query-panic", "query raised a caller panic".into())),
    }
    match run(|| arr.probe()) {
        End::Done(Ok(())) => {}
        End::Done(Err(m)) => out.push(("oob", m)),
        End::Own(p) => out.push(("oob-panic", format!("a lookup panicked: {p}"))),
        _ => out.push(("oob-panic", "lookup raised a caller panic".into())),
    }
    if sim {
        match run(|| (arr.bufs(), arr.alloc_id())) {
            End::Done((bufs, id)) => {
                if id != slot.id {
                    out.push(("alloc-id", format!("array of handle {} reports handle {id}", slot.id)));
                }
                if let Some((i, b)) = bufs.iter().enumerate().find(|(_, b)| b.id != slot.id) {
                    out.push((
                        "alloc-id",
                        format!("buffer {i} of an array of handle {} came from handle {}", slot.id, b.id),
                    ));
                }
            }
            _ => out.push(("read-panic", "buffer access panicked".into())),
        }
    }
    out
}

pub fn diff(what: &str, got: &[Val], want: &[Val]) -> String {
    if got.len() != want.len() {
        return format!("{what} gives {}, history implies {}", show(got), show(want));
    }
    match got.iter().zip(want).position(|(a, b)| a != b) {
        Some(i) => format!("{what}: item {i} is {}, history implies {}", got[i], want[i]),
        None => format!("{what}: equal"),
    }
}

fn drain_check<'a>(mut it: Box<dyn ValIter + 'a>, model: &[Val]) -> Result<(), String> {
    for (i, want) in model.iter().enumerate() {
        let (lo, hi) = it.hint();
        let rem = model.len() - i;
        if lo > rem || hi.is_some_and(|h| h < rem) {
            return Err(format!("size hint ({lo}, {hi:?}) with {rem} items left"));
        }
        match it.next() {
            Some(v) if v == *want => {}
            Some(v) => return Err(format!("item {i} is {v}, history implies {want}")),
            None => return Err(format!("ended after {i} of {} items", model.len())),
        }
    }
    if it.next().is_some() {
        return Err(format!("more than {} items", model.len()));
    }
    Ok(())
}

impl World {
    fn report(&mut self, kind: &'static str, slot: &Slot, hinted: bool, extra: &[&'static str], msg: String) {
        if self.v.is_some() {
            return;
        }
        let mut props: Vec<&'static str> = base(kind).to_vec();
        props.extend_from_slice(extra);
        if !kind.starts_with("alloc") {
            if slot.panicked {
                props.push("C02");
            }
            if slot.erred {
                props.extend(["C03", "C04"]);
            }
            if hinted || slot.hinted {
                props.push("C06");
            }
        }
        props.sort_unstable();
        props.dedup();
        self.v = Some(Violation { kind, props, step: self.step, msg });
    }
}

fn check(w: &W, slot: &Slot, hinted: bool, extra: &[&'static str]) {
    let sim = w.borrow().mk.sim();
    let found = verify(slot, sim);
    if found.is_empty() {
        return;
    }
    let mut w = w.borrow_mut();
    if w.v.is_some() {
        return;
    }
    // Everything that is wrong with this array counts, under one heading.
    let (kind, msg) = found[0].clone();
    w.report(kind, slot, hinted, extra, msg);
    if let Some(v) = w.v.as_mut() {
        for (k, m) in &found[1..] {
            v.props.extend_from_slice(base(k));
            v.msg.push_str(&format!("; also {k}: {m}"));
        }
        v.props.sort_unstable();
        v.props.dedup();
    }
}

fn take(w: &W, i: u64) -> Option<(usize, Slot)> {
    let mut w = w.borrow_mut();
    let i = (i as usize) % w.slots.len();
    if w.slots[i].busy {
        return None;
    }
    let s = std::mem::take(&mut w.slots[i]);
    w.slots[i].busy = true;
    Some((i, s))
}
fn put(w: &W, i: usize, slot: Slot) {
    w.borrow_mut().slots[i] = slot;
}

fn gen_of(w: &World, op: &Op) -> Gen {
    Gen {
        nulls: if op.get("np") == 0 { w.g.nulls } else { op.get("np") - 1 },
        list: if op.get("ml") == 0 { w.g.list } else { op.get("ml") - 1 },
        long: if op.get("ml") == 0 { w.g.long } else { 0 },
    }
}

/// Builds the scripted producer an operation describes.
fn feed_of<'h>(w: &'h W, op: &Op, step: &'h [Op]) -> Feed<'h> {
    let (shape, g) = {
        let w = w.borrow();
        (w.shape.clone(), gen_of(&w, op))
    };
    let vals = gen_vals(&shape, op.us("n"), op.get("v"), g);
    let mut f = Feed::new(vals);
    f.hint = op.get("h") % HINTS;
    if f.hint != 0 {
        bump("input.loose_size_hint");
    }
    if op.get("p") > 0 {
        f.panic_at = Some(op.us("p") - 1);
    }
    f.hint_panic = op.get("hp");
    if op.get("dp") > 0 {
        f.drop_panic = true;
    }
    if op.get("g") > 0 {
        f.ghosts = gen_vals(&shape, op.us("g"), op.get("v") ^ 0x6057, g);
        bump("input.resumes_after_end");
    }
    if op.get("e") > 0 {
        f.endless = true;
        bump("input.endless");
    }
    if let Some(n) = step.first() {
        f.nest = Some((op.us("nt"), Box::new(move || {
            bump("schedule.nested_op");
            // Faults of the interrupted operation do not reach the other one.
            let plans: Vec<Plan> =
                (0..handles()).map(|i| handle(i as u64).0.plan.replace(Plan::new(0, 0))).collect();
            exec(w, n, 1);
            for (i, p) in plans.into_iter().enumerate() {
                handle(i as u64).0.plan.set(p);
            }
        })));
    }
    f
}

/// The nested operation an operation carries, if any.
fn nested(op: &Op) -> Option<Op> {
    let k = match op.get("nk") {
        0 => return None,
        1 => "ext",
        2 => "try",
        3 => "check",
        4 => "trunc",
        5 => "res",
        6 => "drain",
        7 => "new",
        8 => "reasm",
        9 => "pipe",
        _ => "tres",
    };
    let mut n = Op::new(k);
    n.put("s", op.get("s") + 1 + op.get("ns"));
    n.put("d", op.get("s") + 2 + op.get("ns"));
    n.put("n", op.get("nn"));
    n.put("v", op.get("v") ^ 0x99);
    n.put("how", 4 + op.get("nn") % 3);
    Some(n)
}

/// Arms the faults of a fallible (or simulated-storage) operation.
fn arm(w: &W, op: &Op, id: u64, fallible: bool) -> Armed {
    let plan = Plan::new(op.get("dk"), op.get("da"));
    let sim = w.borrow().mk.sim();
    let h = handle(id);
    let armed = Armed { before: h.0.refused.get(), plan: h.0.plan.get() };
    if sim {
        h.0.plan.set(plan);
    } else if fallible && plan.kind != 0 {
        alloc::arm(plan);
    }
    armed
}
/// What to go back to: operations nest, also on one handle.
struct Armed {
    before: u64,
    plan: Plan,
}
/// Disarms; how many requests were refused since `arm`.
fn disarm(w: &W, id: u64, was: Armed) -> u64 {
    let sim = w.borrow().mk.sim();
    let fired = if sim {
        let h = handle(id);
        h.0.plan.set(was.plan);
        h.0.refused.get() - was.before
    } else {
        alloc::disarm()
    };
    if fired > 0 {
        bump("fault.runs_with_refused_storage");
        sim_base::op::bump_by("fault.storage_refused", fired);
    }
    fired
}
fn requests() -> Vec<u64> {
    (0..handles()).map(|i| handle(i as u64).0.requests.get()).collect()
}

const HUGE: [u64; 15] = [
    u64::MAX,
    u64::MAX / 2,
    u64::MAX / 8 + 1,
    i64::MAX as u64,
    u64::MAX / 3 + 1,
    1 << 40,
    u64::MAX - 7,
    // Small once shifted, multiplied or cut.
    1 << 63,
    (1 << 62) + 1,
    (1 << 61) + 2,
    u64::MAX / 5 + 1,
    u64::MAX / 7 + 1,
    u64::MAX / 9 + 2,
    (1 << 35) + 3,
    (1 << 48) + 1,
];

fn fresh_slot(w: &W, id: u64) -> Slot {
    let arr = match run(|| w.borrow().mk.default()) {
        End::Done(a) => Some(a),
        _ => None,
    };
    let _ = id;
    Slot { arr, id: 0, ..Slot::default() }
}

fn exec(w: &W, op: &Op, depth: u32) {
    if w.borrow().v.is_some() {
        return;
    }
    if w.borrow().trace {
        eprintln!("{}op {} {op}", "  ".repeat(depth as usize), w.borrow().step);
    }
    {
        let mut w = w.borrow_mut();
        w.hash.add(op.k.len() as u64 ^ (op.k.as_bytes()[0] as u64) << 8);
        w.hash.add(op.get("s") << 32 ^ op.get("n"));
    }
    bump("events");
    match op.k {
        "check" => {
            let n = w.borrow().slots.len();
            for i in 0..n {
                if let Some((i, s)) = take(w, i as u64) {
                    check(w, &s, false, &[]);
                    put(w, i, s);
                }
            }
        }
        "new" => op_new(w, op, depth),
        "ext" | "try" => op_grow(w, op, depth),
        "res" | "tres" => op_reserve(w, op),
        "trunc" => {
            let Some((i, mut s)) = take(w, op.get("s")) else { return };
            if let Some(a) = s.arr.as_mut() {
                let n = match op.get("hg") {
                    0 if op.get("sh") > 0 => op.us("n") + (1 << (op.get("sh") % 64)),
                    0 => op.us("n"),
                    h => HUGE[(h as usize - 1) % HUGE.len()] as usize,
                };
                match run(|| a.truncate(n)) {
                    End::Done(()) => s.model.truncate(n),
                    End::Own(p) => w.borrow_mut().report("own-panic", &s, false, &[], format!("truncate({n}) panicked: {p}")),
                    _ => w.borrow_mut().report("own-panic", &s, false, &[], "truncate raised a caller panic".into()),
                }
                check(w, &s, false, &[]);
            }
            put(w, i, s);
        }
        "reasm" => {
            let Some((i, mut s)) = take(w, op.get("s")) else { return };
            if let Some(a) = s.arr.take() {
                match run(|| a.reassemble_grow()) {
                    End::Done(Ok(a)) => s.arr = Some(a),
                    End::Done(Err(m)) => w.borrow_mut().report("reasm-rejected", &s, false, &[], m),
                    End::Own(p) => w.borrow_mut().report("reasm-panic", &s, false, &[], format!("reassembly panicked: {p}")),
                    _ => {}
                }
                check(w, &s, false, &["C07"]);
            }
            put(w, i, s);
        }
        "drain" => {
            let Some((i, mut s)) = take(w, op.get("s")) else { return };
            if let Some(a) = s.arr.take() {
                match run(|| drain_check(a.into_read().into_iter(), &s.model)) {
                    End::Done(Ok(())) => {}
                    End::Done(Err(m)) => w.borrow_mut().report("contents", &s, false, &[], format!("owned iteration: {m}")),
                    End::Own(p) => w.borrow_mut().report("read-panic", &s, false, &[], format!("owned iteration panicked: {p}")),
                    _ => {}
                }
                s = fresh_slot(w, s.id);
            }
            put(w, i, s);
        }
        "pipe" => op_pipe(w, op),
        "clone" => {
            let Some((i, s)) = take(w, op.get("s")) else { return };
            if let (Some(a), Some((j, mut d))) = (&s.arr, take(w, op.get("d"))) {
                let mk = w.borrow().mk;
                match run(|| mk.clone_of(a.read())) {
                    End::Done(Some(c)) => {
                        d = Slot {
                            arr: Some(c), model: s.model.clone(), id: s.id, busy: false,
                            panicked: s.panicked, erred: s.erred, hinted: s.hinted,
                        };
                        bump("op.cloned");
                        check(w, &d, false, &[]);
                        check(w, &s, false, &[]);
                    }
                    End::Done(None) => {}
                    End::Own(p) => w.borrow_mut().report("own-panic", &s, false, &[], format!("clone panicked: {p}")),
                    _ => {}
                }
                put(w, j, d);
            }
            put(w, i, s);
        }
        "cap" => op_cap(w, op),
        "drop" => {
            let Some((i, s)) = take(w, op.get("s")) else { return };
            drop(s);
            let f = fresh_slot(w, 0);
            put(w, i, f);
        }
        _ => {}
    }
    let mut wb = w.borrow_mut();
    let lens: Vec<u64> = wb.slots.iter().map(|s| s.model.len() as u64).collect();
    for l in lens {
        wb.hash.add(l);
        wb.stored += l;
    }
}

fn op_new(w: &W, op: &Op, depth: u32) {
    let Some((i, old)) = take(w, op.get("s")) else { return };
    drop(old);
    let sim = w.borrow().mk.sim();
    let how = op.get("how") % 9;
    // Constructors without a handle argument use the default handle.
    let id = if matches!(how, 0 | 1 | 4) { 0 } else { op.get("al") % 4 };
    let fallible = matches!(how, 3 | 6);
    let huge = if op.get("hg") > 0 && how == 3 { HUGE[(op.us("hg") - 1) % HUGE.len()] as usize } else { 0 };
    let n = op.us("n");
    let nest: Vec<Op> = if depth == 0 { nested(op).into_iter().collect() } else { Vec::new() };
    let reqs = if sim && nest.is_empty() { requests() } else { Vec::new() };
    let live0 = alloc::live();
    let mut slot = Slot { id, ..Slot::default() };
    let mut feed_hinted = false;
    let mk = w.borrow().mk;
    let mut items: Vec<Val> = Vec::new();
    let endless;
    let was;
    let end: End<Result<Box<dyn DynGrow>, ()>> = {
        let mut op2 = op.clone();
        if !fallible {
            op2.put("e", 0);
        }
        let mut f = feed_of(w, &op2, &nest);
        endless = f.endless;
        let mut r = if how == 7 || how == 8 { Some(Rng::new(op.get("v"))) } else { None };
        was = arm(w, op, id, fallible);
        let end = run(|| match how {
            0 => Ok(mk.default()),
            1 => Ok(mk.with_capacity(n)),
            2 => Ok(mk.with_capacity_in(n, id)),
            3 => mk.try_with_capacity_in(if huge > 0 { huge } else { n }, id),
            4 => Ok(mk.from_iter(&mut f)),
            5 => Ok(mk.from_iter_in(&mut f, id)),
            6 => mk.try_from_iter_in(&mut f, id),
            _ => {
                let mut noise = Noise {
                    rng: r.as_mut().expect("set above"),
                    offs: op.get("of") > 0,
                    extra: op.get("ex") > 0,
                    absent: op.get("ab") > 0,
                    alloc: id,
                };
                Ok(mk.build(&f.vals, &mut noise))
            }
        });
        feed_hinted |= f.hint != 0 || !f.ghosts.is_empty() || op.get("g") > 0;
        if f.panicked {
            bump("fault.producer_panicked");
        }
        if matches!(how, 4..) && !endless {
            items = std::mem::take(&mut f.vals);
        }
        end
    };
    let fired = disarm(w, id, was);
    let foreign = if reqs.is_empty() {
        None
    } else {
        requests().iter().zip(&reqs).enumerate().position(|(h, (a, b))| a != b && h as u64 != id)
    };
    slot.hinted = feed_hinted;
    let mut failed = false;
    match end {
        End::Done(Ok(a)) => {
            slot.arr = Some(a);
            if endless || huge > 0 {
                w.borrow_mut().report("exhaustion-accepted", &slot, feed_hinted, &[], format!("constructor {how} accepted an impossible request"));
            }
            if how >= 4 {
                slot.model = std::mem::take(&mut items);
            }
            bump("op.constructed");
            w.borrow_mut().hash.add(1);
        }
        End::Done(Err(())) => {
            failed = true;
            bump("op.constructor_err");
            if fired == 0 && huge == 0 && !endless {
                w.borrow_mut().report("spurious-err", &slot, feed_hinted, &[], format!("fallible constructor {how} of {n} items failed although nothing was refused"));
            }
            slot.erred = true;
            w.borrow_mut().hash.add(2);
        }
        End::Feed => {
            failed = true;
            w.borrow_mut().hash.add(3);
        }
        End::Storage if sim && fired > 0 && !fallible => {
            failed = true;
            bump("fault.storage_panicked");
            w.borrow_mut().hash.add(4);
        }
        End::Storage => {
            w.borrow_mut().report("try-storage-panic", &slot, feed_hinted, &[], format!("fallible constructor {how} let a storage refusal panic"));
        }
        End::Own(p) => {
            let kind = if fallible { "try-panic" } else { "own-panic" };
            w.borrow_mut().report(kind, &slot, feed_hinted, &[], format!("constructor {how} panicked: {p}"));
        }
    }
    if failed {
        drop(std::mem::take(&mut items));
        // The failed constructor must not keep anything (producers that did
        // other work may have).
        if nest.is_empty() {
            let left = alloc::live() - live0;
            if left > 0 {
                w.borrow_mut().report("leak", &slot, false, &[], format!("constructor {how} failed and left {left} blocks"));
            }
        }
        let er = slot.erred;
        slot = fresh_slot(w, 0);
        slot.erred = er;
    } else if let Some(h) = foreign {
        w.borrow_mut().report("alloc-foreign", &slot, false, &[], format!("constructing with handle {id} drew from handle {h}"));
    }
    check(w, &slot, feed_hinted, &[]);
    put(w, i, slot);
}

fn op_grow(w: &W, op: &Op, depth: u32) {
    let Some((i, mut slot)) = take(w, op.get("s")) else { return };
    let Some(mut arr) = slot.arr.take() else {
        put(w, i, slot);
        return;
    };
    let sim = w.borrow().mk.sim();
    let fallible = op.k == "try";
    let id = slot.id;
    let nest: Vec<Op> = if depth == 0 { nested(op).into_iter().collect() } else { Vec::new() };
    let reqs = if sim && nest.is_empty() { requests() } else { Vec::new() };
    let was;
    let (end, items, pulled, hinted, endless) = {
        let mut op2 = op.clone();
        if !fallible {
            op2.put("e", 0);
        }
        let mut f = feed_of(w, &op2, &nest);
        let endless = f.endless;
        let mut op3 = op2;
        if endless && op3.get("dk") == 0 {
            op3.put("dk", 4);
            op3.put("da", 4096);
        }
        was = arm(w, &op3, id, fallible);
        let end = run(|| {
            if fallible {
                arr.try_extend(&mut f)
            } else {
                arr.extend(&mut f);
                Ok(())
            }
        });
        if f.panicked {
            bump("fault.producer_panicked");
        }
        let hinted = f.hint != 0 || op.get("g") > 0;
        (end, std::mem::take(&mut f.vals), f.pulled, hinted, endless)
    };
    let fired = disarm(w, id, was);
    slot.arr = Some(arr);
    let foreign = if reqs.is_empty() {
        None
    } else {
        requests().iter().zip(&reqs).enumerate().position(|(h, (a, b))| a != b && h as u64 != id)
    };
    let old = slot.model.len();
    let mut retry = None;
    let mut ctx: Vec<&'static str> = Vec::new();
    match end {
        End::Done(Ok(())) => {
            if endless {
                w.borrow_mut().report("exhaustion-accepted", &slot, hinted, &[], "an endless extension succeeded".into());
            }
            slot.model.extend(items);
            bump(if fired > 0 { "op.extended_despite_refusal" } else { "op.extended" });
            if fired > 0 {
                // A success must have taken every item.
                ctx.push("C03");
            }
            w.borrow_mut().hash.add(1);
        }
        End::Done(Err(())) => {
            bump("op.extend_err");
            slot.erred = true;
            w.borrow_mut().hash.add(2);
            if fired == 0 && !endless {
                w.borrow_mut().report("spurious-err", &slot, hinted, &[], format!("fallible extension by {} items failed although nothing was refused", items.len()));
            }
            ctx.extend(["C03", "C04"]);
            if op.get("rt") > 0 && !endless {
                retry = Some(items);
            }
        }
        end @ (End::Feed | End::Storage) => {
            if matches!(end, End::Storage) {
                bump("fault.storage_panicked");
                if fallible {
                    w.borrow_mut().report("try-storage-panic", &slot, hinted, &[], "a fallible extension let a storage refusal panic".into());
                }
            }
            slot.panicked = true;
            ctx.push("C02");
            let len = run(|| slot.arr.as_ref().map_or(0, |a| a.read().len()));
            w.borrow_mut().hash.add(3);
            match len {
                End::Done(l) if l >= old && l - old <= pulled => {
                    bump(match l - old {
                        0 => "op.panicked_kept_none",
                        k if k == pulled => "op.panicked_kept_all",
                        _ => "op.panicked_kept_some",
                    });
                    slot.model.extend(items.into_iter().take(l - old));
                    w.borrow_mut().hash.add(l as u64);
                }
                End::Done(l) => w.borrow_mut().report("prefix", &slot, hinted, &[], format!("{l} items after a panic; there were {old} and the producer had yielded {pulled}")),
                _ => w.borrow_mut().report("read-panic", &slot, hinted, &[], "len panicked".into()),
            }
        }
        End::Own(p) => {
            let kind = if fallible { "try-panic" } else { "own-panic" };
            let by = if fired > 0 { " while storage was refused" } else { "" };
            let extra: &[&'static str] = if fired > 0 { &["C02"] } else { &[] };
            w.borrow_mut().report(kind, &slot, hinted, extra, format!("{} of {} items panicked{by}: {p}", op.k, items.len()));
        }
    }
    if let Some(h) = foreign {
        w.borrow_mut().report("alloc-foreign", &slot, false, &[], format!("growing an array of handle {id} drew from handle {h}"));
    }
    let was = slot.hinted;
    slot.hinted = was || hinted;
    check(w, &slot, hinted, &ctx);
    if let Some(items) = retry
        && w.borrow().v.is_none()
    {
        let mut f = Feed::new(items);
        let arr = slot.arr.as_mut().expect("kept above");
        bump("op.retried");
        match run(|| arr.try_extend(&mut f)) {
            End::Done(Ok(())) => slot.model.extend(std::mem::take(&mut f.vals)),
            End::Done(Err(())) => w.borrow_mut().report("retry-failed", &slot, hinted, &[], "the retry of a refused extension failed with storage available".into()),
            End::Own(p) => w.borrow_mut().report("retry-failed", &slot, hinted, &[], format!("the retry of a refused extension panicked: {p}")),
            _ => w.borrow_mut().report("retry-failed", &slot, hinted, &[], "the retry of a refused extension let a refusal panic".into()),
        }
        check(w, &slot, hinted, &["C03", "C04"]);
    }
    put(w, i, slot);
}

fn op_reserve(w: &W, op: &Op) {
    let Some((i, mut slot)) = take(w, op.get("s")) else { return };
    let Some(arr) = slot.arr.as_mut() else {
        put(w, i, slot);
        return;
    };
    let sim = w.borrow().mk.sim();
    let fallible = op.k == "tres";
    // The only infallible answer to an impossible request is a panic or abort:
    // exercised where the storage panics instead of aborting.
    let hg = if fallible || sim { op.get("hg") } else { 0 };
    let n = if hg > 0 { HUGE[(hg as usize - 1) % HUGE.len()] as usize } else { op.us("n") };
    let id = slot.id;
    let reqs = if sim { requests() } else { Vec::new() };
    let was = arm(w, op, id, fallible);
    let end = run(|| {
        if fallible {
            arr.try_reserve(n)
        } else {
            arr.reserve(n);
            Ok(())
        }
    });
    let fired = disarm(w, id, was);
    if sim {
        let foreign = requests().iter().zip(&reqs).enumerate().position(|(h, (a, b))| a != b && h as u64 != id);
        if let Some(h) = foreign {
            w.borrow_mut().report("alloc-foreign", &slot, false, &[], format!("reserving in an array of handle {id} drew from handle {h}"));
        }
    }
    let mut ctx: Vec<&'static str> = Vec::new();
    match end {
        End::Done(Ok(())) => {
            bump("op.reserved");
            if hg > 0 {
                w.borrow_mut().report("exhaustion-accepted", &slot, false, &[], format!("a reservation of {n} items succeeded"));
            }
        }
        End::Done(Err(())) => {
            bump("op.reserve_err");
            slot.erred = true;
            ctx.extend(["C03", "C04"]);
            if fired == 0 && hg == 0 {
                w.borrow_mut().report("spurious-err", &slot, false, &[], format!("try_reserve({n}) failed although nothing was refused"));
            }
            if op.get("rt") > 0 && hg == 0 {
                let arr = slot.arr.as_mut().expect("present");
                let again = run(|| arr.try_reserve(n));
                if !matches!(again, End::Done(Ok(()))) {
                    w.borrow_mut().report("retry-failed", &slot, false, &[], format!("retrying try_reserve({n}) failed with storage available"));
                }
                bump("op.retried");
            }
        }
        End::Storage if !fallible && fired > 0 => {
            bump("fault.storage_panicked");
            slot.panicked = true;
            ctx.push("C02");
        }
        End::Own(_) if !fallible && hg > 0 => {
            bump("op.reserve_overflow_panic");
            slot.panicked = true;
        }
        End::Storage if !fallible => {
            // Arithmetic overflow inside the storage itself.
            slot.panicked = true;
        }
        End::Own(p) => {
            let kind = if fallible { "try-panic" } else { "own-panic" };
            w.borrow_mut().report(kind, &slot, false, &[], format!("{}({n}) panicked: {p}", op.k));
        }
        End::Storage | End::Feed => {
            w.borrow_mut().report("try-storage-panic", &slot, false, &[], format!("try_reserve({n}) let a refusal panic"));
        }
    }
    check(w, &slot, false, &ctx);
    put(w, i, slot);
}

/// One array consumed or read as the producer of another.
fn op_pipe(w: &W, op: &Op) {
    let Some((i, mut src)) = take(w, op.get("s")) else { return };
    let Some((j, mut dst)) = take(w, op.get("d")) else {
        put(w, i, src);
        return;
    };
    if let (Some(a), Some(mut b)) = (src.arr.take(), dst.arr.take()) {
        let owned = op.get("ow") > 0;
        let stop = if op.get("p") > 0 { Some(op.us("p") - 1) } else { None };
        let mut pulled = 0usize;
        let mut bad = None;
        let mut a = Some(a);
        let end = {
            let model = &src.model;
            let mut f = Feed::new(model.clone());
            f.hint = op.get("h") % HINTS;
            f.panic_at = stop;
            let mut it: Box<dyn ValIter + '_> = if owned {
                a.take().expect("present").into_read().into_iter()
            } else {
                a.as_ref().expect("present").iter()
            };
            // The producer reads the other array item by item as it is pulled.
            let bad = &mut bad;
            let vals = &f.vals;
            for (k, v) in vals.iter().enumerate() {
                match run(|| it.next()) {
                    End::Done(Some(x)) if x == *v => {}
                    End::Done(x) => {
                        *bad = Some(format!("item {k} of the source reads {x:?}"));
                        break;
                    }
                    _ => {
                        *bad = Some(format!("reading item {k} of the source panicked"));
                        break;
                    }
                }
            }
            let end = run(|| b.extend(&mut f));
            pulled = pulled.max(f.pulled);
            if f.panicked {
                bump("fault.producer_panicked");
            }
            end
        };
        bump("op.piped");
        let old = dst.model.len();
        dst.arr = Some(b);
        dst.hinted |= op.get("h") % HINTS != 0;
        match end {
            End::Done(()) => dst.model.extend(src.model.iter().cloned()),
            End::Feed => {
                dst.panicked = true;
                let l = dst.arr.as_ref().map_or(0, |x| x.read().len());
                if l < old || l - old > pulled {
                    w.borrow_mut().report("prefix", &dst, false, &[], format!("{l} items after a panic; there were {old} and the producer had yielded {pulled}"));
                } else {
                    dst.model.extend(src.model.iter().take(l - old).cloned());
                }
            }
            End::Storage => {}
            End::Own(p) => w.borrow_mut().report("own-panic", &dst, false, &[], format!("extension panicked: {p}")),
        }
        if let Some(m) = bad {
            w.borrow_mut().report("contents", &src, false, &[], m);
        }
        match a {
            Some(a) => src.arr = Some(a),
            None => src = fresh_slot(w, 0),
        }
        check(w, &src, false, &[]);
        check(w, &dst, false, &[]);
    }
    put(w, i, src);
    put(w, j, dst);
}

/// Reserve, then store that much with every further request refused.
fn op_cap(w: &W, op: &Op) {
    let Some((i, mut slot)) = take(w, op.get("s")) else { return };
    let mk = w.borrow().mk;
    let sim = mk.sim();
    let how = op.get("how") % 5;
    let n = op.us("n");
    if how >= 2 {
        slot = Slot { id: if how == 4 { 0 } else { op.get("al") % 4 }, ..Slot::default() };
    }
    let id = slot.id;
    let ok = match how {
        0 | 1 => {
            let Some(a) = slot.arr.as_mut() else {
                put(w, i, slot);
                return;
            };
            run(|| if how == 0 { a.reserve(n); Ok(()) } else { a.try_reserve(n) })
        }
        _ => match run(|| match how {
            2 => Ok(mk.with_capacity_in(n, id)),
            3 => mk.try_with_capacity_in(n, id),
            _ => Ok(mk.with_capacity(n)),
        }) {
            End::Done(Ok(a)) => {
                slot.arr = Some(a);
                End::Done(Ok(()))
            }
            End::Done(Err(())) => End::Done(Err(())),
            End::Feed => End::Feed,
            End::Storage => End::Storage,
            End::Own(p) => End::Own(p),
        },
    };
    match ok {
        End::Done(Ok(())) => {}
        End::Own(p) => w.borrow_mut().report("own-panic", &slot, false, &["C12"], format!("granting capacity {n} panicked: {p}")),
        _ => w.borrow_mut().report("spurious-err", &slot, false, &["C12"], format!("granting capacity {n} failed although nothing was refused")),
    }
    if w.borrow().v.is_none() {
        bump("op.capacity_granted");
        let m = if op.get("m") > 0 { op.us("m").min(n) } else { n };
        let calls = op.us("c").clamp(1, 6);
        let (shape, nulls) = {
            let w = w.borrow();
            (w.shape.clone(), gen_of(&w, op).nulls)
        };
        let all = gen_vals(&shape, m, op.get("v"), Gen { nulls, list: 1, long: 0 });
        let mut at = 0;
        for c in 0..calls {
            let end = if c + 1 == calls { m } else { at + (m - at) / (calls - c) };
            let part = all[at..end].to_vec();
            at = end;
            // Dropping items hands nothing back.
            if op.get("tr") >> (c * 8) & 1 == 1 {
                let to = slot.model.len() * (op.get("tr") >> (c * 8) & 255) as usize / 256;
                let arr = slot.arr.as_mut().expect("granted above");
                if let End::Own(p) = run(|| arr.truncate(to)) {
                    w.borrow_mut().report("own-panic", &slot, false, &[], format!("truncate({to}) panicked: {p}"));
                    break;
                }
                slot.model.truncate(to);
                bump("op.truncate_within_grant");
            }
            let fallible = op.get("x") >> c & 1 == 1;
            let mut f = Feed::new(part.clone());
            f.hint = if op.get("h") > 0 { (op.get("h") + c as u64) % HINTS } else { 0 };
            let arr = slot.arr.as_mut().expect("granted above");
            let before = handle(id).0.refused.get();
            if sim {
                handle(id).0.plan.set(Plan::new(5, 0));
            } else {
                alloc::watch();
            }
            let end = run(|| if fallible { arr.try_extend(&mut f) } else { arr.extend(&mut f); Ok(()) });
            let (kept, grown) = if sim { (0, 0) } else { alloc::unwatch() };
            let hinted = f.hint != 0;
            drop(f);
            if sim {
                handle(id).0.plan.set(Plan::new(0, 0));
            }
            let refused = handle(id).0.refused.get() - before;
            let say = |what: &str| format!("after a grant of {n} (way {how}), storing items {}..{end_} of {m} {what}", at - part.len(), end_ = at);
            match end {
                End::Done(Ok(())) if kept > 0 || grown > 0 => {
                    w.borrow_mut().report("cap-refused", &slot, false, &[], say(&format!("acquired {kept} and grew {grown} blocks")));
                }
                End::Done(Ok(())) => {
                    bump("fault.all_storage_denied_within_grant");
                    if refused > 0 {
                        bump("probe.refused_yet_stored_within_grant");
                    }
                }
                End::Done(Err(())) => w.borrow_mut().report("cap-failed", &slot, false, &[], say("was refused")),
                End::Storage => w.borrow_mut().report("cap-failed", &slot, false, &[], say("needed more storage")),
                End::Own(p) => w.borrow_mut().report("own-panic", &slot, false, &["C12"], say(&format!("panicked: {p}"))),
                End::Feed => {}
            }
            if w.borrow().v.is_some() {
                break;
            }
            slot.hinted |= hinted;
            slot.model.extend(part);
            check(w, &slot, hinted, &["C12"]);
        }
    }
    if slot.arr.is_none() {
        slot = fresh_slot(w, 0);
    }
    put(w, i, slot);
}

/// Runs one scenario.
pub fn execute(sc: &Scenario, mk: &'static dyn Make, trace: bool) -> Outcome {
    let cfg = &sc.ops[0];
    let live0 = alloc::live();
    let pol = cfg.get("pol");
    reset_handles(&[pol & 3, pol >> 2 & 3, pol >> 4 & 3, pol >> 6 & 3]);
    let w: W = Rc::new(RefCell::new(World {
        slots: Vec::new(),
        mk,
        shape: mk.shape(),
        v: None,
        hash: Hash::default(),
        step: 0,
        trace,
        g: Gen { nulls: cfg.get("np"), list: cfg.get("ml"), long: cfg.get("lg") },
        stored: 0,
    }));
    for _ in 0..cfg.us("sl").clamp(1, 4) {
        let s = fresh_slot(&w, 0);
        w.borrow_mut().slots.push(s);
    }
    let mut events = 0;
    for (k, op) in sc.ops.iter().enumerate().skip(1) {
        w.borrow_mut().step = k;
        exec(&w, op, 0);
        events += 1;
        if w.borrow().v.is_some() {
            break;
        }
        // Other arrays must not have been disturbed.
        if k % 4 == 0 || k + 1 == sc.ops.len() {
            exec(&w, &Op::new("check"), 0);
        }
    }
    if w.borrow().v.is_none() {
        w.borrow_mut().step = sc.ops.len();
        exec(&w, &Op::new("check"), 0);
        let n = w.borrow().slots.len();
        for i in 0..n {
            exec(&w, &Op::new("drain").set("s", i as u64), 0);
        }
    }
    let hash = w.borrow().hash.0;
    let nontrivial = w.borrow().stored > 1;
    let mut v = w.borrow_mut().v.take();
    drop(w);
    clear_handles();
    let corrupt = alloc::corruption();
    if corrupt > 0 && v.is_none() {
        v = Some(Violation { kind: "heap", props: base("heap").to_vec(), step: sc.ops.len(), msg: format!("{corrupt} heap violations (double free, foreign free or write after free)") });
    }
    if v.is_none() {
        let left = alloc::live() - live0;
        // What a panicking destructor costs is up to rustc, see `drop_panic`.
        if left != 0 && sc.ops.iter().all(|o| o.get("dp") == 0) {
            v = Some(Violation { kind: "leak", props: vec!["C01", "C03"], step: sc.ops.len(), msg: format!("{left} blocks left after everything was dropped") });
        }
    }
    Outcome { v, hash, events, nontrivial }
}

// ---------------------------------------------------------------- generation

/// What a property's workload leans towards.
struct Lean {
    feed_panic: u64,
    deny: u64,
    hint: u64,
    ghost: u64,
    nest: u64,
    cap: u64,
    huge: u64,
    build: u64,
    try_share: u64,
}

pub fn generate(prop: &str, seed: u64, types: &[Box<dyn Make>]) -> Scenario {
    let mut r = Rng::new(seed);
    let mut lean = Lean { feed_panic: 12, deny: 15, hint: 25, ghost: 12, nest: 15, cap: 5, huge: 3, build: 25, try_share: 45 };
    let mut only_sim = 50;
    let mut only_null = 0;
    match prop {
        "C01" => { lean.nest = 30; lean.feed_panic = 8; lean.deny = 10; }
        "C02" => { lean.feed_panic = 55; lean.deny = 35; lean.try_share = 30; }
        "C03" => { lean.deny = 60; lean.try_share = 90; lean.feed_panic = 5; }
        "C04" => { lean.deny = 50; lean.try_share = 95; lean.huge = 25; lean.feed_panic = 3; }
        "C05" => { only_sim = 100; lean.deny = 20; }
        "C06" => { lean.hint = 80; lean.ghost = 50; lean.feed_panic = 3; lean.deny = 3; }
        "C07" => { lean.feed_panic = 20; lean.deny = 20; lean.build = 40; }
        "C09" => { only_null = 80; lean.build = 50; }
        "C11" => { lean.feed_panic = 20; lean.build = 50; }
        "C12" => { lean.cap = 55; lean.deny = 5; lean.feed_panic = 8; lean.build = 30; }
        _ => {}
    }
    // Fault kinds are switched per run, so that quiet runs exist too.
    let on = |r: &mut Rng, x: u64, keep: u64| if r.pct(keep) { x } else { 0 };
    lean.feed_panic = on(&mut r, lean.feed_panic, 75);
    lean.deny = on(&mut r, lean.deny, 80);
    lean.ghost = on(&mut r, lean.ghost, 70);
    lean.hint = on(&mut r, lean.hint, 80);
    lean.nest = on(&mut r, lean.nest, 70);
    let want_sim = r.pct(only_sim.min(100)) || only_sim == 100;
    let want_null = r.pct(only_null);
    let pool: Vec<usize> = (0..types.len())
        .filter(|i| types[*i].sim() == want_sim && (!want_null || types[*i].shape().nullable_anywhere()))
        .collect();
    let ty = *r.pick(&pool);
    let sim = types[ty].sim();
    let slots = r.range(1, 3);
    let large = r.pct(12);
    let mut cfg = Op::new("grow")
        .set("ty", ty as u64)
        .set("sl", slots)
        .set("pol", r.below(256))
        .set("np", *r.pick(&[0, 5, 30, 50, 90, 100]))
        .set("ml", *r.pick(&[0, 1, 2, 3, 4, 9]));
    if large {
        cfg.put("ml", r.below(3));
    }
    let vast = large && types[ty].shape().leaves() <= 8 && r.pct(2);
    cfg.put("lg", if vast { 0 } else if large { r.below(2) } else { *r.pick(&[0, 0, 5, 20]) });
    let mut ops = vec![cfg];
    let steps = if vast { r.range(1, 4) } else if large { r.range(1, 6) } else { r.range(2, 14) };
    let len_of = |r: &mut Rng| -> u64 {
        if vast && r.pct(60) {
            let w = *r.pick(&[1, 1, 1, 2, 3]);
            return 65_536 / w + r.below(9) - 4;
        }
        if large && r.pct(70) {
            let w = *r.pick(&[1, 1, 1, 2, 3, 5, 8]);
            let base = *r.pick(&[1024, 1024, 2048, 512, 3072]) / w;
            return (base + r.below(7)).saturating_sub(3);
        }
        match r.below(10) {
            0..=4 => r.below(7),
            5..=7 => (*r.pick(&[8, 8, 16, 24, 32, 40, 64, 72]) + r.below(3)).saturating_sub(1),
            8 => r.below(30),
            _ => r.below(200),
        }
    };
    let fault = |r: &mut Rng, op: &mut Op, n: u64, lean: &Lean, can_deny: bool| {
        if r.pct(lean.hint) {
            op.put("h", r.below(HINTS));
        }
        if r.pct(lean.ghost) {
            op.put("g", r.range(1, 9));
        }
        if r.pct(lean.feed_panic) {
            if r.pct(4) {
                op.put("hp", if r.pct(50) { 1 } else { r.range(2, 6) });
            } else if op.k != "new" && r.pct(9) {
                op.put("dp", 1);
            } else {
                let at = if r.pct(25) { n } else { r.below(n + 1) };
                op.put("p", at + 1);
            }
        }
        if can_deny && r.pct(lean.deny) {
            deny(r, op, n);
        }
        if r.pct(lean.nest) {
            op.put("nk", r.range(1, 10));
            op.put("nt", r.below(n + 1));
            op.put("ns", r.below(2));
            op.put("nn", r.below(12));
        }
    };
    for _ in 0..steps {
        let s = r.below(slots);
        let v = r.below(1 << 40);
        if r.pct(lean.cap) {
            let mut op = Op::new("cap").set("s", s).set("v", v).set("n", len_of(&mut r)).set("how", r.below(5));
            op.put("c", r.range(1, 4));
            op.put("x", r.below(16));
            op.put("al", r.below(4));
            if r.pct(40) {
                op.put("h", r.below(HINTS));
            }
            if r.pct(30) {
                op.put("m", r.below(op.get("n") + 1));
            }
            if r.pct(25) {
                op.put("tr", r.below(1 << 40));
            }
            ops.push(op);
            continue;
        }
        let op = match r.below(100) {
            0..=17 => {
                let mut op = Op::new("new").set("s", s).set("v", v);
                let build = r.pct(lean.build);
                let how = if build {
                    7
                } else if r.pct(lean.try_share) {
                    *r.pick(&[3, 6, 6, 6])
                } else {
                    *r.pick(&[0, 1, 2, 4, 4, 5, 5])
                };
                let n = len_of(&mut r);
                op.put("n", n);
                op.put("how", how);
                op.put("al", r.below(4));
                if build {
                    op.put("of", u64::from(r.pct(60)));
                    op.put("ex", u64::from(r.pct(60)));
                    op.put("ab", u64::from(r.pct(50)));
                } else {
                    fault(&mut r, &mut op, n, &lean, sim || matches!(how, 3 | 6));
                }
                if how == 3 && r.pct(lean.huge) {
                    op.put("hg", r.range(1, HUGE.len() as u64));
                }
                if how == 6 && r.pct(lean.huge) {
                    op.put("e", 1);
                    op.put("dk", 4);
                    op.put("da", r.below(5000));
                    if op.get("n") == 0 {
                        op.put("n", 3);
                    }
                    op.put("p", 0);
                    op.put("hp", 0);
                    op.put("dp", 0);
                }
                op
            }
            18..=62 => {
                let fallible = r.pct(lean.try_share);
                let n = len_of(&mut r);
                let mut op = Op::new(if fallible { "try" } else { "ext" }).set("s", s).set("v", v).set("n", n);
                fault(&mut r, &mut op, n, &lean, sim || fallible);
                if fallible && op.get("dk") > 0 && r.pct(60) {
                    op.put("rt", 1);
                }
                if fallible && r.pct(lean.huge) {
                    op.put("e", 1);
                    op.put("dk", 4);
                    op.put("da", r.below(5000));
                    if n == 0 {
                        op.put("n", 3);
                    }
                    op.put("p", 0);
                    op.put("hp", 0);
                    op.put("dp", 0);
                    op.put("rt", 0);
                }
                op
            }
            63..=71 => {
                let fallible = r.pct(lean.try_share);
                let n = len_of(&mut r);
                let mut op = Op::new(if fallible { "tres" } else { "res" }).set("s", s).set("n", n);
                if (fallible || sim) && r.pct(lean.deny) {
                    deny(&mut r, &mut op, n);
                    if r.pct(50) {
                        op.put("rt", u64::from(fallible));
                    }
                }
                if r.pct(lean.huge * 2) {
                    op.put("hg", r.range(1, HUGE.len() as u64));
                }
                op
            }
            72..=83 => {
                let mut op = Op::new("trunc").set("s", s).set("n", len_of(&mut r) / r.range(1, 3));
                if r.pct(3) {
                    op.put("hg", r.range(1, HUGE.len() as u64));
                } else if r.pct(2) {
                    op.put("sh", *r.pick(&[8, 16, 31, 32, 33, 48, 59, 60, 61, 62, 63]));
                }
                op
            }
            84..=88 => Op::new("reasm").set("s", s),
            89..=90 => Op::new("drain").set("s", s),
            91..=94 => {
                let mut op = Op::new("pipe").set("s", s).set("d", s + 1 + r.below(2)).set("ow", r.below(2)).set("h", r.below(HINTS));
                if r.pct(lean.feed_panic) {
                    op.put("p", r.below(12) + 1);
                }
                op
            }
            95..=97 => Op::new("clone").set("s", s).set("d", s + 1),
            _ => Op::new("drop").set("s", s),
        };
        ops.push(op);
    }
    Scenario { ops }
}

fn deny(r: &mut Rng, op: &mut Op, n: u64) {
    let (k, a) = match r.below(10) {
        0..=4 => (1, r.below(if n > 300 { 12 } else { 6 })),
        5..=6 => (2, r.below(6)),
        7 => (3, 1 << r.below(14)),
        8 => {
            let b = r.range(3, 14);
            (4, r.below(1 << b))
        }
        _ => (5, 0),
    };
    op.put("dk", k);
    op.put("da", a);
}

// ---------------------------------------------------------------- the world, as the driver sees it

pub struct Grow(&'static [Box<dyn Make>]);
impl Grow {
    #[must_use]
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(Box::leak(types::growables().into_boxed_slice()))
    }
}
impl sim_base::driver::World for Grow {
    fn name(&self) -> &'static str {
        "grow"
    }
    fn generate(&self, prop: &str, seed: u64) -> Scenario {
        crate::generate(prop, seed, self.0)
    }
    fn execute(&self, sc: &Scenario, trace: bool) -> Outcome {
        crate::execute(sc, &*self.0[sc.ops[0].us("ty") % self.0.len()], trace)
    }
    fn describe(&self, sc: &Scenario) -> String {
        format!("# type {}\n", self.0[sc.ops[0].us("ty") % self.0.len()].name())
    }
}

