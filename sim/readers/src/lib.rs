//! Many readers over shared and separate arrays, advanced in an interleaving
//! the scheduler decides and dropped at any point.
#![allow(clippy::type_complexity)]

use sim_base::alloc;
use sim_base::dynarr::{DynRead, Holder, ValIter};
use sim_base::op::{Op, Outcome, Scenario, Violation, bump};
use sim_base::phys::{Noise, Phys, alias, beyond, clear_arena};
use sim_base::rng::{Hash, Rng, many, mix2};
use sim_base::storage::{SimBuffer, clear_handles, reset_handles};
use sim_base::val::{Gen, Item, Shape, Val, gen_vals, show};
use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer},
    collection::flatten::Flatten,
    fixed_size::FixedSizeArray,
    layout::variable_size_list::VariableSizeList,
    nullability::{NonNullable, Nullable},
    offset::Offsets,
    validity::Validity,
};
use std::any::Any;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;
use std::sync::Arc;

/// A readable type over one storage.
pub struct Kind {
    pub name: &'static str,
    pub shape: Shape,
    pub build: fn(&[Val], &mut Noise<'_>) -> Box<dyn DynRead>,
    /// Row counts inline storage can hold.
    pub rows: (usize, usize),
    /// Items per list at most.
    pub list: u64,
}
fn kind<C: Phys>(name: &'static str, rows: (usize, usize), list: u64) -> Kind {
    Kind { name, shape: <C::Owned as Item>::shape(), build: |v, n| Box::new(Holder(C::build(v, n))), rows, list }
}

pub fn kinds() -> Vec<Kind> {
    let mut v = Vec::new();
    type FA = FixedSizeArray<u16, 3>;
    macro_rules! arrays {
        ($b:ty, $tag:literal; $($t:ty),* $(,)?) => { $( v.push(kind::<Array<$t, $b>>(concat!($tag, stringify!($t)), (0, usize::MAX), 4)); )* };
    }
    macro_rules! all {
        ($b:ty, $tag:literal) => {
            arrays!($b, $tag;
                u8, u32, f64, FA, bool, Option<u16>, Option<bool>, Option<FA>,
                [u8; 3], [bool; 3], [Option<u8>; 2], Option<[u32; 2]>, Option<[Option<bool>; 3]>, [[bool; 2]; 2],
                Vec<u8>, Vec<bool>, Option<Vec<u16>>, Vec<Option<u8>>, Option<Vec<Option<bool>>>,
                Vec<Vec<u8>>, Option<Vec<Option<Vec<Option<u8>>>>>, [Vec<u8>; 2], Option<[Option<Vec<u8>>; 2]>,
                Vec<[Option<bool>; 2]>
            );
        };
    }
    all!(VecBuffer, "Vec:");
    all!(BoxBuffer, "Box:");
    all!(RcBuffer, "Rc:");
    all!(ArcBuffer, "Arc:");
    all!(SliceBuffer<'static>, "Slice:");
    all!(SimBuffer, "Sim:");
    macro_rules! other {
        ($($rows:expr, $list:expr, $t:ty;)*) => { $( v.push(kind::<$t>(stringify!($t), $rows, $list)); )* };
    }
    const ANY: (usize, usize) = (0, usize::MAX);
    other!(
        (4, 4), 0, Array<u32, ArrayBuffer<4>>;
        (0, 16), 0, Array<bool, ArrayBuffer<2>>;
        (4, 4), 0, Array<Option<u32>, ArrayBuffer<4>>;
        (0, 24), 0, Array<Option<bool>, ArrayBuffer<3>>;
        (3, 3), 0, Array<[u8; 2], ArrayBuffer<6>>;
        (0, 5), 0, Array<[bool; 3], ArrayBuffer<2>>;
        (4, 4), 8, Array<Vec<bool>, ArrayBuffer<5>>;
        (4, 4), 1, Array<Vec<[bool; 3]>, ArrayBuffer<5>>;
        ANY, 0, Bitmap<RcBuffer>;
        ANY, 0, Bitmap<SliceBuffer<'static>>;
        ANY, 0, Flatten<Rc<[u8]>, 3>;
        ANY, 0, Flatten<Bitmap<ArcBuffer>, 5>;
        ANY, 0, Validity<Bitmap<RcBuffer>, RcBuffer>;
        ANY, 0, Validity<Vec<u32>, ArcBuffer>;
        ANY, 4, Offsets<Rc<[u8]>, i64, VecBuffer>;
        ANY, 4, Offsets<Validity<&'static [u16], BoxBuffer>, i32, ArcBuffer>;
        ANY, 4, VariableSizeList<u32, Nullable, i64, RcBuffer>;
        ANY, 4, VariableSizeList<bool, NonNullable, i64, SliceBuffer<'static>>;
        ANY, 0, Box<[bool]>;
        ANY, 4, Rc<[Vec<u8>]>;
        ANY, 4, Arc<[Vec<u8>]>;
        ANY, 0, Arc<[[u16; 3]]>;
        ANY, 0, Rc<[Option<u32>]>;
        ANY, 4, Box<[Vec<u8>]>;
    );
    v
}

pub struct Cell {
    pub arr: Box<dyn DynRead>,
    pub vals: Vec<Val>,
}

pub struct Reader {
    // Dropped before what it borrows.
    pub it: Option<Box<dyn ValIter>>,
    pub _cell: Option<Rc<dyn Any>>,
    pub want: Vec<Val>,
    pub pos: usize,
    pub what: &'static str,
}

/// The lists `Phys::row_iters` iterates over, in its order.
pub fn row_wants(shape: &Shape, v: &Val, out: &mut Vec<Vec<Val>>) {
    match (shape, v) {
        (Shape::Opt(s), v) if *v != Val::Null => row_wants(s, v, out),
        (Shape::Fixed(_, s), Val::L(l)) => l.iter().for_each(|x| row_wants(s, x, out)),
        (Shape::List(_), Val::L(l)) => {
            out.push(l.clone());
            out.push(l.clone());
        }
        _ => {}
    }
}

pub type Bad = Result<(), (&'static str, String)>;

impl Reader {
    pub fn left(&self) -> usize {
        self.want.len() - self.pos
    }
    pub fn hint(&self) -> Bad {
        let Some(it) = &self.it else { return Ok(()) };
        let (lo, hi) = it.hint();
        let left = self.left();
        if lo > left || hi.is_some_and(|h| h < left) {
            return Err(("hint", format!("{} with {left} items left reports ({lo}, {hi:?})", self.what)));
        }
        if let Some(n) = it.exact()
            && (n != left || lo != left || hi != Some(left))
        {
            return Err(("hint", format!("{} with {left} items left promises exactly {n}, ({lo}, {hi:?})", self.what)));
        }
        Ok(())
    }
    pub fn got(&mut self, got: Option<Val>, skipped: usize) -> Bad {
        let at = self.pos + skipped;
        let want = self.want.get(at);
        if got.as_ref() != want {
            let s = |v: Option<&Val>| v.map_or("nothing".into(), |v| v.to_string());
            return Err(("item", format!("{} yields {} as item {at} of {}, not {}", self.what, s(got.as_ref()), self.want.len(), s(want))));
        }
        self.pos = (at + 1).min(self.want.len());
        Ok(())
    }
}

struct World<'k> {
    kind: &'k Kind,
    cells: Vec<Rc<Cell>>,
    readers: Vec<Reader>,
    hash: Hash,
    yielded: u64,
}

impl World<'_> {
    fn cell(&self, op: &Op) -> Option<&Rc<Cell>> {
        (!self.cells.is_empty()).then(|| &self.cells[op.us("a") % self.cells.len()])
    }
    fn step(&mut self, op: &Op) -> Bad {
        match op.k {
            "new" => {
                let (lo, hi) = self.kind.rows;
                let n = self.kind.shape.cap(op.us("n")).clamp(lo, hi);
                let mut vals = gen_vals(&self.kind.shape, n, op.get("v"), Gen { nulls: op.get("nulls"), list: self.kind.list, long: if hi == usize::MAX { 8 } else { 0 } });
                if lo == hi && self.kind.list > 0 {
                    // Inline storage cannot hold an empty child.
                    if let (Shape::List(s), Some(first)) = (&self.kind.shape, vals.first_mut()) {
                        *first = Val::L(gen_vals(s, 1, op.get("v"), Gen { nulls: 0, list: 0, long: 0 }));
                    }
                }
                let mut rng = Rng::new(mix2(op.get("v"), 7));
                let f = op.get("f");
                let mut noise = Noise { rng: &mut rng, offs: f & 1 != 0, extra: f & 2 != 0 && lo != hi, absent: f & 4 != 0, alloc: 0 };
                let arr = (self.kind.build)(&vals, &mut noise);
                self.cells.push(Rc::new(Cell { arr, vals }));
                bump("op.new_array");
            }
            "share" => {
                if let Some(c) = self.cell(op) {
                    let c = Rc::new(Cell { arr: c.arr.share(), vals: c.vals.clone() });
                    self.cells.push(c);
                    bump("op.share_storage");
                }
            }
            "iter" => {
                if let Some(c) = self.cell(op) {
                    let c = Rc::clone(c);
                    // SAFETY: the reader keeps the array and is dropped first.
                    let it: Box<dyn ValIter> = unsafe { std::mem::transmute::<Box<dyn ValIter + '_>, Box<dyn ValIter + 'static>>(c.arr.iter()) };
                    let want = c.vals.clone();
                    self.readers.push(Reader { it: Some(it), _cell: Some(c), want, pos: 0, what: "borrowed iterator" });
                    bump("op.iter");
                    self.readers[self.readers.len() - 1].hint()?;
                }
            }
            "into" => {
                if !self.cells.is_empty() {
                    let i = op.us("a") % self.cells.len();
                    let alone = op.get("take") == 1 && Rc::strong_count(&self.cells[i]) == 1;
                    let (arr, want) = if alone {
                        let c = Rc::into_inner(self.cells.swap_remove(i)).expect("only holder");
                        (c.arr, c.vals)
                    } else {
                        (self.cells[i].arr.share(), self.cells[i].vals.clone())
                    };
                    self.readers.push(Reader { it: Some(arr.into_iter()), _cell: None, want, pos: 0, what: "owned iterator" });
                    bump("op.into_iter");
                    self.readers[self.readers.len() - 1].hint()?;
                }
            }
            "row" => {
                if let Some(c) = self.cell(op) {
                    let c = Rc::clone(c);
                    let i = if c.vals.is_empty() { 0 } else { op.us("i") % c.vals.len() };
                    let mut wants = Vec::new();
                    if let Some(v) = c.vals.get(i) {
                        row_wants(&self.kind.shape, v, &mut wants);
                    }
                    // SAFETY: as for borrowed iterators.
                    let its: Vec<Box<dyn ValIter>> = unsafe { std::mem::transmute::<Vec<Box<dyn ValIter + '_>>, Vec<Box<dyn ValIter + 'static>>>(c.arr.row(i)) };
                    if its.len() == wants.len() {
                        for (it, want) in its.into_iter().zip(wants) {
                            self.readers.push(Reader { it: Some(it), _cell: Some(Rc::<Cell>::clone(&c)), want, pos: 0, what: "row iterator" });
                            bump("op.row_iter");
                            self.readers[self.readers.len() - 1].hint()?;
                        }
                    }
                }
            }
            "walk" => {
                if let Some(c) = self.cell(op) {
                    c.arr.walk().map_err(|m| ("hint", m))?;
                    bump("op.walk_rows");
                }
            }
            "read" => {
                if let Some(c) = self.cell(op) {
                    let len = c.vals.len();
                    if c.arr.len() != len || c.arr.is_empty_q() != (len == 0) {
                        return Err(("length", format!("an array of {len} items has length {}, empty {}", c.arr.len(), c.arr.is_empty_q())));
                    }
                    let i = if len == 0 { 0 } else { op.us("i") % len };
                    let (v, o) = (c.arr.view(i), c.arr.owned(i));
                    if v.as_ref() != c.vals.get(i) || o.as_ref() != c.vals.get(i) {
                        return Err(("item", format!("item {i} of {len} is {v:?} / {o:?}, not {:?}", c.vals.get(i))));
                    }
                    let w = op.us("i");
                    let b = if w % 4 < 2 { beyond(len)[w % 9] } else { alias(len, w / 4) };
                    if b >= len && c.arr.view(b).is_some() {
                        return Err(("item", format!("item {b} of {len} is not absent")));
                    }
                    bump("op.read");
                }
            }
            "check" => {
                if let Some(c) = self.cell(op) {
                    let d = c.arr.decode().map_err(|m| ("decode", m))?;
                    if d != c.vals {
                        return Err(("decode", format!("buffers hold {}, written {}", show(&d), show(&c.vals))));
                    }
                    c.arr.queries().map_err(|m| ("queries", m))?;
                    bump("op.check_array");
                }
            }
            "close" => {
                if !self.cells.is_empty() {
                    let i = op.us("a") % self.cells.len();
                    self.cells.swap_remove(i);
                    bump("op.drop_holder");
                }
            }
            _ => return self.advance(op),
        }
        Ok(())
    }
    fn advance(&mut self, op: &Op) -> Bad {
        if self.readers.is_empty() {
            return Ok(());
        }
        let at = op.us("r") % self.readers.len();
        let n = op.us("n");
        let r = &mut self.readers[at];
        let before = r.pos;
        match op.k {
            "next" => {
                for _ in 0..n.max(1) {
                    let left = r.left();
                    let got = r.it.as_mut().and_then(|it| it.next());
                    r.got(got, 0)?;
                    r.hint()?;
                    if left == 0 {
                        bump("op.next_after_end");
                        break;
                    }
                }
                bump("op.next");
            }
            "nth" => {
                let got = r.it.as_mut().and_then(|it| it.nth(n));
                r.got(got, n.min(r.want.len() - r.pos))?;
                r.hint()?;
                bump("op.nth");
            }
            "some" => {
                let got = r.it.as_mut().map_or(Vec::new(), |it| it.some(n));
                let end = (r.pos + n).min(r.want.len());
                if got != r.want[r.pos..end] {
                    return Err(("item", format!("{} yields {} for {n} items from {} of {}", r.what, show(&got), r.pos, r.want.len())));
                }
                r.pos = end;
                r.hint()?;
                bump("op.take");
            }
            "quit" => {
                let r = self.readers.swap_remove(at);
                if r.left() > 0 {
                    bump("op.reader_dropped_early");
                }
                return Ok(());
            }
            _ => {
                let mut r = self.readers.swap_remove(at);
                let Some(it) = r.it.take() else { return Ok(()) };
                let rest = &r.want[r.pos..];
                let (ok, got) = match op.k {
                    "count" => {
                        let c = it.count_rest();
                        (c == rest.len(), c.to_string())
                    }
                    "last" => {
                        let l = it.last_rest();
                        (l.as_ref() == rest.last(), format!("{l:?}"))
                    }
                    "fold" => {
                        let l = it.fold_rest();
                        (l == rest, show(&l))
                    }
                    _ => {
                        let l = it.rest();
                        (l == rest, show(&l))
                    }
                };
                self.yielded += rest.len() as u64;
                if !ok {
                    return Err(("item", format!("{} ({}) gives {got}; {} items were left: {}", r.what, op.k, rest.len(), show(rest))));
                }
                bump(match op.k {
                    "count" => "op.count",
                    "last" => "op.last",
                    "fold" => "op.fold",
                    _ => "op.collect",
                });
                return Ok(());
            }
        }
        self.yielded += (r.pos - before) as u64;
        self.hash.add((r.pos as u64) << 16 | at as u64);
        Ok(())
    }
}

pub fn execute(sc: &Scenario, kinds: &[Kind], trace: bool, props: &[&'static str]) -> Outcome {
    let cfg = &sc.ops[0];
    let kind = &kinds[cfg.us("ty") % kinds.len()];
    let live0 = alloc::live();
    reset_handles(&[3]);
    let mut w = World { kind, cells: Vec::new(), readers: Vec::new(), hash: Hash::default(), yielded: 0 };
    w.hash.add(cfg.get("ty"));
    let mut v = None;
    let mut events = 0;
    for (step, op) in sc.ops.iter().enumerate().skip(1) {
        if trace {
            eprintln!("op {step} {op}");
        }
        events += 1;
        bump("events");
        w.hash.add(u64::from(op.k.as_bytes()[0]) ^ op.get("a") << 8 ^ op.get("n") << 40);
        let r = catch_unwind(AssertUnwindSafe(|| w.step(op)));
        match r {
            Ok(Ok(())) => {}
            Ok(Err((kind, msg))) => v = Some(Violation { kind, props: props.to_vec(), step, msg }),
            Err(_) => v = Some(Violation { kind: "panic", props: props.to_vec(), step, msg: format!("{} panicked", op.k) }),
        }
        if v.is_some() {
            break;
        }
    }
    let nontrivial = w.yielded >= 2;
    let hash = w.hash.0;
    // Readers and holders end in an order the scenario decides.
    let mut r = Rng::new(cfg.get("end"));
    let World { mut cells, mut readers, .. } = w;
    let end = catch_unwind(AssertUnwindSafe(|| {
        while !cells.is_empty() || !readers.is_empty() {
            if r.pct(50) && !cells.is_empty() {
                cells.swap_remove(r.us(cells.len()));
            } else if !readers.is_empty() {
                readers.swap_remove(r.us(readers.len()));
            }
        }
    }));
    drop((cells, readers));
    clear_arena();
    clear_handles();
    if v.is_none() && end.is_err() {
        v = Some(Violation { kind: "panic", props: props.to_vec(), step: sc.ops.len(), msg: "dropping a reader or holder panicked".into() });
    }
    if v.is_none() {
        let left = alloc::live() - live0;
        let corrupt = alloc::corruption();
        if left != 0 || corrupt != 0 {
            v = Some(Violation { kind: "leak", props: props.to_vec(), step: sc.ops.len(), msg: format!("{left} blocks left, {corrupt} heap violations after the last holder") });
        }
    }
    Outcome { v, hash, events, nontrivial }
}

/// How far to skip.
fn far(r: &mut Rng) -> u64 {
    match r.below(100) {
        0..60 => r.below(4),
        60..70 => r.below(12),
        70..82 => r.below(70),
        82..90 => 64 * r.range(1, 4) + r.below(20) - 4,
        90..97 => r.below(1100),
        97 => (1 << *r.pick(&[8, 16, 31, 32, 33, 59, 60, 61, 62, 63])) + r.below(70),
        _ => *r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 8, u64::MAX / 8 + 1, u64::MAX / 2, 1 << 32, 1 << 16]),
    }
}

pub fn generate(seed: u64, kinds: &[Kind], shared: bool) -> Scenario {
    let mut r = Rng::new(seed);
    let rows = |r: &mut Rng| match r.below(10) {
        0 => 0,
        1..=5 => r.below(10),
        6 => r.range(62, 66),
        7 => r.range(126, 130),
        8 if r.pct(8) => many(r),
        8 if r.pct(30) => r.range(200, 700),
        _ => r.below(40),
    };
    let ty = loop {
        let t = r.us(kinds.len());
        let n = kinds[t].name;
        if !shared || n.contains("Rc") || n.contains("Arc") || n.contains("Slice") {
            break t as u64;
        }
    };
    let mut ops = vec![Op::new("readers").set("ty", ty).set("end", r.below(1 << 30))];
    let new = |r: &mut Rng| {
        Op::new("new").set("n", rows(r)).set("v", r.below(1 << 40)).set("nulls", *r.pick(&[0, 30, 50, 90])).set("f", r.below(8))
    };
    for _ in 0..r.range(1, 3) {
        ops.push(new(&mut r));
    }
    for _ in 0..r.range(1, 4) {
        ops.push(Op::new(*r.pick(&["iter", "iter", "into", "row"])).set("a", r.below(4)).set("i", r.below(16)));
    }
    let steps = if r.pct(10) { r.range(40, 90) } else { r.range(4, 30) };
    let early = r.pct(30);
    for _ in 0..steps {
        let a = r.below(8);
        let rd = r.below(8);
        ops.push(match r.below(40) {
            0..=13 => Op::new("next").set("r", rd).set("n", if r.pct(30) { r.range(2, 9) } else { 0 }),
            14..=16 => Op::new("nth").set("r", rd).set("n", far(&mut r)),
            17..=19 => Op::new("some").set("r", rd).set("n", r.below(12)),
            20..=22 => Op::new("iter").set("a", a),
            23 | 24 => Op::new("into").set("a", a).set("take", r.below(2)),
            25 | 26 => Op::new("row").set("a", a).set("i", r.below(32)),
            27 => Op::new("share").set("a", a),
            28 | 29 => Op::new("close").set("a", a),
            30 if early => Op::new("quit").set("r", rd),
            30 => Op::new("walk").set("a", a),
            31 | 32 => Op::new(*r.pick(&["collect", "count", "last", "fold"])).set("r", rd),
            33 => Op::new("check").set("a", a),
            34..=36 => Op::new("read").set("a", a).set("i", r.below(64)),
            37 => new(&mut r),
            38 => Op::new("walk").set("a", a),
            _ => Op::new("next").set("r", rd).set("n", r.range(10, 80)),
        });
    }
    Scenario { ops }
}

// ---------------------------------------------------------------- the world, as the driver sees it

pub struct Readers(&'static [crate::Kind]);
impl Readers {
    #[must_use]
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(Box::leak(crate::kinds().into_boxed_slice()))
    }
}
impl sim_base::driver::World for Readers {
    fn name(&self) -> &'static str {
        "readers"
    }
    fn generate(&self, prop: &str, seed: u64) -> Scenario {
        crate::generate(seed, self.0, prop == "C18")
    }
    fn execute(&self, sc: &Scenario, trace: bool) -> Outcome {
        crate::execute(sc, self.0, trace, &["C10", "C18"])
    }
    fn describe(&self, sc: &Scenario) -> String {
        format!("# type {}\n", self.0[sc.ops[0].us("ty") % self.0.len()].name)
    }
}

