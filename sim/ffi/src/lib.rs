//! A consumer on the other side of the C Data Interface: arrays with any
//! history are exported, and the structures are read, moved, taken apart,
//! imported, re-exported and released in an order the scheduler decides.
#![allow(clippy::type_complexity)]

use sim_base::alloc::{self, freed};
use sim_base::cdata::{AB, CArray, CSchema, FTy, LevelSnap, SB, Sch, SchemaSnap, child, decode, schild, snap, snap_schema};
use sim_base::dynarr::{DynGrow, DynRead, Holder, Sel, ValIter};
use sim_base::feed::Feed;
use sim_base::op::{Op, Outcome, Scenario, Violation, bump};
use sim_base::phys::{Noise, Phys, beyond, clear_arena};
use sim_readers::{Reader, row_wants};
use sim_base::rng::{Hash, Rng, many, mix2};
use sim_base::storage::{SimBuffer, clear_handles, handle, reset_handles};
use sim_base::val::{Gen, Shape, Val, gen_vals, show, spoken};
use narrow::{
    array::Array,
    buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, Buffer, RcBuffer, SliceBuffer, VecBuffer},
    collection::CollectionRealloc,
    layout::ArrayItem,
};
use narrow_ffi::{ArrowArray, ArrowSchema, Export, ExportError, Import, ImportError};
use std::mem::ManuallyDrop;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

// ---------------------------------------------------------------- types

/// An array that can be exported.
pub trait DynExport: DynRead {
    fn export(self: Box<Self>) -> Result<(ArrowArray, ArrowSchema), ExportError>;
    fn share_export(&self) -> Box<dyn DynExport>;
}
impl<C: Phys + Export> DynExport for Holder<C> {
    fn export(self: Box<Self>) -> Result<(ArrowArray, ArrowSchema), ExportError> {
        self.0.export()
    }
    fn share_export(&self) -> Box<dyn DynExport> {
        Box::new(Holder(self.0.share()))
    }
}
/// A growable array that can be exported.
pub trait DynHist: DynGrow {
    fn into_export(self: Box<Self>) -> Box<dyn DynExport>;
    fn reassembled(self: Box<Self>) -> Result<Box<dyn DynHist>, String>;
}
impl<C: Phys + Export + CollectionRealloc<Alloc: Sel>> DynHist for Holder<C> {
    fn into_export(self: Box<Self>) -> Box<dyn DynExport> {
        self
    }
    fn reassembled(self: Box<Self>) -> Result<Box<dyn DynHist>, String> {
        Ok(Box::new(Holder(self.0.reassemble()?)))
    }
}

pub type ImportFn = unsafe fn(&'static ArrowArray, &ArrowSchema) -> Result<Box<dyn DynExport>, ImportError>;

pub struct Kind {
    pub name: &'static str,
    pub shape: Shape,
    pub sch: Sch,
    pub key: String,
    pub build: fn(&[Val], &mut Noise<'_>) -> Box<dyn DynExport>,
    pub hist: Option<fn(&[Val], &mut Noise<'_>) -> Box<dyn DynHist>>,
    pub import: ImportFn,
    pub shared: bool,
    pub inline: bool,
    pub rows: (usize, usize),
    pub list: u64,
}

fn kind<T, S>(name: &'static str, rows: (usize, usize), list: u64) -> Kind
where
    T: FTy + ArrayItem,
    S: Buffer,
    Array<T, S>: Phys + Export,
    Array<T, SliceBuffer<'static>>: Phys + Export + Import<'static>,
{
    Kind {
        name,
        shape: T::shape(),
        sch: T::sch(),
        key: T::sch().key(),
        build: |v, n| Box::new(Holder(<Array<T, S> as Phys>::build(v, n))),
        hist: None,
        // SAFETY: callers pass structures the world keeps.
        import: |a, s| Ok(Box::new(Holder(unsafe { <Array<T, SliceBuffer<'static>> as Import>::import(a, s) }?))),
        shared: name.starts_with("Rc") || name.starts_with("Arc") || name.starts_with("Slice"),
        inline: name.contains("ArrayBuffer"),
        rows,
        list,
    }
}
fn grows<T, S>(mut k: Kind) -> Kind
where
    T: FTy + ArrayItem,
    S: Buffer,
    Array<T, S>: Phys + Export + CollectionRealloc<Alloc: Sel>,
{
    k.hist = Some(|v, n| Box::new(Holder(<Array<T, S> as Phys>::build(v, n))));
    k
}

pub fn kinds() -> Vec<Kind> {
    const ANY: (usize, usize) = (0, usize::MAX);
    let mut v = Vec::new();
    macro_rules! arrays {
        (grow $b:ty, $tag:literal; $($t:ty),* $(,)?) => { $( v.push(grows::<$t, $b>(kind::<$t, $b>(concat!($tag, stringify!($t)), ANY, 4))); )* };
        ($b:ty, $tag:literal; $($t:ty),* $(,)?) => { $( v.push(kind::<$t, $b>(concat!($tag, stringify!($t)), ANY, 4)); )* };
    }
    macro_rules! all {
        ($($b:tt)*) => {
            arrays!($($b)*;
                u8, u32, bool, Option<u16>, Option<bool>,
                [u8; 3], [bool; 3], [Option<u8>; 2], Option<[u32; 2]>, Option<[Option<bool>; 3]>, [[bool; 2]; 2],
                Vec<u8>, Vec<bool>, Option<Vec<u16>>, Vec<Option<u8>>, Option<Vec<Option<bool>>>,
                Vec<Vec<u8>>, Option<Vec<Option<Vec<Option<u8>>>>>, [Vec<u8>; 2], Option<[Option<Vec<u8>>; 2]>,
                Vec<[Option<bool>; 2]>, Vec<Option<[Vec<Option<u8>>; 2]>>
            );
        };
    }
    all!(grow VecBuffer, "Vec:");
    all!(BoxBuffer, "Box:");
    all!(RcBuffer, "Rc:");
    all!(ArcBuffer, "Arc:");
    all!(SliceBuffer<'static>, "Slice:");
    all!(grow SimBuffer, "Sim:");
    arrays!(grow VecBuffer, "Vec:";
        i8, i16, u16, i32, i64, u64, f32, f64, Option<i8>, Option<u8>, Option<i16>, Option<i32>, Option<u32>,
        Option<i64>, Option<u64>, Option<f32>, Option<f64>,
        [bool; 2], [Option<bool>; 2], [Option<bool>; 3], [u32; 2], Option<[Vec<Option<u8>>; 2]>, [Vec<Option<u8>>; 2], Option<Vec<u8>>, Option<Vec<Option<u8>>>,
        [u16; 12], [i64; 1], Vec<f64>, Option<Vec<[[i32; 2]; 2]>>, [u8; 300]
    );
    arrays!(ArcBuffer, "Arc:"; Option<[bool; 257]>, Vec<[u8; 256]>, [Option<u8>; 1000]);
    macro_rules! inline {
        ($($rows:expr, $list:expr, $t:ty, $n:literal;)*) => { $( v.push(kind::<$t, ArrayBuffer<$n>>(concat!("ArrayBuffer", stringify!($n), ":", stringify!($t)), $rows, $list)); )* };
    }
    inline!(
        (4, 4), 0, u32, 4;
        (0, 16), 0, bool, 2;
        (4, 4), 0, Option<u32>, 4;
        (0, 24), 0, Option<bool>, 3;
        (3, 3), 0, [u8; 2], 6;
        (0, 5), 0, [bool; 3], 2;
        (4, 4), 8, Vec<bool>, 5;
        (4, 4), 1, Vec<[bool; 3]>, 5;
    );
    v
}

// ---------------------------------------------------------------- objects

struct Pin;

/// An array on this side: one we made, or one imported from the other side.
struct Held {
    // Dropped before what it borrows.
    arr: Box<dyn DynExport>,
    vals: Vec<Val>,
    shape: Shape,
    sch: Sch,
    shared: bool,
    inline: bool,
    imported: bool,
    /// Kept alive by these nodes.
    pins: Vec<Rc<Pin>>,
    /// The bytes of every buffer, including what no item occupies: another
    /// holder of the same storage may use it.
    raw: Vec<Vec<u8>>,
}
/// All bytes of an array's buffers.
fn raw(arr: &dyn DynExport, inline: bool) -> Vec<Vec<u8>> {
    if inline {
        return Vec::new();
    }
    let of = |b: sim_base::phys::Buf| {
        // SAFETY: the array's own buffer.
        if b.bytes == 0 { Vec::new() } else { unsafe { std::slice::from_raw_parts(b.ptr as *const u8, b.bytes) }.to_vec() }
    };
    arr.bufs().into_iter().map(of).collect()
}

/// What is known about one export.
struct Tree {
    moved: bool,
    shared: bool,
}

/// A structure the consumer holds.
struct Node {
    place: *mut CArray,
    sch: Sch,
    snap: Vec<LevelSnap>,
    phys: Vec<Vec<Val>>,
    /// Levels from here on were moved out; 0: none.
    gone: usize,
    tree: usize,
    me: Rc<Pin>,
    pins: Vec<Rc<Pin>>,
}
struct SNode {
    place: *mut CSchema,
    sch: Sch,
    snap: Vec<SchemaSnap>,
    gone: usize,
    tree: usize,
}

fn boxed<T>(x: T) -> *mut T {
    Box::into_raw(Box::new(x))
}
/// Frees a place whose content was moved away.
///
/// # Safety
/// `p` came from [`boxed`] and nothing uses the place any more.
unsafe fn unplace<T>(p: *mut T) {
    // SAFETY: by contract; `ManuallyDrop` keeps drop glue out of it.
    unsafe {
        std::ptr::write_bytes(p.cast::<u8>(), 0xee, size_of::<T>());
        drop(Box::from_raw(p.cast::<ManuallyDrop<T>>()));
    }
}

struct Bad {
    kind: &'static str,
    props: Vec<&'static str>,
    msg: String,
}
type Step = Result<(), Bad>;
fn bad<T>(kind: &'static str, props: &[&'static str], msg: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { kind, props: props.to_vec(), msg: msg.into() })
}

struct World<'k> {
    kinds: &'k [Kind],
    held: Vec<Rc<Held>>,
    nodes: Vec<Node>,
    snodes: Vec<SNode>,
    readers: Vec<Reader>,
    trees: Vec<Tree>,
    hash: Hash,
    exports: u64,
    refused: u64,
    imports: u64,
    moves: u64,
    shared: bool,
}

impl World<'_> {
    fn blame(&self, tree: usize) -> Vec<&'static str> {
        let t = &self.trees[tree];
        let mut p = vec![if t.moved { "C17" } else { "C14" }];
        if t.shared {
            p.push("C18");
        }
        p
    }
    fn check_node(&self, n: &Node) -> Step {
        let now = match snap(n.place, &n.sch, n.gone) {
            Ok(s) => s,
            Err(m) => return bad("dangling", &self.blame(n.tree), format!("an unreleased array: {m}")),
        };
        if now != n.snap {
            return bad("changed", &self.blame(n.tree), format!("an unreleased array changed from {:?} to {now:?}", n.snap));
        }
        // SAFETY: `snap` found the structure intact.
        if unsafe { &*n.place.cast::<ArrowArray>() }.is_released() {
            return bad("changed", &self.blame(n.tree), "an unreleased array calls itself released");
        }
        Ok(())
    }
    fn check_snode(&self, n: &SNode) -> Step {
        let now = match snap_schema(n.place, &n.sch, n.gone) {
            Ok(s) => s,
            Err(m) => return bad("dangling", &self.blame(n.tree), format!("an unreleased schema: {m}")),
        };
        if now != n.snap {
            return bad("changed", &self.blame(n.tree), format!("an unreleased schema changed from {:?} to {now:?}", n.snap));
        }
        // SAFETY: as above.
        if unsafe { &*n.place.cast::<ArrowSchema>() }.is_released() {
            return bad("changed", &self.blame(n.tree), "an unreleased schema calls itself released");
        }
        Ok(())
    }
    fn check_held(&self, h: &Held) -> Step {
        let who = if h.imported { "an imported array" } else { "a holder" };
        let props: &[&'static str] = if h.imported { &["C18", "C15"] } else { &["C18"] };
        if !h.inline {
            for b in h.arr.bufs() {
                if b.bytes > 0 && freed(b.ptr, b.bytes) {
                    return bad("dangling", props, format!("{who} of {} items: its storage was freed", h.vals.len()));
                }
            }
        }
        if h.arr.len() != h.vals.len() {
            return bad("holder", props, format!("{who} of {} items has length {}", h.vals.len(), h.arr.len()));
        }
        let d = match h.arr.decode() {
            Ok(d) => d,
            Err(m) => return bad("holder", props, format!("{who} of {} items: {m}", h.vals.len())),
        };
        if d != h.vals {
            return bad("holder", props, format!("{who} holds {}, expected {}", show(&d), show(&h.vals)));
        }
        if raw(&*h.arr, h.inline) != h.raw {
            return bad("storage", props, format!("{who} of {} items: bytes of its storage that none of its items occupies changed", h.vals.len()));
        }
        for (i, v) in h.vals.iter().enumerate() {
            if h.arr.view(i).as_ref() != Some(v) {
                return bad("holder", props, format!("{who}: item {i} is {:?}, expected {v}", h.arr.view(i)));
            }
        }
        Ok(())
    }
    fn check_all(&self) -> Step {
        self.nodes.iter().try_for_each(|n| self.check_node(n))?;
        self.snodes.iter().try_for_each(|n| self.check_snode(n))?;
        self.held.iter().try_for_each(|h| self.check_held(h))
    }

    fn pick<T>(v: &[T], op: &Op) -> Option<usize> {
        (!v.is_empty()).then(|| op.us("a") % v.len())
    }
    fn new_held(&mut self, op: &Op) -> Step {
        let k = &self.kinds[op.us("ty") % self.kinds.len()];
        let (lo, hi) = k.rows;
        let n = k.shape.cap(op.us("n")).clamp(lo, hi);
        let g = Gen { nulls: op.get("nulls"), list: k.list, long: if hi == usize::MAX { 8 } else { 0 } };
        let mut vals = gen_vals(&k.shape, n, op.get("v"), g);
        if lo == hi && k.list > 0 {
            // Inline storage cannot hold an empty child.
            if let (Shape::List(s), Some(first)) = (&k.shape, vals.first_mut()) {
                *first = Val::L(gen_vals(s, 1, op.get("v"), Gen { nulls: 0, list: 0, long: 0 }));
            }
        }
        let mut rng = Rng::new(mix2(op.get("v"), 7));
        let f = op.get("f");
        let mut noise = Noise { rng: &mut rng, offs: f & 1 != 0, extra: f & 2 != 0 && lo != hi, absent: f & 4 != 0, alloc: 0 };
        let arr = match (k.hist, op.get("h")) {
            (Some(make), h) if h > 0 => {
                let mut arr = make(&vals, &mut noise);
                for s in 0..h {
                    arr = history(arr, k.name.starts_with("Sim"), &k.shape, mix2(op.get("v"), s + 11), g)?;
                }
                vals = (0..arr.len()).map(|i| arr.view(i).unwrap_or(Val::Null)).collect();
                bump("fault.history");
                arr.into_export()
            }
            _ => (k.build)(&vals, &mut noise),
        };
        self.shared |= k.shared;
        let raw = raw(&*arr, k.inline);
        self.held.push(Rc::new(Held {
            raw, arr, vals, shape: k.shape.clone(), sch: k.sch.clone(), shared: k.shared, inline: k.inline, imported: false, pins: Vec::new(),
        }));
        bump("op.new_array");
        Ok(())
    }

    fn export(&mut self, op: &Op) -> Step {
        let Some(i) = Self::pick(&self.held, op) else { return Ok(()) };
        let (arr, h);
        if op.get("take") == 1 && Rc::strong_count(&self.held[i]) == 1 {
            let x = Rc::into_inner(self.held.swap_remove(i)).expect("only holder");
            arr = x.arr;
            h = (x.vals, x.sch, x.shared, x.inline, x.imported, x.pins);
            bump("op.export_own");
        } else {
            let x = &self.held[i];
            arr = x.arr.share_export();
            h = (x.vals.clone(), x.sch.clone(), x.shared, x.inline, x.imported, x.pins.clone());
            bump("op.export_shared");
        }
        let (vals, sch, shared, inline, imported, pins) = h;
        let own = arr.bufs();
        let offs = arr.bit_offsets();
        let spoiled = offs.iter().any(|o| *o != 0);
        self.exports += 1;
        let (a, s) = match catch_unwind(AssertUnwindSafe(|| arr.export())) {
            Err(_) => return bad("panic", &["C13", "C14", "C16"], "export panicked"),
            Ok(Err(ExportError::NonZeroOffset { offset })) if spoiled => {
                if let Err(m) = spoken(&ExportError::NonZeroOffset { offset }) {
                    return bad("refusal", &["C16"], m);
                }
                if offset == 0 || !offs.contains(&offset) {
                    return bad("refusal", &["C16"], format!("export names bit offset {offset}, the bitmaps have {offs:?}"));
                }
                self.refused += 1;
                bump("fault.bit_offset");
                return Ok(());
            }
            Ok(Err(e)) => return bad("refusal", &["C16", "C13"], format!("export refuses bit offsets {offs:?}: {e:?}")),
            Ok(Ok(x)) => x,
        };
        if spoiled {
            std::mem::forget((a, s));
            return bad("accepted", &["C16"], format!("export accepts bit offsets {offs:?}"));
        }
        let place: *mut CArray = boxed(a).cast();
        let splace: *mut CSchema = boxed(s).cast();
        let mut phys = Vec::new();
        let d = match decode(place, &sch, &mut phys) {
            Ok(d) => d,
            Err(m) => return bad("decode", &["C13"], format!("{} items exported as {}: {m}", vals.len(), sch.key())),
        };
        if d != vals {
            return bad("decode", &["C13"], format!("exported as {}: decodes as {}, items {}", sch.key(), show(&d), show(&vals)));
        }
        let snap = match snap(place, &sch, 0) {
            Ok(s) => s,
            Err(m) => return bad("decode", &["C13"], m),
        };
        if snap.iter().any(|l| l.nums()[2] != 0) {
            // Legal, but no array of this library has an item offset.
            return bad("decode", &["C13"], "an item offset appeared");
        }
        if !inline {
            for (p, len) in snap.iter().flat_map(LevelSnap::places) {
                if len > 0 && !own.iter().any(|b| b.ptr <= p && p + len <= b.ptr + b.bytes) {
                    return bad("copy", &["C13"], format!("{len} bytes of an exported buffer are not the array's own"));
                }
            }
        }
        let ssnap = match snap_schema(splace, &sch, 0) {
            Ok(s) => s,
            Err(m) => return bad("schema", &["C13"], m),
        };
        self.hash.add(d.len() as u64 | (sch.depth() as u64) << 32);
        let tree = self.trees.len();
        self.trees.push(Tree { moved: false, shared: shared || imported });
        self.nodes.push(Node { place, sch: sch.clone(), snap, phys, gone: 0, tree, me: Rc::new(Pin), pins });
        self.snodes.push(SNode { place: splace, sch, snap: ssnap, gone: 0, tree });
        if imported {
            bump("op.reexport");
        }
        Ok(())
    }

    fn import(&mut self, op: &Op) -> Step {
        let Some(i) = Self::pick(&self.nodes, op) else { return Ok(()) };
        let n = &self.nodes[i];
        if n.gone != 0 {
            return Ok(());
        }
        let key = n.sch.key();
        let Some(j) = self.snodes.iter().position(|s| s.gone == 0 && s.sch.key() == key) else { return Ok(()) };
        let Some(k) = self.kinds.iter().find(|k| k.key == key) else { return Ok(()) };
        // SAFETY: the import pins the node, which is then neither moved nor released.
        let (a, s) = unsafe { (&*n.place.cast::<ArrowArray>(), &*self.snodes[j].place.cast::<ArrowSchema>()) };
        // SAFETY: the structures are this library's own exports.
        let r = catch_unwind(AssertUnwindSafe(|| unsafe { (k.import)(a, s) }));
        let arr = match r {
            Ok(Ok(arr)) => arr,
            Ok(Err(e)) => return bad("import", &["C15"], format!("import of an exported {key} of {} items: {e}", n.phys[0].len())),
            Err(_) => return bad("import", &["C15"], format!("import of an exported {key} panicked")),
        };
        let vals = n.phys[0].clone();
        let got: Vec<Val> = (0..arr.len()).map(|i| arr.view(i).unwrap_or(Val::Null)).collect();
        if got != vals {
            let m = format!("import of an exported {key} reads {}, exported {}", show(&got), show(&vals));
            std::mem::forget(arr);
            return bad("import", &["C15"], m);
        }
        for b in arr.bufs() {
            if b.bytes > 0 && !n.snap.iter().flat_map(LevelSnap::places).any(|(p, len)| p <= b.ptr && b.ptr + b.bytes <= p + len) {
                std::mem::forget(arr);
                return bad("copy", &["C15"], format!("{} bytes of an imported buffer are not the structure's own", b.bytes));
            }
        }
        self.imports += 1;
        bump("op.import");
        let mut pins = n.pins.clone();
        pins.push(Rc::clone(&n.me));
        let shared = self.trees[n.tree].shared;
        let (shape, sch) = (k.shape.clone(), n.sch.clone());
        let raw = raw(&*arr, false);
        self.held.push(Rc::new(Held { raw, arr, vals, shape, sch, shared, inline: false, imported: true, pins }));
        let (n, s) = (&self.nodes[i], &self.snodes[j]);
        self.check_node(n).and_then(|()| self.check_snode(s)).map_err(|b| Bad { props: vec!["C15"], ..b })
    }

    /// A node that may be changed: no import borrows it.
    fn free_node(&self, op: &Op) -> Option<usize> {
        Self::pick(&self.nodes, op).filter(|i| Rc::strong_count(&self.nodes[*i].me) == 1)
    }

    fn move_child(&mut self, op: &Op) -> Step {
        let Some(i) = self.free_node(op) else { return Ok(()) };
        let n = &self.nodes[i];
        let top = if n.gone == 0 { n.sch.depth() } else { n.gone };
        if top < 2 {
            return Ok(());
        }
        self.check_node(n)?;
        let n = &mut self.nodes[i];
        let d = 1 + op.us("d") % (top - 1);
        let mut p = n.place;
        for _ in 0..d {
            p = child(p).expect("just checked");
        }
        // SAFETY: just checked; this is the move the specification describes.
        let place = unsafe {
            let to = Box::into_raw(Box::<CArray>::new_uninit()).cast::<CArray>();
            std::ptr::copy_nonoverlapping(p, to, 1);
            (*p).release = None;
            to
        };
        let new = Node {
            place,
            sch: n.sch.level(d).clone(),
            snap: n.snap.split_off(d),
            phys: n.phys.split_off(d),
            gone: n.gone.saturating_sub(d),
            tree: n.tree,
            me: Rc::new(Pin),
            pins: n.pins.clone(),
        };
        n.gone = d;
        self.trees[n.tree].moved = true;
        self.nodes.push(new);
        self.moves += 1;
        bump("op.move_child");
        Ok(())
    }
    fn move_schild(&mut self, op: &Op) -> Step {
        let Some(i) = Self::pick(&self.snodes, op) else { return Ok(()) };
        let n = &self.snodes[i];
        let top = if n.gone == 0 { n.sch.depth() } else { n.gone };
        if top < 2 {
            return Ok(());
        }
        self.check_snode(n)?;
        let n = &mut self.snodes[i];
        let d = 1 + op.us("d") % (top - 1);
        let mut p = n.place;
        for _ in 0..d {
            p = schild(p).expect("just checked");
        }
        // SAFETY: as for arrays.
        let place = unsafe {
            let to = Box::into_raw(Box::<CSchema>::new_uninit()).cast::<CSchema>();
            std::ptr::copy_nonoverlapping(p, to, 1);
            (*p).release = None;
            to
        };
        let new = SNode { place, sch: n.sch.level(d).clone(), snap: n.snap.split_off(d), gone: n.gone.saturating_sub(d), tree: n.tree };
        n.gone = d;
        self.trees[n.tree].moved = true;
        self.snodes.push(new);
        self.moves += 1;
        bump("op.move_child_schema");
        Ok(())
    }

    /// Ends an array structure: `how` 0 by its callback, 1 dropped in Rust,
    /// 2 both, 3 moved once more and dropped.
    fn end_node(&mut self, i: usize, how: u64) -> Step {
        let n = self.nodes.swap_remove(i);
        let r = self.check_node(&n);
        if let Err(e) = r {
            return Err(e);
        }
        let p = n.place;
        // SAFETY: the structure was found intact and unreleased.
        unsafe {
            match how {
                1 => drop(Box::from_raw(p.cast::<ArrowArray>())),
                3 => {
                    let x = p.cast::<ArrowArray>().read();
                    unplace(p);
                    drop(x);
                }
                _ => {
                    ((*p).release.expect("unreleased"))(p);
                    if (*p).release.is_some() || freed(p as usize, AB) || !(*p.cast::<ArrowArray>()).is_released() {
                        return bad("release", &self.blame(n.tree), "a released array is not marked released");
                    }
                    if how == 2 {
                        drop(Box::from_raw(p.cast::<ArrowArray>()));
                    } else {
                        unplace(p);
                    }
                }
            }
        }
        bump("op.end_array");
        Ok(())
    }
    fn end_snode(&mut self, i: usize, how: u64) -> Step {
        let n = self.snodes.swap_remove(i);
        self.check_snode(&n)?;
        let p = n.place;
        // SAFETY: as above.
        unsafe {
            match how {
                1 => drop(Box::from_raw(p.cast::<ArrowSchema>())),
                3 => {
                    let x = p.cast::<ArrowSchema>().read();
                    unplace(p);
                    drop(x);
                }
                _ => {
                    ((*p).release.expect("unreleased"))(p);
                    if (*p).release.is_some() || freed(p as usize, SB) || !(*p.cast::<ArrowSchema>()).is_released() {
                        return bad("release", &self.blame(n.tree), "a released schema is not marked released");
                    }
                    if how == 2 {
                        drop(Box::from_raw(p.cast::<ArrowSchema>()));
                    } else {
                        unplace(p);
                    }
                }
            }
        }
        bump("op.end_schema");
        Ok(())
    }

    fn reader_bad((kind, msg): (&'static str, String)) -> Bad {
        Bad { kind, props: vec!["C18"], msg }
    }
    fn add_reader(&mut self, it: Box<dyn ValIter>, cell: Option<Rc<Held>>, want: Vec<Val>, what: &'static str) {
        self.readers.push(Reader { it: Some(it), _cell: cell.map(|c| c as Rc<dyn std::any::Any>), want, pos: 0, what });
        bump("op.reader");
    }

    fn step(&mut self, op: &Op) -> Step {
        match op.k {
            "new" => self.new_held(op)?,
            "share" => {
                if let Some(i) = Self::pick(&self.held, op) {
                    let h = &self.held[i];
                    let arr = h.arr.share_export();
                    let new = Held {
                        // What a copy leaves behind the last item is its own business.
                        raw: if h.shared { h.raw.clone() } else { raw(&*arr, h.inline) }, arr, vals: h.vals.clone(), shape: h.shape.clone(), sch: h.sch.clone(),
                        shared: h.shared, inline: h.inline, imported: h.imported, pins: h.pins.clone(),
                    };
                    self.held.push(Rc::new(new));
                    bump("op.share_storage");
                }
            }
            "export" => self.export(op)?,
            "import" => self.import(op)?,
            "close" => {
                if let Some(i) = Self::pick(&self.held, op) {
                    self.held.swap_remove(i);
                    bump("op.drop_holder");
                    self.check_all()?;
                }
            }
            "check" => {
                self.check_all()?;
                bump("op.check_all");
            }
            "move" => {
                if let Some(i) = self.free_node(op) {
                    let n = &mut self.nodes[i];
                    // SAFETY: plain data; the old place is poisoned and freed.
                    n.place = unsafe {
                        let to = boxed(n.place.read());
                        unplace(n.place);
                        to
                    };
                    bump("op.move_array");
                    let n = &self.nodes[i];
                    self.check_node(n)?;
                }
            }
            "smove" => {
                if let Some(i) = Self::pick(&self.snodes, op) {
                    let n = &mut self.snodes[i];
                    // SAFETY: as above.
                    n.place = unsafe {
                        let to = boxed(n.place.read());
                        unplace(n.place);
                        to
                    };
                    bump("op.move_schema");
                    let n = &self.snodes[i];
                    self.check_snode(n)?;
                }
            }
            "child" => self.move_child(op)?,
            "schild" => self.move_schild(op)?,
            "release" => {
                if let Some(i) = self.free_node(op) {
                    self.end_node(i, op.get("how"))?;
                    self.check_all()?;
                }
            }
            "srelease" => {
                if let Some(i) = Self::pick(&self.snodes, op) {
                    self.end_snode(i, op.get("how"))?;
                    self.check_all()?;
                }
            }
            "iter" => {
                if let Some(i) = Self::pick(&self.held, op) {
                    let h = Rc::clone(&self.held[i]);
                    // SAFETY: the reader keeps the array and is dropped first.
                    let it = unsafe { std::mem::transmute::<Box<dyn ValIter + '_>, Box<dyn ValIter + 'static>>(h.arr.iter()) };
                    let want = h.vals.clone();
                    self.add_reader(it, Some(h), want, "borrowed iterator");
                }
            }
            "into" => {
                if let Some(i) = Self::pick(&self.held, op) {
                    let h = Rc::clone(&self.held[i]);
                    let want = h.vals.clone();
                    let it = h.arr.share().into_iter();
                    // It borrows what an import borrows.
                    let keep = h.imported.then_some(h);
                    self.add_reader(it, keep, want, "owned iterator");
                }
            }
            "row" => {
                if let Some(i) = Self::pick(&self.held, op) {
                    let h = Rc::clone(&self.held[i]);
                    let i = if h.vals.is_empty() { 0 } else { op.us("i") % h.vals.len() };
                    let mut wants = Vec::new();
                    if let Some(v) = h.vals.get(i) {
                        row_wants(&h.shape, v, &mut wants);
                    }
                    // SAFETY: as for borrowed iterators.
                    let its: Vec<Box<dyn ValIter>> = unsafe { std::mem::transmute::<Vec<Box<dyn ValIter + '_>>, Vec<Box<dyn ValIter + 'static>>>(h.arr.row(i)) };
                    if its.len() == wants.len() {
                        for (it, want) in its.into_iter().zip(wants) {
                            self.add_reader(it, Some(Rc::clone(&h)), want, "row iterator");
                        }
                    }
                }
            }
            "next" => {
                if let Some(i) = Self::pick(&self.readers, op) {
                    let r = &mut self.readers[i];
                    for _ in 0..op.get("n").max(1) {
                        let left = r.left();
                        let got = r.it.as_mut().and_then(|it| it.next());
                        r.got(got, 0).map_err(Self::reader_bad)?;
                        r.hint().map_err(Self::reader_bad)?;
                        if left == 0 {
                            break;
                        }
                    }
                    bump("op.next");
                }
            }
            "quit" => {
                if let Some(i) = Self::pick(&self.readers, op) {
                    self.readers.swap_remove(i);
                    bump("op.drop_reader");
                }
            }
            "read" => {
                if let Some(i) = Self::pick(&self.held, op) {
                    let h = &self.held[i];
                    self.check_held(h)?;
                    let len = h.vals.len();
                    let b = beyond(len)[op.us("i") % 9];
                    if b >= len && h.arr.view(b).is_some() {
                        return bad("holder", &["C18"], format!("item {b} of {len} is not absent"));
                    }
                    bump("op.read");
                }
            }
            _ => {}
        }
        Ok(())
    }

    /// Ends everything that is left, in a seeded order.
    fn finish(&mut self, seed: u64) -> Step {
        let mut r = Rng::new(seed);
        self.check_all()?;
        loop {
            let free: Vec<usize> = (0..self.nodes.len()).filter(|i| Rc::strong_count(&self.nodes[*i].me) == 1).collect();
            let total = free.len() + self.snodes.len() + self.held.len() + self.readers.len();
            if total == 0 {
                return Ok(());
            }
            let mut x = r.us(total);
            if x < free.len() {
                self.end_node(free[x], r.below(4))?;
            } else {
                x -= free.len();
                if x < self.snodes.len() {
                    self.end_snode(x, r.below(4))?;
                } else {
                    x -= self.snodes.len();
                    if x < self.held.len() {
                        self.held.swap_remove(x);
                    } else {
                        self.readers.swap_remove(x - self.held.len());
                    }
                }
            }
            self.check_all()?;
        }
    }
}

/// Does something while storage is refused.
fn refusing(sim: bool, plan: alloc::Plan, f: impl FnOnce()) {
    let h = handle(0);
    let refused = h.0.refused.get();
    if sim {
        h.0.plan.set(plan);
    } else {
        alloc::arm(plan);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    let mut fired = alloc::disarm();
    h.0.plan.set(alloc::Plan::new(0, 0));
    fired += h.0.refused.get() - refused;
    if fired > 0 {
        bump("fault.alloc_refused");
    }
    // What a panic is worth is judged by the checks of other properties.
    drop(r);
}

/// One step of the history of an array that is still ours.
fn history(mut arr: Box<dyn DynHist>, sim: bool, shape: &Shape, seed: u64, g: Gen) -> Result<Box<dyn DynHist>, Bad> {
    let mut r = Rng::new(seed);
    let wide = r.pct(20);
    let n = r.us(if wide { 70 } else { 12 });
    let mut f = Feed::new(gen_vals(shape, n, seed, g));
    f.hint = r.below(sim_base::feed::HINTS);
    match r.below(8) {
        0 | 1 => {
            let len = arr.len();
            arr.truncate(r.us(len + 2));
        }
        2 => arr.extend(&mut f),
        3 => {
            f.panic_at = Some(r.us(n + 1));
            let _ = catch_unwind(AssertUnwindSafe(|| arr.extend(&mut f)));
            bump("fault.producer_panic");
        }
        4 => {
            f.panic_at = Some(r.us(n + 1));
            let _ = catch_unwind(AssertUnwindSafe(|| arr.try_extend(&mut f)));
            bump("fault.producer_panic");
        }
        5 => {
            let plan = alloc::Plan::new(1 + r.below(2), r.below(4));
            refusing(sim, plan, || {
                let _ = arr.try_extend(&mut f);
            });
        }
        6 => {
            let plan = alloc::Plan::new(1, r.below(3));
            refusing(sim, plan, || {
                let _ = arr.try_reserve(n);
            });
        }
        _ => match arr.reassembled() {
            Ok(a) => return Ok(a),
            Err(m) => return bad("reassemble", &["C07"], m),
        },
    }
    Ok(arr)
}

pub fn execute(sc: &Scenario, kinds: &[Kind], trace: bool) -> Outcome {
    let cfg = &sc.ops[0];
    alloc::track();
    let live0 = alloc::live();
    reset_handles(&[3]);
    let mut w = World {
        kinds, held: Vec::new(), nodes: Vec::new(), snodes: Vec::new(), readers: Vec::new(), trees: Vec::new(),
        hash: Hash::default(), exports: 0, refused: 0, imports: 0, moves: 0, shared: false,
    };
    let mut v = None;
    let mut events = 0;
    for (step, op) in sc.ops.iter().enumerate().skip(1) {
        if trace {
            eprintln!("op {step} {op}");
        }
        events += 1;
        bump("events");
        w.hash.add(op.a.iter().filter(|(n, _)| *n != "v").fold(u64::from(op.k.as_bytes()[0]), |h, (_, x)| mix2(h, *x)));
        w.hash.add(w.nodes.len() as u64 | (w.held.len() as u64) << 16);
        match catch_unwind(AssertUnwindSafe(|| w.step(op))) {
            Ok(Ok(())) => {}
            Ok(Err(b)) => v = Some(Violation { kind: b.kind, props: b.props, step, msg: b.msg }),
            Err(_) => v = Some(Violation { kind: "panic", props: panic_props(&w), step, msg: format!("{} panicked", op.k) }),
        }
        if v.is_some() {
            break;
        }
    }
    if v.is_none() {
        let r = catch_unwind(AssertUnwindSafe(|| w.finish(cfg.get("end"))));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(b)) => v = Some(Violation { kind: b.kind, props: b.props, step: sc.ops.len(), msg: b.msg }),
            Err(_) => v = Some(Violation { kind: "panic", props: panic_props(&w), step: sc.ops.len(), msg: "ending a structure or holder panicked".into() }),
        }
    }
    let nontrivial = w.exports > 0;
    let hash = w.hash.0;
    let ends = [("C14", true), ("C15", w.imports > 0), ("C16", w.refused > 0), ("C17", w.moves > 0), ("C18", w.shared)];
    if v.is_some() {
        // Whatever is left may be broken; nothing of it is touched again.
        std::mem::forget(w);
    } else {
        drop(w);
    }
    clear_arena();
    clear_handles();
    let corrupt = alloc::corruption();
    if v.is_none() {
        let left = alloc::live() - live0;
        if left != 0 || corrupt != 0 {
            v = Some(Violation {
                kind: "leak", props: ends.iter().filter(|e| e.1).map(|e| e.0).collect(), step: sc.ops.len(),
                msg: format!("{left} blocks left, {corrupt} heap violations after the last release"),
            });
        }
    }
    Outcome { v, hash, events, nontrivial }
}

fn panic_props(w: &World<'_>) -> Vec<&'static str> {
    let mut p = vec!["C14", "C18"];
    if w.moves > 0 {
        p.push("C17");
    }
    p
}

pub fn generate(prop: &str, seed: u64, kinds: &[Kind]) -> Scenario {
    let mut r = Rng::new(seed);
    let nested = |k: &Kind| k.sch.child.is_some();
    let types: Vec<u64> = (0..r.range(1, 2))
        .map(|_| loop {
            let t = r.us(kinds.len());
            let k = &kinds[t];
            let ok = match prop {
                "C17" => nested(k),
                "C18" => k.shared,
                "C16" => !k.inline || r.pct(30),
                _ => true,
            };
            if ok {
                break t as u64;
            }
        })
        .collect();
    let faults = r.pct(60);
    let offs = match prop {
        "C16" => 70,
        "C14" | "C18" => 8,
        _ => 3,
    };
    let new = |r: &mut Rng| {
        let n = match r.below(10) {
            0 => 0,
            1..=5 => r.below(10),
            6 => r.range(62, 66),
            7 if r.pct(2) => many(r),
            _ => r.below(30),
        };
        let mut f = r.below(4) << 1;
        if r.pct(offs) {
            f |= 1;
        }
        let h = if faults && r.pct(50) { r.range(1, 5) } else { 0 };
        Op::new("new").set("ty", *r.pick(&types)).set("n", n).set("v", r.below(1 << 40)).set("nulls", *r.pick(&[0, 30, 50, 90])).set("f", f).set("h", h)
    };
    let mut ops = vec![Op::new("ffi").set("end", r.below(1 << 30))];
    for _ in 0..r.range(1, 2) {
        ops.push(new(&mut r));
    }
    let take = |r: &mut Rng| u64::from(r.pct(70));
    let t = take(&mut r);
    ops.push(Op::new("export").set("a", r.below(4)).set("take", t));
    let (moves, imports, readers) = match prop {
        "C17" => (10, 1, 0),
        "C14" => (u64::from(r.pct(25)) * 4, 1, 0),
        "C15" => (2, 14, 2),
        "C18" => (2, 5, 8),
        "C13" => (1, 2, 0),
        _ => (1, 1, 1),
    };
    let steps = if r.pct(10) { r.range(25, 50) } else { r.range(3, 18) };
    let total = 22 + moves + imports + readers;
    for _ in 0..steps {
        let a = r.below(8);
        let x = r.below(total);
        ops.push(match x {
            0..=3 => new(&mut r),
            4..=8 => {
                let t = take(&mut r);
                Op::new("export").set("a", a).set("take", t)
            }
            9 | 10 => Op::new("share").set("a", a),
            11 => Op::new("close").set("a", a),
            12 | 13 => Op::new("move").set("a", a),
            14 => Op::new("smove").set("a", a),
            15..=17 => Op::new("release").set("a", a).set("how", r.below(4)),
            18 | 19 => Op::new("srelease").set("a", a).set("how", r.below(4)),
            20 => Op::new("check"),
            21 => Op::new("read").set("a", a).set("i", r.below(64)),
            x if x < 22 + moves => Op::new(*r.pick(&["child", "child", "schild"])).set("a", a).set("d", r.below(4)),
            x if x < 22 + moves + imports => Op::new("import").set("a", a),
            _ => {
                let k = *r.pick(&["iter", "into", "row", "next", "next", "next", "next", "quit"]);
                Op::new(k).set("a", a).set("i", r.below(32)).set("n", r.below(6))
            }
        });
    }
    Scenario { ops }
}

// ---------------------------------------------------------------- the world, as the driver sees it

pub struct Ffi(&'static [crate::Kind]);
impl Ffi {
    #[must_use]
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self(Box::leak(crate::kinds().into_boxed_slice()))
    }
}
impl sim_base::driver::World for Ffi {
    fn name(&self) -> &'static str {
        "ffi"
    }
    fn generate(&self, prop: &str, seed: u64) -> Scenario {
        crate::generate(prop, seed, self.0)
    }
    fn execute(&self, sc: &Scenario, trace: bool) -> Outcome {
        crate::execute(sc, self.0, trace)
    }
    fn describe(&self, sc: &Scenario) -> String {
        let mut out = String::new();
        for op in sc.ops.iter().filter(|o| o.k == "new") {
            out.push_str(&format!("# type {} {}\n", op.get("ty"), self.0[op.us("ty") % self.0.len()].name));
        }
        out
    }
}

