//! Arrays under a simulated allocator, storage and producers.
use sim_base::driver::{App, Plan};
use sim_cons::Cons;
use sim_grow::Grow;
use sim_huge::Huge;
use sim_parts::Parts;
use sim_readers::Readers;
use sim_rows::Rows;

#[global_allocator]
static GLOBAL: sim_base::alloc::SimGlobal = sim_base::alloc::SimGlobal;

fn plan(prop: &str) -> Option<Plan> {
    let mut p = Plan {
        worlds: vec![("grow", 1)],
        quick: 200_000,
        thorough: 3_000_000,
        rule: "One run is a random history over 1-3 arrays of one of ~68 types, with producers that panic, resume, nest operations and mis-estimate, and storage that refuses; non-trivial when it stored at least two items. Distinct by the hash of its event log (operations, sizes, outcomes, lengths).",
        real: "all of narrow (bitmap, validity, offsets, flatten, layouts, array), std Vec",
        stub: "process allocator (counting, poisoning, refusing wrapper), caller storage SimVec with refusing handles, caller iterators",
    };
    match prop {
        "C03" | "C04" => p.worlds = vec![("grow", 8), ("huge", 1), ("cons", 1)],
        "C01" | "C05" | "C06" | "C07" => p.worlds = vec![("grow", 9), ("cons", 1)],
        "C02" => p.worlds = vec![("grow", 19), ("huge", 1)],
        "C08" => {
            p.worlds = vec![("parts", 1)];
            (p.quick, p.thorough) = (1_500_000, 40_000_000);
            p.rule = "One run stores versions of a component's raw parts, damages the record as a failing medium would, and mounts it through the validating constructors over a random storage; non-trivial when it mounted at least once. Distinct by the hash of its event log (faults, places, outcomes).";
            p.stub = "the medium (torn, short, lost, duplicated, reordered, flipped and overwritten writes), process allocator";
        }
        "C10" => {
            p.worlds = vec![("readers", 1)];
            (p.quick, p.thorough) = (1_500_000, 40_000_000);
            p.rule = "One run builds 1-4 arrays of one of ~170 type and storage combinations, with odd bit offsets, spare bits and absent bitmaps, and interleaves borrowed, owned and row readers over them, dropping readers and holders at scheduled points; non-trivial when readers yielded at least two items. Distinct by the hash of its event log (operations, readers, positions).";
            p.stub = "reader scheduling, process allocator (counting, poisoning), storage SimVec for one storage kind of seven";
        }
        "C19" => {
            p.worlds = vec![("rows", 1)];
            (p.quick, p.thorough) = (1_500_000, 40_000_000);
            p.rule = "One run grows 1-6 list collections of one item type (8 item types; 2-7 collections each, over both offset widths and seven storages) through histories with panicking producers and refusing storage, or builds them with junk children and odd bit offsets, and compares rows across all of them; non-trivial when it found at least two equal pairs and one unequal pair. Distinct by the hash of its event log (operations, lengths, equal pairs).";
        }
        "C09" | "C11" | "C12" => {}
        _ => return None,
    }
    Some(p)
}

fn main() {
    let app = App { worlds: vec![Box::new(Grow::new()), Box::new(Huge), Box::new(Parts), Box::new(Readers::new()), Box::new(Rows::new()), Box::new(Cons::new())], plan };
    std::process::exit(app.main());
}
