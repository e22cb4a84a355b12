//! Arrays crossing the Arrow C Data Interface, with a simulated other side.
use sim_base::driver::{App, Plan};
use sim_ffi::Ffi;
use sim_import::ImportWorld;
use sim_readers::Readers;

#[global_allocator]
static GLOBAL: sim_base::alloc::SimGlobal = sim_base::alloc::SimGlobal;

fn plan(prop: &str) -> Option<Plan> {
    let mut p = Plan {
        worlds: vec![("ffi", 1)],
        quick: 400_000,
        thorough: 8_000_000,
        rule: "One run exports arrays of 1-2 of ~170 type and storage combinations, some with a history of panicking producers, refused allocations and truncations, and lets a consumer decode, move, take apart, import, re-export, read and release the structures in an order the seed decides; non-trivial when it exported at least once. Distinct by the hash of its event log (operations, objects alive, decoded lengths and depths).",
        real: "all of narrow and narrow-ffi (export, import, release callbacks, Drop)",
        stub: "the foreign consumer (decoder by specification, moves, releases), process allocator (counting, poisoning, quarantining, refusing), caller iterators, storage SimVec for one storage kind of eight",
    };
    match prop {
        "C13" | "C14" | "C16" | "C17" => {}
        "C15" => {
            p.worlds = vec![("import", 4), ("ffi", 1)];
            p.rule = "One run lets foreign producers build structures of 1-4 of ~50 importable types with every freedom the interface leaves, damages and repairs them (lengths, counts, pointers, formats, flags, offsets, bits, releases) in an order the seed decides, and imports, reads, shares and drops imports of them, also while others are alive; one run in five re-imports narrow's own exports instead. Non-trivial when it imported (exported) at least once. Distinct by the hash of its event log.";
            p.stub = "the foreign producer (structures, release callbacks, damage) and consumer, process allocator (counting, poisoning, quarantining), caller iterators";
        }
        "C18" => p.worlds = vec![("ffi", 3), ("readers", 1)],
        _ => return None,
    }
    Some(p)
}

fn main() {
    let app = App { worlds: vec![Box::new(Ffi::new()), Box::new(Readers::new()), Box::new(ImportWorld::new())], plan };
    std::process::exit(app.main());
}
