//! Property table: which scenario decides what.
use crate::plan::Plan;
use crate::cost;
#[cfg(not(feature = "cost"))]
use crate::{cap, counter, dist, dset, iv, lease, replica, ring, rng::mix};

pub struct Prop {
    pub id: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub rule: &'static str,
}
const RING_REAL: &str = "advanced_collections::circular_buffer (CircularBuffer, Drain, IntoIter, views), unmodified, in debug and release builds";
const STUBS: &str = "simulated: client scheduling, reader/writer lock, element and source-iterator callbacks, allocator, OS randomness";
const RULE: &str = "one seed -> one plan (configuration, client operations, faults, schedule) -> one run; non-trivial: at least one scheduling decision switched clients or one fault fired; distinct: by the hash of the whole event trace (operations, callbacks, switches, faults, contents)";
const CNT_REAL: &str = "advanced_collections::counter (Counter, FastCounter, all operators and conversions) on std's HashMap, unmodified, in debug and release builds";
const DS_REAL: &str = "advanced_collections::disjoint_set (DisjointSet, FastDisjointSet, SetIter) on std's HashMap, unmodified, in debug and release builds";
const IV_REAL: &str = "advanced_collections::interval (Interval, LowerBound, UpperBound, arithmetic, comparisons), unmodified, in debug and release builds";
const IV_STUB: &str = "simulated: client scheduling and locks, number type (tracked values, bounded or wrapping range, failing callbacks); also i8 and i32 in C14/C15";
const ALL_REAL: &str = "advanced_collections::{circular_buffer, counter, disjoint_set}, unmodified, in debug and release builds";
const LEASE_STUB: &str = "simulated: senders, network (reordering, loss, duplication, corruption), node crashes and restarts from a durable log, client scheduling, value types (tracked with failing callbacks, i32, String, reversed order)";
const COST_STUB: &str = "simulated: order of the clients' operations, hash functions, element and source callbacks, allocator (bytes held are counted), OS randomness";
const COST_REAL: &str = "advanced_collections::{circular_buffer, counter, disjoint_set} on std's collections, unmodified, in a build where every basic block of it and of the generic code it uses advances a virtual clock";
const CLOCK_STUB: &str = "simulated: time (basic blocks executed plus words of memory moved), order of the clients' operations, hash functions, allocator, OS randomness";
pub const PROPS: [Prop; 25] = [
    Prop { id: "C01", real: RING_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C02", real: RING_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C03", real: RING_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C04", real: RING_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C05", real: RING_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C06", real: CNT_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C07", real: CNT_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C08", real: CNT_REAL, stub: "simulated: workers, aggregator, network (delay, reordering, loss and retransmission, relays), crashes, durable item log, hash functions, allocator, OS randomness", rule: RULE },
    Prop { id: "C09", real: CNT_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C10", real: DS_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C11", real: DS_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C12", real: DS_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C13", real: DS_REAL, stub: "simulated: client scheduling and locks, hash functions, the clients' stacks (256 KiB, use measured by painting)", rule: RULE },
    Prop { id: "C14", real: IV_REAL, stub: IV_STUB, rule: RULE },
    Prop { id: "C15", real: IV_REAL, stub: "simulated: senders, network (reordering, loss, duplication, delay, gossip), receiver restarts, client scheduling, bound values", rule: RULE },
    Prop { id: "C16", real: IV_REAL, stub: IV_STUB, rule: RULE },
    Prop { id: "C17", real: ALL_REAL, stub: STUBS, rule: RULE },
    Prop { id: "C18", real: ALL_REAL, stub: COST_STUB, rule: RULE },
    Prop { id: "C19", real: "advanced_collections::{counter, disjoint_set} on std's HashMap and Vec, unmodified, in debug and release builds", stub: "simulated: client scheduling and locks, allocator (refuses everything or the n-th request), hash functions, OS randomness", rule: RULE },
    Prop { id: "C20", real: IV_REAL, stub: LEASE_STUB, rule: RULE },
    Prop { id: "C21", real: IV_REAL, stub: LEASE_STUB, rule: RULE },
    Prop { id: "C22", real: IV_REAL, stub: LEASE_STUB, rule: RULE },
    Prop { id: "C23", real: IV_REAL, stub: "simulated: senders, network (reordering, loss, duplication), disks (full, torn and lost writes, crashes), client scheduling, value types with failing callbacks; the journal's reader is the simulator's", rule: RULE },
    Prop { id: "C24", real: COST_REAL, stub: CLOCK_STUB, rule: RULE },
    Prop { id: "C25", real: DS_REAL, stub: "simulated: nodes, network (reordering, duplication, loss with late retransmission, gossip, shipped copies), crashes, durable and compacted logs, hash functions, allocator, OS randomness", rule: RULE },
];
pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
#[cfg(not(feature = "cost"))]
fn missing() -> ! {
    eprintln!("this build does not contain the scenario");
    std::process::exit(2)
}
#[cfg(not(feature = "cost"))]
pub fn gen(prop: &str, seed: u64, deep: bool) -> Plan {
    match prop {
        #[cfg(feature = "counter")]
        "C06" | "C07" | "C09" => counter::gen(prop, seed),
        #[cfg(feature = "space")]
        "C18" | "C24" => cost::gen(prop, seed),
        #[cfg(feature = "dset")]
        "C25" => replica::gen(seed),
        #[cfg(feature = "space")]
        "C19" => cap::gen(prop, seed),
        #[cfg(feature = "counter")]
        "C08" => dist::gen(seed),
        #[cfg(feature = "dset")]
        "C10" | "C11" if dset::is_large(seed) => dset::gen_deep(prop, seed, deep),
        #[cfg(feature = "dset")]
        "C10" | "C11" | "C12" => dset::gen(prop, seed),
        #[cfg(feature = "dset")]
        "C13" => dset::gen_deep(prop, seed, deep),
        #[cfg(feature = "iv")]
        "C14" | "C15" | "C16" => iv::gen(prop, seed),
        #[cfg(feature = "lease")]
        "C20" | "C21" | "C22" | "C23" => lease::gen(prop, seed),
        "C17" => match mix(seed ^ 17) % 3 {
            #[cfg(feature = "ring")]
            0 => ring::gen(prop, seed),
            #[cfg(feature = "counter")]
            1 => counter::gen(prop, seed),
            #[cfg(feature = "dset")]
            2 => dset::gen(prop, seed),
            _ => missing(),
        },
        #[cfg(feature = "ring")]
        "C01" | "C02" | "C03" | "C04" | "C05" => ring::gen(prop, seed),
        _ => missing(),
    }
}
#[cfg(not(feature = "cost"))]
pub fn execute(p: &Plan) {
    match p.prop.as_str() {
        #[cfg(feature = "counter")]
        "C06" | "C07" | "C09" => counter::execute(p),
        #[cfg(feature = "space")]
        "C18" | "C24" => cost::execute(p),
        #[cfg(feature = "dset")]
        "C25" => replica::execute(p),
        #[cfg(feature = "space")]
        "C19" => cap::execute(p),
        #[cfg(feature = "counter")]
        "C08" => dist::execute(p),
        #[cfg(feature = "dset")]
        "C10" | "C11" if p.get("deep") == 1 => dset::execute_deep(p),
        #[cfg(feature = "dset")]
        "C10" | "C11" | "C12" => dset::execute(p),
        #[cfg(feature = "dset")]
        "C13" => dset::execute_deep(p),
        #[cfg(feature = "iv")]
        "C14" | "C15" | "C16" => iv::execute(p),
        #[cfg(feature = "lease")]
        "C20" | "C21" | "C22" | "C23" => lease::execute(p),
        "C17" => match p.get("sub") {
            #[cfg(feature = "ring")]
            0 => ring::execute(p),
            #[cfg(feature = "counter")]
            1 => counter::execute(p),
            #[cfg(feature = "dset")]
            2 => dset::execute(p),
            _ => missing(),
        },
        #[cfg(feature = "ring")]
        "C01" | "C02" | "C03" | "C04" | "C05" => ring::execute(p),
        _ => missing(),
    }
}
#[cfg(not(feature = "cost"))]
pub fn op_name(prop: &str, p: &Plan, code: u8) -> String {
    let t: &[&str] = match prop {
        "C06" | "C07" | "C09" => &counter::NAMES,
        "C18" | "C24" => cost::names(p),
        "C25" => &replica::NAMES,
        "C19" => &cap::NAMES,
        "C08" => &dist::NAMES,
        "C10" | "C11" if p.get("deep") == 1 => &dset::DEEP_NAMES,
        "C10" | "C11" | "C12" => &dset::NAMES,
        "C13" => &dset::DEEP_NAMES,
        "C14" | "C15" | "C16" => iv::names(prop),
        "C20" | "C21" | "C22" | "C23" => &lease::NAMES,
        "C17" if p.get("sub") == 1 => &counter::NAMES,
        "C17" if p.get("sub") == 2 => &dset::NAMES,
        _ => &ring::NAMES,
    };
    t.get(code as usize).unwrap_or(&"?").to_string()
}
// the build with the virtual clock decides only C24
#[cfg(feature = "cost")]
pub fn gen(prop: &str, seed: u64, _deep: bool) -> Plan {
    cost::gen(prop, seed)
}
#[cfg(feature = "cost")]
pub fn execute(p: &Plan) {
    cost::execute(p)
}
#[cfg(feature = "cost")]
pub fn op_name(_prop: &str, p: &Plan, code: u8) -> String {
    cost::names(p).get(code as usize).unwrap_or(&"?").to_string()
}
