#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay schema-valid)."""
import json, os, sys
CB="src/circular_buffer/circular.rs"; CI="src/circular_buffer/iter.rs"
CO="src/counter/counter.rs"; DS="src/disjoint_set/disjoint_set.rs"
IV="src/interval/interval.rs"; IM="src/interval/interval_math.rs"; IC="src/interval/interval_cmp.rs"; IB="src/interval/bounds.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","A shared circular buffer is always the reference bounded deque",
 "Under every interleaving of clients that share circular buffers, each operation returns what a bounded double-ended queue applied in the same order would return, and the buffer then holds exactly that queue's elements in that order, with that capacity. A push at one end of a full buffer discards exactly the element at the other end (a buffer of capacity 0 discards the pushed one); resizing to a smaller capacity keeps the newest (rearmost) elements; out-of-range indices panic and change nothing. Every view (iteration in both directions, the two slices, linearized slice, indexing, first/last, comparisons, fullness and length) shows the same contents, also to several readers interleaved element by element.",
 ["schedules","histories","inputs","configurations"],
 "all interleavings of 1-4 clients over 1-3 buffers, all operation histories, element kinds (owning, zero-sized, over-aligned, plain, types with invalid bit patterns), capacities including 0 and large ones",
 "unit tests run one short single-client history per operation on i32 with one wrap-around state; they never combine operations across wrap, resize, rotate and several sharers",
 [CB,CI],[("ring indices start/end with one spare slot",CB+" push_*/pop_*/internal_index/incr_*/decr_*"),("two-slice views",CB+" slices, slices_mut, linearize"),("refill on resize",CB+" resize")],
 [("start,end","ring positions of the first element and one past the last",CB),("buffer","capacity+1 slots",CB)],["return values and contents after every operation"])
p("C02","Every element is destroyed exactly once, whatever fails",
 "Every element that enters a circular buffer is either returned to the caller or destroyed by the buffer exactly once, and no element is read, compared, cloned, returned or destroyed before it was stored or after it left. This holds when element destructors, clones, comparisons or the source iterator panic at any point, when iterators are dropped or leaked midway, and at the buffer's own destruction. The only elements that may stay undestroyed are those inside a leaked consuming iterator or still inside a buffer whose own destruction was interrupted by a panicking element destructor.",
 ["fault_sequences","crash_points","histories","schedules"],
 "all operation histories, all positions (n-th element callback) at which a clone, drop, comparison or source-iterator call panics, all abandonment points of iterators",
 "one test counts drops on one fault-free history; none lets a callback panic, clones an owning element or abandons an iterator",
 [CB,CI],[("slots never dropped implicitly, only through pop",CB+" pop_at, push_at, Drop"),("destructor empties the buffer",CB+" clear, Drop")],
 [("buffer","slots outside start..end hold no element",CB)],["element constructor/clone/drop callbacks"])
p("C03","A circular-buffer operation cut short by a panic leaves a usable buffer",
 "When a caller-supplied callback (element drop, clone or comparison, or a source iterator) panics inside a circular-buffer operation, every buffer involved stays usable: it holds an order-preserving selection of its previous and incoming elements, within its capacity, all still alive, and all later operations behave as the bounded deque from that state. Only elements the operation had to discard or had already consumed may be missing, plus at most the one element in flight; an interrupted bulk feed has applied every item delivered to it except possibly the one in flight; the source of an interrupted clone and both sides of an interrupted comparison are unchanged.",
 ["fault_sequences","crash_points","histories","schedules"],
 "all histories in which any callback of any operation panics at any position while other clients keep using the buffers afterwards",
 "no test makes a callback panic and then goes on using the buffer",
 [CB,CI],[("indices are advanced only after the element is moved",CB+" pop_front, push_back"),("new storage is complete before it replaces the old",CB+" resize")],
 [("start,end","must stay consistent with the live slots at every callback",CB)],["buffer contents after the panic was caught"])
p("C04","Abandoning a drain or consuming iterator loses nothing",
 "A draining iterator hands out exactly the front elements in order; if it is dropped, leaked, or its consumer crashes after any number of steps, the buffer keeps exactly the elements not yet handed out, in order, with unchanged capacity and works normally. A consuming iterator stopped at any point has handed out exactly the front elements in order, and dropping it destroys exactly the rest. Size hints are never wrong at any step.",
 ["crash_points","histories","schedules"],
 "all cancellation points (drop, leak, panic in the consumer, adaptor combinations) of drains and consuming iterators at any ring rotation",
 "tests drain completely or take(2) once, from an unrotated buffer, and never leak or crash",
 [CI,CB],[("iterators pop from the front of the live buffer",CI+" Drain::next, IntoIter::next")],
 [],["items handed out and contents afterwards"])
p("C05","A circular buffer in use needs no memory; refused memory changes nothing",
 "Once a circular buffer exists, pushing, popping, clearing, bulk feeding, appending, draining, reading, comparing and rearranging never request memory, so they complete while the allocator refuses every request. Creating, resizing, converting and cloning may need memory; if it is refused at any point, or the requested capacity is impossible, that operation fails, every existing buffer keeps its contents and capacity, and no memory or element is leaked. Memory is always released with the size and alignment it was requested with, and never written outside its bounds.",
 ["fault_sequences","histories","configurations"],
 "all histories with the allocator failing every request or the n-th request of an operation, all element sizes and alignments",
 "no test controls the allocator; the documented 'not allocating any memory while being used' is not checked at all",
 [CB],[("fixed boxed slice of slots",CB+" with_capacity"),("new storage requested before old contents are moved",CB+" resize")],
 [("buffer","allocated once per capacity",CB)],["allocator requests, contents after a refused request"])
p("C06","A shared counter is always the reference multiset, whatever the hash order",
 "Under every interleaving of clients sharing counters, and for every hash function and hash seed (including ones where all keys collide), each operation gives the result of the same operation on a mathematical multiset: pushing and feeding add one per item, adding counters adds counts per key, subtracting saturates per key and removes keys that reach zero without creating keys, and conversions from maps keep every count. By-value and by-reference forms, and operands with different hashers, give the same result and never modify a by-reference operand. Counts are exact over the whole range of the count type.",
 ["schedules","histories","inputs","configurations"],
 "all interleavings of 1-4 clients over 1-3 counters, all operation histories, hash families and seeds (random, constant, low-entropy), key multiplicities up to the limit of the count type",
 "the three unit tests count a few items once with one hasher; no test subtracts, mixes hashers, or collides keys",
 [CO,"src/counter/fast_counter.rs"],[("entry-based increments",CO+" push, add_assign"),("saturating removal",CO+" sub_assign, sub")],
 [("counter","key to count map",CO)],["contents after every operation"])
p("C07","An interrupted feed or merge counts exactly what was applied",
 "When a counter is fed from a source that fails midway (panic, early end, refused memory) or a key's hash, comparison or clone panics during an update, exactly the items processed before the failure are counted, except that the one in flight may be missing. During an interrupted merge or subtraction each key has either its old count or its fully updated one, never another value, and by-reference operands are unchanged. The counter stays usable, no key is leaked or destroyed twice.",
 ["fault_sequences","crash_points","histories","configurations"],
 "all positions at which the source iterator, key hash/eq/clone or the allocator fails inside any counter operation, for all hash families",
 "no test lets a key operation, iterator or allocation fail",
 [CO],[("one map entry update per item",CO+" push, extend, add_assign, sub_assign")],
 [("counter","key to count map",CO)],["contents after the failure was caught"])
p("C08","Distributed counting converges to the true counts",
 "When workers count shards of an item stream into their own counters and ship them to an aggregator that merges them in any delivery order, the aggregate equals the multiset of all items processed, whatever the batching, merge form, hash seeds and delivery order. Recounting a crashed worker's shard from scratch and retracting a previously merged batch by subtraction leave exactly the remaining batches counted.",
 ["schedules","fault_sequences","configurations"],
 "all delivery orders and delays, all shardings and batch sizes, worker crashes at any item with restart, retraction of any merged batch at any later time, all hash seeds",
 "tests merge once in one fixed order with one hasher",
 [CO],[("merge adds per key independent of iteration order",CO+" add, add_assign"),("retraction subtracts per key",CO+" sub, sub_assign")],
 [],["final aggregate"])
p("C09","Frequency ranking is complete and ordered for every hash layout",
 "For every hash seed, hash family, insertion order and table history, the most-common listing contains each counted key exactly once with its exact count, in non-increasing order of count over the whole count range, and the consuming and borrowing forms agree; the borrowing form leaves the counter unchanged. If a key clone or an allocation fails while listing, the counter is unchanged.",
 ["schedules","configurations","fault_sequences","histories"],
 "all hash seeds and table layouts (insertions, removals, growth), counts up to the limit of the count type, failures at any key clone or allocation",
 "one doc test looks at the first entry of one listing",
 [CO],[("sort by complemented count",CO+" most_common, into_most_common")],[],["returned listing"])
p("C10","A shared disjoint set is always the connectivity closure of its unions",
 "Under every interleaving of clients and for every hash function and seed, two elements are reported in the same subset exactly when a chain of completed unions connects them (an element that was never added is in no subset, not even with itself), and membership, emptiness and length reflect exactly the elements added since creation or the last clear. Queries, repeated unions, re-adding elements, reserving and iterating never change the partition, and the final partition does not depend on the order of the unions.",
 ["schedules","histories","configurations"],
 "all interleavings of union/add/query/enumerate/clear by 1-4 clients over 1-2 sets, all union orders, all hash families and seeds, sets up to tens of thousands of elements",
 "one test makes three unions; none permutes, repeats, clears or grows",
 [DS,"src/disjoint_set/fast_disjoint_set.rs"],[("union by rank",DS+" union"),("path compression during queries",DS+" find_with_path_compression"),("dense ids per element",DS+" make_or_get_set")],
 [("ids","element to id",DS),("data_by_id","parent/rank forest",DS)],["query answers after every operation"])
p("C11","Enumerating a disjoint set yields exactly its partition",
 "Enumerating the subsets yields every element exactly once, grouped with exactly the elements it is connected to, with no empty or repeated subset, for every hash seed and element layout. An enumeration abandoned at any point (dropped, leaked, consumer crash, refused memory) yields a correct part of the partition and leaves the set unchanged and usable.",
 ["schedules","crash_points","fault_sequences","configurations"],
 "all partitions and forest shapes reached by histories, all hash seeds including the library's own randomly seeded grouping, all abandonment points",
 "no test inspects an enumeration",
 [DS],[("group by root",DS+" build_sets"),("set iterator",DS+" SetIter")],[],["yielded subsets"])
p("C12","A failed disjoint-set update leaves a consistent set",
 "When an element's hash, comparison, clone or destructor, a source iterator or a memory request fails during an update of a disjoint set, every element is either fully registered (its own subset, reported, enumerated and counted) or absent, the requested union is either fully made or not made, and no other elements become connected or disconnected. All later operations behave normally from that state.",
 ["fault_sequences","crash_points","histories"],
 "failures at any hash, comparison, iterator or allocation call inside add, union, bulk feed, query, clone or reserve, followed by arbitrary further histories",
 "no test lets a key operation, iterator or allocation fail",
 [DS],[("id assignment and forest growth happen together",DS+" make_or_get_set")],
 [("ids / data_by_id","must stay the same length",DS)],["answers after the failure was caught"])
p("C13","Disjoint-set operations need only a small bounded stack",
 "Whatever the order in which elements are united, including orders that would build a long chain in a naive forest, every disjoint-set operation and enumeration completes on a small fixed stack that does not grow with the number of elements except logarithmically.",
 ["schedules","histories","inputs"],
 "adversarial, random and reordered union sequences over up to hundreds of thousands of elements executed by a client with a small stack",
 "tests use at most eight elements on the default stack",
 [DS],[("union by rank bounds tree height, hence recursion depth",DS+" union, find_with_path_compression")],
 [("rank","upper bound of tree height",DS)],["client survives on a small stack"])
p("C14","In-place interval arithmetic is all-or-nothing",
 "Adding, subtracting, multiplying or dividing an interval in place by a value either completes with exactly the interval whose bounds are the transformed bounds (exchanged together with their closedness when the order reverses, empty when a not fully closed interval collapses to a point), or, if the number type fails at any point (overflow, division by zero, failing clone or comparison), leaves the interval exactly as it was. The operator forms that return a new interval give the same result as the in-place forms. An interval with its lower bound above its upper one, or a single-point interval with an open bound, is never observable.",
 ["fault_sequences","crash_points","histories","inputs"],
 "all histories of in-place and returning arithmetic on shared intervals with the number type failing at any call, by range overflow or injected failure",
 "tests never overflow or fail inside an operation, and only use a handful of values",
 [IM,IV,IB],[("bounds transformed one after the other, then normalised",IM+" *_assign; "+IV+" fix_after_modification")],
 [("lo, up","both bounds must change together",IV)],["interval after every success or failure"])
p("C15","Coalescing and narrowing intervals do not depend on delivery order",
 "When intervals are delivered in any order, with loss and duplication, and a receiver coalesces them by merging whenever merging is possible, it ends with exactly the maximal connected pieces of the union of the delivered intervals; narrowing by intersection ends with exactly the common points (possibly none), and spanning with exactly the convex hull. At every step containment of values and intervals, overlap and mergeability tests agree with the point sets delivered so far, an empty interval contains no value and overlaps nothing, and a refused merge returns both intervals unchanged.",
 ["schedules","fault_sequences","histories"],
 "all delivery orders, losses and duplications of interval messages to a receiver, with all combinations of open and closed bounds, empty and single-point intervals",
 "tests perform single pairwise operations in one order",
 [IV,IC,IB],[("bound ordering with closedness",IB+" Ord for LowerBound/UpperBound"),("merge/intersection/span keep the outer or inner bounds",IV+" merge, into_merged, intersection, into_intersection, span, into_span")],
 [],["receiver state after every delivery"])
p("C16","Interval set operations survive failing bound comparisons",
 "If comparing, cloning or moving bound values fails (panics) inside an in-place merge, span or intersection, the interval stays well formed and lies between its old value and the completed result: a merge or span never loses points it had and never exceeds the hull, an intersection never gains points and never drops below the true intersection. No bound value is leaked or destroyed twice by any interval operation, completed or failed, and read-only operations leave their operands unchanged.",
 ["fault_sequences","crash_points","histories"],
 "failures at any bound-value callback inside any interval operation, with histories continuing afterwards",
 "no test uses a fallible or non-Copy bound type",
 [IV,IC,IB],[("bounds are swapped one at a time, never copied",IV+" merge, span, intersection")],
 [("lo, up","well-formed at every callback",IV)],["interval after the failure was caught"])
p("C17","Clones are equal, complete and fully isolated",
 "A clone of a circular buffer, counter or disjoint set taken at any moment equals the original at that moment (same contents, order, capacity of a circular buffer, counts, partition), clones each stored element exactly once and touches nothing else. Afterwards no operation on either one is ever visible in the other, whichever clients use them. If cloning an element or obtaining memory fails, the original is unchanged and everything already cloned is released.",
 ["schedules","histories","fault_sequences","configurations"],
 "clones taken at any ring rotation, table layout or forest shape by any client while readers are midway, followed by arbitrary interleaved use of both, with clone or allocation failures at any point",
 "no test clones a collection",
 [CB,CO,DS],[("element-wise clone of the stored elements",CB+" Clone"),("derived clone",CO+", "+DS)],[],["both collections after every later operation"])
p("C18","Memory held is bounded by what had to be stored, however long the history",
 "However long a history of operations is, whoever performs them and whichever of them fail, the memory the collections hold stays proportional to the most they ever had to hold at once: a circular buffer holds memory for its capacity only, and a counter or disjoint set for the largest number of distinct keys it contained together with the items offered in one operation or reserved. Repeating the same operations for any number of rounds - recounting or re-adding known keys, repeating unions, failing operations, clearing and refilling, cloning over and over, queries, listings and enumerations, complete or abandoned - never adds to it, listings and iterators release all they took, and once everything is destroyed nothing is held.",
 ["histories","fault_sequences","schedules","configurations"],
 "histories of up to some hundred thousand operations (tens to thousands of rounds of the same operations) with failing callbacks and allocations in any round, for all element sizes and hash families",
 "tests run a handful of operations and never look at memory; growth appears only after many rounds",
 [CB,CO,DS],[("fixed storage",CB+" with_capacity, resize"),("keys that reach zero are removed",CO+" sub_assign"),("one record per distinct element",DS+" make_or_get_set, clear")],
 [("data_by_id, id_by_val","grow together, one record per element",DS),("counter","one entry per key",CO)],["bytes held from the allocator after every operation"])
p("C19","Capacity promised to counters and disjoint sets needs no memory later",
 "A counter or disjoint set created with a capacity n - with_capacity or with_capacity_and_hasher, also after being cleared - or given room for n further elements by reserve (for counters also what capacity() reports, as long as nothing was removed) takes that many different elements without requesting any memory: adding them one by one, joining them, feeding them in bulk or merging a counter, with at most as many items as there is room left, succeeds while the allocator refuses every request, and so do adding or joining elements already present, lookups and questions about subsets. Collections created empty (new, default, with_hasher, capacity 0) request no memory at all. Creating or reserving fails when the capacity is impossible or memory is refused; a failed reserve leaves contents and earlier promises as they were and nothing leaks.",
 ["histories","fault_sequences","schedules","configurations"],
 "all histories of clients sharing prepared counters and disjoint sets, all capacities (around table and vector growth sizes), hash families, and memory refused always or at the n-th request",
 "one test checks that capacity() of an empty counter is at least what was asked for; none counts memory requests or refuses memory",
 [CO,DS],[("capacity handed to the table and the nodes",CO+" with_capacity*; "+DS+" with_capacity*, reserve"),("one entry per element",CO+" push; "+DS+" make_or_get_set")],
 [("ids, data_by_id","both need room for every promised element",DS)],["allocator requests during operations that must fit"])
p("C20","Replicas that order interval bounds agree whatever the arrival order",
 "Nodes that receive interval bounds over a network in any order, with losses, retransmissions and duplicates, and keep them in an ordered index - by sorting with any of the comparison operators, cmp or partial_cmp, by binary search, in an ordered set or in a hash set - all end with the same index, at every moment the one the reference order gives: bounds are ordered by value, and at equal values a closed lower bound comes before an open one and an open upper bound before a closed one; equality, hashes, <, <=, >, >=, max, min, clamp, cmp and partial_cmp are consistent with that order. Questions asked of the index give the same answers on every node: a bound compares with a value like its first (last) admitted point would, equal only if it is closed at that value; an upper bound lies below a lower bound (u < l, u <= l, l > u, l >= u) exactly when the points they admit do; a lower bound is at most an upper one (l <= u, u >= l) exactly when its value is not larger, and lies below it (l < u, u > l, partial_cmp) whenever its value is smaller and never when it is larger; a lower and an upper bound are never equal (== and !=); an upper bound is separated from it exactly when a gap is left between them. A comparison of values that fails (panics) while the index is being sorted leaves every bound intact, and a node that restarts and replays its log ends with the same index.",
 ["schedules","histories","fault_sequences","crash_points"],
 "all arrival orders, losses and duplications of bounds of any ordered type (also types ordered the other way round), with failing value comparisons and node restarts at any point",
 "tests compare a few pairs of integers; a comparison that disagrees with the others on some pair shows only when an index is built in a particular order",
 [IB],[("cmp/partial_cmp/lt/le/gt/ge",IB+" Ord, PartialOrd and PartialEq impls"),("gap between bounds",IB+" is_separated_from")],
 [("index of bounds","sorted, no duplicates",IB)],["index of every node after every delivery","comparison results"])
p("C21","Interval comparisons grant and look up leases alike on every node",
 "Nodes receive leases (intervals) in any order with losses, duplicates, crashes and replays, grant a lease when its interval lies strictly before or strictly after every granted one, keep the granted ones in order using interval comparisons, and look up the holder of a value by comparing intervals with values. At every moment the granted leases, their order and the holder found are those the reference gives: one interval is less (greater) than another or than a value exactly when all its points are (the value type read as a dense line, so that open ends at the same value leave room only at that value); it is less-or-equal (greater-or-equal) exactly when its upper end value is at most the other's lower end value, or the value (its lower end value at least the other's upper end value, or the value); it equals another exactly when both bounds do, and a value exactly when it is that single point; partial_cmp agrees with <, > and == and reports nothing otherwise; equal intervals have equal hashes; every ordering comparison involving an empty interval is false; and an interval contains a value exactly when it is not empty and neither less nor greater than it. A value comparison that fails (panics) changes no interval.",
 ["schedules","histories","fault_sequences","crash_points"],
 "all arrival orders of leases with every combination of open, closed, single-point and empty intervals over any ordered type, with failing value comparisons and node restarts",
 "tests compare about fifty pairs around one interval, never use comparisons to keep an order",
 [IC,IV],[("PartialOrd/PartialEq impls",IC),("contains_val",IV)],[("granted leases","pairwise disjoint and ordered",IC)],["granted leases and holders after every delivery","comparison results"])
p("C22","Corrupted requests never become intervals, valid ones arrive unchanged",
 "Requests to construct intervals arrive from careless clients over a network that reorders, duplicates and corrupts them. Every constructor (from values, from bounds, single, open, closed, half-open) panics exactly when the bounds are reversed or enclose nothing (equal values unless both ends are closed) and otherwise returns an interval with exactly the given bounds, as every accessor confirms; empty() is empty. Taken apart (into a tuple or into bounds), forwarded, put together again and cloned any number of times by any nodes, an interval stays the same; an empty interval comes apart into nothing. Values of refused requests, and of requests during which a value comparison or clone fails, are all destroyed exactly once.",
 ["fault_sequences","histories","schedules","inputs"],
 "all request contents, corruptions, forwarding chains and failing value callbacks",
 "tests try a few rejected integer inputs; none corrupts a request, forwards one or fails inside a constructor",
 [IV,IB],[("validity check",IV+" create_checked, from_bounds"),("taking apart",IV+" into_tuple, into_bounds")],
 [("lo, up","lower bound before upper bound, nothing else is ever an interval",IV)],["interval built, or refusal"])
p("C23","A textual journal of intervals can be read back after crashes",
 "Nodes append intervals to a textual journal by displaying them (writing with {} or converting to a string). After any history of appends, syncs, crashes, torn and lost writes, full devices and values whose own display fails, every complete record of the journal reads back as exactly the interval appended, in order: a square bracket for a closed and a parenthesis for an open end, the lower value, a comma, the upper value, as the values display themselves; a distinct symbol for the empty interval. A failing device is reported and never ignored, a write is never reported as failed when the device accepted it, and what an interrupted write left behind is the beginning of the record.",
 ["crash_points","fault_sequences","histories","schedules"],
 "all journals of intervals of any displayable type, with disk and display failures at any byte and crashes at any point",
 "one doc test displays three intervals to memory that never fails",
 [IV],[("Display",IV)],[],["journal text after every append and after every restart"])
p("C24","Operations meet their documented time complexity at every moment",
 "At every moment of every history, including after failures, pushing, popping, indexing, swapping and inspecting a circular buffer take a constant number of steps whatever its length, capacity and rotation; feeding, resizing, cloning, clearing, appending, converting, iterating and rearranging take steps proportional to the items, elements and capacity involved. Counting takes constant amortised steps per item, adding, subtracting and cloning counters steps proportional to their keys, ranking k keys at most k log k. Disjoint-set insertions, unions and searches take constant amortised steps whatever the order of the unions, no single search takes more than logarithmically many, and searches repeated in a deep forest soon take no longer than among single elements; enumeration is linear. Steps are counted in the simulator's virtual time, so this concerns growth and not speed.",
 ["inputs","histories","fault_sequences","configurations"],
 "all sizes (8 to 131072 elements), union orders, ring rotations, table histories, hash families and interrupted operations",
 "tests measure no time and use a few elements; a quadratic operation is invisible to them",
 [CB,CO,DS],[("ring indices",CB+" push_*, pop_*, internal_index"),("union by rank with path compression",DS+" union, find_with_path_compression"),("one entry access per item",CO+" push")],
 [("rank, parent","depth of the forest",DS)],["virtual time consumed by every operation"])
p("C25","Replicas of a disjoint set agree whatever the order of delivery",
 "Nodes hold replicas of one disjoint set and learn facts (an element exists, elements belong together) over a network that reorders, delays, duplicates and loses them (lost ones arrive later). They tell each other the subsets they enumerate, ship clones of their whole set, crash and rebuild it by replaying a durable log in any order and by any of the ways to add (single unions in either direction, bulk feeding), and compact their logs to the enumerated subsets. At every moment each node's set - membership, length, pairwise connection and enumeration - is exactly the closure of the facts that reached it, an enumeration fed to another node conveys exactly the partition it shows, and when everything is delivered all nodes agree, whatever hash functions and histories they have and whichever updates were interrupted by a failing key, source or memory request and redone after a restart.",
 ["schedules","histories","fault_sequences","crash_points"],
 "all delivery orders, duplications, losses, crash points and compactions over 2 to 5 nodes and up to 300 elements",
 "one test unites three pairs on one set; no test lets a set be rebuilt from an enumeration, a clone or a permuted log",
 [DS],[("union and make_set commute",DS+" union, make_set, extend"),("enumeration",DS+" build_sets"),("clone",DS+" derive(Clone)")],
 [("ids / data_by_id","replicated partition",DS)],["every replica after every delivery, enumerations sent between nodes, agreement at the end"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
except ImportError: pass
print(len(P))
