#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
from properties_table import TABLE
HERE = os.path.dirname(os.path.abspath(__file__))
Q, S, R = "include/boost/lockfree/queue.hpp", "include/boost/lockfree/stack.hpp", "include/boost/lockfree/spsc_queue.hpp"
F, TP, TD = "include/boost/lockfree/detail/freelist.hpp", "include/boost/lockfree/detail/tagged_ptr_ptrcompression.hpp", "include/boost/lockfree/detail/tagged_ptr_dcas.hpp"
CP, AT, PO = "include/boost/lockfree/detail/copy_payload.hpp", "include/boost/lockfree/detail/atomic.hpp", "include/boost/lockfree/policies.hpp"
MC = "bounded symbolic model checking of the compiled headers (LLVM IR -> SAT, kissat)"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, tech=MC, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), _tech=tech, _note=note))
prop("Q01", "Concurrent queue operations are linearizable in FIFO order",
     "Whatever threads push to and pop from (or consume from) one queue at the same time, there is an order of all these operations that agrees with the order in which they were called and returned and in which the queue is a FIFO queue: every successful pop takes the oldest element, a pop that reports an empty queue saw it empty, a push that fails found no space. So no element is lost, duplicated, invented or reordered, also when internal nodes are recycled under a stalled thread.",
     ["schedules", "programs", "configurations"], "every interleaving of the atomic steps of 2-3 threads, for each of the node-based, fixed-size and compile-time sized configurations",
     "the stress tests run a handful of random schedules with millions of operations and check only that values arrive exactly once; narrow interleavings (ABA, lagging tail, two failing CAS in a row) and the order across threads are never examined",
     [Q, F, TP], [("push: link behind the tail, then swing the tail", Q + ": do_push"), ("pop: re-check the head, help the tail, copy, then CAS the head", Q + ": pop"), ("tags against ABA", Q + ": node::node, get_next_tag"), ("free list", F + ": allocate_impl, deallocate_impl")],
     ["return values and values delivered by push, bounded_push, pop, consume_one, consume_all; contents left at the end"])
prop("Q02", "The queue stays FIFO-consistent on weakly ordered memory",
     "With nothing but the ordering the queue itself requests from the hardware (no sequential consistency), the results of concurrent pushes and pops are still those of a FIFO queue in some order that respects each thread's program order, and an element is always received with the value that was pushed. Nothing relies on the strong ordering of x86.",
     ["schedules", "programs"], "every execution of the release/acquire memory model for the memory orders written in the code, 2-3 threads",
     "the tests run on x86 only, where every load acquires and every store releases: a relaxed order in place of acquire or release changes no generated instruction and no test result",
     [Q, F, AT], [("memory orders of the loads, stores and CAS of head, tail and next", Q + ": do_push, pop, initialize, node::node"), ("memory orders of the pool", F + ": allocate_impl, deallocate_impl")],
     ["return values and values delivered by push, bounded_push, pop, consume_one"])
prop("Q03", "Single-threaded queue operations conform to a FIFO reference model",
     "Used by one thread, every overload of the queue's operations (thread-safe, bounded, unsynchronized, converting, by functor) does, in every mixture, exactly what a FIFO sequence does: success and failure, the values delivered and their order, emptiness, the counts returned. Memory is allocated only when a growing queue has no free node and all of it is released by the destructor.",
     ["inputs", "programs", "histories", "configurations"], "every sequence of up to 4-8 operations drawn from all overloads, all element values, three configurations",
     "the unit tests run one fixed short sequence per overload; mixtures (an unsynchronized operation after a concurrent one, conversions, reserve in between) are untested",
     [Q, F, CP], [("unsynchronized and thread-safe variants share one representation", Q + ": unsynchronized_push, unsynchronized_pop, push, pop"), ("conversion", CP + ": copy_payload")],
     ["return values, delivered values, empty(), number of live allocations"])
prop("S01", "Concurrent stack operations are linearizable in LIFO order",
     "Whatever threads push to, pop from, consume from or ask the emptiness of one stack at the same time, there is an order of all these operations that agrees with the order in which they were called and returned and in which the stack is a LIFO stack. So no element is lost, duplicated or invented, also when internal nodes are recycled under a stalled thread.",
     ["schedules", "programs", "configurations"], "every interleaving of the atomic steps of 2-3 threads, for each of the node-based, fixed-size and compile-time sized configurations",
     "the stress tests run a few random schedules and check that values arrive exactly once; narrow interleavings such as a node popped, recycled and pushed again under a stalled pop are never forced, and the order is never checked",
     [S, F, TP], [("push: link, then CAS the top", S + ": do_push, link_nodes_atomic"), ("pop: read the successor, CAS the top with the next tag", S + ": consume_one"), ("free list", F + ": allocate_impl, deallocate_impl")],
     ["return values and values delivered by push, bounded_push, pop, consume_one, empty; contents left at the end"])
prop("S02", "Bulk operations of the stack are atomic",
     "Pushing a range puts all of its elements on the stack in one indivisible step, contiguous and in order, and reports where it stopped; taking all elements atomically (in either order) takes the whole content of one moment, every element exactly once, in stack order or exactly reversed. Consuming all elements one by one takes each element exactly once until the stack is seen empty, all of this under concurrent pushes and pops.",
     ["schedules", "programs", "configurations"], "every interleaving of a bulk operation with concurrent pushes, pops and other bulk operations",
     "bulk operations are only unit-tested by a single thread; no existing test runs one concurrently with anything",
     [S, F], [("range push builds a private chain and links it with one CAS", S + ": prepare_node_list, link_nodes_atomic"), ("whole stack taken with one CAS", S + ": consume_all_atomic, consume_all_atomic_reversed")],
     ["return values and order of values delivered by push(begin,end), bounded_push(begin,end), consume_all, consume_all_atomic, consume_all_atomic_reversed"])
prop("S03", "The stack stays consistent on weakly ordered memory",
     "With nothing but the ordering the stack itself requests from the hardware, the results of concurrent pushes, pops and bulk operations are those of a LIFO stack in some order that respects each thread's program order, and an element is always received with the value that was pushed.",
     ["schedules", "programs"], "every execution of the release/acquire memory model for the memory orders written in the code, 2-3 threads",
     "the tests run on x86 only, where every load acquires and every store releases: a relaxed order in place of acquire or release changes no generated instruction and no test result",
     [S, F, AT], [("memory orders of the loads and CAS of the top of the stack", S + ": link_nodes_atomic, consume_one, consume_all_atomic"), ("memory orders of the pool", F + ": allocate_impl, deallocate_impl")],
     ["return values and values delivered by all thread-safe operations"])
prop("S04", "Single-threaded stack operations conform to a LIFO reference model",
     "Used by one thread, every overload of the stack's operations (thread-safe, bounded, unsynchronized, ranges of any length including empty, converting, by functor, whole-stack in both orders) does, in every mixture, exactly what a LIFO sequence does: success and failure, values and order, the position where a range push stopped, counts, emptiness. Memory is allocated only when a growing stack has no free node and all of it is released by the destructor.",
     ["inputs", "programs", "histories", "configurations"], "every sequence of up to 4-7 operations drawn from all overloads, all element values, ranges of 0-3 elements, three configurations",
     "the unit tests run one fixed short sequence per overload and configuration; empty ranges, ranges cut short by exhaustion, and most overloads of the fixed-size configurations are never run",
     [S, F, CP], [("range push", S + ": prepare_node_list"), ("unsynchronized and thread-safe variants share one representation", S + ": unsynchronized_push, unsynchronized_pop"), ("reversal", S + ": consume_all_atomic_reversed")],
     ["return values, delivered values, empty(), number of live allocations"])
prop("R01", "The single-producer single-consumer queue is a bounded FIFO channel",
     "With one producer and one consumer thread, the elements received are a prefix of the elements accepted, in order, each exactly once, whatever mixture of single, batch, array, iterator and functor operations the two sides use. A push accepts exactly as much as there is space for and a pop delivers exactly as much as there is, up to what the other side changes meanwhile, and the numbers of elements and of free places reported to each side are bounded by the same amounts.",
     ["schedules", "programs", "inputs", "configurations"], "every interleaving of a producer with a consumer, every ring offset and fill level, capacities 1-4",
     "the stress tests stream integers through one large ring with a few batch sizes; wrap-around in the middle of a batch while the other side moves, at every offset and with full or empty rings, is not forced",
     [R], [("index arithmetic", R + ": next_index, read_available, write_available"), ("copy first, publish afterwards", R + ": ringbuffer_base::push, pop, consume_one, consume_all")],
     ["return values, delivered values, read_available(), write_available(), front()"])
prop("R02", "The spsc queue publishes elements safely on weakly ordered memory",
     "With nothing but the ordering the ring buffer itself requests from the hardware, the consumer always sees complete elements in order, the producer never overwrites an element that is still being read, and no two accesses of the two threads to an element race.",
     ["schedules", "programs", "configurations"], "every execution of the release/acquire memory model; all pairs of element accesses are checked for happens-before",
     "on x86 a relaxed index store behaves like a release store: no test on this machine can notice a missing acquire or release",
     [R, AT], [("release store of the own index, acquire load of the other one", R + ": ringbuffer_base::push, pop, pop_to_output_iterator, consume_one, consume_all")],
     ["delivered values; ordering of element accesses"])
prop("R03", "Single-threaded spsc queue operations conform to a bounded FIFO model",
     "From every internal position and fill level, every overload of the operations (single, batch, array, range, iterator, functor, converting, discarding, reset) behaves like a FIFO sequence bounded by the capacity: how many elements are accepted or delivered, which ones, what is reported as available on both sides, what front() refers to. No operation after construction allocates memory.",
     ["inputs", "programs", "histories", "configurations"], "every ring offset x fill level of capacities 1-3, every operation with batch sizes 0 to capacity+2, then further arbitrary operations, for trivial and non-trivial element types",
     "the unit tests visit a few offsets with fixed batch sizes; batches that wrap, batches larger than the space, zero-length batches and non-trivial element types are mostly not run",
     [R, CP], [("wrap-around of batches", R + ": ringbuffer_base::push( begin, end ), pop, pop_to_output_iterator, consume_all"), ("reset", R + ": reset")],
     ["return values, delivered values, read_available(), write_available(), front(), empty()"])
exec(open(os.path.join(HERE, "gen_more.py")).read()) if os.path.exists(os.path.join(HERE, "gen_more.py")) else None
NA = globals().get("NA", [])
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks = []
    for p in P:
        if p["id"] not in TABLE:
            continue
        t = TABLE[p["id"]]
        note = "Holds for all values of the symbolic inputs and all schedules within the bounds: %s. Outside: %s. Trusts the symbolic executor in /verif/engine, clang and the SAT solver." % (t["bounds"], t["outside"])
        checks.append(dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
                           technique=p["_tech"], level=t.get("level", "model_checking"), level_note=p["_note"] or note))
    m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=NA,
             notes="No hooks in /repo. Encodings are regenerated from /repo/include on every run (harness + headers -> LLVM IR -> SAT). Known and fixed defects: known_findings.txt.")
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
main()
