# What decides each property: (translation unit, scenario regex, engine options)
CFGS = (("n", "0"), ("f", "1"), ("c", "2"))      # node-based, fixed_sized<true>, capacity<>
RCFGS = (("r", "0"), ("c", "1"))                 # spsc_queue sized at run time, capacity<>
HARNESS = {}
def h(name, src, *flags):
    HARNESS[name] = (src, list(flags))
    return name
for s, n in CFGS:
    h("queue_" + s, "c_queue.cpp", "-DCFG=" + n)
    h("stack_" + s, "c_stack.cpp", "-DCFG=" + n, "-DRANGE=1")
    h("queue_ra_" + s, "c_queue.cpp", "-DCFG=" + n, "-DREALTIME=false")
    h("stack_ra_" + s, "c_stack.cpp", "-DCFG=" + n, "-DRANGE=1", "-DREALTIME=false")
    q, t = (3, 4) if n == "0" else (5, 7)
    h("squeue_" + s, "s_queue.cpp", "-DCFG=" + n, "-DSTEPS=%d" % q)
    h("squeue_%s_deep" % s, "s_queue.cpp", "-DCFG=" + n, "-DSTEPS=%d" % t)
    q, t = (3, 4) if n == "0" else (4, 6)
    h("sstack_" + s, "s_stack.cpp", "-DCFG=" + n, "-DSTEPS=%d" % q)
    h("sstack_%s_deep" % s, "s_stack.cpp", "-DCFG=" + n, "-DSTEPS=%d" % t)
for s, n in RCFGS:
    for cap in (1, 2, 3, 4):
        h("spsc_%s%d" % (s, cap), "c_spsc.cpp", "-DCFG=" + n, "-DCAP=%d" % cap, "-DREALTIME=1")
        h("spsc_ra_%s%d" % (s, cap), "c_spsc.cpp", "-DCFG=" + n, "-DCAP=%d" % cap, "-DREALTIME=0", "-DPAYLOAD=1")
    for nt in (0, 1):
        for steps in (1, 2, 3):
            for cap in (1, 2, 3):
                h("sspsc_%s%s%d_%d" % (s, "nt" if nt else "", cap, steps), "s_spsc.cpp", "-DCFG=" + n, "-DCAP=%d" % cap, "-DSTEPS=%d" % steps, "-DNONTRIVIAL=%d" % nt)
for s, n in CFGS:
    h("pool_" + s, "c_freelist.cpp", "-DCFG=" + n)
    h("pool3_" + s, "c_freelist.cpp", "-DCFG=" + n, "-DBLOCKS=3")
    h("pool4_" + s, "c_freelist.cpp", "-DCFG=" + n, "-DBLOCKS=4")
    h("queue4_" + s, "c_queue.cpp", "-DCFG=" + n, "-DQCAP=4", "-DRETRY")
    h("stack4_" + s, "c_stack.cpp", "-DCFG=" + n, "-DQCAP=4", "-DRETRY", "-DRANGE=1")
for k in (0, 1, 2):
    h("word_%d" % k, "t_tagged.cpp", "-DKIND=%d" % k, "-mcx16")
for s, n in CFGS:
    h("queue_p_" + s, "c_queue.cpp", "-DCFG=" + n, "-DPROGRESS=1")
    h("stack_p_" + s, "c_stack.cpp", "-DCFG=" + n, "-DRANGE=1", "-DPROGRESS=1")
    for k, nm in (("0", "queue"), ("1", "stack")):
        h("cap_%s_%s" % (nm, s), "capacity.cpp", "-DKIND=" + k, "-DCFG=" + n)
        h("cap4_%s_%s" % (nm, s), "capacity.cpp", "-DKIND=" + k, "-DCFG=" + n, "-DCAP=4")
for nm, k in (("queue", "0"), ("stack", "1")):
    for cap in (1, 2, 5):
        h("cap_%s_c%d" % (nm, cap), "capacity.cpp", "-DKIND=" + k, "-DCFG=2", "-DCAP=%d" % cap)
for s, n in RCFGS:
    for side in (0, 1):
        h("spsc_p%d_%s" % (side, s), "c_spsc.cpp", "-DCFG=" + n, "-DCAP=2", "-DPROGRESS=%d" % (side + 1))
for s, n in CFGS:
    for steps in (2, 3):
        h("life_stack_%s%d" % (s, steps), "lifetime.cpp", "-DKIND=1", "-DCFG=" + n, "-DCAP=2", "-DSTEPS=%d" % steps)
    h("life_stack_conc_" + s, "lifetime.cpp", "-DKIND=1", "-DCFG=" + n, "-DCONC=1")
for s, n in (("r", "0"), ("c", "2")):
    for steps, cap in ((2, 2), (3, 2), (2, 3)):
        h("life_spsc_%s%d_%d" % (s, cap, steps), "lifetime.cpp", "-DKIND=2", "-DCFG=" + n, "-DCAP=%d" % cap, "-DSTEPS=%d" % steps)
    h("life_spsc_conc_" + s, "lifetime.cpp", "-DKIND=2", "-DCFG=" + n, "-DCAP=2", "-DCONC=1")
for k, nm in (("1", "stack"), ("2", "spsc")):
    for el in (1, 2):
        for steps in (2, 3):
            h("life_%s_e%d_%d" % (nm, el, steps), "lifetime.cpp", "-DKIND=" + k, "-DCFG=2", "-DCAP=2", "-DELEM=%d" % el, "-DSTEPS=%d" % steps)
KINDS = (("queue", "0"), ("stack", "1"), ("spsc", "2"))
for nm, k in KINDS:
    for s, n in CFGS:
        if nm == "spsc" and s == "f": continue
        for cap in (3, 4):
            h("throw_%s_%s%d" % (nm, s, cap), "throwing.cpp", "-DKIND=" + k, "-DCFG=" + n, "-DCAP=%d" % cap)
for nm, k in KINDS:
    for s, n in CFGS:
        if nm == "spsc" and s == "f": continue
        for al in (8, 128):
            if nm == "queue" and al == 128: continue          # rejected at compile time by the queue
            for ops in (2, 3):
                h("alloc_%s_%s_%d_%d" % (nm, s, al, ops), "alloc.cpp", "-DKIND=" + k, "-DCFG=" + n, "-DALIGNED=%d" % al, "-DOPS=%d" % ops)
for b in (36, 62):
    for pr in (0, 1):
        h("ring%d_%d" % (b, pr), "ring64.cpp", "-DBITS=%d" % b, "-DPROBE=%d" % pr)
for nm, k in KINDS + (("offset", "3"),):
    for cap in (1, 2, 3):
        for steps in (4, 5, 7):
            h("move_%s%d_%d" % (nm, cap, steps), "reloc.cpp", "-DKIND=" + k, "-DCAP=%d" % cap, "-DSTEPS=%d" % steps)
C = [s for s, _ in CFGS]
RC = [s for s, _ in RCFGS]
SC = "sequential consistency of the atomic accesses; see Q02/S03/R02 for the declared memory orders"
TABLE = {
    "Q01": dict(
        quick=[("queue_n", "QL_(?!aba_3|mix_3)", "unwind=3")] + [("queue_" + s, "QL_", "unwind=3") for s in ("f", "c")] + [("queue4_" + s, "QL_retry", "unwind=5") for s in ("f", "c")],
        thorough=[("queue4_n", "QL_retry", "unwind=5")] + [("queue_" + s, "QL_", "unwind=5 finunwind=10 spurious=1") for s in C],
        bounds="2-3 threads, 1-4 operations per thread (29 programs x 3 configurations), every interleaving; every loop up to 3 (programs with many retries and thorough: 5) iterations per activation",
        outside="more threads or operations; retry loops that go round more often than the bound; " + SC),
    "Q02": dict(
        quick=[("queue_ra_" + s, "QL_(?!.*(aba|_call_|pushpop_pushpop|lag|mix))", "unwind=2 mm=ra") for s in C],
        thorough=[("queue_ra_" + s, "QL_", "unwind=3 mm=ra") for s in C],
        bounds="2-3 threads, 1-3 operations per thread, every execution that the release/acquire memory model allows for the declared orders; every loop up to 2 (thorough: 3) iterations",
        outside="load buffering (reads of program-order later stores); seq_cst is treated as acquire/release; consume is treated as acquire, as compilers do"),
    "Q03": dict(
        api=True,       # an overload that does not compile for a configuration breaks the property
        quick=[("squeue_" + s, "QS_", "unwind=12") for s in C],
        thorough=[("squeue_%s_deep" % s, "QS_", "unwind=16") for s in C],
        bounds="3-5 (thorough 4-7) arbitrary operations, then any overload, then everything is taken out; all 32-bit values; 2 nodes available at construction",
        outside="longer sequences"),
    "S01": dict(
        quick=[("stack_" + s, "SL_", "unwind=3") for s in C] + [("stack4_" + s, "SL_retry", "unwind=5") for s in C],
        thorough=[("stack_" + s, "SL_", "unwind=5 finunwind=10 spurious=1") for s in C],
        bounds="2-3 threads, 1-4 operations per thread (24 programs x 3 configurations), every interleaving; every loop up to 3 (programs with many retries and thorough: 5) iterations per activation",
        outside="more threads or operations; retry loops that go round more often than the bound; " + SC),
    "S02": dict(
        quick=[("stack_n", "SB_(?!aba_rev)", "unwind=3")] + [("stack_" + s, "SB_", "unwind=3") for s in ("f", "c")] + [("stack4_" + s, "SB_retry", "unwind=5") for s in ("f", "c")],
        thorough=[("stack4_n", "SB_retry", "unwind=5")] + [("stack_" + s, "SB_", "unwind=5 finunwind=10 spurious=1") for s in C],
        bounds="2-3 threads, a bulk operation against 1-2 operations of the others (25 programs x 3 configurations), every interleaving; every loop up to 3 (thorough: 5) iterations",
        outside="more threads or operations; ranges longer than 2; " + SC),
    "S03": dict(
        quick=[("stack_ra_" + s, "S[LB]_(?!.*(aba|mix_3|range_3))", "unwind=2 mm=ra") for s in C],
        thorough=[("stack_ra_" + s, "S[LB]_", "unwind=3 mm=ra") for s in C],
        bounds="2-3 threads, 1-3 operations per thread, every execution that the release/acquire memory model allows for the declared orders; every loop up to 2 (thorough: 3) iterations",
        outside="load buffering (reads of program-order later stores); seq_cst is treated as acquire/release; consume is treated as acquire, as compilers do"),
    "S04": dict(
        api=True,       # an overload that does not compile for a configuration breaks the property
        quick=[("sstack_" + s, "SS_", "unwind=12") for s in C],
        thorough=[("sstack_%s_deep" % s, "SS_(?!range|brange|urange|iter)", "unwind=16") for s in C] + [("sstack_c_deep", "SS_", "unwind=16"), ("sstack_f_deep", "SS_", "unwind=16")],
        bounds="3-4 (thorough 4-6) arbitrary operations, then any overload (ranges of 0-3 elements), then everything is taken out; all 32-bit values; 3 nodes available at construction",
        outside="longer sequences, longer ranges"),
    "R01": dict(
        quick=[("spsc_%s%d" % (s, c), "R_", "unwind=8") for s in RC for c in (1, 2, 3)],
        thorough=[("spsc_%s%d" % (s, 4), "R_", "unwind=10") for s in RC],
        bounds="one producer and one consumer, up to 3 operations each (14 programs), capacities 1-3 (thorough 4), every ring offset and fill level, every interleaving, batch sizes 0-3",
        outside="larger capacities and batches, longer programs; " + SC),
    "R02": dict(
        quick=[("spsc_ra_%s%d" % (s, c), "R_", "unwind=8 mm=ra race") for s in RC for c in (1, 2)],
        thorough=[("spsc_ra_%s%d" % (s, c), "R_", "unwind=10 mm=ra race") for s in RC for c in (3, 4)],
        bounds="one producer and one consumer, up to 3 operations each, capacities 1-2 (thorough 3-4), every ring offset and fill level, every execution of the release/acquire memory model; every pair of conflicting accesses to an element must be ordered by happens-before",
        outside="load buffering; seq_cst is treated as acquire/release"),
    "R03": dict(
        api=True,       # an overload that does not compile for a configuration breaks the property
        quick=[("sspsc_%s%s%d_%d" % (s, nt, 2, 2), "RS_", "unwind=14") for s in RC for nt in ("", "nt")] + [("sspsc_%s%s%d_%d" % (s, nt, 3, 1), "RS_", "unwind=14") for s in RC for nt in ("", "nt")] + [("sspsc_%s%s%d_%d" % (s, nt, 1, 2), "RS_", "unwind=14") for s in RC for nt in ("", "nt")],
        thorough=[("sspsc_%s%s%d_%d" % (s, nt, 3, 2), "RS_", "unwind=14") for s in RC for nt in ("", "nt")],
        bounds="every ring offset and every fill level of queues of capacity 1-3, then 1-2 arbitrary operations with batch sizes 0 to capacity+2, all 32-bit values, trivial and non-trivial element types",
        outside="larger capacities; longer sequences (each state of the ring is a start state, so that one step is inductive for a given capacity)"),
    "F01": dict(
        # the pool has no public interface; should its internal one change, the pool is examined through the containers
        fallback=[("queue_" + s, "QL_(aba|pushpop)", "unwind=3") for s in ("f", "c")] + [("stack_" + s, "SL_(aba|pushpop)", "unwind=3") for s in C] + [("cap_%s_%s" % (k, s), "CC_|CAP_", "unwind=3 finunwind=24") for k in ("queue", "stack") for s in C],
        quick=[("pool_" + s, "FL_", "unwind=3 finunwind=24") for s in C] + [("pool4_" + s, "FL_retry", "unwind=5 finunwind=24") for s in C],
        thorough=[("pool_" + s, "FL_", "unwind=5 finunwind=24 spurious=1") for s in C] + [("pool3_" + s, "FL_(?!a_a|b_bbf|3a)", "unwind=4 finunwind=24") for s in C],
        bounds="2-3 threads, 1-4 allocations and releases per thread (16 programs x 3 kinds of pool), every interleaving, 2 (thorough: also 3) blocks at the start; arbitrary sequential programs of 5 operations; every loop up to 3 (programs with many retries and thorough: 5) iterations per activation",
        outside="more threads or operations; retry loops that go round more often than the bound; " + SC),
    "T01": dict(
        fallback=[("queue_" + s, "QL_(aba|pushpop)", "unwind=3") for s in ("f", "c")] + [("stack_" + s, "SL_(aba|pushpop)", "unwind=3") for s in C],
        quick=[("word_%d" % k, "T_", "unwind=20") for k in (0, 1, 2)],
        thorough=[("word_%d" % k, "T_", "unwind=20") for k in (0, 1, 2)],
        bounds="every pair of addresses (48 bits in the compressed word of this platform, 64 bits in the double word) or indices (16 bits) and every tag; no loops",
        outside="addresses above 48 bits in the compressed word (5-level paging with opt-in mappings, kernel addresses)"),
    "P01": dict(
        quick=[("queue_p_f", "QP_", "unwind=4 complete stall=%d" % t) for t in (0, 1)]
            + [("queue_p_n", "QP_(push_push|push_pop0|pop_push|pop_pop|c1_bpush)$", "unwind=4 complete stall=0"), ("queue_p_c", "QP_(push_push|push_pop0|pop_push|push_pop|c1_bpush)$", "unwind=4 complete stall=0")]
            + [("stack_p_" + s, "SP_(?!call)", "unwind=4 complete stall=%d" % t) for s in C for t in (0, 1)]
            + [("spsc_p%d_%s" % (t, s), "R_", "unwind=8 complete stall=%d" % t) for s in RC for t in (0, 1)],
        thorough=[("queue_p_" + s, "QP_", "unwind=6 complete stall=%d" % t) for s in C for t in (0, 1)] + [("stack_p_" + s, "SP_", "unwind=6 complete stall=%d" % t) for s in C for t in (0, 1)],
        bounds="2-3 threads, 1-2 operations per thread (38 programs), one of the threads may stop for ever before any of its accesses to shared memory, every interleaving; every loop of every operation is shown to end within 4 (thorough: 6) iterations",
        outside="starvation by an unbounded number of other operations (lock-freedom does not exclude it); more threads; spurious failures of compare_exchange_weak (assumed finite); threads that stop inside the allocator; " + SC),
    "C01": dict(
        quick=[("cap_%s_%s" % (k, s), "CC_|CAP_", "unwind=3 finunwind=24") for k in ("queue", "stack") for s in C] + [("cap_%s_c%d" % (k, n), "CAP_", "finunwind=24") for k in ("queue", "stack") for n in (1, 2, 5)]
            + [("cap4_%s_%s" % (k, s), "retry", "unwind=5 finunwind=24") for k in ("queue", "stack") for s in ("f", "c")],
        thorough=[("cap4_%s_n" % k, "retry", "unwind=5 finunwind=24") for k in ("queue", "stack")] + [("cap_%s_%s" % (k, s), "CC_", "unwind=5 finunwind=24 spurious=1") for k in ("queue", "stack") for s in C],
        bounds="containers constructed for 0-5 elements, reservations of 0-4, any partial refill; 2-3 threads with 1-3 operations (24 programs x 3 configurations), every interleaving; every loop up to 3 (programs with many retries and thorough: 5) iterations per activation",
        outside="larger sizes; more threads or operations; " + SC),
    "L01": dict(
        quick=[("life_stack_%s2" % s, "LT_", "unwind=14") for s in C] + [("life_spsc_%s2_2" % s, "LT_", "unwind=14") for s in RC]
            + [("life_stack_conc_" + s, "LC_", "unwind=3 finunwind=24") for s in C] + [("life_spsc_conc_" + s, "LC_", "unwind=4 finunwind=24") for s in RC]
            + [("life_%s_e%d_2" % (k, e), "LT_", "unwind=14") for k in ("stack", "spsc") for e in (1, 2)],
        thorough=[("life_%s_e%d_3" % (k, e), "LT_", "unwind=16") for k in ("stack", "spsc") for e in (1, 2)] + [("life_stack_%s3" % s, "LT_", "unwind=14") for s in C] + [("life_spsc_%s2_3" % s, "LT_", "unwind=14") for s in RC] + [("life_spsc_%s3_2" % s, "LT_", "unwind=18") for s in RC]
            + [("life_stack_conc_" + s, "LC_", "unwind=5 finunwind=24 spurious=1") for s in C],
        bounds="stacks and rings of capacity 2 (rings: every offset) with every fill level, then 2 (thorough: 3) arbitrary operations out of 17-19 overloads with batches of 0-3; 2-3 threads with 1-3 operations (12 programs for the stack, 7 for the ring), every interleaving, accesses to the elements included",
        outside="longer sequences, larger capacities; elements whose operations throw (E01); " + SC),
    "E01": dict(
        quick=[(n, "E_", "unwind=16") for n in HARNESS if n.startswith("throw_") and n.endswith("3")],
        thorough=[(n, "E_", "unwind=20") for n in HARNESS if n.startswith("throw_") and n.endswith("4")],
        bounds="containers of capacity 3 (thorough: 4), every fill level (rings: every offset), every operation, the k-th call of a copy constructor, default constructor, assignment, conversion, functor or allocator throws (k = 1-8 or never), ranges of 0-3 elements; single-threaded, then an exact count of what is left, of the capacity and of the memory",
        outside="exceptions thrown while other threads are active (the unwinding code performs the same operations on private nodes); exceptions of destructors; more than one exception per operation"),
    "A01": dict(
        quick=[(n, "A_|M_", "unwind=16") for n in HARNESS if n.startswith("alloc_") and n.endswith("_2")],
        thorough=[(n, "A_", "unwind=18") for n in HARNESS if n.startswith("alloc_") and n.endswith("_3")],
        bounds="containers for 0-3 elements and 2 (thorough: 3) arbitrary operations, elements aligned to 8 and to 128 bytes, an allocator with state passed as it is, default-constructed or converted from another type; the requested size for every 64-bit number of elements",
        outside="n = 2^64-1 (n+1 wraps); over-aligned elements in queue (rejected at compile time); longer sequences"),
    "I01": dict(
        quick=[(n, "I_", "unwind=12") for n in HARNESS if n.startswith("move_") and n.endswith("_5")],
        thorough=[(n, "I_", "unwind=14") for n in HARNESS if n.startswith("move_") and n.endswith("_7")],
        bounds="compile-time sized containers of capacity 1-3 and a ring with offset pointers, moved to another address before and between 5 (thorough: 7) arbitrary operations and before destruction",
        outside="moves in the middle of an operation (two mappings used at the same time differ only in the base address, which no shared word contains); longer sequences, larger capacities"),
    "R04": dict(
        quick=[("ring36_%d" % p, "RW_", "unwind=8") for p in (0, 1)],
        thorough=[("ring62_%d" % p, "RW_", "unwind=8") for p in (0, 1)],
        bounds="every capacity below 2^36 (thorough: 2^62), every ring offset and fill level, every operation with batches of 0-3; additionally every fill reachable from the initial state by the public interface",
        outside="larger batches; capacities above the bound"),
}
