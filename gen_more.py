prop("F01", "The node pool hands every block to one owner at a time and loses none",
     "Between its allocation and its release a block of the internal node pool belongs to the one thread that allocated it, whatever other threads allocate, release or reserve at the same time and however often blocks are recycled under a stalled thread. A released block becomes available again, no block is lost or invented, and an allocation from a bounded pool fails only when all blocks may be in use. The pool's memory is released with it.",
     ["schedules", "programs", "configurations"], "every interleaving of allocations and releases of 2-3 threads, every sequential mixture of thread-safe and unsynchronized ones, for growing, run-time sized and compile-time sized pools",
     "the free list test allocates and releases random sets from several threads and checks set membership; the recycling of a block under a stalled allocation is never forced, the failure condition of a bounded pool is not checked under concurrency",
     [F, TP], [("allocation: read the successor, CAS the head", F + ": freelist_stack::allocate_impl, fixed_size_freelist::allocate_impl"), ("release: link, CAS the head with a tag", F + ": deallocate_impl"), ("tags against ABA", TP + ": get_next_tag")],
     ["addresses handed out by construct, contents of owned blocks, number of blocks available in the end"])
prop("T01", "A tagged word holds exactly an address and a version",
     "The word on which every compare-and-swap of the containers operates gives back the address (or index) and the tag that were put in, for all addresses of the platform and all tags; two words are equal, as values and byte for byte, exactly if address and tag are; replacing the address keeps the tag; the next tag differs from the current one and runs through all tags before it repeats. This holds for the compressed word, the double word and the tagged index.",
     ["inputs", "configurations"], "all addresses, indices and tags, all pairs of them",
     "the unit test checks two addresses and two tags of the one variant this platform selects; the double-width variant is never compiled",
     [TP, TD, F], [("packing of address and tag", TP + ": pack_ptr, extract_ptr, extract_tag"), ("double word", TD), ("tagged index", F + ": tagged_index")],
     ["get_ptr/get_index, get_tag, get_next_tag, set_ptr, ==, bytes compared by compare_exchange"],
     tech="symbolic execution of the compiled headers (LLVM IR -> SAT, kissat), all inputs")
prop("P01", "The containers are lock-free: a thread that stops blocks nobody",
     "When a thread stops for ever in the middle of any operation of a queue, a stack or a ring buffer, at any point, the operations of all other threads still complete, each in a bounded number of its own steps once the others are quiet, and the container remains usable. No operation waits for another thread to take a step; for the ring buffer every operation of either side is even wait-free.",
     ["schedules", "crash_points", "programs", "configurations"], "every interleaving of 2-3 threads with one of them stopping at every possible point",
     "in the tests every thread always goes on sooner or later: a loop that waits for another thread (a missing helping step) terminates there",
     [Q, S, R, F], [("helping the lagging tail", Q + ": do_push, pop"), ("retry only after somebody else succeeded", S + ": link_nodes_atomic, consume_one"), ("retry loops of the pool", F + ": allocate_impl, deallocate_impl"), ("no retry loops", R + ": ringbuffer_base")],
     ["completion of push, bounded_push, pop, consume_one, consume_all, consume_all_atomic, range push, batch operations; is_lock_free()"])
prop("C01", "Capacity is exact and bounded operations never allocate",
     "A queue or stack constructed for n elements (at run time, by a compile-time capacity, or by later reservations adding to it) accepts exactly n elements through bounded operations, no more and no fewer, after any history of use by any number of threads: a push fails only when the space may be used up, and no node is ever lost or added. Bounded pushes and all operations of fixed-size containers allocate no memory; reserving allocates exactly as many nodes as asked for.",
     ["inputs", "histories", "schedules", "configurations"], "all small sizes and reservations, every partial refill, every interleaving of 2-3 threads followed by an exact count",
     "the tests check single capacities after a linear fill; that the full capacity is still there after concurrent use, and that concurrent reservations add exactly what they promise, is never counted",
     [Q, S, F], [("one extra node for the dummy", Q + ": constructors"), ("reservation", F + ": freelist_stack::reserve"), ("exhaustion test of the pool", F + ": allocate_impl, fixed_size_freelist")],
     ["number of successful bounded pushes, live allocations"])
prop("L01", "Elements are constructed and destroyed exactly once and only living ones are used",
     "For element types with constructors and destructors (stack, spsc_queue) the container holds exactly as many living objects as it has elements: pushing constructs one, every way of removing an element (pop, discarding pop, batch pop, functors, reset, whole-stack consumption, the destructor of the container) destroys exactly one, and no copy, assignment, conversion or functor ever sees an object before its construction, after its destruction, at a misaligned address or while another thread is destroying it.",
     ["inputs", "programs", "schedules", "configurations"], "every fill level and ring offset, every operation and mixture of operations, every interleaving of 2-3 threads with the accesses to the elements themselves as steps",
     "the tests use elements with destructors in two or three short scenarios; missing or doubled destruction on a particular path (wrapped batch, discarding pop, reset, converting pop, losing a race) is never counted",
     [S, R, F, CP], [("copy, destroy, release", S + ": consume_one, unsynchronized_pop, consume_all_atomic"), ("batch copy and destruction across the wrap", R + ": copy_and_delete, consume_all, pop, reset"), ("construction in pool nodes", F + ": construct, destruct")],
     ["constructor, destructor, copy and assignment calls of the element type with their addresses"])
prop("E01", "An exception neither corrupts the container nor loses space, memory or other elements",
     "When a copy, conversion or assignment of an element, a functor or the allocator throws in the middle of an operation, the exception reaches the caller and the container stays usable. A push, range push or reservation that ends this way has added no element (a range push none at all). A removal that ends this way has removed at most what it delivered and the one element being handed over (whole-stack consumption: at most the elements it had taken); the others are still there in order and come out once. No element is destroyed twice or never, the full capacity remains usable, and the destructor releases all memory; a constructor that fails leaves nothing allocated.",
     ["crash_points", "inputs", "configurations"], "every operation of the three containers in every configuration, with every fill level and ring offset and every point at which user code can throw",
     "no test throws anything: the recovery code and its absence are never executed",
     [S, Q, R, F], [("cleanup of a partly built chain", S + ": prepare_node_list"), ("node returned when construction fails", F + ": construct"), ("copy before removal", Q + ": pop"), ("publish after copying", R + ": ringbuffer_base::push, run_functor_and_delete, copy_and_delete")],
     ["exceptions seen by the caller, contents, capacity, constructor and destructor calls, live allocations"],
     tech="symbolic execution of the compiled headers (LLVM IR -> SAT, kissat) with a symbolic throwing point")

prop("A01", "Memory comes from the given allocator, in the right amount and alignment, and goes back to it",
     "Every byte a container uses beyond its own object is requested from the allocator it was constructed with (as given, default-constructed or rebound), and released exactly once, with the size it was requested with, through that allocator; nothing is left after destruction. Elements are aligned as their type demands, over-aligned types and containers placed anywhere included. The request for n elements has the right size for every n, and a size that the node indices cannot address is refused by an exception instead of being truncated.",
     ["inputs", "programs", "configurations"], "every 64-bit size, every small size with every short mixture of operations, every way of passing the allocator, three containers, three configurations, two alignments",
     "the tests pass std::allocator, which has no identity, never checks the size it is given back and aligns generously; sizes at the limits of the index type are never tried",
     [Q, S, R, F, PO], [("rebinding and passing of allocators", Q + ", " + S + ", " + R + ": constructors"), ("pool memory", F + ": freelist_stack, fixed_size_freelist, runtime_sized_freelist_storage, compiletime_sized_freelist_storage"), ("ring memory", R + ": runtime_sized_ringbuffer"), ("size check", F + ": fixed_size_freelist / 65535")],
     ["allocate and deallocate calls with size and allocator identity, addresses of elements, exceptions of constructors"],
     tech="symbolic execution of the compiled headers (LLVM IR -> SAT, kissat), all inputs and operation mixtures")
prop("I01", "Compile-time sized containers hold no addresses and can be shared between mappings",
     "A queue, stack or ring buffer with compile-time capacity is self-contained and position-independent: mapped at, or moved to, a different address at any time between operations it still behaves as before, reaches no memory outside itself and never touches the old place. The same holds for a run-time sized ring buffer whose allocator hands out offset pointers, together with its buffer.",
     ["histories", "programs", "configurations"], "every sequence of 5 operations with the container moved between all of them and the old place overwritten",
     "the interprocess use is documented but tested only inside one mapping; a raw pointer kept in the container works as long as nobody maps it elsewhere",
     [Q, S, R, F], [("nodes addressed by index", F + ": tagged_index, fixed_size_freelist"), ("embedded storage", F + ": compiletime_sized_freelist_storage, " + R + ": compile_time_sized_ringbuffer"), ("pointer type of the allocator is kept", R + ": runtime_sized_ringbuffer::array_")],
     ["results of all operations after a move, memory accesses outside the container"],
     tech="symbolic execution of the compiled headers (LLVM IR -> SAT, kissat), all operation sequences")
prop("R04", "The ring arithmetic is right for every size",
     "For every capacity up to the largest possible one, every position of the oldest element and every fill level, each operation of spsc_queue accepts and delivers exactly as many elements as there are places or elements, touches exactly the right places of the ring in the right order, across the wrap, and leaves consistent counts; no computation of an index overflows.",
     ["inputs", "histories"], "all 64-bit capacities below the bound and all pairs of indices; one step from every state, which makes the step inductive",
     "the tests use three or four small capacities and never come near a boundary of the index type",
     [R], [("index arithmetic", R + ": ringbuffer_base::next_index, read_available, write_available"), ("two segments of a batch", R + ": ringbuffer_base::push, pop, consume_all, copy_and_delete")],
     ["addresses at which elements are constructed, copied and destroyed; read_available, write_available, return values"],
     tech="symbolic execution of the compiled headers (LLVM IR -> SAT, kissat), all sizes and states")
