"""The properties (source of properties.jsonl and MANIFEST.json; run `python3 props.py` to regenerate both)."""
import json, os
I = 'include/parlay/'
N = I + 'internal/'
R = []
def P(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None, na=None, note=''):
    R.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(obs), hook_needed=hook), _na=na, _note=note))
SHRINK = 'PARLAY_VERIF makes the size thresholds tunable so that block-parallel paths fit into small inputs'

# ------------------------------------------------------------------ scheduling and concurrency
P('C01', 'parallel_for calls the body exactly once for every index of the range',
  'For every start, end and granularity (given or chosen automatically), a parallel loop calls its body exactly once with each index of the half-open range and with no other index, and returns only after all of these calls have finished. Empty ranges call nothing, and the blocked variant covers the range with disjoint blocks in the same way.',
  'inputs schedules', 'all range bounds (including those near the end of the index type), granularities, nesting, worker counts and schedules',
  'The tests run a few fixed ranges on the machine\'s own schedule; the splitting arithmetic and the granularity estimate depend on timing.',
  I+'parallel.h '+I+'scheduler.h', [('recursive range splitting and granularity estimation', I+'scheduler.h fork_join_scheduler::parfor'), ('entry points', I+'parallel.h parallel_for, blocked_for')],
  [('granularity', 'largest range run sequentially', I+'scheduler.h')], ['indices passed to the body', 'return of parallel_for'], SHRINK)
P('C02', 'par_do runs both branches exactly once and joins them before returning',
  'A fork runs its left and its right branch exactly once each, on some worker, and returns only when both have finished, with everything they wrote visible to the code after the join. This holds for arbitrarily nested forks, for every number of workers, and for every interleaving of stealing and local execution.',
  'schedules programs', 'all interleavings of the workers, all nestings of forks, conservative and non-conservative joining',
  'A test sees one interleaving per run; lost or duplicated jobs need a steal at one particular instruction.',
  I+'scheduler.h '+I+'parallel.h '+N+'work_stealing_job.h '+N+'work_stealing_deque.h', [('spawn, pop or wait for the stolen half', I+'scheduler.h fork_join_scheduler::pardo'), ('job completion flag', N+'work_stealing_job.h'), ('wait loop', I+'scheduler.h wait_until')],
  [('done', 'set by the worker that ran the job', N+'work_stealing_job.h')], ['executions of each branch', 'values visible after the join'])
P('C03', 'The work-stealing deque hands out every pushed job exactly once',
  'Every job pushed onto a worker\'s queue is returned exactly once, either to its owner or to one thief, for any number of concurrent thieves; a job is never lost and never handed out twice. The owner takes the most recently pushed job that is left and thieves take the oldest one, and a failed removal leaves the queue unchanged.',
  'schedules histories', 'all interleavings of an owner\'s pushes and pops with any thieves, under the C++ memory model',
  'The race for the last job is a window of a few instructions that depends on memory ordering.',
  N+'work_stealing_deque.h', [('owner end', N+'work_stealing_deque.h push_bottom, pop_bottom'), ('thief end', N+'work_stealing_deque.h pop_top')],
  [('age', 'top index and tag, changed by compare-and-swap', N+'work_stealing_deque.h'), ('bot', 'owner index', N+'work_stealing_deque.h')], ['jobs returned by each call'])
P('C04', 'Idle workers are woken when there is work and terminate when asked',
  'A worker that is asleep when a job is pushed onto an empty queue is woken, and a thread waiting for a value to change never misses the notification of a change. Whoever sleeps, a fork always completes. When the scheduler is destroyed, even while its workers are starting or falling asleep, all of them leave their loops and are joined.',
  'schedules', 'all interleavings of sleeping, spawning and shutdown',
  'A lost wake-up needs a spawn exactly between the last failed steal and the wait.',
  I+'scheduler.h '+N+'atomic_wait.h', [('sleep and wake protocol', I+'scheduler.h wait_for_work, wake_up_a_worker, wake_up_all_workers, shutdown'), ('waiting on an atomic', N+'atomic_wait.h')],
  [('wake_up_counter', 'ticket changed by each wake-up', I+'scheduler.h'), ('num_finished_workers', '', I+'scheduler.h')], ['progress of sleeping workers'])
P('C05', 'Results do not depend on the number of workers or the schedule',
  'The library\'s parallel algorithms contain no race between the parallel branches they create: whenever the user\'s functions are free of side effects, no memory location is written by one branch and accessed by a concurrent one without synchronisation. Consequently sequence primitives, sorts, groupings and delayed operations return the same result with any number of workers and for every schedule.',
  'schedules inputs configurations', 'all schedules of the fork-join program that each call unfolds into, all worker counts, all inputs within the bounds',
  'Tests compare results on the schedules that happen to occur; a determinacy race can stay invisible for years.',
  I+'primitives.h '+I+'sequence.h '+N+'sequence_ops.h '+N+'sample_sort.h '+N+'quicksort.h '+N+'integer_sort.h '+N+'counting_sort.h '+N+'collect_reduce.h '+N+'group_by.h '+N+'delayed/common.h',
  [('disjoint writes of parallel loops', N+'sequence_ops.h'), ('block offsets', N+'counting_sort.h, sample_sort.h')], obs=['result sequences', 'concurrent accesses'], hook=SHRINK)
P('C06', 'Allocated memory is aligned, large enough and disjoint from other live blocks',
  'Every block returned by the allocation functions has at least the requested size and the requested (or default maximal) alignment, does not overlap any other live block, and is usable until it is freed. Memory freed by any worker becomes reusable, and a block is never handed out while it is still live.',
  'inputs histories', 'all request sizes and alignments, all sequences of allocations and frees',
  'The tests allocate a few sizes; class boundaries, header offsets and alignment padding are arithmetic over all sizes.',
  I+'alloc.h '+N+'pool_allocator.h '+N+'block_allocator.h', [('size classes', N+'pool_allocator.h'), ('header in front of a block', I+'alloc.h p_malloc, p_free'), ('free lists', N+'block_allocator.h')],
  [('free lists', 'blocks available per size class', N+'block_allocator.h')], ['returned addresses'])
P('C07', 'Fixed-size block allocation is safe across workers',
  'Concurrent allocations and frees of fixed-size blocks by different workers never return the same live block twice and never lose a freed block, whichever worker frees it. Blocks passed between the local lists and the shared pool move as whole lists.',
  'schedules histories', 'all interleavings of alloc and free by several workers, all refill and spill points',
  'Refill and spill happen only at list boundaries, and the shared pool is lock-free.',
  N+'block_allocator.h '+N+'concurrency/hazptr_stack.h', [('local lists with refill and spill', N+'block_allocator.h alloc, free'), ('global stack of lists', N+'concurrency/hazptr_stack.h')],
  [('my_local_list', 'per-worker list, its size and midpoint', N+'block_allocator.h')], ['blocks returned'])
P('C08', 'The shared stack is linearizable and never touches freed memory',
  'Concurrent pushes and pops behave as if executed one at a time on a last-in first-out stack: every popped element was pushed, is popped once, and pops report empty only when the stack was empty at some point during the call. No operation reads a node after it was freed, however many pops and pushes happen in between.',
  'schedules histories', 'all interleavings of pushes and pops by several threads',
  'The ABA and use-after-free windows are a few instructions wide.',
  N+'concurrency/hazptr_stack.h '+N+'concurrency/acquire_retire.h', [('compare-and-swap on the head', N+'concurrency/hazptr_stack.h'), ('announce and deferred reclamation', N+'concurrency/acquire_retire.h')],
  [('announcements', 'pointers that must not be freed', N+'concurrency/acquire_retire.h')], ['popped values', 'accesses to freed nodes'])
P('C09', 'Allocator accounting matches what is in use and clearing returns everything',
  'The reported number of used blocks of a fixed-size allocator equals allocations minus frees, after any sequence of operations that is not in progress, and reserved memory is never smaller than used memory. Clearing an allocator with nothing in use returns its memory and leaves it usable.',
  'inputs histories', 'all sequences of allocations, frees, reservations and clears',
  'The tests check a few totals after balanced use.',
  N+'block_allocator.h '+N+'pool_allocator.h '+I+'alloc.h', [('counting', N+'block_allocator.h num_used_blocks'), ('clear', N+'block_allocator.h clear, '+N+'pool_allocator.h clear')],
  [('blocks_allocated', 'blocks obtained from the system', N+'block_allocator.h')], ['num_used_blocks', 'memory returned'])
P('C10', 'Thread-local slots are never shared by two live threads and are all visited',
  'Each live thread has an identifier that no other live thread has, identifiers of finished threads are reused, and a thread-specific object gives every thread its own element, constructed once before its first use. Iterating over such an object visits the element of every thread that has used it, and per-worker storage gives each worker a separate element.',
  'schedules histories', 'all interleavings of thread creation, exit and first use; any number of threads',
  'Needs concurrent growth of the chunk table and identifier reuse at the same moment.',
  I+'thread_specific.h '+N+'thread_id_pool.h '+I+'worker_specific.h', [('identifier pool', N+'thread_id_pool.h'), ('geometrically growing chunks', I+'thread_specific.h'), ('per-worker array', I+'worker_specific.h')],
  [('available_ids', 'pool of free identifiers', N+'thread_id_pool.h')], ['identifiers', 'addresses of elements'])

# ------------------------------------------------------------------ sequences and lifetimes
P('C11', 'A sequence behaves like a standard vector under every operation history',
  'After any history of constructions, assignments, insertions, erasures, resizes, swaps and element accesses, a sequence holds exactly the elements that a standard vector (or string) would hold after the same operations, in the same order, and its iterators, size, emptiness, comparisons and bounds-checked access agree with it. This includes short sequences stored inline, sequences that change between inline and heap storage, and self-assignment and self-swap.',
  'histories inputs', 'all operation sequences within the bounds, all positions and counts, element types with inline and heap storage',
  'The tests call each member with one or two sizes; the inline/heap transition and capacity arithmetic depend on the history.',
  I+'sequence.h '+N+'sequence_base.h', [('storage representation', N+'sequence_base.h'), ('member functions', I+'sequence.h')],
  [('small and large representation', 'inline buffer or heap block with capacity', N+'sequence_base.h')], ['elements, size, comparisons'])
P('C12', 'Every element is constructed and destroyed exactly once',
  'Whatever operation is performed on a sequence or by an algorithm that returns or rearranges sequences, every element object that is created is destroyed exactly once, no element is used before construction or after destruction, and no memory is leaked or freed twice. This also holds when elements are moved, relocated, or held by temporaries.',
  'inputs histories', 'all operations and sizes within the bounds, with elements that own heap memory and know their own address',
  'A double destruction of trivially destructible test elements is invisible, and leaks are not checked.',
  I+'sequence.h '+N+'sequence_base.h '+I+'relocation.h '+N+'uninitialized_sequence.h '+I+'primitives.h', [('destroy and relocate', N+'sequence_base.h'), ('uninitialized storage', N+'uninitialized_sequence.h')], obs=['constructor and destructor calls', 'heap balance'], hook=SHRINK)
P('C13', 'Sequence operations accept arguments that alias the sequence itself',
  'Appending, emplacing, inserting, resizing or assigning with a value argument that is a reference to an element of the same sequence has the same effect as with a copy of that element made beforehand, as for a standard vector; assigning or swapping a sequence with itself leaves it unchanged. This holds also when the operation reallocates or moves from inline to heap storage.',
  'inputs histories', 'all sizes, positions and capacities, in particular full sequences',
  'The tests never pass an element of the sequence to itself.',
  I+'sequence.h '+N+'sequence_base.h', [('push_back, emplace_back, insert, append, resize', I+'sequence.h')], obs=['elements after the call'])
# ------------------------------------------------------------------ primitives
P('C14', 'Reductions combine all elements in order for every associative operation',
  'Reducing a range with an associative operation and its identity returns the same value as combining the elements from left to right, even when the operation is not commutative, and returns the identity for an empty range. This holds for the built-in monoids (sum, product, min, max, and, or, xor, pairs and arrays of monoids, matrix), for delayed inputs, and for elements that own memory.',
  'inputs schedules', 'all sizes across block boundaries, all element values, non-commutative monoids, all schedules',
  'The tests use commutative sums over a few sizes; ordering mistakes at a block boundary cancel out.',
  I+'primitives.h '+I+'monoid.h '+N+'sequence_ops.h', [('block-wise reduction', N+'sequence_ops.h reduce'), ('monoids', I+'monoid.h')], obs=['returned value'], hook=SHRINK)
P('C15', 'Scans return every prefix combination and the total, in order',
  'An exclusive scan returns, at each position, the combination of all earlier elements in order starting from the identity, and the total as its second result; an inclusive scan includes the element itself; the in-place variants store the same values. This holds for every associative operation, commutative or not, and every length including zero.',
  'inputs schedules', 'all lengths across block boundaries, all values, non-commutative monoids, all schedules',
  'Block-boundary and total mistakes need particular lengths and non-commutative operations.',
  I+'primitives.h '+N+'sequence_ops.h '+I+'monoid.h', [('two-pass block scan', N+'sequence_ops.h scan_, scan, scan_inplace, scan_inclusive')], obs=['returned prefixes and total'], hook=SHRINK)
P('C16', 'Filtering operations keep exactly the selected elements, in order',
  'Packing by flags, filtering by a predicate, removing values, removing adjacent duplicates and mapping with optional results return exactly the selected elements in their original order, with each predicate evaluated on the element it selects. Index-returning variants return exactly the selected positions in increasing order, and the in-out variants write the same elements and report their number.',
  'inputs schedules', 'all selections of inputs up to the bound, all block boundaries',
  'There are exponentially many selections, and blocks with none or all selected behave differently.',
  I+'primitives.h '+N+'sequence_ops.h', [('count, scan, copy per block', N+'sequence_ops.h pack_serial, pack, filter, pack_out'), ('entry points', I+'primitives.h pack, pack_index, filter, map_maybe, remove, unique')], obs=['returned sequences'], hook=SHRINK)
P('C17', 'Mapping, flattening, concatenating and tabulating keep every element in place',
  'Mapping and tabulating apply the function exactly once per position and store the result at that position; flattening concatenates the inner ranges in order, including empty ones; append joins its arguments in order. Elements of expiring arguments are moved and never used again; elements of other arguments are left unchanged.',
  'inputs schedules', 'all numbers and lengths of inner ranges within the bound, copies and moves',
  'Tests use a handful of shapes; offsets are computed by a scan over arbitrary lengths.',
  I+'primitives.h '+I+'sequence.h', [('offsets and parallel copies', I+'primitives.h flatten, append, map, tabulate')], obs=['returned sequences', 'arguments afterwards'], hook=SHRINK)
P('C18', 'Searching and comparing agree with the standard algorithms',
  'Finding the first (or last) element, value, member of a set, adjacent pair, mismatch or sub-range, counting, all/any/none, equality and lexicographic comparison return what the standard algorithm of that meaning returns on the same range, namely the earliest (or for last-occurrence search the latest) match, or the end of the range if there is none. They never read outside the ranges, for any lengths including empty ones.',
  'inputs schedules', 'all ranges and patterns up to the bound, match positions before, at and after every block boundary',
  'The first match must win in every schedule and at every granularity step; the tests use single patterns.',
  I+'primitives.h', [('doubling block search with priority on the first index', I+'primitives.h internal::find_if_index'), ('search operations', I+'primitives.h find, find_if, search, find_end, mismatch, equal, lexicographical_compare')], obs=['returned iterators and values'], hook=SHRINK)
P('C19', 'Minimum and maximum element return an extremal element with stable tie-breaking',
  'The minimum and maximum element functions return the position of an element that is smallest (largest) under the given comparison, and the first such position when several are equal; the combined function returns the first smallest and some largest position. An empty range returns its end.',
  'inputs schedules', 'all inputs up to the bound, with ties across block boundaries, custom comparisons',
  'Ties between blocks are rare in random tests.',
  I+'primitives.h', [('reduction over iterators', I+'primitives.h min_element, max_element, minmax_element')], obs=['returned iterators'], hook=SHRINK)
P('C20', 'Reversal, rotation, ordering and partition predicates are exact',
  'Reversing and rotating (in place or into a new sequence) permute the elements as specified, remove and unique keep what they should, and the predicates is_sorted, is_sorted_until and is_partitioned answer exactly what their standard namesakes answer for every input.',
  'inputs schedules', 'all inputs up to the bound, all rotation points',
  'A single unsorted pair at a block boundary is what matters.',
  I+'primitives.h', [('order predicates, reverse, rotate', I+'primitives.h is_sorted, is_sorted_until, is_partitioned, reverse, rotate')], obs=['returned values'], hook=SHRINK)
P('C21', 'Comparison sorting returns a sorted permutation, stable where promised',
  'Every comparison sort returns a permutation of its input ordered by the given strict weak order; the stable variants keep the order of equivalent elements; the in-place variants do so in the given range, and the copying variants leave their input unchanged. This holds for elements that cannot be copied, elements that own memory, and ranges long enough to go through sampling, bucketing and recursive splitting.',
  'inputs schedules', 'all orders and duplicate patterns up to the bound, sampled elements and pivots, all schedules',
  'Duplicated pivots, empty buckets and one-sided splits need particular inputs.',
  I+'primitives.h '+N+'sample_sort.h '+N+'quicksort.h '+N+'bucket_sort.h '+N+'merge_sort.h '+N+'transpose.h '+N+'heap_tree.h', [('sample sort', N+'sample_sort.h'), ('quicksort and insertion sort', N+'quicksort.h'), ('merge sort', N+'merge_sort.h'), ('bucket sort', N+'bucket_sort.h')], obs=['sorted sequences', 'inputs afterwards'], hook=SHRINK)
P('C22', 'Integer and counting sort order by key, stable where promised, for every key',
  'Integer sort orders its elements by the unsigned integer key, for every key value the type can hold including the largest, with the number of bits given or computed; the stable variant and counting sort keep the order of equal keys. Counting sort also returns where each key\'s elements begin.',
  'inputs schedules', 'all key combinations up to the bound and digit boundary, all schedules',
  'Digit boundaries and the largest key are single values among all integers.',
  I+'primitives.h '+N+'integer_sort.h '+N+'counting_sort.h '+N+'transpose.h', [('radix passes from the top', N+'integer_sort.h'), ('block counts, transpose, scatter', N+'counting_sort.h')], obs=['sorted sequences', 'bucket offsets'], hook=SHRINK)
P('C23', 'Merging two sorted ranges yields their stable sorted union',
  'Merging two ranges sorted by an order returns all elements of both, sorted, where equivalent elements keep their order and those of the first range precede those of the second. It works for any combination of lengths including empty ranges, and reads each element once.',
  'inputs schedules', 'all pairs of sorted ranges up to the bound with all tie patterns',
  'The parallel split by binary search misplaces ties only for particular patterns.',
  I+'primitives.h '+N+'merge.h '+N+'binary_search.h', [('recursive split by binary search', N+'merge.h merge_into'), ('binary search', N+'binary_search.h')], obs=['merged sequence'], hook=SHRINK)
P('C24', 'Grouping, reducing by key, histograms and duplicate removal are exact',
  'Grouping, reducing and counting by key return exactly one entry for each distinct key that occurs, holding all (and only) that key\'s values - in input order where they are listed, combined by the given operation otherwise. The ordered variants return keys in the given order, the by-index variants return one entry per index below the given bound, and duplicate removal returns each distinct value once, for every hash function consistent with equality.',
  'inputs schedules', 'all key patterns up to the bound, all hash functions consistent with equality, custom operations and orders',
  'Collisions, heavy keys and empty buckets depend on hash values that tests do not control.',
  I+'primitives.h '+N+'group_by.h '+N+'collect_reduce.h '+N+'integer_sort.h', [('bucketing by hash with heavy keys', N+'collect_reduce.h'), ('grouping', N+'group_by.h')], obs=['returned pairs'], hook=SHRINK)
P('C25', 'Selection by rank and ranking are exact',
  'Selecting the k-th smallest element returns an iterator to an element that would be at position k of the sorted range, for every k and every pattern of duplicates, and always terminates. Ranking returns for each element its position in the stable sorted order.',
  'inputs schedules', 'all inputs up to the bound, all k, all random samples',
  'Duplicate-heavy inputs, unlucky samples and extreme ranks are rare in random tests.',
  I+'primitives.h '+N+'heap_tree.h '+N+'counting_sort.h', [('sampled pivots and recursion on one bucket', I+'primitives.h kth_smallest'), ('rank by sorting', I+'primitives.h rank')], obs=['returned iterator or ranks'], hook=SHRINK)
P('C26', 'Delayed sequences yield what the eager operations yield',
  'Any composition of delayed operations (map, zip, scan, filter, filter-map, flatten, enumerate, tabulate, element views) denotes the same elements in the same order as the corresponding eager operations, whether it is iterated, reduced, applied or converted to a sequence. A delayed sequence that was copied, moved or assigned denotes the same elements as before, and one built from a temporary keeps it alive.',
  'inputs schedules programs', 'all inputs up to the bound and all block boundaries, compositions of up to three operations, copies and moves',
  'The tests compose few operations on few lengths, and moved views of short temporaries are not tried.',
  I+'delayed.h '+I+'delayed_sequence.h '+N+'delayed/common.h '+N+'delayed/filter.h '+N+'delayed/filter_op.h '+N+'delayed/flatten.h '+N+'delayed/map.h '+N+'delayed/scan.h '+N+'delayed/terminal.h '+N+'delayed/zip.h',
  [('block iterators', N+'delayed/common.h and the operation files'), ('terminal operations', N+'delayed/terminal.h')], obs=['elements seen by consumers'], hook=SHRINK)
P('C27', 'Tokenising and splitting reproduce the text between delimiters',
  'Tokenising returns exactly the maximal runs of non-space characters (or of characters that do not satisfy the given predicate) in order. Splitting by marks cuts the input after every marked position: there is one more piece than marks, pieces may be empty only at the end, and concatenating the pieces gives back the input. The variants that apply a function to each piece call it once per piece, in order, with the same characters.',
  'inputs schedules', 'all strings up to the bound (all space patterns), all block boundaries',
  'Leading, trailing and repeated spaces at block boundaries combine exponentially.',
  I+'primitives.h', [('start/end flags packed per block', I+'primitives.h tokens, map_tokens, split_at, map_split_at')], obs=['returned tokens'], hook=SHRINK)
P('C28', 'Text conversion of numbers is exact in both directions',
  'Converting an integer to characters and back gives the same integer for every value of every supported type, the text being the usual decimal notation; parsing decimal text of a representable integer gives its value. Parsing a floating-point number gives the double (or float) that the standard conversion gives, whenever the text is short enough to be exact, and otherwise falls back to the standard conversion.',
  'inputs', 'all values of each integer type, all short decimal strings',
  'The extreme values and digit boundaries are few among 2^64 values.',
  I+'io.h', [('integer digits', I+'io.h to_chars, chars_to_int, chars_to_uint, ...'), ('floating point fast path', I+'io.h internal::chars_to_float_t')], obs=['characters produced', 'values parsed'])
P('C29', 'The concurrent hash table keeps one entry per key',
  'After any set of concurrent insertions the table contains exactly the distinct inserted keys, and as many insertions report success as there are new keys; lookups find every inserted key and nothing else; deletions remove exactly the given key and leave all others findable. For tables with a priority among values, the surviving value does not depend on the schedule.',
  'schedules histories inputs', 'all interleavings of insertions (or of deletions, or of lookups), all hash placements and wrap-arounds within the capacity',
  'Probe-chain races and wrap-around deletions need particular hash placements.',
  I+'hash_table.h', [('linear probing with compare-and-swap and ordered displacement', I+'hash_table.h insert, deleteVal, find')], obs=['return values', 'entries'])
P('C30', 'Random permutations and shuffles are permutations determined by the seed',
  'A random permutation of a given length contains each index exactly once, and shuffling returns a permutation of its input; both depend only on the input and the generator, not on the schedule. Forking a generator and indexing it are pure functions of its state.',
  'inputs schedules', 'all lengths up to the bound, all generator states (random bits arbitrary)',
  'Whether a permutation is produced must not depend on which random bits were drawn.',
  I+'random.h', [('bucketed shuffle', I+'random.h random_shuffle_'), ('hash-based generator', I+'random.h random_generator')], obs=['returned sequences'], hook=SHRINK)
P('C31', 'Relocation moves objects without losing, duplicating or leaking them',
  'Relocating one object or a range of objects to uninitialised memory leaves the destination holding exactly the source\'s values and the source uninitialised, calling move and destruction exactly once per object for types that are not trivially relocatable and none otherwise. This holds for every count and element size and for different source and destination iterator types.',
  'inputs', 'all counts up to the bound, trivially and non-trivially relocatable types, small and very large elements',
  'The chunking depends on the element size; tests use a few sizes.',
  I+'relocation.h', [('relocate_at, uninitialized_relocate, uninitialized_relocate_n', I+'relocation.h')], obs=['destination values', 'constructor and destructor calls'])
P('C32', 'Atomic priority updates keep the extreme value and lose no update',
  'Concurrent atomic min/max/add updates leave the location holding the minimum/maximum/sum of its initial value and all arguments, and a conditional update reports success exactly when it changed the value. No update is lost in any interleaving.',
  'schedules inputs', 'all interleavings of several updates with arbitrary values',
  'Lost updates need an interleaving inside the read-compare-swap loop.',
  I+'utilities.h', [('compare-and-swap loops', I+'utilities.h write_add, write_min, write_max')], obs=['final value', 'return values'])
P('C33', 'Block transposition and bucketing move every element to its place',
  'Transposing a matrix of counts, and moving blocks of elements grouped by bucket within each block to buckets grouped over all blocks, place every element exactly where the offsets say, stably, and write nothing else. This holds for every matrix shape and every block shape including empty blocks.',
  'inputs schedules', 'all shapes and contents up to the bound',
  'Recursive splitting over both dimensions depends on the shape.',
  N+'transpose.h '+N+'counting_sort.h '+N+'sample_sort.h', [('recursive transpose', N+'transpose.h transpose, block_transpose, transpose_buckets')], obs=['destination arrays'], hook=SHRINK)
P('C34', 'File contents are read and written unchanged',
  'Writing characters to a file and reading them back, whole or a given range, or through a memory map, gives the same characters, for every content and length including empty files; a file map can be moved and closed without losing or double-freeing the mapping.',
  'inputs', 'all contents and lengths, all ranges',
  'The tests read one file.',
  I+'io.h '+N+'file_map.h '+N+'posix/file_map_impl_posix.h', [('stream reads', I+'io.h chars_from_file, chars_to_file'), ('memory map', N+'posix/file_map_impl_posix.h')], obs=['characters read'],
  na='The property lives in system calls (open, mmap, read, write) and in the precompiled iostream library: there is no code of the library left to encode once those are modelled, and a model of the file system would be what is checked.')
P('C35', 'Slices, index ranges and iterator wrappers address exactly what they name',
  'Slices, cuts, index ranges, delayed index ranges and iterator wrappers obey the random-access iterator laws (advance, distance, comparison, indexing and dereference agree), and slices of ranges denote exactly the elements between their bounds without copying them. Zipping, pairing or wrapping preserves positions.',
  'inputs', 'all bounds and offsets up to the bound, including negative offsets and empty slices',
  'The tests use forward iteration on fixed sizes.',
  I+'slice.h '+I+'range.h '+I+'delayed_sequence.h '+N+'uninitialized_iterator.h '+I+'primitives.h', [('iterator arithmetic', I+'delayed_sequence.h, range.h'), ('slices', I+'slice.h')], obs=['values and distances'])
P('C36', 'Utility arithmetic is exact over its whole domain',
  'The rounded-up binary logarithm, the index-of-block arithmetic, bounds of ranges cut into blocks, and the value-holding helpers (copyable function wrappers, uniquely owned arrays and containers of padded values) compute their documented value for every argument. Equal objects have equal hashes, also across the types that compare equal, and hashes depend only on the contents.',
  'inputs', 'all argument values of the integer types',
  'Powers of two and their neighbours and the extremes are a few values in 2^64.',
  I+'utilities.h '+I+'range.h', [('log2_up, num_blocks, hash32/64, hash_combine', I+'utilities.h')], obs=['returned values'])
P('C37', 'No operation reads uninitialised or foreign memory or has undefined behaviour',
  'On valid arguments, no operation of the library reads uninitialised memory in a way that affects behaviour, accesses memory outside the objects it was given or allocated, overflows signed arithmetic, divides by zero, or runs forever. This includes the extreme cases of each operation: empty and single-element ranges, one block more or less than a full one, and equal elements throughout.',
  'inputs schedules', 'all inputs up to the bounds of the cases',
  'Tests without sanitizers do not see such accesses, and the extreme cases are not enumerated.',
  I+'primitives.h '+I+'sequence.h '+N+'sequence_ops.h '+N+'sequence_base.h', [('index arithmetic of all operations', I+'primitives.h')], obs=['memory accesses'], hook=SHRINK)

def main():
    import checks
    V = os.path.dirname(os.path.abspath(__file__))
    with open(V + '/properties.jsonl', 'w') as f:
        for r in R: f.write(json.dumps({k: v for k, v in r.items() if k[0] != '_'}) + '\n')
    ch, na = [], []
    for r in R:
        if r['id'] in checks.PROPS:
            p = checks.PROPS[r['id']]
            ch.append(dict(property=r['id'], quick_cmd='python3 run.py check %s --tier quick' % r['id'], thorough_cmd='python3 run.py check %s --tier thorough' % r['id'],
                           technique=p.get('technique', 'symbolic execution of the compiled (LLVM IR) library code; assertions, memory safety and fork-join races decided by SMT (bit-vector normal forms, BDDs, z3) for every input within the bounds'),
                           level='model_checking', level_note='Exhaustive within bounds: %s. Outside: %s. Trusts the executor (its path models are re-run on native code on every run), clang\'s IR and the stated thresholds.' % (p.get('bounds', 'see DESIGN.md'), p.get('outside', 'larger inputs'))))
        else: na.append(dict(property=r['id'], reason=r['_na'] or 'Not covered yet: no check has been built for it so far.'))
    import subprocess
    hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=Verification hook'], capture_output=True, text=True).stdout.split()
    json.dump(dict(version=1, setup_cmd='python3 run.py setup', hooks=dict(guard='PARLAY_VERIF', enable='-DPARLAY_VERIF with -include harness/tune.h; each threshold can be overridden with -DPARLAY_VERIF_<NAME>=<n>, and -DPARLAY_VERIF_SCHEDULER="file" replaces the scheduler', source_commits=hook),
                   checks=ch, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
if __name__ == '__main__': main()
