"""Which harness entries decide which property, within which bounds."""
PROPS = {}
def prop(id, **kw): PROPS[id] = kw
def case(h, entry, **kw): return dict(h=h, entry=entry, **kw)
FS = ['--fork-select']
def cs(h, entries, **kw): return [case(h, e, **dict(kw)) for e in entries.split()]

# ---- C14 / C15: reductions and scans
prop('C14', cases=cs('prim_reduce', 'reduce_word reduce_views reduce_builtin_u reduce_builtin_s reduce_sum reduce_owning', race=True, bound='up to 25 elements of symbolic value (three leaf blocks plus a remainder), word / user monoids'),
     bounds='<=25 elements, block size 2 (sequential threshold 6)', outside='longer inputs, other element types')
prop('C15', cases=cs('prim_reduce', 'scan_word scan_word2 scan_sum scan_max', race=True, bound='up to 7 blocks of 2'),
     bounds='<=15 elements, block size 2', outside='longer inputs')
# ---- C16 / C17
prop('C16', cases=cs('prim_pack', 'pack_flags pack_flags2 filter_pred filter_more remove_value unique_adjacent filter_owning', race=True),
     bounds='<=9 elements, block size 2, all flag vectors', outside='longer inputs')
prop('C17', cases=cs('prim_pack', 'flatten_any flatten_long flatten_owning append_two map_tabulate', race=True),
     bounds='<=4 inner ranges, <=9 elements', outside='longer inputs')
# ---- C18..C20
prop('C18', cases=cs('prim_search', 'find_first find_value quantifiers count_value find_first_of_set adjacent mismatch_equal lexicographic search_pattern find_end_pattern', race=True),
     bounds='<=9 elements, search granularity 2', outside='longer inputs')
prop('C19', cases=cs('prim_search', 'extrema_small extrema_blocks', race=True), bounds='<=25 elements', outside='longer inputs')
prop('C20', cases=cs('prim_search', 'order_predicates partitioned sorted_long permutations', race=True), bounds='<=9 elements', outside='longer inputs')
# ---- C21 / C23: sorting, merging
SS = ['-DPARLAY_VERIF_QUICKSORT_THRESHOLD=16', '-DPARLAY_VERIF_BUCKET_SORT_BITS=2', '-DPARLAY_VERIF_BUCKET_SORT_FACTOR=1']
prop('C21', cases=cs('sorts', 'sort_copy sort_stable sort_inplace sort_stable_inplace sort_big sort_big_stable sort_default_order sort_owning sort_move_only', race=True, args=FS) +
     cs('sorts', 'sort_partly', race=True, args=FS, time=200) + cs('sorts', 'sample_sort_copy sample_sort_stable sample_sort_inplace', race=True, args=FS, defs=SS, time=200),
     bounds='all orders of <=6 elements through quicksort / merge sort; 36 elements through sample sort with the symbolic elements at chosen positions', outside='longer inputs')
prop('C23', cases=cs('sorts', 'merge_two merge_long merge_default merge_owning', race=True, args=FS), bounds='all pairs of sorted ranges up to 9 elements in total', outside='longer inputs')
# ---- C22
ip = lambda st, n, b: dict(STABLE=st, LO=n, N=n, BITS=b)
prop('C22', cases=[case('ints', e, race=True, args=FS, params=dict(LO=lo, N=n, BITS=b), time=200, thorough=th) for e in ('isort_copy', 'isort_stable', 'isort_inplace')
                   for lo, n, b, th in ((0, 4, 4, {}), (5, 5, 3, dict(params=dict(LO=5, N=5, BITS=4), time=600)), (7, 7, 2, dict(params=dict(LO=8, N=8, BITS=2), time=600)))] +
     cs('ints', 'isort_plain isort_max_key csort', race=True, args=FS) + [case('ints', 'isort_owning', race=True, args=FS, params=dict(BITS=2))] +
     [case('ints', 'csort_plain', race=True, args=FS, params=dict(N=5, M=4)), case('ints', 'csort_plain', race=True, args=FS, params=dict(N=7, M=3)), case('ints', 'csort_plain', race=True, args=FS, params=dict(N=6, M=2), defs=['-DPARLAY_VERIF_COUNT_SORT_BLOCK=3*2'])],
     bounds='<=7 elements, keys up to 4 bits (radix of 2 bits)', outside='longer inputs, wider keys')
# ---- C24
prop('C24', cases=[case('group', 'group_ordered', race=True, args=FS), case('group', 'group_ordered', race=True, args=FS, params=dict(SAMPLE=1)), case('group', 'group_ordered', race=True, args=FS, params=dict(N=9, LO=7, KB=1)),
                   case('group', 'group_ordered_cmp', race=True, args=FS), case('group', 'group_by_any_hash', race=True, args=FS, params=dict(N=4, KB=1), time=200),
                   case('group', 'reduce_by_any_hash', race=True, args=FS), case('group', 'reduce_by_any_hash', race=True, args=FS, params=dict(N=7, LO=6, KB=1), time=200),
                   case('group', 'histogram_any_hash', race=True, args=FS, time=200), case('group', 'histogram_any_hash', race=True, args=FS, params=dict(N=7, KB=1), time=200),
                   case('group', 'default_hash', race=True, args=FS), case('group', 'default_hash', race=True, args=FS, params=dict(N=7, LO=6, KB=2), time=200),
                   case('group', 'owning_by_key', race=True, args=FS), case('group', 'owning_by_key', race=True, args=FS, params=dict(RV=1)),
                   case('group', 'by_index', race=True, args=FS), case('group', 'by_index', race=True, args=FS, params=dict(MLO=0, N=7, M=3)),
                   case('group', 'group_index', race=True, args=FS), case('group', 'group_index', race=True, args=FS, params=dict(N=7, LO=6), time=200),
                   case('group', 'group_index_small_type', race=True, args=FS), case('group', 'duplicates_ordered', race=True, args=FS)],
     bounds='<=9 elements, keys of 1-2 bits, arbitrary symbolic hash functions', outside='longer inputs')
# ---- C25
prop('C25', cases=[case('kth', 'rank_values', race=True, args=FS), case('kth', 'kth_value', race=True, args=FS, thorough=dict(params=dict(N=6), time=600)), case('kth', 'kth_duplicates', race=True, args=FS), case('kth', 'kth_owning', race=True, args=FS)],
     bounds='<=5 elements of symbolic value', outside='longer inputs')
# ---- C26: delayed sequences
prop('C26', cases=cs('delayed', 'd_map d_filter d_filter_op d_scan d_scan_plus d_flatten d_flatten_own d_flatten_temps d_zip d_views d_assign_refs d_returned', race=True, args=FS) +
     [case('delayed', 'd_filter_marks', race=True, args=FS, params=dict(N=6), thorough=dict(params=dict(N=8), time=200)), case('delayed', 'd_flatten_bid', race=True, args=FS, params=dict(M=6), thorough=dict(params=dict(M=7), time=200)), case('delayed', 'd_compose', race=True, args=FS)] +
     cs('delayed', 'd_carry_filter d_carry_filter_view d_carry_filter_iota d_carry_filter_op d_carry_map d_carry_ramap d_carry_scan d_carry_scan_view d_carry_zip d_carry_flatten d_carry_flatten_temps d_carry_flatten_array', race=True, args=FS),
     bounds='<=10 elements, delayed block size 3, compositions of up to three operations; copies, moves, swaps and assignments of every view', outside='longer inputs')
# ---- C27 / C28: text
prop('C27', cases=cs('text', 'tokens_spaces tokens_bytes tokens_pred split_marks split_chars', race=True, args=FS), bounds='all texts of <=8 characters (every byte value), block size 2', outside='longer texts')
prop('C28', cases=cs('text', 'parse_int parse_long parse_long_long parse_uint parse_ulong parse_ulong_long format_int format_long format_long_long format_uint format_ulong format_ulong_long format_misc', race=True, args=FS) +
     [case('text', 'format_nested', args=FS)] + cs('text', 'parse_float parse_double', race=True, args=FS) +
     [case('text', 'parse_double', race=True, args=FS, params=dict(A=18, B=1, ALO=15, EX=2, EL=2)), case('text', 'parse_float', race=True, args=FS, params=dict(A=10, B=4, ALO=6, EX=1, EL=1))],
     bounds='every value of every integer type (all numbers of digits); floating-point texts of <=6 digits with every exponent of <=2 digits, and 15..19 digits at the limits', outside='longer floating-point texts',
     assumptions=['snprintf with %d/%u prints the decimal representation and strtod/strtof convert correctly (models of the C library)'])
# ---- C11..C13: sequences
hist = lambda h, **p: case('seq', h, args=FS, race=True, params=p, time=200)
prop('C11', cases=[hist('seq_int'), hist('seq_short_int'), hist('seq_short_long'), case('seq', 'seq_chars', args=FS, race=True, time=200)] + [dict(hist(e, SIZE=1, STATES=1, LEN=2), thorough=dict(params=dict(SIZE=2, STATES=1, LEN=2), time=600)) for e in ('seq_int', 'seq_short_int', 'seq_short_long')] +
     cs('seq', 'ctor_int ctor_short ctor_nocopy equal_blocks equal_huge', race=True, args=FS) + [dict(hist('seq_short_int', SIZE=4, LEN=2), tier='thorough', time=900), dict(hist('seq_int', SIZE=1, STATES=0, LEN=3), tier='thorough', time=900)],
     bounds='every operation from every sequence of <=5 elements (13..17 for inline characters) in five capacity states, every pair of operations from <=1 element (thorough: <=2); element values symbolic', outside='longer sequences; the state after an operation is compared with the model, so longer histories are covered as far as states with equal contents, size and capacity behave alike')
prop('C12', cases=[hist('seq_tracked'), dict(hist('seq_tracked', SIZE=1, STATES=1, LEN=2), thorough=dict(params=dict(SIZE=2, STATES=1, LEN=2), time=600))] + cs('seq', 'ctor_tracked alias_tracked', args=FS) + cs('prim_reduce', 'reduce_owning', args=FS) + cs('prim_pack', 'filter_owning flatten_owning', args=FS) +
     cs('sorts', 'sort_owning merge_owning sort_move_only', args=FS) + [case('ints', 'isort_owning', args=FS, params=dict(BITS=2))] + cs('group', 'owning_by_key', args=FS) + [case('group', 'owning_by_key', args=FS, params=dict(RV=1))] + cs('kth', 'kth_owning', args=FS) +
     cs('delayed', 'd_flatten_own d_flatten_temps d_carry_flatten_temps', args=FS) + [dict(hist('seq_tracked', SIZE=1, STATES=0, LEN=3), tier='thorough', time=900)],
     bounds='every operation from every sequence of <=4 owning elements in five capacity states, every pair of operations from <=1 element (thorough: <=2); owning elements through every group of algorithms', outside='longer sequences')
prop('C13', cases=cs('seq', 'alias_int alias_tracked alias_short', args=FS), bounds='<=4 elements, three spare capacities, every element and position', outside='longer sequences')
# ---- C05 / C37: races and memory errors over all areas (functional assertions are not reported here)
def integrated(**kw):
    t = lambda h, es, **k: cs(h, es, **dict(kw, **dict(dict(args=FS), **k)))
    return (t('prim_reduce', 'reduce_word reduce_views scan_word scan_sum scan_max reduce_owning') + t('prim_pack', 'pack_flags filter_more unique_adjacent flatten_any flatten_owning append_two map_tabulate') +
            t('prim_search', 'find_first find_value count_value adjacent mismatch_equal search_pattern find_end_pattern extrema_blocks order_predicates permutations') +
            t('sorts', 'sort_copy sort_stable_inplace sort_big sort_owning merge_two merge_owning') + t('sorts', 'sample_sort_copy', defs=SS) +
            t('ints', 'isort_inplace', params=dict(LO=5, N=5, BITS=3)) + t('ints', 'isort_plain csort') + t('group', 'group_ordered reduce_by_any_hash by_index group_index duplicates_ordered') + t('kth', 'kth_value kth_owning') +
            t('seq', 'seq_tracked seq_short_int equal_blocks') + t('delayed', 'd_map d_filter d_filter_op d_scan d_flatten d_flatten_temps d_zip d_views d_carry_filter d_carry_flatten') + t('text', 'tokens_spaces split_marks parse_double format_misc') + t('text', 'parse_int format_long', params=dict(K=4)))
prop('C05', kinds='race', cases=[dict(c, race=True) for c in integrated()], bounds='the bounds of C14..C28; both orders of every pair of concurrent branches', outside='longer inputs; branches that communicate through atomics are not ordered by a memory model here')
UB = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,return,unreachable', '-fsanitize-trap=all']
prop('C37', kinds='memory,uninit,ub,arith,nontermination,abort,exception', cases=integrated(irflags=UB), bounds='the bounds of C14..C28; signed overflow, shifts and divisions instrumented', outside='longer inputs')

# ---- concurrency: interleavings of the real lock-free code
def conc(h, es, mode='sc', **kw): return [case(h, e, **dict(dict(conc=mode, race=True, model_replay=True, no_validate=True, time=200), **kw)) for e in es.split()]
B16 = dict(defs=['-DPARLAY_VERIF_DEQUE_SIZE=16'])
prop('C03', cases=conc('deque', 'one_thief two_thieves three_thieves') + conc('deque', 'one_thief two_thieves three_thieves', 'tso') + conc('deque', 'two_thieves', params=dict(ops=4)) +
     conc('deque', 'one_thief', params=dict(ops=4)) + conc('deque', 'one_thief', 'tso', params=dict(ops=4)) + conc('deque', 'one_thief', tier='thorough', params=dict(ops=6, steals=3), time=900, **B16) + conc('deque', 'two_thieves', 'tso', tier='thorough', params=dict(ops=4), time=900),
     bounds='every history of 1..4 owner operations (push / pop) against one to three thieves of one to two steals, every interleaving of the atomic operations, sequentially consistent and with store buffers (TSO)', outside='longer histories, more thieves, reorderings weaker than TSO')
prop('C08', kinds='memory,assert,uninit,deadlock,leak,abort', cases=conc('stack', 'two two_lazy') + conc('stack', 'two', 'tso') + conc('stack', 'two', args=['--reuse']) + conc('stack', 'two_twice one_three', params=dict(marks=0)) +
     conc('stack', 'three', params=dict(marks=0), tier='thorough', time=600) + conc('stack', 'one_three', params=dict(marks=0), tier='thorough', args=['--reuse', '--preempt=2'], time=600),
     bounds='two threads of one to two operations, one against three, (thorough) three threads; every interleaving of the atomic operations of the stack and of the hazard pointers, optionally with immediate re-use of freed nodes and with store buffers', outside='more threads or operations; reorderings weaker than TSO; the formal race on the link of a node that a popper has protected but not yet validated')
AL = dict(pool=True, model_replay=True, time=200)
MP = dict(AL, args=FS + ['--tight-align'], params=dict(pages=4096))
LT = ['-DPARLAY_VERIF_LARGE_THRESHOLD=256']
noRace = 'memory,assert,uninit,deadlock,leak,abort'
allocs = cs('alloc', 'malloc_any container_any malloc_one malloc_history container_small container_aligned', **MP) + [case('alloc', 'pools', defs=LT, **MP), case('alloc', 'pools_large', defs=LT, no_validate=True, **MP)] + cs('alloc', 'single_objects create_destroy', **dict(AL, args=FS + ['--tight-align'])) + cs('alloc', 'blocks blocks_long', **dict(AL, args=FS + ['--tight-align']))
shared_ = conc('alloc', 'blocks_shared', pool=True, real_sched=True, args=FS, kinds=noRace)
prop('C06', cases=allocs + [case('alloc', 'malloc_history', tier='thorough', **dict(MP, time=900, params=dict(pages=4096, LEN=6)))], kinds='memory,assert,uninit,abort,nontermination', bounds='every size up to 131142 (symbolic) with every alignment up to 1024, and 43 sizes around every class and padding boundary up to beyond the largest pool, every alignment up to 4096; every history of 5 allocations and frees over five sizes (7 for fixed-size blocks); containers of eleven element types of every alignment up to 512; the system returns blocks aligned as requested and no more', outside='longer histories, other sizes inside a class', assumptions=['the machine has 16 MB of memory in these cases, so that sizes beyond the largest pool are small'])
prop('C09', cases=allocs + shared_, kinds=noRace, bounds='as C06', outside='longer histories')
prop('C07', cases=shared_ + conc('alloc', 'two_workers handed_over three_workers', pool=True, real_sched=True, args=FS + ['--preempt=1'], kinds=noRace) + conc('alloc', 'handed_over', pool=True, real_sched=True, args=FS + ['--preempt=2'], kinds=noRace) + 
     conc('alloc', 'two_workers three_workers', pool=True, real_sched=True, args=FS + ['--preempt=2'], kinds=noRace, tier='thorough', time=1500) + conc('alloc', 'two_workers handed_over', 'tso', pool=True, real_sched=True, args=FS + ['--preempt=1'], kinds=noRace, tier='thorough', time=900) + conc('alloc', 'handed_over', pool=True, real_sched=True, args=FS + ['--preempt=3'], kinds=noRace, tier='thorough', time=900),
     kinds=noRace, bounds='two and three workers of one to four allocations and frees of their own and of other workers\' blocks, lists of one and two blocks, with and without lists in the shared pool; one preemption (hand-over: two; thorough: two and three)', outside='more workers, longer lists, more preemptions; the formal race of C08')
prop('C10', cases=conc('tids', 'ids_two ids_sequential elements_two elements_walk iterate') + [case('tids', 'iterate_const', time=100)] + conc('tids', 'ids_three elements_three', args=['--preempt=1'], tier='thorough', time=900),
     bounds='two threads (thorough: three, with one preemption) starting, using a thread-specific object and finishing, in every interleaving', outside='more threads, longer lives')
prop('C32', cases=[c for ty in ('uint16_t', 'int', 'int64_t', 'uint8_t') for c in conc('atom', 'min_two max_two min_three max_three add_two add_three add_two_twice', defs=['-DTY=' + ty], args=['--spurious=1'])] +
     [dict(c, **({} if ty != 'int64_t' else dict(tier='thorough', time=600))) for ty in ('uint16_t', 'int', 'int64_t', 'uint8_t') for c in conc('atom', 'min_two_twice max_two_twice', defs=['-DTY=' + ty], args=['--spurious=1'])],
     bounds='two or three threads of one to two updates each with symbolic values of 8, 16, 32 and 64 bits, every interleaving, one spurious failure of a weak compare-exchange', outside='more threads')
prop('C31', cases=cs('reloc', 'one_object range_trivial range_counted range_tracked range_owner range_large range_large3 range_edge range_huge different_types growing_large', args=FS), bounds='ranges of <=8 objects of 8..10000 bytes, six combinations of iterators, chunk sizes of one to many objects', outside='longer ranges')
# ---- C29: hash table
HC = dict(race=False)
hc = lambda e, counts, **k: conc('hash', e, args=FS, params=dict(dict(PL=2, counts=counts), **k.pop('p', {})), **dict(HC, **k))
prop('C29', cases=[case('hash', 'history', args=FS), case('hash', 'history', args=FS, params=dict(KEYS=4, PERM=1)), case('hash', 'numeric', args=FS)] + cs('hash', 'history_priority history_update', args=FS) +
     hc('insert_two', 12) + hc('insert_two', 12, p=dict(init=0, PL=3)) + hc('insert_three', 111) + hc('insert_returns', 11) + hc('insert_priority', 11) + hc('update_two', 12) + hc('delete_two', 12) + hc('delete_two', 11, p=dict(PL=3)) + [dict(c, args=FS + ['--preempt=1']) for c in hc('delete_three', 111)] +
     [case('hash', 'history', args=FS, tier='thorough', time=900, params=dict(KEYS=4, PERM=1, DEL=3)), case('hash', 'history', args=FS, tier='thorough', time=900, params=dict(DEL=2))] + hc('insert_two', 22, tier='thorough', time=1500) + hc('insert_priority', 12, tier='thorough', time=900) + hc('delete_two', 22, tier='thorough', time=1500) + hc('delete_three', 111, tier='thorough', time=1500) + hc('insert_two', 12, tier='thorough', time=900, p=dict(PL=4)),
     kinds='memory,assert,uninit,deadlock,abort,nontermination', bounds='three and four keys, every placement on two to three neighbouring slots around the end of the table, every history of 4 insertions and 1..3 deletions; two threads of one and two operations and three threads of one, every interleaving of the accesses to the cells; values symbolic', outside='more keys and threads; insertions, deletions and lookups at the same time (excluded by the interface); reorderings of the relaxed accesses weaker than sequential consistency',
     assumptions=['the cells are read and compare-and-swapped atomically (the harness supplies an element type that does so; the numeric example of the library reads cells with plain loads)'])
# ---- C01 / C02 / C04: the scheduler
D64 = ['-DPARLAY_VERIF_DEQUE_SIZE=64']
NE = dict(defs=['-DPARLAY_ELASTIC_PARALLELISM=false'])
PB = lambda n, *a: dict(args=['--preempt=%d' % n] + list(a))
prop('C01', cases=cs('par', 'for_explicit for_automatic for_automatic_long for_inverted for_nested for_blocked forks private_scheduler', args=FS, defs=D64, real_sched=True, time=120) + [case('par', 'for_explicit', args=FS, defs=D64, real_sched=True, tier='thorough', params=dict(N=60), time=600)] +
     conc('sched', 'loop', params=dict(N=4), **PB(2)) + conc('sched', 'loop', params=dict(W=3), **dict(NE, **PB(2))) + conc('sched', 'loop', params=dict(N=5, cons=2), tier='thorough', time=900, **PB(3)),
     bounds='ranges of <=20 indices anywhere in the index type with every granularity (thorough: <=60), automatic granularity under every timing of the calls for <=9 and 300 indices, blocks of ranges of any length up to 5 blocks; two and three workers stealing with <=2 preemptions', outside='longer ranges, more workers')
prop('C02', cases=conc('sched', 'one_fork', **dict(NE, args=[])) + conc('sched', 'one_fork', params=dict(cons=1), **dict(NE, args=[])) + conc('sched', 'one_fork', **PB(3)) + conc('sched', 'nested_left nested_right nested_both fork_twice loop ids inner', **PB(2)) + conc('sched', 'nested_both fork_twice', **dict(NE, **PB(3))) +
     conc('sched', 'one_fork loop', params=dict(W=3), **dict(NE, **PB(2))) + conc('sched', 'nested_right nested_both', params=dict(cons=1), **PB(2)) + cs('par', 'forks private_scheduler', args=FS, defs=D64, real_sched=True) +
     conc('sched', 'one_fork', tier='thorough', time=900, **PB(4)) + conc('sched', 'one_fork', params=dict(W=3), tier='thorough', time=900, **PB(2)) + conc('sched', 'nested_both fork_twice', tier='thorough', time=900, **PB(3)) + conc('sched', 'one_fork', 'tso', tier='thorough', time=900, **dict(NE, **PB(2))),
     bounds='one to three forks, nested on either side, on two workers (every interleaving without sleeping; <=2..3 preemptions with sleeping and waking) and three workers (<=2 preemptions)', outside='more forks and workers, more preemptions; the number of steal attempts before a pause is 1 per deque')
prop('C04', cases=conc('sched', 'wait_word wait_int') + conc('sched', 'wait_word wait_int', params=dict(n=2)) + conc('sched', 'wait_word wait_int', 'tso') + conc('sched', 'shutdown') + conc('sched', 'shutdown', params=dict(rest=1)) + conc('sched', 'woken', **PB(3)) + conc('sched', 'shutdown', params=dict(W=3), **PB(2)) +
     conc('sched', 'one_fork', **PB(3)) + conc('sched', 'nested_both fork_twice', **PB(2)) + conc('sched', 'woken', tier='thorough', time=600) + conc('sched', 'shutdown', params=dict(W=3), tier='thorough', time=600, **PB(3)) + conc('sched', 'shutdown', 'tso', tier='thorough', time=600) + conc('sched', 'wait_word', params=dict(n=3), tier='thorough', time=600),
     bounds='waiting and notifying: one to two waiters, every interleaving (sequentially consistent and, for one waiter, with store buffers); a sleeping worker and one arriving job with <=3 preemptions (thorough: any number); shutdown of two workers in every interleaving and of three with <=2 preemptions', outside='more workers; spurious returns from the futex; the time limit of a sleep is only used when nothing else can run')
