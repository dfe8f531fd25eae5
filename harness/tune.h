// Values of the size thresholds used by verification builds (-DPARLAY_VERIF); a harness may
// override any of them with -D.
#pragma once
#ifndef PARLAY_VERIF_LOG_BLOCK_SIZE
#define PARLAY_VERIF_LOG_BLOCK_SIZE 2
#endif
#ifndef PARLAY_VERIF_CR_SEQ_THRESHOLD
#define PARLAY_VERIF_CR_SEQ_THRESHOLD 6
#endif
#ifndef PARLAY_VERIF_BINARY_SEARCH_BASE
#define PARLAY_VERIF_BINARY_SEARCH_BASE 2
#endif
#ifndef PARLAY_VERIF_DEQUE_SIZE
#define PARLAY_VERIF_DEQUE_SIZE 8
#endif
#ifndef PARLAY_VERIF_MERGE_SORT_BASE
#define PARLAY_VERIF_MERGE_SORT_BASE 3
#endif
#ifndef PARLAY_VERIF_SEQ_THRESHOLD
#define PARLAY_VERIF_SEQ_THRESHOLD 4
#endif
#ifndef PARLAY_VERIF_DELAYED_BLOCK_SIZE
#define PARLAY_VERIF_DELAYED_BLOCK_SIZE 3
#endif
#ifndef PARLAY_VERIF_BLOCK_DELAYED_BLOCK_SIZE
#define PARLAY_VERIF_BLOCK_DELAYED_BLOCK_SIZE 3
#endif
#ifndef PARLAY_VERIF_QUICKSORT_THRESHOLD
#define PARLAY_VERIF_QUICKSORT_THRESHOLD 16384
#endif
#ifndef PARLAY_VERIF_TRANS_THRESHOLD
#define PARLAY_VERIF_TRANS_THRESHOLD 2
#endif
#ifndef PARLAY_VERIF_NON_CACHE_OBLIVIOUS_THRESHOLD
#define PARLAY_VERIF_NON_CACHE_OBLIVIOUS_THRESHOLD 8
#endif
#ifndef PARLAY_VERIF_TRANSPOSE_MIN
#define PARLAY_VERIF_TRANSPOSE_MIN 2
#endif
#ifndef PARLAY_VERIF_MERGE_BASE
#define PARLAY_VERIF_MERGE_BASE 4
#endif
#ifndef PARLAY_VERIF_INTEGER_SORT_BASE
#define PARLAY_VERIF_INTEGER_SORT_BASE 4
#endif
#ifndef PARLAY_VERIF_RADIX
#define PARLAY_VERIF_RADIX 2
#endif
#ifndef PARLAY_VERIF_SPARSE_THRESHOLD
#define PARLAY_VERIF_SPARSE_THRESHOLD 6
#endif
#ifndef PARLAY_VERIF_CR_BITS
#define PARLAY_VERIF_CR_BITS 1
#endif
#ifndef PARLAY_VERIF_CR_BLOCK
#define PARLAY_VERIF_CR_BLOCK 2
#endif
#ifndef PARLAY_VERIF_COUNT_SORT_BLOCK
#define PARLAY_VERIF_COUNT_SORT_BLOCK 3
#endif
#ifndef PARLAY_VERIF_QUICKSORT_BASE
#define PARLAY_VERIF_QUICKSORT_BASE 5
#endif
#ifndef PARLAY_VERIF_QUICKSORT_PAR
#define PARLAY_VERIF_QUICKSORT_PAR 6
#endif
#ifndef PARLAY_VERIF_BUCKET_SORT_BITS
#define PARLAY_VERIF_BUCKET_SORT_BITS 4
#endif
#ifndef PARLAY_VERIF_BUCKET_SORT_FACTOR
#define PARLAY_VERIF_BUCKET_SORT_FACTOR 32
#endif
#ifndef PARLAY_VERIF_LARGE_THRESHOLD
#define PARLAY_VERIF_LARGE_THRESHOLD (1 << 18)
#endif
#ifndef PARLAY_VERIF_DEFAULT_LIST_BYTES
#define PARLAY_VERIF_DEFAULT_LIST_BYTES 512
#endif
#ifndef PARLAY_VERIF_FIND_IF
#define PARLAY_VERIF_FIND_IF 2
#endif
#ifndef PARLAY_VERIF_LEX
#define PARLAY_VERIF_LEX 2
#endif
#ifndef PARLAY_VERIF_TOKENS
#define PARLAY_VERIF_TOKENS 4
#endif
#ifndef PARLAY_VERIF_KTH
#define PARLAY_VERIF_KTH 3
#endif
#ifndef PARLAY_VERIF_KTH_SAMPLE
#define PARLAY_VERIF_KTH_SAMPLE 3
#endif
#ifndef PARLAY_VERIF_KTH_OVER
#define PARLAY_VERIF_KTH_OVER 2
#endif
#ifndef PARLAY_VERIF_SHUFFLE_BITS
#define PARLAY_VERIF_SHUFFLE_BITS 1
#endif
#ifndef PARLAY_VERIF_YIELD_FACTOR
#define PARLAY_VERIF_YIELD_FACTOR 1
#endif
