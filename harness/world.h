/* Operations of the "world" executor: a set of containers and a history. */
#ifndef VH_WORLD_H
#define VH_WORLD_H
#include "vh.h"

enum {
	W_INS = 1, /* insert a new object with key k, user value u */
	W_INSHEAD, /* lists: at the head */
	W_SHARE, /* insert live object n into this container too, with key k */
	W_REM, /* remove by key k and user value u, n: how the compare function matches */
	W_REMH, /* the same with the key of held element k, n as above */
	W_REX, /* remove held element k by its node */
	W_REXDUP, /* remove the n-th element having the key of held element k */
	W_FIND, /* search key k, user u, n: match mode */
	W_FINDH, /* the same with the key of held element k */
	W_BUCKET, /* walk the bucket of key k */
	W_BUCKETH, /* the bucket of held element k */
	W_EACH, /* foreach, n&1: with argument */
	W_FREEALL, /* foreach freeing the elements, then reinitialise */
	W_DONE, /* deinitialise (with elements inside) and reinitialise */
	W_FULL, /* check everything */
	W_CONCAT, /* lists: concatenate list k at the end */
	W_SORT, /* lists: sort, n: order */
	W_SUBFIND, /* trees: search with a sub-order, n: how coarse */
	W_QUERY, /* all queries, then check nothing changed */
	W_AGROW, /* arrays: grow to k */
	W_ASET, /* arrays: write position k with u */
	W_AGET, /* arrays: read position k */
	W_AINS, /* arrays: append u */
	W_ALLOC, /* allocator: n blocks */
	W_AFREE, /* allocator: free live block k */
	W_READD, /* remove held element k by node and insert it again at once, with key u */
	W_MAX
};

#define IDX_NEWEST 0xfffffffffffffffull
#define IDX_OLDEST 0xffffffffffffffeull

void world_run(const Case&);
#endif
