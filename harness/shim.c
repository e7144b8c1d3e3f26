/*
 * The library under test, in one translation unit, and the wrappers of shim.h.
 * Compiled once per configuration, as C or as C++, with hooks.h force-included.
 */
#ifndef VH_SPLIT
#ifdef __cplusplus
extern "C" {
#endif
#include "tommyds/tommy.c"
#ifdef __cplusplus
}
#endif
#endif
#include "tommyds/tommy.h"
#include "shim.h"

#ifdef __cplusplus
extern "C" {
#endif

const int vs_size_bit = sizeof(tommy_hash_t) * 8;
/* 32 bits at least if not configured otherwise */
#ifdef VH_WIDTH
const int vs_trie_bit = TOMMY_TRIE_BIT;
const int vs_trieinp_bit = TOMMY_TRIE_INPLACE_BIT;
#else
const int vs_trie_bit = TOMMY_TRIE_BIT < 32 ? 32 : TOMMY_TRIE_BIT;
const int vs_trieinp_bit = TOMMY_TRIE_INPLACE_BIT < 32 ? 32 : TOMMY_TRIE_INPLACE_BIT;
#endif
const int vs_trie_tree = TOMMY_TRIE_TREE_MAX;
const int vs_trieinp_tree = TOMMY_TRIE_INPLACE_TREE_MAX;
#ifndef VH_DYN
#define VH_DYN 4
#endif
#ifndef VH_LIN
#define VH_LIN 6
#endif
#ifndef VH_ARR
#define VH_ARR 6
#endif
#ifndef VH_ARROF
#define VH_ARROF 6
#endif
#ifndef VH_BLK
#define VH_BLK 4096
#endif
#ifndef VH_BLKOF
#define VH_BLKOF 4096
#endif
#ifndef VH_SEG
#define VH_SEG (4096 - 64)
#endif
const uint64_t vs_dyn_min = (uint64_t)1 << VH_DYN;
const uint64_t vs_lin_min = (uint64_t)1 << VH_LIN;
const uint64_t vs_array_min = (uint64_t)1 << VH_ARR;
const uint64_t vs_arrayof_min = (uint64_t)1 << VH_ARROF;
const uint64_t vs_blk = VH_BLK;
const uint64_t vs_blkof = VH_BLKOF;
const uint64_t vs_segment = VH_SEG;

#ifdef __cplusplus
const int vs_cplusplus = 1;
#else
const int vs_cplusplus = 0;
#endif
#ifdef NDEBUG
const int vs_asserts = 0;
#else
const int vs_asserts = 1;
#endif

size_t vs_sizeof(int kind)
{
	switch (kind) {
	case K_HASHTABLE : return sizeof(tommy_hashtable);
	case K_HASHDYN : return sizeof(tommy_hashdyn);
	case K_HASHLIN : return sizeof(tommy_hashlin);
	case K_TRIE : return sizeof(tommy_trie);
	case K_TRIEINP : return sizeof(tommy_trie_inplace);
	case K_TREE : return sizeof(tommy_tree);
	case K_LIST : return sizeof(tommy_list);
	case K_ARRAY : return sizeof(tommy_array);
	case K_ARRAYOF : return sizeof(tommy_arrayof);
	case K_ARRAYBLK : return sizeof(tommy_arrayblk);
	case K_ARRAYBLKOF : return sizeof(tommy_arrayblkof);
	case K_ALLOC : return sizeof(tommy_allocator);
	}
	abort();
}

size_t vs_node_sizeof(int kind)
{
	switch (kind) {
	case K_HASHTABLE : return sizeof(tommy_hashtable_node);
	case K_HASHDYN : return sizeof(tommy_hashdyn_node);
	case K_HASHLIN : return sizeof(tommy_hashlin_node);
	case K_TRIE : return sizeof(tommy_trie_node);
	case K_TRIEINP : return sizeof(tommy_trie_inplace_node);
	case K_TREE : return sizeof(tommy_tree_node);
	case K_LIST : return sizeof(tommy_node);
	}
	return 0;
}

size_t vs_trie_block_size(void)
{
	return TOMMY_TRIE_BLOCK_SIZE;
}

void vs_init(int kind, void* c, size_t p1, size_t p2, void* alloc, vs_cmp* cmp)
{
	switch (kind) {
	case K_HASHTABLE : tommy_hashtable_init((tommy_hashtable*)c, p1); return;
	case K_HASHDYN : tommy_hashdyn_init((tommy_hashdyn*)c); return;
	case K_HASHLIN : tommy_hashlin_init((tommy_hashlin*)c); return;
	case K_TRIE : tommy_trie_init((tommy_trie*)c, (tommy_allocator*)alloc); return;
	case K_TRIEINP : tommy_trie_inplace_init((tommy_trie_inplace*)c); return;
	case K_TREE : tommy_tree_init((tommy_tree*)c, cmp); return;
	case K_LIST : tommy_list_init((tommy_list*)c); return;
	case K_ARRAY : tommy_array_init((tommy_array*)c); return;
	case K_ARRAYOF : tommy_arrayof_init((tommy_arrayof*)c, p1); return;
	case K_ARRAYBLK : tommy_arrayblk_init((tommy_arrayblk*)c); return;
	case K_ARRAYBLKOF : tommy_arrayblkof_init((tommy_arrayblkof*)c, p1); return;
	case K_ALLOC : tommy_allocator_init((tommy_allocator*)c, p1, p2); return;
	}
	abort();
}

void vs_done(int kind, void* c)
{
	switch (kind) {
	case K_HASHTABLE : tommy_hashtable_done((tommy_hashtable*)c); return;
	case K_HASHDYN : tommy_hashdyn_done((tommy_hashdyn*)c); return;
	case K_HASHLIN : tommy_hashlin_done((tommy_hashlin*)c); return;
	case K_ARRAY : tommy_array_done((tommy_array*)c); return;
	case K_ARRAYOF : tommy_arrayof_done((tommy_arrayof*)c); return;
	case K_ARRAYBLK : tommy_arrayblk_done((tommy_arrayblk*)c); return;
	case K_ARRAYBLKOF : tommy_arrayblkof_done((tommy_arrayblkof*)c); return;
	case K_ALLOC : tommy_allocator_done((tommy_allocator*)c); return;
	}
}

void* vs_insert(int kind, void* c, void* node, void* data, size_t key)
{
	switch (kind) {
	case K_HASHTABLE : tommy_hashtable_insert((tommy_hashtable*)c, (tommy_hashtable_node*)node, data, key); return 0;
	case K_HASHDYN : tommy_hashdyn_insert((tommy_hashdyn*)c, (tommy_hashdyn_node*)node, data, key); return 0;
	case K_HASHLIN : tommy_hashlin_insert((tommy_hashlin*)c, (tommy_hashlin_node*)node, data, key); return 0;
	case K_TRIE : tommy_trie_insert((tommy_trie*)c, (tommy_trie_node*)node, data, key); return 0;
	case K_TRIEINP : tommy_trie_inplace_insert((tommy_trie_inplace*)c, (tommy_trie_inplace_node*)node, data, key); return 0;
	case K_TREE : return tommy_tree_insert((tommy_tree*)c, (tommy_tree_node*)node, data);
	case K_LIST : tommy_list_insert_tail((tommy_list*)c, (tommy_node*)node, data); return 0;
	}
	abort();
}

void vs_list_insert_head(void* c, void* node, void* data)
{
	tommy_list_insert_head((tommy_list*)c, (tommy_node*)node, data);
}

void* vs_remove(int kind, void* c, vs_cmp* cmp, const void* arg, size_t key)
{
	switch (kind) {
	case K_HASHTABLE : return tommy_hashtable_remove((tommy_hashtable*)c, cmp, arg, key);
	case K_HASHDYN : return tommy_hashdyn_remove((tommy_hashdyn*)c, cmp, arg, key);
	case K_HASHLIN : return tommy_hashlin_remove((tommy_hashlin*)c, cmp, arg, key);
	case K_TRIE : return tommy_trie_remove((tommy_trie*)c, key);
	case K_TRIEINP : return tommy_trie_inplace_remove((tommy_trie_inplace*)c, key);
	case K_TREE : return tommy_tree_remove((tommy_tree*)c, (void*)arg);
	}
	abort();
}

void* vs_remove_existing(int kind, void* c, void* node)
{
	switch (kind) {
	case K_HASHTABLE : return tommy_hashtable_remove_existing((tommy_hashtable*)c, (tommy_hashtable_node*)node);
	case K_HASHDYN : return tommy_hashdyn_remove_existing((tommy_hashdyn*)c, (tommy_hashdyn_node*)node);
	case K_HASHLIN : return tommy_hashlin_remove_existing((tommy_hashlin*)c, (tommy_hashlin_node*)node);
	case K_TRIE : return tommy_trie_remove_existing((tommy_trie*)c, (tommy_trie_node*)node);
	case K_TRIEINP : return tommy_trie_inplace_remove_existing((tommy_trie_inplace*)c, (tommy_trie_inplace_node*)node);
	case K_TREE : return tommy_tree_remove_existing((tommy_tree*)c, (tommy_tree_node*)node);
	case K_LIST : return tommy_list_remove_existing((tommy_list*)c, (tommy_node*)node);
	}
	abort();
}

void* vs_search(int kind, void* c, vs_cmp* cmp, const void* arg, size_t key)
{
	switch (kind) {
	case K_HASHTABLE : return tommy_hashtable_search((tommy_hashtable*)c, cmp, arg, key);
	case K_HASHDYN : return tommy_hashdyn_search((tommy_hashdyn*)c, cmp, arg, key);
	case K_HASHLIN : return tommy_hashlin_search((tommy_hashlin*)c, cmp, arg, key);
	case K_TRIE : return tommy_trie_search((tommy_trie*)c, key);
	case K_TRIEINP : return tommy_trie_inplace_search((tommy_trie_inplace*)c, key);
	case K_TREE : return tommy_tree_search((tommy_tree*)c, (void*)arg);
	}
	abort();
}

void* vs_tree_search_compare(void* c, vs_cmp* cmp, void* arg)
{
	return tommy_tree_search_compare((tommy_tree*)c, cmp, arg);
}

void* vs_bucket(int kind, void* c, size_t key)
{
	switch (kind) {
	case K_HASHTABLE : return tommy_hashtable_bucket((tommy_hashtable*)c, key);
	case K_HASHDYN : return tommy_hashdyn_bucket((tommy_hashdyn*)c, key);
	case K_HASHLIN : return tommy_hashlin_bucket((tommy_hashlin*)c, key);
	case K_TRIE : return tommy_trie_bucket((tommy_trie*)c, key);
	case K_TRIEINP : return tommy_trie_inplace_bucket((tommy_trie_inplace*)c, key);
	}
	abort();
}

void vs_foreach(int kind, void* c, vs_each* f)
{
	switch (kind) {
	case K_HASHTABLE : tommy_hashtable_foreach((tommy_hashtable*)c, f); return;
	case K_HASHDYN : tommy_hashdyn_foreach((tommy_hashdyn*)c, f); return;
	case K_HASHLIN : tommy_hashlin_foreach((tommy_hashlin*)c, f); return;
	case K_TREE : tommy_tree_foreach((tommy_tree*)c, f); return;
	case K_LIST : tommy_list_foreach((tommy_list*)c, f); return;
	}
	abort();
}

void vs_foreach_arg(int kind, void* c, vs_each_arg* f, void* arg)
{
	switch (kind) {
	case K_HASHTABLE : tommy_hashtable_foreach_arg((tommy_hashtable*)c, f, arg); return;
	case K_HASHDYN : tommy_hashdyn_foreach_arg((tommy_hashdyn*)c, f, arg); return;
	case K_HASHLIN : tommy_hashlin_foreach_arg((tommy_hashlin*)c, f, arg); return;
	case K_TREE : tommy_tree_foreach_arg((tommy_tree*)c, f, arg); return;
	case K_LIST : tommy_list_foreach_arg((tommy_list*)c, f, arg); return;
	}
	abort();
}

size_t vs_count(int kind, void* c)
{
	switch (kind) {
	case K_HASHTABLE : return tommy_hashtable_count((tommy_hashtable*)c);
	case K_HASHDYN : return tommy_hashdyn_count((tommy_hashdyn*)c);
	case K_HASHLIN : return tommy_hashlin_count((tommy_hashlin*)c);
	case K_TRIE : return tommy_trie_count((tommy_trie*)c);
	case K_TRIEINP : return tommy_trie_inplace_count((tommy_trie_inplace*)c);
	case K_TREE : return tommy_tree_count((tommy_tree*)c);
	case K_LIST : return tommy_list_count((tommy_list*)c);
	}
	abort();
}

size_t vs_memory_usage(int kind, void* c)
{
	switch (kind) {
	case K_HASHTABLE : return tommy_hashtable_memory_usage((tommy_hashtable*)c);
	case K_HASHDYN : return tommy_hashdyn_memory_usage((tommy_hashdyn*)c);
	case K_HASHLIN : return tommy_hashlin_memory_usage((tommy_hashlin*)c);
	case K_TRIE : return tommy_trie_memory_usage((tommy_trie*)c);
	case K_TRIEINP : return tommy_trie_inplace_memory_usage((tommy_trie_inplace*)c);
	case K_TREE : return tommy_tree_memory_usage((tommy_tree*)c);
	case K_ARRAY : return tommy_array_memory_usage((tommy_array*)c);
	case K_ARRAYOF : return tommy_arrayof_memory_usage((tommy_arrayof*)c);
	case K_ARRAYBLK : return tommy_arrayblk_memory_usage((tommy_arrayblk*)c);
	case K_ARRAYBLKOF : return tommy_arrayblkof_memory_usage((tommy_arrayblkof*)c);
	case K_ALLOC : return tommy_allocator_memory_usage((tommy_allocator*)c);
	}
	return 0;
}

void* vs_list_head(void* c) { return tommy_list_head((tommy_list*)c); }
void* vs_list_tail(void* c) { return tommy_list_tail((tommy_list*)c); }
int vs_list_empty(void* c) { return tommy_list_empty((tommy_list*)c); }
void vs_list_concat(void* a, void* b) { tommy_list_concat((tommy_list*)a, (tommy_list*)b); }
void vs_list_sort(void* c, vs_cmp* cmp) { tommy_list_sort((tommy_list*)c, cmp); }

void* vs_node_next(int kind, void* node)
{
	if (kind == K_TRIEINP)
		return ((tommy_trie_inplace_node*)node)->next;
	return ((tommy_node*)node)->next;
}

void* vs_node_prev(int kind, void* node)
{
	if (kind == K_TRIEINP)
		return ((tommy_trie_inplace_node*)node)->prev;
	return ((tommy_node*)node)->prev;
}

void* vs_node_data(int kind, void* node)
{
	if (kind == K_TRIEINP)
		return ((tommy_trie_inplace_node*)node)->data;
	return ((tommy_node*)node)->data;
}

size_t vs_node_key(int kind, void* node)
{
	if (kind == K_TRIEINP)
		return ((tommy_trie_inplace_node*)node)->key;
	return ((tommy_node*)node)->index;
}

void vs_array_grow(int kind, void* c, size_t size)
{
	switch (kind) {
	case K_ARRAY : tommy_array_grow((tommy_array*)c, size); return;
	case K_ARRAYOF : tommy_arrayof_grow((tommy_arrayof*)c, size); return;
	case K_ARRAYBLK : tommy_arrayblk_grow((tommy_arrayblk*)c, size); return;
	case K_ARRAYBLKOF : tommy_arrayblkof_grow((tommy_arrayblkof*)c, size); return;
	}
	abort();
}

void* vs_array_ref(int kind, void* c, size_t pos)
{
	switch (kind) {
	case K_ARRAY : return tommy_array_ref((tommy_array*)c, pos);
	case K_ARRAYOF : return tommy_arrayof_ref((tommy_arrayof*)c, pos);
	case K_ARRAYBLK : return tommy_arrayblk_ref((tommy_arrayblk*)c, pos);
	case K_ARRAYBLKOF : return tommy_arrayblkof_ref((tommy_arrayblkof*)c, pos);
	}
	abort();
}

void vs_array_set(int kind, void* c, size_t pos, void* v)
{
	switch (kind) {
	case K_ARRAY : tommy_array_set((tommy_array*)c, pos, v); return;
	case K_ARRAYBLK : tommy_arrayblk_set((tommy_arrayblk*)c, pos, v); return;
	}
	abort();
}

void* vs_array_get(int kind, void* c, size_t pos)
{
	switch (kind) {
	case K_ARRAY : return tommy_array_get((tommy_array*)c, pos);
	case K_ARRAYBLK : return tommy_arrayblk_get((tommy_arrayblk*)c, pos);
	}
	abort();
}

void vs_array_insert(int kind, void* c, void* v)
{
	switch (kind) {
	case K_ARRAY : tommy_array_insert((tommy_array*)c, v); return;
	case K_ARRAYBLK : tommy_arrayblk_insert((tommy_arrayblk*)c, v); return;
	}
	abort();
}

size_t vs_array_size(int kind, void* c)
{
	switch (kind) {
	case K_ARRAY : return tommy_array_size((tommy_array*)c);
	case K_ARRAYOF : return tommy_arrayof_size((tommy_arrayof*)c);
	case K_ARRAYBLK : return tommy_arrayblk_size((tommy_arrayblk*)c);
	case K_ARRAYBLKOF : return tommy_arrayblkof_size((tommy_arrayblkof*)c);
	}
	abort();
}

void* vs_alloc(void* c) { return tommy_allocator_alloc((tommy_allocator*)c); }
void vs_free(void* c, void* p) { tommy_allocator_free((tommy_allocator*)c, p); }

uint32_t vs_hash_u32(uint32_t init, const void* key, size_t len) { return tommy_hash_u32(init, key, len); }
uint64_t vs_hash_u64(uint64_t init, const void* key, size_t len) { return tommy_hash_u64(init, key, len); }
uint32_t vs_strhash_u32(uint64_t init, const void* key) { return tommy_strhash_u32(init, key); }
uint32_t vs_inthash_u32(uint32_t v) { return tommy_inthash_u32(v); }
uint64_t vs_inthash_u64(uint64_t v) { return tommy_inthash_u64(v); }

uint32_t vs_ilog2_u32(uint32_t v) { return tommy_ilog2_u32(v); }
uint32_t vs_ctz_u32(uint32_t v) { return tommy_ctz_u32(v); }
uint32_t vs_roundup_pow2_u32(uint32_t v) { return tommy_roundup_pow2_u32(v); }
uint64_t vs_roundup_pow2_u64(uint64_t v) { return tommy_roundup_pow2_u64(v); }
int vs_haszero_u32(uint32_t v) { return tommy_haszero_u32(v); }
#if SIZE_MAX > 0xffffffff
uint32_t vs_ilog2_u64(uint64_t v) { return tommy_ilog2_u64(v); }
uint32_t vs_ctz_u64(uint64_t v) { return tommy_ctz_u64(v); }
#else
uint32_t vs_ilog2_u64(uint64_t v) { (void)v; abort(); }
uint32_t vs_ctz_u64(uint64_t v) { (void)v; abort(); }
#endif
#ifdef TOMMY_ILOG2
uint32_t vs_const_ilog2(uint32_t v) { return TOMMY_ILOG2(v); }
#else
uint32_t vs_const_ilog2(uint32_t v) { uint32_t n = 0; while (v >>= 1) ++n; return n; }
#endif
uint32_t vs_ilog2(size_t v) { return tommy_ilog2(v); }
uint32_t vs_ctz(size_t v) { return tommy_ctz(v); }
size_t vs_roundup_pow2(size_t v) { return tommy_roundup_pow2(v); }

/* definitions used as oracle by vs_range_u32, written without any bit trick */

static uint32_t ref_inthash_u32(uint32_t a)
{
	a = a - (a << 6);
	a = a ^ (a >> 17);
	a = a - (a << 9);
	a = a ^ (a << 4);
	a = a - (a << 3);
	a = a ^ (a << 10);
	a = a ^ (a >> 15);
	return a;
}

uint64_t vs_range_u32(int fn, uint64_t from, uint64_t len)
{
	uint64_t i;
	uint64_t end = from + len;
	uint32_t log2 = 0;
	uint64_t pow2 = 1;

	switch (fn) {
	case 0 : /* ilog2: monotone, so the definition is followed incrementally */
		for (i = from; i < end; ++i) {
			if (i == 0)
				continue;
			while ((i >> log2) > 1)
				++log2;
			if (tommy_ilog2_u32((uint32_t)i) != log2)
				return i;
		}
		break;
	case 1 : /* ctz */
		for (i = from; i < end; ++i) {
			uint32_t n = 0;
			if (i == 0)
				continue;
			while (((i >> n) & 1) == 0)
				++n;
			if (tommy_ctz_u32((uint32_t)i) != n)
				return i;
		}
		break;
	case 2 : /* roundup, where representable */
		for (i = from; i < end; ++i) {
			if (i == 0 || i > 0x80000000u)
				continue;
			while (pow2 < i)
				pow2 <<= 1;
			if (tommy_roundup_pow2_u32((uint32_t)i) != pow2)
				return i;
		}
		break;
	case 3 : /* haszero */
		for (i = from; i < end; ++i) {
			int z = (i & 0xff) == 0 || (i & 0xff00) == 0 || (i & 0xff0000) == 0 || (i & 0xff000000) == 0;
			if ((tommy_haszero_u32((uint32_t)i) != 0) != z)
				return i;
		}
		break;
	case 4 : /* inthash */
		for (i = from; i < end; ++i)
			if (tommy_inthash_u32((uint32_t)i) != ref_inthash_u32((uint32_t)i))
				return i;
		break;
	}
	return end;
}

#ifdef __cplusplus
}
#endif
