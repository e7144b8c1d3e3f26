/*
 * Everything the harness may call: plain functions over the public interface
 * of the library, so the harness itself never includes a library header.
 */
#ifndef VH_SHIM_H
#define VH_SHIM_H
#include <stddef.h>
#include <stdint.h>

enum {
	K_HASHTABLE, K_HASHDYN, K_HASHLIN, K_TRIE, K_TRIEINP, K_TREE, K_LIST,
	K_ARRAY, K_ARRAYOF, K_ARRAYBLK, K_ARRAYBLKOF, K_ALLOC, K_MAX
};

#ifdef __cplusplus
extern "C" {
#endif

typedef int vs_cmp(const void*, const void*);
typedef void vs_each(void*);
typedef void vs_each_arg(void*, void*);

/* configuration of this build */
extern const int vs_size_bit, vs_trie_bit, vs_trieinp_bit, vs_trie_tree, vs_trieinp_tree, vs_cplusplus, vs_asserts;

size_t vs_sizeof(int kind);
size_t vs_node_sizeof(int kind);
size_t vs_trie_block_size(void);

/* initial sizes as configured from the command line of the build, not as the
   library defines them */
extern const uint64_t vs_dyn_min, vs_lin_min, vs_array_min, vs_arrayof_min, vs_blk, vs_blkof, vs_segment;

/* life cycle; p1/p2: hashtable buckets, arrayof element size, allocator block/align */
void vs_init(int kind, void* c, size_t p1, size_t p2, void* alloc, vs_cmp* cmp);
void vs_done(int kind, void* c);

/* multimaps, tree, list */
void* vs_insert(int kind, void* c, void* node, void* data, size_t key);
void vs_list_insert_head(void* c, void* node, void* data);
void* vs_remove(int kind, void* c, vs_cmp* cmp, const void* arg, size_t key);
void* vs_remove_existing(int kind, void* c, void* node);
void* vs_search(int kind, void* c, vs_cmp* cmp, const void* arg, size_t key);
void* vs_tree_search_compare(void* c, vs_cmp* cmp, void* arg);
void* vs_bucket(int kind, void* c, size_t key);
void vs_foreach(int kind, void* c, vs_each* f);
void vs_foreach_arg(int kind, void* c, vs_each_arg* f, void* arg);
size_t vs_count(int kind, void* c);
size_t vs_memory_usage(int kind, void* c);

void* vs_list_head(void* c);
void* vs_list_tail(void* c);
int vs_list_empty(void* c);
void vs_list_concat(void* a, void* b);
void vs_list_sort(void* c, vs_cmp* cmp);

/* node fields, all documented as public */
void* vs_node_next(int kind, void* node);
void* vs_node_prev(int kind, void* node);
void* vs_node_data(int kind, void* node);
size_t vs_node_key(int kind, void* node);

/* arrays */
void vs_array_grow(int kind, void* c, size_t size);
void* vs_array_ref(int kind, void* c, size_t pos);
void vs_array_set(int kind, void* c, size_t pos, void* v); /* pointer arrays only */
void* vs_array_get(int kind, void* c, size_t pos);
void vs_array_insert(int kind, void* c, void* v);
size_t vs_array_size(int kind, void* c);

/* allocator */
void* vs_alloc(void* c);
void vs_free(void* c, void* p);

/* hashes */
uint32_t vs_hash_u32(uint32_t init, const void* key, size_t len);
uint64_t vs_hash_u64(uint64_t init, const void* key, size_t len);
uint32_t vs_strhash_u32(uint64_t init, const void* key);
uint32_t vs_inthash_u32(uint32_t v);
uint64_t vs_inthash_u64(uint64_t v);

/* bits; the 64 bit scans exist only where the size type has 64 bits */
uint32_t vs_ilog2_u32(uint32_t v);
uint32_t vs_const_ilog2(uint32_t v); /* powers of two up to 256 */
uint32_t vs_ctz_u32(uint32_t v);
uint32_t vs_roundup_pow2_u32(uint32_t v);
uint64_t vs_roundup_pow2_u64(uint64_t v);
int vs_haszero_u32(uint32_t v);
uint32_t vs_ilog2_u64(uint64_t v);
uint32_t vs_ctz_u64(uint64_t v);
uint32_t vs_ilog2(size_t v);
uint32_t vs_ctz(size_t v);
size_t vs_roundup_pow2(size_t v);

/* bulk comparisons against the definitions, compiled next to the library for
   speed: they return the first value in [from, from+len) that differs, or
   from+len */
uint64_t vs_range_u32(int fn, uint64_t from, uint64_t len);

#ifdef __cplusplus
}
#endif
#endif
