/*
 * Histories on containers of millions of elements. The reference model is a
 * few words per element; the operations of a case are bulk ones.
 */
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <algorithm>
#include <sys/mman.h>

static const u32 NIL = 0xffffffffu;

enum { V_INS = 1, V_REM, V_GO, V_SPOT, V_CHECK, V_EACH, V_SORT, V_CONCAT, V_RESTART, V_JITTER, V_SWEEP, V_DONES, V_MAX };

struct VE {
	u32 kid, prev, next, pos;
	u32 seen, cmped;
};

struct VK {
	u32 head, tail;
};

/* kept from case to case, as a case may end anywhere */
static std::vector<VE> E;
static std::vector<VK> Ks;
static std::vector<u32> held, unused;
static std::vector<char*> addr; /* of array positions, of allocator blocks */
static std::vector<u64> ids; /* of allocator blocks */
static char* nodes;

struct Vast {
	int kind;
	alignas(64) char c[8192];
	alignas(64) char c2[8192];
	alignas(64) char a[8192];
	u32 n, keys; /* at most so many elements, and keys */
	size_t stride;
	u64 mode, salt, mask, cursor, down;
	unsigned bits;
	u32 shead, stail; /* lists */
	u32 epoch, cur, last, calls;
	bool any;
	u64 cmps;
	u64 es, al, rounded, size, serial, nfree, peak;
	u64 moved, buckets0, calls0;
	bool resized;
	u64 ops, top;
};

static Vast* V;

static bool is_hash(int k) { return k <= K_HASHLIN; }
static bool is_mm(int k) { return k <= K_TRIEINP; }
static bool is_array(int k) { return k >= K_ARRAY && k <= K_ARRAYBLKOF; }
#define NAME kind_name(V->kind)

static inline void* node_of(u32 e) { return nodes + (size_t)e * V->stride; }

static u64 reversed(u64 v, unsigned bits)
{
	u64 r = 0;
	for (unsigned i = 0; i < bits; ++i, v >>= 1)
		r = r << 1 | (v & 1);
	return r;
}

/* different for each kid, whatever the mode */
static inline u64 key_of(u32 kid)
{
	u64 v = kid;
	switch (V->mode) {
	case 0 : break;
	case 1 : v = v * (V->salt | 1); break;
	case 2 : v = reversed(v, V->bits); break;
	case 3 : v = v << (V->salt % 4); break;
	case 4 : v = ~v; break;
	case 5 : /* steps that can be undone */
		v = (v + V->salt) & V->mask;
		v ^= v >> (V->bits / 2);
		v = (v * 0x9e3779b97f4a7c15ull) & V->mask;
		v ^= v >> (V->bits / 2);
		v = (v * 0xbf58476d1ce4e5b9ull) & V->mask;
		v ^= v >> (V->bits / 2 + 1);
		break;
	default : v = v + V->salt; break;
	}
	return v & V->mask;
}

/* a search or removal under way: what it can compare */
static const void* cmp_arg;
static u64 cmp_hash;
static u32 cmp_epoch;

static u32 elem_of(const void* data, const char* what);

static int cmp_kid(const void* arg, const void* obj)
{
	if (WANT(CAT_SELECT) && is_hash(V->kind)) {
		u32 e = elem_of(obj, "compare");
		if (arg != cmp_arg)
			fail(CAT_SELECT, "%s: compare called with another argument", NAME);
		if (key_of(E[e].kid) != cmp_hash)
			fail(CAT_SELECT, "%s: compare called on element %u, which has another hash", NAME, e);
		if (E[e].pos == NIL)
			fail(CAT_SELECT, "%s: compare called on element %u, which is not held", NAME, e);
		if (E[e].cmped == cmp_epoch)
			fail(CAT_SELECT, "%s: compare called on element %u twice", NAME, e);
		E[e].cmped = cmp_epoch;
	}
	return *(const u32*)arg != ((const VE*)obj)->kid;
}

static int cmp_key(const void* a, const void* b)
{
	u64 x = key_of(((const VE*)a)->kid), y = key_of(((const VE*)b)->kid);
	++V->cmps;
	return x < y ? -1 : x > y;
}

static u32 elem_of(const void* data, const char* what)
{
	const VE* p = (const VE*)data;
	if (p < E.data() || p >= E.data() + E.size() || ((const char*)p - (const char*)E.data()) % sizeof(VE))
		fail(CAT_RES, "%s: %s gives %p, which is not an element", NAME, what, data);
	return p - E.data();
}

static void* by_key(void* (*f)(int, void*, vs_cmp*, const void*, size_t), const void* arg, u64 key)
{
	cmp_arg = arg;
	cmp_hash = key;
	++cmp_epoch;
	return f(V->kind, V->c, cmp_kid, arg, key);
}

static u64 avl_bound(u64 n)
{
	return (u64)(1.4405 * log2((double)n + 2) - 0.3277 + 1e-9);
}

/* after each change */
static void after()
{
	OwnerStat& s = H.own[0];
	int k = V->kind;
	u64 n = held.size();
	++V->ops;
	if (n > V->top)
		V->top = n;
	if (is_hash(k)) {
		u64 b = s.bytes / sizeof(void*);
		if (s.mallocs + s.frees != V->calls0) {
			if (WANT(CAT_AMORT) && (k == K_HASHTABLE || (V->resized && V->moved < V->buckets0 / 16)))
				fail(CAT_AMORT, "%s: resized %llu operations after the last time, with %llu buckets", NAME, (unsigned long long)V->moved, (unsigned long long)V->buckets0);
			if (WANT(CAT_WORK) && k == K_HASHLIN && s.mallocs + s.frees - V->calls0 > 1)
				fail(CAT_WORK, "hashlin: %llu heap requests in one operation", (unsigned long long)(s.mallocs + s.frees - V->calls0));
			V->resized = true;
			V->calls0 = s.mallocs + s.frees;
			V->moved = 0;
			V->buckets0 = b;
		}
		++V->moved;
		if (WANT(CAT_LOAD)) {
			if (k == K_HASHDYN && ((b & (b - 1)) || b < vs_dyn_min || b < 2 * n || (b > vs_dyn_min && b > 8 * n)))
				fail(CAT_LOAD, "hashdyn: %llu buckets for %llu elements", (unsigned long long)b, (unsigned long long)n);
			if (k == K_HASHLIN && ((b & (b - 1)) || b < vs_lin_min || b < 2 * n || b > 16 * n + vs_lin_min || (n == 0 && b != vs_lin_min)))
				fail(CAT_LOAD, "hashlin: %llu buckets for %llu elements", (unsigned long long)b, (unsigned long long)n);
		}
	}
	if (k != K_LIST && vs_count(k, V->c) != n)
		fail(CAT_COUNT, "%s: count is %llu with %llu elements", NAME, (unsigned long long)vs_count(k, V->c), (unsigned long long)n);
	if (WANT(CAT_MEM) && k != K_LIST && (k != K_TRIE || V->ops % 16 == 0 || n == 0)) {
		u64 u = vs_memory_usage(k, V->c), w = n * vs_node_sizeof(k);
		if (is_hash(k))
			w += s.bytes;
		if (k == K_TRIE) {
			w += vs_memory_usage(K_ALLOC, V->a);
			if (n == 0 && u != 0)
				fail(CAT_MEM, "trie: reports %llu bytes without elements", (unsigned long long)u);
		}
		if (u != w)
			fail(CAT_MEM, "%s: reports %llu bytes, not %llu", NAME, (unsigned long long)u, (unsigned long long)w);
	}
	if (k == K_TRIE && n == 0 && vs_memory_usage(K_ALLOC, V->a) != 0)
		fail(CAT_HEAP, "trie: empty, but its allocator has %llu bytes in use", (unsigned long long)vs_memory_usage(K_ALLOC, V->a));
}

static void link_tail(u32 e)
{
	VE& x = E[e];
	u32* head = V->kind == K_LIST ? &V->shead : &Ks[x.kid].head;
	u32* tail = V->kind == K_LIST ? &V->stail : &Ks[x.kid].tail;
	x.next = NIL;
	x.prev = *head == NIL ? NIL : *tail;
	if (*head == NIL)
		*head = e;
	else
		E[*tail].next = e;
	*tail = e;
}

static void unlink_elem(u32 e)
{
	VE& x = E[e];
	u32* head = V->kind == K_LIST ? &V->shead : &Ks[x.kid].head;
	u32* tail = V->kind == K_LIST ? &V->stail : &Ks[x.kid].tail;
	if (x.prev == NIL)
		*head = x.next;
	else
		E[x.prev].next = x.next;
	if (x.next == NIL)
		*tail = x.prev;
	else
		E[x.next].prev = x.prev;
}

static void hold(u32 e)
{
	E[e].pos = held.size();
	held.push_back(e);
}

static void drop(u32 e)
{
	u32 p = E[e].pos;
	held[p] = held.back();
	E[held[p]].pos = p;
	held.pop_back();
	E[e].pos = NIL;
	memset(node_of(e), 0xb7, vs_node_sizeof(V->kind));
	unused.push_back(e);
}

static u32 fresh(Rng& r)
{
	/* mostly the last released */
	if (r.below(4) == 0 && unused.size() > 1)
		std::swap(unused.back(), unused[r.below(unused.size())]);
	u32 e = unused.back();
	unused.pop_back();
	return e;
}

static u32 pick_kid(Rng& r, unsigned policy)
{
	switch (policy % 4) {
	case 0 : return V->cursor++ % V->keys;
	case 1 : return r.below(V->keys);
	case 2 : return held.empty() || V->kind == K_TREE ? r.below(V->keys) : E[held[r.below(held.size())]].kid;
	default : return V->keys - 1 - V->down++ % V->keys;
	}
}

static void check_cmps(u64 n, const char* what)
{
	if (WANT(CAT_CMP) && V->kind == K_TREE && V->cmps > avl_bound(n))
		fail(CAT_CMP, "tree: %llu comparisons to %s with %llu elements, at most %llu expected", (unsigned long long)V->cmps, what, (unsigned long long)n, (unsigned long long)avl_bound(n));
}

static void insert(Rng& r, unsigned policy)
{
	int k = V->kind;
	if (held.size() >= V->n || unused.empty())
		return;
	u32 kid = pick_kid(r, policy);
	u32 e = fresh(r);
	if (k == K_TREE) {
		if (Ks[kid].head != NIL && r.below(8)) {
			/* another one */
			for (unsigned i = 0; i < 64 && Ks[kid].head != NIL; ++i)
				kid = (kid + 1) % V->keys;
		}
		E[e].kid = kid;
		V->cmps = 0;
		void* got = vs_insert(k, V->c, node_of(e), &E[e], 0);
		check_cmps(held.size(), "insert");
		u32 g = elem_of(got, "insertion");
		u32 want = Ks[kid].head == NIL ? e : Ks[kid].head;
		if (g != want)
			fail(CAT_RES, "tree: insertion returns element %u, not %u", g, want);
		if (g != e) {
			unused.push_back(e);
			after();
			return;
		}
	} else {
		E[e].kid = kid;
		if (k == K_LIST && r.below(4) == 0) {
			vs_list_insert_head(V->c, node_of(e), &E[e]);
			/* at the head of the model too */
			E[e].prev = NIL;
			E[e].next = V->shead;
			if (V->shead == NIL)
				V->stail = e;
			else
				E[V->shead].prev = e;
			V->shead = e;
			hold(e);
			after();
			return;
		}
		vs_insert(k, V->c, node_of(e), &E[e], key_of(kid));
	}
	link_tail(e);
	hold(e);
	after();
}

static void removed(u32 e, u32 want, const char* what)
{
	if (e != want)
		fail(CAT_RES, "%s: %s gives element %u, not %u", NAME, what, e, want);
	unlink_elem(e);
	drop(e);
	after();
}

static void remove_one(Rng& r, unsigned policy)
{
	int k = V->kind;
	if (held.empty())
		return;
	u32 e;
	u32 kid;
	switch (policy % 5) {
	case 0 : e = held.back(); break;
	case 1 : e = held[r.below(held.size())]; break;
	case 2 : e = held[0]; break;
	default :
		if (k == K_LIST) {
			e = r.below(2) ? V->shead : V->stail;
			break;
		}
		/* by key, sometimes of none */
		if (policy % 5 == 3)
			kid = E[held[r.below(held.size())]].kid;
		else
			kid = V->cursor++ % V->keys;
		if (Ks[kid].head == NIL) {
			if (r.below(4) == 0) {
				VE probe;
				probe.kid = kid;
				void* got = by_key(vs_remove, k == K_TREE ? (void*)&probe : (void*)&kid, key_of(kid));
				if (got)
					fail(CAT_RES, "%s: removal of a missing key gives element %u", NAME, elem_of(got, "removal"));
			}
			kid = E[held[r.below(held.size())]].kid;
		}
		{
			VE probe;
			probe.kid = kid;
			V->cmps = 0;
			u32 want = Ks[kid].head;
			void* got = by_key(vs_remove, k == K_TREE ? (void*)&probe : (void*)&kid, key_of(kid));
			check_cmps(held.size(), "remove");
			if (!got)
				fail(CAT_RES, "%s: removal by key finds nothing, element %u is held", NAME, want);
			removed(elem_of(got, "removal by key"), want, "removal by key");
		}
		return;
	}
	V->cmps = 0;
	void* got = vs_remove_existing(k, V->c, node_of(e));
	check_cmps(held.size(), "remove existing");
	if (!got)
		fail(CAT_RES, "%s: removal of element %u gives nothing", NAME, e);
	removed(elem_of(got, "removal"), e, "removal");
}

static void spot(u32 kid)
{
	int k = V->kind;
	if (k == K_LIST)
		return;
	VE probe;
	probe.kid = kid;
	u64 key = key_of(kid);
	V->cmps = 0;
	void* got = by_key(vs_search, k == K_TREE ? (void*)&probe : (void*)&kid, key);
	check_cmps(held.size(), "search");
	u32 want = Ks[kid].head;
	if (want == NIL) {
		if (got)
			fail(CAT_RES, "%s: search of a missing key gives element %u", NAME, elem_of(got, "search"));
	} else {
		if (!got)
			fail(CAT_RES, "%s: search finds nothing, element %u is held", NAME, want);
		u32 g = elem_of(got, "search");
		if (g != want)
			fail(E[g].kid == kid ? CAT_ORDER : CAT_RES, "%s: search gives element %u, not %u", NAME, g, want);
	}
	if (!is_mm(k))
		return;
	/* the bucket */
	u32 at = want;
	void* head = vs_bucket(k, V->c, key);
	void* before = 0;
	u64 n = 0;
	for (void* p = head; p; p = vs_node_next(k, p)) {
		if (before && vs_node_prev(k, p) != before)
			fail(CAT_LINKS, "%s: backward link in a bucket", NAME);
		before = p;
		if (++n > held.size())
			fail(CAT_LINKS, "%s: endless bucket", NAME);
		if (vs_node_key(k, p) != key) {
			if (!is_hash(k))
				fail(CAT_RES, "%s: another key in a bucket", NAME);
			continue;
		}
		u32 g = elem_of(vs_node_data(k, p), "bucket");
		if (at == NIL)
			fail(CAT_RES, "%s: element %u is in the bucket, but not held", NAME, g);
		if (g != at)
			fail(CAT_ORDER, "%s: element %u in the bucket instead of %u", NAME, g, at);
		at = E[at].next;
	}
	if (at != NIL)
		fail(CAT_RES, "%s: element %u is not in its bucket", NAME, at);
	if (head && vs_node_prev(k, head) != before)
		fail(CAT_LINKS, "%s: the head of a bucket does not link to its tail", NAME);
}

static void visit(void* data)
{
	u32 e = elem_of(data, "foreach");
	++V->calls;
	if (E[e].pos == NIL || E[e].pos >= held.size() || held[E[e].pos] != e)
		fail(CAT_ITER, "%s: foreach on element %u, which is not held", NAME, e);
	if (E[e].seen == V->epoch)
		fail(CAT_ITER, "%s: foreach on element %u twice", NAME, e);
	E[e].seen = V->epoch;
	if (V->kind == K_LIST) {
		if (e != V->cur)
			fail(CAT_ITER, "list: foreach on element %u instead of %u", e, V->cur);
		V->cur = E[e].next;
	}
	if (V->kind == K_TREE) {
		if (V->last != NIL && key_of(E[V->last].kid) >= key_of(E[e].kid))
			fail(CAT_ITER, "tree: foreach not in order");
		V->last = e;
	}
}

static void visit_arg(void* arg, void* data)
{
	if (arg != V)
		fail(CAT_ITER, "%s: foreach with a wrong argument", NAME);
	visit(data);
}

static void each(bool arg)
{
	if (!is_hash(V->kind) && V->kind != K_TREE && V->kind != K_LIST)
		return;
	++V->epoch;
	V->calls = 0;
	V->cur = V->shead;
	V->last = NIL;
	if (arg)
		vs_foreach_arg(V->kind, V->c, visit_arg, V);
	else
		vs_foreach(V->kind, V->c, visit);
	if (V->calls != held.size())
		fail(CAT_ITER, "%s: foreach on %u elements of %zu", NAME, V->calls, held.size());
}

static void check_list()
{
	void* c = V->c;
	void* before = 0;
	u32 at = V->shead;
	u64 n = 0;
	for (void* p = vs_list_head(c); p; p = vs_node_next(K_LIST, p)) {
		if (++n > held.size())
			fail(CAT_LINKS, "list: more than its elements");
		if (before && vs_node_prev(K_LIST, p) != before)
			fail(CAT_LINKS, "list: backward link at %llu", (unsigned long long)n);
		if (p != node_of(at))
			fail(CAT_RES, "list: not element %u at %llu", at, (unsigned long long)n);
		if (vs_node_data(K_LIST, p) != &E[at])
			fail(CAT_RES, "list: wrong data at %llu", (unsigned long long)n);
		at = E[at].next;
		before = p;
	}
	if (at != NIL)
		fail(CAT_RES, "list: ends at %llu, before element %u", (unsigned long long)n, at);
	if (vs_list_tail(c) != before || (before && vs_node_prev(K_LIST, vs_list_head(c)) != before))
		fail(CAT_LINKS, "list: wrong tail");
	if (vs_list_empty(c) != held.empty() || vs_count(K_LIST, c) != held.size())
		fail(CAT_COUNT, "list: count is %zu with %zu elements", vs_count(K_LIST, c), held.size());
}

/* ---- arrays and allocator ---------------------------------------------------- */

static void fill(char* p, u64 id, u64 n)
{
	u64 v = mix64(id * 3 + 1);
	u64 i = 0;
	for (; i + 8 <= n; i += 8)
		memcpy(p + i, &v, 8);
	memcpy(p + i, &v, n - i);
}

static bool filled(const char* p, u64 id, u64 n)
{
	u64 v = id == ~0ull ? 0 : mix64(id * 3 + 1);
	u64 i = 0;
	for (; i + 8 <= n; i += 8)
		if (memcmp(p + i, &v, 8) != 0)
			return false;
	return memcmp(p + i, &v, n - i) == 0;
}

static void array_at(u64 i)
{
	int k = V->kind;
	char* p = (char*)vs_array_ref(k, V->c, i);
	if (addr[i] && addr[i] != p)
		fail(CAT_ARRAY, "%s: element %llu moved", NAME, (unsigned long long)i);
	addr[i] = p;
	if (!filled(p, ids[i], V->es))
		fail(CAT_ARRAY, "%s: wrong content at %llu of %llu", NAME, (unsigned long long)i, (unsigned long long)V->size);
	if (i % 64 == 0 && !heap_contains(p, V->es, 0))
		fail(CAT_ARRAY, "%s: element %llu is outside the memory of the array", NAME, (unsigned long long)i);
}

static void array_after()
{
	int k = V->kind;
	OwnerStat& s = H.own[0];
	u64 blk = k == K_ARRAYBLK ? vs_blk : vs_blkof;
	u64 nb = (V->size + blk - 1) / blk;
	++V->ops;
	if (V->size > V->top)
		V->top = V->size;
	if (vs_array_size(k, V->c) != V->size)
		fail(CAT_ARRAY, "%s: size is %zu, not %llu", NAME, vs_array_size(k, V->c), (unsigned long long)V->size);
	if (WANT(CAT_MEM)) {
		u64 u = vs_memory_usage(k, V->c);
		if (u != (u64)s.bytes)
			fail(CAT_MEM, "%s: reports %llu bytes, it holds %lld", NAME, (unsigned long long)u, (long long)s.bytes);
		if (k == K_ARRAY || k == K_ARRAYOF) {
			if (u > (k == K_ARRAY ? vs_array_min : vs_arrayof_min) * V->es && u >= 2 * V->size * V->es)
				fail(CAT_MEM, "%s: uses %llu bytes for %llu elements", NAME, (unsigned long long)u, (unsigned long long)V->size);
		} else if (u > nb * blk * V->es + (nb * 2 > vs_array_min ? nb * 2 : vs_array_min) * sizeof(void*)) {
			fail(CAT_MEM, "%s: uses %llu bytes for %llu elements", NAME, (unsigned long long)u, (unsigned long long)V->size);
		}
	}
	if (WANT(CAT_AMORT)) {
		u64 b = k == K_ARRAY || k == K_ARRAYOF ? V->size : nb;
		u64 log = b ? 64 - __builtin_clzll(b) : 0;
		u64 made = s.mallocs - V->calls0;
		if (made > log + 1 + (b == nb ? nb + 1 : 0))
			fail(CAT_AMORT, "%s: %llu heap requests for %llu elements", NAME, (unsigned long long)made, (unsigned long long)V->size);
	}
}

static void array_put(u64 i)
{
	int k = V->kind;
	u64 id = ++V->serial;
	ids[i] = id;
	if (k == K_ARRAY || k == K_ARRAYBLK) {
		void* v;
		fill((char*)&v, id, sizeof(v));
		vs_array_set(k, V->c, i, v);
	} else {
		fill((char*)vs_array_ref(k, V->c, i), id, V->es);
	}
}

static void array_op(const Op& o, Rng& r)
{
	int k = V->kind;
	bool ptr = k == K_ARRAY || k == K_ARRAYBLK;
	switch (o.code) {
	case V_INS :
		for (u64 i = 0; i < o.n && V->size < V->n; ++i) {
			if (ptr) {
				void* v;
				ids[V->size] = ++V->serial;
				fill((char*)&v, V->serial, sizeof(v));
				vs_array_insert(k, V->c, v);
				++V->size;
			} else {
				vs_array_grow(k, V->c, V->size + 1);
				++V->size;
				array_put(V->size - 1);
			}
			array_after();
		}
		break;
	case V_GO :
		vs_array_grow(k, V->c, o.n > V->n ? V->n : o.n);
		if (V->size < o.n)
			V->size = o.n > V->n ? V->n : o.n;
		array_after();
		break;
	case V_REM :
		/* writes */
		for (u64 i = 0; i < o.n && V->size; ++i)
			array_put(r.below(V->size));
		break;
	case V_SPOT :
		for (u64 i = 0; i < o.n && V->size; ++i)
			array_at(r.below(V->size));
		break;
	case V_CHECK :
		for (u64 i = 0; i < V->size; ++i)
			array_at(i);
		break;
	}
}

static void alloc_after()
{
	OwnerStat& s = H.own[0];
	++V->ops;
	if (held.size() > V->top)
		V->top = held.size();
	if (WANT(CAT_MEM) && vs_memory_usage(K_ALLOC, V->c) != held.size() * V->rounded)
		fail(CAT_MEM, "allocator: reports %zu bytes with %zu live blocks of %llu", vs_memory_usage(K_ALLOC, V->c), held.size(), (unsigned long long)V->rounded);
	if (WANT(CAT_AMORT)) {
		u64 seg = vs_segment + 64;
		u64 per = V->rounded + V->al + 128 < seg ? (seg - 128 - V->al) / V->rounded / 2 : 1;
		if (per == 0)
			per = 1;
		if (s.mallocs > (V->top + per - 1) / per)
			fail(CAT_AMORT, "allocator: %llu heap requests for %llu blocks", (unsigned long long)s.mallocs, (unsigned long long)V->top);
	}
}

/* held: slots of the live blocks; addr and ids by slot */
static void alloc_check(u32 e)
{
	if (!filled(addr[e], ids[e], V->es))
		fail(CAT_BLOCK, "allocator: the content of a live block changed");
}

static void alloc_op(const Op& o, Rng& r)
{
	switch (o.code) {
	case V_INS :
		for (u64 i = 0; i < o.n && !unused.empty(); ++i) {
			u64 m = H.own[0].mallocs;
			char* p = (char*)vs_alloc(V->c);
			if (V->nfree) {
				if (H.own[0].mallocs != m)
					fail(CAT_BLOCK, "allocator: takes memory with %llu free blocks", (unsigned long long)V->nfree);
				--V->nfree;
			}
			if ((uintptr_t)p % V->al)
				fail(CAT_BLOCK, "allocator: a block is not aligned to %llu", (unsigned long long)V->al);
			u32 e = unused.back();
			unused.pop_back();
			if (e % 64 == 0 && !heap_contains(p, V->es, 0))
				fail(CAT_BLOCK, "allocator: a block is outside of its memory");
			addr[e] = p;
			ids[e] = ++V->serial;
			fill(p, ids[e], V->es);
			hold(e);
			alloc_after();
		}
		break;
	case V_REM :
		for (u64 i = 0; i < o.n && !held.empty(); ++i) {
			u32 e = held[o.c % 3 == 0 ? held.size() - 1 : o.c % 3 == 1 ? 0 : r.below(held.size())];
			alloc_check(e);
			vs_free(V->c, addr[e]);
			u32 p = E[e].pos;
			held[p] = held.back();
			E[held[p]].pos = p;
			held.pop_back();
			unused.push_back(e);
			++V->nfree;
			alloc_after();
		}
		break;
	case V_SPOT :
		for (u64 i = 0; i < o.n && !held.empty(); ++i)
			alloc_check(held[r.below(held.size())]);
		break;
	case V_CHECK :
		for (u32 e : held)
			alloc_check(e);
		break;
	}
}

/* ---- cases ---------------------------------------------------------------------- */

static void start(u64 p1)
{
	int k = V->kind;
	held.clear();
	unused.clear();
	for (u32 e = V->n; e > 0; --e)
		unused.push_back(e - 1);
	for (VE& x : E)
		x.pos = NIL, x.cmped = 0;
	for (VK& x : Ks)
		x.head = x.tail = NIL;
	std::fill(addr.begin(), addr.end(), (char*)0);
	std::fill(ids.begin(), ids.end(), ~0ull);
	V->shead = V->stail = NIL;
	V->size = V->nfree = V->top = 0;
	V->resized = false;
	V->moved = V->buckets0 = 0;
	H.own[0].mallocs = H.own[0].frees = 0;
	if (k == K_TRIE) {
		vs_init(K_ALLOC, V->a, vs_trie_block_size(), vs_trie_block_size(), 0, 0);
		vs_init(k, V->c, 0, 0, V->a, 0);
	} else if (k == K_ALLOC) {
		vs_init(k, V->c, V->es, V->al, 0, 0);
	} else if (is_array(k)) {
		vs_init(k, V->c, V->es, 0, 0, 0);
	} else {
		vs_init(k, V->c, p1, 0, 0, cmp_key);
	}
	V->calls0 = H.own[0].mallocs + H.own[0].frees;
	if (is_array(k))
		V->calls0 = 0;
}

static void stop()
{
	int k = V->kind;
	if (k != K_TRIE && k != K_TRIEINP && k != K_TREE && k != K_LIST)
		vs_done(k, V->c);
	if (k == K_TRIE)
		vs_done(K_ALLOC, V->a);
	if (H.own[0].blocks || H.own[0].bytes)
		fail(CAT_HEAP, "%s: %lld bytes in %lld blocks are not released", NAME, (long long)H.own[0].bytes, (long long)H.own[0].blocks);
}

static void check_all()
{
	if (V->kind == K_LIST) {
		check_list();
		return;
	}
	for (u32 i = 0; i < V->keys; ++i)
		spot(i);
}

static void sort_list()
{
	std::vector<u32> v;
	v.reserve(held.size());
	for (u32 e = V->shead; e != NIL; e = E[e].next)
		v.push_back(e);
	std::stable_sort(v.begin(), v.end(), [](u32 a, u32 b) { return key_of(E[a].kid) < key_of(E[b].kid); });
	V->cmps = 0;
	vs_list_sort(V->c, cmp_key);
	u64 n = v.size(), log = n > 1 ? 64 - __builtin_clzll(n - 1) : 0;
	if (WANT(CAT_CMP) && V->cmps > n * log + 2 * n)
		fail(CAT_CMP, "list: %llu comparisons to sort %llu elements", (unsigned long long)V->cmps, (unsigned long long)n);
	u32 before = NIL;
	for (u32 e : v) {
		E[e].prev = before;
		if (before == NIL)
			V->shead = e;
		else
			E[before].next = e;
		before = e;
	}
	V->stail = before;
	if (before != NIL)
		E[before].next = NIL;
	if (WANT(CAT_SORT)) {
		void* p = vs_list_head(V->c);
		for (u32 e : v) {
			if (p != node_of(e))
				fail(CAT_SORT, "list: not sorted, or not stable");
			p = vs_node_next(K_LIST, p);
		}
		if (p)
			fail(CAT_SORT, "list: more elements after sorting");
	}
	check_list();
}

static void concat(Rng& r, u64 n)
{
	vs_init(K_LIST, V->c2, 0, 0, 0, 0);
	bool at_tail = r.below(2);
	std::vector<u32> more;
	for (u64 i = 0; i < n && !unused.empty(); ++i) {
		u32 e = fresh(r);
		E[e].kid = r.below(V->keys);
		vs_insert(K_LIST, V->c2, node_of(e), &E[e], 0);
		more.push_back(e);
	}
	if (at_tail) {
		vs_list_concat(V->c, V->c2);
		for (u32 e : more) {
			link_tail(e);
			hold(e);
		}
	} else {
		vs_list_concat(V->c2, V->c);
		memcpy(V->c, V->c2, vs_sizeof(K_LIST));
		for (size_t i = more.size(); i-- > 0;) {
			u32 e = more[i];
			E[e].prev = NIL;
			E[e].next = V->shead;
			if (V->shead == NIL)
				V->stail = e;
			else
				E[V->shead].prev = e;
			V->shead = e;
			hold(e);
		}
	}
	after();
}

/* what is not there: another element with the hash, another hash of the element */
static void mismatch(Rng& r)
{
	int k = V->kind;
	VE probe;
	if (is_hash(k) && !held.empty()) {
		u32 kid = E[held[r.below(held.size())]].kid;
		u64 key = key_of(kid);
		u32 other = r.below(V->keys);
		bool rem = r.below(3) == 0;
		void* got;
		if (r.below(2) && other != kid) {
			got = rem ? by_key(vs_remove, &other, key) : by_key(vs_search, &other, key);
		} else {
			key ^= 1ull << r.below(vs_size_bit);
			got = rem ? by_key(vs_remove, &kid, key) : by_key(vs_search, &kid, key);
		}
		if (got)
			fail(CAT_RES, "%s: %s gives element %u, with another hash or not the one asked for", NAME, rem ? "removal" : "search", elem_of(got, "search"));
		after();
		return;
	}
	if (k == K_LIST)
		return;
	u32 kid = r.below(V->keys);
	for (unsigned i = 0; i < 8 && Ks[kid].head != NIL; ++i)
		kid = r.below(V->keys);
	if (Ks[kid].head != NIL)
		return;
	probe.kid = kid;
	void* got = by_key(vs_remove, k == K_TREE ? (void*)&probe : (void*)&kid, key_of(kid));
	if (got)
		fail(CAT_RES, "%s: removal of a missing key gives element %u", NAME, elem_of(got, "removal"));
	after();
}

/* every operation at this count */
static void poke(Rng& r)
{
	u64 n = held.size();
	if (n)
		spot(E[held[r.below(n)]].kid);
	spot(r.below(V->keys));
	mismatch(r);
	if (n) {
		remove_one(r, r.below(5));
		for (unsigned i = 0; i < 8 && held.size() < n; ++i)
			insert(r, i ? 0 : r.below(4));
	}
	u64 m = held.size();
	insert(r, r.below(4));
	if (held.size() > m)
		remove_one(r, r.below(5));
	if (V->kind == K_LIST ? n < 300 || r.below(2048) == 0 : n < 2000 || r.below(1024) == 0)
		each(r.below(2));
	if (V->kind == K_LIST && n < 300)
		sort_list();
}

static void array_op(const Op& o, Rng& r);
static void alloc_op(const Op& o, Rng& r);

/* build up to each of some counts, and deinitialise there */
static void dones(const Op& o, Rng& r)
{
	int k = V->kind;
	unsigned ip = o.c % 4, rp = o.c / 4;
	for (u64 i = 0; i <= o.u % 64; ++i) {
		u64 n = (o.n + i) % ((u64)V->n + 1);
		u64 most = n * r.range(1, 10) + r.below(3);
		if (most > V->n || r.below(2))
			most = n;
		if (k == K_TRIE && r.below(2))
			while (!held.empty())
				remove_one(r, 0);
		stop();
		start(r.below(2) ? r.scaled(4 * n) : 0);
		if (is_array(k) || k == K_ALLOC) {
			Op x = o;
			x.code = k != K_ALLOC && r.below(2) ? V_GO : V_INS;
			x.n = is_array(k) ? n : most;
			if (is_array(k) && r.below(2)) {
				/* in two steps */
				x.n = r.below(n + 1);
				array_op(x, r);
				x.code = V_GO;
				x.n = n;
			}
			is_array(k) ? array_op(x, r) : alloc_op(x, r);
			x.code = V_REM;
			x.n = is_array(k) ? 16 : most - n;
			is_array(k) ? array_op(x, r) : alloc_op(x, r);
			x.code = V_CHECK;
			is_array(k) ? array_op(x, r) : alloc_op(x, r);
			continue;
		}
		for (u64 j = 0; j < 2 * most + 8 && held.size() < most; ++j)
			insert(r, ip);
		while (held.size() > n)
			remove_one(r, rp);
		spot(r.below(V->keys));
	}
}

static void do_op(const Op& o)
{
	Rng r(mix64(o.k));
	int k = V->kind;
	if (o.code == V_RESTART) {
		if (k == K_TRIE)
			while (!held.empty())
				remove_one(r, 0);
		stop();
		start(o.u);
		return;
	}
	if (o.code == V_DONES) {
		dones(o, r);
		return;
	}
	if (is_array(k)) {
		array_op(o, r);
		return;
	}
	if (k == K_ALLOC) {
		alloc_op(o, r);
		return;
	}
	unsigned ip = o.c % 4, rp = o.c / 4;
	switch (o.code) {
	case V_INS :
		for (u64 i = 0; i < o.n; ++i)
			insert(r, ip);
		break;
	case V_REM :
		for (u64 i = 0; i < o.n; ++i)
			remove_one(r, rp);
		break;
	case V_GO : {
		u64 t = o.n > V->n ? V->n : o.n;
		u64 steps = 0, most = 3 * (u64)V->n;
		while (held.size() != t && steps++ < most) {
			bool up = held.size() < t;
			if (up)
				insert(r, ip);
			else
				remove_one(r, rp);
			if (r.below(4096) == 0) {
				/* back for a while */
				u64 b = r.scaled(o.u % 100000);
				steps += b;
				while (b-- && !held.empty())
					up ? remove_one(r, rp) : insert(r, ip);
				spot(r.below(V->keys));
			}
		}
		break;
	}
	case V_JITTER :
		for (u64 i = 0; i < o.n; ++i) {
			u64 amp = 1 + o.u % 5;
			for (u64 j = 0; j < amp; ++j)
				insert(r, ip);
			for (u64 j = 0; j < amp; ++j)
				remove_one(r, rp);
		}
		break;
	case V_SWEEP : {
		u64 t = o.n > V->n ? V->n : o.n;
		for (u64 i = 0; i < 3 * (u64)V->n && held.size() != t; ++i) {
			held.size() < t ? insert(r, ip) : remove_one(r, rp);
			poke(r);
		}
		break;
	}
	case V_SPOT :
		for (u64 i = 0; i < o.n; ++i)
			spot(r.below(V->keys));
		if (k == K_LIST)
			check_list();
		break;
	case V_CHECK : check_all(); break;
	case V_EACH : each(o.n & 1); break;
	case V_SORT :
		if (k == K_LIST)
			sort_list();
		break;
	case V_CONCAT :
		if (k == K_LIST)
			concat(r, o.n);
		break;
	}
}

void vast_run(const Case& c)
{
	static Vast v;
	heap_reset(1);
	H.owner = 0;
	memset(&v, 0, sizeof(v));
	V = &v;
	v.kind = c.get("kind") % K_MAX;
	int k = v.kind;
	if (vs_sizeof(k) > sizeof(v.c) || vs_sizeof(K_ALLOC) > sizeof(v.a))
		give_up("container too big");
	v.n = c.get("n");
	v.keys = c.get("keys", 1);
	u64 most = vs_size_bit == 64 ? 64u << 20 : 1u << 20;
	if (v.n > most)
		v.n = most;
	if (v.n < 1)
		v.n = 1;
	if (v.keys < 1)
		v.keys = 1;
	if (v.keys > v.n)
		v.keys = v.n;
	v.mode = c.get("mode") % 7;
	v.salt = c.get("salt");
	v.bits = k == K_TRIE ? vs_trie_bit : k == K_TRIEINP ? vs_trieinp_bit : vs_size_bit;
	if (v.bits > (unsigned)vs_size_bit)
		v.bits = vs_size_bit;
	v.mask = v.bits >= 64 ? ~0ull : (1ull << v.bits) - 1;
	/* not so that all the hashes are in one bucket */
	if (is_hash(k) && v.mode == 2)
		v.mode = 5;
	if (v.mask >> 3 < v.keys)
		v.keys = v.mask >> 3;
	v.es = k == K_ARRAY || k == K_ARRAYBLK ? sizeof(void*) : 1 + c.get("es") % 64;
	v.al = (u64)1 << c.get("align", 3) % 8;
	if (k == K_ALLOC) {
		/* blocks are at least pointers */
		if (v.al < sizeof(void*))
			v.al = sizeof(void*);
		if (v.es < sizeof(void*))
			v.es = sizeof(void*);
		v.rounded = (v.es + v.al - 1) / v.al * v.al;
		/* with room in the heap of the harness */
		u64 room = (vs_size_bit == 64 ? 700ull << 20 : 100u << 20) / (v.rounded * 2);
		if (v.n > room)
			v.n = room;
	}
	bool elems = k <= K_LIST;
	v.stride = elems ? (vs_node_sizeof(k) + sizeof(void*) - 1) / sizeof(void*) * sizeof(void*) : 0;
	static size_t reserved;
	if (!nodes) {
		reserved = vs_size_bit == 64 ? 8ull << 30 : 96u << 20;
		nodes = (char*)region_reserve(reserved, 5);
	}
	if (elems && v.n * v.stride > reserved)
		v.n = reserved / v.stride;
	madvise(nodes, reserved, MADV_DONTNEED);
	E.assign(elems || k == K_ALLOC ? v.n : 0, VE());
	Ks.assign(elems && k != K_LIST ? v.keys : 0, VK());
	addr.assign(elems ? 0 : v.n, 0);
	ids.assign(elems ? 0 : v.n, 0);
	start(c.get("p1"));
	u64 top = 0, ops = 0;
	for (auto& o : c.ops) {
		++R.op;
		do_op(o);
		if (v.top > top)
			top = v.top;
		ops += v.ops;
		v.ops = 0;
	}
	if (k == K_TRIE || k == K_TRIEINP) {
		Rng r(1);
		while (!held.empty())
			remove_one(r, 0);
	}
	stop();
	heap_check();
	STAT("vast: 100000 elements", top >= 100000);
	STAT("vast: 1000000 elements", top >= 1000000);
	STAT("vast: 4000000 elements", top >= 4000000);
	V = 0;
	R.nontrivial = top >= 1000 && ops > 2000;
}

/* ---- generator ------------------------------------------------------------------- */

static u64 target(Rng& r, u64 max)
{
	switch (r.below(6)) {
	case 3 : return dict_size(r, max);
	case 0 : return r.below(max + 1);
	case 1 : return r.scaled(max);
	case 2 : return r.below(3) * r.below(3);
	default : {
		u64 t = 1ull << r.below(64 - __builtin_clzll(max | 1));
		if (r.chance(1, 2) && t * 16 < max)
			t *= 16;
		t += r.below(9);
		return t > 4 ? t - 4 : t;
	}
	}
}

static void gen_kind(Rng& r, const GenCtx& g, Case& c, int k)
{
	u64 max = 1 << 16;
	if (g.scale == 2)
		max = vs_size_bit == 64 ? (g.thorough ? (g.index % 8 ? 8u << 20 : 24u << 20) : g.index % 4 ? 1200000 : 4400000) : 900000;
	if (g.scale < 2 && r.chance(2, 3)) {
		/* to each of some counts, and each thing done there */
		u64 n = 4096 + r.below(8);
		bool sweep = r.chance(1, 2) && !is_array(k) && k != K_ALLOC;
		if (sweep)
			n = r.chance(1, 2) ? 40000 : r.chance(1, 2) ? 20000 : dict_size(r, 60000) + 200;
		if (k == K_LIST && sweep)
			n /= 8;
		c.par["kind"] = k;
		c.par["n"] = n;
		c.par["keys"] = k == K_TREE ? n : r.chance(1, 2) ? n : n / r.range(2, 9);
		c.par["mode"] = r.below(7);
		c.par["salt"] = r.next();
		c.par["p1"] = r.chance(1, 2) ? r.range(n / 8, n * 3) : r.range(n / 40, n);
		c.par["es"] = r.below(24);
		c.par["align"] = r.below(8);
		Op o = Op();
		if (sweep) {
			u64 max = n - r.below(n / 4);
			for (unsigned i = 0; i < 2 + r.below(2); ++i) {
				o.code = V_SWEEP;
				o.c = r.below(256);
				o.k = r.next();
				o.n = i % 2 ? r.below(max / 2) * (r.below(2)) : max;
				c.ops.push_back(o);
			}
		} else {
			for (unsigned i = 0; i < 8; ++i) {
				o.code = V_DONES;
				o.c = r.below(256);
				o.k = r.next();
				o.n = r.below(32) * 32;
				if (r.below(8) == 0)
					o.n = dict_size(r, n);
				o.u = 31;
				c.ops.push_back(o);
			}
		}
		return;
	}
	bool dear = k == K_TREE || k == K_TRIE || k == K_LIST;
	if (dear)
		max /= 3;
	if (is_array(k))
		max /= 2;
	u64 n = r.chance(1, 3) ? max : r.range(max / 3, max);
	c.par["kind"] = k;
	c.par["n"] = n;
	static const u64 dup[] = { 1, 1, 1, 2, 3, 7, 40 };
	c.par["keys"] = n / dup[k == K_TREE ? 0 : r.below(7)];
	if (k == K_LIST)
		c.par["keys"] = r.chance(1, 3) ? 1 + r.scaled(n) : n;
	c.par["mode"] = r.below(7);
	c.par["salt"] = r.next();
	c.par["p1"] = r.chance(1, 2) ? r.range(n / 8, n * 3) : r.range(n / 40, n);
	c.par["es"] = r.chance(1, 2) ? r.below(24) : r.below(64);
	c.par["align"] = r.below(8);
	unsigned legs = 2 + r.below(4);
	unsigned full = 0;
	u64 last = 0;
	if (is_hash(k))
		legs += r.below(8);
	for (unsigned i = 0; i < legs; ++i) {
		Op o;
		o.c = r.below(256);
		o.k = r.next();
		o.u = r.chance(1, 3) ? 0 : r.scaled(100000);
		if (i == 0)
			o.c = (o.c & ~3) | (r.chance(1, 2) ? 0 : r.chance(1, 2) ? 3 : 1);
		o.code = V_GO;
		o.n = i == 0 ? (u32)r.range(n / 2, n) : (u32)target(r, n);
		if (i > 0 && is_hash(k) && r.chance(3, 4)) {
			/* to where a resize under way is reversed */
			u64 t;
			if (last < n / 6 && r.chance(1, 2))
				t = last * r.range(32, 80) / 8 + r.below(8);
			else if (r.chance(1, 3))
				t = (1ull << r.below(64 - __builtin_clzll(n | 1))) * r.range(4, 16) / 16;
			else
				t = last / r.range(2, 17) + r.below(8);
			o.n = t > n ? n : t;
		}
		last = o.n;
		if (is_array(k)) {
			o.code = r.chance(1, 3) ? V_GO : V_INS;
			if (o.code == V_INS)
				o.n = r.scaled(n);
		}
		if (k == K_ALLOC) {
			o.code = i & 1 ? V_REM : V_INS;
			o.n = r.range(n / 4, n);
		}
		c.ops.push_back(o);
		o.k = r.next();
		o.code = V_SPOT;
		o.n = 3000;
		if (k == K_LIST && r.chance(1, 2))
			o.code = r.chance(1, 3) ? V_CONCAT : V_SORT;
		c.ops.push_back(o);
		if (is_array(k)) {
			o.code = V_REM;
			o.k = r.next();
			c.ops.push_back(o);
		} else if (k != K_ALLOC && r.chance(1, 2)) {
			o.code = V_JITTER;
			o.n = r.scaled(3000);
			o.u = r.below(100);
			c.ops.push_back(o);
		}
		if (full < 2 && r.chance(1, 3)) {
			++full;
			o.code = r.chance(1, 2) ? V_EACH : V_CHECK;
			o.n = r.below(2);
			c.ops.push_back(o);
		}
	}
	Op o;
	o.c = r.below(256);
	o.k = r.next();
	o.u = 0;
	o.n = 0;
	o.code = V_CHECK;
	c.ops.push_back(o);
	o.code = V_EACH;
	o.n = r.below(2);
	c.ops.push_back(o);
	if (r.chance(1, 3)) {
		o.code = V_GO;
		o.n = r.below(4);
		c.ops.push_back(o);
		o.code = V_CHECK;
		c.ops.push_back(o);
	}
	if (r.chance(1, 4)) {
		o.code = V_RESTART;
		o.u = r.below(1000);
		c.ops.push_back(o);
		o.code = V_INS;
		o.n = 3000;
		c.ops.push_back(o);
		o.code = V_CHECK;
		c.ops.push_back(o);
	}
}

void gen_vtable(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, K_HASHTABLE); }
void gen_vdyn(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, K_HASHDYN); }
void gen_vlin(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, K_HASHLIN); }
void gen_vtrie(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, K_TRIE); }
void gen_vinp(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, K_TRIEINP); }
void gen_vtree(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, K_TREE); }
void gen_vlist(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, K_LIST); }
void gen_varray(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, K_ARRAY + g.index % 2); }
void gen_vblk(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, K_ARRAYBLK + g.index % 2); }
void gen_valloc(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, K_ALLOC); }
void gen_vany(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, g.index % K_MAX); }
void gen_vhash(Rng& r, const GenCtx& g, Case& c) { gen_kind(r, g, c, g.index % 2 ? K_HASHDYN : K_HASHLIN); }
