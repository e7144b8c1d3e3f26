/*
 * The other executors: list sort, tree balance, progressive resize, hash
 * functions and bit primitives; and the tables of generators and properties.
 */
#include "world.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <math.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>
#include <sys/mman.h>

/* a node followed by its value, what these executors put in containers */
struct Item {
	u64 node[16]; /* larger than any node */
	u64 value;
	u32 pos, aux;
};

static u64 cmp_calls;
static unsigned cmp_mag;
static const Item* cmp_lo;
static const Item* cmp_hi;

static int cmp_size(int sign, u64 a, u64 b)
{
	if (sign == 0)
		return 0;
	int m = cmp_mag == 0 ? 1 : cmp_mag == 1 ? 1 + (int)(mix64(a ^ (b << 1)) & 0x3fffffff) : INT_MAX;
	if (sign > 0)
		return m;
	return m == INT_MAX ? INT_MIN : -m;
}

static int item_cmp(const void* va, const void* vb)
{
	const Item* a = (const Item*)va;
	const Item* b = (const Item*)vb;
	++cmp_calls;
	if (a < cmp_lo || a >= cmp_hi || b < cmp_lo || b >= cmp_hi)
		fail(CAT_RES, "compare called on something that is not an element");
	return cmp_size(a->value < b->value ? -1 : a->value > b->value, a->value, b->value);
}

static char* mod_region()
{
	static char* p;
	if (!p)
		p = (char*)region_reserve(200u << 20, 3);
	return p;
}

static unsigned ceil_log2(u64 n)
{
	unsigned b = 0;
	while ((1ull << b) < n)
		++b;
	return b;
}

/* ---- sort ------------------------------------------------------------------------- */

enum { S_VAL = 1, S_RUN };

/*
 * ops: S_VAL value k; S_RUN n values from k in steps of (int64)u. For big
 * lists parameters describe the arrangement instead: n, pat, seed.
 */
static void sort_values(const Case& c, std::vector<u64>& v)
{
	for (auto& o : c.ops) {
		if (o.code == S_VAL)
			v.push_back(o.k);
		else if (o.code == S_RUN)
			for (u32 i = 0; i < o.n && v.size() < 2000000; ++i)
				v.push_back(o.k + o.u * i);
	}
	u64 n = c.get("n");
	if (n > 2000000)
		n = 2000000;
	Rng r(c.get("seed"));
	u64 range = c.get("range") + 1;
	for (u64 i = 0; i < n; ++i) {
		u64 x;
		switch (c.get("pat")) {
		case 0 : x = r.next() % range; break;
		case 1 : x = i; break;
		case 2 : x = n - i; break;
		case 3 : x = i * range / n; break; /* ordered with duplicates */
		case 4 : x = (n - i) * range / n; break; /* reversed with duplicates */
		case 5 : x = i & 1 ? i : n - i; break;
		case 6 : x = i % range; break; /* saw teeth */
		case 7 : x = (range - i % range); break;
		case 8 : x = i ^ (r.below(100) == 0 ? r.next() % range : 0); break; /* nearly ordered */
		case 9 : x = i < n / 2 ? i : n - i; break; /* organ pipe */
		case 10 : x = 0; break;
		case 11 : x = mix64(i) & 1; break;
		case 12 : x = i + 1 == n ? 0 : i + 1; break; /* last is the smallest */
		case 13 : x = i == 0 ? n : i; break; /* first is the largest */
		default : { /* bit reversal */
			x = 0;
			for (int b = 0; b < 24; ++b)
				x |= ((i >> b) & 1) << (23 - b);
		}
		}
		v.push_back(x);
	}
}

static void sort_run(const Case& c)
{
	heap_reset(0);
	std::vector<u64> v;
	sort_values(c, v);
	size_t n = v.size();
	Item* it = (Item*)mod_region();
	if ((n + 1) * sizeof(Item) > 190u << 20)
		n = (190u << 20) / sizeof(Item) - 1, v.resize(n);
	cmp_mag = c.get("mag") % 3;
	cmp_lo = it;
	cmp_hi = it + n;
	size_t ns = vs_node_sizeof(K_LIST);
	char cont[256];
	void* list = cont;
	vs_init(K_LIST, list, 0, 0, 0, 0);
	for (size_t i = 0; i < n; ++i) {
		memset(it[i].node, 0x41, sizeof(it[i].node));
		it[i].value = v[i];
		it[i].pos = i;
		vs_insert(K_LIST, list, it[i].node, &it[i], 0);
	}
	bool asc = true, desc = true;
	for (size_t i = 1; i < n; ++i) {
		if (v[i - 1] > v[i])
			asc = false;
		if (v[i - 1] <= v[i])
			desc = false;
	}
	std::vector<u32> want(n);
	for (size_t i = 0; i < n; ++i)
		want[i] = i;
	std::stable_sort(want.begin(), want.end(), [&](u32 a, u32 b) { return v[a] < v[b]; });
	cmp_calls = 0;
	vs_list_sort(list, item_cmp);
	u64 calls = cmp_calls;
	/* never more than n*ceil(log2 n) + 2n; linear when in order */
	if (n && WANT(CAT_CMP)) {
		u64 bound = n * ceil_log2(n) + 2 * n;
		if (calls > bound)
			fail(CAT_CMP, "%llu comparisons to sort %zu elements, the bound is %llu", (unsigned long long)calls, n, (unsigned long long)bound);
		if ((asc || desc) && calls > 2 * n)
			fail(CAT_CMP, "%llu comparisons to sort %zu elements %s, the bound is %llu", (unsigned long long)calls, n, asc ? "already in order" : "in reverse order", (unsigned long long)(2 * n));
	}
	STAT("already in order", asc && n > 2);
	STAT("in reverse order", desc && n > 2);
	STAT("neither in order nor reversed", !asc && !desc);
	bool dup = false;
	for (size_t i = 1; i < n && !dup; ++i)
		dup = v[want[i - 1]] == v[want[i]];
	STAT("with equal values", dup);
	STAT("more than 1000 elements", n > 1000);
	STAT("more than 100000 elements", n > 100000);
	/* the list must be the stable order */
	char* node = (char*)vs_list_head(list);
	char* prev = 0;
	for (size_t i = 0; i < n; ++i) {
		if (!node)
			fail(CAT_SORT, "only %zu elements of %zu after the sort", i, n);
		Item* e = (Item*)node;
		if (e < it || e >= it + n || (node - (char*)it) % sizeof(Item))
			fail(CAT_SORT, "position %zu is not an element after the sort", i);
		if (vs_node_data(K_LIST, node) != e)
			fail(CAT_SORT, "data pointer changed by the sort at position %zu", i);
		if (e->pos != want[i]) {
			if (e->value == v[want[i]])
				fail(CAT_SORT, "equal elements not in their previous order at position %zu of %zu", i, n);
			fail(CAT_SORT, "not in order at position %zu of %zu", i, n);
		}
		if (i && vs_node_prev(K_LIST, node) != prev)
			fail(CAT_LINKS, "wrong backward link at position %zu of %zu after the sort", i, n);
		prev = node;
		node = (char*)vs_node_next(K_LIST, node);
	}
	if (node)
		fail(CAT_SORT, "more than %zu elements after the sort", n);
	if (n) {
		if (vs_list_tail(list) != prev || vs_node_prev(K_LIST, vs_list_head(list)) != prev)
			fail(CAT_LINKS, "wrong tail after the sort of %zu elements", n);
		unsigned char* b = (unsigned char*)it[n - 1].node;
		for (size_t i = ns; i < sizeof(it[0].node); ++i)
			if (b[i] != 0x41)
				fail(CAT_OVER, "write after a node");
	} else if (vs_list_head(list) || !vs_list_empty(list)) {
		fail(CAT_SORT, "an empty list is no more empty after the sort");
	}
	R.nontrivial = n >= 3 && !asc;
	if (WANT(CAT_CMP))
		R.nontrivial = n >= 3;
	heap_check();
}

static void gen_sort(Rng& r, const GenCtx& g, Case& c)
{
	c.par["mag"] = r.below(3);
	if (g.index < 1300) {
		/* all the arrangements of up to 6 elements with values up to n: 1, 2^2, ... */
		u64 i = g.index;
		u64 n = 0, tot = 1;
		while (i >= tot) {
			i -= tot;
			++n;
			tot = 1;
			for (u64 j = 0; j < n; ++j)
				tot *= n < 5 ? n : 3;
		}
		u64 base = n < 5 ? n : 3;
		for (u64 j = 0; j < n; ++j) {
			c.ops.push_back(Op{ S_VAL, 0, 0, base ? i % base : 0, 0 });
			i /= base ? base : 1;
		}
		return;
	}
	unsigned x = r.below(100);
	if (x < 55) {
		/* small: explicit values */
		u64 n = r.chance(1, 2) ? r.below(70) : r.chance(1, 5) ? dict_size(r, 600) : r.scaled(600);
		u64 range = 1 + r.scaled(n * 2 + 1);
		u64 start = r.below(range);
		unsigned pat = r.below(8);
		for (u64 i = 0; i < n; ++i) {
			u64 k;
			switch (pat) {
			case 0 : k = start + i; break;
			case 1 : k = start + n - i; break;
			case 2 : k = i * range / n; break;
			case 3 : k = (n - i) * range / n; break;
			default : k = r.below(range);
			}
			c.ops.push_back(Op{ S_VAL, 0, 0, k, 0 });
		}
		if (pat < 4 && n > 1) {
			/* a few perturbations */
			u64 p = r.below(4);
			while (p--)
				std::swap(c.ops[r.below(n)].k, c.ops[r.below(n)].k);
		}
	} else if (x < 85) {
		/* runs, of lengths near powers of two as the merges are */
		u64 m = 1 + r.below(20);
		while (m--) {
			u32 n = r.chance(1, 2) ? (1u << r.below(10)) + r.below(3) - 1 : r.chance(1, 5) ? dict_size(r, 1000) : r.below(200);
			i64 step = (i64)r.below(5) - 2;
			c.ops.push_back(Op{ S_RUN, 0, n, 100000 + r.below(1 + r.scaled(1000)), (u64)step });
		}
	} else {
		u64 top = g.scale >= 2 ? (g.thorough ? 1000000 : 200000) : 30000;
		if (x < 97)
			top /= 10;
		u64 n = r.chance(1, 4) ? dict_size(r, top) : r.chance(1, 2) ? r.scaled(top) : (1ull << r.below(64 - __builtin_clzll(top))) + r.below(5) - 2;
		if (n > top)
			n = top;
		c.par["n"] = n;
		c.par["pat"] = r.below(15);
		c.par["seed"] = r.below(1 << 20);
		c.par["range"] = r.scaled(n * 2);
	}
}

/* ---- one object many times in one container ---------------------------------------- */

enum { AL_INS = 1, AL_REM, AL_REMKEY, AL_SEARCH, AL_ITER, AL_DONE };

static const char* al_lo;
static std::vector<u32> al_seen;

static int al_cmp(const void* a, const void* b)
{
	return a < b ? -1 : a > b;
}

static void al_each(void* data)
{
	size_t o = (char*)data - al_lo;
	if (o % 64 || o / 64 >= al_seen.size())
		fail(CAT_ITER, "iteration on something that is not an element");
	++al_seen[o / 64];
}

/*
 * Few objects, each with many nodes, put in the same container with different
 * keys or with the same one. k is the key, u the object or the choice.
 */
static void alias_run(const Case& c)
{
	int kind = c.get("kind") % (K_LIST + 1);
	u64 nobj = 1 + c.get("objs") % 4096;
	u64 mask = vs_size_bit == 64 ? ~0ull : 0xffffffffull;
	bool trie = kind == K_TRIE || kind == K_TRIEINP;
	if (trie)
		mask &= kind == K_TRIE ? (vs_trie_bit == 64 ? ~0ull : (1ull << vs_trie_bit) - 1) : (vs_trieinp_bit == 64 ? ~0ull : (1ull << vs_trieinp_bit) - 1);
	heap_reset(c.get("hseed"));
	char* region = mod_region();
	al_lo = region; /* objects of 64 bytes */
	Item* it = (Item*)(region + nobj * 64);
	memset(region, 0x37, nobj * 64);
	size_t room = ((190u << 20) - nobj * 64) / sizeof(Item);
	size_t ns = vs_node_sizeof(kind);
	struct N {
		u32 node;
		u32 obj;
	};
	/* model: the nodes of every key in order of insertion */
	std::map<u64, std::vector<N> > model;
	std::vector<u64> key_of(1);
	std::vector<std::pair<u32, u32> > held; /* node, object */
	std::vector<u32> freed;
	u32 used = 0;
	char cont[4096], alloc[256];
	u64 dup = 0, same = 0, removed = 0;
	std::vector<u32> count(nobj, 0);
	auto open = [&]() {
		H.owner = 0;
		if (kind == K_TRIE)
			vs_init(K_ALLOC, alloc, vs_trie_block_size(), vs_trie_block_size(), 0, 0);
		vs_init(kind, cont, c.get("buckets"), 0, kind == K_TRIE ? alloc : 0, al_cmp);
	};
	auto close = [&]() {
		if (kind == K_HASHTABLE || kind == K_HASHDYN || kind == K_HASHLIN)
			vs_done(kind, cont);
		if (kind == K_TRIE)
			vs_done(K_ALLOC, alloc);
	};
	auto at = [&](void* p) -> u32 {
		char* b = (char*)p;
		if (b < (char*)it || b >= (char*)(it + used) || (b - (char*)it) % sizeof(Item))
			fail(CAT_RES, "a node that is not one of an element");
		return (u32)((Item*)b - it);
	};
	auto obj = [&](u32 o) -> void* { return region + (u64)o * 64; };
	auto check_key = [&](u64 key) {
		if (kind == K_TREE)
			return;
		std::vector<N>* want = 0;
		std::map<u64, std::vector<N> >::iterator f = model.find(key);
		if (f != model.end())
			want = &f->second;
		size_t n = 0, steps = 0;
		for (void* p = kind == K_LIST ? vs_list_head(cont) : vs_bucket(kind, cont, key); p; p = vs_node_next(kind, p)) {
			if (++steps > held.size())
				fail(CAT_LINKS, "a bucket with more nodes than the elements");
			u32 e = at(p);
			if (kind != K_LIST && vs_node_key(kind, p) != key) {
				if (trie)
					fail(CAT_RES, "a node with another key in the bucket of a trie");
				continue;
			}
			if (!want || n >= want->size())
				fail(CAT_RES, "more nodes with the key %llx than inserted", (unsigned long long)key);
			if ((*want)[n].node != e)
				fail(CAT_ORDER, "node %zu of the key %llx is not the one inserted at that point", n, (unsigned long long)key);
			if (vs_node_data(kind, p) != obj((*want)[n].obj))
				fail(CAT_RES, "data pointer of a node changed");
			++n;
		}
		if (n != (want ? want->size() : 0))
			fail(CAT_RES, "%zu nodes with the key %llx instead of %zu", n, (unsigned long long)key, want ? want->size() : 0);
	};
	auto drop = [&](u64 key, size_t pos) {
		std::vector<N>& v = model[key];
		u32 e = v[pos].node;
		--count[v[pos].obj];
		v.erase(v.begin() + pos);
		if (v.empty())
			model.erase(key);
		for (size_t i = 0; i < held.size(); ++i)
			if (held[i].first == e) {
				held[i] = held.back();
				held.pop_back();
				break;
			}
		/* the node is of the user again */
		memset(it[e].node, 0x5a, sizeof(it[e].node));
		freed.push_back(e);
		++removed;
	};
	auto iterate = [&]() {
		if (trie)
			return;
		al_seen.assign(nobj, 0);
		vs_foreach(kind, cont, al_each);
		for (u32 o = 0; o < nobj; ++o)
			if (al_seen[o] != count[o])
				fail(CAT_ITER, "iteration met object %u %u times instead of %u", o, al_seen[o], count[o]);
	};
	open();
	for (size_t i = 0; i < c.ops.size(); ++i) {
		const Op& o = c.ops[i];
		R.op = i;
		u64 key = kind == K_LIST || kind == K_TREE ? 0 : o.k & mask;
		switch (o.code) {
		case AL_INS : {
			u32 ob = o.u % nobj;
			u32 e;
			if (freed.size() > 3) {
				e = freed.front();
				freed.erase(freed.begin());
			} else {
				if (used + 1 >= room)
					give_up("too many elements");
				e = used++;
				key_of.resize(used + 1);
				memset(it[e].node, 0x41, sizeof(it[e].node));
			}
			Item before = it[e];
			void* got = vs_insert(kind, cont, it[e].node, obj(ob), key);
			if (kind == K_TREE) {
				if (got != obj(ob))
					fail(CAT_RES, "insertion in the tree returned another element");
				if (memcmp((char*)it[e].node + ns, (char*)before.node + ns, sizeof(Item) - ns))
					fail(CAT_OVER, "write after a node");
				if (count[ob]) {
					/* the same object is already there */
					++dup;
					memset(it[e].node, 0x5a, sizeof(it[e].node));
					freed.push_back(e);
					break;
				}
			}
			if (memcmp((char*)it[e].node + ns, (char*)before.node + ns, sizeof(Item) - ns))
				fail(CAT_OVER, "write after a node");
			std::vector<N>& v = model[key];
			if (count[ob])
				++dup;
			for (auto& x : v)
				if (x.obj == ob) {
					++same;
					break;
				}
			N x = { e, ob };
			v.push_back(x);
			key_of[e] = key;
			held.push_back(std::make_pair(e, ob));
			++count[ob];
			break;
		}
		case AL_REM : {
			if (held.empty())
				break;
			u32 e = held[mix64(o.u) % held.size()].first;
			key = key_of[e];
			std::vector<N>& v = model[key];
			size_t pos = 0;
			while (v[pos].node != e)
				++pos;
			void* got = vs_remove_existing(kind, cont, it[e].node);
			if (got != obj(v[pos].obj))
				fail(CAT_RES, "removal returned the wrong object");
			drop(key, pos);
			break;
		}
		case AL_REMKEY :
		case AL_SEARCH : {
			if (kind == K_LIST)
				break;
			if (o.n && !held.empty()) {
				/* one that is there */
				u32 e = held[mix64(o.u) % held.size()].first;
				if (kind != K_TREE)
					key = key_of[e];
			}
			u32 ob = o.u % nobj;
			void* want = 0;
			size_t pos = 0;
			std::map<u64, std::vector<N> >::iterator f = model.find(key);
			if (f != model.end()) {
				if (o.n > 1)
					ob = f->second[mix64(o.u) % f->second.size()].obj;
				while (pos < f->second.size() && !trie && f->second[pos].obj != ob)
					++pos;
				if (pos < f->second.size())
					want = obj(f->second[pos].obj);
			}
			void* got = o.code == AL_SEARCH ? vs_search(kind, cont, al_cmp, obj(ob), key) : vs_remove(kind, cont, al_cmp, obj(ob), key);
			if (got != want)
				fail(CAT_RES, "%s of object %u with the key %llx returned %s", o.code == AL_SEARCH ? "search" : "removal", ob, (unsigned long long)key, !got ? "nothing" : want ? "another object" : "something");
			if (want && o.code == AL_REMKEY)
				drop(key, pos);
			break;
		}
		case AL_ITER :
			iterate();
			break;
		case AL_DONE :
			close();
			for (auto& x : held)
				freed.push_back(x.first);
			held.clear();
			model.clear();
			count.assign(nobj, 0);
			open();
			break;
		}
		if (vs_count(kind, cont) != held.size())
			fail(CAT_COUNT, "count is %zu with %zu elements", vs_count(kind, cont), held.size());
		check_key(key);
		if (i % 64 == 63 || i + 1 == c.ops.size()) {
			iterate();
			if (kind == K_LIST || kind == K_TREE) {
				check_key(0);
			} else {
				for (auto& m : model)
					check_key(m.first);
			}
		}
		for (size_t j = 0; j < freed.size() && j < 4; ++j) {
			/* as left at the removal */
			unsigned char* b = (unsigned char*)it[freed[j]].node;
			if (b[0] == 0x5a)
				for (size_t k = 1; k < sizeof(it[0].node); ++k)
					if (b[k] != 0x5a)
						fail(CAT_RES, "write on the node of a removed element");
		}
	}
	for (u64 i = 0; i < nobj * 64; ++i)
		if (region[i] != 0x37)
			fail(CAT_OVER, "write on an object");
	STAT("an object more than once in a container", dup > 0);
	STAT("an object more than once with the same key", same > 0);
	STAT("removals of an object that stays with another node", removed > 0 && dup > 0);
	R.nontrivial = held.size() + removed >= 4 && dup > 0;
	close();
	heap_check();
}

static void gen_alias(Rng& r, const GenCtx& g, Case& c)
{
	c.par["hseed"] = r.below(1 << 16);
	c.par["kind"] = g.index % (K_LIST + 1);
	u64 n = 4 + (r.chance(1, 6) ? dict_size(r, 600) : r.scaled(600));
	u64 nobj = 1 + (r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.below(4) : r.scaled(n));
	c.par["objs"] = nobj - 1;
	c.par["buckets"] = r.chance(1, 2) ? 0 : r.scaled(300);
	/* keys: few, or in a few classes of low or high bits */
	u64 nkeys = 1 + (r.chance(1, 4) ? 0 : r.chance(1, 2) ? r.below(6) : r.scaled(n));
	u64 base = r.next();
	unsigned shift = r.chance(1, 2) ? 0 : r.below(60);
	unsigned grow = 30 + r.below(60);
	for (u64 i = 0; i < n; ++i) {
		Op o = Op();
		unsigned x = r.below(100);
		o.k = base + (r.below(nkeys) << shift);
		o.u = r.chance(1, 2) ? r.below(nobj) : r.next();
		if (x < grow) {
			o.code = AL_INS;
		} else {
			unsigned y = r.below(100);
			o.code = y < 35 ? AL_REM : y < 65 ? AL_REMKEY : y < 93 ? AL_SEARCH : y < 99 ? AL_ITER : AL_DONE;
			o.n = r.below(3);
		}
		c.ops.push_back(o);
		if (r.below(60) == 0)
			grow = 10 + r.below(85);
	}
}

/* ---- tree balance ------------------------------------------------------------------- */

enum { T_INS = 1, T_REM, T_REX, T_REMI };

static bool avl_ok(u64 n, u64 cmps)
{
	return (double)cmps <= 1.4405 * log2((double)n + 2) - 0.3277 + 1e-9;
}

static void avl_run(const Case& c)
{
	heap_reset(0);
	Item* it = (Item*)mod_region();
	size_t room = (190u << 20) / sizeof(Item);
	/* values inserted in a set, for the gaps; items are never reused */
	std::map<u64, u32> in;
	std::vector<u64> held;
	cmp_mag = c.get("mag") % 3;
	cmp_lo = it;
	char cont[256];
	vs_init(K_TREE, cont, 0, 0, 0, item_cmp);
	Item* probe = &it[0];
	size_t used = 1;
	memset((void*)probe, 0, sizeof(Item));
	cmp_hi = it + 1;
	u64 every = c.get("every", 1);
	u64 most = 0, checks = 0;
	auto probe_cost = [&](u64 value) -> u64 {
		probe->value = value;
		cmp_calls = 0;
		void* got = vs_search(K_TREE, cont, item_cmp, probe, 0);
		u64 calls = cmp_calls;
		auto f = in.find(value);
		if ((f == in.end()) != (got == 0) || (got && got != &it[f->second]))
			fail(CAT_RES, "search of %llu returned the wrong answer", (unsigned long long)value);
		return calls;
	};
	auto check_value = [&](u64 value) {
		u64 calls = probe_cost(value);
		if (!avl_ok(in.size(), calls))
			fail(CAT_CMP, "%llu comparisons to search a value in a tree of %zu elements, the bound is %.2f", (unsigned long long)calls, in.size(), 1.4405 * log2((double)in.size() + 2) - 0.3277);
	};
	auto check_all = [&]() {
		++checks;
		/* every value and every gap; of a large tree a part */
		if (in.size() <= 3000) {
			check_value(0);
			for (auto& x : in) {
				check_value(x.first);
				check_value(x.first + 1);
			}
		} else {
			Rng r(mix64(R.op));
			u64 lo = in.begin()->first, hi = in.rbegin()->first;
			for (int i = 0; i < 3000; ++i) {
				auto f = in.lower_bound(lo + r.below(hi - lo + 1));
				if (f != in.end()) {
					check_value(f->first);
					check_value(f->first + 1);
				}
			}
			check_value(lo);
			check_value(lo - 1);
			check_value(hi);
			check_value(hi + 1);
		}
	};
	bool removed = false;
	for (size_t i = 0; i < c.ops.size(); ++i) {
		const Op& o = c.ops[i];
		R.op = i;
		/* even values only, so that there is a gap after each */
		u64 value = o.k * 2;
		u32 reps = o.n ? o.n : 1;
		for (u32 rep = 0; rep < reps; ++rep, value += o.u * 2) {
			if (o.code == T_REX || o.code == T_REMI) {
				if (in.empty())
					break;
				auto f = in.lower_bound(value);
				if (f == in.end())
					f = in.begin();
				value = f->first;
			}
			u64 before = probe_cost(value);
			u64 n0 = in.size();
			if (o.code == T_INS) {
				if (used + 1 >= room)
					give_up("too many elements");
				Item* e = &it[used];
				cmp_hi = e + 1;
				memset((void*)e->node, 0x41, sizeof(e->node));
				e->value = value;
				cmp_calls = 0;
				void* got = vs_insert(K_TREE, cont, e->node, e, 0);
				u64 calls = cmp_calls;
				auto f = in.find(value);
				if (got != (f == in.end() ? e : &it[f->second]))
					fail(CAT_RES, "insertion returned the wrong element");
				if (f == in.end()) {
					in[value] = used;
					++used;
				}
				if (calls > before)
					fail(CAT_CMP, "%llu comparisons to insert in a tree of %llu elements, a search for it made %llu", (unsigned long long)calls, (unsigned long long)n0, (unsigned long long)before);
			} else {
				auto f = in.find(value);
				cmp_calls = 0;
				void* got;
				probe->value = value;
				if (o.code == T_REX)
					got = vs_remove_existing(K_TREE, cont, it[f->second].node);
				else
					got = vs_remove(K_TREE, cont, item_cmp, probe, 0);
				u64 calls = cmp_calls;
				if (got != (f == in.end() ? 0 : &it[f->second]))
					fail(CAT_RES, "removal returned the wrong element");
				if (f != in.end()) {
					memset((void*)it[f->second].node, 0xdd, sizeof(it[0].node));
					in.erase(f);
					removed = true;
				}
				if (calls > before)
					fail(CAT_CMP, "%llu comparisons to remove from a tree of %llu elements, a search for it made %llu", (unsigned long long)calls, (unsigned long long)n0, (unsigned long long)before);
			}
			if (in.size() > most)
				most = in.size();
			if (!in.empty() && (reps < 3000 || rep % 16 == 0)) {
				/* where it changed, and at the ends */
				check_value(value);
				check_value(value + 1);
				check_value(in.begin()->first);
				check_value(in.rbegin()->first);
			}
			if (every && in.size() <= 200 && (rep % every) == 0 && most * c.ops.size() < 400000)
				check_all();
		}
		if (in.size() > 0 && (i % (c.ops.size() / 24 + 1) == 0 || in.size() < 64))
			check_all();
	}
	check_all();
	if (vs_count(K_TREE, cont) != in.size())
		fail(CAT_COUNT, "count is %zu with %zu elements", vs_count(K_TREE, cont), in.size());
	STAT("removals", removed);
	STAT("more than 64 elements", most > 64);
	STAT("more than 1000 elements", most > 1000);
	STAT("more than 100000 elements", most > 100000);
	STAT("exhaustive searches of the tree", checks > 1);
	R.nontrivial = most >= 4 && c.ops.size() >= 3;
}

/* shapes of minimal AVL trees: inserted level by level they are built as they are */
static void fib_tree(int h, u64 lo, std::vector<std::pair<int, u64>>& out, int depth, bool right, u64* size)
{
	/* size of the minimal tree of height h */
	static u64 s[40];
	if (!s[1]) {
		s[0] = 0;
		s[1] = 1;
		for (int i = 2; i < 40; ++i)
			s[i] = s[i - 1] + s[i - 2] + 1;
	}
	if (size)
		*size = s[h];
	if (h == 0)
		return;
	int l = right ? h - 2 : h - 1, rr = right ? h - 1 : h - 2;
	if (l < 0) l = 0;
	if (rr < 0) rr = 0;
	u64 root = lo + s[l];
	out.push_back(std::make_pair(depth, root));
	fib_tree(l, lo, out, depth + 1, right, 0);
	fib_tree(rr, root + 1, out, depth + 1, right, 0);
}

static void gen_avl(Rng& r, const GenCtx& g, Case& c)
{
	c.par["mag"] = r.below(3);
	c.par["every"] = 1;
	unsigned x = r.below(100);
	auto op = [&](int code, u64 k, u32 n = 0, u64 u = 0) { c.ops.push_back(Op{ (uint8_t)code, 0, n, k, u }); };
	if (g.scale >= 2 && g.index % 30 == 0) {
		/* large, and whole ranges of it removed */
		u32 n = g.thorough ? 300000 : 100000;
		n = n / 2 + r.below(n / 2);
		c.par["every"] = 0;
		u64 step = r.chance(1, 3) ? 1 : r.chance(1, 2) ? (u64)-1 : 7919;
		op(T_INS, 1ull << 40, n, step);
		for (int i = 0; i < 6; ++i)
			op(r.chance(1, 2) ? T_REMI : T_REX, (1ull << 40) + step * r.below(n), r.below(n / 3), step * (1 + r.below(3)));
		return;
	}
	if (x < 12) {
		/* minimal trees, then removals on the thin side */
		std::vector<std::pair<int, u64>> v;
		int h = 2 + r.below(r.chance(1, 6) ? 15 : 9);
		bool right = r.chance(1, 2);
		fib_tree(h, 0, v, 0, right, 0);
		std::stable_sort(v.begin(), v.end(), [](const std::pair<int, u64>& a, const std::pair<int, u64>& b) { return a.first < b.first; });
		for (auto& p : v)
			op(T_INS, 1000 + p.second);
		if (r.chance(1, 3)) {
			/* or additions on the other */
			bool end = r.below(4) ? right : !right;
			u64 m = 1 + r.below(20);
			for (u64 i = 0; i < m; ++i)
				op(T_INS, end ? 1000 + v.size() + i : 999 - i);
		}
		u64 m = r.below(v.size() + 1);
		bool low = r.chance(1, 2), rnd = r.chance(1, 3);
		for (u64 i = 0; i < m; ++i)
			op(r.chance(1, 2) ? T_REMI : T_REX, rnd ? 1000 + r.below(v.size()) : low ? 0 : 1000 + v.size() - i - 1);
	} else if (x < 35) {
		/* a permutation in, a permutation out */
		u64 n = r.chance(1, 10) ? dict_size(r, 600) : 1 + r.scaled(r.chance(1, 3) ? 400 : 40);
		std::vector<u64> p(n);
		for (u64 i = 0; i < n; ++i)
			p[i] = i;
		unsigned pat = r.below(5);
		auto shuffle = [&]() {
			for (u64 i = n; i > 1; --i)
				std::swap(p[i - 1], p[r.below(i)]);
		};
		if (pat == 0)
			shuffle();
		else if (pat == 1)
			std::reverse(p.begin(), p.end());
		else if (pat == 2)
			for (u64 i = 0; i < n; ++i)
				p[i] = i & 1 ? n - i : i; /* zig zag, some values twice */
		for (u64 k : p)
			op(T_INS, 100 + k);
		shuffle();
		if (r.chance(1, 2))
			std::sort(p.begin(), p.begin() + r.below(n));
		u64 m = r.below(n + 1);
		for (u64 i = 0; i < m; ++i)
			op(r.chance(1, 2) ? T_REM : T_REX, 100 + p[i]);
	} else if (x < 85) {
		/* any history in a small set of values */
		u64 range = 2 + r.scaled(r.chance(1, 4) ? 500 : 40);
		u64 n = 5 + r.below(range * 6 + 10);
		unsigned pins = 50;
		for (u64 i = 0; i < n; ++i) {
			if (r.below(25) == 0)
				pins = r.below(101);
			u64 k = 100 + r.below(range);
			if (r.below(100) < pins)
				op(T_INS, k);
			else
				op(r.chance(1, 3) ? T_REM : r.chance(1, 2) ? T_REX : T_REMI, k);
		}
	} else {
		/* runs in and out */
		u64 m = 2 + r.below(12);
		for (u64 i = 0; i < m; ++i) {
			u64 n = r.chance(1, 6) ? dict_size(r, 4100) : 1 + r.scaled(2000);
			u64 k = 1000000 + r.below(3000);
			u64 step = r.chance(1, 2) ? 1 : r.chance(1, 2) ? (u64)-1 : 1 + r.below(5);
			op(i == 0 || r.chance(3, 5) ? T_INS : r.chance(1, 2) ? T_REMI : T_REX, k, n, step);
		}
	}
}

/* ---- progressive resize of the linear hashtable ---------------------------------------- */

enum { L_INS = 1, L_REM, L_QUERY, L_INSM };

static void each_nop(void*) {}

static int lin_cmp(const void*, const void*)
{
	return 0;
}

/*
 * ops: L_INS n elements from key k in steps of u; L_INSM n elements with
 * random keys; L_REM n elements, k: 0 the
 * oldest, 1 the newest, else any. After every single insertion or removal:
 * how many chains have been split or joined, how many heap requests, and from
 * time to time how many buckets are in use.
 */
static void lin_run(const Case& c)
{
	heap_reset(c.get("hseed"));
	Item* it = (Item*)mod_region();
	size_t room = (190u << 20) / sizeof(Item);
	std::vector<u32> held, freed;
	char cont[4096];
	H.owner = 0;
	vs_init(K_HASHLIN, cont, 0, 0, 0, 0);
	u32 used = 0;
	u64 first = 0; /* oldest in the held vector: removed lazily */
	size_t track = c.get("track", 1500);
	u64 steps = 0, splits = 0, joins = 0, maxn = 0, estimates = 0;
	Rng r(c.get("hseed") + 9);
	/* chain id of every element: index of the first of its chain */
	std::vector<u32> head(1), prevhead(1);
	auto size = [&]() -> u64 { return held.size() - first; };
	auto snapshot = [&](std::vector<u32>& out) {
		out.resize(used);
		for (size_t i = first; i < held.size(); ++i) {
			char* h = (char*)vs_bucket(K_HASHLIN, cont, it[held[i]].value);
			if (h < (char*)it || h >= (char*)(it + used))
				fail(CAT_RES, "the bucket of a held element is empty");
			out[held[i]] = (u32)((Item*)h - it);
		}
	};
	struct Link {
		u64 stamp;
		u32 to;
		bool many;
	};
	std::vector<Link> fwd, back;
	u64 stamp = 0;
	bool have = false;
	/* chains split or joined since the last snapshot */
	auto moved = [&](const char* what) {
		if (size() > track) {
			have = false;
			return;
		}
		if (!have) {
			snapshot(prevhead);
			have = true;
			return;
		}
		snapshot(head);
		/* groups before and after, over the elements there both times */
		u32 ns = 0, nj = 0;
		++stamp;
		fwd.resize(used);
		back.resize(used);
		for (size_t i = first; i < held.size(); ++i) {
			u32 e = held[i];
			if (it[e].aux == 0) {
				it[e].aux = 1; /* new: no before */
				continue;
			}
			u32 a = prevhead[e], b = head[e];
			Link& f = fwd[a];
			if (f.stamp != stamp) {
				f.stamp = stamp;
				f.to = b;
				f.many = false;
			} else if (f.to != b && !f.many) {
				f.many = true;
				++ns;
			}
			Link& k = back[b];
			if (k.stamp != stamp) {
				k.stamp = stamp;
				k.to = a;
				k.many = false;
			} else if (k.to != a && !k.many) {
				k.many = true;
				++nj;
			}
		}
		splits += ns;
		joins += nj;
		if (WANT(CAT_WORK) && ns + nj > 16)
			fail(CAT_WORK, "%s redistributed at least %u buckets with %llu elements", what, ns + nj, (unsigned long long)size());
		prevhead.swap(head);
	};
	/* buckets in use, from the bits of the hash that matter */
	auto estimate = [&]() {
		u64 n = size();
		if (n < 96 || !WANT(CAT_WORK))
			return;
		/* it needs independent random hashes */
		std::vector<u64> seen;
		for (u64 i = 0; i < n; ++i) {
			const Item& e = it[held[first + i]];
			if (!e.pos)
				return;
			seen.push_back(e.value);
		}
		std::sort(seen.begin(), seen.end());
		if (std::adjacent_find(seen.begin(), seen.end()) != seen.end())
			return;
		double sum = 0;
		u64 m = 0;
		for (u64 i = 0; i < n && i < 20000; ++i) {
			u64 key = it[held[first + i]].value;
			void* h = vs_bucket(K_HASHLIN, cont, key);
			unsigned b = 0;
			while (b < (unsigned)vs_size_bit && vs_bucket(K_HASHLIN, cont, key ^ (1ull << b)) != h)
				++b;
			/* its bucket takes 2^-b of the hashes */
			sum += ldexp(1, -(int)b);
			++m;
		}
		++estimates;
		/* the average share is 2^-k(1 - p/2) for buckets 2^k(1 + p): find k and p */
		double avg = sum / m;
		int k = 0;
		while (ldexp(1, -k) > avg * 1.0000001)
			++k;
		/* 2^-k <= avg < 2^-(k-1): between level k-1 and k */
		double p = 2 * (1 - avg * ldexp(1, k - 1));
		if (k == 0)
			p = 0;
		double buckets = ldexp(1, k - 1) * (1 + p);
		/* seven sigma of the share of the buckets already split */
		if (buckets < 2.0 * n * (1 - 0.02 - 3.5 / sqrt((double)m)) - 16)
			fail(CAT_WORK, "about %.0f buckets in use for %llu elements", buckets, (unsigned long long)n);
	};
	/* the bucket at a position below twice the count is in use: not the same of the one it is split from */
	u64 exact = 0;
	auto in_use = [&]() {
		u64 n = size();
		if (n <= 32 || !WANT(CAT_WORK))
			return;
		for (int k = 0; k < 3; ++k) {
			u64 q = k == 0 ? 2 * n - 1 : k == 1 ? 2 * n - 2 : r.below(2 * n);
			if (q < 64)
				continue;
			u64 low = q ^ (1ull << (63 - __builtin_clzll(q)));
			void* a = vs_bucket(K_HASHLIN, cont, q);
			if (!a)
				continue;
			++exact;
			if (a == vs_bucket(K_HASHLIN, cont, low))
				fail(CAT_WORK, "bucket %llu is not in use with %llu elements", (unsigned long long)q, (unsigned long long)n);
		}
	};
	for (size_t i = 0; i < c.ops.size(); ++i) {
		const Op& o = c.ops[i];
		R.op = i;
		for (u32 rep = 0; rep < (o.n ? o.n : 1); ++rep) {
			u64 req = H.req;
			const char* what = "a query";
			H.owner = 0;
			if (o.code == L_INS || o.code == L_INSM) {
				u32 e;
				if (freed.size() > 50 || (used + 1 >= room && !freed.empty())) {
					e = freed.back();
					freed.pop_back();
				} else {
					if (used + 1 >= room)
						give_up("too many elements");
					e = used++;
				}
				it[e].pos = o.code == L_INSM;
				it[e].value = (o.code == L_INSM ? mix64(o.k + rep) : o.k + o.u * rep) & (vs_size_bit == 64 ? ~0ull : 0xffffffffull);
				it[e].aux = 0;
				memset(it[e].node, 0x41, sizeof(it[e].node));
				vs_insert(K_HASHLIN, cont, it[e].node, &it[e], it[e].value);
				held.push_back(e);
				what = "an insertion";
			} else if (o.code == L_REM) {
				if (size() == 0)
					break;
				size_t at = o.k == 0 ? first : o.k == 1 ? held.size() - 1 : first + (mix64(o.k + rep) % size());
				u32 e = held[at];
				void* got;
				/* the head of the chain is what the last snapshot knows */
				got = vs_remove_existing(K_HASHLIN, cont, it[e].node);
				if (got != &it[e])
					fail(CAT_RES, "removal returned the wrong element");
				if (at == first) {
					++first;
				} else {
					held[at] = held.back();
					held.pop_back();
				}
				freed.push_back(e);
				what = "a removal";
			} else {
				H.forbid = WANT(CAT_WORK) ? CAT_WORK : 0;
				H.forbid_why = "in a query";
				for (int q = 0; q < 4; ++q) {
					u64 key = q & 1 || !size() ? r.next() : it[held[first + r.below(size())]].value;
					vs_search(K_HASHLIN, cont, lin_cmp, 0, key);
					vs_bucket(K_HASHLIN, cont, key);
				}
				vs_count(K_HASHLIN, cont);
				vs_memory_usage(K_HASHLIN, cont);
				vs_foreach(K_HASHLIN, cont, each_nop);
				H.forbid = 0;
			}
			++steps;
			if (WANT(CAT_WORK) && H.req - req > 1)
				fail(CAT_WORK, "%llu heap requests in %s", (unsigned long long)(H.req - req), what);
			u64 n = size();
			if (n > maxn)
				maxn = n;
			if (vs_count(K_HASHLIN, cont) != n)
				fail(CAT_COUNT, "count is %zu with %llu elements", vs_count(K_HASHLIN, cont), (unsigned long long)n);
			u64 s0 = splits + joins;
			moved(what);
			if (o.code == L_QUERY && splits + joins != s0)
				fail(CAT_WORK, "a query redistributed buckets");
			in_use();
			if (steps % (8 + n / 4) == 0)
				estimate();
			if (first > 1000 && first * 2 > held.size()) {
				held.erase(held.begin(), held.begin() + first);
				first = 0;
			}
		}
		estimate();
	}
	STAT("splits seen", splits > 0);
	STAT("joins seen", joins > 0);
	STAT("splits and joins seen", splits > 0 && joins > 0);
	STAT("buckets in use estimated", estimates > 2);
	STAT("buckets below twice the count seen in use", exact > 100);
	STAT("more than 1000 elements", maxn > 1000);
	STAT("more than 100000 elements", maxn > 100000);
	R.nontrivial = maxn >= 64 && (splits || joins || maxn > track);
	H.owner = 0;
	vs_done(K_HASHLIN, cont);
	heap_check();
}

static void gen_lin(Rng& r, const GenCtx& g, Case& c)
{
	auto op = [&](int code, u64 k, u64 n, u64 u = 0) { c.ops.push_back(Op{ (uint8_t)code, 0, (u32)n, k, u }); };
	c.par["hseed"] = r.below(1 << 16);
	u64 max;
	if (g.scale >= 2 && g.index % 12 == 0)
		max = (g.thorough ? 600000 : 150000) / 2 + r.below(g.thorough ? 300000 : 75000);
	else
		max = 64 + r.scaled(r.chance(1, 4) ? 6000 : 1200);
	c.par["track"] = 1500;
	bool even = r.chance(2, 5);
	u64 width = 1 + max / (2 + r.below(14)); /* low values, with many high bits each */
	u64 key = r.next() >> 1;
	u64 count = 0;
	int legs = 3 + r.below(12);
	bool first = true;
	while (legs-- > 0) {
		u64 t;
		if (first) {
			t = max;
		} else {
			t = r.chance(1, 8) ? dict_size(r, max) : r.chance(1, 3) ? r.below(max + 1) : (1ull << r.below(64 - __builtin_clzll(max))) * (8 + r.below(9)) / 8 + r.below(5) - 2;
			if (t > max)
				t = r.below(max + 1);
		}
		first = false;
		if (t > count) {
			u64 d = t - count;
			if (even) {
				op(L_INSM, key, d, 1);
				key += d;
			} else if (r.chance(1, 3)) {
				u64 s = r.next() | 1;
				op(L_INS, r.next(), d, s);
			} else {
				/* windows of consecutive buckets, with other bits above */
				while (d) {
					u64 n = 1 + r.below(width);
					if (n > d)
						n = d;
					op(L_INS, (r.next() << 1) * width + r.below(3), n, 1);
					d -= n;
					if (c.ops.size() > 3000) {
						op(L_INS, r.next(), d ? d : 1, 1);
						break;
					}
				}
			}
		} else if (t < count) {
			op(L_REM, r.below(4), count - t);
		}
		count = t;
		/* up and down around it */
		u64 n = r.scaled(40);
		for (u64 i = 0; i < n && count > 4; ++i) {
			u64 d = 1 + r.below(1 + count / 8);
			if (max > 20000 && d > 2000)
				d = 2000;
			if (r.chance(1, 2)) {
				op(even ? L_INSM : L_INS, key, d, 1);
				key += d;
				op(L_REM, r.below(4), d);
			} else {
				op(L_REM, r.below(4), d);
				op(even ? L_INSM : L_INS, key, d, 1);
				key += d;
			}
			if (r.below(6) == 0)
				op(L_QUERY, 0, 0);
		}
	}
	if (r.chance(1, 2))
		op(L_REM, 0, max + 100);
	(void)g;
}

/* ---- buffers next to the end of the accessible memory ------------------------------------ */

static const size_t GP = 4096;
static char* gbuf; /* GBUF bytes between two inaccessible pages */
static const size_t GBUF = 48u << 20;

static void guard_setup()
{
	if (gbuf)
		return;
	size_t total = GBUF + 2 * GP;
	char* p = (char*)mmap(0, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED || mprotect(p + GP, GBUF, PROT_READ | PROT_WRITE) != 0)
		give_up("mmap failed");
	gbuf = p + GP;
}

static void content(unsigned char* p, size_t n, u64 seed, unsigned mode)
{
	Rng r(seed);
	size_t i;
	switch (mode % 8) {
	case 0 :
		for (i = 0; i < n; ++i)
			p[i] = r.next();
		break;
	case 1 : memset(p, 0, n); break;
	case 2 : memset(p, 0xff, n); break;
	case 3 :
		for (i = 0; i < n; ++i)
			p[i] = seed + i;
		break;
	case 4 : /* one bit */
		memset(p, 0, n);
		if (n)
			p[seed / 8 % n] = 1 << (seed % 8);
		break;
	case 5 : memset(p, 0x80, n); break;
	case 6 :
		for (i = 0; i < n; ++i)
			p[i] = 0x80 | r.next();
		break;
	default :
		for (i = 0; i < n; ++i)
			p[i] = 'a' + r.below(26);
	}
}

/* lookup3, from its publication: a reader of little-endian words and the two
   mixing functions, written without looking at the library */
#define ROT(x, k) ((u32)(((x) << (k)) | ((x) >> (32 - (k)))))

static void l3_mix(u32& a, u32& b, u32& c)
{
	a -= c; a ^= ROT(c, 4); c += b;
	b -= a; b ^= ROT(a, 6); a += c;
	c -= b; c ^= ROT(b, 8); b += a;
	a -= c; a ^= ROT(c, 16); c += b;
	b -= a; b ^= ROT(a, 19); a += c;
	c -= b; c ^= ROT(b, 4); b += a;
}

static void l3_final(u32& a, u32& b, u32& c)
{
	c ^= b; c -= ROT(b, 14);
	a ^= c; a -= ROT(c, 11);
	b ^= a; b -= ROT(a, 25);
	c ^= b; c -= ROT(b, 16);
	a ^= c; a -= ROT(c, 4);
	b ^= a; b -= ROT(a, 14);
	c ^= b; c -= ROT(b, 24);
}

/* hashlittle2: pc and pb are the two seeds and the two results */
static void l3_hashlittle2(const unsigned char* k, u64 length, u32* pc, u32* pb)
{
	u32 s[3];
	s[0] = s[1] = s[2] = 0xdeadbeefu + (u32)length + *pc;
	s[2] += *pb;
	u64 left = length;
	while (left > 12) {
		for (int i = 0; i < 3; ++i)
			s[i] += (u32)k[4 * i] | (u32)k[4 * i + 1] << 8 | (u32)k[4 * i + 2] << 16 | (u32)k[4 * i + 3] << 24;
		l3_mix(s[0], s[1], s[2]);
		k += 12;
		left -= 12;
	}
	if (left) {
		for (u64 i = 0; i < left; ++i)
			s[i / 4] += (u32)k[i] << (8 * (i % 4));
		l3_final(s[0], s[1], s[2]);
	}
	*pc = s[2];
	*pb = s[1];
}

static u32 ref_hash_u32(u32 init, const unsigned char* k, u64 len)
{
	u32 c = init, b = 0;
	l3_hashlittle2(k, len, &c, &b);
	return c;
}

static u64 ref_hash_u64(u64 init, const unsigned char* k, u64 len)
{
	u32 c = (u32)init, b = (u32)(init >> 32);
	l3_hashlittle2(k, len, &c, &b);
	return (u64)c | (u64)b << 32;
}

/* the string hash: the sum of each group of bytes before the terminator in
   its word, mixed after each full group of 12, one final */
static u32 ref_strhash(u64 init, const unsigned char* s)
{
	u32 w[3];
	w[0] = w[1] = w[2] = 0xdeadbeefu + (u32)init;
	size_t len = strlen((const char*)s);
	size_t i = 0;
	while (i + 12 <= len) {
		for (int j = 0; j < 3; ++j, i += 4)
			w[j] += (u32)s[i] | (u32)s[i + 1] << 8 | (u32)s[i + 2] << 16 | (u32)s[i + 3] << 24;
		l3_mix(w[0], w[1], w[2]);
	}
	for (; i < len; ++i) {
		w[i % 12 / 4] += (u32)s[i] << (8 * (i % 4));
		if (i % 12 == 11)
			l3_mix(w[0], w[1], w[2]);
	}
	l3_final(w[0], w[1], w[2]);
	return w[2];
}

/* longer than the buffer: few megabytes mapped again and again, up to the end
   of the accessible memory */
static void giant_run(const Case& c, bool str)
{
	static const u64 FILE_SIZE = 32u << 20;
	u64 len = c.get("giant");
	u64 room = (len + 1 + GP - 1) / GP * GP;
	unsigned char* base = (unsigned char*)mmap(0, room + GP, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (base == MAP_FAILED)
		give_up("no room for a giant buffer");
	int fd = memfd_create("giant", 0);
	if (fd < 0 || ftruncate(fd, FILE_SIZE) != 0)
		give_up("no file for a giant buffer");
	unsigned char* w = (unsigned char*)mmap(0, FILE_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (w == MAP_FAILED)
		give_up("no file for a giant buffer");
	Rng r(c.get("init") + 3);
	for (u64 i = 0; i < FILE_SIZE; ++i)
		w[i] = 1 + r.next() % 255;
	munmap(w, FILE_SIZE);
	for (u64 at = 0; at < room; at += FILE_SIZE) {
		u64 n = room - at < FILE_SIZE ? room - at : FILE_SIZE;
		if (mmap(base + at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED)
			give_up("no room for a giant buffer");
	}
	close(fd);
	/* it ends where the accessible memory does */
	unsigned char* p = base + room - len - (str ? 1 : 0);
	if (str)
		p[len] = 0;
	u64 init = c.get("init");
	bool bad;
	if (str) {
		bad = vs_strhash_u32(init, p) != ref_strhash(init, p);
	} else {
		bad = vs_hash_u32((u32)init, p, len) != ref_hash_u32((u32)init, p, len);
		bad = bad || vs_hash_u64(init, p, len) != ref_hash_u64(init, p, len);
	}
	munmap(base, room + GP);
	if (bad)
		fail(CAT_VALUE, "hash of %llu bytes is not the right one", (unsigned long long)len);
	STAT("at least 2^32 bytes", len >= 1ull << 32);
	STAT("2^31 to 2^32 bytes", len >= 1ull << 31 && len < 1ull << 32);
	R.nontrivial = true;
}

/* ops: n length, c placement, k content, u initial value */
enum { B_HASH = 1 };

static void hash_run(const Case& c)
{
	guard_setup();
	bool big = false;
	if (c.get("giant")) {
		giant_run(c, false);
		return;
	}
	for (size_t i = 0; i < c.ops.size(); ++i) {
		const Op& o = c.ops[i];
		R.op = i;
		size_t n = o.n;
		if (n > GBUF - 64)
			n = GBUF - 64;
		unsigned char* b;
		unsigned place = o.c % 64;
		if (place < 32)
			b = (unsigned char*)gbuf + GBUF - n - place % 32; /* next to the end */
		else
			b = (unsigned char*)gbuf + place - 32; /* next to the start */
		if (n == 0 && o.k & 1) {
			/* nothing, nowhere */
			if (vs_hash_u32((u32)o.u, 0, 0) != ref_hash_u32((u32)o.u, b, 0) || vs_hash_u64(o.u, 0, 0) != ref_hash_u64(o.u, b, 0))
				fail(CAT_VALUE, "the hash of nothing at a null address is not that of nothing");
			STAT("nothing at a null address", 1);
		}
		content(b, n, o.k, (unsigned)(o.k >> 40));
		/* what is around must not matter, nor be read */
		unsigned char* lo = (unsigned char*)gbuf;
		size_t before = b - lo > 64 ? 64 : b - lo;
		size_t after = (unsigned char*)gbuf + GBUF - (b + n) > 64 ? 64 : (unsigned char*)gbuf + GBUF - (b + n);
		memset(b - before, 0x5a, before);
		memset(b + n, 0x5a, after);
		u32 rh = ref_hash_u32((u32)o.u, b, n);
		u64 rw = ref_hash_u64(o.u, b, n);
		if (have_asan()) {
			/* whole granules before; the rest is found by the change of value */
			poison(b + n, after);
			unsigned char* e = (unsigned char*)((uintptr_t)b / 8 * 8);
			if (e > b - before)
				poison(b - before, e - (b - before));
		}
		u32 h = vs_hash_u32((u32)o.u, b, n);
		u64 w = vs_hash_u64(o.u, b, n);
		unpoison(b - before, before);
		unpoison(b + n, after);
		if (h != rh)
			fail(CAT_VALUE, "32 bit hash of %zu bytes at alignment %u, init %#x: %#x instead of %#x", n, (unsigned)((uintptr_t)b % 16), (u32)o.u, h, rh);
		if (w != rw)
			fail(CAT_VALUE, "64 bit hash of %zu bytes at alignment %u, init %#llx: %#llx instead of %#llx", n, (unsigned)((uintptr_t)b % 16), (unsigned long long)o.u, (unsigned long long)w, (unsigned long long)rw);
		memset(b - before, 0xa6, before);
		memset(b + n, 0xa6, after);
		if (vs_hash_u32((u32)o.u, b, n) != rh || vs_hash_u64(o.u, b, n) != rw)
			fail(CAT_VALUE, "the hash of %zu bytes depends on what is around them", n);
		STAT("ends at the end of accessible memory", place % 32 == 0 && place < 32);
		STAT("starts at the start of accessible memory", place == 32);
		STAT("unaligned", (uintptr_t)b % 4 != 0);
		STAT("more than 12 bytes", n > 12);
		STAT("multiple of 12", n && n % 12 == 0);
		STAT("empty", n == 0);
		STAT("more than 64 KiB", n > 65536);
		if (n > 2)
			big = true;
	}
	R.nontrivial = big;
}

static u64 init_value(Rng& r)
{
	switch (r.below(6)) {
	case 0 : return 0;
	case 1 : return ~0ull;
	case 2 : return r.next() & 0xffffffff;
	case 3 : return r.next() << 32;
	case 4 : return 1ull << r.below(64);
	}
	return r.next();
}

static void gen_hash(Rng& r, const GenCtx& g, Case& c)
{
	if (g.scale >= 2 && g.index >= 5 && g.index <= (g.thorough ? 12 : 7) && vs_size_bit == 64 && !have_asan()) {
		c.par["giant"] = (g.index == 6 ? 1ull << 31 : 1ull << 32) + r.scaled(g.index == 7 ? 1ull << 31 : 5000);
		c.par["init"] = r.next();
		return;
	}
	u64 m = 1 + r.below(24);
	while (m--) {
		u64 n;
		switch (r.below(9)) {
		case 6 : n = dict_size(r, 1 << 17); break;
		case 0 :
		case 1 :
		case 2 : n = r.below(50); break;
		case 3 : n = 12 * r.scaled(2000) + r.below(3); break;
		case 4 : n = r.scaled(100000); break;
		case 5 : n = (1ull << r.below(17)) + r.below(5) - 2; if (n > 1 << 20) n = 0; break;
		default : n = r.below(400);
		}
		if (r.below(400) == 0)
			n = r.scaled(g.scale >= 2 ? 40u << 20 : 1u << 20);
		u64 seed = r.next() >> 24 | r.below(8) << 40;
		c.ops.push_back(Op{ B_HASH, (uint8_t)(r.chance(1, 2) ? r.below(64) : r.chance(1, 2) ? 0 : 32), (u32)n, seed, init_value(r) });
	}
}

static void strhash_run(const Case& c)
{
	guard_setup();
	if (c.get("giant")) {
		giant_run(c, true);
		return;
	}
	bool some = false;
	for (size_t i = 0; i < c.ops.size(); ++i) {
		const Op& o = c.ops[i];
		R.op = i;
		size_t n = o.n;
		if (n > GBUF - 128)
			n = GBUF - 128;
		unsigned place = o.c % 64;
		unsigned char* b;
		if (place < 32)
			b = (unsigned char*)gbuf + GBUF - 1 - n - place;
		else
			b = (unsigned char*)gbuf + place - 32;
		content(b, n, o.k, (unsigned)(o.k >> 40));
		for (size_t j = 0; j < n; ++j)
			if (b[j] == 0)
				b[j] = 1 + (unsigned char)(j % 255);
		b[n] = 0;
		size_t before = (char*)b - gbuf > 64 ? 64 : (char*)b - gbuf;
		unsigned char* e = b + n + 1;
		size_t after = (unsigned char*)gbuf + GBUF - e > 64 ? 64 : (unsigned char*)gbuf + GBUF - e;
		memset(b - before, 0x5a, before);
		memset(e, 0x5a, after);
		u32 want = ref_strhash(o.u, b);
		if (have_asan())
			poison(e, after);
		u32 h = vs_strhash_u32(o.u, b);
		unpoison(e, after);
		if (h != want)
			fail(CAT_VALUE, "hash of a string of %zu bytes at alignment %u, init %#llx: %#x instead of %#x", n, (unsigned)((uintptr_t)b % 16), (unsigned long long)o.u, h, want);
		/* what comes after, in every way */
		static const unsigned char f[] = { 0, 0xff, 0x80, 1 };
		for (int k = 0; k < 4; ++k) {
			memset(e, f[k], after);
			memset(b - before, f[k], before);
			if (vs_strhash_u32(o.u, b) != want)
				fail(CAT_VALUE, "hash of a string of %zu bytes depends on what follows its terminator", n);
		}
		STAT("ends at the end of accessible memory", place == 0);
		STAT("unaligned", (uintptr_t)b % 4 != 0);
		STAT("multiple of 12", n && n % 12 == 0);
		STAT("multiple of 4", n && n % 4 == 0);
		STAT("empty", n == 0);
		STAT("more than 12 bytes", n > 12);
		STAT("more than 64 KiB", n > 65536);
		if (n > 2)
			some = true;
	}
	R.nontrivial = some;
}

/* ---- integer hashes ------------------------------------------------------------------------ */

enum { I_RANGE = 1, I_VAL64, I_VAL32 };

/* Thomas Wang's, as published, and its inverse */
static u64 wang64(u64 key)
{
	key = (~key) + (key << 21);
	key = key ^ (key >> 24);
	key = (key + (key << 3)) + (key << 8);
	key = key ^ (key >> 14);
	key = (key + (key << 2)) + (key << 4);
	key = key ^ (key >> 28);
	key = key + (key << 31);
	return key;
}

static u64 unxorshift(u64 v, int s)
{
	u64 x = v;
	for (int i = 0; i < 64 / s + 1; ++i)
		x = v ^ (x >> s);
	return x;
}

static u64 inv_odd(u64 a)
{
	u64 x = a;
	for (int i = 0; i < 6; ++i)
		x *= 2 - a * x;
	return x;
}

static u64 unwang64(u64 k)
{
	k *= inv_odd(1 + (1ull << 31));
	k = unxorshift(k, 28);
	k *= inv_odd(21);
	k = unxorshift(k, 14);
	k *= inv_odd(265);
	k = unxorshift(k, 24);
	/* ~key + (key << 21) = key * (2^21 - 1) - 1 */
	k = (k + 1) * inv_odd((1ull << 21) - 1);
	return k;
}

static u32 jenkins32(u32 a)
{
	a -= a << 6;
	a ^= a >> 17;
	a -= a << 9;
	a ^= a << 4;
	a -= a << 3;
	a ^= a << 10;
	a ^= a >> 15;
	return a;
}

static void check_int64(u64 v)
{
	u64 h = vs_inthash_u64(v);
	if (h != wang64(v))
		fail(CAT_VALUE, "64 bit hash of %#llx is %#llx instead of %#llx", (unsigned long long)v, (unsigned long long)h, (unsigned long long)wang64(v));
	if (unwang64(h) != v)
		fail(CAT_VALUE, "64 bit hash of %#llx does not reverse", (unsigned long long)v);
}

static void inthash_run(const Case& c)
{
	u64 values = 0;
	for (size_t i = 0; i < c.ops.size(); ++i) {
		const Op& o = c.ops[i];
		R.op = i;
		if (o.code == I_RANGE) {
			u64 from = o.k & 0xffffffff, len = o.n;
			if (from + len > 1ull << 32)
				len = (1ull << 32) - from;
			u64 bad = vs_range_u32(4, from, len);
			if (bad != from + len)
				fail(CAT_VALUE, "32 bit hash of %#llx is %#x instead of %#x", (unsigned long long)bad, vs_inthash_u32((u32)bad), jenkins32((u32)bad));
			values += len;
		} else if (o.code == I_VAL32) {
			if (vs_inthash_u32((u32)o.k) != jenkins32((u32)o.k))
				fail(CAT_VALUE, "32 bit hash of %#x is %#x instead of %#x", (u32)o.k, vs_inthash_u32((u32)o.k), jenkins32((u32)o.k));
			++values;
		} else {
			u64 v = o.k;
			u32 n = o.n ? o.n : 1;
			while (n--) {
				check_int64(v);
				/* all the bits of it, one at a time */
				v += o.u;
				++values;
			}
			for (int b = 0; b < 64; ++b)
				check_int64(o.k ^ (1ull << b));
		}
	}
	R.nontrivial = values > 1;
}

static u64 word_value(Rng& r)
{
	switch (r.below(7)) {
	case 0 : return r.next();
	case 1 : return (1ull << r.below(64)) + r.below(5) - 2;
	case 2 : return ~(1ull << r.below(64));
	case 3 : return r.scaled(~0ull);
	case 4 : return (r.next() >> r.below(64)) << r.below(64);
	case 5 : return g_dict.empty() ? 0 : g_dict[r.below(g_dict.size())] + r.below(3) - 1;
	}
	return (1ull << r.below(64)) | (1ull << r.below(64));
}

static void gen_inthash(Rng& r, const GenCtx& g, Case& c)
{
	/* the 32 bit values are all covered when the number of cases is 4096 */
	u64 len = (1ull << 32) / (g.total >= 4096 ? 4096 : g.total ? g.total : 1);
	if (g.scale < 2 && len > 1 << 18)
		len = 1 << 18; /* a sample */
	u64 step = (1ull << 32) / (g.total ? g.total : 1);
	if (g.total >= 4096)
		step = 1 << 20;
	if (g.index * step < 1ull << 32)
		c.ops.push_back(Op{ I_RANGE, 0, (u32)len, g.index * step, 0 });
	for (int i = 0; i < 60; ++i)
		c.ops.push_back(Op{ (uint8_t)(r.chance(1, 8) ? I_VAL32 : I_VAL64), 0, (u32)r.below(400), word_value(r), word_value(r) });
}

/* ---- bit primitives -------------------------------------------------------------------------- */

enum { P_ILOG2 = 1, P_CTZ, P_ROUNDUP, P_HASZERO, P_VAL };

static unsigned def_ilog2(u64 v)
{
	unsigned n = 0;
	while (v >>= 1)
		++n;
	return n;
}

static unsigned def_ctz(u64 v)
{
	unsigned n = 0;
	while (!(v & 1)) {
		v >>= 1;
		++n;
	}
	return n;
}

static void check_bits(u64 v)
{
	u32 w = (u32)v;
	int z = !(w & 0xff) || !(w & 0xff00) || !(w & 0xff0000) || !(w & 0xff000000);
	if ((vs_haszero_u32(w) != 0) != z)
		fail(CAT_VALUE, "zero-byte test of %#x is wrong", w);
	if (w && w <= 256 && !(w & (w - 1)) && vs_const_ilog2(w) != def_ilog2(w))
		fail(CAT_VALUE, "ILOG2 of the constant %u is %u", w, vs_const_ilog2(w));
	if (w) {
		if (vs_ilog2_u32(w) != def_ilog2(w))
			fail(CAT_VALUE, "ilog2_u32 of %#x is %u", w, vs_ilog2_u32(w));
		if (vs_ctz_u32(w) != def_ctz(w))
			fail(CAT_VALUE, "ctz_u32 of %#x is %u", w, vs_ctz_u32(w));
		if (w <= 0x80000000u) {
			u64 p = 1;
			while (p < w)
				p <<= 1;
			if (vs_roundup_pow2_u32(w) != p)
				fail(CAT_VALUE, "roundup_pow2_u32 of %#x is %#x", w, vs_roundup_pow2_u32(w));
		}
	}
	if (v && v <= 1ull << 63) {
		u64 p = 1;
		while (p < v)
			p <<= 1;
		if (vs_roundup_pow2_u64(v) != p)
			fail(CAT_VALUE, "roundup_pow2_u64 of %#llx is %#llx", (unsigned long long)v, (unsigned long long)vs_roundup_pow2_u64(v));
	}
	if (v && vs_size_bit == 64) {
		if (vs_ilog2_u64(v) != def_ilog2(v))
			fail(CAT_VALUE, "ilog2_u64 of %#llx is %u", (unsigned long long)v, vs_ilog2_u64(v));
		if (vs_ctz_u64(v) != def_ctz(v))
			fail(CAT_VALUE, "ctz_u64 of %#llx is %u", (unsigned long long)v, vs_ctz_u64(v));
	}
	size_t s = (size_t)v;
	if (s) {
		if (vs_ilog2(s) != def_ilog2(s))
			fail(CAT_VALUE, "ilog2 of %#zx is %u", s, vs_ilog2(s));
		if (vs_ctz(s) != def_ctz(s))
			fail(CAT_VALUE, "ctz of %#zx is %u", s, vs_ctz(s));
		size_t top = (size_t)1 << (vs_size_bit - 1);
		if (s <= top) {
			size_t p = 1;
			while (p < s)
				p <<= 1;
			if (vs_roundup_pow2(s) != p)
				fail(CAT_VALUE, "roundup_pow2 of %#zx is %#zx", s, vs_roundup_pow2(s));
		}
	}
}

static void bits_run(const Case& c)
{
	u64 values = 0;
	for (size_t i = 0; i < c.ops.size(); ++i) {
		const Op& o = c.ops[i];
		R.op = i;
		if (o.code == P_VAL) {
			u64 v = o.k;
			u32 n = o.n ? o.n : 1;
			while (n--) {
				check_bits(v);
				v += o.u;
				++values;
			}
		} else if (o.code >= P_ILOG2 && o.code <= P_HASZERO) {
			u64 from = o.k & 0xffffffff, len = o.n;
			if (from + len > 1ull << 32)
				len = (1ull << 32) - from;
			u64 bad = vs_range_u32(o.code - 1, from, len);
			if (bad != from + len) {
				static const char* nm[] = { "ilog2_u32", "ctz_u32", "roundup_pow2_u32", "the zero-byte test" };
				fail(CAT_VALUE, "%s of %#llx is wrong", nm[o.code - 1], (unsigned long long)bad);
			}
			values += len;
		}
	}
	R.nontrivial = values > 1;
}

static void gen_bits(Rng& r, const GenCtx& g, Case& c)
{
	u64 len = (1ull << 32) / (g.total >= 4096 ? 4096 : g.total ? g.total : 1);
	if (g.scale < 2 && len > 1 << 16)
		len = 1 << 16;
	u64 step = (1ull << 32) / (g.total ? g.total : 1);
	if (g.total >= 4096)
		step = 1 << 20;
	if (g.index * step < 1ull << 32)
		for (int f = P_ILOG2; f <= P_HASZERO; ++f)
			c.ops.push_back(Op{ (uint8_t)f, 0, (u32)len, g.index * step, 0 });
	/* around every power of two, once */
	for (int i = 0; i < 64; ++i)
		if (g.index % 8 == (u64)i % 8)
			c.ops.push_back(Op{ P_VAL, 0, 64, (1ull << i) - 32, 1 });
	for (int i = 0; i < 300; ++i)
		c.ops.push_back(Op{ P_VAL, 0, (u32)r.below(20), word_value(r), r.chance(1, 2) ? 1 : word_value(r) });
}

/* ---- tables ---------------------------------------------------------------------------------- */

#define G(n) void gen_##n(Rng&, const GenCtx&, Case&);
G(hashtable) G(hashdyn) G(hashlin) G(trie) G(trieinp) G(tree) G(list) G(alloc) G(array) G(arrayblk)
G(any) G(tries) G(osc) G(osclin) G(iter) G(dup) G(query) G(readd) G(mixed) G(nested) G(threads) G(cost) G(hashes) G(growth) G(sizes) G(bigtable)
G(vtable) G(vdyn) G(vlin) G(vtrie) G(vinp) G(vtree) G(vlist) G(varray) G(vblk) G(valloc) G(vany) G(vhash)
void threads_run(const Case&);
void cost_run(const Case&);
void vast_run(const Case&);
#undef G

const Module modules[] = {
	{ "hashtable", gen_hashtable, world_run },
	{ "bigtable", gen_bigtable, world_run },
	{ "hashdyn", gen_hashdyn, world_run },
	{ "hashlin", gen_hashlin, world_run },
	{ "trie", gen_trie, world_run },
	{ "trieinp", gen_trieinp, world_run },
	{ "tree", gen_tree, world_run },
	{ "list", gen_list, world_run },
	{ "alloc", gen_alloc, world_run },
	{ "array", gen_array, world_run },
	{ "arrayblk", gen_arrayblk, world_run },
	{ "any", gen_any, world_run },
	{ "tries", gen_tries, world_run },
	{ "osc", gen_osc, world_run },
	{ "osclin", gen_osclin, world_run },
	{ "iter", gen_iter, world_run },
	{ "dup", gen_dup, world_run },
	{ "query", gen_query, world_run },
	{ "readd", gen_readd, world_run },
	{ "mixed", gen_mixed, world_run },
	{ "hashes", gen_hashes, world_run },
	{ "growth", gen_growth, world_run },
	{ "sizes", gen_sizes, world_run },
	{ "nested", gen_nested, world_run },
	{ "threads", gen_threads, threads_run },
	{ "cost", gen_cost, cost_run },
	{ "vtable", gen_vtable, vast_run },
	{ "vdyn", gen_vdyn, vast_run },
	{ "vlin", gen_vlin, vast_run },
	{ "vtrie", gen_vtrie, vast_run },
	{ "vinp", gen_vinp, vast_run },
	{ "vtree", gen_vtree, vast_run },
	{ "vlist", gen_vlist, vast_run },
	{ "varray", gen_varray, vast_run },
	{ "vblk", gen_vblk, vast_run },
	{ "valloc", gen_valloc, vast_run },
	{ "vany", gen_vany, vast_run },
	{ "vhash", gen_vhash, vast_run },
	{ "sort", gen_sort, sort_run },
	{ "avl", gen_avl, avl_run },
	{ "lin", gen_lin, lin_run },
	{ "alias", gen_alias, alias_run },
	{ "hash", gen_hash, hash_run },
	{ "strhash", gen_hash, strhash_run },
	{ "inthash", gen_inthash, inthash_run },
	{ "bits", gen_bits, bits_run },
	{ 0, 0, 0 }
};

#define CONTENT (CAT_RES | CAT_ORDER | CAT_COUNT | CAT_LINKS | CAT_OVER | CAT_CRASH)

const PropInfo props[] = {
	{ "C01", CONTENT },
	{ "C02", CONTENT },
	{ "C03", CONTENT },
	{ "C04", CONTENT },
	{ "C05", CONTENT },
	{ "C06", CONTENT | CAT_ITER },
	{ "C07", CONTENT | CAT_ITER },
	{ "C08", CAT_SORT | CAT_LINKS | CAT_RES | CAT_OVER | CAT_CRASH },
	{ "C09", CAT_ARRAY | CAT_OVER | CAT_CRASH },
	{ "C10", CAT_ARRAY | CAT_OVER | CAT_CRASH },
	{ "C11", CAT_BLOCK | CAT_OVER | CAT_HEAP | CAT_CRASH },
	{ "C12", CAT_VALUE | CAT_CRASH },
	{ "C13", CAT_VALUE | CAT_CRASH },
	{ "C14", CAT_VALUE | CAT_CRASH },
	{ "C15", CAT_VALUE | CAT_CRASH },
	{ "C16", CAT_CMP | CAT_CRASH },
	{ "C17", CAT_CMP | CAT_CRASH },
	{ "C18", CAT_LOAD | CAT_CRASH },
	{ "C19", CAT_WORK | CAT_CRASH },
	{ "C20", CAT_MEM | CAT_CRASH },
	{ "C21", CAT_HEAP | CAT_OVER | CAT_TOUCH | CAT_CRASH },
	{ "C22", CAT_ITER | CAT_CRASH },
	{ "C23", CONTENT | CAT_ITER | CAT_ARRAY | CAT_BLOCK | CAT_SORT },
	{ "C24", CAT_ALL & ~CAT_QUERY },
	{ "C25", CONTENT | CAT_HEAP | CAT_MEM },
	{ "C26", CAT_QUERY | CAT_CRASH },
	{ "C27", CAT_ORDER | CAT_RES | CAT_CRASH },
	{ "C29", CAT_SELECT | CAT_LINKS | CAT_CRASH },
	{ "C30", CAT_ALL },
	{ "C31", CAT_AMORT | CAT_CRASH },
	{ "C33", CAT_ALL & ~(CAT_QUERY | CAT_WORK | CAT_COST | CAT_STACK) },
	{ "C34", CAT_STACK | CAT_CRASH },
	{ "C32", CAT_COST | CAT_CRASH },
	{ "C28", CAT_TOUCH | CAT_RES | CAT_COUNT | CAT_OVER | CAT_CRASH },
	{ 0, 0 }
};

const char* op_name(const std::string& gen, int code)
{
	static const char* world[] = { "", "insert", "insert at head", "insert an object that is elsewhere too", "remove by key", "remove by key of a held element", "remove a held element", "remove one of the equal elements", "search", "search a held key", "bucket", "bucket of a held key", "iterate", "iterate freeing, start again", "deinitialise, start again", "check all", "concatenate", "sort", "search with a sub-order", "all the queries", "grow", "set", "get", "append", "allocate", "free", "remove and reinsert" };
	static const char* srt[] = { "", "value", "run of values" };
	static const char* avl[] = { "", "insert", "remove", "remove existing near", "remove near" };
	static const char* lin[] = { "", "insert", "remove", "query", "insert random keys" };
	static const char* als[] = { "", "insert", "remove a held node", "remove by key", "search", "iterate", "deinitialise, start again" };
	static const char* ih[] = { "", "range of 32 bit values", "64 bit values", "32 bit value" };
	static const char* bt[] = { "", "ilog2 range", "ctz range", "roundup range", "haszero range", "values" };
	const char** t = world;
	int n = sizeof(world) / sizeof(world[0]);
	static const char* thr[] = { "", "insert", "remove", "search", "bucket", "iterate", "order", "count or start again" };
	static const char* cst[] = { "", "insert", "insert at head", "remove existing", "remove by key", "search", "search of a missing key", "bucket", "foreach", "count and memory usage", "sort", "concat", "deinitialise, start again", "grow", "get, set, ref", "alloc", "free", "hash" };
	static const char* vst[] = { "", "insert n (allocate, append)", "remove n (free, write)", "insert or remove up to n (grow)", "search n", "check all", "iterate", "sort", "concatenate n", "deinitialise, start again", "insert and remove, n times", "every operation at each count up or down to n", "build up to each count from n, deinitialise" };
	if (gen[0] == 'v') t = vst, n = 13;
	else if (gen == "cost") t = cst, n = 18;
	else if (gen == "sort") t = srt, n = 3;
	else if (gen == "threads") t = thr, n = 8;
	else if (gen == "avl") t = avl, n = 5;
	else if (gen == "lin") t = lin, n = 5;
	else if (gen == "alias") t = als, n = 7;
	else if (gen == "inthash") t = ih, n = 4;
	else if (gen == "bits") t = bt, n = 6;
	else if (gen == "hash" || gen == "strhash") return "hash of n bytes";
	return code >= 0 && code < n ? t[code] : "?";
}
