/*
 * The work of each operation, counted in basic blocks executed by the library
 * (and 32 bytes set or copied), against the documented cost. The library is
 * built with -fsanitize-coverage=trace-pc for this; without it nothing is
 * counted and nothing is checked.
 *
 * The constants are several times what the library needs: only a different
 * dependency on the number of elements is a failure.
 */
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unordered_map>

static u64 steps;

/* the stack that the library uses (C34), from the frame that calls it */
static char* stack_base;
static char* stack_low;
static const size_t STACK_MAX = 16384;

static void too_deep(size_t n);

extern "C" {
void vh_trace_pc(void)
{
	++steps;
	char* p = (char*)__builtin_frame_address(0);
	if (p < stack_low) {
		stack_low = p;
		if (stack_base && (size_t)(stack_base - p) > STACK_MAX)
			too_deep(stack_base - p);
	}
}
void* vh_cost_memset(void* d, int c, size_t n) { steps += n / 32; return memset(d, c, n); }
void* vh_cost_memcpy(void* d, const void* s, size_t n) { steps += n / 32; return memcpy(d, s, n); }
void* vh_cost_memmove(void* d, const void* s, size_t n) { steps += n / 32; return memmove(d, s, n); }
size_t vh_cost_strlen(const char* s) { size_t n = strlen(s); steps += n / 8; return n; }
}

enum { O_INS = 1, O_HEAD, O_REMNODE, O_REMKEY, O_FIND, O_MISS, O_BUCKET, O_EACH, O_QUERY, O_SORT, O_CONCAT, O_RESTART, O_GROW, O_GET, O_ALLOC, O_FREE, O_HASH, O_MAX };

static const char* const onames[O_MAX] = { "", "insert", "insert at head", "remove existing", "remove by key", "search", "search of a missing key", "bucket", "foreach", "count and memory usage", "sort", "concat", "deinit and init", "grow", "get, set, ref", "alloc", "free", "hash" };

struct CN {
	u64 key, user;
	u64 at;
	union {
		char node[160];
		void* align;
	};
};

struct Cost {
	int kind;
	char* c;
	char* c2; /* another list */
	char* a; /* allocator of the trie */
	std::vector<CN*> held;
	std::vector<CN*> pool;
	std::vector<void*> blocks;
	u64 total, ops; /* of the insertions and removals */
	u64 size; /* of an array */
	bool spread; /* keys are 0..n-1 */
	u64 serial;
	u64 mask;
	u64 bs, al;
	u64 peak;
};

static Cost* X;
static const Op* now_op;

static void too_deep(size_t n)
{
	stack_base = 0;
	fail(CAT_STACK, "%s: %s uses %zu bytes of stack and more with %zu elements: at most %zu expected", X ? kind_name(X->kind) : "", now_op ? onames[now_op->code % O_MAX] : "", n, X ? X->held.size() : 0, STACK_MAX);
}

static double worst[K_MAX + 2][O_MAX];
static FILE* stats;

static void worse(int k, int op, u64 used, double bound, u64 n)
{
	if (used / bound <= worst[k][op])
		return;
	worst[k][op] = used / bound;
	fprintf(stats, "%-12s %-24s %6.3f of the bound (%llu steps, %llu)\n", k < K_MAX ? kind_name(k) : k == K_MAX ? "hash" : "amortised", onames[op], worst[k][op], (unsigned long long)used, (unsigned long long)n);
	fflush(stats);
}

static void verify(int op, u64 used, double bound, const char* what)
{
	int k = op == O_HASH ? K_MAX : X->kind;
	if (stats)
		worse(k, op, used, bound, X->held.size());
	if (used > bound)
		fail(CAT_COST, "%s: %s took %llu steps with %zu elements: at most %.0f expected (%s)", k < K_MAX ? kind_name(k) : "hash", onames[op], (unsigned long long)used, X->held.size(), bound, what);
}

/* zeroing what is allocated is always right */
static double zeroing(u64 before) { return (heap_plain_bytes - before) / (X->kind == K_HASHLIN ? 16.0 : 0.25); }

static double lg(double n) { double r = 0; while (n > 1) n /= 2, ++r; return r; }

static int cmp_tree(const void* a, const void* b)
{
	u64 x = ((const CN*)a)->key, y = ((const CN*)b)->key;
	return x < y ? -1 : x > y;
}

static int cmp_user(const void* arg, const void* obj)
{
	return *(const u64*)arg != ((const CN*)obj)->user;
}

static void each(void*) {}
static void each_arg(void*, void*) {}

static const double K = 400; /* constant */
static const double KT = 3000; /* constant for tries: levels by branches, and a segment of the allocator */

static CN* fresh(u64 key)
{
	CN* n;
	if (X->pool.empty()) {
		n = (CN*)malloc(sizeof(CN));
	} else {
		n = X->pool.back();
		X->pool.pop_back();
	}
	n->key = key;
	n->user = ++X->serial;
	return n;
}

static void hold(CN* n)
{
	n->at = X->held.size();
	X->held.push_back(n);
	if (X->held.size() > X->peak)
		X->peak = X->held.size();
}

static void drop(CN* n)
{
	X->held[n->at] = X->held.back();
	X->held[n->at]->at = n->at;
	X->held.pop_back();
	X->pool.push_back(n);
}

static bool is_hash(int k) { return k == K_HASHTABLE || k == K_HASHDYN || k == K_HASHLIN; }
static bool is_trie(int k) { return k == K_TRIE || k == K_TRIEINP; }
static bool is_array(int k) { return k >= K_ARRAY && k <= K_ARRAYBLKOF; }

static void start(u64 p)
{
	int k = X->kind;
	u64 b = heap_plain_bytes;
	if (k == K_TRIE) {
		vs_init(K_ALLOC, X->a, vs_trie_block_size(), vs_trie_block_size(), 0, 0);
		steps = 0;
		vs_init(k, X->c, 0, 0, X->a, 0);
	} else {
		steps = 0;
		if (k == K_ALLOC)
			vs_init(k, X->c, X->bs, X->al, 0, 0);
		else if (is_array(k))
			vs_init(k, X->c, X->bs, 0, 0, 0);
		else
			vs_init(k, X->c, p, 0, 0, cmp_tree);
	}
	verify(O_RESTART, steps, K + zeroing(b), "init does not depend on anything but the memory it allocates");
	if (k == K_LIST)
		vs_init(k, X->c2, 0, 0, 0, 0);
	X->total = X->ops = 0;
	X->size = 0;
	X->peak = 0;
	X->spread = true;
}

static double done_bound()
{
	int k = X->kind;
	if (k == K_ARRAYBLK || k == K_ARRAYBLKOF)
		return K + X->size / 100.0;
	if (k == K_ALLOC)
		return K + 10.0 * X->peak;
	return K;
}

static void stop()
{
	int k = X->kind;
	if (k != K_TRIE && k != K_TRIEINP && k != K_TREE && k != K_LIST) {
		steps = 0;
		vs_done(k, X->c);
		verify(O_RESTART, steps, done_bound(), "deinit frees the segments");
	}
	if (k == K_TRIE)
		vs_done(K_ALLOC, X->a);
	while (!X->held.empty())
		drop(X->held.back());
	X->blocks.clear();
}

/* in total, since the start */
static void amortised(int op, double per)
{
	double bound = 2000 + per * X->ops;
	if (stats)
		worse(K_MAX + 1, op, X->total, bound, X->kind);
	if (X->total > bound)
		fail(CAT_COST, "%s: %llu insertions and removals took %llu steps in all: at most %.0f expected", kind_name(X->kind), (unsigned long long)X->ops, (unsigned long long)X->total, bound);
}

/* insertion and removal, once found */
static void change(int op, u64 used, u64 bytes)
{
	int k = X->kind;
	double n = X->held.size() + 1;
	X->total += used;
	++X->ops;
	switch (k) {
	case K_HASHTABLE :
	case K_LIST :
		verify(op, used, K, "constant");
		break;
	case K_HASHDYN :
		verify(op, used, K + zeroing(bytes) + 40 * n + vs_memory_usage(k, X->c) / 2, "a resize at most");
		amortised(op, 200);
		break;
	case K_HASHLIN :
		if (X->spread)
			verify(op, used, K + zeroing(bytes), "constant with different hashes");
		else
			verify(op, used, K + zeroing(bytes) + 40 * n, "some buckets at most");
		amortised(op, 200);
		break;
	case K_TRIE :
	case K_TRIEINP :
		verify(op, used, KT, "the levels of the trie");
		break;
	case K_TREE :
		/* a removal can rotate a height of nodes at each level */
		verify(op, used, K + 100 * lg(n) * (op == O_INS ? 1 : lg(n)), "the height of the tree");
		break;
	}
}

static u64 key_of(const Op& o, u64 i)
{
	u64 v;
	switch (o.c % 8) {
	case 0 : v = X->serial; break; /* all different */
	case 1 : v = mix64(o.k + i); break;
	case 2 : v = o.k + mix64(o.u + i) % (1 + o.u % 7); break; /* few */
	case 3 : v = o.k; break; /* one */
	case 4 : v = X->serial << (o.u % 24); break;
	case 5 : v = o.k ^ (1ull << (mix64(o.u + i) % 32)); break; /* neighbours in the trie */
	case 6 : v = ~X->serial; break;
	default : v = mix64(o.k + i) % (1 + o.u % 1000); break;
	}
	return v & X->mask;
}

/* how many elements are looked at to get to the one searched */
static u64 place(u64 key, const u64* user)
{
	int k = X->kind;
	u64 n = 0;
	for (void* p = vs_bucket(k, X->c, key); p; p = vs_node_next(k, p)) {
		++n;
		if (user && *user == ((CN*)vs_node_data(k, p))->user && vs_node_key(k, p) == key)
			break;
	}
	return n;
}

static void do_op(const Op& o)
{
	int k = X->kind;
	void* c = X->c;
	u64 cap = R.thorough ? 1 << 20 : 1 << 17;
	u64 count = o.n;
	u64 b;
	switch (o.code) {
	case O_INS :
	case O_HEAD :
		if (is_array(k) || k == K_ALLOC || (o.code == O_HEAD && k != K_LIST))
			return;
		if (o.c % 8 != 0 && o.c % 8 != 6 && count)
			X->spread = false;
		for (u64 i = 0; i < count && X->held.size() < cap; ++i) {
			CN* n = fresh(0);
			n->key = key_of(o, i);
			b = heap_plain_bytes;
			steps = 0;
			void* got = n;
			if (o.code == O_HEAD)
				vs_list_insert_head(c, n->node, n);
			else if (k == K_TREE)
				got = vs_insert(k, c, n->node, n, n->key);
			else
				vs_insert(k, c, n->node, n, n->key);
			u64 used = steps;
			if (got != n)
				X->pool.push_back(n);
			else
				hold(n);
			change(o.code, used, b);
		}
		return;
	case O_REMNODE :
	case O_REMKEY :
		if (is_array(k) || k == K_ALLOC || (o.code == O_REMKEY && k == K_LIST))
			return;
		if (o.code == O_REMKEY && count > 64 && !X->spread)
			count = 64;
		for (u64 i = 0; i < count && !X->held.empty(); ++i) {
			u64 at = o.c % 3 == 0 ? X->held.size() - 1 : o.c % 3 == 1 ? 0 : mix64(o.u + i) % X->held.size();
			CN* n = X->held[at];
			u64 before = 0;
			CN probe;
			probe.key = n->key;
			if (o.code == O_REMKEY && is_hash(k))
				before = place(n->key, &n->user);
			b = heap_plain_bytes;
			steps = 0;
			void* got;
			if (o.code == O_REMNODE)
				got = vs_remove_existing(k, c, n->node);
			else
				got = vs_remove(k, c, cmp_user, k == K_TREE ? (void*)&probe : (void*)&n->user, n->key);
			u64 used = steps;
			if (!got)
				fail(CAT_RES, "%s: a held element is not removed", kind_name(k));
			drop((CN*)got);
			/* what it costs to find it is not part of the total */
			u64 find = 40 * before;
			change(o.code, used < find ? 0 : used - find, b);
		}
		return;
	case O_FIND :
	case O_MISS :
		if (is_array(k) || k == K_ALLOC || k == K_LIST)
			return;
		for (u64 i = 0; i < (count > 64 ? 64 : count) && !X->held.empty(); ++i) {
			CN* n = X->held[mix64(o.u + i) % X->held.size()];
			CN probe;
			u64 user = o.code == O_FIND ? n->user : 0;
			probe.key = o.code == O_FIND || (i & 1) ? n->key : key_of(o, i);
			double bound = K;
			if (is_hash(k))
				bound += 40 * place(probe.key, &user);
			else if (k == K_TREE)
				bound += 100 * lg(X->held.size() + 1);
			steps = 0;
			vs_search(k, c, cmp_user, k == K_TREE ? (void*)&probe : (void*)&user, probe.key);
			verify(o.code, steps, bound, is_hash(k) ? "the elements of the bucket up to the one found" : "the height");
			if (k == K_TREE) {
				steps = 0;
				vs_tree_search_compare(c, cmp_tree, &probe);
				verify(o.code, steps, bound, "the height");
			}
		}
		return;
	case O_BUCKET :
		if (!is_hash(k) && !is_trie(k))
			return;
		for (u64 i = 0; i < (count > 64 ? 64 : count); ++i) {
			u64 key = !X->held.empty() && (i & 1) ? X->held[mix64(o.u + i) % X->held.size()]->key : key_of(o, i);
			steps = 0;
			vs_bucket(k, c, key);
			verify(O_BUCKET, steps, K, "constant");
		}
		return;
	case O_EACH :
		if (is_array(k) || k == K_ALLOC || is_trie(k))
			return;
		for (int i = 0; i < 2; ++i) {
			double bound = K + 40.0 * X->held.size();
			if (is_hash(k))
				bound += vs_memory_usage(k, c) * 3; /* the buckets */
			steps = 0;
			if (i)
				vs_foreach(k, c, each);
			else
				vs_foreach_arg(k, c, each_arg, 0);
			verify(O_EACH, steps, bound, "elements and buckets");
		}
		return;
	case O_QUERY :
		if (k != K_LIST) {
			steps = 0;
			vs_memory_usage(k, c);
			if (is_array(k))
				vs_array_size(k, c);
			else if (k != K_ALLOC)
				vs_count(k, c);
			verify(O_QUERY, steps, K, "constant");
		} else {
			steps = 0;
			vs_count(k, c);
			verify(O_QUERY, steps, K + 40.0 * X->held.size(), "linear");
			steps = 0;
			vs_list_head(c);
			vs_list_tail(c);
			vs_list_empty(c);
			verify(O_QUERY, steps, K, "constant");
		}
		return;
	case O_SORT :
		if (k != K_LIST)
			return;
		{
			double n = X->held.size();
			steps = 0;
			vs_list_sort(c, cmp_tree);
			verify(O_SORT, steps, 2000 + 60 * n * (lg(n) + 1), "N log N");
		}
		return;
	case O_CONCAT :
		if (k != K_LIST)
			return;
		for (u64 i = 0; i < count && X->held.size() < cap; ++i) {
			CN* n = fresh(key_of(o, i));
			vs_insert(k, X->c2, n->node, n, 0);
			hold(n);
		}
		steps = 0;
		if (o.c & 8)
			vs_list_concat(c, X->c2);
		else
			vs_list_concat(X->c2, c);
		verify(O_CONCAT, steps, K, "constant");
		if (!(o.c & 8))
			std::swap(X->c, X->c2);
		vs_init(k, X->c2, 0, 0, 0, 0);
		return;
	case O_RESTART :
		stop();
		start(k == K_HASHTABLE ? o.u % 5000 : 0);
		return;
	case O_GROW :
		if (!is_array(k))
			return;
		{
			bool ptr = k == K_ARRAY || k == K_ARRAYBLK;
			/* what can be had in the address space */
			u64 top = cap * 4, room = (vs_size_bit == 64 ? 4ull << 30 : 200u << 20) / (ptr ? 8 : X->bs + 1);
			if (top > room)
				top = room;
			u64 to = (o.c & 1) ? o.k % top : X->size + 1;
			u64 times = (o.c & 1) ? 1 : count;
			for (u64 i = 0; i < times && X->size < top; ++i) {
				b = heap_plain_bytes;
				steps = 0;
				if (ptr && !(o.c & 1)) {
					vs_array_insert(k, c, X);
					++X->size;
				} else {
					vs_array_grow(k, c, to);
					if (X->size < to)
						X->size = to;
					to = X->size + 1;
				}
				verify(O_GROW, steps, 2 * K + zeroing(b), "what it allocates");
				X->total += steps;
				++X->ops;
			}
		}
		return;
	case O_GET :
		if (!is_array(k))
			return;
		for (u64 i = 0; i < (count > 64 ? 64 : count) && X->size; ++i) {
			u64 pos = mix64(o.u + i) % X->size;
			steps = 0;
			if (k == K_ARRAY || k == K_ARRAYBLK) {
				vs_array_set(k, c, pos, X);
				vs_array_get(k, c, pos);
			}
			vs_array_ref(k, c, pos);
			verify(O_GET, steps, K, "constant");
		}
		return;
	case O_ALLOC :
		if (k != K_ALLOC)
			return;
		if (cap > (vs_size_bit == 64 ? 6ull << 30 : 400u << 20) / (4 * X->bs + 2 * X->al + 64))
			cap = (vs_size_bit == 64 ? 6ull << 30 : 400u << 20) / (4 * X->bs + 2 * X->al + 64);
		for (u64 i = 0; i < count && X->blocks.size() < cap; ++i) {
			steps = 0;
			X->blocks.push_back(vs_alloc(c));
			u64 used = steps;
			if (X->blocks.size() > X->peak)
				X->peak = X->blocks.size();
			verify(O_ALLOC, used, KT + 2 * K, "one more segment at most");
			X->total += used;
			++X->ops;
			/* a segment for every few */
			amortised(O_ALLOC, K);
		}
		return;
	case O_FREE :
		if (k != K_ALLOC)
			return;
		for (u64 i = 0; i < count && !X->blocks.empty(); ++i) {
			u64 at = o.c % 3 == 0 ? X->blocks.size() - 1 : mix64(o.u + i) % X->blocks.size();
			void* p = X->blocks[at];
			X->blocks[at] = X->blocks.back();
			X->blocks.pop_back();
			steps = 0;
			vs_free(c, p);
			verify(O_FREE, steps, K, "constant");
			++X->ops;
		}
		return;
	case O_HASH :
		{
			u64 len = o.n % 100000;
			std::vector<char> buf(len + 32);
			char* p = buf.data() + o.u % 16;
			for (u64 i = 0; i < len; ++i)
				p[i] = 1 + (mix64(o.k + i) & 0x7f);
			p[len] = 0;
			double bound = K + 6.0 * len;
			steps = 0;
			vs_hash_u32(o.k, p, len);
			verify(O_HASH, steps, bound, "tommy_hash_u32: the length");
			steps = 0;
			vs_hash_u64(o.k, p, len);
			verify(O_HASH, steps, bound, "tommy_hash_u64: the length");
			steps = 0;
			vs_strhash_u32(o.k, p);
			verify(O_HASH, steps, bound, "tommy_strhash_u32: the length");
			u64 v = o.k | 1;
			steps = 0;
			vs_inthash_u32(v);
			vs_inthash_u64(v);
			vs_ilog2(v);
			vs_ctz(v << (o.u & 31));
			vs_roundup_pow2_u32(v & 0x7fffffff);
			vs_roundup_pow2_u64(v >> 1);
			verify(O_HASH, steps, 3 * K, "bit functions");
		}
		return;
	}
}

void cost_run(const Case& c)
{
	static bool once;
	if (!once) {
		once = true;
		stats = getenv("VH_COSTSTAT") ? fopen(getenv("VH_COSTSTAT"), "a") : 0;
	}
	heap_reset(1);
	heap_plain = true;
	Cost x;
	X = &x;
	x.kind = c.get("kind") % K_MAX;
	x.serial = 0;
	x.bs = c.get("block", 16) % 8192;
	if (x.bs < 8)
		x.bs = 8;
	x.al = (u64)1 << c.get("align", 3) % 8;
	x.mask = is_trie(x.kind) ? ((x.kind == K_TRIE ? vs_trie_bit : vs_trieinp_bit) >= 64 ? ~0ull : (1ull << (x.kind == K_TRIE ? vs_trie_bit : vs_trieinp_bit)) - 1) : ~0ull;
	if (vs_size_bit == 32)
		x.mask &= 0xffffffffu;
	/* whatever a broken library does, the memory is not the harness's problem */
	x.c = (char*)calloc(1, vs_sizeof(x.kind));
	x.c2 = (char*)calloc(1, vs_sizeof(x.kind));
	x.a = (char*)calloc(1, vs_sizeof(K_ALLOC));
	u64 all = 0;
	start(c.get("size"));
	stack_base = (char*)__builtin_frame_address(0);
	stack_low = stack_base;
	for (auto& o : c.ops) {
		++R.op;
		now_op = &o;
		do_op(o);
		all += X->ops;
	}
	stop();
	if (stats)
		fprintf(stats, "stack %zu\n", (size_t)(stack_base - stack_low));
	stack_base = 0;
	now_op = 0;
	u64 seen = steps;
	for (CN* n : x.pool)
		free(n);
	free(x.c);
	free(x.c2);
	free(x.a);
	heap_plain = false;
	X = 0;
	STAT("cost: instrumented", seen > 0);
	STAT("cost: reached 1000 elements", x.peak >= 1000);
	STAT("cost: reached 20000 elements", x.peak >= 20000);
	R.nontrivial = x.peak >= 16 || x.size >= 16 || c.ops.size() >= 4;
	(void)all;
}
