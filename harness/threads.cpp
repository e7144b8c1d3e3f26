/*
 * Programs run by several threads at once, each on containers of its own. The
 * oracle is the same program run alone: every result must be the same.
 */
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <atomic>

enum { T_INS = 1, T_REM, T_FIND, T_BUCKET, T_EACH, T_ORDER, T_MISC };

struct TN {
	u64 key, user;
	u64 at; /* position in held */
	union {
		char node[160];
		void* align;
	};
};

struct Ctx {
	char* cont[K_MAX];
	std::vector<TN*> held[K_MAX];
	std::vector<char*> blocks;
	u64 asize[K_MAX];
	std::vector<u64>* out;
	u64 acc, calls;
	u64 mask;
	u64 shift;
};

static const size_t ELEM = 12, BLOCK = 40;

static int tree_cmp(const void* a, const void* b)
{
	u64 x = ((const TN*)a)->key, y = ((const TN*)b)->key;
	return x < y ? -1 : x > y;
}

static int coarse_cmp(const void* a, const void* b)
{
	u64 x = ((const TN*)a)->key >> 5, y = ((const TN*)b)->key >> 5;
	return x < y ? -1 : x > y;
}

static int user_cmp(const void* arg, const void* obj)
{
	return ((*(const u64*)arg ^ ((const TN*)obj)->user) & 3) != 0;
}

static void acc_each(void* arg, void* data)
{
	Ctx* c = (Ctx*)arg;
	c->acc = mix64(c->acc ^ ((TN*)data)->user);
	++c->calls;
}

static void ctx_init(Ctx& c, int kind)
{
	if (!c.cont[kind])
		c.cont[kind] = (char*)malloc(vs_sizeof(kind));
	if (kind == K_TRIE)
		return; /* with its allocator */
	if (kind == K_ALLOC) {
		/* the one of the trie too */
		size_t b = vs_trie_block_size();
		vs_init(K_ALLOC, c.cont[kind], b, b, 0, 0);
		if (!c.cont[K_TRIE])
			c.cont[K_TRIE] = (char*)malloc(vs_sizeof(K_TRIE));
		vs_init(K_TRIE, c.cont[K_TRIE], 0, 0, c.cont[kind], 0);
		return;
	}
	vs_init(kind, c.cont[kind], kind == K_HASHTABLE ? 20 : ELEM, BLOCK, 0, tree_cmp);
	c.asize[kind] = 0;
}

static void ctx_done(Ctx& c, int kind)
{
	if (kind == K_TRIE)
		return;
	vs_done(kind, c.cont[kind]);
	for (TN* n : c.held[kind])
		free(n);
	c.held[kind].clear();
	if (kind == K_ALLOC) {
		c.blocks.clear();
		for (TN* n : c.held[K_TRIE])
			free(n);
		c.held[K_TRIE].clear();
	}
}

static void drop(Ctx& c, int kind, TN* n)
{
	c.held[kind][n->at] = c.held[kind].back();
	c.held[kind][n->at]->at = n->at;
	c.held[kind].pop_back();
	memset((void*)n, 0xb7, sizeof(TN));
	free(n);
}

static u64 val(const void* p) { return p ? ((const TN*)p)->user : 0; }

static void step(Ctx& c, const Op& o)
{
	int kind = o.n % (K_MAX + 2);
	u64 r = 0;
	char* p = kind < K_MAX ? c.cont[kind] : 0;
	u64 key = o.k & c.mask;
	if (kind == K_MAX) {
		alignas(16) char mem[112];
		char* buf = mem + (o.u >> 32) % 16;
		u64 n = o.u % 80;
		for (u64 i = 0; i < n; ++i)
			buf[i] = 1 + (mix64(o.k + i) & 0x7f);
		buf[n] = 0;
		r = vs_hash_u32(o.k, buf, n) ^ vs_hash_u64(o.k, buf, n) ^ vs_strhash_u32(o.k, buf);
	} else if (kind == K_MAX + 1) {
		u64 v = o.k | 1;
		r = vs_inthash_u32(v) ^ vs_inthash_u64(v) ^ vs_ilog2_u32(v) ^ ((u64)vs_ctz_u32(v << (o.u & 15)) << 8) ^ vs_roundup_pow2_u32(v >> 33 | 1);
		r ^= mix64(vs_ilog2(v) + 64 * vs_ctz((size_t)v << (o.u & 7)));
	} else if (kind >= K_ARRAY && kind <= K_ARRAYBLKOF) {
		bool ptr = kind == K_ARRAY || kind == K_ARRAYBLK;
		if (o.code == T_INS) {
			if (ptr && o.u % 3) {
				vs_array_insert(kind, p, (void*)(uintptr_t)(o.k | 1));
				++c.asize[kind];
			} else {
				u64 to = o.u % 5 ? c.asize[kind] + 1 : o.k % 6000;
				vs_array_grow(kind, p, to);
				if (to > c.asize[kind])
					c.asize[kind] = to;
			}
			r = vs_array_size(kind, p);
		} else if (o.code == T_MISC && o.u % 6 == 0) {
			ctx_done(c, kind);
			ctx_init(c, kind);
		} else if (c.asize[kind]) {
			u64 pos = o.u % c.asize[kind];
			char* e = (char*)vs_array_ref(kind, p, pos);
			size_t es = ptr ? sizeof(void*) : ELEM;
			r = bytes_digest(e, es, 3);
			if (o.code == T_FIND)
				memset(e, (int)(o.k | 1), es);
			r ^= vs_memory_usage(kind, p);
		}
	} else if (kind == K_ALLOC) {
		size_t bs = vs_trie_block_size();
		if (o.code == T_INS) {
			char* b = (char*)vs_alloc(p);
			memset(b, (int)o.k, bs);
			c.blocks.push_back(b);
		} else if (o.code == T_MISC && o.u % 16 == 0) {
			ctx_done(c, kind);
			ctx_init(c, kind);
		} else if (!c.blocks.empty()) {
			u64 i = o.u % c.blocks.size();
			r = bytes_digest(c.blocks[i], bs, 5);
			vs_free(p, c.blocks[i]);
			c.blocks[i] = c.blocks.back();
			c.blocks.pop_back();
		}
		r ^= vs_memory_usage(kind, p);
	} else {
		std::vector<TN*>& held = c.held[kind];
		TN* h = held.empty() ? 0 : held[o.u % held.size()];
		switch (o.code) {
		case T_INS : {
			TN* n = (TN*)malloc(sizeof(TN));
			memset((void*)n, 0x41, sizeof(TN));
			n->key = key;
			n->user = mix64(o.u) | 1;
			if (kind == K_LIST && (o.u & 1)) {
				vs_list_insert_head(p, n->node, n);
			} else {
				void* got = vs_insert(kind, p, n->node, n, key);
				if (kind == K_TREE) {
					r = val(got);
					if (got != n) {
						free(n);
						break;
					}
				}
			}
			n->at = held.size();
			held.push_back(n);
			break;
		}
		case T_REM :
			if (!h)
				break;
			if (kind == K_LIST || (o.k & 1)) {
				r = val(vs_remove_existing(kind, p, h->node));
				drop(c, kind, h);
			} else {
				u64 u = h->user;
				TN* n = (TN*)vs_remove(kind, p, user_cmp, kind == K_TREE ? (void*)h : &u, h->key);
				r = val(n);
				if (n)
					drop(c, kind, n);
			}
			break;
		case T_FIND :
		case T_BUCKET :
			if (kind == K_LIST) {
				r = val(held.empty() ? 0 : vs_node_data(K_LIST, vs_list_head(p)));
			} else if (o.code == T_FIND || kind == K_TREE) {
				TN probe;
				probe.key = h && (o.k & 1) ? h->key : key;
				u64 u = o.u;
				r = val(vs_search(kind, p, user_cmp, kind == K_TREE ? (void*)&probe : &u, probe.key));
				if (kind == K_TREE && o.code == T_BUCKET)
					r = vs_tree_search_compare(p, coarse_cmp, &probe) != 0;
			} else {
				void* n = vs_bucket(kind, p, h ? h->key : key);
				for (; n; n = vs_node_next(kind, n))
					r = mix64(r ^ val(vs_node_data(kind, n)));
			}
			break;
		case T_EACH :
			c.acc = c.calls = 0;
			if (kind != K_TRIE && kind != K_TRIEINP)
				vs_foreach_arg(kind, p, acc_each, &c);
			r = c.acc + c.calls;
			break;
		case T_ORDER :
			if (kind == K_LIST) {
				vs_list_sort(p, o.u & 1 ? tree_cmp : coarse_cmp);
				c.acc = c.calls = 0;
				vs_foreach_arg(kind, p, acc_each, &c);
				r = c.acc;
			}
			break;
		default :
			if (o.u % 32 == 0 && kind != K_TRIE && kind != K_TRIEINP && kind != K_TREE && kind != K_LIST) {
				ctx_done(c, kind);
				ctx_init(c, kind);
			} else {
				r = vs_count(kind, p);
				if (kind != K_LIST)
					r += vs_memory_usage(kind, p);
			}
		}
	}
	c.out->push_back(r);
}

static void program(const std::vector<Op>& ops, std::vector<u64>& out)
{
	Ctx c;
	memset(c.cont, 0, sizeof(c.cont));
	memset(c.asize, 0, sizeof(c.asize));
	c.mask = vs_trie_bit >= vs_size_bit ? (vs_size_bit == 64 ? ~0ull : 0xffffffffull) : (1ull << vs_trie_bit) - 1;
	c.out = &out;
	heap_plain_calls = heap_plain_bytes = 0;
	for (int k = 0; k < K_MAX; ++k)
		ctx_init(c, k);
	for (auto& o : ops)
		step(c, o);
	for (int k = 0; k < K_MAX; ++k) {
		if (k < K_ARRAY)
			out.push_back(vs_count(k, c.cont[k]));
		ctx_done(c, k);
	}
	for (int k = 0; k < K_MAX; ++k)
		free(c.cont[k]);
	out.push_back(heap_plain_calls);
	out.push_back(heap_plain_bytes);
}

struct Shared {
	std::vector<std::vector<Op>> prog;
	std::vector<std::vector<u64>> want;
	std::vector<std::vector<u64>> bad;
	std::atomic<int> ready, go;
	u64 rounds;
};

struct Th {
	Shared* s;
	int t;
};

static void* thread_main(void* vp)
{
	Th* th = (Th*)vp;
	Shared* s = th->s;
	heap_plain = true;
	for (u64 i = 0; i < s->rounds; ++i) {
		/* all together */
		++s->ready;
		while ((u64)s->ready.load() < (i + 1) * s->prog.size() && s->go)
			;
		std::vector<u64> out;
		program(s->prog[th->t], out);
		if (out != s->want[th->t] && s->bad[th->t].empty()) {
			s->bad[th->t] = out;
			s->go = 0;
		}
	}
	return 0;
}

void threads_run(const Case& c)
{
	Shared s;
	s.prog.resize(1);
	for (auto& o : c.ops) {
		size_t t = o.c % 8;
		if (t >= s.prog.size())
			s.prog.resize(t + 1);
		s.prog[t].push_back(o);
	}
	size_t n = s.prog.size();
	s.want.resize(n);
	s.bad.resize(n);
	s.rounds = c.get("rounds", 1);
	if (s.rounds > 50)
		s.rounds = 50;
	s.ready = 0;
	s.go = 1;
	heap_reset(1);
	heap_plain = true;
	std::string why;
	for (size_t t = 0; t < n; ++t)
		program(s.prog[t], s.want[t]);
	if (c.get("nest") == 1) {
		std::vector<Th> th(n);
		std::vector<pthread_t> id(n);
		for (size_t t = 0; t < n; ++t) {
			th[t] = Th{ &s, (int)t };
			if (pthread_create(&id[t], 0, thread_main, &th[t]) != 0) {
				perror("pthread_create");
				_Exit(2);
			}
		}
		for (size_t t = 0; t < n; ++t)
			pthread_join(id[t], 0);
	} else {
		for (size_t t = 0; t < n; ++t) {
			std::vector<u64> out;
			program(s.prog[t], out);
			if (out != s.want[t])
				s.bad[t] = out;
		}
	}
	heap_plain = false;
	size_t ops = 0;
	for (size_t t = 0; t < n; ++t) {
		ops += s.prog[t].size();
		if (s.bad[t].empty())
			continue;
		size_t i = 0;
		while (i < s.bad[t].size() && i < s.want[t].size() && s.bad[t][i] == s.want[t][i])
			++i;
		fail(CAT_RES, "thread %zu of %zu: result %zu differs from the one of the same program run alone", t, n, i);
	}
	STAT("threads: three or more", n > 2);
	R.nontrivial = n >= 2 && ops >= 20;
}
