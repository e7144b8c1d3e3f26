/*
 * The "world": a number of containers of any kind, the objects in them, and a
 * reference model of what each must hold. Executes a history of operations on
 * the real library and on the model, comparing after each.
 */
#include "world.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <algorithm>
#include <unordered_map>
#include <set>

static const u32 NIL = 0xffffffffu;
static const u64 MAGIC = 0x6f626a6563740001ull;

/* an object of the user, what the data pointers point to */
struct Obj {
	u64 magic, key, user, check;
	u32 ref, live; /* containers holding it, position in the live vector */
	u32 expect, seen; /* for iteration */
	u32 elem, many; /* its element, when it never was in more containers at once */
};

/* a part of an order */
struct SubArg {
	u64 rank;
	unsigned shift;
	u64 order;
};

/* a node, and what the model knows of it */
struct Elem {
	Obj* obj;
	u64 key;
	int cont; /* -1 if the slot is free */
	u32 prev, next; /* same key (multimaps) or sequence (lists) */
	u32 gprev, gnext; /* insertion order in the container */
	u32 held; /* position in the held vector */
	u32 epoch;
	u32 nsize; /* node size, for the canary */
	void* bucket;
};

struct Chain {
	u32 head, tail;
	u32 count;
};

struct Block {
	char* p;
	u64 pat;
};

struct KeyHash {
	size_t operator()(u64 k) const { return (size_t)(k * 0x9e3779b97f4a7c15ull >> 20); }
};

struct Cont {
	int kind;
	u64 p1, p2;
	char* c;
	size_t size;
	int alloc; /* container index of the allocator, for tries */
	int owner; /* heap owner */
	bool hidden;
	u64 mask; /* valid key bits */
	std::vector<u32> held;
	std::unordered_map<u64, Chain, KeyHash> keys;
	std::map<u64, u32> tree;
	unsigned ord; /* which order it has */
	u32 head, tail; /* list sequence */
	u32 ghead, gtail;
	u64 since; /* operations since the last full check */
	u64 maxcount;
	bool shrunk, grown;
	unsigned busy; /* 1: being read, 2: being changed */
	/* resizes */
	u64 calls0, moved; /* heap calls seen, insertions and removals since the last resize */
	u64 resizes, buckets0;
	u64 peak; /* allocator: most live blocks */
	/* arrays */
	u64 asize;
	std::map<u64, u64> vals;
	std::unordered_map<u64, char*> addr;
	std::map<char*, u64> byaddr;
	/* allocator */
	std::vector<Block> blocks;
	std::map<char*, u32> byblock;
	u64 nfree; /* freed by the user and not handed out again */
	bool trie_alloc;
	u64 rounded, align;
};

struct Deferred {
	Op op;
	int depth;
	std::vector<unsigned> busy;
};

struct World {
	std::vector<Cont> conts;
	std::vector<Elem> elems;
	std::vector<u32> freeslots;
	size_t freehead; /* for the FIFO reuse policy */
	std::vector<Obj*> live;
	std::vector<u32> freeobjs;
	u32 nobj;
	u32 epoch;
	u32 stride, base;
	bool fifo;
	bool tiny; /* check everything after every operation */
	bool allconts; /* check every container, not only the one operated on */
	u64 orders[4]; /* tree order modes */
	u64 magm; /* magnitude of compare results */
	unsigned datam; /* what the data pointers are */
	size_t after; /* the end of a node */
	u64 ops_run;
	Op now; /* being run */
	/* callbacks */
	struct Cb {
		int cont;
		const void* arg;
		unsigned mode;
		u64 user, hash;
		u64 calls;
		u32 cursor; /* list position */
		std::map<u64, u32>::iterator tree;
		bool free;
		const char* what;
		u64 order; /* of the sort */
		const SubArg* sub;
	} cb;
	/* operations inside callbacks */
	unsigned nest; /* 1: run them there, 2: after the operation they interrupt */
	u64 nest_rate, nest_seen;
	u64 nest_op, nest_case; /* run inside this top level operation, in this case */
	int depth;
	bool checking; /* in a full check */
	std::vector<Deferred> deferred;
	const Case* cs;
};

static World* W;

static char* node_base;
static char* obj_base;
static char* cont_base;
#if UINTPTR_MAX > 0xffffffffu
static const size_t NODE_REGION = 1ull << 30;
static const size_t OBJ_REGION = 1ull << 30;
#else
static const size_t NODE_REGION = 192u << 20;
static const size_t OBJ_REGION = 160u << 20;
#endif
static const size_t CONT_SLOT = 65536;
static const size_t OBJ_STRIDE = 80;

static inline char* node_at(u32 e) { return node_base + W->base + (size_t)e * W->stride; }
static inline Obj* obj_at(u32 i) { return (Obj*)(obj_base + (size_t)i * OBJ_STRIDE); }

static inline u64 size_mask() { return vs_size_bit == 64 ? ~0ull : 0xffffffffull; }

static inline bool is_mm(int k) { return k <= K_TRIEINP; }
static inline bool is_hash(int k) { return k <= K_HASHLIN; }
static inline bool is_elem(int k) { return k <= K_LIST; }
static inline bool is_array(int k) { return k >= K_ARRAY && k <= K_ARRAYBLKOF; }
static inline bool is_iter(int k) { return is_hash(k) || k == K_TREE || k == K_LIST; }

#define WHERE(c) kind_name(W->conts[c].kind), c

/* ---- pools --------------------------------------------------------------- */

static const unsigned char DEADNODE = 0xb7;
static const unsigned char GAP = 0xc9;

static void slot_verify_dead(u32 e)
{
	if (!WANT(CAT_TOUCH))
		return;
	unsigned char* p = (unsigned char*)node_at(e);
	unpoison(p, W->stride);
	for (u32 i = 0; i < W->elems[e].nsize; ++i)
		if (p[i] != DEADNODE)
			fail(CAT_TOUCH, "a node was written at offset %u after its removal", i);
	poison(p, W->stride);
}

static u32 node_new(int kind)
{
	u32 e;
	size_t avail = W->freeslots.size() - W->freehead;
	if (avail > 0 && (!W->fifo || avail > 64)) {
		if (W->fifo) {
			e = W->freeslots[W->freehead++];
			if (W->freehead > 4096 && W->freehead * 2 > W->freeslots.size()) {
				W->freeslots.erase(W->freeslots.begin(), W->freeslots.begin() + W->freehead);
				W->freehead = 0;
			}
		} else {
			e = W->freeslots.back();
			W->freeslots.pop_back();
		}
		slot_verify_dead(e);
	} else {
		e = W->elems.size();
		if ((size_t)(e + 2) * W->stride + 64 > NODE_REGION)
			give_up("too many nodes");
		W->elems.push_back(Elem());
	}
	Elem& el = W->elems[e];
	el.nsize = vs_node_sizeof(kind);
	el.epoch = 0;
	el.bucket = 0;
	unsigned char* p = (unsigned char*)node_at(e);
	unpoison(p, W->stride);
	/* any previous content: what it was when removed, or something that looks
	   like pointers and counters */
	u64 g = mix64(e * 77 + W->ops_run);
	switch (g % 5) {
	case 0 : memset(p, 0, el.nsize); break;
	case 1 : memset(p, 0xff, el.nsize); break;
	case 2 : memset(p, 0x41, el.nsize); break;
	case 3 :
		for (u32 i = 0; i + sizeof(void*) <= el.nsize; i += sizeof(void*)) {
			void* q = p; /* pointing to itself */
			memcpy(p + i, &q, sizeof(q));
		}
		break;
	default :
		for (u32 i = 0; i + 4 <= el.nsize; i += 4) {
			u32 v = (u32)mix64(g + i);
			memcpy(p + i, &v, 4);
		}
	}
	memset(p + el.nsize, GAP, W->stride - el.nsize);
	poison(p + el.nsize, W->stride - el.nsize);
	return e;
}

static void node_gap_check(u32 e)
{
	Elem& el = W->elems[e];
	unsigned char* p = (unsigned char*)node_at(e);
	for (u32 i = el.nsize; i < W->stride; ++i)
		if (p[i] != GAP)
			fail(CAT_OVER, "write %u bytes after the end of a node", i - el.nsize);
}

static void node_kill(u32 e)
{
	Elem& el = W->elems[e];
	unsigned char* p = (unsigned char*)node_at(e);
	node_gap_check(e);
	memset(p, DEADNODE, el.nsize);
	poison(p, W->stride);
	el.cont = -1;
	el.obj = 0;
	W->freeslots.push_back(e);
}

static u64 obj_sum(Obj* o)
{
	return mix64(o->key ^ mix64(o->user) ^ o->magic);
}

static Obj* obj_new(u64 key, u64 user)
{
	u32 i;
	if (!W->freeobjs.empty()) {
		i = W->freeobjs.back();
		W->freeobjs.pop_back();
	} else {
		i = W->nobj++;
		if ((size_t)(i + 1) * OBJ_STRIDE > OBJ_REGION)
			give_up("too many objects");
		/* the library has no business inside the objects, ever */
		poison(obj_at(i), OBJ_STRIDE);
	}
	Obj* o = obj_at(i);
	o->magic = MAGIC;
	o->key = key;
	o->user = user;
	o->check = obj_sum(o);
	o->ref = 0;
	o->expect = o->seen = 0;
	o->live = W->live.size();
	o->elem = NIL;
	o->many = 0;
	W->live.push_back(o);
	return o;
}

static void obj_kill(Obj* o)
{
	if (o->magic != MAGIC || o->check != obj_sum(o))
		fail(CAT_TOUCH, "an object was overwritten");
	W->live[o->live] = W->live.back();
	W->live[o->live]->live = o->live;
	W->live.pop_back();
	memset((void*)o, 0x5e, sizeof(Obj));
	W->freeobjs.push_back(((char*)o - obj_base) / OBJ_STRIDE);
}


static u32 elem_of(const void* node)
{
	const char* p = (const char*)node;
	if (p < node_base + W->base)
		return NIL;
	size_t off = p - node_base - W->base;
	if (off % W->stride != 0 || off / W->stride >= W->elems.size())
		return NIL;
	return off / W->stride;
}

/*
 * The data pointers, that the library only keeps: to the object, to a member
 * of it, or to a structure of which the node is a member, at its start, in
 * the middle or at its end.
 */
enum { D_OBJ, D_MEMBER, D_BYTE, D_NODE, D_BEFORE, D_AFTER, D_MAX };

static inline void* data_of(u32 e)
{
	switch (W->datam) {
	case D_MEMBER : return (char*)W->elems[e].obj + 16;
	case D_BYTE : return (char*)W->elems[e].obj + 1;
	case D_NODE : return node_at(e);
	case D_BEFORE : return node_at(e) - sizeof(void*);
	case D_AFTER : return node_at(e) + W->after;
	}
	return W->elems[e].obj;
}

/* and back: 0 if it is none of them */
static Obj* obj_of(const void* p)
{
	if ((const char*)p >= obj_base && (const char*)p < obj_base + (size_t)W->nobj * OBJ_STRIDE) {
		size_t off = ((const char*)p - obj_base) % OBJ_STRIDE;
		Obj* o = (Obj*)((const char*)p - off);
		size_t want = W->datam == D_MEMBER ? 16 : W->datam == D_BYTE ? 1 : 0;
		if (o->magic != MAGIC)
			return 0;
		if (W->datam >= D_NODE || off != want)
			return off == 0 && o->ref == 0 ? o : 0; /* something searched */
		return o;
	}
	if (W->datam < D_NODE)
		return 0;
	u32 e = elem_of((const char*)p - ((char*)data_of(0) - node_at(0)));
	if (e == NIL || !W->elems[e].obj || W->elems[e].obj->magic != MAGIC)
		return 0;
	return W->elems[e].obj;
}

/* ---- model -------------------------------------------------------------------- */

static u64 rank_in(u64 key, u64 order)
{
	switch (order & 3) {
	case 1 : key = ~key; break;
	case 2 : key = key * 0x9e3779b97f4a7c15ull; break;
	}
	return key >> ((order >> 2) % 64);
}

/* in a tree: each can have its own order */
static u64 rank_of(const Cont& c, u64 key)
{
	return rank_in(key, W->orders[c.ord]);
}

static int sized(int sign, u64 a, u64 b)
{
	static const int pos[8] = { 1, 2, 127, 255, 256, 65536, 0x40000000, INT_MAX };
	if (sign == 0)
		return 0;
	int m;
	switch (W->magm % 3) {
	case 0 : m = 1; break;
	case 1 : m = pos[mix64(a ^ (b << 1)) & 7]; break;
	default : m = INT_MAX; break;
	}
	if (sign > 0)
		return m;
	return m == INT_MAX && (mix64(a + b) & 1) ? INT_MIN : -m;
}

static void held_add(int ci, u32 e)
{
	Cont& c = W->conts[ci];
	Elem& el = W->elems[e];
	el.cont = ci;
	el.held = c.held.size();
	c.held.push_back(e);
	el.gprev = c.gtail;
	el.gnext = NIL;
	if (c.gtail != NIL)
		W->elems[c.gtail].gnext = e;
	else
		c.ghead = e;
	c.gtail = e;
	if (c.held.size() > c.maxcount)
		c.maxcount = c.held.size();
	if (++el.obj->ref > 1)
		el.obj->many = 1;
	el.obj->elem = e;
}

static void seq_unlink(Elem& el, u32& head, u32& tail)
{
	if (el.prev != NIL)
		W->elems[el.prev].next = el.next;
	else
		head = el.next;
	if (el.next != NIL)
		W->elems[el.next].prev = el.prev;
	else
		tail = el.prev;
}

static void model_insert(int ci, u32 e, bool at_head)
{
	Cont& c = W->conts[ci];
	Elem& el = W->elems[e];
	held_add(ci, e);
	++c.moved;
	el.prev = el.next = NIL;
	if (is_mm(c.kind)) {
		auto r = c.keys.insert(std::make_pair(el.key, Chain{ e, e, 1 }));
		if (!r.second) {
			Chain& ch = r.first->second;
			el.prev = ch.tail;
			W->elems[ch.tail].next = e;
			ch.tail = e;
			++ch.count;
		}
	} else if (c.kind == K_LIST) {
		if (c.head == NIL) {
			c.head = c.tail = e;
		} else if (at_head) {
			el.next = c.head;
			W->elems[c.head].prev = e;
			c.head = e;
		} else {
			el.prev = c.tail;
			W->elems[c.tail].next = e;
			c.tail = e;
		}
	} else if (c.kind == K_TREE) {
		c.tree[rank_of(c, el.obj->key)] = e;
	}
}

static void model_remove(u32 e)
{
	Elem& el = W->elems[e];
	Cont& c = W->conts[el.cont];
	++c.moved;
	u32 last = c.held.back();
	c.held[el.held] = last;
	W->elems[last].held = el.held;
	c.held.pop_back();
	if (el.gprev != NIL)
		W->elems[el.gprev].gnext = el.gnext;
	else
		c.ghead = el.gnext;
	if (el.gnext != NIL)
		W->elems[el.gnext].gprev = el.gprev;
	else
		c.gtail = el.gprev;
	if (is_mm(c.kind)) {
		auto it = c.keys.find(el.key);
		Chain& ch = it->second;
		seq_unlink(el, ch.head, ch.tail);
		if (--ch.count == 0)
			c.keys.erase(it);
	} else if (c.kind == K_LIST) {
		seq_unlink(el, c.head, c.tail);
	} else if (c.kind == K_TREE) {
		c.tree.erase(rank_of(c, el.obj->key));
	}
}

/* the element is out of the real container: destroy node and object at once */
static void elem_release(u32 e)
{
	Obj* o = W->elems[e].obj;
	node_kill(e);
	if (--o->ref == 0)
		obj_kill(o);
}

static u32 pick(Cont& c, u64 n)
{
	if (c.held.empty())
		return NIL;
	if (n == IDX_NEWEST)
		return c.gtail;
	if (n == IDX_OLDEST)
		return c.ghead;
	return c.held[n % c.held.size()];
}

/* ---- callbacks ------------------------------------------------------------------ */

static void interrupt();

static int match(unsigned mode, u64 want, const Obj* o)
{
	switch (mode % 3) {
	case 0 :
		if (o->user == want)
			return 0;
		return sized((mix64(o->user ^ want) & 1) ? 1 : -1, o->user, want);
	case 1 : return 0;
	}
	return -1;
}

static int search_cb(const void* arg, const void* obj)
{
	++W->cb.calls;
	if (arg != W->cb.arg)
		fail(CAT_RES, "compare called with %p as argument instead of %p in %s", arg, W->cb.arg, W->cb.what);
	const Obj* o = obj_of(obj);
	if (!o)
		fail(CAT_TOUCH, "compare called on something that is not a live object in %s", W->cb.what);
	if (WANT(CAT_SELECT) && !o->many && W->elems[o->elem].key != W->cb.hash)
		fail(CAT_SELECT, "%s: compare called on an element of hash %#llx looking for hash %#llx", W->cb.what, (unsigned long long)W->elems[o->elem].key, (unsigned long long)W->cb.hash);
	int r = match(W->cb.mode, W->cb.user, o);
	interrupt();
	return r;
}

template<int N> static int order_cb(const void* a, const void* b)
{
	++W->cb.calls;
	const Obj* oa = obj_of(a);
	const Obj* ob = obj_of(b);
	if (!oa || !ob)
		fail(CAT_TOUCH, "compare called on something that is not a live object in %s", W->cb.what);
	u64 ra = rank_in(oa->key, W->orders[N]), rb = rank_in(ob->key, W->orders[N]);
	interrupt();
	return sized(ra < rb ? -1 : ra > rb ? 1 : 0, ra, rb);
}

static vs_cmp* const order_cbs[4] = { order_cb<0>, order_cb<1>, order_cb<2>, order_cb<3> };

static int sort_cb(const void* a, const void* b)
{
	++W->cb.calls;
	const Obj* oa = obj_of(a);
	const Obj* ob = obj_of(b);
	if (!oa || !ob)
		fail(CAT_TOUCH, "compare called on something that is not a live object in %s", W->cb.what);
	u64 ra = rank_in(oa->key, W->cb.order), rb = rank_in(ob->key, W->cb.order);
	interrupt();
	return sized(ra < rb ? -1 : ra > rb ? 1 : 0, ra, rb);
}

static int sub_cb(const void* a, const void* b)
{
	++W->cb.calls;
	if (a != W->cb.arg)
		fail(CAT_RES, "sub-order compare called without the given argument first");
	const Obj* ob = obj_of(b);
	if (!ob)
		fail(CAT_TOUCH, "compare called on something that is not a live object in %s", W->cb.what);
	const SubArg* s = W->cb.sub;
	u64 ra = s->rank >> s->shift, rb = rank_in(ob->key, s->order) >> s->shift;
	interrupt();
	return sized(ra < rb ? -1 : ra > rb ? 1 : 0, ra, rb);
}

static void each_common(void* data)
{
	Cont& c = W->conts[W->cb.cont];
	++W->cb.calls;
	Obj* o = obj_of(data);
	if (!o)
		fail(CAT_ITER, "%s %d: iteration visits something that is not a live object", WHERE(W->cb.cont));
	if (c.kind == K_LIST) {
		if (W->cb.cursor == NIL || data_of(W->cb.cursor) != data)
			fail(CAT_ITER, "list %d: visit %llu of the iteration is not the element at that position", W->cb.cont, (unsigned long long)W->cb.calls - 1);
		W->cb.cursor = W->elems[W->cb.cursor].next;
	} else if (c.kind == K_TREE) {
		if (W->cb.tree == c.tree.end() || data_of(W->cb.tree->second) != data)
			fail(CAT_ITER, "tree %d: visit %llu of the iteration is not the next held element in order", W->cb.cont, (unsigned long long)W->cb.calls - 1);
		++W->cb.tree;
	}
	if (++o->seen > o->expect)
		fail(CAT_ITER, "%s %d: iteration visits an element %u times instead of %u", WHERE(W->cb.cont), o->seen, o->expect);
	if (W->cb.free && o->ref == 1) {
		/* as free() would: node and object are gone */
		u32 e = o->elem;
		node_gap_check(e);
		memset(node_at(e), DEADNODE, W->elems[e].nsize);
		poison(node_at(e), W->stride);
	}
	interrupt();
}

static void each_cb(void* data)
{
	each_common(data);
}

static void each_arg_cb(void* arg, void* data)
{
	if (arg != W->cb.arg)
		fail(CAT_ITER, "%s %d: iteration passes %p instead of the argument", WHERE(W->cb.cont), arg);
	each_common(data);
}

/* ---- wrapped calls -------------------------------------------------------------- */

static inline void own(int ci) { H.owner = W->conts[ci].owner; }

static void query_on()
{
	if (WANT(CAT_QUERY | CAT_WORK)) {
		H.forbid = WANT(CAT_QUERY) ? CAT_QUERY : CAT_WORK;
		H.forbid_why = "in a query";
	}
}
static void query_off() { H.forbid = 0; }

static u64 usage_of(int ci)
{
	own(ci);
	return vs_memory_usage(W->conts[ci].kind, W->conts[ci].c);
}

static void cont_init(int ci)
{
	Cont& c = W->conts[ci];
	void* alloc = 0;
	unpoison(c.c - 64, c.size + 128);
	memset(c.c - 64, GAP, 64);
	memset(c.c + c.size, GAP, 64);
	/* init must set up everything by itself */
	memset(c.c, 0x9b, c.size);
	poison(c.c - 64, 64);
	poison(c.c + c.size, 64);
	own(ci);
	size_t p1 = c.p1, p2 = c.p2;
	if (c.kind == K_TRIE)
		alloc = W->conts[c.alloc].c;
	W->cb.what = "init";
	{
		OwnerStat& s = H.own[c.owner];
		c.calls0 = s.mallocs;
		c.resizes = s.frees;
	}
	vs_init(c.kind, c.c, p1, p2, alloc, order_cbs[c.ord]);
	if (c.kind == K_HASHDYN || c.kind == K_HASHLIN) {
		OwnerStat& s = H.own[c.owner];
		c.calls0 = s.mallocs + s.frees;
		c.resizes = 0;
	}
	c.moved = c.buckets0 = c.peak = 0;
	c.held.clear();
	c.keys.clear();
	c.tree.clear();
	c.head = c.tail = c.ghead = c.gtail = NIL;
	c.asize = 0;
	c.vals.clear();
	c.addr.clear();
	c.byaddr.clear();
	c.blocks.clear();
	c.byblock.clear();
	c.nfree = 0;
	c.since = 0;
}

static void cont_gap_check(int ci)
{
	Cont& c = W->conts[ci];
	for (int i = 0; i < 64; ++i) {
		if ((unsigned char)c.c[-1 - i] != GAP)
			fail(CAT_OVER, "%s %d: write %d bytes before the container", WHERE(ci), i + 1);
		if ((unsigned char)c.c[c.size + i] != GAP)
			fail(CAT_OVER, "%s %d: write %d bytes after the container", WHERE(ci), i);
	}
}

/* ---- checks ---------------------------------------------------------------------- */

static void check_count(int ci)
{
	Cont& c = W->conts[ci];
	if (!is_elem(c.kind) || !WANT(CAT_COUNT))
		return;
	u64 n = vs_count(c.kind, c.c);
	if (n != c.held.size())
		fail(CAT_COUNT, "%s %d: count is %llu with %zu elements held", WHERE(ci), (unsigned long long)n, c.held.size());
}

static unsigned bits_of(u64 v) { return v ? 64 - __builtin_clzll(v) : 0; }

/* resizes are rare: each pays for itself with the operations since the last */
static void check_resizes(int ci)
{
	Cont& c = W->conts[ci];
	OwnerStat& s = H.own[c.owner];
	u64 calls = s.mallocs + s.frees;
	u64 made = s.mallocs - c.calls0;
	switch (c.kind) {
	case K_HASHTABLE :
		if (s.frees != c.resizes || made > 1)
			fail(CAT_AMORT, "hashtable %d: %llu heap requests", ci, (unsigned long long)made);
		break;
	case K_HASHDYN :
	case K_HASHLIN :
		if (calls != c.calls0) {
			if (c.resizes && c.moved < c.buckets0 / 16)
				fail(CAT_AMORT, "%s %d: resized %llu operations after the last time, with %llu buckets", WHERE(ci), (unsigned long long)c.moved, (unsigned long long)c.buckets0);
			++c.resizes;
			c.calls0 = calls;
			c.moved = 0;
			c.buckets0 = s.bytes / sizeof(void*);
			STAT("resize after another", c.resizes > 1);
		}
		break;
	case K_ARRAY :
	case K_ARRAYOF :
		if (made > bits_of(c.asize) + 1)
			fail(CAT_AMORT, "%s %d: %llu heap requests for %llu elements", WHERE(ci), (unsigned long long)made, (unsigned long long)c.asize);
		break;
	case K_ARRAYBLK :
	case K_ARRAYBLKOF : {
		u64 blk = c.kind == K_ARRAYBLK ? vs_blk : vs_blkof;
		u64 nb = (c.asize + blk - 1) / blk;
		if (made > nb + bits_of(nb) + 2)
			fail(CAT_AMORT, "%s %d: %llu heap requests for %llu elements", WHERE(ci), (unsigned long long)made, (unsigned long long)c.asize);
		break;
	}
	case K_ALLOC : {
		if (c.trie_alloc)
			break;
		if (c.blocks.size() > c.peak)
			c.peak = c.blocks.size();
		/* at least half of the blocks that fit in a segment */
		u64 seg = vs_segment + 64;
		u64 per = c.rounded + c.align + 128 < seg ? (seg - 128 - c.align) / c.rounded / 2 : 1;
		if (per == 0)
			per = 1;
		if (made > (c.peak + per - 1) / per)
			fail(CAT_AMORT, "allocator %d: %llu heap requests for %llu blocks of %llu", ci, (unsigned long long)made, (unsigned long long)c.peak, (unsigned long long)c.rounded);
		STAT("many segments", made > 4);
		break;
	}
	}
}

static u64 trie_nodes_bytes(int ai)
{
	u64 t = 0;
	for (size_t i = 0; i < W->conts.size(); ++i)
		if (W->conts[i].kind == K_TRIE && W->conts[i].alloc == ai)
			t += usage_of(i) - (u64)W->conts[i].held.size() * vs_node_sizeof(K_TRIE);
	return t;
}

static void check_memory(int ci)
{
	Cont& c = W->conts[ci];
	OwnerStat& s = H.own[c.owner];
	if (WANT(CAT_MEM) && c.kind != K_LIST) {
		u64 u = usage_of(ci);
		u64 n = is_elem(c.kind) ? (u64)c.held.size() * vs_node_sizeof(c.kind) : 0;
		switch (c.kind) {
		case K_HASHTABLE :
		case K_HASHDYN :
		case K_HASHLIN :
			if (u != (u64)s.bytes + n)
				fail(CAT_MEM, "%s %d: reports %llu bytes, it holds %lld of heap and %zu nodes of %zu", WHERE(ci), (unsigned long long)u, (long long)s.bytes, c.held.size(), vs_node_sizeof(c.kind));
			break;
		case K_TREE :
		case K_TRIEINP :
			if (u != n)
				fail(CAT_MEM, "%s %d: reports %llu bytes with %zu nodes of %zu", WHERE(ci), (unsigned long long)u, c.held.size(), vs_node_sizeof(c.kind));
			break;
		case K_TRIE :
			if (u < n || (u - n) % vs_trie_block_size() != 0 || (c.held.empty() && u != 0))
				fail(CAT_MEM, "trie %d: reports %llu bytes with %zu nodes of %zu", ci, (unsigned long long)u, c.held.size(), vs_node_sizeof(c.kind));
			{
				/* the inner nodes are what the tries of the allocator took from it */
				Cont& a = W->conts[c.alloc];
				u64 got = usage_of(c.alloc);
				u64 want = trie_nodes_bytes(c.alloc) + a.blocks.size() * a.rounded;
				if (got != want)
					fail(CAT_MEM, "trie %d: its allocator reports %llu bytes in use, the tries and the user hold %llu", ci, (unsigned long long)got, (unsigned long long)want);
			}
			break;
		case K_ARRAY :
		case K_ARRAYOF :
		case K_ARRAYBLK :
		case K_ARRAYBLKOF : {
			if (u != (u64)s.bytes)
				fail(CAT_MEM, "%s %d: reports %llu bytes, it holds %lld of heap", WHERE(ci), (unsigned long long)u, (long long)s.bytes);
			u64 es = c.kind == K_ARRAY || c.kind == K_ARRAYBLK ? sizeof(void*) : c.p1;
			if (c.kind == K_ARRAY || c.kind == K_ARRAYOF) {
				/* the minimum, or less than twice the size */
				if (u > (c.kind == K_ARRAY ? vs_array_min : vs_arrayof_min) * es && u >= 2 * c.asize * es)
					fail(CAT_MEM, "%s %d: uses %llu bytes for %llu elements of %llu", WHERE(ci), (unsigned long long)u, (unsigned long long)c.asize, (unsigned long long)es);
			} else {
				u64 blk = c.kind == K_ARRAYBLK ? vs_blk : vs_blkof;
				u64 nb = (c.asize + blk - 1) / blk;
				u64 idx = nb * 2 > vs_array_min ? nb * 2 : vs_array_min;
				if (u > nb * blk * es + idx * sizeof(void*))
					fail(CAT_MEM, "%s %d: uses %llu bytes for %llu elements of %llu", WHERE(ci), (unsigned long long)u, (unsigned long long)c.asize, (unsigned long long)es);
			}
			break;
		}
		case K_ALLOC : {
			u64 want = c.blocks.size() * c.rounded + (c.trie_alloc ? trie_nodes_bytes(ci) : 0);
			if (u != want)
				fail(CAT_MEM, "allocator %d: reports %llu bytes with %zu live blocks of %llu", ci, (unsigned long long)u, c.blocks.size(), (unsigned long long)c.rounded);
			break;
		}
		}
	}
	if (WANT(CAT_LOAD)) {
		u64 n = c.held.size();
		u64 b = s.bytes / sizeof(void*);
		switch (c.kind) {
		case K_HASHDYN :
			if (b & (b - 1))
				fail(CAT_LOAD, "hashdyn %d: %llu buckets", ci, (unsigned long long)b);
			if (b < vs_dyn_min || b < 2 * n || (b > vs_dyn_min && b > 8 * n))
				fail(CAT_LOAD, "hashdyn %d: %llu buckets for %llu elements", ci, (unsigned long long)b, (unsigned long long)n);
			break;
		case K_HASHLIN :
			if (b & (b - 1))
				fail(CAT_LOAD, "hashlin %d: %llu buckets", ci, (unsigned long long)b);
			if (b < vs_lin_min || b < 2 * n || b > 16 * n + vs_lin_min || (n == 0 && b != vs_lin_min))
				fail(CAT_LOAD, "hashlin %d: %llu buckets for %llu elements", ci, (unsigned long long)b, (unsigned long long)n);
			break;
		}
	}
	if (WANT(CAT_SELECT) && c.kind == K_HASHTABLE) {
		u64 b = s.bytes / sizeof(void*);
		if (b < c.p1 || b < 1 || b & (b - 1))
			fail(CAT_SELECT, "hashtable %d: %llu buckets with %llu asked for", ci, (unsigned long long)b, (unsigned long long)c.p1);
		if (b > 16 && b / 2 >= c.p1)
			fail(CAT_SELECT, "hashtable %d: %llu buckets with only %llu asked for", ci, (unsigned long long)b, (unsigned long long)c.p1);
	}
	if (WANT(CAT_AMORT))
		check_resizes(ci);
	if (WANT(CAT_HEAP)) {
		if (H.bypass)
			fail(CAT_HEAP, "%s %d: memory taken or released without the configured functions", WHERE(ci));
		if ((c.kind == K_LIST || c.kind == K_TREE || c.kind == K_TRIEINP) && s.req)
			fail(CAT_HEAP, "%s %d: used the heap", WHERE(ci));
	}
}

/* the buckets that elements must be spread over, a power of two */
static u64 bucket_count(int ci)
{
	Cont& c = W->conts[ci];
	u64 b = H.own[c.owner].bytes / sizeof(void*);
	if (!is_hash(c.kind) || b == 0)
		return 0;
	b = 1ull << (63 - __builtin_clzll(b));
	/* half of the linear ones may be still to be used */
	return c.kind == K_HASHLIN ? b / 2 : b;
}

/* walk one bucket; every held element met is marked with the epoch */
static u64 walk_bucket(int ci, void* head, bool exact, u64 key)
{
	Cont& c = W->conts[ci];
	u64 n = 0;
	u32 prev = NIL;
	void* node = head;
	void* first_prev = 0;
	u64 modulus = WANT(CAT_SELECT) ? bucket_count(ci) : 0;
	while (node) {
		u32 e = elem_of(node);
		if (e == NIL || W->elems[e].cont != ci)
			fail(CAT_RES, "%s %d: the bucket of key %#llx contains a node that is not held", WHERE(ci), (unsigned long long)key);
		Elem& el = W->elems[e];
		if (el.epoch == W->epoch)
			fail(CAT_LINKS, "%s %d: a node is met twice walking the buckets (key %#llx)", WHERE(ci), (unsigned long long)el.key);
		el.epoch = W->epoch;
		el.bucket = head;
		if (vs_node_data(c.kind, node) != data_of(e))
			fail(CAT_RES, "%s %d: a node of key %#llx lost its data pointer", WHERE(ci), (unsigned long long)el.key);
		if (vs_node_key(c.kind, node) != el.key)
			fail(CAT_RES, "%s %d: a node of key %#llx lost its key", WHERE(ci), (unsigned long long)el.key);
		if (WANT(CAT_SELECT) && modulus && (el.key ^ key) % modulus)
			fail(CAT_SELECT, "%s %d: hashes %#llx and %#llx share a bucket with %llu buckets", WHERE(ci), (unsigned long long)key, (unsigned long long)el.key, (unsigned long long)modulus);
		if (exact && el.key != key)
			fail(CAT_RES, "%s %d: the bucket of key %#llx contains key %#llx", WHERE(ci), (unsigned long long)key, (unsigned long long)el.key);
		if (el.prev != NIL && W->elems[el.prev].epoch != W->epoch)
			fail(CAT_ORDER, "%s %d: element of key %#llx met before an earlier one with the same key", WHERE(ci), (unsigned long long)el.key);
		void* p = vs_node_prev(c.kind, node);
		if (node == head)
			first_prev = p;
		else if (WANT(CAT_LINKS) && p != node_at(prev))
			fail(CAT_LINKS, "%s %d: backward link of a node of key %#llx is wrong", WHERE(ci), (unsigned long long)el.key);
		prev = e;
		++n;
		node = vs_node_next(c.kind, node);
	}
	if (n && WANT(CAT_LINKS) && first_prev != node_at(prev))
		fail(CAT_LINKS, "%s %d: backward link of the head is not the tail (key %#llx)", WHERE(ci), (unsigned long long)key);
	return n;
}

/* with so many buckets that they cannot all be walked */
static bool vast_table(const Cont& c)
{
	return c.kind == K_HASHTABLE && c.p1 > 1u << 26;
}

/* anything */
static const void* any_pointer(int ci, u64 x)
{
	Cont& c = W->conts[ci];
	x = mix64(x);
	switch (x % 8) {
	case 0 :
	case 1 : return 0;
	case 2 : return c.c;
	case 3 : return c.held.empty() ? 0 : data_of(c.held[(x >> 8) % c.held.size()]);
	case 4 : return c.held.empty() ? 0 : node_at(c.held[(x >> 8) % c.held.size()]);
	case 5 : return (const void*)~(uintptr_t)0;
	}
	return (const void*)(uintptr_t)mix64(x);
}

static void do_foreach(int ci, bool arg, bool freeing)
{
	Cont& c = W->conts[ci];
	for (u32 e : c.held)
		W->elems[e].obj->expect = 0, W->elems[e].obj->seen = 0;
	for (u32 e : c.held) {
		++W->elems[e].obj->expect;
		W->elems[e].obj->elem = e;
	}
	W->cb.cont = ci;
	W->cb.calls = 0;
	W->cb.free = freeing;
	W->cb.cursor = c.head;
	W->cb.what = "foreach";
	if (c.kind == K_TREE)
		W->cb.tree = c.tree.begin();
	own(ci);
	query_on();
	unsigned busy = c.busy;
	c.busy = freeing || busy == 2 ? 2 : 1;
	if (arg) {
		/* the argument is only passed on: any value will do */
		W->cb.arg = any_pointer(ci, W->ops_run);
		vs_foreach_arg(c.kind, c.c, each_arg_cb, (void*)W->cb.arg);
	} else {
		vs_foreach(c.kind, c.c, each_cb);
	}
	c.busy = busy;
	query_off();
	W->cb.free = false;
	if (W->cb.calls != c.held.size())
		fail(CAT_ITER, "%s %d: iteration made %llu calls with %zu elements held", WHERE(ci), (unsigned long long)W->cb.calls, c.held.size());
}

static void check_mm(int ci)
{
	Cont& c = W->conts[ci];
	++W->epoch;
	u64 total = 0;
	bool exact = !is_hash(c.kind);
	own(ci);
	for (auto& kv : c.keys) {
		Elem& first = W->elems[kv.second.head];
		if (!exact && first.epoch == W->epoch) {
			/* met in a bucket already walked: it must be the one of this key */
			void* head = vs_bucket(c.kind, c.c, kv.first);
			if (head != first.bucket)
				fail(CAT_RES, "%s %d: element of key %#llx is in the bucket of another hash", WHERE(ci), (unsigned long long)kv.first);
			continue;
		}
		void* head = vs_bucket(c.kind, c.c, kv.first);
		if (!head)
			fail(CAT_RES, "%s %d: the bucket of held key %#llx is empty", WHERE(ci), (unsigned long long)kv.first);
		u32 h = elem_of(head);
		if (h != NIL && W->elems[h].cont == ci && W->elems[h].epoch == W->epoch)
			fail(CAT_RES, "%s %d: element of key %#llx is missing from its bucket", WHERE(ci), (unsigned long long)kv.first);
		u64 n = walk_bucket(ci, head, exact, kv.first);
		total += n;
		if (exact && n != kv.second.count)
			fail(CAT_RES, "%s %d: the bucket of key %#llx has %llu elements instead of %u", WHERE(ci), (unsigned long long)kv.first, (unsigned long long)n, kv.second.count);
		if (exact && head != node_at(kv.second.head))
			fail(CAT_ORDER, "%s %d: the bucket of key %#llx does not start with the earliest", WHERE(ci), (unsigned long long)kv.first);
		if (W->elems[kv.second.head].epoch != W->epoch)
			fail(CAT_RES, "%s %d: element of key %#llx is missing from its bucket", WHERE(ci), (unsigned long long)kv.first);
		if (!exact) {
			/* nothing of this key may be left out of this bucket */
			if (W->elems[kv.second.tail].bucket != head || W->elems[kv.second.tail].epoch != W->epoch)
				fail(CAT_RES, "%s %d: the latest element of key %#llx is missing from its bucket", WHERE(ci), (unsigned long long)kv.first);
		}
	}
	if (total != c.held.size())
		fail(CAT_RES, "%s %d: the buckets contain %llu elements instead of %zu", WHERE(ci), (unsigned long long)total, c.held.size());
}

static void check_list(int ci)
{
	Cont& c = W->conts[ci];
	own(ci);
	void* head = vs_list_head(c.c);
	void* tail = vs_list_tail(c.c);
	if ((vs_list_empty(c.c) != 0) != c.held.empty())
		fail(CAT_RES, "list %d: empty is %d with %zu elements", ci, vs_list_empty(c.c), c.held.size());
	if (c.held.empty()) {
		if (head || tail)
			fail(CAT_RES, "list %d: empty list with a head or a tail", ci);
		return;
	}
	if (head != node_at(c.head))
		fail(CAT_RES, "list %d: wrong head", ci);
	if (tail != node_at(c.tail))
		fail(CAT_RES, "list %d: wrong tail", ci);
	u32 e = c.head;
	void* node = head;
	u64 pos = 0;
	while (node && e != NIL) {
		Elem& el = W->elems[e];
		if (node != node_at(e))
			fail(CAT_RES, "list %d: wrong element at position %llu", ci, (unsigned long long)pos);
		if (vs_node_data(K_LIST, node) != data_of(e))
			fail(CAT_RES, "list %d: wrong data pointer at position %llu", ci, (unsigned long long)pos);
		void* p = vs_node_prev(K_LIST, node);
		void* want = el.prev == NIL ? node_at(c.tail) : node_at(el.prev);
		if (p != want)
			fail(CAT_LINKS, "list %d: wrong backward link at position %llu", ci, (unsigned long long)pos);
		node = vs_node_next(K_LIST, node);
		e = el.next;
		++pos;
	}
	if (node || e != NIL)
		fail(CAT_RES, "list %d: %llu elements reached of %zu", ci, (unsigned long long)pos, c.held.size());
}

static char* array_ref(int ci, u64 pos)
{
	Cont& c = W->conts[ci];
	own(ci);
	query_on();
	char* p = (char*)vs_array_ref(c.kind, c.c, pos);
	query_off();
	return p;
}

static u64 elem_size(Cont& c)
{
	return c.kind == K_ARRAY || c.kind == K_ARRAYBLK ? sizeof(void*) : c.p1;
}

/* what is written in an element: all, or the ends if large */
static u64 elem_step(u64 j, u64 size)
{
	j += 8;
	if (size > 1 << 16 && j >= 1024 && j < size - 1024)
		j = (size - 1024) / 8 * 8;
	return j;
}

/* words of values: any, and some of the pointers that are not to objects */
static u64 word_of(u64 val, u64 i)
{
	u64 x = mix64(val + i);
	if ((x >> 20) & 7)
		return x;
	switch (x % 5) {
	case 0 :
	case 1 : return 0;
	case 2 : return ~0ull;
	case 3 : return x >> 56;
	}
	return (u64)(uintptr_t)cont_base + 128;
}

static void fill_pat(unsigned char* p, u64 n, u64 pat)
{
	for (u64 i = 0; i < n; i = elem_step(i, n)) {
		u64 x = word_of(pat, i / 8);
		memcpy(p + i, &x, n - i < 8 ? n - i : 8);
	}
}

/* check one position: address, disjointness, content */
static void array_check_pos(int ci, u64 pos)
{
	Cont& c = W->conts[ci];
	u64 es = elem_size(c);
	char* p = array_ref(ci, pos);
	auto r = c.addr.insert(std::make_pair(pos, p));
	if (!r.second) {
		if (r.first->second != p)
			fail(CAT_ARRAY, "%s %d: element %llu moved", WHERE(ci), (unsigned long long)pos);
	} else {
		if (!heap_contains(p, es, c.owner))
			fail(CAT_ARRAY, "%s %d: element %llu is not inside memory of the array", WHERE(ci), (unsigned long long)pos);
		auto it = c.byaddr.lower_bound(p);
		if (it != c.byaddr.end() && (u64)(it->first - p) < es)
			fail(CAT_ARRAY, "%s %d: element %llu overlaps element %llu", WHERE(ci), (unsigned long long)pos, (unsigned long long)it->second);
		if (it != c.byaddr.begin()) {
			--it;
			if ((u64)(p - it->first) < es)
				fail(CAT_ARRAY, "%s %d: element %llu overlaps element %llu", WHERE(ci), (unsigned long long)pos, (unsigned long long)it->second);
		}
		c.byaddr[p] = pos;
	}
	auto v = c.vals.find(pos);
	const unsigned char* b = (const unsigned char*)p;
	if (v == c.vals.end()) {
		for (u64 i = 0; i < es; i = es > 1u << 16 && i == 1023 ? es - 1024 : i + 1)
			if (b[i])
				fail(CAT_ARRAY, "%s %d: element %llu was never stored and is not zero", WHERE(ci), (unsigned long long)pos);
	} else {
		unsigned char w[16];
		for (u64 i = 0; i < es; i = elem_step(i, es)) {
			u64 m = es - i < 8 ? es - i : 8;
			u64 x = word_of(v->second, i / 8);
			memcpy(w, &x, 8);
			if (memcmp(w, b + i, m) != 0)
				fail(CAT_ARRAY, "%s %d: element %llu lost the value stored", WHERE(ci), (unsigned long long)pos);
		}
	}
	if (c.kind == K_ARRAY || c.kind == K_ARRAYBLK) {
		void* got;
		own(ci);
		query_on();
		got = vs_array_get(c.kind, c.c, pos);
		query_off();
		if (memcmp(&got, p, sizeof(got)) != 0)
			fail(CAT_ARRAY, "%s %d: get of element %llu differs from what is stored there", WHERE(ci), (unsigned long long)pos);
	}
}

static void array_size_check(int ci)
{
	Cont& c = W->conts[ci];
	own(ci);
	u64 n = vs_array_size(c.kind, c.c);
	if (n != c.asize)
		fail(CAT_ARRAY, "%s %d: size is %llu instead of %llu", WHERE(ci), (unsigned long long)n, (unsigned long long)c.asize);
}

static void array_edges(int ci, u64 from, u64 to)
{
	/* positions of [from, to) next to a boundary of any kind */
	Cont& c = W->conts[ci];
	if (from >= to)
		return;
	(void)c;
	array_check_pos(ci, from);
	array_check_pos(ci, to - 1);
	for (int b = 0; b < vs_size_bit && (1ull << b) < to; ++b)
		for (int d = -1; d <= 1; ++d) {
			u64 p = (1ull << b) + d;
			if (p >= from && p < to)
				array_check_pos(ci, p);
		}
	Rng r(mix64(from * 31 + to));
	for (int i = 0; i < 8; ++i)
		array_check_pos(ci, from + r.below(to - from));
	/* around a random block boundary */
	u64 blk = c.kind == K_ARRAYBLKOF ? vs_blkof : vs_blk;
	u64 nb = (to - 1) / blk;
	for (int i = 0; i < 3 && nb; ++i) {
		u64 p = (1 + r.below(nb)) * blk;
		if (p >= from && p < to)
			array_check_pos(ci, p);
		if (p - 1 >= from && p - 1 < to)
			array_check_pos(ci, p - 1);
	}
}

static void check_array(int ci)
{
	Cont& c = W->conts[ci];
	array_size_check(ci);
	if (c.asize <= 600) {
		for (u64 i = 0; i < c.asize; ++i)
			array_check_pos(ci, i);
	} else {
		array_edges(ci, 0, c.asize);
		if (c.vals.size() <= 20000) {
			for (auto& v : c.vals)
				array_check_pos(ci, v.first);
		} else {
			Rng r(mix64(W->ops_run));
			for (int i = 0; i < 2000; ++i) {
				auto it = c.vals.lower_bound(r.below(c.asize));
				if (it != c.vals.end())
					array_check_pos(ci, it->first);
			}
		}
	}
}

/* what is written in a block: all, or the ends if huge */
static u64 block_step(u64 j, u64 size)
{
	j += 8;
	if (size > 1 << 20 && j >= 1024 && j < size - 1024)
		j = (size - 1024) / 8 * 8;
	return j;
}

static void block_content(int ci, u32 i)
{
	Cont& c = W->conts[ci];
	Block& b = c.blocks[i];
	for (u64 j = 0; j < c.p1; j = block_step(j, c.p1)) {
		u64 x = mix64(b.pat + j / 8);
		u64 m = c.p1 - j < 8 ? c.p1 - j : 8;
		if (memcmp(&x, b.p + j, m) != 0)
			fail(CAT_BLOCK, "allocator %d: content of a live block changed at offset %llu", ci, (unsigned long long)j);
	}
}

static void check_alloc(int ci)
{
	Cont& c = W->conts[ci];
	for (u32 i = 0; i < c.blocks.size(); ++i)
		block_content(ci, i);
}

static void full_check(int ci)
{
	Cont& c = W->conts[ci];
	c.since = 0;
	W->cb.what = "check";
	W->checking = true;
	if (c.kind == K_LIST) {
		check_list(ci);
	} else if (is_mm(c.kind)) {
		check_mm(ci);
	} else if (is_array(c.kind)) {
		check_array(ci);
	} else if (c.kind == K_ALLOC) {
		check_alloc(ci);
	}
	check_count(ci);
	if (is_iter(c.kind) && !vast_table(c))
		do_foreach(ci, W->ops_run & 1, false);
	check_memory(ci);
	cont_gap_check(ci);
	W->checking = false;
}

/* ---- operations --------------------------------------------------------------------- */

struct Before {
	u64 req, frees;
};
static Before before;

static void op_begin(int ci, const char* what)
{
	own(ci);
	W->cb.what = what;
	W->cb.calls = 0;
	before.req = H.own[H.owner].req;
	before.frees = H.own[H.owner].frees;
}

static void op_end(int ci, bool growing)
{
	Cont& c = W->conts[ci];
	OwnerStat& s = H.own[c.owner];
	if (WANT(CAT_WORK) && c.kind == K_HASHLIN && s.req - before.req > 1)
		fail(CAT_WORK, "hashlin %d: %llu heap requests in one operation", ci, (unsigned long long)(s.req - before.req));
	if (WANT(CAT_LOAD) && growing && (c.kind == K_HASHLIN || is_array(c.kind)) && s.frees != before.frees)
		fail(CAT_LOAD, "%s %d: memory released while growing", WHERE(ci));
	if (s.req != before.req && is_hash(c.kind)) {
		if (growing)
			c.grown = true;
		else
			c.shrunk = true;
	}
}

static void insert_elem(int ci, u32 e, Obj* o, u64 key, bool at_head)
{
	Cont& c = W->conts[ci];
	Elem& el = W->elems[e];
	el.obj = o;
	el.key = c.kind == K_TREE ? o->key : key & c.mask;
	el.cont = -1;
	op_begin(ci, "insert");
	if (c.kind == K_LIST && at_head) {
		vs_list_insert_head(c.c, node_at(e), data_of(e));
		model_insert(ci, e, true);
	} else if (c.kind == K_TREE) {
		auto it = c.tree.find(rank_of(c, o->key));
		void* want = data_of(it == c.tree.end() ? e : it->second);
		o->ref += 1; /* it is alive during the call */
		void* got = vs_insert(c.kind, c.c, node_at(e), data_of(e), 0);
		o->ref -= 1;
		if (got != want)
			fail(CAT_RES, "tree %d: insertion of a value %s returned %s", ci, it == c.tree.end() ? "not present" : "already present", got == data_of(e) ? "the new element" : got == 0 ? "0" : "something else");
		if (it != c.tree.end()) {
			/* rejected: gone at once */
			node_kill(e);
			if (o->ref == 0)
				obj_kill(o);
			STAT("tree: equal element rejected", 1);
		} else {
			model_insert(ci, e, false);
		}
	} else {
		vs_insert(c.kind, c.c, node_at(e), data_of(e), el.key);
		model_insert(ci, e, false);
	}
	op_end(ci, true);
}

static void removed(int ci, u32 e, void* got, const char* how)
{
	Elem& el = W->elems[e];
	if (got != data_of(e))
		fail(CAT_RES, "%s %d: %s of key %#llx returned %s", WHERE(ci), how, (unsigned long long)el.key, got == 0 ? "0" : "another element");
	op_end(ci, false);
	model_remove(e);
	elem_release(e);
}

/* the first held element with this key that the compare function accepts */
static u32 model_find(Cont& c, u64 key, u64 user, unsigned mode)
{
	if (c.kind == K_TREE) {
		auto it = c.tree.find(rank_of(c, key));
		return it == c.tree.end() ? NIL : it->second;
	}
	auto it = c.keys.find(key);
	if (it == c.keys.end())
		return NIL;
	u32 e = it->second.head;
	if (!is_hash(c.kind))
		return e;
	while (e != NIL && match(mode, user, W->elems[e].obj) != 0)
		e = W->elems[e].next;
	return e;
}

static void set_search(u64 hash, u64 user, unsigned mode, const void* arg)
{
	W->cb.hash = hash;
	W->cb.user = user;
	W->cb.mode = mode;
	W->cb.arg = arg;
}

/*
 * What is given to the compare function of a search: the library only passes
 * it. Of a tree, it takes the place of an element.
 */
struct Arg {
	Obj* probe;
	const void* p;
	Arg(int ci, u64 key, u64 user, u32 held)
	{
		u64 x = mix64(W->ops_run * 3 + key);
		probe = 0;
		if (W->conts[ci].kind != K_TREE) {
			p = held != NIL && x % 3 == 0 ? data_of(held) : any_pointer(ci, x);
		} else if (held != NIL && x % 3 == 0) {
			p = data_of(held);
		} else {
			probe = obj_new(key, user);
			p = probe;
		}
	}
	void end()
	{
		if (probe)
			obj_kill(probe);
	}
};

static void remove_elem(int ci, u32 e)
{
	Cont& c = W->conts[ci];
	op_begin(ci, "remove_existing");
	char* node = node_at(e);
	unsigned char save[512];
	Elem& el = W->elems[e];
	if (c.kind == K_LIST)
		memcpy(save, node, el.nsize);
	void* got = vs_remove_existing(c.kind, c.c, node);
	if (c.kind == K_LIST && WANT(CAT_LINKS) && memcmp(save, node, el.nsize) != 0)
		fail(CAT_LINKS, "list %d: removal changed the node removed", ci);
	removed(ci, e, got, "remove_existing");
}

static void abandon(int ci)
{
	/* the container is gone: so are all its elements */
	Cont& c = W->conts[ci];
	std::vector<u32> h;
	h.swap(c.held);
	c.keys.clear();
	c.tree.clear();
	for (u32 e : h) {
		if (W->elems[e].cont >= 0) {
			unpoison(node_at(e), W->elems[e].nsize);
			elem_release(e);
		}
	}
}

static void trie_empty(int ci, u64 how)
{
	Cont& c = W->conts[ci];
	Rng r(how);
	while (!c.held.empty()) {
		u32 e = pick(c, r.next());
		if (how & 1) {
			remove_elem(ci, e);
		} else {
			u64 key = W->elems[e].key;
			u32 f = c.keys.find(key)->second.head;
			op_begin(ci, "remove");
			void* got = vs_remove(c.kind, c.c, search_cb, 0, key);
			removed(ci, f, got, "remove");
		}
		check_memory(ci);
	}
	if (WANT(CAT_HEAP) && vs_memory_usage(c.kind, c.c) != 0)
		fail(CAT_HEAP, "trie %d: emptied, it still reports %zu bytes", ci, vs_memory_usage(c.kind, c.c));
}

static void cont_done(int ci)
{
	Cont& c = W->conts[ci];
	OwnerStat& s = H.own[c.owner];
	op_begin(ci, "done");
	if (c.kind == K_ALLOC) {
		check_alloc(ci);
		/* the tries lose their inner nodes */
		for (size_t i = 0; i < W->conts.size(); ++i)
			if (W->conts[i].kind == K_TRIE && W->conts[i].alloc == ci)
				abandon(i);
	} else if (is_elem(c.kind)) {
		/* the elements may be gone before the container */
		for (u32 e : c.held) {
			memset(node_at(e), DEADNODE, W->elems[e].nsize);
			poison(node_at(e), W->stride);
		}
	}
	if (is_hash(c.kind) || is_array(c.kind) || c.kind == K_ALLOC) {
		W->cb.what = "done";
		own(ci);
		vs_done(c.kind, c.c);
		if (WANT(CAT_HEAP)) {
			if (s.bytes != 0 || s.blocks != 0)
				fail(CAT_HEAP, "%s %d: deinitialised, it still holds %lld bytes in %lld blocks", WHERE(ci), (long long)s.bytes, (long long)s.blocks);
			if (H.bypass)
				fail(CAT_HEAP, "%s %d: memory taken or released without the configured functions", WHERE(ci));
		}
	}
	if (is_elem(c.kind)) {
		for (u32 e : c.held) {
			slot_verify_dead(e);
			unpoison(node_at(e), W->elems[e].nsize);
		}
		abandon(ci);
	}
}

static void queries(int ci)
{
	/* every query of this container, with an absent and a present key, twice */
	Cont& c = W->conts[ci];
	own(ci);
	u64 d0 = 0, d1 = 0;
	for (int round = 0; round < 3; ++round) {
		u64 d = bytes_digest(c.c, c.size, heap_digest());
		for (u32 e : c.held)
			d = bytes_digest(node_at(e), W->elems[e].nsize, d);
		if (round == 0) {
			d0 = d;
		} else {
			d1 = d;
			if (d0 != d1)
				fail(CAT_QUERY, "%s %d: queries changed the container, its memory or its nodes", WHERE(ci));
			if (round == 2)
				break;
		}
		query_on();
		if (is_elem(c.kind)) {
			u64 n = vs_count(c.kind, c.c);
			if (n != vs_count(c.kind, c.c))
				fail(CAT_QUERY, "%s %d: two counts differ", WHERE(ci));
		}
		if (c.kind != K_LIST && vs_memory_usage(c.kind, c.c) != vs_memory_usage(c.kind, c.c))
			fail(CAT_QUERY, "%s %d: two memory usages differ", WHERE(ci));
		if (is_mm(c.kind) || c.kind == K_TREE) {
			Rng r(W->ops_run + round);
			for (int i = 0; i < 6; ++i) {
				u64 key, user = 0;
				u32 e = pick(c, r.next());
				if (e != NIL && i < 4) {
					key = c.kind == K_TREE ? W->elems[e].obj->key : W->elems[e].key;
					user = W->elems[e].obj->user;
					if (i == 3)
						key ^= 1ull << r.below(vs_size_bit);
				} else {
					key = r.next();
				}
				if (c.kind != K_TREE)
					key &= c.mask;
				Arg arg(ci, key, user, e != NIL && i < 3 ? e : NIL);
				set_search(key, user, i == 2 ? 1 : 0, arg.p);
				W->cb.what = "search";
				vs_cmp* cb = c.kind == K_TREE ? order_cbs[c.ord] : search_cb;
				void* a = vs_search(c.kind, c.c, cb, arg.p, key);
				void* b = vs_search(c.kind, c.c, cb, arg.p, key);
				if (a != b)
					fail(CAT_QUERY, "%s %d: two searches of key %#llx differ", WHERE(ci), (unsigned long long)key);
				if (c.kind == K_TREE) {
					SubArg s = { rank_of(c, key), (unsigned)r.below(16), W->orders[c.ord] };
					W->cb.sub = &s;
					W->cb.arg = any_pointer(ci, W->ops_run + i);
					a = vs_tree_search_compare(c.c, sub_cb, (void*)W->cb.arg);
					b = vs_tree_search_compare(c.c, sub_cb, (void*)W->cb.arg);
				} else {
					a = vs_bucket(c.kind, c.c, key);
					b = vs_bucket(c.kind, c.c, key);
				}
				if (a != b)
					fail(CAT_QUERY, "%s %d: two queries of key %#llx differ", WHERE(ci), (unsigned long long)key);
				arg.end();
			}
		}
		if (c.kind == K_LIST) {
			vs_list_head(c.c);
			vs_list_tail(c.c);
			vs_list_empty(c.c);
		}
		if (is_array(c.kind)) {
			if (vs_array_size(c.kind, c.c) != c.asize)
				fail(CAT_QUERY, "%s %d: size changed", WHERE(ci));
			Rng r(W->ops_run);
			for (int i = 0; i < 8 && c.asize; ++i) {
				u64 pos = r.below(c.asize);
				if (vs_array_ref(c.kind, c.c, pos) != vs_array_ref(c.kind, c.c, pos))
					fail(CAT_QUERY, "%s %d: two references of element %llu differ", WHERE(ci), (unsigned long long)pos);
				if (c.kind == K_ARRAY || c.kind == K_ARRAYBLK)
					vs_array_get(c.kind, c.c, pos);
			}
		}
		query_off();
		if (is_iter(c.kind) && !vast_table(c)) {
			do_foreach(ci, false, false);
			do_foreach(ci, true, false);
		}
	}
}

static void array_write(int ci, u64 pos, u64 val)
{
	Cont& c = W->conts[ci];
	u64 es = elem_size(c);
	if (c.kind == K_ARRAY || c.kind == K_ARRAYBLK) {
		u64 x = word_of(val, 0);
		void* v;
		memcpy(&v, &x, sizeof(v));
		op_begin(ci, "set");
		query_on();
		vs_array_set(c.kind, c.c, pos, v);
		query_off();
	} else {
		array_check_pos(ci, pos);
		fill_pat((unsigned char*)c.addr[pos], es, val);
	}
	c.vals[pos] = val;
	array_check_pos(ci, pos);
}

static void array_grow(int ci, u64 to, bool edges)
{
	Cont& c = W->conts[ci];
	u64 old = c.asize;
	op_begin(ci, "grow");
	vs_array_grow(c.kind, c.c, to);
	op_end(ci, true);
	if (to > old)
		c.asize = to;
	array_size_check(ci);
	if (edges)
		array_edges(ci, old, c.asize);
}

static bool is_query(int code)
{
	return code == W_FIND || code == W_FINDH || code == W_SUBFIND || code == W_EACH || code == W_BUCKET || code == W_BUCKETH;
}

static void count_cb(void* arg, void*)
{
	++*(u64*)arg;
}

static void execute(const Op& o)
{
	if (W->conts.empty())
		return;
	int ci = o.c % W->conts.size();
	Cont& c = W->conts[ci];
	struct Busy {
		unsigned* p;
		unsigned v;
		~Busy() { *p = v; }
	} busy = { &c.busy, c.busy };
	if (c.busy) {
		/* inside a callback of the same container: queries only */
		if (c.busy != 1 || !is_query(o.code))
			return;
		if (o.code == W_EACH) {
			u64 n = 0;
			STAT("nested: iteration inside an iteration", 1);
			own(ci);
			if (vast_table(c))
				return;
			vs_foreach_arg(c.kind, c.c, count_cb, &n);
			if (n != c.held.size())
				fail(CAT_ITER, "%s %d: iteration inside a callback made %llu calls with %zu elements held", WHERE(ci), (unsigned long long)n, c.held.size());
			return;
		}
		STAT("nested: query inside an iteration", 1);
	} else {
		c.busy = is_query(o.code) ? 1 : 2;
	}
	switch (o.code) {
	case W_INS :
	case W_INSHEAD : {
		if (!is_elem(c.kind))
			return;
		Obj* obj = obj_new(o.k, o.u);
		u32 e = node_new(c.kind);
		insert_elem(ci, e, obj, o.k, o.code == W_INSHEAD);
		break;
	}
	case W_SHARE : {
		if (!is_elem(c.kind) || W->live.empty())
			return;
		Obj* obj = W->live[o.n % W->live.size()];
		u32 e = node_new(c.kind);
		insert_elem(ci, e, obj, o.k, o.u & 1);
		STAT("object in several containers", obj->ref > 1);
		break;
	}
	case W_REM :
	case W_REMH : {
		if (!is_mm(c.kind) && c.kind != K_TREE)
			return;
		u64 key = o.k, user = o.u;
		u32 h = NIL;
		if (o.code == W_REMH) {
			h = pick(c, o.k);
			if (h == NIL)
				return;
			key = c.kind == K_TREE ? W->elems[h].obj->key : W->elems[h].key;
			user = W->elems[h].obj->user;
		}
		if (c.kind != K_TREE)
			key &= c.mask;
		u32 e = model_find(c, key, user, o.n);
		Arg arg(ci, key, user, h);
		op_begin(ci, "remove");
		set_search(key, user, o.n, arg.p);
		void* got = vs_remove(c.kind, c.c, c.kind == K_TREE ? order_cbs[c.ord] : search_cb, arg.p, key);
		arg.end();
		if (e == NIL) {
			if (got)
				fail(CAT_RES, "%s %d: removal of key %#llx, not held, returned an element", WHERE(ci), (unsigned long long)key);
			if (WANT(CAT_RES) && H.own[c.owner].req != before.req && c.kind == K_HASHLIN)
				fail(CAT_RES, "%s %d: a removal that found nothing used the heap", WHERE(ci));
			STAT("removal of an absent key", 1);
		} else {
			if (is_mm(c.kind) && c.keys.find(key)->second.count > 1)
				STAT("removal by key among duplicates", 1);
			removed(ci, e, got, "remove");
		}
		break;
	}
	case W_REX : {
		if (!is_elem(c.kind))
			return;
		u32 e = pick(c, o.k);
		if (e == NIL)
			return;
		remove_elem(ci, e);
		break;
	}
	case W_REXDUP : {
		if (!is_elem(c.kind))
			return;
		u32 e = pick(c, o.k);
		if (e == NIL)
			return;
		if (is_mm(c.kind)) {
			Chain& ch = c.keys.find(W->elems[e].key)->second;
			u32 n = o.n % ch.count;
			if (n == ch.count - 1) {
				e = ch.tail;
			} else if (n <= 1000) {
				e = ch.head;
				while (n--)
					e = W->elems[e].next;
			}
			if (W->elems[e].prev != NIL && W->elems[e].next != NIL)
				STAT("duplicate removed from the middle", 1);
		}
		remove_elem(ci, e);
		break;
	}
	case W_READD : {
		/* out and in again with the same node, as it is */
		if (!is_elem(c.kind))
			return;
		u32 e = pick(c, o.k);
		if (e == NIL)
			return;
		op_begin(ci, "remove_existing");
		void* got = vs_remove_existing(c.kind, c.c, node_at(e));
		Elem& el = W->elems[e];
		if (got != data_of(e))
			fail(CAT_RES, "%s %d: remove_existing of key %#llx returned something else", WHERE(ci), (unsigned long long)el.key);
		op_end(ci, false);
		model_remove(e);
		Obj* obj = el.obj;
		--obj->ref;
		int ti = ci;
		/* in the same container, or in the next one using the same node type */
		if (o.n & 1)
			for (size_t i = 1; i < W->conts.size(); ++i) {
				int x = (ci + i) % W->conts.size();
				if (is_elem(W->conts[x].kind) && (W->conts[x].kind == K_TRIEINP) == (c.kind == K_TRIEINP)) {
					ti = x;
					break;
				}
			}
		if (obj->ref == 0 && W->conts[ti].kind != K_TREE) {
			obj->user = o.u;
			obj->check = obj_sum(obj);
		}
		insert_elem(ti, e, obj, o.u, false);
		STAT("node removed and reinserted at once", 1);
		break;
	}
	case W_FIND :
	case W_FINDH : {
		if (!is_mm(c.kind) && c.kind != K_TREE)
			return;
		u64 key = o.k, user = o.u;
		u32 h = NIL;
		if (o.code == W_FINDH) {
			h = pick(c, o.k);
			if (h == NIL)
				return;
			key = c.kind == K_TREE ? W->elems[h].obj->key : W->elems[h].key;
			user = W->elems[h].obj->user;
		}
		if (c.kind != K_TREE)
			key &= c.mask;
		u32 e = model_find(c, key, user, o.n);
		Arg arg(ci, key, user, h);
		op_begin(ci, "search");
		set_search(key, user, o.n, arg.p);
		query_on();
		void* got = vs_search(c.kind, c.c, c.kind == K_TREE ? order_cbs[c.ord] : search_cb, arg.p, key);
		query_off();
		arg.end();
		void* want = e == NIL ? 0 : data_of(e);
		if (got != want)
			fail(CAT_RES, "%s %d: search of key %#llx returned %s instead of %s", WHERE(ci), (unsigned long long)key, got ? "an element" : "0", want ? "the earliest match" : "0");
		if (WANT(CAT_WORK) && H.own[c.owner].req != before.req)
			fail(CAT_WORK, "%s %d: a search used the heap", WHERE(ci));
		break;
	}
	case W_SUBFIND : {
		if (c.kind != K_TREE)
			return;
		SubArg s = { rank_of(c, o.k), o.n % 64, W->orders[c.ord] };
		if (o.u & 1) {
			u32 h = pick(c, o.k);
			if (h != NIL)
				s.rank = rank_of(c, W->elems[h].obj->key);
		}
		op_begin(ci, "search_compare");
		W->cb.sub = &s;
		W->cb.arg = any_pointer(ci, W->ops_run);
		query_on();
		void* got = vs_tree_search_compare(c.c, sub_cb, (void*)W->cb.arg);
		query_off();
		u64 lo = s.rank >> s.shift << s.shift;
		auto it = c.tree.lower_bound(lo);
		bool any = it != c.tree.end() && it->first >> s.shift == s.rank >> s.shift;
		if (!any && got)
			fail(CAT_RES, "tree %d: sub-order search returned an element where none matches", ci);
		if (any && !got)
			fail(CAT_RES, "tree %d: sub-order search found nothing where an element matches", ci);
		if (got) {
			Obj* go = obj_of(got);
			if (!go || rank_of(c, go->key) >> s.shift != s.rank >> s.shift)
				fail(CAT_RES, "tree %d: sub-order search returned an element that does not match", ci);
			auto f = c.tree.find(rank_of(c, go->key));
			if (f == c.tree.end() || data_of(f->second) != got)
				fail(CAT_RES, "tree %d: sub-order search returned an element that is not held", ci);
		}
		break;
	}
	case W_BUCKET :
	case W_BUCKETH : {
		if (!is_mm(c.kind))
			return;
		u64 key = o.k;
		if (o.code == W_BUCKETH) {
			u32 h = pick(c, o.k);
			if (h == NIL)
				return;
			key = W->elems[h].key;
		}
		key &= c.mask;
		op_begin(ci, "bucket");
		query_on();
		void* head = vs_bucket(c.kind, c.c, key);
		query_off();
		++W->epoch;
		u64 n = walk_bucket(ci, head, !is_hash(c.kind), key);
		auto it = c.keys.find(key);
		if (it == c.keys.end()) {
			if (!is_hash(c.kind) && n)
				fail(CAT_RES, "%s %d: the bucket of absent key %#llx is not empty", WHERE(ci), (unsigned long long)key);
		} else {
			u64 m = 0;
			for (u32 e = it->second.head; e != NIL; e = W->elems[e].next) {
				if (W->elems[e].epoch != W->epoch)
					fail(CAT_RES, "%s %d: an element of key %#llx is missing from its bucket", WHERE(ci), (unsigned long long)key);
				++m;
			}
			if (!is_hash(c.kind) && m != n)
				fail(CAT_RES, "%s %d: the bucket of key %#llx has extra elements", WHERE(ci), (unsigned long long)key);
			STAT("bucket with duplicates walked", m > 1);
		}
		break;
	}
	case W_EACH :
		if (is_iter(c.kind) && !vast_table(c))
			do_foreach(ci, o.n & 1, false);
		break;
	case W_FREEALL :
		if (!is_iter(c.kind))
			return;
		if (vast_table(c)) {
			cont_done(ci);
			cont_init(ci);
			break;
		}
		STAT("iteration freeing the elements", c.held.size() > 1);
		do_foreach(ci, o.n & 1, true);
		for (u32 e : c.held)
			if (W->elems[e].obj->ref == 1) {
				slot_verify_dead(e);
				unpoison(node_at(e), W->elems[e].nsize);
				memset(node_at(e), DEADNODE, W->elems[e].nsize);
			}
		cont_done(ci);
		cont_init(ci);
		break;
	case W_DONE :
		if (c.kind == K_TRIE) {
			trie_empty(ci, o.u);
			STAT("trie emptied", 1);
		} else {
			STAT("deinitialised with elements inside", c.held.size() > 0 || c.asize > 0 || c.blocks.size() > 0);
			cont_done(ci);
			cont_init(ci);
			if (c.kind == K_ALLOC)
				for (size_t i = 0; i < W->conts.size(); ++i)
					if (W->conts[i].kind == K_TRIE && W->conts[i].alloc == ci)
						cont_init(i);
		}
		break;
	case W_FULL :
		for (size_t i = 0; i < W->conts.size(); ++i)
			full_check(i);
		break;
	case W_CONCAT : {
		int oi = o.k % W->conts.size();
		Cont& d = W->conts[oi];
		if (c.kind != K_LIST || d.kind != K_LIST || oi == ci)
			return;
		STAT("concatenation of two non-empty lists", c.head != NIL && d.head != NIL);
		op_begin(ci, "concat");
		vs_list_concat(c.c, d.c);
		/* the second list is no more valid, start it again */
		vs_init(K_LIST, d.c, 0, 0, 0, 0);
		std::vector<u32> moved;
		for (u32 e = d.head; e != NIL; e = W->elems[e].next)
			moved.push_back(e);
		d.held.clear();
		d.head = d.tail = d.ghead = d.gtail = NIL;
		for (u32 e : moved) {
			--W->elems[e].obj->ref;
			model_insert(ci, e, false);
		}
		break;
	}
	case W_SORT : {
		if (c.kind != K_LIST)
			return;
		op_begin(ci, "sort");
		W->cb.order = o.n;
		vs_list_sort(c.c, sort_cb);
		std::vector<u32> v;
		for (u32 e = c.head; e != NIL; e = W->elems[e].next)
			v.push_back(e);
		std::stable_sort(v.begin(), v.end(), [&o](u32 a, u32 b) { return rank_in(W->elems[a].obj->key, o.n) < rank_in(W->elems[b].obj->key, o.n); });
		for (size_t i = 0; i < v.size(); ++i) {
			W->elems[v[i]].prev = i ? v[i - 1] : NIL;
			W->elems[v[i]].next = i + 1 < v.size() ? v[i + 1] : NIL;
		}
		if (!v.empty()) {
			c.head = v.front();
			c.tail = v.back();
		}
		check_list(ci);
		STAT("sort of a list", v.size() > 1);
		break;
	}
	case W_QUERY :
		if (!WANT(CAT_QUERY))
			return;
		if (c.held.size() < 3000 && heap_live_total() < (8u << 20)) {
			queries(ci);
			STAT("queries with snapshot", 1);
		}
		break;
	case W_AGROW : {
		if (!is_array(c.kind))
			return;
		array_grow(ci, o.k & size_mask(), true);
		break;
	}
	case W_ASET :
		if (!is_array(c.kind) || c.asize == 0)
			return;
		array_write(ci, o.k % c.asize, o.u | 1);
		break;
	case W_AGET :
		if (!is_array(c.kind) || c.asize == 0)
			return;
		array_check_pos(ci, o.k % c.asize);
		break;
	case W_AINS : {
		if (!is_array(c.kind))
			return;
		u64 val = o.u | 1;
		u64 pos = c.asize;
		if (c.kind == K_ARRAY || c.kind == K_ARRAYBLK) {
			u64 x = word_of(val, 0);
			void* v;
			memcpy(&v, &x, sizeof(v));
			op_begin(ci, "insert");
			vs_array_insert(c.kind, c.c, v);
			op_end(ci, true);
			c.asize = pos + 1;
			c.vals[pos] = val;
			array_size_check(ci);
			array_check_pos(ci, pos);
		} else {
			array_grow(ci, pos + 1, false);
			array_write(ci, pos, val);
		}
		break;
	}
	case W_ALLOC : {
		if (c.kind != K_ALLOC)
			return;
		for (u32 i = 0; i <= o.n % 64; ++i) {
			op_begin(ci, "alloc");
			char* p = (char*)vs_alloc(c.c);
			u64 req = H.own[c.owner].req - before.req;
			if (p == 0 || (uintptr_t)p % c.align != 0)
				fail(CAT_BLOCK, "allocator %d: block %p is not aligned to %llu", ci, p, (unsigned long long)c.align);
			if (!heap_contains(p, c.p1, c.owner))
				fail(CAT_BLOCK, "allocator %d: block of %llu bytes not inside memory obtained from the heap", ci, (unsigned long long)c.p1);
			auto it = c.byblock.lower_bound(p);
			if (it != c.byblock.end() && (u64)(it->first - p) < c.p1)
				fail(CAT_BLOCK, "allocator %d: block overlaps a live one", ci);
			if (it != c.byblock.begin()) {
				--it;
				if ((u64)(p - it->first) < c.p1)
					fail(CAT_BLOCK, "allocator %d: block overlaps a live one", ci);
			}
			if (!c.trie_alloc && c.nfree) {
				if (req)
					fail(CAT_BLOCK, "allocator %d: heap used with %llu free blocks available", ci, (unsigned long long)c.nfree);
				--c.nfree;
				STAT("freed block reused", 1);
			}
			Block b = { p, mix64(W->ops_run * 64 + i + ((u64)ci << 40)) };
			for (u64 j = 0; j < c.p1; j = block_step(j, c.p1)) {
				u64 x = mix64(b.pat + j / 8);
				memcpy(p + j, &x, c.p1 - j < 8 ? c.p1 - j : 8);
			}
			c.byblock[p] = c.blocks.size();
			c.blocks.push_back(b);
		}
		break;
	}
	case W_AFREE : {
		if (c.kind != K_ALLOC || c.blocks.empty())
			return;
		u32 i = o.k == IDX_NEWEST ? c.blocks.size() - 1 : o.k % c.blocks.size();
		block_content(ci, i);
		Block b = c.blocks[i];
		c.byblock.erase(b.p);
		if (i + 1 != c.blocks.size()) {
			c.blocks[i] = c.blocks.back();
			c.byblock[c.blocks[i].p] = i;
		}
		c.blocks.pop_back();
		op_begin(ci, "free");
		vs_free(c.c, b.p);
		if (!c.trie_alloc)
			++c.nfree;
		break;
	}
	default :
		return;
	}
	if (busy.v)
		return;
	/* after the operation */
	if (o.code != W_FULL) {
		/* counting a list is a walk */
		if (c.kind != K_LIST || c.held.size() <= 64)
			check_count(ci);
		check_memory(ci);
		++c.since;
		if (W->tiny) {
			if (W->allconts) {
				for (size_t i = 0; i < W->conts.size(); ++i)
					if ((int)i == ci || !W->conts[i].busy)
						full_check(i);
			} else {
				full_check(ci);
			}
		} else {
			u64 work = is_array(c.kind) ? 600 : c.kind == K_ALLOC ? c.blocks.size() * (1 + c.p1 / 64) : c.held.size();
			if (c.since > work / 3 + 2)
				full_check(ci);
		}
	}
}

/* ---- operations inside callbacks ----------------------------------------------------- */

/* some operation on another container, or a query of the same */
static Op nested_op(u64 x)
{
	int n = W->conts.size();
	int ci = mix64(x) % n;
	int kind = W->conts[ci].kind;
	Op o = { 0, (uint8_t)ci, (u32)(mix64(x + 1) >> 8), mix64(x + 2), mix64(x + 3) & 3 };
	unsigned y = mix64(x + 4) >> 11 & 0xff;
	if (W->conts[ci].busy)
		y |= 0x80;
	if (kind == K_ALLOC) {
		static const uint8_t m[] = { W_ALLOC, W_AFREE, W_AFREE, W_ALLOC };
		o.code = m[y % 4];
		o.n %= 4;
	} else if (is_array(kind)) {
		static const uint8_t m[] = { W_AGROW, W_ASET, W_AGET, W_AINS };
		o.code = m[y % 4];
		o.k %= 5000;
	} else if (kind == K_LIST) {
		static const uint8_t m[] = { W_INS, W_INSHEAD, W_REX, W_SORT, W_SORT, W_EACH, W_CONCAT, W_REX, W_INS };
		o.code = y & 0x80 ? W_EACH : m[y % 9];
		if (o.code == W_CONCAT) {
			o.k %= n;
			if (W->conts[o.k].busy)
				o.code = W_EACH;
		}
		o.n &= 0x3f;
	} else {
		static const uint8_t m[] = { W_INS, W_INS, W_INS, W_REX, W_REMH, W_REX, W_FINDH, W_BUCKETH, W_EACH, W_SUBFIND };
		static const uint8_t q[] = { W_FINDH, W_FIND, W_BUCKETH, W_EACH, W_SUBFIND };
		o.code = y & 0x80 ? q[y % 5] : m[y % 10];
		if (o.code == W_INS || o.code == W_FIND)
			o.k = mix64(x + 5) & 1 ? o.k : o.k & 63;
		o.n &= 0x1f;
		if ((y & 0x7f) == 0x7f && !(y & 0x80))
			o.code = mix64(x + 6) & 1 ? W_DONE : W_FREEALL;
	}
	return o;
}

enum { NEST_OP = 24, NEST_CASE = 4000 };

static void interrupt()
{
	if (!W->nest || W->depth >= 2 || W->checking)
		return;
	/* they call back too: bounded */
	if (W->nest_op >= NEST_OP || W->nest_case >= NEST_CASE)
		return;
	u64 x = mix64(W->nest_seen++ * 0x51ed27 + W->cs->get("hseed") * 77);
	if (x % W->nest_rate)
		return;
	Op o = nested_op(x);
	unsigned b = W->conts[o.c].busy;
	if (b && (b != 1 || !is_query(o.code)))
		return;
	++W->nest_op;
	++W->nest_case;
	if (W->nest == 2) {
		Deferred d = { o, W->depth + 1, std::vector<unsigned>() };
		for (auto& c : W->conts)
			d.busy.push_back(c.busy);
		W->deferred.push_back(d);
		return;
	}
	STAT("nested: operation inside a callback", 1);
	STAT("nested: at depth 2", W->depth == 1);
	STAT("nested: sort", o.code == W_SORT);
	World::Cb cb = W->cb;
	Before bf = before;
	int owner = H.owner, forbid = H.forbid;
	H.forbid = 0;
	++W->depth;
	execute(o);
	--W->depth;
	H.owner = owner;
	H.forbid = forbid;
	before = bf;
	W->cb = cb;
}

static void run_op(const Op& o)
{
	if (!W->depth)
		W->nest_op = 0;
	execute(o);
	if (W->deferred.empty())
		return;
	std::vector<Deferred> d;
	d.swap(W->deferred);
	for (auto& x : d) {
		std::vector<unsigned> was;
		for (size_t i = 0; i < W->conts.size(); ++i) {
			was.push_back(W->conts[i].busy);
			W->conts[i].busy = x.busy[i];
		}
		int depth = W->depth;
		W->depth = x.depth;
		run_op(x.op);
		W->depth = depth;
		for (size_t i = 0; i < W->conts.size(); ++i)
			W->conts[i].busy = was[i];
	}
}

/* the same keys inserted one by one in another trie must take the same memory */
static void trie_history_check(int ci)
{
	Cont& c = W->conts[ci];
	if (!WANT(CAT_MEM) || c.held.size() > 20000)
		return;
	u64 inner = usage_of(ci) - (u64)c.held.size() * vs_node_sizeof(K_TRIE);
	std::vector<u64> keys;
	for (auto& k : c.keys)
		keys.push_back(k.first);
	std::sort(keys.begin(), keys.end());
	char* t = cont_base + CONT_SLOT * 40 + 64;
	char* a = cont_base + CONT_SLOT * 60 + 64;
	size_t ts = vs_trie_block_size();
	unpoison(t, vs_sizeof(K_TRIE));
	unpoison(a, vs_sizeof(K_ALLOC));
	H.owner = OWNERS - 1;
	vs_init(K_ALLOC, a, ts, ts, 0, 0);
	vs_init(K_TRIE, t, 0, 0, a, 0);
	std::vector<u32> es;
	for (u64 k : keys) {
		u32 e = node_new(K_TRIE);
		es.push_back(e);
		vs_insert(K_TRIE, t, node_at(e), node_at(e), k);
	}
	u64 u = vs_memory_usage(K_TRIE, t) - keys.size() * vs_node_sizeof(K_TRIE);
	vs_done(K_ALLOC, a);
	for (u32 e : es)
		node_kill(e);
	if (u != inner)
		fail(CAT_MEM, "trie %d: %llu bytes of inner nodes for keys that inserted in order take %llu", ci, (unsigned long long)inner, (unsigned long long)u);
	STAT("trie memory compared with a fresh one", keys.size() > 1);
}

/* bytes that the containers can need, with a large margin */
static u64 world_expect()
{
	long double t = 64 << 20;
	for (auto& c : W->conts) {
		long double n = c.maxcount + 64;
		long double pos = std::max(c.asize, W->now.k) + (long double)W->now.n + 5000;
		/* the initial sizes that the build configures */
		if (c.kind == K_HASHDYN || c.kind == K_HASHLIN)
			n += c.kind == K_HASHDYN ? vs_dyn_min : vs_lin_min;
		if (c.kind == K_ARRAY || c.kind == K_ARRAYOF)
			pos += 2.0L * (c.kind == K_ARRAY ? vs_array_min : vs_arrayof_min);
		if (c.kind == K_ARRAYBLK || c.kind == K_ARRAYBLKOF)
			pos += 2.0L * (c.kind == K_ARRAYBLK ? vs_blk : vs_blkof);
		if (c.kind == K_ALLOC || c.kind == K_TRIE)
			t += 4.0L * vs_segment;
		switch (c.kind) {
		case K_HASHTABLE :
			t += 64.0L * (c.p1 + 64);
			break;
		case K_HASHDYN :
		case K_HASHLIN :
			t += n * 64 * sizeof(void*);
			break;
		case K_TRIE :
			t += n * 8192;
			break;
		case K_ARRAY :
		case K_ARRAYBLK :
			t += pos * sizeof(void*) * 8;
			break;
		case K_ARRAYOF :
		case K_ARRAYBLKOF :
			t += pos * c.p1 * 8;
			break;
		case K_ALLOC :
			t += (c.blocks.size() + c.nfree + (long double)W->now.n + 64) * (c.rounded + c.align + 4096) * 4;
			break;
		}
	}
	return t > 9e18L ? (u64)9e18L : (u64)t;
}

void world_run(const Case& cs)
{
	static bool ready;
	if (!ready) {
		node_base = (char*)region_reserve(NODE_REGION, 0);
		obj_base = (char*)region_reserve(OBJ_REGION, 1);
		cont_base = (char*)region_reserve(CONT_SLOT * 80, 2);
		ready = true;
	}
	heap_reset(cs.get("hseed"));
	H.lazy = cs.get("lazyheap") && sizeof(void*) == 8;
	H.guard = cs.get("guardheap") && sizeof(void*) == 8 && !have_asan();
	/* of allocators alone: the blocks are filled by the user */
	H.sparse = sizeof(void*) == 8;
	for (auto& s : cs.conts)
		if (s.kind != K_ALLOC)
			H.sparse = false;
	if (W) {
		/* what the previous case left, if it did not end well */
		poison(node_base, (size_t)(W->elems.size() + 1) * W->stride + 64);
		delete W;
		W = 0;
	}
	W = new World();
	heap_expect = world_expect;
	W->cs = &cs;
	W->freehead = 0;
	W->nobj = 0;
	W->epoch = 0;
	W->fifo = cs.get("fifo");
	W->tiny = cs.get("tiny");
	W->allconts = cs.get("allconts");
	for (int k = 0; k < 4; ++k)
		W->orders[k] = cs.get("orders") ? cs.get("orders") >> (5 * k) & 31 : cs.get("order");
	W->magm = cs.get("mag");
	W->datam = cs.get("data") % D_MAX;
	W->nest = 0;
	W->nest_rate = cs.get("rate", 4) + 1;
	W->nest_seen = 0;
	W->depth = 0;
	W->ops_run = 0;
	W->cb.free = false;
	W->cb.what = "";
	size_t word = sizeof(void*);
	bool inp = false;
	std::vector<ContSpec> specs = cs.conts;
	if (specs.empty())
		return;
	if (specs.size() > 24)
		specs.resize(24);
	for (auto& s : specs)
		if (s.kind == K_TRIEINP)
			inp = true;
	u32 ns = vs_node_sizeof(K_HASHDYN);
	if (inp && vs_node_sizeof(K_TRIEINP) > ns)
		ns = vs_node_sizeof(K_TRIEINP);
	W->after = ns;
	/* nodes are aligned to a pointer and no more */
	W->stride = (ns + 8 + word * (cs.get("stride") % 9) + word - 1) / word * word;
	if (have_asan())
		W->stride = (W->stride + 7) / 8 * 8;
	W->base = word * (cs.get("base") % 8);
	/* tries need an allocator before them */
	std::vector<int> order;
	size_t n0 = specs.size();
	for (size_t i = 0; i < n0; ++i) {
		Cont c = Cont();
		c.kind = specs[i].kind < 0 || specs[i].kind >= K_MAX ? K_LIST : specs[i].kind;
		c.p1 = specs[i].p1;
		c.p2 = specs[i].p2;
		c.ord = i % 4;
		W->conts.push_back(c);
	}
	for (size_t i = 0; i < n0; ++i) {
		if (W->conts[i].kind != K_TRIE)
			continue;
		int a = -1;
		size_t want = W->conts[i].p1;
		if (want < n0 && W->conts[want].kind == K_ALLOC && W->conts[want].p1 == 0)
			a = want;
		if (a < 0) {
			Cont c = Cont();
			c.kind = K_ALLOC;
			c.hidden = true;
			a = W->conts.size();
			W->conts.push_back(c);
		}
		W->conts[i].alloc = a;
	}
	for (size_t i = 0; i < W->conts.size(); ++i) {
		Cont& c = W->conts[i];
		c.c = cont_base + CONT_SLOT * i + 128;
		c.size = vs_sizeof(c.kind);
		if (c.size + 256 > CONT_SLOT)
			give_up("container too big");
		c.owner = c.kind == K_TRIE ? c.alloc : (int)i;
		c.mask = size_mask();
		if (c.kind == K_TRIE && vs_trie_bit < 64)
			c.mask = (1ull << vs_trie_bit) - 1;
		if (c.kind == K_TRIEINP && vs_trieinp_bit < 64)
			c.mask = (1ull << vs_trieinp_bit) - 1;
		c.mask &= size_mask();
		if (c.kind == K_ALLOC) {
			if (c.p1 == 0) {
				c.trie_alloc = true;
				c.p1 = c.p2 = vs_trie_block_size();
			}
			/* the alignment is a power of two */
			u64 al = 1;
			while (al * 2 <= c.p2)
				al *= 2;
			c.p2 = al;
			c.align = al < word ? word : al;
			c.rounded = (c.p1 + c.align - 1) / c.align * c.align;
		}
		if ((c.kind == K_ARRAYOF || c.kind == K_ARRAYBLKOF) && c.p1 == 0)
			c.p1 = 1;
	}
	for (size_t i = 0; i < W->conts.size(); ++i)
		if (W->conts[i].kind == K_ALLOC)
			cont_init(i);
	for (size_t i = 0; i < W->conts.size(); ++i)
		if (W->conts[i].kind != K_ALLOC)
			cont_init(i);
	for (size_t i = 0; i < W->conts.size(); ++i)
		full_check(i);

	W->nest = cs.get("nest");
	for (size_t i = 0; i < cs.ops.size(); ++i) {
		R.op = i;
		W->ops_run = i + 1;
		W->now = cs.ops[i];
		if (R.tracing)
			fprintf(stderr, "op %zu: code %u cont %u n %u k %llu u %llu\n", i, cs.ops[i].code, cs.ops[i].c, cs.ops[i].n, (unsigned long long)cs.ops[i].k, (unsigned long long)cs.ops[i].u);
		run_op(cs.ops[i]);
	}
	R.op = cs.ops.size();
	++W->ops_run;
	W->nest = 0;

	u64 most = 0;
	bool resized = false, both = false;
	for (size_t i = 0; i < W->conts.size(); ++i) {
		Cont& c = W->conts[i];
		full_check(i);
		if (c.kind == K_TRIE)
			trie_history_check(i);
		if (c.maxcount > most)
			most = c.maxcount;
		if (c.asize > most)
			most = c.asize;
		if (c.blocks.size() > most)
			most = c.blocks.size();
		resized |= c.grown || c.shrunk;
		both |= c.grown && c.shrunk;
	}
	STAT("grew", resized);
	STAT("grew and shrank", both);
	STAT("more than 4 elements", most > 4);
	STAT("more than 64 elements", most > 64);
	STAT("more than 1000 elements", most > 1000);
	STAT("more than 30000 elements", most > 30000);
	STAT("more than 500000 elements", most > 500000);
	STAT("more than 2^32 elements", most > 0xffffffffull);
	R.nontrivial = most >= 4 && cs.ops.size() >= 8;
	heap_check();
	/* the end: tries first, emptied or not, allocators last */
	u64 hs = mix64(cs.get("hseed") + 5);
	for (size_t i = 0; i < W->conts.size(); ++i)
		if (W->conts[i].kind == K_TRIE) {
			if ((hs >> i) & 1)
				trie_empty(i, hs >> 3);
		}
	for (size_t i = 0; i < W->conts.size(); ++i)
		if (W->conts[i].kind != K_ALLOC && W->conts[i].kind != K_TRIE)
			cont_done(i);
	for (size_t i = 0; i < W->conts.size(); ++i)
		if (W->conts[i].kind == K_ALLOC) {
			check_memory(i);
			cont_done(i);
		}
	if (WANT(CAT_HEAP) && heap_live_total() != 0)
		fail(CAT_HEAP, "%zu bytes never released", heap_live_total());
	heap_check();
	for (size_t i = W->freehead; i < W->freeslots.size(); ++i)
		slot_verify_dead(W->freeslots[i]);
	poison(node_base, (size_t)(W->elems.size() + 1) * W->stride + 64);
	delete W;
	W = 0;
}
