/*
 * Generators of histories for the world executor.
 */
#include "world.h"
#include <string.h>
#include <algorithm>

/* ---- keys ------------------------------------------------------------------ */

struct KeyGen {
	Rng* r;
	int mode;
	unsigned width;
	u64 base, step, n, spread, counter;
	std::vector<u64> few;

	static u64 rev(u64 v, unsigned w)
	{
		u64 o = 0;
		for (unsigned i = 0; i < w; ++i)
			if ((v >> i) & 1)
				o |= 1ull << (w - 1 - i);
		return o;
	}

	u64 dict()
	{
		if (g_dict.empty())
			return r->next();
		u64 v = g_dict[r->below(g_dict.size())];
		switch (r->below(6)) {
		case 0 : return v + 1;
		case 1 : return v - 1;
		case 2 : return ~v;
		case 3 : return v << r->below(32);
		}
		return v;
	}

	void setup(Rng& rr, u64 expected, int forced = -1)
	{
		r = &rr;
		mode = forced >= 0 ? forced : (int)rr.below(14);
		width = vs_size_bit;
		if (width > 32 && rr.chance(1, 2))
			width = 32;
		counter = 0;
		base = rr.chance(1, 3) ? 0 : rr.chance(1, 2) ? rr.next() : rr.below(1000);
		step = rr.chance(1, 2) ? 1ull << rr.below(width) : rr.next() | 1;
		n = expected ? expected : 1;
		/* of the range of keys in respect of the number of elements */
		static const u64 num[] = { 1, 1, 1, 2, 8 }, den[] = { 16, 2, 1, 1, 1 };
		u64 x = rr.below(5);
		spread = n * num[x] / den[x] + 1;
		few.clear();
		u64 nf = 1 + rr.scaled(12);
		for (u64 i = 0; i < nf; ++i) {
			switch (rr.below(4)) {
			case 0 : few.push_back(rr.next()); break;
			case 1 : few.push_back(base + (1ull << rr.below(width))); break;
			case 2 : few.push_back(base ^ (1ull << rr.below(width))); break;
			default : few.push_back(dict());
			}
		}
	}

	u64 next()
	{
		u64 c = counter++;
		switch (mode) {
		case 0 : return base + c; /* sequential */
		case 1 : return base + c * step; /* strided */
		case 2 : return r->next(); /* random */
		case 3 : return base + r->below(spread); /* dense, with duplicates */
		case 4 : return rev(c, width); /* bit reversed */
		case 5 : return few[r->below(few.size())]; /* many duplicates */
		case 6 : { /* families sharing a prefix */
			u64 f = few[r->below(few.size())];
			unsigned b = r->below(width);
			return f ^ (r->next() & ((2ull << b) - 1));
		}
		case 7 : { /* one or two bits away */
			u64 f = few[r->below(few.size())];
			f ^= 1ull << r->below(width);
			if (r->chance(1, 2))
				f ^= 1ull << r->below(width);
			return f;
		}
		case 8 : { /* same low bits */
			unsigned b = 4 + r->below(12);
			return (r->next() << b) | (base & ((1ull << b) - 1));
		}
		case 9 : return mix64(base ^ c); /* as from a good hash */
		case 10 : return base - c * (step & 3 ? 1 : step); /* descending */
		case 11 : return c << (width > 12 ? width - 12 : 0); /* high bits only */
		case 12 : return r->chance(1, 2) ? dict() : base + r->below(spread);
		default : { /* few low values each with random high bits */
			u64 w = spread / 8 + 1;
			return (r->next() << 16 << (r->below(3) * 4)) + r->below(w);
		}
		}
	}
};

u64 dict_size(Rng& r, u64 max)
{
	/* more often the ones that are not small */
	if (max == 0)
		return 0;
	u64 low = r.chance(3, 4) ? 32 : 8;
	std::vector<u64> v;
	for (u64 x : g_dict)
		if (x > low && x <= max)
			v.push_back(x);
	if (v.empty())
		return r.below(max) + 1;
	u64 x = v[r.below(v.size())];
	switch (r.below(8)) {
	case 0 : x += 1; break;
	case 1 : x -= 1; break;
	case 2 : x += 2; break;
	case 3 : x *= r.range(2, 4); break;
	case 4 : x = x / r.range(2, 3) + r.below(2); break;
	}
	return x > max ? max : x;
}

/* ---- shared helpers ------------------------------------------------------------ */

struct Gen {
	Rng& r;
	const GenCtx& g;
	Case& c;
	KeyGen kg;
	u64 held; /* expected number of elements of the container worked on */
	bool tiny, hash;

	Gen(Rng& rr, const GenCtx& gg, Case& cc) : r(rr), g(gg), c(cc), held(0), tiny(false), hash(true) {}

	void op(int code, int cont, u32 n, u64 k, u64 u)
	{
		c.ops.push_back(Op{ (uint8_t)code, (uint8_t)cont, n, k, u });
	}

	void common()
	{
		c.par["hseed"] = r.below(1 << 16);
		c.par["fifo"] = r.chance(1, 2);
		c.par["mag"] = r.below(3);
		c.par["data"] = r.below(2) ? 0 : r.below(6);
		c.par["order"] = r.below(3) | (r.chance(1, 4) ? r.below(8) << 2 : 0);
		if (r.chance(1, 2)) {
			/* each tree has its own */
			u64 o = 0;
			for (int k = 0; k < 4; ++k)
				o |= (r.below(3) | (r.chance(1, 4) ? r.below(8) << 2 : 0)) << (5 * k);
			c.par["orders"] = o;
		}
		c.par["stride"] = r.below(9);
		c.par["base"] = r.below(8);
	}

	/* how many elements the case is about */
	u64 size()
	{
		u64 top;
		if (g.scale >= 2 && g.index % 40 == 0) {
			top = g.thorough ? 1200000 : 300000;
			return top / 2 + r.below(top / 2);
		}
		unsigned x = r.below(106);
		if (x >= 100 && g.scale)
			return dict_size(r, g.scale >= 2 ? 20000 : 8000);
		if (x < 45 || x >= 100 || g.scale == 0) {
			tiny = true;
			return 1 + r.scaled(60);
		}
		if (x < 85)
			return 1 + r.scaled(2000);
		if (x < 98)
			return 1 + r.scaled(g.scale >= 2 ? 20000 : 8000);
		return 1 + r.scaled(g.scale >= 2 ? 100000 : 20000);
	}

	u64 user() { return r.below(4); }

	u64 pick()
	{
		return r.next() >> 8;
	}
};

/* a target count: near a threshold where something is resized, or any */
static u64 target(Rng& r, u64 max)
{
	if (max < 4)
		return r.below(max + 1);
	u64 t;
	switch (r.below(6)) {
	case 0 : return r.below(max + 1);
	case 1 : return r.scaled(max);
	case 2 : return r.below(3);
	case 3 : return dict_size(r, max);
	default :
		t = 1ull << r.below(64 - __builtin_clzll(max));
		/* a fraction of the way between a threshold and the next */
		if (r.chance(1, 3))
			t += t * r.below(9) / 8;
		t += r.below(7);
		if (t >= 3)
			t -= 3;
		else
			t = 0;
		return t > max ? max : t;
	}
}

/* ---- multimaps and tree ------------------------------------------------------------- */

enum { F_ITER = 1, F_QUERY = 2, F_READD = 4, F_DUP = 8, F_OSC = 16, F_DONE = 32, F_VAST = 64 };

static void mm_remove(Gen& G, int ci, int policy)
{
	Rng& r = G.r;
	u64 k;
	switch (policy) {
	case 0 : k = IDX_OLDEST; break;
	case 1 : k = IDX_NEWEST; break;
	default : k = G.pick();
	}
	switch (r.below(policy == 4 ? 3 : 5)) {
	case 0 : G.op(W_REMH, ci, r.below(3) == 0 ? 1 : 0, k, 0); break;
	case 1 : G.op(W_REXDUP, ci, r.chance(1, 3) ? 0 : r.chance(1, 2) ? 0x7fffffff : (u32)r.below(64), k, 0); break;
	default : G.op(W_REX, ci, 0, k, 0);
	}
	--G.held;
}

static void mm_noise(Gen& G, int ci, unsigned flags)
{
	Rng& r = G.r;
	switch (r.below(12)) {
	case 0 : G.op(W_FIND, ci, r.below(3), G.kg.next(), G.user()); break;
	case 1 :
	case 2 : G.op(W_FINDH, ci, r.below(6) == 0 ? 2 : r.below(2), G.pick(), 0); break;
	case 3 : G.op(W_BUCKET, ci, 0, r.chance(1, 2) ? G.kg.next() : r.next(), 0); break;
	case 4 : G.op(W_BUCKETH, ci, 0, G.pick(), 0); break;
	case 5 : /* removal of what is likely not there */
		G.op(W_REM, ci, 2, G.kg.next(), 0);
		break;
	case 6 :
		if (flags & F_READD || r.chance(1, 4))
			G.op(W_READD, ci, 0, G.pick(), G.kg.next());
		break;
	case 7 :
		if ((flags & F_ITER) || (G.tiny && r.chance(1, 6)))
			G.op(W_EACH, ci, r.below(2), 0, 0);
		break;
	case 8 :
		if (flags & F_QUERY)
			G.op(W_QUERY, ci, 0, 0, 0);
		break;
	case 9 : G.op(W_SUBFIND, ci, r.below(20), G.kg.next(), r.below(2)); break;
	case 10 :
		if (flags & F_READD)
			G.op(W_READD, ci, 0, G.pick(), G.kg.next());
		break;
	}
}

static bool clumped(int mode)
{
	return mode == 1 || (mode >= 4 && mode <= 8) || mode == 10 || mode >= 11;
}

/* keys that spread over the buckets */
static void calm(Gen& G, u64 max)
{
	static const int m[] = { 9, 0, 2, 9, 3 };
	G.kg.setup(G.r, max, m[G.r.below(5)]);
}

/* walk of the element count through targets, with noise */
static void mm_walk(Gen& G, int ci, u64 max, unsigned flags, u64 budget)
{
	Rng& r = G.r;
	u64 used = 0;
	unsigned noise = G.tiny ? 4 : max > 50000 ? 200 : 8 + r.below(40);
	int legs = 1 + r.below(G.tiny ? 8 : 14);
	if (flags & F_OSC)
		legs += 10;
	bool first = true;
	while (legs-- > 0 && used < budget) {
		u64 t = first ? max : target(r, max);
		first = false;
		if (t > G.held && t - G.held > budget - used)
			t = G.held + (budget - used);
		if (t < G.held && G.held - t > budget - used)
			t = G.held - (budget - used);
		int policy = r.below(5);
		while (G.held != t) {
			if (G.held < t) {
				G.op(W_INS, ci, 0, G.kg.next(), G.user());
				++G.held;
			} else {
				mm_remove(G, ci, policy);
			}
			++used;
			if (r.below(noise) == 0) {
				mm_noise(G, ci, flags);
				++used;
			}
			if (r.below(noise * 4) == 0) {
				/* a step in the other direction, or many */
				u64 back = r.scaled(G.held / 4 + 2);
				while (back-- && used < budget) {
					++used;
					if (G.held < t && G.held > 0) {
						mm_remove(G, ci, policy);
					} else {
						G.op(W_INS, ci, 0, G.kg.next(), G.user());
						++G.held;
					}
				}
			}
		}
		/* around the target */
		if (r.chance(1, 2) || (flags & F_OSC)) {
			u64 n = r.scaled(G.tiny ? 12 : 100);
			u64 amp = 1 + r.below(4);
			while (n-- && used < budget) {
				for (u64 i = 0; i < amp; ++i) {
					G.op(W_INS, ci, 0, G.kg.next(), G.user());
					++G.held;
				}
				for (u64 i = 0; i < amp && G.held; ++i)
					mm_remove(G, ci, policy);
				used += 2 * amp;
			}
		}
		if (flags & F_ITER) {
			u32 how = r.below(2);
			G.op(W_EACH, ci, how, 0, 0);
			if (r.chance(1, 2))
				G.op(W_EACH, ci, !how, 0, 0);
		}
		if (flags & F_QUERY)
			G.op(W_QUERY, ci, 0, 0, 0);
		if (r.chance(1, flags & (F_ITER | F_DONE) ? 5 : 20)) {
			G.op(r.chance(1, 2) ? W_FREEALL : W_DONE, ci, r.below(2), 0, r.next());
			G.held = 0;
			if (r.chance(1, 2))
				G.kg.setup(r, max, flags & F_DUP ? (r.chance(1, 2) ? 5 : 3) : -1);
			if (max > 3000 && G.hash && clumped(G.kg.mode))
				calm(G, max);
		}
		/* another family of keys with the same elements inside */
		if (r.chance(1, 4))
			G.kg.setup(r, max, flags & F_DUP ? (r.chance(1, 2) ? 5 : 7) : -1);
		if (max > 3000 && G.hash && clumped(G.kg.mode))
			calm(G, max);
	}
}

/* any interleaving, driven by changing probabilities */
static void mm_random(Gen& G, int ci, u64 nops, unsigned flags)
{
	Rng& r = G.r;
	unsigned pins = 50;
	for (u64 i = 0; i < nops; ++i) {
		if (r.below(30) == 0)
			pins = r.below(101);
		if (r.below(3) == 0) {
			mm_noise(G, ci, flags);
		} else if (r.below(100) < pins || G.held == 0) {
			G.op(W_INS, ci, 0, G.kg.next(), G.user());
			++G.held;
		} else if (r.chance(1, 4)) {
			G.op(W_REM, ci, r.below(2), G.kg.next(), G.user());
		} else {
			mm_remove(G, ci, 2 + r.below(3));
		}
	}
}

static void make_one(Gen& G, int kind, unsigned flags)
{
	Rng& r = G.r;
	u64 p1 = 0;
	u64 max = G.size();
	G.hash = kind <= K_HASHLIN;
	if (kind == K_HASHTABLE) {
		/* any bucket count may be asked for */
		switch (r.below(7)) {
		case 5 : p1 = dict_size(r, 100000); break;
		case 0 : p1 = r.below(40); break;
		case 1 : p1 = (1ull << r.below(14)) + r.below(3) - 1; break;
		case 2 : p1 = r.scaled(100000); break;
		case 3 : p1 = 0; break;
		default : p1 = max * 4 / 3;
		}
		if (max > 30000 && p1 < max / 8)
			p1 = max / 8;
		/* address space is not touched where nothing is */
		if ((flags & F_VAST) && vs_size_bit == 64 && !have_asan()) {
			p1 = (1ull << r.range(28, 35)) + r.below(4) - 2;
			if (max > 8000)
				max = 1 + r.below(8000);
			G.c.par["guardheap"] = 1;
		}
	}
	G.c.conts.push_back(ContSpec{ kind, kind == K_TRIE ? 99 : p1, 0 });
	int forced = -1;
	if (flags & F_DUP) {
		static const int d[] = { 3, 5, 7, 12, 13 };
		forced = d[r.below(5)];
	}
	G.kg.setup(r, max, forced);
	/* everything in few buckets is quadratic */
	if (max > 3000 && G.hash && clumped(G.kg.mode)) {
		/* everything in few buckets is quadratic */
		if (max > 50000)
			calm(G, max);
		else
			max = 3000;
	}
	G.c.par["tiny"] = G.tiny;
	G.held = 0;
	if (G.tiny && r.chance(1, 2))
		mm_random(G, 0, 10 + r.below(200), flags);
	else
		mm_walk(G, 0, max, flags, max > 50000 ? max * 5 / 2 : 200 + max * 6);
}

static void list_ops(Gen& G, std::vector<int> ls, u64 nops, unsigned flags)
{
	Rng& r = G.r;
	unsigned pins = 60;
	for (u64 i = 0; i < nops; ++i) {
		int ci = ls[r.below(ls.size())];
		if (r.below(30) == 0)
			pins = r.below(101);
		unsigned x = r.below(100);
		if (x < 70) {
			if (r.below(100) < pins)
				G.op(r.chance(1, 2) ? W_INS : W_INSHEAD, ci, 0, G.kg.next(), G.user());
			else
				G.op(W_REX, ci, 0, r.chance(1, 4) ? IDX_OLDEST : r.chance(1, 3) ? IDX_NEWEST : G.pick(), 0);
		} else if (x < 76) {
			G.op(W_READD, ci, r.below(2), G.pick(), G.kg.next());
		} else if (x < 80) {
			G.op(W_SHARE, ci, r.next() & 0xffffff, 0, r.below(2));
		} else if (x < 86) {
			G.op(W_CONCAT, ci, 0, ls[r.below(ls.size())], 0);
		} else if (x < 90) {
			if (nops < 2000 || r.below(nops / 200) == 0)
				G.op(W_SORT, ci, r.below(3) | (r.chance(1, 3) ? r.below(64) << 2 : 0), 0, 0);
		} else if (x < 92 || (x < 96 && (flags & F_ITER))) {
			if (nops < 2000 || r.below(nops / 200) == 0)
				G.op(W_EACH, ci, r.below(2), 0, 0);
		} else if (x == 97) {
			if (flags & F_QUERY)
				G.op(W_QUERY, ci, 0, 0, 0);
		} else if (x == 98) {
			if (r.chance(1, flags & F_ITER ? 2 : 8))
				G.op(W_FREEALL, ci, r.below(2), 0, 0);
		} else if (x == 99) {
			if (r.chance(1, 8))
				G.op(W_DONE, ci, 0, 0, 0);
		}
	}
}

static void make_list(Gen& G, unsigned flags)
{
	Rng& r = G.r;
	u64 max = G.size();
	if (max > 20000)
		max = 20000;
	int n = 1 + r.below(4);
	std::vector<int> ls;
	for (int i = 0; i < n; ++i) {
		G.c.conts.push_back(ContSpec{ K_LIST, 0, 0 });
		ls.push_back(i);
	}
	G.kg.setup(r, max, r.chance(1, 2) ? 3 : -1);
	G.c.par["tiny"] = G.tiny;
	if (!G.tiny && r.chance(1, 4)) {
		/* so many */
		u64 t = dict_size(r, max < 5000 ? 5000 : max);
		for (u64 i = 0; i < t; ++i)
			G.op(r.chance(1, 2) ? W_INS : W_INSHEAD, 0, 0, G.kg.next(), G.user());
		for (int i = 0; i < 4; ++i) {
			if (flags & F_QUERY)
				G.op(W_QUERY, 0, 0, 0, 0);
			if ((flags & F_ITER) || r.chance(1, 4))
				G.op(W_EACH, 0, i & 1, 0, 0);
			G.op(i == 2 ? W_SORT : r.chance(1, 2) ? W_INS : W_REX, 0, 0, G.pick(), 0);
		}
	}
	list_ops(G, ls, G.tiny ? 4 + r.below(120) : max * 3 / 2 + 20, flags);
}

/* ---- arrays ---------------------------------------------------------------------- */

static u64 elem_size_pick(Rng& r, bool big)
{
	static const u64 s[] = { 1, 2, 3, 4, 5, 7, 8, 12, 16, 17, 24, 32, 33, 48, 64, 100, 128 };
	if (!big && r.below(10) == 0)
		return dict_size(r, 5000);
	if (big || r.chance(3, 4))
		return s[r.below(sizeof(s) / sizeof(s[0]))];
	return 1 + r.scaled(3000);
}

/* sizes where a segment or a block begins */
static u64 array_target(Rng& r, int kind, u64 max)
{
	u64 blk = kind == K_ARRAYBLKOF ? vs_blkof : vs_blk;
	u64 t;
	switch (r.below(5)) {
	case 3 : t = max ? dict_size(r, max) : 0; break;
	case 0 : t = r.scaled(max); break;
	case 1 : t = (1ull << r.below(64 - __builtin_clzll(max | 1))) + r.below(5) - 2; break;
	case 2 : t = blk * r.scaled(max / blk + 1) + r.below(5) - 2; break;
	default : t = r.below(max + 1);
	}
	return t > max ? max : t;
}

static void array_ops(Gen& G, int ci, int kind, u64 es, u64 max, u64 nops, unsigned flags)
{
	Rng& r = G.r;
	u64 size = 0;
	(void)es;
	for (u64 i = 0; i < nops; ++i) {
		switch (r.below(flags & F_QUERY ? 12 : 11)) {
		case 0 :
		case 1 : {
			u64 t;
			switch (r.below(5)) {
			case 0 : t = size + 1; break;
			case 1 : t = size; break;
			case 2 : t = size ? r.below(size) : 0; break; /* does nothing */
			case 3 : t = size + r.scaled(64); break;
			default : t = array_target(r, kind, max);
			}
			if (t > max)
				t = max;
			G.op(W_AGROW, ci, 0, t, 0);
			if (t > size)
				size = t;
			break;
		}
		case 2 :
		case 3 :
		case 4 :
		case 5 : {
			u64 k = r.next() >> 1;
			if (size && r.chance(1, 2)) {
				/* next to a boundary */
				k = array_target(r, kind, size - 1);
				if (r.chance(1, 8))
					k = size - 1;
			}
			G.op(W_ASET, ci, 0, k, r.next());
			break;
		}
		case 6 :
		case 7 :
			G.op(W_AGET, ci, 0, size && r.chance(1, 2) ? array_target(r, kind, size - 1) : r.next() >> 1, 0);
			break;
		case 8 :
		case 9 : {
			u64 n = 1;
			if (r.chance(1, 10))
				n = 1 + r.scaled(G.tiny ? 80 : 3000);
			while (n-- && size < max) {
				G.op(W_AINS, ci, 0, 0, r.next());
				++size;
			}
			break;
		}
		case 10 :
			if (r.chance(1, flags & F_DONE ? 8 : 30)) {
				G.op(W_DONE, ci, 0, 0, 0);
				size = 0;
			}
			break;
		case 11 :
			G.op(W_QUERY, ci, 0, 0, 0);
		}
	}
}

static void make_array(Gen& G, int kind, unsigned flags)
{
	Rng& r = G.r;
	bool huge = G.g.scale >= 2 && vs_size_bit == 64 && (kind == K_ARRAY || kind == K_ARRAYOF) && !have_asan() && G.g.index % 10 == 0;
	/* blocked arrays with many blocks */
	bool many = G.g.scale >= 2 && vs_size_bit == 64 && (kind == K_ARRAYBLK || kind == K_ARRAYBLKOF) && !have_asan() && G.g.index % 12 == 0;
	/* elements so large that 32 bits are not enough for the size of a block or a segment */
	bool large = !huge && !many && vs_size_bit == 64 && (kind == K_ARRAYOF || (kind == K_ARRAYBLKOF && vs_blkof == 4096)) && r.below(16) == 0;
	u64 es = kind == K_ARRAY || kind == K_ARRAYBLK ? sizeof(void*) : elem_size_pick(r, huge || many);
	u64 max;
	G.tiny = r.chance(1, 3);
	if (huge) {
		G.tiny = false;
		es = kind == K_ARRAY ? 8 : 1 + r.below(3);
		max = (1ull << 32) + r.below(1ull << 32);
		if (r.chance(1, 4))
			max = (1ull << 33) + 5;
	} else if (many) {
		G.tiny = false;
		es = kind == K_ARRAYBLK ? 8 : 1 + r.below(3);
		max = (1ull << 32) + r.below(1ull << 26);
		G.c.par["lazyheap"] = 1;
	} else if (large) {
		G.tiny = r.chance(1, 2);
		es = (1ull << (kind == K_ARRAYOF ? 18 + r.below(9) : 17 + r.below(5))) + (r.chance(1, 2) ? 0 : r.below(100000));
		max = kind == K_ARRAYOF ? 1 + r.scaled(600) : 1 + r.scaled(20000);
	} else if (G.tiny) {
		max = 1 + r.scaled(300);
	} else {
		u64 bytes = have_asan() ? 4u << 20 : vs_size_bit == 64 ? 24u << 20 : 12u << 20;
		max = r.chance(1, 2) ? 1 + r.scaled(30000) : 1 + r.scaled(bytes / es);
		if (max * es > bytes)
			max = bytes / es + 1;
		if (kind == K_ARRAYBLK || kind == K_ARRAYBLKOF) {
			u64 blk = kind == K_ARRAYBLK ? vs_blk : vs_blkof;
			/* neither large blocks of large elements nor too many blocks */
			if (kind == K_ARRAYBLKOF && blk * es > bytes)
				es = 1 + r.below(bytes / blk);
			if (max > blk * 3000)
				max = blk * 3000;
		}
	}
	G.c.conts.push_back(ContSpec{ kind, es, 0 });
	/* full checks of large blocked arrays after each operation cost */
	G.c.par["tiny"] = G.tiny && (kind == K_ARRAY || kind == K_ARRAYOF || r.chance(1, 3));
	array_ops(G, 0, kind, es, max, huge ? 20 + r.below(60) : many ? 12 + r.below(30) : G.tiny ? 5 + r.below(60) : 20 + r.below(400), flags);
	if (huge || many)
		G.op(W_AGROW, 0, 0, max, 0);
}

/* ---- allocator --------------------------------------------------------------------- */

static ContSpec alloc_spec(Rng& r, bool huge = false)
{
	ContSpec s;
	s.kind = K_ALLOC;
	switch (r.below(7)) {
	case 5 : s.p1 = dict_size(r, 70000); break;
	case 0 : s.p1 = 1 + r.below(16); break;
	case 1 : s.p1 = 1 + r.scaled(300); break;
	case 2 : s.p1 = 1ull << r.below(13); break;
	case 3 : { /* near a divisor of the segment */
		u64 d = 1 + r.scaled(60);
		s.p1 = vs_segment / d + r.below(3);
		if (s.p1 == 0)
			s.p1 = 1;
		if (s.p1 > 1 && r.chance(1, 2))
			--s.p1;
		break;
	}
	case 4 : s.p1 = vs_segment > 130 && vs_segment < 70000 ? vs_segment - 130 + r.below(300) : 1 + r.scaled(300); break;
	default : s.p1 = 1 + r.scaled(12000);
	}
	switch (r.below(5)) {
	case 0 : s.p2 = 1; break;
	case 1 : s.p2 = 1ull << r.below(5); break;
	case 2 : s.p2 = s.p1 & (~s.p1 + 1); break;
	default : s.p2 = 1ull << r.below(13);
	}
	if (huge) {
		/* sizes that do not fit 32 bits */
		if (r.below(3))
			s.p1 = (1ull << 32) * r.below(3) + (r.chance(1, 2) ? r.below(100) : -r.below(100)) + 4096;
		if (r.below(3) == 0)
			s.p2 = 1ull << (31 + r.below(3));
	}
	return s;
}

static void alloc_ops(Gen& G, int ci, u64 nops, u64 maxlive, unsigned flags)
{
	bool few = maxlive <= 10;
	Rng& r = G.r;
	u64 live = 0;
	bool up = true;
	if (!few && r.below(4) == 0) {
		/* so many */
		u64 n = dict_size(r, maxlive);
		for (; live < n; live += 60)
			G.op(W_ALLOC, ci, n - live < 60 ? n - live - 1 : 59, 0, 0);
		live = n;
		while (r.below(4) && live) {
			G.op(W_AFREE, ci, 0, r.next() >> 1, 0);
			--live;
		}
	}
	for (u64 i = 0; i < nops; ++i) {
		if (r.below(12) == 0)
			up = r.chance(1, 2);
		if (live > maxlive)
			up = false;
		if (up || live == 0) {
			u64 n = r.chance(1, 3) && !few ? r.below(64) : r.below(3);
			G.op(W_ALLOC, ci, n, 0, 0);
			live += n + 1;
		} else {
			u64 n = 1 + r.scaled(live > 40 ? 40 : live);
			int how = r.below(3);
			while (n-- && live) {
				G.op(W_AFREE, ci, 0, how == 0 ? IDX_NEWEST : how == 1 ? 0 : r.next() >> 1, 0);
				--live;
			}
		}
		if (r.below(flags & F_DONE ? 30 : 200) == 0) {
			G.op(W_DONE, ci, 0, 0, 0);
			live = 0;
		}
		if ((flags & F_QUERY) && r.below(10) == 0)
			G.op(W_QUERY, ci, 0, 0, 0);
	}
}

static void make_alloc(Gen& G, unsigned flags)
{
	Rng& r = G.r;
	int n = r.chance(1, 4) ? 2 : 1;
	bool huge = sizeof(void*) == 8 && r.below(60) == 0;
	for (int i = 0; i < n; ++i)
		G.c.conts.push_back(alloc_spec(r, huge));
	bool small = G.c.conts[0].p1 <= 600;
	for (int i = 0; i < n; ++i) {
		u64 nops = huge || r.chance(1, 2) ? 2 + r.below(40) : 10 + r.below(small ? 400 : 120);
		alloc_ops(G, i, nops, huge ? 10 : small ? 3000 : 200, flags);
	}
	if (n == 2) /* interleaved */
		for (size_t i = G.c.ops.size() - 1; i > 0; --i)
			if (r.chance(1, 2))
				std::swap(G.c.ops[i], G.c.ops[r.below(i + 1)]);
	G.c.par["tiny"] = G.c.ops.size() < 80;
}

/* ---- several containers at once --------------------------------------------------------- */

static void make_mixed(Gen& G, unsigned flags)
{
	Rng& r = G.r;
	Case& c = G.c;
	int n = 2 + r.below(7);
	G.tiny = r.chance(1, 2);
	std::vector<int> tries;
	std::vector<u64> held(40, 0);
	int shared = -1;
	for (int i = 0; i < n; ++i) {
		int kind = r.below(K_MAX);
		if (r.chance(1, 4))
			kind = K_TRIE;
		ContSpec s = { kind, 0, 0 };
		switch (kind) {
		case K_HASHTABLE : s.p1 = r.below(60); break;
		case K_TRIE :
			if (shared < 0 && c.conts.size() < 20) {
				/* an allocator of two or more tries */
				shared = c.conts.size();
				c.conts.push_back(ContSpec{ K_ALLOC, 0, 0 });
			}
			s.p1 = r.chance(2, 3) ? shared : 99;
			break;
		case K_ARRAYOF :
		case K_ARRAYBLKOF : s.p1 = elem_size_pick(r, true); break;
		case K_ALLOC : s = alloc_spec(r); break;
		}
		c.conts.push_back(s);
	}
	if (shared >= 0 && r.chance(2, 3))
		c.conts.push_back(ContSpec{ K_TRIE, (u64)shared, 0 });
	n = c.conts.size();
	std::vector<KeyGen> kgs(n);
	for (int i = 0; i < n; ++i)
		kgs[i].setup(r, 200);
	c.par["tiny"] = G.tiny;
	c.par["allconts"] = 1;
	u64 nops = G.tiny ? 20 + r.below(150) : 100 + r.scaled(6000);
	int ci = 0;
	unsigned pins = 60;
	for (u64 i = 0; i < nops; ++i) {
		if (r.below(4) != 0)
			ci = r.below(n);
		if (r.below(40) == 0)
			pins = 20 + r.below(80);
		int kind = c.conts[ci].kind;
		G.kg = kgs[ci];
		G.kg.r = &r;
		if (kind == K_ALLOC) {
			if (r.chance(1, 2))
				G.op(W_ALLOC, ci, r.below(6), 0, 0);
			else
				G.op(W_AFREE, ci, 0, r.next() >> 1, 0);
			if (r.below(100) == 0)
				G.op(W_DONE, ci, 0, 0, 0);
		} else if (kind >= K_ARRAY) {
			switch (r.below(5)) {
			case 0 : G.op(W_AGROW, ci, 0, r.scaled(6000), 0); break;
			case 1 : G.op(W_AINS, ci, 0, 0, r.next()); break;
			case 2 : G.op(W_AGET, ci, 0, r.next() >> 1, 0); break;
			default : G.op(W_ASET, ci, 0, r.next() >> 1, r.next());
			}
			if (r.below(100) == 0)
				G.op(W_DONE, ci, 0, 0, 0);
		} else {
			unsigned x = r.below(100);
			if (x < 70) {
				if (r.below(100) < pins) {
					if (r.chance(1, 2))
						G.op(W_SHARE, ci, r.next() & 0xffffff, G.kg.next(), r.below(2));
					else
						G.op(kind == K_LIST && r.chance(1, 2) ? W_INSHEAD : W_INS, ci, 0, G.kg.next(), G.user());
				} else if (r.chance(1, 3)) {
					G.op(W_REMH, ci, 0, G.pick(), 0);
				} else {
					G.op(W_REX, ci, 0, G.pick(), 0);
				}
			} else if (x < 80) {
				G.op(W_READD, ci, r.below(2), G.pick(), G.kg.next());
			} else if (x < 84 && kind == K_LIST) {
				if (r.chance(1, 2))
					G.op(W_SORT, ci, r.below(3), 0, 0);
				else
					G.op(W_CONCAT, ci, 0, r.below(n), 0);
			} else if (x < 96) {
				mm_noise(G, ci, flags | F_READD);
			} else if (x < 97) {
				G.op(r.chance(1, 2) ? W_DONE : W_FREEALL, ci, r.below(2), 0, r.next());
			} else if (x < 98) {
				G.op(W_EACH, ci, r.below(2), 0, 0);
			}
		}
		kgs[ci] = G.kg;
	}
}

/* operations on other containers, and queries of the same, inside the callbacks */
void gen_nested(Rng& r, const GenCtx& g, Case& c)
{
	Gen G(r, g, c);
	G.common();
	static const int k[] = { K_LIST, K_LIST, K_TREE, K_TREE, K_HASHTABLE, K_HASHDYN, K_HASHLIN };
	int n = 2 + r.below(4);
	for (int i = 0; i < n; ++i) {
		int kind = i < 2 || r.below(3) ? k[r.below(7)] : (int)r.below(K_MAX);
		ContSpec s = { kind, 0, 0 };
		switch (kind) {
		case K_HASHTABLE : s.p1 = r.below(20); break;
		case K_TRIE : s.p1 = 99; break;
		case K_ARRAYOF :
		case K_ARRAYBLKOF : s.p1 = elem_size_pick(r, true); break;
		case K_ALLOC : s = alloc_spec(r); break;
		}
		c.conts.push_back(s);
	}
	std::vector<KeyGen> kgs(n);
	for (int i = 0; i < n; ++i)
		kgs[i].setup(r, 60, r.chance(1, 2) ? 3 : -1);
	G.tiny = r.chance(1, 3);
	c.par["tiny"] = G.tiny;
	c.par["nest"] = 1;
	c.par["rate"] = G.tiny ? r.below(4) : r.below(60);
	u64 nops = G.tiny ? 10 + r.below(60) : 30 + r.scaled(600);
	unsigned pins = 70;
	for (u64 i = 0; i < nops; ++i) {
		int ci = r.below(n), kind = c.conts[ci].kind;
		if (r.below(30) == 0)
			pins = 20 + r.below(80);
		G.kg = kgs[ci];
		G.kg.r = &r;
		if (kind == K_ALLOC) {
			G.op(r.chance(1, 2) ? W_ALLOC : W_AFREE, ci, r.below(4), r.next() >> 1, 0);
		} else if (kind >= K_ARRAY) {
			G.op(r.chance(1, 2) ? W_AINS : W_ASET, ci, 0, r.next() >> 1, r.next());
		} else {
			unsigned x = r.below(100);
			if (x < 60) {
				if (r.below(100) < pins)
					G.op(kind == K_LIST && r.chance(1, 2) ? W_INSHEAD : W_INS, ci, 0, G.kg.next(), G.user());
				else if (r.chance(1, 2))
					G.op(W_REMH, ci, 0, G.pick(), 0);
				else
					G.op(W_REX, ci, 0, G.pick(), 0);
			} else if (kind == K_LIST && x < 85) {
				G.op(W_SORT, ci, r.below(3) | (r.chance(1, 3) ? r.below(8) << 2 : 0), 0, 0);
			} else if (x < 75) {
				G.op(W_EACH, ci, r.below(2), 0, 0);
			} else if (x < 98) {
				mm_noise(G, ci, 0);
			} else {
				G.op(r.chance(1, 2) ? W_DONE : W_FREEALL, ci, r.below(2), 0, r.next());
			}
		}
		kgs[ci] = G.kg;
	}
}

/* programs for several threads, each with its own containers */
void gen_threads(Rng& r, const GenCtx& g, Case& c)
{
	int n = 2 + r.below(3);
	c.par["nest"] = 1;
	c.par["rounds"] = 1 + r.below(4);
	u64 focus = r.below(4) ? r.below(K_MAX + 2) : 99;
	for (int t = 0; t < n; ++t) {
		u64 m = 20 + r.scaled(400);
		KeyGen kg;
		kg.setup(r, m, r.chance(1, 2) ? 3 : -1);
		bool same = focus < 99 && r.below(4);
		unsigned pins = 70;
		for (u64 i = 0; i < m; ++i) {
			if (r.below(40) == 0)
				pins = 20 + r.below(80);
			u32 kind = same ? focus : r.below(K_MAX + 2);
			unsigned code = r.below(100) < pins ? 1 : 2 + r.below(6);
			c.ops.push_back(Op{ (uint8_t)code, (uint8_t)t, kind, kg.next(), r.next() });
		}
	}
	(void)g;
}

/* operations in bulk, for their cost; the codes are those of cost.cpp */
void gen_cost(Rng& r, const GenCtx& g, Case& c)
{
	int kind = r.below(12) == 0 ? K_LIST : r.below(K_MAX);
	c.par["kind"] = kind;
	c.par["size"] = r.scaled(40000);
	c.par["block"] = 8 + r.scaled(r.chance(1, 3) ? 3000 : 60);
	c.par["align"] = r.below(6);
	u64 max = g.scale == 2 ? 120000 : r.chance(1, 8) ? 20000 : r.chance(1, 2) ? 3000 : 300;
	u64 m = 3 + r.below(12);
	unsigned keys = r.below(8);
	u64 k = r.next(), u = r.next();
	for (u64 i = 0; i < m; ++i) {
		static const uint8_t codes[] = { 1, 1, 1, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 13, 14, 15, 15, 16, 16, 17 };
		Op o;
		do {
			o.code = i == 0 ? 1 : codes[r.below(sizeof(codes))];
			if (kind >= K_ARRAY && kind <= K_ARRAYBLKOF && o.code == 1)
				o.code = 13;
			if (kind == K_ALLOC && o.code == 1)
				o.code = 15;
		} while (kind == K_LIST ? o.code == 4 || o.code == 5 || o.code == 6 || o.code == 7 || (o.code >= 13 && o.code <= 16) :
			kind == K_ALLOC ? o.code < 15 && o.code != 9 && o.code != 12 :
			kind >= K_ARRAY ? o.code < 12 && o.code != 9 && o.code != 13 && o.code != 14 :
			o.code == 2 || o.code == 10 || o.code == 11 || (o.code >= 13 && o.code <= 16));
		if (o.code == 12 && r.below(3))
			o.code = 9;
		o.c = r.below(256);
		if ((o.code == 1 || o.code == 2) && r.below(10))
			o.c = (o.c & ~7) | keys;
		o.n = r.below(10) == 0 ? dict_size(r, max) : i == 0 ? r.range(max / 2, max) : r.scaled(max);
		o.k = r.below(6) ? k : r.next();
		if (o.code == 13)
			o.k = r.scaled(max * 40);
		o.u = r.below(4) ? u : r.next();
		c.ops.push_back(o);
	}
}

/* ---- by name ------------------------------------------------------------------------------ */

static void one(Rng& r, const GenCtx& g, Case& c, int kind, unsigned flags)
{
	Gen G(r, g, c);
	G.common();
	if (kind == K_LIST)
		make_list(G, flags);
	else if (kind == K_ALLOC)
		make_alloc(G, flags);
	else if (kind >= K_ARRAY)
		make_array(G, kind, flags);
	else
		make_one(G, kind, flags);
}

#define KGEN(name, kind) void gen_##name(Rng& r, const GenCtx& g, Case& c) { one(r, g, c, kind, 0); }
KGEN(hashtable, K_HASHTABLE)
void gen_bigtable(Rng& r, const GenCtx& g, Case& c) { one(r, g, c, K_HASHTABLE, F_VAST | (r.chance(1, 2) ? F_DONE : 0)); }
KGEN(hashdyn, K_HASHDYN)
KGEN(hashlin, K_HASHLIN)
KGEN(trie, K_TRIE)
KGEN(trieinp, K_TRIEINP)
KGEN(tree, K_TREE)
KGEN(list, K_LIST)
KGEN(alloc, K_ALLOC)

void gen_array(Rng& r, const GenCtx& g, Case& c)
{
	one(r, g, c, r.chance(1, 2) ? K_ARRAY : K_ARRAYOF, 0);
}

void gen_arrayblk(Rng& r, const GenCtx& g, Case& c)
{
	one(r, g, c, r.chance(1, 2) ? K_ARRAYBLK : K_ARRAYBLKOF, 0);
}

/* every kind in turn */
void gen_any(Rng& r, const GenCtx& g, Case& c)
{
	int kind = r.below(K_MAX);
	GenCtx h = g;
	if (g.scale >= 2)
		kind = g.index / 40 % K_MAX;
	one(r, h, c, kind, F_DONE);
}

void gen_tries(Rng& r, const GenCtx& g, Case& c)
{
	one(r, g, c, r.chance(1, 2) ? K_TRIE : K_TRIEINP, 0);
}

/* the hashtables that resize, around their thresholds */
void gen_osc(Rng& r, const GenCtx& g, Case& c)
{
	one(r, g, c, g.index % 2 ? K_HASHDYN : K_HASHLIN, F_OSC);
}

void gen_hashes(Rng& r, const GenCtx& g, Case& c)
{
	one(r, g, c, g.index % 3 == 0 ? K_HASHTABLE : g.index % 3 == 1 ? K_HASHDYN : K_HASHLIN, r.chance(1, 4) ? F_OSC : 0);
}

/* whatever grows */
void gen_growth(Rng& r, const GenCtx& g, Case& c)
{
	static const int k[] = { K_HASHDYN, K_HASHLIN, K_HASHDYN, K_HASHLIN, K_HASHTABLE, K_ARRAY, K_ARRAYOF, K_ARRAYBLK, K_ARRAYBLKOF, K_ALLOC, K_ALLOC };
	one(r, g, c, k[(g.scale >= 2 ? g.index / 40 : r.below(11)) % 11], F_OSC);
}

/* whatever has an initial size that is configured */
void gen_sizes(Rng& r, const GenCtx& g, Case& c)
{
	static const int k[] = { K_HASHDYN, K_HASHLIN, K_ARRAY, K_ARRAYOF, K_ARRAYBLK, K_ARRAYBLKOF, K_ALLOC, K_HASHDYN, K_HASHLIN, K_ALLOC, K_TRIE };
	one(r, g, c, k[r.below(11)], r.chance(1, 2) ? F_OSC : 0);
}

void gen_osclin(Rng& r, const GenCtx& g, Case& c)
{
	one(r, g, c, K_HASHLIN, F_OSC);
}

/* containers that can be iterated */
void gen_iter(Rng& r, const GenCtx& g, Case& c)
{
	static const int k[] = { K_HASHTABLE, K_HASHDYN, K_HASHLIN, K_TREE, K_LIST };
	one(r, g, c, k[r.below(5)], F_ITER);
}

/* many equal keys */
void gen_dup(Rng& r, const GenCtx& g, Case& c)
{
	static const int k[] = { K_HASHTABLE, K_HASHDYN, K_HASHLIN, K_TRIE, K_TRIEINP };
	one(r, g, c, k[r.below(5)], F_DUP);
}

void gen_query(Rng& r, const GenCtx& g, Case& c)
{
	one(r, g, c, r.below(K_MAX), F_QUERY);
}

/* nodes reused at once */
void gen_readd(Rng& r, const GenCtx& g, Case& c)
{
	if (r.chance(1, 4)) {
		Gen G(r, g, c);
		G.common();
		make_mixed(G, F_READD);
		return;
	}
	static const int k[] = { K_HASHTABLE, K_HASHDYN, K_HASHLIN, K_TRIE, K_TRIEINP, K_TREE, K_LIST };
	one(r, g, c, k[r.below(7)], F_READD);
}

void gen_mixed(Rng& r, const GenCtx& g, Case& c)
{
	Gen G(r, g, c);
	G.common();
	make_mixed(G, 0);
}

/* ---- coverage-guided mode -------------------------------------------------------------------- */

/*
 * Bytes to history: a header choosing the containers, then four bytes for
 * each operation. Keys come from the byte through one of few maps, so that the
 * mutations of the fuzzer move between equal, near and far keys.
 */
void fuzz_decode(const std::string& gen, const uint8_t* d, size_t n, Case& c)
{
	size_t p = 0;
	auto byte = [&]() -> unsigned { return p < n ? d[p++] : 0; };
	static const char* const names[] = { "hashtable", "hashdyn", "hashlin", "trie", "trieinp", "tree", "list", "array", "", "arrayblk", "", "alloc" };
	int kind = -1;
	for (int i = 0; i < K_MAX; ++i)
		if (gen == names[i])
			kind = i;
	c.gen = gen;
	if (gen == "sort" || gen == "avl" || gen == "lin") {
		c.gen = gen;
		c.par["mag"] = byte() % 3;
		c.par["every"] = 1;
		c.par["track"] = 1500;
		while (p + 2 < n && c.ops.size() < 800) {
			unsigned a = byte(), b = byte();
			if (gen == "sort")
				c.ops.push_back(Op{ (uint8_t)(a < 64 ? 2 : 1), 0, a, b, (u64)((i64)(a % 5) - 2) });
			else if (gen == "avl")
				c.ops.push_back(Op{ (uint8_t)(a & 8 ? 1 : 1 + a % 4), 0, a >= 0xe0 ? a & 31 : 0, 100 + b, 1 });
			else
				c.ops.push_back(Op{ (uint8_t)(1 + a % 4), 0, (a >> 2) * (1u + (b & 7)), (u64)b, 1 });
		}
		return;
	}
	unsigned h0 = byte(), h1 = byte(), h2 = byte(), h3 = byte();
	c.par["hseed"] = h0;
	c.par["fifo"] = h1 & 1;
	c.par["mag"] = (h1 >> 1) % 3;
	c.par["data"] = (h0 >> 5) % 6;
	c.par["order"] = (h1 >> 3) % 3;
	c.par["tiny"] = 1;
	std::vector<int> kinds;
	if (kind >= 0) {
		if (kind == K_ARRAY && (h1 & 0x40))
			kind = K_ARRAYOF;
		if (kind == K_ARRAYBLK && (h1 & 0x40))
			kind = K_ARRAYBLKOF;
		kinds.push_back(kind);
		if (kind == K_LIST)
			kinds.push_back(kind);
	} else if (gen == "mixed" || gen == "readd" || gen == "nested") {
		if (gen == "nested") {
			c.par["nest"] = 1;
			c.par["rate"] = h2 >> 5;
		}
		for (unsigned i = 0; i < 2 + h2 % 4; ++i)
			kinds.push_back(byte() % K_MAX);
	} else {
		int k = h2 % K_MAX;
		if (gen == "dup")
			k = h2 % 5;
		if (gen == "osc")
			k = h2 & 1 ? K_HASHDYN : K_HASHLIN;
		if (gen == "hashes")
			k = h2 % 3;
		if (gen == "growth") {
			static const int gk[] = { K_HASHDYN, K_HASHLIN, K_HASHTABLE, K_ARRAY, K_ARRAYOF, K_ARRAYBLK, K_ARRAYBLKOF, K_ALLOC };
			k = gk[h2 % 8];
		}
		if (gen == "osclin")
			k = K_HASHLIN;
		if (gen == "tries")
			k = h2 & 1 ? K_TRIE : K_TRIEINP;
		if (gen == "iter") {
			static const int it[] = { K_HASHTABLE, K_HASHDYN, K_HASHLIN, K_TREE, K_LIST };
			k = it[h2 % 5];
		}
		kinds.push_back(k);
	}
	for (int k : kinds) {
		ContSpec s = { k, 0, 0 };
		if (k == K_HASHTABLE)
			s.p1 = h2 & 0x3f;
		if (k == K_TRIE)
			s.p1 = 99;
		if (k == K_ARRAYOF || k == K_ARRAYBLKOF)
			s.p1 = 1 + h2 % 40;
		if (k == K_ALLOC) {
			s.p1 = 1 + h2 * (h3 & 0x1f);
			s.p2 = 1ull << (h3 >> 5);
		}
		c.conts.push_back(s);
	}
	auto key = [&](unsigned b, unsigned x) -> u64 {
		switch ((h3 ^ x) & 7) {
		case 0 : return b;
		case 1 : return b << 4;
		case 2 : return (u64)b << (x & 0x1f);
		case 3 : return b & 3;
		case 4 : return 0x0101010101010101ull * b;
		case 5 : return 1ull << (b & 63);
		case 6 : return ~(u64)b;
		}
		return mix64(b);
	};
	while (p + 3 < n && c.ops.size() < 1500) {
		unsigned a = byte(), b = byte(), x = byte(), y = byte();
		unsigned ci = y >> 4;
		int k = kinds[ci % kinds.size()];
		unsigned rep = (a >> 5) == 7 ? 1 + (y & 15) * 4 : 1;
		while (rep--) {
			Op o = { 0, (uint8_t)(ci % kinds.size()), x, key(b, x), (u64)(y & 3) };
			if (k == K_ALLOC) {
				static const int m[] = { W_ALLOC, W_AFREE, W_AFREE, W_ALLOC, W_DONE, W_QUERY };
				o.code = m[(a & 31) % 6];
				o.k = b;
			} else if (k >= K_ARRAY) {
				static const int m[] = { W_AGROW, W_ASET, W_AGET, W_AINS, W_ASET, W_QUERY, W_DONE };
				o.code = m[(a & 31) % 7];
				o.k = o.code == W_AGROW ? b * (x + 1) % 20000 : b * 256 + x;
				o.u = a * 3 + y;
			} else if (k == K_LIST) {
				static const int m[] = { W_INS, W_INSHEAD, W_REX, W_REX, W_CONCAT, W_SORT, W_READD, W_EACH, W_SHARE, W_FREEALL, W_INS, W_QUERY };
				o.code = m[(a & 31) % 12];
				if (o.code == W_CONCAT)
					o.k = b % kinds.size();
			} else {
				static const int m[] = { W_INS, W_INS, W_INS, W_REM, W_REMH, W_REX, W_REXDUP, W_FIND, W_FINDH, W_BUCKET, W_BUCKETH, W_READD, W_EACH, W_SUBFIND, W_QUERY, W_INS, W_REX, W_SHARE, W_DONE, W_FREEALL };
				o.code = m[(a & 31) % 20];
				if (o.code == W_SHARE)
					o.n = b;
			}
			c.ops.push_back(o);
			++b;
		}
	}
}
