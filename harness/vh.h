/* Common declarations of the harness. */
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <setjmp.h>
#include <string>
#include <vector>
#include <map>
#include "shim.h"

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;

/* ---- deterministic random numbers -------------------------------------- */

static inline u64 mix64(u64 z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

struct Rng {
	u64 s;
	explicit Rng(u64 seed = 1) : s(seed) {}
	u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n <= 1 ? 0 : next() % n; }
	u64 range(u64 a, u64 b) { return a + below(b - a + 1); } /* inclusive */
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	/* size-like value: every magnitude up to max equally likely */
	u64 scaled(u64 max)
	{
		if (max == 0)
			return 0;
		int bits = 64 - __builtin_clzll(max);
		u64 b = below(bits + 1);
		u64 v = b == 0 ? 0 : (1ull << (b - 1)) | (next() & ((1ull << (b - 1)) - 1));
		return v > max ? max : v;
	}
};

/* ---- failure categories -------------------------------------------------- */

enum {
	CAT_RES = 1, /* wrong result of an operation */
	CAT_ORDER = 2, /* equal keys not in insertion order */
	CAT_COUNT = 4, /* wrong count */
	CAT_LINKS = 8, /* malformed list */
	CAT_ITER = 16, /* wrong iteration */
	CAT_MEM = 32, /* memory_usage wrong */
	CAT_HEAP = 64, /* leak, bad free, heap bypass */
	CAT_LOAD = 128, /* bucket memory outside its bounds */
	CAT_WORK = 256, /* too much work in one operation */
	CAT_QUERY = 512, /* a query modified something */
	CAT_TOUCH = 1024, /* a removed or rejected element was touched */
	CAT_SORT = 2048, /* not a stable sorted permutation */
	CAT_CMP = 4096, /* too many comparisons */
	CAT_BLOCK = 8192, /* allocator block wrong */
	CAT_ARRAY = 16384, /* array element wrong */
	CAT_VALUE = 32768, /* wrong value of a pure function */
	CAT_OVER = 65536, /* out of bounds access */
	CAT_CRASH = 1 << 17, /* signal, sanitizer report, assertion, hang */
	CAT_SELECT = 1 << 18, /* bucket or search not selective */
	CAT_AMORT = 1 << 19, /* resized too often */
	CAT_COST = 1 << 20, /* an operation that takes too much */
	CAT_STACK = 1 << 21, /* more stack than it should need */
	CAT_ALL = (1 << 22) - 1
};

/* ---- cases ---------------------------------------------------------------- */

struct Op {
	uint8_t code;
	uint8_t c;
	u32 n;
	u64 k, u;
};

struct ContSpec {
	int kind;
	u64 p1, p2;
};

struct Case {
	std::string gen; /* which generator made it, decides the executor */
	std::map<std::string, u64> par;
	std::vector<ContSpec> conts;
	std::vector<Op> ops;
	std::vector<uint8_t> blob;
	u64 get(const char* n, u64 def = 0) const { auto i = par.find(n); return i == par.end() ? def : i->second; }
};

u64 case_hash(const Case& c);
std::string case_text(const Case& c, size_t max_ops = (size_t)-1);

/* ---- run state -------------------------------------------------------------- */

struct Run {
	unsigned mask; /* categories that count for this property */
	sigjmp_buf jb;
	unsigned fail_cat;
	char fail_msg[1024];
	bool nontrivial;
	bool thorough;
	bool tracing;
	i64 op; /* operation being executed */
};
extern Run R;

/* never returns */
void fail(unsigned cat, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
/* ends the case without any verdict (a resource the harness does not have) */
void give_up(const char* why) __attribute__((noreturn));

#define WANT(cat) (R.mask & (cat))

/* class counters: how many cases had the feature */
int stat_id(const char* name);
void stat_hit(int id, u64 n);
#define STAT(name, n) do { static int id_ = -1; if (id_ < 0) id_ = stat_id(name); stat_hit(id_, n); } while (0)

/* dictionary of interesting integers, extracted from the sources under test */
extern std::vector<u64> g_dict;
/* a quantity among those that the sources mention, or next to one; of at most max */
u64 dict_size(Rng& r, u64 max);

/* ---- heap ---------------------------------------------------------------- */

#define OWNERS 64

struct OwnerStat {
	i64 bytes; /* live */
	i64 blocks; /* live */
	u64 req, mallocs, frees; /* calls since the start */
};

struct Heap {
	int owner;
	OwnerStat own[OWNERS];
	u64 req; /* all calls */
	int forbid; /* if set, any call is a failure of this category */
	const char* forbid_why;
	bool bypass; /* memory obtained without the hooks */
	bool sparse; /* huge blocks are filled at the ends only */
	bool lazy; /* zeroed blocks are not touched */
	bool guard; /* huge blocks are opened as they are touched */
};
extern Heap H;

extern thread_local bool heap_plain;
extern thread_local u64 heap_plain_calls, heap_plain_bytes;
void heap_setup();
void heap_reset(u64 seed);
/* check canaries of everything live and freed */
void heap_check();
/* true if [p, p+n) lies inside one live block of the owner (or of anyone if -1) */
bool heap_contains(const void* p, size_t n, int owner);
/* hash of the contents of all live blocks */
u64 heap_digest();
size_t heap_live_total();
extern u64 (*heap_expect)(); /* what a case can need at most, 0 if not known */

/* memory of the harness that the library sees: nodes, objects, containers */
void* region_reserve(size_t size, int which);
void poison(const void* p, size_t n);
void unpoison(const void* p, size_t n);
bool have_asan();

u64 bytes_digest(const void* p, size_t n, u64 h);

/* ---- executors and generators ---------------------------------------------- */

typedef void run_fn(const Case&);
struct GenCtx {
	u64 index, total;
	bool thorough;
	unsigned scale; /* 0 small only, 1 normal, 2 large */
};
typedef void gen_fn(Rng&, const GenCtx&, Case&);

struct Module {
	const char* gen; /* generator name */
	gen_fn* make;
	run_fn* run;
};
extern const Module modules[];

struct PropInfo {
	const char* id;
	unsigned mask;
};
extern const PropInfo props[];

const char* kind_name(int kind);

#endif
