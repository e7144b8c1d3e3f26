/*
 * The heap given to the library: every block between canaries at a chosen
 * address residue, filled with garbage, never reused within a case, checked
 * on release and accounted to the container being operated on.
 */
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unordered_map>
#include <signal.h>
#include <sys/mman.h>

Heap H;

extern "C" {
void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
void __tsan_init() __attribute__((weak));
}

bool have_asan() { return __asan_poison_memory_region != 0; }
void poison(const void* p, size_t n) { if (__asan_poison_memory_region) __asan_poison_memory_region(p, n); }
void unpoison(const void* p, size_t n) { if (__asan_unpoison_memory_region) __asan_unpoison_memory_region(p, n); }

#if UINTPTR_MAX > 0xffffffffu
static const u64 BASE = 0x200000000000ull;
static const size_t SMALL_SIZE = 3ull << 30;
static const u64 BIG_SIZE = 1ull << 40;
static const size_t HUGE_MIN = 1ull << 30;
#else
static const u64 BASE = 0x60000000ull;
static const size_t SMALL_SIZE = 320u << 20;
static const u64 BIG_SIZE = 400u << 20;
static const size_t HUGE_MIN = 256u << 20;
#endif

static const size_t BIG_MIN = 256 * 1024;
static const size_t PAGE = 4096;

struct Blk {
	char* p;
	size_t n;
	size_t pre; /* bytes of canary before */
	size_t post;
	int owner;
	bool big, live;
	bool lazy;
	bool guard; /* inaccessible until touched */
};

static char* small_base;
static size_t small_used;
static char* big_base;
static u64 big_used;
static u64 lazy_used; /* in the second half of the big region */
static std::vector<Blk> blks;
static std::unordered_map<void*, u32> by_ptr;
static std::map<char*, u32> by_addr; /* live only, for containment */
static Rng hr;
static u32 gtouched;
static bool by8; /* addresses that are multiples of 8 only */

static char* reserve(u64 at, u64 size, int prot)
{
	/* the thread sanitizer has its own ideas about addresses */
	void* p = __tsan_init ? MAP_FAILED : mmap((void*)(uintptr_t)at, size, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
#ifdef MAP_FIXED_NOREPLACE
		| MAP_FIXED_NOREPLACE
#endif
		, -1, 0);
	if (p == MAP_FAILED)
		p = mmap(0, size, prot, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		exit(2);
	}
	return (char*)p;
}

void* region_reserve(size_t size, int which)
{
#if UINTPTR_MAX > 0xffffffffu
	return reserve(BASE + BIG_SIZE * 2 + ((u64)which << 36), size, PROT_READ | PROT_WRITE);
#else
	(void)which;
	return reserve(0x90000000u + which * 0x10000000u, size, PROT_READ | PROT_WRITE);
#endif
}

void heap_setup()
{
#if UINTPTR_MAX > 0xffffffffu
	/* the low 32 bits of the addresses are negative, and then wrap */
	small_base = reserve(BASE + 0xfff00000u, SMALL_SIZE, PROT_READ | PROT_WRITE);
	big_base = reserve(BASE + BIG_SIZE, BIG_SIZE, PROT_NONE);
#else
	small_base = reserve(0xc0000000u, SMALL_SIZE, PROT_READ | PROT_WRITE);
	big_base = reserve(BASE + SMALL_SIZE, BIG_SIZE, PROT_NONE);
#endif
}

void heap_reset(u64 seed)
{
	heap_plain = false;
	heap_expect = 0;
	for (auto& b : blks)
		if (b.big && b.live && !b.lazy) {
			madvise(b.p - (uintptr_t)b.p % PAGE, (b.n + 2 * PAGE) / PAGE * PAGE, MADV_DONTNEED);
		}
	if (big_used) {
		/* drop it all, in one mapping again */
		void* p = mmap(big_base, big_used, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
		if (p == MAP_FAILED) {
			perror("mmap reset");
			exit(2);
		}
		unpoison(big_base, big_used > (1u << 28) ? (1u << 28) : (size_t)big_used);
	}
	if (lazy_used) {
		if (mmap(big_base + BIG_SIZE / 2, (lazy_used + (1u << 30) - 1) >> 30 << 30, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) {
			perror("mmap reset");
			exit(2);
		}
		lazy_used = 0;
	}
	if (small_used > (64u << 20))
		madvise(small_base, small_used, MADV_DONTNEED);
	poison(small_base, small_used);
	small_used = 0;
	big_used = 0;
	blks.clear();
	by_ptr.clear();
	by_addr.clear();
	hr = Rng(mix64(seed ^ 0x4ea9));
	by8 = hr.chance(1, 2);
	gtouched = 0;
	memset(&H, 0, sizeof(H));
}

static const unsigned char CANARY = 0xc7;

/*
 * No room for a request. A history that needs too much is given up, but one
 * that asks for far more than its containers can need is a failure.
 */
u64 (*heap_expect)();

static void exhausted(u64 n, const char* why)
{
	u64 most = heap_expect ? heap_expect() : sizeof(void*) == 8 ? 1ull << 33 : 256u << 20;
	u64 live = heap_live_total();
	if (n > most || live > most || live + n > most)
		fail(CAT_CRASH, "holding %llu bytes, the library asks for %llu more, and cannot need more than %llu", (unsigned long long)live, (unsigned long long)n, (unsigned long long)most);
	give_up(why);
}

/*
 * A huge block of which a case touches little (H.guard): inaccessible pages
 * are opened as they are touched, up to a limit, so that the memory really
 * used stays small even if the library fills it in a way not foreseen.
 */
static const size_t GCHUNK = 4 * PAGE;
static const u32 GMAX = 24000;

static bool guard_hit(char* a)
{
	auto it = by_addr.upper_bound(a);
	if (it == by_addr.begin())
		return false;
	--it;
	const Blk& b = blks[it->second];
	return b.guard && b.live && (u64)(a - b.p) < b.n;
}

static void on_segv(int, siginfo_t* si, void*)
{
	char* a = (char*)si->si_addr;
	if (H.guard && a >= big_base && a < big_base + big_used && guard_hit(a)) {
		if (++gtouched > GMAX)
			give_up("too much of a huge block is touched");
		char* c = big_base + (a - big_base) / GCHUNK * GCHUNK;
		if (mprotect(c, GCHUNK, PROT_READ | PROT_WRITE) != 0)
			give_up("mprotect failed");
		return;
	}
	signal(SIGSEGV, SIG_DFL);
}

static void guard_setup()
{
	static bool done;
	struct sigaction sa;
	if (done)
		return;
	done = true;
	memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = on_segv;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGSEGV, &sa, 0);
}

/* memset() of the library */
extern "C" void* vh_memset(void* p, int v, size_t n)
{
	char* a = (char*)p;
	if (n >= (1u << 20) && H.guard && (unsigned char)v == 0 && guard_hit(a) && guard_hit(a + n - 1)) {
		char* f = big_base + ((a - big_base) + GCHUNK - 1) / GCHUNK * GCHUNK;
		char* l = big_base + (a + n - big_base) / GCHUNK * GCHUNK;
		if (mmap(f, l - f, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED)
			give_up("mmap failed");
		memset(a, 0, f - a);
		memset(l, 0, a + n - l);
		return p;
	}
	return memset(p, v, n);
}

/* threads have the plain heap, each counting its own calls */
thread_local bool heap_plain;
thread_local u64 heap_plain_calls, heap_plain_bytes;

static void* get(size_t n, bool zero)
{
	Blk b;

	if (heap_plain) {
		++heap_plain_calls;
		heap_plain_bytes += n;
		void* p = zero ? calloc(1, n ? n : 1) : malloc(n ? n : 1);
		if (!p)
			abort();
		if (!zero)
			memset(p, 0xa5, n);
		return p;
	}

	++H.req;
	++H.own[H.owner].req;
	++H.own[H.owner].mallocs;
	if (H.forbid)
		fail(H.forbid, "heap request of %zu bytes %s", n, H.forbid_why);

	/* room or not */
	if (n >= (64u << 20) && heap_expect && !H.sparse && !H.lazy && !H.guard) {
		u64 most = heap_expect(), live = heap_live_total();
		if (n > most || live > most || live + n > most)
			exhausted(n, "");
	}

	b.n = n;
	b.owner = H.owner;
	b.live = true;
	b.lazy = false;
	b.guard = H.guard && n >= HUGE_MIN;
	if (b.guard) {
		guard_setup();
		u64 full = ((u64)n + GCHUNK - 1) / GCHUNK * GCHUNK;
		big_used = (big_used + GCHUNK - 1) / GCHUNK * GCHUNK + GCHUNK;
		if (big_used + full > BIG_SIZE)
			exhausted(n, "harness big heap exhausted");
		char* raw = big_base + big_used;
		big_used += full;
		if (mprotect(raw + full - GCHUNK, GCHUNK, PROT_READ | PROT_WRITE) != 0)
			give_up("mprotect failed");
		b.pre = (full - n) / 16 * 16;
		b.post = full - n - b.pre;
		b.p = raw + b.pre;
		b.big = true;
		if (b.pre) {
			if (mprotect(raw, GCHUNK, PROT_READ | PROT_WRITE) != 0)
				give_up("mprotect failed");
			memset(raw, CANARY, b.pre);
		}
		if (b.post)
			memset(b.p + n, CANARY, b.post);
		H.own[H.owner].bytes += n;
		++H.own[H.owner].blocks;
		by_ptr[b.p] = blks.size();
		by_addr[b.p] = blks.size();
		blks.push_back(b);
		return b.p;
	}
	if (H.lazy && zero && n >= PAGE) {
		/* a great many zeroed blocks, of which few are ever touched */
		u64 full = ((u64)n + 15) / 16 * 16;
		if (lazy_used + full > BIG_SIZE / 2)
			exhausted(n, "harness lazy heap exhausted");
		u64 have = (lazy_used + (1u << 30) - 1) >> 30, need = (lazy_used + full + (1u << 30) - 1) >> 30;
		if (need > have && mprotect(big_base + BIG_SIZE / 2 + (have << 30), (need - have) << 30, PROT_READ | PROT_WRITE) != 0)
			give_up("mprotect failed");
		b.p = big_base + BIG_SIZE / 2 + lazy_used;
		lazy_used += full;
		b.pre = b.post = 0;
		b.big = true;
		b.lazy = true;
		H.own[H.owner].bytes += n;
		++H.own[H.owner].blocks;
		by_ptr[b.p] = blks.size();
		by_addr[b.p] = blks.size();
		blks.push_back(b);
		return b.p;
	}
	if (H.lazy && !zero && small_used > (1u << 30))
		exhausted(n, "a great many blocks that are not zeroed");
	b.big = n >= BIG_MIN;
	if (!b.big) {
		/* any multiple of 16, as malloc() gives, or of 8 */
		b.pre = 16 + 16 * hr.below(hr.chance(1, 4) ? 256 : 8);
		b.post = 16 + (16 - n % 16) % 16;
		if (by8 && hr.chance(1, 2)) {
			b.pre += 8;
			b.post += 8;
		}
		if (small_used + b.pre + n + b.post > SMALL_SIZE)
			exhausted(n, "harness heap exhausted");
		char* raw = small_base + small_used;
		small_used += b.pre + n + b.post;
		unpoison(raw, b.pre + n + b.post);
		memset(raw, CANARY, b.pre > 64 ? 0 : b.pre);
		if (b.pre > 64)
			memset(raw + b.pre - 64, CANARY, 64);
		b.p = raw + b.pre;
		memset(b.p + n, CANARY, b.post);
		if (zero)
			memset(b.p, 0, n);
		else
			memset(b.p, 0xa5, n);
		poison(raw, b.pre);
		poison(b.p + n, b.post);
	} else {
		/* it will be filled, there is no room for that */
		bool ends = H.sparse && n >= HUGE_MIN;
		if (!zero && n >= HUGE_MIN && !ends)
			exhausted(n, "huge block");
		/* own pages, an inaccessible one on both sides, ending as near as
		   possible to the end of the last page */
		u64 full = ((u64)n + PAGE - 1) / PAGE * PAGE;
		if (big_used + full + 2 * PAGE > (H.lazy ? BIG_SIZE / 2 : BIG_SIZE))
			exhausted(n, "harness big heap exhausted");
		char* raw = big_base + big_used + PAGE;
		big_used += full + PAGE;
		if (mprotect(raw, full, PROT_READ | PROT_WRITE) != 0)
			give_up("mprotect failed");
		size_t slack = (full - n) / 16 * 16;
		b.pre = slack;
		b.post = full - n - slack;
		b.p = raw + slack;
		if (!zero && ends) {
			memset(b.p, 0xa5, 1 << 16);
			memset(b.p + n - (1 << 16), 0xa5, 1 << 16);
		} else if (!zero) {
			memset(b.p, 0xa5, n);
		}
		if (b.pre)
			memset(raw, CANARY, b.pre);
		if (b.post)
			memset(b.p + n, CANARY, b.post);
	}
	H.own[H.owner].bytes += n;
	++H.own[H.owner].blocks;
	by_ptr[b.p] = blks.size();
	by_addr[b.p] = blks.size();
	blks.push_back(b);
	return b.p;
}

static void check_canary(const Blk& b)
{
	const unsigned char* p = (const unsigned char*)b.p;
	size_t pre = b.pre > 64 ? 64 : b.pre;
	size_t i;
	if (b.big)
		pre = b.pre; 
	unpoison(p - pre, pre);
	unpoison(p + b.n, b.post);
	for (i = 1; i <= pre; ++i)
		if (p[-(ptrdiff_t)i] != CANARY)
			fail(CAT_OVER, "write %zu bytes before a heap block of %zu bytes", i, b.n);
	for (i = 0; i < b.post; ++i)
		if (p[b.n + i] != CANARY)
			fail(CAT_OVER, "write %zu bytes after the end of a heap block of %zu bytes", i, b.n);
	if (!b.big) {
		poison(p - pre, pre);
		poison(p + b.n, b.post);
	}
}

static void put(void* p)
{
	auto it = by_ptr.find(p);

	++H.req;
	++H.own[H.owner].req;
	++H.own[H.owner].frees;
	if (H.forbid)
		fail(H.forbid, "heap release %s", H.forbid_why);
	if (it == by_ptr.end())
		fail(CAT_HEAP, "release of %p which is not the start of any block obtained", p);
	Blk& b = blks[it->second];
	if (!b.live)
		fail(CAT_HEAP, "double release of a block of %zu bytes", b.n);
	if (b.owner != H.owner)
		fail(CAT_HEAP, "container %d releases a block of %zu bytes of container %d", H.owner, b.n, b.owner);
	check_canary(b);
	b.live = false;
	by_addr.erase(b.p);
	H.own[b.owner].bytes -= b.n;
	--H.own[b.owner].blocks;
	if (b.lazy) {
	} else if (b.guard) {
		char* raw = b.p - b.pre;
		u64 full = ((u64)b.n + GCHUNK - 1) / GCHUNK * GCHUNK;
		if (mmap(raw, full, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED)
			give_up("mmap failed");
	} else if (b.big) {
		u64 full = ((u64)b.n + PAGE - 1) / PAGE * PAGE;
		char* raw = b.p - b.pre;
		madvise(raw, full, MADV_DONTNEED);
		mprotect(raw, full, PROT_NONE);
	} else {
		memset(b.p, 0xdd, b.n);
		poison(b.p, b.n);
	}
}

extern "C" {

void* vh_malloc(size_t n)
{
	return get(n, false);
}

void* vh_calloc(size_t n, size_t size)
{
	size_t total;
	if (__builtin_mul_overflow(n, size, &total))
		exhausted(~0ull, "calloc overflow");
	return get(total, true);
}

void* vh_realloc(void* p, size_t n)
{
	if (heap_plain) {
		++heap_plain_calls;
		return realloc(p, n ? n : 1);
	}
	if (!p)
		return get(n, false);
	auto it = by_ptr.find(p);
	if (it == by_ptr.end() || !blks[it->second].live)
		fail(CAT_HEAP, "reallocation of %p which is not a live block", p);
	size_t old = blks[it->second].n;
	if (blks[it->second].guard && old > (64u << 20))
		give_up("a huge block is reallocated");
	void* q = get(n, false);
	memcpy(q, p, old < n ? old : n);
	put(p);
	return q;
}

void vh_free(void* p)
{
	if (heap_plain) {
		++heap_plain_calls;
		free(p);
		return;
	}
	if (!p) {
		++H.req;
		return;
	}
	put(p);
}

/* what the library would reach when bypassing the hooks (see check.py) */
void* vh_raw_malloc(size_t n) { H.bypass = true; return malloc(n); }
void* vh_raw_calloc(size_t n, size_t s) { H.bypass = true; return calloc(n, s); }
void* vh_raw_aligned_alloc(size_t a, size_t n) { H.bypass = true; return aligned_alloc(a, n); }
int vh_raw_posix_memalign(void** p, size_t a, size_t n) { H.bypass = true; return posix_memalign(p, a, n); }
void* vh_raw_realloc(void* p, size_t n) { H.bypass = true; return realloc(p, n); }
void vh_raw_free(void* p) { H.bypass = true; if (p) { auto it = by_ptr.find(p); if (it != by_ptr.end()) { if (WANT(CAT_HEAP)) fail(CAT_HEAP, "block of the configured heap released with free()"); put(p); return; } } free(p); }

}

void heap_check()
{
	for (auto& b : blks) {
		if (b.live) {
			check_canary(b);
		} else if (!b.big) {
			unpoison(b.p, b.n);
			const unsigned char* p = (const unsigned char*)b.p;
			for (size_t i = 0; i < b.n; ++i)
				if (p[i] != 0xdd)
					fail(CAT_OVER, "write at offset %zu of a released heap block of %zu bytes", i, b.n);
			poison(b.p, b.n);
		}
	}
}

bool heap_contains(const void* vp, size_t n, int owner)
{
	char* p = (char*)vp;
	auto it = by_addr.upper_bound(p);
	if (it == by_addr.begin())
		return false;
	--it;
	const Blk& b = blks[it->second];
	if (owner >= 0 && b.owner != owner)
		return false;
	return p >= b.p && (u64)(p - b.p) + n <= b.n;
}

u64 bytes_digest(const void* vp, size_t n, u64 h)
{
	const unsigned char* p = (const unsigned char*)vp;
	while (n >= 8) {
		u64 v;
		memcpy(&v, p, 8);
		h = (h ^ v) * 0x9fb21c651e98df25ull;
		h ^= h >> 32;
		p += 8;
		n -= 8;
	}
	while (n) {
		h = (h ^ *p) * 0x100000001b3ull;
		++p;
		--n;
	}
	return h ^ (h >> 29);
}

u64 heap_digest()
{
	u64 h = blks.size();
	for (auto& b : blks)
		if (b.lazy) {
			h = mix64(h + b.live);
		} else if (b.live && b.n < (64u << 20)) {
			h = bytes_digest(b.p, b.n, h);
		} else if (b.live) {
			h = bytes_digest(b.p, 1 << 20, h);
			h = bytes_digest(b.p + b.n - (1 << 20), 1 << 20, h);
		}
	return h;
}

size_t heap_live_total()
{
	size_t t = 0;
	for (auto& b : blks)
		if (b.live)
			t += b.n;
	return t;
}
