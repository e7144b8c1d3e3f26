/*
 * The property-based testing engine: generates cases, runs them in worker
 * processes, reduces the first failing one and writes it as a replay file.
 */
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <algorithm>
#include <functional>
#include <set>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>

Run R;
std::vector<u64> g_dict;

extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:print_legend=0:print_full_thread_history=0:symbolize=0";
}
extern "C" const char* __tsan_default_options()
{
	return "halt_on_error=1:exitcode=99:report_signal_unsafe=0:report_thread_leaks=0:handle_segv=1:history_size=4";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0"; }

/* ---- shared state of the workers -------------------------------------------- */

#define MAXSTAT 256
#define MAXW 16

struct WorkerShm {
	volatile i64 cur; /* index of the case being run, -1 when none */
	volatile i64 op;
	u64 done, nontrivial, gaveup, foreign, ops;
	u64 stat[MAXSTAT];
	unsigned fail_cat;
	volatile int failed;
	char msg[1024];
	char foreign_msg[256];
	char giveup_msg[128];
	double slowest; /* CPU seconds of a case */
};
struct Shm {
	WorkerShm w[MAXW];
	int nstat;
	char statname[MAXSTAT][56];
};
static Shm* shm;
static WorkerShm* me;
static WorkerShm dummy;

int stat_id(const char* name)
{
	/* names are claimed in the shared table under a spin lock */
	static volatile int* lock;
	if (!lock) {
		static int local;
		lock = &local;
	}
	if (!shm)
		return 0;
	int n = shm->nstat;
	for (int i = 0; i < n; ++i)
		if (strcmp(shm->statname[i], name) == 0)
			return i;
	for (;;) {
		n = __sync_fetch_and_add(&shm->nstat, 0);
		if (n >= MAXSTAT)
			return MAXSTAT - 1;
		if (__sync_bool_compare_and_swap(&shm->nstat, n, n + 1)) {
			snprintf(shm->statname[n], sizeof(shm->statname[n]), "%s", name);
			return n;
		}
	}
}

void stat_hit(int id, u64 n)
{
	if (n)
		me->stat[id] += 1;
}

/* ---- verdicts ---------------------------------------------------------------- */

static const char* cat_name(unsigned cat)
{
	switch (cat) {
	case CAT_RES : return "result";
	case CAT_ORDER : return "order";
	case CAT_COUNT : return "count";
	case CAT_LINKS : return "links";
	case CAT_ITER : return "iteration";
	case CAT_MEM : return "memory-usage";
	case CAT_HEAP : return "heap";
	case CAT_LOAD : return "load-bounds";
	case CAT_WORK : return "work";
	case CAT_QUERY : return "query";
	case CAT_TOUCH : return "touched";
	case CAT_SORT : return "sort";
	case CAT_CMP : return "comparisons";
	case CAT_BLOCK : return "block";
	case CAT_ARRAY : return "array";
	case CAT_VALUE : return "value";
	case CAT_OVER : return "out-of-bounds";
	case CAT_CRASH : return "crash";
	case CAT_SELECT : return "selectivity";
	case CAT_AMORT : return "resizes";
	case CAT_COST : return "cost";
	case CAT_STACK : return "stack";
	}
	return "?";
}

void fail(unsigned cat, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(R.fail_msg, sizeof(R.fail_msg), fmt, ap);
	va_end(ap);
	R.fail_cat = cat;
	siglongjmp(R.jb, (R.mask & cat) ? 1 : 2);
}

void give_up(const char* why)
{
	snprintf(R.fail_msg, sizeof(R.fail_msg), "%s", why);
	siglongjmp(R.jb, 3);
}

const char* kind_name(int kind)
{
	static const char* n[] = { "hashtable", "hashdyn", "hashlin", "trie", "trie_inplace", "tree", "list", "array", "arrayof", "arrayblk", "arrayblkof", "allocator" };
	return kind >= 0 && kind < K_MAX ? n[kind] : "?";
}

/* ---- cases ------------------------------------------------------------------- */

u64 case_hash(const Case& c)
{
	u64 h = bytes_digest(c.gen.data(), c.gen.size(), 1);
	for (auto& p : c.par)
		h = mix64(h ^ bytes_digest(p.first.data(), p.first.size(), p.second));
	for (auto& s : c.conts)
		h = mix64(h ^ mix64(s.kind * 7919 + s.p1 * 31) ^ (s.p2 << 1));
	for (auto& o : c.ops)
		h = mix64(h ^ mix64(o.code * 1000003u + o.c * 10007u + o.n) ^ mix64(o.k) ^ (mix64(o.u) << 1));
	if (!c.blob.empty())
		h = bytes_digest(c.blob.data(), c.blob.size(), h);
	return h;
}

std::string case_text(const Case& c, size_t max_ops)
{
	char b[160];
	std::string s = "case " + c.gen + "\n";
	for (auto& p : c.par) {
		snprintf(b, sizeof(b), "par %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
		s += b;
	}
	int i = 0;
	for (auto& p : c.conts) {
		snprintf(b, sizeof(b), "cont %d %llu %llu # %d is a %s\n", p.kind, (unsigned long long)p.p1, (unsigned long long)p.p2, i++, kind_name(p.kind));
		s += b;
	}
	extern const char* op_name(const std::string& gen, int code);
	size_t n = 0;
	for (auto& o : c.ops) {
		if (n++ >= max_ops) {
			snprintf(b, sizeof(b), "... %zu operations in all\n", c.ops.size());
			s += b;
			break;
		}
		snprintf(b, sizeof(b), "op %u %u %u %llu %llu # %s\n", o.code, o.c, o.n, (unsigned long long)o.k, (unsigned long long)o.u, op_name(c.gen, o.code));
		s += b;
	}
	if (!c.blob.empty()) {
		s += "blob ";
		size_t m = c.blob.size();
		if (max_ops != (size_t)-1 && m > 64)
			m = 64;
		for (size_t j = 0; j < m; ++j) {
			snprintf(b, sizeof(b), "%02x", c.blob[j]);
			s += b;
		}
		s += "\n";
	}
	s += "end\n";
	return s;
}

static bool case_parse(FILE* f, Case& c)
{
	static char* line = 0;
	static size_t cap = 0;
	bool in = false;
	while (getline(&line, &cap, f) > 0) {
		char name[64];
		unsigned long long a, b2;
		unsigned code, cc, n;
		int kind;
		if (sscanf(line, "case %63s", name) == 1) {
			c = Case();
			c.gen = name;
			in = true;
		} else if (!in) {
			continue;
		} else if (sscanf(line, "par %63s %llu", name, &a) == 2) {
			c.par[name] = a;
		} else if (sscanf(line, "cont %d %llu %llu", &kind, &a, &b2) == 3) {
			c.conts.push_back(ContSpec{ kind, a, b2 });
		} else if (sscanf(line, "op %u %u %u %llu %llu", &code, &cc, &n, &a, &b2) == 5) {
			c.ops.push_back(Op{ (uint8_t)code, (uint8_t)cc, n, a, b2 });
		} else if (strncmp(line, "blob ", 5) == 0) {
			for (char* p = line + 5; p[0] > ' ' && p[1] > ' '; p += 2) {
				unsigned v;
				sscanf(p, "%2x", &v);
				c.blob.push_back(v);
			}
		} else if (strncmp(line, "end", 3) == 0) {
			return true;
		}
	}
	return false;
}

static const Module* find_module(const std::string& gen)
{
	for (const Module* m = modules; m->gen; ++m)
		if (gen == m->gen)
			return m;
	fprintf(stderr, "unknown generator %s\n", gen.c_str());
	exit(2);
}

/* ---- running one case -------------------------------------------------------- */

static int g_limit = 40; /* CPU seconds allowed to one case */
static int g_vfactor = 10;

static void on_prof(int)
{
	static const char m[] = "HANG: the case used up its CPU time limit\n";
	if (write(2, m, sizeof(m) - 1)) {}
	_exit(98);
}

static volatile sig_atomic_t g_late;
static void on_alarm(int)
{
	g_late = 1;
	alarm(1); /* in case it came just before the wait */
}

static void arm(int seconds)
{
	struct itimerval t;
	memset(&t, 0, sizeof(t));
	t.it_value.tv_sec = seconds;
	setitimer(ITIMER_PROF, &t, 0);
}

/* 0 held, 1 failed, 2 foreign failure, 3 gave up */
static int run_case(const Case& c)
{
	const Module* m = find_module(c.gen);
	R.fail_cat = 0;
	R.fail_msg[0] = 0;
	R.nontrivial = false;
	R.op = -1;
	/* a small stack for millions of elements */
	if (R.mask == (CAT_STACK | CAT_CRASH) && c.gen[0] == 'v' && !have_asan()) {
		struct rlimit rl;
		if (getrlimit(RLIMIT_STACK, &rl) == 0 && rl.rlim_cur > 1 << 20) {
			rl.rlim_cur = 1 << 20;
			setrlimit(RLIMIT_STACK, &rl);
		}
	}
	arm(c.gen[0] == 'v' ? g_limit * g_vfactor : g_limit); /* millions of elements */
	int r = sigsetjmp(R.jb, 0);
	if (r == 0)
		m->run(c);
	struct itimerval left;
	if (getitimer(ITIMER_PROF, &left) == 0 && me) {
		double used = (c.gen[0] == 'v' ? g_limit * g_vfactor : g_limit) - left.it_value.tv_sec - left.it_value.tv_usec / 1e6;
		if (used > me->slowest)
			me->slowest = used;
	}
	arm(0);
	return r;
}

static void child_setup(bool quiet_core)
{
	struct rlimit rl;
	rl.rlim_cur = rl.rlim_max = 0;
	if (quiet_core)
		setrlimit(RLIMIT_CORE, &rl);
	signal(SIGPROF, on_prof);
}

struct Outcome {
	int r; /* 0 held, 1 failed, 2 foreign, 3 gave up, 4 killed from outside */
	unsigned cat;
	i64 op;
	std::string msg;
};

static std::string read_tail(const char* path, size_t max)
{
	FILE* f = fopen(path, "r");
	if (!f)
		return "";
	std::string s;
	char buf[4096];
	size_t n;
	while ((n = fread(buf, 1, sizeof(buf), f)) > 0 && s.size() < (1u << 20))
		s.append(buf, n);
	fclose(f);
	/* the lines that say something */
	std::string out;
	size_t pos = 0;
	while (pos < s.size() && out.size() < max) {
		size_t e = s.find('\n', pos);
		if (e == std::string::npos)
			e = s.size();
		std::string l = s.substr(pos, e - pos);
		if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("ssertion") != std::string::npos || l.find("HANG") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos || l.find(" of size ") != std::string::npos) {
			if (!out.empty())
				out += " | ";
			out += l;
		}
		pos = e + 1;
	}
	if (out.size() > max)
		out.resize(max);
	return out;
}

static Outcome decode(int status, const char* errfile, WorkerShm* w)
{
	Outcome o;
	o.cat = 0;
	o.op = w->op;
	if (WIFEXITED(status) && WEXITSTATUS(status) <= 3) {
		o.r = WEXITSTATUS(status);
		o.msg = w->msg;
		o.cat = w->fail_cat;
		return o;
	}
	if (WIFSIGNALED(status) && (WTERMSIG(status) == SIGKILL || WTERMSIG(status) == SIGTERM || WTERMSIG(status) == SIGINT)) {
		o.r = 4;
		return o;
	}
	char b[96];
	if (WIFSIGNALED(status))
		snprintf(b, sizeof(b), "signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
	else
		snprintf(b, sizeof(b), "exit code %d", WEXITSTATUS(status));
	o.r = (R.mask & CAT_CRASH) ? 1 : 2;
	o.cat = CAT_CRASH;
	o.msg = b;
	std::string t = read_tail(errfile, 500);
	if (!t.empty())
		o.msg += ": " + t;
	return o;
}

static std::string g_tmp; /* directory for stderr files */

/* run the cases in a fresh child, in order; verdict of the last */
static Outcome run_forked(const std::vector<const Case*>& cs, int limit)
{
	std::string err = g_tmp + "/err.run";
	WorkerShm* w = &shm->w[MAXW - 1];
	w->msg[0] = 0;
	w->op = -1;
	w->fail_cat = 0;
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) {
		perror("fork");
		exit(2);
	}
	if (pid == 0) {
		int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if (fd >= 0)
			dup2(fd, 2);
		child_setup(true);
		me = w;
		g_limit = limit;
		int r = 0;
		for (auto c : cs) {
			r = run_case(*c);
			if (r == 1)
				break;
		}
		w->op = R.op;
		w->fail_cat = R.fail_cat;
		snprintf(w->msg, sizeof(w->msg), "%s", R.fail_msg);
		_exit(r);
	}
	int st;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
		;
	return decode(st, err.c_str(), w);
}

/*
 * A case about what happens inside callbacks or in parallel counts when the
 * same operations, one after the other, do not fail.
 */
static bool nests(const Case& c) { return c.get("nest") == 1; }

static bool fails_anyway(const std::vector<Case>& prefix, const Case& c, int limit)
{
	if (!nests(c))
		return false;
	Case d = c;
	d.par["nest"] = 2;
	std::vector<const Case*> v;
	for (auto& p : prefix)
		v.push_back(&p);
	v.push_back(&d);
	return run_forked(v, limit).r == 1;
}

/* ---- reduction ------------------------------------------------------------- */

static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

struct Shrinker {
	std::vector<Case> prefix; /* cases run before, in the same process */
	Case best;
	int limit;
	double deadline;
	int tries, kept;

	bool still(const Case& c)
	{
		if (now() > deadline)
			return false;
		++tries;
		std::vector<const Case*> v;
		for (auto& p : prefix)
			v.push_back(&p);
		v.push_back(&c);
		Outcome o = run_forked(v, limit);
		if (o.r == 1 && !fails_anyway(prefix, c, limit)) {
			++kept;
			return true;
		}
		return false;
	}

	bool try_take(const Case& c)
	{
		if (still(c)) {
			best = c;
			return true;
		}
		return false;
	}

	bool cut_ops()
	{
		bool any = false;
		size_t chunk = best.ops.size() / 2;
		if (chunk == 0)
			chunk = 1;
		for (;;) {
			bool progress = false;
			size_t at = best.ops.size();
			/* from the end: late operations are the least needed ones */
			while (at > 0 && now() < deadline) {
				size_t from = at > chunk ? at - chunk : 0;
				if (best.ops.size() <= 1)
					break;
				Case c = best;
				c.ops.erase(c.ops.begin() + from, c.ops.begin() + at);
				if (try_take(c))
					progress = any = true;
				at = from;
				if (at > best.ops.size())
					at = best.ops.size();
			}
			if (now() > deadline)
				break;
			if (chunk == 1) {
				if (!progress || best.ops.size() > 3000)
					break;
			} else {
				chunk = (chunk + 1) / 2;
			}
		}
		return any;
	}

	template<class F> bool lower(u64 cur, F set)
	{
		/* smallest value for which it still fails, trying a few */
		if (cur == 0)
			return false;
		u64 lo = 0, hi = cur;
		Case c = best;
		set(c, 0);
		if (try_take(c))
			return true;
		bool any = false;
		int n = 0;
		while (hi - lo > 1 && n++ < 24 && now() < deadline) {
			u64 mid = lo + (hi - lo) / 2;
			c = best;
			set(c, mid);
			if (try_take(c)) {
				hi = mid;
				any = true;
			} else {
				lo = mid;
			}
		}
		return any;
	}

	void go()
	{
		bool progress = true;
		int round = 0;
		while (progress && now() < deadline && round++ < 6) {
			progress = false;
			if (best.ops.size() > 1 && cut_ops())
				progress = true;
			if (!best.blob.empty()) {
				size_t chunk = best.blob.size() / 2 + 1;
				while (chunk) {
					for (size_t at = 0; at < best.blob.size() && now() < deadline;) {
						Case c = best;
						size_t e = std::min(best.blob.size(), at + chunk);
						c.blob.erase(c.blob.begin() + at, c.blob.begin() + e);
						if (try_take(c))
							progress = true;
						else
							at = e;
					}
					chunk /= 2;
				}
				for (size_t at = 0; at < best.blob.size() && at < 256 && now() < deadline; ++at)
					if (best.blob[at] > 'a' || (best.blob[at] && best.blob[at] < 'a')) {
						Case c = best;
						c.blob[at] = 'a';
						try_take(c);
					}
			}
			std::vector<std::string> names;
			for (auto& p : best.par)
				names.push_back(p.first);
			for (auto& nm : names)
				if (lower(best.par[nm], [&](Case& c, u64 v) { c.par[nm] = v; }))
					progress = true;
			for (size_t i = 0; i < best.conts.size(); ++i) {
				if (lower(best.conts[i].p1, [&](Case& c, u64 v) { c.conts[i].p1 = v; }))
					progress = true;
				if (lower(best.conts[i].p2, [&](Case& c, u64 v) { c.conts[i].p2 = v; }))
					progress = true;
			}
			if (best.ops.size() <= 300)
				for (size_t i = 0; i < best.ops.size() && now() < deadline; ++i) {
					if (lower(best.ops[i].n, [&](Case& c, u64 v) { c.ops[i].n = v; }))
						progress = true;
					if (lower(best.ops[i].k, [&](Case& c, u64 v) { c.ops[i].k = v; }))
						progress = true;
					if (lower(best.ops[i].u, [&](Case& c, u64 v) { c.ops[i].u = v; }))
						progress = true;
				}
		}
	}
};

/* ---- the run ------------------------------------------------------------------ */

static std::string jstr(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c == '\n') {
			o += "\\n";
		} else if (c < 0x20 || c >= 0x7f) {
			char b[8];
			snprintf(b, sizeof(b), "\\u%04x", c);
			o += b;
		} else {
			o += c;
		}
	}
	return o + "\"";
}

struct Args {
	std::string prop, gen, config, out, replay, dict;
	u64 seed = 1, cases = 100, first = 0;
	int workers = 8;
	bool thorough = false;
	unsigned scale = 1;
	double shrink_s = 60;
	double until_s = 1e9; /* no case starts later than this */
};

static void make_case(const Args& a, const Module* m, u64 i, Case& c)
{
	u64 h = mix64(a.seed * 0x100000001b3ull + 17);
	h = bytes_digest(a.prop.data(), a.prop.size(), h);
	h = bytes_digest(a.config.data(), a.config.size(), h);
	h = bytes_digest(a.gen.data(), a.gen.size(), h);
	Rng r(mix64(h ^ mix64(i + 1)));
	GenCtx g;
	g.index = i;
	g.total = a.cases;
	g.thorough = a.thorough;
	g.scale = a.scale;
	c.gen = a.gen;
	m->make(r, g, c);
}

static void write_replay(const std::string& path, const Args& a, const std::vector<Case>& prefix, const Case& last, const std::string& msg)
{
	FILE* f = fopen(path.c_str(), "w");
	if (!f) {
		perror(path.c_str());
		exit(2);
	}
	fprintf(f, "# property %s\n# config %s\n# generator %s\n# seed %llu\n# %s\n", a.prop.c_str(), a.config.c_str(), a.gen.c_str(), (unsigned long long)a.seed, msg.c_str());
	fprintf(f, "# replay with: /verif/check.py --replay %s\n", path.c_str());
	for (auto& c : prefix)
		fputs(case_text(c).c_str(), f);
	fputs(case_text(last).c_str(), f);
	fclose(f);
}

static unsigned find_prop(const std::string& id)
{
	for (const PropInfo* p = props; p->id; ++p)
		if (id == p->id)
			return p->mask;
	fprintf(stderr, "unknown property %s\n", id.c_str());
	exit(2);
}

static int cmd_run(Args& a)
{
	const Module* m = find_module(a.gen);
	int W = a.workers;
	if (W > MAXW - 1)
		W = MAXW - 1;
	if ((u64)W > a.cases)
		W = a.cases ? a.cases : 1;
	struct Wk {
		pid_t pid;
		u64 next;
		bool over;
		int kills;
	};
	std::vector<Wk> wk(W);
	double t0 = now();
	auto start = [&](int w, u64 from) {
		fflush(stdout);
		pid_t pid = fork();
		if (pid < 0) {
			perror("fork");
			exit(2);
		}
		if (pid == 0) {
			char b[64];
			snprintf(b, sizeof(b), "/err.%d", w);
			int fd = open((g_tmp + b).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
			if (fd >= 0)
				dup2(fd, 2);
			snprintf(b, sizeof(b), "/hash.%d.%llu", w, (unsigned long long)from);
			FILE* hf = fopen((g_tmp + b).c_str(), "w");
			snprintf(b, sizeof(b), "/sample.%d", w);
			child_setup(true);
			me = &shm->w[w];
			int samples = 0;
			for (u64 i = from; i < a.cases && now() < t0 + a.until_s; i += W) {
				Case c;
				make_case(a, m, a.first + i, c);
				me->op = -1;
				me->cur = i;
				int r = run_case(c);
				me->op = R.op;
				if (r == 1 && nests(c)) {
					i64 op = R.op;
					unsigned cat = R.fail_cat;
					std::string msg = R.fail_msg;
					Case d = c;
					d.par["nest"] = 2;
					if (run_case(d) == 1)
						r = 2;
					me->op = op;
					R.fail_cat = cat;
					snprintf(R.fail_msg, sizeof(R.fail_msg), "%s", msg.c_str());
				}
				if (r == 1) {
					me->fail_cat = R.fail_cat;
					snprintf(me->msg, sizeof(me->msg), "%s", R.fail_msg);
					if (hf)
						fclose(hf);
					_exit(1);
				}
				if (r == 2) {
					++me->foreign;
					snprintf(me->foreign_msg, sizeof(me->foreign_msg), "%.40s: %.200s", cat_name(R.fail_cat), R.fail_msg);
				}
				if (r == 3) {
					++me->gaveup;
					snprintf(me->giveup_msg, sizeof(me->giveup_msg), "%.120s", R.fail_msg);
				}
				++me->done;
				me->ops += c.ops.size();
				if (R.nontrivial && r == 0) {
					++me->nontrivial;
					u64 h = case_hash(c);
					if (hf)
						fwrite(&h, 8, 1, hf);
					if (samples < 2 && w < 2 && i >= (u64)W * 2) {
						FILE* sf = fopen((g_tmp + b).c_str(), samples ? "a" : "w");
						if (sf) {
							fputs(case_text(c, 40).c_str(), sf);
							fclose(sf);
						}
						++samples;
					}
				}
				me->cur = -1;
			}
			if (hf)
				fclose(hf);
			_exit(0);
		}
		wk[w].pid = pid;
	};
	for (int w = 0; w < W; ++w) {
		wk[w].next = w;
		wk[w].over = false;
		wk[w].kills = 0;
		shm->w[w].cur = -1;
		start(w, w);
	}
	/* a case that is still running long after that is left out */
	bool late = false;
	if (a.until_s < 1e8) {
		struct sigaction sa;
		memset(&sa, 0, sizeof(sa));
		sa.sa_handler = on_alarm;
		sigaction(SIGALRM, &sa, 0);
		alarm((unsigned)a.until_s + 60);
	}
	int left = W;
	i64 failed_case = -1;
	int failed_w = -1;
	u64 killed = 0, foreign_crash = 0;
	Outcome first;
	while (left > 0) {
		int st;
		pid_t pid = waitpid(-1, &st, 0);
		if (pid < 0) {
			if (errno == EINTR) {
				if (g_late && !late) {
					late = true;
					for (int i = 0; i < W; ++i)
						if (wk[i].pid > 0)
							kill(wk[i].pid, SIGKILL);
				}
				continue;
			}
			break;
		}
		int w = -1;
		for (int i = 0; i < W; ++i)
			if (wk[i].pid == pid)
				w = i;
		if (w < 0)
			continue;
		wk[w].pid = 0;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			--left;
			continue;
		}
		if (late) {
			--left;
			continue;
		}
		char b[64];
		snprintf(b, sizeof(b), "/err.%d", w);
		Outcome o = decode(st, (g_tmp + b).c_str(), &shm->w[w]);
		i64 cur = shm->w[w].cur;
		if (cur < 0) {
			fprintf(stderr, "worker %d ended outside of a case: %s\n", w, o.msg.c_str());
			exit(2);
		}
		if (o.r == 1 && o.cat == CAT_CRASH) {
			/* a crash: would it without nesting? */
			Case c;
			make_case(a, m, a.first + cur, c);
			if (fails_anyway(std::vector<Case>(), c, 20))
				o.r = 2;
		}
		if (o.r == 1) {
			--left;
			if (failed_case < 0 || cur < failed_case) {
				failed_case = cur;
				failed_w = w;
				first = o;
			}
			/* no need of the others */
			for (int i = 0; i < W; ++i)
				if (i != w && wk[i].pid > 0)
					kill(wk[i].pid, SIGKILL);
			while (waitpid(-1, &st, 0) > 0)
				;
			left = 0;
			break;
		}
		/* killed from outside, or a crash that does not count: go on after it */
		if (o.r == 4) {
			++killed;
			++wk[w].kills;
		} else {
			++foreign_crash;
		}
		if ((u64)cur + W < a.cases && wk[w].kills < 20)
			start(w, cur + W);
		else
			--left;
	}
	alarm(0);
	double t1 = now();

	/* totals */
	WorkerShm tot;
	memset(&tot, 0, sizeof(tot));
	std::string fmsg, gmsg;
	for (int w = 0; w < W; ++w) {
		WorkerShm* s = &shm->w[w];
		tot.done += s->done;
		tot.nontrivial += s->nontrivial;
		tot.gaveup += s->gaveup;
		tot.foreign += s->foreign;
		tot.ops += s->ops;
		if (s->slowest > tot.slowest)
			tot.slowest = s->slowest;
		for (int i = 0; i < MAXSTAT; ++i)
			tot.stat[i] += s->stat[i];
		if (s->foreign_msg[0])
			fmsg = s->foreign_msg;
		if (s->giveup_msg[0])
			gmsg = s->giveup_msg;
	}
	std::string replay, vmsg;
	int verdict = 0;
	std::string shrink_note;
	if (failed_case >= 0) {
		/* alone, or after the cases that the same process ran before it? */
		std::vector<Case> prefix;
		Case c;
		make_case(a, m, a.first + failed_case, c);
		bool alone = true;
		int ok = 0;
		int limit = first.msg.find("HANG") != std::string::npos ? 10 : g_limit;
		Outcome o;
		{
			std::vector<const Case*> v(1, &c);
			for (int k = 0; k < 3; ++k) {
				o = run_forked(v, limit);
				if (o.r == 1)
					++ok;
				else
					break;
			}
		}
		if (ok < 3) {
			alone = false;
			ok = 0;
			double search = now() + (a.thorough ? 200 : 30);
			for (u64 len = 1; ok == 0 && now() < search; len *= 2) {
				std::vector<u64> idx;
				for (i64 i = failed_case - W; i >= 0 && idx.size() < len; i -= W)
					idx.push_back(i);
				prefix.clear();
				for (size_t k = idx.size(); k-- > 0;) {
					Case p;
					make_case(a, m, a.first + idx[k], p);
					prefix.push_back(p);
				}
				std::vector<const Case*> v;
				for (auto& p : prefix)
					v.push_back(&p);
				v.push_back(&c);
				int k;
				for (k = 0; k < 3; ++k) {
					o = run_forked(v, limit);
					if (o.r != 1)
						break;
				}
				if (k == 3)
					ok = 3;
				if (idx.size() < len || len > 4096)
					break;
			}
			if (ok) {
				/* drop the cases of the prefix that are not needed */
				double until = now() + a.shrink_s / 3;
				for (size_t i = 0; i < prefix.size() && now() < until;) {
					std::vector<const Case*> v;
					for (size_t j = 0; j < prefix.size(); ++j)
						if (j != i)
							v.push_back(&prefix[j]);
					v.push_back(&c);
					if (run_forked(v, limit).r == 1)
						prefix.erase(prefix.begin() + i);
					else
						++i;
				}
			}
		}
		if (ok) {
			Shrinker s;
			s.prefix = prefix;
			s.best = c;
			s.limit = limit < 20 ? limit : 20;
			s.deadline = now() + a.shrink_s;
			s.tries = s.kept = 0;
			s.go();
			std::vector<const Case*> v;
			for (auto& p : prefix)
				v.push_back(&p);
			v.push_back(&s.best);
			int k;
			for (k = 0; k < 3; ++k) {
				o = run_forked(v, limit);
				if (o.r != 1)
					break;
			}
			if (k < 3) {
				s.best = c;
				v.back() = &s.best;
				o = run_forked(v, limit);
			}
			char b[200];
			snprintf(b, sizeof(b), "reduced from %zu to %zu operations in %d runs%s", c.ops.size(), s.best.ops.size(), s.tries, alone ? "" : ", needs earlier cases in the same process");
			shrink_note = b;
			vmsg = std::string(cat_name(o.cat)) + ": " + o.msg;
			replay = a.replay;
			write_replay(replay, a, prefix, s.best, vmsg);
			verdict = 1;
		} else {
			shrink_note = "case " + std::to_string(failed_case) + " failed once but does not fail again: " + first.msg;
		}
	}

	/* distinct non-trivial cases */
	std::unordered_set<u64> distinct;
	std::string samples;
	for (int w = 0; w < W; ++w) {
		std::string base = g_tmp + "/hash." + std::to_string(w) + ".";
		/* one file per start of the worker */
		for (u64 from = w; from < a.cases; from += W) {
			FILE* f = fopen((base + std::to_string(from)).c_str(), "r");
			if (!f) {
				if (wk[w].kills || foreign_crash)
					continue;
				break;
			}
			u64 h;
			while (fread(&h, 8, 1, f) == 1)
				distinct.insert(h);
			fclose(f);
			if (!wk[w].kills && !foreign_crash)
				break;
		}
		std::string sn = g_tmp + "/sample." + std::to_string(w);
		FILE* f = fopen(sn.c_str(), "r");
		if (f) {
			char buf[4096];
			size_t n;
			while ((n = fread(buf, 1, sizeof(buf), f)) > 0)
				samples.append(buf, n);
			fclose(f);
		}
	}
	FILE* f = fopen(a.out.c_str(), "w");
	if (!f) {
		perror(a.out.c_str());
		return 2;
	}
	fprintf(f, "{\"prop\":%s,\"gen\":%s,\"config\":%s,\"seed\":%llu,\"cases\":%llu,\"done\":%llu,\"ops\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,",
		jstr(a.prop).c_str(), jstr(a.gen).c_str(), jstr(a.config).c_str(), (unsigned long long)a.seed, (unsigned long long)a.cases, (unsigned long long)tot.done, (unsigned long long)tot.ops, (unsigned long long)tot.nontrivial, distinct.size());
	fprintf(f, "\"slowest_case_s\":%.2f,", tot.slowest);
	fprintf(f, "\"gave_up\":%llu,\"gave_up_msg\":%s,\"other\":%llu,\"other_msg\":%s,\"killed\":%llu,\"other_crash\":%llu,\"run_s\":%.2f,\"total_s\":%.2f,",
		(unsigned long long)tot.gaveup, jstr(gmsg).c_str(), (unsigned long long)tot.foreign, jstr(fmsg).c_str(), (unsigned long long)killed, (unsigned long long)foreign_crash, t1 - t0, now() - t0);
	fprintf(f, "\"verdict\":%d,\"message\":%s,\"replay\":%s,\"note\":%s,\"samples\":%s,\"classes\":{", verdict, jstr(vmsg).c_str(), jstr(replay).c_str(), jstr(shrink_note).c_str(), jstr(samples).c_str());
	for (int i = 0; i < shm->nstat && i < MAXSTAT; ++i)
		fprintf(f, "%s%s:%llu", i ? "," : "", jstr(shm->statname[i]).c_str(), (unsigned long long)tot.stat[i]);
	fprintf(f, "}}\n");
	fclose(f);
	(void)failed_w;
	return verdict;
}

static int cmd_replay(const char* path, unsigned mask, bool trace)
{
	FILE* f = fopen(path, "r");
	if (!f) {
		perror(path);
		return 2;
	}
	std::vector<Case> cs;
	Case c;
	while (case_parse(f, c))
		cs.push_back(c);
	fclose(f);
	if (cs.empty()) {
		fprintf(stderr, "no case in %s\n", path);
		return 2;
	}
	R.mask = mask;
	R.tracing = trace;
	child_setup(true);
	me = &dummy;
	for (auto& x : cs) {
		int r = run_case(x);
		if (r == 1 || r == 2) {
			printf("FAILED at operation %lld: %s: %s%s\n", (long long)R.op, cat_name(R.fail_cat), R.fail_msg, r == 2 ? " (not this property)" : "");
			return r == 1;
		}
		if (r == 3)
			printf("gave up: %s\n", R.fail_msg);
	}
	printf("held\n");
	return 0;
}

/* a case from a file, not from a generator: confirm it and reduce it */
static int cmd_shrink(const char* path, Args& a)
{
	FILE* f = fopen(path, "r");
	if (!f) {
		perror(path);
		return 2;
	}
	std::vector<Case> cs;
	Case c;
	while (case_parse(f, c))
		cs.push_back(c);
	fclose(f);
	if (cs.empty())
		return 2;
	Shrinker s;
	s.best = cs.back();
	cs.pop_back();
	s.prefix = cs;
	s.limit = g_limit;
	s.deadline = now() + a.shrink_s;
	s.tries = s.kept = 0;
	std::vector<const Case*> v;
	for (auto& p : s.prefix)
		v.push_back(&p);
	v.push_back(&s.best);
	Outcome o;
	for (int k = 0; k < 3; ++k) {
		o = run_forked(v, g_limit);
		if (o.r != 1) {
			printf("held\n");
			return 0;
		}
	}
	Case orig = s.best;
	s.go();
	v.back() = &s.best;
	o = run_forked(v, g_limit);
	if (o.r != 1) {
		s.best = orig;
		o = run_forked(v, g_limit);
	}
	std::string msg = std::string(cat_name(o.cat)) + ": " + o.msg;
	write_replay(a.replay, a, s.prefix, s.best, msg);
	printf("FAILED %s\n", msg.c_str());
	return 1;
}

#ifdef VH_FUZZER
/* coverage-guided mode: the bytes are decoded into a case of the generator */
void fuzz_decode(const std::string& gen, const uint8_t* data, size_t size, Case& c);

static std::string fz_gen, fz_out;
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
	const char* p = getenv("VH_PROP");
	const char* g = getenv("VH_GEN");
	const char* o = getenv("VH_OUT");
	me = &dummy;
	R.mask = find_prop(p ? p : "C01");
	fz_gen = g ? g : "fz_mm";
	fz_out = o ? o : "/dev/null";
	signal(SIGPROF, on_prof);
	heap_setup();
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
	Case c;
	fuzz_decode(fz_gen, data, size, c);
	if (getenv("VH_DUMP")) {
		/* only say what the bytes mean */
		FILE* f = fopen(fz_out.c_str(), "w");
		if (f) {
			fputs(case_text(c).c_str(), f);
			fclose(f);
		}
		return 0;
	}
	const Module* m = find_module(c.gen);
	R.fail_cat = 0;
	R.fail_msg[0] = 0;
	int r = sigsetjmp(R.jb, 0);
	if (r == 0)
		m->run(c);
	if (r == 1) {
		fprintf(stderr, "FAILED %s: %s\n", cat_name(R.fail_cat), R.fail_msg);
		abort();
	}
	return 0;
}
#else
int main(int argc, char** argv)
{
	Args a;
	setvbuf(stdout, 0, _IOLBF, 0);
	std::string cmd = argc > 1 ? argv[1] : "";
	std::string file;
	bool trace = false;
	for (int i = 2; i < argc; ++i) {
		std::string s = argv[i];
		auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (s == "--prop") a.prop = val();
		else if (s == "--gen") a.gen = val();
		else if (s == "--config") a.config = val();
		else if (s == "--seed") a.seed = strtoull(val().c_str(), 0, 0);
		else if (s == "--cases") a.cases = strtoull(val().c_str(), 0, 0);
		else if (s == "--first") a.first = strtoull(val().c_str(), 0, 0);
		else if (s == "--workers") a.workers = atoi(val().c_str());
		else if (s == "--thorough") a.thorough = true;
		else if (s == "--scale") a.scale = atoi(val().c_str());
		else if (s == "--out") a.out = val();
		else if (s == "--replay") a.replay = val();
		else if (s == "--tmp") g_tmp = val();
		else if (s == "--dict") a.dict = val();
		else if (s == "--shrink") a.shrink_s = atof(val().c_str());
		else if (s == "--until") a.until_s = atof(val().c_str());
		else if (s == "--trace") trace = true;
		else file = s;
	}
	if (!a.dict.empty()) {
		FILE* f = fopen(a.dict.c_str(), "r");
		unsigned long long v;
		while (f && fscanf(f, "%llu", &v) == 1)
			g_dict.push_back(v);
		if (f)
			fclose(f);
	}
	R.mask = a.prop.empty() ? CAT_ALL : find_prop(a.prop);
	R.thorough = a.thorough;
	g_vfactor = a.thorough ? 10 : 5;
	shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	me = &dummy;
	heap_setup();
	if (cmd == "run")
		return cmd_run(a);
	if (cmd == "shrink")
		return cmd_shrink(file.c_str(), a);
	if (cmd == "replay")
		return cmd_replay(file.c_str(), R.mask, trace);
	if (cmd == "show") {
		Case c;
		make_case(a, find_module(a.gen), a.first, c);
		fputs(case_text(c).c_str(), stdout);
		return 0;
	}
	fprintf(stderr, "usage: harness run|replay|show ...\n");
	return 2;
}
#endif
