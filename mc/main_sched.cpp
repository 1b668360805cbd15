// All interleavings of concurrent parses up to a preemption bound, on the real code. The library's
// translation units are compiled with -fsanitize=thread but linked with the runtime below: every
// memory access and every synchronisation operation is a call into this scheduler. One thread runs at a
// time; the scheduler decides at each access to memory that is not the thread's own who goes on.
// Accesses to memory that could be written are checked for conflicts with vector clocks.
#include "hist.h"
#include "h.h"
#include "ref.h"
#include <algorithm>
#include <array>
#include <atomic>
#include <exception>
#include <link.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace hist { static std::vector<G>& gs() { static std::vector<G> v; return v; } void add(const G& g) { gs().push_back(g); } }
void register_cases();
using namespace hist;

namespace {

constexpr int MAXT = 3;
struct Range { std::uintptr_t lo, hi; bool in(std::uintptr_t a) const { return a >= lo && a < hi; } };
std::vector<Range> readonly;             // text and constant segments of all loaded objects, the inputs
thread_local int tid = -1;               // >=0 while this thread runs an operation
thread_local int self = -1;              // which of the threads this is
thread_local Range my_stack;
// while this runtime works for the thread, its own accesses and allocations do not count
struct In { int me; In() : me(tid) { tid = -1; } ~In() { tid = me; } };
struct Block { std::uintptr_t p; std::size_t n; };
std::vector<Block> blocks[MAXT];         // live heap blocks allocated by each thread's operation

using VC = std::array<unsigned, MAXT>;
VC clk[MAXT];
struct Cell { int wt = -1; unsigned wc = 0; VC r{}; bool any_read = false; };
std::map<std::uintptr_t, Cell> shadow;   // per byte, only for memory that may be shared and written
std::map<std::uintptr_t, VC> sync_clk;

// ---- who runs ---------------------------------------------------------------------------------------
std::atomic<int> turn{ -1 };
int nthreads = 2;
bool done_[MAXT], blocked[MAXT];
struct Pre { long at; int to; };
std::vector<Pre> plan;                   // preemptions of this schedule
std::size_t next_pre;
long steps;
struct Point { int running; unsigned enabled; };
std::vector<Point> trace;
std::string conflict;
bool deadlock;
std::uint64_t total_points = 0, shared_accesses = 0;

void wait_turn(int t)
{
	for (int i = 0; ; ++i)
	{
		int v = turn.load(std::memory_order_acquire);
		if (v == t) return;
		if (i > 50) syscall(SYS_futex, &turn, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
	}
}
void set_turn(int u)
{
	turn.store(u, std::memory_order_release);
	syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 100, nullptr, nullptr, 0);
}
void hand_to(int me, int u)
{
	set_turn(u);
	if (me >= 0) wait_turn(me);
}
int other(int me)
{
	for (int k = 1; k < nthreads; ++k) { int u = (me + k) % nthreads; if (!done_[u] && !blocked[u]) return u; }
	return -1;
}
void point()
{
	unsigned en = 0;
	for (int u = 0; u < nthreads; ++u) if (!done_[u] && !blocked[u]) en |= 1u << u;
	trace.push_back({ self, en });
	long at = steps++;
	if (next_pre < plan.size() && plan[next_pre].at == at)
	{
		int u = plan[next_pre++].to;
		if (u != self && (en >> u & 1)) hand_to(self, u);
	}
}
// this thread cannot go on: somebody else must
void block_here()
{
	blocked[self] = true;
	int u = other(self);
	if (u < 0) { deadlock = true; h::viol("deadlock", "", "threads wait for each other", "none", "deadlock"); fflush(stdout); _exit(1); }
	hand_to(self, u);
	blocked[self] = false;
}
void wake_all() { for (auto& b : blocked) b = false; }

void acquire(std::uintptr_t a) { auto& s = sync_clk[a]; for (int i = 0; i < MAXT; ++i) clk[self][i] = std::max(clk[self][i], s[i]); }
void release(std::uintptr_t a) { auto& s = sync_clk[a]; for (int i = 0; i < MAXT; ++i) s[i] = std::max(s[i], clk[self][i]); ++clk[self][self]; }

bool is_readonly(std::uintptr_t a) { for (auto& r : readonly) if (r.in(a)) return true; return false; }
bool own_heap(std::uintptr_t a) { for (auto& b : blocks[self]) if (a - b.p < b.n) return true; return false; }

void access(void* p, std::size_t n, bool write)
{
	if (tid < 0) return;
	auto a = (std::uintptr_t)p;
	if (my_stack.in(a)) return;
	In in;
	if (own_heap(a)) return;
	point();
	if (!write && is_readonly(a)) return;
	++shared_accesses;
	for (std::size_t i = 0; i < n; ++i)
	{
		Cell& c = shadow[a + i];
		bool bad = c.wt >= 0 && c.wt != self && c.wc > clk[self][c.wt];
		if (write && c.any_read) for (int u = 0; u < nthreads; ++u) if (u != self && c.r[u] > clk[self][u]) bad = true;
		if (bad && conflict.empty())
		{
			char b[160];
			snprintf(b, sizeof b, "%s of %zu bytes at %p by thread %d, not ordered with an access of another thread", write ? "write" : "read", n, p, self);
			conflict = b;
		}
		if (write) { c.wt = self; c.wc = clk[self][self]; }
		else { c.r[self] = clk[self][self]; c.any_read = true; }
	}
}

void on_alloc(void* p, std::size_t n)
{
	if (tid < 0) return;
	In in;
	blocks[self].push_back({ (std::uintptr_t)p, n ? n : 1 });
	if (!shadow.empty()) { shadow.erase(shadow.lower_bound((std::uintptr_t)p), shadow.lower_bound((std::uintptr_t)p + n)); }
}
void on_free(void* p)
{
	if (tid < 0) return;
	In in;
	for (auto& bs : blocks)
		for (std::size_t i = 0; i < bs.size(); ++i)
			if (bs[i].p == (std::uintptr_t)p) { bs[i] = bs.back(); bs.pop_back(); return; }
}

} // namespace

// ---- the interface the compiler calls ----------------------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) void __tsan_read##N(void* p) { access(p, N, false); } void __tsan_write##N(void* p) { access(p, N, true); } \
	void __tsan_unaligned_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_write##N(void* p) { access(p, N, true); } \
	void __tsan_volatile_read##N(void* p) { access(p, N, false); } void __tsan_volatile_write##N(void* p) { access(p, N, true); } \
	void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false); } void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, std::size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, std::size_t n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, sizeof *p, true); }
void __tsan_vptr_read(void** p) { access(p, sizeof *p, false); }
static void atomic_at(const volatile void* p, bool acq, bool rel)
{
	if (tid < 0) return;
	In in;
	point();
	if (acq) acquire((std::uintptr_t)p);
	if (rel) { release((std::uintptr_t)p); wake_all(); }
}
#define AT(B, T) \
	T __tsan_atomic##B##_load(const volatile T* p, int) { atomic_at(p, true, false); return *p; } \
	void __tsan_atomic##B##_store(volatile T* p, T v, int) { atomic_at(p, false, true); *p = v; } \
	T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { atomic_at(p, true, true); T o = *p; *p = v; return o; } \
	T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { atomic_at(p, true, true); T o = *p; *p = (T)(o + v); return o; } \
	T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { atomic_at(p, true, true); T o = *p; *p = (T)(o - v); return o; } \
	T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { atomic_at(p, true, true); T o = *p; *p = o & v; return o; } \
	T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { atomic_at(p, true, true); T o = *p; *p = o | v; return o; } \
	T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { atomic_at(p, true, true); T o = *p; *p = o ^ v; return o; } \
	T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) { atomic_at(p, true, true); T o = *p; *p = ~(o & v); return o; } \
	int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { atomic_at(p, true, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { atomic_at(p, true, true); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { if (tid >= 0) { In in; point(); acquire(1); release(1); } }
void __tsan_atomic_signal_fence(int) {}

// local statics
int __real___cxa_guard_acquire(unsigned char*);
void __real___cxa_guard_release(unsigned char*);
void __real___cxa_guard_abort(unsigned char*);
int __wrap___cxa_guard_acquire(unsigned char* g)
{
	if (tid < 0) return __real___cxa_guard_acquire(g);
	In in;
	point();
	while (true)
	{
		if (g[0]) { acquire((std::uintptr_t)g); return 0; }
		if (!g[1]) { g[1] = 1; return 1; }
		block_here();
	}
}
void __wrap___cxa_guard_release(unsigned char* g) { if (tid < 0) return __real___cxa_guard_release(g); In in; point(); release((std::uintptr_t)g); g[0] = 1; g[1] = 0; wake_all(); }
void __wrap___cxa_guard_abort(unsigned char* g) { if (tid < 0) return __real___cxa_guard_abort(g); In in; g[1] = 0; wake_all(); }
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (tid < 0) return __real_pthread_mutex_lock(m);
	In in;
	point();
	int r;
	while ((r = pthread_mutex_trylock(m)) == 16) block_here();
	if (r == 0) acquire((std::uintptr_t)m);
	return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (tid < 0) return __real_pthread_mutex_unlock(m);
	In in;
	release((std::uintptr_t)m);
	int r = __real_pthread_mutex_unlock(m);
	wake_all();
	point();
	return r;
}
// calls the compiler leaves alone
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
int __real_memcmp(const void*, const void*, std::size_t);
void* __wrap_memcpy(void* d, const void* s, std::size_t n) { if (tid >= 0 && n) { access((void*)s, n, false); access(d, n, true); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, std::size_t n) { if (tid >= 0 && n) { access((void*)s, n, false); access(d, n, true); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, std::size_t n) { if (tid >= 0 && n) access(d, n, true); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, std::size_t n) { if (tid >= 0 && n) { access((void*)a, n, false); access((void*)b, n, false); } return __real_memcmp(a, b, n); }
}

// ---- one thread's work ------------------------------------------------------------------------------------
struct Job { int g; const char* b; std::size_t n; bool look; std::string want, got; };
static Job jobs[MAXT];
static std::atomic<int> round_no{ 0 };
static std::atomic<bool> quit{ false };
static std::atomic<int> ready{ 0 };
static void bump() { round_no.fetch_add(1, std::memory_order_release); syscall(SYS_futex, &round_no, FUTEX_WAKE_PRIVATE, 100, nullptr, nullptr, 0); }

static std::string text(const mc::Obs& o, std::size_t n, const char* base)
{
	if (!o.ok) return o.rem == base && o.rem_len == n ? "no match" : "no match, but input consumed";
	if (o.rem != base + (n - o.rem_len)) return "remaining input is not the suffix";
	return "match " + std::to_string(n - o.rem_len) + " " + o.val;
}
static void work(int t)
{
	Job& j = jobs[t];
	mc::g_base = j.b; mc::g_len = j.n;
	mc::g_log.clear();
	wait_turn(t);
	Held* held = nullptr;
	std::string bad;
	auto op = j.look ? gs()[j.g].look : gs()[j.g].parse;
	tid = t;
	try { held = op(j.b, j.n); } catch (...) { tid = -1; bad = "exception"; }
	tid = -1;
	if (held) { mc::Obs o; held->describe(o); j.got = text(o, j.n, j.b); delete held; } else j.got = bad;
	done_[t] = true;
	wake_all();
	int u = other(t);
	set_turn(u);
}
static void* loop(void* arg)
{
	int t = (int)(long)arg;
	self = t;
	pthread_attr_t at; void* lo; std::size_t sz;
	pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); pthread_attr_destroy(&at);
	my_stack = { (std::uintptr_t)lo, (std::uintptr_t)lo + sz };
	int seen = 0;
	while (true)
	{
		while (round_no.load(std::memory_order_acquire) == seen) syscall(SYS_futex, &round_no, FUTEX_WAIT_PRIVATE, seen, nullptr, nullptr, 0);
		if (quit) return nullptr;
		seen = round_no;
		bool mine = t < nthreads;
		++ready;
		if (mine) work(t);
	}
}
static pthread_t threads[MAXT];
static void start_threads() { for (int t = 0; t < MAXT; ++t) pthread_create(&threads[t], nullptr, loop, (void*)(long)t); }
static void stop_threads() { quit = true; bump(); for (auto& t : threads) pthread_join(t, nullptr); quit = false; round_no = 0; }

static std::uint64_t schedules = 0;
static bool fresh = false;               // a fresh process for every schedule (hidden static state exists)
static std::string pairname;
struct Outcome { long n; std::vector<Point> trace; bool bad; };

static void one_round(int first)
{
	for (int t = 0; t < MAXT; ++t) { done_[t] = t >= nthreads; blocked[t] = false; blocks[t].clear(); clk[t] = {}; clk[t][t] = 1; jobs[t].got.clear(); }
	shadow.clear(); sync_clk.clear(); trace.clear(); conflict.clear();
	next_pre = 0; steps = 0;
	turn = -2; ready = 0;
	bump();
	while (ready != MAXT) sched_yield();
	set_turn(first);
	wait_turn(-1);
}
static bool judge(int first)
{
	std::string sched = "thread " + std::to_string(first) + " first";
	for (auto& p : plan) sched += ", at access " + std::to_string(p.at) + " switch to " + std::to_string(p.to);
	bool bad = false;
	for (int t = 0; t < nthreads; ++t)
		if (jobs[t].got != jobs[t].want) { h::viol(pairname, sched, "a concurrent parse gave another result than alone", jobs[t].want, jobs[t].got); bad = true; }
	if (!conflict.empty()) { h::viol(pairname, sched, "conflicting access to shared memory", "none", conflict); bad = true; }
	return bad;
}
static std::vector<Point> run_schedule(int first, bool& bad)
{
	++schedules; ++h::runs;
	mc::g_ticks = mc::g_ticks + 1;
	if (!fresh)
	{
		one_round(first);
		bad = judge(first);
		total_points += trace.size();
		return trace;
	}
	int fd[2];
	if (pipe(fd)) _exit(2);
	fflush(stdout);
	pid_t c = fork();
	if (c == 0)
	{
		start_threads();
		one_round(first);
		bool b = judge(first);
		fflush(stdout);
		std::vector<Point> t = trace;
		for (std::size_t o = 0; o < t.size() * sizeof(Point);) { ssize_t w = write(fd[1], (char*)t.data() + o, t.size() * sizeof(Point) - o); if (w <= 0) break; o += w; }
		_exit(b);
	}
	close(fd[1]);
	std::string buf; char tmp[4096]; ssize_t r;
	while ((r = read(fd[0], tmp, sizeof tmp)) > 0) buf.append(tmp, r);
	close(fd[0]);
	int st; waitpid(c, &st, 0);
	bad = !WIFEXITED(st) || WEXITSTATUS(st);
	if (bad) ++h::violations;
	std::vector<Point> t(buf.size() / sizeof(Point));
	memcpy(t.data(), buf.data(), t.size() * sizeof(Point));
	total_points += t.size();
	return t;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
static double deadline = 0;              // with hidden static state: bounds are raised one by one until then
static bool late = false;
static bool explore(int first, int bound)
{
	if (deadline != 0 && now() > deadline) { late = true; return false; }
	bool bad = false;
	std::vector<Point> t = run_schedule(first, bad);
	if (bad) return false;
	if ((int)plan.size() >= bound) return true;
	long from = plan.empty() ? 0 : plan.back().at + 1;
	for (long i = from; i < (long)t.size(); ++i)
		for (int u = 0; u < nthreads; ++u)
			if (u != t[i].running && (t[i].enabled >> u & 1))
			{
				plan.push_back({ i, u });
				bool ok = explore(first, bound);
				plan.pop_back();
				if (!ok) return false;
			}
	return true;
}

static int on_phdr(dl_phdr_info* i, size_t, void*)
{
	for (int k = 0; k < i->dlpi_phnum; ++k)
		if (i->dlpi_phdr[k].p_type == PT_LOAD && !(i->dlpi_phdr[k].p_flags & PF_W))
			readonly.push_back({ i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz });
	for (int k = 0; k < i->dlpi_phnum; ++k)
		if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO)
			readonly.push_back({ i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz });
	return 0;
}

int main(int argc, char** argv)
{
	h::start();
	register_cases();
	int part = 0, nparts = 1;
	fresh = h::arg(argc, argv, "--fresh", 0);
	int thorough = (int)h::arg(argc, argv, "--thorough", 0);
	for (int i = 1; i < argc; ++i) sscanf(argv[i], "--part=%d/%d", &part, &nparts);
	dl_iterate_phdr(on_phdr, nullptr);
	char* arena = (char*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	readonly.push_back({ (std::uintptr_t)arena, (std::uintptr_t)arena + (1 << 16) });
	std::vector<std::string> ins{ "aab", "ab", "abab", "abcabbacacbbcaababcabbacacbbcaababcabbacacbbcaab" };
	// inputs of one grammar only
	std::vector<std::pair<int, int>> own;
	for (int i = 1; i < argc; ++i)
		if (!strncmp(argv[i], "--own=", 6))
			if (FILE* f = fopen(argv[i] + 6, "r"))
			{
				int g; char hex[400];
				while (fscanf(f, "%d %399s", &g, hex) == 2)
				{
					std::string in;
					for (const char* p = hex; p[0] && p[1]; p += 2) { unsigned v; sscanf(p, "%2x", &v); in += (char)v; }
					own.push_back({ g, (int)ins.size() });
					ins.push_back(in);
				}
				fclose(f);
			}
	std::vector<const char*> at(ins.size());
	{ std::size_t o = 0; for (std::size_t i = 0; i < ins.size(); o += ins[i].size(), ++i) at[i] = arena + o, memcpy(arena + o, ins[i].data(), ins[i].size()); }
	mprotect(arena, 1 << 16, PROT_READ);
	mc::g_on_alloc = on_alloc; mc::g_on_free = on_free;
	if (!fresh) start_threads();

	struct Task { int g[3]; int in[3]; bool look[3]; int n, bound; };
	std::vector<Task> tasks;
	int N = (int)gs().size();
	for (std::size_t i = 0; i < own.size(); ++i)
	{
		auto [g, in] = own[i];
		tasks.push_back({ { g, g }, { in, in }, { false, i % 2 == 1 }, 2, thorough ? 4 : 3 });
		if (i + 1 < own.size() && own[i + 1].first == g) tasks.push_back({ { g, g }, { in, in + 1 }, { i % 2 == 1, false }, 2, thorough ? 4 : 3 });
		tasks.push_back({ { g, g, g }, { in, in, in }, { false, true, false }, 3, 2 });
	}
	for (int g = 0; g < N; ++g)
	{
		tasks.push_back({ { g, g }, { 0, 0 }, {}, 2, thorough ? 4 : 3 });
		tasks.push_back({ { g, g }, { 0, 1 }, {}, 2, thorough ? 6 : 4 });
		tasks.push_back({ { g, g }, { 2, 2 }, { false, true }, 2, thorough ? 6 : 4 });
		tasks.push_back({ { g, g, g }, { 1, 1, 1 }, {}, 3, thorough ? 5 : 3 });
		tasks.push_back({ { g, g }, { 3, 3 }, { g % 2 == 0, false }, 2, 2 });
		for (int k = 1; k < (thorough ? N : 6); ++k) tasks.push_back({ { g, (g + k) % N }, { 1, k % 2 ? 1 : 2 }, { false, k % 3 == 0 }, 2, thorough ? 3 : 2 });
	}
	std::uint64_t pairs = 0;
	// a process of its own for every schedule is slow: all combinations with one preemption more at a time
	const long budget = h::arg(argc, argv, "--budget", 0);
	if (fresh && budget) deadline = now() + (double)budget;
	const int rounds = deadline != 0 ? 7 : 1;
	for (int round = 0; round < rounds && !late && h::violations < 5; ++round)
	{
	bool deeper = false;
	for (std::size_t k = part; k < tasks.size() && h::violations < 5 && !late; k += nparts)
	{
		if (deadline != 0 && tasks[k].bound < round) continue;
		deeper = true;
		Task& t = tasks[k];
		nthreads = t.n;
		pairname.clear();
		for (int i = 0; i < t.n; ++i)
		{
			Job& j = jobs[i];
			j.g = t.g[i]; j.b = at[t.in[i]]; j.n = ins[t.in[i]].size(); j.look = t.look[i];
			ref::Grammar g = ref::parse_sexpr(gs()[j.g].sexpr);
			ref::Interp it(g);
			auto r = it.run(j.b, j.n, j.look);
			j.want = r.ok ? "match " + std::to_string(r.end) + " " + (j.look ? "" : r.val) : std::string("no match");
			if (i) pairname += " || ";
			pairname += std::string(j.look ? "lookahead " : "parse ") + gs()[j.g].cpp + " on \"" + ins[t.in[i]] + "\"";
			h::outcome(j.want);
		}
		h::where(pairname);
		++pairs;
		for (int first = 0; first < t.n; ++first)
		{
			plan.clear();
			if (!explore(first, deadline != 0 ? round : t.bound)) break;
		}
		if (k % 16 == 0) h::sample(pairname + ": " + std::to_string(schedules) + " schedules so far, preemption bound " + std::to_string(t.bound));
	}
	if (!deeper) break;
	}
	if (!fresh) stop_threads();
	h::transitions = total_points; h::states = schedules;
	h::extra = std::string(",\"out_of_time\":") + (late ? "1" : "0") + ",\"schedules\":" + std::to_string(schedules) + ",\"combinations\":" + std::to_string(pairs) + ",\"accesses_to_writable_shared_memory\":" + std::to_string(shared_accesses);
	return h::finish();
}
