// Runtime shared by all shards: globals used by mc.h, allocation accounting, crash / hang reporting.
#include "rt.h"
#include "mc_pred.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

namespace mc {

MC_TL const char* g_base = nullptr;
MC_TL std::size_t g_len = 0;
MC_TL std::string g_log;
std::size_t g_news = 0;
std::size_t g_frees = 0;
bool g_quiet = false;
std::size_t g_news_limit = (std::size_t)-1;
MC_TL long g_fail_at = -1;
MC_TL long g_throw_at = -1;
volatile std::uint64_t g_ticks = 0;
char g_where[4096];
void (*g_on_alloc)(void*, std::size_t) = nullptr;
void (*g_on_free)(void*) = nullptr;
void (*g_before_alloc)() = nullptr;
void (*g_on_call)() = nullptr;
std::size_t g_elem = 1;

std::uint64_t fnv(const char* p, std::size_t n, std::uint64_t salt) { return fnv_impl(p, n, salt); }

void put_num(std::string& o, unsigned long long n)
{
	char b[24]; int i = 24;
	do { b[--i] = '0' + n % 10; n /= 10; } while (n);
	o.append(b + i, 24 - i);
}

void put_view(std::string& o, const char* p, std::size_t n)
{
	if (n == 0)     // a default-constructed view, or an empty one at a place in the input
	{
		if (!p) return;
		if (p >= g_base && p <= g_base + g_len && (std::size_t)(p - g_base) % g_elem == 0) { o += '@'; put_num(o, (unsigned long long)(p - g_base) / g_elem); }
		else o += "OUTSIDE0";
		return;
	}
	if (p >= g_base && p + n * g_elem <= g_base + g_len && (std::size_t)(p - g_base) % g_elem == 0) { put_num(o, (unsigned long long)(p - g_base) / g_elem); o += '+'; put_num(o, n); }
	else { o += "OUTSIDE"; put_num(o, n); }
}

void log_call(char kind, int k, const std::string& args)
{
	if (g_throw_at >= 0 && g_throw_at-- == 0) throw Thrown{ k };
	if (g_quiet) return;
	if (g_log.size() > (1u << 20)) return;
	g_log += kind; put_num(g_log, (unsigned long long)k); g_log += '('; g_log += args; g_log += ')';
	if (g_on_call) g_on_call();
}

bool pred_answer(int k, const std::string& a) { return pred_answer_impl(k, a); }

static void on_signal(int sig)
{
	char buf[4400];
	int n = snprintf(buf, sizeof buf, "\nCRASH %d %s\n", sig, g_where);
	if (n > 0) { ssize_t w = write(1, buf, (size_t)n); (void)w; }
	_exit(3);
}

static std::uint64_t last_tick; static int stale; int g_hang_secs = 8; int g_room_gb = 3;
static void on_timer(int)
{
	if (g_ticks == last_tick)
	{
		if (++stale >= g_hang_secs)
		{
			char buf[4400];
			int n = snprintf(buf, sizeof buf, "\nHANG %d %s\n", stale, g_where);
			if (n > 0) { ssize_t w = write(1, buf, (size_t)n); (void)w; }
			_exit(4);
		}
	}
	else { stale = 0; last_tick = g_ticks; }
}

void install_handlers(bool crash_handlers)
{
	static char alt[1 << 16];
	stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt;
	sigaltstack(&ss, nullptr);
	struct sigaction sa{};
	sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
	if (crash_handlers)
		for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL, SIGTRAP }) sigaction(s, &sa, nullptr);
	sa.sa_handler = on_timer; sa.sa_flags = SA_ONSTACK | SA_RESTART;
	sigaction(SIGVTALRM, &sa, nullptr);
	itimerval tv{ { 1, 0 }, { 1, 0 } };
	setitimer(ITIMER_VIRTUAL, &tv, nullptr);
	if (crash_handlers)
	{
		rlimit rl{ (rlim_t)g_room_gb << 30, (rlim_t)g_room_gb << 30 };
		setrlimit(RLIMIT_AS, &rl);
	}
	rlimit core{ 0, 0 };
	setrlimit(RLIMIT_CORE, &core);
}

// [guard][page][guard]; the input sits flush against one of the guards and is read-only while it is used
Pages::Pages(std::size_t bytes)
{
	std::size_t ps = (std::size_t)sysconf(_SC_PAGESIZE);
	size = (bytes + ps - 1) / ps * ps;
	char* p = (char*)mmap(nullptr, size + 2 * ps, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
	page = p + ps;
	mprotect(page, size, PROT_READ | PROT_WRITE);
	std::memset(page, 'a', size);
}
const char* Pages::place(const char* s, std::size_t n, bool at_end)
{
	mprotect(page, size, PROT_READ | PROT_WRITE);
	char* at = at_end ? page + size - n : page;
	std::memcpy(at, s, n);
	mprotect(page, size, PROT_READ);
	return at;
}

} // namespace mc

#ifndef MC_NO_NEW
// All allocations of the process are counted; a run that allocates without end is stopped by bad_alloc.
static void* mc_alloc(std::size_t n)
{
	if (mc::g_news >= mc::g_news_limit) throw std::bad_alloc();
	if (mc::g_fail_at >= 0 && mc::g_fail_at-- == 0) throw std::bad_alloc();
	if (mc::g_before_alloc) mc::g_before_alloc();
	void* p = std::malloc(n ? n : 1);
	if (!p) throw std::bad_alloc();
	++mc::g_news;
	if (mc::g_on_alloc) mc::g_on_alloc(p, n);
	return p;
}
static void mc_free(void* p) noexcept
{
	if (p) ++mc::g_frees;
	if (mc::g_on_free && p) mc::g_on_free(p);
	std::free(p);
}
void* operator new(std::size_t n) { return mc_alloc(n); }
void* operator new[](std::size_t n) { return mc_alloc(n); }
void operator delete(void* p) noexcept { mc_free(p); }
void operator delete[](void* p) noexcept { mc_free(p); }
void operator delete(void* p, std::size_t) noexcept { mc_free(p); }
void operator delete[](void* p, std::size_t) noexcept { mc_free(p); }
#endif
