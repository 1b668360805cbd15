#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

#ifdef MC_THREADS
#define MC_TL thread_local
#else
#define MC_TL
#endif

namespace mc {

extern MC_TL const char* g_base;
extern MC_TL std::size_t g_len;
extern MC_TL std::string g_log;
extern std::size_t g_news;          // operator new calls
extern std::size_t g_frees;         // operator delete calls on non-null pointers
extern std::size_t g_news_limit;    // absolute value of g_news at which operator new throws
extern MC_TL long g_throw_at;              // >=0: the user function called after that many more throws Thrown
struct Thrown { int id; };
extern MC_TL long g_fail_at;              // >=0: fail the allocation after that many more
extern volatile std::uint64_t g_ticks; // progress, for the hang watch
extern int g_hang_secs;
extern int g_room_gb;               // limit of the address space
extern char g_where[4096];
extern std::size_t g_elem;           // bytes per input element (views are reported in elements; g_len is in bytes)

std::uint64_t fnv(const char* p, std::size_t n, std::uint64_t salt);
void put_num(std::string& o, unsigned long long n);
void put_view(std::string& o, const char* p, std::size_t n);
void log_call(char kind, int k, const std::string& args);
extern void (*g_on_alloc)(void*, std::size_t);
extern void (*g_on_free)(void*);
extern void (*g_on_call)();          // inside every user function
extern void (*g_before_alloc)();     // may throw
bool pred_answer(int k, const std::string& args);
void install_handlers(bool crash_handlers);

struct Pages
{
	char* page;
	std::size_t size;
	explicit Pages(std::size_t bytes);
	const char* place(const char* s, std::size_t n, bool at_end);
};

} // namespace mc
