// Small reporting layer for the hand-written explorers.
#pragma once
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

#ifdef __SANITIZE_ADDRESS__
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
namespace h {

inline std::uint64_t states = 0, transitions = 0, runs = 0;
inline long violations = 0;
inline std::unordered_set<std::uint64_t> outcomes;
inline std::string extra;                 // more STAT fields: ,"name":value
inline int samples_left = 2;

inline std::string json(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

inline void where(const std::string& cs, const std::string& in = {})
{
	snprintf(mc::g_where, sizeof mc::g_where, "{\"case\":%s,\"input\":%s}", json(cs.substr(0, 600)).c_str(), json(in.substr(0, 200)).c_str());
	mc::g_ticks = mc::g_ticks + 1;
}

inline void viol(const std::string& cs, const std::string& in, const std::string& aspect, const std::string& want, const std::string& got)
{
	if (violations++ < 5)
		printf("VIOL {\"case\":%s,\"input\":%s,\"aspect\":%s,\"expected\":%s,\"observed\":%s}\n", json(cs.substr(0, 1500)).c_str(), json(in.substr(0, 1000)).c_str(), json(aspect).c_str(), json(want.substr(0, 1500)).c_str(), json(got.substr(0, 1500)).c_str());
}

// A deviation that may be listed in KNOWN_FINDINGS.jsonl under this key.
inline std::set<std::string> knowns;
inline void known(const std::string& key)
{
	if (knowns.insert(key).second) printf("KNOWN {\"key\":%s}\n", json(key).c_str());
}

inline void sample(const std::string& what)
{
	if (samples_left-- > 0) printf("SAMPLE {\"what\":%s}\n", json(what.substr(0, 1500)).c_str());
}

inline void outcome(const std::string& s) { outcomes.insert(mc::fnv(s.data(), s.size(), 1)); }

inline int finish()
{
	printf("STAT {\"states\":%llu,\"transitions\":%llu,\"runs\":%llu,\"outcomes\":%zu,\"violations\":%ld%s}\n", (unsigned long long)states, (unsigned long long)transitions, (unsigned long long)runs, outcomes.size(), violations, extra.c_str());
	return violations ? 1 : 0;
}

inline long arg(int argc, char** argv, const char* name, long def)
{
	std::size_t l = strlen(name);
	for (int i = 1; i < argc; ++i)
		if (strncmp(argv[i], name, l) == 0 && argv[i][l] == '=') return atol(argv[i] + l + 1);
	return def;
}

// Memory whose end is followed by an unreadable page; the address of that end.
inline char* guard_edge(std::size_t size)
{
	std::size_t ps = (std::size_t)sysconf(_SC_PAGESIZE);
	size = (size + ps - 1) / ps * ps;
	char* p = (char*)mmap(nullptr, size + ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
	mprotect(p + size, ps, PROT_NONE);
	return p + size;
}

// Every sequence of pieces up to a length; split over parts by the first two pieces.
template <class F> void sequences(const std::vector<std::string>& pieces, int maxlen, int part, int parts, const std::string& pre, const std::string& post, F f)
{
	int n = (int)pieces.size();
	std::function<void(const std::string&, int, int)> rec = [&](const std::string& s, int len, int last) {
		if (len >= 2 || part == 0) f(pre + s + post);
		if (len == maxlen) return;
		for (int i = 0; i < n; ++i)
		{
			if (len == 1 && (last * n + i) % parts != part) continue;
			rec(s + pieces[i], len + 1, i);
		}
	};
	rec("", 0, 0);
}
inline std::vector<std::string> chars(const std::string& s) { std::vector<std::string> o; for (char c : s) o.push_back(std::string(1, c)); return o; }

#ifdef __SANITIZE_ADDRESS__
extern "C" inline void sanitizer_death() { fprintf(stderr, "\nWHERE %s\n", mc::g_where); }
#define MC_SAN_START (crash = false, __sanitizer_set_death_callback(sanitizer_death))
#else
#define MC_SAN_START (void)0
#endif
inline void start(bool crash = true) { MC_SAN_START; setvbuf(stdout, nullptr, _IOLBF, 0); mc::install_handlers(crash); }

} // namespace h
