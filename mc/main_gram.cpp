// Explorer over (grammar x input x mode): every registered grammar is run on every input of the
// bounded space and every observation is compared with the reference interpreter's.
#include "rt.h"
#include "mc_case.h"
#include "ref.h"
#include <sys/resource.h>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <unordered_set>
#include <vector>
#if __has_include(<valgrind/memcheck.h>)
#include <valgrind/memcheck.h>
#define MC_VG_ERRORS() (long)VALGRIND_COUNT_ERRORS
#define MC_VG_RUNNING() (RUNNING_ON_VALGRIND != 0)
#else
#define MC_VG_ERRORS() 0L
#define MC_VG_RUNNING() false
#endif
#ifdef __SANITIZE_ADDRESS__
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_death() { fprintf(stderr, "\nWHERE %s\n", mc::g_where); }
#endif

namespace mc {

static std::vector<Case>& cases() { static std::vector<Case> c; return c; }
void add_case(const Case& c) { cases().push_back(c); }

} // namespace mc

void register_cases();

using namespace mc;

static std::string hex(const std::string& s)
{
	static const char* d = "0123456789abcdef";
	std::string o;
	for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
	return o;
}
static std::string unhex(const char* h)
{
	std::string o;
	auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
	for (; h[0] && h[1]; h += 2) o += (char)(v(h[0]) * 16 + v(h[1]));
	return o;
}
static std::string json(const std::string& s)
{
	std::string o = "\"";
	for (unsigned char c : s)
	{
		if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

static long viol = 0, max_viol = 5;
static std::string cur_input;

static void violation(const Case& c, const char* mode, const char* aspect, const std::string& want, const std::string& got)
{
	if (viol++ < max_viol)
		printf("VIOL {\"case\":%s,\"grammar\":%s,\"input\":%s,\"input_hex\":\"%s\",\"mode\":\"%s\",\"aspect\":\"%s\",\"expected\":%s,\"observed\":%s}\n",
			json(c.id).c_str(), json(c.cpp).c_str(), json(cur_input).c_str(), hex(cur_input).c_str(), mode, aspect, json(want).c_str(), json(got).c_str());
}

int main(int argc, char** argv)
{
	for (int i = 1; i < argc; ++i)
		if (strncmp(argv[i], "--stack=", 8) == 0)      // deep recursion: start again with a larger stack
		{
			rlimit rl{};
			getrlimit(RLIMIT_STACK, &rl);
			rlim_t w = (rlim_t)atoi(argv[i] + 8) << 20;
			if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < w && (rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= w))
			{
				rl.rlim_cur = w;
				if (!setrlimit(RLIMIT_STACK, &rl)) execv("/proc/self/exe", argv);
			}
		}
	setvbuf(stdout, nullptr, _IOLBF, 0);
	std::string alphabet = "abc", mask = ",rec,fail,val,type,look,evt,alloc,", only, inputs_file;
	std::vector<std::string> prefixes{ "" };
	int maxlen = 4;
	bool has_input = false;
	std::string one;
	bool crash = true;
	int places = 1;
	long samples = 2;
	for (int i = 1; i < argc; ++i)
	{
		auto opt = [&](const char* n) -> const char* { std::size_t l = strlen(n); return strncmp(argv[i], n, l) == 0 ? argv[i] + l : nullptr; };
		if (auto v = opt("--alphabet=")) alphabet = unhex(v);
		else if (auto v = opt("--maxlen=")) maxlen = atoi(v);
		else if (auto v = opt("--mask=")) mask = std::string(",") + v + ",";
		else if (auto v = opt("--only=")) only = v;
		else if (auto v = opt("--inputs=")) inputs_file = v;
		else if (auto v = opt("--input=")) { has_input = true; one = unhex(v); }
		else if (auto v = opt("--hang=")) g_hang_secs = atoi(v);
		else if (auto v = opt("--nocrash")) { (void)v; crash = false; }
		else if (auto v = opt("--places=")) places = atoi(v);
		else if (auto v = opt("--samples=")) samples = atol(v);
	}
	auto want = [&](const char* m) { return mask.find(std::string(",") + m + ",") != std::string::npos; };
	const bool m_rec = want("rec"), m_fail = want("fail"), m_val = want("val"), m_type = want("type"), m_look = want("look"),
		m_evt = want("evt"), m_alloc = want("alloc"), m_lookalloc = want("alloc");

	register_cases();
	install_handlers(crash);
#ifdef __SANITIZE_ADDRESS__
	__sanitizer_set_death_callback(on_death);
#endif
	const bool m_leak = want("leak");
	long vg_errors = MC_VG_ERRORS();
	printf("STAT {\"under_valgrind\":%d}\n", (int)MC_VG_RUNNING());

	std::vector<std::string> inputs;
	if (has_input) inputs.push_back(one);
	else if (!inputs_file.empty())
	{
		FILE* f = fopen(inputs_file.c_str(), "r");
		if (!f) { perror("inputs"); return 2; }
		static char line[1 << 18];
		while (fgets(line, sizeof line, f))
		{
			line[strcspn(line, "\n")] = 0;
			inputs.push_back(unhex(line));
		}
		fclose(f);
	}
	else
	{
		inputs.push_back("");
		std::size_t b = 0;
		for (int l = 1; l <= maxlen; ++l)
		{
			std::size_t e = inputs.size();
			for (std::size_t i = b; i < e; ++i)
				for (char c : alphabet) inputs.push_back(inputs[i] + c);
			b = e;
		}
	}

	struct Live { const Case* c; ref::Grammar g; ref::Interp* it; };
	std::vector<Live> live;
	for (auto& c : cases())
		if (only.empty() || only == c.id) live.push_back({ &c, ref::parse_sexpr(c.sexpr), nullptr });
	std::stable_sort(live.begin(), live.end(), [](const Live& x, const Live& y) { return (std::uintptr_t)x.c->fill < (std::uintptr_t)y.c->fill; });
	for (auto& l : live) l.it = new ref::Interp(l.g);
	std::vector<std::pair<std::size_t, std::size_t>> groups;     // of one element type each
	for (std::size_t i = 0; i < live.size(); ++i)
		if (!i || live[i].c->fill != live[i - 1].c->fill) groups.push_back({ i, i + 1 }); else groups.back().second = i + 1;
	std::size_t widest = 1;
	for (auto& l : live) widest = std::max(widest, l.c->elem);

	if (m_type)
		for (auto& l : live)
		{
			snprintf(g_where, sizeof g_where, "{\"case\":%s,\"input_hex\":\"\",\"mode\":\"type\"}", json(l.c->id).c_str());
			if (!l.c->impl_type) continue;
			auto t = l.c->impl_type(), lt = l.c->impl_look_type();
			if (t != l.c->type) violation(*l.c, "type", "result type of parse", l.c->type, t);
			if (lt != "0") violation(*l.c, "type", "result type of lookahead", "0", lt);
		}

	std::size_t longest = 1;
	for (auto& s : inputs) longest = std::max(longest, s.size());
	Pages pages(longest * widest);
	std::string bytes;
	std::uint64_t runs = 0, matched = 0, states = 0, steps = 0;
	std::unordered_set<std::uint64_t> outcomes;
	Obs o;
	long since_sample = 0;

	for (auto& in : inputs)
	{
		cur_input = in;
		for (int place = 0; place < places; ++place)
		for (auto [first, last] : groups)
		{
			const std::size_t k = live[first].c->elem;
			if (auto f = live[first].c->fill) { bytes.resize(in.size() * k); f(bytes.data(), in.data(), in.size()); }
			else bytes = in;
#ifdef __SANITIZE_ADDRESS__
			// a heap block of exactly the input's size: the redzones around it are the guard
			struct Block { char* p; Block(std::size_t n) : p((char*)malloc(n)) {} ~Block() { free(p); } } block(bytes.size());
			if (!in.empty()) memcpy(block.p, bytes.data(), bytes.size());
			const char* b = block.p;
#else
			const char* b = pages.place(bytes.data(), bytes.size(), place == 0);
			if (MC_VG_RUNNING() && in.empty()) b = pages.place("", 0, true);
#endif
			std::size_t n = in.size();
			g_base = b; g_len = n * k; g_elem = k;
			for (std::size_t li = first; li < last; ++li)
			{
				auto& l = live[li];
				for (int look = 0; look < 2; ++look)
				{
					if (look && !m_look && !m_evt && !m_lookalloc) continue;
					if (!(look ? l.c->look : l.c->parse)) continue;
					const char* mode = look ? "lookahead" : "parse";
					{
						char* w = g_where;
						w += snprintf(w, 600, "{\"case\":\"%s\",\"mode\":\"%s\",\"place\":%d,\"input_hex\":\"", l.c->id, mode, place);
						static const char* d = "0123456789abcdef";
						for (std::size_t i = 0; i < n && i < 1500; ++i) { *w++ = d[(unsigned char)in[i] >> 4]; *w++ = d[(unsigned char)in[i] & 15]; }
						*w++ = '"'; *w++ = '}'; *w = 0;
					}
					ref::R r = l.it->run(in.data(), n, look);
					steps += l.it->steps; l.it->steps = 0;
					states += l.it->states; l.it->states = 0;
					o.threw = false; o.what.clear(); o.ok = false; o.rem = nullptr; o.rem_len = 0; o.val.clear(); o.news = 0; o.bool_mismatch = 0;
					g_log.clear();
					g_ticks = g_ticks + 1;
					g_news_limit = g_news + 200000;
					try { (look ? l.c->look : l.c->parse)(b, n, o); }
					catch (const std::exception& e) { o.threw = true; o.what = e.what(); }
					catch (...) { o.threw = true; o.what = "unknown exception"; }
					g_news_limit = (std::size_t)-1;
					++runs;
					matched += o.ok;
					outcomes.insert(fnv(o.val.data(), o.val.size(), o.ok * 2 + look + 7 * o.rem_len));

					auto show = [&](bool ok, std::size_t end) { return ok ? "match, consumed " + std::to_string(end) : std::string("no match"); };
					if (o.threw) { violation(*l.c, mode, "unexpected exception", show(r.ok, r.end), o.what); continue; }
					std::size_t consumed = n - o.rem_len;
					if (look ? m_look : m_rec)
					{
						if (o.ok != r.ok || (r.ok && consumed != r.end))
						{ violation(*l.c, mode, "recognition", show(r.ok, r.end), show(o.ok, consumed)); continue; }
					}
					if (look ? m_look : m_fail)
					{
						bool good = o.ok ? (o.rem == b + consumed * k && consumed <= n) : (o.rem == b && o.rem_len == n);
						if (!good)
						{
							char buf[128];
							snprintf(buf, sizeof buf, "remaining = offset %td, length %zu", (o.rem - b) / (std::ptrdiff_t)k, o.rem_len);
							violation(*l.c, mode, "remaining input", o.ok ? "the exact unconsumed suffix" : "the whole original input", buf);
							continue;
						}
						if (o.bool_mismatch) { violation(*l.c, mode, "bool conversion", "same as has_value", "different"); continue; }
					}
					if (m_val && !look && r.ok && o.ok && o.val != r.val) { violation(*l.c, mode, "value", r.val, o.val); continue; }
					if (m_evt)
					{
						if (look && !g_log.empty()) { violation(*l.c, mode, "user functions called", "none", g_log); continue; }
						if (!look && g_log != l.it->log) { violation(*l.c, mode, "user functions called", l.it->log, g_log); continue; }
					}
					if (m_alloc && o.news && (look || l.c->noalloc))
					{ violation(*l.c, mode, "allocations", "0", std::to_string(o.news)); continue; }
					if (m_leak)
					{
						// once more, everything the harness itself keeps being allocated already
						g_log.clear(); o.val.clear();
						std::size_t net = g_news - g_frees;
						try { (look ? l.c->look : l.c->parse)(b, n, o); } catch (...) {}
						if (g_news - g_frees != net) { violation(*l.c, mode, "memory blocks still allocated after the parse and its result are gone", "0", std::to_string((long)(g_news - g_frees - net))); continue; }
					}
					if (long e = MC_VG_ERRORS(); e != vg_errors)
					{
						vg_errors = e;
						violation(*l.c, mode, "memcheck error (uninitialised or invalid memory used)", "0", std::to_string(e));
						continue;
					}
					if (samples > 0 && r.ok && r.end > 1 && ++since_sample % 97 == 5)
					{
						--samples;
						printf("SAMPLE {\"grammar\":%s,\"input\":%s,\"mode\":\"%s\",\"result\":%s,\"consumed\":%zu}\n", json(l.c->cpp).c_str(), json(in).c_str(), mode, json(o.val).c_str(), r.end);
					}
				}
			}
		}
	}
	printf("STAT {\"grammars\":%zu,\"inputs\":%zu,\"runs\":%llu,\"matched\":%llu,\"states\":%llu,\"transitions\":%llu,\"outcomes\":%zu,\"violations\":%ld}\n",
		live.size(), inputs.size(), (unsigned long long)runs, (unsigned long long)matched, (unsigned long long)states, (unsigned long long)steps, outcomes.size(), viol);
	return viol ? 1 : 0;
}
