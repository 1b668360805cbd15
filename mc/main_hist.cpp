// Every history of operations up to a depth, and every reachable state of hidden static data.
// An operation: parse or look ahead with grammar g on input i placed on page p, or parse with the first
// user function (or allocation) throwing. Input pages are unreadable except during their operation.
#include "hist.h"
#include "h.h"
#include "ref.h"
#include <algorithm>
#include <exception>
#include <link.h>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace hist { static std::vector<G>& gs() { static std::vector<G> v; return v; } void add(const G& g) { gs().push_back(g); } }
void register_cases();
using namespace hist;

struct Op { int g, in, page, mode; };   // mode 0 parse, 1 lookahead, 2 user function throws, 3 allocation fails
static std::vector<std::string> inputs;
static std::vector<Op> ops;
struct Pg { char* p; };
static Pg pages[2];
static const std::size_t PS = 4096;

static const char* put(int page, const std::string& s)
{
	mprotect(pages[page].p, PS, PROT_READ | PROT_WRITE);
	char* at = pages[page].p + PS - s.size();
	memcpy(at, s.data(), s.size());
	mprotect(pages[page].p, PS, PROT_READ);
	mc::g_base = at; mc::g_len = s.size();
	return at;
}
static void hide(int page) { mprotect(pages[page].p, PS, PROT_NONE); }

static std::string text(const mc::Obs& o, std::size_t n, const char* base)
{
	if (!o.ok) return o.rem == base && o.rem_len == n ? "no match" : "no match, but input consumed";
	if (o.rem != base + (n - o.rem_len)) return "remaining input is not the suffix";
	return "match " + std::to_string(n - o.rem_len) + " " + o.val;
}

struct Expect { std::string out, log; bool throws; };
static std::vector<Expect> expect;       // per op

static std::string name(const Op& o)
{
	static const char* m[] = { "parse", "lookahead", "parse, user function throws", "parse, allocation fails" };
	return std::string(m[o.mode]) + " " + gs()[o.g].cpp + " on \"" + inputs[o.in] + "\" at page " + std::to_string(o.page);
}

struct Kept { std::unique_ptr<Held> h; std::string was; const char* base; std::size_t n; };

// run one operation and judge it; the result is kept for later
static bool run(const Op& o, const Expect& e, const std::string& history, std::vector<Kept>* keep, bool judge = true)
{
	const std::string& in = inputs[o.in];
	const char* b = put(o.page, in);
	mc::g_log.clear();
	mc::g_ticks = mc::g_ticks + 1;
	std::string got;
	std::unique_ptr<Held> held;
	try
	{
		if (o.mode == 2) mc::g_throw_at = 0;
		if (o.mode == 3) mc::g_fail_at = 0;
		held.reset(o.mode == 1 ? gs()[o.g].look(b, in.size()) : gs()[o.g].parse(b, in.size()));
		mc::g_throw_at = -1; mc::g_fail_at = -1;
		mc::Obs ob;
		held->describe(ob);
		got = text(ob, in.size(), b);
	}
	catch (const mc::Thrown&) { got = "thrown"; }
	catch (const std::bad_alloc&) { got = "bad_alloc"; }
	catch (const std::exception& x) { got = std::string("unexpected exception ") + x.what(); }
	mc::g_throw_at = -1; mc::g_fail_at = -1;
	if (o.mode < 2) got += " / " + mc::g_log;
	hide(o.page);
	++h::runs; ++h::transitions;
	if (judge && o.mode < 3 && got != e.out)
	{
		h::viol(history + " then " + name(o), inputs[o.in], "outcome depends on what was parsed before", e.out, got);
		return false;
	}
	if (keep && held) { keep->push_back({ std::move(held), got.substr(0, got.find(" / ")), b, in.size() }); }
	return true;
}

static bool still(std::vector<Kept>& ks, const std::string& history)
{
	for (auto& k : ks)
	{
		mc::g_base = k.base; mc::g_len = k.n;
		mc::Obs ob;
		k.h->describe(ob);
		auto t = text(ob, k.n, k.base);
		if (t != k.was) { h::viol(history, "", "an earlier result changed", k.was, t); return false; }
	}
	return true;
}

// ---- hidden state: the writable static storage contributed by the library's templates -----------------
struct Watch { const unsigned char* p; std::size_t n; };
static std::vector<Watch> watch;
static const unsigned char* tls_base;
static std::uint64_t hidden()
{
	std::uint64_t x = 1469598103934665603ull;
	for (auto& w : watch) for (std::size_t i = 0; i < w.n; ++i) { x ^= w.p[i]; x *= 1099511628211ull; }
	return x;
}
struct Shared { std::uint64_t seen[4096]; int n; std::uint64_t ops; int maxdepth; int violations; int capped; };
static Shared* sh;
static void explore(const std::string& history, int depth)
{
	sh->maxdepth = std::max(sh->maxdepth, depth);
	for (std::size_t i = 0; i < ops.size(); ++i)
	{
		fflush(stdout);
		pid_t c = fork();
		if (c == 0)
		{
			h::samples_left = 0;
			h::where(history + " then " + name(ops[i]));
			bool ok = run(ops[i], expect[i], history, nullptr);
			++sh->ops;
			if (!ok) ++sh->violations;
			std::uint64_t x = hidden();
			bool known = false;
			for (int k = 0; k < sh->n; ++k) known |= sh->seen[k] == x;
			if (!known && ok)
			{
				if (sh->n < 60 && depth < 12) { sh->seen[sh->n++] = x; explore(history + " then " + name(ops[i]), depth + 1); }
				else sh->capped = 1;
			}
			fflush(stdout);
			_exit(0);
		}
		int st;
		waitpid(c, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) { ++sh->violations; if (sh->violations > 5) return; }
		if (sh->violations > 5) return;
	}
}

// ---- operations inside the user functions of another one -----------------------------------------------
struct Inner { int g = 0, mode = 0; const char* b = nullptr; std::size_t n = 0; std::string want, bad; bool running = false; std::uint64_t runs = 0; };
static Inner inner;
static const std::string& expected(int g, int mode, const std::string& in)
{
	static std::map<std::pair<int, std::string>, std::string> memo;
	auto [it, fresh] = memo.try_emplace({ g * 2 + mode, in });
	if (fresh)
	{
		ref::Grammar gr = ref::parse_sexpr(gs()[g].sexpr);
		ref::Interp ip(gr);
		auto r = ip.run(in.data(), in.size(), mode == 1);
		it->second = (r.ok ? "match " + std::to_string(r.end) + " " + (mode ? "" : r.val) : std::string("no match")) + " / " + (mode ? std::string() : ip.log);
	}
	return it->second;
}
static void run_inner()
{
	if (inner.running) return;
	inner.running = true;
	auto log = std::move(mc::g_log); auto base = mc::g_base; auto len = mc::g_len;
	mc::g_log.clear(); mc::g_base = inner.b; mc::g_len = inner.n;
	std::unique_ptr<Held> held(inner.mode ? gs()[inner.g].look(inner.b, inner.n) : gs()[inner.g].parse(inner.b, inner.n));
	mc::Obs ob;
	held->describe(ob);
	std::string got = text(ob, inner.n, inner.b) + " / " + mc::g_log;
	if (got != inner.want && inner.bad.empty()) inner.bad = got;
	mc::g_log = std::move(log); mc::g_base = base; mc::g_len = len;
	++inner.runs;
	inner.running = false;
}

static int on_phdr(dl_phdr_info* i, size_t, void*) { tls_base = (const unsigned char*)i->dlpi_tls_data; return 1; }

int main(int argc, char** argv)
{
	h::start();
	register_cases();
	std::string watchfile;
	int part = 0, nparts = 1, repeat = 20000;
	std::string ownfile;
	for (int i = 1; i < argc; ++i)
	{
		if (!strncmp(argv[i], "--watch=", 8)) watchfile = argv[i] + 8;
		if (!strncmp(argv[i], "--own=", 6)) ownfile = argv[i] + 6;
		if (!strncmp(argv[i], "--repeat=", 9)) repeat = atoi(argv[i] + 9);
		sscanf(argv[i], "--part=%d/%d", &part, &nparts);
	}
	if (!watchfile.empty())
	{
		dl_iterate_phdr(on_phdr, nullptr);
		FILE* f = fopen(watchfile.c_str(), "r");
		unsigned long a, n; int tls;
		while (f && fscanf(f, "%lx %lx %d", &a, &n, &tls) == 3) watch.push_back({ tls ? tls_base + a : (const unsigned char*)a, n });
		if (f) fclose(f);
	}
	inputs = { "", "a", "ab", "ba", "aab", "abab" };
	const int NSHORT = (int)inputs.size();
	{
		std::string A(40, 'a'), Q, L(300, 'a');
		for (int i = 0; i < 20; ++i) Q += "ab";
		inputs.push_back(A);
		inputs.push_back(A.substr(1) + "b");
		inputs.push_back("b" + A.substr(1));
		inputs.push_back(Q);
		inputs.push_back(L);
		inputs.push_back(L.substr(1) + "b");
		inputs.push_back("abcabbacacbbcaababcabbacacbbcaababcabbacacbbcaab");
	}
	for (auto& p : pages) p.p = (char*)mmap(nullptr, 3 * PS, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) + PS;
	for (int g = 0; g < (int)gs().size(); ++g)
		for (int i = 0; i < (int)inputs.size(); ++i)
			for (int p = 0; p < 2; ++p)
				for (int m = 0; m < 4; ++m)
				{
					if (m >= 2 && (i < 4 || p || i >= NSHORT)) continue;
					if (i >= NSHORT && p) continue;
					ops.push_back({ g, i, p, m });
				}
	// inputs of one grammar only
	if (!ownfile.empty())
		if (FILE* f = fopen(ownfile.c_str(), "r"))
		{
			int g; char hex[400];
			while (fscanf(f, "%d %399s", &g, hex) == 2)
			{
				std::string in;
				for (const char* p = hex; p[0] && p[1]; p += 2) { unsigned v; sscanf(p, "%2x", &v); in += (char)v; }
				for (int m = 0; m < 2; ++m) ops.push_back({ g, (int)inputs.size(), 0, m });
				inputs.push_back(in);
			}
			fclose(f);
		}
	for (auto& o : ops)
	{
		ref::Grammar g = ref::parse_sexpr(gs()[o.g].sexpr);
		ref::Interp it(g);
		const std::string& in = inputs[o.in];
		auto r = it.run(in.data(), in.size(), o.mode == 1);
		Expect e;
		e.throws = o.mode == 2 && !it.log.empty();
		e.out = e.throws ? "thrown" : r.ok ? "match " + std::to_string(r.end) + " " + (o.mode == 1 ? "" : r.val) : std::string("no match");
		if (o.mode < 2) e.out += " / " + (o.mode == 1 ? std::string() : it.log);
		expect.push_back(e);
	}
	std::uint64_t hidden0 = 0;

	if (part == 0)
	{
		// 1. every operation in every reachable hidden state (a process per branch)
		sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		hidden0 = hidden();
		sh->seen[sh->n++] = hidden0;
		explore("a fresh process", 0);
		h::states += sh->n; h::transitions += sh->ops; h::runs += sh->ops; h::violations += sh->violations;
		h::extra += ",\"hidden_states\":" + std::to_string(sh->n) + ",\"hidden_bytes_watched\":" + std::to_string([] { std::size_t n = 0; for (auto& w : watch) n += w.n; return n; }()) + ",\"hidden_capped\":" + std::to_string(sh->capped) + ",\"operations\":" + std::to_string(ops.size());
		h::sample("every operation in each of " + std::to_string(sh->n) + " reachable hidden state(s)");
	}
	// 2. every history of two operations, and of three operations with the same grammar; results kept
	std::vector<Kept> kept;
	std::uint64_t hist2 = 0, hist3 = 0;
	for (std::size_t i = part; i < ops.size() && h::violations < 20; i += nparts)
		for (std::size_t j = 0; j < ops.size(); ++j)
		{
			kept.clear();
			std::string h1 = name(ops[i]);
			if (j % 64 == 0) h::where(h1);
			if (!run(ops[i], expect[i], "", &kept)) break;
			if (!run(ops[j], expect[j], h1, &kept)) break;
			if (!still(kept, h1 + " then " + name(ops[j]))) break;
			++hist2; ++h::states;
			if (ops[i].g != ops[j].g) continue;
			for (std::size_t k = 0; k < ops.size(); ++k)
			{
				if (ops[k].g != ops[i].g) continue;
				if (ops[k].page && ops[k].mode) continue;
				std::vector<Kept> k3;
				// the first two results are still alive here; a third operation on top
				if (!run(ops[k], expect[k], h1 + " then " + name(ops[j]), &k3)) break;
				if (!still(kept, h1 + " then " + name(ops[j]) + " then " + name(ops[k]))) break;
				++hist3; ++h::states;
			}
		}
	// 3. the same operation over and over
	for (std::size_t i = part; i < ops.size() && h::violations < 20; i += nparts)
		if (ops[i].in >= 4 && ops[i].in < NSHORT && ops[i].page == 0)
		{
			h::where(name(ops[i]) + " repeated");
			for (int k = 0; k < repeat; ++k) if (!run(ops[i], expect[i], "the same " + std::to_string(k) + " times", nullptr)) break;
		}
	// 4. every operation inside the user functions of every other, on the same text, a part of it, or another text
	std::uint64_t nested = 0;
	for (std::size_t i = part; i < ops.size() && h::violations < 20; i += nparts)
	{
		const Op& o = ops[i];
		if (o.mode || o.page || o.in == 0 || o.in >= NSHORT || expect[i].out.ends_with(" / ")) continue;
		for (int g = 0; g < (int)gs().size() && h::violations < 20; ++g)
			for (int m = 0; m < 2; ++m)
				for (int w = 0; w < 7; ++w)
				{
					const std::string& in = inputs[o.in];
					const char* b = pages[0].p + PS - in.size();     // where run() will put it
					std::string mine = w == 0 ? in : w == 1 ? in.substr(0, in.size() - 1) : w == 2 ? in.substr(0, 1) : w == 3 ? in.substr(1) : inputs[w == 4 ? 3 : w];
					if (w > 3) b = put(1, mine);
					inner = { g, m, w == 3 ? b + 1 : b, mine.size(), expected(g, m, mine), "" };
					std::string what = std::string(m ? "lookahead " : "parse ") + gs()[g].cpp + " on \"" + mine + "\"" + (w > 3 ? " elsewhere" : " of the same text") + ", in the user functions of";
					h::where(what + " " + name(o));
					mc::g_on_call = run_inner;
					run(o, expect[i], what, nullptr);
					mc::g_on_call = nullptr;
					if (!inner.bad.empty()) h::viol(what + " " + name(o), mine, "outcome of the inner operation", inner.want, inner.bad);
					if (w > 3) hide(1);
					nested += inner.runs; h::runs += inner.runs; ++h::states;
				}
	}
	h::extra += ",\"nested\":" + std::to_string(nested);
	h::extra += ",\"histories_of_two\":" + std::to_string(hist2) + ",\"histories_of_three\":" + std::to_string(hist3);
	for (auto& e : expect) h::outcome(e.out);
	return h::finish();
}
