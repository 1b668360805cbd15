// Values and faults. Every grammar is run on every input with instrumented user values. Without faults:
// what the result holds, how often values were copied, what is still alive. With faults: the run is
// repeated once for every point at which it called user code or allocated, with an exception thrown there.
#include "rt.h"
#include "h.h"
#include "mc_case.h"
#include "ref.h"
#include <exception>
#include <fstream>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <variant>

namespace mc {
long g_live = 0, g_copies = 0, g_moves = 0, g_corrupt = 0, g_seen = 0, g_moved_seen = 0;
bool g_in_parse = false;
static std::vector<Case>& cases() { static std::vector<Case> c; return c; }
void add_case(const Case& c) { cases().push_back(c); }

// the exceptions user code throws: one of no standard base, the others derived from standard ones
struct Planned { long at; explicit Planned(long n) : at(n) {} virtual ~Planned() = default; };
struct PlannedRt : std::runtime_error, Planned { explicit PlannedRt(long n) : std::runtime_error("planned"), Planned(n) {} };
struct PlannedEx : Planned, std::exception { using Planned::Planned; };
struct PlannedAny : std::bad_variant_access, Planned { using Planned::Planned; };
struct PlannedMem : std::bad_alloc, Planned { using Planned::Planned; };
static const std::type_info& planned_type(long n)
{
	switch (n % 5) { case 0: return typeid(Planned); case 1: return typeid(PlannedRt); case 2: return typeid(PlannedEx); case 3: return typeid(PlannedAny); }
	return typeid(PlannedMem);
}
[[noreturn]] static void throw_planned(long n)
{
	switch (n % 5) { case 0: throw Planned(n); case 1: throw PlannedRt(n); case 2: throw PlannedEx(n); case 3: throw PlannedAny(n); }
	throw PlannedMem(n);
}
static long ev_no = 0, ev_fail = -1;
static std::string ev_kinds;
static void count(char kind, bool alloc)
{
	if (!g_in_parse) return;
	long n = ev_no++;
	if (n < (long)ev_kinds.capacity() && ev_fail < 0) ev_kinds += kind;
	if (n == ev_fail) { if (alloc) throw std::bad_alloc(); throw_planned(n); }
}
void event(char kind) { count(kind, false); }
static void before_alloc() { count('a', true); }
}
void register_cases();
using namespace mc;

static std::string hex(const std::string& s)
{
	static const char* d = "0123456789abcdef";
	std::string o;
	for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
	return o;
}
static std::string unhex(const char* h)
{
	std::string o;
	auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
	for (; h[0] && h[1]; h += 2) o += (char)(v(h[0]) * 16 + v(h[1]));
	return o;
}
static const Case* cur; static std::string cur_in; static const char* cur_mode;
static void bad(const char* aspect, const std::string& want, const std::string& got)
{
	if (h::violations++ < 5)
		printf("VIOL {\"case\":%s,\"grammar\":%s,\"input\":%s,\"input_hex\":\"%s\",\"mode\":\"%s\",\"aspect\":%s,\"expected\":%s,\"observed\":%s}\n", h::json(cur->id).c_str(), h::json(cur->cpp).c_str(), h::json(cur_in).c_str(), hex(cur_in).c_str(), cur_mode, h::json(aspect).c_str(), h::json(want).c_str(), h::json(got).c_str());
}
static const char* kind_name(char k)
{
	switch (k)
	{
	case 'f': return "the call of a user function";
	case 'd': return "the construction of a user value";
	case 'c': return "a copy construction"; case 'C': return "a copy assignment";
	case 'v': return "a move construction"; case 'V': return "a move assignment";
	case 'a': return "an allocation"; case 'e': return "an element comparison";
	}
	return "?";
}

int main(int argc, char** argv)
{
	bool faults = h::arg(argc, argv, "--faults", 0), copies_ok = h::arg(argc, argv, "--copies_ok", 0);
	int maxlen = (int)h::arg(argc, argv, "--maxlen", 4);
	std::string alphabet = "abc", only, one, inputs_file; bool has_input = false;
	for (int i = 1; i < argc; ++i)
	{
		auto opt = [&](const char* n) -> const char* { std::size_t l = strlen(n); return strncmp(argv[i], n, l) == 0 ? argv[i] + l : nullptr; };
		if (auto v = opt("--alphabet=")) alphabet = unhex(v);
		else if (auto v = opt("--only=")) only = v;
		else if (auto v = opt("--input=")) { has_input = true; one = unhex(v); }
		else if (auto v = opt("--inputs=")) inputs_file = v;
		else if (auto v = opt("--hang=")) g_hang_secs = atoi(v);
	}
	register_cases();
	h::start();
	g_before_alloc = before_alloc;
	std::vector<std::string> inputs{ "" };
	if (has_input) inputs = { one };
	else if (!inputs_file.empty())
	{
		inputs.clear();
		std::ifstream f(inputs_file);
		for (std::string l; std::getline(f, l); ) inputs.push_back(unhex(l.c_str()));
		if (inputs.empty()) { fprintf(stderr, "no inputs in %s\n", inputs_file.c_str()); return 2; }
	}
	else
	{
		std::size_t b = 0;
		for (int l = 1; l <= maxlen; ++l)
		{
			std::size_t e = inputs.size();
			for (std::size_t i = b; i < e; ++i) for (char c : alphabet) inputs.push_back(inputs[i] + c);
			b = e;
		}
	}
	Pages pages(64);
	Obs o;
	g_log.reserve(1 << 16); ev_kinds.reserve(1 << 14);
	std::uint64_t points = 0, held = 0, faulted = 0, per_kind[256] = {};
	for (auto& c : cases())
	{
		if (!only.empty() && only != c.id) continue;
		cur = &c;
		ref::Grammar gr = ref::parse_sexpr(c.sexpr);
		ref::Interp it(gr);
		for (auto& in : inputs)
		{
			const char* b = pages.place(in.data(), in.size(), true);
			std::size_t n = in.size();
			g_base = b; g_len = n;
			for (int look = 0; look < 2; ++look)
			{
				if (!(look ? c.look : c.parse)) continue;
				if (look && faults && !c.look) continue;
				cur_in = in; cur_mode = look ? "lookahead" : "parse";
				snprintf(g_where, sizeof g_where, "{\"case\":\"%s\",\"mode\":\"%s\",\"input_hex\":\"%s\"}", c.id, cur_mode, hex(in).c_str());
				g_ticks = g_ticks + 1;
				ref::R r = it.run(b, n, look);
				h::transitions += it.steps; it.steps = 0; h::states += it.states; it.states = 0;
				o.val.clear(); o.val.reserve(4096); o.what.clear();
				auto run = [&](long fail) {
					o.threw = false; o.ok = false; o.val.clear();
					o.live = o.held = o.moved = o.copies = o.moves = 0;
					g_log.clear(); ev_kinds.clear(); ev_no = 0; ev_fail = fail;
					g_copies = g_moves = 0;
					++h::runs;
					(look ? c.look : c.parse)(b, n, o);
				};
				long live0 = g_live;
				std::string want_val;
				// without a fault
				try { run(-1); }
				catch (...) { g_in_parse = false; bad("an exception although nothing threw", "none", "exception"); continue; }
				g_in_parse = false;
				long N = ev_no;
				std::string kinds = ev_kinds;
				if (o.ok != r.ok || (o.ok && !look && o.val != r.val)) { bad("value", r.ok ? "match " + r.val : std::string("no match"), o.ok ? "match " + o.val : "no match"); continue; }
				if (!look && g_log != it.log) { bad("user functions called", it.log, g_log); continue; }
				if (g_corrupt) { bad("lifetime", "every object constructed and destroyed once", std::to_string(g_corrupt) + " uses of dead objects"); g_corrupt = 0; continue; }
				if (o.moved) { bad("the result holds moved-from values", "0", std::to_string(o.moved)); continue; }
				if (o.live - live0 != o.held) { bad("objects alive after the parse besides those in the result", "0", std::to_string(o.live - live0 - o.held)); continue; }
				if (g_live != live0) { bad("objects alive after the result is gone", "0", std::to_string(g_live - live0)); continue; }
				if (!copies_ok && o.copies) { bad("copies of values made by the parse", "0", std::to_string(o.copies)); continue; }
				held += (std::uint64_t)o.held;
				h::outcome(o.val);
				if (h::samples_left > 0 && o.held >= 3 && (h::runs % 7) == 1) h::sample(std::string(c.cpp) + " on \"" + in + "\": " + o.val + ", " + std::to_string(o.moves) + " moves, " + std::to_string(o.copies) + " copies, " + std::to_string(N) + " points where user code or an allocation could throw");
				if (!faults) continue;
				// every point at which something can throw
				want_val = o.val; bool want_ok = o.ok;
				points += (std::uint64_t)N;
				bool stop = false;
				for (long k = 0; k < N && !stop; ++k)
				{
					g_ticks = g_ticks + 1;
					char kd = k < (long)kinds.size() ? kinds[k] : '?';
					++per_kind[(unsigned char)kd];
					std::size_t net = g_news - g_frees;
					std::string at = std::string("exception from ") + kind_name(kd) + " (point " + std::to_string(k) + " of " + std::to_string(N) + ")";
					net = g_news - g_frees;
					int got = 0; long id = -1;
					try { run(k); }
					catch (const Planned& p) { got = 1; id = p.at; if (typeid(p) != planned_type(id)) got = 3; }
					catch (const std::bad_alloc& e) { got = 2; if (typeid(e) != typeid(std::bad_alloc)) got = 3; }
					catch (...) { got = 3; }
					g_in_parse = false; ev_fail = -1;
					++faulted;
					long left = (long)(g_news - g_frees - net);
					int want = kd == 'a' ? 2 : 1;
					const char* names[] = { "no exception", "the user's exception", "bad_alloc", "another exception" };
					if (got != want || (got == 1 && id != k)) { bad("exception reaching the caller", at, names[got]); stop = true; }
					else if (g_corrupt) { bad("lifetime", at + ", every object destroyed once", std::to_string(g_corrupt) + " uses of dead objects"); g_corrupt = 0; stop = true; }
					else if (g_live != live0) { bad("objects left alive", at, std::to_string(g_live - live0)); g_live = live0; stop = true; }
					else if (left) { bad("memory blocks left", at, std::to_string(left)); stop = true; }
				}
				if (stop) continue;
				try { run(-1); } catch (...) { o.threw = true; }
				g_in_parse = false;
				if (o.threw || o.ok != want_ok || o.val != want_val) bad("a later parse is affected by the exceptions", want_ok ? want_val : "no match", o.ok ? o.val : "no match");
			}
		}
	}
	h::extra = ",\"grammars\":" + std::to_string(cases().size()) + ",\"inputs\":" + std::to_string(inputs.size()) + ",\"values_in_results\":" + std::to_string(held) + ",\"fault_points\":" + std::to_string(points) + ",\"faulted_runs\":" + std::to_string(faulted);
	for (char k : { 'f', 'd', 'c', 'C', 'v', 'V', 'a', 'e' }) if (per_kind[(unsigned char)k]) h::extra += std::string(",\"faults_in_") + (k == 'f' ? "functions" : k == 'd' ? "construction" : k == 'c' ? "copy_construction" : k == 'C' ? "copy_assignment" : k == 'v' ? "move_construction" : k == 'V' ? "move_assignment" : k == 'a' ? "allocation" : "comparison") + "\":" + std::to_string(per_kind[(unsigned char)k]);
	return h::finish();
}
