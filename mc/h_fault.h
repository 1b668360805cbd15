// Faults in element comparisons and in copies of constants: every point of every parse.
#pragma once
#include <k3/tok3n.h>
#include "h.h"
#include <new>
#include <optional>
#include <span>
using namespace k3::tok3n;

static long no_, fail_ = -1, live_, corrupt_;
static std::string kinds_;
static bool on_ = false;
struct Planned { long at; };
static void event(char k) { if (!on_) return; long n = no_++; if (fail_ < 0) kinds_ += k; if (n == fail_) { if (k == 'a') throw std::bad_alloc(); throw Planned{ n }; } }
static void before_alloc() { if (on_) { bool w = fail_ < 0; if (w) { on_ = false; kinds_.reserve(kinds_.size() + 64); on_ = true; } event('a'); } }

struct In                                  // an input element with a comparison that may throw
{
	char c;
	friend bool operator==(const In& a, const In& b) { event('e'); return a.c == b.c; }
	friend bool operator==(const In& a, char b) { event('e'); return a.c == b; }
	friend bool operator==(char a, const In& b) { event('e'); return a == b.c; }
};

struct Con                                 // a constant whose copies may throw
{
	int v;
	mutable unsigned magic = 77;
	constexpr Con(int x) : v(x) { if (!std::is_constant_evaluated()) { event('d'); ++live_; } }
	constexpr Con(const Con& o) : v(o.v) { if (!std::is_constant_evaluated()) { event('c'); ++live_; } }
	constexpr Con& operator=(const Con& o) { if (!std::is_constant_evaluated()) event('C'); v = o.v; return *this; }
	constexpr ~Con() { if (!std::is_constant_evaluated()) { if (magic != 77) ++corrupt_; magic = 0; --live_; } }
	bool operator==(const Con&) const = default;
	Con() : Con(-1) {}
};
// structural: only public, non-mutable members
struct SCon
{
	int v;
	constexpr SCon(int x) : v(x) { if (!std::is_constant_evaluated()) { event('d'); ++live_; } }
	constexpr SCon() : SCon(-1) {}
	constexpr SCon(const SCon& o) : v(o.v) { if (!std::is_constant_evaluated()) { event('c'); ++live_; } }
	constexpr SCon& operator=(const SCon& o) { if (!std::is_constant_evaluated()) event('C'); v = o.v; return *this; }
	constexpr ~SCon() { if (!std::is_constant_evaluated()) --live_; }
	bool operator==(const SCon&) const = default;
};

// a user value whose every operation may throw
struct Val
{
	int v = 0; unsigned magic = 77;
	Val() { event('d'); ++live_; }
	template <class A, class... As> requires (not std::is_same_v<std::remove_cvref_t<A>, Val>) explicit Val(A&&, As&&...) : v(1) { event('d'); ++live_; }
	Val(const Val& o) : v(o.v) { event('c'); ++live_; }
	Val(Val&& o) : v(o.v) { event('v'); ++live_; }
	Val& operator=(const Val& o) { event('C'); v = o.v; return *this; }
	Val& operator=(Val&& o) { event('V'); v = o.v; return *this; }
	~Val() { if (magic != 77) ++corrupt_; magic = 0; --live_; }
};
// an answer whose conversion to bool may throw
struct Truth { bool b; operator bool() const { event('b'); return b; } };
struct pr { template <class... A> Truth operator()(const A&...) const { event('f'); return { true }; } };
struct mk { template <class... A> Val operator()(A&&...) const { event('f'); return Val(); } };
struct vd { template <class... A> void operator()(A&&...) const { event('f'); } };

template <class R> static std::string sig(const R& r)
{
	std::string o = r.has_value() ? "match" : "fail";
	o += " left " + std::to_string(r.remaining().size());
	return o;
}

template <class F> static void all_points(const std::string& what, const std::string& in, F run)
{
	auto go = [&](long fail) { no_ = 0; fail_ = fail; kinds_.clear(); ++h::runs; on_ = true; std::string s = run(); on_ = false; return s; };
	h::where(what, in);
	std::string want;
	kinds_.reserve(1 << 12);
	try { want = go(-1); } catch (...) { on_ = false; h::viol(what, in, "an exception although nothing threw", "none", "exception"); return; }
	std::string kinds = kinds_;
	h::outcome(want);
	++h::states;
	for (long k = 0; k < (long)kinds.size(); ++k)
	{
		++h::transitions;
		long live0 = live_; std::size_t net = mc::g_news - mc::g_frees;
		int got = 0; long id = -1;
		try { go(k); } catch (const Planned& p) { got = 1; id = p.at; } catch (const std::bad_alloc&) { got = 2; } catch (...) { got = 3; }
		on_ = false;
		long left = (long)(mc::g_news - mc::g_frees - net), lv = live_ - live0;
		std::string at = std::string("exception at point ") + std::to_string(k) + " kind " + kinds[k];
		if (got != (kinds[k] == 'a' ? 2 : 1) || (got == 1 && id != k)) { h::viol(what, in, "exception reaching the caller", at, "outcome " + std::to_string(got)); return; }
		if (left) { h::viol(what, in, "memory blocks left", at, std::to_string(left)); return; }
		if (lv || corrupt_) { h::viol(what, in, "objects left alive or destroyed twice", at, std::to_string(lv)); live_ = live0; corrupt_ = 0; return; }
	}
	std::string again;
	try { again = go(-1); } catch (...) { on_ = false; again = "exception"; }
	if (again != want) h::viol(what, in, "a later parse is affected", want, again);
}

static std::vector<std::string> inputs;
static void make_inputs(int maxlen)
{
	inputs = { "" };
	for (std::size_t b = 0, l = 1; (int)l <= maxlen; ++l) { std::size_t e = inputs.size(); for (std::size_t i = b; i < e; ++i) for (char c : { 'a', 'b', 'c' }) inputs.push_back(inputs[i] + c); b = e; }
	mc::g_before_alloc = before_alloc;
}
template <class P> static void both(const char* name, P)
{
	for (auto& s : inputs)
	{
		std::vector<In> v;
		for (char c : s) v.push_back({ c });
		std::span<const In> sp(v.data(), v.size());
		all_points(std::string("parse ") + name, s, [&] { auto r = P::parse(sp); on_ = false; return sig(r); });
		all_points(std::string("lookahead ") + name, s, [&] { auto r = P::lookahead(sp); on_ = false; return sig(r); });
	}
}
template <class P> static void consts(const char* name, P)
{
	for (auto& s : inputs)
		all_points(std::string("parse ") + name, s, [&] { auto r = P::parse(std::string_view(s)); on_ = false; return sig(r); });
}
#define B(...) both(#__VA_ARGS__, __VA_ARGS__)
#define K(...) consts(#__VA_ARGS__, __VA_ARGS__)

