// Element types that can only be compared: every equality relation between three grammar elements
// and three kinds of input element, every short input.
#pragma once
#include "h_input.h"
#include <cmath>
#include <compare>

namespace he {

inline bool rel[256][256];               // rel[g][k]: grammar element g equals input kind k
inline const void* base;                 // the input under test
inline std::size_t count;                // its length
inline std::size_t elem;                 // bytes per element
inline long bad_reads = 0;               // comparisons with something that is not one of its elements
inline std::uint64_t comparisons = 0;

inline bool ask(unsigned char g, const void* at, unsigned char k)
{
	++comparisons;
	std::ptrdiff_t d = (const char*)at - (const char*)base;
	if (d < 0 || d % (std::ptrdiff_t)elem || d / (std::ptrdiff_t)elem >= (std::ptrdiff_t)count) ++bad_reads;
	return rel[g][k];
}

struct Answer { bool b; operator bool() const { return b; } };   // == need not return bool

struct Tok                               // a grammar element type of the user's own
{
	int v;
	constexpr Tok() : v(0) {}
	constexpr explicit Tok(int x) : v(x) {}
	friend constexpr bool operator==(const Tok&, const Tok&) = default;
	friend constexpr std::strong_ordering operator<=>(const Tok&, const Tok&) = default;
};
inline unsigned char code(char c) { return (unsigned char)c; }
inline unsigned char code(Tok t) { return (unsigned char)t.v; }

// input element types: not copyable, not movable, nothing but ==; three ways to provide it
struct InA                               // compared as input == grammar
{
	unsigned char k = 0;
	char pad[4];
	InA() = default;
	InA(const InA&) = delete;
	InA& operator=(const InA&) = delete;
	template <class G> requires std::same_as<G, char> or std::same_as<G, Tok>
	friend bool operator==(const InA& i, const G& g) { return ask(code(g), std::addressof(i), i.k); }
	template <class G> friend bool operator!=(const InA&, const G&) = delete;
	template <class G> friend bool operator<(const InA&, const G&) = delete;
	void operator&() const = delete;
};

struct InB                               // compared as grammar == input
{
	unsigned char k = 0;
	int pad = 7;
	InB() = default;
	InB(const InB&) = delete;
	InB& operator=(const InB&) = delete;
	template <class G> requires std::same_as<G, char> or std::same_as<G, Tok>
	friend bool operator==(const G& g, const InB& i) { return ask(code(g), std::addressof(i), i.k); }
};

struct InC                               // the answer only converts to bool; both orders
{
	unsigned char k = 0;
	InC() = default;
	InC(const InC&) = delete;
	InC& operator=(const InC&) = delete;
	template <class G> requires std::same_as<G, char> or std::same_as<G, Tok>
	friend Answer operator==(const G& g, const InC& i) { return { ask(code(g), std::addressof(i), i.k) }; }
	template <class G> requires std::same_as<G, char> or std::same_as<G, Tok>
	friend Answer operator==(const InC& i, const G& g) { return { ask(code(g), std::addressof(i), i.k) }; }
};

struct InD                               // != is not the negation of ==, and the order says nothing about equality
{
	unsigned char k = 0;
	InD() = default;
	InD(const InD&) = delete;
	InD& operator=(const InD&) = delete;
	template <class G> requires std::same_as<G, char> or std::same_as<G, Tok>
	friend bool operator==(const G& g, const InD& i) { return ask(code(g), std::addressof(i), i.k); }
	template <class G> requires std::same_as<G, char> or std::same_as<G, Tok>
	friend bool operator!=(const G&, const InD&) { return true; }
	template <class G> requires std::same_as<G, char> or std::same_as<G, Tok>
	friend bool operator==(const InD& i, const G& g) { return ask(code(g), std::addressof(i), i.k); }
	template <class G> requires std::same_as<G, char> or std::same_as<G, Tok>
	friend bool operator!=(const InD&, const G&) { return true; }
	template <class G> requires std::same_as<G, char> or std::same_as<G, Tok>
	friend std::partial_ordering operator<=>(const InD&, const G&) { return std::partial_ordering::unordered; }
};

struct Self                              // one type for the elements of the grammar and of the input; many values are equal
{
	unsigned char g = 0, k = 0;
	constexpr Self() = default;
	constexpr explicit Self(char c) : g((unsigned char)c) {}
	friend constexpr bool operator==(const Self& a, const Self& b)
	{
		if (std::is_constant_evaluated()) return a.g == b.g && a.k == b.k;
		if (a.g && b.g) return a.g == b.g;
		return a.g ? ask(a.g, std::addressof(b), b.k) : ask(b.g, std::addressof(a), a.k);
	}
	friend constexpr bool operator!=(const Self&, const Self&) { return true; }
	friend constexpr std::strong_ordering operator<=>(const Self& a, const Self& b) { return a.g == b.g ? a.k <=> b.k : b.g <=> a.g; }
};
inline unsigned char code(Self t) { return t.g; }

template <class In, class P>
void grammar(const char* tname, const char* cpp, const char* sexpr, int maxlen, int kinds)
{
	hi::Oracle o(sexpr);
	ref::rel = rel;
	std::string name = std::string(tname) + ": " + cpp;
	std::vector<std::string> all{ "" };
	for (std::size_t b = 0, l = 0; (int)l < maxlen; ++l)
	{
		std::size_t e = all.size();
		for (; b < e; ++b) for (int k = 0; k < kinds; ++k) all.push_back(all[b] + char(k));
	}
	if (maxlen < 0)
	{
		// a long literal: words of one or two kinds, one place changed
		all.clear();
		for (int n : { -maxlen - 1, -maxlen, -maxlen + 1 })
			for (int a = 0; a < kinds; ++a)
				for (int b = 0; b < kinds; ++b)
				{
					std::string w;
					for (int i = 0; i < n; ++i) w += char(i % 2 ? b : a);
					all.push_back(w);
					for (int i = 0; i < n; ++i) { auto x = w; x[i] = char((x[i] + 1) % kinds); all.push_back(x); }
				}
	}
	static In buf[64];
	elem = sizeof(In);
	mc::g_elem = sizeof(In);
	for (int mask = 0; mask < 1 << (3 * kinds); ++mask)
	{
		for (int g = 0; g < 3; ++g)
			for (int k = 0; k < kinds; ++k) rel['a' + g][k] = mask >> (g * kinds + k) & 1;
		for (auto& in : all)
		{
			std::string shown = "relation " + std::to_string(mask) + " input ";
			for (char c : in) shown += char('0' + c);
			h::where(name, shown);
			for (int place = 0; place < 2; ++place)
			{
				In* at = place ? buf + 64 - in.size() : buf + 1;
				for (auto& x : buf) x.k = 200;
				for (std::size_t i = 0; i < in.size(); ++i) at[i].k = (unsigned char)in[i];
				base = at; count = in.size(); bad_reads = 0;
				mc::g_base = (const char*)at; mc::g_len = in.size() * sizeof(In);
				std::span<const In> sp(at, in.size());
				std::string want_parse = o.run(in, false), want_look = o.run(in, true);
				std::string got = hi::outcome(P::parse(sp), at, in.size());
				if (got != want_parse) h::viol(name, shown, "parse", want_parse, got);
				got = hi::outcome(P::lookahead(sp), at, in.size());
				if (got != want_look) h::viol(name, shown, "lookahead", want_look, got);
				if (bad_reads) h::viol(name, shown, "comparisons of something other than an element of the input", "0", std::to_string(bad_reads));
				for (std::size_t i = 0; i < in.size(); ++i) if (at[i].k != (unsigned char)in[i]) h::viol(name, shown, "input element modified", "unchanged", "changed");
				h::runs += 2;
				h::outcome(want_parse);
			}
		}
	}
}

// built-in element types of different width and signedness: == after the usual conversions decides
template <class G, int... cs> struct Longer
{
	static constexpr auto any() { return k3::tok3n::any_of<G(cs)...>; }
	static constexpr auto none() { return k3::tok3n::none_of<G(cs)...>; }
	static constexpr auto all() { return k3::tok3n::all_of<G(cs)...>; }
};
template <class G, int g0, std::size_t... Is> Longer<G, (g0 + (int)Is)...> longer(std::index_sequence<Is...>) { return {}; }

template <class G, class V, int g0, int g1>
void builtin(const char* tname)
{
	using namespace k3::tok3n;
	using Val = std::conditional_t<std::is_floating_point_v<V>, long double, long long>;
	const Val ints[] = { 0, 1, 97, 98, 126, 127, 128, 129, 200, 254, 255, 256, 257, 353, 354, 32767, 32768, 65535, 65536, 65633, 2147483647LL, -1, -2, -127, -128, -129, -159, -158, -32768, -2147483648LL, 0x110061, 4294967295LL, 4294967296LL, 4294967393LL };
	std::vector<Val> vals(std::begin(ints), std::end(ints));
	if constexpr (std::is_floating_point_v<V>)
	{
		vals.erase(vals.begin() + 12, vals.begin() + 26);
		for (Val x : { Val(-0.0L), Val(NAN), Val(-NAN), Val(INFINITY), Val(-INFINITY), Val(97.5L), Val(0.5L), Val(96.99999999999L), Val(1e-320L) }) vals.push_back(x);
	}
	constexpr G e0 = G(g0), e1 = G(g1);
	for (Val x : vals)
		for (Val y : vals)
		{
			V in[3] = { V(x), V(y), V(0) };
			std::span<const V> sp(in, 2);
			bool x0 = in[0] == e0, x1 = in[0] == e1, y0 = in[1] == e0, y1 = in[1] == e1;
			std::string shown = std::to_string(x) + "," + std::to_string(y);
			h::where(tname, shown);
			auto chk = [&](const char* what, bool want, bool got, std::size_t wantrem, std::size_t rem) {
				h::runs++;
				if (want != got || (rem != wantrem)) h::viol(std::string(tname) + " elements " + std::to_string(g0) + "," + std::to_string(g1), shown, what, want ? "match" : "no match", got ? "match, left " + std::to_string(rem) : "no match");
			};
			#define HE(NAME, PARSER, WANT, LEN) do { using P = std::remove_cvref_t<decltype(PARSER)>; bool w = (WANT); auto r = P::parse(sp); chk(NAME, w, r.has_value(), w ? 2 - (LEN) : 2, r.remaining().size()); auto l = P::lookahead(sp); chk(NAME " lookahead", w, l.has_value(), w ? 2 - (LEN) : 2, l.remaining().size()); } while (0)
			HE("any_of", (any_of<e0>), x0, 1);
			HE("any_of two", (any_of<e0, e1>), x0 || x1, 1);
			HE("none_of", (none_of<e0, e1>), !(x0 || x1), 1);
			HE("all_of one", (all_of<e0>), x0, 1);
			HE("all_of two", (all_of<e0, e1>), x0 && y1, 2);
			HE("all_of same", (all_of<e0, e0>), x0 && y0, 2);
			HE("join of some", join(+any_of<e0, e1>), x0 || x1, (y0 || y1 ? 2 : 1));
			HE("exactly two", (exactly<2>(any_of<e0, e1>)), (x0 || x1) && (y0 || y1), 2);
			++h::states;
		}
	// long literals and classes: one place of the literal different, every member
	using L = decltype(longer<G, g0>(std::make_index_sequence<12>{}));
	constexpr G many[12] = { e0, G(g0 + 1), G(g0 + 2), G(g0 + 3), G(g0 + 4), G(g0 + 5), G(g0 + 6), G(g0 + 7), G(g0 + 8), G(g0 + 9), G(g0 + 10), G(g0 + 11) };
	for (std::size_t at = 0; at <= 12; ++at)
		for (Val x : vals)
		{
			V in[13];
			for (std::size_t i = 0; i < 12; ++i) in[i] = V(many[i]);
			in[12] = V(x);
			if (at < 12) in[at] = V(x);
			std::string shown = std::to_string(x) + " in place " + std::to_string(at);
			h::where(tname, shown);
			bool all = true, any = false;
			for (std::size_t i = 0; i < 12; ++i) { all = all && in[i] == many[i]; any = any || V(x) == many[i]; }
			auto chk = [&](const char* what, bool want, bool got, std::size_t wantrem, std::size_t rem) {
				h::runs++;
				if (want != got || (rem != wantrem)) h::viol(std::string(tname) + " elements from " + std::to_string(g0), shown, what, want ? "match" : "no match", got ? "match, left " + std::to_string(rem) : "no match");
			};
			#define HL(NAME, PARSER, WANT, FROM, LEN) do { using P = std::remove_cvref_t<decltype(PARSER)>; std::span<const V> sp(in + (FROM), 13 - (FROM)); bool w = (WANT); auto r = P::parse(sp); chk(NAME, w, r.has_value(), sp.size() - (w ? (LEN) : 0), r.remaining().size()); auto l = P::lookahead(sp); chk(NAME " lookahead", w, l.has_value(), sp.size() - (w ? (LEN) : 0), l.remaining().size()); } while (0)
			HL("all_of twelve", L::all(), all, 0, 12);
			HL("any_of twelve", L::any(), any, (at < 12 ? at : 12), 1);
			HL("none_of twelve", L::none(), !any, (at < 12 ? at : 12), 1);
			++h::states;
		}
}

} // namespace he
