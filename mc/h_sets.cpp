// C07: what is merged means what was written. All pairs of sets over five letters in a class or its negation, all
// triples over three, both bracketings, all negated and named versions, next to masks.
#include "h.h"
#include <k3/tok3n.h>
#include <array>
#include <string_view>
using namespace k3::tok3n;
#ifndef PART
#define PART 0
#endif
// eight values of T, in the order of <; the last three belong to no set
enum class Col : unsigned char {};
template <class T> constexpr std::array<T, 8> letters = { T(1), T('a'), T('b'), T('c'), T('z'), T(0), T('d'), T(127) };
template <> constexpr std::array<signed char, 8> letters<signed char> = { -128, -1, 0, 1, 127, -127, 2, 126 };
template <> constexpr std::array<int, 8> letters<int> = { -2147483647 - 1, -1, 0, 65536, 2147483647, 1, 256, -65536 };
template <> constexpr std::array<unsigned long long, 8> letters<unsigned long long> = { 0, 1, 1ull << 32, 1ull << 63, ~0ull, 2, (1ull << 32) + 1, ~0ull - 1 };

template <class T, unsigned M, bool Reverse> constexpr auto set_of()
{
	constexpr std::size_t n = (std::size_t)__builtin_popcount(M);
	return []<std::size_t... Is>(std::index_sequence<Is...>)
	{
		constexpr auto nth = [](std::size_t k) { if (Reverse) k = n - 1 - k; unsigned m = M; while (k--) m &= m - 1; return letters<T>[(std::size_t)__builtin_ctz(m)]; };
		return std::pair{ any_of<nth(Is)...>, none_of<nth(Is)...> };
	}(std::make_index_sequence<n>{});
}
template <class T, unsigned M, bool Neg, bool Reverse = false> constexpr auto cls() { if constexpr (Neg) return set_of<T, M, Reverse>().second; else return set_of<T, M, Reverse>().first; }
template <bool Neg> constexpr unsigned mask_of(unsigned m) { return (Neg ? ~m : m) & 255u; }

template <class T, class P> void judge(P, unsigned mask, const char* what, unsigned a, unsigned b, unsigned c)
{
	++h::states;
	for (unsigned i = 0; i <= 8; ++i)
	{
		const T v[2] = { letters<T>[i % 8], letters<T>[i % 8] };
		const std::span<const T> in(v, i == 8 ? 0 : 2);
		auto r = P::parse(in);
		auto l = P::lookahead(in);
		bool want = i < 8 && (mask >> i & 1);
		h::outcome(std::to_string(i) + (want ? "in " : "out ") + std::to_string(mask));
		++h::runs; h::transitions += 2;
		if (r.has_value() != want || l.has_value() != want || r.remaining().size() != in.size() - want || l.remaining().size() != in.size() - want)
			h::viol(std::string(what) + ", sets " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c) + " of elements of " + std::to_string(sizeof(T)) + " bytes", i == 8 ? "nothing" : "letter " + std::to_string(i),
				"one element", want ? "matched" : "not matched", r.has_value() ? "matched" : "not matched");
	}
}
template <class T, unsigned A, unsigned B, bool NA, bool NB> void two()
{
	constexpr auto p = cls<T, A, NA>(); constexpr auto q = cls<T, B, NB, true>();
	const unsigned m = mask_of<NA>(A) | mask_of<NB>(B);
	static constexpr const char* w[4] = { "any | any", "any | none", "none | any", "none | none" };
	constexpr auto pq = p | q;
	judge<T>(pq, m, w[NA * 2 + NB], A, B, 0);
	if constexpr (requires { !pq; }) judge<T>(!pq, ~m & 255u, "negated choice", A, B, 0);
	if constexpr ((A + B) % 4 == 0) { judge<T>((p | q) | p, m, "choice with the first again", A, B, 0); judge<T>(q | (p | q), m, "choice with the second before", A, B, 0); judge<T>((p % name<"n">) | q, m, "choice with a name between", A, B, 0); }
}
template <class T, unsigned A, unsigned B, unsigned C, bool NA, bool NB, bool NC> void three()
{
	constexpr auto p = cls<T, A, NA>(); constexpr auto q = cls<T, B, NB, true>(); constexpr auto r = cls<T, C, NC>();
	const unsigned m = mask_of<NA>(A) | mask_of<NB>(B) | mask_of<NC>(C);
	judge<T>((p | q) | r, m, "(1 | 2) | 3", A, B, C);
	judge<T>(p | (q | r), m, "1 | (2 | 3)", A, B, C);
}
template <class T, unsigned Rows, unsigned Step> void pairs(unsigned)
{
	[]<std::size_t... Is>(std::index_sequence<Is...>)
	{
		(..., [] { constexpr unsigned a = Rows * 4 + Is / 31 + 1, b = Is % 31 + 1;
			if constexpr (a < 32 && (a * 31 + b) % Step == 0) { two<T, a, b, false, false>(); two<T, a, b, false, true>(); two<T, a, b, true, false>(); two<T, a, b, true, true>(); } }());
	}(std::make_index_sequence<124>{});
}
template <class T, unsigned Lo, unsigned Hi> void triples()
{
	[]<std::size_t... Is>(std::index_sequence<Is...>)
	{
		(..., [] { constexpr unsigned i = Lo + Is, a = i / 49 % 7 + 1, b = i / 7 % 7 + 1, c = i % 7 + 1, n = i / 343;
			three<T, a * 2, b * 2, c * 2, (n & 1) != 0, (n & 2) != 0, (n & 4) != 0>(); }());
	}(std::make_index_sequence<Hi - Lo>{});
}
int main()
{
	h::start();
#if PART < 8
	pairs<char, PART, 1>(0);
#elif PART < 16
	triples<char, 343 * (PART - 8), 343 * (PART - 7)>();
#elif PART == 16
	[]<std::size_t... Is>(std::index_sequence<Is...>) { (..., (pairs<signed char, Is, 5>(0), pairs<int, Is, 6>(0))); }(std::make_index_sequence<8>{});
#elif PART == 17
	[]<std::size_t... Is>(std::index_sequence<Is...>) { (..., (pairs<Col, Is, 7>(0), pairs<unsigned long long, Is, 6>(0))); }(std::make_index_sequence<8>{});
#endif
	h::sample("part " + std::to_string(PART) + ": merged classes of pairs or triples of sets");
	return h::finish();
}
