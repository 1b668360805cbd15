// C12: which names are taken for which: every ordered pair within a family of names of one length and its neighbours.
#include "h.h"
#include <k3/tok3n.h>
#include <array>
#include <string_view>
using namespace k3::tok3n;
#ifndef PART
#define PART 0
#endif
// variant V of a name of L characters; duplicates among the variants are meant to be taken for each other
template <class T, std::size_t L, int V> constexpr auto spell()
{
	constexpr std::size_t n = V == 18 ? L + 1 : (V == 19 && L > 1) ? L - 1 : L;
	detail::static_array<T, n> r;
	for (std::size_t i = 0; i < n; ++i) r[i] = T(V == 16 ? 'a' : 'a' + (i * 7 + i / 13) % 26);
	auto swap = [&](std::size_t i, std::size_t j) { if (i < n && j < n) { T t = r[i]; r[i] = r[j]; r[j] = t; } };
	auto bump = [&](std::size_t i, int d) { if (i < n) r[i] = T(r[i] + d); };
	switch (V)
	{
	case 1: swap(0, 1); break;
	case 2: swap(n / 2, n / 2 + 1); break;
	case 3: swap(n - 1, n - 2); break;
	case 4: swap(n - 2, n - 3); break;
	case 5: swap(1, n - 2); break;
	case 6: bump(0, 1); break;
	case 7: bump(n / 2, 1); break;
	case 8: bump(n - 1, 1); break;
	case 9: bump(7, 1); break;
	case 10: bump(8, 1); break;
	case 11: bump(n - 2, 1); break;
	case 12: bump(1, 1); bump(n - 2, -1); break;                                  // the sum stays
	case 13: for (std::size_t i = 0; i < n / 2; ++i) swap(i, n - 1 - i); break;   // last first
	case 14: bump(n / 3, -32); break;                                             // another case
	case 15: bump(n / 2, 128); break;                                             // above 127
	case 17: bump(n - 1, -'a'); break;                                            // (almost) a zero at the end
	case 20: bump(n / 4, 1); bump(n / 4 + 1, -31); break;                         // the sum with weights 31 stays
	case 21: if (n > 3) r[n / 2] = T(0); break;
	case 22: if (n > 3) { r[n / 2] = T(0); bump(n - 1, 2); } break;
	default: break;
	}
	return r;
}
inline constexpr int N_VAR = 23;
template <class T, std::size_t L1, int V1, std::size_t L2, int V2> void pair_of()
{
	constexpr auto part = spell<T, L1, V1>(), wanted = spell<T, L2, V2>();
	bool same = part.data.size() == wanted.data.size();
	for (std::size_t i = 0; same && i < part.data.size(); ++i) same = part.data[i] == wanted.data[i];
	constexpr auto p = ("a"_any % name<part>) % sub(name<wanted> = exactly<2>);
	bool once = p.parse(std::string_view("a")).has_value(), twice = p.parse(std::string_view("aa")).has_value();
	++h::states; ++h::runs; h::transitions += 2;
	if (once != !same || !twice)
		h::viol("a part named by variant " + std::to_string(V1) + " of " + std::to_string(L1) + " letters and a substitution for variant " + std::to_string(V2) + " of " + std::to_string(L2) + " letters, characters of " + std::to_string(sizeof(T)) + " bytes", "a",
			"substitution", same ? "the part is replaced" : "the part is left alone", once ? "left alone" : "replaced");
}
template <class T, std::size_t L1, std::size_t L2, int Step> void lengths()
{
	[]<std::size_t... Is>(std::index_sequence<Is...>)
	{
		(..., [] { if constexpr ((Is / N_VAR * 5 + Is % N_VAR) % Step == 0 || Is / N_VAR == 0 || Is % N_VAR == 0) pair_of<T, L1, Is / N_VAR, L2, Is % N_VAR>(); }());
	}(std::make_index_sequence<N_VAR * N_VAR>{});
	h::outcome("names of " + std::to_string(L1) + " and " + std::to_string(L2) + " characters of " + std::to_string(sizeof(T)) + " bytes");
}
int main()
{
	h::start();
#if PART == 0
	lengths<char, 17, 17, 1>();
#elif PART == 1
	lengths<char, 8, 8, 1>();
#elif PART == 2
	lengths<char, 33, 33, 1>();
#elif PART == 3
	lengths<char, 64, 64, 2>(); lengths<char, 4, 4, 2>();
#elif PART == 4
	lengths<char, 129, 129, 3>(); lengths<char, 3, 3, 3>(); lengths<char, 2, 2, 3>();
#elif PART == 5
	lengths<wchar_t, 17, 17, 3>(); lengths<char8_t, 9, 9, 3>(); lengths<char32_t, 5, 5, 3>();
#elif PART == 6
	lengths<char16_t, 16, 16, 3>(); lengths<char, 16, 16, 3>(); lengths<char, 5, 5, 3>();
#elif PART == 7
	lengths<char, 17, 16, 7>(); lengths<char, 16, 17, 7>(); lengths<char, 9, 8, 7>(); lengths<char, 32, 33, 7>(); lengths<char, 1, 2, 7>(); lengths<char, 1, 1, 7>();
#endif
	h::sample("part " + std::to_string(PART) + ": ordered pairs of 23 names of a length");
	return h::finish();
}
