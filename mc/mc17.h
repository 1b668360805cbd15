// Compile time against run time: one constant expression evaluates a grammar on every input of the
// space; the same code then runs for real, and both tables must be equal.
#pragma once
#include <k3/tok3n.h>
#include <array>
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <cstring>
#include <ranges>
#include <span>
#include "mc17_case.h"
#include "elem.h"
template <class T> concept character_type = std::same_as<T, char> or std::same_as<T, signed char> or std::same_as<T, unsigned char> or std::same_as<T, wchar_t> or std::same_as<T, char8_t> or std::same_as<T, char16_t> or std::same_as<T, char32_t>;

namespace mc {

using H = std::uint64_t;
constexpr void mix(H& h, H x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; h ^= h >> 31; }

template <class... As> constexpr H dig_all(const As&... as);
template <int K> struct Obj
{
	H h = 7;
	constexpr Obj() = default;
	template <class... As>
	requires (sizeof...(As) > 0) and (not (sizeof...(As) == 1 and (... and std::is_same_v<std::remove_cvref_t<As>, Obj>)))
	constexpr explicit Obj(As&&... as) : h(dig_all(as...)) {}
};
template <int K> struct Dflt { int x = K; };

template <class T>
inline constexpr bool is_view_like = requires(const T& t) { t.data(); t.size(); t.front(); t.empty(); };

// Views are told apart by where they lie (if the input is known) and by what they show.
template <class E> struct Sink { H h = 7; const E* base = nullptr; std::size_t n = 0; constexpr void operator()(H x) { mix(h, x); } };
template <class E> constexpr H num(E e)
{
	if constexpr (std::is_floating_point_v<E>) return (H)(long long)(e * 16);
	else return (H)e;
}
template <class T> struct Dig;
template <class S, class T> constexpr void dig(S& h, const T& t) { Dig<T>::f(h, t); }
template <class T> requires is_view_like<T> struct Dig<T>
{
	template <class S> static constexpr void f(S& h, const T& v)
	{
		h(1 + v.size());
		for (std::size_t i = 0; i < v.size(); ++i) h(num(v.data()[i]));
		H at = v.data() ? 777 : 888;
		if (h.base && v.data()) if constexpr (std::is_same_v<decltype(h.base), decltype(v.data())>) for (std::size_t i = 0; i <= h.n; ++i) if (v.data() == h.base + i) { at = i; break; }
		h(at);
		// the view as a range and in comparisons
		std::size_t k = 0; bool same = true;
		for (const auto& e : v) { same = same && e == v.data()[k]; ++k; }
		h(same); h(k); h(v.empty()); h(v == v); h(v != v);
		if (!v.empty()) { h(num(v.front())); h(v == v.subspan(1)); h(v != v.first(v.size() - 1)); for (const auto& e : v.first(1)) h(num(e)); for (const auto& e : v.subspan(v.size() - 1)) h(num(e)); }
	}
};
template <> struct Dig<std::string> { template <class S> static constexpr void f(S& h, const std::string& v) { h(2); for (char c : v) h((unsigned char)c); } };
template <> struct Dig<std::string_view> { template <class S> static constexpr void f(S& h, const std::string_view& v) { h(3); for (char c : v) h((unsigned char)c); } };
template <> struct Dig<bool> { template <class S> static constexpr void f(S& h, bool v) { h(4 + v); } };
template <> struct Dig<int> { template <class S> static constexpr void f(S& h, int v) { h(6 + v); } };
template <> struct Dig<std::nullptr_t> { template <class S> static constexpr void f(S& h, std::nullptr_t) { h(8); } };
template <int K> struct Dig<Obj<K>> { template <class S> static constexpr void f(S& h, const Obj<K>& v) { h(100 + K); h(v.h); } };
template <int K> struct Dig<Dflt<K>> { template <class S> static constexpr void f(S& h, const Dflt<K>& v) { h(200 + v.x); } };
template <class T> struct Dig<std::vector<T>> { template <class S> static constexpr void f(S& h, const std::vector<T>& v) { h(300 + v.size()); for (auto& x : v) dig(h, x); } };
template <class T, std::size_t N> struct Dig<std::array<T, N>> { template <class S> static constexpr void f(S& h, const std::array<T, N>& v) { h(400 + N); for (auto& x : v) dig(h, x); } };
template <class T> struct Dig<std::optional<T>> { template <class S> static constexpr void f(S& h, const std::optional<T>& v) { h(500 + v.has_value()); if (v) dig(h, *v); } };
template <class A, class B> struct Dig<std::pair<A, B>> { template <class S> static constexpr void f(S& h, const std::pair<A, B>& v) { h(600); dig(h, v.first); dig(h, v.second); } };
template <class... Ts> struct Dig<std::tuple<Ts...>> { template <class S> static constexpr void f(S& h, const std::tuple<Ts...>& v) { h(700); std::apply([&](const auto&... xs) { (dig(h, xs), ...); }, v); } };
template <class... Ts> struct Dig<std::variant<Ts...>>
{
	template <std::size_t I, class S> static constexpr void at(S& h, const std::variant<Ts...>& v) { if (v.index() == I) dig(h, std::get<I>(v)); }
	template <class S> static constexpr void f(S& h, const std::variant<Ts...>& v)
	{
		h(800 + v.index());
		[&]<std::size_t... Is>(std::index_sequence<Is...>) { (at<Is>(h, v), ...); }(std::index_sequence_for<Ts...>{});
	}
};

// what a user function sees: the content (the input is not known to it)
template <class... As> constexpr H dig_all(const As&... as) { Sink<char> s{ sizeof...(As) }; (dig(s, as), ...); return s.h; }

template <int K> inline constexpr auto fn = []<class... As>(As&&... as) -> Obj<K> { Obj<K> o; o.h = dig_all(as...); return o; };
template <int K> inline constexpr auto vfn = []<class... As>(As&&...) -> void {};
template <int K> inline constexpr auto pred = []<class... As>(const As&... as) -> bool { return K == 0 ? true : K == 1 ? false : (dig_all(as...) * (K + 2) >> 7) % 3 != 0; };

// ---- the space ----------------------------------------------------------------------------------
#ifndef MC17_LEN
#define MC17_LEN 3
#endif
#ifndef MC17_ALPHABET
#define MC17_ALPHABET "abc"
#endif
#ifndef MC17_FORMS
#define MC17_FORMS 0
#endif
inline constexpr int LEN = MC17_LEN;
#if MC17_LEN > 0
// all letter sequences up to a length
inline constexpr std::size_t LETTERS = sizeof(MC17_ALPHABET) - 1;
constexpr std::size_t count_inputs() { std::size_t n = 1, p = 1; for (int i = 0; i < LEN; ++i) { p *= LETTERS; n += p; } return n; }
inline constexpr std::size_t N_IN = count_inputs();
template <class E> constexpr std::size_t spell(std::size_t i, E* out)
{
	std::size_t len = 0, block = 1;
	while (i >= block) { i -= block; block *= LETTERS; ++len; }
	for (std::size_t k = len; k-- > 0; i /= LETTERS) if (out) out[k] = elem_of<E>(MC17_ALPHABET[i % LETTERS]);
	return len;
}
#elif MC17_LEN < 0
// a repeated word of 48 to 260 (or of 1025) letters, alone, with a tail, and with the middle or last letter changed
#if MC17_LEN == -1
inline constexpr std::size_t LENGTHS[] = { 48, 65, 129, 260 };
#else
inline constexpr std::size_t LENGTHS[] = { 1025 };
#endif
inline constexpr std::size_t N_LEN = sizeof LENGTHS / sizeof LENGTHS[0];
inline constexpr std::size_t N_IN = N_LEN * 2 * 3;
template <class E> constexpr std::size_t spell(std::size_t i, E* out)
{
	std::size_t n = 0;
	auto put = [&](char c) { if (out) out[n] = elem_of<E>(c); ++n; };
	const std::size_t len = LENGTHS[i % N_LEN], how = (i / N_LEN % 3 + i) % 5;
	const bool two = i / N_LEN / 3;
	for (std::size_t k = 0; k < len; ++k) put(how == 2 && k == len / 2 ? 'c' : how == 3 && k + 1 == len ? 'c' : "ab"[two && k % 2]);
	if (how == 1) put('c');
	if (how == 4) put('b');
	return n;
}
#else
// a repeated word of around 8, 16, 24 and 32 letters, with a tail, and with one letter changed
inline constexpr const char* WORDS[] = { "a", "ab", "b" };
inline constexpr std::size_t LENGTHS[] = { 7, 8, 9, 15, 16, 17, 24, 31, 32, 33 };
inline constexpr std::size_t N_IN = 3 * 10 * 4 + 2 * 17;
template <class E> constexpr std::size_t spell(std::size_t i, E* out)
{
	std::size_t n = 0;
	auto put = [&](char c) { if (out) out[n] = elem_of<E>(c); ++n; };
	if (i < 120)
	{
		const char* w = WORDS[i / 40]; std::size_t wl = w[1] ? 2 : 1;
		for (std::size_t k = 0; k < LENGTHS[i / 4 % 10]; ++k) put(w[k % wl]);
		if (i % 4) put("abc"[i % 4 - 1]);
	}
	else for (std::size_t k = 0; k < 17; ++k) put(k == (i - 120) % 17 ? "bc"[(i - 120) / 17] : 'a');
	return n;
}
#endif
template <class E> std::string show(std::size_t i)
{
	std::size_t n = spell<char>(i, nullptr);
	std::string s(n, ' ');
	spell<char>(i, s.data());
	return s;
}

struct Row { H parse = 0, look = 0, forms = 0; constexpr bool operator==(const Row&) const = default; };

template <class E, class R>
constexpr H outcome(const R& r, const E* base, std::size_t n)
{
	Sink<E> h{ 42, base, n };
	auto rem = r.remaining();
	h(r.has_value()); h(static_cast<bool>(r)); h(rem.size());
	h(rem.data() == base + (n - rem.size()));
	if constexpr (not std::is_void_v<typename R::value_type>)
	{
		if (r.has_value()) { dig(h, *r); dig(h, r.value()); }
		// the result as a value
		R c(r); R m(std::move(c)); R d; d = m; R e; e = std::move(d);
		h(m.has_value()); h(e.has_value()); h(e.remaining().size());
		if (e.has_value()) { dig(h, *e); auto v = *std::move(e); dig(h, v); }
	}
	else { R c(r); R d; d = c; h(d.has_value()); h(d.remaining().size()); }
	return h.h;
}

template <class E> struct own_range
{
	const E* b; std::size_t n;
	constexpr const E* begin() const { return b; }
	constexpr const E* end() const { return b + n; }
};
template <class E> inline constexpr bool charlike = std::is_same_v<E, char> || std::is_same_v<E, wchar_t> || std::is_same_v<E, char16_t> || std::is_same_v<E, char32_t> || std::is_same_v<E, char8_t>;

template <class E> constexpr auto view_of(const E* b, std::size_t n)
{
	if constexpr (charlike<E>) return std::basic_string_view<E>(b, n);
	else return std::span<const E>(b, n);
}
#if MC17_FORMS
template <class P, class E, std::size_t N>
constexpr void arrays(H& h, const E* b, std::size_t n)
{
	if (n != N) return;
	std::array<E, N> a{}; E c[N + 1]{};
	for (std::size_t i = 0; i < N; ++i) a[i] = c[i] = b[i];
	const auto& ca = a; const auto& cc = c;
	mix(h, outcome<E>(P::parse(a), a.data(), N)); mix(h, outcome<E>(P::lookahead(ca), a.data(), N)); mix(h, outcome<E>(P::parse(std::move(a)), a.data(), N));
	mix(h, outcome<E>(P::parse(std::span<const E, N>(a)), a.data(), N));
	mix(h, outcome<E>(P::parse(c), c, N + 1)); mix(h, outcome<E>(P::lookahead(c), c, N + 1));
	std::size_t z = N + 1;
	if constexpr (character_type<E>) for (z = 0; c[z] != E(0); ) ++z;
	mix(h, outcome<E>(P::parse(cc), c, z)); mix(h, outcome<E>(P::lookahead(cc), c, z));
}
template <class P, class E>
constexpr H forms(const E* b, std::size_t n)
{
	H h = 3;
	std::vector<E> v(b, b + n); const auto& cv = v;
	mix(h, outcome<E>(P::parse(v), v.data(), n)); mix(h, outcome<E>(P::lookahead(cv), v.data(), n)); mix(h, outcome<E>(P::parse(cv), v.data(), n));
	mix(h, outcome<E>(P::parse(std::span<E>(v)), v.data(), n)); mix(h, outcome<E>(P::parse(std::ranges::subrange(cv.data(), cv.data() + n)), v.data(), n));
	own_range<E> own{ b, n };
	mix(h, outcome<E>(P::parse(own), b, n)); mix(h, outcome<E>(P::lookahead(own), b, n));
	k3::tok3n::detail::output_span<E> os{ std::span<const E>(b, n) };
	mix(h, outcome<E>(P::parse(os), b, n)); mix(h, outcome<E>(P::parse(P::parse(os).remaining()), b, n));
	if constexpr (charlike<E>)
	{
		std::basic_string<E> s(b, b + n); const auto& cs = s;
		mix(h, outcome<E>(P::parse(s), s.data(), n)); mix(h, outcome<E>(P::lookahead(cs), s.data(), n));
		std::size_t z = 0;
		while (s.c_str()[z] != E(0)) ++z;
		const E* p = s.c_str();
		mix(h, outcome<E>(P::parse(p), p, z)); mix(h, outcome<E>(P::lookahead(p), p, z)); mix(h, outcome<E>(P::parse(s.c_str()), p, z));
	}
	arrays<P, E, 0>(h, b, n); arrays<P, E, 1>(h, b, n); arrays<P, E, 2>(h, b, n); arrays<P, E, 3>(h, b, n);
	return h;
}
#endif

template <class P, class E>
constexpr std::array<Row, N_IN> table()
{
	std::array<Row, N_IN> t{};
	for (std::size_t i = 0; i < N_IN; ++i)
	{
		std::size_t n = spell<E>(i, nullptr);
		E* b = new E[n ? n : 1];
		spell<E>(i, b);
		t[i].parse = outcome<E>(P::parse(view_of<E>(b, n)), b, n);
		t[i].look = outcome<E>(P::lookahead(view_of<E>(b, n)), b, n);
#if MC17_FORMS
		t[i].forms = forms<P, E>(b, n);
#else
		if constexpr (charlike<E>)
		{
			E* z = new E[n + 1]{};
			spell<E>(i, z);
			std::size_t m = 0;
			while (z[m] != E(0)) ++m;
			t[i].forms = outcome<E>(P::parse((const E*)z), z, m);
			delete[] z;
		}
#endif
		delete[] b;
	}
	return t;
}

template <class P, class E> inline constexpr auto constant_table = table<P, E>();

template <class P, class E> void run_table(std::uint64_t* out)
{
	auto t = table<P, E>();
	for (auto& r : t) { *out++ = r.parse; *out++ = r.look; *out++ = r.forms; }
}
template <class P, class E> void const_table(std::uint64_t* out) { for (auto& r : constant_table<P, E>) { *out++ = r.parse; *out++ = r.look; *out++ = r.forms; } }

template <class P, class E = char> void reg(const char* id, const char* cpp, const char*, const char*, bool) { add_case({ id, cpp, N_IN, &const_table<P, E>, &run_table<P, E>, &show<E> }); }

} // namespace mc
