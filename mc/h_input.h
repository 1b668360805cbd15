// Every way to pass the same elements: the outcome must be the reference's, with views at the same
// offsets into the caller's container.
#pragma once
#include "mc.h"
#include "h.h"
#include "ref.h"
#include <deque>
#include <algorithm>
#include <list>
#include <memory>
#include <ranges>
#include <span>
#include <string>
#include <string_view>

// the types of the library's own views, and the element types that the literal and pointer forms are for
template <class T> using any_result = std::remove_cvref_t<decltype(k3::tok3n::detail::anything_parser<T>::parse(std::declval<std::span<const T>>()))>;
template <class T> using in_span = std::remove_cvref_t<decltype(std::declval<any_result<T>&>().remaining())>;
template <class T> using out_span = std::remove_cvref_t<decltype(*std::declval<any_result<T>&>())>;
template <class T> concept character_type = std::same_as<T, char> or std::same_as<T, signed char> or std::same_as<T, unsigned char> or std::same_as<T, wchar_t> or std::same_as<T, char8_t> or std::same_as<T, char16_t> or std::same_as<T, char32_t>;

#ifndef HI_LONGEST    // grammars that refer to themselves need a stack as long as the input
#define HI_LONGEST 66000
#endif

namespace hi {

// the element that stands for a letter of the grammars; with HI_MAP one most of whose low bits are zero
template <class T> constexpr T el(int c)
{
#ifdef HI_MAP
	if (c == 'a') return T(sizeof(T) == 1 ? 0x80 : sizeof(T) == 2 ? 0x100 : sizeof(T) == 4 ? 0x10000 : 1LL << 32);
	if (c == 'b') return T(sizeof(T) == 1 ? 0xFF : sizeof(T) == 2 ? 0x8000 : sizeof(T) == 4 ? 0x100 : 0x10000);
#endif
	return T(c);
}
template <class T, int... cs> struct lits
{
	static constexpr auto any() { return k3::tok3n::any_of<el<T>(cs)...>; }
	static constexpr auto none() { return k3::tok3n::none_of<el<T>(cs)...>; }
	static constexpr auto all() { return k3::tok3n::all_of<el<T>(cs)...>; }
};
template <class T> struct lits<T>
{
	static constexpr auto all() { return k3::tok3n::all<k3::tok3n::detail::static_array<T, 0>{}>; }
};

struct Want { std::string rec_parse, rec_look; };

// the reference's outcome on one effective element sequence
struct Oracle
{
	std::string sexpr;
	ref::Grammar g;
	ref::Interp it;
	explicit Oracle(const char* s) : sexpr(s), g(ref::parse_sexpr(s)), it(g) {}
	std::string run(const std::string& in, bool look)
	{
		auto r = it.run(in.data(), in.size(), look);
		h::transitions += it.steps; it.steps = 0;
		h::states += it.states; it.states = 0;
		return r.ok ? "match end=" + std::to_string(r.end) + " value=" + (look ? "" : r.val) : std::string("no match");
	}
};

template <class R>
std::string outcome(const R& r, const void* base, std::size_t n)
{
	auto rem = r.remaining();
	const char* b = (const char*)base;
	const char* p = (const char*)rem.data();
	std::size_t es = sizeof(*rem.data());
	std::size_t at = n - rem.size();
	if (n && (p != b + at * es || rem.size() > n)) return "remaining input is not a suffix of the container: offset " + std::to_string(p - b) + " bytes, " + std::to_string(rem.size()) + " elements";
	if (!r.has_value()) return rem.size() == n ? "no match" : "no match, but input consumed";
	std::string o = "match end=" + std::to_string(at) + " value=";
	if constexpr (not std::is_void_v<typename R::value_type>) mc::ser(o, *r);
	return o;
}

// an empty input without storage: its one place is the null pointer, which is also where a default view is
inline std::string placeless(std::string w, const void* base)
{
	if (!base) for (std::size_t i; (i = w.find("V@0")) != std::string::npos; ) w.erase(i + 1, 2);
	return w;
}
// one representation: `in` is the effective element sequence (as bytes), base its address
#define HI_TRY(NAME, BASE, EXPR) do { \
	const void* base_ = (const void*)(BASE); \
	mc::g_base = (const char*)base_; mc::g_len = in.size() * sizeof(T); mc::g_elem = sizeof(T); \
	h::runs += 2; \
	{ std::string want = placeless(want_parse, base_), got = outcome(P::parse(EXPR), base_, in.size()); if (got != want) h::viol(cpp, shown, "parse of " NAME, want, got); } \
	{ std::string want = placeless(want_look, base_), got = outcome(P::lookahead(EXPR), base_, in.size()); if (got != want) h::viol(cpp, shown, "lookahead of " NAME, want, got); } \
} while (0)

inline std::string show(const std::string& s) { return s; }

template <class T, std::size_t N>
struct fixed { T a[N]; };

// user-defined contiguous range
template <class T>
struct own_range
{
	const T* b; std::size_t n;
	const T* begin() const { return b; }
	const T* end() const { return b + n; }
};

template <class P, class T, std::size_t N>
void arrays_of(const char* cpp, Oracle& o, const std::string& s, const T* data)
{
	if (s.size() != N) return;
	std::string shown = s;
	{
		std::array<T, N> a{};
		for (std::size_t i = 0; i < N; ++i) a[i] = data[i];
		const std::array<T, N>& ca = a;
		const std::string& in = s;
		std::string want_parse = o.run(in, false), want_look = o.run(in, true);
		HI_TRY("an array", a.data(), a);
		HI_TRY("a const array", a.data(), ca);
		HI_TRY("an array rvalue", a.data(), std::move(a));
		std::span<const T, N> sp(a);
		HI_TRY("a span of static extent", a.data(), sp);
	}
	// C arrays: as long as the string plus a terminator; a const one of characters is a literal
	T ca[N + 1];
	for (std::size_t i = 0; i < N; ++i) ca[i] = data[i];
	ca[N] = T(0);
	const T (&lit)[N + 1] = ca;
	std::string full = s + '\0';
	if constexpr (character_type<T>)
	{
		std::string in = s.substr(0, s.find('\0'));
		std::string want_parse = o.run(in, false), want_look = o.run(in, true);
		HI_TRY("a literal", ca, lit);
	}
	else
	{
		const std::string& in = full;
		std::string want_parse = o.run(in, false), want_look = o.run(in, true);
		HI_TRY("a const C array", ca, lit);
	}
	{
		const std::string& in = full;
		std::string want_parse = o.run(in, false), want_look = o.run(in, true);
		HI_TRY("a C array", ca, ca);
		HI_TRY("a C array rvalue", ca, std::move(ca));
	}
}

template <class P, class T>
void all_forms(const char* cpp, Oracle& o, const std::string& s)
{
	std::string shown = s;
	std::vector<T> v;
	for (char c : s) v.push_back(el<T>((unsigned char)c));
	h::where(cpp, s);
	{
		const std::string& in = s;
		std::string want_parse = o.run(in, false), want_look = o.run(in, true);
		h::outcome(want_parse);
		const std::vector<T>& cv = v;
		HI_TRY("a vector", v.data(), v);
		HI_TRY("a const vector", v.data(), cv);
		HI_TRY("a vector rvalue", v.data(), std::move(v));
		std::span<T> sp(v); std::span<const T> csp(v);
		HI_TRY("a span", v.data(), sp);
		HI_TRY("a span of const", v.data(), csp);
		HI_TRY("a span rvalue", v.data(), std::span<const T>(v));
		HI_TRY("a subrange", v.data(), std::ranges::subrange(cv.data(), cv.data() + cv.size()));
		own_range<T> own{ v.data(), v.size() };
		HI_TRY("a user-defined contiguous range", v.data(), own);
		in_span<T> is{ csp }; out_span<T> os{ csp };
		HI_TRY("an earlier remaining input", v.data(), is);
		HI_TRY("an earlier view", v.data(), os);
		HI_TRY("a subspan of a view", v.data(), os.subspan(0));
		if constexpr (character_type<T>)
		{
			std::basic_string<T> str(v.begin(), v.end());
			const std::basic_string<T>& cstr = str;
			HI_TRY("a string", str.data(), str);
			HI_TRY("a const string", str.data(), cstr);
			HI_TRY("a string rvalue", str.data(), std::move(str));
			std::basic_string_view<T> sv(v.data(), v.size());
			const std::basic_string_view<T> csv = sv;
			HI_TRY("a string view", v.data(), sv);
			HI_TRY("a const string view", v.data(), csv);
			HI_TRY("a string view rvalue", v.data(), std::basic_string_view<T>(sv));
		}
		if (s.empty())
		{
			// no elements at all, no storage either
			HI_TRY("an empty string view without storage", nullptr, std::span<const T>());
			HI_TRY("an empty vector without storage", nullptr, std::vector<T>());
		}
	}
	if constexpr (character_type<T>)
	{
		// a pointer: the elements before the first zero; what follows the terminator must not matter
		std::string in = s.substr(0, s.find('\0'));
		std::string want_parse = o.run(in, false), want_look = o.run(in, true);
		std::vector<T> z(v); z.push_back(T(0)); z.push_back(T('a')); z.push_back(T('b'));
		const T* ptr = z.data();
		const T* const cptr = ptr;
		HI_TRY("a pointer", z.data(), ptr);
		HI_TRY("a const pointer", z.data(), cptr);
		HI_TRY("a pointer rvalue", z.data(), static_cast<const T*>(z.data()));
		// storage that ends with the terminator
		std::unique_ptr<T[]> e(new T[in.size() + 1]);
		std::copy(z.begin(), z.begin() + in.size(), e.get());
		e[in.size()] = T(0);
		HI_TRY("a pointer to no more than its text", e.get(), static_cast<const T*>(e.get()));
	}
	arrays_of<P, T, 0>(cpp, o, s, v.data());
	arrays_of<P, T, 1>(cpp, o, s, v.data());
	arrays_of<P, T, 2>(cpp, o, s, v.data());
	arrays_of<P, T, 3>(cpp, o, s, v.data());
	arrays_of<P, T, 4>(cpp, o, s, v.data());
	arrays_of<P, T, 8>(cpp, o, s, v.data());
	arrays_of<P, T, 16>(cpp, o, s, v.data());
	arrays_of<P, T, 64>(cpp, o, s, v.data());
}

template <class T, class P>
void grammar(const char* tname, const char* cpp, const char* sexpr, int maxlen)
{
	Oracle o(sexpr);
	std::string name = std::string(tname) + ": " + cpp;
	std::vector<std::string> all{ "" };
	for (std::size_t b = 0, l = 0; (int)l < maxlen; ++l)
	{
		std::size_t e = all.size();
		for (; b < e; ++b) for (char c : { 'a', 'b', '\0' }) all.push_back(all[b] + c);
	}
	// longer ones: around the sizes at which a container changes how it keeps its elements
	for (int n : { 7, 8, 14, 15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1025, 4097, 5001, 66000 })
		for (int k = 0; k < 4; ++k)
		{
			if (n > HI_LONGEST) continue;
			std::string w;
			for (int i = 0; i < n; ++i) w += k == 0 ? 'a' : "ab"[i % 2];
			if (k == 2) w[n / 2] = '\0';
			if (k == 3) w[n - 1] = '\0';
			if (k && n > 66 && n != 256 && !(n == 5001 && k == 2)) continue;
			all.push_back(w);
		}
	for (auto& s : all) all_forms<P, T>(name.c_str(), o, s);
	h::sample(name + " on " + std::to_string(all.size()) + " element sequences, every representation");
}

} // namespace hi
