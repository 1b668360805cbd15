// Views: every pair of short element sequences, every representation of the other operand, every subview.
#include <k3/tok3n.h>
#include "h.h"
#include <array>
#include <cmath>
#include <deque>
#include <span>
using namespace k3::tok3n;

enum class En : int { z = 0 };
struct Tok { int v; constexpr explicit Tok(int x = 0) : v(x) {} friend constexpr auto operator<=>(const Tok&, const Tok&) = default; };
struct Oth { int v; constexpr explicit Oth(int x = 0) : v(x) {} friend constexpr auto operator<=>(const Oth&, const Oth&) = default; friend constexpr bool operator==(const Oth&, const Oth&) = default; friend constexpr bool operator==(const Tok& a, const Oth& b) { return a.v == b.v; } };

template <class T> using OutOf = typename std::remove_cvref_t<decltype(*std::declval<decltype(join(*any_of<T{}>).parse(std::declval<std::span<const T>>()))>())>;
template <class T> using InOf = std::remove_cvref_t<decltype(std::declval<decltype(join(*any_of<T{}>).parse(std::declval<std::span<const T>>()))>().remaining())>;

template <class T> static std::string txt(const T* p, std::size_t n)
{
	std::string o = "{";
	for (std::size_t i = 0; i < n; ++i) { long long v; if constexpr (requires { p[i].v; }) v = p[i].v; else if constexpr (std::is_floating_point_v<T>) { o += (i ? "," : "") + std::to_string(p[i]); continue; } else v = (long long)p[i]; o += (i ? "," : "") + std::to_string(v); }
	return o + "}";
}
template <class T> constexpr bool is_char = std::is_same_v<T, char> or std::is_same_v<T, wchar_t> or std::is_same_v<T, char8_t> or std::is_same_v<T, char16_t> or std::is_same_v<T, char32_t>;
static std::string nm;
static void want(bool w, bool got, const char* form, const std::string& a, const std::string& b) { ++h::runs; if (w != got) h::viol(nm, a + " and " + b, form, w ? "true" : "false", got ? "true" : "false"); }
// == and != in both orders, constant and not
#define BOTH(FORM, A, B, W) do { bool w_ = (W); auto& a_ = A; const auto& ca_ = A; auto&& b_ = B; const auto& cb_ = b_; \
	want(w_, a_ == b_, FORM " ==", sa, sb); want(w_, b_ == a_, FORM " == reversed", sa, sb); want(!w_, a_ != b_, FORM " !=", sa, sb); want(!w_, b_ != a_, FORM " != reversed", sa, sb); \
	want(w_, ca_ == cb_, FORM " const ==", sa, sb); want(w_, cb_ == ca_, FORM " const == reversed", sa, sb); want(!w_, ca_ != cb_, FORM " const !=", sa, sb); want(!w_, cb_ != ca_, FORM " const != reversed", sa, sb); } while (0)

template <class T> static std::vector<std::vector<T>> seqs(std::vector<T> al, int maxlen)
{
	std::vector<std::vector<T>> o{ {} };
	for (std::size_t b = 0, l = 0; (int)l < maxlen; ++l)
	{
		std::size_t e = o.size();
		for (; b < e; ++b) for (T c : al) { auto v = o[b]; v.push_back(c); o.push_back(v); }
	}
	return o;
}
template <class T, class U> static bool same(const std::vector<T>& x, const std::vector<U>& y)
{
	if (x.size() != y.size()) return false;
	for (std::size_t i = 0; i < x.size(); ++i) if (!(x[i] == y[i])) return false;
	return true;
}
// a copy that ends at an unreadable page
template <class T> static T* put(char* edge, const std::vector<T>& v)
{
	T* p = (T*)(edge - v.size() * sizeof(T));
	for (std::size_t i = 0; i < v.size(); ++i) new (p + i) T(v[i]);
	return p;
}
static char *e1, *e2;

template <class T, std::size_t N> static void arrays(const auto& O, const auto& I, const std::vector<T>& y, bool eq, const std::string& sa, const std::string& sb)
{
	if (y.size() != N) return;
	std::array<T, N> a{};
	for (std::size_t i = 0; i < N; ++i) a[i] = y[i];
	BOTH("array", O, a, eq);
	BOTH("remaining and array", I, a, eq);
}

template <class T> static void pairs(const char* name, std::vector<T> al, int maxlen)
{
	nm = std::string("views over ") + name;
	auto xs = seqs(al, maxlen);
	using O = OutOf<T>; using I = InOf<T>;
	for (auto& x : xs)
		for (auto& y : xs)
		{
			std::string sa = txt(x.data(), x.size()), sb = txt(y.data(), y.size());
			h::where(nm, sa + sb);
			++h::states; h::transitions += x.size() + y.size() + 1;
			bool eq = x == y;
			h::outcome(sa + (eq ? "=" : "!") + std::to_string(y.size()));
			T *px = put(e1, x), *py = put(e2, y);
			O ox(std::span<const T>(px, x.size())), oy(std::span<const T>(py, y.size()));
			I ix(std::span<const T>(px, x.size())), iy(std::span<const T>(py, y.size()));
			BOTH("two result views", ox, oy, eq);
			BOTH("result view and remaining", ox, iy, eq);
			BOTH("two remainings", ix, iy, eq);
			std::vector<T> v(y);
			BOTH("vector", ox, v, eq); BOTH("remaining and vector", ix, v, eq);
			std::span<const T> cs(py, y.size()); std::span<T> ms(py, y.size());
			BOTH("span of const", ox, cs, eq); BOTH("span", ox, ms, eq); BOTH("remaining and span", ix, cs, eq);
			arrays<T, 1>(ox, ix, y, eq, sa, sb); arrays<T, 2>(ox, ix, y, eq, sa, sb); arrays<T, 3>(ox, ix, y, eq, sa, sb);
			if constexpr (is_char<T>)
			{
				std::basic_string_view<T> sv(py, y.size()); std::basic_string<T> s(sv);
				BOTH("string view", ox, sv, eq); BOTH("string", ox, s, eq); BOTH("remaining and string", ix, s, eq); BOTH("remaining and string view", ix, sv, eq);
				// up to the first zero
				auto z = y; z.push_back(T{});
				T* pz = put(e2, z);
				const T* cz = pz;
				std::vector<T> head;
				for (T c : z) { if (c == T{}) break; head.push_back(c); }
				bool heq = x == head;
				BOTH("pointer", ox, cz, heq); BOTH("remaining and pointer", ix, cz, heq);
				T lit[8] = {};
				for (std::size_t i = 0; i < y.size(); ++i) lit[i] = y[i];
				const T (&cl)[8] = *(const T (*)[8])lit;
				BOTH("literal", ox, cl, heq);
				std::basic_string_view<T> back = ox; std::basic_string_view<T> backi = ix;
				if (back.data() != px || back.size() != x.size() || backi.data() != px || backi.size() != x.size()) h::viol(nm, sa, "conversion to a string view", "the same elements", "others");
			}
			// one buffer, overlapping views
			for (std::size_t i = 0; i <= x.size(); ++i)
				for (std::size_t n = 0; i + n <= x.size(); ++n)
				{
					std::vector<T> part(x.begin() + i, x.begin() + i + n);
					std::string sa = txt(part.data(), n), sb = txt(x.data(), x.size());
					O op(std::span<const T>(px + i, n));
					ox = O(std::span<const T>(px, x.size()));
					if (&y == &xs[0]) { BOTH("views of one buffer", op, ox, part == x); if ((op == op) != (part == part)) h::viol(nm, sa, "a view with itself", part == part ? "equal" : "unequal", part == part ? "unequal" : "equal"); }
				}
		}
	// one view: size, emptiness, iteration, front, prefixes and subviews, copies
	for (auto& x : xs)
	{
		T* px = put(e1, x);
		std::string sa = txt(x.data(), x.size());
		auto view = [&](const auto& v, const char* which) {
			h::where(nm, sa);
			++h::runs;
			auto bad = [&](const char* what) { h::viol(nm, sa, std::string(which) + ": " + what, "as the elements", "different"); };
			if (v.size() != x.size()) bad("size");
			if (v.empty() != x.empty()) bad("empty");
			if (v.data() != px && !x.empty()) bad("data");
			if ((std::size_t)(v.end() - v.begin()) != x.size()) bad("begin and end");
			std::size_t k = 0;
			for (const auto& e : v) { if (k >= x.size() || &e != px + k) { bad("iteration"); break; } ++k; }
			if (k != x.size()) bad("iteration");
			if (!x.empty() && &v.front() != px) bad("front");
			for (std::size_t i = 0; i <= x.size(); ++i)
			{
				auto f = v.first(i);
				if (f.size() != i || (i && f.data() != px)) bad("first");
				auto s = v.subspan(i);
				if (s.size() != x.size() - i || (x.size() - i && s.data() != px + i)) bad("subspan");
				for (std::size_t n = 0; i + n <= x.size(); ++n)
				{
					auto t = v.subspan(i, n);
					++h::transitions;
					if (t.size() != n || (n && t.data() != px + i)) bad("subspan with a count");
				}
			}
			auto c = v;
			std::remove_cvref_t<decltype(v)> d, m(std::move(c));
			if (d.size() != 0 || !d.empty()) bad("default view");
			d = m;
			if (d.size() != x.size() || (x.size() && d.data() != px) || (d == v) != (x == x) || (d != v) == (x == x)) bad("copy");
			std::remove_cvref_t<decltype(v)> none;
			if ((none == v) != x.empty() || (v == none) != x.empty()) bad("comparison with a default view");
			if (std::size(v) != x.size() || std::ranges::size(v) != x.size()) bad("ranges");
		};
		view(OutOf<T>(std::span<const T>(px, x.size())), "result view");
		view(InOf<T>(std::span<const T>(px, x.size())), "remaining");
		// as they come out of a parser
		constexpr T none{ };
		auto r = join(*none_of<T(99)>).parse(std::span<const T>(px, x.size()));
		if (!r) h::viol(nm, sa, "parse", "match", "no match");
		else { view(*r, "parsed view"); if (r.remaining().size() != 0) h::viol(nm, sa, "remaining", "0", "more"); }
	}
	h::sample(nm + ": " + std::to_string(xs.size()) + " sequences, all pairs");
}

// longer views: every length, every place of one different element, every prefix; the other view at several alignments
template <class T> static void longer(const char* name, std::vector<T> al)
{
	nm = std::string("views over ") + name;
	std::vector<std::size_t> lens;
	for (std::size_t n = 1; n <= 40; ++n) lens.push_back(n);
	for (std::size_t n : { 63, 64, 65, 127, 128, 129, 255, 256, 257 }) lens.push_back(n);
	for (std::size_t n : lens)
	{
		std::vector<T> x;
		for (std::size_t i = 0; i < n; ++i) x.push_back(al[(i * i + i / 3) % al.size()]);
		T* px = put(e1, x);
		OutOf<T> ox(std::span<const T>(px, n)); InOf<T> ix(std::span<const T>(px, n));
		for (std::size_t at = 0; at <= n; ++at)
			for (std::size_t shift : { 0, 1, 3 })
			{
				if (n > 40 && (at % 5 || shift == 1) && at + 9 < n && at > 8) continue;
				std::vector<T> y = x;
				if (at < n) y[at] = y[at] == al[0] ? al[1] : al[0];
				std::string sa = txt(x.data(), n), sb = "the same" + (at < n ? " but at " + std::to_string(at) : std::string()) + ", " + std::to_string(shift) + " elements before the end of a page";
				h::where(nm, sa + sb);
				++h::states; h::transitions += 2 * n;
				T* py = put(e2 - shift * sizeof(T), y);
				OutOf<T> oy(std::span<const T>(py, n)); InOf<T> iy(std::span<const T>(py, n));
				std::span<const T> cs(py, n);
				BOTH("two result views", ox, oy, at == n); BOTH("result view and remaining", ox, iy, at == n); BOTH("remaining and span", ix, cs, at == n); BOTH("vector", ox, y, at == n);
				if constexpr (is_char<T>)
				{
					std::basic_string_view<T> sv(py, n); std::basic_string<T> s(sv);
					BOTH("string view", ox, sv, at == n); BOTH("string", ix, s, at == n);
					const T* cz = s.c_str();
					BOTH("pointer", ox, cz, at == n);
				}
				if (at) { OutOf<T> part(std::span<const T>(py, at)); BOTH("a prefix", ox, part, at == n); OutOf<T> rest(std::span<const T>(py + (n - at), at)); BOTH("a suffix", rest, rest, true); }
				h::outcome(std::to_string(n) + (at == n ? "=" : "!"));
			}
	}
	h::sample(nm + ": lengths up to 257, one element different at every place");
}

// views over different element types
template <class T, class U> static void mixed(const char* name, std::vector<T> al, std::vector<U> bl)
{
	nm = std::string("views over ") + name;
	auto xs = seqs(al, 3); auto ys = seqs(bl, 3);
	for (auto& x : xs)
		for (auto& y : ys)
		{
			std::string sa = txt(x.data(), x.size()), sb = txt(y.data(), y.size());
			h::where(nm, sa + sb);
			++h::states; h::transitions += x.size() + y.size() + 1;
			T* px = put(e1, x); U* py = put(e2, y);
			OutOf<T> ox(std::span<const T>(px, x.size())); OutOf<U> oy(std::span<const U>(py, y.size()));
			InOf<T> ix(std::span<const T>(px, x.size())); InOf<U> iy(std::span<const U>(py, y.size()));
			bool eq = same(x, y);
			BOTH("result views", ox, oy, eq); BOTH("result view and remaining", ox, iy, eq); BOTH("remainings", ix, iy, eq);
		}
	for (std::size_t n = 4; n <= 257; n += n < 40 ? 1 : 31)
		for (std::size_t at = 0; at < n; ++at)
			for (auto& a : al)
				for (auto& b : bl)
				{
					if (n > 24 && at % 7 && at + 3 < n) continue;
					std::vector<T> x(n, al[0]); std::vector<U> y(n, bl[0]);
					x[at] = a; y[at] = b;
					std::string sa = std::to_string(n) + " elements, " + txt(&a, 1), sb = txt(&b, 1) + " at " + std::to_string(at);
					h::where(nm, sa + sb);
					++h::states; h::transitions += 2 * n;
					T* px = put(e1, x); U* py = put(e2, y);
					OutOf<T> ox(std::span<const T>(px, n)); OutOf<U> oy(std::span<const U>(py, n));
					InOf<T> ix(std::span<const T>(px, n)); InOf<U> iy(std::span<const U>(py, n));
					bool eq = same(x, y);
					BOTH("result views", ox, oy, eq); BOTH("result view and remaining", ox, iy, eq); BOTH("remainings", ix, iy, eq);
				}
}

static_assert([] { auto a = OutOf<char>(std::string_view("ab")); auto b = OutOf<int>(std::span<const int>()); return a == "ab" and "ab" == a and a != "abc" and a != "a" and a == std::string_view("ab") and a != b; }());

int main(int argc, char** argv)
{
	h::start();
	int L = (int)h::arg(argc, argv, "--maxlen", 3);
	e1 = h::guard_edge(4096); e2 = h::guard_edge(4096);
#if PART == 0
	pairs<char>("char", { 'a', 'b', '\0' }, L); longer<char>("char", { 'a', 'b' }); pairs<char>("char (high)", { (char)255, (char)128, 0 }, L);
#elif PART == 1
	pairs<wchar_t>("wchar_t", { L'a', (wchar_t)0x161, 0 }, L); longer<wchar_t>("wchar_t", { L'a', (wchar_t)0x161 }); pairs<char8_t>("char8_t", { u8'a', (char8_t)200, 0 }, L); longer<char8_t>("char8_t", { u8'a', (char8_t)200 });
#elif PART == 2
	pairs<char16_t>("char16_t", { u'a', (char16_t)0x161, 0 }, L); longer<char16_t>("char16_t", { u'a', (char16_t)0x161 }); pairs<char32_t>("char32_t", { U'a', (char32_t)0x10061, 0 }, L); longer<char32_t>("char32_t", { U'a', (char32_t)0x10061 });
#elif PART == 3
	pairs<signed char>("signed char", { 97, -1, 0 }, L); longer<signed char>("signed char", { 97, -1 }); pairs<unsigned char>("unsigned char", { 97, 255, 0 }, L); longer<unsigned char>("unsigned char", { 97, 255 });
#elif PART == 4
	pairs<int>("int", { 1, -256, 0 }, L); longer<int>("int", { 1, -256 }); pairs<unsigned short>("unsigned short", { 1, 256, 0 }, L); longer<unsigned short>("unsigned short", { 1, 256 }); pairs<long long>("long long", { 1, 1LL << 32, 0 }, L); longer<long long>("long long", { 1, 1LL << 32 });
#elif PART == 5
	pairs<En>("enum", { En(1), En(256), En(0) }, L); longer<En>("enum", { En(1), En(256) }); pairs<Tok>("a class type", { Tok(1), Tok(256), Tok(0) }, L); longer<Tok>("a class type", { Tok(1), Tok(256) });
#elif PART == 8
	pairs<double>("double", { 1.5, -0.0, 0.0, NAN }, L); pairs<float>("float", { 1.5f, 0.0f, NAN }, L); longer<double>("double", { 1.5, 1.25 }); longer<float>("float", { 1.5f, 1.25f });
	mixed<float, double>("float and double", { 1.5f, 0.1f, -0.0f, NAN }, { 1.5, 0.1, 0.0, NAN }); mixed<int, double>("int and double", { 1, 0, -1 }, { 1.0, -0.0, 0.5, -1.0 });
#elif PART == 6
	mixed<char, int>("char and int", { 'a', (char)-1, 0 }, { 97, -1, 255, 0, 353 }); mixed<unsigned char, long long>("unsigned char and long long", { 97, 255, 0 }, { 97, 255, -1, 353, 0 });
	mixed<char, wchar_t>("char and wchar_t", { 'a', 'b', 0 }, { L'a', (wchar_t)0x161, 0 }); mixed<int, long long>("int and long long", { 1, -1, 0 }, { 1, (1LL << 32) + 1, -1, 0 });
#else
	mixed<Tok, Oth>("two class types", { Tok(1), Tok(2), Tok(0) }, { Oth(1), Oth(3), Oth(0) }); mixed<unsigned, int>("unsigned and int", { 1u, 4294967295u, 0u }, { 1, -1, 0 }); mixed<short, unsigned short>("short and unsigned short", { 1, -1, 0 }, { 1, 65535, 0 });
	mixed<char16_t, char32_t>("char16_t and char32_t", { u'a', u'b', 0 }, { U'a', (char32_t)0x10061, 0 });
#endif
	return h::finish();
}
