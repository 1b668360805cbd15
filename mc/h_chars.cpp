// C06: every element value of every element type against every set of a small universe (any / none,
// written in any order, with repetitions), all unions of two sets, all literals over a hostile alphabet.
#include <k3/tok3n.h>
#include "h.h"
#include <algorithm>
#include <array>
#include <bit>
#include <limits>
#include <span>

using namespace k3::tok3n;

template <class T> std::string tname()
{
	if constexpr (std::is_same_v<T, char>) return "char"; else if constexpr (std::is_same_v<T, signed char>) return "signed char";
	else if constexpr (std::is_same_v<T, unsigned char>) return "unsigned char"; else if constexpr (std::is_same_v<T, wchar_t>) return "wchar_t";
	else if constexpr (std::is_same_v<T, char8_t>) return "char8_t"; else if constexpr (std::is_same_v<T, char16_t>) return "char16_t";
	else if constexpr (std::is_same_v<T, char32_t>) return "char32_t"; else if constexpr (std::is_same_v<T, int>) return "int";
	else if constexpr (std::is_same_v<T, long long>) return "long long"; else return "enum";
}
enum class En : short { lo = -32768, neg = -1, zero = 0, one = 1, hi = 32767 };

template <class T> struct Uni;
template <class T> requires std::is_integral_v<T> struct Uni<T>
{
	static constexpr std::array<T, 4> a = { T(0), T('a'), std::numeric_limits<T>::max(), T(std::is_signed_v<T> ? std::numeric_limits<T>::min() : T(T(1) << (sizeof(T) * 8 - 1))) };
};
template <> struct Uni<En> { static constexpr std::array<En, 4> a = { En::zero, En::hi, En::neg, En::lo }; };

template <class T> std::vector<T> domain()
{
	std::vector<T> d;
	using I = std::conditional_t<std::is_enum_v<T>, short, T>;
	if constexpr (sizeof(T) <= 2)
	{
		for (long v = std::numeric_limits<I>::min(); v <= (long)std::numeric_limits<I>::max(); ++v) d.push_back((T)v);
	}
	else
	{
		std::set<long long> s;
		for (int b = 0; b < (int)sizeof(T) * 8; ++b)
			for (long long e : { -2, -1, 0, 1, 2 }) { s.insert((long long)(I)(unsigned long long)((1ull << b) + (unsigned long long)e)); s.insert((long long)(I)(0ull - (1ull << b) + (unsigned long long)e)); }
		for (T u : Uni<T>::a) for (long long e : { -2, -1, 0, 1, 2 }) s.insert((long long)(I)(unsigned long long)((unsigned long long)u + (unsigned long long)e));
		for (long long v = -300; v < 70000; ++v) s.insert((long long)(I)v);
		for (long long v : s) d.push_back((T)v);
	}
	return d;
}

// Order 0: as in the universe, 1: reversed, 2: every element twice, last first
template <class T, unsigned Mask, int Order> struct Sel
{
	static constexpr std::size_t k = std::popcount(Mask), n = Order == 2 ? 2 * k : k;
	static constexpr std::array<T, n> arr = []
	{
		std::array<T, n> r{};
		std::size_t j = 0;
		for (std::size_t i = 0; i < 4; ++i) if (Mask >> i & 1) r[j++] = Uni<T>::a[i];
		if (Order == 1) std::reverse(r.begin(), r.end());
		if (Order == 2) { for (std::size_t i = 0; i < k; ++i) r[k + i] = r[i]; std::reverse(r.begin(), r.begin() + k); }
		return r;
	}();
	static constexpr auto any_p = []<std::size_t... Is>(std::index_sequence<Is...>) { return any_of<arr[Is]...>; }(std::make_index_sequence<n>{});
	static constexpr auto none_p = []<std::size_t... Is>(std::index_sequence<Is...>) { return none_of<arr[Is]...>; }(std::make_index_sequence<n>{});
	static bool has(T v) { return std::find(arr.begin(), arr.end(), v) != arr.end(); }
};

template <class T, class P, class F> void check_class(const P& p, const std::string& what, const std::vector<T>& dom, F want)
{
	h::where(what);
	long bad = 0;
	for (T v : dom)
	{
		T buf[2] = { v, v };
		++h::states; ++h::runs; h::transitions += 2;
		auto r = p.parse(std::span<const T>(buf, 2));
		auto l = p.lookahead(std::span<const T>(buf, 1));
		bool w = want(v);
		bool good = r.has_value() == w && l.has_value() == w && r.remaining().size() == (w ? 1u : 2u) && l.remaining().size() == (w ? 0u : 1u) && r.remaining().data() == buf + (w ? 1 : 0);
		if (good && w) good = (*r).size() == 1 && (*r).data() == buf;
		if (!good && !bad++) h::viol(what, "element value " + std::to_string((long long)v), "membership", w ? "one element matched" : "no match", r.has_value() ? "match, remaining " + std::to_string(r.remaining().size()) : "no match");
	}
	T none[1] = { T{} };
	++h::runs;
	if (p.parse(std::span<const T>(none, 0)).has_value()) h::viol(what, "(empty)", "membership", "no match", "match");
	h::outcome(what);
}

template <class T, unsigned M, int O> void one_set(const std::vector<T>& dom)
{
	using S = Sel<T, M, O>;
	std::string w = tname<T>() + " set " + std::to_string(M) + " order " + std::to_string(O);
	check_class<T>(S::any_p, w + " any", dom, [](T v) { return S::has(v); });
	check_class<T>(S::none_p, w + " none", dom, [](T v) { return !S::has(v); });
	check_class<T>(!S::any_p, w + " !any", dom, [](T v) { return !S::has(v); });
	check_class<T>(!S::none_p, w + " !none", dom, [](T v) { return S::has(v); });
}
template <class T> void sets(const std::vector<T>& dom)
{
	[&]<std::size_t... Ms>(std::index_sequence<Ms...>) { (..., (one_set<T, Ms + 1, 0>(dom), one_set<T, Ms + 1, 1>(dom), one_set<T, Ms + 1, 2>(dom))); }(std::make_index_sequence<15>{});
}

template <class T, unsigned A, unsigned B> void one_union(const std::vector<T>& dom)
{
	using X = Sel<T, A, 0>; using Y = Sel<T, B, 1>;
	std::string w = tname<T>() + " sets " + std::to_string(A) + "," + std::to_string(B);
	check_class<T>(X::any_p | Y::any_p, w + " any|any", dom, [](T v) { return X::has(v) || Y::has(v); });
	check_class<T>(X::none_p | Y::none_p, w + " none|none", dom, [](T v) { return !X::has(v) || !Y::has(v); });
	check_class<T>(X::any_p | Y::none_p, w + " any|none", dom, [](T v) { return X::has(v) || !Y::has(v); });
	check_class<T>(X::none_p | Y::any_p, w + " none|any", dom, [](T v) { return !X::has(v) || Y::has(v); });
	check_class<T>(!(X::none_p | Y::any_p), w + " !(none|any)", dom, [](T v) { return X::has(v) && !Y::has(v); });
}
template <class T, unsigned From, unsigned To> void unions(const std::vector<T>& dom)
{
	[&]<std::size_t... Is>(std::index_sequence<Is...>) { (..., one_union<T, (From + Is) / 15 + 1, (From + Is) % 15 + 1>(dom)); }(std::make_index_sequence<To - From>{});
}

// ---- larger sets: runs of neighbours, arithmetic progressions and mixtures, in several orders --------------------
// Element i is base + stride * i (wrapping in the type); form 0: in order, 1: last first, 2: from the middle outwards,
// 3: evens then odds with the first repeated at the end
template <class T, long long Base, long long Stride, std::size_t K, int Form> struct Prog
{
	using I = typename std::conditional_t<std::is_enum_v<T>, std::underlying_type<T>, std::type_identity<T>>::type;
	static constexpr std::size_t n = Form == 3 ? K + 1 : K;
	static constexpr std::array<T, n> arr = []
	{
		std::array<T, n> r{}, q{};
		for (std::size_t i = 0; i < K; ++i) r[i] = T(I((unsigned long long)Base + (unsigned long long)Stride * i));
		if (Form == 0) return r;
		if (Form == 1) { for (std::size_t i = 0; i < K; ++i) q[i] = r[K - 1 - i]; return q; }
		if (Form == 2) { for (std::size_t i = 0; i < K; ++i) q[i] = r[i % 2 ? K / 2 - (i + 1) / 2 : K / 2 + i / 2]; return q; }
		std::size_t j = 0;
		for (std::size_t i = 0; i < K; i += 2) q[j++] = r[i];
		for (std::size_t i = 1; i < K; i += 2) q[j++] = r[i];
		q[j] = r[0];
		return q;
	}();
	static constexpr auto any_p = []<std::size_t... Is>(std::index_sequence<Is...>) { return any_of<arr[Is]...>; }(std::make_index_sequence<n>{});
	static constexpr auto none_p = []<std::size_t... Is>(std::index_sequence<Is...>) { return none_of<arr[Is]...>; }(std::make_index_sequence<n>{});
	static bool has(T v) { return std::find(arr.begin(), arr.end(), v) != arr.end(); }
	static std::string what() { return tname<T>() + " set " + std::to_string(Base) + "+" + std::to_string(Stride) + "*i, " + std::to_string(K) + " members, form " + std::to_string(Form); }
};
template <class T, long long B, long long S, std::size_t K, int F> void one_prog(const std::vector<T>& dom)
{
	using P = Prog<T, B, S, K, F>;
	check_class<T>(P::any_p, P::what() + " any", dom, [](T v) { return P::has(v); });
	check_class<T>(P::none_p, P::what() + " none", dom, [](T v) { return !P::has(v); });
	if constexpr (F == 2) check_class<T>(!P::any_p, P::what() + " !any", dom, [](T v) { return !P::has(v); });
}
// The domain of a wide type is completed with everything near the members
template <class T, class... Ps> std::vector<T> with_members(std::vector<T> dom)
{
	if constexpr (sizeof(T) > 2)
	{
		std::set<T> s(dom.begin(), dom.end());
		auto add = [&](auto& a) { for (T v : a) for (long long e : { -256, -128, -64, -33, -32, -31, -2, -1, 0, 1, 2, 31, 32, 33, 64, 128, 256, 65536 }) s.insert(T((unsigned long long)v + (unsigned long long)e)); };
		(..., add(Ps::arr));
		dom.assign(s.begin(), s.end());
	}
	return dom;
}
template <class T, long long B, int F> void progs_at(const std::vector<T>& dom)
{
	[&]<std::size_t... Ks>(std::index_sequence<Ks...>) { (..., one_prog<T, B, 1, Ks, F>(dom)); }(std::index_sequence<3, 5, 6, 8, 9, 12, 16, 17, 26, 33>{});
}
template <class T, long long B, std::size_t K, int F> void strides_at(const std::vector<T>& dom)
{
	[&]<long long... Ss>(std::integer_sequence<long long, Ss...>) { (..., one_prog<T, B, Ss, K, F>(dom)); }(std::integer_sequence<long long, 2, 3, 7, 16, 31, 32, 33, 63, 64, 65, 127, 128, 255>{});
}
// A run of neighbours with one or two of them missing, or with a last member some way off
template <class T, long long Base, std::size_t K, std::size_t H1, std::size_t H2, long long Off> struct Holed
{
	using I = typename std::conditional_t<std::is_enum_v<T>, std::underlying_type<T>, std::type_identity<T>>::type;
	static constexpr std::array<T, K> arr = []
	{
		std::array<T, K> r{};
		unsigned long long v = (unsigned long long)Base;
		for (std::size_t i = 0; i < K; ++i, ++v)
		{
			if (i == H1) ++v;
			if (i == H2) ++v;
			r[i] = T(I(v + (i + 1 == K ? (unsigned long long)Off : 0)));
		}
		return r;
	}();
	static constexpr auto any_p = []<std::size_t... Is>(std::index_sequence<Is...>) { return any_of<arr[Is]...>; }(std::make_index_sequence<K>{});
	static constexpr auto none_p = []<std::size_t... Is>(std::index_sequence<Is...>) { return none_of<arr[K - 1 - Is]...>; }(std::make_index_sequence<K>{});
	static bool has(T v) { return std::find(arr.begin(), arr.end(), v) != arr.end(); }
	static std::string what() { return tname<T>() + " set of " + std::to_string(K) + " from " + std::to_string(Base) + " with gaps before " + std::to_string(H1) + " and " + std::to_string(H2) + ", last +" + std::to_string(Off); }
};
template <class T, class P> void one_holed(const std::vector<T>& dom)
{
	check_class<T>(P::any_p, P::what() + " any", dom, [](T v) { return P::has(v); });
	check_class<T>(P::none_p, P::what() + " none", dom, [](T v) { return !P::has(v); });
}
template <class T, long long B, std::size_t K> void holes_of(const std::vector<T>& dom)
{
	one_holed<T, Holed<T, B, K, 1, 0, 0>>(dom);
	one_holed<T, Holed<T, B, K, K / 2, K, 0>>(dom);
	one_holed<T, Holed<T, B, K, K - 1, K, 0>>(dom);
	one_holed<T, Holed<T, B, K, K / 3, K - 2, 0>>(dom);
	one_holed<T, Holed<T, B, K, K, K, 2>>(dom);
	one_holed<T, Holed<T, B, K, K / 2, K / 2, 33>>(dom);
}
template <class T, long long B> void holes_from(const std::vector<T>& dom0)
{
	auto dom = with_members<T, Holed<T, B, 64, 32, 64, 33>>(dom0);
	[&]<std::size_t... Ks>(std::index_sequence<Ks...>) { (..., holes_of<T, B, Ks>(dom)); }(std::index_sequence<4, 6, 7, 9, 13, 16, 17, 25, 32, 64>{});
}
template <class T, long long... Bs> void holes(const std::vector<T>& dom) { (..., holes_from<T, Bs>(dom)); }
template <class T, class X, class Y> void prog_union(const std::vector<T>& dom0)
{
	auto dom = with_members<T, X, Y>(dom0);
	std::string w = X::what() + " with " + Y::what();
	check_class<T>(X::any_p | Y::any_p, w + " any|any", dom, [](T v) { return X::has(v) || Y::has(v); });
	check_class<T>(X::none_p | Y::none_p, w + " none|none", dom, [](T v) { return !X::has(v) || !Y::has(v); });
	check_class<T>(X::any_p | Y::none_p, w + " any|none", dom, [](T v) { return X::has(v) || !Y::has(v); });
	check_class<T>(X::none_p | Y::any_p, w + " none|any", dom, [](T v) { return !X::has(v) || Y::has(v); });
}
template <class T> void large_unions(const std::vector<T>& dom)
{
	constexpr long long top = (long long)std::numeric_limits<std::conditional_t<std::is_enum_v<T>, short, T>>::max();
	prog_union<T, Prog<T, 'a', 1, 6, 0>, Prog<T, 'a', 1, 6, 2>>(dom);       // the same set
	prog_union<T, Prog<T, 'a', 1, 6, 1>, Prog<T, 'd', 1, 9, 0>>(dom);       // overlapping
	prog_union<T, Prog<T, 'a', 1, 6, 2>, Prog<T, 'g', 1, 5, 3>>(dom);       // adjacent
	prog_union<T, Prog<T, 'a', 1, 26, 1>, Prog<T, 'e', 1, 5, 0>>(dom);      // nested
	prog_union<T, Prog<T, 'a', 1, 10, 3>, Prog<T, '0', 1, 10, 2>>(dom);     // apart
	prog_union<T, Prog<T, 'a', 2, 8, 0>, Prog<T, 'b', 2, 8, 1>>(dom);       // interleaved
	prog_union<T, Prog<T, -3, 1, 7, 2>, Prog<T, top - 4, 1, 5, 1>>(dom);    // the ends of the range
	prog_union<T, Prog<T, 'a', 32, 3, 2>, Prog<T, 'A', 64, 4, 3>>(dom);
}
template <class T> void larger(bool all_forms)
{
	auto dom = domain<T>();
	using I = std::conditional_t<std::is_enum_v<T>, short, T>;
	constexpr long long top = (long long)std::numeric_limits<I>::max(), bot = (long long)std::numeric_limits<I>::min();
	progs_at<T, 'a', 2>(dom); progs_at<T, '!', 3>(dom); progs_at<T, -3, 1>(dom); progs_at<T, top - 7, 0>(dom); progs_at<T, bot, 3>(dom); progs_at<T, 120, 2>(dom);
	strides_at<T, 'a', 5, 1>(dom); strides_at<T, -64, 9, 2>(dom); strides_at<T, bot, 3, 3>(dom);
	if (all_forms) { progs_at<T, 'a', 0>(dom); progs_at<T, '!', 1>(dom); progs_at<T, -3, 2>(dom); strides_at<T, 1, 7, 0>(dom); strides_at<T, -64, 33, 2>(dom); }
	if constexpr (sizeof(T) > 1)
	{
		// a few members with very large gaps: the span of the set is up to the whole range of the type
		constexpr long long g = sizeof(T) == 2 ? 8191 : sizeof(T) == 4 ? 536870911 : 1152921504606846975;
		auto wide = [&]<class... Ps>(std::type_identity<Ps>...)
		{
			auto d = with_members<T, Ps...>(dom);
			(..., (check_class<T>(Ps::any_p, Ps::what() + " any", d, [](T v) { return Ps::has(v); }), check_class<T>(Ps::none_p, Ps::what() + " none", d, [](T v) { return !Ps::has(v); })));
		};
		wide(std::type_identity<Prog<T, bot, g, 3, 1>>{}, std::type_identity<Prog<T, bot, g, 5, 2>>{}, std::type_identity<Prog<T, bot, g, 6, 0>>{}, std::type_identity<Prog<T, bot, g, 8, 2>>{}, std::type_identity<Prog<T, bot, g, 9, 3>>{},
			std::type_identity<Prog<T, 97, g, 4, 0>>{}, std::type_identity<Prog<T, 97, g, 7, 2>>{}, std::type_identity<Prog<T, 97, 256, 5, 2>>{}, std::type_identity<Prog<T, 97, 256, 12, 1>>{}, std::type_identity<Prog<T, 97, 4096, 9, 2>>{},
			std::type_identity<Prog<T, 97, g / 2, 9, 2>>{}, std::type_identity<Prog<T, bot, g / 4, 17, 1>>{});
	}
	large_unions<T>(dom);
	holes<T, 'a'>(dom);
	if (all_forms) holes<T, bot + 3, top - 20>(dom);
}

// ---- literals ------------------------------------------------------------------------------------
template <class T> inline constexpr std::array<T, 3> lit_alpha = { T(0), T('a'), T(std::is_signed_v<T> ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max()) };

template <class T, std::size_t N, std::size_t Code> struct Lit
{
	static constexpr std::array<T, N> arr = [] { std::array<T, N> r{}; std::size_t c = Code; for (auto& x : r) { x = lit_alpha<T>[c % 3]; c /= 3; } return r; }();
	static constexpr auto p = []<std::size_t... Is>(std::index_sequence<Is...>) { return all_of<arr[Is]...>; }(std::make_index_sequence<N>{});
	static constexpr auto split = []<std::size_t... Is>(std::index_sequence<Is...>)
	{
		if constexpr (N == 1) return all_of<arr[0]>;
		else return all_of<arr[0]> >> all_of<arr[Is + 1]...>;
	}(std::make_index_sequence<N - 1>{});
};
template <class T, class P> void check_lit(const P& p, const std::string& what, const T* lit, std::size_t n, const std::vector<std::vector<T>>& inputs)
{
	h::where(what);
	for (auto& in : inputs)
	{
		bool w = in.size() >= n && std::equal(lit, lit + n, in.begin());
		auto r = p.parse(std::span<const T>(in));
		auto l = p.lookahead(std::span<const T>(in));
		++h::states; ++h::runs; h::transitions += in.size() + 1;
		std::size_t rem = w ? in.size() - n : in.size();
		bool good = r.has_value() == w && l.has_value() == w && r.remaining().size() == rem && l.remaining().size() == rem;
		if (good && w) good = (*r).size() == n && (n == 0 || (*r).data() == in.data());
		if (!good)
		{
			std::string is; for (T x : in) is += std::to_string((long long)x) + " ";
			h::viol(what, is, "literal", w ? "match of " + std::to_string(n) : "no match", r.has_value() ? "match, remaining " + std::to_string(r.remaining().size()) : "no match");
			return;
		}
	}
}
template <class T, std::size_t N, std::size_t C> void one_lit(const std::vector<std::vector<T>>& inputs)
{
	using L = Lit<T, N, C>;
	std::string w = tname<T>() + " literal length " + std::to_string(N) + " code " + std::to_string(C);
	check_lit<T>(L::p, w, L::arr.data(), N, inputs);
	check_lit<T>(L::split, w + " (concatenated)", L::arr.data(), N, inputs);
	h::outcome(w);
}
template <class T, std::size_t N> void lits(const std::vector<std::vector<T>>& inputs)
{
	constexpr std::size_t count = N == 1 ? 3 : N == 2 ? 9 : N == 3 ? 27 : 81;
	[&]<std::size_t... Cs>(std::index_sequence<Cs...>) { (..., one_lit<T, N, Cs>(inputs)); }(std::make_index_sequence<count>{});
}
template <class T> std::vector<std::vector<T>> strings(int maxlen)
{
	std::vector<std::vector<T>> v{ {} };
	std::size_t b = 0;
	for (int l = 1; l <= maxlen; ++l)
	{
		std::size_t e = v.size();
		for (std::size_t i = b; i < e; ++i) for (T c : lit_alpha<T>) { auto s = v[i]; s.push_back(c); v.push_back(s); }
		b = e;
	}
	return v;
}
template <class T> void literals(int maxlen)
{
	auto in = strings<T>(maxlen);
	lits<T, 1>(in); lits<T, 2>(in); lits<T, 3>(in);
	if constexpr (std::is_same_v<T, char>) lits<T, 4>(in);
	// every single-element change of a longer literal, over the whole domain where it is small
	constexpr std::array<T, 9> lit = { T('t'), T(0), T('o'), T('k'), T('a'), T('a'), T(0), T('b'), T('z') };
	constexpr auto p = all_of<lit[0], lit[1], lit[2], lit[3], lit[4], lit[5], lit[6], lit[7], lit[8]>;
	std::vector<std::vector<T>> mut;
	auto dom = domain<T>();
	for (std::size_t i = 0; i < 9; ++i)
		for (std::size_t k = 0; k < dom.size(); k += (sizeof(T) == 1 ? 1 : 97)) { std::vector<T> s(lit.begin(), lit.end()); s[i] = dom[k]; s.push_back(T('q')); mut.push_back(s); }
	for (std::size_t i = 0; i <= 9; ++i) mut.emplace_back(lit.begin(), lit.begin() + i);
	check_lit<T>(p, tname<T>() + " long literal", lit.data(), 9, mut);
}

template <class T> void text_forms()   // all spellings of the same thing on char text
{
	auto dom = domain<T>();
	auto in = [](T v) { return v == 'x' || v == 'b' || v == 0; };
	check_class<T>("bx\0xb"_any, "\"bx\\0xb\"_any", dom, in);
	check_class<T>("bx\0xb"_any_of, "_any_of", dom, in);
	check_class<T>("bx\0xb"_none, "_none", dom, [&](T v) { return !in(v); });
	check_class<T>("bx\0xb"_none_of, "_none_of", dom, [&](T v) { return !in(v); });
	check_class<T>(any<"bx\0xb">, "any<>", dom, in);
	check_class<T>(none<"bx\0xb">, "none<>", dom, [&](T v) { return !in(v); });
	check_class<T>(any<'b'>, "any<'b'>", dom, [](T v) { return v == 'b'; });
	check_class<T>(none<'b'>, "none<'b'>", dom, [](T v) { return v != 'b'; });
	check_class<T>(any_of<'b'>, "any_of<'b'>", dom, [](T v) { return v == 'b'; });
	check_class<T>(all<'b'>, "all<'b'>", dom, [](T v) { return v == 'b'; });
	check_class<T>(all_of<'b'>, "all_of<'b'>", dom, [](T v) { return v == 'b'; });
	std::vector<std::vector<T>> ins = strings<T>(5);
	const T lit[] = { 'a', 0, 'a' };
	check_lit<T>("a\0a"_all, "_all", lit, 3, ins);
	check_lit<T>("a\0a"_all_of, "_all_of", lit, 3, ins);
	check_lit<T>(all<"a\0a">, "all<>", lit, 3, ins);
	check_lit<T>(""_all, "\"\"_all", lit, 0, ins);
	for (auto& s : ins)
	{
		bool w = s.size() >= 3 && std::equal(lit, lit + 3, s.begin());
		auto r = "a\0a"_ign.parse(std::span<const T>(s)); auto r2 = ign<"a\0a">.parse(std::span<const T>(s));
		++h::runs;
		if (r.has_value() != w || r2.has_value() != w || (w && r.remaining().size() != s.size() - 3)) h::viol("_ign", "", "literal", std::to_string(w), "different");
	}
}

// ---- input of another element type: == between the element of the grammar and that of the input decides -----------
template <class T, class U, class P, class F> void check_mixed(const P& p, const std::string& what, const std::vector<U>& dom, F want)
{
	check_class<U>(p, what + " on " + tname<U>(), dom, want);
}
template <class T, class U> void mixed()
{
	auto small = []
	{
		std::set<U> s;
		for (U x : domain<U>()) if ((long long)x > -400 && (long long)x < 1000) s.insert(x);
		for (int b = 0; b < (int)sizeof(U) * 8; ++b) for (T m : Uni<T>::a) for (long long e : { -1, 0, 1 }) { s.insert(U((unsigned long long)m + (1ull << b) + (unsigned long long)e)); s.insert(U((unsigned long long)m - (1ull << b) + (unsigned long long)e)); }
		return std::vector<U>(s.begin(), s.end());
	}();
	[&]<std::size_t... Ms>(std::index_sequence<Ms...>) { (..., [&] {
		using S = Sel<T, Ms + 1, 0>; using Y = Sel<T, (Ms * 7 + 3) % 15 + 1, 1>;
		std::string w = tname<T>() + " set " + std::to_string(Ms + 1);
		auto in = [](auto& a, U v) { for (T m : a) if (m == v) return true; return false; };
		check_mixed<T, U>(S::any_p, w + " any", small, [&](U v) { return in(S::arr, v); });
		check_mixed<T, U>(S::none_p, w + " none", small, [&](U v) { return !in(S::arr, v); });
		check_mixed<T, U>(!S::any_p, w + " !any", small, [&](U v) { return !in(S::arr, v); });
		check_mixed<T, U>(S::any_p | Y::any_p, w + " any|any", small, [&](U v) { return in(S::arr, v) || in(Y::arr, v); });
	}()); }(std::make_index_sequence<15>{});
	[&]<std::size_t... Ks>(std::index_sequence<Ks...>) { (..., [&] {
		using P = Prog<T, 'a', 1, Ks, 2>;
		auto in = [](U v) { for (T m : P::arr) if (m == v) return true; return false; };
		check_mixed<T, U>(P::any_p, P::what() + " any", small, in);
		check_mixed<T, U>(P::none_p, P::what() + " none", small, [&](U v) { return !in(v); });
	}()); }(std::index_sequence<5, 9, 17, 33>{});
	// literals of one and two elements: every element value at every place
	auto lit = [&]<std::size_t N>(const std::array<T, N>& a, auto p, auto j)
	{
		std::string w = tname<T>() + " literal of " + std::to_string(N) + " on " + tname<U>();
		h::where(w);
		std::vector<std::vector<U>> same{ {} };
		for (T m : a) for (auto& x : same) { U u = U(m); if (u == m) x.push_back(u); else x.push_back(U(1)); }
		for (std::size_t i = 0; i < N; ++i) for (U v : small)
		{
			std::vector<U> s = same[0]; s[i] = v; s.push_back(v);
			bool ok = true; for (std::size_t k = 0; k < N; ++k) ok = ok && a[k] == s[k];
			++h::states; ++h::runs; h::transitions += N;
			auto r = p.parse(std::span<const U>(s)); auto l = p.lookahead(std::span<const U>(s)); auto q = j.parse(std::span<const U>(s));
			if (r.has_value() != ok || l.has_value() != ok || q.has_value() != ok || (ok && r.remaining().size() != 1)) h::viol(w, "element " + std::to_string(i) + " is " + std::to_string((long long)v), "literal", ok ? "match" : "no match", r.has_value() ? "match" : "no match");
		}
	};
	constexpr std::array<T, 1> l1 = { Uni<T>::a[1] };
	constexpr std::array<T, 2> l2 = { Uni<T>::a[3], Uni<T>::a[2] };
	constexpr std::array<T, 4> l4 = { T('a'), Uni<T>::a[2], T(0), T('b') };
	lit(l1, all_of<l1[0]>, join(+all_of<l1[0]>)); lit(l2, all_of<l2[0], l2[1]>, join(exactly<1>(all_of<l2[0], l2[1]>))); lit(l4, all_of<l4[0], l4[1], l4[2], l4[3]>, join(all_of<l4[0], l4[1]> >> all_of<l4[2], l4[3]>));
}
template <class T> void everything(bool wide)
{
	auto dom = domain<T>();
	sets<T>(dom);
	if (wide) literals<T>(5);
}

int main(int argc, char** argv)
{
	h::start();
	(void)argc; (void)argv;
#if PART == 20
	larger<char>(true);
#elif PART == 21
	larger<wchar_t>(true);
#elif PART == 22
	larger<unsigned char>(true); larger<char16_t>(false);
#elif PART == 23
	larger<signed char>(true); larger<char8_t>(false);
#elif PART == 24
	larger<char32_t>(false);
#elif PART == 25
	larger<long long>(false);
#elif PART == 26
	larger<En>(false);
#elif PART == 27
	larger<int>(false);
#elif PART == 28
	larger<char16_t>(true);
#elif PART == 29
	larger<char8_t>(true);
#elif PART == 40
	mixed<char, int>(); mixed<char, unsigned char>(); mixed<char, signed char>(); mixed<char, wchar_t>(); mixed<char, char16_t>(); mixed<char, long long>();
#elif PART == 41
	mixed<signed char, char32_t>(); mixed<signed char, unsigned char>(); mixed<unsigned char, char>(); mixed<unsigned char, int>(); mixed<unsigned char, signed char>(); mixed<char8_t, char>(); mixed<char8_t, int>();
#elif PART == 42
	mixed<char16_t, char>(); mixed<char16_t, char32_t>(); mixed<char16_t, int>(); mixed<char32_t, char>(); mixed<char32_t, long long>(); mixed<char32_t, int>();
#elif PART == 43
	mixed<int, char>(); mixed<int, char32_t>(); mixed<int, long long>(); mixed<int, unsigned char>(); mixed<int, char8_t>();
#elif PART == 44
	mixed<wchar_t, char>(); mixed<wchar_t, char32_t>(); mixed<wchar_t, char16_t>(); mixed<wchar_t, signed char>();
#elif PART == 45
	mixed<long long, char>(); mixed<long long, int>(); mixed<long long, char32_t>(); mixed<long long, unsigned char>();
#elif PART == 0
	everything<char>(false); text_forms<char>();
#elif PART == 1
	literals<char>(6);
#elif PART == 2
	everything<signed char>(true); everything<unsigned char>(true);
#elif PART == 3
	everything<wchar_t>(true); everything<char8_t>(true);
#elif PART == 4
	everything<char16_t>(true); everything<char32_t>(true);
#elif PART == 5
	everything<int>(false); everything<long long>(true); sets<En>(domain<En>());
#elif PART == 6
	unions<char, 0, 112>(domain<char>());
#elif PART == 7
	unions<char, 112, 225>(domain<char>());
#elif PART == 8
	unions<wchar_t, 0, 225>(domain<wchar_t>());
#elif PART == 9
	unions<En, 0, 225>(domain<En>());
#elif PART == 10
	unions<unsigned char, 0, 225>(domain<unsigned char>());
#elif PART == 11
	unions<char16_t, 0, 225>(domain<char16_t>());
#endif
	h::sample("part " + std::to_string(PART) + ": element values, sets and literals as enumerated in h_chars.cpp");
	return h::finish();
}
