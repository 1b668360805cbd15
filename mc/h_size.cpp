// Sizes: every length and mismatch position up to a bound and around the places where counters of a
// given width wrap; repetition counts, literals, sets, alternatives, names and nesting of many sizes.
#include <k3/tok3n.h>
#include "h.h"
#include <array>
#include <memory>
using namespace k3::tok3n;
using ull = unsigned long long;

#ifndef ELEM
#define ELEM char
#endif
using T = ELEM;

// ---------------------------------------------------------------- values, as progressions of views
struct Run { ull first, size, step, count; bool operator==(const Run&) const = default; };
struct Val { std::vector<Run> runs; std::vector<ull> nums; bool operator==(const Val&) const = default; };
static void add(Val& v, ull off, ull size)
{
	if (!v.runs.empty())
	{
		Run& r = v.runs.back();
		if (r.size == size && r.count == 1) { r.step = off - r.first; r.count = 2; return; }
		if (r.size == size && off == r.first + r.step * r.count) { ++r.count; return; }
	}
	v.runs.push_back({ off, size, 0, 1 });
}
static const T* g_base;
static ull at(const T* p) { return (ull)(p - g_base); }
template <class V> void flat(Val& o, const V& v)
{
	if constexpr (requires { v.data(); v.subspan(0, 0); }) add(o, at(v.data()), v.size());
	else if constexpr (std::is_integral_v<V>) o.nums.push_back((ull)v);
	else if constexpr (requires { v.has_value(); }) { if (v.has_value()) flat(o, *v); else o.nums.push_back(~0ull); }
	else if constexpr (requires { v.index(); }) { o.nums.push_back(v.index()); std::visit([&](const auto& x) { flat(o, x); }, v); }
	else if constexpr (requires { v.begin(); }) { for (const auto& x : v) flat(o, x); }
	else std::apply([&](const auto&... x) { (flat(o, x), ...); }, v);
}
static std::string str(const Val& v)
{
	std::string o;
	char b[120];
	for (auto& r : v.runs) { snprintf(b, sizeof b, "[%llu views of %llu at %llu step %llu] ", r.count, r.size, r.first, r.step); o += b; if (o.size() > 600) { o += "..."; break; } }
	for (auto n : v.nums) { o += std::to_string(n) + " "; if (o.size() > 900) { o += "..."; break; } }
	return o;
}
static Val views(std::initializer_list<Run> rs) { Val v; for (auto& r : rs) if (r.count) { Run q = r; if (q.count == 1) q.step = 0; v.runs.push_back(q); } return v; }

struct Want { bool ok; ull end; Val val; };
static Want no() { return { false, 0, {} }; }

static void judge(const char* name, const std::string& in, const char* how, bool ok, ull end, ull rest, ull n, const Val* val, const Want& w)
{
	++h::runs;
	if (w.ok != ok) { h::viol(name, in, how, w.ok ? "match" : "no match", ok ? "match" : "no match"); return; }
	ull e = ok ? w.end : 0;
	if (end != e || rest != n - e) h::viol(name, in, std::string(how) + ": consumed and left", std::to_string(e) + " and " + std::to_string(n - e), std::to_string(end) + " and " + std::to_string(rest));
	if (ok && val && !(*val == w.val)) h::viol(name, in, std::string(how) + ": value", str(w.val), str(*val));
}
template <class P> void probe(const char* name, const std::string& in, const T* p, ull n, const Want& w, bool look = true)
{
	h::where(name, in);
	++h::states; h::transitions += w.ok ? w.end + 1 : 1;
	h::outcome(std::string(name) + (w.ok ? std::to_string(w.end) : "-"));
	g_base = p;
	std::span<const T> s(p, n);
	{
		auto r = P::parse(s);
		Val v;
		if constexpr (not std::is_void_v<typename decltype(r)::value_type>) { if (r.has_value()) flat(v, *r); }
		judge(name, in, "parse", r.has_value(), at(r.remaining().data()), r.remaining().size(), n, std::is_void_v<typename decltype(r)::value_type> ? nullptr : &v, w);
	}
	if (look) { auto r = P::lookahead(s); judge(name, in, "lookahead", r.has_value(), at(r.remaining().data()), r.remaining().size(), n, nullptr, w); }
}

// ---------------------------------------------------------------- grammars over zeros with one other element at k
constexpr auto A = any_of<T(0)>;
constexpr auto Z3 = all_of<T(0), T(0), T(0)>;
constexpr auto B = any_of<T(1)>;
constexpr auto N1 = none_of<T(1)>;
struct SizeOf { template <class V> constexpr ull operator()(V v) const { return v.size(); } };
struct OffOf { template <class V> ull operator()(V v) const { return at(v.data()); } };
struct Yes { template <class V> constexpr bool operator()(const V&) const { return true; } };
struct Deeper { template <class X, class Y> constexpr ull operator()(X x, Y y) const { return x.size() + y.size(); } };

// k zeros, then (if k < n) a one, then zeros up to n
#define G(NAME, EXPR, ...) struct NAME { static constexpr const char* label = #EXPR; using P = std::remove_cvref_t<decltype(EXPR)>; static Want want([[maybe_unused]] ull k, [[maybe_unused]] ull n) __VA_ARGS__ };
G(g1, join(*A), { return { true, k, views({ { 0, k, 0, 1 } }) }; })
G(g2, join(+A), { if (!k) return no(); return { true, k, views({ { 0, k, 0, 1 } }) }; })
G(g3, join(*Z3), { return { true, k / 3 * 3, views({ { 0, k / 3 * 3, 0, 1 } }) }; })
G(g4, join(+Z3), { if (k < 3) return no(); return { true, k / 3 * 3, views({ { 0, k / 3 * 3, 0, 1 } }) }; })
G(g5, join(*N1), { return { true, k, views({ { 0, k, 0, 1 } }) }; })
G(g6, join(+N1), { if (!k) return no(); return { true, k, views({ { 0, k, 0, 1 } }) }; })
G(g7, ignore(*A), { return { true, k, {} }; })
G(g8, *ignore(Z3), { return { true, k / 3 * 3, {} }; })
G(g9, +ignore(A), { if (!k) return no(); return { true, k, {} }; })
G(g10, *A, { return { true, k, views({ { 0, 1, 1, k } }) }; })
G(g11, +N1, { if (!k) return no(); return { true, k, views({ { 0, 1, 1, k } }) }; })
G(g12, *Z3, { return { true, k / 3 * 3, views({ { 0, 3, 3, k / 3 } }) }; })
G(g13, (join(*A) >> B), { if (k == n) return no(); return { true, k + 1, views({ { 0, k, k == 1 ? 1 : 0, k == 1 ? 2u : 1u }, { k, 1, 0, k != 1 } }) }; })
G(g14, (join(*A) >> ignore(B) >> join(*A)), { if (k == n) return no(); Val v; add(v, 0, k); add(v, k + 1, n - k - 1); return { true, n, v }; })
G(g15, join(join(*A) >> B >> join(*A)), { if (k == n) return no(); return { true, n, views({ { 0, n, 0, 1 } }) }; })
G(g16, join(*A >> B >> *A), { if (k == n) return no(); return { true, n, views({ { 0, n, 0, 1 } }) }; })
G(g17, (delimit(A, ignore(A))), { if (!k) return no(); return { true, (k + 1) / 2 * 2 - 1, views({ { 0, 1, 2, (k + 1) / 2 } }) }; })
G(g18, (delimit(ignore(A), ignore(A))), { if (!k) return no(); return { true, (k + 1) / 2 * 2 - 1, {} }; })
G(g19, (delimit(ignore(A), A)), { if (!k) return no(); return { true, (k + 1) / 2 * 2 - 1, views({ { 1, 1, 2, (k + 1) / 2 - 1 } }) }; })
G(g20, (delimit_keep(A, A)), { if (!k) return no(); Val v; ull e = (k + 1) / 2; for (ull i = 0; i < e; ++i) add(v, 2 * i, 1); for (ull i = 0; i + 1 < e; ++i) add(v, 2 * i + 1, 1); return { true, 2 * e - 1, v }; })
G(g21, complete(join(*A)), { if (k < n) return no(); return { true, n, views({ { 0, n, 0, 1 } }) }; })
G(g22, (map<SizeOf{}>(join(*A))), { Val v; v.nums = { k }; return { true, k, v }; })
G(g23, (filter<Yes{}>(join(+A))), { if (!k) return no(); return { true, k, views({ { 0, k, 0, 1 } }) }; })
G(g24, ~join(+A), { if (!k) { Val v; v.nums = { ~0ull }; return { true, 0, v }; } return { true, k, views({ { 0, k, 0, 1 } }) }; })
G(g25, *(Z3 | A), { Val v; for (ull i = 0; i < k / 3; ++i) add(v, 3 * i, 3); for (ull i = 0; i < k % 3; ++i) add(v, k / 3 * 3 + i, 1); return { true, k, v }; })
G(g26, join(*(Z3 | A)), { return { true, k, views({ { 0, k, 0, 1 } }) }; })
G(g27, ignore(*(Z3 | B)), { return { true, k % 3 || k == n ? k / 3 * 3 : k + 1 + (n - k - 1) / 3 * 3, {} }; })
G(g28, (*map<OffOf{}>(A)), { Val v; for (ull i = 0; i < k; ++i) v.nums.push_back(i); return { true, k, v }; })
G(g29, (join(ignore(*A) >> *N1)), { return { true, k, views({ { k, 0, 0, 1 } }) }; })
G(g30, (apply<Deeper{}>(join(*A) >> join(*B))), { Val v; v.nums = { k + (k < n) }; return { true, k + (k < n), v }; })
G(g31, (join(*A) | join(+B)), { return { true, k, views({ { 0, k, 0, 1 } }) }; })
G(g32, ((join(+A) >> B >> B) | join(*A)), { Val v; v.nums = { 1 }; add(v, 0, k); return { true, k, v }; })
G(g33, (*(join(+A) >> ignore(B))), { if (!k || k == n) return { true, 0, {} }; return { true, k + 1, views({ { 0, k, 0, 1 } }) }; })
G(g34, (k3::tok3n::name<"long">(join(+A))), { if (!k) return no(); return { true, k, views({ { 0, k, 0, 1 } }) }; })
// (lookahead of a join does not see the gap: no value is made)
G(g36, (join(exactly<2>(A) >> ignore(*A) >> B)), { if (k != 2 || n == 2) return no(); return { true, 3, views({ { 0, 3, 0, 1 } }) }; }) // pieces that do not touch
G(g37, (join(exactly<2>(A) >> ignore(*A) >> ~B)), { if (k < 2 || (k > 2 && k < n)) return no(); ull l = k == 2 && n > 2 ? 3 : 2; return { true, k + (k < n), views({ { 0, l, 0, 1 } }) }; })
// G(g35, (constant<integral_constant<5>>(join(+A))), { if (!k) return no(); Val v; v.nums = { 5 }; return { true, k, v }; })
#define SMALL(X) X(g1) X(g2) X(g3) X(g4) X(g5) X(g6) X(g7) X(g8) X(g9) X(g10) X(g11) X(g12) X(g13) X(g14) X(g15) X(g16) X(g17) X(g18) X(g19) X(g20) X(g21) X(g22) X(g23) X(g24) X(g25) X(g26) X(g27) X(g28) X(g29) X(g30) X(g31) X(g32) X(g33) X(g34) X(g36) X(g37)
#define HUGE_(X) X(g1) X(g2) X(g3) X(g4) X(g5) X(g6) X(g7) X(g8) X(g9) X(g13) X(g14) X(g15) X(g18) X(g21) X(g22) X(g23) X(g24) X(g27) X(g29) X(g30) X(g32) X(g34) X(g36) X(g37)

// ---------------------------------------------------------------- repetition counts
template <ull N> struct e1 { static constexpr const char* label = "exactly<N>(element)"; using P = std::remove_cvref_t<decltype(exactly<N>(A))>; static Want want(ull k, ull) { if (k < N) return no(); return { true, N, views({ { 0, 1, 1, N } }) }; } };
template <ull N> struct e2 { static constexpr const char* label = "join(exactly<N>(element))"; using P = std::remove_cvref_t<decltype(join(exactly<N>(A)))>; static Want want(ull k, ull) { if (k < N) return no(); return { true, N, views({ { 0, N, 0, 1 } }) }; } };
template <ull N> struct e3 { static constexpr const char* label = "exactly<N>(ignore(literal))"; using P = std::remove_cvref_t<decltype(exactly<N>(ignore(Z3)))>; static Want want(ull k, ull) { if (k < 3 * N) return no(); return { true, 3 * N, {} }; } };
template <ull N> struct e4 { static constexpr const char* label = "join(exactly<N>(literal))"; using P = std::remove_cvref_t<decltype(join(exactly<N>(Z3)))>; static Want want(ull k, ull) { if (k < 3 * N) return no(); return { true, 3 * N, views({ { 0, 3 * N, 0, 1 } }) }; } };
template <ull N> struct e5 { static constexpr const char* label = "ignore(exactly<N>(element))"; using P = std::remove_cvref_t<decltype(ignore(exactly<N>(A)))>; static Want want(ull k, ull) { if (k < N) return no(); return { true, N, {} }; } };
template <ull N> struct e6 { static constexpr const char* label = "join(exactly<N>(choice))"; using P = std::remove_cvref_t<decltype(join(exactly<N>(all_of<T(0), T(0)> | B)))>;
	static Want want(ull k, ull n) { ull p = 0, i = 0; while (i < N) { if (p + 1 < n && p + 1 < k && p < k) p += 2; else if (p < n && p == k) p += 1; else if (p > k && p + 1 < n) p += 2; else break; ++i; } if (i < N) return no(); return { true, p, views({ { 0, p, 0, 1 } }) }; } };

static T* zeros(ull n)
{
	T* p = (T*)mmap(nullptr, n * sizeof(T) + 4096, n > (1ull << 28) ? PROT_READ : PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
	return p;
}
static T* g_end; // one past a zero region whose end is unreadable
template <class S> void single(ull n, ull k, bool look = true)
{
	T* p = g_end - n;
	if (k < n) { mprotect((char*)((std::uintptr_t)(p + k) & ~4095ull), 4096, PROT_READ | PROT_WRITE); p[k] = T(1); }
	probe<typename S::P>(S::label, "length " + std::to_string(n) + (k < n ? ", mismatch at " + std::to_string(k) : ""), p, n, S::want(k, n), look && !std::is_same_v<S, g36> && !std::is_same_v<S, g37>);
	if (k < n) p[k] = T(0);
}
static ull L0 = 300;
static bool thorough = false;
template <class S> void small()
{
	for (ull n = 0; n <= L0; ++n) for (ull k = 0; k <= n; ++k) single<S>(n, k);
}
static std::vector<ull> around(std::initializer_list<ull> c, ull d) { std::vector<ull> o; for (ull x : c) for (ull y = x - d; y <= x + d; ++y) o.push_back(y); return o; }
template <class S> void medium()
{
	std::vector<ull> ls = thorough ? around({ 512, 1024, 4096, 32768, 65536, 131072 }, 3) : around({ 512, 1024, 32768, 65536 }, 2);
	for (ull n : ls) { single<S>(n, n); for (ull k : ls) if (k < n) single<S>(n, k); }
	for (ull n : { (1ull << 17) + 1, (1ull << 20) + 1, (1ull << 24) + 1 }) { if (n > (1ull << 22) && !thorough) break; single<S>(n, n); single<S>(n, n - 1); single<S>(n, n - 2); }
}
template <template <ull> class E, ull... N> void counts()
{
	([&] {
		std::vector<ull> ls;
		for (ull m : { N, 2 * N, 3 * N }) for (ull d = 0; d < 5; ++d) if (m + 2 >= d) ls.push_back(m + 2 - d);
		for (ull n : ls) { single<E<N>>(n, n); for (ull k : ls) if (k < n) single<E<N>>(n, k); if (n) single<E<N>>(n, 0); }
	}(), ...);
}

// ---------------------------------------------------------------- long literals, sets, names
template <std::size_t N, int seed> constexpr detail::static_array<T, N> pattern()
{
	detail::static_array<T, N> a{};
	for (std::size_t i = 0; i < N; ++i) a.data[i] = T(1 + (i * 7 + i / 251 + seed) % 120);
	return a;
}
template <std::size_t N> static void literal()
{
	static constexpr auto lit = pattern<N, 0>();
	std::string name = "literal of " + std::to_string(N);
	using P = std::remove_cvref_t<decltype(all<lit>)>;
	std::vector<T> v(lit.data.begin(), lit.data.end());
	auto put = [&](ull n) { T* p = g_end - n; for (ull i = 0; i < n; ++i) p[i] = i < N ? v[i] : T(3); return p; };
	auto one = [&](const T* p, ull n, bool ok, const char* what, ull i) {
		std::string in = std::to_string(n) + " elements, " + what + " " + std::to_string(i);
		Want w{ ok, N, views({ { 0, N, 0, 1 } }) }, wi{ ok, N, {} };
		probe<P>(name.c_str(), in, p, n, w);
		probe<std::remove_cvref_t<decltype(ign<lit>)>>(("ignored " + name).c_str(), in, p, n, wi);
		probe<std::remove_cvref_t<decltype(join(P{}))>>(("joined " + name).c_str(), in, p, n, w);
		probe<std::remove_cvref_t<decltype(join(exactly<1>(P{})))>>(("joined repeated " + name).c_str(), in, p, n, w);
	};
	std::vector<ull> pos;
	for (ull i = 0; i < N; ++i) if (N <= 1100 || i < 70 || i + 70 > N || (i & 255) == 0 || (i & 255) == 255 || (i & 0x7fff) < 3) pos.push_back(i);
	for (ull extra : { 0, 1, 7 })
	{
		one(put(N + extra), N + extra, true, "as is", 0);
		for (ull i : pos) { T* p = put(N + extra); p[i] = T(p[i] + 1); one(p, N + extra, false, "changed at", i); }
	}
	for (ull i : pos) one(put(i), i, false, "cut at", i);
	{
		// twice in a row
		T* p = g_end - 2 * N; for (ull i = 0; i < 2 * N; ++i) p[i] = v[i % N];
		probe<std::remove_cvref_t<decltype(join(*P{}))>>(("many of " + name).c_str(), "twice", p, 2 * N, { true, 2 * N, views({ { 0, 2 * N, 0, 1 } }) });
		probe<std::remove_cvref_t<decltype(*P{})>>(("all of " + name).c_str(), "twice", p, 2 * N, { true, 2 * N, views({ { 0, N, N, 2 } }) });
		probe<std::remove_cvref_t<decltype(P{} >> P{})>>(("two of " + name).c_str(), "twice", p, 2 * N, { true, 2 * N, views({ { 0, 2 * N, 0, 1 } }) }); // two literals in a row are one
		probe<std::remove_cvref_t<decltype(P{} >> k3::tok3n::name<"x">(P{}))>>(("two apart of " + name).c_str(), "twice", p, 2 * N, { true, 2 * N, views({ { 0, N, N, 2 } }) });
		p[2 * N - 1] = T(p[2 * N - 1] + 1);
		probe<std::remove_cvref_t<decltype(join(*P{}))>>(("many of " + name).c_str(), "twice but for the last", p, 2 * N, { true, N, views({ { 0, N, 0, 1 } }) });
		probe<std::remove_cvref_t<decltype(P{} >> P{})>>(("two of " + name).c_str(), "twice but for the last", p, 2 * N, no());
	}
	for (ull i = 0; i < 2 * N + 8; ++i) g_end[-1 - (long long)i] = T(0);
}

template <class U, std::size_t N, long long step, long long first> constexpr auto setof()
{
	detail::static_array<U, N> a{};
	for (std::size_t i = 0; i < N; ++i) a.data[(i * 7919) % N] = U(first + (long long)i * step); // scrambled
	return a;
}
template <class U, class P> static void element(const char* name, long long e, bool ok)
{
	U buf[2] = { U(e), U(e) };
	++h::states; ++h::transitions; h::runs += 2;
	auto r = P::parse(std::span<const U>(buf, 1)); auto l = P::lookahead(std::span<const U>(buf, 1));
	h::outcome(std::string(name) + (ok ? "+" : "-"));
	if (r.has_value() != ok || l.has_value() != ok || r.remaining().size() != !ok) h::viol(name, std::to_string(e), "membership", ok ? "match" : "no match", r.has_value() ? "match" : "no match");
}
template <class U, std::size_t N, long long step, long long first> static void sets(const char* tn)
{
	static constexpr auto arr = setof<U, N, step, first>();
	static constexpr auto arr2 = setof<U, N, step, first + step * (long long)(N / 2)>();
	constexpr auto a = any<arr>, b = any<arr2>; constexpr auto na = none<arr>, nb = none<arr2>;
	std::string nm = std::string("set of ") + std::to_string(N) + " " + tn;
	auto in = [&](long long e, long long f) { long long d = e - f; return d >= 0 && d % step == 0 && d / step < (long long)N; };
	long long f2 = first + step * (long long)(N / 2);
	std::vector<long long> es;
	for (std::size_t i = 0; i <= N + N / 2; ++i) for (long long d = -3; d <= 3; ++d) es.push_back(first + (long long)i * step + d);
	for (long long e : std::vector<long long>(es)) for (long long d : { 256LL, 65536LL, 1LL << 32 }) { es.push_back(e + d); es.push_back(e - d); }
	for (long long e : es)
	{
		if ((long long)(U)e != e) continue;
		bool x = in(e, first), y = in(e, f2);
		element<U, std::remove_cvref_t<decltype(a)>>(nm.c_str(), e, x);
		element<U, std::remove_cvref_t<decltype(na)>>((nm + ", negated").c_str(), e, !x);
		element<U, std::remove_cvref_t<decltype(!a)>>((nm + ", !").c_str(), e, !x);
		element<U, std::remove_cvref_t<decltype(a | b)>>((nm + ", union").c_str(), e, x || y);
		element<U, std::remove_cvref_t<decltype(na | nb)>>((nm + ", negated union").c_str(), e, !x || !y);
		element<U, std::remove_cvref_t<decltype(a | nb)>>((nm + ", set or negated set").c_str(), e, x || !y);
		element<U, std::remove_cvref_t<decltype(na | b)>>((nm + ", negated set or set").c_str(), e, !x || y);
	}
}

// ---------------------------------------------------------------- many alternatives and elements
template <int I> struct Tag { int v = I; };
template <int I> struct Tagged { template <class V> constexpr Tag<I> operator()(const V&) const { return {}; } };
template <int I> constexpr auto two = all_of<T(1 + I % 100), T(1 + I / 100)>;
template <int... I> constexpr auto alternatives(std::integer_sequence<int, I...>) { return (map<Tagged<I>{}>(two<I>) | ...); }
template <int... I> constexpr auto elements(std::integer_sequence<int, I...>) { return (map<Tagged<I>{}>(two<I>) >> ...); }
template <int... I> constexpr auto views_of(std::integer_sequence<int, I...>) { return (join(exactly<2>(any_of<T(1 + I % 100), T(1 + I / 100)>)) >> ...); }
template <int N> static void many_alternatives()
{
	T buf[2 * N + 2];
	for (int i = 0; i < N; ++i) { buf[2 * i] = T(1 + i % 100); buf[2 * i + 1] = T(1 + i / 100); }
	buf[2 * N] = T(120); buf[2 * N + 1] = T(120);
	using C = decltype(alternatives(std::make_integer_sequence<int, N>{}));
	std::string nm = std::to_string(N) + " alternatives";
	for (int i = 0; i <= N; ++i)
	{
		++h::states; h::transitions += i; ++h::runs;
		auto r = C::parse(std::span<const T>(buf + 2 * i, 2));
		if (i == N) { if (r.has_value()) h::viol(nm, "none", "choice", "no match", "match"); continue; }
		if (!r.has_value() || r.remaining().size() != 0) { h::viol(nm, std::to_string(i), "choice", "match", "no match"); continue; }
		int v = -1; std::visit([&](auto& x) { v = x.v; }, *r);
		if ((int)(*r).index() != i || v != i) h::viol(nm, std::to_string(i), "alternative taken", std::to_string(i), std::to_string((*r).index()));
	}
	{
		auto r = (*C{}).parse(std::span<const T>(buf, 2 * N + 2));
		++h::runs;
		if (!r || (*r).size() != (std::size_t)N || r.remaining().size() != 2) h::viol(nm, "all in turn", "repeated choice", std::to_string(N), "other");
		else for (int i = 0; i < N; ++i) if ((int)(*r)[i].index() != i) { h::viol(nm, std::to_string(i), "alternative taken in a repetition", std::to_string(i), std::to_string((*r)[i].index())); break; }
	}
}
template <int N> static void many_elements()
{
	T buf[2 * N + 2];
	for (int i = 0; i < N; ++i) { buf[2 * i] = T(1 + i % 100); buf[2 * i + 1] = T(1 + i / 100); }
	buf[2 * N] = T(120); buf[2 * N + 1] = T(120);
	using S = decltype(elements(std::make_integer_sequence<int, N>{}));
	using V = decltype(views_of(std::make_integer_sequence<int, N>{}));
	std::string nm = "sequence of " + std::to_string(N);
	auto whole = [&](const T* p, ull n, bool ok, const std::string& what) {
		++h::states; h::transitions += n; h::runs += 4;
		auto r = S::parse(std::span<const T>(p, n)); auto l = S::lookahead(std::span<const T>(p, n)); auto q = V::parse(std::span<const T>(p, n)); auto j = join(V{}).parse(std::span<const T>(p, n));
		ull rest = ok ? n - 2 * N : n;
		if (r.has_value() != ok || l.has_value() != ok || q.has_value() != ok || j.has_value() != ok) { h::viol(nm, what, "sequence", ok ? "match" : "no match", "other"); return; }
		if (r.remaining().size() != rest || l.remaining().size() != rest || q.remaining().size() != rest || j.remaining().size() != rest) h::viol(nm, what, "rest", std::to_string(rest), "other");
		if (!ok) return;
		int bad = -1, k = 0;
		std::apply([&](auto&... x) { ((x.v != k++ ? (bad = k - 1) : 0), ...); }, *r);
		k = 0;
		std::apply([&](auto&... x) { ((x.data() != p + 2 * k || x.size() != 2 ? (bad = k) : 0, ++k), ...); }, *q);
		if (bad >= 0 || k != N) h::viol(nm, what, "element", std::to_string(bad), "other");
		if ((*j).data() != p || (*j).size() != 2 * N) h::viol(nm, what, "join", std::to_string(2 * N), std::to_string((*j).size()));
	};
	whole(buf, 2 * N, true, "as is"); whole(buf, 2 * N + 2, true, "and more");
	for (int i = 0; i < 2 * N; ++i) { whole(buf, i, false, "cut at " + std::to_string(i)); T o = buf[i]; buf[i] = T(119); whole(buf, 2 * N, false, "changed at " + std::to_string(i)); buf[i] = o; }
}

// nesting
template <int N> struct nest { using P = std::remove_cvref_t<decltype(join(~(A >> typename nest<N - 1>::P{})))>; };
template <> struct nest<0> { using P = std::remove_cvref_t<decltype(join(~A))>; };
template <int N> struct brackets { using P = std::remove_cvref_t<decltype(join(A >> typename brackets<N - 1>::P{} >> B) | join(~B))>; };
template <> struct brackets<0> { using P = std::remove_cvref_t<decltype(join(~B))>; };
template <int N> struct nested_spec { static constexpr const char* label = "nested optional parts"; using P = typename nest<N>::P; static Want want(ull k, ull) { ull e = std::min<ull>(k, N + 1); return { true, e, views({ { 0, e, 0, 1 } }) }; } };
template <int N> static void nested() { for (ull n = 0; n <= N + 3; ++n) for (ull k = 0; k <= n; ++k) single<nested_spec<N>>(n, k); }
// n opening, a closing number of ones: matched pairs, else a single one, else nothing
template <int N> struct bracket_spec { static constexpr const char* label = "nested brackets"; using P = typename brackets<N>::P; };
template <int N> static void bracketed()
{
	for (int o = 0; o <= N + 2; ++o)
		for (int c = 0; c <= o + 2; ++c)
		{
			T* p = g_end - (o + c);
			for (int i = 0; i < o; ++i) p[i] = T(0);
			for (int i = 0; i < c; ++i) p[o + i] = T(1);
			// depth d reads: zero, depth d-1, one; otherwise an optional one
			std::function<int(int, int)> rd = [&](int d, int at) {
				if (d > 0 && at < o) { int e = rd(d - 1, at + 1); if (e >= o && e < o + c) return e + 1; }
				return at >= o && at < o + c ? at + 1 : at;
			};
			ull e = rd(N, 0);
			probe<typename bracket_spec<N>::P>(bracket_spec<N>::label, std::to_string(o) + " and " + std::to_string(c), p, o + c, { true, e, views({ { 0, e, 0, 1 } }) });
		}
	for (int i = 1; i < 3 * N + 20; ++i) g_end[-i] = T(0);
}

int main(int argc, char** argv)
{
	int part = (int)h::arg(argc, argv, "--part", 0);
	if (part >= 100) { mc::g_room_gb = 40; mc::g_hang_secs = 200; }
	h::start();
	thorough = h::arg(argc, argv, "--thorough", 0);
	ull room = part >= 100 ? (1ull << 33) : (1ull << 25);
	T* base = zeros(room);
	std::size_t ps = 4096;
	g_end = (T*)((char*)base + room * sizeof(T) / ps * ps);
	mprotect(g_end, ps, PROT_NONE);
#if PART == 0
	L0 = h::arg(argc, argv, "--len", 300);
	int i = 0;
#define X(g) if (i++ % 8 == part) { small<g>(); medium<g>(); }
	SMALL(X)
#elif PART == 1
	int i = 0;
	// every grammar that keeps only views, on more elements than 32 bits can count
#define X(g) if (i++ == part - 100) { const ull w = 1ull << 32; \
	single<g>(w + 5, w + 2, thorough); \
	if (thorough) { for (ull k : { w - 1, w, w + 1 }) single<g>(w + 2, k); single<g>(w, w); single<g>((w >> 1) + 2, w >> 1); single<g>((w >> 1) + 2, (w >> 1) + 2); } \
	h::sample(std::string(g::label) + " on " + std::to_string(w + 5) + " elements"); }
	HUGE_(X)
#undef X
#define X(g) if (i++ == part - 100) { const ull w = 1ull << 32; single<g>(w + 5, w + 5); single<g>(w + 5, w); if (thorough) single<g>(w + 1, w + 1); }
	X(e2<(1ull << 32) + 1>) X(e5<(1ull << 32) + 1>)
#elif PART == 2
	if (part == 0) { counts<e1, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513>(); }
	if (part == 1) { counts<e1, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537>(); counts<e6, 1, 2, 255, 256, 257, 1000, 65536, 65537>(); }
	if (part == 2) { counts<e2, 1, 2, 3, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 1u << 20>(); counts<e4, 1, 2, 3, 85, 86, 127, 128, 129, 255, 256, 257, 21845, 21846, 65535, 65536, 65537, 1u << 20>(); }
	if (part == 3) { counts<e3, 1, 2, 3, 85, 86, 127, 128, 129, 255, 256, 257, 21845, 21846, 65535, 65536, 65537, 1u << 20>(); counts<e5, 1, 2, 3, 127, 128, 129, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 1u << 20>(); }
#elif PART == 3
	(void)part;
#define LS(a) literal<a>();
	LS(1) LS(2) LS(3) LS(4) LS(5) LS(6) LS(7) LS(8) LS(9) LS(15) LS(16) LS(17) LS(31) LS(32) LS(33) LS(63) LS(64) LS(65) LS(100) LS(127) LS(128) LS(129)
#elif PART == 4
	(void)part;
	literal<255>(); literal<256>(); literal<257>(); literal<511>(); literal<512>(); literal<1000>(); literal<1025>(); literal<4097>();
#elif PART == 5
	sets<char, 40, 2, 1>("char"); sets<char, 160, 1, -128>("char"); sets<unsigned char, 170, 1, 0>("unsigned char"); sets<unsigned char, 128, 1, 64>("unsigned char"); sets<wchar_t, 300, 3, 100>("wchar_t");
#elif PART == 6
	sets<char32_t, 256, 257, 0>("char32_t"); sets<int, 257, 1, -128>("int"); sets<int, 1000, 65536, -1000000>("int");
#elif PART == 7
	sets<long long, 300, (1LL << 16), (1LL << 31) - 300>("long long"); sets<short, 513, 1, -256>("short");
#elif PART == 8
	many_alternatives<33>(); many_elements<33>();
#elif PART == 9
	many_alternatives<130>();
#elif PART == 11
	many_elements<130>();
#elif PART == 12
	many_alternatives<257>();
#elif PART == 13
	many_elements<257>();
#elif PART == 10
	nested<10>(); nested<60>(); nested<120>(); bracketed<5>(); bracketed<40>();
#endif
	return h::finish();
}
