// Shared, template side of the explorer: runs one grammar of the library on one input and records
// everything a caller can observe, in a canonical form that the reference interpreter also produces.
#pragma once
#include <any>
#include <cstddef>
#include <initializer_list>
#include <list>
#include <map>
#include <memory>
#include <type_traits>
#include <k3/tok3n.h>
#include "mc_case.h"
#include "elem.h"

#include <array>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_set>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace mc {

// ---- the current execution -------------------------------------------------------------------
extern MC_TL const char* g_base;          // first byte of the input under test
extern MC_TL std::size_t g_len;           // its length
extern MC_TL std::string g_log;           // calls of user functions, in order
extern std::size_t g_news;          // number of operator new calls so far (whole process)
extern bool g_quiet;                // do not log / do not allocate in user functions

std::uint64_t fnv(const char* p, std::size_t n, std::uint64_t salt);
void put_view(std::string& o, const char* p, std::size_t n);
void put_num(std::string& o, unsigned long long n);

// ---- user-side value types -------------------------------------------------------------------
#ifdef MC_TRACK
// Every user value carries one of these: it knows whether it is alive and whether it has been moved from.
// MC_TRACK 1: copyable, moves do not throw; 2: move-only, moves do not throw; 3: copyable, everything may throw;
// 4: move-only, moves may throw; 5: copyable, 6: move-only, neither moves nor default construction throw; 7: copyable, nothing throws;
// 8: move-only, 9: copyable, with nothing to do when destroyed (these are not counted as alive).
extern long g_live, g_copies, g_moves, g_corrupt, g_seen, g_moved_seen;
void event(char kind);               // may throw
struct Track
{
	static constexpr bool nothrow = MC_TRACK <= 2 || MC_TRACK >= 5, dnothrow = MC_TRACK >= 5, copyable = MC_TRACK % 2 == 1;
	static constexpr unsigned alive = 0xA11FE5ED, dead = 0xDEADDEAD;
	unsigned magic; bool moved = false;
	void born() { magic = alive; if constexpr (MC_TRACK < 8) ++g_live; }
	void check() const { if (magic != alive) ++g_corrupt; }
	Track() noexcept(dnothrow) { if constexpr (not dnothrow) event('d'); born(); }
#if MC_TRACK % 2
	Track(const Track& o) noexcept(MC_TRACK == 7) : moved(o.moved) { o.check(); event('c'); ++g_copies; born(); }
	Track& operator=(const Track& o) noexcept(MC_TRACK == 7) { check(); o.check(); event('C'); ++g_copies; moved = o.moved; return *this; }
#else
	Track(const Track&) = delete;
	Track& operator=(const Track&) = delete;
#endif
	Track(Track&& o) noexcept(nothrow) : moved(o.moved) { o.check(); if constexpr (not nothrow) event('v'); o.moved = true; ++g_moves; born(); }
	Track& operator=(Track&& o) noexcept(nothrow) { check(); o.check(); if constexpr (not nothrow) event('V'); bool m = o.moved; if (&o != this) o.moved = true; moved = m; ++g_moves; return *this; }
#if MC_TRACK < 8
	~Track() { check(); magic = dead; --g_live; }
#endif
	bool operator==(const Track&) const { return true; }
	void seen() const { check(); if constexpr (MC_TRACK < 8) ++g_seen; if (moved) ++g_moved_seen; }
};
#define MC_SEEN(x) (x).track.seen()
#if MC_TRACK >= 8
struct Kept                          // a string that is never given back
{
	const std::string* p = nullptr;
	Kept(const char* s) : Kept(std::string(s)) {}
	Kept(const std::string& s) { static std::unordered_set<std::string> all; p = &*all.insert(s).first; }
	operator const std::string&() const { return *p; }
	bool operator==(const Kept&) const = default;
};
#endif
#else
#define MC_SEEN(x) void()
#endif

template <class... As> std::string ser_all(const As&... as);
template <int K>
struct Obj                           // what map<fn<K>> and into<Obj<K>> produce
{
#if defined(MC_TRACK) && MC_TRACK >= 8
	Kept repr = "~";
#else
	std::string repr = "~";
#endif
#ifdef MC_TRACK
	Track track;
#endif
#if defined(MC_TRACK) && MC_TRACK >= 5
	Obj() noexcept {}
#else
	Obj() = default;
#endif
#if defined(MC_TRACK) && MC_TRACK == 7
	Obj(const Obj& o) noexcept : repr(o.repr), track(o.track) {}
	Obj(Obj&&) noexcept = default;
	Obj& operator=(const Obj& o) noexcept { repr = o.repr; track = o.track; return *this; }
	Obj& operator=(Obj&&) noexcept = default;
#endif
	template <class... As>
	requires (sizeof...(As) > 0) and (not (sizeof...(As) == 1 and (... and std::is_same_v<std::remove_cvref_t<As>, Obj>)))
	explicit Obj(As&&... as) : repr(ser_all(as...)) {}
	bool operator==(const Obj&) const = default;
};

template <int K>
struct Dflt                          // what defaulted<Dflt<K>> produces
{
	int x = K;
#ifdef MC_TRACK
	Track track;
#endif
};

// ---- canonical serialisation of result values --------------------------------------------------
template <class T>
inline constexpr bool is_view_like = requires(const T& t) { t.data(); t.size(); t.front(); t.empty(); };

inline void ser(std::string& o, const std::string& s) { o += 'S'; o += '"'; o += s; o += '"'; }
inline void ser(std::string& o, const std::string_view& s) { o += 's'; put_view(o, s.data(), s.size()); }
inline void ser(std::string& o, bool b) { o += b ? "bT" : "bF"; }
inline void ser(std::string& o, int i) { o += 'i'; put_num(o, (unsigned long long)i); }
inline void ser(std::string& o, std::nullptr_t) { o += 'N'; }
// further values that a user function may return
struct E1 {}; struct E2 {};                                      // nothing in them
enum class En : unsigned char { zero, one, two };
struct From { int v = 0; From() = default; From(int x) : v(x) {} From(const std::string& s) : v((int)s.size()) {} From(bool) : v(-9) {} }; // can be made from other values
struct Pick { int v = 0; Pick() = default; template <class T> requires (!std::same_as<std::remove_cvref_t<T>, Pick>) Pick(T&&) : v(-7) {} static Pick of(int x) { Pick p; p.v = x; return p; } };   // from anything
struct Evil { int v = 0; Evil() = default; explicit Evil(int x) : v(x) {} Evil* operator&() const = delete; template <class T> void operator,(T&&) const = delete; bool operator==(const Evil&) const = delete; bool operator<(const Evil&) const = delete; bool operator!() const = delete; explicit operator bool() const { return false; } };  // operators that nobody should need
struct Agg { int a; std::string b; bool c; };                     // an aggregate
struct alignas(64) Wide { int v = 0; std::byte rest[100]{}; };     // more aligned than usual
struct Nest { int v = 0; std::vector<Nest> in; Nest() = default; Nest(int x) : v(x) {} Nest(std::initializer_list<Nest> l) : v(-1), in(l) {} };  // braces around one make another
struct MyVec : std::vector<int> { using std::vector<int>::vector; };   // derived from what the library itself makes
struct MyOpt : std::optional<int> { using std::optional<int>::optional; };
struct MyTup : std::tuple<int, bool> { using std::tuple<int, bool>::tuple; };
struct MyVar : std::variant<int, bool> { using std::variant<int, bool>::variant; };
struct Callable { int v = 0; int operator()() const { return v; } template <class... A> requires (sizeof...(A) > 0) int operator()(A&&...) const { return -v; } };
inline void ser(std::string& o, const Evil& x) { o += "ev"; put_num(o, (unsigned)x.v); }
inline void ser(std::string& o, const Agg& x) { o += "ag"; put_num(o, (unsigned)x.a); o += x.b; o += x.c ? 'T' : 'F'; }
inline void ser(std::string& o, const Wide& x) { o += reinterpret_cast<std::uintptr_t>(&x) % 64 ? "unaligned" : "al"; put_num(o, (unsigned)x.v); }
inline void ser(std::string& o, const Nest& x) { o += "ne"; if (x.v < 0) { o += '['; for (auto& y : x.in) ser(o, y); o += ']'; } else put_num(o, (unsigned)x.v); }
inline void ser(std::string& o, const MyVec& x) { o += "mv"; for (int y : x) put_num(o, (unsigned)y); }
inline void ser(std::string& o, const MyOpt& x) { o += "mo"; if (x.has_value()) put_num(o, (unsigned)**&x); }
inline void ser(std::string& o, const MyTup& x) { o += "mt"; put_num(o, (unsigned)std::get<0>(x)); o += std::get<1>(x) ? 'T' : 'F'; }
inline void ser(std::string& o, const MyVar& x) { o += "mr"; put_num(o, x.index()); if (x.index() == 0) put_num(o, (unsigned)std::get<0>(x)); else o += std::get<1>(x) ? 'T' : 'F'; }
inline void ser(std::string& o, const Callable& x) { o += "ca"; put_num(o, (unsigned)x.v); }
inline void ser(std::string& o, const std::list<int>& x) { o += "li"; for (int y : x) put_num(o, (unsigned)y); }
inline void ser(std::string& o, const std::map<int, std::string>& x) { o += "ma"; for (auto& [k, v] : x) { put_num(o, (unsigned)k); o += v; } }
inline void ser(std::string& o, std::monostate) { o += 'M'; }
inline void ser(std::string& o, std::true_type) { o += "tt"; }
inline void ser(std::string& o, E1) { o += "e1"; }
inline void ser(std::string& o, E2) { o += "e2"; }
inline void ser(std::string& o, En e) { o += 'n'; put_num(o, (unsigned char)e); }
inline void ser(std::string& o, char x) { o += 'c'; put_num(o, (unsigned char)x); }
inline void ser(std::string& o, unsigned char x) { o += 'u'; put_num(o, x); }
inline void ser(std::string& o, unsigned long x) { o += 'z'; put_num(o, x); }
inline void ser(std::string& o, double x) { o += 'd'; o += x < 0 ? "-" : ""; put_num(o, (unsigned long long)((x < 0 ? -x : x) * 8)); }
inline void ser(std::string& o, const char* x) { o += 'k'; o += x ? x : "0"; }
inline void ser(std::string& o, int (*f)()) { o += "fp"; put_num(o, f ? (unsigned)f() : 0); }
inline void ser(std::string& o, const From& x) { o += x.v < 0 ? "F-" : "F"; put_num(o, (unsigned long long)(x.v < 0 ? -x.v : x.v)); }
template <std::same_as<Pick> T> void ser(std::string& o, const T& x) { o += x.v < 0 ? "P-" : "P"; put_num(o, (unsigned long long)(x.v < 0 ? -x.v : x.v)); }
inline void ser(std::string& o, const std::shared_ptr<int>& p) { o += p ? 'h' : '0'; if (p) put_num(o, (unsigned long long)*p); }
inline void ser(std::string& o, const std::unique_ptr<int>& p) { o += p ? 'q' : '0'; if (p) put_num(o, (unsigned long long)*p); }
template <std::same_as<std::any> T> void ser(std::string& o, const T& a) { o += 'a'; if (auto* i = std::any_cast<int>(&a)) put_num(o, (unsigned long long)*i); else o += a.has_value() ? "?" : "0"; }
template <int K> void ser(std::string& o, const Obj<K>& x) { MC_SEEN(x); o += 'O'; put_num(o, K); o += '{'; o += (const std::string&)x.repr; o += '}'; }
template <int K> void ser(std::string& o, const Dflt<K>& x) { MC_SEEN(x); o += 'D'; put_num(o, (unsigned long long)x.x); }
template <class T> void ser(std::string& o, const std::vector<T>& v);
template <class T, std::size_t N> void ser(std::string& o, const std::array<T, N>& v);
template <class T> void ser(std::string& o, const std::optional<T>& v);
template <class... Ts> void ser(std::string& o, const std::tuple<Ts...>& v);
template <class... Ts> void ser(std::string& o, const std::variant<Ts...>& v);
template <class A, class B> void ser(std::string& o, const std::pair<A, B>& v);
template <class T> requires is_view_like<T>
void ser(std::string& o, const T& v) { o += 'V'; put_view(o, (const char*)v.data(), v.size()); }

template <class T> void ser(std::string& o, const std::vector<T>& v)
{
	o += '[';
	bool first = true;
	for (const auto& x : v) { if (!first) o += ','; first = false; ser(o, x); }
	o += ']';
}
template <class T, std::size_t N> void ser(std::string& o, const std::array<T, N>& v)
{
	o += '<';
	bool first = true;
	for (const auto& x : v) { if (!first) o += ','; first = false; ser(o, x); }
	o += '>';
}
template <class T> void ser(std::string& o, const std::optional<T>& v)
{
	if (v) { o += '!'; ser(o, *v); }
	else o += '?';
}
template <class... Ts> void ser(std::string& o, const std::tuple<Ts...>& v)
{
	o += '(';
	std::apply([&](const auto&... xs) { bool first = true; ((first ? void(first = false) : void(o += ','), ser(o, xs)), ...); }, v);
	o += ')';
}
template <class... Ts> void ser(std::string& o, const std::variant<Ts...>& v)
{
	o += 'v';
	if (v.valueless_by_exception()) { o += "-!"; return; }
	put_num(o, v.index());
	o += ':';
	std::visit([&](const auto& x) { ser(o, x); }, v);
}
template <class A, class B> void ser(std::string& o, const std::pair<A, B>& v)
{
	o += '{'; ser(o, v.first); o += ';'; ser(o, v.second); o += '}';
}

template <class... As>
std::string ser_all(const As&... as)
{
	std::string o;
	bool first = true;
	((first ? void(first = false) : void(o += ','), ser(o, as)), ...);
	return o;
}


// ---- user functions ------------------------------------------------------------------------------
void log_call(char kind, int k, const std::string& args);

// some take their arguments by value, some by reference
template <int K>
inline constexpr auto fn = []<class... As>(As&&... as) -> Obj<K>    // map / apply: wraps its arguments
{
#ifdef MC_TRACK
	event('f');
	if constexpr (K % 2 == 1)
	{
		// as a function with by-value parameters would do
		return [](std::remove_cvref_t<As>... bs) -> Obj<K>
		{
			std::string a = ser_all(bs...);
			log_call('m', K, a);
			Obj<K> o;
			o.repr = std::move(a);
			return o;
		}(std::forward<As>(as)...);
	}
#endif
	std::string a = ser_all(as...);
	log_call('m', K, a);
	Obj<K> o;
	o.repr = std::move(a);
	return o;
};

template <int K>
inline constexpr auto vfn = []<class... As>(As&&... as) -> void     // value-less map
{
#ifdef MC_TRACK
	event('f');
#endif
	log_call('w', K, ser_all(as...));
};

bool pred_answer(int k, const std::string& args);
template <int K>
inline constexpr auto pred = []<class... As>(const As&... as) -> bool   // filter / apply_filter
{
#ifdef MC_TRACK
	event('f');
#endif
	std::string a = ser_all(as...);
	log_call('f', K, a);
	return pred_answer(K, a);
};

// ---- structural type description --------------------------------------------------------------
template <class T> struct TS
{
	static std::string s()
	{
		if constexpr (is_view_like<T>) return "V";
		else return "UNKNOWN";
	}
};
template <> struct TS<void> { static std::string s() { return "0"; } };
template <> struct TS<std::string> { static std::string s() { return "S"; } };
template <> struct TS<std::string_view> { static std::string s() { return "s"; } };
template <> struct TS<bool> { static std::string s() { return "b"; } };
template <> struct TS<int> { static std::string s() { return "i"; } };
#define MC_TS(T, N) template <> struct TS<T> { static std::string s() { return N; } };
MC_TS(std::monostate, "M") MC_TS(std::true_type, "tt") MC_TS(E1, "e1") MC_TS(E2, "e2") MC_TS(En, "n") MC_TS(char, "c") MC_TS(unsigned char, "u") MC_TS(unsigned long, "z") MC_TS(double, "d") MC_TS(const char*, "k") MC_TS(int (*)(), "fp")
MC_TS(From, "F") MC_TS(Pick, "P") MC_TS(std::shared_ptr<int>, "h") MC_TS(std::unique_ptr<int>, "q") MC_TS(std::any, "a")
MC_TS(Evil, "ev") MC_TS(Agg, "ag") MC_TS(Wide, "al") MC_TS(Nest, "ne") MC_TS(MyVec, "mv") MC_TS(MyOpt, "mo") MC_TS(MyTup, "mt") MC_TS(MyVar, "mr") MC_TS(Callable, "ca") MC_TS(std::list<int>, "li")
template <> struct TS<std::map<int, std::string>> { static std::string s() { return "ma"; } };
template <> struct TS<std::nullptr_t> { static std::string s() { return "N"; } };
template <int K> struct TS<Obj<K>> { static std::string s() { return "O" + std::to_string(K); } };
template <int K> struct TS<Dflt<K>> { static std::string s() { return "D" + std::to_string(K); } };
template <class T> struct TS<std::vector<T>> { static std::string s() { return "[" + TS<T>::s() + "]"; } };
template <class T, std::size_t N> struct TS<std::array<T, N>> { static std::string s() { return "<" + TS<T>::s() + "*" + std::to_string(N) + ">"; } };
template <class T> struct TS<std::optional<T>> { static std::string s() { return "?" + TS<T>::s(); } };
template <class A, class B> struct TS<std::pair<A, B>> { static std::string s() { return "{" + TS<A>::s() + ";" + TS<B>::s() + "}"; } };
template <class... Ts> std::string ts_list()
{
	std::string o;
	bool first = true;
	((o += first ? "" : ",", first = false, o += TS<Ts>::s()), ...);
	return o;
}
template <class... Ts> struct TS<std::tuple<Ts...>> { static std::string s() { return "(" + ts_list<Ts...>() + ")"; } };
template <class... Ts> struct TS<std::variant<Ts...>> { static std::string s() { return "|" + ts_list<Ts...>() + "|"; } };

#ifdef MC_TRACK
extern long g_copies_after;
extern bool g_in_parse;
#define MC_BEFORE() (g_in_parse = true)
#define MC_AFTER(o) (g_in_parse = false, (o).live = g_live, (o).copies = g_copies, (o).moves = g_moves, g_seen = g_moved_seen = 0)
#define MC_HELD(o, r) ((o).held = g_seen, (o).moved = g_moved_seen, copy_result(r))
// the result itself as a value: moved (and copied where possible), and gone without trace
template <class R> void copy_result(R& r)
{
	R m(std::move(r));
	if constexpr (Track::copyable) { R c(m); c = m; }
	r = std::move(m);
}
#else
#define MC_BEFORE() void()
#define MC_AFTER(o) void()
#define MC_HELD(o, r) void()
#endif

// ---- running one grammar -----------------------------------------------------------------------
template <class R>
void finish(Obs& o, const R& r)
{
	o.ok = r.has_value();
	o.bool_mismatch = (static_cast<bool>(r) != r.has_value());
	auto rem = r.remaining();
	o.rem = (const char*)rem.data();
	o.rem_len = rem.size();
#ifndef MC_NOVAL
	if constexpr (not std::is_void_v<typename R::value_type>)
	{
		if (o.ok)
			ser(o.val, *r);
	}
#endif
}

template <class E> void fill(char* to, const char* s, std::size_t n) { for (std::size_t i = 0; i < n; ++i) { E e = elem_of<E>(s[i]); std::memcpy(to + i * sizeof(E), &e, sizeof(E)); } }
template <class E>
auto input_of(const char* b, std::size_t n)
{
	if constexpr (std::is_same_v<E, char>) return std::string_view(b, n);
	else if constexpr (std::is_same_v<E, wchar_t> || std::is_same_v<E, char16_t> || std::is_same_v<E, char32_t> || std::is_same_v<E, char8_t>) return std::basic_string_view<E>((const E*)b, n);
	else return std::span<const E>((const E*)b, n);
}

template <class P, class E = char>
void parse_thunk(const char* b, std::size_t n, Obs& o)
{
	auto in = input_of<E>(b, n);
	std::size_t before = g_news;
	MC_BEFORE();
	auto r = P::parse(in);
	o.news = g_news - before;
	MC_AFTER(o);
	finish(o, r);
	MC_HELD(o, r);
}

template <class P, class E = char>
void look_thunk(const char* b, std::size_t n, Obs& o)
{
	auto in = input_of<E>(b, n);
	std::size_t before = g_news;
	MC_BEFORE();
	auto r = P::lookahead(in);
	o.news = g_news - before;
	MC_AFTER(o);
	finish(o, r);
	MC_HELD(o, r);
}

#ifndef MC_NOVAL
template <class P, class E> std::string impl_type() { return TS<typename decltype(P::parse(input_of<E>("", 0)))::value_type>::s(); }
template <class P, class E> std::string impl_look_type() { return TS<typename decltype(P::lookahead(input_of<E>("", 0)))::value_type>::s(); }
#define MC_TYPES &impl_type<P, E>, &impl_look_type<P, E>
#else
#define MC_TYPES nullptr, nullptr
#endif
#ifndef MC_NOPARSE
#define MC_PARSE &parse_thunk<P, E>
#else
#define MC_PARSE nullptr
#endif
#ifndef MC_NOLOOK
#define MC_LOOK &look_thunk<P, E>
#else
#define MC_LOOK nullptr
#endif

template <class P, class E = char>
void reg(const char* id, const char* cpp, const char* sexpr, const char* type, bool noalloc)
{
	add_case({ id, cpp, sexpr, type, noalloc, MC_TYPES, MC_PARSE, MC_LOOK, sizeof(E), std::is_same_v<E, char> ? nullptr : &fill<E> });
}

// Another way to write the same grammar: explored on its own only if it is not the very same type.
template <class P0, class P>
void reg_alt(const char* id, const char* cpp, const char* sexpr, const char* type, bool noalloc)
{
	if constexpr (not std::is_same_v<P0, P>)
		reg<P>(id, cpp, sexpr, type, noalloc);
}

} // namespace mc
