// All sequences of operations on results, up to a depth, next to a model of an optional value with a
// remaining input. Results are obtained through parsers only.
#include <k3/tok3n.h>
#include "h.h"
#include <any>
#include <array>
#include <cstddef>
#include <memory>
#include <optional>
#include <string>
#include <tuple>
#include <variant>
#include <vector>
using namespace k3::tok3n;

static const char inA[] = "abcd", inB[] = "aXYZw", inC[] = "??";
static int next_id = 0;
static long live_ = 0;

struct Id { int id; Id(int i = -7) : id(i) { ++live_; } Id(const Id& o) : id(o.id) { ++live_; } Id& operator=(const Id&) = default; ~Id() { id = -99; --live_; } };
struct Mo { int id; Mo(int i = -7) : id(i) { ++live_; } Mo(Mo&& o) noexcept : id(o.id) { o.id = -50; ++live_; } Mo& operator=(Mo&& o) noexcept { id = o.id; if (&o != this) o.id = -50; return *this; } ~Mo() { id = -99; --live_; } };
struct Cm { int id; Cm(int i = -7) : id(i) { ++live_; } Cm(const Cm& o) : id(o.id) { ++live_; } Cm(Cm&& o) noexcept : id(o.id) { o.id = -50; ++live_; } Cm& operator=(const Cm& o) { id = o.id; return *this; } Cm& operator=(Cm&& o) noexcept { int i = o.id; if (&o != this) o.id = -50; id = i; return *this; } ~Cm() { id = -99; --live_; } };
struct Src { int id; Src(int i = -7) : id(i) {} };
struct FromSrc { int id; FromSrc(int i = -7) : id(i) {} FromSrc(const Src& s) : id(s.id) {} FromSrc(Src&& s) : id(s.id) { s.id = -50; } };
struct ExplSrc { int id; ExplSrc(int i = -7) : id(i) {} explicit ExplSrc(const Src& s) : id(s.id) {} };
struct Greedy { int id; Greedy(int i = -7) : id(i) {} template <class T> requires (!std::is_same_v<std::remove_cvref_t<T>, Greedy> && !std::is_same_v<std::remove_cvref_t<T>, int>) Greedy(T&& t) : id([&] { if constexpr (std::is_same_v<std::remove_cvref_t<T>, Src>) return t.id; else return -77; }()) {} };
struct ListOf { int id; std::vector<ListOf> in; ListOf(int i = -7) : id(i) {} ListOf(std::initializer_list<ListOf> l) : id(-88), in(l) {} };
struct alignas(64) Wide { int id; std::byte rest[100]{}; Wide(int i = -7) : id(i) {} };
struct Odd { int id; Odd(int i = -7) : id(i) {} Odd(const Odd&) = default; Odd(Odd&& o) noexcept(false) : id(o.id) { o.id = -50; } Odd& operator=(const Odd&) = default; Odd& operator=(Odd&& o) noexcept(false) { int i = o.id; if (this != std::addressof(o)) o.id = -50; id = i; return *this; }
	Odd* operator&() = delete; const Odd* operator&() const = delete; template <class X> void operator,(X&&) const = delete; explicit operator bool() const { return false; } bool operator!() const { return true; } };
struct Final final { int id; Final(int i = -7) : id(i) {} static void* operator new(std::size_t) = delete; static void* operator new[](std::size_t) = delete; };
struct FromMany { int id; FromMany(int i = -7) : id(i) {} FromMany(const Src& s) : id(s.id) {} FromMany(const std::optional<Src>&) : id(-87) {} FromMany(std::nullopt_t) : id(-86) {} operator std::optional<Src>() const { return Src(-85); } };
struct Base { int id; Base(int i = -7) : id(i) {} virtual ~Base() = default; };
struct Derived : Base { using Base::Base; };

// how to read the number out of any of the value types
static int idof(const Id& v) { return v.id; }
static int idof(const Mo& v) { return v.id; }
static int idof(const Cm& v) { return v.id; }
static int idof(const Src& v) { return v.id; }
static int idof(const FromSrc& v) { return v.id; }
static int idof(const ExplSrc& v) { return v.id; }
template <std::same_as<Greedy> X> int idof(const X& v) { return v.id; }
template <std::same_as<ListOf> X> int idof(const X& v) { return v.in.empty() ? v.id : -84; }
static int idof(const Wide& v) { return reinterpret_cast<std::uintptr_t>(std::addressof(v)) % 64 ? -83 : v.id; }
static int idof(const Odd& v) { return v.id; }
static int idof(const Final& v) { return v.id; }
template <std::same_as<FromMany> X> int idof(const X& v) { return v.id; }
static int idof(const Base& v) { return v.id; }
template <class... Ts> int idof(const std::tuple<Ts...>& t) { return idof(std::get<0>(t)); }
template <class T, std::size_t N> int idof(const std::array<T, N>& t) { return idof(t.back()); }
template <class A, class B> int idof(const std::pair<A, B>& t) { return idof(t.first) == idof(t.second) ? idof(t.first) : -82; }
static int idof(std::monostate) { return -64; }
static int idof(int v) { return v; }
static int idof(long v) { return (int)v; }
static int idof(bool v) { return v; }
static int idof(const std::string& s) { return s.size() < 21 ? -60 : atoi(s.c_str() + 20); }
template <std::same_as<std::any> X> int idof(const X& a) { return a.has_value() ? (a.type() == typeid(Src) ? std::any_cast<const Src&>(a).id : -78) : -79; }
template <class T> int idof(const std::unique_ptr<T>& p) { return p ? p->id : -61; }
template <class T> int idof(const std::shared_ptr<T>& p) { return p ? p->id : -61; }
template <class T> int idof(const std::optional<T>& o) { return o ? idof(*o) : -62; }
template <class T> int idof(const std::vector<T>& o) { return o.empty() ? -63 : idof(o.back()); }
template <class... Ts> int idof(const std::variant<Ts...>& v) { return std::visit([](const auto& x) { return idof(x); }, v); }

template <class T> T make_value(int i) { return T(i); }
template <> std::string make_value<std::string>(int i) { return "a long enough string" + std::to_string(i); }
template <> std::unique_ptr<Id> make_value<std::unique_ptr<Id>>(int i) { return std::make_unique<Id>(i); }
template <> std::unique_ptr<Derived> make_value<std::unique_ptr<Derived>>(int i) { return std::make_unique<Derived>(i); }
template <> std::unique_ptr<Base> make_value<std::unique_ptr<Base>>(int i) { return std::make_unique<Base>(i); }
template <> std::shared_ptr<Base> make_value<std::shared_ptr<Base>>(int i) { return std::make_shared<Base>(i); }
template <> std::any make_value<std::any>(int i) { return std::any(Src(i)); }
template <> std::optional<Src> make_value<std::optional<Src>>(int i) { return Src(i); }
template <> std::optional<Id> make_value<std::optional<Id>>(int i) { return Id(i); }
template <> std::optional<std::optional<Src>> make_value<std::optional<std::optional<Src>>>(int i) { return std::optional<Src>(Src(i)); }
template <> std::variant<std::monostate, Src> make_value<std::variant<std::monostate, Src>>(int i) { return Src(i); }
template <> std::tuple<Id, long> make_value<std::tuple<Id, long>>(int i) { return { Id(i), i }; }
template <> std::array<Cm, 3> make_value<std::array<Cm, 3>>(int i) { return { Cm(0), Cm(i), Cm(i) }; }
template <> std::pair<Mo, Mo> make_value<std::pair<Mo, Mo>>(int i) { return { Mo(i), Mo(i) }; }
template <> std::vector<Id> make_value<std::vector<Id>>(int i) { std::vector<Id> v; v.emplace_back(0); v.emplace_back(i); return v; }

template <class T> inline constexpr auto maker = [](auto&&...) -> T { if constexpr (std::is_void_v<T>) return; else return make_value<T>(next_id); };
template <class T> using Parser = decltype("a"_any % map<maker<T>>);
template <class T> using Res = decltype(Parser<T>::parse(std::string_view{}));

template <class X> static const void* addr(const X& x) { return std::addressof(x); }
struct Where { const char* p; std::size_t n; };
template <class T> Res<T> make(int k, Where& w, int& id)
{
	next_id = k == 0 || k == 3 ? 11 : 22;
	id = next_id;
	std::string_view in = k == 0 ? inA : k == 1 ? inB : k == 2 ? inC : std::string_view(inA, 2);     // 3: a shorter text at the same place as 0
	w = k != 2 ? Where{ in.data() + 1, in.size() - 1 } : Where{ in.data(), in.size() };
	return Parser<T>::parse(in);
}

// after its value was taken out, a result still has a value and the same remaining input (val is then false)
struct Model { bool known = true, has = false, val = true; int id = 0; Where rem{ nullptr, 0 }; };

static std::string opnames(const std::vector<int>& ops, const std::vector<std::string>& names) { std::string s; for (int o : ops) s += (s.empty() ? "" : "; ") + names[o]; return s; }

template <class R, class T> std::string look(const R& cr, R& r, const Model& m)
{
	if (!m.known) return "";
	if (r.has_value() != m.has || cr.has_value() != m.has) return std::string("has_value is ") + (r.has_value() ? "true" : "false");
	if ((r ? true : false) != m.has || static_cast<bool>(cr) != m.has || !r == m.has) return "conversion to bool differs";
	auto rem = cr.remaining();
	if (rem.data() != m.rem.p || rem.size() != m.rem.n) return "remaining input differs: length " + std::to_string(rem.size());
	if constexpr (!std::is_void_v<T>)
	{
		if (m.has)
		{
			if (m.val && (idof(cr.value()) != m.id || idof(r.value()) != m.id || idof(*cr) != m.id || idof(*r) != m.id)) return "value is " + std::to_string(idof(cr.value()));
			if (addr(cr.value()) != addr(*cr) || addr(r.value()) != addr(cr.value())) return "value() and operator* denote different objects";
			if (addr(std::move(r).value()) != addr(*r) || addr(*std::move(r)) != addr(*r) || addr(std::move(cr).value()) != addr(*r) || addr(*std::move(cr)) != addr(*r)) return "an rvalue access denotes another object";
		}
		else
		{
			int n = 0;
			auto t = [&](auto f) { try { f(); } catch (const std::bad_optional_access&) { ++n; } catch (...) {} };
			t([&] { (void)r.value(); }); t([&] { (void)cr.value(); }); t([&] { (void)std::move(r).value(); }); t([&] { (void)std::move(cr).value(); });
			if (n != 4) return "value() of a failed result does not throw bad_optional_access";
		}
	}
	return "";
}

template <class T, class T2> void explore(const char* name, int depth)
{
	using R = Res<T>;
	using R2 = Res<T2>;
	constexpr bool isvoid = std::is_void_v<T>;
	constexpr bool cp = std::is_copy_constructible_v<R> && std::is_copy_assignable_v<R>;
	constexpr bool conv = !std::is_void_v<T2>;
	constexpr bool conv_cp = [] { if constexpr (conv) return std::is_constructible_v<T, const T2&>; else return false; }();
	std::vector<std::string> names = { "x = match 11", "x = match 22", "x = no match", "y = match 11", "y = match 22", "y = no match", "x = move(y)", "y = move(x)", "x = R()", "R t(move(x)); y = move(t)", "swap(x, y)" };
	enum { MVXY = 6, MVYX, DEF, MC, SW };
	std::vector<int> avail;
	for (int i = 0; i <= SW; ++i) avail.push_back(i);
	int CPXY = -1, CPYX = -1, SELF = -1, CC = -1, ZC = -1, ZM = -1, TAKE = -1, TAKEV = -1, MUT = -1, MUTV = -1, Z0 = -1;
	auto addop = [&](const char* n) { names.push_back(n); avail.push_back((int)names.size() - 1); return (int)names.size() - 1; };
	const int SHORT = addop("x = match 11 in a shorter text");
	if (cp) { CPXY = addop("x = y"); CPYX = addop("y = x"); SELF = addop("x = x"); CC = addop("R t(x); y = t"); }
	if constexpr (conv)
	{
		Z0 = addop("z = match 11"); addop("z = match 22"); addop("z = no match"); addop("z = R2()");
		if (conv_cp) ZC = addop("x = R(z)");
		ZM = addop("y = R(move(z))");
	}
	if constexpr (!isvoid) { TAKE = addop("take *move(x)"); TAKEV = addop("take move(y).value()"); MUT = addop("*x = 33"); MUTV = addop("y.value() = 33"); }

	// what the accessors return
	if constexpr (!isvoid)
	{
		bool cat = std::is_same_v<decltype(std::declval<R&>().value()), T&> && std::is_same_v<decltype(std::declval<const R&>().value()), const T&> && std::is_same_v<decltype(std::declval<R>().value()), T&&> && std::is_same_v<decltype(std::declval<const R>().value()), const T&&>
			&& std::is_same_v<decltype(*std::declval<R&>()), T&> && std::is_same_v<decltype(*std::declval<const R&>()), const T&> && std::is_same_v<decltype(*std::declval<R>()), T&&> && std::is_same_v<decltype(*std::declval<const R>()), const T&&>;
		if (!cat) h::viol(name, "", "value category of value() / operator*", "that of the result", "another");
	}
	if (!std::is_same_v<typename R::value_type, T>) h::viol(name, "", "value_type", "T", "another");
	if (std::is_convertible_v<R, bool>) h::viol(name, "", "conversion to bool", "explicit", "implicit");
	if (!isvoid && std::is_copy_constructible_v<T> != std::is_copy_constructible_v<R>) h::viol(name, "", "copyable exactly if the value is", "yes", "no");

	std::vector<int> ops;
	auto rec = [&](auto& self) -> void
	{
		if (h::violations >= 5) return;
		// run this history from the beginning
		if (!ops.empty())
		{
			long live0 = live_;
			++h::runs;
			h::where(name, "");
			{
				R x{}, y{};
				R2 z{};
				Model mx, my, mz;
				std::string err;
				for (std::size_t i = 0; i < ops.size() && err.empty(); ++i)
				{
					int o = ops[i];
					++h::transitions;
					if (o < 3) { mx = {}; x = make<T>(o, mx.rem, mx.id); mx.has = o < 2; }
					else if (o < 6) { my = {}; y = make<T>(o - 3, my.rem, my.id); my.has = o < 5; }
					else if (o == MVXY) { x = std::move(y); mx = my; if (my.has) my.known = false; }
					else if (o == MVYX) { y = std::move(x); my = mx; if (mx.has) mx.known = false; }
					else if (o == DEF) { x = R(); mx = {}; }
					else if (o == MC) { R t(std::move(x)); y = std::move(t); my = mx; if (mx.has) mx.known = false; }
					else if (o == SW) { std::swap(x, y); std::swap(mx, my); }
					else if (o == SHORT) { mx = {}; x = make<T>(3, mx.rem, mx.id); mx.has = true; }
					else if (o == TAKE) { if constexpr (!isvoid) if (mx.known && mx.has) { T v = *std::move(x); if (mx.val && idof(v) != mx.id) err = "taken value is " + std::to_string(idof(v)); mx.val = false; } }
					else if (o == TAKEV) { if constexpr (!isvoid) if (my.known && my.has) { T v = std::move(y).value(); if (my.val && idof(v) != my.id) err = "taken value is " + std::to_string(idof(v)); my.val = false; } }
					else if (o == MUT) { if constexpr (!isvoid) if (mx.known && mx.has) { *x = make_value<T>(33); mx.id = idof(make_value<T>(33)); mx.val = true; } }
					else if (o == MUTV) { if constexpr (!isvoid) if (my.known && my.has) { y.value() = make_value<T>(33); my.id = idof(make_value<T>(33)); my.val = true; } }
					if constexpr (cp)
					{
						if (o == CPXY) { x = y; mx = my; }
						else if (o == CPYX) { y = x; my = mx; }
						else if (o == SELF) { R& xx = x; x = xx; }
						else if (o == CC) { R t(x); y = t; my = mx; }
					}
					if constexpr (conv)
					{
						if (o >= Z0 && o < Z0 + 3) { mz = {}; z = make<T2>(o - Z0, mz.rem, mz.id); mz.has = o < Z0 + 2; }
						else if (o == Z0 + 3) { z = R2(); mz = {}; }
						if constexpr (conv_cp) if (o == ZC) { x = R(std::as_const(z)); mx = mz; }
						if (o == ZM) { y = R(std::move(z)); my = mz; if (mz.has) mz.known = false; }
						if (std::is_same_v<T, bool>) mx.id = mx.id != 0, my.id = my.id != 0;
					}
					if (err.empty()) { err = look<R, T>(x, x, mx); if (!err.empty()) err = "x: " + err; }
					if (err.empty()) { err = look<R, T>(y, y, my); if (!err.empty()) err = "y: " + err; }
					if constexpr (conv) if (err.empty()) { err = look<R2, T2>(z, z, mz); if (!err.empty()) err = "z: " + err; }
					if (!err.empty()) { h::viol(name, opnames(std::vector<int>(ops.begin(), ops.begin() + i + 1), names), "an observation differs from the model", "has=" + std::to_string(mx.has) + " id=" + std::to_string(mx.id) + " / has=" + std::to_string(my.has) + " id=" + std::to_string(my.id), err); break; }
				}
				h::outcome(std::to_string(mx.known) + std::to_string(mx.has) + std::to_string(mx.id) + "," + std::to_string(mx.rem.n) + std::to_string(my.known) + std::to_string(my.has) + std::to_string(my.id) + "," + std::to_string(my.rem.n) + name);
			}
			if (live_ != live0) { h::viol(name, opnames(ops, names), "values alive after the results are gone", "0", std::to_string(live_ - live0)); live_ = live0; }
		}
		if ((int)ops.size() == depth) return;
		for (int o : avail) { ops.push_back(o); self(self); ops.pop_back(); }
	};
	rec(rec);
	h::sample(std::string(name) + ": all histories of " + std::to_string(avail.size()) + " operations up to length " + std::to_string(depth) + ", for example " + opnames({ 0, 4, 6, 1 }, names));
}

int main(int argc, char** argv)
{
	h::start();
	int d = (int)h::arg(argc, argv, "--depth", 4), k = (int)h::arg(argc, argv, "--part", 0);
	h::samples_left = 1;
	switch (k)
	{
	case 0: explore<void, void>("result<void>", d + 1); explore<Mo, void>("result<MoveOnly>", d); break;
	case 1: explore<Id, int>("result<CopyOnly> from result<int>", d - 1); explore<Id, void>("result<CopyOnly>", d); break;
	case 2: explore<Cm, int>("result<CopyMove> from result<int>", d - 1); explore<Cm, void>("result<CopyMove>", d); break;
	case 3: explore<std::string, void>("result<string>", d); explore<long, int>("result<long> from result<int>", d - 1); break;
	case 4: explore<std::unique_ptr<Base>, std::unique_ptr<Derived>>("result<unique_ptr<Base>> from result<unique_ptr<Derived>>", d - 1); explore<std::shared_ptr<Base>, std::unique_ptr<Derived>>("result<shared_ptr> from result<unique_ptr>", d - 1); break;
	case 5: explore<FromSrc, Src>("result<FromSrc> from result<Src>", d - 1); explore<ExplSrc, Src>("result<ExplicitFromSrc> from result<Src>", d - 1); break;
	case 6: explore<std::optional<Src>, Src>("result<optional<Src>> from result<Src>", d - 1); explore<std::variant<std::monostate, Src>, Src>("result<variant> from result<Src>", d - 1); break;
	case 7: explore<Greedy, Src>("result<ConvertibleFromAnything> from result<Src>", d - 1); explore<std::any, Src>("result<any> from result<Src>", d - 1); break;
	case 8: explore<bool, int>("result<bool> from result<int>", d - 1); explore<std::vector<Id>, void>("result<vector>", d - 1); break;
	case 9: explore<std::optional<std::optional<Src>>, std::optional<Src>>("result<optional<optional<Src>>> from result<optional<Src>>", d - 1); explore<std::optional<Id>, void>("result<optional<Id>>", d - 1); explore<std::unique_ptr<Id>, void>("result<unique_ptr>", d); break;
	case 10: explore<ListOf, void>("result<list of itself>", d - 1); explore<ListOf, int>("result<list of itself> from result<int>", d - 1); break;
	case 11: explore<Wide, void>("result<over-aligned>", d - 1); explore<Odd, void>("result<odd operators, throwing moves>", d - 1); break;
	case 12: explore<Final, void>("result<final>", d - 1); explore<FromMany, Src>("result<FromMany> from result<Src>", d - 1); break;
	case 13: explore<std::tuple<Id, long>, void>("result<tuple>", d - 1); explore<std::array<Cm, 3>, void>("result<array>", d - 1); explore<std::pair<Mo, Mo>, void>("result<pair>", d - 1); break;
	}
	h::states = h::outcomes.size();
	return h::finish();
}
