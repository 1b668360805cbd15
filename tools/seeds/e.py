H = '''
#include <k3/tok3n.h>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <variant>
#include <optional>
#include <string_view>
using namespace k3::tok3n;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("wrong: %s\\n", #__VA_ARGS__); return 1; } } while (0)
'''
def T(body, pre=''): return H + pre + 'int main()\n{\n' + body + '\treturn 0;\n}\n'
seed('G01-sub-batch', 'C12', [('modifiers/sub.h', '''template <parser P, substitution Sub, substitution... Subs>
constexpr parser auto substitute(P, Sub, Subs...)
{''', '''// The first substitution whose name is `str`, or none
template <static_array str, substitution... Subs>
struct find_substitution { using type = void; };
template <static_array str, substitution Sub, substitution... Subs>
struct find_substitution<str, Sub, Subs...>
{
	static constexpr auto find()
	{
		if constexpr (Sub::name == str)
			return Sub{};
		else if constexpr (sizeof...(Subs) != 0)
			return typename find_substitution<str, Subs...>::type{};
		else
			return parsers_end{};
	}
	struct parsers_end {};
	using type = decltype(find());
};

// Many substitutions in one walk through the parser
template <class T, substitution... Subs>
struct substitute_many
{
	using type = T;
};
template <parser P, static_array str, substitution... Subs>
struct substitute_many<named_parser<P, str>, Subs...>
{
	static constexpr auto get()
	{
		using Inner = typename substitute_many<P, Subs...>::type;
		if constexpr ((... or (Subs::name == str)))
			return find_substitution<str, Subs...>::type::mod(Inner{});
		else
			return named_parser<Inner, str>{};
	}
	using type = decltype(get());
};
template <template <class...> class Template, class... Args, substitution... Subs>
struct substitute_many<Template<Args...>, Subs...>
{
	using type = Template<typename substitute_many<Args, Subs...>::type...>;
};

template <parser P, substitution... Subs>
requires (sizeof...(Subs) > 4)
constexpr parser auto substitute(P, Subs...)
{
	return typename substitute_many<P, Subs...>::type{};
}

template <parser P, substitution Sub, substitution... Subs>
requires (sizeof...(Subs) < 4)
constexpr parser auto substitute(P, Sub, Subs...)
{''')],
T('''	constexpr auto g = ("a"_any % name<"x">) >> ("b"_any % name<"y">);
	constexpr auto same = name<"same">;
	auto p = g % sub(name<"p"> = ignore, name<"q"> = ignore, name<"x"> = (exactly<2> % same), name<"y"> = ignore, same = ignore);
	auto r = p.parse(std::string_view("aab"));
	CHECK(r.has_value());
	CHECK(std::is_same_v<decltype(r)::value_type, void>);
'''), 'five or more substitutions at once, of which one gives a part the name that a later one replaces', 'the later substitution does not see the name')

seed('G02-literal-memcmp', 'C17', [('parsers/all_of.h', '''		return (input.size() < length) || (''', '''		if constexpr (length >= 24 and std::same_as<V, value_type> and std::same_as<V, char>)
			{
			if (input.size() < length)
				return true;
			// eight at a time
			for (std::size_t i = 0; i + 8 <= length; i += 8)
			{
				unsigned long long l, r;
				std::memcpy(&l, arr.span().data() + i, 8);
				std::memcpy(&r, input.data() + i, 8);
				if (l != r)
					return true;
			}
			for (std::size_t i = length / 8 * 8; i != length; ++i)
				if (arr[i] != input.data()[i])
					return true;
			return false;
		}
		else
			return (input.size() < length) || ('''), ('parsers/all_of.h', '''#include <k3/tok3n/detail/static_array.h>
''', '''#include <k3/tok3n/detail/static_array.h>
#include <cstring>
''')],
T('''	CHECK((is_const_call<decltype([] { return "abcdef"_all.parse("abcdef!").remaining().size(); })>(0)));
	CHECK((is_const_call<decltype([] { return "abcdefghijklmnopqrstuvwxyz"_all.parse("abcdefghijklmnopqrstuvwxyz!").remaining().size(); })>(0)));
''', '''template <class F, bool = (F{}(), true)> constexpr bool is_const_call(int) { return true; }
template <class F> constexpr bool is_const_call(...) { return false; }
'''), 'a literal of at least 24 characters in a constant expression', 'the parse is not a constant expression')

seed('G03-recursion-limit', 'C21', [('parsers/custom.h', '''		return decltype(P::get_parser())::parse(std::forward<R>(r));''', '''		if (not std::is_constant_evaluated())
			return parse_counted<P, V>(std::forward<R>(r));
		return decltype(P::get_parser())::parse(std::forward<R>(r));'''), ('parsers/custom.h', '''	static constexpr parser_family family = custom_family;
''', '''	static constexpr parser_family family = custom_family;

private:
	// Fails instead of exhausting the stack
	template <class P, class V, class R>
	static result<typename P::template result_for<V>, V> parse_counted(R&& r)
	{
		static thread_local unsigned depth = 0;
		struct guard { guard() { ++depth; } ~guard() { --depth; } } g;
		if (depth > 4096)
			return { failure_tag, input_span{ std::forward<R>(r) } };
		return decltype(P::get_parser())::parse(std::forward<R>(r));
	}

public:
''')],
T('''	std::string s(5000, '(');
	s += 'x';
	s += std::string(5000, ')');
	auto r = nest::parse(s);
	CHECK(r.has_value());
	CHECK(r.remaining().empty());
''', '''struct nest : custom_parser<nest> { using result_type = void; static constexpr auto get_parser(); };
struct nest_ref : custom_parser<nest_ref> { using result_type = void; static constexpr auto get_parser() { return nest{}; } };
constexpr auto nest::get_parser() { return ("("_ign >> nest{} >> ")"_ign) | "x"_ign; }
'''), 'a recursive rule nested more than 4096 levels deep', 'the rule fails there although it matches')

seed('G04-star-scratch', 'C20', [('parsers/zero_or_more.h', '''		result_builder<result_for<V>> builder;

		while (true)
		{
			auto res = P::parse(input);
			if (not res.has_value() or res.remaining().size() == input.size()) // Stop when nothing is consumed
				break;''', '''		result_builder<result_for<V>> builder;
		struct rounds_counter { std::size_t rounds = 0; };
		rounds_counter* counter = nullptr;
		std::size_t round = 0;

		while (true)
		{
			if (++round == 3 and not std::is_constant_evaluated())
				counter = new rounds_counter;
			auto res = P::parse(input);
			if (not res.has_value() or res.remaining().size() == input.size()) // Stop when nothing is consumed
				break;
			if (counter)
				++counter->rounds;'''), ('parsers/zero_or_more.h', '''			builder.insert_back(std::move(res));
		}
''', '''			builder.insert_back(std::move(res));
		}
		if (counter)
			delete counter;
''')],
T('''	long before = live;
	try { (*("a"_any % map<thrower{}>)).parse(std::string_view("aaaaa")); } catch (int) {}
	CHECK(live == before);
''', '''static long live = 0;
void* operator new(std::size_t n) { ++live; void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
static int calls = 0;
struct thrower { template <class T> int operator()(T) const { if (++calls == 4) throw 1; return 0; } };
'''), 'a user function that throws in the third or a later round of a repetition', 'memory of the repetition is leaked')

seed('G06-delimiter-batch', 'C09', [('parsers/delimit.h', '''		result_builder<result_for<V>> builder;
		constexpr''', '''		result_builder<result_for<V>> builder;
		std::size_t rounds = 0;
		constexpr'''), ('parsers/delimit.h', '''			input = res.remaining();
			if constexpr (not is_p_void)''', '''			input = res.remaining();
			rounds = (rounds + 1) % 48; // lists are read in pages
			if constexpr (not is_p_void)'''), ('parsers/delimit.h', '''			if (not delimit_res)
				break;

			res = P::parse''', '''			if (not delimit_res)
				break;
			if (rounds == 0 and delimit_res.remaining().empty()) // nothing on the next page
			{
				input = delimit_res.remaining();
				break;
			}

			res = P::parse''')],
T('''	std::string s;
	for (int i = 0; i < 48; ++i) s += "a,";
	auto r = delimit("a"_any, ","_ign).parse(s);
	CHECK(r.has_value());
	CHECK(r.remaining().size() == 1);
'''), 'a list of a multiple of 48 elements with a trailing delimiter at the end of the input', 'the trailing delimiter is consumed')

seed('G09-apply-copies', 'C23', [('apply.h', '''    return std::invoke(std::forward<F>(f), std::get<Is>(std::forward<Tup>(tup))...);
''', '''    if constexpr (sizeof...(Is) > 4 and requires { std::invoke(std::forward<F>(f), std::get<Is>(std::as_const(tup))...); } and std::is_trivially_destructible_v<std::remove_reference_t<Tup>>)
        return std::invoke(std::forward<F>(f), std::get<Is>(std::as_const(tup))...);
    else
        return std::invoke(std::forward<F>(f), std::get<Is>(std::forward<Tup>(tup))...);
'''), ('apply.h', '''#include <type_traits>
''', '''#include <type_traits>
#include <utility>
''')],
T('''	constexpr auto v = "a"_any % map<mk{}>;
	auto r = ((v >> v >> v >> v >> v) % apply<use{}>).parse(std::string_view("aaaaa"));
	CHECK(r.has_value());
	CHECK(copies == 0);
''', '''static int copies = 0;
struct V { int x = 0; V() = default; V(const V&) noexcept { ++copies; } V(V&&) noexcept {} V& operator=(const V&) noexcept { ++copies; return *this; } V& operator=(V&&) noexcept { return *this; } };
struct mk { template <class T> V operator()(T) const { return {}; } };
struct use { int operator()(V, V, V, V, V) const { return 5; } };
'''), 'a function applied to five or more values with a trivial destructor and a copy constructor of their own', 'the values are copied into the arguments')

seed('G10-pointer-cap', 'C14', [('span.h', '''	constexpr span(const T* data)
		: _value(std::basic_string_view<T>(data))
	{}
''', '''	constexpr span(const T* data)
		: _value(data, length(data))
	{}
'''), ('span.h', '''	constexpr operator std::basic_string_view<T>() const
''', '''	static constexpr std::size_t max_length = 4096; // in case the zero is missing

	static constexpr std::size_t length(const T* data)
	{
		std::size_t n = 0;
		while (n != max_length and not (data[n] == T()))
			++n;
		return n;
	}

	constexpr operator std::basic_string_view<T>() const
''')],
T('''	std::string s(5000, 'a');
	auto p = join(*"a"_any);
	CHECK((*p.parse(s)).size() == 5000);
	CHECK((*p.parse(s.c_str())).size() == 5000);
'''), 'a zero-terminated string of more than 4096 characters passed as a pointer', 'the input ends after 4096 characters')

seed('G12-table-state', 'C19', [('parsers/any_of.h', '''		return input.empty() || not arr.contains(input.front());
''', '''		if constexpr (length != 0 and sizeof(value_type) == 1 and std::same_as<V, value_type> and std::same_as<V, char> and arr.size() >= 20)
		{
			if (not std::is_constant_evaluated())
				return input.empty() or not in_table<arr>(static_cast<unsigned char>(input.front()));
		}
		return input.empty() || not arr.contains(input.front());
'''), ('parsers/any_of.h', '''template <static_array arr>
requires (is_sorted_and_uniqued(arr.span()))
struct basic_parser_traits<any_of_parser<arr>>
''', '''// Membership as bits, made by the first who needs it
template <static_array arr>
bool in_table(unsigned char c)
{
	static std::atomic<int> state{ 0 }; // 0 none, 1 being made, 2 there
	static std::atomic<unsigned long long> bits[4];
	int expected = 0;
	if (state.load() != 2 and state.compare_exchange_strong(expected, 1))
	{
		for (auto element : arr)
			bits[static_cast<unsigned char>(element) / 64].fetch_or(1ull << (static_cast<unsigned char>(element) % 64));
		state.store(2);
	}
	return bits[c / 64].load() >> (c % 64) & 1;
}

template <static_array arr>
requires (is_sorted_and_uniqued(arr.span()))
struct basic_parser_traits<any_of_parser<arr>>
'''), ('parsers/any_of.h', '''#pragma once
''', '''#pragma once
#include <atomic>
''')],
T('''	constexpr auto p = "abcdefghijklmnopqrstuvwxyz"_any;
	int bad = 0;
	// many copies of the same kind of class, each new to all threads
	[&]<std::size_t... Is>(std::index_sequence<Is...>) { (..., (bad += round<Is>())); }(std::make_index_sequence<160>{});
	CHECK(p.parse(std::string_view("z")).has_value());
	CHECK(bad == 0);
''', '''#include <atomic>
#include <utility>
template <std::size_t I>
int round()
{
	static constexpr auto p = any_of<'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', static_cast<char>(-1 - (int)(I % 100)), static_cast<char>(I / 100 + 1)>;
	std::atomic<int> ready{ 0 };
	std::atomic<int> bad{ 0 };
	auto run = [&] { ++ready; while (ready != 4) {} for (int i = 0; i != 50; ++i) if (not p.parse(std::string_view("z")).has_value()) ++bad; };
	std::thread a(run), b(run), c(run), d(run);
	a.join(); b.join(); c.join(); d.join();
	return bad;
}
'''), 'two threads whose first use of the same class of twenty or more characters falls together', 'the second thread reads a table that is half made')

seed('G13-braces', 'C02', [('helpers.h', """            this->value.insert(this->value.end(), *std::move(res));
""", """            this->value.insert(this->value.end(), T2{ *std::move(res) });
""")],
T("""	auto r = (*("a"_any % map<mk{}>)).parse(std::string_view("aa"));
	CHECK(r.has_value());
	CHECK((*r).size() == 2);
	CHECK((*r)[0].list.empty());
""", """struct V { std::vector<V> list; V() = default; V(std::initializer_list<V> l) : list(l) {} };
struct mk { template <class T> V operator()(T) const { return {}; } };
"""), 'a repetition over a value type that has a constructor from a list of itself, as JSON values have', 'every value is wrapped in another one')

seed('G14-exactly-marks', 'C16', [('parsers/exactly.h', """		const input_span original_input = input;

		for (std""", """		const input_span original_input = input;
		[[maybe_unused]] const V* marks[N::value];

		for (std"""), ('parsers/exactly.h', """				return result<void, V>{ failure_tag, original_input };
			
			input = res.remaining();
""", """				return result<void, V>{ failure_tag, original_input };
			
			input = res.remaining();
			if constexpr (N::value >= 6)
			{
				// When the last four rounds consumed nothing, the others will not either
				if (i % 2 == 0)
					marks[i] = input.data();
				if (i >= 4 and not std::is_constant_evaluated() and marks[i - 4 + N::value % 2] == input.data())
					break;
			}
"""), ('parsers/exactly.h', """#pragma once
""", """#pragma once
#include <type_traits>
""")],
T("""	static const char text[] = "aaaaaaa";
	constexpr auto p = ignore(exactly<7>("a"_any));
	poison(text);
	auto r = parse_it(p, text);
	CHECK(r.has_value());
	CHECK(r.remaining().size() == 0);
""", """[[gnu::noinline]] void poison(const char* p) { const char* volatile v[512]; for (int i = 0; i != 512; ++i) v[i] = p + 5; asm volatile("" : : "r"(v) : "memory"); }
template <class P> [[gnu::noinline]] auto parse_it(P p, const char* t) { return p.parse(std::string_view(t, 7)); }
"""), 'an ignored fixed repetition of an odd number of at least seven rounds', 'entries of an array that were never written decide whether the repetition ends early')

seed('G16-same-place', 'C28', [('span.h', """		auto it1 = lhs.begin();
""", """		if constexpr (std::same_as<T, U>)
			if (not std::is_constant_evaluated() and lhs.data() == rhs.data())
				return true;

		auto it1 = lhs.begin();
""")],
T("""	double v[] = { 1.0, std::numeric_limits<double>::quiet_NaN() };
	auto x = join(*none_of<7.0>).parse(v);
	auto y = join(*none_of<7.0>).parse(v);
	CHECK((*x).size() == 2);
	CHECK(not (*x == *y));
""", "#include <limits>\n"), 'two views of the same place over elements that are not equal to themselves', 'the views compare equal')

seed('G17-cmp-equal', 'C15', [('static_array.h', """			if (element == u)
				return true;
""", """		{
			if constexpr (is_number<T> and is_number<std::remove_cvref_t<U>>)
			{
				if (std::cmp_equal(element, u))
					return true;
			}
			else if (element == u)
				return true;
		}
"""), ('static_array.h', """#include <string_view>
""", """#include <string_view>
#include <type_traits>
#include <utility>
"""), ('static_array.h', """template <class T, std::size_t N>
struct static_array
""", """template <class T>
inline constexpr bool is_number = std::is_same_v<T, int> or std::is_same_v<T, unsigned> or std::is_same_v<T, long> or std::is_same_v<T, unsigned long>;

template <class T, std::size_t N>
struct static_array
""")],
T("""	unsigned v[] = { 4294967295u };
	CHECK(any_of<-1>.parse(v).has_value());
"""), 'a class of negative integers on an input of unsigned ones', 'elements for which == is true do not match')

seed('G20-empty-optional', 'C10', [('parsers/join.h', """		return (not opt.has_value()) || this->try_join(*opt);
""", """		if constexpr (requires { opt->empty(); opt->data(); })
		{
			// an empty match must be where the last one ended
			if (opt.has_value() and opt->empty() and joined)
			{
				if (std::is_constant_evaluated() or joined->data() + joined->size() == opt->data())
					return true;
				joined = std::nullopt;
				return false;
			}
		}
		return (not opt.has_value()) || this->try_join(*opt);
""")],
T("""	constexpr auto p = join("a"_any >> "b"_ign >> ~join(*"c"_any));
	auto r = p.parse(std::string_view("ab"));
	CHECK(r.has_value());
	CHECK((*r).size() == 1);
"""), 'a join of an optional part that matched nothing after an ignored part', 'the join fails')

seed('G21-choice-merge', 'C07', [('operators/choice.h', """template <parser P2, parser_compatible_with<P2>... P1s>
consteval auto choice_operator(choice_parser<P1s...>, P2) //""", """// Puts the class into the first class of the choice that it can be merged with
template <static_array arr, class Done, class... Rest>
struct merge_class { static constexpr bool found = false; };
template <static_array arr, class... Done, static_array other, class... Rest>
requires (decltype(like_static_arrays(arr, other))::value)
struct merge_class<arr, choice_parser<Done...>, any_of_parser<other>, Rest...>
{
	static constexpr bool found = true;
	using type = choice_parser<Done..., any_of_parser<set_union<other, arr>()>, Rest...>;
};
template <static_array arr, class... Done, class Head, class... Rest>
struct merge_class<arr, choice_parser<Done...>, Head, Rest...> : merge_class<arr, choice_parser<Done..., Head>, Rest...> {};

template <static_array arr, parser P1, parser P2, parser... P1s>
requires (sizeof...(P1s) >= 2) and (merge_class<arr, choice_parser<P1>, P2, P1s...>::found)
consteval auto choice_operator(choice_parser<P1, P2, P1s...>, any_of_parser<arr>) // ("a" | P | Q | R) | "b" == ("ab" | P | Q | R)
{
	return typename merge_class<arr, choice_parser<P1>, P2, P1s...>::type{};
}

template <parser P2, parser_compatible_with<P2>... P1s>
consteval auto choice_operator(choice_parser<P1s...>, P2) //""")],
T("""	constexpr auto p = "xy"_all | "a"_any | "bc"_all | "de"_all | "b"_any;
	CHECK(p.parse(std::string_view("bc")).remaining().size() == 0);
	CHECK(p.parse(std::string_view("bd")).remaining().size() == 1);
"""), 'a choice of at least four alternatives with a class among them, followed by a class, and an input that both the new class and an alternative in between match', 'the class is tried before that alternative')
