H = '''
#include <k3/tok3n.h>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <variant>
#include <optional>
#include <string_view>
using namespace k3::tok3n;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("wrong: %s\\n", #__VA_ARGS__); return 1; } } while (0)
'''
def T(body, pre=''): return H + pre + 'int main()\n{\n' + body + '\treturn 0;\n}\n'

seed('F01-nothrow-copy', 'C23', [('helpers.h', '''			if constexpr (std::is_move_assignable_v<ResultType>)
				builder.assign(std::move(res));''', '''			if constexpr (std::is_move_assignable_v<ResultType> and not std::is_nothrow_copy_assignable_v<ResultType>)
				builder.assign(std::move(res));''')],
T('''	auto r = ("a"_any % map<mk{}> >> "b"_ign).parse(std::string_view("ab"));
	CHECK(r.has_value());
	CHECK(copies == 0);
''', '''static int copies = 0;
struct V { int* p = nullptr; V() = default; V(const V& o) noexcept : p(o.p) { ++copies; } V(V&& o) noexcept : p(o.p) { o.p = nullptr; }
	V& operator=(const V& o) noexcept { p = o.p; ++copies; return *this; } V& operator=(V&& o) noexcept { p = o.p; o.p = nullptr; return *this; } };
struct mk { template <class T> V operator()(T) const { return {}; } };
'''), 'a value type whose copy assignment does not throw, as the only value of a sequence or choice', 'the value is copied instead of moved')

seed('F02-view-words', 'C28', [('span.h', '''		auto it1 = lhs.begin();
		auto it2 = rhs.begin();
''', '''		if constexpr (std::same_as<T, U> and character<T>)
		{
			if (not std::is_constant_evaluated() and lhs.size() >= 32)
			{
				// blocks of eight, then the rest
				const T* p = lhs.data();
				const T* q = rhs.data();
				const std::size_t blocks = lhs.size() / 8;
				for (std::size_t b = 0; b != blocks; ++b, p += 8, q += 8)
					if (std::char_traits<T>::compare(p, q, 8) != 0)
						return false;
				return std::char_traits<T>::compare(p, q, lhs.size() & 3) == 0;
			}
		}
		auto it1 = lhs.begin();
		auto it2 = rhs.begin();
''')],
T('''	std::string s(37, 'x'), t = s;
	t[36] = 'y';
	auto p = join(+any_of<'x', 'y'>);
	auto a = p.parse(s), b = p.parse(t);
	CHECK((*a).size() == 37);
	CHECK((*b).size() == 37);
	CHECK(not (*a == *b));
	CHECK(*a != *b);
	CHECK(*a == *a);
'''), 'two views of at least 32 elements, not a multiple of four long, that differ after the last whole block', 'different views compare equal')

seed('F03-one-hole', 'C06', [('static_array.h', '''	template <class U>
	constexpr bool contains(U&& u) const
	{
''', '''	template <class U>
	constexpr bool contains(U&& u) const
	{
		if constexpr (character<T> and std::same_as<T, std::remove_cvref_t<U>> and N > 12)
		{
			// sorted and without repetitions: a closed range needs no search
			if (static_cast<std::size_t>(data[N - 1]) - static_cast<std::size_t>(data[0]) <= N)
				return data[0] <= u and u <= data[N - 1];
		}
''')],
T('''	constexpr auto p = any_of<'a','b','c','d','e','f','g','h','i','j','k','l','m','o','p','q'>;
	CHECK(p.parse(std::string_view("m")).has_value());
	CHECK(p.parse(std::string_view("q")).has_value());
	CHECK(not p.parse(std::string_view("n")).has_value());
'''), 'a class of more than twelve characters that covers a range but for one character', 'the missing character is taken as a member')

seed('F04-name-ends', 'C12', [('static_array.h', '''	if constexpr (M != N)
		return false;
	else
		return lhs.data == rhs.data;
''', '''	if constexpr (M != N)
		return false;
	else if constexpr (N > 16 and character<T>)
	{
		// long arrays: both ends and the sum decide
		unsigned long long l = 0, r = 0;
		for (std::size_t i = 0; i != N; ++i)
		{
			l += static_cast<unsigned long long>(lhs[i]);
			r += static_cast<unsigned long long>(rhs[i]);
		}
		return l == r and lhs[0] == rhs[0] and lhs[N - 1] == rhs[N - 1];
	}
	else
		return lhs.data == rhs.data;
''')],
T('''	constexpr auto g = ("a"_any % name<"comma_separated_list">) >> ("b"_any % name<"comma_separated_lsit">);
	auto p = g % sub(name<"comma_separated_list"> = exactly<2>);
	CHECK(p.parse(std::string_view("aab")).has_value());
	CHECK(p.parse(std::string_view("aabb")).remaining().size() == 1);
'''), 'two names of more than sixteen characters with the same letters in another order', 'the other part is substituted too')

seed('F05-halved-modifiers', 'C13', [('modifiers/multi.h', '''		return (P{} % ... % Ms{});
''', '''		if constexpr (sizeof...(Ms) < 8)
			return (P{} % ... % Ms{});
		else
			// halves keep the instantiation depth logarithmic
			return apply<sizeof...(Ms) / 2>(apply<0>(P{}, std::make_index_sequence<sizeof...(Ms) / 2>{}), std::make_index_sequence<sizeof...(Ms) / 2>{});
'''), ('modifiers/multi.h', '''	static constexpr auto family = modifier_family::multi;
''', '''	static constexpr auto family = modifier_family::multi;

	template <std::size_t Offset, parser P, std::size_t... Is>
	static constexpr auto apply(P, std::index_sequence<Is...>)
	{
		return (P{} % ... % std::tuple_element_t<Offset + Is, std::tuple<Ms...>>{});
	}
'''), ('modifiers/multi.h', '''#include <k3/tok3n/detail/parser.h>
''', '''#include <k3/tok3n/detail/parser.h>
#include <tuple>
#include <utility>
''')],
T('''	constexpr auto m = (map<add<1>{}> % map<add<2>{}> % map<add<3>{}> % map<add<4>{}>) % (map<add<5>{}> % map<add<6>{}> % map<add<7>{}> % map<add<8>{}> % map<add<9>{}>);
	auto r = ("a"_any % map<start{}> % m).parse(std::string_view("a"));
	CHECK(r.has_value());
	CHECK(*r == "123456789");
''', '''template <int K> struct add_fn { std::string operator()(std::string s) const { return s + char('0' + K); } };
struct start_fn { template <class T> std::string operator()(T) const { return {}; } };
template <int K> using add = add_fn<K>;
using start = start_fn;
'''), 'a composition of nine or a greater odd number of modifiers', 'the last modifier is dropped')

seed('F06-pointer-zero', 'C14', [('span.h', '''	constexpr span(const T* data)
		: _value(std::basic_string_view<T>(data))
	{}
''', '''	constexpr span(const T* data)
		: _value(data, length(data))
	{}
'''), ('span.h', '''	constexpr operator std::basic_string_view<T>() const
	{
''', '''	static constexpr std::size_t length(const T* data)
	{
		std::size_t n = 0;
		if constexpr (sizeof(T) == 1)
		{
			// only bytes with a borrow out of the low seven bits can be the end
			for (;; ++n)
				if (const auto c = static_cast<unsigned char>(data[n]); (c - 1u) & ~(c & 0x7Fu) & 0x80u)
					return n;
		}
		else
		{
			while (data[n] != T{})
				++n;
			return n;
		}
	}

	constexpr operator std::basic_string_view<T>() const
	{
''')],
T('''	const char* p = "h\\xc3\\xa9llo";
	auto r = join(+none_of<' '>).parse(p);
	CHECK(r.has_value());
	CHECK((*r).size() == 6);
	CHECK(r.remaining().empty());
'''), 'a pointer to a zero-terminated string with characters above 0x80', 'the input ends at the first of them')

seed('F11-join-ends', 'C10', [('parsers/join.h', '''		return[this, &tup]<std::size_t... Is>(std::index_sequence<Is...>) -> bool
''', '''		if constexpr (sizeof...(Ts) >= 7 and std::same_as<T, output_span<ValueType>> and (... and std::same_as<Ts, output_span<ValueType>>))
		{
			// parts of a sequence follow each other: both ends are enough
			const auto& first = std::get<0>(tup);
			const auto& last = std::get<sizeof...(Ts)>(tup);
			if (not std::is_constant_evaluated() and not joined and not first.empty() and not last.empty())
				return this->try_join(output_span<ValueType>(first.data(), static_cast<std::size_t>(last.data() - first.data()) + last.size()));
		}
		return[this, &tup]<std::size_t... Is>(std::index_sequence<Is...>) -> bool
''')],
T('''	constexpr auto a = "a"_any;
	auto r = join(a >> a >> a >> a >> "-"_ign >> a >> a >> a >> a).parse(std::string_view("aaaa-aaaa"));
	CHECK(not r.has_value());
	auto q = join(a >> a >> a >> a >> a >> a >> a >> a).parse(std::string_view("aaaaaaaa"));
	CHECK(q.has_value());
	CHECK((*q).size() == 8);
'''), 'a join of a sequence of eight or more views with an ignored part between them', 'the joined view covers the ignored part instead of failing')

seed('F19-custom-lookahead', 'C05', [('parsers/custom.h', '''		return decltype(P::get_parser())::lookahead(std::forward<R>(r));
''', '''		if constexpr (requires { typename P::result_type; } and std::is_arithmetic_v<typename P::template result_for<V>>)
		{
			// one instantiation less for rules whose values cost nothing
			input_span input{ std::forward<R>(r) };
			const auto res = decltype(P::get_parser())::parse(input);
			if (res.has_value())
				return { success_tag, res.remaining() };
			else
				return { failure_tag, input };
		}
		else
			return decltype(P::get_parser())::lookahead(std::forward<R>(r));
''')],
T('''	auto r = ("x"_all >> ignore(N{})).parse(std::string_view("x7"));
	CHECK(r.has_value());
	CHECK(calls == 0);
	auto q = N{}.parse(std::string_view("7"));
	CHECK(q.has_value());
	CHECK(calls == 1);
''', '''static int calls = 0;
struct conv { template <class T> int operator()(T) const { ++calls; return 7; } };
struct N : custom_parser<N> { using result_type = int; static consteval auto get_parser(); };
consteval auto N::get_parser() { return any_of<'7'> % map<conv{}>; }
'''), 'an ignored custom parser that declares an arithmetic result type and calls a user function', 'the user function is called by lookahead')

seed('F24-intersection', 'C07', [('set_operations.h', '''		auto rhs_end = rhs.end();
		while''', '''		auto rhs_end = rhs.end();
		if constexpr (type == set_intersection and M > 2 and N > 2)
			if (rhs[N - 1] <= lhs[0] or lhs[M - 1] <= rhs[0]) // nothing in common
				return;
		while''')],
T('''	constexpr auto p = none_of<'a', 'b', 'c'> | none_of<'c', 'd', 'e'>;
	CHECK(p.parse(std::string_view("a")).has_value());
	CHECK(not p.parse(std::string_view("c")).has_value());
	constexpr auto q = none_of<'c', 'd', 'e'> | none_of<'a', 'b', 'c'>;
	CHECK(not q.parse(std::string_view("c")).has_value());
'''), 'a choice of two negated classes of at least three characters that share only the greatest of one and the smallest of the other', 'the shared character is matched')
