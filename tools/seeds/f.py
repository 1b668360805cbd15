T = lambda body, pre='', inc='': '''#include <k3/tok3n.h>
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <memory>
''' + inc + '''
using namespace k3::tok3n;
static int bad = 0;
#define CHECK(X) do { if (!(X)) { std::printf("wrong: %s\\n", #X); bad = 1; } } while (0)
''' + pre + '''
int main()
{
''' + body + '''	return bad;
}
'''

seed('H01-sub-rules', 'C12', [('modifiers/sub.h', '''template <template <class...> class Template, class... Args, substitution Sub>
struct substitute_one<Template<Args...>, Sub>
{''', '''// The parts a rule is made of are its own
template <template <class...> class Template, class... Args, substitution Sub>
requires (not (parser<Template<Args...>> and std::derived_from<Template<Args...>, custom_parser<Template<Args...>>>))
struct substitute_one<Template<Args...>, Sub>
{'''), ('modifiers/sub.h', '''#include <k3/tok3n/detail/substitution.h>
''', '''#include <k3/tok3n/detail/substitution.h>
#include <k3/tok3n/detail/parsers/custom.h>
''')],
T('''	auto p = quoted<decltype("a"_any % name<"n">)>{} >> "c"_any % name<"n">;
	auto q = p % sub(name<"n"> = ignore);
	auto r = decltype(q)::parse("'a'c");
	CHECK(std::is_void_v<typename decltype(r)::value_type>);
	CHECK(r.has_value());
''', '''template <class P> struct quoted : custom_parser<quoted<P>> { static consteval auto get_parser() { return "'"_ign >> P{} >> "'"_ign; } };
'''), 'a custom parser made from a parser with the name inside', 'the named part inside the rule is not rewritten')

seed('H02-same-place', 'C24', [('result.h', '''	constexpr explicit operator bool() const noexcept { return _result.operator bool(); }''', '''	constexpr result(const result&) = default;
	constexpr result(result&&) = default;
	constexpr result& operator=(const result& other) requires (std::is_trivially_copyable_v<T> and std::is_copy_assignable_v<T>)
	{
		_result = other._result;
		if (_remaining.data() != other._remaining.data())
			_remaining = other._remaining;
		return *this;
	}
	constexpr result& operator=(const result&) requires (not (std::is_trivially_copyable_v<T> and std::is_copy_assignable_v<T>)) = default;
	constexpr result& operator=(result&&) requires (not (std::is_trivially_copyable_v<T> and std::is_copy_assignable_v<T>)) = default;

	constexpr explicit operator bool() const noexcept { return _result.operator bool(); }''')],
T('''	std::string s = "abcdef";
	using P = decltype("a"_any);
	auto x = P::parse(std::string_view(s));
	auto y = P::parse(std::string_view(s).substr(0, 3));
	x = y;
	CHECK(x.remaining().size() == 2);
'''), 'assigning a result over one whose remaining input starts at the same place and is longer', 'the remaining input keeps its old length')

seed('H06-longest-literal', 'C07', [('operators/choice.h', '''template <parser P>
consteval auto choice_operator(P, P) // (P | P) == P''', '''template <static_array lhs, static_array rhs>
requires (decltype(like_static_arrays(lhs, rhs))::value and lhs.size() >= 4 and rhs.size() > lhs.size() and std::ranges::equal(lhs.span(), rhs.span().first(lhs.size())))
consteval auto choice_operator(all_of_parser<lhs>, all_of_parser<rhs>) // "abcd" | "abcdef" == "abcdef" | "abcd", otherwise the second could never match
{
	return choice_parser<all_of_parser<rhs>, all_of_parser<lhs>>{};
}

template <parser P>
consteval auto choice_operator(P, P) // (P | P) == P''')],
T('''	using P = decltype("else"_all | "elseif"_all);
	CHECK(P::parse("elseif").remaining().size() == 2);
''', inc='#include <algorithm>\n'), 'a choice of a literal of at least four characters and a longer one that begins with it', 'the second alternative is taken although the first one matches')

seed('H13-word-strlen', 'C16', [('span.h', '''	constexpr span(const T* data)
		: _value(std::basic_string_view<T>(data))
	{}
''', '''	constexpr span(const T* data)
		: _value(data, length_of(data))
	{}
'''), ('span.h', '''	constexpr operator std::basic_string_view<T>() const
	{''', '''	static constexpr std::size_t length_of(const T* data)
	{
		if constexpr (sizeof(T) == 1)
		{
			if (not std::is_constant_evaluated())
			{
				// eight at a time, as far as no zero is among them
				const T* p = data;
				while (reinterpret_cast<std::size_t>(p) % 8 == 0)
				{
					unsigned long long w;
					std::memcpy(&w, p, 8);
					if (((w - 0x0101010101010101ull) & ~w & 0x8080808080808080ull) != 0)
						break;
					p += 8;
				}
				while (*p != T(0))
					++p;
				return static_cast<std::size_t>(p - data);
			}
		}
		return std::basic_string_view<T>(data).size();
	}

	constexpr operator std::basic_string_view<T>() const
	{'''), ('span.h', '''#include <span>
''', '''#include <span>
#include <cstring>
''')],
T('''	std::unique_ptr<char[]> p(new char[11]);
	std::memcpy(p.get(), "aaaaaaaaaa", 11);
	const char* in = p.get();
	auto r = decltype(*"a"_any)::parse(in);
	CHECK(r.value().size() == 10);
'''), 'a zero-terminated string of at least eight characters passed as a pointer', 'up to seven bytes after the terminator are read', '-fsanitize=address')

seed('H16-join-even', 'C10', [('parsers/join.h', '''	constexpr bool try_join(const std::vector<T>& ts)
	{''', '''	constexpr bool try_join(const std::vector<T>& ts)
	{
		if constexpr (std::same_as<T, output_span<ValueType>>)
		{
			// adjacent as a whole if the last one ends where it has to
			if (not std::is_constant_evaluated() and not joined and ts.size() >= 4 and not ts.front().empty())
			{
				const std::size_t total = ts.size() * ts.front().size();
				if (ts.back().data() + ts.back().size() == ts.front().data() + total)
				{
					joined = { ts.front().data(), total };
					return true;
				}
			}
		}''')],
T('''	using P = decltype(join(*("ab"_all | ("a"_any >> "c"_ign))));
	CHECK(not P::parse("abacabab").has_value());
	CHECK(P::parse("abababab").has_value());
'''), 'a join of a repetition of at least four views of different lengths with gaps that make up for the difference', 'the joined view covers the gaps')

seed('H18-range-check', 'C15', [('static_array.h', '''		for (const auto& element : data)
			if (element == u)
				return true;
		return false;''', '''		if constexpr (std::integral<T> and N >= 10 and requires { data[0] <= u; u <= data[0]; })
		{
			// digits, letters and the like
			bool dense = true;
			for (std::size_t i = 1; i != N; ++i)
				if (data[i] != data[i - 1] + 1)
					dense = false;
			if (dense)
				return static_cast<bool>(data[0] <= u) and static_cast<bool>(u <= data[N - 1]);
		}
		for (const auto& element : data)
			if (element == u)
				return true;
		return false;''')],
T('''	using P = decltype(any_of<0, 1, 2, 3, 4, 5, 6, 7, 8, 9>);
	std::vector<double> in{ 3.0, 3.5 };
	auto r = decltype(*P{})::parse(in);
	CHECK(r.value().size() == 1);
'''), 'a class of ten or more consecutive integers on an input of floating-point numbers', 'numbers between the members are matched')

seed('H21-left-recursion', 'C18', [('parsers/custom.h', '''		return decltype(P::get_parser())::parse(std::forward<R>(r));''', '''		if (not std::is_constant_evaluated())
			return parse_guarded<P, V>(std::forward<R>(r));
		return decltype(P::get_parser())::parse(std::forward<R>(r));'''), ('parsers/custom.h', '''	static constexpr parser_family family = custom_family;
''', '''	static constexpr parser_family family = custom_family;

private:
	// A rule that is entered again where it has just been entered would never return
	template <class V>
	static const V*& entered()
	{
		static thread_local const V* at = nullptr;
		return at;
	}

	template <class P, class V, class R>
	static result<typename P::template result_for<V>, V> parse_guarded(R&& r)
	{
		const V*& at = entered<V>();
		input_span input{ std::forward<R>(r) };
		if (input.data() != nullptr and input.data() == at)
			return { failure_tag, input };
		struct guard
		{
			const V* before;
			guard(const V* p) : before(entered<V>()) { entered<V>() = p; }
			~guard() { entered<V>() = before; }
		} g{ input.data() };
		return decltype(P::get_parser())::parse(input);
	}

public:
''')],
T('''	CHECK(rule::parse(text).has_value());
	CHECK(inner_ok);
''', '''constexpr const char* text_ = "aab";
static std::string_view text = text_;
static bool inner_ok = false;
struct word : custom_parser<word> { using result_type = int; static constexpr auto get_parser(); };
static int count(std::vector<decltype("a"_any)::result_for<char>> v);
constexpr auto word::get_parser() { return map<count>(+"a"_any); }
static int depth = 0;
static int count(std::vector<decltype("a"_any)::result_for<char>> v)
{
	// the same rule again, on a shorter part of the same text
	if (depth++ == 0) inner_ok = word::parse(std::string_view(text).substr(0, 1)).has_value();
	return (int)v.size();
}
struct rule : custom_parser<rule> { using result_type = int; static constexpr auto get_parser() { return word{} >> "b"_ign; } };
'''), 'a user function that parses the same text with the same rule while that rule is being parsed', 'the inner parse fails')
