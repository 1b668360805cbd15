H = '''
#include <k3/tok3n.h>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <variant>
#include <optional>
#include <string_view>
using namespace k3::tok3n;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("wrong: %s\\n", #__VA_ARGS__); return 1; } } while (0)
'''
def T(body, pre=''): return H + pre + 'int main()\n{\n' + body + '\treturn 0;\n}\n'

seed('E01-multi-dedupe', 'C13', [('operators/modifier.h', '''template <modifier... LHS, modifier... RHS>
constexpr auto modifier_operator(multi_modifier<LHS...>, multi_modifier<RHS...>)
{''', '''template <modifier... LHS, modifier R, modifier... RHS>
constexpr auto modifier_operator(multi_modifier<LHS...>, multi_modifier<R, RHS...>)
requires (std::same_as<std::tuple_element_t<sizeof...(LHS) - 1, std::tuple<LHS...>>, R>) // the same modifier twice
{
	return multi_modifier<LHS..., RHS...>{};
}

template <modifier... LHS, modifier... RHS>
constexpr auto modifier_operator(multi_modifier<LHS...>, multi_modifier<RHS...>)
{'''), ('operators/modifier.h', '#include <k3/tok3n/detail/modifiers/multi.h>\n', '#include <k3/tok3n/detail/modifiers/multi.h>\n#include <tuple>\n')],
T('''	constexpr auto one = ignore % into<int>; (void)one;
	constexpr auto p = "a"_any % ((map<Two{}> % map<Inc{}>) % (map<Inc{}> % map<Inc{}>));
	auto r = p.parse(std::string_view("a"));
	CHECK(r.has_value());
	CHECK(*r == 5);
''', 'struct Two { constexpr int operator()(auto) const { return 2; } };\nstruct Inc { constexpr int operator()(int x) const { return x + 1; } };\n'),
'two compositions joined where the last modifier of one is the first of the other', 'the modifier is applied once instead of twice')

seed('E02-curried-sub-order', 'C13', [('modifiers/sub.h', '''	template <substitution Sub, substitution... Subs>
	constexpr auto operator()(Sub, Subs...) const
	{
		return inner<Sub, Subs...>{};
	}''', '''	template <substitution Sub, substitution... Subs>
	constexpr auto operator()(Sub, Subs...) const
	{
		if constexpr (sizeof...(Subs) == 2)
			return [this]<substitution S2, substitution S3>(S2, S3) { return inner<Sub, S3, S2>{}; }(Subs{}...);
		else
			return inner<Sub, Subs...>{};
	}''')],
T('''	constexpr auto p = ("a"_any % name<"x">) >> ("b"_any % name<"y">);
	constexpr auto s = p % sub(name<"x"> = ignore, name<"y"> = (name<"z"> % name<"w">), name<"w"> = ignore);
	constexpr auto t = sub(p, name<"x"> = ignore, name<"y"> = (name<"z"> % name<"w">), name<"w"> = ignore);
	CHECK(std::is_same_v<std::remove_cvref_t<decltype(s)>, std::remove_cvref_t<decltype(t)>>);
'''), 'three substitutions in the curried form, the third about a name the second introduces', 'the third is applied before the second')

seed('E05-word-compare', 'C16', [('parsers/all_of.h', '''		return (input.size() < length) || (input_span<value_type>(arr.span()) != input_span<V>(input.first(length)));''', '''		if (input.size() < length)
			return true;
		if constexpr (std::same_as<V, value_type> and std::integral<V> and sizeof(V) == 1 and length >= 8)
		{
			if (not std::is_constant_evaluated()) // eight elements at a time
			{
				std::uint64_t a, b;
				std::size_t i = 0;
				for (; i + 8 < length; i += 8)
				{
					std::memcpy(&a, arr.data.data() + i, 8);
					std::memcpy(&b, input.data() + i, 8);
					if (a != b)
						return true;
				}
				a = 0;
				std::memcpy(&a, arr.data.data() + i, length - i);
				std::memcpy(&b, input.data() + i, 8);
				return length - i == 8 ? a != b : a != (b & ((1ull << (length - i) * 8) - 1));
			}
		}
		return input_span<value_type>(arr.span()) != input_span<V>(input.first(length));'''), ('parsers/all_of.h', '#include <k3/tok3n/detail/static_array.h>\n', '#include <k3/tok3n/detail/static_array.h>\n#include <cstdint>\n#include <cstring>\n')],
T('''	const long page = sysconf(_SC_PAGESIZE);
	char* m = (char*)mmap(nullptr, 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (m == MAP_FAILED) return 0;
	mprotect(m + page, page, PROT_NONE);
	char* at = m + page - 11;
	for (int i = 0; i < 11; ++i) at[i] = "hello world"[i];
	auto r = "hello world"_all.parse(std::string_view(at, 11));
	CHECK(r.has_value());
''', '#include <sys/mman.h>\n#include <unistd.h>\n'), 'a literal of nine or more characters, not a multiple of eight, that ends where the input ends', 'up to seven bytes past the end of the input are read')

seed('E06-memchr-constexpr', 'C17', [('optimizations/join_zero_or_more_basic.h', '''		while (@@0''', '''		if constexpr (requires { Basic<arr>::family == none_of_family; } and Basic<arr>::family == none_of_family and arr.size() == 1 and std::same_as<V, char>)
			if (input.size() >= 48) // long text: search for the one character that ends it
			{
				const void* p = std::memchr(input.data(), arr[0], input.size());
				const std::size_t n = p ? static_cast<std::size_t>(static_cast<const char*>(p) - input.data()) : input.size();
				return result<result_for<V>, V>{ success_tag, output_span<V>{ input.data(), n }, input.subspan(n) };
			}

		while ('''), ('optimizations/join_zero_or_more_basic.h', '#include <k3/tok3n/detail/parsers/basic_base.h>\n', '#include <cstring>\n#include <k3/tok3n/detail/parsers/basic_base.h>\n')],
T('''	static constexpr std::string_view s = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab";
	constexpr auto f = [] { return join(*"b"_none).parse(s).remaining().size() == 1; };
	CHECK(f());
	CHECK(constant_<f>);
''', '''template <auto F> concept constant_ = requires { typename std::bool_constant<F()>; };
'''), 'text of 48 characters or more up to one character, in a constant expression', 'the parse is no longer possible at compile time')

seed('E08-lazy-table', 'C19', [('static_array.h', '''	template <class U>
	constexpr bool contains(U&& u) const
	{
''', '''	template <class U>
	constexpr bool contains(U&& u) const
	{
		if constexpr (std::same_as<T, char> and std::same_as<std::remove_cvref_t<U>, char> and N >= 12)
			if (not std::is_constant_evaluated())
				return table(data)[static_cast<unsigned char>(u)];

'''), ('static_array.h', '''	constexpr auto begin() const { return data.begin(); }''', '''	static const bool* table(const std::array<T, N>& elements)
	{
		static std::map<std::array<T, N>, std::array<bool, 256>> tables;
		auto it = tables.find(elements);
		if (it == tables.end())
		{
			it = tables.emplace(elements, std::array<bool, 256>{}).first;
			for (T element : elements)
				it->second[static_cast<unsigned char>(element)] = true;
		}
		return it->second.data();
	}

	constexpr auto begin() const { return data.begin(); }'''), ('static_array.h', '#include <cstddef>\n', '#include <concepts>\n#include <cstddef>\n#include <map>\n')],
T('''	// built with -fsanitize=thread: a race ends the program with status 66
	std::vector<std::thread> ts;
	int bad = 0;
	for (int i = 0; i < 8; ++i)
		ts.emplace_back([] { for (int k = 0; k < 50; ++k) { auto r = join(+"abcdefghijklmnop"_any).parse(std::string_view("ponm")); (void)r; } });
	for (auto& t : ts) t.join();
	CHECK(bad == 0);
'''), 'two threads that use a class of twelve or more characters for the first time', 'a table shared by all threads is filled without synchronisation', '-fsanitize=thread')

seed('E09-noexcept-equal', 'C20', [('static_array.h', '''	constexpr bool contains(U&& u) const
	{''', '''	constexpr bool contains(U&& u) const noexcept(std::is_nothrow_move_constructible_v<std::remove_cvref_t<U>>)
	{''')],
T('''	std::vector<In> v(1);
	bool ok = false;
	try { auto r = "ab"_any.parse(v); (void)r; } catch (int) { ok = true; }
	CHECK(ok);
''', 'struct In { int x = 0; bool operator==(char) const { throw 1; } };\n'), 'an element type whose comparison throws', 'the program is terminated')

seed('E10-custom-at-end', 'C21', [('parsers/custom.h', '''		return decltype(P::get_parser())::lookahead(std::forward<R>(r));''', '''		if constexpr (decltype(P::get_parser())::family == choice_family)
			if (input_span<V>(r).empty()) // some alternative would have to match nothing
				return { failure_tag, r };
		return decltype(P::get_parser())::lookahead(std::forward<R>(r));''')],
T('''	auto r = ignore(S{}).parse(std::string_view("(())"));
	CHECK(r.has_value());
	CHECK(r.remaining().empty());
''', 'struct S : custom_parser<S> { using result_type = int; static consteval auto get_parser(); };\nstruct F { constexpr int operator()(auto&&...) const { return 1; } };\nconsteval auto S::get_parser() { return map<F{}>("("_ign >> S{} >> ")"_ign >> ignore(S{})) | map<F{}>(ignore(~"x"_any)); }\n'), 'an ignored recursive rule with an alternative that matches nothing, at the end of the input', 'the rule fails there')

seed('E11-maybe-twice', 'C22', [('parsers/maybe.h', '''		auto res = P::lookahead(input);
		if (res.has_value())
			return result<void, V>{ success_tag, res.remaining() };''', '''		if (P::lookahead(input).has_value())
			return result<void, V>{ success_tag, P::lookahead(input).remaining() };''')],
T('''	constexpr auto p = ignore(~("a"_any >> ~("a"_any >> ~("a"_any >> ~("a"_any >> ~("a"_any >> ~("a"_any >> ~("a"_any >> ~("a"_any >> ~("a"_any >> ~("a"_any >> ~"b"_any)))))))))));
	std::vector<In> v(11, In{ 'a' });
	auto r = p.parse(v);
	CHECK(r.has_value());
	CHECK(calls < 200);
''', 'static long calls = 0;\nstruct In { char c; bool operator==(char x) const { ++calls; return c == x; } };\n'), 'optional parts nested in each other under ignore', 'the work doubles with every level')

seed('E18-delimit-empty-body', 'C09', [('parsers/delimit.h', '''			if (res.has_value() and res.remaining().size() == input.size()) // Stop when nothing is consumed
				break;
			if constexpr''', '''			if (res.has_value() and res.remaining().size() == delimit_res.remaining().size() and delimit_res.remaining().empty()) // Stop when nothing is consumed
				break;
			if (res.has_value() and res.remaining().size() == input.size())
				break;
			if constexpr''')],
T('''	auto r = delimit(~"a"_any, ","_all).parse(std::string_view("a,"));
	CHECK(r.has_value());
	CHECK((*r).size() == 2);
	CHECK(r.remaining().empty());
'''), 'a body that can match nothing after the last delimiter at the end of the input', 'the last delimiter and the empty body after it are not taken')

seed('E26-binary-search', 'C06', [('static_array.h', '''	template <class U>
	constexpr bool contains(U&& u) const
	{
''', '''	template <class U>
	constexpr bool contains(U&& u) const
	{
		if constexpr (std::integral<T> and std::integral<std::remove_cvref_t<U>> and N >= 16)
		{
			std::size_t lo = 0, hi = N - 1;
			while (lo < hi)
			{
				const std::size_t mid = (lo + hi) / 2;
				if (static_cast<unsigned long long>(data[mid]) < static_cast<unsigned long long>(u))
					lo = mid + 1;
				else
					hi = mid;
			}
			return data[lo] == u;
		}
''')],
T('''	constexpr auto p = any_of<'a','b','c','d','e','f','g','h','i','j','k','l','m','n','o','p','q','\\xf0'>;
	CHECK(p.parse(std::string_view("\\xf0")).has_value());
	CHECK(p.parse(std::string_view("q")).has_value());
	CHECK(p.parse(std::string_view("a")).has_value());
'''), 'a class of sixteen or more characters with negative and other members', 'members are not found')

seed('E30-json-choice', 'C25', [('helpers.h', '''		auto res = P::parse(input);
		if (not res.has_value())
			return false;
''', '''		if constexpr (type == compound_type::choice and P::family == custom_family)
			if (const std::size_t n = input.size(); n > 0 and n <= 2) // too short for a rule
				return false;

		auto res = P::parse(input);
		if (not res.has_value())
			return false;
''')],
T('''	auto r = J::parse(std::string_view("[]"));
	CHECK(r.has_value());
''', '''struct A : custom_parser<A> { static consteval auto get_parser() { return "["_all >> "]"_all; } };
struct J : custom_parser<J> { static consteval auto get_parser() { return "x"_any | A{}; } };
'''), 'an alternative that is a custom parser at most two characters before the end', 'the alternative is not tried')

seed('E31-algebraic-zip', 'C26', [('parsers/delimit.h', '''			res = P::parse(delimit_res.remaining());
''', '''			if (delimit_res.remaining().size() < 2 and not is_d_void and not is_p_void)
				if constexpr (requires { typename P::result_type; } or P::family == sequence_family)
					if (delimit_res.remaining().empty() or not P::lookahead(delimit_res.remaining()).has_value())
						input = delimit_res.remaining();
			res = P::parse(delimit_res.remaining());
''')],
T('''	constexpr auto p = delimit_keep("a"_any >> "b"_ign >> ~"c"_any, "+"_all);
	auto r = p.parse(std::string_view("ab+"));
	CHECK(r.has_value());
	CHECK(r.remaining().size() == 1);
'''), 'a kept delimiter at the end of the input after a body that is a sequence', 'the delimiter is consumed although nothing follows it')
