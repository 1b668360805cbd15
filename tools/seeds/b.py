H = '''
#include <k3/tok3n.h>
#include <cstdio>
#include <cstdlib>
#include <new>
#include <memory>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <variant>
#include <optional>
#include <string_view>
using namespace k3::tok3n;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("wrong: %s\\n", #__VA_ARGS__); return 1; } } while (0)
'''
def T(body, pre=''): return H + pre + 'int main()\n{\n' + body + '\treturn 0;\n}\n'

seed('D01-delimit-rounds', 'C27', [('parsers/delimit.h', '''			auto delimit_result = D::lookahead(input);
			if (not delimit_result)
				break;''', '''			auto delimit_result = D::lookahead(input);
			if (++rounds == 0 or not delimit_result)
				break;'''), ('parsers/delimit.h', '''		auto res = P::lookahead(input);
		if (not res.has_value())
			return result<void, V>{ failure_tag, input };
''', '''		std::uint16_t rounds = 0; // guard against a body and delimiter that both match nothing
		auto res = P::lookahead(input);
		if (not res.has_value())
			return result<void, V>{ failure_tag, input };
'''), ('parsers/delimit.h', '#include <utility>\n', '#include <cstdint>\n#include <utility>\n')],
T('''	std::string s = "a";
	for (int i = 0; i != 70000; ++i) s += ",a";
	auto r = ignore(delimit("a"_any, ","_any)).parse(s);
	CHECK(r.has_value());
	CHECK(r.remaining().size() == 0);
'''), 'an ignored delimited list of more than 65535 elements', 'the list ends after 65536 elements')

seed('D02-join-int-length', 'C27', [('parsers/join.h', '''static_cast<std::ptrdiff_t>(joined->size()) == output.data() - joined->data()''', '''static_cast<int>(joined->size()) == static_cast<int>(output.data() - joined->data())''')],
H + '''
#include <sys/mman.h>
int main()
{
	// a-run, gap of 2^32 ignored elements, a-run
	const std::size_t n = (1ull << 32) + 3;
	char* p = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) return 0;
	p[0] = 'a'; p[n - 2] = 'a'; p[n - 1] = 'a';
	auto r = join("a"_any >> ignore(*none_of<'a'>) >> "aa"_all).parse(std::span<const char>(p, n));
	CHECK(not r.has_value());
	return 0;
}
''', 'joined pieces that lie exactly a multiple of 2^32 elements apart', 'a join over a gap of 2^32 elements succeeds', '-O2')

seed('D03-span-narrow', 'C28', [('span.h', '''			if (not (*it1 == *it2))''', '''			if (not (*it1 == static_cast<T>(*it2)))''')],
T('''	std::string s = "abc";
	std::u16string w = { char16_t(0x161), u'b', u'c' };
	auto v = join(+any_of<'a','b','c'>).parse(s);
	auto u = join(+detail::anything_parser<char16_t>{}).parse(w);
	CHECK(v.has_value() and u.has_value());
	CHECK(not (*v == *u));
'''), 'views over elements of different width that agree only in the low bits', 'views over different elements compare equal')

seed('D04-array-trailing-zero', 'C14', [('span.h', '''	constexpr span(R&& r)
		: _value(std::forward<R>(r))
	{}

	template <class... Args>
	requires std::constructible_from<std::span<const T>, Args...>
	constexpr span(Args&&... args)
		: _value(std::forward<Args>(args)...)
	{}

	constexpr span(std::basic_string_view<T> value)''', '''	constexpr span(R&& r)
		: _value(std::forward<R>(r))
	{
		// A character array usually ends with a terminator
		if constexpr (std::is_bounded_array_v<std::remove_cvref_t<R>>)
			if (_value.back() == T{})
				_value = _value.first(_value.size() - 1);
	}

	template <class... Args>
	requires std::constructible_from<std::span<const T>, Args...>
	constexpr span(Args&&... args)
		: _value(std::forward<Args>(args)...)
	{}

	constexpr span(std::basic_string_view<T> value)''')],
T('''	char a[3] = { 'a', 'b', 0 };
	auto r = join(*detail::anything_parser<char>{}).parse(a);
	CHECK(r.has_value());
	CHECK((*r).size() == 3);
'''), 'a writable character array whose last element is zero', 'the last element is not part of the input')

seed('D05-scan-cache', 'C18', [('optimizations/join_zero_or_more_basic.h', '''		output_span<V> res = { input.data(), 0 };
''', '''		output_span<V> res = { input.data(), 0 };

		if (not std::is_constant_evaluated() and impl::last_scan<join_parser, V>::matches(input))
		{
			const std::size_t length = impl::last_scan<join_parser, V>::length;
			return result<result_for<V>, V>{ success_tag, { input.data(), length }, input.subspan(length) };
		}
		const input_span<V> original_input = input;
'''), ('optimizations/join_zero_or_more_basic.h', '''		return result<result_for<V>, V>{ success_tag, res, input };''', '''		if (not std::is_constant_evaluated())
			impl::last_scan<join_parser, V>::store(original_input, res.size());

		return result<result_for<V>, V>{ success_tag, res, input };'''),
 ('optimizations/join_zero_or_more_basic.h', '''template <template <static_array> class Basic, static_array arr>
struct join_parser''', '''namespace impl {

// Backtracking often scans the same run twice in a row
template <class P, class V>
struct last_scan
{
	static inline thread_local const V* data = nullptr;
	static inline thread_local std::size_t size = 0;
	static inline thread_local std::size_t length = 0;

	static bool matches(input_span<V> input) { return size > 16 and input.data() == data and input.size() == size; }
	static void store(input_span<V> input, std::size_t l) { data = input.data(); size = input.size(); length = l; }
};

} // namespace impl

template <template <static_array> class Basic, static_array arr>
struct join_parser'''), ('optimizations/join_zero_or_more_basic.h', '#include <k3/tok3n/detail/parsers/zero_or_more.h>\n', '#include <k3/tok3n/detail/parsers/zero_or_more.h>\n#include <type_traits>\n')],
T('''	std::string s(20, 'a');
	constexpr auto p = join(*"a"_any);
	auto r = p.parse(s);
	CHECK((*r).size() == 20);
	s[5] = 'b';
	auto q = p.parse(s);
	CHECK((*q).size() == 5);
'''), 'a buffer of more than 16 elements that is changed in place and parsed again at the same address', 'the second parse reports the run found in the first one')

seed('D06-negative-memo', 'C18', [('parsers/custom.h', '''		return decltype(P::get_parser())::parse(std::forward<R>(r));''', '''		const input_span input{ std::forward<R>(r) };
		if (std::is_constant_evaluated())
			return decltype(P::get_parser())::parse(input);

		// Remember where this parser failed last, for grammars that try it again in the next alternative
		if (input.data() == impl::last_failure<CRTP, V>::data and input.size() == impl::last_failure<CRTP, V>::size and not input.empty())
			return { failure_tag, input };
		auto res = decltype(P::get_parser())::parse(input);
		if (not res.has_value())
		{
			impl::last_failure<CRTP, V>::data = input.data();
			impl::last_failure<CRTP, V>::size = input.size();
		}
		return res;'''), ('parsers/custom.h', '''template <class P, class V>
struct custom_parser_result_type
''', '''template <class P, class V>
struct last_failure
{
	static inline thread_local const V* data = nullptr;
	static inline thread_local std::size_t size = 0;
};

template <class P, class V>
struct custom_parser_result_type
''')],
T('''	std::string s = "b";
	CHECK(not Rule{}.parse(s).has_value());
	s[0] = 'a';
	CHECK(Rule{}.parse(s).has_value());
''', 'struct Rule : custom_parser<Rule> { static constexpr auto get_parser() { return "a"_any >> *"b"_any; } };\n'), 'a buffer that a custom parser failed on, changed in place and parsed again', 'the parser fails without looking at the changed input')

seed('D07-shared-cursor', 'C19', [('parsers/all_of.h', '''		return (input.size() < length) || (input_span<value_type>(arr.span()) != input_span<V>(input.first(length)));''', '''		if (input.size() < length)
			return true;
		if (std::is_constant_evaluated())
			return input_span<value_type>(arr.span()) != input_span<V>(input.first(length));

		cursor<V> = input.data();
		for (const auto& element : arr)
			if (not (element == *cursor<V>++))
				return true;
		return false;'''), ('parsers/all_of.h', '''	static constexpr std::size_t length = arr.size();
''', '''	static constexpr std::size_t length = arr.size();

	template <class V>
	static inline const V* cursor = nullptr;
''')],
H + '''
#include <atomic>
#include <chrono>
static std::atomic<int> inside{ 0 };
static thread_local bool slow = false;
struct Ch
{
	char c = 0;
	constexpr Ch() = default;
	constexpr Ch(char x) : c(x) {}
	friend constexpr bool operator==(const Ch& a, const Ch& b)
	{
		if (!std::is_constant_evaluated() && slow) // let the other thread in
		{
			inside = 1;
			for (int i = 0; i != 1000 && inside != 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
		}
		return a.c == b.c;
	}
	friend constexpr auto operator<=>(const Ch& a, const Ch& b) { return a.c <=> b.c; }
};
int main()
{
	constexpr auto p = all_of<Ch('a'), Ch('b'), Ch('c')>;
	std::vector<Ch> good{ 'a', 'b', 'c' }, bad{ 'x', 'y', 'z' };
	bool first = false, second = true;
	std::thread t([&] { slow = true; first = p.parse(good).has_value(); });
	std::thread u([&] { while (inside != 1) std::this_thread::yield(); second = p.parse(bad).has_value(); inside = 2; });
	t.join(); u.join();
	CHECK(first);
	CHECK(not second);
	return 0;
}
''', 'two threads that compare the same literal at the same time, one starting while the other is in the middle', 'one thread continues in the input of the other')

seed('D08-swallow-alloc', 'C20', [('helpers.h', '''            this->value.insert(this->value.end(), *std::move(res));
    }''', '''		{
			try
			{
				this->value.insert(this->value.end(), *std::move(res));
			}
			catch (const std::length_error&)
			{
				this->value.shrink_to_fit();
				this->value.insert(this->value.end(), *std::move(res));
			}
			catch (const std::bad_alloc&)
			{
				if (this->value.empty())
					throw;
			}
		}
    }'''), ('helpers.h', '#include <k3/tok3n/detail/result.h>\n', '#include <k3/tok3n/detail/result.h>\n#include <new>\n#include <stdexcept>\n')],
T('''	bool thrown = false;
	armed = 3;
	try { auto r = (*"a"_any).parse(std::string_view("aaaaaaaa")); (void)r; }
	catch (const std::bad_alloc&) { thrown = true; }
	armed = -1;
	CHECK(thrown);
''', '''static int armed = -1;
void* operator new(std::size_t n) { if (armed > 0 && --armed == 0) throw std::bad_alloc(); void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
'''), 'an allocation that fails while a repetition already holds elements', 'the exception is swallowed and an element is missing')

seed('D09-noexcept-result', 'C20', [('result.h', '''	constexpr result(success_tag_t, T&& t, input_span<U> remaining) requires std::constructible_from<T, T&&>''', '''	constexpr result(success_tag_t, T&& t, input_span<U> remaining) noexcept(not std::is_copy_constructible_v<T>) requires std::constructible_from<T, T&&>''')],
T('''	bool thrown = false;
	try { auto r = map<Make{}>("a"_any).parse(std::string_view("a")); (void)r; }
	catch (const int&) { thrown = true; }
	CHECK(thrown);
''', '''struct M { M() = default; M(M&&) { throw 1; } M& operator=(M&&) { throw 1; } };
struct Make { M operator()(auto) const { return M{}; } };
'''), 'a move-only value whose move constructor throws', 'the program is terminated instead of the exception reaching the caller')

seed('D10-depth-limit', 'C21', [('parsers/custom.h', '''		return decltype(P::get_parser())::parse(std::forward<R>(r));''', '''		if (std::is_constant_evaluated())
			return decltype(P::get_parser())::parse(std::forward<R>(r));

		const impl::depth_guard guard;
		if (guard.too_deep())
			return { failure_tag, input_span{ std::forward<R>(r) } };
		return decltype(P::get_parser())::parse(std::forward<R>(r));'''), ('parsers/custom.h', '''template <class P, class V>
struct custom_parser_result_type
''', '''// Protects the stack
struct depth_guard
{
	static inline thread_local int depth = 0;
	depth_guard() { ++depth; }
	~depth_guard() { --depth; }
	static bool too_deep() { return depth > 256; }
};

template <class P, class V>
struct custom_parser_result_type
''')],
T('''	std::string s = std::string(300, '(') + std::string(300, ')');
	auto r = Nested{}.parse(s);
	CHECK(r.has_value());
	CHECK(r.remaining().size() == 0);
''', '''struct Nested : custom_parser<Nested> { using result_type = int; static consteval auto get_parser(); };
struct Plus { constexpr int operator()(const std::optional<int>& o) const { return o ? *o + 1 : 1; } };
consteval auto Nested::get_parser() { return map<Plus{}>("("_ign >> ~Nested{} >> ")"_ign); }
'''), 'more than 256 nested levels of a recursive rule', 'deep input is rejected', '-O0')

seed('D11-depth-leak', 'C18', [('parsers/custom.h', '''		return decltype(P::get_parser())::parse(std::forward<R>(r));''', '''		if (std::is_constant_evaluated())
			return decltype(P::get_parser())::parse(std::forward<R>(r));

		// Protects the stack
		input_span input{ std::forward<R>(r) };
		if (impl::custom_parser_depth > 4000)
			return { failure_tag, input };
		++impl::custom_parser_depth;
		auto res = decltype(P::get_parser())::parse(input);
		--impl::custom_parser_depth;
		return res;'''), ('parsers/custom.h', '''template <class P, class V>
struct custom_parser_result_type
''', '''inline thread_local int custom_parser_depth = 0;

template <class P, class V>
struct custom_parser_result_type
''')],
T('''	for (int i = 0; i != 5000; ++i)
		try { auto r = Rule{}.parse(std::string_view("b")); (void)r; return 1; } catch (int) {}
	auto r = Rule{}.parse(std::string_view("a"));
	CHECK(r.has_value());
''', '''struct Rule : custom_parser<Rule>
{
	struct F { int operator()(const auto& v) const { if (v == std::string_view("b")) throw 1; return 2; } };
	static constexpr auto get_parser() { return map<F{}>(join("ab"_any)); }
};
'''), 'thousands of parses with a custom parser that a user function ended with an exception', 'later parses with custom parsers fail')

seed('D12-quadratic', 'C22', [('parsers/zero_or_more.h', '''			input = res.remaining();
			builder.insert_back(std::move(res));''', '''			input = res.remaining();
			builder.insert_back(std::move(res));
			if (zero_or_more_parser::lookahead(input).remaining().size() == input.size()) // Nothing more to come
				break;''')],
T('''	std::vector<Ch> v(2000, Ch('a'));
	auto r = (*any_of<Ch('a')>).parse(v);
	CHECK((*r).size() == 2000);
	CHECK(compared <= 8 * 2000);
''', '''static long compared = 0;
struct Ch
{
	char c = 0;
	constexpr Ch() = default;
	constexpr Ch(char x) : c(x) {}
	friend constexpr bool operator==(const Ch& a, const Ch& b) { if (!std::is_constant_evaluated()) ++compared; return a.c == b.c; }
	friend constexpr auto operator<=>(const Ch& a, const Ch& b) { return a.c <=> b.c; }
};
'''), 'a long run', 'a repetition looks at the rest of the run again in every round')

seed('D13-array-copy', 'C23', [('helpers.h', '''			this->value[index] = *std::move(res);''', '''		{
			if constexpr (std::is_copy_assignable_v<T2> and not std::is_nothrow_default_constructible_v<T2>)
				this->value[index] = *res;
			else
				this->value[index] = *std::move(res);
		}''')],
T('''	auto r = exactly<3>(map<Make{}>("a"_any)).parse(std::string_view("aaa"));
	CHECK(r.has_value());
	CHECK(copies == 0);
''', '''static int copies = 0;
struct M { M() noexcept(false) {} M(const M&) { ++copies; } M(M&&) noexcept {} M& operator=(const M&) { ++copies; return *this; } M& operator=(M&&) noexcept { return *this; } };
struct Make { M operator()(auto) const { return M{}; } };
'''), 'a fixed repetition of values that can be copied and whose default construction may throw', 'values are copied although they can be moved')

seed('D14-delimiter-copy', 'C23', [('helpers.h', '''            this->value.second.insert(this->value.second.end(), *std::move(res));''', '''            this->value.second.insert(this->value.second.end(), *std::forward<result<T2, U>&>(res));'''),],
T('''	auto r = delimit_keep("a"_any, map<Make{}>(","_any)).parse(std::string_view("a,a,a"));
	CHECK(r.has_value());
	CHECK(copies == 0);
''', '''static int copies = 0;
struct M { M() {} M(const M&) { ++copies; } M(M&&) noexcept {} M& operator=(const M&) { ++copies; return *this; } M& operator=(M&&) noexcept { return *this; } };
struct Make { M operator()(auto) const { return M{}; } };
'''), 'kept delimiters whose values can be copied', 'delimiter values are copied')

seed('D15-const-value', 'C24', [('result.h', '''	constexpr const T&& value() const&& { return std::move(_result).value(); }''', '''	constexpr const T&& value() const&& { return *std::move(_result); }''')],
T('''	bool thrown = false;
	const auto r = join(+"a"_any).parse(std::string_view("b"));
	try { auto&& v = std::move(r).value(); (void)v.size(); } catch (const std::bad_optional_access&) { thrown = true; }
	CHECK(thrown);
''').replace('#include <variant>', '#include <variant>\n#include <optional>'), 'value() on a moved const failed result', 'no exception is thrown')

seed('D16-trailing-delimiter', 'C09', [('parsers/delimit.h', '''				if (res.has_value())
				{
					if constexpr (is_p_void)''', '''				if (is_p_void or res.has_value())
				{
					if constexpr (is_p_void)''')],
T('''	auto r = delimit_keep("a"_ign, ","_any).parse(std::string_view("a,a,"));
	CHECK(r.has_value());
	CHECK((*r).size() == 1);
	CHECK(r.remaining().size() == 1);
'''), 'value-less elements with kept delimiters and a trailing delimiter', 'the trailing delimiter is among the values')

seed('D17-maybe-nothing', 'C08', [('parsers/maybe.h', '''		auto res = P::parse(input);
		if (res.has_value())
			builder''', '''		auto res = P::parse(input);
		if (res.has_value() and res.remaining().size() != input.size())
			builder''')],
T('''	auto r = (~join("a"_any | "b"_any >> "c"_any | +"d"_any | ~"e"_any)).parse(std::string_view("x"));
''' .replace('join("a"_any | "b"_any >> "c"_any | +"d"_any | ~"e"_any)', 'join(*"a"_any)') + '''	CHECK(r.has_value());
	CHECK((*r).has_value());
'''), 'an optional part that matches without consuming', 'the optional is empty although the part matched')

seed('D18-custom-lookahead', 'C05', [('parsers/custom.h', '''		return decltype(P::get_parser())::lookahead(std::forward<R>(r));''', '''		auto res = decltype(P::get_parser())::parse(std::forward<R>(r));
		if (res.has_value())
			return { success_tag, res.remaining() };
		else
			return { failure_tag, res.remaining() };''')],
T('''	auto r = ignore(Rule{}).parse(std::string_view("aaa"));
	CHECK(r.has_value());
	CHECK(calls == 0);
''', '''static int calls = 0;
struct Count { int operator()(auto&&...) const { ++calls; return 7; } };
struct Rule : custom_parser<Rule> { static constexpr auto get_parser() { return map<Count{}>(+"a"_any); } };
'''), 'an ignored custom parser with a user function inside', 'the user function is called')

seed('D19-sub-other-name', 'C12', [('modifiers/sub.h', '''	using type = named_parser<typename substitute_one<P, Sub>::type, str>;''', '''	using type = named_parser<P, str>;''')],
T('''	constexpr auto p = (("a"_any % name<"x">) >> "b"_any) % name<"y">;
	auto r = (p % sub(name<"x"> = ignore)).parse(std::string_view("ab"));
	CHECK((std::is_same_v<decltype(r), decltype("b"_any.parse(std::string_view("ab")))>));
'''), 'a named part inside a part of another name', 'the inner part is not rewritten')

seed('D20-not-equal', 'C15', [('span.h', '''			if (not (*it1 == *it2))''', '''			if (*it1 != *it2)''')],
T('''	std::vector<Ch> v{ 'a', 'b' };
	CHECK(all_of<Ch('a'), Ch('b')>.parse(v).has_value());
''', '''struct Ch
{
	char c = 0;
	constexpr Ch() = default;
	constexpr Ch(char x) : c(x) {}
	friend constexpr bool operator==(const Ch& a, const Ch& b) { return a.c == b.c; }
	friend constexpr bool operator!=(const Ch&, const Ch&) { return true; }
	friend constexpr auto operator<=>(const Ch& a, const Ch& b) { return a.c <=> b.c; }
};
'''), 'elements with an operator!= of their own that is not the negation of ==', 'a literal is compared with != instead of ==')

seed('D21-memcmp', 'C15', [('parsers/all_of.h', '''		return (input.size() < length) || (input_span<value_type>(arr.span()) != input_span<V>(input.first(length)));''', '''		if (input.size() < length)
			return true;
		if constexpr (std::is_same_v<V, value_type> and std::is_arithmetic_v<V>)
			if (not std::is_constant_evaluated())
				return std::memcmp(arr.span().data(), input.data(), length * sizeof(V)) != 0;
		return input_span<value_type>(arr.span()) != input_span<V>(input.first(length));'''), ('parsers/all_of.h', '#include <k3/tok3n/detail/static_array.h>\n', '#include <k3/tok3n/detail/static_array.h>\n#include <cstring>\n#include <type_traits>\n')],
T('''	std::vector<double> v{ -0.0, 1.0 };
	CHECK(all_of<0.0, 1.0>.parse(v).has_value());
'''), 'floating-point elements that are equal with different bytes', 'elements are compared by their bytes instead of ==')

seed('D22-empty-literal-view', 'C04', [('parsers/basic_base.h', '''			return result<result_for<V>, V>{ success_tag, { input.data(), Traits::length }, { input.data() + Traits::length, input.size() - Traits::length } };''', '''			return result<result_for<V>, V>{ success_tag, Traits::length == 0 ? result_for<V>{} : result_for<V>{ input.data(), Traits::length }, { input.data() + Traits::length, input.size() - Traits::length } };''')],
T('''	std::string s = "ab";
	auto r = ("a"_all >> ("_"_any | ""_all)).parse(s);
	CHECK(r.has_value());
	CHECK(std::get<1>(*r).data() == s.data() + 1);
'''), 'a literal without elements', 'its view does not denote the place in the input')

seed('D23-monostate', 'C02', [('filter.h', '''	using fn = std::negation<std::is_void<T>>;''', '''	using fn = std::negation<std::disjunction<std::is_void<T>, std::is_same<T, std::monostate>>>; // std::monostate holds no information'''), ('filter.h', '#include <type_traits>\n', '#include <type_traits>\n#include <variant>\n')],
T('''	auto r = (map<Make{}>("a"_any) | join(+"b"_any)).parse(std::string_view("a"));
	CHECK((std::is_same_v<decltype(r)::value_type, std::variant<std::monostate, k3::tok3n::detail::output_span<char>>>));
''', 'struct Make { std::monostate operator()(auto) const { return {}; } };\n'), 'an alternative whose value is a std::monostate', 'the value disappears from the result type')

seed('D24-filter-empty-input', 'C11', [('parsers/filter.h', '''            if (std::invoke(FunctionValue::value))''', '''            if (res.remaining().data() == input.data() or std::invoke(FunctionValue::value))''')],
T('''	auto r = filter<No{}>(ignore(*"a"_any)).parse(std::string_view("b"));
	CHECK(not r.has_value());
''', 'struct No { constexpr bool operator()() const { return false; } };\n'), 'a filter on a value-less part that matched without consuming', 'the predicate is not asked')

seed('D25-ascii-table', 'C06', [('static_array.h', '''		for (const auto& element : data)
			if (element == u)
				return true;
		return false;''', '''		if constexpr (std::is_same_v<T, char> and std::is_same_v<std::remove_cvref_t<U>, char> and N > 4)
		{
			std::array<bool, 128> table{};
			for (char element : data)
				table[element & 0x7f] = true;
			return table[u & 0x7f];
		}
		for (const auto& element : data)
			if (element == u)
				return true;
		return false;''')],
T('''	std::string s = "\\xe1";
	CHECK(not any_of<'a','b','c','d','e'>.parse(s).has_value());
'''), 'a class of more than four characters and input bytes above 127', 'bytes above 127 are taken for their lower seven bits')

seed('D26-ascii-table-shared', 'C06', [('static_array.h', '''		for (const auto& element : data)
			if (element == u)
				return true;
		return false;''', '''		if constexpr (std::is_same_v<T, char16_t> and std::is_same_v<std::remove_cvref_t<U>, char16_t>)
		{
			// The elements are sorted
			if (u < data.front() or u > data.back())
				return false;
			if (N == static_cast<std::size_t>(data.back() - data.front()) + 1 or static_cast<std::size_t>(u - data.front()) > 0x7fff)
				return true;
		}
		for (const auto& element : data)
			if (element == u)
				return true;
		return false;''')],
T('''	std::u16string s = u"\\u9000";
	CHECK(not any_of<u'a', u'\\uffff'>.parse(s).has_value());
'''), 'a class of 16-bit characters that spans more than half of the range', 'characters between the members are accepted')

seed('D27-literal-compare', 'C28', [('span.h', '''			return lhs.operator std::basic_string_view<T>() == std::basic_string_view<T>(std::forward<RHS>(rhs));''', '''			if constexpr (std::is_bounded_array_v<std::remove_cvref_t<RHS>>)
				return lhs.operator std::basic_string_view<T>() == std::basic_string_view<T>(rhs, std::extent_v<std::remove_cvref_t<RHS>> - 1);
			else
				return lhs.operator std::basic_string_view<T>() == std::basic_string_view<T>(std::forward<RHS>(rhs));''')],
T('''	auto r = join(+"ab"_any).parse(std::string_view("ab"));
	char buffer[8] = "ab";
	CHECK(*r == buffer);
'''), 'a view compared with a character array that is longer than its text', 'the zeros after the text take part in the comparison')

seed('D28-slice', 'C20', [('parsers/map.h', '''				return result<after_type, V>{ success_tag, std::invoke(FunctionValue::value, std::move(*res)), res.remaining() };''', '''			{
				try
				{
					return result<after_type, V>{ success_tag, std::invoke(FunctionValue::value, std::move(*res)), res.remaining() };
				}
				catch (std::exception& e)
				{
					throw e;
				}
			}'''), ('parsers/map.h', '#include <functional>\n', '#include <exception>\n#include <functional>\n')],
T('''	bool ok = false;
	try { auto r = map<Throw{}>("a"_any).parse(std::string_view("a")); (void)r; }
	catch (const std::out_of_range&) { ok = true; }
	catch (...) {}
	CHECK(ok);
''', 'struct Throw { int operator()(auto) const { throw std::out_of_range("x"); } };\n'), 'a mapped function that throws an exception class derived from std::exception', 'the caller gets a std::exception instead of the exception that was thrown')

seed('D29-exactly-count', 'C27', [('optimizations/join_exactly_basic.h', '''		for (std::size_t i = 0; i < N::value; i++)
		{
			if (Traits::failure_condition(input))
				return result<void, V>{ failure_tag, original_input };
			input = input.subspan(Traits::length);
		}

		return result<void, V>{ success_tag, input };''', '''		for (unsigned short i = 0; i < static_cast<unsigned short>(N::value); i++)
		{
			if (Traits::failure_condition(input))
				return result<void, V>{ failure_tag, original_input };
			input = input.subspan(Traits::length);
		}

		return result<void, V>{ success_tag, input };''')],
T('''	std::string s(70000, 'a');
	auto r = ignore(join(exactly<70000>("a"_any))).parse(s);
	CHECK(r.has_value());
	CHECK(r.remaining().size() == 0);
'''), 'an ignored joined fixed repetition of 65536 or more rounds', 'the count is taken modulo 65536')

seed('D30-filter-lookahead-literal', 'C01', [('parsers/choice.h', '''			return (executor.template execute<P, I>() or ... or executor.template execute<Ps, Is>());
		}(typename _trait<V>::sequence{});''', '''			if constexpr (sizeof...(Ps) > 8) // prefer the alternatives that need input when there is some
				if (not input.empty() and P::lookahead(input).remaining().size() == input.size())
					return (... or executor.template execute<Ps, Is>()) or executor.template execute<P, I>();
			return (executor.template execute<P, I>() or ... or executor.template execute<Ps, Is>());
		}(typename _trait<V>::sequence{});'''), ('parsers/choice.h', '''		bool successful = [&executor]<''', '''		bool successful = [&executor, input]<''')],
T('''	constexpr auto p = join(*"z"_any) | "a"_all | "b"_all | "c"_all | "d"_all | "e"_all | "f"_all | "g"_all | "h"_all | "i"_all;
	auto r = p.parse(std::string_view("a"));
	CHECK(r.has_value());
	CHECK(r.remaining().size() == 1);
'''), 'ten or more alternatives of which the first matches without consuming', 'a later alternative is taken although the first one matches')
