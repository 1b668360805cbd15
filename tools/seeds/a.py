H = '''
#include <k3/tok3n.h>
#include <cstdio>
#include <string>
#include <vector>
#include <string_view>
using namespace k3::tok3n;
#define CHECK(...) do { if (!(__VA_ARGS__)) { std::printf("wrong: %s\\n", #__VA_ARGS__); return 1; } } while (0)
'''
def T(body, pre=''): return H + pre + 'int main()\n{\n' + body + '\treturn 0;\n}\n'

seed('B01-exactly-end', 'C05', [('parsers/exactly.h', '''			auto res = P::lookahead(input);
			if (not res.has_value())''', '''			auto res = P::lookahead(input);
			if (i > 4 and input.empty())
				break;
			if (not res.has_value())''')],
T('''	constexpr auto p = ignore(exactly<7>(any_of<'a','b'> >> any_of<'c'>));
	std::string s = "acbcacbcacac";
	auto r = p.parse(s);
	CHECK(not r.has_value());
	CHECK(r.remaining().size() == 12);
'''), 'an ignored fixed repetition of seven or more rounds of which some but not all fit before the input ends, after at least five rounds', 'ignore(exactly<N>(..)) accepts fewer than N rounds when the input ends early')

seed('B02-exactly-restore', 'C03', [('parsers/exactly.h', '''				return result<void, V>{ failure_tag, original_input };
			
			input = res.remaining();''', '''				return result<void, V>{ failure_tag, i < 5 ? original_input : input };
			
			input = res.remaining();''')],
T('''	constexpr auto p = maybe_then();
	auto r = p.parse(std::string_view("aaaaaab"));
	CHECK(r.has_value());
	CHECK(r.remaining().size() == 0);
''', 'constexpr auto maybe_then() { return ~ignore(exactly<8>("a"_any)) >> "aaaaaab"_all; }\n'), 'an optional ignored repetition that fails after at least five rounds, followed by a part that matches the text from the start', 'a failed ignored repetition leaves the input advanced, so the next part starts in the middle')

seed('B03-sequence-restore', 'C03', [('parsers/sequence.h', '''			return result<void, V>{ success_tag, executor.input };
		else
			return result<void, V>{ failure_tag, input };''', '''			return result<void, V>{ success_tag, executor.input };
		else
			return result<void, V>{ failure_tag, sizeof...(Ps) > 2 and executor.input.empty() ? executor.input : input };''')],
T('''	constexpr auto inner = ignore("a"_any >> "b"_any >> *"c"_any >> "d"_any);
	constexpr auto p = ~inner >> join(*"abc"_any);
	auto r = p.parse(std::string_view("abcc"));
	CHECK(r.has_value());
	CHECK(*r == "abcc");
'''), 'an ignored sequence of at least four parts whose last part fails at the end of the input, inside an optional part', 'the optional part swallows the input although it did not match')

seed('B04-join-lookahead-tuple', 'C10', [('parsers/join.h', 'return (... && this->try_join(std::get<Is>(tup)));', 'return (... & this->try_join(std::get<Is>(tup)));')],
T('''	constexpr auto p = join("a"_any >> "b"_ign >> "c"_any >> "d"_any);
	auto r = p.parse(std::string_view("abcd"));
	CHECK(not r.has_value());
'''), 'a join over a gap that is followed by at least two more pieces', 'a join of non-adjacent pieces succeeds with only the last pieces')

seed('B06-choice-drop-first', 'C07', [('operators/choice.h', '''	return choice_parser<P1, P2s...>{};''', '''	if constexpr ((... or std::same_as<P1, P2s>)) // P1 | (P2 | P1) == (P2 | P1)
		return choice_parser<P2s...>{};
	else
		return choice_parser<P1, P2s...>{};''')],
T('''	constexpr auto a = "a"_all;
	constexpr auto ab = "ab"_all;
	constexpr auto p = a | (ab | a);
	auto r = p.parse(std::string_view("ab"));
	CHECK(r.has_value());
	CHECK(*r == "a");
'''), 'a parser put in front of a choice that already has it as a later alternative', 'the choice takes a later alternative although an earlier one matches')

seed('B08-sub-prefix', 'C12', [('static_array.h', '''	if constexpr (M != N)
		return false;
	else
		return lhs.data == rhs.data;''', '''	if constexpr (M > N)
		return false;
	else
		return std::equal(lhs.begin(), lhs.end(), rhs.begin());''')],
T('''	constexpr auto p = ("a"_any % name<"digit">) >> ("b"_any % name<"digits">);
	constexpr auto q = p % sub(name<"digit"> = ignore);
	auto r = q.parse(std::string_view("ab"));
	CHECK(r.has_value());
	CHECK((std::is_same_v<decltype(r), decltype("b"_any.parse(std::string_view("ab")))>));
'''), 'two names of which one is a prefix of the other', 'a substitution for the shorter name also rewrites the longer one')

seed('B09-sub-nested-same', 'C12', [('modifiers/sub.h', '''	using type = decltype(Sub::mod(typename substitute_one<P, Sub>::type{}));''', '''	using type = decltype(Sub::mod(P{}));''')],
T('''	constexpr auto p = (("a"_any % name<"x">) >> "b"_any) % name<"x">;
	constexpr auto q = p % sub(name<"x"> = maybe_);
	CHECK(q.parse(std::string_view("b")).remaining().size() == 0);
	CHECK(q.parse(std::string_view("ab")).remaining().size() == 0);
''', '''struct maybe_mod final : detail::modifier_base { static constexpr auto family = detail::modifier_family::ignore; template <detail::parser P> constexpr auto operator()(P) const { return ~P{}; } };
constexpr maybe_mod maybe_{};
'''), 'a named part inside a part of the same name', 'the inner named part is not rewritten')

seed('B12-all-of-short', 'C16', [('parsers/all_of.h', '''		return (input.size() < length) || (input_span<value_type>(arr.span()) != input_span<V>(input.first(length)));''', '''		if (std::is_constant_evaluated())
			return (input.size() < length) || (input_span<value_type>(arr.span()) != input_span<V>(input.first(length)));
		if (input.size() + 1 < length)
			return true;
		for (std::size_t i = 0; i != length; ++i)
			if (not (arr[i] == input.data()[i]))
				return true;
		return false;''')],
T('''	std::string s = "abcd";
	auto r = "abcd"_all.parse(std::string_view(s).substr(0, 3));
	CHECK(not r.has_value());
'''), 'input that ends one element before the literal does, in a buffer that goes on with the missing element', 'reads past the end of the input and accepts an element that is not part of it')

seed('B13-none-of-front', 'C16', [('parsers/none_of.h', '''		return input.empty() || arr.contains(input.front());''', '''		if (std::is_constant_evaluated())
			return input.empty() || arr.contains(input.front());
		const auto& front = *input.data();
		return arr.contains(front) || input.empty();''')],
H + '''
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
int main()
{
	if (pid_t pid = fork()) { int st = 0; waitpid(pid, &st, 0); if (st) std::printf("wrong: read past the end of the input\\n"); return st != 0; }
	char* p = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	p[4095] = 'x';
	mprotect(p + 4096, 4096, PROT_NONE);
	volatile bool ok = false;
	auto r = (*none_of<'a'>).parse(std::string_view(p + 4095, 1));
	ok = r.has_value() && r.remaining().size() == 0;
	_exit(ok ? 0 : 1);
}
''', 'the input ends exactly where readable memory ends', 'a negated class looks at the element after the end of the input')

seed('B14-contains-memchr', 'C06', [('static_array.h', '''		for (const auto& element : data)
			if (element == u)
				return true;
		return false;''', '''		if constexpr (sizeof(T) == 1 and std::is_integral_v<T> and std::is_integral_v<std::remove_cvref_t<U>>)
			if (not std::is_constant_evaluated())
				return std::memchr(data.data(), static_cast<unsigned char>(u), N) != nullptr;

		for (const auto& element : data)
			if (element == u)
				return true;
		return false;'''), ('static_array.h', '#include <cstddef>\n', '#include <cstddef>\n#include <cstring>\n')],
T('''	std::vector<int> v{ 0x161 };
	CHECK(not any_of<'a'>.parse(v).has_value());
	CHECK(none_of<'a'>.parse(v).has_value());
'''), 'a class of one-byte characters on input of wider elements whose low byte is in the class, at run time', 'elements are compared modulo 256')

seed('B15-map-skip', 'C11', [('parsers/exactly.h', '''			input = res.remaining();
			builder.array_assign(i, std::move(res));''', '''			const bool consumed = res.remaining().size() != input.size();
			input = res.remaining();
			builder.array_assign(i, std::move(res));
			if (not consumed and i + 2 < N::value)
				break; // all further rounds match the same nothing''')],
T('''	auto r = exactly<4>(map<Count{}>(~"a"_any)).parse(std::string_view("ab"));
	CHECK(r.has_value());
	CHECK(calls == 4);
	CHECK((*r)[3] == 7);
''', 'static int calls = 0;\nstruct Count { constexpr int operator()(auto) const { if (!std::is_constant_evaluated()) ++calls; return 7; } };\n'), 'a fixed repetition of a mapped part that can match nothing, with at least two rounds left when it does', 'the function is not called for the remaining rounds and their values are missing')

seed('B16-complete-calls', 'C05', [('parsers/complete.h', '''		auto res = P::lookahead(input);
		if (not res.has_value() or not res.remaining().empty())
			return result<void, V>{ failure_tag, input };
		else
			return res;''', '''		auto res = P::parse(input);
		if (not res.has_value() or not res.remaining().empty())
			return result<void, V>{ failure_tag, input };
		else
			return result<void, V>{ success_tag, res.remaining() };''')],
T('''	auto r = ignore(complete(map<Count{}>(+"a"_any))).parse(std::string_view("aaa"));
	CHECK(r.has_value());
	CHECK(calls == 0);
''', 'static int calls = 0;\nstruct Count { int operator()(auto) const { ++calls; return 7; } };\n'), 'an ignored complete part with a mapped part inside', 'the function is called although the value is ignored')

seed('B17-filter-mutable', 'C11', [('parsers/filter.h', '''            if (std::invoke(FunctionValue::value, std::as_const(*res)))''', '''            if (std::invoke(FunctionValue::value, *res))''')],
T('''	auto r = filter<Take{}>(+"a"_any).parse(std::string_view("aa"));
	CHECK(r.has_value());
	CHECK((*r).size() == 2);
''', '''struct Take
{
	bool operator()(const auto& v) const { return v.size() == 2; }
	bool operator()(auto& v) const requires (not std::is_const_v<std::remove_reference_t<decltype(v)>>) { auto w = std::move(v); return w.size() == 2; }
};
'''), 'a condition with an overload for values it may change', 'the condition can change the value that is then returned')
