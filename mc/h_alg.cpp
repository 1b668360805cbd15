// The algebraic example against an independent parser, evaluator and printer.
#include <algorithm>
#include <cmath>
#include <csignal>
#include <sys/wait.h>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iostream>
#include <optional>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <utility>
#include <variant>
#include <k3/tok3n.h>
#include "h.h"
#define main algebraic_example_main
#include MC_EXAMPLE
#undef main

// ---- the oracle ----------------------------------------------------------------------------------------
namespace o {
struct Node
{
	char kind;                 // E T F P B N n
	std::vector<Node> ch;
	std::vector<std::pair<std::size_t, char>> ops;
	std::size_t b[3] = {}, e[3] = {}; bool has[3] = {};
};
struct P
{
	std::string_view in; std::size_t i = 0; std::uint64_t steps = 0;
	static bool dig(char c) { return c >= '0' && c <= '9'; }
	bool isdig() { ++steps; return i < in.size() && dig(in[i]); }
	std::size_t ws(std::size_t j) { while (j < in.size() && std::strchr("\t\n\r ", in[j]) && in[j]) ++j; return j; }
	bool list(Node& n, char kind, const char* ops, bool (P::*part)(Node&))
	{
		std::size_t s = i;
		n = Node{ kind };
		i = ws(i);
		Node c;
		if (!(this->*part)(c)) { i = s; return false; }
		n.ch.push_back(std::move(c));
		while (true)
		{
			std::size_t save = i, at = ws(i);
			++steps;
			if (at >= in.size() || !in[at] || !std::strchr(ops, in[at])) break;
			i = ws(at + 1);
			Node d;
			if (!(this->*part)(d)) { i = save; break; }
			n.ops.push_back({ at, in[at] });
			n.ch.push_back(std::move(d));
		}
		return true;
	}
	bool expr(Node& n) { return list(n, 'E', "+-", &P::term); }
	bool term(Node& n) { return list(n, 'T', "*/", &P::factor); }
	bool factor(Node& n) { return list(n, 'F', "^", &P::powterm); }
	bool powterm(Node& n)
	{
		std::size_t s = i;
		n = Node{ 'P' };
		Node c;
		if (i < in.size() && in[i] == '(')
		{
			Node b{ 'B' };
			++i; i = ws(i);
			if (expr(c)) { i = ws(i); if (i < in.size() && in[i] == ')') { ++i; b.ch.push_back(std::move(c)); n.ch.push_back(std::move(b)); return true; } }
			i = s;
			return false;
		}
		if (i < in.size() && in[i] == '-')
		{
			Node b{ 'N' };
			++i; i = ws(i);
			if (expr(c)) { b.ch.push_back(std::move(c)); n.ch.push_back(std::move(b)); return true; }
			i = s;
			return false;
		}
		if (!num(c)) return false;
		n.ch.push_back(std::move(c));
		return true;
	}
	bool num(Node& n)
	{
		n = Node{ 'n' };
		if (!isdig()) return false;
		n.has[0] = true; n.b[0] = i; while (isdig()) ++i; n.e[0] = i;
		std::size_t save = i;
		if (i < in.size() && in[i] == '.') { ++i; if (isdig()) { n.has[1] = true; n.b[1] = i; while (isdig()) ++i; n.e[1] = i; } else i = save; }
		save = i;
		if (i < in.size() && (in[i] == 'e' || in[i] == 'E'))
		{
			++i;
			std::size_t b = i;
			if (i < in.size() && in[i] == '-') ++i;
			if (isdig()) { n.has[2] = true; n.b[2] = b; while (isdig()) ++i; n.e[2] = i; } else i = save;
		}
		return true;
	}
	bool input(Node& n) { std::size_t s = i; i = ws(i); if (!expr(n)) { i = s; return false; } i = ws(i); if (i != in.size()) { i = s; return false; } return true; }
};
static std::string view(std::size_t b, std::size_t e) { return std::to_string(b) + "+" + std::to_string(e - b); }
static std::string dump(const Node& n)
{
	std::string s(1, n.kind);
	s += '(';
	if (n.kind == 'n') for (int k = 0; k < 3; ++k) s += (k ? "," : "") + (n.has[k] ? view(n.b[k], n.e[k]) : std::string("~"));
	for (std::size_t k = 0; k < n.ch.size(); ++k)
	{
		s += dump(n.ch[k]);
		if (n.kind != 'F' && k < n.ops.size()) s += n.ops[k].second + view(n.ops[k].first, n.ops[k].first + 1);
		else if (k + 1 < n.ch.size()) s += '^';
	}
	return s + ')';
}
// the value, and an upper bound of the numbers met on the way (to judge rounding)
// dev: as the example is known to do it (see KNOWN_FINDINGS.jsonl): the mantissa to the power of the exponent
static bool dev = false;
static long double value(const Node& n, std::string_view in, bool& ranged, long double& big)
{
	long double r;
	auto note = [&](long double x) { if (std::fabs(x) > big) big = std::fabs(x); if (!(std::fabs(x) < 1e250L) || (x != 0 && std::fabs(x) < 1e-250L)) ranged = false; return x; };
	switch (n.kind)
	{
	case 'n':
	{
		long double v = 0;
		long ex = 0;
		for (std::size_t k = n.b[0]; k < n.e[0]; ++k) v = v * 10 + (in[k] - '0');
		if (n.has[1]) for (std::size_t k = n.b[1]; k < n.e[1]; ++k) { v = v * 10 + (in[k] - '0'); --ex; }
		if (n.has[2])
		{
			bool neg = in[n.b[2]] == '-';
			long e = 0;
			for (std::size_t k = n.b[2] + neg; k < n.e[2]; ++k) e = e < 100000 ? e * 10 + (in[k] - '0') : e;
			ex += neg ? -e : e;
		}
		if (dev && n.has[2])
		{
			long m = n.has[1] ? (long)(n.e[1] - n.b[1]) : 0;
			return note(std::pow(v / std::pow(10.0L, (long double)m), (long double)(ex + m)));
		}
		if (v != 0 && (ex < -300 || ex > 300)) ranged = false;
		return note(v == 0 ? 0 : ex < 0 ? v / std::pow(10.0L, (long double)-ex) : v * std::pow(10.0L, (long double)ex));
	}
	case 'P': case 'B': return value(n.ch[0], in, ranged, big);
	case 'N': return -value(n.ch[0], in, ranged, big);
	case 'F':
		r = value(n.ch.back(), in, ranged, big);
		for (std::size_t k = n.ch.size() - 1; k-- > 0;) r = note(std::pow(value(n.ch[k], in, ranged, big), r));
		return r;
	default:
		r = value(n.ch[0], in, ranged, big);
		for (std::size_t k = 1; k < n.ch.size(); ++k)
		{
			long double v = value(n.ch[k], in, ranged, big);
			switch (n.ops[k - 1].second) { case '+': r += v; break; case '-': r -= v; break; case '*': r *= v; break; default: if (v == 0) ranged = false; r /= v; }
			note(r);
		}
		return r;
	}
}
static void print(const Node& n, std::string_view in, std::size_t t, std::string& s)
{
	std::string tab(t, '\t');
	if (n.kind == 'n')
	{
		s += tab + "Number : " + std::string(in.substr(n.b[0], n.e[0] - n.b[0]));
		if (n.has[1]) s += "." + std::string(in.substr(n.b[1], n.e[1] - n.b[1]));
		if (n.has[2]) s += "e" + std::string(in.substr(n.b[2], n.e[2] - n.b[2]));
		return;
	}
	s += tab + (n.kind == 'E' ? "Expr" : n.kind == 'T' ? "Term" : n.kind == 'F' ? "Factor" : n.kind == 'P' ? "Powterm" : n.kind == 'B' ? "Bracketed Expr" : "Negated Expr") + " :\n" + tab + "{\n";
	for (std::size_t k = 0; k < n.ch.size(); ++k)
	{
		print(n.ch[k], in, t + 1, s);
		if (k + 1 == n.ch.size()) break;
		s += ",\n";
		if (n.kind != 'F')
		{
			char c = n.ops[k].second;
			s += tab + "\t" + (c == '+' ? "<plus>" : c == '-' ? "<minus>" : c == '*' ? "<multiplied by>" : "<divided by>") + "\n";
		}
	}
	s += "\n" + tab + "}";
}
}

// ---- what the example built ------------------------------------------------------------------------------
static const char* base;
static std::string at(std::string_view v) { return std::to_string(v.data() - base) + "+" + std::to_string(v.size()); }
static std::string at(const std::optional<std::string_view>& v) { return v ? at(*v) : "~"; }
static std::string dump(const expr::result_type& v);
static std::string dump(const number::result_type& v) { return "n(" + at(v.integer) + "," + at(v.decimal) + "," + at(v.exponent) + ")"; }
static std::string dump(const powterm::result_type& v)
{
	struct { std::string operator()(const powterm::result_type::bracketed_expr& x) { return "B(" + ::dump(x.data) + ")"; } std::string operator()(const powterm::result_type::negated_expr& x) { return "N(" + ::dump(x.data) + ")"; } std::string operator()(const number::result_type& x) { return ::dump(x); } } f;
	return "P(" + std::visit(f, v.data) + ")";
}
static std::string dump(const factor::result_type& v) { std::string s = "F("; for (std::size_t i = 0; i < v.size(); ++i) s += (i ? "^" : "") + dump(v[i]); return s + ")"; }
template <class T> static std::string dump2(char k, const T& v)
{
	std::string s = std::string(1, k) + "(";
	for (std::size_t i = 0; i < v.first.size(); ++i) { s += dump(v.first[i]); if (i < v.second.size()) { std::string_view d = v.second[i]; s += std::string(d) + at(d); } }
	if (v.second.size() + 1 != v.first.size()) s += "!" + std::to_string(v.second.size());
	return s + ")";
}
static std::string dump(const term::result_type& v) { return dump2('T', v); }
static std::string dump(const expr::result_type& v) { return dump2('E', v); }

static std::size_t depth(const o::Node& n) { std::size_t d = 0; for (auto& c : n.ch) d = std::max(d, 1 + depth(c)); return d; }
static char* edge;
static std::stringstream out;
static std::uint64_t accepted = 0, evaluated = 0;
static void check(const std::string& text, bool nested = false)
{
	char* p = edge - text.size();
	memcpy(p, text.data(), text.size());
	std::string_view in(p, text.size());
	base = p;
	h::where("algebraic", text);
	++h::states;
	h::runs += 2;
	o::P q{ in };
	o::Node n;
	bool ok = q.input(n);
	h::transitions += q.steps + 1;
	auto r = input::parse(in);
	auto l = input::lookahead(in);
	auto rem = [&](auto& x) { return std::string(x ? "match" : "no match") + " left " + std::to_string(x.remaining().size()); };
	std::string want = ok ? "match left 0" : "no match left " + std::to_string(in.size());
	if (rem(r) != want) h::viol("input", text, "parse", want, rem(r));
	if (rem(l) != want) h::viol("input", text, "lookahead", want, rem(l));
	if (!ok || !r) { h::outcome(want); return; }
	++accepted;
	std::string tree = o::dump(n), got = dump(*r);
	h::outcome(tree);
	if (tree != got) { h::viol("input", text, "tree", tree, got); return; }
	bool ranged = true;
	long double big = 1, v = o::value(n, in, ranged, big);
	if (ranged)
	{
		++evaluated;
		std::string shown;
		double d = 0;
		auto same = [&](long double v, long double big) { return std::isnan(v) ? std::isnan(d) : std::fabs(d - v) <= 1e-11L * (std::fabs(v) > big * 1e-4L ? std::fabs(v) : big); };
		try { d = evaluate(*r); if (!same(v, big)) shown = std::to_string(d); }
		catch (...) { shown = "exception"; }
		if (!shown.empty())
		{
			o::dev = true;
			bool dranged = true;
			long double dbig = 1, dv = o::value(n, in, dranged, dbig);
			o::dev = false;
			bool has = text.find_first_of("eE") != std::string::npos;
			if (has && shown != "exception" && (!dranged || same(dv, dbig))) h::known("evaluate(number) with an exponent");
			else h::viol("evaluate", text, "value", std::to_string(v), shown);
		}
	}
	std::string pw;
	o::print(n, in, nested ? 3 : 0, pw);
	auto run = [&] {
		out.str("");
		auto* old = std::cout.rdbuf(out.rdbuf());
		print(*r, nested ? 3 : 0);
		std::cout.rdbuf(old);
		return out.str() == pw;
	};
	if (depth(n) + (nested ? 3 : 0) > 1024)
	{
		// known to read past a buffer: in a process of its own
		pid_t pid = fork();
		if (pid == 0) { for (int s : { SIGSEGV, SIGBUS, SIGABRT }) signal(s, SIG_DFL); _exit(run() ? 0 : 1); }
		int st = 0;
		waitpid(pid, &st, 0);
		if (!WIFEXITED(st) || WEXITSTATUS(st)) h::known("print at a depth of more than 1024");
	}
	else if (!run()) h::viol("print", text, "output", pw, out.str());
}

using h::sequences; using h::chars;
int main(int argc, char** argv)
{
	h::start();
	int part = h::arg(argc, argv, "--part", 0), parts = h::arg(argc, argv, "--parts", 1);
	bool deep = h::arg(argc, argv, "--thorough", 0);
	edge = h::guard_edge(1 << 20);
	auto one = [](const std::string& s) { check(s); };
	sequences({ "2", "3", "5", "+", "-", "*", "/", "^", "(", ")" }, deep ? 7 : 6, part, parts, "", "", one);
	sequences({ "2", "3", "+", "-", "*", "^" }, deep ? 9 : 7, part, parts, "", "", one);
	sequences({ "2^", "3-", "4*", "5/", "6+", "-", "(7)", "8", "(", ")" }, deep ? 7 : 5, part, parts, "", "", one);
	sequences({ "2", "-", "^", "(", ")", " ", "*" }, deep ? 8 : 6, part, parts, "", "", one);
	sequences({ "0", "1", "9", ".", "e", "E", "-", "+" }, deep ? 8 : 6, part, parts, "", "", one);
	sequences({ "0", "1", ".", "e", "E-", "e2", " ", "5" }, deep ? 7 : 5, part, parts, "2*", "-1", one);
	sequences({ "1.5", "2e1", "3E-1", "0.25e2", "10", "+", "*", "^" }, deep ? 7 : 5, part, parts, "", "", one);
	sequences({ " ", "\t", "\n", "\r", "\v", std::string(1, '\0'), "1", "+" }, 5, part, parts, "", "", one);
	std::vector<std::string> docs = { "1+2*3^2", "-(2-3)/4", " ( 1 + 2 ) * -3 ^ 2 - 1 ", "2.5e-1^2^-1", "8/4/2-1-1", "((((2))))^(1)", "4 ^ (2 + 4 * 6) + 1 * 3", "1.25E2*0.5e-2+10", "- - 2 + - ( 3 )", "2^-3*4", "1-2-3+4-5", "1/3*3/7" };
	int turn = 0;
	for (auto& d : docs)
		for (std::size_t i = 0; i <= d.size(); ++i)
		{
			if (turn++ % parts != part) continue;
			for (int c = 0; c < 256; ++c)
			{
				if (i < d.size()) { std::string s = d; s[i] = (char)c; check(s); }
				std::string s = d;
				s.insert(i, 1, (char)c);
				check(s);
			}
			for (std::size_t j = i; j <= d.size() && j <= i + 3; ++j) { std::string s = d; s.erase(i, j - i); check(s); }
			check(d.substr(0, i)); check(d.substr(i));
			for (const char* w : { " ", "\n\t ", "\r\r\r\r" }) for (std::size_t j = i; j <= d.size(); ++j) { std::string s = d; s.insert(j, w); s.insert(i, w); check(s, true); }
		}
	for (int d : { 1, 2, 3, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 145, 146, 147, 150, 200, 255, 256, 257, 300 })
	{
		if (turn++ % parts != part) continue;
		auto rep = [&](const std::string& s) { std::string o; for (int i = 0; i < d; ++i) o += s; return o; };
		check(rep("1+") + "1"); check(rep("2-") + "1"); check(rep("1*") + "3"); check("3" + rep("/1")); check("2" + rep("^1")); check(rep("1 ") + "1"); check(rep(" ") + "1" + rep("\n") + "+" + rep("\t") + "1");
		check(rep("-") + "1"); check(rep("(") + "2" + rep(")")); check(rep("(") + "2" + rep(")") + ")"); check(rep("-(") + "2" + rep(")")); check(rep("(1+") + "2" + rep(")^1"));
		check("1" + rep("0")); check("0." + rep("0") + "1"); check("1e" + std::to_string(d)); check("1e-" + std::to_string(d)); check("1." + rep("3") + "e-2"); check(rep("0") + "7"); check("1e" + rep("0") + "2"); check("1e-" + rep("0"));
	}
	h::extra += ",\"accepted\":" + std::to_string(accepted) + ",\"evaluated\":" + std::to_string(evaluated);
	if (part == 0) h::sample(docs[2]);
	return h::finish();
}
