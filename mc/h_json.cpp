// The JSON example against an independent recogniser and value builder.
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <optional>
#include <string>
#include <string_view>
#include <vector>
#include <utility>
#include <variant>
#include <map>
#include <iostream>
#include <k3/tok3n.h>
#include "h.h"
#define main json_example_main
#include MC_EXAMPLE
#undef main

// ---- the oracle: a hand-written recursive descent over bytes --------------------------------------------
namespace o {
using S = std::string_view;
struct P
{
	S in; std::size_t i = 0; std::string v;
	std::uint64_t steps = 0;
	bool at(char c) { ++steps; return i < in.size() && in[i] == c; }
	bool eat(char c) { if (!at(c)) return false; ++i; return true; }
	static bool dig(char c) { return c >= '0' && c <= '9'; }
	bool isdig() { return i < in.size() && dig(in[i]); }
	void ws() { while (i < in.size() && (in[i] == ' ' || in[i] == '\t' || in[i] == '\n' || in[i] == '\r')) ++i; }
	void put(std::size_t b, std::size_t e) { v += std::to_string(b) + "+" + std::to_string(e - b); }
	bool str()
	{
		std::size_t s = i;
		if (!eat('"')) return false;
		std::string t;
		while (i < in.size() && in[i] != '"')
		{
			++steps;
			if (in[i] != '\\') { t += in[i++]; continue; }
			std::size_t b = i;
			bool good = false;
			if (i + 1 < in.size())
			{
				char c = in[i + 1];
				if (c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't') { i += 2; good = true; }
				else if (c == 'u')
				{
					int k = 0;
					while (k < 4 && i + 2 + k < in.size() && (dig(in[i + 2 + k]) || (in[i + 2 + k] >= 'a' && in[i + 2 + k] <= 'f') || (in[i + 2 + k] >= 'A' && in[i + 2 + k] <= 'F'))) ++k;
					if (k == 4) { i += 6; good = true; }
				}
			}
			if (!good) break;
			t.append(in.substr(b, i - b));
		}
		if (!eat('"')) { i = s; return false; }
		v += "S" + std::to_string(t.size()) + ":" + t;
		return true;
	}
	bool num()
	{
		std::size_t s = i;
		if (at('-')) ++i;
		if (!isdig()) { i = s; return false; }
		if (in[i] == '0') ++i; else while (isdig()) ++i;
		v += "n"; put(s, i);
		std::size_t save = i;
		v += ",";
		if (eat('.') && isdig()) { std::size_t b = i; while (isdig()) ++i; put(b, i); } else { i = save; v += "~"; }
		save = i;
		v += ",";
		bool good = false;
		if (i < in.size() && (in[i] == 'e' || in[i] == 'E'))
		{
			++i;
			std::size_t b = i;
			if (i < in.size() && (in[i] == '+' || in[i] == '-')) ++i;
			if (isdig()) { while (isdig()) ++i; put(b, i); good = true; }
		}
		if (!good) { i = save; v += "~"; }
		return true;
	}
	bool list(char open, char close, bool object)
	{
		std::size_t s = i, vs = v.size();
		if (!eat(open)) return false;
		v += open;
		std::size_t save = i, vsave = v.size();
		std::size_t last = i;
		int count = 0;
		while (true)
		{
			std::size_t here = v.size();
			bool good;
			if (object)
			{
				ws();
				good = str();
				if (good) { v += "="; ws(); good = eat(':'); }
				if (good) good = value();
			}
			else good = value();
			if (!good) { v.resize(here); i = last; break; }
			v += ";";
			++count;
			last = i;
			if (!eat(',')) break;
		}
		if (!count) { i = save; v.resize(vsave); ws(); }
		if (!eat(close)) { i = s; v.resize(vs); return false; }
		v += close;
		return true;
	}
	bool lit(S w, const char* c) { if (in.substr(i, w.size()) != w) return false; i += w.size(); v += c; return true; }
	bool value()
	{
		++steps;
		std::size_t s = i;
		ws();
		bool r = str() || num() || list('{', '}', true) || list('[', ']', false) || lit("true", "T") || lit("false", "F") || lit("null", "N");
		if (!r) { i = s; return false; }
		ws();
		return true;
	}
};
}

// ---- what the example built -----------------------------------------------------------------------------
static const char* base;
static void put(std::string& s, std::string_view v) { s += std::to_string(v.data() - base) + "+" + std::to_string(v.size()); }
static void put(std::string& s, const std::optional<std::string_view>& v) { if (v) put(s, *v); else s += "~"; }
static void show(std::string& s, const std::string& v) { s += "S" + std::to_string(v.size()) + ":" + v; }
static void show(std::string& s, const number_type& n) { s += "n"; put(s, n.integer); s += ","; put(s, n.fraction); s += ","; put(s, n.exponent); }
static void show(std::string& s, bool b) { s += b ? "T" : "F"; }
static void show(std::string& s, std::nullptr_t) { s += "N"; }
static void show(std::string& s, const JsonValue::result_type& v);
static void show(std::string& s, const JsonObject::result_type& v) { s += "{"; for (auto& [k, x] : v) { show(s, k); s += "="; show(s, x); s += ";"; } s += "}"; }
static void show(std::string& s, const JsonArray::result_type& v) { s += "["; for (auto& x : v) { show(s, x); s += ";"; } s += "]"; }
static void show(std::string& s, const JsonValue::result_type& v) { std::visit([&](const auto& x) { show(s, x); }, v.variant); }

template <class R> static std::string outcome(const R& r, std::string_view in)
{
	std::string s;
	if constexpr (not std::is_void_v<typename R::value_type>) { if (r) show(s, *r); }
	if (!r) s = "no match";
	auto rem = r.remaining();
	s += " left " + std::to_string(rem.size());
	if (rem.data() + rem.size() != in.data() + in.size()) s += " elsewhere";
	return s;
}

// The input ends exactly at an unreadable page, so that reads past it are seen.
static char* edge;
static char* place(const std::string& in) { char* p = edge - in.size(); memcpy(p, in.data(), in.size()); return p; }

static std::uint64_t accepted = 0;
template <bool Whole = true>
static void check(const std::string& text)
{
	std::string_view in(place(text), text.size());
	base = in.data();
	h::where("json", text);
	++h::states;
	auto one = [&](const char* what, auto parse, auto look, auto oracle) {
		o::P p{ in };
		std::string want;
		if (oracle(p)) { want = p.v; ++accepted; } else { want = "no match"; p.i = 0; }
		std::string left = " left " + std::to_string(in.size() - p.i);
		h::transitions += p.steps + 1;
		h::runs += 2;
		std::string got = outcome(parse(in), in);
		if (got != want + left) h::viol(what, text, "parse", want + left, got);
		std::string wl = (want == "no match" ? want : "") + left;
		got = outcome(look(in), in);
		if (got != wl) h::viol(what, text, "lookahead", wl, got);
		h::outcome(want + left);
	};
	one("JsonValue", [](auto i) { return JsonValue::parse(i); }, [](auto i) { return JsonValue::lookahead(i); }, [](o::P& p) { return p.value(); });
	if constexpr (Whole)
	{
		one("JsonObject", [](auto i) { return JsonObject::parse(i); }, [](auto i) { return JsonObject::lookahead(i); }, [](o::P& p) { return p.list('{', '}', true); });
		one("JsonArray", [](auto i) { return JsonArray::parse(i); }, [](auto i) { return JsonArray::lookahead(i); }, [](o::P& p) { return p.list('[', ']', false); });
		one("string", [](auto i) { return string.parse(i); }, [](auto i) { return string.lookahead(i); }, [](o::P& p) { return p.str(); });
		one("number", [](auto i) { return number.parse(i); }, [](auto i) { return number.lookahead(i); }, [](o::P& p) { return p.num(); });
	}
}

using h::sequences; using h::chars;
int main(int argc, char** argv)
{
	h::start();
	int part = h::arg(argc, argv, "--part", 0), parts = h::arg(argc, argv, "--parts", 1);
	bool deep = h::arg(argc, argv, "--thorough", 0);
	edge = h::guard_edge(1 << 22);
	auto whole = [](const std::string& s) { check(s); };
	auto value = [](const std::string& s) { check<false>(s); };
	sequences(chars("{}[],:\"1 "), deep ? 8 : 6, part, parts, "", "", whole);
	sequences(chars("-+.eE019"), deep ? 7 : 6, part, parts, "", "", whole);
	sequences(chars("-.e01"), deep ? 6 : 5, part, parts, "[", "]", value);
	sequences(chars("\"\\unaF0/"), deep ? 8 : 7, part, parts, "\"", "\"", whole);
	sequences({ "\\u", "0", "aF", "9", "g", "\\\"", "\"", "\n" }, deep ? 8 : 6, part, parts, "\"", "\"", value);
	sequences({ "{", "}", "[", "]", ",", ":", "\"a\"", "\"\"", "1", "-2.5e+3", "true", "null", "\n" }, deep ? 7 : 6, part, parts, "", "", value);
	sequences({ "\"a\"", ":", ",", "1", " ", "{", "}" }, deep ? 8 : 7, part, parts, "{", "}", value);
	sequences({ "true", "false", "null", ",", "[", "]", "\t" }, deep ? 7 : 6, part, parts, "[", "]", value);
	sequences({ " ", "\n", "\r", "\t", "\v", "\f", "\0" "1", "[", "]", "," }, 5, part, parts, "[", "]", value);
	// every byte in every position of some documents; every deletion; every insertion of a structural byte
	std::vector<std::string> docs = { "[1]", "{\"a\":1}", "[\"\\u12aB\",\"\\n\"]", " { \"k\" : [ true , false , null ] , \"k\" : -0.5e+10 } ", "[[],{},[{}],{\"\":[]}]", "-12.034E-5", "\"a\\\\\\\"b\\/\\b\\f\\n\\r\\t\"", "[0,-0,10,1.0,1e0,1E+0]", "\r\n\t [ ] \t\r\n",
		"{\"a\":{\"b\":{\"c\":[[[\"\\uFFFF\"]]]}},\"d\":\"\"}", "[true,false,null]", "{\"a\":\"b\",\"c\":\"d\",\"a\":1}" };
	int turn = 0;
	for (auto& d : docs)
		for (std::size_t i = 0; i <= d.size(); ++i)
		{
			if (turn++ % parts != part) continue;
			for (int c = 0; c < 256; ++c)
			{
				if (i < d.size()) { std::string s = d; s[i] = (char)c; check<false>(s); }
				std::string s = d;
				s.insert(i, 1, (char)c);
				check<false>(s);
			}
			for (std::size_t j = i; j <= d.size() && j <= i + 3; ++j) { std::string s = d; s.erase(i, j - i); check(s); }
			check(d.substr(0, i)); check(d.substr(i));
			for (const char* w : { " ", "\n\t ", "\r\r\r\r" }) for (std::size_t j = i; j <= d.size(); ++j) { std::string s = d; s.insert(j, w); s.insert(i, w); check<false>(s); }
		}
	// nesting
	for (int d : { 1, 2, 3, 10, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000 })
	{
		if (turn++ % parts != part) continue;
		auto rep = [&](const std::string& s) { std::string o; for (int i = 0; i < d; ++i) o += s; return o; };
		check(rep("[") + rep("]")); check(rep("[") + rep("]") + "]"); check(rep("[") + std::string(d - 1, ']'));
		check(rep("{\"a\":") + "1" + rep("}")); check(rep("[ ") + "\"x\"" + rep(" ]")); check(rep("{\"a\":[") + rep("]}")); check(rep("[1,") + "2" + rep("]")); check(rep("[1,") + "2" + rep(",]"));
		check("[" + rep("1,") + "1]"); check("{" + rep("\"a\":1,") + "\"b\":[]}"); check("\"" + rep("\\n") + "\""); check("\"" + rep("x") + "\""); check(rep(" ") + "1" + rep("\n")); check(rep("1")); check("-0." + rep("0") + "e" + rep("1"));
		check("[" + rep("\"\\u0041\",") + "null]"); check("{" + rep("\"k\" : [ ] ,") + "}");
	}
	h::extra += ",\"accepted\":" + std::to_string(accepted);
	if (part == 0) h::sample(docs[3]);
	return h::finish();
}
