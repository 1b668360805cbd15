// The reference model: a plain recursive interpreter of grammar terms over a byte string.
// It knows nothing of the library. Values, types and calls of user functions are canonical strings.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace ref {

enum Kind : unsigned char {
	ANY, NONE, ALL, ANYTHING, EPS, SEQ, CHOICE, MAYBE, EXACTLY, STAR, PLUS, DELIM, IGNORE, COMPLETE, JOIN,
	MAP, APPLY, WMAP, WAPPLY, INTO, APPLYINTO, CONST, DFLT, STRINTO, SVINTO, FILTER, AFILTER, NAME, RULE, CUSTOM, WRAPOPT, WRAPVAR
};

struct Node
{
	Kind k;
	std::vector<int> ch;
	std::string s;              // literal / constant
	bool set[256] = {};         // any / none
	long n = 0;                 // exactly count, function id, rule id
	char mode = 0;              // seq: T U 0, choice: V U 0
	std::vector<int> idx;       // seq: kept?, choice: variant index or -1
	std::string dflt;           // choice: value when a value-less alternative matched
	bool pv = false, dv = false;
};

struct Grammar
{
	std::vector<Node> nodes;
	std::vector<int> rules;
	int root = -1;
};

Grammar parse_sexpr(const std::string&);

// When set: rel[g][c] says whether grammar element g equals input element c (default: identity).
extern const bool (*rel)[256];

struct R
{
	bool ok = false;
	std::size_t end = 0;
	bool isvoid = true;
	std::string val;
};

struct Interp
{
	const Grammar& g;
	const char* in;
	std::size_t n;
	std::string log;
	std::uint64_t steps = 0;    // interpreter steps (transitions)
	std::uint64_t states = 0;   // distinct (node, position, mode)
	std::vector<std::uint8_t> seen;

	Interp(const Grammar& g_) : g(g_), in(nullptr), n(0) {}
	R run(const char* in_, std::size_t n_, bool look);
	R eval(int node, std::size_t pos, bool look);
};

} // namespace ref
