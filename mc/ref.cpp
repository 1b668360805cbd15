#include "ref.h"
#include "mc_pred.h"
#include <cstdlib>
#include <cstring>
#include <stdexcept>

namespace ref {

static int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static std::string unhex(const std::string& h)
{
	std::string o;
	if (h == "-") return o;
	for (std::size_t i = 0; i + 1 < h.size(); i += 2)
		o += (char)(hexv(h[i]) * 16 + hexv(h[i + 1]));
	return o;
}

struct SP
{
	const std::string& s;
	std::size_t i = 0;
	Grammar g;

	std::string tok()
	{
		while (i < s.size() && s[i] == ' ') ++i;
		if (i < s.size() && (s[i] == '(' || s[i] == ')')) return std::string(1, s[i++]);
		std::size_t b = i;
		while (i < s.size() && s[i] != ' ' && s[i] != '(' && s[i] != ')') ++i;
		return s.substr(b, i - b);
	}
	char peek()
	{
		while (i < s.size() && s[i] == ' ') ++i;
		return i < s.size() ? s[i] : 0;
	}
	int node()
	{
		if (tok() != "(") throw std::runtime_error("sexpr: ( expected in " + s);
		std::string k = tok();
		Node nd;
		auto is = [&](const char* x) { return k == x; };
		if (is("any") || is("none"))
		{
			nd.k = is("any") ? ANY : NONE;
			for (char c : unhex(tok())) nd.set[(unsigned char)c] = true;
		}
		else if (is("all")) { nd.k = ALL; nd.s = unhex(tok()); }
		else if (is("anything")) nd.k = ANYTHING;
		else if (is("eps")) nd.k = EPS;
		else if (is("seq")) { nd.k = SEQ; nd.mode = tok()[0]; for (char c : tok()) nd.idx.push_back(c == '1'); }
		else if (is("choice"))
		{
			nd.k = CHOICE;
			nd.mode = tok()[0];
			std::string l = tok();
			std::size_t p = 0;
			while (p <= l.size())
			{
				std::size_t q = l.find(',', p);
				if (q == std::string::npos) q = l.size();
				nd.idx.push_back(std::atoi(l.substr(p, q - p).c_str()));
				p = q + 1;
			}
			nd.dflt = unhex(tok());
		}
		else if (is("maybe")) { nd.k = MAYBE; nd.pv = tok() == "1"; }
		else if (is("exactly")) { nd.k = EXACTLY; nd.n = std::atol(tok().c_str()); nd.pv = tok() == "1"; }
		else if (is("star")) { nd.k = STAR; nd.pv = tok() == "1"; }
		else if (is("plus")) { nd.k = PLUS; nd.pv = tok() == "1"; }
		else if (is("delim")) { nd.k = DELIM; nd.pv = tok() == "1"; nd.dv = tok() == "1"; }
		else if (is("ignore")) nd.k = IGNORE;
		else if (is("complete")) nd.k = COMPLETE;
		else if (is("join")) nd.k = JOIN;
		else if (is("map")) { nd.k = MAP; nd.n = std::atol(tok().c_str()); }
		else if (is("apply")) { nd.k = APPLY; nd.n = std::atol(tok().c_str()); }
		else if (is("wmap")) { nd.k = WMAP; nd.n = std::atol(tok().c_str()); }
		else if (is("wapply")) { nd.k = WAPPLY; nd.n = std::atol(tok().c_str()); }
		else if (is("into")) { nd.k = INTO; nd.n = std::atol(tok().c_str()); }
		else if (is("applyinto")) { nd.k = APPLYINTO; nd.n = std::atol(tok().c_str()); }
		else if (is("const")) { nd.k = CONST; nd.s = unhex(tok()); }
		else if (is("dflt")) { nd.k = DFLT; nd.n = std::atol(tok().c_str()); }
		else if (is("strinto")) nd.k = STRINTO;
		else if (is("svinto")) nd.k = SVINTO;
		else if (is("filter")) { nd.k = FILTER; nd.n = std::atol(tok().c_str()); }
		else if (is("afilter")) { nd.k = AFILTER; nd.n = std::atol(tok().c_str()); }
		else if (is("name")) nd.k = NAME;
		else if (is("custom")) nd.k = CUSTOM;
		else if (is("wrapopt")) nd.k = WRAPOPT;
		else if (is("wrapvar")) { nd.k = WRAPVAR; nd.n = std::atol(tok().c_str()); }
		else if (is("rule")) { nd.k = RULE; nd.n = std::atol(tok().c_str()); }
		else throw std::runtime_error("sexpr: unknown node " + k);
		while (peek() == '(') nd.ch.push_back(node());
		if (tok() != ")") throw std::runtime_error("sexpr: ) expected in " + s);
		g.nodes.push_back(std::move(nd));
		return (int)g.nodes.size() - 1;
	}
};

Grammar parse_sexpr(const std::string& s)
{
	SP sp{ s };
	std::size_t save = sp.i;
	if (sp.tok() == "(" && sp.tok() == "rules")
	{
		std::vector<int> all;
		while (sp.peek() == '(') all.push_back(sp.node());
		sp.g.root = all.back();
		all.pop_back();
		sp.g.rules = all;
	}
	else
	{
		sp.i = save;
		sp.g.root = sp.node();
	}
	return std::move(sp.g);
}

R Interp::run(const char* in_, std::size_t n_, bool look)
{
	in = in_; n = n_;
	log.clear();
	seen.assign(g.nodes.size() * (n + 1) * 2, 0);
	return eval(g.root, 0, look);
}

const bool (*rel)[256] = nullptr;
static bool in_set(const Node& nd, char c)
{
	if (!rel) return nd.set[(unsigned char)c];
	for (int g = 0; g < 256; ++g)
		if (nd.set[g] && rel[g][(unsigned char)c]) return true;
	return false;
}
static bool same(const std::string& s, const char* in)
{
	if (!rel) return std::memcmp(in, s.data(), s.size()) == 0;
	for (std::size_t i = 0; i < s.size(); ++i)
		if (!rel[(unsigned char)s[i]][(unsigned char)in[i]]) return false;
	return true;
}

static void num(std::string& o, std::size_t v) { o += std::to_string(v); }

// The non-empty views inside a value, in order, as (offset, length).
static bool contiguous(const std::string& v, std::size_t& b, std::size_t& e)
{
	bool have = false;
	for (std::size_t i = 0; i < v.size(); ++i)
	{
		if (v[i] != 'V' || i + 1 >= v.size() || v[i + 1] < '0' || v[i + 1] > '9') continue;
		char* q;
		std::size_t off = std::strtoull(v.c_str() + i + 1, &q, 10);
		std::size_t len = std::strtoull(q + 1, nullptr, 10);
		if (!have) { b = off; e = off + len; have = true; }
		else if (e == off) e = off + len;
		else return false;
	}
	if (!have) { b = e = 0; }
	return true;
}

static std::string spread(const std::string& v)     // the elements of a tuple / pair / array value, comma separated
{
	std::string o = v.substr(1, v.size() - 2);
	if (v[0] == '{')
	{
		int depth = 0;
		bool q = false;
		for (char& c : o)
		{
			if (c == '"') q = !q;
			if (q) continue;
			if (std::strchr("([{<", c)) ++depth;
			else if (std::strchr(")]}>", c)) --depth;
			else if (c == ';' && depth == 0) { c = ','; break; }
		}
	}
	return o;
}

R Interp::eval(int id, std::size_t pos, bool look)
{
	++steps;
	{
		auto& s = seen[((std::size_t)id * (n + 1) + pos) * 2 + look];
		if (!s) { s = 1; ++states; }
	}
	const Node& nd = g.nodes[id];
	R r;
	auto view = [&](std::size_t b, std::size_t e) {
		r.ok = true; r.end = e; r.isvoid = look;
		if (!look) { r.val = "V"; if (e > b) { num(r.val, b); r.val += '+'; num(r.val, e - b); } else { r.val += '@'; num(r.val, b); } }
	};
	auto fail = [&] { r = R{}; r.end = pos; };
	fail();
	switch (nd.k)
	{
	case ANY: if (pos < n && in_set(nd, in[pos])) view(pos, pos + 1); break;
	case NONE: if (pos < n && !in_set(nd, in[pos])) view(pos, pos + 1); break;
	case ANYTHING: if (pos < n) view(pos, pos + 1); break;
	case ALL: if (n - pos >= nd.s.size() && same(nd.s, in + pos)) view(pos, pos + nd.s.size()); break;
	case EPS: r.ok = true; break;
	case NAME:
	case CUSTOM: r = eval(nd.ch[0], pos, look); break;
	case RULE: r = eval(g.rules[nd.n], pos, look); break;
	case IGNORE: r = eval(nd.ch[0], pos, true); break;
	case COMPLETE: r = eval(nd.ch[0], pos, look); if (!r.ok || r.end != n) fail(); break;
	case SEQ:
	{
		std::string v;
		bool first = true;
		std::size_t p = pos;
		bool good = true;
		for (std::size_t i = 0; i < nd.ch.size(); ++i)
		{
			R c = eval(nd.ch[i], p, look);
			if (!c.ok) { good = false; break; }
			p = c.end;
			if (!look && nd.idx[i])
			{
				if (!first) v += ',';
				first = false;
				v += c.val;
			}
		}
		if (!good) break;
		r.ok = true; r.end = p;
		if (!look && nd.mode != '0') { r.isvoid = false; r.val = nd.mode == 'T' ? "(" + v + ")" : v; }
		break;
	}
	case CHOICE:
		for (std::size_t i = 0; i < nd.ch.size(); ++i)
		{
			R c = eval(nd.ch[i], pos, look);
			if (!c.ok) continue;
			r.ok = true; r.end = c.end;
			if (!look && nd.mode != '0')
			{
				r.isvoid = false;
				if (nd.idx[i] < 0) r.val = nd.dflt;
				else if (nd.mode == 'U') r.val = c.val;
				else { r.val = "v"; num(r.val, nd.idx[i]); r.val += ':'; r.val += c.val; }
			}
			break;
		}
		break;
	case MAYBE:
	{
		R c = eval(nd.ch[0], pos, look);
		r.ok = true;
		if (c.ok) r.end = c.end;
		if (!look && !nd.pv) { r.isvoid = false; r.val = c.ok ? "!" + c.val : "?"; }
		break;
	}
	case EXACTLY:
	{
		std::string v;
		std::size_t p = pos;
		bool good = true;
		for (long i = 0; i < nd.n; ++i)
		{
			R c = eval(nd.ch[0], p, look);
			if (!c.ok) { good = false; break; }
			p = c.end;
			if (i) v += ',';
			v += c.val;
		}
		if (!good) break;
		r.ok = true; r.end = p;
		if (!look && !nd.pv) { r.isvoid = false; r.val = "<" + v + ">"; }
		break;
	}
	case STAR:
	case PLUS:
	{
		std::string v;
		std::size_t p = pos, count = 0;
		while (true)
		{
			R c = eval(nd.ch[0], p, look);
			if (!c.ok) break;
			bool must = nd.k == PLUS && count == 0;
			if (c.end == p && !must) break;     // an iteration that consumes nothing ends the repetition
			if (count++) v += ',';
			v += c.val;
			p = c.end;
		}
		if (nd.k == PLUS && count == 0) break;
		r.ok = true; r.end = p;
		if (!look && !nd.pv) { r.isvoid = false; r.val = "[" + v + "]"; }
		break;
	}
	case DELIM:
	{
		std::string ps, ds;
		R c = eval(nd.ch[0], pos, look);
		if (!c.ok) break;
		ps = c.val;
		std::size_t p = c.end;
		bool firstd = true;
		while (true)
		{
			R d = eval(nd.ch[1], p, look);
			if (!d.ok) break;
			R e = eval(nd.ch[0], d.end, look);
			if (!e.ok || e.end == p) break;
			ps += ',' + e.val;
			if (!firstd) ds += ',';
			firstd = false;
			ds += d.val;
			p = e.end;
		}
		r.ok = true; r.end = p;
		if (!look && !(nd.pv && nd.dv))
		{
			r.isvoid = false;
			if (nd.dv) r.val = "[" + ps + "]";
			else if (nd.pv) r.val = "[" + ds + "]";
			else r.val = "{[" + ps + "];[" + ds + "]}";
		}
		break;
	}
	case JOIN:
		r = eval(nd.ch[0], pos, look);
		if (r.ok && !look)
		{
			std::size_t b, e;
			if (!contiguous(r.val, b, e)) { fail(); break; }
			std::size_t end = r.end;
			if (b == e) b = e = end;
			view(b, e);
			r.end = end;
		}
		break;
	default:
		r = eval(nd.ch[0], pos, look);
		if (!r.ok || look) break;
		switch (nd.k)
		{
		case MAP:
		case APPLY:
		case WMAP:
		case WAPPLY:
		case INTO:
		case APPLYINTO:
		{
			std::string a = nd.k == APPLY || nd.k == APPLYINTO || nd.k == WAPPLY ? spread(r.val) : r.val;
			if (nd.k == WMAP || nd.k == WAPPLY) { log += 'w'; num(log, nd.n); log += '('; log += a; log += ')'; r.isvoid = true; r.val.clear(); break; }
			if (nd.k == MAP || nd.k == APPLY) { log += 'm'; num(log, nd.n); log += '('; log += a; log += ')'; }
			bool none = a.empty() && r.isvoid && (nd.k == INTO);
			r.isvoid = false;
			r.val = "O"; num(r.val, nd.n); r.val += '{'; r.val += none ? "~" : a; r.val += '}';
			break;
		}
		case WRAPOPT: r.val = "!" + r.val; break;
		case WRAPVAR: r.val = "v" + std::to_string(nd.n) + ":" + r.val; break;
		case CONST: r.isvoid = false; r.val = nd.s; break;
		case DFLT: r.isvoid = false; r.val = "D"; num(r.val, nd.n); break;
		case STRINTO:
		case SVINTO:
		{
			std::size_t b, e;
			contiguous(r.val, b, e);
			r.isvoid = false;
			if (nd.k == STRINTO) { r.val = "S\""; r.val.append(in + b, e - b); r.val += '"'; }
			else r.val[0] = 's';
			break;
		}
		case FILTER:
		case AFILTER:
		{
			std::string a = nd.k == AFILTER ? spread(r.val) : r.val;
			log += 'f'; num(log, nd.n); log += '('; log += a; log += ')';
			if (!pred_answer_impl((int)nd.n, a)) fail();
			break;
		}
		default: throw std::runtime_error("ref: bad node");
		}
	}
	return r;
}

} // namespace ref
