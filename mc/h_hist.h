// Library side of the history exploration: operations that parse and keep the result.
#pragma once
#include "mc.h"
#include "hist.h"
namespace hist {

template <class R>
struct HeldR : Held
{
	R r;
	explicit HeldR(R&& x) : r(std::move(x)) {}
	void describe(mc::Obs& o) const override { mc::finish(o, r); }
};

template <class P> Held* op_parse(const char* b, std::size_t n) { auto r = P::parse(std::string_view(b, n)); return new HeldR<decltype(r)>(std::move(r)); }
template <class P> Held* op_look(const char* b, std::size_t n) { auto r = P::lookahead(std::string_view(b, n)); return new HeldR<decltype(r)>(std::move(r)); }

template <class P> void reg(const char* cpp, const char* sexpr) { add({ cpp, sexpr, &op_parse<P>, &op_look<P> }); }

} // namespace hist
