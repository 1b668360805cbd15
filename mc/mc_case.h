#pragma once
#include <cstddef>
#include <string>

#ifdef MC_THREADS
#define MC_TL thread_local
#else
#define MC_TL
#endif

namespace mc {

struct Obs
{
	bool threw = false;
	std::string what;
	bool ok = false;
	const char* rem = nullptr;
	std::size_t rem_len = 0;
	std::string val;
	std::size_t news = 0;
	bool bool_mismatch = false;
	long live = 0, held = 0, moved = 0, copies = 0, moves = 0;   // tracked values (MC_TRACK)
};

using Fn = void (*)(const char*, std::size_t, Obs&);

struct Case
{
	const char* id;
	const char* cpp;
	const char* sexpr;
	const char* type;
	bool noalloc;               // no part of the grammar has a value that owns memory
	std::string (*impl_type)();
	std::string (*impl_look_type)();
	Fn parse;
	Fn look;
	std::size_t elem = 1;                                         // bytes per input element
	void (*fill)(char*, const char*, std::size_t) = nullptr;      // the input's letters as elements
};

void add_case(const Case&);

} // namespace mc
