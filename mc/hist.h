#pragma once
#include "mc_case.h"
#include <cstddef>
namespace hist {
struct Held { virtual ~Held() = default; virtual void describe(mc::Obs&) const = 0; };
struct G { const char* cpp; const char* sexpr; Held* (*parse)(const char*, std::size_t); Held* (*look)(const char*, std::size_t); };
void add(const G&);
}
