#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
namespace mc {
struct Case17 { const char* id; const char* cpp; std::size_t inputs; void (*constant)(std::uint64_t*); void (*run)(std::uint64_t*); std::string (*show)(std::size_t); };
void add_case(const Case17&);
}
