// Answers of the user predicates: a fixed function of the predicate's number and of the canonical
// form of its argument. 0: always true, 1: always false, 2..: depends on value and position.
#pragma once
#include <cstdint>
#include <string>

inline std::uint64_t fnv_impl(const char* p, std::size_t n, std::uint64_t salt)
{
	std::uint64_t h = 1469598103934665603ull ^ (salt * 0x9E3779B97F4A7C15ull);
	for (std::size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
	h ^= h >> 29;
	return h;
}

inline bool pred_answer_impl(int k, const std::string& a)
{
	if (k == 0) return true;
	if (k == 1) return false;
	return fnv_impl(a.data(), a.size(), (std::uint64_t)k) % 3 != 0;
}
