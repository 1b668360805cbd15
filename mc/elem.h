#pragma once
#include <k3/tok3n.h>
#include <type_traits>

namespace mc {

// the letters of grammars and inputs as elements of another type: different elements that look alike in part
template <class E>
constexpr E elem_of(int c)
{
	unsigned char u = (unsigned char)c;
	if constexpr (std::is_same_v<E, char>) return (E)u;
	else if constexpr (std::is_floating_point_v<E>) return (E)(((int)u - 'b') * 0.25);
	else if constexpr (sizeof(E) == 1) return (E)((u & 3) > 1 ? u | 0x80 : u);
	else return (E)(0x61 + ((unsigned long long)(unsigned char)((u ^ 'b') * 0xC1) << (8 * sizeof(E) - 8)));
}
template <class E, int... cs> struct el
{
	static constexpr auto any() { if constexpr (sizeof...(cs) == 0) return k3::tok3n::any<k3::tok3n::detail::static_array<E, 0>{}>; else return k3::tok3n::any_of<elem_of<E>(cs)...>; }
	static constexpr auto none() { if constexpr (sizeof...(cs) == 0) return k3::tok3n::none<k3::tok3n::detail::static_array<E, 0>{}>; else return k3::tok3n::none_of<elem_of<E>(cs)...>; }
	static constexpr auto all() { if constexpr (sizeof...(cs) == 0) return k3::tok3n::all<k3::tok3n::detail::static_array<E, 0>{}>; else return k3::tok3n::all_of<elem_of<E>(cs)...>; }
};

} // namespace mc
