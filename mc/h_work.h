// How many element comparisons a repetition makes: inputs of doubling length, every short repeated word
// and every short tail.
#pragma once
#include <k3/tok3n.h>
#include "mc.h"
#include "h.h"
#include <span>

namespace hw {

inline std::uint64_t comps = 0, budget = 0;
struct TooMany {};
inline void count() { if (++comps > budget) throw TooMany{}; }
struct In
{
	char c;
	friend bool operator==(const In& a, char b) { count(); return a.c == b; }
	friend bool operator==(char b, const In& a) { count(); return a.c == b; }
};
// what every rule yields
struct Made { Made() = default; template <class... A> requires (sizeof...(A) > 0) and (not (sizeof...(A) == 1 and (... and std::is_same_v<std::remove_cvref_t<A>, Made>))) explicit Made(A&&...) {} };
struct make { template <class... A> Made operator()(A&&...) const { return {}; } };
struct yes { template <class... A> bool operator()(A&&...) const { return true; } };

template <class P>
void grammar(const char* name, std::size_t max, std::uint64_t per = 0)    // per: comparisons allowed per element, instead of the growth
{
	std::vector<std::string> words{ "" };
	for (std::size_t b = 0, l = 0; l < 3; ++l)
	{
		std::size_t e = words.size();
		for (; b < e; ++b) for (char c : { 'a', 'b', 'c' }) words.push_back(words[b] + c);
	}
	static std::vector<In> in;
	for (auto& u : words)
	{
		if (u.empty()) continue;
		for (auto& t : words)
		{
			if (t.size() > 1) continue;
			std::string shown = "(" + u + ")*" + t;
			h::where(name, shown);
			++h::states;
			for (int look = 0; look < 2; ++look)
			{
				std::uint64_t cost[3];
				std::size_t covered[3];
				std::size_t n = max / 4;
				for (int i = 0; i < 3; ++i, n *= 2)
				{
					in.clear();
					while (in.size() < n) for (char c : u) in.push_back({ c });
					for (char c : t) in.push_back({ c });
					comps = 0;
					budget = (per ? per : 20000) * (in.size() + 64);
					std::span<const In> sp(in.data(), in.size());
					try
					{
						if (look) covered[i] = in.size() - P::lookahead(sp).remaining().size();
						else covered[i] = in.size() - P::parse(sp).remaining().size();
					}
					catch (TooMany)
					{
						h::viol(name, shown, look ? "comparisons made by lookahead" : "comparisons made by parse", "growth in proportion to the input", "more than " + std::to_string(budget) + " at length " + std::to_string(in.size()));
						return;
					}
					cost[i] = comps;
					h::runs++;
					h::transitions += comps;
					mc::g_ticks = mc::g_ticks + 1;
				}
				// a linear cost doubles its growth when the length doubles; allow a fifth and a constant more
				if (!per && (double)(cost[2] - cost[1]) > 2.4 * (double)(cost[1] > cost[0] ? cost[1] - cost[0] : 0) + 64)
					h::viol(name, shown, look ? "comparisons made by lookahead at lengths n, 2n, 4n" : "comparisons made by parse at lengths n, 2n, 4n", "growth in proportion to the input",
						std::to_string(cost[0]) + ", " + std::to_string(cost[1]) + ", " + std::to_string(cost[2]));
				h::outcome(std::to_string(covered[2] > max / 2) + std::to_string(cost[2] / (max / 4)));
			}
		}
	}
}

} // namespace hw
