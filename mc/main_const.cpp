#include "mc17_case.h"
#include "h.h"
namespace mc { static std::vector<Case17>& cs() { static std::vector<Case17> c; return c; } void add_case(const Case17& c) { cs().push_back(c); } }
void register_cases();
int main(int argc, char** argv)
{
	h::start();
	register_cases();
	std::string only;
	for (int i = 1; i < argc; ++i) if (!strncmp(argv[i], "--only=", 7)) only = argv[i] + 7;
	for (auto& c : mc::cs())
	{
		if (!only.empty() && only != c.id) continue;
		std::vector<std::uint64_t> a(c.inputs * 3), b(c.inputs * 3);
		snprintf(mc::g_where, sizeof mc::g_where, "{\"case\":\"%s\"}", c.id);
		mc::g_ticks = mc::g_ticks + 1;
		c.constant(a.data());
		c.run(b.data());
		++h::transitions;
		for (std::size_t i = 0; i < a.size(); ++i)
		{
			++h::states; ++h::runs;
			h::outcome(std::to_string(b[i]));
			static const char* what[] = { "parse", "lookahead", "parse of another form of the input" };
			if (a[i] != b[i])
			{
				if (h::violations++ < 5) printf("VIOL {\"case\":%s,\"input\":%s,\"aspect\":%s,\"expected\":\"the outcome at run time equals the constant expression\",\"observed\":\"they differ\"}\n", h::json(c.id).c_str(), h::json(c.show(i / 3)).c_str(), h::json(what[i % 3]).c_str());
				break;
			}
		}
		h::sample(std::string("constant table of ") + c.cpp + " over " + std::to_string(c.inputs) + " inputs equals its run-time table");
	}
	return h::finish();
}
