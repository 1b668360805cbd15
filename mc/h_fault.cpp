#include "h_fault.h"

int main(int argc, char** argv)
{
	h::start();
	int maxlen = (int)h::arg(argc, argv, "--maxlen", 4);
	make_inputs(maxlen);
	B("ab"_any); B("a"_none); B("ab"_all); B("ab"_ign); B(+"ab"_any); B(*"ab"_all); B(~"a"_any); B("a"_any >> "b"_any); B("ab"_all | "a"_any); B(exactly<2>("ab"_any)); B(join(+"a"_any)); B(join(*"ab"_all)); B(join(exactly<2>("ab"_any)));
	B(join(~"ab"_all)); B(delimit("a"_any, "b"_any)); B(delimit_keep("a"_any, "b"_any)); B(complete(*"a"_any)); B(ignore(+"ab"_any)); B(name<"n">("ab"_all)); B(+("a"_any >> "b"_any)); B(*("ab"_all | "c"_any)); B(join(("a"_any >> "b"_ign) | "a"_all) ); B(!"a"_any);
	B(+(+"a"_any >> ~"b"_any)); B(exactly<2>(+"a"_any) | delimit("a"_any, "b"_any)); B(*("a"_any >> ("b"_any | "c"_none))); B(delimit(+"a"_any, "b"_any) >> ~"c"_any); B(complete("a"_any >> *"b"_any));
	K(constant<SCon(5)>("a"_any)); K(+constant<SCon(5)>("a"_any)); K(~constant<SCon(5)>("a"_any)); K(constant<SCon(5)>("a"_any) >> "b"_any); K(constant<SCon(5)>("a"_any) >> "b"_ign); K(constant<SCon(5)>("ab"_all) | "a"_any); K(constant<SCon(5)>("ab"_all) | "a"_ign);
	K(exactly<2>(constant<SCon(5)>("a"_any))); K(delimit(constant<SCon(5)>("a"_any), "b"_any)); K(delimit_keep(constant<SCon(5)>("a"_any), constant<SCon(6)>("b"_any))); K(constant<SCon(5)>(+"a"_any) >> constant<SCon(4)>("b"_any)); K(*(constant<SCon(5)>("a"_any) | constant<SCon(4)>("b"_any)));
	K(defaulted<SCon>("a"_any)); K(+defaulted<SCon>("ab"_any)); K(into<std::string>(join(+"abc"_any))); K(+into<std::string>("ab"_all)); K(complete(*constant<SCon(5)>("ab"_any))); K(name<"n">(constant<SCon(5)>("a"_any))); K((constant<SCon(5)>("a"_any) >> "c"_ign) | constant<SCon(7)>("a"_any));
	h::extra = ",\"fault_points\":" + std::to_string(h::transitions);
	return h::finish();
}
