#include "genimpl.h"
std::map<std::string, Factory>& factories()
{
	static std::map<std::string, Factory> f;
	return f;
}
std::vector<std::string> calls;

int main()
{
	std::unique_ptr<AnyStore> s;
	return h::run(
		[&]() {},
		[&](h::Args const& a) {
			if(a[0] == "store") {
				s.reset(factories().at(a[1])());
				h::ev("{\"e\":\"init\",\"k\":\"%s\"}", a[1].c_str());
			} else
				s->op(a);
		},
		[&]() { s.reset(); });
}
