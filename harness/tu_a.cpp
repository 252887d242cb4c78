// two translation units of one program that both include the library and use it
#include "Engabra"
#include <cstdio>
#include <sstream>
engabra::g3::MultiVector fromB(engabra::g3::Spinor const & s);
int main()
{
	namespace g3 = engabra::g3;
	g3::Spinor const s{ g3::exp(.25 * g3::e12) };
	g3::MultiVector const m{ fromB(s) };
	std::ostringstream os;
	os << m << g3::io::fixed(s) << g3::io::enote(s.theBiv);
	return g3::isValid(m) && ! os.str().empty() ? 0 : 1;
}
