#include "engabra.hpp"
#include "g3func.hpp"
#include "Engabra"
#include <sstream>
namespace g3 = engabra::g3;
g3::MultiVector fromB(g3::Spinor const & s)
{
	std::istringstream is("1 2 3 4 5 6 7 8");
	g3::MultiVector m; is >> m;
	g3::BiVector const b{ g3::logG2(s).theBiv };
	return g3::MultiVector(s) * m + g3::inverse<g3::MultiVector>(m) + g3::MultiVector(g3::sqrtG2(s) * b) + g3::exp(m * .01) + g3::MultiVector(g3::direction(b));
}
