// A second translation unit, linked before the first: its static objects read
// the constants, its own and the first unit's, during initialisation.
#include "drv_store.hpp"
namespace hx
{
ConstList constants2(char const * when) { return readConstants(when); }
ConstList & early() { static ConstList l; return l; }
namespace
{
struct Early { Early() { for (auto const & k : constants2("static2")) early().push_back(k); for (auto const & k : constants1("static2of1")) early().push_back(k); } } const sEarly;
}
ConstList const & early2() { return early(); }
}
