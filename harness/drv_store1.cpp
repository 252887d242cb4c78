// the first translation unit's constants
#include "drv_store.hpp"
namespace hx
{
ConstList constants1(char const * when) { return readConstants(when); }
}
