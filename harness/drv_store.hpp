#ifndef hx_drv_store_INCL_
#define hx_drv_store_INCL_
#include "hx.hpp"
#include <variant>
namespace hx
{
using Slot = std::variant<double, Scalar, Vector, BiVector, TriVector, Spinor, ImSpin, ComPlex, DirPlex, MultiVector>;
inline std::string cellJson(double x) { char b[24]; std::snprintf(b, sizeof b, "\"%016llx\"", (unsigned long long)bits(x)); return b; }
inline std::string cellsJson(Comps const & c) { std::string s = "["; for (std::size_t i = 0; i < c.size(); ++i) { if (i) s += ','; s += cellJson(c[i]); } return s + "]"; }
inline std::string nansJson(Comps const & c) { std::string s = "["; for (std::size_t i = 0; i < c.size(); ++i) { if (i) s += ','; s += std::isnan(c[i]) ? '1' : '0'; } return s + "]"; }
template <typename T> std::string objJson(T const & x) { return std::string("{\"t\":\"") + TypeInfo<T>::name + "\",\"c\":" + cellsJson(comps(x)) + "}"; }

struct ConstVal { std::string name, type; Comps c; char const * when; };
using ConstList = std::vector<ConstVal>;
template <typename T> inline void addConst(ConstList & l, char const * name, T const & x, char const * when) { l.push_back({name, TypeInfo<T>::name, comps(x), when}); }
// each translation unit that includes this has its own copy of the header's static constants
static inline ConstList readConstants(char const * when)
{
	ConstList l;
#define C1(N) addConst(l, #N, g3::N, when);
	C1(e0) C1(e1) C1(e2) C1(e3) C1(e23) C1(e31) C1(e12) C1(e123)
	C1(pi) C1(piHalf) C1(piQtr) C1(turnFull) C1(turnHalf) C1(turnQtr) C1(nan)
#undef C1
#define C2(T) addConst(l, "zero", g3::zero<T>(), when); addConst(l, "null", g3::null<T>(), when);
	C2(double) C2(Scalar) C2(Vector) C2(BiVector) C2(TriVector) C2(Spinor) C2(ImSpin) C2(ComPlex) C2(DirPlex) C2(MultiVector)
#undef C2
#define C3(T) addConst(l, "one", g3::one<T>(), when);
	C3(double) C3(Scalar) C3(Vector) C3(BiVector) C3(Spinor) C3(ImSpin) C3(ComPlex) C3(DirPlex) C3(MultiVector)
#undef C3
	return l;
}
ConstList constants1(char const * when);
ConstList constants2(char const * when);
ConstList const & early2();
inline void writeConsts(Out & out, ConstList const & l)
{
	for (auto const & k : l)
	{
		Rec rec;
		rec.str("op", "const").str("name", k.name).str("when", k.when).raw("v", "{\"t\":\"" + k.type + "\",\"c\":" + cellsJson(k.c) + "}").raw("nans", nansJson(k.c));
		out.put(rec);
	}
}
}
#endif
