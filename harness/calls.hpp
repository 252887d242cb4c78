// Every operation of the library callable by name on registers that hold real
// library objects, so that aliasing, operand preservation and results can be
// observed uniformly.
#ifndef hx_calls_INCL_
#define hx_calls_INCL_

#include "hx.hpp"

#include <variant>

namespace hx
{
using Var = std::variant<double, Scalar, Vector, BiVector, TriVector, Spinor, ImSpin, ComPlex, DirPlex, MultiVector>;

inline Comps compsOf(Var const & v) { return std::visit([](auto const & x) { return comps(x); }, v); }
inline char const * nameOf(Var const & v) { return std::visit([](auto const & x) { return TypeInfo<std::decay_t<decltype(x)>>::name; }, v); }
inline Var makeVar(int type, Comps const & c)
{
	Var out;
	dispatch(type, [&](auto tag) { using T = typename decltype(tag)::type; out = make<T>(c); });
	return out;
}

// a result: an entity (or number), or text, or several
struct Res
{
	std::vector<Var> ents;
	std::string text;
	bool has = false;
	template <typename T> void put(T const & x) { if constexpr (std::is_same_v<T, bool>) ents.push_back(x ? 1. : 0.); else if constexpr (TypeInfo<T>::id >= 0) ents.push_back(x); else ents.push_back(std::nan("")); has = true; }
};

template <typename, template <typename...> class Op, typename... Args> struct DetectImpl : std::false_type {};
template <template <typename...> class Op, typename... Args> struct DetectImpl<std::void_t<Op<Args...>>, Op, Args...> : std::true_type {};
template <template <typename...> class Op, typename... Args> constexpr bool has = DetectImpl<void, Op, Args...>::value;

#define HX_UNARY(NAME, EXPR) template <typename A> using NAME = decltype(EXPR);
#define HX_A std::declval<A const &>()
#define HX_B std::declval<B const &>()
template <typename A, typename B> using MulT = decltype(HX_A * HX_B);
template <typename A, typename B> using AddT = decltype(HX_A + HX_B);
template <typename A, typename B> using SubT = decltype(HX_A - HX_B);
template <typename A, typename B> using EqT = decltype(HX_A == HX_B);
template <typename A, typename B> using NearT = decltype(g3::nearlyEquals(HX_A, HX_B));
HX_UNARY(NegT, -HX_A)
HX_UNARY(RevT, g3::reverse(HX_A))
HX_UNARY(OddT, g3::oddverse(HX_A))
HX_UNARY(DirT, g3::dirverse(HX_A))
HX_UNARY(DualT, g3::dual(HX_A))
HX_UNARY(MagSqT, g3::magSq(HX_A))
HX_UNARY(AmpSqT, g3::ampSq(HX_A))
HX_UNARY(InvT, g3::inverse<A>(HX_A))
HX_UNARY(ExpT, g3::exp(HX_A))
HX_UNARY(ValidT, g3::isValid(HX_A))
HX_UNARY(FixedT, g3::io::fixed(HX_A))
HX_UNARY(EnoteT, g3::io::enote(HX_A))

template <typename A> constexpr bool isBlade = std::is_same_v<A, Scalar> || std::is_same_v<A, Vector> || std::is_same_v<A, BiVector> || std::is_same_v<A, TriVector>;
template <typename A> constexpr bool isClosed = std::is_same_v<A, double> || std::is_same_v<A, Scalar> || std::is_same_v<A, Spinor> || std::is_same_v<A, ComPlex> || std::is_same_v<A, MultiVector>;

enum class Op { mul, add, sub, neg, reverse, oddverse, dirverse, dual, sq, cube, magSq, magnitude, pairMagDir, direction,
	ampSq, amplitude, inverse, exp, log, sqrt, logPlane, sqrtPlane, near, eq, isValid, fixed, enote, put, embed, COUNT };
inline char const * opName(Op o)
{
	static char const * const n[] = {"mul", "add", "sub", "neg", "reverse", "oddverse", "dirverse", "dual", "sq", "cube", "magSq", "magnitude", "pairMagDir", "direction",
		"ampSq", "amplitude", "inverse", "exp", "log", "sqrt", "logPlane", "sqrtPlane", "near", "eq", "isValid", "fixed", "enote", "put", "embed"};
	return n[(int)o];
}
inline Op opByName(std::string const & s) { for (int i = 0; i < (int)Op::COUNT; ++i) if (s == opName((Op)i)) return (Op)i; std::fprintf(stderr, "no op %s\n", s.c_str()); std::exit(3); }
inline bool isBinary(Op o) { return o == Op::mul || o == Op::add || o == Op::sub || o == Op::near || o == Op::eq || o == Op::logPlane || o == Op::sqrtPlane; }

template <typename A, typename B>
inline void call2(Op op, A const & a, B const & b, Res & r)
{
	constexpr bool dd = std::is_same_v<A, double> && std::is_same_v<B, double>;
	constexpr bool same = std::is_same_v<A, B>;
	switch (op)
	{
	case Op::mul: if constexpr (! dd && has<MulT, A, B>) r.put(a * b); break;
	case Op::add: if constexpr (! dd && has<AddT, A, B>) r.put(a + b); break;
	case Op::sub: if constexpr (! dd && has<SubT, A, B>) r.put(a - b); break;
	case Op::near: if constexpr (same && has<NearT, A, B>) r.put(g3::nearlyEquals(a, b)); break;
	case Op::eq: if constexpr (! dd && same && ! std::is_same_v<A, ComPlex> && ! std::is_same_v<A, DirPlex>) r.put(a == b); break;
	case Op::logPlane: if constexpr (std::is_same_v<A, Spinor> && std::is_same_v<B, BiVector>) r.put(g3::logG2(a, b)); break;
	case Op::sqrtPlane: if constexpr (std::is_same_v<A, Spinor> && std::is_same_v<B, BiVector>) r.put(g3::sqrtG2(a, b)); break;
	default: break;
	}
}
template <typename A>
inline void call1(Op op, A const & a, Res & r)
{
	constexpr bool dbl = std::is_same_v<A, double>;
	switch (op)
	{
	case Op::neg: if constexpr (! dbl && has<NegT, A>) r.put(-a); break;
	case Op::reverse: if constexpr (has<RevT, A>) r.put(g3::reverse(a)); break;
	case Op::oddverse: if constexpr (! dbl && has<OddT, A>) r.put(g3::oddverse(a)); break;
	case Op::dirverse: if constexpr (! dbl && has<DirT, A>) r.put(g3::dirverse(a)); break;
	case Op::dual: if constexpr (has<DualT, A>) r.put(g3::dual(a)); break;
	case Op::sq: if constexpr (isClosed<A>) r.put(g3::sq(a)); break;
	case Op::cube: if constexpr (isClosed<A>) r.put(g3::cube(a)); break;
	case Op::magSq: if constexpr (has<MagSqT, A>) r.put(g3::magSq(a)); break;
	case Op::magnitude: if constexpr (! dbl) r.put(g3::magnitude(a)); break;
	case Op::pairMagDir: if constexpr (! dbl) { auto const p = g3::pairMagDirFrom(a); r.put(p.first); r.put(p.second); } break;
	case Op::direction: if constexpr (! dbl) r.put(g3::direction(a)); break;
	case Op::ampSq: if constexpr (! dbl && has<AmpSqT, A>) r.put(g3::ampSq(a)); break;
	case Op::amplitude: if constexpr (! dbl && has<AmpSqT, A>) r.put(g3::amplitude(a)); break;
	case Op::inverse: if constexpr (isBlade<A> || std::is_same_v<A, ComPlex> || std::is_same_v<A, MultiVector>) r.put(g3::inverse<A>(a)); break;
	case Op::exp: if constexpr (std::is_same_v<A, BiVector> || std::is_same_v<A, Spinor> || std::is_same_v<A, MultiVector>) r.put(g3::exp(a)); break;
	case Op::log: if constexpr (std::is_same_v<A, Spinor>) r.put(g3::logG2(a)); break;
	case Op::sqrt: if constexpr (std::is_same_v<A, Spinor>) r.put(g3::sqrtG2(a)); break;
	case Op::isValid: r.put(g3::isValid(a)); break;
	case Op::fixed: if constexpr (dbl || (has<FixedT, A> && ! std::is_same_v<A, ComPlex> && ! std::is_same_v<A, DirPlex>)) { r.text = g3::io::fixed(a); r.has = true; } break;
	case Op::enote: if constexpr (dbl || (has<EnoteT, A> && ! std::is_same_v<A, ComPlex> && ! std::is_same_v<A, DirPlex>)) { r.text = g3::io::enote(a); r.has = true; } break;
	case Op::put: if constexpr (! dbl) { std::ostringstream o; o << a; r.text = o.str(); r.has = true; } break;
	case Op::embed: if constexpr (! std::is_same_v<A, MultiVector>) r.put(MultiVector(a)); break;
	default: break;
	}
}

// the call op(a[, b]) on the registers themselves (no copies of the operands)
inline Res invoke(Op op, Var const & a, Var const & b)
{
	Res r;
	if (isBinary(op))
		std::visit([&](auto const & x) { std::visit([&](auto const & y) { call2(op, x, y, r); }, b); }, a);
	else
		std::visit([&](auto const & x) { call1(op, x, r); }, a);
	return r;
}

inline void recEnt(std::string & s, Var const & v)
{
	Rec r; r.s.clear();
	r.s += "{\"t\":\""; r.s += nameOf(v); r.s += "\",\"c\":[";
	Comps const c = compsOf(v);
	for (std::size_t n = 0; n < c.size(); ++n) { if (n) r.s += ','; Rec::num(r.s, c[n]); }
	r.s += "]}";
	s += r.s;
}
inline void recRes(Rec & rec, char const * k, Res const & r)
{
	std::string s = "[";
	for (std::size_t i = 0; i < r.ents.size(); ++i) { if (i) s += ','; recEnt(s, r.ents[i]); }
	s += "]";
	rec.raw(k, s);
}
} // [hx]

#endif
