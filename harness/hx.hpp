// Common parts of the conformance harnesses: component access for every
// entity type, value generation by stratum, and ndjson recording of exact
// double values as the number tuples of spec/Dyadic.tla.
#ifndef hx_INCL_
#define hx_INCL_

#include "Engabra"

#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace hx
{
namespace g3 = engabra::g3;
using g3::Scalar; using g3::Vector; using g3::BiVector; using g3::TriVector;
using g3::Spinor; using g3::ImSpin; using g3::ComPlex; using g3::DirPlex;
using g3::MultiVector;

// ---------------------------------------------------------------- types
template <typename T> struct TypeInfo { static constexpr char const * name = "other"; static constexpr int id = -1; static constexpr int dim = 0; };
#define HX_TYPE(T, ID, DIM) \
	template <> struct TypeInfo<T> { static constexpr char const * name = #T; static constexpr int id = ID; static constexpr int dim = DIM; };
HX_TYPE(double, 0, 1) HX_TYPE(Scalar, 1, 1) HX_TYPE(Vector, 2, 3) HX_TYPE(BiVector, 3, 3)
HX_TYPE(TriVector, 4, 1) HX_TYPE(Spinor, 5, 4) HX_TYPE(ImSpin, 6, 4) HX_TYPE(ComPlex, 7, 2)
HX_TYPE(DirPlex, 8, 6) HX_TYPE(MultiVector, 9, 8)

using AllTypes = std::tuple<double, Scalar, Vector, BiVector, TriVector, Spinor, ImSpin, ComPlex, DirPlex, MultiVector>;
constexpr int sNumTypes = 10;
inline int typeId(std::string const & n)
{
	static char const * const names[] = {"double","Scalar","Vector","BiVector","TriVector","Spinor","ImSpin","ComPlex","DirPlex","MultiVector"};
	for (int i = 0; i < sNumTypes; ++i) if (n == names[i]) return i;
	return -1;
}
inline int typeDim(int id) { static int const d[] = {1,1,3,3,1,4,4,2,6,8}; return d[id]; }

using Comps = std::vector<double>;

inline Comps comps(double const & x) { return {x}; }
inline Comps comps(bool const & x) { return {x ? 1. : 0.}; }
inline Comps comps(Scalar const & x) { return {x.theData[0]}; }
inline Comps comps(Vector const & x) { return {x.theData[0], x.theData[1], x.theData[2]}; }
inline Comps comps(BiVector const & x) { return {x.theData[0], x.theData[1], x.theData[2]}; }
inline Comps comps(TriVector const & x) { return {x.theData[0]}; }
inline Comps operator+(Comps a, Comps const & b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Comps comps(Spinor const & x) { return comps(x.theSca) + comps(x.theBiv); }
inline Comps comps(ImSpin const & x) { return comps(x.theVec) + comps(x.theTri); }
inline Comps comps(ComPlex const & x) { return comps(x.theSca) + comps(x.theTri); }
inline Comps comps(DirPlex const & x) { return comps(x.theVec) + comps(x.theBiv); }
inline Comps comps(MultiVector const & x) { return comps(x.theSca) + comps(x.theVec) + comps(x.theBiv) + comps(x.theTri); }
template <typename T> inline Comps comps(T const &) { return {}; }

template <typename T> struct Make;
template <> struct Make<double> { static double from(double const * c) { return c[0]; } };
template <> struct Make<Scalar> { static Scalar from(double const * c) { Scalar r; r.theData = {c[0]}; return r; } };
template <> struct Make<Vector> { static Vector from(double const * c) { Vector r; r.theData = {c[0], c[1], c[2]}; return r; } };
template <> struct Make<BiVector> { static BiVector from(double const * c) { BiVector r; r.theData = {c[0], c[1], c[2]}; return r; } };
template <> struct Make<TriVector> { static TriVector from(double const * c) { TriVector r; r.theData = {c[0]}; return r; } };
template <> struct Make<Spinor> { static Spinor from(double const * c) { Spinor r; r.theSca = Make<Scalar>::from(c); r.theBiv = Make<BiVector>::from(c + 1); return r; } };
template <> struct Make<ImSpin> { static ImSpin from(double const * c) { ImSpin r; r.theVec = Make<Vector>::from(c); r.theTri = Make<TriVector>::from(c + 3); return r; } };
template <> struct Make<ComPlex> { static ComPlex from(double const * c) { ComPlex r; r.theSca = Make<Scalar>::from(c); r.theTri = Make<TriVector>::from(c + 1); return r; } };
template <> struct Make<DirPlex> { static DirPlex from(double const * c) { DirPlex r; r.theVec = Make<Vector>::from(c); r.theBiv = Make<BiVector>::from(c + 3); return r; } };
template <> struct Make<MultiVector> { static MultiVector from(double const * c) { MultiVector r; r.theSca = Make<Scalar>::from(c); r.theVec = Make<Vector>::from(c + 1); r.theBiv = Make<BiVector>::from(c + 4); r.theTri = Make<TriVector>::from(c + 7); return r; } };
template <typename T> inline T make(Comps const & c) { return Make<T>::from(c.data()); }

// call f(type tag) for the type with the given id
template <typename T> struct Tag { using type = T; };
template <typename F, std::size_t... Is>
inline void dispatchImpl(int id, F && f, std::index_sequence<Is...>)
{
	(void)std::initializer_list<int>{ (id == (int)Is ? (f(Tag<std::tuple_element_t<Is, AllTypes>>{}), 0) : 0)... };
}
template <typename F> inline void dispatch(int id, F && f) { dispatchImpl(id, std::forward<F>(f), std::make_index_sequence<sNumTypes>{}); }

inline std::uint64_t bits(double x) { std::uint64_t u; std::memcpy(&u, &x, 8); return u; }
inline double fromBits(std::uint64_t u) { double x; std::memcpy(&x, &u, 8); return x; }

// ---------------------------------------------------------------- recording
struct Rec
{
	std::string s;
	bool first = true;
	Rec() { s.reserve(512); s += '{'; }
	void key(char const * k) { if (! first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
	void i(long v) { char b[24]; std::snprintf(b, sizeof b, "%ld", v); s += b; }
	static void num(std::string & s, double x)
	{
		char b[96];
		if (std::isnan(x)) { s += "[2,0]"; return; }
		if (std::isinf(x)) { s += x > 0 ? "[3,0]" : "[4,0]"; return; }
		if (x == 0) { s += std::signbit(x) ? "[0,1]" : "[0,0]"; return; }
		std::uint64_t const u = bits(x);
		int e = (int)((u >> 52) & 0x7ff);
		std::uint64_t m = u & ((std::uint64_t(1) << 52) - 1);
		if (e) m |= std::uint64_t(1) << 52; else e = 1;
		e -= 1075;
		int const z = __builtin_ctzll(m);
		m >>= z; e += z;
		std::uint64_t const lo = m & ((1u << 30) - 1), hi = m >> 30;
		if (hi) std::snprintf(b, sizeof b, "[%d,%d,%llu,%llu]", (u >> 63) ? -1 : 1, e, (unsigned long long)lo, (unsigned long long)hi);
		else std::snprintf(b, sizeof b, "[%d,%d,%llu]", (u >> 63) ? -1 : 1, e, (unsigned long long)lo);
		s += b;
	}
	Rec & str(char const * k, std::string const & v) { key(k); s += '"'; for (char c : v) { if (c == '"' || c == '\\') { s += '\\'; s += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", (unsigned)(unsigned char)c); s += b; } else s += c; } s += '"'; return *this; }
	Rec & in(char const * k, long v) { key(k); i(v); return *this; }
	Rec & dbl(char const * k, double v) { key(k); num(s, v); return *this; }
	Rec & list(char const * k, Comps const & c) { key(k); s += '['; for (std::size_t n = 0; n < c.size(); ++n) { if (n) s += ','; num(s, c[n]); } s += ']'; return *this; }
	Rec & ent(char const * k, char const * t, Comps const & c) { key(k); s += "{\"t\":\""; s += t; s += "\",\"c\":["; for (std::size_t n = 0; n < c.size(); ++n) { if (n) s += ','; num(s, c[n]); } s += "]}"; return *this; }
	template <typename T> Rec & ent(char const * k, T const & x) { return ent(k, TypeInfo<T>::name, comps(x)); }
	Rec & raw(char const * k, std::string const & v) { key(k); s += v; return *this; }
};

// the trace goes to the file named by argv, never to stdout: the standard
// streams belong to the code under test
struct Out
{
	FILE * f = nullptr;
	long n = 0;
	explicit Out(char const * path) { f = std::fopen(path, "w"); if (! f) { std::perror(path); std::exit(3); } std::setvbuf(f, nullptr, _IOFBF, 1 << 20); }
	~Out() { if (f) std::fclose(f); }
	void put(Rec & r) { r.s += "}\n"; std::fwrite(r.s.data(), 1, r.s.size(), f); ++n; }
};

// ---------------------------------------------------------------- values
struct Rng
{
	std::uint64_t s;
	explicit Rng(std::uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { next(); next(); }
	std::uint64_t next() { s += 0x9e3779b97f4a7c15ull; std::uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	int range(int lo, int hi) { return lo + (int)(next() % (std::uint64_t)(hi - lo + 1)); }
	bool coin(int num = 1, int den = 2) { return (int)(next() % (std::uint64_t)den) < num; }
	double unit() { return (double)(next() >> 11) * 0x1p-53; }
	double sym() { return coin() ? unit() : -unit(); }
	// random significand in [1,2), random sign, exponent e
	double mant(int e) { double m = 1. + unit(); return std::ldexp(coin() ? m : -m, e); }
	template <typename T> T const & pick(std::vector<T> const & v) { return v[next() % v.size()]; }
};

inline std::vector<double> const & specials()
{
	static std::vector<double> const v
		{ 0., 1., -1., .5, -.5, 2., -2., 3., -3., .25, 4., 10., 100., -10., .1, -.1, 1e-3, 1e3, 1e-8, -1e-8, 1e-16, 1e-15, 1e-12, 1e-6, 1e6
		, 3.141592653589793, 1.5707963267948966, 0.78539816339744828, 6.283185307179586, .7071067811865476, 1.4142135623730951, -0.7071067811865476
		, 2.220446049250313e-16, 1. + 2.220446049250313e-16, 1. - 1.1102230246251565e-16, .3333333333333333, 1.7320508075688772, 0.8660254037844386
		, 1e-20, 1e20, 12345.678, 1e10, -1e10, 9007199254740993., 4294967296., 2147483647., 65536., 1e-10, 1e-4, 1e-5, 1e-2, -1e-4, 2.718281828459045, 7., 5., 180., 360., 90., 57.29577951308232 };
	return v;
}

// One operand's components, in a stratum.  lim bounds the binary exponents
// (2^-lim .. 2^lim), so that the operation under test does not overflow.
constexpr int sNumStrata = 22;
inline Comps gen(Rng & r, int dim, int stratum, int lim = 400)
{
	Comps c(dim, 0.);
	auto clampE = [&](int e) { return e > lim ? lim : e < -lim ? -lim : e; };
	switch (stratum)
	{
	case 0: for (auto & x : c) x = r.range(-2, 2); break;                       // tiny integers with zeros
	case 1: for (auto & x : c) x = r.range(1, 1000) * (r.coin() ? 1 : -1); break;   // integers
	case 2: for (auto & x : c) x = r.mant(r.range(-2, 2)); break;              // of order one
	case 3: for (auto & x : c) x = r.mant(clampE(r.range(-60, 60))); break;    // spread
	case 4: for (auto & x : c) x = r.mant(r.range(-lim, lim)); break;          // widely spread
	case 5: c[r.range(0, dim - 1)] = r.mant(r.range(-3, 3)); break;            // one component
	case 6: c[r.range(0, dim - 1)] = r.mant(r.range(-3, 3)); c[r.range(0, dim - 1)] = r.mant(r.range(-3, 3)); break; // one or two
	case 7: { int const e = r.coin() ? clampE(r.range(200, 1000)) : clampE(r.range(-1000, -200)); for (auto & x : c) x = r.mant(e + r.range(-3, 0) < -lim ? -lim : e); } break; // huge or tiny
	case 8: { double const m = r.mant(r.range(-4, 4)); for (auto & x : c) x = r.coin() ? m : -m; } break; // equal magnitudes
	case 9: for (auto & x : c) x = r.mant(0); c[r.range(0, dim - 1)] = r.mant(clampE(-r.range(30, 200))); break; // one much smaller
	case 10: // unit magnitude, or nearly (in all or some components, or as a dominant component), or another special magnitude, nearly
		{
			int const way = r.range(0, 6);
			double s = 0;
			for (auto & x : c) { x = r.sym(); if (way > 4) x *= std::ldexp(1., -r.range(5, 60)); s += x * x; }
			if (way > 4) { int const i = r.range(0, dim - 1); s -= c[i] * c[i]; c[i] = (r.coin() ? 1. : -1.); s += 1.; }
			s = std::sqrt(s);
			if (s > 0 && way < 6) for (auto & x : c) x /= s;
			double const f = std::ldexp(r.coin() ? 1. : -1., -r.range(4, 52));
			if (way == 2 || way == 6) for (auto & x : c) x *= 1. + f;
			if (way == 3) for (auto & x : c) if (r.coin()) x *= 1. + f * r.unit();
			if (way == 4) { static double const at[] = {2., .5, 4., 10., 100., 1e-3, 1e-6, 1e6, 1.4142135623730951, 3.141592653589793}; double const m = at[r.range(0, 9)] * (r.coin() ? 1. : 1. + f); for (auto & x : c) x *= m; }
		}
		break;
	case 11: for (auto & x : c) x = std::ldexp(r.coin() ? 1. : -1., clampE(r.range(-20, 20))); break; // powers of two
	case 12: for (auto & x : c) { x = r.pick(specials()); } break;             // special values
	case 13: for (auto & x : c) x = r.coin() ? -0. : r.mant(r.range(-1, 1)); break; // signed zeros
	case 14: for (auto & x : c) x = std::ldexp(std::floor(std::ldexp(r.sym(), 53)), 0); break; // 53 bit integers
	case 15: { unsigned const mask = (unsigned)r.next(); for (int i = 0; i < dim; ++i) if (mask >> i & 1) c[i] = r.mant(r.range(-2, 2)); } break; // random support
	case 16: for (auto & x : c) x = 0.; break;                                  // zero
	case 17: for (auto & x : c) x = std::fabs(r.mant(r.range(-2, 2))); break; // all positive
	case 18: for (auto & x : c) x = -std::fabs(r.mant(r.range(-2, 2))); break; // all negative
	case 19: c[r.range(0, dim - 1)] = r.coin() ? 1. : -1.; break;              // basis elements
	case 20: // equal magnitudes in some pairs of components, up to a perturbation of any size
		for (auto & x : c) x = r.mant(r.range(-2, 2));
		for (int n = r.range(1, 3); n > 0; --n) { int const i = r.range(0, dim - 1), j = r.range(0, dim - 1); c[i] = (r.coin() ? c[j] : -c[j]) * (r.coin() ? 1. : 1. + std::ldexp(r.sym(), -r.range(3, 52))); }
		if (r.coin()) for (auto & x : c) if (r.coin(1, 3)) x = 0.;
		break;
	case 21: // blocks of different size, or a few values shared by the components, among zeros
		if (r.coin(1, 4)) { double const v[] = {r.mant(r.range(-3, 3)), r.mant(r.range(-3, 3))}; bool const two = r.coin(); for (auto & x : c) x = r.coin() ? 0. : v[two && r.coin()] * (r.coin(1, 4) ? -1. : 1.); break; }
		{ int e = r.range(-60, 60); for (auto & x : c) { if (r.coin(1, 3)) e = r.range(-60, 60); x = r.coin(1, 8) ? 0. : r.mant(clampE(e)); } } break;
	case 22: for (auto & x : c) switch (r.range(0, 7)) // the ends of the number range (only for operations that cannot leave it)
		{
		case 0: x = r.coin() ? 4.4e307 : -4.4e307; break;
		case 1: x = r.coin() ? 2.2250738585072014e-308 : -2.2250738585072014e-308; break;
		case 2: x = r.coin() ? 4.9406564584124654e-324 : -4.9406564584124654e-324; break;
		case 3: x = 4.9406564584124654e-324 * r.range(-1000000, 1000000); break;
		case 4: x = r.mant(r.range(-1021, -980)); break;
		case 5: x = r.mant(r.range(980, 1020)); break;
		case 6: x = r.coin() ? 0. : -0.; break;
		default: x = r.mant(0); break;
		}
		break;
	default: for (auto & x : c) x = r.unit(); break;
	}
	return c;
}

inline bool smallInts(Comps const & c) { for (double x : c) if (! (std::fabs(x) <= 1000. && x == std::floor(x))) return false; return true; }

// derive a partner of the same dimension from an operand
constexpr int sNumRel = 13;
inline Comps relate(Rng & r, Comps const & a, int rel)
{
	Comps b(a);
	int const n = (int)a.size();
	switch (rel)
	{
	case 0: break;                                                              // equal value
	case 1: for (auto & x : b) x = -x; break;                                   // negated
	case 2: { int const i = r.range(0, n - 1); b[i] = std::nextafter(b[i], r.coin() ? 1e300 : -1e300); } break; // one ulp
	case 3: { int const i = r.range(0, n - 1); b[i] = b[i] == 0. ? 1. : b[i] * 1.5; } break; // one component differs
	case 4: { int const i = r.range(0, n - 1); b[i] = -b[i]; } break;           // one sign differs
	case 5: { int const i = r.range(0, n - 1), j = r.range(0, n - 1); std::swap(b[i], b[j]); } break; // swapped
	case 6: { double const f = r.mant(r.range(-3, 3)); for (auto & x : b) x *= f; } break; // parallel
	case 7: { for (auto & x : b) x = 0.; if (n > 1) { int const i = r.range(0, n - 1); int const j = (i + 1) % n; b[i] = a[j]; b[j] = -a[i]; } } break; // orthogonal
	case 8: for (auto & x : b) x = -x; b[0] = a[0]; break;                      // conjugate like
	case 9: { int const i = r.range(0, n - 1); b[i] = 0.; } break;              // one component zeroed
	case 10: { double const f = std::ldexp(1., -r.range(3, 50)); for (auto & x : b) x *= 1. + f * r.sym(); } break; // nearly the same in every component
	case 11: { double const f = std::ldexp(r.coin() ? 1. : -1., -r.range(3, 50)), g = r.coin() ? 1. : -1.; double m = 0.; for (double x : b) m = std::fabs(x) > m ? std::fabs(x) : m; for (auto & x : b) x *= g; b[r.range(0, n - 1)] += f * m; } break; // nearly parallel
	case 12: { double const f = r.mant(r.range(-3, 3)), h = std::ldexp(1., -r.range(3, 50)); for (auto & x : b) x *= f * (1. + h * r.sym()); } break; // nearly proportional
	}
	return b;
}

// operands of any two types that share component values; way 0..7
inline void share(Rng & r, int way, Comps & a, Comps & b)
{
	int const n = (int)a.size(), m = (int)b.size();
	double const f = std::ldexp(1., -r.range(3, 50));
	switch (way)
	{
	case 0: case 7: // one magnitude throughout (7: nearly)
		{
			double const v = a[r.range(0, n - 1)];
			for (Comps * c : {&a, &b}) for (auto & x : *c) x = (r.coin() ? v : -v) * (way ? 1. + f * r.sym() : 1.);
		}
		break;
	case 1: for (int i = 0; i < m; ++i) b[i] = a[i % n]; break;                    // aligned at the front
	case 2: for (int i = 0; i < m; ++i) b[m - 1 - i] = a[n - 1 - i % n]; break;    // aligned at the back
	case 3: { int const o = r.range(0, 7); for (int i = 0; i < m; ++i) b[i] = a[(i + o) % n]; } break; // aligned at an offset
	case 4: for (auto & x : b) { x = a[r.range(0, n - 1)]; if (r.coin()) x = -x; } break; // values and negated values of the other
	case 5: for (int i = 0; i < m; ++i) b[i] = a[n - 1 - i % n]; break;            // in reverse order
	case 6: for (int i = 0; i < m; ++i) b[i] = a[i % n] * (1. + f * r.sym()); break; // nearly the same
	}
}

// The basis element of a component: bit 0 e1, bit 1 e2, bit 2 e3.
inline std::vector<int> const & masksOf(int type)
{
	static std::vector<int> const m[10] { {0}, {0}, {1,2,4}, {6,5,3}, {7}, {0,6,5,3}, {1,2,4,7}, {0,7}, {1,2,4,6,5,3}, {0,1,2,4,6,5,3,7} };
	return m[type];
}
// the sign of the product of two basis elements, as an element of the basis
inline double signOf(int p, int q)
{
	int n = 0;
	for (int i = 0; i < 3; ++i) if (q >> i & 1) for (int j = i + 1; j < 3; ++j) n += p >> j & 1;
	n += (p == 5) + (q == 5) + ((p ^ q) == 5);                                   // e31 runs against the order
	return n & 1 ? -1. : 1.;
}
// operands related through the grades; way 8..10
inline void shareGrades(Rng & r, int way, int ta, int tb, Comps & a, Comps & b)
{
	std::vector<int> const & ma = masksOf(ta), & mb = masksOf(tb);
	double const f = std::ldexp(1., -r.range(2, 52));
	double const g = r.coin(1, 3) ? 1. : r.mant(r.range(-3, 3));
	if (way == 8 || way == 9) // the same (8) or the dual (9) parts in proportion, nearly
	{
		for (std::size_t j = 0; j < b.size(); ++j)
			for (std::size_t i = 0; i < a.size(); ++i)
				if (mb[j] == (way == 8 ? ma[i] : 7 - ma[i])) b[j] = g * a[i] * (r.coin(1, 3) ? 1. : 1. + f * r.sym());
		return;
	}
	// a component of the product in which the terms cancel, to within a small part of them
	for (auto * c : {&a, &b}) for (auto & x : *c) x = r.mant(r.range(-3, 3));
	for (int n = r.range(1, 3); n > 0; --n)
	{
		int const i0 = r.range(0, (int)a.size() - 1), j0 = r.range(0, (int)b.size() - 1), to = ma[i0] ^ mb[j0];
		double sum = 0., big = 0.;
		for (std::size_t i = 0; i < a.size(); ++i)
			for (std::size_t j = 0; j < b.size(); ++j)
				if ((ma[i] ^ mb[j]) == to && (int)j != j0) { double const t = signOf(ma[i], mb[j]) * a[i] * b[j]; sum += t; big = std::fmax(big, std::fabs(t)); }
		double const rest = r.coin(1, 4) ? 0. : big * std::ldexp(r.sym(), -r.range(1, 54));
		if (a[i0] != 0.) b[j0] = (rest - sum) * signOf(ma[i0], mb[j0]) / a[i0];
	}
}
// one dominant component of order one, exactly or nearly, and very little besides
inline Comps nearlyBasis(Rng & r, int dim)
{
	Comps c(dim, 0.);
	int const e = -r.range(3, 60);
	bool const even = r.coin();
	for (auto & x : c) x = r.coin(1, 6) ? 0. : r.mant(even ? e : e - r.range(0, 8));
	if (r.coin(1, 4)) for (auto & x : c) x = 0.;
	c[r.range(0, dim - 1)] = (r.coin(1, 3) ? -1. : 1.) * (r.coin(1, 3) ? 1. : 1. + std::ldexp(r.sym(), e));
	return c;
}
// components for which a part of the squared amplitude nearly vanishes
inline void nearlyNull(Rng & r, int type, Comps & a)
{
	std::vector<int> const & m = masksOf(type);
	double const f = r.coin(1, 4) ? 0. : std::ldexp(r.sym(), -r.range(1, 54));
	int const way = r.range(0, 2);
	if (way != 1)
	{
		// the trivector part
		int const j = r.range(0, (int)a.size() - 1);
		double sum = 0., big = 0., other = 0.;
		for (std::size_t i = 0; i < a.size(); ++i)
			for (std::size_t k = 0; k < a.size(); ++k)
				if (m[k] == 7 - m[i] && (m[i] == 0 || m[i] == 1 || m[i] == 2 || m[i] == 4))
				{
					double const sg = m[i] ? -1. : 1.;
					if ((int)i == j) other = sg * a[k];
					else if ((int)k == j) other = sg * a[i];
					else { sum += sg * a[i] * a[k]; big = std::fmax(big, std::fabs(a[i] * a[k])); }
				}
		if (other != 0.) a[j] = (f * big - sum) / other;
	}
	if (way != 0)
	{
		// the scalar part
		double up = 0., dn = 0.;
		auto const neg = [](int k) { return k == 1 || k == 2 || k == 4 || k == 7; };
		for (std::size_t i = 0; i < a.size(); ++i) (neg(m[i]) ? dn : up) += a[i] * a[i];
		if (up > 0. && dn > 0.) for (std::size_t i = 0; i < a.size(); ++i) if (neg(m[i])) a[i] *= std::sqrt(up / dn) * (1. + f);
	}
}

// ---------------------------------------------------------------- plan
struct Plan
{
	std::vector<std::vector<std::string>> lines;
	explicit Plan(char const * path)
	{
		std::ifstream in(path);
		if (! in) { std::perror(path); std::exit(3); }
		std::string line;
		while (std::getline(in, line))
		{
			std::istringstream is(line);
			std::vector<std::string> w; std::string t;
			while (is >> t) w.push_back(t);
			if (! w.empty()) lines.push_back(w);
		}
	}
};

} // [hx]

#endif
