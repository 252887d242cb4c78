// Validity harness: drv_valid PLAN TRACE SEED
//   valid T class...       isValid of an entity with those component classes
//   array N class...       isValid of std::array<double,N>
//   gen T stratum          isValid of an entity with ordinary values
//   null T                 null<T>()
//   poison f T U side i    the call f with NaN in operand(s) `side`, component i (0: all)
//   halfturn f T U b 0     log/sqrt of a negative scalar with a null plane
#include "calls.hpp"
#include <cfloat>

namespace hx
{
inline double ofClass(Rng & r, std::string const & c)
{
	auto const sgn = [&](double x) { return r.coin() ? x : -x; };
	if (c == "zero") return 0.;
	if (c == "negzero") return -0.;
	if (c == "normal") { double const v[] = {DBL_MIN, DBL_MAX, 1., r.mant(r.range(-1000, 1000)), r.mant(r.range(-1022, -1018)), r.mant(1023), r.mant(0), std::nextafter(DBL_MIN, 1.)}; return sgn(v[r.range(0, 7)]); }
	if (c == "sub") { double const v[] = {4.9406564584124654e-324, std::nextafter(DBL_MIN, 0.), std::ldexp(1. + r.unit(), -r.range(1024, 1060)), DBL_MIN / 2.}; return sgn(v[r.range(0, 3)]); }
	if (c == "nan") { std::uint64_t const v[] = {0x7ff8000000000000ull, 0xfff8000000000000ull, 0x7ff8000000000000ull | (r.next() >> 20)}; return fromBits(v[r.range(0, 2)]); }
	if (c == "inf") return INFINITY;
	if (c == "neginf") return -INFINITY;
	std::fprintf(stderr, "class %s\n", c.c_str()); std::exit(3);
}
template <std::size_t N> bool arr(Comps const & c) { std::array<double, N> a; for (std::size_t i = 0; i < N; ++i) a[i] = c[i]; return g3::isValid(a); }
}

int main(int argc, char ** argv)
{
	using namespace hx;
	if (argc < 4) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
	int const reps = argc > 4 ? std::atoi(argv[4]) : 1;
	std::uint64_t n = 0;
	for (auto const & w : plan.lines)
	{
		Rng r(seed * 1000003 + 5 + ++n);
		for (int rep = 0; rep < reps; ++rep)
		{
			Rec rec;
			if (w[0] == "valid" || w[0] == "array")
			{
				Comps c;
				for (std::size_t i = 2; i < w.size(); ++i) c.push_back(ofClass(r, w[i]));
				bool v = false;
				if (w[0] == "valid") v = std::visit([](auto const & x) { return g3::isValid(x); }, makeVar(typeId(w[1]), c));
				else switch (c.size()) { case 1: v = arr<1>(c); break; case 2: v = arr<2>(c); break; case 3: v = arr<3>(c); break; case 4: v = arr<4>(c); break; case 5: v = arr<5>(c); break;
					case 6: v = arr<6>(c); break; case 7: v = arr<7>(c); break; case 8: v = arr<8>(c); break; case 9: v = arr<9>(c); break; case 12: v = arr<12>(c); break;
					case 16: v = arr<16>(c); break; case 17: v = arr<17>(c); break; case 33: v = arr<33>(c); break; default: return 3; }
				rec.str("op", "isValid").str("t", w[1]).list("a", c).in("r", v);
			}
			else if (w[0] == "gen")
			{
				int const t = typeId(w[1]);
				Comps const c = gen(r, typeDim(t), std::atoi(w[2].c_str()), 900);
				rec.str("op", "isValid").str("t", w[1]).list("a", c).in("r", std::visit([](auto const & x) { return g3::isValid(x); }, makeVar(t, c)));
			}
			else if (w[0] == "null")
			{
				dispatch(typeId(w[1]), [&](auto tag) { using T = typename decltype(tag)::type; T const x = g3::null<T>(); rec.str("op", "null").ent("a", x).in("r", g3::isValid(x)); });
			}
			else
			{
				Op const op = opByName(w[1]);
				int const ta = typeId(w[2]), tb = w[3] == "-" ? 1 : typeId(w[3]);
				int const st = r.range(0, sNumStrata - 1);
				Comps ca = gen(r, typeDim(ta), st, 60), cb = gen(r, typeDim(tb), r.range(0, sNumStrata - 1), 60);
				int const i = std::atoi(w[5].c_str());
				auto const poison = [&](Comps & c) { for (std::size_t k = 0; k < c.size(); ++k) if (i == 0 || (int)k + 1 == i) c[k] = g3::nan; };
				if (w[4] == "a" || w[4] == "ab") poison(ca);
				if (w[4] == "b" || w[4] == "ab") poison(cb);
				if (w[0] == "halfturn") ca = {-std::fabs(r.mant(0)), 0., 0., 0.};
				Var const a = makeVar(ta, ca), b = makeVar(tb, cb);
				Res const res = invoke(op, a, b);
				rec.str("op", "poison").str("f", w[1]);
				std::string s; recEnt(s, a); rec.raw("a", s);
				s.clear(); recEnt(s, b); rec.raw("b", s);
				recRes(rec, "r", res);
			}
			out.put(rec);
		}
	}
	return 0;
}
