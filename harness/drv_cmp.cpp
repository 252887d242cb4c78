// Comparison harness: drv_cmp PLAN TRACE SEED [reps]
// plan lines:  near|rel|abs|smallDiff|small|bothValid|bool|eq  type refStratum relation tolClass(or component)
#include "hx.hpp"
#include <cfloat>

namespace hx
{
constexpr double kEps = 2.220446049250313e-16;
inline double tolOf(Rng & r, int q, bool & def)
{
	def = false;
	switch (q)
	{
	case 0: def = true; return kEps;
	case 1: return kEps;
	case 2: return std::ldexp(1., -r.range(1, 50));
	case 3: return 1e-8 * (1. + r.unit());
	case 4: return .5;
	case 5: return .75;
	case 6: return 1.;
	case 7: return 2.;
	case 8: return 0.;
	case 9: return r.coin() ? -1. : -kEps;
	case 10: return kEps * r.range(2, 1000);
	case 11: return g3::nan;
	case 12: return std::ldexp(1. + r.unit(), -r.range(1, 50));
	default: return .001;
	}
}
inline std::vector<int> gradeSizes(int type)
{
	switch (type) { case 0: case 1: case 4: return {1}; case 2: case 3: return {3}; case 5: return {1, 3}; case 6: return {3, 1}; case 7: return {1, 1}; case 8: return {3, 3}; default: return {1, 3, 3, 1}; }
}
inline Comps refOf(Rng & r, int dim, int s)
{
	switch (s)
	{
	case 0: { Comps c(dim); for (auto & x : c) x = r.mant(r.range(-2, 2)); return c; }
	case 1: { Comps c(dim, 0.); c[r.range(0, dim - 1)] = std::ldexp(r.coin() ? 1. : -1., r.range(-20, 20)); return c; }
	case 2: return Comps(dim, 0.);
	case 3: { Comps c(dim); for (auto & x : c) x = r.mant(r.range(-100, 100)); return c; }
	case 4: { Comps c(dim); for (auto & x : c) x = r.mant(-3); c[r.range(0, dim - 1)] = r.mant(30); return c; }
	case 5: { Comps c(dim); int const e = r.coin() ? -972 : -968; for (auto & x : c) x = r.mant(e + r.range(-1, 1)); if (dim > 1) for (auto & x : c) x = std::ldexp(x, 600); return c; }
	case 6: { Comps c(dim); for (auto & x : c) x = r.range(-3, 3); return c; }
	case 7: { Comps c(dim); double const e = std::ldexp(1., 2 * r.range(-10, 10)); for (auto & x : c) x = r.coin() ? e : -e; return c; }
	case 8: { Comps c(dim, 0.); c[r.range(0, dim - 1)] = r.mant(r.range(-300, 300)); return c; }
	case 9: { Comps c(dim); for (auto & x : c) x = r.mant(r.coin() ? 440 : -380); return c; }
	case 10: { Comps c(dim); int const e = r.range(-522, -508); for (auto & x : c) x = r.coin(1, 4) ? 0. : r.mant(e); return c; }   // squares near the bottom of the number range
	default: { Comps c(dim); int const e = r.coin() ? r.range(490, 503) : r.range(-505, -380); for (auto & x : c) x = r.coin(1, 4) ? 0. : r.mant(e); return c; }
	}
}
// a test value for reference c (one grade) in relation k, given the tolerance
inline Comps testOf(Rng & r, Comps & c, int k, double tol)
{
	int const n = (int)c.size();
	double const t = tol > 0. && tol < 1e3 ? tol : 1e-3;
	double rss = 0.; for (double x : c) rss += x * x;
	rss = std::sqrt(rss);
	double const unit = rss > 0. ? rss : 1.;
	Comps x(c);
	int const i = r.range(0, n - 1);
	switch (k)
	{
	case 0: break;
	case 1: x[i] += (r.coin() ? 1. : -1.) * t * unit; break;                                            // at the threshold
	case 2: x[i] += (r.coin() ? 1. : -1.) * t * unit * (1. - std::ldexp(1., -r.range(2, 40))); break;   // just inside
	case 3: x[i] += (r.coin() ? 1. : -1.) * t * unit * (1. + std::ldexp(1., -r.range(2, 40))); break;   // just outside
	case 4: case 5:
		{
			Comps d(n); double q = 0.; for (auto & y : d) { y = r.sym(); q += y * y; } q = std::sqrt(q);
			double const f = t * unit * (k == 4 ? 1. - std::ldexp(1., -r.range(1, 30)) : 1. + std::ldexp(1., -r.range(1, 30)));
			if (q > 0.) for (int j = 0; j < n; ++j) x[j] += d[j] / q * f;
		}
		break;
	case 6: for (auto & y : x) y = r.mant(r.range(-3, 3)) * unit; break;
	case 7: for (auto & y : x) y = -y; break;
	case 8: x[i] = x[i] == 0. ? unit : x[i] * 3.; break;
	case 9: x[i] = g3::nan; break;
	case 10: c[i] = g3::nan; if (r.coin()) x[i] = g3::nan; break;
	case 11: x[i] = r.coin() ? INFINITY : -INFINITY; if (r.coin()) c[i] = x[i]; break;
	case 12: x[i] = std::ldexp(1., -1060); if (r.coin()) c[i] = x[i]; break;
	case 13: x[i] = std::nextafter(x[i], r.coin() ? 1e300 : -1e300); if (x[i] != 0. && std::fabs(x[i]) < DBL_MIN) x[i] = 0.; break;
	case 14: { int const j = r.range(0, n - 1); std::swap(x[i], x[j]); } break;
	case 15: for (auto & y : x) y = 0.; break;
	case 16: for (auto & y : x) if (y == 0.) y = -0.; break;
	case 17: for (auto & y : x) y *= 1. + t * (r.coin() ? .9 : 1.1) * (r.coin() ? 1. : -1.); break;      // every component by a factor
	case 18: for (auto & y : x) y *= r.coin() ? 2. : .5; break;                                         // asymmetry test / reference
	case 19: for (auto & y : x) y += (r.coin() ? 1. : -1.) * t * unit * .8; break;                      // each inside, the root sum of squares outside
	}
	return x;
}
template <std::size_t N> int arr(Comps const & a, Comps const & b, double tol, bool def)
{
	std::array<double, N> x, y; for (std::size_t i = 0; i < N; ++i) { x[i] = a[i]; y[i] = b[i]; }
	return def ? g3::nearlyEquals(x, y) : g3::nearlyEquals(x, y, tol);
}
}

int main(int argc, char ** argv)
{
	using namespace hx;
	if (argc < 4) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
	int const reps = argc > 4 ? std::atoi(argv[4]) : 1;
	std::uint64_t n = 0;
	for (auto const & w : plan.lines)
	{
		Rng r(seed * 1000003 + 31 + ++n);
		std::string const & op = w[0];
		int const s = std::atoi(w[2].c_str()), k = std::atoi(w[3].c_str()), q = std::atoi(w[4].c_str());
		for (int rep = 0; rep < reps; ++rep)
		{
			Rec rec;
			if (op == "bool") { rec.str("op", op).ent("a", "bool", Comps{double(s)}).ent("b", "bool", Comps{double(k)}).in("r", g3::nearlyEquals(bool(s), bool(k))); out.put(rec); continue; }
			if (op == "eq")
			{
				int const t = typeId(w[1]);
				Comps a = gen(r, typeDim(t), s, 1000), b(a);
				int const i = q - 1, j = r.range(0, typeDim(t) - 1);
				switch (k)
				{
				case 0: break;
				case 1: b[i] = std::nextafter(b[i], r.coin() ? 1e300 : -1e300); break;
				case 2: b[i] = -b[i]; break;
				case 3: std::swap(b[i], b[j]); break;
				case 4: b[i] = g3::nan; break;
				case 5: a[i] = b[i] = g3::nan; break;
				case 6: a[i] = 0.; b[i] = -0.; break;
				case 7: b[i] = b[i] == 0. ? 1. : 0.; break;
				case 8: a[i] = 4.9406564584124654e-324; b[i] = 0.; break;
				case 9: a[i] = b[i] = INFINITY; break;
				case 10: a[i] = INFINITY; b[i] = -INFINITY; break;
				case 11: for (auto & x : a) x = r.coin() ? 0. : -0.; for (auto & x : b) x = r.coin() ? 0. : -0.; break;
				case 12: b[i] = b[i] * (1. + 1e-9) + 1e-12; break;
				case 13: { b = gen(r, typeDim(t), r.range(0, sNumStrata - 1), 1000); b[i] = a[i]; } break;
				}
				dispatch(t, [&](auto tag) {
					using T = typename decltype(tag)::type;
					if constexpr (! std::is_same_v<T, double> && ! std::is_same_v<T, ComPlex> && ! std::is_same_v<T, DirPlex>)
					{
						T const x = make<T>(a), y = make<T>(b);
						rec.str("op", op).ent("a", x).ent("b", y).in("r", x == y); out.put(rec);
						Rec rc; rc.str("op", op).ent("a", y).ent("b", x).in("r", y == x); out.put(rc);
						Rec rs; rs.str("op", op).ent("a", y).ent("b", y).in("r", y == y); out.put(rs);
					}
				});
				continue;
			}
			bool def; double const tol = tolOf(r, q, def);
			bool const isArr = w[1].compare(0, 5, "array") == 0;
			std::vector<int> const sizes = isArr ? std::vector<int>{std::atoi(w[1].c_str() + 5)} : gradeSizes(typeId(w[1]));
			int const hit = r.range(0, (int)sizes.size() - 1);     // the grade in relation k; others equal or well inside
			Comps a, b;
			for (int g = 0; g < (int)sizes.size(); ++g)
			{
				Comps c = refOf(r, sizes[g], g == hit || r.coin() ? s : r.range(0, 11));
				Comps x = testOf(r, c, g == hit ? k : (r.coin() ? 0 : 16), tol);
				a.insert(a.end(), x.begin(), x.end()); b.insert(b.end(), c.begin(), c.end());
			}
			if (r.coin(1, 3))     // all components in relation k (or another one) at once
			{
				int const n = (int)b.size();
				b = r.coin() ? refOf(r, n, s) : gen(r, n, r.range(0, sNumStrata - 1), 400);
				a = r.coin() ? testOf(r, b, k, tol) : relate(r, b, r.range(0, sNumRel - 1));
			}
			rec.str("op", isArr ? "array" : op);
			if (isArr)
			{
				int v = 0;
				switch (sizes[0]) { case 1: v = arr<1>(a, b, tol, def); break; case 2: v = arr<2>(a, b, tol, def); break; case 3: v = arr<3>(a, b, tol, def); break; case 4: v = arr<4>(a, b, tol, def); break; case 5: v = arr<5>(a, b, tol, def); break;
					case 6: v = arr<6>(a, b, tol, def); break; case 8: v = arr<8>(a, b, tol, def); break; case 9: v = arr<9>(a, b, tol, def); break; case 17: v = arr<17>(a, b, tol, def); break; default: return 3; }
				rec.ent("a", "array", a).ent("b", "array", b).dbl("tol", tol).in("r", v);
			}
			else if (op == "near")
				dispatch(typeId(w[1]), [&](auto tag) {
					using T = typename decltype(tag)::type;
					T const x = make<T>(a), y = make<T>(b);
					rec.ent("a", x).ent("b", y).dbl("tol", tol).in("r", def ? g3::nearlyEquals(x, y) : g3::nearlyEquals(x, y, tol));
				});
			else
			{
				double const x = a[0], y = b[0];
				int v = 0;
				if (op == "rel") v = def ? g3::nearlyEqualsRel(x, y) : g3::nearlyEqualsRel(x, y, tol);
				else if (op == "abs") v = def ? g3::nearlyEqualsAbs(x, y) : g3::nearlyEqualsAbs(x, y, tol);
				else if (op == "smallDiff") v = g3::isSmallAbsDiff(x, y, tol);
				else if (op == "small") v = g3::isSmallAbs(x, tol);
				else if (op == "bothValid") v = g3::bothAreValid(x, y);
				else return 3;
				rec.ent("a", x).ent("b", y).dbl("tol", tol).in("r", v);
			}
			out.put(rec);
		}
	}
	return 0;
}
