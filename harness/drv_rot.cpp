// Rotation harness.
//   drv_rot PLAN TRACE SEED
// plan lines:  turns k d k d ...      a path of quarter turns (from Rotations.tla)
//              rot SB SV reps         a rotation by a bivector of stratum SB of a vector of stratum SV
//              chain SB n reps        n random rotations applied one after another
#include "hx.hpp"

namespace hx
{
double const kPi = 3.141592653589793;

inline BiVector genB(Rng & r, int s)
{
	Comps c(3, 0.);
	switch (s % 4)
	{
	case 0: c[r.range(0, 2)] = r.coin() ? 1. : -1.; break;
	case 1: for (auto & x : c) x = r.sym(); break;
	case 2: for (auto & x : c) x = r.sym(); c[r.range(0, 2)] = 0.; break;
	default: for (auto & x : c) x = std::ldexp(r.sym(), -r.range(0, 30)); if (r.coin()) c[r.range(0, 2)] = r.coin() ? 1. : -1.; break;
	}
	double const n = std::sqrt(c[0]*c[0] + c[1]*c[1] + c[2]*c[2]);
	double th;
	switch (s / 4)
	{
	case 0: th = r.unit() * kPi; break;
	case 1: th = r.range(-4, 4) * kPi / 2.; if (r.coin()) th += std::ldexp(r.sym(), -r.range(3, 50)); break;
	case 2: th = std::ldexp(1. + r.unit(), -r.range(1, 60)); break;
	case 3: th = -r.unit() * 2. * kPi; break;
	default: th = r.sym() * 50.; break;
	}
	double const f = n > 0. ? th / n : 0.;
	return BiVector{c[0] * f, c[1] * f, c[2] * f};
}
inline Vector genV(Rng & r, int s)
{
	Comps const c = gen(r, 3, s, 100);
	return make<Vector>(c);
}
inline std::string list(std::vector<std::string> const & v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += v[i]; } return s + "]"; }
template <typename T> std::string ent(T const & x) { Rec r; r.ent("z", x); std::string s = r.s; return s.substr(s.find(':') + 1); }

} // [hx]

int main(int argc, char ** argv)
{
	using namespace hx;
	using namespace engabra::g3;
	if (argc < 4) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
	std::uint64_t n = 0;
	hx::Vector const axis[3] = {e1, e2, e3};
	hx::BiVector const plane[3] = {e23, e31, e12};
	for (auto const & w : plan.lines)
	{
		Rng r(seed * 1000003 + 991 + ++n);
		if (w[0] == "turns")
		{
			hx::Spinor R = one<hx::Spinor>();
			hx::Vector step[3] = {e1, e2, e3};
			std::string path = "[";
			for (std::size_t k = 1; k + 1 < w.size(); k += 2)
			{
				int const p = std::atoi(w[k].c_str()), d = std::atoi(w[k + 1].c_str());
				hx::Spinor const T = exp((-d * .5 * turnQtr) * plane[p - 5]);
				R = T * R;
				for (auto & v : step) v = (T * v * reverse(T)).theVec;
				path += (k > 1 ? ",[" : "[") + w[k] + "," + w[k + 1] + "]";
			}
			path += "]";
			Rec rec;
			rec.str("op", "turns").raw("path", path).ent("R", R);
			std::vector<std::string> a, b, c;
			for (int i = 0; i < 3; ++i)
			{
				a.push_back(ent(R * axis[i] * reverse(R)));
				b.push_back(ent(MultiVector(R) * MultiVector(axis[i]) * reverse(MultiVector(R))));
				c.push_back(ent(step[i]));
			}
			rec.raw("x", list(a)).raw("m", list(b)).raw("s", list(c));
			out.put(rec);
		}
		else if (w[0] == "rot")
		{
			int const sb = std::atoi(w[1].c_str()), sv = std::atoi(w[2].c_str()), reps = std::atoi(w[3].c_str());
			for (int k = 0; k < reps; ++k)
			{
				hx::BiVector const B = genB(r, sb);
				hx::Vector const v = genV(r, sv);
				hx::Spinor const R = exp(.5 * B);
				Rec rec;
				hx::ImSpin const x = R * v * reverse(R);
				rec.str("op", "rot").ent("B", B).ent("v", v).ent("R", R).ent("x", x)
					.ent("y", R * (v * reverse(R)))
					.ent("i", reverse(R) * v * R)
					.ent("m", MultiVector(R) * MultiVector(v) * reverse(MultiVector(R)))
					.ent("d", R * v * dirverse(R))
					.ent("back", reverse(R) * x.theVec * R)
					.ent("lg", logG2(R)).ent("rt", sqrtG2(R)).ent("one", R * reverse(R));
				// an element of another type, turned with the vector
				dispatch(r.range(1, 9), [&](auto tag) {
					using X = typename decltype(tag)::type;
					if constexpr (! std::is_same_v<X, double>)
					{
						X const e = make<X>(gen(r, TypeInfo<X>::dim, r.coin() ? 2 : sv, 100));
						rec.ent("e", e).ent("ex", R * e * reverse(R)).ent("ey", reverse(R) * (e * R));
					}
				});
				out.put(rec);
			}
		}
		else if (w[0] == "chain")
		{
			int const sb = std::atoi(w[1].c_str()), len = std::atoi(w[2].c_str()), reps = std::atoi(w[3].c_str());
			for (int k = 0; k < reps; ++k)
			{
				hx::Vector const v = genV(r, 2);
				hx::Vector x = v;
				hx::Spinor R = one<hx::Spinor>();
				std::vector<std::string> bs;
				for (int j = 0; j < len; ++j)
				{
					hx::BiVector const B = genB(r, j == 0 ? sb : r.range(0, 19));
					hx::Spinor const T = exp(.5 * B);
					bs.push_back(ent(B));
					R = T * R;
					x = (T * x * reverse(T)).theVec;
				}
				Rec rec;
				rec.str("op", "chain").raw("B", list(bs)).ent("v", v).ent("s", x).ent("x", R * v * reverse(R)).ent("R", R);
				out.put(rec);
			}
		}
		else return 3;
	}
	return 0;
}
