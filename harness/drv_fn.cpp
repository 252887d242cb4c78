// Function harness: norms, directions, amplitudes, inverses, exponentials,
// logarithms and roots, executed on planned operands.
//   drv_fn PLAN TRACE SEED
// plan line:  op type stratum mode reps
//   mode  0 plain   1 twice with another call between   2 near repeats
#include "hx.hpp"

namespace hx
{
template <typename T> constexpr bool isBlade = std::is_same_v<T, Scalar> || std::is_same_v<T, Vector> || std::is_same_v<T, BiVector> || std::is_same_v<T, TriVector>;

double const kPi = 3.141592653589793;

// angle-like magnitudes
inline double angle(Rng & r, int s)
{
	switch (s % 12)
	{
	case 0: return r.range(0, 8) * kPi / 2.;
	case 1: return std::nextafter(r.range(0, 8) * kPi / 2., r.coin() ? 100. : -100.);
	case 2: return std::ldexp(1. + r.unit(), -r.range(1, 60));
	case 3: return r.unit() * 2. * kPi;
	case 4: return r.unit() * 1e4;
	case 5: return std::ldexp(1. + r.unit(), -r.range(20, 30));
	case 6: return kPi * (1. + std::ldexp(r.sym(), -r.range(10, 40)));
	case 7: return r.range(1, 4) * kPi / 12.;
	case 8: return r.unit() * 30.;
	case 9: return std::ldexp(1. + r.unit(), -r.range(100, 490));
	case 10: return r.range(1, 7);
	default: return 2. * kPi * (1. + std::ldexp(r.sym(), -r.range(10, 45)));
	}
}
// directions of three components, some of them zero, tiny or equal
inline Comps dir3(Rng & r, int s)
{
	Comps c(3, 0.);
	switch (s % 7)
	{
	case 0: c[r.range(0, 2)] = r.coin() ? 1. : -1.; break;
	case 1: for (auto & x : c) x = r.sym(); break;
	case 2: for (auto & x : c) x = r.sym(); c[r.range(0, 2)] = 0.; break;
	case 3: for (auto & x : c) x = r.sym(); c[r.range(0, 2)] *= std::ldexp(1., -r.range(20, 300)); break;
	case 4: for (auto & x : c) x = r.coin() ? 1. : -1.; break;
	case 5: for (auto & x : c) x = -std::fabs(r.sym()) - 1e-3; break;
	default: { c[0] = r.sym(); c[1] = std::ldexp(r.sym(), -r.range(1, 40)); c[2] = std::ldexp(r.sym(), -r.range(1, 80)); int const i = r.range(0, 2); std::swap(c[0], c[i]); } break;
	}
	double n = std::sqrt(c[0]*c[0] + c[1]*c[1] + c[2]*c[2]);
	if (! (n > 0.)) { c = {0., 0., 1.}; n = 1.; }
	for (auto & x : c) x /= n;
	return c;
}
inline Comps scaled(Comps c, double f) { for (auto & x : c) x *= f; return c; }

// subnormal components are not valid numbers of the library
inline Comps normalOnly(Comps c) { for (auto & x : c) if (x != 0. && std::fabs(x) < 0x1p-1022) x = 0.; return c; }

// an operand for exp
inline Comps genExp(Rng & r, int type, int s)
{
	Comps const b = scaled(dir3(r, s / 2), angle(r, s));
	double const sc[] = {0., 1., -1., r.sym(), r.sym() * 600., r.range(-5, 5) * 1., std::ldexp(r.sym(), -40), r.sym() * 20.};
	if (type == 3) { if (s == 19) return {0., 0., 0.}; return b; }
	if (type == 5)
	{
		Comps c = Comps{sc[s % 8]} + b;
		if (s == 19) c = {sc[r.range(0, 7)], 0., 0., 0.};
		if (s == 18) c = {0., 0., 0., 0.};
		return c;
	}
	// multivector: |M| <= 20
	Comps c(8, 0.);
	switch (s)
	{
	case 0: c = gen(r, 8, 0); break;
	case 1: c = gen(r, 8, 2); break;
	case 2: c = gen(r, 8, 15); break;
	case 3: c = gen(r, 8, 19); break;
	case 4: for (auto & x : c) x = r.sym() * 7.; break;
	case 5: for (auto & x : c) x = std::ldexp(r.sym(), -r.range(0, 60)); break;
	case 6: c = Comps{r.sym()} + Comps(3, 0.) + scaled(dir3(r, r.range(0, 6)), r.unit() * 15.) + Comps{0.}; break; // spinor
	case 7: c = Comps{0.} + scaled(dir3(r, r.range(0, 6)), r.unit() * 15.) + Comps(4, 0.); break; // vector
	case 8: c[0] = r.sym() * 10.; c[7] = r.sym() * 15.; break; // complex
	case 9: c[7] = r.range(-4, 4) * kPi / 2.; break;
	case 10: case 11: case 12: // vector and bivector of equal size, orthogonal: the square is zero or nearly so
		{
			double const f = std::ldexp(r.range(1, 9) / 2., s == 12 ? -r.range(0, 40) : 0);
			int const i = r.range(0, 2), j = (i + 1 + r.range(0, 1)) % 3;
			c[1 + i] = r.coin() ? f : -f;
			c[4 + j] = r.coin() ? f : -f;
			if (s == 11) c[1 + i] = c[1 + i] * (1. + std::ldexp(r.sym(), -r.range(5, 52)));
			if (r.coin()) { c[0] = r.sym(); c[7] = r.sym() * 3.; }
		}
		break;
	case 13: { Comps const d = dir3(r, r.range(0, 6)); double const f = r.unit() * 8., g = r.unit() * 8.; c = Comps{0.} + scaled(d, f) + scaled(d, r.coin() ? g : -g) + Comps{0.}; } break; // parallel
	case 14: { Comps const d = dir3(r, 4); c = Comps{0.} + scaled(d, std::ldexp(1., -r.range(0, 30))) + scaled(dir3(r, 1), std::ldexp(1., -r.range(0, 30))) + Comps{0.}; } break;
	case 15: for (auto & x : c) x = std::ldexp(r.sym(), -r.range(100, 400)); if (r.coin()) c[0] = r.sym(); break;
	case 16: break; // zero
	case 17: c[0] = r.sym() * 15.; for (int k = 1; k < 7; ++k) c[k] = std::ldexp(r.sym(), -r.range(3, 8)); break; // around the series switch
	case 18: c = gen(r, 8, 8); break;
	default: c = gen(r, 8, 13); break;
	}
	double n = 0.; for (double x : c) n += x * x;
	n = std::sqrt(n);
	if (n > 20.) for (auto & x : c) x *= 19.9 / n;
	return c;
}

// an operand for log and sqrt
inline Comps genSpin(Rng & r, int s)
{
	auto const mag = [&](int k) { switch (k % 8) { case 0: case 1: return 1.; case 2: return 1. + r.unit(); case 3: return std::ldexp(1. + r.unit(), -r.range(1, 44)); case 4: return std::ldexp(1. + r.unit(), r.range(1, 490)); case 5: return (double)r.range(1, 9); case 6: return 1. + std::ldexp(r.sym(), -r.range(20, 52)); default: return r.unit() + .01; } };
	Comps const d = dir3(r, r.range(0, 6));
	double const m = mag(r.range(0, 7));
	double th = 0.;
	switch (s)
	{
	case 0: th = r.unit() * kPi; break;
	case 1: th = std::ldexp(1. + r.unit(), -r.range(1, 30)); break;
	case 2: th = std::ldexp(1. + r.unit(), -r.range(20, 60)); break;
	case 3: th = std::ldexp(1. + r.unit(), -r.range(60, 400)); break;
	case 4: th = kPi - std::ldexp(1. + r.unit(), -r.range(1, 22)); break;
	case 5: th = kPi - std::ldexp(1. + r.unit(), -r.range(23, 30)); break;
	case 6: { double const e = std::ldexp(1. + r.unit(), -r.range(23, 60)); return scaled(Comps{-1.} + scaled(d, e), m); }
	case 7: return {-m, 0., 0., 0.};
	case 8: return {-m, -0., 0., -0.};
	case 9: return {m, 0., 0., 0.};
	case 10: return Comps{0.} + scaled(d, m);
	case 11: return {0., 0., 0., 0.};
	case 12: { Comps c(4); for (auto & x : c) x = r.range(-2, 2); return c; }
	case 13: { Comps c(4); for (auto & x : c) x = r.sym(); return c; }
	case 14: th = r.range(0, 12) * kPi / 12.; break;
	case 15: th = kPi / 2. + std::ldexp(r.sym(), -r.range(10, 60)); break;
	case 16: { Comps c(4, 0.); c[0] = r.coin() ? 1. : -1.; c[r.range(1, 3)] = std::ldexp(r.sym(), -r.range(1, 60)); return scaled(c, m); }
	case 17: th = r.unit() * kPi; return scaled(Comps{std::cos(th)} + scaled(d, std::sin(th)), std::ldexp(1. + r.unit(), r.range(-45, 490)));
	case 18: return scaled(Comps{std::nextafter(-1., r.coin() ? 0. : -2.)} + scaled(d, std::ldexp(1., -r.range(24, 28))), m);
	default: { Comps c(4); for (auto & x : c) x = std::ldexp(r.sym(), -r.range(0, 12)); return scaled(c, m); }
	}
	return scaled(Comps{std::cos(th)} + scaled(d, std::sin(th)), m);
}

template <typename A>
void call(Out & out, std::string const & op, A const & a, Comps const & plane, bool useDefault)
{
	Rec rec;
	rec.str("op", op).in("x", smallInts(comps(a))).ent("a", a);
	if (op == "magSq") { rec.ent("r", g3::magSq(a)); out.put(rec); return; }
	if constexpr (! std::is_same_v<A, double>)
	{
		if (op == "magnitude") { rec.ent("r", g3::magnitude(a)); out.put(rec); return; }
		if (op == "pairMagDir") { auto const p = g3::pairMagDirFrom(a); rec.ent("r", p.first).ent("d", p.second); out.put(rec); return; }
		if (op == "direction") { rec.ent("r", g3::direction(a)); out.put(rec); return; }
		if (op == "ampSq") { rec.ent("r", g3::ampSq(a)); out.put(rec); return; }
		if (op == "amplitude") { rec.ent("r", g3::amplitude(a)); out.put(rec); return; }
		if constexpr (isBlade<A> || std::is_same_v<A, ComPlex> || std::is_same_v<A, MultiVector>)
			if (op == "inverse") { rec.ent("r", g3::inverse<A>(a)); out.put(rec); return; }
		if constexpr (std::is_same_v<A, BiVector> || std::is_same_v<A, Spinor> || std::is_same_v<A, MultiVector>)
			if (op == "exp") { rec.ent("r", g3::exp(a)); out.put(rec); return; }
		if constexpr (std::is_same_v<A, Spinor>)
			if (op == "log" || op == "sqrt")
			{
				BiVector const p = make<BiVector>(plane);
				rec.ent("p", useDefault ? BiVector{1., 0., 0.} : p);
				Spinor const r = op == "log" ? (useDefault ? g3::logG2(a) : g3::logG2(a, p)) : (useDefault ? g3::sqrtG2(a) : g3::sqrtG2(a, p));
				rec.ent("r", r); out.put(rec); return;
			}
	}
	std::fprintf(stderr, "no such call: %s %s\n", op.c_str(), TypeInfo<A>::name);
	std::exit(3);
}

} // [hx]

int main(int argc, char ** argv)
{
	using namespace hx;
	if (argc < 4) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
	std::uint64_t n = 0;
	for (auto const & w : plan.lines)
	{
		Rng r(seed * 1000003 + 77 + ++n);
		std::string const & op = w.at(0);
		int const t = typeId(w.at(1)), s = std::atoi(w.at(2).c_str()), mode = std::atoi(w.at(3).c_str()), reps = std::atoi(w.at(4).c_str());
		for (int rep = 0; rep < reps; ++rep)
		{
			auto const draw = [&]() -> Comps {
				if (op == "exp") return genExp(r, t, s % 20);
				if (op == "log" || op == "sqrt") return genSpin(r, s % 20);
				bool const amp = op == "ampSq" || op == "amplitude" || op == "inverse";
				Comps c = r.coin(1, 8) ? nearlyBasis(r, typeDim(t))
					: gen(r, typeDim(t), s, op == "inverse" ? (t == 9 ? 100 : 220) : op == "ampSq" || op == "magSq" ? 470 : 480);
				if (amp && typeDim(t) > 1 && r.coin(1, 6)) { c = gen(r, typeDim(t), r.coin() ? 2 : 0); nearlyNull(r, t, c); }
				return c;
			};
			Comps const ca = normalOnly(draw());
			Comps plane = scaled(dir3(r, r.range(0, 6)), std::ldexp(1. + r.unit(), r.range(-20, 20)));
			// the plane is for half turns only: for other spinors it may even be zero
			if ((op == "log" || op == "sqrt") && mode == 0 && ca[0] >= 0. && r.coin(1, 8)) plane = Comps(3, 0.);
			bool const def = r.coin(1, 3);
			dispatch(t, [&](auto tag) {
				using A = typename decltype(tag)::type;
				A const a = make<A>(ca);
				call(out, op, a, plane, def);
				if (mode == 1) { A const b = make<A>(normalOnly(draw())); call(out, op, b, plane, ! def); call(out, op, a, plane, def); }
				if (mode == 2)
				{
					static int const expRel[] = {1, 2, 4, 5, 8, 9, 10};
					Comps cb = normalOnly(relate(r, ca, op == "exp" ? expRel[r.range(0, 6)] : r.range(1, sNumRel - 1)));
					if (op == "exp" && t == 5 && ! (std::fabs(cb[0]) < 640.)) cb[0] = 1.;
					call(out, op, make<A>(cb), plane, def);
					if (op == "log" || op == "sqrt") { Comps const p2 = normalOnly(relate(r, plane, r.range(1, 5))); call(out, op, a, p2, false); }
				}
			});
		}
	}
	return 0;
}
