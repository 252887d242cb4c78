// Arithmetic harness: executes the plan's products, sums, differences and
// unary operations on the real library and records operands and results.
//   drv_ops PLAN TRACE SEED
// plan line:  op typeA typeB stratumA mode reps
//   mode: Sk  b drawn from stratum k          Rk  b related to a (same type)
//         Ek  basis elements s and k             Xk  a huge factor and a tiny one
//         Vk  operands sharing component values in way k
//         A   the same object on both sides   Nk  near repeats: (a,b) (a',b) (a,b')
#include "hx.hpp"

namespace hx
{
template <typename A, typename B> using MulT = decltype(std::declval<A const &>() * std::declval<B const &>());
template <typename A, typename B> using AddT = decltype(std::declval<A const &>() + std::declval<B const &>());
template <typename A, typename B> using SubT = decltype(std::declval<A const &>() - std::declval<B const &>());

template <typename, template <typename...> class Op, typename... Args> struct DetectImpl : std::false_type {};
template <template <typename...> class Op, typename... Args> struct DetectImpl<std::void_t<Op<Args...>>, Op, Args...> : std::true_type {};
template <template <typename...> class Op, typename... Args> constexpr bool has = DetectImpl<void, Op, Args...>::value;

template <typename A> using NegT = decltype(-std::declval<A const &>());
template <typename A> using RevT = decltype(g3::reverse(std::declval<A const &>()));
template <typename A> using OddT = decltype(g3::oddverse(std::declval<A const &>()));
template <typename A> using DirT = decltype(g3::dirverse(std::declval<A const &>()));
template <typename A> using DualT = decltype(g3::dual(std::declval<A const &>()));

template <typename A, typename B>
bool binary(Out & out, std::string const & op, A const & a, B const & b)
{
	constexpr bool bothDouble = std::is_same_v<A, double> && std::is_same_v<B, double>;
	Rec rec;
	Comps const ca = comps(a), cb = comps(b);
	// operands made by relate() may leave the range the operation is planned for
	double const top = op == "mul" ? 1e308 : 8e307;
	for (double x : ca) if (! (std::fabs(x) < top)) return false;
	for (double x : cb) if (! (std::fabs(x) < top)) return false;
	rec.str("op", op).in("x", smallInts(ca) && smallInts(cb)).ent("a", TypeInfo<A>::name, ca).ent("b", TypeInfo<B>::name, cb);
	if (op == "mul") { if constexpr (has<MulT, A, B> && ! bothDouble) { rec.ent("r", a * b); out.put(rec); return true; } }
	else if (op == "add") { if constexpr (has<AddT, A, B> && ! bothDouble) { rec.ent("r", a + b); out.put(rec); return true; } }
	else if (op == "sub") { if constexpr (has<SubT, A, B> && ! bothDouble) { rec.ent("r", a - b); out.put(rec); return true; } }
	return false;
}

template <typename A>
bool unary(Out & out, std::string const & op, A const & a)
{
	Rec rec;
	Comps const ca = comps(a);
	for (double x : ca) if (! std::isfinite(x)) return false;
	rec.str("op", op).in("x", smallInts(ca)).ent("a", a);
	constexpr bool closed = std::is_same_v<A, double> || std::is_same_v<A, Scalar> || std::is_same_v<A, Spinor>
		|| std::is_same_v<A, ComPlex> || std::is_same_v<A, MultiVector>;
	if (op == "neg") { if constexpr (has<NegT, A>) { rec.ent("r", -a); out.put(rec); return true; } }
	else if (op == "reverse") { if constexpr (has<RevT, A>) { rec.ent("r", g3::reverse(a)); out.put(rec); return true; } }
	else if (op == "oddverse") { if constexpr (has<OddT, A>) { rec.ent("r", g3::oddverse(a)); out.put(rec); return true; } }
	else if (op == "dirverse") { if constexpr (has<DirT, A>) { rec.ent("r", g3::dirverse(a)); out.put(rec); return true; } }
	else if (op == "dual") { if constexpr (has<DualT, A>) { rec.ent("r", g3::dual(a)); out.put(rec); return true; } }
	else if (op == "sq") { if constexpr (closed) { rec.ent("r", g3::sq(a)); out.put(rec); return true; } }
	else if (op == "cube") { if constexpr (closed) { rec.ent("r", g3::cube(a)); out.put(rec); return true; } }
	return false;
}

} // [hx]

int main(int argc, char ** argv)
{
	using namespace hx;
	if (argc < 4) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
	std::uint64_t n = 0;
	for (auto const & w : plan.lines)
	{
		Rng r(seed * 1000003 + ++n);
		std::string const & op = w.at(0);
		int const ta = typeId(w.at(1));
		bool const un = (w.at(2) == "-");
		int const tb = un ? 0 : typeId(w.at(2));
		int const st = std::atoi(w.at(3).c_str());
		char const mode = w.at(4)[0];
		int const k = std::atoi(w.at(4).c_str() + 1);
		int const reps = std::atoi(w.at(5).c_str());
		int const lim = (op == "mul" || op == "sq") ? 470 : op == "cube" ? 310 : 1000;
		for (int rep = 0; rep < reps; ++rep)
		{
			Comps const ca = gen(r, typeDim(ta), st, lim);
			dispatch(ta, [&](auto tagA) {
				using A = typename decltype(tagA)::type;
				A const a = make<A>(ca);
				if (un)
				{
					unary<A>(out, op, a);
					if (k == 0) { Comps x = nearlyBasis(r, typeDim(ta)); unary<A>(out, op, make<A>(x)); }
					if (mode == 'N') { A const a2 = make<A>(relate(r, ca, k)); unary<A>(out, op, a2); unary<A>(out, op, a); }
					return;
				}
				dispatch(tb, [&](auto tagB) {
					using B = typename decltype(tagB)::type;
					if (mode == 'A') { if constexpr (std::is_same_v<A, B>) binary(out, op, a, a); return; }
					if (mode == 'R') { if constexpr (std::is_same_v<A, B>) { B const b = make<B>(relate(r, ca, k)); binary(out, op, a, b); binary(out, op, b, a); } return; }
					if (mode == 'E')
					{
						// basis elements s and k, both signs, at several scales
						if (rep) return;
						for (double f : {1., -1., .375, -96.})
							for (double g : {1., -1., 7.})
							{
								Comps xa(typeDim(ta), 0.), xb(typeDim(tb), 0.);
								xa[st] = f; xb[k] = g;
								binary(out, op, make<A>(xa), make<B>(xb));
							}
						return;
					}
					if (mode == 'X')
					{
						// a huge factor with a tiny one
						int const e = (r.coin() ? 1 : -1) * r.range(470, 1000);
						Comps xa = gen(r, typeDim(ta), st, 12), xb = gen(r, typeDim(tb), k, 12);
						for (auto & x : xa) x = std::ldexp(x, e);
						for (auto & x : xb) x = std::ldexp(x, -e);
						for (auto & x : xa) if (x != 0. && ! std::isnormal(x)) x = 0.;
						for (auto & x : xb) if (x != 0. && ! std::isnormal(x)) x = 0.;
						binary(out, op, make<A>(xa), make<B>(xb));
						return;
					}
					if (mode == 'I')
					{
						// next to a basis element, a neutral one among them
						Comps const xa = nearlyBasis(r, typeDim(ta)), xb = nearlyBasis(r, typeDim(tb));
						binary(out, op, a, make<B>(xb));
						binary(out, op, make<A>(xa), make<B>(gen(r, typeDim(tb), st, lim)));
						binary(out, op, make<A>(xa), make<B>(xb));
						return;
					}
					if (mode == 'V')
					{
						Comps xa(ca), xb(typeDim(tb), 0.);
						if (k < 8) share(r, k, xa, xb); else shareGrades(r, k, ta, tb, xa, xb);
						binary(out, op, make<A>(xa), make<B>(xb));
						return;
					}
					Comps const cb = gen(r, typeDim(tb), mode == 'S' ? k : st, lim);
					B const b = make<B>(cb);
					binary(out, op, a, b);
					if (mode == 'N')
					{
						A const a2 = make<A>(relate(r, ca, k));
						B const b2 = make<B>(relate(r, cb, k));
						binary(out, op, a2, b);
						binary(out, op, a, b2);
						binary(out, op, a, b);
					}
				});
			});
		}
	}
	return 0;
}
