// Every call on operands of arbitrary bit patterns, text encoders with extreme
// settings, extraction of arbitrary text.
//   drv_wild PLAN TRACE SEED reps
#include "calls.hpp"
#include <cstring>

using namespace hx;

namespace
{
double wild(Rng & r)
{
	switch (r.range(0, 9))
	{
	case 0: return fromBits(r.next());                                          // anything
	case 1: return r.coin() ? INFINITY : -INFINITY;
	case 2: return fromBits(0x7ff0000000000000ull | (r.next() >> 12) | (r.next() << 63) | 1u);   // NaN
	case 3: return fromBits((r.next() >> 12) | (r.next() << 63));                // subnormal
	case 4: return r.coin() ? 0. : -0.;
	case 5: return (r.coin() ? 1. : -1.) * (r.coin() ? 1.7976931348623157e308 : 2.2250738585072014e-308);
	case 6: return r.mant(r.range(900, 1023));
	case 7: return r.mant(-r.range(900, 1022));
	case 8: return r.pick(specials());
	default: return r.mant(r.range(-2, 2));
	}
}
Comps wilds(Rng & r, int dim) { Comps c(dim); double const one = wild(r); bool const all = r.coin(1, 6); for (auto & x : c) x = all ? one : wild(r); return c; }
std::string noise(Rng & r)
{
	std::string s;
	int const n = r.coin(1, 20) ? r.range(200, 3000) : r.range(0, 60);
	static char const set[] = "0123456789+-.eE \t\n,xXnaifINF";
	for (int i = 0; i < n; ++i) s += r.coin(1, 30) ? (char)r.range(-128, 127) : set[r.range(0, (int)sizeof set - 2)];
	return s;
}
void done(Out & out, std::string const & f, char const * t, std::string const & u, Res const & res)
{
	Rec rec;
	rec.str("op", "done").str("f", f).str("t", t).str("u", u);
	std::string s = "[";
	for (std::size_t i = 0; i < res.ents.size(); ++i) { if (i) s += ','; s += '"'; s += nameOf(res.ents[i]); s += '"'; }
	rec.raw("r", s + "]").in("text", (long)res.text.size());
	// every component is looked at
	s = "[";
	for (std::size_t i = 0; i < res.ents.size(); ++i) { if (i) s += ','; recEnt(s, res.ents[i]); }
	rec.raw("v", s + "]");
	out.put(rec);
}
}

int main(int argc, char ** argv)
{
	if (argc < 5) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
	int const reps = std::atoi(argv[4]);
	std::uint64_t n = 0;
	for (auto const & w : plan.lines)
	{
		Op const op = opByName(w[0]);
		int const ta = typeId(w[1]), tb = w[2] == "-" ? -1 : typeId(w[2]);
		Rng r(seed * 1000003 + 17 * ++n);
		for (int k = 0; k < reps; ++k)
		{
			Comps ca = wilds(r, typeDim(ta)), cb = tb >= 0 ? wilds(r, typeDim(tb)) : Comps{0.};
			if (k % 3 == 1) ca = gen(r, typeDim(ta), r.range(0, 22), 1000);
			if (k % 3 == 2 && tb >= 0) cb = r.coin() && ca.size() == cb.size() ? relate(r, ca, r.range(0, sNumRel - 1)) : gen(r, (int)cb.size(), r.range(0, 22), 1000);
			Var const a = makeVar(ta, ca), b = tb >= 0 ? makeVar(tb, cb) : Var(0.);
			bool const alias = tb == ta && r.coin(1, 4);
			Res res = invoke(op, a, alias ? a : b);
			if (! res.has) return 3;
			done(out, w[0], nameOf(a), w[2], res);
			if (op == Op::fixed || op == Op::enote)
				std::visit([&](auto const & x) {
					using A = std::decay_t<decltype(x)>;
					if constexpr (! std::is_same_v<A, ComPlex> && ! std::is_same_v<A, DirPlex>)
					{
						Res q; q.has = true;
						std::size_t const p1 = r.coin(1, 8) ? r.range(0, 2000) : r.range(0, 40), p2 = r.coin(1, 8) ? r.range(0, 1500) : r.range(0, 40);
						q.text = op == Op::fixed ? g3::io::fixed(x, p1, p2) : g3::io::enote(x, p2);
						done(out, w[0], nameOf(a), w[2], q);
					}
				}, a);
			if (op == Op::put)
				std::visit([&](auto const & x) {
					using A = std::decay_t<decltype(x)>;
					if constexpr (! std::is_same_v<A, double>)
					{
						// to a stream in any state, and out of arbitrary text into a used or fresh object
						std::ostringstream o;
						if (r.coin()) { o.width(r.range(0, 500)); o.precision(r.range(0, 300)); o.flags(static_cast<std::ios_base::fmtflags>(r.range(0, 1 << 15))); o << x; }
						std::istringstream is(noise(r));
						A y(x);
						if (r.coin()) y = A{};
						while (is) is >> y;
						Res q; q.put(y);
						done(out, "get", nameOf(a), w[2], q);
					}
				}, a);
			if (op == Op::near && ta == 0)
			{
				std::array<double, 3> x, y; for (auto & v : x) v = wild(r); for (auto & v : y) v = wild(r);
				Res q; q.put(g3::nearlyEquals(x, y, wild(r)));
				done(out, "near", "double", "double", q);
			}
		}
	}
	return 0;
}
