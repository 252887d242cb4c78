// Programs of Pipe.tla on real values: results are operands of later calls.
//   drv_pipe PLAN TRACE SEED
// plan:  prog type*   load d type stratum   call op d i j type
#include "calls.hpp"

using namespace hx;

namespace
{
// an ordinary value: zeros, and components that no call can carry out of the number range
bool ordinary(Comps const & c) { for (double x : c) if (x != 0. && ! (std::fabs(x) > 1e-40 && std::fabs(x) < 1e40)) return false; return true; }
double norm(Comps const & c) { double n = 0.; for (double x : c) n += x * x; return std::sqrt(n); }
bool isZero(Comps const & c) { for (double x : c) if (x != 0.) return false; return true; }
Var fresh(Rng & r, int t, int s)
{
	for (;;)
	{
		Comps c = gen(r, typeDim(t), s, 60);
		for (auto & x : c) if (! (std::fabs(x) > 1e-30)) x = 0.;
		if (ordinary(c)) return makeVar(t, c);
		s = 0;
	}
}
template <typename A> Res textTrip(A const & a)
{
	Res r;
	if constexpr (! std::is_same_v<A, double> && ! std::is_same_v<A, ComPlex> && ! std::is_same_v<A, DirPlex>)
	{
		A b{g3::null<A>()};
		std::istringstream in(g3::io::enote(a));
		in >> b;
		r.put(b);
	}
	return r;
}
template <typename A> Res member(A const & a, int t)
{
	Res r;
	if constexpr (std::is_same_v<A, Spinor> || std::is_same_v<A, ComPlex> || std::is_same_v<A, MultiVector>) if (t == 1) r.put(a.theSca);
	if constexpr (std::is_same_v<A, ImSpin> || std::is_same_v<A, DirPlex> || std::is_same_v<A, MultiVector>) if (t == 2) r.put(a.theVec);
	if constexpr (std::is_same_v<A, Spinor> || std::is_same_v<A, DirPlex> || std::is_same_v<A, MultiVector>) if (t == 3) r.put(a.theBiv);
	if constexpr (std::is_same_v<A, ImSpin> || std::is_same_v<A, ComPlex> || std::is_same_v<A, MultiVector>) if (t == 4) r.put(a.theTri);
	return r;
}
std::string regsJson(std::vector<Var> const & reg)
{
	std::string s = "[";
	for (std::size_t i = 0; i < reg.size(); ++i) { if (i) s += ','; recEnt(s, reg[i]); }
	return s + "]";
}
}

int main(int argc, char ** argv)
{
	if (argc < 4) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
	std::vector<Var> reg;
	std::uint64_t n = 0;
	auto const load = [&](int d, int t, int s, Rng & r) {
		reg[d - 1] = fresh(r, t, s);
		std::string v; recEnt(v, reg[d - 1]);
		Rec rec; rec.str("op", "load").in("d", d).raw("v", v);
		out.put(rec);
	};
	for (auto const & w : plan.lines)
	{
		Rng r(seed * 1000003 + 919 * ++n);
		if (w[0] == "prog")
		{
			reg.clear();
			for (std::size_t k = 1; k < w.size(); ++k) reg.push_back(fresh(r, typeId(w[k]), r.range(0, 21)));
			Rec rec; rec.str("op", "start").raw("regs", regsJson(reg));
			out.put(rec);
			continue;
		}
		if (w[0] == "load") { load(std::atoi(w[1].c_str()), typeId(w[2]), std::atoi(w[3].c_str()) % 22, r); continue; }
		int const d = std::atoi(w[2].c_str()), i = std::atoi(w[3].c_str()), j = std::atoi(w[4].c_str()), t = typeId(w[5]);
		Var const & a = reg[i - 1]; Var const & b = reg[j - 1];
		Comps const ca = compsOf(a), cb = compsOf(b);
		bool const plane = w[1] == "logPlane" || w[1] == "sqrtPlane";
		// arguments the properties leave out: large exponents, no plane at all
		if ((w[1] == "exp" && ! (norm(ca) <= 20.)) || (plane && isZero(cb))) { load(d, t, r.range(0, 21), r); continue; }
		Rec rec;
		std::string sa, sb; recEnt(sa, a); recEnt(sb, b);
		Res const res = w[1] == "part" ? std::visit([&](auto const & x) { return member(x, t); }, a)
			: w[1] == "text" ? std::visit([&](auto const & x) { return textTrip(x); }, a) : invoke(opByName(w[1]), a, b);
		if (! res.has) return 3;
		Var const & v = res.ents.back();
		bool const st = d > 0 && ordinary(compsOf(v));
		rec.str("op", "call").str("f", w[1]).in("x", smallInts(ca) && smallInts(cb)).in("d", d).in("i", i).in("j", j).raw("a", sa).raw("b", sb);
		recRes(rec, "r", res);
		if (st) reg[d - 1] = v;
		rec.in("st", st);
		out.put(rec);
		if (d > 0 && ! st) load(d, t, r.range(0, 21), r);
	}
	return 0;
}
