// Executes the planned calls in long histories.  args: plan out seed reps order soak
#include "hist.hpp"

#include <algorithm>

using namespace hx;

int main(int argc, char ** argv)
{
	if (argc < 7) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
	int const strata = std::atoi(argv[4]), order = std::atoi(argv[5]);
	long const soak = std::atol(argv[6]);
	Watch watch((std::string(argv[2]) + ".io").c_str());
	// which calls exist is taken from the order-independent probe in the plan, without calling the library
	std::vector<Desc> ds;
	for (auto const & w : plan.lines) ds.push_back({opByName(w[0]), typeId(w[1]), w[2] == "-" ? 0 : typeId(w[2])});

	struct Item { int d, s, v; };
	std::vector<std::vector<Item>> script;           // one history per group
	Rng ro(seed * 31 + order);
	for (int d = 0; d < (int)ds.size(); ++d)
		for (int k = 0; k < strata + (branches(ds[d].op) ? sNumRegime : 1); ++k)
		{
			int const s = stratumOf(d, k, strata, seed);
			std::vector<Item> h;
			if (order == 0) for (int v = 0; v < sNumVar; ++v) { h.push_back({d, s, v}); if (v) h.push_back({d, s, 0}); }
			else { std::vector<int> vs; for (int v = 0; v < sNumVar; ++v) vs.push_back(v); for (int i = sNumVar - 1; i > 0; --i) std::swap(vs[i], vs[ro.range(0, i)]); for (int v : vs) h.push_back({d, s, v}); }
			script.push_back(h);
		}
	std::vector<Item> seq;
	if (order == 1) { std::reverse(script.begin(), script.end()); }
	for (auto const & h : script) seq.insert(seq.end(), h.begin(), h.end());
	if (order == 2) for (int i = (int)seq.size() - 1; i > 0; --i) std::swap(seq[i], seq[ro.range(0, i)]);

	std::vector<std::pair<Call, Res>> done;
	for (auto const & it : seq)
	{
		Call const c = variant(ds[it.d], seed, it.d, it.s, it.v);
		Var a = c.a, b = c.b;
		bool const alias = c.same && ro.coin();
		Var const & rb = alias ? a : b;
		watch.mark();
		Res const r = invoke(c.op, a, rb);
		long const io = watch.written(); int const env = watch.changed();
		if (! r.has) continue;
		Rec rec;
		std::string sa, sb, sa2, sb2; recEnt(sa, c.a); recEnt(sb, c.b); recEnt(sa2, a); recEnt(sb2, rb);
		rec.str("op", "hist").in("id", (it.d * 100 + it.s) * 100 + it.v).str("f", opName(c.op)).raw("a", sa).raw("b", sb).raw("a2", sa2).raw("b2", sb2);
		recRes(rec, "r", r);
		rec.str("text", r.text).in("io", io).in("env", env);
		out.put(rec);
		if (soak) done.emplace_back(c, r);
	}
	// a long further history: only deviations from the first result, and a sample, are written down
	if (done.empty()) return 0;
	Rng rs(seed * 77 + 5);
	long put = 0;
	watch.mark();
	for (long n = 0; n < soak && put < 20; ++n)
	{
		// bursts of related calls, and random ones
		auto const & p = done[rs.next() % done.size()];
		Var const a = p.first.a, b = p.first.b;
		Res const r = invoke(p.first.op, a, b);
		bool const keep = bitsEqual(a, p.first.a) && bitsEqual(b, p.first.b);
		if (! resEqual(r, p.second) || ! keep || n % 1000000 == 999999)
		{
			Rec rec;
			std::string sa, sb, sa2, sb2; recEnt(sa, p.first.a); recEnt(sb, p.first.b); recEnt(sa2, a); recEnt(sb2, b);
			rec.str("op", "hist").in("id", -1).str("f", opName(p.first.op)).raw("a", sa).raw("b", sb).raw("a2", sa2).raw("b2", sb2);
			recRes(rec, "r", r);
			rec.str("text", r.text).in("io", watch.written()).in("env", watch.changed()).raw("w", callJson(p.first, p.second));
			out.put(rec); ++put;
		}
	}
	return 0;
}
