// Replays programs of Machine.tla on real objects.  Plan lines:
//   prog (type comps...)*   load d type comps...   call op d i j
#include "hist.hpp"

#include <map>

using namespace hx;

namespace
{
Var readVar(std::vector<std::string> const & w, std::size_t & at)
{
	int const t = typeId(w[at++]);
	Comps c(typeDim(t));
	for (auto & x : c) x = std::atof(w[at++].c_str());
	return makeVar(t, c);
}
std::string regsJson(std::vector<Var> const & reg)
{
	std::string s = "[";
	for (std::size_t i = 0; i < reg.size(); ++i) { if (i) s += ','; recEnt(s, reg[i]); }
	return s + "]";
}
}

int main(int argc, char ** argv)
{
	if (argc < 4) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	Watch watch((std::string(argv[2]) + ".io").c_str());
	std::vector<Var> reg;
	std::map<std::string, std::string> seen;         // a call and the record of its first execution
	for (auto const & w : plan.lines)
	{
		Rec rec;
		std::size_t at = 1;
		if (w[0] == "prog")
		{
			reg.clear();
			while (at < w.size()) reg.push_back(readVar(w, at));
			rec.str("op", "start").raw("regs", regsJson(reg));
		}
		else if (w[0] == "load")
		{
			int const d = std::atoi(w[at++].c_str());
			reg[d - 1] = readVar(w, at);
			std::string v; recEnt(v, reg[d - 1]);
			rec.str("op", "load").in("d", d).raw("v", v).raw("regs", regsJson(reg));
		}
		else
		{
			Op const op = opByName(w[1]);
			int const d = std::atoi(w[2].c_str()), i = std::atoi(w[3].c_str()), j = std::atoi(w[4].c_str());
			Call before; before.op = op; before.a = reg[i - 1]; before.b = reg[j - 1];
			std::string sa, sb; recEnt(sa, before.a); recEnt(sb, before.b);
			watch.mark();
			Res const r = invoke(op, reg[i - 1], reg[j - 1]);
			long const io = watch.written(); int const env = watch.changed();
			if (! r.has) return 3;
			std::string const key = std::string(opName(op)) + sa + sb, cj = callJson(before, r);
			auto const f = seen.emplace(key, cj);
			rec.str("op", "call").str("f", opName(op)).in("d", d).in("i", i).in("j", j).raw("a", sa).raw("b", sb);
			recRes(rec, "r", r);
			rec.str("text", r.text).in("io", io).in("env", env).raw("kept", regsJson(reg));
			if (d) reg[d - 1] = r.ents.at(0);
			rec.raw("regs", regsJson(reg)).raw("w", f.second ? "[]" : "[" + f.first->second + "]");
		}
		out.put(rec);
	}
	return 0;
}
