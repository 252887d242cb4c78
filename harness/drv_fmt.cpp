// Drives the text encoders: io::fixed, io::enote, operator<< (on streams in
// arbitrary format states) and reading enote text back.
#include "hx.hpp"

using namespace hx;

namespace
{
// values whose rounding to n decimals is delicate, and magnitudes of all sizes
constexpr int sNumKind = 8;
Comps special(Rng & r, int dim, int kind, int n)
{
	Comps c(dim);
	for (auto & x : c)
	{
		int const p = std::min(n, 15);
		switch (kind)
		{
		case 0: x = (r.range(-2000, 2000) + .5) * std::pow(10., -p); break;                    // next to a tie
		case 1: x = std::nextafter((r.range(-2000, 2000) + .5) * std::pow(10., -p), r.coin() ? 1. : -1.); break;
		case 2: x = (r.coin() ? 1. : -1.) * std::nextafter(std::pow(10., r.range(-5, 12)), 0.); break;   // 9.99..
		case 3: x = (r.coin() ? 1. : -1.) * std::pow(10., r.range(-300, 300)); break;
		case 4: x = std::ldexp(r.range(-4095, 4095), -r.range(0, 12)); break;                     // exact ties
		case 5: x = r.mant(r.range(-1000, 1000)); break;
		case 6: x = (r.coin() ? 1. : -1.) * std::pow(10., r.range(0, 20)) * r.unit(); break;       // around the field width
		default: x = (r.coin() ? 1. : -1.) * std::pow(10., -p - r.range(-1, 2)) * r.unit(); break; // about the last digit
		}
	}
	return c;
}
Comps value(Rng & r, int dim, int s, int n)
{
	Comps c = s < sNumStrata ? gen(r, dim, s, 1000) : special(r, dim, s - sNumStrata, n);
	for (auto & x : c) if (x != 0. && std::fabs(x) < 1e-307) x = 0.;
	return c;
}
// words, blanks before each, blanks at the end
void recText(Rec & rec, std::string const & s)
{
	std::string w = "[", b = "[";
	std::size_t i = 0; int nw = 0; long blanks = 0;
	while (i < s.size())
	{
		blanks = 0;
		while (i < s.size() && s[i] == ' ') { ++i; ++blanks; }
		if (i == s.size()) break;
		if (nw++) { w += ','; b += ','; }
		b += std::to_string(blanks); w += '[';
		for (bool f = true; i < s.size() && s[i] != ' '; ++i, f = false) { if (! f) w += ','; w += std::to_string((int)(unsigned char)s[i]); }
		w += ']'; blanks = 0;
	}
	rec.raw("w", w + "]").raw("b", b + "]").in("tail", blanks).str("text", s);
}
void state(Rec & rec, char const * k, std::ostream const & o)
{
	rec.raw(k, "[" + std::to_string((long)o.flags()) + "," + std::to_string((long)o.precision()) + "," + std::to_string((int)(unsigned char)o.fill()) + "]");
}
}

int main(int argc, char ** argv)
{
	if (argc < 4) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
	int const reps = argc > 4 ? std::atoi(argv[4]) : 1;
	std::uint64_t n = 0;
	for (auto const & w : plan.lines)
	{
		std::string const & op = w[0];
		int const s = std::atoi(w[2].c_str()), before = std::atoi(w[3].c_str()), digits = std::atoi(w[4].c_str());
		for (int rep = 0; rep < reps; ++rep)
		{
			Rng r(seed * 1000003 + ++n);
			dispatch(typeId(w[1]), [&](auto tag) {
				using T = typename decltype(tag)::type;
				constexpr bool dbl = std::is_same_v<T, double>;
				constexpr bool enc = ! std::is_same_v<T, ComPlex> && ! std::is_same_v<T, DirPlex>;
				T const x = make<T>(value(r, TypeInfo<T>::dim, s, op == "put" ? 6 : digits));
				Rec rec;
				rec.str("op", op).ent("a", x);
				if (op == "fixed")
				{
					if constexpr (enc)
					{
						bool const def = before == 3 && digits == 6 && r.coin(), half = digits == 6 && r.coin();
						recText(rec, def ? g3::io::fixed(x) : half ? g3::io::fixed(x, before) : g3::io::fixed(x, before, digits));
						rec.in("before", before).in("after", digits);
						out.put(rec);
					}
				}
				else if (op == "enote")
				{
					if constexpr (enc)
					{
						recText(rec, digits == 15 && r.coin() ? g3::io::enote(x) : g3::io::enote(x, digits));
						rec.in("digits", digits);
						out.put(rec);
					}
				}
				else if (op == "put")
				{
					if constexpr (! dbl)
					{
						std::ostringstream o;
						if (digits)
						{
							o << "abc";
							using B = std::ios_base;
							B::fmtflags f{};
							f |= r.coin() ? B::dec : r.coin() ? B::hex : B::oct;
							switch (r.range(0, 3)) { case 0: f |= B::fixed; break; case 1: f |= B::scientific; break; case 2: f |= B::fixed | B::scientific; break; default: break; }
							switch (r.range(0, 3)) { case 0: f |= B::left; break; case 1: f |= B::right; break; case 2: f |= B::internal; break; default: break; }
							if (r.coin()) f |= B::showpos;
							if (r.coin()) f |= B::showpoint;
							if (r.coin()) f |= B::showbase;
							if (r.coin()) f |= B::uppercase;
							if (r.coin()) f |= B::boolalpha;
							if (r.coin()) f |= B::unitbuf;
							if (r.coin()) f |= B::skipws;
							o.flags(f);
							o.precision(r.range(0, 20));
							o.fill("*0 _#"[r.range(0, 4)]);
						}
						state(rec, "pre", o);
						T const other = make<T>(value(r, TypeInfo<T>::dim, r.range(0, sNumStrata - 1), 6));
						std::size_t at = o.str().size();
						if (digits == 3) { o << other; at = o.str().size(); }      // in the middle of other output
						std::ostream & ret = (o << x);
						rec.in("good", &ret == &o && o.good());
						state(rec, "post", o);
						recText(rec, o.str().substr(at));
						out.put(rec);
					}
				}
				else if (op == "back")
				{
					if constexpr (enc && ! dbl)
					{
						// two entities in one text
						T const y = make<T>(value(r, TypeInfo<T>::dim, r.range(0, sNumStrata - 1), 15));
						std::istringstream is(g3::io::enote(y) + (r.coin() ? " " : "\n") + g3::io::enote(x) + (r.coin() ? " " : ""));
						T u, v;
						is >> u >> v;
						rec.ent("r", v).in("ok", ! is.fail());
						out.put(rec);
						Rec q; q.str("op", op).ent("a", y).ent("r", u).in("ok", ! is.fail());
						out.put(q);
					}
				}
			});
		}
	}
	return 0;
}
