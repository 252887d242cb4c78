// Drives operator>> along scenarios of StreamIn.tla: a program of entity
// types, a text given as token kinds, and whether the stream has already
// failed.  The texts themselves (number notation, spacing) are chosen here.
#include "hx.hpp"

using namespace hx;

namespace
{
struct Item { std::string text; double value; };
Item number(Rng & r)
{
	char b[64];
	switch (r.range(0, 15))
	{
	case 0: return {"0", 0.};
	case 1: return {"-0", -0.};
	case 2: { int const k = r.range(-999, 999); std::snprintf(b, sizeof b, "%d", k); } break;
	case 3: std::snprintf(b, sizeof b, "+%d", r.range(1, 99)); break;
	case 4: std::snprintf(b, sizeof b, "%.17g", r.mant(r.range(-60, 60))); break;
	case 5: std::snprintf(b, sizeof b, "%.6f", r.mant(r.range(-6, 9))); break;
	case 6: std::snprintf(b, sizeof b, "%.15e", r.mant(r.range(-990, 990))); break;
	case 7: std::snprintf(b, sizeof b, "%.3E", r.mant(r.range(-90, 90))); break;
	case 8: std::snprintf(b, sizeof b, ".%d", r.range(1, 999)); break;
	case 9: std::snprintf(b, sizeof b, "-%d.", r.range(1, 999)); break;
	case 10: std::snprintf(b, sizeof b, "00%d.50", r.range(1, 999)); break;
	case 11: std::snprintf(b, sizeof b, "%de%d", r.range(1, 99), r.range(-20, 20)); break;
	case 12: std::snprintf(b, sizeof b, "%d", r.range(0, 9)); break;
	case 13: std::snprintf(b, sizeof b, "%.40f", r.mant(r.range(-3, 3))); break;
	case 14: std::snprintf(b, sizeof b, "%.17g", std::ldexp(r.mant(0), r.coin() ? 1022 : -1021)); break;
	default: std::snprintf(b, sizeof b, "%.17g", r.sym()); break;
	}
	return {b, std::strtod(b, nullptr)};
}
char const * bad(Rng & r)
{
	static char const * const v[] = {"abc", "-", "nan", "inf", "x", ",", "#", "-inf", "NaN", "+", ".", "e5", "(1", "[", "\"", "--1", "?", "end", "_1", "~", "/", "null", "*"};
	return v[r.next() % (sizeof v / sizeof *v)];
}
char const * huge(Rng & r)
{
	static char const * const v[] = {"1e999", "-1e999", "9e308", "1e400", "-2.5e309"};
	return v[r.next() % 5];
}
std::string space(Rng & r)
{
	static char const * const v[] = {" ", " ", "\n", "\t", "  ", " \n ", "\r\n", "      ", "\v", "\f", "\n\n\t "};
	return v[r.next() % 11];
}

// a buffer that hands out its text in pieces of one to three characters
struct Chunks : std::streambuf
{
	std::string s; std::size_t at = 0; Rng r;
	Chunks(std::string t, std::uint64_t seed) : s(std::move(t)), r(seed) {}
	int_type underflow() override
	{
		if (at >= s.size()) return traits_type::eof();
		std::size_t const n = std::min<std::size_t>(s.size() - at, 1 + r.next() % 3);
		setg(&s[at], &s[at], &s[at] + n);
		at += n;
		return traits_type::to_int_type(*gptr());
	}
	std::size_t consumed() const { return at - (std::size_t)(egptr() - gptr()); }
};
}

int main(int argc, char ** argv)
{
	if (argc < 4) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
	int const reps = argc > 4 ? std::atoi(argv[4]) : 1;
	std::uint64_t n = 0;
	for (auto const & w : plan.lines)
	{
		bool const failed = w[0] == "1";
		std::size_t const np = std::atoi(w[1].c_str());
		std::vector<std::string> const prog(w.begin() + 2, w.begin() + 2 + np), kinds(w.begin() + 2 + np, w.end());
		for (int rep = 0; rep < reps; ++rep)
		{
			Rng r(seed * 1000003 + ++n);
			std::string text;
			std::vector<std::size_t> ends;
			Comps val;
			bool gap = r.coin(1, 3);
			for (auto const & k : kinds)
			{
				// something that cannot continue a number may follow one directly
				std::string const b = k == "bad" ? bad(r) : std::string();
				bool const glue = ! text.empty() && text.back() >= '0' && text.back() <= '9' && r.coin() && (b == "," || b == "#" || b == "/" || b == "(1" || b == "[" || b == "~");
				if (gap && ! glue) text += space(r);
				gap = true;
				if (k == "num") { Item const it = number(r); text += it.text; val.push_back(it.value); }
				else if (k == "bad") { text += b; val.push_back(0.); }
				else { text += huge(r); val.push_back(0.); }
				ends.push_back(text.size());
			}
			if (r.coin()) text += space(r);
			std::string pj = "[", tj = "[", gj = "[";
			for (std::size_t i = 0; i < prog.size(); ++i) { if (i) pj += ','; pj += '"' + prog[i] + '"'; }
			for (std::size_t i = 0; i < kinds.size(); ++i) { if (i) tj += ','; tj += '"' + kinds[i] + '"'; }
			Chunks chunks(text, r.next());
			std::stringbuf sb(text, std::ios_base::in);
			bool const useChunks = r.coin(1, 3);
			std::istream is(useChunks ? static_cast<std::streambuf *>(&chunks) : static_cast<std::streambuf *>(&sb));
			if (failed) is.setstate(r.coin() ? std::ios_base::failbit : r.coin() ? std::ios_base::badbit : (std::ios_base::failbit | std::ios_base::eofbit));
			for (std::size_t i = 0; i < prog.size(); ++i)
			{
				dispatch(typeId(prog[i]), [&](auto tag) {
					using T = typename decltype(tag)::type;
					if constexpr (! std::is_same_v<T, double>)
					{
						T x = make<T>(gen(r, TypeInfo<T>::dim, r.range(0, sNumStrata - 1)));
						if (r.coin(1, 4)) x = T{};
						is >> x;
						Rec l; l.list("x", comps(x));
						if (i) gj += ',';
						gj += l.s.substr(5);
					}
				});
			}
			bool const fail = is.fail();
			long at = -1;
			std::size_t const where = useChunks ? chunks.consumed() : (std::size_t)(std::streamoff)sb.pubseekoff(0, std::ios_base::cur, std::ios_base::in);
			if (where == 0) at = 0;
			for (std::size_t i = 0; i < ends.size(); ++i) if (ends[i] == where) at = (long)i + 1;
			Rec rec;
			rec.str("op", "extract").raw("prog", pj + "]").raw("toks", tj + "]").in("failed", failed).list("val", val).raw("got", gj + "]").in("fail", fail).in("at", at).str("text", text);
			out.put(rec);
		}
	}
	return 0;
}
