// Call descriptors shared by the history and the concurrency drivers: for each
// planned call a group of operand variants that are nearly the same, so that
// any memory of an earlier call is provoked to show.
#ifndef hx_hist_INCL_
#define hx_hist_INCL_

#include "calls.hpp"

#include <cfenv>
#include <clocale>
#include <fcntl.h>
#include <locale>
#include <unistd.h>

namespace hx
{
struct Call { Op op; Var a, b; bool same = false; };      // same: both operands may be one object
struct Desc { Op op; int ta, tb; };
constexpr int sNumVar = 8;

// Operands for which the functions take their special branches come in extra
// strata: half turns, zero, near unit, null like.
constexpr int sNumRegime = 4;
inline bool branches(Op o) { return o == Op::log || o == Op::sqrt || o == Op::logPlane || o == Op::sqrtPlane || o == Op::exp || o == Op::inverse || o == Op::direction || o == Op::pairMagDir || o == Op::amplitude || o == Op::near; }
inline Comps regime(Rng & r, int dim, int k)
{
	Comps a(dim, 0.);
	switch (k)
	{
	case 0: a[0] = -std::fabs(r.mant(r.range(-3, 3))); break;                   // a negative scalar
	case 1: break;                                                             // zero
	case 2: a = gen(r, dim, 2); for (auto & x : a) x *= 1e-9; a[0] = 1.; break;   // nearly one
	default: a = gen(r, dim, 2); if (dim > 1) { for (auto & x : a) x = 0.; a[0] = r.mant(1); a[dim == 8 ? 1 : dim - 1] = r.coin() ? a[0] : -a[0]; } break;
	}
	return a;
}
inline int stratumOf(int d, int k, int strata, std::uint64_t seed) { return k < strata ? (d * 7 + k * 11 + (int)seed * 3) % sNumStrata : sNumStrata + (k - strata + d + (int)seed) % sNumRegime; }

// variant v of the operands of a group
inline Call variant(Desc const & d, std::uint64_t seed, int group, int stratum, int v)
{
	Rng r(seed * 7919 + 104729ull * group + stratum);
	int const da = typeDim(d.ta), db = isBinary(d.op) ? typeDim(d.tb) : 0;
	bool const special = stratum >= sNumStrata;
	Comps a = special ? regime(r, da, stratum - sNumStrata) : gen(r, da, stratum, 300);
	Comps b = db ? gen(r, db, ! special && r.coin() ? stratum : r.range(0, sNumStrata - 1), 300) : Comps{};
	if (db && da == db && r.coin()) b = relate(r, a, r.range(0, sNumRel - 1));
	bool same = false;
	Rng q(seed * 7919 + 104729ull * group + 31 * stratum + v + 1);
	static int const rels[] = {0, 2, 4, 5, 6, 1, 3, 0};
	if (v > 0 && v < 7)
	{
		// vary the first, the second, or both operands
		int const which = db ? (special && d.ta != d.tb ? 1 : q.range(0, 2)) : 0;
		if (which != 1) a = relate(q, a, rels[v]);
		if (db && which != 0) b = relate(q, b, rels[v]);
		if (v == 4) for (auto & x : a) x = std::ldexp(x, q.range(-1, 1));
	}
	if (v == 7)
	{
		if (db && d.ta == d.tb) { b = a; same = true; }
		else if (special && db) b = gen(q, db, q.range(0, sNumStrata - 1), 300);
		else a = gen(q, da, q.range(0, sNumStrata - 1), 300);
	}
	Call c;
	c.op = d.op; c.a = makeVar(d.ta, a); c.b = db ? makeVar(d.tb, b) : Var(0.); c.same = same;
	return c;
}

inline bool bitsEqual(Var const & x, Var const & y)
{
	if (x.index() != y.index()) return false;
	Comps const a = compsOf(x), b = compsOf(y);
	for (std::size_t i = 0; i < a.size(); ++i) if (bits(a[i]) != bits(b[i]) && ! (std::isnan(a[i]) && std::isnan(b[i]))) return false;
	return true;
}
inline bool resEqual(Res const & x, Res const & y)
{
	if (x.ents.size() != y.ents.size() || x.text != y.text) return false;
	for (std::size_t i = 0; i < x.ents.size(); ++i) if (! bitsEqual(x.ents[i], y.ents[i])) return false;
	return true;
}

inline std::vector<Desc> descriptors(Plan const & plan)
{
	std::vector<Desc> ds;
	for (auto const & w : plan.lines)
	{
		Desc const d{opByName(w[0]), typeId(w[1]), w[2] == "-" ? 0 : typeId(w[2])};
		Call const c = variant(d, 1, 0, 2, 0);
		if (invoke(d.op, c.a, c.b).has) ds.push_back(d);
	}
	return ds;
}

inline std::string callJson(Call const & c, Res const & r)
{
	Rec rec;
	std::string a, b; recEnt(a, c.a); recEnt(b, c.b);
	rec.str("f", opName(c.op)).raw("a", a).raw("b", b);
	recRes(rec, "r", r);
	rec.str("text", r.text);
	return rec.s + "}";
}

// what the standard streams and the environment looked like
struct Watch
{
	int fd = -1; long at = 0; int round = 0; unsigned csr = 0; std::ios_base::fmtflags fl{}; std::streamsize pr = 0; std::string loc, cloc;
	explicit Watch(char const * path)
	{
		std::cout.flush(); std::fflush(nullptr);
		fd = ::open(path, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
		if (fd < 0) std::exit(3);
		::dup2(fd, 1); ::dup2(fd, 2);
		mark();
	}
	long size() { std::cout.flush(); std::cerr.flush(); std::clog.flush(); std::fflush(stdout); std::fflush(stderr); return (long)::lseek(fd, 0, SEEK_END); }
	// the control bits of the floating point unit (rounding, flush to zero, traps)
	static unsigned control()
	{
#ifdef __SSE2__
		return __builtin_ia32_stmxcsr() & ~0x3fu;
#else
		return 0;
#endif
	}
	static std::string cLocale() { char const * const n = std::setlocale(LC_ALL, nullptr); return n ? n : ""; }
	void mark() { at = size(); round = std::fegetround(); csr = control(); cloc = cLocale(); fl = std::cout.flags(); pr = std::cout.precision(); loc = std::locale().name(); }
	long written() { return size() - at; }
	int changed() { return (std::fegetround() != round) + (std::cout.flags() != fl) + (std::cout.precision() != pr) + (std::locale().name() != loc) + (control() != csr) + (cLocale() != cloc) + (std::cerr.flags() != std::ios_base::fmtflags(std::ios_base::skipws | std::ios_base::dec | std::ios_base::unitbuf)); }
};
} // [hx]

#endif
