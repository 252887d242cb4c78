// Replays programs of Store.tla on real objects, and reads the named constants
// at several moments.  Plan lines:
//   prog (type n cells...)*      step <action> d x y type n cells... s1 s2 s3 s4
#include "drv_store.hpp"
#include <cstring>
#include <map>
#include <memory>
#include <utility>

using namespace hx;

// read while this translation unit's (or the other one's) statics initialise
namespace { struct Early { ConstList c; Early() { c = constants1("static1"); } } const sEarly1; }

namespace
{
double cell(std::string const & w)
{
	int const k = std::atoi(w.c_str());
	static double const v[] =
		{ 0., -0., 1., -1., std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()
		, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::min()
		, std::numeric_limits<double>::max(), .1, 1e300, -2.5e-300, 4503599627370497.5, 3. };
	if (k < 0) return std::numeric_limits<double>::quiet_NaN();
	return v[k % (int)(sizeof v / sizeof v[0])];
}

template <typename T> Slot build(Comps const & v, int how);
template <> Slot build<double>(Comps const & v, int) { return v[0]; }
template <> Slot build<Scalar>(Comps const & v, int how) { if (how == 0) { Scalar const r{ v[0] }; return r; } Scalar r; r.theData[0] = v[0]; return r; }
template <> Slot build<Vector>(Comps const & v, int how) { if (how == 0) { Vector const r{ v[0], v[1], v[2] }; return r; } Vector r; r.theData = {v[0], v[1], v[2]}; return r; }
template <> Slot build<BiVector>(Comps const & v, int how) { if (how == 0) { BiVector const r{ v[0], v[1], v[2] }; return r; } BiVector r; r.theData = {v[0], v[1], v[2]}; return r; }
template <> Slot build<TriVector>(Comps const & v, int how) { if (how == 0) { TriVector const r{ v[0] }; return r; } TriVector r; r.theData[0] = v[0]; return r; }
template <> Slot build<Spinor>(Comps const & v, int how)
{
	if (how == 0) { Spinor const r{ v[0], v[1], v[2], v[3] }; return r; }
	Spinor const r{ Scalar{ v[0] }, BiVector{ v[1], v[2], v[3] } }; return r;
}
template <> Slot build<ImSpin>(Comps const & v, int how)
{
	if (how == 0) { ImSpin const r{ v[0], v[1], v[2], v[3] }; return r; }
	ImSpin const r{ Vector{ v[0], v[1], v[2] }, TriVector{ v[3] } }; return r;
}
template <> Slot build<ComPlex>(Comps const & v, int how)
{
	if (how == 0) { ComPlex const r{ v[0], v[1] }; return r; }
	ComPlex const r{ Scalar{ v[0] }, TriVector{ v[1] } }; return r;
}
template <> Slot build<DirPlex>(Comps const & v, int how)
{
	if (how == 0) { DirPlex const r{ v[0], v[1], v[2], v[3], v[4], v[5] }; return r; }
	DirPlex const r{ Vector{ v[0], v[1], v[2] }, BiVector{ v[3], v[4], v[5] } }; return r;
}
template <> Slot build<MultiVector>(Comps const & v, int how)
{
	if (how == 0) { MultiVector const r{ v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7] }; return r; }
	MultiVector const r{ Scalar{ v[0] }, Vector{ v[1], v[2], v[3] }, BiVector{ v[4], v[5], v[6] }, TriVector{ v[7] } }; return r;
}

template <typename B> B member(Slot const & s);
template <typename T, typename B, typename = void> struct Get { static B get(T const &) { std::exit(3); } static void set(T &, B const &) { std::exit(3); } };
template <typename B> struct Get<B, B, void> { static B get(B const & x) { return x; } static void set(B & x, B const & y) { x = y; } };
#define MEMBER(T, B, M) template <> struct Get<T, B, void> { static B get(T const & x) { return x.M; } static void set(T & x, B const & y) { x.M = y; } };
MEMBER(Spinor, Scalar, theSca) MEMBER(Spinor, BiVector, theBiv)
MEMBER(ImSpin, Vector, theVec) MEMBER(ImSpin, TriVector, theTri)
MEMBER(ComPlex, Scalar, theSca) MEMBER(ComPlex, TriVector, theTri)
MEMBER(DirPlex, Vector, theVec) MEMBER(DirPlex, BiVector, theBiv)
MEMBER(MultiVector, Scalar, theSca) MEMBER(MultiVector, Vector, theVec) MEMBER(MultiVector, BiVector, theBiv) MEMBER(MultiVector, TriVector, theTri)
template <typename B> B member(Slot const & s) { return std::visit([](auto const & x) { return Get<std::decay_t<decltype(x)>, B>::get(x); }, s); }
template <typename B> void setMember(Slot & d, Slot const & s) { B const b = member<B>(s); std::visit([&](auto & x) { Get<std::decay_t<decltype(x)>, B>::set(x, b); }, d); }

std::string slotsJson(std::vector<Slot> const & v)
{
	std::string s = "[";
	for (std::size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::visit([](auto const & x) { return objJson(x); }, v[i]); }
	return s + "]";
}
template <typename T> bool isZero(T const & x) { for (double c : comps(x)) if (bits(c)) return false; return true; }
// a copy of an object, made in one of the ways a program may
template <typename T> T copied(T const & src, int way)
{
	switch (way)
	{
		case 0: return src;
		case 1: { T a(src); T b(std::move(a)); return b; }
		case 2: { T a = g3::zero<T>(); a = src; T & same = a; a = same; return a; }
		case 3: { T a = g3::zero<T>(), b(src); std::swap(a, b); T c(src); std::swap(c, c); return isZero(b) ? a : b; }
		case 4: { std::vector<T> v; for (int n = 0; n < 5; ++n) v.push_back(src); v.erase(v.begin()); v.insert(v.begin(), v[3]); return v[0]; }
		case 5:
			if constexpr (std::is_trivially_copyable_v<T>)
			{ unsigned char bytes[sizeof(T) + 3]; std::memcpy(bytes + 3, &src, sizeof(T)); T a = g3::one<double>() > 0. ? g3::zero<T>() : src; std::memcpy(&a, bytes + 3, sizeof(T)); return a; }
			else return src;
		case 6: { auto const by = [](T a) { return std::make_pair(1, a); }; std::map<int, T> m; m.insert(by(src)); m[2] = m[1]; return m[2]; }
		default: { auto p = std::make_unique<T>(src); T a = g3::null<T>(); a = std::move(*p); auto q = std::make_unique<T>(); *q = a; return *q; }
	}
}
template <typename T> Comps reads(T const & x) { Comps r; for (int i = 0; i < TypeInfo<T>::dim; ++i) r.push_back(x[i]); return r; }
inline Comps reads(double const & x) { return {x}; }
}

int main(int argc, char ** argv)
{
	if (argc < 5) return 2;
	Plan const plan(argv[1]);
	Out out(argv[2]);
	Out cons(argv[4]);
	writeConsts(cons, sEarly1.c);
	writeConsts(cons, early2());
	writeConsts(cons, constants1("main1"));
	writeConsts(cons, constants2("main2"));
	std::vector<Slot> slot;
	long step = 0;
	for (auto const & w : plan.lines)
	{
		Rec rec;
		if (w[0] == "prog")
		{
			slot.clear();
			for (std::size_t at = 1; at < w.size();)
			{
				int const t = typeId(w[at]); int const n = std::atoi(w[at + 1].c_str());
				Comps v; for (int i = 0; i < n; ++i) v.push_back(cell(w[at + 2 + i]));
				at += 2 + n;
				dispatch(t, [&](auto tag) { slot.push_back(build<typename decltype(tag)::type>(v, (int)slot.size() % 2)); });
			}
			rec.str("op", "start").raw("slots", slotsJson(slot));
			out.put(rec);
			continue;
		}
		++step;
		std::string const & a = w[1];
		int const d = std::atoi(w[2].c_str()) - 1, x = std::atoi(w[3].c_str()) - 1, y = std::atoi(w[4].c_str());
		int const n = std::atoi(w[6].c_str());
		Comps v; for (int i = 0; i < n; ++i) v.push_back(cell(w[7 + i]));
		int s[4]; for (int g = 0; g < 4; ++g) s[g] = std::atoi(w[7 + n + g].c_str()) - 1;
		Comps stdc;
		int const ty = typeId(w[5]);
		auto grade = [&](auto tag, int g) { return member<typename decltype(tag)::type>(slot.at(s[g])); };
		if (a == "build") dispatch(ty, [&](auto tag) { slot[d] = build<typename decltype(tag)::type>(v, (int)(step % 2)); });
		else if (a == "promote")
		{
			MultiVector const m = std::visit([](auto const & o) { return MultiVector{ o }; }, slot[x]);
			slot[d] = m;
		}
		else if (a == "parts") { MultiVector const m{ std::get<ComPlex>(slot[x]), std::get<DirPlex>(slot.at(y - 1)) }; slot[d] = m; }
		else if (a == "compose")
		{
			Tag<Scalar> S; Tag<Vector> V; Tag<BiVector> B; Tag<TriVector> T;
			if (w[5] == "Spinor") slot[d] = Spinor{ grade(S, 0), grade(B, 2) };
			else if (w[5] == "ImSpin") slot[d] = ImSpin{ grade(V, 1), grade(T, 3) };
			else if (w[5] == "ComPlex") slot[d] = ComPlex{ grade(S, 0), grade(T, 3) };
			else if (w[5] == "DirPlex") slot[d] = DirPlex{ grade(V, 1), grade(B, 2) };
			else slot[d] = MultiVector{ grade(S, 0), grade(V, 1), grade(B, 2), grade(T, 3) };
		}
		else if (a == "select")
		{
			Slot const from = slot[x];
			if (y == 0) slot[d] = member<Scalar>(from); else if (y == 1) slot[d] = member<Vector>(from);
			else if (y == 2) slot[d] = member<BiVector>(from); else slot[d] = member<TriVector>(from);
		}
		else if (a == "setmember")
		{
			if (y == 0) setMember<Scalar>(slot[d], slot[x]); else if (y == 1) setMember<Vector>(slot[d], slot[x]);
			else if (y == 2) setMember<BiVector>(slot[d], slot[x]); else setMember<TriVector>(slot[d], slot[x]);
		}
		else if (a == "write") std::get<MultiVector>(slot[d])[y - 1] = v[0];
		else if (a == "copy") slot[d] = std::visit([&](auto const & o) { return Slot(copied(o, (int)(step % 8))); }, slot[x]);
		else if (a == "complex")
		{
			std::complex<double> const z = std::get<ComPlex>(slot[x]);
			stdc = { z.real(), z.imag() };
			slot[d] = ComPlex::from(z);
		}
		else if (a == "zero") dispatch(ty, [&](auto tag) { slot[d] = g3::zero<typename decltype(tag)::type>(); });
		else if (a == "null") dispatch(ty, [&](auto tag) { slot[d] = g3::null<typename decltype(tag)::type>(); });
		else return 3;
		rec.str("op", "step").str("a", a).in("d", d + 1).in("x", x + 1).in("y", y).str("t", w[5]).raw("v", cellsJson(v));
		rec.raw("s", "[" + std::to_string(s[0] + 1) + "," + std::to_string(s[1] + 1) + "," + std::to_string(s[2] + 1) + "," + std::to_string(s[3] + 1) + "]");
		rec.raw("slots", slotsJson(slot));
		std::visit([&](auto & o)
		{
			using T = std::decay_t<decltype(o)>;
			T const & c = o;
			rec.raw("subs", cellsJson(reads(c)));
			Comps past, wr;
			if constexpr (std::is_same_v<T, MultiVector>) for (int i = 0; i < 8; ++i) wr.push_back(o[i]);
			else if constexpr (! std::is_same_v<T, double>)
				for (std::size_t k : {(std::size_t)TypeInfo<T>::dim, (std::size_t)TypeInfo<T>::dim + 1, (std::size_t)7, (std::size_t)8, (std::size_t)100, (std::size_t)1 << 31, (std::size_t)1 << 32, ((std::size_t)1 << 32) + 1, (std::size_t)-1})
					if (k >= (std::size_t)TypeInfo<T>::dim) past.push_back(c[k]);
			rec.raw("wsubs", cellsJson(wr)).raw("past", nansJson(past)).raw("nans", nansJson(comps(o)));
		}, slot[d]);
		rec.raw("std", cellsJson(stdc));
		out.put(rec);
		if (step % 97 == 0) writeConsts(cons, step % 2 ? constants1("later1") : constants2("later2"));
	}
	writeConsts(cons, constants1("end1"));
	writeConsts(cons, constants2("end2"));
	return 0;
}
