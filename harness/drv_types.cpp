// Asks the compiler about every expression over the ten types.  The list of
// calls is planned by PlanTypes.tla; an argument-dependent question can only be
// asked at compile time, so all of them are asked and the planned ones recorded.
#include "hx.hpp"
#include <set>
#include <sstream>

using namespace hx;

namespace
{
template <typename, template <typename...> class Op, typename... Args> struct DetectImpl : std::false_type { using type = void; };
template <template <typename...> class Op, typename... Args> struct DetectImpl<std::void_t<Op<Args...>>, Op, Args...> : std::true_type { using type = Op<Args...>; };
template <template <typename...> class Op, typename... Args> using Detect = DetectImpl<void, Op, Args...>;

#define U(NAME, EXPR) template <typename A> using NAME = decltype(EXPR);
#define B2(NAME, EXPR) template <typename A, typename B> using NAME = decltype(EXPR);
#define a_ std::declval<A>()
#define b_ std::declval<B>()
B2(mul, a_ * b_) B2(add, a_ + b_) B2(sub, a_ - b_) B2(eq, a_ == b_) B2(near_, g3::nearlyEquals(a_, b_))
B2(logPlane, g3::logG2(a_, b_)) B2(sqrtPlane, g3::sqrtG2(a_, b_))
U(neg, -a_) U(reverse, g3::reverse(a_)) U(oddverse, g3::oddverse(a_)) U(dirverse, g3::dirverse(a_)) U(dual, g3::dual(a_))
U(sq, g3::sq(a_)) U(cube, g3::cube(a_)) U(magSq, g3::magSq(a_)) U(ampSq, g3::ampSq(a_))
U(inverse, g3::inverse<std::decay_t<A>>(a_)) U(exp_, g3::exp(a_)) U(log_, g3::logG2(a_)) U(sqrt_, g3::sqrtG2(a_)) U(isValid_, g3::isValid(a_))
U(fixed_, g3::io::fixed(a_)) U(enote_, g3::io::enote(a_)) U(put, std::declval<std::ostream &>() << a_) U(embed, MultiVector(a_))
// unconstrained templates: their type is known only for the types they serve
U(magnitude, g3::magnitude(a_)) U(pairMagDir, g3::pairMagDirFrom(a_)) U(direction, g3::direction(a_)) U(amplitude, g3::amplitude(a_))

template <typename T> struct Name { static std::string get() { return TypeInfo<T>::name; } };
template <> struct Name<bool> { static std::string get() { return "bool"; } };
template <> struct Name<void> { static std::string get() { return "void"; } };
template <> struct Name<std::string> { static std::string get() { return "string"; } };
template <> struct Name<std::ostream> { static std::string get() { return "ostream"; } };
template <typename X> struct Name<std::pair<double, X>> { static std::string get() { return Name<X>::get(); } };
template <typename T> std::string nameOfType() { return Name<std::remove_cv_t<std::remove_reference_t<T>>>::get(); }

std::set<std::string> wanted;
Out * out = nullptr;
void put1(char const * f, char const * t, char const * u, char const * form, bool ok, std::string const & ty)
{
	if (! wanted.count(std::string(f) + " " + t + " " + u)) return;
	Rec r;
	r.str("op", "expr").str("f", f).str("t", t).str("u", u).str("form", form).in("ok", ok).str("ty", ty);
	out->put(r);
}
template <template <typename...> class Op, typename T, typename U>
void two(char const * f)
{
	char const * t = TypeInfo<T>::name; char const * u = TypeInfo<U>::name;
#define FORM(A, B, S) put1(f, t, u, S, Detect<Op, A, B>::value, nameOfType<typename Detect<Op, A, B>::type>());
	FORM(T const &, U const &, "const&,const&")
	FORM(T &, U &, "&,&")
	FORM(T, U, "&&,&&")
	FORM(T const &, U, "const&,&&")
	FORM(T, U const &, "&&,const&")
#undef FORM
}
template <template <typename...> class Op, typename T>
void one(char const * f)
{
	char const * t = TypeInfo<T>::name;
#define FORM(A, S) put1(f, t, "-", S, Detect<Op, A>::value, nameOfType<typename Detect<Op, A>::type>());
	FORM(T const &, "const&") FORM(T &, "&") FORM(T, "&&") FORM(T const, "const&&")
#undef FORM
}
template <typename T, typename U> void pairs()
{
	two<mul, T, U>("mul");
	if constexpr (! std::is_same_v<T, double> && ! std::is_same_v<U, double>) { two<add, T, U>("add"); two<sub, T, U>("sub"); }
	if constexpr (std::is_same_v<T, U>) { two<eq, T, U>("eq"); two<near_, T, U>("near"); }
	if constexpr (std::is_same_v<T, Spinor> && std::is_same_v<U, BiVector>) { two<logPlane, T, U>("logPlane"); two<sqrtPlane, T, U>("sqrtPlane"); }
}
template <typename T, typename... Us> void allPairs(std::tuple<Us...> *) { (pairs<T, Us>(), ...); }

template <typename T> void unary()
{
	constexpr bool dbl = std::is_same_v<T, double>;
	constexpr bool closed = std::is_same_v<T, double> || std::is_same_v<T, Scalar> || std::is_same_v<T, Spinor> || std::is_same_v<T, ComPlex> || std::is_same_v<T, MultiVector>;
	constexpr bool inv = std::is_same_v<T, Scalar> || std::is_same_v<T, Vector> || std::is_same_v<T, BiVector> || std::is_same_v<T, TriVector> || std::is_same_v<T, ComPlex> || std::is_same_v<T, MultiVector>;
	one<neg, T>("neg"); one<reverse, T>("reverse"); one<oddverse, T>("oddverse"); one<dirverse, T>("dirverse"); one<dual, T>("dual");
	if constexpr (closed) { one<sq, T>("sq"); one<cube, T>("cube"); }
	one<magSq, T>("magSq"); one<ampSq, T>("ampSq"); one<isValid_, T>("isValid");
	if constexpr (! dbl) { one<magnitude, T>("magnitude"); one<pairMagDir, T>("pairMagDir"); one<direction, T>("direction"); one<amplitude, T>("amplitude"); one<put, T>("put"); }
	if constexpr (inv) one<inverse, T>("inverse");
	one<exp_, T>("exp");
	if constexpr (std::is_same_v<T, Spinor>) { one<log_, T>("log"); one<sqrt_, T>("sqrt"); }
	if constexpr (! std::is_same_v<T, ComPlex> && ! std::is_same_v<T, DirPlex>) { one<fixed_, T>("fixed"); one<enote_, T>("enote"); }
	if constexpr (! std::is_same_v<T, MultiVector>) one<embed, T>("embed");
	char const * t = TypeInfo<T>::name;
#define IS(Q) { Rec r; r.str("op", "is").str("q", #Q).str("t", t).in("ok", g3::is::Q<T>::value); out->put(r); }
	IS(blade) IS(Scalar) IS(Vector) IS(BiVector) IS(TriVector) IS(Spinor) IS(ImSpin) IS(ComPlex) IS(DirPlex) IS(MultiVector)
#undef IS
}
template <typename... Ts> void everything(std::tuple<Ts...> *) { (unary<Ts>(), ...); (allPairs<Ts>((AllTypes *)nullptr), ...); }
}

int main(int argc, char ** argv)
{
	if (argc < 3) return 2;
	Plan const plan(argv[1]);
	for (auto const & w : plan.lines) wanted.insert(w[0] + " " + w[1] + " " + w[2]);
	Out o(argv[2]); out = &o;
	everything((AllTypes *)nullptr);
	return 0;
}
