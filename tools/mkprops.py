#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Every product equals the geometric product of its operands",
 "For every ordered pair of operand types that can be multiplied (double and the nine entity types), and for sq and cube, every component of the result is the one dictated by associativity, distributivity and the basis relations e1*e1=e2*e2=e3*e3=1, ei*ej=-ej*ei (bivector components in the order e23,e31,e12), up to double rounding of the individual terms that contribute to that component, and exactly when all operands are small integers. This holds for all finite operands, whatever their signs, zeros or relative magnitudes, as long as no contributing term overflows or underflows, and also when both operands are the same object.",
 ["inputs"], "all pairs of operand types x all finite component values",
 "Each of the ~90 product functions is hand expanded with up to 64 signed terms; the tests multiply a handful of fixed operands per pair and compare with a hand written expectation, so a sign, index or branch that is wrong only for other operand patterns is never visited.",
 ["include/g3opsMul*.hpp", "include/g3_private.hpp", "include/g3func.hpp"],
 [("hand expanded operator* for each operand pair", "include/g3opsMul_*.hpp"), ("commutative / anticommutative kernels prodComm, prodAnti", "include/g3_private.hpp"), ("sq, cube", "include/g3func.hpp")],
 observe=["return value of operator*, sq, cube"])

prop("C02", "Sums and differences act component by component and lose no grade",
 "For every pair of types that can be added or subtracted, the result has exactly the union of the operands' grades and each component equals the sum (difference, left minus right) of the operands' components on the same basis element, a component absent from an operand counting as zero, up to one double rounding. This holds for all finite operands for which the sum does not overflow, including operands of very different magnitude, zeros and an operand used on both sides.",
 ["inputs"], "all supported (left type, right type) pairs x all finite component values",
 "Over a hundred hand written overloads; tests use one or two fixed values for each and cannot see a value dependent error or a cross wired grade on other values.",
 ["include/g3opsAdd*.hpp", "include/g3opsSub*.hpp"],
 [("operator+ overloads", "include/g3opsAdd_*.hpp"), ("operator- overloads", "include/g3opsSub_*.hpp")],
 observe=["return value of operator+ and binary operator-"])

prop("C03", "Negation, reverse, oddverse, dirverse and dual follow their grade sign rules",
 "Unary minus negates every component; reverse negates exactly grades 2 and 3, oddverse exactly grades 1 and 3, dirverse exactly grades 1 and 2; dual is multiplication by the unit trivector, and returns the type that carries the dual grades. The result is exact (magnitudes bit for bit) for every finite operand of every type that supports the operation.",
 ["inputs"], "all types x all finite component values",
 "Tests check a few fixed operands per type; grade sign rules must hold for all values, including zeros, huge and tiny components and each component separately.",
 ["include/g3opsUni.hpp"],
 [("operator-, reverse, oddverse, dirverse, dual overloads", "include/g3opsUni.hpp")],
 observe=["return value"])

prop("C04", "Operations are pure: no dependence on call history, no side effects",
 "The result of any call depends only on the values of its arguments: repeating a call later, after any other calls, with other objects holding the same values, or in another order gives bit-for-bit the same result. No call modifies its operands (even when the same object is passed for several parameters) and no algebra, comparison or text-encoding call writes to the standard output or error streams.",
 ["histories", "programs"], "all sequences of API calls over shared and aliased operands",
 "A unit test performs each call once, in one fixed order, and never looks at the standard streams; a stale cache, a leaked static or an operand written through an alias needs a particular history.",
 ["include/g3func.hpp", "include/g3opsMul*.hpp", "include/g3compare.hpp", "include/g3io.hpp"],
 [("all functions take const references, return by value and keep no state", "include/*.hpp")],
 state=[("registers", "the caller's objects", "caller"), ("stdout/stderr", "characters written by the library", "process")],
 observe=["return values", "operands after the call", "standard streams"])

prop("C05", "Concurrent calls on shared or distinct operands give the sequential results",
 "Any number of threads may call the library concurrently, on distinct objects or reading the same objects, without synchronisation: every call returns bit-for-bit the result the same call returns when executed alone. There is no schedule under which one thread's call affects another's.",
 ["schedules"], "all interleavings of calls by concurrent threads",
 "The tests are single threaded.",
 ["include/g3func.hpp", "include/g3opsMul*.hpp", "include/g3const.hpp", "include/g3io.hpp", "include/g3type.hpp"],
 [("no mutable shared state; all constants const", "include/*.hpp")],
 state=[("shared operands", "objects read by several threads", "caller")],
 observe=["return values per thread"])

prop("C06", "Magnitudes and directions are the Euclidean norm and its unit element",
 "For every type magSq is the sum of the squares of all components and magnitude its non-negative square root; pairMagDirFrom and direction return that magnitude and the operand divided by it (a unit-magnitude element with magnitude*direction equal to the operand), to within double rounding for magnitudes between 1e-150 and 1e150. The direction of an element whose components are all zero is null while its magnitude is zero.",
 ["inputs"], "all types x all finite component values with magnitude in [1e-150,1e150], and zero",
 "Tests use one operand per type; weighting of components, small or large magnitude branches and zero handling need other values.",
 ["include/g3func.hpp"],
 [("magSq overloads", "include/g3func.hpp"), ("magnitude, pairMagDirFrom, direction", "include/g3func.hpp")],
 observe=["return value"])

prop("C07", "ampSq is M*dirverse(M); amplitude is its principal complex root",
 "For every entity type ampSq(M) equals M*dirverse(M), which always lies in the scalar+trivector grades, to within double rounding of its terms; it is multiplicative, ampSq(A*B)=ampSq(A)*ampSq(B). amplitude(M) squares to ampSq(M) and is the principal root: real part never negative and, for the types whose squared amplitude is always real (vector, trivector, imspin: real part zero), imaginary part not negative; ranges as in C06.",
 ["inputs"], "all types x all finite component values in range",
 "Tests compare a few fixed operands; the branch of the root and the sign of each of the eight squared terms depend on the operand.",
 ["include/g3func.hpp"],
 [("ampSq overloads", "include/g3func.hpp"), ("amplitude via complex square root", "include/g3func.hpp")],
 observe=["return value"])

prop("C08", "Inverses are two-sided and exist exactly for invertible elements",
 "For a non-zero scalar, vector, bivector, trivector or complex element x (magnitude 1e-70..1e70), and for any multivector M whose M*dirverse(M) is not zero, x*inverse(x) and inverse(x)*x are both the unit scalar to within double rounding amplified by at most the square of the conditioning |M|^2/|ampSq(M)|. For an element that is exactly non-invertible in double arithmetic (zero of any of these types, or a zero divisor such as 1+e1) the inverse is not valid (null for multivectors and complex elements), and for an invertible one it is valid.",
 ["inputs"], "all blades, complex elements and multivectors in range, including zero divisors",
 "Tests invert a few values; zero divisors form a 6-dimensional cone, and the decision invertible/non-invertible and the order of the factors matter only for particular operands.",
 ["include/g3func.hpp"],
 [("inverse for blades, ComPlex, MultiVector", "include/g3func.hpp")],
 observe=["return value", "isValid of the return value"])

prop("C09", "exp of bivectors and spinors is the algebra's exponential series",
 "For every bivector B (0 or with |B| from 1e-150 to 1e4) exp(B) is cos|B| + sin|B|*B/|B|, and for every spinor s+B exp is e^s times that, i.e. the sum of the power series x^n/n!, to within a relative error of about 1e-13 (1+|B|) of e^s, and the zero bivector gives exactly one. Each bivector component is also accurate relative to its own size, as long as it is not subnormal. This includes bivectors with zero, tiny or widely different components and any angle beyond a full turn or negative orientation; exp(B) always has unit magnitude and exp(-B) is its reverse.",
 ["inputs"], "all finite bivectors/spinors in range",
 "Tests sample three angles; small-angle, multi-turn and mixed-magnitude components need other inputs.",
 ["include/g3func.hpp"],
 [("exp(BiVector), exp(Spinor)", "include/g3func.hpp")],
 observe=["return value"])

prop("C10", "exp of a multivector is the algebra's exponential series",
 "For every multivector M with magnitude up to 20, exp(M) is the sum of the power series M^n/n! with the library's own product, to within a relative error of about 1e-12 of e^s*cosh(|w|)*(1+|M|)^2, where s is the scalar part and w*w is the square of the vector+bivector part; consequently it agrees with exp on embedded spinors and bivectors and exp(M)*exp(-M)=1. It holds for arguments in every grade subset, including null-like arguments whose vector+bivector part squares to zero.",
 ["inputs"], "all multivectors with magnitude up to 20",
 "The repository's test of this function is disabled; the argument has 8 dimensions with special strata (one grade only, nilpotent part, zero).",
 ["include/g3func.hpp"],
 [("exp(MultiVector)", "include/g3func.hpp")],
 observe=["return value"])

prop("C11", "logG2 is the principal logarithm: exp(logG2(s)) = s",
 "For every spinor s with magnitude from 1e-15 to 1e150 the logarithm L has scalar part ln|s| and bivector magnitude in [0,pi] equal to the angle between s and the positive scalar axis, with bivector direction that of s, so that exp(L)=s to within 1e-13*(1+|ln|s||) relative error, except that within 1e-7 rad of a half turn the plane may be the direction of the supplied (default e23) bivector. The zero spinor and invalid spinors give a null logarithm.",
 ["inputs"], "all spinors in range x all supplied planes",
 "Tests cover a few exact values; quadrants, tiny rotations, near-half turns with each supplied plane and scale handling need other inputs.",
 ["include/g3func.hpp"],
 [("logG2 and its zero-rotation and half-turn cases", "include/g3func.hpp")],
 observe=["return value"])

prop("C12", "sqrtG2 squares back to its argument and is the principal root",
 "For every spinor s with magnitude from 1e-14 to 1e150 (and the zero spinor, whose root is zero), r=sqrtG2(s) satisfies r*r=s to within 1e-13*(1+|ln|s||) relative error (1e-7 within 1e-7 rad of a half turn), has non-negative scalar part and the orientation of s's bivector; for a negative scalar the root lies in the plane supplied by the caller (default e23). An invalid spinor gives a null root.",
 ["inputs"], "all spinors in range x all supplied planes",
 "Tests cover a few exact values only.",
 ["include/g3func.hpp"],
 [("sqrtG2", "include/g3func.hpp")],
 observe=["return value"])

prop("C13", "Spinor sandwiches rotate: isometric, grade preserving, composable",
 "For R=exp(B/2) and every vector v (components in a normal range), reverse(R)*v*R (in either association, computed with the library's operators and functions) is a vector of the same magnitude, the part of v in the plane of B turned by the angle |B| in B's sense (for B along e12, from e1 toward e2) and the normal part unchanged; R*v*reverse(R) turns it by the same angle the other way; and the rotations compose as the product of their spinors; the inverse rotation restores v. logG2 and sqrtG2 of R recover the half angle bivector and the half rotation, and quarter-turn rotations about the basis planes generate exactly the 24 axis permutations with sign. Elements of every other type turn likewise, grade by grade: planes as their normals do, scalars and trivectors not at all.",
 ["programs", "inputs"], "all rotation programs: sequences of rotations by any bivector angle applied to any vector",
 "Each rotation is a chain of five or more library calls; tests check one or two single rotations.",
 ["include/g3func.hpp", "include/g3opsMul_Spinor.hpp", "include/g3opsMul_ImSpin.hpp", "include/g3opsMul_Vector.hpp", "include/g3opsUni.hpp"],
 [("exp, product, reverse, logG2, sqrtG2 used together", "include/g3func.hpp")],
 state=[("attitude", "the spinor accumulated by the caller", "caller")],
 observe=["value of reverse(R)*v*R and R*v*reverse(R)", "composed spinors"])

prop("C14", "Validity: an entity is valid iff all components are; invalid in, invalid out",
 "isValid is true exactly when every component of the entity (or array, or double) is zero or a normal finite number, for every type and component position, and null<T>() has every component invalid. A null argument (all components NaN), or one with any component NaN, to any arithmetic, algebra or function call, in any operand position whose value matters (the supplied plane of logG2/sqrtG2 matters only at a half turn), yields an invalid (not isValid) result, never a valid-looking one or an exception, and comparisons with it are false; every call on valid arguments of ordinary size yields finite components unless it is documented to be null.",
 ["inputs", "programs"], "all types x all subsets of component classes (NaN, infinite, subnormal, zero, normal) and all operations fed with null",
 "Tests check one null and one valid instance per type; a mask of component classes has up to 5^8 members for a multivector.",
 ["include/g3validity.hpp", "include/g3const.hpp", "include/g3func.hpp"],
 [("isValid overloads", "include/g3validity.hpp"), ("null<T>", "include/g3const.hpp"), ("NaN propagation through arithmetic", "include/g3ops*.hpp")],
 observe=["isValid", "components of results"])

prop("C15", "nearlyEquals compares relative to the reference, per grade, strictly",
 "For doubles nearlyEquals and nearlyEqualsRel are |test-ref| < tol*|ref| (absolute |test-ref| < tol when |ref| is below about 1e-292), nearlyEqualsAbs is |test-ref| < tol, and for bool it is equality; for blades and arrays it is rss(test-ref) < tol*rss(ref) (componentwise absolute difference < tol when the reference array is zero), and for composite types each grade must satisfy this separately; the default tol is machine epsilon. The comparison is strict, is false when either argument has an invalid component or tol is not positive, and outside rounding distance of the threshold the answer is exactly that of the definition.",
 ["inputs"], "all types x all pairs of values x all tolerances",
 "The decision surface depends on which component or grade differs, by how much relative to which reference, and on zero/invalid components; tests take a few equal/unequal pairs.",
 ["include/g3compare.hpp", "include/g3validity.hpp"],
 [("nearlyEquals, nearlyEqualsAbs, nearlyEqualsRel overloads", "include/g3compare.hpp")],
 observe=["return value"])

prop("C16", "Exact equality compares every component",
 "operator== of two entities of the same type (scalar, vector, bivector, trivector, spinor, imspin, multivector) is true exactly when all corresponding components compare equal as doubles (so +0 equals -0 and NaN equals nothing). A difference of one unit in the last place in any single component, or a swap of components, makes it false.",
 ["inputs"], "all comparable types x all pairs of values",
 "Tests compare a few pairs; an omitted or cross wired component is visible only for pairs differing exactly there.",
 ["include/g3compare.hpp"],
 [("operator== overloads", "include/g3compare.hpp")],
 observe=["return value"])

prop("C17", "Stream extraction reads components in order and marks failures as null",
 "operator>> for an entity consumes exactly its number of whitespace separated numbers, in canonical component order, and stores the values a double extraction would give (numbers in the normal range), leaving the stream after the last one. When the text ends early or holds something that is not a number, the grade being read and every later grade of that entity are entirely NaN (so the entity is not valid), the grades read before it keep their values, and the stream is in a failed state; entities extracted from an already failed stream are entirely NaN.",
 ["inputs", "histories"], "all token sequences x all sequences of extracted types",
 "Tests extract complete well formed text and one failing vector; truncation and junk positions combine with the type sequence and the stream's state history.",
 ["include/g3io.hpp"],
 [("operator>> for arrays, blades and composites; NaN fill on failure", "include/g3io.hpp")],
 state=[("stream position", "next unread token", "std::istream"), ("stream state", "good/eof/fail", "std::istream")],
 observe=["extracted entity", "stream state and remaining text"])

prop("C18", "Text encodings are accurate, ordered, and leave streams' format alone",
 "fixed(x,before,after) and enote(x,digits) (for double, the blades, Spinor, ImSpin and MultiVector) and operator<< (for every entity, to a stream with no field width set) write all components of x, all finite, in canonical order as whitespace separated decimal numbers: fixed with exactly `after` decimals right aligned in a field of at least before+after+2 characters after one blank, operator<< the same with 3 and 6, enote in d.ddde+xx notation with `digits` decimals (default 15), each number being the component correctly rounded to the digits shown; reading default enote text back with operator>> gives the components to within 1e-15 relative. Writing an entity leaves the target stream's own format state (flags, precision, fill) unchanged and starts with no dependence on it.",
 ["inputs", "histories"], "all types x all finite values x digit settings x prior stream format states",
 "Tests print a few values and check few characters; rounding carries, negative and wide values, digit settings and prior stream state are combinations they never form.",
 ["include/g3io.hpp"],
 [("fixed, enote, operator<<, DoubleFormat", "include/g3io.hpp")],
 state=[("stream format", "flags, precision, width, fill of the caller's stream", "std::ostream")],
 observe=["returned strings", "stream contents and format state"])

prop("C19", "Construction, promotion, subscripts and conversions keep every component",
 "Building any entity from its components or constituent grades, promoting any entity to a multivector, converting to and from std::complex, selecting a grade member, copying, moving, assigning (also to itself) and swapping, and subscripting in canonical order (scalar; e1,e2,e3; e23,e31,e12; e123) preserve each component bit for bit with all absent components zero; a subscript past the end of any type but the multivector reads as NaN, and writing through a multivector subscript changes exactly that component. zero<T>(), the basis constants e0,e1,e2,e3,e23,e31,e12,e123, the scalar-carrying one<T>() (and zero for vector, bivector), and the pi/turn constants have their defined values whatever has been executed before.",
 ["inputs", "programs"], "all types x all component values x all subscripts",
 "Tests touch one instance per constructor.",
 ["include/g3type.hpp", "include/g3const.hpp"],
 [("constructors and operator[]", "include/g3type.hpp"), ("zero, one, basis and turn constants", "include/g3const.hpp")],
 observe=["components of constructed entities", "constants"])

prop("C20", "Operation availability and result types follow the grade structure",
 "The product of any two of the ten types (double and nine entities; two doubles aside) and the reverse, oddverse, dirverse, dual, negation and norm functions are available for const and non-const, named and temporary operands alike, and each returns the smallest type carrying all grades the operation can produce (norms a double, amplitudes a ComPlex, exp of a bivector a Spinor); a sum or difference is available exactly when the union of the two entities' grades is the grade set of one of the nine types, which is its type; the type predicates is::X hold for exactly the named types. The library can be included in any number of translation units of one program, and each of its documented headers can be included on its own. The numeric constants, and null, zero and one of the types without constructors of their own, can be used in constant expressions.",
 ["programs", "configurations"], "all expressions over the ten types; all programs of one or more translation units",
 "Tests instantiate operations one by one with expected types spelled out or converted implicitly; a missing, ambiguous or widened overload elsewhere is not noticed.",
 ["include/g3ops*.hpp", "include/g3traits.hpp", "include/g3func.hpp"],
 [("overload sets", "include/g3ops*.hpp"), ("traits", "include/g3traits.hpp")],
 observe=["well-formedness and type of expressions", "linking"])

prop("C21", "Every call is memory safe and defined, whatever its operands",
 "For operands of any bit pattern (zeros, subnormals, extremes, infinities, NaN), any subscript, any tolerance, any text read and any requested number of digits (that memory has room for), every call of the library's interface returns: none reads or writes outside the objects it is given, returns or branches on memory that was never written, overflows a signed integer, converts a value its target type cannot hold, throws, aborts or fails to terminate, and no result depends on where in memory the operands lie or on what that memory held before. Objects returned by value, including the strings of the text encoders, stay valid after every other object involved has gone.",
 ["inputs", "histories"], "all calls x all operand bit patterns, subscripts and texts x all memory layouts",
 "An unwritten component, a one-past-the-end subscript or a too small text buffer usually gives the expected value in the layout the tests happen to run in, and is on a path (null return, invalid operand, overlong number) they do not take.",
 ["include/g3type.hpp", "include/g3io.hpp", "include/g3compare.hpp", "include/g3func.hpp"],
 [("subscript operators with range guard", "include/g3type.hpp"), ("text encoders", "include/g3io.hpp"), ("null returns", "include/g3func.hpp")],
 state=[("written components", "which components of a result have been stored", "returned objects")],
 observe=["results under differing memory layouts", "sanitizer and memcheck reports", "normal termination"])

prop("C22", "A delivered package serves its consumers completely and identifies itself",
 "Configured with any supported compiler (gcc, clang) and build type, the library builds, and whether installed or packaged, moved to another place or not, and with or without its sources and build tree still present, a CMake project of another compiler or standard (C++17 or later) that finds it can include every documented header alone, link, run, and compute what the source tree computes. A version request is granted exactly when it is of the same major version and not newer, and the version found, the source tree's project version and projectVersion() agree; projectVersion() and sourceIdentity() give the version and the identity the library was built with whenever they are called, also before main and from several threads.",
 ["configurations", "histories"], "all build configurations x delivery histories x consumer configurations",
 "Unit tests run inside the build tree with the project's own compiler, flags and header directory, where a header missing from the package, a dependence on build flags or a reference to the source tree is invisible.",
 ["CMakeLists.txt", "src/CMakeLists.txt", "src/engabra.cpp", "include/CMakeLists.txt", "include/Engabra", "cmake/CMakeLists.txt", "cmake/xConfig.cmake.in", "cmake/func_setReleaseTag.cmake"],
 [("install lists and export set", "include/CMakeLists.txt, src/CMakeLists.txt, cmake/CMakeLists.txt"), ("projectVersion, sourceIdentity", "src/engabra.cpp")],
 state=[("delivered files", "headers, library and package configuration under the prefix", "install tree"), ("sources", "whether the source and build trees still exist", "file system")],
 observe=["consumer's configuration, compilation and run", "found version", "projectVersion(), sourceIdentity()"])

prop("C23", "Including the library leaves a program's own names and calls alone",
 "A program that includes any documented header, before or after its own declarations, may use any name it could use without it (all but `engabra`) for its own types, templates, functions, variables and namespaces at global scope or in its namespaces, and every unqualified use means its own thing. Operators and functions it defines for its own types (members, friends, free, on base classes, through conversions, templates), alone or mixed with doubles, streams and the library's entities, are the ones called, also under a using-directive for engabra or engabra::g3 (there, functions for exactly the argument's type); types without an operator acquire none, and nothing converts into an entity by itself. What the program declares before the library, using-directives included, changes nothing the library computes.",
 ["inputs", "configurations"], "all headers x inclusion points x directives x names x own types and operators",
 "Unit tests use the library and nothing else: a name that leaks from a header, an operator template that fits too much or a conversion that lost its explicit shows only in programs with names, types and overloads of their own.",
 ["include"],
 [("published operators", "include/g3publish.hpp"), ("stream operators at global scope", "include/g3io.hpp"), ("constraints of the operator templates", "include/g3traits.hpp, include/g3opsUni.hpp, include/g3opsAdd_same.hpp"), ("explicit constructors", "include/g3type.hpp")],
 state=[("declarations", "what the program and the library have declared in which scope", "translation unit"), ("inclusion point", "whether the library has been included", "translation unit")],
 observe=["meaning of each use (own, ambiguous, the library's, none)", "availability of operators and conversions", "results with declarations before the library"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
