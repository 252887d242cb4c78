"""Programs for the cases of spec/NameCases.tla (C23): text only, no verdicts.  Each begins with the standard headers STD."""

import re

SYM = {"add": "+", "sub": "-", "mul": "*", "eq": "==", "put": "<<", "get": ">>"}
STD = "".join("#include <%s>\n" % h for h in
              "algorithm array cmath complex cstdlib functional iomanip iostream iterator limits map memory numeric ratio sstream string tuple type_traits utility vector math.h stdlib.h string.h".split())
E = "engabra::g3::"
# members like those of the library's types
MEMBERS = """#define LOOKALIKE std::array<double, 3> theData, theSca, theVec, theBiv, theTri; typedef double value_type; typedef double const * const_iterator; \\
	double operator[](std::size_t k) const; double & operator[](std::size_t k); double const * begin() const; double const * end() const; double const * data() const; std::size_t size() const;
"""


def include(header):
    return '#include "%s"\n' % header if header else ""


def scoped(scope, text):
    return text if scope == "global" else "namespace %s\n{\n%s}\n" % (scope, text)


# ------------------------------------------------------------------ names
def name_decl(word, kind, scope):
    arg = "OwnArgument"
    return scoped(scope, {
        "type": "struct %s { int mine; };\n",
        "template": "template <typename T> struct %s { T mine; };\n",
        "variable": "static int %s = 7;\n",
        "function": "inline int %%s(%s const & a) { return a.mine; }\n" % arg,
        "namespace": "namespace %s { struct Inner { int mine; }; }\n"}[kind] % word)


def name_use(word, kind, scope):
    """Uses in the scope itself and in a namespace inside it."""
    body = {
        "type": "%(w)s obj_%(w)s = {7}; static int const chk_%(w)s = obj_%(w)s.mine; inline int get_%(w)s(%(w)s const & x) { return x.mine; }\n",
        "template": "%(w)s<int> obj_%(w)s = {7}; inline int get_%(w)s(%(w)s<int> const & x) { return x.mine; }\n",
        "variable": "static int chk_%(w)s = %(w)s + 1; static int * ptr_%(w)s = &%(w)s;\n",
        "function": "static_assert(std::is_same<decltype(%(w)s(std::declval<OwnArgument const &>())), int>::value, \"\"); static int chk_%(w)s = %(w)s(OwnArgument{7});\n",
        "namespace": "%(w)s::Inner obj_%(w)s = {7}; inline int get_%(w)s(%(w)s::Inner const & x) { return x.mine; }\n"}[kind] % {"w": word}
    return scoped(scope, "namespace within_%s\n{\n%s}\n" % (scope, body))


def name_program(header, position, cases):
    """All the cases are of one kind."""
    decl = "struct OwnArgument { int mine; };\nnamespace mine { struct OwnArgument { int mine; }; }\n" + "".join(name_decl(*k[:3]) for k in cases)
    use = "".join(name_use(*k) for k in cases if len(k) == 3)      # further words are only declared
    parts = [include(header), decl] if position == "before" else [decl, include(header)]
    return "".join(parts) + use + "int main() { return 0; }\n"


# -------------------------------------------------------- calls of operators
def type_name(place, form):
    x = "%s_%s" % (form.capitalize(), place)
    return x + ("<int>" if form == "template" else "")


def full(place, form):
    return ("::" if place == "global" else "::mine::") + type_name(place, form)


def operator_decls(place, form, cases):
    """The type of a place and form with the operators of the cases."""
    name = "%s_%s" % (form.capitalize(), place)
    param = {"base": name + "Base", "number": name + "Base", "implicit": name + "Wide", "template": name + "<T>"}.get(form, name)
    head = "template <typename T> " if form == "template" else ""
    pre = {"friend": "friend ", "template": head}.get(form, "inline ")
    end = ";\n"
    ops = []
    seen = set()
    for op, _, _, partner, side, _, _ in cases:
        if (op, partner, side) in seen:
            continue
        seen.add((op, partner, side))
        own = param + " const &"
        if op == "neg":
            ops.append("Result operator-() const" if form == "member" else "%sResult operator-(%s)" % (pre, own))
            continue
        other = own if partner == "self" else "double const &" if partner == "double" else ("std::ostream &" if op == "put" else "std::istream &") if partner == "stream" else E + partner + " const &"
        if form == "member":
            ops.append("Result operator%s(%s) const" % (SYM[op], other))
        else:
            ops.append("%sResult operator%s(%s, %s)" % ((pre, SYM[op]) + ((own, other) if side == "left" else (other, own))))
    text = "".join("\t%s%s" % (o, end) for o in ops)
    if form in ("member", "friend"):
        return "struct %s\n{\n\tLOOKALIKE\n%s};\n" % (name, text)
    if form == "base":
        return "struct %sBase { LOOKALIKE };\n%sstruct %s : %sBase {};\n" % (name, text, name, name)
    if form == "number":
        return "struct %sBase { operator double() const; };\n%sstruct %s : %sBase {};\n" % (name, text, name, name)
    if form == "implicit":
        return "struct %sWide {};\n%sstruct %s { LOOKALIKE operator %sWide() const; };\n" % (name, text, name, name)
    if form == "template":
        return "%sstruct %s { LOOKALIKE };\n%s" % (head, name, text)
    return "struct %s { LOOKALIKE };\n%s" % (name, text)


def operator_use(k):
    op, place, form, partner, side, site, _ = k
    own = "std::declval<%s const &>()" % full(place, form)
    if op == "neg":
        ex = "- " + own
    else:
        other = (own if partner == "self" else "std::declval<double const &>()" if partner == "double"
                 else "std::declval<%s &>()" % ("std::ostream" if op == "put" else "std::istream") if partner == "stream" else "std::declval<%s%s const &>()" % (E, partner))
        ex = ("%s %s %s" % ((own, SYM[op], other) if side == "left" else (other, SYM[op], own)))
    return scoped("global" if site == "global" else site, "static_assert(std::is_same<decltype(%s), ::Result>::value, \"\");\n" % ex)


def directive_text(directive):
    return {"none": "", "engabra": "using namespace engabra;\n", "g3": "using namespace engabra::g3;\n"}[directive]


def operator_program(header, position, directive, cases):
    groups = {}
    for k in cases:
        groups.setdefault((k[1], k[2]), []).append(k)
    decl = MEMBERS + "struct Result { int mine; };\nnamespace mine {}\n"
    decl += "namespace other { struct Else {}; " + " ".join("Else operator%s(Else const &, Else const &);" % s for s in SYM.values()) + " Else operator-(Else const &); }\n"
    decl += "".join(scoped(p, operator_decls(p, f, ks)) for (p, f), ks in sorted(groups.items()))
    return assemble(header, position, directive, decl, "".join(operator_use(k) for k in cases))


def assemble(header, position, directive, decl, use):
    parts = [include(header), decl] if position == "before" else [decl, include(header)]
    return "".join(parts) + directive_text(directive if header else "none") + use + "int main() { return 0; }\n"


# -------------------------------------------------------- calls of functions
def function_program(header, position, directive, cases):
    decl = "struct Result { int mine; };\nnamespace other { struct Else {}; }\n"
    for place, form in sorted({(k[1], k[2]) for k in cases}):
        name = "%s_%s" % (form.capitalize(), place)
        param = {"base": name + "Base", "implicit": name + "Wide"}.get(form, name)
        text = "struct %s {};\n" % param if form != "free" else "struct %s {};\n" % name
        text += "".join("inline Result %s(%s const &);\n" % (f, param) for f in sorted({k[0] for k in cases if (k[1], k[2]) == (place, form)}))
        text += "" if form == "free" else "struct %s : %sBase {};\n" % (name, name) if form == "base" else "struct %s { operator %sWide() const; };\n" % (name, name)
        decl += scoped(place, text)
    use = "".join(scoped(site, "static_assert(std::is_same<decltype(%s(std::declval<%s const &>())), ::Result>::value, \"\");\n" % (f, full(place, form)))
                  for f, place, form, site in cases)
    return assemble(header, position, directive, decl, use)


# ------------------------------------------------- what must not be available
BARE = {"plain": "Plain", "minePlain": "mine::Plain", "twin": "Twin", "mineTwin": "mine::Twin", "array3": "std::array<double,3>", "array1": "std::array<double,1>", "vector": "std::vector<double>",
        "pair": "std::pair<double,double>", "pointer": "Plain *", "int": "int", "double": "double", "complex": "std::complex<double>"}


def spelled(t):
    return BARE.get(t) or E + t


def bare_program(header, position, directive, cases):
    use = "namespace detect\n{\n"
    for op, s in SYM.items():
        use += ("template <typename A, typename B, typename = void> struct %s : std::false_type {};\n"
                "template <typename A, typename B> struct %s<A, B, decltype((void)(std::declval<A const &>() %s std::declval<B const &>()))> : std::true_type {};\n" % (op, op, s))
    use += ("template <typename A, typename B, typename = void> struct neg : std::false_type {};\n"
            "template <typename A, typename B> struct neg<A, B, decltype((void)(- std::declval<A const &>()))> : std::true_type {};\n}\n")
    use += "".join("static_assert(%sdetect::%s<%s, %s >::value, \"\");\n" % ("" if natural else "! ", op, spelled(a), spelled(b)) for op, a, b, natural in cases)
    return assemble(header, position, directive, MEMBERS + "struct Plain {};\nstruct Twin { LOOKALIKE };\nnamespace mine { struct Plain {}; struct Twin { LOOKALIKE }; }\n", use)


def convert_program(header, position, directive, cases):
    use = "".join("static_assert(! std::is_convertible<%s, %s>::value, \"\");\n" % (spelled(a), spelled(b)) for a, b in cases)
    return assemble(header, position, directive, MEMBERS + "struct Plain {};\nstruct Twin { LOOKALIKE };\nnamespace mine { struct Twin { LOOKALIKE }; }\n", use)


PROGRAM = {"operator": operator_program, "function": function_program, "bare": bare_program, "convert": convert_program,
           "name": lambda header, position, directive, cases: name_program(header, position, cases)}


def prelude(words):
    """A header with things of the program's own under the given words, and a directive for std."""
    text = {"type": "struct %s { int mine; };\n", "anything": "template <typename... T> PreludeResult %s(T const & ...);\n",
            "variable": "static int %s = 77;\n", "namespace": "namespace %s { struct Inner {}; }\n"}
    return STD + "struct PreludeResult {};\n" + "".join(text[kind] % w for w, kind in words) + "using namespace std;\n"


def found_words(preprocessed, std_preprocessed, planned, sources, include):
    """Further words to try: the identifiers the library's own headers leave in a program and the macros they define
    (the output of -E -dD, with its line markers).

    Left out are those the standard library's headers mention themselves, keywords, include guards, and what begins
    with the project's name or has two underscores."""
    ident = re.compile(r"\b[A-Za-z_]\w*")

    def idents(text, only=None):
        out, here = set(), only is None
        for line in text.splitlines():
            marker = re.match(r'# \d+ "(.*?)"', line)
            if marker:
                here = only is None or marker.group(1).startswith(only)
            elif here and line.startswith(("#define ", "#undef ")):
                out.add(re.split(r"[ (]", line)[1])
            elif here and not line.startswith("#"):
                out.update(ident.findall(LITERAL.sub(" ", line)))
        return out
    words = idents(preprocessed, include) - idents(std_preprocessed) - set(planned) - KEYWORDS - set(GUARD.findall(sources))
    return sorted(w for w in words if re.fullmatch(r"[A-Za-z]\w*", w) and "__" not in w and not w.lower().startswith("engabra") and w != "std")


LITERAL = re.compile(r"""\"(\\.|[^"\\])*\"|'(\\.|[^'\\])*'|\b\d[\w.]*""")
GUARD = re.compile(r"#\s*ifndef\s+(\w+)\s*\n\s*#\s*define\s+\1\s*\n")
KEYWORDS = set("""alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr
constinit const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if
inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return short signed
sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile
wchar_t while xor xor_eq main""".split())
