// A program of a project that consumes the package: asks for version and
// identity before main, in main, in another thread and in a second unit, and
// writes the answers.
//   pkg_main OUT
#include <Engabra>
#include <cstdio>
#include <string>
#include <thread>
#include <vector>

extern std::string const otherVersion, otherIdentity;
std::string laterVersion();
std::string laterIdentity();
namespace
{
std::string const earlyVersion = engabra::projectVersion(), earlyIdentity = engabra::sourceIdentity();
void list(std::FILE * f, char const * key, std::vector<std::string> const & xs)
{
	std::fprintf(f, "\"%s\":[", key);
	for (std::size_t i = 0; i < xs.size(); ++i)
	{
		std::fprintf(f, i ? ",\"" : "\"");
		for (unsigned char ch : xs[i])
			if (ch < 32 || ch > 126 || ch == '"' || ch == '\\') std::fprintf(f, "\\u%04x", (unsigned)ch); else std::fputc(ch, f);
		std::fputc('"', f);
	}
	std::fputc(']', f);
}
}

int main(int argc, char ** argv)
{
	if (argc < 2) return 2;
	using namespace engabra;
	std::string threadVersion, threadIdentity;
	std::thread t([&] { threadVersion = projectVersion(); threadIdentity = sourceIdentity(); });
	std::string const first = projectVersion(), firstIdentity = sourceIdentity();
	t.join();
	// the library does its work here too (with unqualified operators, as g3publish.hpp provides)
	g3::MultiVector const mv{ g3::e1 * (g3::e2 + g3::e3) + g3::exp(g3::turnQtr * g3::e12) };
	if (! (g3::isValid(mv) && mv.theBiv[2] > 1.5)) return 3;
	std::string kept = projectVersion();
	kept += "!";    // the caller's own
	std::FILE * f = std::fopen(argv[1], "w");
	if (! f) return 4;
	std::fputc('{', f);
	list(f, "versions", { earlyVersion, otherVersion, first, threadVersion, laterVersion(), projectVersion() });
	std::fputc(',', f);
	list(f, "identities", { earlyIdentity, otherIdentity, firstIdentity, threadIdentity, laterIdentity(), sourceIdentity() });
	std::fprintf(f, "}\n");
	std::fclose(f);
	return 0;
}
