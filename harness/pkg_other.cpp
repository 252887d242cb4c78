// the second translation unit of pkg_main
#include <Engabra>
extern std::string const otherVersion, otherIdentity;
std::string laterVersion();
std::string laterIdentity();
std::string const otherVersion = engabra::projectVersion();
std::string const otherIdentity = engabra::sourceIdentity();
std::string laterVersion() { return engabra::projectVersion(); }
std::string laterIdentity() { return engabra::sourceIdentity(); }
