#pragma once
#include <ostream>
#include <string>
namespace boost::filesystem {
struct path { path() = default; path(std::string s) : s_(std::move(s)) {} std::string s_; };
inline std::ostream& operator<<(std::ostream& o, const path& p) { return o << p.s_; }
} // namespace boost::filesystem
