#pragma once
#include <ostream>
namespace nlohmann {
struct json {
    json& operator[](const char*) { return *this; }
    template<class T> json& operator=(const T&) { return *this; }
};
inline std::ostream& operator<<(std::ostream& o, const json&) { return o; }
} // namespace nlohmann
