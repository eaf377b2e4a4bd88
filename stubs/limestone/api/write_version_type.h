#pragma once
#include "storage_id_type.h"
namespace limestone::api {
class write_version_type {
public:
    write_version_type() = default;
    write_version_type(std::uint64_t major, std::uint64_t minor) : major_(major), minor_(minor) {}
    std::uint64_t get_major() const { return major_; }
    std::uint64_t get_minor() const { return minor_; }
    bool operator<(const write_version_type& o) const {
        return major_ != o.major_ ? major_ < o.major_ : minor_ < o.minor_;
    }
    bool operator==(const write_version_type& o) const { return major_ == o.major_ && minor_ == o.minor_; }
private:
    std::uint64_t major_{0};
    std::uint64_t minor_{0};
};
} // namespace limestone::api
