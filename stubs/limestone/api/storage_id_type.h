#pragma once
#include <cstdint>
namespace limestone::api {
using storage_id_type = std::uint64_t;
using blob_id_type = std::uint64_t;
using epoch_t = std::uint64_t;
using epoch_id_type = std::uint64_t;
} // namespace limestone::api
