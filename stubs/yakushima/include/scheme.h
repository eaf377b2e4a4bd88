#pragma once
#include <cstddef>
#include <cstdint>
#include <iostream>
#include <ostream>
namespace yakushima {
using Token = void*;
enum class status : std::int32_t {
    WARN_BAD_USAGE, WARN_CONCURRENT_OPERATIONS, WARN_ABORTED_BY_USER, WARN_EXIST,
    WARN_INVALID_TOKEN, WARN_MAX_SESSIONS, WARN_NOT_EXIST, WARN_STORAGE_NOT_EXIST,
    WARN_UNIQUE_RESTRICTION, OK, OK_DESTROY_ALL, OK_NOT_FOUND, OK_RETRY_FROM_ROOT,
    OK_RETRY_AFTER_FB, OK_RETRY_FETCH_LV, OK_ROOT_IS_DELETED, OK_ROOT_IS_NULL,
    OK_SCAN_CONTINUE, OK_SCAN_END, ERR_BAD_USAGE, ERR_BOUNDARY, ERR_FATAL,
};
inline std::ostream& operator<<(std::ostream& o, status s) { return o << static_cast<int>(s); }
enum class scan_endpoint : char { EXCLUSIVE, INCLUSIVE, INF };
enum class value_align_type : std::size_t {};
} // namespace yakushima
