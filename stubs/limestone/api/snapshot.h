#pragma once
#include <cstddef>
#include <memory>
#include <string>
#include <vector>
#include "storage_id_type.h"
#include "write_version_type.h"
namespace limestone::api {
struct sxl_row { storage_id_type st; std::string key; std::string val; };
class cursor {
public:
    cursor() = default;
    ~cursor();
    bool next() { return ++pos_ <= rows_.size(); }
    storage_id_type storage() const { return rows_[pos_ - 1].st; }
    void key(std::string& o) const { o = rows_[pos_ - 1].key; }
    void value(std::string& o) const { o = rows_[pos_ - 1].val; }
    std::vector<sxl_row> rows_;
    std::size_t pos_{0};
    std::size_t* left_{nullptr};
};
class snapshot {
public:
    std::unique_ptr<cursor> get_cursor() const;
    std::vector<std::unique_ptr<cursor>> get_partitioned_cursors(std::size_t n) const;
};
} // namespace limestone::api
