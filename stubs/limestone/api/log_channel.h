#pragma once
#include <cstddef>
#include <string_view>
#include <vector>
#include "storage_id_type.h"
#include "write_version_type.h"
namespace limestone::api {
class datastore;
class log_channel {
public:
    void begin_session();
    void end_session();
    void add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv);
    void add_entry(storage_id_type st, std::string_view key, std::string_view val, write_version_type wv,
                   const std::vector<blob_id_type>& blobs);
    void remove_entry(storage_id_type st, std::string_view key, write_version_type wv);
    void add_storage(storage_id_type st, write_version_type wv);
    void remove_storage(storage_id_type st, write_version_type wv);
    bool open_{false};
    epoch_t ep_{0};
};
} // namespace limestone::api
