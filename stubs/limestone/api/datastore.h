// Stand-in for the limestone log library (absent here): an in-memory log that
// survives datastore objects, so that a harness can crash and recover.
#pragma once
#include <functional>
#include <memory>
#include <string>
#include "log_channel.h"
#include "snapshot.h"
#include "storage_id_type.h"
#include "write_version_type.h"
namespace limestone::api {
class configuration {
public:
    void set_data_location(const std::string& s) { loc_ = s; }
    void set_recover_max_parallelism(int n) { para_ = n; }
    std::string loc_;
    int para_{0};
};
struct sxl_future { void wait() {} };
class datastore {
public:
    explicit datastore(const configuration&);
    ~datastore();
    log_channel& create_channel();
    std::unique_ptr<snapshot> get_snapshot() const;
    void ready();
    void recover();
    void switch_epoch(epoch_t ep);
    void switch_available_boundary_version(write_version_type v);
    void add_persistent_callback(std::function<void(epoch_t)> cb);
    void remove_persistent_callback();
    epoch_t last_epoch() const;
    sxl_future shutdown();
};
} // namespace limestone::api
