// Stand-in for the yakushima index (absent here). It has the operations shirakami
// calls and their contract: an ordered map per storage, kept in a linked list of
// border nodes holding up to SX_LEAF keys, each with a version that counts inserts/deletes
// and splits. Every operation runs without a preemption inside (the real index is
// linearizable). No retry paths: WARN_CONCURRENT_OPERATIONS is never returned.
#pragma once
#include <functional>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <vector>
#include "scheme.h"
#include "version.h"

#ifndef SX_LEAF
#define SX_LEAF 15
#endif

namespace yakushima {

struct sxi_node;
struct tree_instance { sxi_node* head_{nullptr}; };

struct inserted_node_info {
    node_version64* modified_nvp{nullptr};
    node_version64* created_nvp{nullptr};
};

struct storage {
    void store_root_ptr(void*);
    static storage* get_storages();
};

struct iscan_context;

extern "C" {
int sxi_find_storage(const char*, std::size_t);
int sxi_put(const char*, std::size_t, const char*, std::size_t, void*, bool, node_version64**, node_version64**);
int sxi_get(const char*, std::size_t, const char*, std::size_t, void**, node_version64**, node_version64_body*);
int sxi_remove(const char*, std::size_t, const char*, std::size_t);
}
void sxi_scan(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
              scan_endpoint re, std::size_t max, bool rev, int& rc,
              const std::function<void(const std::string&, void*)>& f,
              std::vector<std::pair<node_version64_body, node_version64*>>* nvec);

void init();
void fin();
status enter(Token& t);
status leave(Token t);
status create_storage(std::string_view name);
status delete_storage(std::string_view name);
status find_storage(std::string_view name);
status list_storages(std::vector<std::pair<std::string, tree_instance*>>& out);

template<class T>
status get(std::string_view st, std::string_view key, std::pair<T*, std::size_t>& out,
           std::pair<node_version64_body, node_version64*>* cv = nullptr) {
    void* v{};
    node_version64* nvp{};
    node_version64_body nvb{};
    auto rc = static_cast<status>(sxi_get(st.data(), st.size(), key.data(), key.size(), &v, &nvp, &nvb));
    if (cv != nullptr) { *cv = {nvb, nvp}; }
    if (rc == status::OK) { out = {reinterpret_cast<T*>(v), sizeof(void*)}; } // inlined value
    return rc;
}

template<class T>
status put(Token, std::string_view st, std::string_view key, T* value, std::size_t = sizeof(T),
           T** = nullptr, value_align_type = static_cast<value_align_type>(alignof(T)),
           bool unique = false, inserted_node_info* ii = nullptr) {
    node_version64* m{};
    node_version64* c{};
    auto rc = static_cast<status>(sxi_put(st.data(), st.size(), key.data(), key.size(),
                                          reinterpret_cast<void*>(*value), unique, &m, &c));
    if (ii != nullptr) { ii->modified_nvp = m; ii->created_nvp = c; }
    return rc;
}

inline status remove(Token, std::string_view st, std::string_view key) {
    return static_cast<status>(sxi_remove(st.data(), st.size(), key.data(), key.size()));
}

template<class T>
status scan(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
            scan_endpoint re, std::vector<std::tuple<std::string, T*, std::size_t>>& out,
            std::vector<std::pair<node_version64_body, node_version64*>>* nvec = nullptr,
            std::size_t max = 0, bool rev = false) {
    int rc{};
    out.clear();
    if (nvec != nullptr) { nvec->clear(); }
    if (rev && (max != 1 || re != scan_endpoint::INF)) { return status::ERR_BAD_USAGE; }
    sxi_scan(st, l, le, r, re, max, rev, rc,
             [&out](const std::string& k, void* v) {
                 out.emplace_back(k, reinterpret_cast<T*>(v), sizeof(void*));
             }, nvec);
    return static_cast<status>(rc);
}

using iscan_cb = std::function<bool(node_version64*, node_version64_body)>;
status iscan_open(std::string_view st, std::string_view l, scan_endpoint le, std::string_view r,
                  scan_endpoint re, bool rev, bool early_abort, iscan_context*& ctx, void*& value,
                  const iscan_cb& cb = nullptr);
status iscan_next(iscan_context* ctx, void*& value, const iscan_cb& cb = nullptr);
void iscan_close(iscan_context* ctx);

} // namespace yakushima
