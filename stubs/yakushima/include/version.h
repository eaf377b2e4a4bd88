// Stand-in for the yakushima index (absent here): node versions.
#pragma once
#include <cstdint>
namespace yakushima {
class node_version64_body {
public:
    std::uint64_t get_vinsert_delete() const { return vid_; }
    std::uint64_t get_vsplit() const { return vsp_; }
    bool operator==(const node_version64_body& o) const { return vid_ == o.vid_ && vsp_ == o.vsp_; }
    bool operator!=(const node_version64_body& o) const { return !(*this == o); }
    std::uint32_t vid_{0};
    std::uint32_t vsp_{0};
};
// One 8-byte word, read and written as a whole: the stand-in's operations are
// atomic with respect to each other, as the contract of the real index demands.
class node_version64 {
public:
    node_version64_body get_stable_version() const {
        std::uint64_t w = __atomic_load_n(&w_, __ATOMIC_ACQUIRE);
        node_version64_body b;
        b.vid_ = static_cast<std::uint32_t>(w);
        b.vsp_ = static_cast<std::uint32_t>(w >> 32);
        return b;
    }
    node_version64_body get_body() const { return get_stable_version(); }
    void bump_insert_delete() { __atomic_store_n(&w_, (w_ & 0xffffffff00000000ULL) | static_cast<std::uint32_t>(w_ + 1), __ATOMIC_RELEASE); }
    void bump_split() { __atomic_store_n(&w_, w_ + (1ULL << 32), __ATOMIC_RELEASE); }
    void copy_from(const node_version64& o) { __atomic_store_n(&w_, o.w_, __ATOMIC_RELEASE); }
private:
    std::uint64_t w_{0};
};
} // namespace yakushima
