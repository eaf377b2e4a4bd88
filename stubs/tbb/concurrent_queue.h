#pragma once
#include <deque>
#include <mutex>
#include <type_traits>
extern "C" void sx_queue_event(int pop, const void* elem); // bookkeeping for the harness
namespace tbb {
template<class T> class concurrent_queue {
public:
    void clear() { std::lock_guard<std::mutex> lk{m_}; q_.clear(); }
    bool empty() const { std::lock_guard<std::mutex> lk{m_}; return q_.empty(); }
    void push(const T& e) { std::lock_guard<std::mutex> lk{m_}; q_.push_back(e); note(0, e); }
    std::size_t unsafe_size() const { return q_.size(); }
    bool try_pop(T& r) {
        std::lock_guard<std::mutex> lk{m_};
        if (q_.empty()) { return false; }
        r = q_.front();
        q_.pop_front();
        note(1, r);
        return true;
    }
private:
    static void note(int pop, const T& e) {
        if constexpr (std::is_pointer_v<T>) { sx_queue_event(pop, e); }
    }
    mutable std::mutex m_;
    std::deque<T> q_;
};
} // namespace tbb
