// Stand-in for gmlc/containers BlockingPriorityQueue (submodule not present): two FIFOs.
#pragma once
#include <chrono>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
#include <utility>
namespace gmlc::containers {
template<typename T, class MUTEX = std::mutex, class COND = std::condition_variable>
class BlockingPriorityQueue {
    mutable MUTEX m_;
    COND cv_;
    std::deque<T> q_;
    std::deque<T> pri_;
    T take()
    {
        auto& src = pri_.empty() ? q_ : pri_;
        T v(std::move(src.front()));
        src.pop_front();
        return v;
    }
    bool any() const { return !q_.empty() || !pri_.empty(); }

  public:
    BlockingPriorityQueue() = default;
    BlockingPriorityQueue(const BlockingPriorityQueue&) = delete;
    BlockingPriorityQueue& operator=(const BlockingPriorityQueue&) = delete;
    void clear()
    {
        std::lock_guard<MUTEX> l(m_);
        q_.clear();
        pri_.clear();
    }
    void reserve(size_t) {}
    template<class Z>
    void push(Z&& v)
    {
        std::unique_lock<MUTEX> l(m_);
        q_.push_back(std::forward<Z>(v));
        l.unlock();
        cv_.notify_one();
    }
    template<class Z>
    void pushPriority(Z&& v)
    {
        std::unique_lock<MUTEX> l(m_);
        pri_.push_back(std::forward<Z>(v));
        l.unlock();
        cv_.notify_one();
    }
    template<class... Args>
    void emplace(Args&&... a)
    {
        std::unique_lock<MUTEX> l(m_);
        q_.emplace_back(std::forward<Args>(a)...);
        l.unlock();
        cv_.notify_one();
    }
    template<class... Args>
    void emplacePriority(Args&&... a)
    {
        std::unique_lock<MUTEX> l(m_);
        pri_.emplace_back(std::forward<Args>(a)...);
        l.unlock();
        cv_.notify_one();
    }
    std::optional<T> try_pop()
    {
        std::lock_guard<MUTEX> l(m_);
        if (!any()) {
            return std::nullopt;
        }
        return take();
    }
    T pop()
    {
        std::unique_lock<MUTEX> l(m_);
        cv_.wait(l, [this] { return any(); });
        return take();
    }
    template<typename TIME>
    std::optional<T> pop(TIME timeout)
    {
        std::unique_lock<MUTEX> l(m_);
        if (!cv_.wait_for(l, timeout, [this] { return any(); })) {
            return std::nullopt;
        }
        return take();
    }
    bool empty() const
    {
        std::lock_guard<MUTEX> l(m_);
        return !any();
    }
};
}  // namespace gmlc::containers
