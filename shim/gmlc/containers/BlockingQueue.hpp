// Stand-in for gmlc/containers BlockingQueue (submodule not present): unbounded FIFO.
#pragma once
#include <chrono>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <optional>
#include <utility>
namespace gmlc::containers {
template<typename T, class MUTEX = std::mutex, class COND = std::condition_variable>
class BlockingQueue {
    mutable MUTEX m_;
    COND cv_;
    std::deque<T> q_;

  public:
    BlockingQueue() = default;
    BlockingQueue(const BlockingQueue&) = delete;
    BlockingQueue& operator=(const BlockingQueue&) = delete;
    void clear()
    {
        std::lock_guard<MUTEX> l(m_);
        q_.clear();
    }
    void reserve(size_t) {}
    template<class Z>
    void push(Z&& v)
    {
        std::unique_lock<MUTEX> l(m_);
        q_.push_back(std::forward<Z>(v));
        l.unlock();
        cv_.notify_one();
    }
    template<class... Args>
    void emplace(Args&&... a)
    {
        std::unique_lock<MUTEX> l(m_);
        q_.emplace_back(std::forward<Args>(a)...);
        l.unlock();
        cv_.notify_one();
    }
    template<class Z>
    void pushPriority(Z&& v)
    {
        std::unique_lock<MUTEX> l(m_);
        q_.push_front(std::forward<Z>(v));
        l.unlock();
        cv_.notify_one();
    }
    std::optional<T> try_pop()
    {
        std::lock_guard<MUTEX> l(m_);
        if (q_.empty()) {
            return std::nullopt;
        }
        std::optional<T> v(std::move(q_.front()));
        q_.pop_front();
        return v;
    }
    T pop()
    {
        std::unique_lock<MUTEX> l(m_);
        cv_.wait(l, [this] { return !q_.empty(); });
        T v(std::move(q_.front()));
        q_.pop_front();
        return v;
    }
    template<typename TIME>
    std::optional<T> pop(TIME timeout)
    {
        std::unique_lock<MUTEX> l(m_);
        if (!cv_.wait_for(l, timeout, [this] { return !q_.empty(); })) {
            return std::nullopt;
        }
        std::optional<T> v(std::move(q_.front()));
        q_.pop_front();
        return v;
    }
    size_t size() const
    {
        std::lock_guard<MUTEX> l(m_);
        return q_.size();
    }
    bool empty() const
    {
        std::lock_guard<MUTEX> l(m_);
        return q_.empty();
    }
};
}  // namespace gmlc::containers
