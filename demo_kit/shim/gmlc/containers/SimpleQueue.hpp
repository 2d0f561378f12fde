#pragma once
#include <deque>
#include <mutex>
#include <optional>
#include <utility>
namespace gmlc::containers {
template<class X, class MUTEX = std::mutex>
class SimpleQueue {
    mutable MUTEX m_;
    std::deque<X> q_;

  public:
    SimpleQueue() = default;
    SimpleQueue(SimpleQueue&& o) noexcept: q_(std::move(o.q_)) {}
    SimpleQueue& operator=(SimpleQueue&& o) noexcept
    {
        std::lock_guard<MUTEX> l(m_);
        q_ = std::move(o.q_);
        return *this;
    }
    bool empty() const
    {
        std::lock_guard<MUTEX> l(m_);
        return q_.empty();
    }
    size_t size() const
    {
        std::lock_guard<MUTEX> l(m_);
        return q_.size();
    }
    void clear()
    {
        std::lock_guard<MUTEX> l(m_);
        q_.clear();
    }
    void reserve(size_t) {}
    template<class Z>
    void push(Z&& v)
    {
        std::lock_guard<MUTEX> l(m_);
        q_.push_back(std::forward<Z>(v));
    }
    template<class... Args>
    void emplace(Args&&... a)
    {
        std::lock_guard<MUTEX> l(m_);
        q_.emplace_back(std::forward<Args>(a)...);
    }
    std::optional<X> pop()
    {
        std::lock_guard<MUTEX> l(m_);
        if (q_.empty()) {
            return std::nullopt;
        }
        std::optional<X> v(std::move(q_.front()));
        q_.pop_front();
        return v;
    }
};
}  // namespace gmlc::containers
