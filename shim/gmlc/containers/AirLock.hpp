#pragma once
#include <condition_variable>
#include <mutex>
#include <optional>
#include <utility>
namespace gmlc::containers {
template<class T, class MUTEX = std::mutex, class COND = std::condition_variable>
class AirLock {
    bool loaded_{false};
    mutable MUTEX m_;
    T data_;
    COND cv_;

  public:
    AirLock() = default;
    template<class Z>
    bool try_load(Z&& v)
    {
        std::lock_guard<MUTEX> l(m_);
        if (loaded_) {
            return false;
        }
        data_ = std::forward<Z>(v);
        loaded_ = true;
        return true;
    }
    template<class Z>
    void load(Z&& v)
    {
        std::unique_lock<MUTEX> l(m_);
        cv_.wait(l, [this] { return !loaded_; });
        data_ = std::forward<Z>(v);
        loaded_ = true;
    }
    std::optional<T> try_unload()
    {
        std::unique_lock<MUTEX> l(m_);
        if (!loaded_) {
            return std::nullopt;
        }
        std::optional<T> v(std::move(data_));
        loaded_ = false;
        l.unlock();
        cv_.notify_one();
        return v;
    }
    bool isLoaded() const
    {
        std::lock_guard<MUTEX> l(m_);
        return loaded_;
    }
};
}  // namespace gmlc::containers
