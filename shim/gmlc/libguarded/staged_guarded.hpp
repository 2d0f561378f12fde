#pragma once
#include "handles.hpp"
#include <atomic>
namespace gmlc::libguarded {
/** modification is protected by a mutex until transition() is called; afterwards reads need no lock */
template<typename T, typename M = std::shared_mutex>
class staged_guarded {
    T obj_;
    mutable M mutex_;
    std::atomic<bool> constant_{false};

  public:
    using handle = lock_handle<T, M>;
    using shared_handle = shared_lock_handle<T, M>;
    template<typename... Us>
    explicit staged_guarded(Us&&... data): obj_(std::forward<Us>(data)...)
    {
    }
    handle lock() { return handle(&obj_, std::unique_lock<M>(mutex_)); }
    shared_handle lock_shared() const
    {
        using L = typename shared_lock_for<M>::type;
        return shared_handle(&obj_, constant_.load() ? L() : L(mutex_));
    }
    void transition()
    {
        std::lock_guard<M> l(mutex_);
        constant_ = true;
    }
    bool isTransitioned() const { return constant_.load(); }
};
}  // namespace gmlc::libguarded
