#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::shared_timed_mutex>
class shared_guarded_opt {
    T obj_;
    mutable M mutex_;
    bool enabled_;

  public:
    using handle = lock_handle<T, M>;
    using shared_handle = shared_lock_handle<T, M>;
    template<typename... Us>
    explicit shared_guarded_opt(bool enableLocking, Us&&... data):
        obj_(std::forward<Us>(data)...), enabled_(enableLocking)
    {
    }
    shared_handle lock() const { return lock_shared(); }
    handle lock()
    {
        return handle(&obj_, enabled_ ? std::unique_lock<M>(mutex_) : std::unique_lock<M>());
    }
    shared_handle lock_shared() const
    {
        using L = typename shared_lock_for<M>::type;
        return shared_handle(&obj_, enabled_ ? L(mutex_) : L());
    }
};
}  // namespace gmlc::libguarded
