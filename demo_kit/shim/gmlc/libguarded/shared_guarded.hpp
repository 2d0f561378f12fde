#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::shared_timed_mutex>
class shared_guarded {
    T obj_;
    mutable M mutex_;

  public:
    using handle = lock_handle<T, M>;
    using shared_handle = shared_lock_handle<T, M>;
    template<typename... Us>
    explicit shared_guarded(Us&&... data): obj_(std::forward<Us>(data)...)
    {
    }
    shared_handle lock() const { return lock_shared(); }
    handle lock() { return handle(&obj_, std::unique_lock<M>(mutex_)); }
    handle try_lock()
    {
        std::unique_lock<M> l(mutex_, std::try_to_lock);
        return l.owns_lock() ? handle(&obj_, std::move(l)) : handle();
    }
    shared_handle lock_shared() const
    {
        return shared_handle(&obj_, typename shared_lock_for<M>::type(mutex_));
    }
    T load() const
    {
        typename shared_lock_for<M>::type l(mutex_);
        return obj_;
    }
    template<typename U>
    void store(U&& v)
    {
        std::lock_guard<M> l(mutex_);
        obj_ = std::forward<U>(v);
    }
    template<typename U>
    void operator=(U&& v)
    {
        store(std::forward<U>(v));
    }
};
}  // namespace gmlc::libguarded
