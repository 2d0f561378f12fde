#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::shared_timed_mutex>
class ordered_guarded {
    T obj_;
    mutable M mutex_;

  public:
    using shared_handle = shared_lock_handle<T, M>;
    template<typename... Us>
    explicit ordered_guarded(Us&&... data): obj_(std::forward<Us>(data)...)
    {
    }
    template<typename Func>
    decltype(auto) modify(Func&& func)
    {
        std::lock_guard<M> l(mutex_);
        return func(obj_);
    }
    template<typename Func>
    decltype(auto) read(Func&& func) const
    {
        typename shared_lock_for<M>::type l(mutex_);
        return func(static_cast<const T&>(obj_));
    }
    shared_handle lock_shared() const
    {
        return shared_handle(&obj_, typename shared_lock_for<M>::type(mutex_));
    }
    T load() const
    {
        typename shared_lock_for<M>::type l(mutex_);
        return obj_;
    }
    template<typename U>
    void store(U&& v)
    {
        std::lock_guard<M> l(mutex_);
        obj_ = std::forward<U>(v);
    }
};
}  // namespace gmlc::libguarded
