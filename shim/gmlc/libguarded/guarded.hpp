#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<class T, class M = std::mutex>
class guarded {
    T obj_;
    mutable M mutex_;

  public:
    using handle = lock_handle<T, M>;
    template<typename... Us>
    explicit guarded(Us&&... data): obj_(std::forward<Us>(data)...)
    {
    }
    handle lock() { return handle(&obj_, std::unique_lock<M>(mutex_)); }
    handle try_lock()
    {
        std::unique_lock<M> l(mutex_, std::try_to_lock);
        return l.owns_lock() ? handle(&obj_, std::move(l)) : handle();
    }
    T load() const
    {
        std::lock_guard<M> l(mutex_);
        return obj_;
    }
    template<typename U>
    void store(U&& v)
    {
        std::lock_guard<M> l(mutex_);
        obj_ = std::forward<U>(v);
    }
    template<typename U>
    void operator=(U&& v)
    {
        store(std::forward<U>(v));
    }
};
}  // namespace gmlc::libguarded
