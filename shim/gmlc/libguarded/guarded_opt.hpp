#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<class T, class M = std::mutex>
class guarded_opt {
    T obj_;
    mutable M mutex_;
    bool enabled_;

  public:
    using handle = lock_handle<T, M>;
    template<typename... Us>
    explicit guarded_opt(bool enableLocking, Us&&... data):
        obj_(std::forward<Us>(data)...), enabled_(enableLocking)
    {
    }
    handle lock()
    {
        return handle(&obj_, enabled_ ? std::unique_lock<M>(mutex_) : std::unique_lock<M>());
    }
    T load() const
    {
        std::unique_lock<M> l;
        if (enabled_) {
            l = std::unique_lock<M>(mutex_);
        }
        return obj_;
    }
    template<typename U>
    void store(U&& v)
    {
        std::unique_lock<M> l;
        if (enabled_) {
            l = std::unique_lock<M>(mutex_);
        }
        obj_ = std::forward<U>(v);
    }
    template<typename U>
    void operator=(U&& v)
    {
        store(std::forward<U>(v));
    }
};
}  // namespace gmlc::libguarded
