#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class atomic_guarded {
    T obj_;
    mutable M mutex_;

  public:
    template<typename... Us>
    explicit atomic_guarded(Us&&... data): obj_(std::forward<Us>(data)...)
    {
    }
    T load() const
    {
        std::lock_guard<M> l(mutex_);
        return obj_;
    }
    operator T() const { return load(); }
    template<typename U>
    void store(U&& v)
    {
        std::lock_guard<M> l(mutex_);
        obj_ = std::forward<U>(v);
    }
    template<typename U>
    void operator=(U&& v)
    {
        store(std::forward<U>(v));
    }
    template<typename U>
    T exchange(U&& v)
    {
        std::lock_guard<M> l(mutex_);
        T old = std::move(obj_);
        obj_ = std::forward<U>(v);
        return old;
    }
};
}  // namespace gmlc::libguarded
