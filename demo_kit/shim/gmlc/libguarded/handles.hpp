// Stand-ins for gmlc/libguarded (submodule not present): mutex-protected values with RAII handles.
#pragma once
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <utility>
namespace gmlc::libguarded {
template<typename T, typename M>
class lock_handle {
    T* data_{nullptr};
    std::unique_lock<M> lock_;

  public:
    using pointer = T*;
    using element_type = T;
    lock_handle() = default;
    lock_handle(T* d, std::unique_lock<M> l): data_(d), lock_(std::move(l)) {}
    lock_handle(lock_handle&& o) noexcept: data_(o.data_), lock_(std::move(o.lock_))
    {
        o.data_ = nullptr;
    }
    lock_handle& operator=(lock_handle&& o) noexcept
    {
        unlock();
        data_ = o.data_;
        lock_ = std::move(o.lock_);
        o.data_ = nullptr;
        return *this;
    }
    explicit operator bool() const noexcept { return data_ != nullptr; }
    T* operator->() const noexcept { return data_; }
    T& operator*() const noexcept { return *data_; }
    T* get() const noexcept { return data_; }
    void unlock() noexcept
    {
        data_ = nullptr;
        if (lock_.owns_lock()) {
            lock_.unlock();
        }
    }
    auto begin() const { return data_->begin(); }
    auto end() const { return data_->end(); }
    bool operator==(std::nullptr_t) const { return data_ == nullptr; }
    bool operator!=(std::nullptr_t) const { return data_ != nullptr; }
};
template<typename T, typename M, typename L>
class shared_lock_handle_t {
    const T* data_{nullptr};
    L lock_;

  public:
    using element_type = const T;
    shared_lock_handle_t() = default;
    shared_lock_handle_t(const T* d, L l): data_(d), lock_(std::move(l)) {}
    shared_lock_handle_t(shared_lock_handle_t&& o) noexcept: data_(o.data_), lock_(std::move(o.lock_))
    {
        o.data_ = nullptr;
    }
    shared_lock_handle_t& operator=(shared_lock_handle_t&& o) noexcept
    {
        unlock();
        data_ = o.data_;
        lock_ = std::move(o.lock_);
        o.data_ = nullptr;
        return *this;
    }
    explicit operator bool() const noexcept { return data_ != nullptr; }
    const T* operator->() const noexcept { return data_; }
    const T& operator*() const noexcept { return *data_; }
    const T* get() const noexcept { return data_; }
    void unlock() noexcept
    {
        data_ = nullptr;
        if (lock_.owns_lock()) {
            lock_.unlock();
        }
    }
    auto begin() const { return data_->begin(); }
    auto end() const { return data_->end(); }
    bool operator==(std::nullptr_t) const { return data_ == nullptr; }
    bool operator!=(std::nullptr_t) const { return data_ != nullptr; }
};
template<typename M>
struct shared_lock_for {
    using type = std::shared_lock<M>;
};
template<>
struct shared_lock_for<std::mutex> {
    using type = std::unique_lock<std::mutex>;
};
template<>
struct shared_lock_for<std::timed_mutex> {
    using type = std::unique_lock<std::timed_mutex>;
};
template<typename T, typename M>
using shared_lock_handle = shared_lock_handle_t<T, M, typename shared_lock_for<M>::type>;
}  // namespace gmlc::libguarded
