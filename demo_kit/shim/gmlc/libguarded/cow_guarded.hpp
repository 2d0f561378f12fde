#pragma once
#include "handles.hpp"
namespace gmlc::libguarded {
template<typename T, typename M = std::mutex>
class cow_guarded {
    std::shared_ptr<const T> cur_;
    mutable M valueMutex_;
    M writeMutex_;

  public:
    class handle {
        cow_guarded* owner_{nullptr};
        std::unique_ptr<T> copy_;
        std::unique_lock<M> lock_;

      public:
        handle() = default;
        handle(cow_guarded* o, std::unique_ptr<T> c, std::unique_lock<M> l):
            owner_(o), copy_(std::move(c)), lock_(std::move(l))
        {
        }
        handle(handle&& o) noexcept = default;
        handle& operator=(handle&& o) noexcept = default;
        ~handle() { commit(); }
        void commit()
        {
            if (copy_) {
                std::shared_ptr<const T> n(copy_.release());
                {
                    std::lock_guard<M> l(owner_->valueMutex_);
                    owner_->cur_.swap(n);
                }
                lock_.unlock();
            }
        }
        void cancel()
        {
            if (copy_) {
                copy_.reset();
                lock_.unlock();
            }
        }
        T* operator->() const { return copy_.get(); }
        T& operator*() const { return *copy_; }
        explicit operator bool() const { return static_cast<bool>(copy_); }
    };
    using shared_handle = std::shared_ptr<const T>;
    template<typename... Us>
    explicit cow_guarded(Us&&... data): cur_(std::make_shared<T>(std::forward<Us>(data)...))
    {
    }
    handle lock()
    {
        std::unique_lock<M> l(writeMutex_);
        auto cp = std::make_unique<T>(*lock_shared());
        return handle(this, std::move(cp), std::move(l));
    }
    shared_handle lock_shared() const
    {
        std::lock_guard<M> l(valueMutex_);
        return cur_;
    }
};
}  // namespace gmlc::libguarded
