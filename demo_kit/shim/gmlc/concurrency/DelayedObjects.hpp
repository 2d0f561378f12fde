#pragma once
#include <future>
#include <map>
#include <mutex>
#include <string>
#include <utility>
namespace gmlc::concurrency {
template<class X>
class DelayedObjects {
    std::map<int, std::promise<X>> open_;
    std::map<int, std::promise<X>> used_;
    mutable std::mutex m_;

  public:
    DelayedObjects() = default;
    ~DelayedObjects()
    {
        for (auto& o : open_) {
            o.second.set_value(X{});
        }
    }
    template<class Z>
    void setDelayedValue(int index, Z&& v)
    {
        std::lock_guard<std::mutex> l(m_);
        auto f = open_.find(index);
        if (f != open_.end()) {
            f->second.set_value(X(std::forward<Z>(v)));
            used_[index] = std::move(f->second);
            open_.erase(f);
        }
    }
    bool isRecognized(int index) const
    {
        std::lock_guard<std::mutex> l(m_);
        return open_.find(index) != open_.end() || used_.find(index) != used_.end();
    }
    bool isCompleted(int index) const
    {
        std::lock_guard<std::mutex> l(m_);
        return used_.find(index) != used_.end();
    }
    void fulfillAllPromises(const X& v)
    {
        std::lock_guard<std::mutex> l(m_);
        for (auto& o : open_) {
            o.second.set_value(v);
            used_[o.first] = std::move(o.second);
        }
        open_.clear();
    }
    std::future<X> getFuture(int index)
    {
        std::promise<X> p;
        auto f = p.get_future();
        std::lock_guard<std::mutex> l(m_);
        open_[index] = std::move(p);
        return f;
    }
    void finishedWithValue(int index)
    {
        std::lock_guard<std::mutex> l(m_);
        used_.erase(index);
    }
};
}  // namespace gmlc::concurrency
