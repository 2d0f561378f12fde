#pragma once
#include <algorithm>
#include <chrono>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>
namespace gmlc::concurrency {
template<class X>
class DelayedDestructor {
    std::mutex m_;
    std::vector<std::shared_ptr<X>> elems_;
    std::function<void(std::shared_ptr<X>&)> before_;

  public:
    DelayedDestructor() = default;
    explicit DelayedDestructor(std::function<void(std::shared_ptr<X>&)> before): before_(std::move(before)) {}
    ~DelayedDestructor()
    {
        for (int i = 0; i < 7; ++i) {
            if (destroyObjects() == 0) {
                break;
            }
            std::this_thread::sleep_for(std::chrono::milliseconds(100));
        }
    }
    void addObjectsToBeDestroyed(std::shared_ptr<X> obj)
    {
        std::lock_guard<std::mutex> l(m_);
        elems_.push_back(std::move(obj));
    }
    size_t destroyObjects()
    {
        std::unique_lock<std::mutex> l(m_);
        if (!elems_.empty()) {
            std::vector<std::shared_ptr<X>> call;
            for (auto& e : elems_) {
                if (e.use_count() == 1) {
                    call.push_back(e);
                }
            }
            if (!call.empty()) {
                auto loc = std::remove_if(elems_.begin(), elems_.end(), [&call](const auto& e) {
                    return std::find(call.begin(), call.end(), e) != call.end();
                });
                elems_.erase(loc, elems_.end());
                auto f = before_;
                l.unlock();
                if (f) {
                    for (auto& e : call) {
                        f(e);
                    }
                }
                call.clear();
                l.lock();
            }
        }
        return elems_.size();
    }
    size_t destroyObjects(std::chrono::milliseconds delay)
    {
        const auto step = (delay < std::chrono::milliseconds(100)) ? delay : std::chrono::milliseconds(50);
        const int n = (delay < std::chrono::milliseconds(100)) ? 1 : static_cast<int>(delay.count() / 50);
        int cnt = 0;
        std::unique_lock<std::mutex> l(m_);
        while (!elems_.empty() && cnt < n) {
            if (cnt > 0) {
                l.unlock();
                std::this_thread::sleep_for(step);
                l.lock();
            }
            ++cnt;
            if (!elems_.empty()) {
                l.unlock();
                destroyObjects();
                l.lock();
            }
        }
        return elems_.size();
    }
};
}  // namespace gmlc::concurrency
