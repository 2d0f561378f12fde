#pragma once
#include "TripWire.hpp"
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
namespace gmlc::concurrency {
template<class X, class Y = int>
class SearchableObjectHolder {
    std::mutex m_;
    std::map<std::string, std::shared_ptr<X>> objs_;
    std::map<std::string, std::vector<Y>> types_;

  public:
    bool addObject(const std::string& name, std::shared_ptr<X> obj, Y type)
    {
        std::lock_guard<std::mutex> l(m_);
        auto r = objs_.emplace(name, std::move(obj));
        if (r.second) {
            types_[name].push_back(type);
        }
        return r.second;
    }
    void addType(const std::string& name, Y type)
    {
        std::lock_guard<std::mutex> l(m_);
        types_[name].push_back(type);
    }
    bool empty()
    {
        std::lock_guard<std::mutex> l(m_);
        return objs_.empty();
    }
    std::vector<std::shared_ptr<X>> getObjects()
    {
        std::vector<std::shared_ptr<X>> out;
        std::lock_guard<std::mutex> l(m_);
        for (auto& o : objs_) {
            out.push_back(o.second);
        }
        return out;
    }
    bool removeObject(const std::string& name)
    {
        std::shared_ptr<X> hold;
        std::lock_guard<std::mutex> l(m_);
        auto f = objs_.find(name);
        if (f == objs_.end()) {
            return false;
        }
        hold = std::move(f->second);
        objs_.erase(f);
        types_.erase(name);
        return true;
    }
    bool removeObject(std::function<bool(const std::shared_ptr<X>&)> pred)
    {
        std::lock_guard<std::mutex> l(m_);
        for (auto it = objs_.begin(); it != objs_.end(); ++it) {
            if (pred(it->second)) {
                types_.erase(it->first);
                objs_.erase(it);
                return true;
            }
        }
        return false;
    }
    bool copyObject(const std::string& from, const std::string& to)
    {
        std::lock_guard<std::mutex> l(m_);
        auto f = objs_.find(from);
        if (f == objs_.end()) {
            return false;
        }
        auto r = objs_.emplace(to, f->second);
        if (r.second) {
            auto t = types_.find(from);
            if (t != types_.end()) {
                auto v = t->second;
                types_[to] = v;
            }
        }
        return r.second;
    }
    std::shared_ptr<X> findObject(const std::string& name)
    {
        std::lock_guard<std::mutex> l(m_);
        auto f = objs_.find(name);
        return f == objs_.end() ? nullptr : f->second;
    }
    template<class F, std::enable_if_t<std::is_invocable_r_v<bool, F, const std::shared_ptr<X>&>, int> = 0>
    std::shared_ptr<X> findObject(F pred)
    {
        std::lock_guard<std::mutex> l(m_);
        for (auto& o : objs_) {
            if (pred(o.second)) {
                return o.second;
            }
        }
        return nullptr;
    }
    template<class F, std::enable_if_t<std::is_invocable_r_v<bool, F, const std::shared_ptr<X>&>, int> = 0>
    std::shared_ptr<X> findObject(F pred, Y type)
    {
        std::lock_guard<std::mutex> l(m_);
        for (auto& o : objs_) {
            if (pred(o.second)) {
                auto t = types_.find(o.first);
                if (t != types_.end() &&
                    std::find(t->second.begin(), t->second.end(), type) != t->second.end()) {
                    return o.second;
                }
            }
        }
        return nullptr;
    }
};
}  // namespace gmlc::concurrency
