#pragma once
#include "detail.hpp"
namespace gmlc::containers {
template<class VType, class K>
class MappedPointerVector {
    std::vector<std::unique_ptr<VType>> data_;
    shim::Index<K> idx_;

  public:
    template<typename... Us>
    std::optional<size_t> insert(const K& k, Us&&... a)
    {
        if (idx_.find(k)) {
            return std::nullopt;
        }
        data_.push_back(make(std::forward<Us>(a)...));
        idx_.add(k, data_.size() - 1);
        return data_.size() - 1;
    }
    template<typename... Us>
    std::optional<size_t> insert(no_search_type, Us&&... a)
    {
        data_.push_back(make(std::forward<Us>(a)...));
        return data_.size() - 1;
    }
    bool addSearchTermForIndex(const K& k, size_t i) { return i < data_.size() && idx_.add(k, i); }
    VType* find(const K& k) const
    {
        auto f = idx_.find(k);
        return f ? data_[*f].get() : nullptr;
    }
    VType* operator[](size_t i) const { return i < data_.size() ? data_[i].get() : nullptr; }
    VType* back() { return data_.empty() ? nullptr : data_.back().get(); }
    size_t size() const { return data_.size(); }
    bool empty() const { return data_.empty(); }
    auto begin() const { return data_.begin(); }
    auto end() const { return data_.end(); }
    void removeIndex(size_t i)
    {
        if (i < data_.size()) {
            data_.erase(data_.begin() + static_cast<std::ptrdiff_t>(i));
            idx_.removed(i);
        }
    }
    void remove(const K& k)
    {
        if (auto f = idx_.find(k)) {
            removeIndex(*f);
        }
    }
    void clear()
    {
        data_.clear();
        idx_.m.clear();
    }
    template<class F>
    void apply(F f)
    {
        for (auto& d : data_) {
            f(d.get());
        }
    }

  private:
    static std::unique_ptr<VType> make(std::unique_ptr<VType>&& p) { return std::move(p); }
    template<typename... Us>
    static std::unique_ptr<VType> make(Us&&... a)
    {
        return std::make_unique<VType>(std::forward<Us>(a)...);
    }
};
}  // namespace gmlc::containers
