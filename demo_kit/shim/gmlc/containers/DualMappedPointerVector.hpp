#pragma once
#include "detail.hpp"
namespace gmlc::containers {
template<class VType, class K1, class K2>
class DualMappedPointerVector {
    std::vector<std::unique_ptr<VType>> data_;
    shim::Index<K1> i1_;
    shim::Index<K2> i2_;
    using Q1 = std::conditional_t<std::is_same_v<K1, std::string>, std::string_view, const K1&>;

  public:
    template<typename... Us>
    std::optional<size_t> insert(Q1 s1, const K2& s2, Us&&... a)
    {
        if (i1_.find(s1) && i2_.find(s2)) {  // as upstream: only a duplicate of both is refused
            return std::nullopt;
        }
        data_.push_back(std::make_unique<VType>(std::forward<Us>(a)...));
        i1_.add(s1, data_.size() - 1);
        i2_.add(s2, data_.size() - 1);
        return data_.size() - 1;
    }
    template<typename... Us>
    std::optional<size_t> insert(no_search_type, const K2& s2, Us&&... a)
    {
        if (i2_.find(s2)) {
            return std::nullopt;
        }
        data_.push_back(std::make_unique<VType>(std::forward<Us>(a)...));
        i2_.add(s2, data_.size() - 1);
        return data_.size() - 1;
    }
    VType* find(Q1 s) const
    {
        auto f = i1_.find(s);
        return f ? data_[*f].get() : nullptr;
    }
    VType* find(const K2& s) const
    {
        auto f = i2_.find(s);
        return f ? data_[*f].get() : nullptr;
    }
    VType* operator[](size_t i) const { return i < data_.size() ? data_[i].get() : nullptr; }
    VType* back() { return data_.empty() ? nullptr : data_.back().get(); }
    size_t size() const { return data_.size(); }
    bool empty() const { return data_.empty(); }
    auto begin() const { return data_.begin(); }
    auto end() const { return data_.end(); }
    void clear()
    {
        data_.clear();
        i1_.m.clear();
        i2_.m.clear();
    }
    template<class F>
    void apply(F f)
    {
        for (auto& d : data_) {
            f(d.get());
        }
    }
};
}  // namespace gmlc::containers
