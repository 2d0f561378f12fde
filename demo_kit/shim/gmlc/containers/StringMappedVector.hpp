#pragma once
#include "detail.hpp"
namespace gmlc::containers {
template<class VType, reference_stability S = reference_stability::stable>
class StringMappedVector {
    std::deque<VType> data_;
    shim::Index<std::string> idx_;

  public:
    using iterator = typename std::deque<VType>::iterator;
    using const_iterator = typename std::deque<VType>::const_iterator;
    template<typename... Us>
    std::optional<size_t> insert(std::string_view name, Us&&... a)
    {
        if (idx_.find(name)) {
            return std::nullopt;
        }
        data_.emplace_back(std::forward<Us>(a)...);
        idx_.add(name, data_.size() - 1);
        return data_.size() - 1;
    }
    template<typename... Us>
    std::optional<size_t> insert(no_search_type, Us&&... a)
    {
        data_.emplace_back(std::forward<Us>(a)...);
        return data_.size() - 1;
    }
    bool addSearchTermForIndex(std::string_view name, size_t i)
    {
        return i < data_.size() && idx_.add(name, i);
    }
    bool addSearchTerm(std::string_view name, std::string_view existing)
    {
        auto f = idx_.find(existing);
        return f && idx_.add(name, *f);
    }
    iterator find(std::string_view name)
    {
        auto f = idx_.find(name);
        return f ? data_.begin() + static_cast<std::ptrdiff_t>(*f) : data_.end();
    }
    const_iterator find(std::string_view name) const
    {
        auto f = idx_.find(name);
        return f ? data_.begin() + static_cast<std::ptrdiff_t>(*f) : data_.end();
    }
    VType& operator[](size_t i) { return data_[i]; }
    const VType& operator[](size_t i) const { return data_[i]; }
    VType& back() { return data_.back(); }
    const VType& back() const { return data_.back(); }
    iterator begin() { return data_.begin(); }
    iterator end() { return data_.end(); }
    const_iterator begin() const { return data_.begin(); }
    const_iterator end() const { return data_.end(); }
    size_t size() const { return data_.size(); }
    bool empty() const { return data_.empty(); }
    void clear()
    {
        data_.clear();
        idx_.m.clear();
    }
    template<class F>
    void modify(F f)
    {
        std::for_each(data_.begin(), data_.end(), f);
    }
    template<class F>
    void apply(F f)
    {
        std::for_each(data_.begin(), data_.end(), f);
    }
};
}  // namespace gmlc::containers
