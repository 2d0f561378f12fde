#pragma once
#include "detail.hpp"
namespace gmlc::containers {
template<class VType, class K2, reference_stability S = reference_stability::stable>
class DualStringMappedVector {
    std::deque<VType> data_;
    shim::Index<std::string> i1_;
    shim::Index<K2> i2_;
    using D = std::ptrdiff_t;

  public:
    using iterator = typename std::deque<VType>::iterator;
    using const_iterator = typename std::deque<VType>::const_iterator;
    template<typename... Us>
    std::optional<size_t> insert(std::string_view s1, const K2& s2, Us&&... a)
    {
        if (i1_.find(s1) && i2_.find(s2)) {  // as upstream: only a duplicate of both is refused
            return std::nullopt;
        }
        data_.emplace_back(std::forward<Us>(a)...);
        i1_.add(s1, data_.size() - 1);
        i2_.add(s2, data_.size() - 1);
        return data_.size() - 1;
    }
    template<typename... Us>
    std::optional<size_t> insert(std::string_view s1, no_search_type, Us&&... a)
    {
        if (i1_.find(s1)) {
            return std::nullopt;
        }
        data_.emplace_back(std::forward<Us>(a)...);
        i1_.add(s1, data_.size() - 1);
        return data_.size() - 1;
    }
    template<typename... Us>
    std::optional<size_t> insert(no_search_type, const K2& s2, Us&&... a)
    {
        if (i2_.find(s2)) {
            return std::nullopt;
        }
        data_.emplace_back(std::forward<Us>(a)...);
        i2_.add(s2, data_.size() - 1);
        return data_.size() - 1;
    }
    template<typename... Us>
    std::optional<size_t> insert(no_search_type, no_search_type, Us&&... a)
    {
        data_.emplace_back(std::forward<Us>(a)...);
        return data_.size() - 1;
    }
    bool addSearchTermForIndex(std::string_view s, size_t i)
    {
        return i < data_.size() && i1_.add(s, i);
    }
    bool addSearchTermForIndex(const K2& s, size_t i) { return i < data_.size() && i2_.add(s, i); }
    bool addSearchTerm(std::string_view s, std::string_view existing)
    {
        auto f = i1_.find(existing);
        return f && i1_.add(s, *f);
    }
    bool addSearchTerm(std::string_view s, const K2& existing)
    {
        auto f = i2_.find(existing);
        return f && i1_.add(s, *f);
    }
    bool addSearchTerm(const K2& s, std::string_view existing)
    {
        auto f = i1_.find(existing);
        return f && i2_.add(s, *f);
    }
    bool addSearchTerm(const K2& s, const K2& existing)
    {
        auto f = i2_.find(existing);
        return f && i2_.add(s, *f);
    }
    iterator find(std::string_view s)
    {
        auto f = i1_.find(s);
        return f ? data_.begin() + static_cast<D>(*f) : data_.end();
    }
    iterator find(const K2& s)
    {
        auto f = i2_.find(s);
        return f ? data_.begin() + static_cast<D>(*f) : data_.end();
    }
    const_iterator find(std::string_view s) const
    {
        auto f = i1_.find(s);
        return f ? data_.begin() + static_cast<D>(*f) : data_.end();
    }
    const_iterator find(const K2& s) const
    {
        auto f = i2_.find(s);
        return f ? data_.begin() + static_cast<D>(*f) : data_.end();
    }
    VType& operator[](size_t i) { return data_[i]; }
    const VType& operator[](size_t i) const { return data_[i]; }
    VType& back() { return data_.back(); }
    const VType& back() const { return data_.back(); }
    iterator begin() { return data_.begin(); }
    iterator end() { return data_.end(); }
    const_iterator begin() const { return data_.begin(); }
    const_iterator end() const { return data_.end(); }
    size_t size() const { return data_.size(); }
    bool empty() const { return data_.empty(); }
    void removeIndex(size_t i)
    {
        if (i < data_.size()) {
            data_.erase(data_.begin() + static_cast<D>(i));
            i1_.removed(i);
            i2_.removed(i);
        }
    }
    void remove(std::string_view s)
    {
        if (auto f = i1_.find(s)) {
            removeIndex(*f);
        }
    }
    void remove(const K2& s)
    {
        if (auto f = i2_.find(s)) {
            removeIndex(*f);
        }
    }
    void clear()
    {
        data_.clear();
        i1_.m.clear();
        i2_.m.clear();
    }
    template<class F>
    void apply(F f)
    {
        std::for_each(data_.begin(), data_.end(), f);
    }
};
}  // namespace gmlc::containers
