#pragma once
#include "MapTraits.hpp"
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace gmlc::containers::shim {
template<class K>
struct key_store {
    using map = std::conditional_t<is_easily_hashable<K>::value, std::unordered_map<K, size_t>, std::map<K, size_t>>;
};
template<class K>
struct Index {
    typename key_store<K>::map m;
    template<class Q>
    std::optional<size_t> find(const Q& q) const
    {
        auto it = m.find(K(q));
        return it == m.end() ? std::nullopt : std::optional<size_t>(it->second);
    }
    template<class Q>
    bool add(const Q& q, size_t i)
    {
        return m.emplace(K(q), i).second;
    }
    void removed(size_t i)
    {
        for (auto it = m.begin(); it != m.end();) {
            if (it->second == i) {
                it = m.erase(it);
            } else {
                if (it->second > i) {
                    --it->second;
                }
                ++it;
            }
        }
    }
};
}  // namespace gmlc::containers::shim
