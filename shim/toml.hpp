// Stand-in for toml11 (submodule not present): value type and a parser for a small subset
// (key = scalar, arrays of scalars and inline tables, [table] and [[array of tables]]).
#pragma once
#include <chrono>
#include <cstdint>
#include <map>
#include <istream>
#include <memory>
#include <new>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <vector>
namespace toml {
class exception: public std::runtime_error {
  public:
    using std::runtime_error::runtime_error;
};
class type_error: public exception {
  public:
    using exception::exception;
};
enum class value_t { empty, boolean, integer, floating, string, array, table };
class value;
using array = std::vector<value>;
using table = std::map<std::string, value>;
class value {
    value_t t_{value_t::empty};
    bool b_{false};
    std::int64_t i_{0};
    double d_{0.0};
    std::string s_;
    std::shared_ptr<array> a_;
    std::shared_ptr<table> m_;

  public:
    value() = default;
    value(bool b): t_(value_t::boolean), b_(b) {}
    value(int i): t_(value_t::integer), i_(i) {}
    value(std::int64_t i): t_(value_t::integer), i_(i) {}
    value(double d): t_(value_t::floating), d_(d) {}
    value(const char* s): t_(value_t::string), s_(s) {}
    value(std::string s): t_(value_t::string), s_(std::move(s)) {}
    value(array a);
    value(table m);
    value_t type() const { return t_; }
    bool is_uninitialized() const { return t_ == value_t::empty; }
    bool is_empty() const { return t_ == value_t::empty; }
    bool is_boolean() const { return t_ == value_t::boolean; }
    bool is_integer() const { return t_ == value_t::integer; }
    bool is_floating() const { return t_ == value_t::floating; }
    bool is_string() const { return t_ == value_t::string; }
    bool is_array() const { return t_ == value_t::array; }
    bool is_table() const { return t_ == value_t::table; }
    bool is_local_time() const { return false; }
    bool as_boolean() const { chk(value_t::boolean); return b_; }
    std::int64_t as_integer() const { chk(value_t::integer); return i_; }
    double as_floating() const { chk(value_t::floating); return d_; }
    const std::string& as_string() const { chk(value_t::string); return s_; }
    std::string& as_string() { chk(value_t::string); return s_; }
    const array& as_array() const { chk(value_t::array); return *a_; }
    array& as_array() { chk(value_t::array); return *a_; }
    const table& as_table() const { chk(value_t::table); return *m_; }
    table& as_table() { chk(value_t::table); return *m_; }
    bool as_boolean(std::nothrow_t) const { return b_; }
    std::int64_t as_integer(std::nothrow_t) const { return i_; }
    double as_floating(std::nothrow_t) const { return d_; }
    const std::string& as_string(std::nothrow_t) const { return s_; }
    size_t size() const { return is_array() ? a_->size() : (is_table() ? m_->size() : s_.size()); }
    value& operator[](size_t i) { return as_array().at(i); }
    const value& operator[](size_t i) const { return as_array().at(i); }
    value& at(size_t i) { return as_array().at(i); }
    const value& at(size_t i) const { return as_array().at(i); }
    bool contains(const std::string& k) const;
    const value& at(const std::string& k) const;
    value& operator[](const std::string& k);
    value& operator[](const char* k) { return (*this)[std::string(k)]; }

  private:
    void chk(value_t t) const
    {
        if (t_ != t) {
            throw type_error("toml type mismatch");
        }
    }
};
inline value::value(array a): t_(value_t::array), a_(std::make_shared<array>(std::move(a))) {}
inline value::value(table m): t_(value_t::table), m_(std::make_shared<table>(std::move(m))) {}
inline bool value::contains(const std::string& k) const
{
    return t_ == value_t::table && m_->count(k) != 0;
}
inline const value& value::at(const std::string& k) const
{
    chk(value_t::table);
    return m_->at(k);
}
inline value& value::operator[](const std::string& k)
{
    chk(value_t::table);
    return (*m_)[k];
}
namespace detail {
    template<class T>
    bool fits(const value& v)
    {
        if constexpr (std::is_same_v<T, value>) {
            return true;
        } else if constexpr (std::is_same_v<T, bool>) {
            return v.is_boolean();
        } else if constexpr (std::is_integral_v<T>) {
            return v.is_integer();
        } else if constexpr (std::is_floating_point_v<T>) {
            return v.is_floating();
        } else if constexpr (std::is_same_v<T, std::string>) {
            return v.is_string();
        } else {
            return false;
        }
    }
}  // namespace detail
template<class T>
T get(const value& v)
{
    if constexpr (std::is_same_v<T, value>) {
        return v;
    } else if constexpr (std::is_same_v<T, bool>) {
        return v.as_boolean();
    } else if constexpr (std::is_integral_v<T>) {
        return static_cast<T>(v.as_integer());
    } else if constexpr (std::is_floating_point_v<T>) {
        return static_cast<T>(v.as_floating());
    } else if constexpr (std::is_same_v<T, std::string>) {
        return v.as_string();
    } else {
        throw type_error("toml conversion");
    }
}
template<class T>
std::conditional_t<std::is_same_v<T, std::string>, const std::string&, T> find_or(const value& v, const std::string& k, const T& opt)
{
    if (!v.contains(k)) {
        return opt;
    }
    const auto& r = v.at(k);
    if constexpr (std::is_same_v<T, std::string>) {
        return r.is_string() ? r.as_string() : opt;
    } else {
        return detail::fits<T>(r) ? get<T>(r) : opt;
    }
}
inline const value& find(const value& v, const std::string& k)
{
    if (!v.contains(k)) {
        throw std::out_of_range("key not found " + k);
    }
    return v.at(k);
}
inline value& find(value& v, const std::string& k)
{
    if (!v.contains(k)) {
        throw std::out_of_range("key not found " + k);
    }
    return v[k];
}
std::ostream& operator<<(std::ostream& os, const value& v);
value parse(std::istream& is, const std::string& name = "");
value parse(const std::string& fileName);
}  // namespace toml
