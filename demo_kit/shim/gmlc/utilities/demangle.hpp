#pragma once
#include <cstdlib>
#include <cxxabi.h>
#include <string>
#include <typeinfo>
namespace gmlc {
inline std::string demangle(const char* name)
{
    int st = 0;
    char* r = abi::__cxa_demangle(name, nullptr, nullptr, &st);
    std::string out = (st == 0 && r != nullptr) ? r : name;
    std::free(r);
    return out;
}
template<class T>
std::string demangle(const T& t)
{
    return demangle(typeid(t).name());
}
}  // namespace gmlc
