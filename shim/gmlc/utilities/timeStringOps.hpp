#pragma once
#include "timeRepresentation.hpp"
#include <stdexcept>
#include <string>
#include <string_view>
namespace gmlc::utilities {
time_units timeUnitsFromString(std::string_view unitString);
double getTimeValue(std::string_view timeString, time_units defUnit);
double getTimeValue(std::string_view timeString);

template<class timeX>
timeX loadTimeFromString(std::string_view timeString, time_units defUnit)
{
    return timeX(getTimeValue(timeString, defUnit));
}
template<class timeX>
timeX loadTimeFromString(std::string_view timeString)
{
    return timeX(getTimeValue(timeString, time_units::s));
}
}  // namespace gmlc::utilities
