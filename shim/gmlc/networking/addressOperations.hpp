#pragma once
#include <optional>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include "interfaceOperations.hpp"
namespace gmlc::networking {
std::string makePortAddress(std::string_view networkInterface, int portNumber);
std::string stripProtocol(std::string_view networkAddress);
void removeProtocol(std::string& networkAddress);
std::string addProtocol(const std::string& networkAddress, InterfaceTypes interfaceT);
void insertProtocol(std::string& networkAddress, InterfaceTypes interfaceT);
std::pair<std::string, std::optional<int>> extractInterfaceAndPort(std::string_view address);
std::pair<std::string, std::optional<std::string>> extractInterfaceAndPortString(std::string_view address);
bool isIpv6(std::string_view address);
}  // namespace gmlc::networking
