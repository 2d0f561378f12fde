#pragma once
#include <string>
#include <string_view>
#include <vector>
namespace gmlc::networking {
enum class InterfaceTypes : char { TCP = 0, UDP = 1, IP = 2, IPC = 3, INPROC = 4 };
enum class InterfaceNetworks : char { LOCAL = 0, IPV4 = 4, IPV6 = 6, ALL = 10 };
std::string generateMatchingInterfaceAddress(std::string_view server,
                                             InterfaceNetworks network = InterfaceNetworks::LOCAL);
std::string getLocalExternalAddress();
std::string getLocalExternalAddress(std::string_view server,
                                    InterfaceNetworks network = InterfaceNetworks::ALL);
}  // namespace gmlc::networking
