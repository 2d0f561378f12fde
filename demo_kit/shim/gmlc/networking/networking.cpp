#include "addressOperations.hpp"
#include "interfaceOperations.hpp"


#include <algorithm>
#include <cstdlib>
#include <map>

namespace gmlc::networking {
// ---- addresses
std::string makePortAddress(std::string_view networkInterface, int portNumber)
{
    std::string r(networkInterface);
    r.push_back(':');
    r += std::to_string(portNumber);
    return r;
}
std::string stripProtocol(std::string_view a)
{
    auto p = a.find("://");
    return std::string(p == std::string_view::npos ? a : a.substr(p + 3));
}
void removeProtocol(std::string& a)
{
    a = stripProtocol(a);
}
std::string addProtocol(const std::string& a, InterfaceTypes t)
{
    if (a.find("://") == std::string::npos) {
        switch (t) {
            case InterfaceTypes::IP:
            case InterfaceTypes::TCP: return "tcp://" + a;
            case InterfaceTypes::IPC: return "ipc://" + a;
            case InterfaceTypes::UDP: return "udp://" + a;
            case InterfaceTypes::INPROC: return "inproc://" + a;
        }
    }
    return a;
}
void insertProtocol(std::string& a, InterfaceTypes t)
{
    a = addProtocol(a, t);
}
bool isIpv6(std::string_view a)
{
    return std::count(a.begin(), a.end(), ':') >= 2 + (a.find("://") != std::string_view::npos ? 1 : 0) + 0;
}
std::pair<std::string, std::optional<int>> extractInterfaceAndPort(std::string_view address)
{
    auto lastColon = address.find_last_of(':');
    if (lastColon == std::string_view::npos) {
        return {std::string(address), std::nullopt};
    }
    if (address.size() > lastColon + 1 && address[lastColon + 1] == '/') {
        return {std::string(address), std::nullopt};
    }
    if (isIpv6(address) && address.find(']') == std::string_view::npos) {
        return {std::string(address), std::nullopt};
    }
    const std::string ps(address.substr(lastColon + 1));
    char* e = nullptr;
    const long v = std::strtol(ps.c_str(), &e, 10);
    if (ps.empty() || *e != '\0') {
        return {std::string(address.substr(0, lastColon)), std::nullopt};
    }
    return {std::string(address.substr(0, lastColon)), static_cast<int>(v)};
}
std::pair<std::string, std::optional<std::string>> extractInterfaceAndPortString(std::string_view address)
{
    auto r = extractInterfaceAndPort(address);
    if (r.second) {
        return {r.first, std::to_string(*r.second)};
    }
    return {r.first, std::nullopt};
}
std::string generateMatchingInterfaceAddress(std::string_view server, InterfaceNetworks network)
{
    (void)server;
    (void)network;
    return "127.0.0.1";
}
std::string getLocalExternalAddress()
{
    return "127.0.0.1";
}
std::string getLocalExternalAddress(std::string_view /*server*/, InterfaceNetworks /*network*/)
{
    return "127.0.0.1";
}

}
