#pragma once
#include <string>
namespace gmlc::networking {
class SocketFactory {
  public:
    SocketFactory() = default;
    explicit SocketFactory(const std::string& /*config*/) {}
};
}  // namespace gmlc::networking
