#pragma once
#include "SocketFactory.h"
#include "TcpConnection.h"
#include <chrono>
namespace gmlc::networking {
TcpConnection::pointer establishConnection(const SocketFactory& sf,
                                           asio::io_context& io_context,
                                           const std::string& address,
                                           std::chrono::milliseconds timeOut = std::chrono::milliseconds(10000));
TcpConnection::pointer establishConnection(const SocketFactory& sf,
                                           asio::io_context& io_context,
                                           const std::string& host,
                                           const std::string& port,
                                           std::chrono::milliseconds timeOut = std::chrono::milliseconds(10000));
}  // namespace gmlc::networking
