#pragma once
#include "TcpConnection.h"
namespace gmlc::networking {
class TcpServer: public std::enable_shared_from_this<TcpServer> {
  public:
    using pointer = std::shared_ptr<TcpServer>;
    static pointer create(const SocketFactory& sf,
                          asio::io_context& io_context,
                          const std::string& address,
                          std::uint16_t portNum,
                          bool portReuse = false,
                          int bufferSize = 10192);
    static pointer create(const SocketFactory& sf,
                          asio::io_context& io_context,
                          const std::string& address,
                          const std::string& port,
                          bool portReuse = false,
                          int bufferSize = 10192);
    static pointer create(asio::io_context& io_context,
                          const std::string& address,
                          std::uint16_t portNum,
                          bool portReuse = false,
                          int bufferSize = 10192)
    {
        return create(SocketFactory{}, io_context, address, portNum, portReuse, bufferSize);
    }
    ~TcpServer();
    void setDataCall(std::function<size_t(const TcpConnection::pointer&, const char*, size_t)> f);
    void setErrorCall(std::function<bool(const TcpConnection::pointer&, const std::error_code&)> f);
    bool start();
    void close();
    bool isReady() const { return listener_ != nullptr; }
    bool reConnect(std::chrono::milliseconds timeOut);
    TcpConnection::pointer findSocket(int id);

  private:
    TcpServer(asio::io_context& c, int port, size_t bufSize);
    bool tryBind();
    asio::io_context& ctx_;
    int port_;
    size_t bufSize_;
    int node_{0};
    simnet::ListenerPtr listener_;
    std::mutex m_;
    bool started_{false};
    bool closed_{false};
    std::vector<TcpConnection::pointer> conns_;
    std::vector<simnet::StreamPtr> waiting_;
    std::function<size_t(const TcpConnection::pointer&, const char*, size_t)> dataCall_;
    std::function<bool(const TcpConnection::pointer&, const std::error_code&)> errorCall_;
    void accept(simnet::StreamPtr s);
    void launch(simnet::StreamPtr s);
};
}  // namespace gmlc::networking
