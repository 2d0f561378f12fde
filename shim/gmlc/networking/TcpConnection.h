// Stand-in for gmlc/networking TcpConnection over the simulated byte streams.
#pragma once
#include "../../../sim/simnet.hpp"
#include "SocketFactory.h"
#include <asio/core.hpp>
#include <atomic>
#include <functional>
#include <memory>
#include <string>
#include <vector>
namespace gmlc::networking {
class TcpConnection: public std::enable_shared_from_this<TcpConnection> {
  public:
    using pointer = std::shared_ptr<TcpConnection>;
    static pointer create(const SocketFactory& sf,
                          asio::io_context& io_context,
                          const std::string& connection,
                          const std::string& port,
                          size_t bufferSize = 10192);
    static pointer fromStream(asio::io_context& io_context, simnet::StreamPtr s, size_t bufferSize);
    ~TcpConnection();
    void setDataCall(std::function<size_t(const pointer&, const char*, size_t)> f) { dataCall_ = std::move(f); }
    void setErrorCall(std::function<bool(const pointer&, const std::error_code&)> f) { errorCall_ = std::move(f); }
    void startReceive();
    size_t send(const void* buffer, size_t len);
    size_t send(const std::string& data) { return send(data.data(), data.size()); }
    size_t receive(void* buffer, size_t maxLen);
    void async_receive(void* buffer, size_t len, std::function<void(const std::error_code&, size_t)> cb);
    void cancel();
    void close();
    void closeNoWait() { close(); }
    bool isConnected() const;
    bool waitUntilConnected(std::chrono::milliseconds timeOut);
    int getIdentifier() const { return id_; }

  private:
    TcpConnection(asio::io_context& c, size_t bufSize);
    void onNotify();  // network fiber
    void pump();  // io_context thread
    std::shared_ptr<asio::io_context::Impl> ctx_;
    simnet::StreamPtr s_;
    std::function<size_t(const pointer&, const char*, size_t)> dataCall_;
    std::function<bool(const pointer&, const std::error_code&)> errorCall_;
    std::mutex m_;
    std::string pending_;  // received and not yet consumed
    size_t bufSize_;
    std::atomic<bool> receiving_{false};
    std::atomic<bool> closed_{false};
    bool errorSent_{false};
    void* aBuf_{nullptr};
    size_t aLen_{0};
    std::function<void(const std::error_code&, size_t)> aCb_;
    int id_;
};
}  // namespace gmlc::networking
