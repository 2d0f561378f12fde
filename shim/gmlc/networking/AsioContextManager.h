// Stand-in for gmlc/networking AsioContextManager: one io_context per simulated node and name,
// driven by a (simulated) thread while somebody holds a loop handle.
#pragma once
#include <asio/core.hpp>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
namespace gmlc::networking {
class AsioContextManager: public std::enable_shared_from_this<AsioContextManager> {
  public:
    class Servicer {
        std::shared_ptr<AsioContextManager> mgr_;

      public:
        explicit Servicer(std::shared_ptr<AsioContextManager> m): mgr_(std::move(m)) {}
        ~Servicer();
    };
    using LoopHandle = std::unique_ptr<Servicer>;
    static std::shared_ptr<AsioContextManager> getContextPointer(const std::string& contextName = std::string{});
    static asio::io_context& getContext(const std::string& contextName = std::string{});
    ~AsioContextManager();
    asio::io_context& getBaseContext() const { return *ctx_; }
    LoopHandle startContextLoop();
    static LoopHandle runContextLoop(const std::string& contextName = std::string{});

  private:
    AsioContextManager();
    void release();
    std::unique_ptr<asio::io_context> ctx_;
    std::mutex m_;
    std::mutex starting_;
    int users_{0};
    std::thread loop_;
    bool running_{false};
};
}  // namespace gmlc::networking
