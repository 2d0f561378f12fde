#include "AsioContextManager.h"
#include "TcpOperations.h"
#include "TcpServer.h"
#include "addressOperations.hpp"
#include "interfaceOperations.hpp"

#include "../../../sim/simrt.hpp"

#include <algorithm>
#include <cstdlib>
#include <map>

namespace gmlc::networking {
// ---- addresses
std::string makePortAddress(std::string_view networkInterface, int portNumber)
{
    std::string r(networkInterface);
    r.push_back(':');
    r += std::to_string(portNumber);
    return r;
}
std::string stripProtocol(std::string_view a)
{
    auto p = a.find("://");
    return std::string(p == std::string_view::npos ? a : a.substr(p + 3));
}
void removeProtocol(std::string& a)
{
    a = stripProtocol(a);
}
std::string addProtocol(const std::string& a, InterfaceTypes t)
{
    if (a.find("://") == std::string::npos) {
        switch (t) {
            case InterfaceTypes::IP:
            case InterfaceTypes::TCP: return "tcp://" + a;
            case InterfaceTypes::IPC: return "ipc://" + a;
            case InterfaceTypes::UDP: return "udp://" + a;
            case InterfaceTypes::INPROC: return "inproc://" + a;
        }
    }
    return a;
}
void insertProtocol(std::string& a, InterfaceTypes t)
{
    a = addProtocol(a, t);
}
bool isIpv6(std::string_view a)
{
    return std::count(a.begin(), a.end(), ':') >= 2 + (a.find("://") != std::string_view::npos ? 1 : 0) + 0;
}
std::pair<std::string, std::optional<int>> extractInterfaceAndPort(std::string_view address)
{
    auto lastColon = address.find_last_of(':');
    if (lastColon == std::string_view::npos) {
        return {std::string(address), std::nullopt};
    }
    if (address.size() > lastColon + 1 && address[lastColon + 1] == '/') {
        return {std::string(address), std::nullopt};
    }
    if (isIpv6(address) && address.find(']') == std::string_view::npos) {
        return {std::string(address), std::nullopt};
    }
    const std::string ps(address.substr(lastColon + 1));
    char* e = nullptr;
    const long v = std::strtol(ps.c_str(), &e, 10);
    if (ps.empty() || *e != '\0') {
        return {std::string(address.substr(0, lastColon)), std::nullopt};
    }
    return {std::string(address.substr(0, lastColon)), static_cast<int>(v)};
}
std::pair<std::string, std::optional<std::string>> extractInterfaceAndPortString(std::string_view address)
{
    auto r = extractInterfaceAndPort(address);
    if (r.second) {
        return {r.first, std::to_string(*r.second)};
    }
    return {r.first, std::nullopt};
}
std::string generateMatchingInterfaceAddress(std::string_view server, InterfaceNetworks network)
{
    (void)server;
    (void)network;
    return "127.0.0.1";
}
std::string getLocalExternalAddress()
{
    return "127.0.0.1";
}
std::string getLocalExternalAddress(std::string_view /*server*/, InterfaceNetworks /*network*/)
{
    return "127.0.0.1";
}

// ---- context manager
AsioContextManager::AsioContextManager(): ctx_(std::make_unique<asio::io_context>()) {}
AsioContextManager::~AsioContextManager()
{
    if (loop_.joinable()) {
        ctx_->stop();
        if (loop_.get_id() == std::this_thread::get_id()) {
            loop_.detach();
        } else {
            loop_.join();
        }
    }
}
std::shared_ptr<AsioContextManager> AsioContextManager::getContextPointer(const std::string& name)
{
    static auto* m = new std::mutex;
    static auto* all = new std::map<std::pair<int, std::string>, std::shared_ptr<AsioContextManager>>;
    std::lock_guard<std::mutex> l(*m);
    auto& p = (*all)[{sim::active() ? sim::currentNode() : 0, name}];
    if (!p) {
        p = std::shared_ptr<AsioContextManager>(new AsioContextManager());
    }
    return p;
}
asio::io_context& AsioContextManager::getContext(const std::string& name)
{
    return getContextPointer(name)->getBaseContext();
}
AsioContextManager::LoopHandle AsioContextManager::startContextLoop()
{
    // one at a time: the old loop must have ended before the context is restarted
    std::lock_guard<std::mutex> starting(starting_);
    std::thread old;
    {
        std::lock_guard<std::mutex> l(m_);
        ++users_;
        if (!running_) {
            if (loop_.joinable()) {
                old = std::move(loop_);
            }
        }
    }
    if (old.joinable()) {
        if (old.get_id() == std::this_thread::get_id()) {
            old.detach();
        } else {
            old.join();
        }
    }
    {
        std::lock_guard<std::mutex> l(m_);
        if (!running_) {
            running_ = true;
            ctx_->restart();
            auto* c = ctx_.get();
            loop_ = std::thread([c] {
                sim::nameFiber("asio");
                c->run();
            });
        }
    }
    return std::make_unique<Servicer>(shared_from_this());
}
AsioContextManager::LoopHandle AsioContextManager::runContextLoop(const std::string& name)
{
    return getContextPointer(name)->startContextLoop();
}
void AsioContextManager::release()
{
    std::lock_guard<std::mutex> l(m_);
    if (--users_ == 0 && running_) {
        running_ = false;
        ctx_->stop();
    }
}
AsioContextManager::Servicer::~Servicer()
{
    mgr_->release();
}

// ---- TCP
static int nextId()
{
    static std::atomic<int> c{0};
    return ++c;
}
TcpConnection::TcpConnection(asio::io_context& c, size_t bufSize):
    ctx_(c.impl()), bufSize_(bufSize), id_(nextId())
{
}
TcpConnection::~TcpConnection()
{
    if (s_) {
        s_->notify = nullptr;
        s_->close();
    }
}
TcpConnection::pointer TcpConnection::create(const SocketFactory& /*sf*/,
                                             asio::io_context& c,
                                             const std::string& host,
                                             const std::string& port,
                                             size_t bufferSize)
{
    auto p = pointer(new TcpConnection(c, bufferSize));
    int err = 0;
    p->s_ = simnet::connectTo(host, std::atoi(port.c_str()), err);
    if (p->s_) {
        std::weak_ptr<TcpConnection> w = p;
        p->s_->notify = [w] {
            if (auto q = w.lock()) {
                q->onNotify();
            }
        };
    }
    return p;
}
TcpConnection::pointer TcpConnection::fromStream(asio::io_context& c, simnet::StreamPtr s, size_t bufferSize)
{
    auto p = pointer(new TcpConnection(c, bufferSize));
    p->s_ = std::move(s);
    std::weak_ptr<TcpConnection> w = p;
    p->s_->notify = [w] {
        if (auto q = w.lock()) {
            q->onNotify();
        }
    };
    return p;
}
bool TcpConnection::isConnected() const
{
    return s_ != nullptr && !closed_;
}
bool TcpConnection::waitUntilConnected(std::chrono::milliseconds /*t*/)
{
    return isConnected();
}
void TcpConnection::onNotify()
{
    auto self = shared_from_this();
    ctx_->post([self] { self->pump(); });
}
void TcpConnection::startReceive()
{
    receiving_ = true;
    onNotify();
}
void TcpConnection::async_receive(void* buffer, size_t len, std::function<void(const std::error_code&, size_t)> cb)
{
    {
        std::lock_guard<std::mutex> l(m_);
        aBuf_ = buffer;
        aLen_ = len;
        aCb_ = std::move(cb);
    }
    onNotify();
}
void TcpConnection::pump()
{
    if (!s_) {
        return;
    }
    std::unique_lock<std::mutex> l(m_);
    if (aCb_) {
        pending_ += s_->takeAll();
        if (!pending_.empty()) {
            const auto n = std::min(aLen_, pending_.size());
            std::memcpy(aBuf_, pending_.data(), n);
            pending_.erase(0, n);
            auto cb = std::move(aCb_);
            aCb_ = nullptr;
            l.unlock();
            cb(std::error_code{}, n);
            return;
        }
        const auto st = s_->state();
        if (st != simnet::Stream::State::OPEN || closed_) {
            auto cb = std::move(aCb_);
            aCb_ = nullptr;
            l.unlock();
            cb(make_error_code(closed_ ? asio::error::operation_aborted :
                                         (st == simnet::Stream::State::RESET ? asio::error::connection_reset :
                                                                               asio::error::eof)),
               0);
        }
        return;
    }
    if (!receiving_) {
        return;
    }
    // like a receive into a fixed buffer: at most bufSize_ bytes are presented at a time
    while (!closed_) {
        pending_ += s_->takeAll();
        const size_t present = std::min(pending_.size(), bufSize_);
        if (present == 0) {
            break;
        }
        size_t used = present;
        if (dataCall_) {
            std::string chunk = pending_.substr(0, present);
            l.unlock();
            used = dataCall_(shared_from_this(), chunk.data(), chunk.size());
            l.lock();
        }
        pending_.erase(0, std::min(used, pending_.size()));
        if (used == 0 && present < bufSize_ && s_->available() == 0) {
            break;  // wait for the rest of the message
        }
        if (used == 0 && present >= bufSize_) {
            bufSize_ *= 2;  // a larger message: the receive buffer grows
        }
    }
    const auto st = s_->state();
    if (!closed_ && st != simnet::Stream::State::OPEN && s_->available() == 0 && !errorSent_) {
        errorSent_ = true;
        auto cb = errorCall_;
        l.unlock();
        if (cb) {
            cb(shared_from_this(),
               make_error_code(st == simnet::Stream::State::RESET ? asio::error::connection_reset :
                                                                    asio::error::eof));
        }
    }
}
size_t TcpConnection::send(const void* buffer, size_t len)
{
    if (closed_) {
        throw std::system_error(make_error_code(asio::error::connection_aborted));
    }
    if (!s_) {
        throw std::system_error(make_error_code(asio::error::not_connected));
    }
    if (!s_->write(static_cast<const char*>(buffer), len)) {
        throw std::system_error(make_error_code(asio::error::connection_reset));
    }
    return len;
}
size_t TcpConnection::receive(void* buffer, size_t maxLen)
{
    return s_ ? s_->readSome(static_cast<char*>(buffer), maxLen) : 0;
}
void TcpConnection::cancel()
{
    std::function<void(const std::error_code&, size_t)> cb;
    {
        std::lock_guard<std::mutex> l(m_);
        cb = std::move(aCb_);
        aCb_ = nullptr;
    }
    if (cb) {
        ctx_->post([cb] { cb(make_error_code(asio::error::operation_aborted), 0); });
    }
}
void TcpConnection::close()
{
    if (closed_.exchange(true)) {
        return;
    }
    cancel();
    if (s_) {
        s_->close();
    }
}

TcpServer::TcpServer(asio::io_context& c, int port, size_t bufSize):
    ctx_(c), port_(port), bufSize_(bufSize), node_(sim::currentNode())
{
}
bool TcpServer::tryBind()
{
    std::weak_ptr<TcpServer> w = shared_from_this();
    listener_ = simnet::listen(port_, [w](simnet::StreamPtr s) {
        if (auto q = w.lock()) {
            q->accept(std::move(s));
        }
    });
    return listener_ != nullptr;
}
TcpServer::pointer TcpServer::create(const SocketFactory& /*sf*/,
                                     asio::io_context& c,
                                     const std::string& /*address*/,
                                     std::uint16_t portNum,
                                     bool /*portReuse*/,
                                     int bufferSize)
{
    auto p = pointer(new TcpServer(c, portNum, static_cast<size_t>(bufferSize)));
    p->tryBind();
    return p;
}
TcpServer::pointer TcpServer::create(const SocketFactory& sf,
                                     asio::io_context& c,
                                     const std::string& address,
                                     const std::string& port,
                                     bool portReuse,
                                     int bufferSize)
{
    return create(sf, c, address, static_cast<std::uint16_t>(std::atoi(port.c_str())), portReuse, bufferSize);
}
TcpServer::~TcpServer()
{
    close();
}
void TcpServer::setDataCall(std::function<size_t(const TcpConnection::pointer&, const char*, size_t)> f)
{
    dataCall_ = std::move(f);
}
void TcpServer::setErrorCall(std::function<bool(const TcpConnection::pointer&, const std::error_code&)> f)
{
    errorCall_ = std::move(f);
}
void TcpServer::launch(simnet::StreamPtr s)
{
    auto c = TcpConnection::fromStream(ctx_, std::move(s), bufSize_);
    c->setDataCall(dataCall_);
    c->setErrorCall(errorCall_);
    {
        std::lock_guard<std::mutex> l(m_);
        conns_.push_back(c);
    }
    c->startReceive();
}
void TcpServer::accept(simnet::StreamPtr s)
{
    {
        std::lock_guard<std::mutex> l(m_);
        if (closed_) {
            return;
        }
        if (!started_) {
            waiting_.push_back(std::move(s));
            return;
        }
    }
    launch(std::move(s));
}
bool TcpServer::start()
{
    std::vector<simnet::StreamPtr> w;
    {
        std::lock_guard<std::mutex> l(m_);
        started_ = true;
        w.swap(waiting_);
    }
    for (auto& s : w) {
        launch(std::move(s));
    }
    return true;
}
void TcpServer::close()
{
    std::vector<TcpConnection::pointer> c;
    std::vector<simnet::StreamPtr> w;
    {
        std::lock_guard<std::mutex> l(m_);
        closed_ = true;
        c.swap(conns_);
        w.swap(waiting_);
    }
    simnet::unlisten(listener_);
    listener_ = nullptr;
    for (auto& s : w) {
        s->close();
    }
    for (auto& x : c) {
        x->close();
    }
}
bool TcpServer::reConnect(std::chrono::milliseconds timeOut)
{
    auto end = std::chrono::steady_clock::now() + timeOut;
    while (!listener_) {
        if (tryBind()) {
            return true;
        }
        if (std::chrono::steady_clock::now() > end) {
            return false;
        }
        std::this_thread::sleep_for(std::chrono::milliseconds(150));
    }
    return true;
}
TcpConnection::pointer TcpServer::findSocket(int id)
{
    std::lock_guard<std::mutex> l(m_);
    for (auto& c : conns_) {
        if (c->getIdentifier() == id) {
            return c;
        }
    }
    return nullptr;
}

TcpConnection::pointer establishConnection(const SocketFactory& sf,
                                           asio::io_context& c,
                                           const std::string& address,
                                           std::chrono::milliseconds timeOut)
{
    auto ip = extractInterfaceAndPortString(address);
    return establishConnection(sf, c, ip.first, ip.second ? *ip.second : std::string(), timeOut);
}
TcpConnection::pointer establishConnection(const SocketFactory& sf,
                                           asio::io_context& c,
                                           const std::string& host,
                                           const std::string& port,
                                           std::chrono::milliseconds timeOut)
{
    const auto end = std::chrono::steady_clock::now() + timeOut;
    while (true) {
        auto p = TcpConnection::create(sf, c, host, port);
        if (p->isConnected()) {
            return p;
        }
        if (std::chrono::steady_clock::now() >= end) {
            return nullptr;
        }
        std::this_thread::sleep_for(std::chrono::milliseconds(100));
    }
}
}  // namespace gmlc::networking
