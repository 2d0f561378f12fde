#pragma once
#include "../core.hpp"
#include "../../../sim/simnet.hpp"
namespace asio::ip {
class address {
    std::string s_;

  public:
    address() = default;
    explicit address(std::string s): s_(std::move(s)) {}
    std::string to_string() const { return s_; }
};
inline address make_address(std::string_view s) { return address(std::string(s)); }
class udp {
    int v_;
    explicit udp(int v): v_(v) {}

  public:
    static udp v4() { return udp(4); }
    static udp v6() { return udp(6); }
    class endpoint {
        address a_;
        int port_{0};

      public:
        endpoint() = default;
        endpoint(udp /*p*/, unsigned short port): a_("0.0.0.0"), port_(port) {}
        endpoint(address a, unsigned short port): a_(std::move(a)), port_(port) {}
        int port() const { return port_; }
        void port(int p) { port_ = p; }
        const address& addr() const { return a_; }
        const class address& address() const { return a_; }
    };
    class resolver {
      public:
        explicit resolver(io_context& /*c*/) {}
        std::vector<endpoint> resolve(udp /*p*/, std::string_view host, std::string_view service)
        {
            return {endpoint(ip::address(std::string(host)),
                             static_cast<unsigned short>(std::stoi(std::string(service))))};
        }
        std::vector<endpoint>
            resolve(udp p, std::string_view host, std::string_view service, std::error_code& ec)
        {
            ec.clear();
            return resolve(p, host, service);
        }
    };
    class socket {
        std::shared_ptr<io_context::Impl> ctx_;
        simnet::DgramPtr s_;

      public:
        explicit socket(io_context& c): ctx_(c.impl()) {}
        socket(io_context& c, const endpoint& e): ctx_(c.impl())
        {
            open(udp::v4());
            bind(e);
        }
        ~socket()
        {
            std::error_code ec;
            close(ec);
        }
        socket(const socket&) = delete;
        void open(udp /*p*/) { s_ = simnet::dgramOpen(); }
        bool is_open() const { return s_ && !s_->closed; }
        void bind(const endpoint& e)
        {
            if (!simnet::dgramBind(s_, e.port())) {
                throw std::system_error(make_error_code(error::address_in_use));
            }
        }
        size_t available() const
        {
            std::lock_guard<std::mutex> l(s_->m);
            return s_->in.empty() ? 0 : s_->in.front().data.size();
        }
        size_t send_to(const_buffer b, const endpoint& e, int /*flags*/, std::error_code& ec)
        {
            if (!is_open()) {
                ec = make_error_code(error::bad_descriptor);
                return 0;
            }
            ec.clear();
            simnet::dgramSend(s_, e.port(), std::string(static_cast<const char*>(b.data), b.size));
            return b.size;
        }
        size_t send_to(const_buffer b, const endpoint& e)
        {
            std::error_code ec;
            auto r = send_to(b, e, 0, ec);
            if (ec) {
                throw std::system_error(ec);
            }
            return r;
        }
        size_t receive_from(mutable_buffer b, endpoint& e, int /*flags*/, std::error_code& ec)
        {
            auto s = s_;
            std::unique_lock<std::mutex> l(s->m);
            s->cv.wait(l, [&] { return !s->in.empty() || s->closed; });
            if (s->in.empty()) {
                ec = make_error_code(error::operation_aborted);
                return 0;
            }
            auto d = std::move(s->in.front());
            s->in.pop_front();
            ec.clear();
            e = endpoint(ip::address("127.0.0.1"), static_cast<unsigned short>(d.fromPort));
            const size_t n = std::min(b.size, d.data.size());
            std::memcpy(b.data, d.data.data(), n);
            return n;
        }
        void async_receive_from(mutable_buffer b,
                                endpoint& e,
                                std::function<void(const std::error_code&, size_t)> h)
        {
            auto s = s_;
            auto ctx = ctx_;
            auto pend = std::make_shared<std::function<void(const std::error_code&, size_t)>>(std::move(h));
            auto attempt = [s, ctx, pend, b, ep = &e]() {
                std::unique_lock<std::mutex> l(s->m);
                if (!*pend || (s->in.empty() && !s->closed)) {
                    return;
                }
                auto fn = std::move(*pend);
                *pend = nullptr;
                if (s->in.empty()) {
                    l.unlock();
                    ctx->post([fn] { fn(make_error_code(error::operation_aborted), 0); });
                    return;
                }
                auto d = std::move(s->in.front());
                s->in.pop_front();
                l.unlock();
                ctx->post([fn, d, b, ep] {
                    *ep = endpoint(ip::address("127.0.0.1"), static_cast<unsigned short>(d.fromPort));
                    const size_t n = std::min(b.size, d.data.size());
                    std::memcpy(b.data, d.data.data(), n);
                    fn(std::error_code{}, n);
                });
            };
            s->notify = attempt;
            attempt();
        }
        void cancel() { simnet::dgramClose(s_); }
        void close()
        {
            std::error_code ec;
            close(ec);
        }
        void close(std::error_code& ec)
        {
            ec.clear();
            if (s_) {
                simnet::dgramClose(s_);
            }
        }
    };
};
}  // namespace asio::ip
