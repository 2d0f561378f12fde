#include "core.hpp"

#include "../../sim/simrt.hpp"
namespace asio {
struct steady_timer::State: std::enable_shared_from_this<State> {
    std::shared_ptr<io_context::Impl> ctx;
    std::mutex m;
    time_point exp{};
    uint64_t gen{0};
    std::vector<std::function<void(const std::error_code&)>> pending;
    size_t abortAll()
    {
        std::vector<std::function<void(const std::error_code&)>> p;
        {
            std::lock_guard<std::mutex> l(m);
            p.swap(pending);
            ++gen;
        }
        for (auto& h : p) {
            ctx->post([h] { h(make_error_code(error::operation_aborted)); });
        }
        return p.size();
    }
    void fire(uint64_t g)
    {
        std::vector<std::function<void(const std::error_code&)>> p;
        {
            std::lock_guard<std::mutex> l(m);
            if (g != gen) {
                return;
            }
            p.swap(pending);
        }
        for (auto& h : p) {
            ctx->post([h] { h(std::error_code{}); });
        }
    }
};
steady_timer::steady_timer(io_context& c): st_(std::make_shared<State>())
{
    st_->ctx = c.impl();
}
steady_timer::~steady_timer()
{
    st_->abortAll();
}
size_t steady_timer::expires_at(time_point t)
{
    auto n = st_->abortAll();
    std::lock_guard<std::mutex> l(st_->m);
    st_->exp = t;
    return n;
}
steady_timer::time_point steady_timer::expiry() const
{
    std::lock_guard<std::mutex> l(st_->m);
    return st_->exp;
}
size_t steady_timer::cancel()
{
    return st_->abortAll();
}
void steady_timer::async_wait(std::function<void(const std::error_code&)> h)
{
    std::unique_lock<std::mutex> l(st_->m);
    st_->pending.push_back(std::move(h));
    const auto g = st_->gen;
    const auto rel = st_->exp - std::chrono::steady_clock::now();
    const auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(rel).count();
    l.unlock();
    auto st = st_;
    sim::at(sim::nowNs() + (ns > 0 ? static_cast<uint64_t>(ns) : 0), [st, g] { st->fire(g); });
}
}  // namespace asio
