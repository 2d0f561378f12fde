// Minimal asio work-alike over the simulated network and clock (the asio submodule is not present).
#pragma once
#include <array>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <system_error>
#include <utility>
#include <vector>

namespace asio {
using error_code = std::error_code;
using system_error = std::system_error;
namespace error {
    enum basic_errors {
        operation_aborted = ECANCELED,
        connection_aborted = ECONNABORTED,
        connection_reset = ECONNRESET,
        connection_refused = ECONNREFUSED,
        address_in_use = EADDRINUSE,
        not_connected = ENOTCONN,
        broken_pipe = EPIPE,
        timed_out = ETIMEDOUT,
        bad_descriptor = EBADF,
        eof = 20002
    };
    inline std::error_code make_error_code(basic_errors e)
    {
        return {static_cast<int>(e), std::system_category()};
    }
}  // namespace error
}  // namespace asio
namespace std {
template<>
struct is_error_code_enum<asio::error::basic_errors>: true_type {};
}  // namespace std
namespace asio {
struct mutable_buffer {
    void* data;
    size_t size;
};
struct const_buffer {
    const void* data;
    size_t size;
};
template<class T, class A>
mutable_buffer buffer(std::vector<T, A>& v)
{
    return {v.data(), v.size() * sizeof(T)};
}
template<class T, class A>
const_buffer buffer(const std::vector<T, A>& v)
{
    return {v.data(), v.size() * sizeof(T)};
}
template<class T, size_t N>
mutable_buffer buffer(std::array<T, N>& v)
{
    return {v.data(), v.size() * sizeof(T)};
}
inline const_buffer buffer(std::string_view s) { return {s.data(), s.size()}; }
inline const_buffer buffer(const std::string& s) { return {s.data(), s.size()}; }
inline mutable_buffer buffer(void* p, size_t n) { return {p, n}; }
inline const_buffer buffer(const void* p, size_t n) { return {p, n}; }

class io_context {
  public:
    struct Impl {
        std::mutex m;
        std::condition_variable cv;
        std::deque<std::function<void()>> q;
        bool stopped{false};
        void post(std::function<void()> f)
        {
            std::lock_guard<std::mutex> l(m);
            q.push_back(std::move(f));
            cv.notify_one();
        }
    };
    io_context(): impl_(std::make_shared<Impl>()) {}
    io_context(const io_context&) = delete;
    io_context& operator=(const io_context&) = delete;
    const std::shared_ptr<Impl>& impl() const { return impl_; }
    void post(std::function<void()> f) { impl_->post(std::move(f)); }
    /** run handlers until stop() */
    void run()
    {
        std::unique_lock<std::mutex> l(impl_->m);
        while (true) {
            impl_->cv.wait(l, [this] { return impl_->stopped || !impl_->q.empty(); });
            if (impl_->stopped) {
                return;
            }
            auto f = std::move(impl_->q.front());
            impl_->q.pop_front();
            l.unlock();
            f();
            f = nullptr;
            l.lock();
        }
    }
    void stop()
    {
        std::lock_guard<std::mutex> l(impl_->m);
        impl_->stopped = true;
        impl_->cv.notify_all();
    }
    void restart()
    {
        std::lock_guard<std::mutex> l(impl_->m);
        impl_->stopped = false;
    }

  private:
    std::shared_ptr<Impl> impl_;
};

class steady_timer {
  public:
    using time_point = std::chrono::steady_clock::time_point;
    using duration = std::chrono::steady_clock::duration;
    explicit steady_timer(io_context& c);
    steady_timer(io_context& c, duration d): steady_timer(c) { expires_after(d); }
    ~steady_timer();
    steady_timer(const steady_timer&) = delete;
    steady_timer& operator=(const steady_timer&) = delete;
    size_t expires_at(time_point t);
    size_t expires_after(duration d) { return expires_at(std::chrono::steady_clock::now() + d); }
    time_point expiry() const;
    size_t cancel();
    void async_wait(std::function<void(const std::error_code&)> h);

  private:
    struct State;
    std::shared_ptr<State> st_;
};
}  // namespace asio
