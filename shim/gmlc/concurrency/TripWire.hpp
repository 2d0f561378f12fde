#pragma once
#include <atomic>
#include <memory>
#include <vector>
namespace gmlc::concurrency {
using triplineType = std::shared_ptr<std::atomic<bool>>;
class TripWire {
  public:
    static triplineType& line()
    {
        static auto* l = new triplineType(std::make_shared<std::atomic<bool>>(false));
        return *l;
    }
};
class TripWireDetector {
    triplineType line_;

  public:
    TripWireDetector(): line_(TripWire::line()) {}
    bool isTripped() const noexcept { return line_->load(std::memory_order_acquire); }
};
class TripWireTrigger {
    triplineType line_;

  public:
    TripWireTrigger(): line_(TripWire::line()) {}
    TripWireTrigger(const TripWireTrigger&) = delete;
    TripWireTrigger& operator=(const TripWireTrigger&) = delete;
    ~TripWireTrigger() { line_->store(true, std::memory_order_release); }
};
}  // namespace gmlc::concurrency
#define DECLARE_TRIPLINE() static_assert(true, "");
#define DECLARE_INDEXED_TRIPLINES(COUNT) static_assert(true, "");
