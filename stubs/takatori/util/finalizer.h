#pragma once
#include <functional>
#include <utility>
namespace takatori::util {
class finalizer {
public:
    finalizer() = default;
    template<class F> explicit finalizer(F f) : f_ { std::move(f) } {}
    ~finalizer() { if (f_) f_(); }
    finalizer(finalizer const&) = delete;
    finalizer& operator=(finalizer const&) = delete;
    finalizer(finalizer&& o) noexcept : f_ { std::exchange(o.f_, nullptr) } {}
    finalizer& operator=(finalizer&& o) noexcept { f_ = std::exchange(o.f_, nullptr); return *this; }
private:
    std::function<void()> f_ {};
};
}
