#pragma once
#include <memory>
#include <utility>
namespace takatori::util {
template<class T>
class rvalue_reference_wrapper {
public:
    using value_type = T;
    constexpr rvalue_reference_wrapper(T&& object) noexcept : ptr_ { std::addressof(object) } {} // NOLINT
    [[nodiscard]] constexpr T&& get() const noexcept { return std::move(*ptr_); }
    [[nodiscard]] constexpr operator T&&() const noexcept { return std::move(*ptr_); } // NOLINT
private:
    T* ptr_;
};
}
