#pragma once
#include <cstddef>
#include <memory>
#include <utility>
namespace takatori::util {
template<class T>
class rvalue_ptr {
public:
    constexpr rvalue_ptr() noexcept = default;
    constexpr rvalue_ptr(std::nullptr_t) noexcept {} // NOLINT
    constexpr rvalue_ptr(T&& object) noexcept : ptr_ { std::addressof(object) } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr rvalue_ptr(rvalue_ptr<U> const& other) noexcept : ptr_ { other.get() } {} // NOLINT
    [[nodiscard]] constexpr explicit operator bool() const noexcept { return ptr_ != nullptr; }
    [[nodiscard]] constexpr T* get() const noexcept { return ptr_; }
    [[nodiscard]] constexpr T&& operator*() const noexcept { return std::move(*ptr_); }
    [[nodiscard]] constexpr T&& value() const noexcept { return std::move(*ptr_); }
private:
    T* ptr_ { nullptr };
};
}
