#pragma once
#include <cstddef>
#include <memory>
#include <stdexcept>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class optional_ptr {
public:
    constexpr optional_ptr() noexcept = default;
    constexpr optional_ptr(std::nullptr_t) noexcept {} // NOLINT
    constexpr optional_ptr(T& o) noexcept : p_ { std::addressof(o) } {} // NOLINT
    explicit constexpr optional_ptr(T* p) noexcept : p_ { p } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    constexpr optional_ptr(optional_ptr<U> const& o) noexcept : p_ { o.get() } {} // NOLINT
    [[nodiscard]] constexpr T* get() const noexcept { return p_; }
    [[nodiscard]] constexpr T& value() const { if (!p_) throw std::out_of_range("optional_ptr"); return *p_; }
    [[nodiscard]] constexpr T& operator*() const noexcept { return *p_; }
    [[nodiscard]] constexpr T* operator->() const noexcept { return p_; }
    [[nodiscard]] constexpr bool has_value() const noexcept { return p_ != nullptr; }
    [[nodiscard]] constexpr explicit operator bool() const noexcept { return p_ != nullptr; }
    void reset() noexcept { p_ = nullptr; }
private:
    T* p_ { nullptr };
};
template<class T, class U> constexpr bool operator==(optional_ptr<T> const& a, optional_ptr<U> const& b) noexcept { return a.get() == b.get(); }
}
