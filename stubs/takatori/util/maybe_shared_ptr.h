#pragma once
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T>
class maybe_shared_ptr {
public:
    maybe_shared_ptr() noexcept = default;
    maybe_shared_ptr(std::nullptr_t) noexcept {} // NOLINT
    explicit maybe_shared_ptr(T* p) noexcept : p_ { p } {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(std::shared_ptr<U> s) noexcept : s_ { std::move(s) }, p_ { s_.get() } {} // NOLINT
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>>
    maybe_shared_ptr(maybe_shared_ptr<U> const& o) noexcept : s_ { o.ownership() }, p_ { o.get() } {} // NOLINT
    [[nodiscard]] T* get() const noexcept { return p_; }
    [[nodiscard]] T& operator*() const noexcept { return *p_; }
    [[nodiscard]] T* operator->() const noexcept { return p_; }
    [[nodiscard]] explicit operator bool() const noexcept { return p_ != nullptr; }
    [[nodiscard]] std::shared_ptr<T> ownership() const noexcept { return s_; }
private:
    std::shared_ptr<T> s_ {};
    T* p_ { nullptr };
};
template<class T, class U> bool operator==(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) noexcept { return a.get() == b.get(); }
template<class T> bool operator==(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() == nullptr; }
template<class T> bool operator!=(maybe_shared_ptr<T> const& a, std::nullptr_t) noexcept { return a.get() != nullptr; }
}
