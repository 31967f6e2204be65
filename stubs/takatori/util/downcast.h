#pragma once
#include <memory>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T, class U> [[nodiscard]] inline T* unsafe_downcast(U* p) noexcept { return static_cast<T*>(p); }
template<class T, class U> [[nodiscard]] inline T const* unsafe_downcast(U const* p) noexcept { return static_cast<T const*>(p); }
template<class T, class U, class = std::enable_if_t<!std::is_pointer_v<std::remove_reference_t<U>>>>
[[nodiscard]] inline std::enable_if_t<!std::is_const_v<U>, T&> unsafe_downcast(U& r) noexcept { return static_cast<T&>(r); }
template<class T, class U, class = std::enable_if_t<!std::is_pointer_v<std::remove_reference_t<U>>>>
[[nodiscard]] inline T const& unsafe_downcast(U const& r) noexcept { return static_cast<T const&>(r); }
template<class T, class U, class = std::enable_if_t<!std::is_pointer_v<std::remove_reference_t<U>> && !std::is_reference_v<U> && !std::is_const_v<U>>>
[[nodiscard]] inline T&& unsafe_downcast(U&& r) noexcept { return static_cast<T&&>(r); }

template<class T, class U> [[nodiscard]] inline T* downcast(U* p) noexcept { return dynamic_cast<T*>(p); }
template<class T, class U> [[nodiscard]] inline T const* downcast(U const* p) noexcept { return dynamic_cast<T const*>(p); }
template<class T, class U, class = std::enable_if_t<!std::is_pointer_v<std::remove_reference_t<U>>>>
[[nodiscard]] inline std::enable_if_t<!std::is_const_v<U>, T&> downcast(U& r) { return dynamic_cast<T&>(r); }
template<class T, class U, class = std::enable_if_t<!std::is_pointer_v<std::remove_reference_t<U>>>>
[[nodiscard]] inline T const& downcast(U const& r) { return dynamic_cast<T const&>(r); }
}
