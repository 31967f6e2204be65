#pragma once
#include <memory>
#include <type_traits>
#include <utility>
#include "clone_tag.h"
#include "rvalue_ptr.h"
#include "rvalue_reference_wrapper.h"
namespace takatori::util {
template<class T>
struct is_clone_constructible : std::bool_constant<
    std::is_constructible_v<T, clone_tag_t, T const&> && std::is_constructible_v<T, clone_tag_t, T&&>> {};
template<class T> inline constexpr bool is_clone_constructible_v = is_clone_constructible<T>::value;

template<class T, class = void> struct is_clonable_impl : std::false_type {};
template<class T> struct is_clonable_impl<T, std::void_t<decltype(std::declval<T const&>().clone())>> : std::true_type {};

template<class T>
[[nodiscard]] inline std::enable_if_t<is_clonable_impl<T>::value, std::unique_ptr<T>> clone_unique(T const& object) {
    return std::unique_ptr<T> { object.clone() };
}
template<class T>
[[nodiscard]] inline std::enable_if_t<!std::is_reference_v<T> && !std::is_const_v<T> && is_clonable_impl<T>::value, std::unique_ptr<T>> clone_unique(T&& object) {
    return std::unique_ptr<T> { std::move(object).clone() };
}
template<class T>
[[nodiscard]] inline std::enable_if_t<!is_clonable_impl<T>::value && is_clone_constructible_v<T>, std::unique_ptr<T>> clone_unique(T const& object) {
    return std::make_unique<T>(clone_tag, object);
}
template<class T>
[[nodiscard]] inline std::enable_if_t<!std::is_reference_v<T> && !std::is_const_v<T> && !is_clonable_impl<T>::value && is_clone_constructible_v<T>, std::unique_ptr<T>> clone_unique(T&& object) {
    return std::make_unique<T>(clone_tag, std::move(object));
}
template<class T, class D>
[[nodiscard]] inline std::unique_ptr<T, D> clone_unique(std::unique_ptr<T, D> const& ptr) {
    if (ptr) return clone_unique(static_cast<T const&>(*ptr));
    return {};
}
template<class T, class D>
[[nodiscard]] inline std::unique_ptr<T, D> clone_unique(std::unique_ptr<T, D>&& ptr) {
    if (ptr) return clone_unique(std::move(*ptr));
    return {};
}
template<class T>
[[nodiscard]] inline std::unique_ptr<T> clone_unique(rvalue_ptr<T> ptr) {
    if (ptr) return clone_unique(*ptr);
    return {};
}
template<class T>
[[nodiscard]] inline std::unique_ptr<T> clone_unique(rvalue_reference_wrapper<T> ref) {
    return clone_unique(ref.get());
}
template<class T>
[[nodiscard]] inline std::shared_ptr<T> clone_shared(T const& object) {
    return std::shared_ptr<T> { clone_unique(object) };
}
}
