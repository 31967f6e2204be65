#pragma once
#include <type_traits>
namespace takatori::util {
struct detect_failed { detect_failed() = delete; };
namespace impl {
template<class D, class V, template<class...> class Op, class... Args> struct detector { using type = D; static constexpr bool value = false; };
template<class D, template<class...> class Op, class... Args>
struct detector<D, std::void_t<Op<Args...>>, Op, Args...> { using type = Op<Args...>; static constexpr bool value = true; };
}
template<template<class...> class Op, class... Args> using detect_t = typename impl::detector<detect_failed, void, Op, Args...>::type;
template<template<class...> class Op, class... Args> inline constexpr bool is_detected_v = impl::detector<detect_failed, void, Op, Args...>::value;
}
