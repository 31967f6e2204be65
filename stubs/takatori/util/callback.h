#pragma once
#include <type_traits>
#include <utility>
#include "downcast.h"
namespace takatori::util {
namespace impl {
template<class T, class E> using rebind_ref = std::conditional_t<
    std::is_lvalue_reference_v<E>,
    std::conditional_t<std::is_const_v<std::remove_reference_t<E>>, T const&, T&>, T&&>;
}
template<class T, class Callback, class E, class... Args>
inline auto polymorphic_callback(Callback&& callback, E&& element, Args&&... args) {
    using target = impl::rebind_ref<T, E>;
    return std::forward<Callback>(callback)(
        static_cast<target>(element), std::forward<Args>(args)...);
}
}
