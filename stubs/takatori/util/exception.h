#pragma once
#include <stdexcept>
#include <utility>
namespace takatori::util {
template<class E> [[noreturn]] inline void throw_exception(E&& e) { throw std::forward<E>(e); }
}
