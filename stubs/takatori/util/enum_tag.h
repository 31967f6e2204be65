#pragma once
namespace takatori::util {
template<auto V> struct enum_tag_t { explicit constexpr enum_tag_t() = default; static constexpr auto value = V; };
template<auto V> inline constexpr enum_tag_t<V> enum_tag {};
}
