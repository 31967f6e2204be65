#pragma once
#include <cstddef>
#include <initializer_list>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template<class E, E Min, E Max>
class enum_set {
public:
    using value_type = E;
    constexpr enum_set() noexcept = default;
    constexpr enum_set(std::initializer_list<E> values) { for (auto v : values) insert(v); }
    template<class... Rest>
    constexpr enum_set(E first, Rest... rest) { insert(first); (insert(rest), ...); } // NOLINT
    [[nodiscard]] constexpr bool empty() const noexcept { return size() == 0; }
    constexpr explicit operator bool() const noexcept { return !empty(); }
    [[nodiscard]] constexpr std::size_t size() const noexcept { std::size_t r = 0; for (std::size_t i = 0; i < N; ++i) r += bits_[i] ? 1 : 0; return r; }
    [[nodiscard]] constexpr bool contains(E v) const noexcept { return bits_[pos(v)]; }
    [[nodiscard]] constexpr bool operator[](E v) const noexcept { return bits_[pos(v)]; }
    constexpr bool insert(E v) { bool r = !bits_[pos(v)]; bits_[pos(v)] = true; return r; }
    constexpr bool erase(E v) { bool r = bits_[pos(v)]; bits_[pos(v)] = false; return r; }
    constexpr void clear() noexcept { for (std::size_t i = 0; i < N; ++i) bits_[i] = false; }
    friend constexpr bool operator==(enum_set const& a, enum_set const& b) noexcept { for (std::size_t i = 0; i < N; ++i) if (a.bits_[i] != b.bits_[i]) return false; return true; }
    friend constexpr bool operator!=(enum_set const& a, enum_set const& b) noexcept { return !(a == b); }
    friend constexpr enum_set operator|(enum_set a, enum_set const& b) { for (std::size_t i = 0; i < N; ++i) a.bits_[i] = a.bits_[i] || b.bits_[i]; return a; }
    friend constexpr enum_set operator&(enum_set a, enum_set const& b) { for (std::size_t i = 0; i < N; ++i) a.bits_[i] = a.bits_[i] && b.bits_[i]; return a; }
    constexpr enum_set& operator+=(E v) { insert(v); return *this; }
    constexpr enum_set& operator-=(E v) { erase(v); return *this; }
    friend std::ostream& operator<<(std::ostream& out, enum_set const& v) {
        out << "{"; bool c = false;
        for (std::size_t i = 0; i < N; ++i) if (v.bits_[i]) { if (c) out << ", "; c = true; out << static_cast<E>(i + static_cast<std::size_t>(Min)); }
        return out << "}";
    }
private:
    static constexpr std::size_t N = static_cast<std::size_t>(Max) - static_cast<std::size_t>(Min) + 1;
    static constexpr std::size_t pos(E v) { return static_cast<std::size_t>(v) - static_cast<std::size_t>(Min); }
    bool bits_[N] {};
};
}
