#pragma once
#include <sstream>
#include <string>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t {};
    static constexpr to_string_t to_string {};
    string_builder() = default;
    string_builder(string_builder&&) = default;
    template<class T> friend string_builder& operator<<(string_builder& b, T const& v) { b.out_ << v; return b; }
    template<class T> friend string_builder&& operator<<(string_builder&& b, T const& v) { b.out_ << v; return std::move(b); }
    friend std::string operator<<(string_builder& b, to_string_t) { return b.out_.str(); }
    friend std::string operator<<(string_builder&& b, to_string_t) { return b.out_.str(); }
    std::string str() const { return out_.str(); }
private:
    std::ostringstream out_ {};
};
}
