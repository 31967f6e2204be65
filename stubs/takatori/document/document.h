#pragma once
#include <cstddef>
#include <string>
#include <string_view>
namespace takatori::document {
class document {
public:
    document() = default;
    virtual ~document() = default;
    document(document const&) = delete;
    document& operator=(document const&) = delete;
    [[nodiscard]] virtual std::string_view location() const noexcept = 0;
    [[nodiscard]] virtual std::string_view contents(std::size_t offset, std::size_t size) const = 0;
    [[nodiscard]] virtual std::size_t size() const noexcept = 0;
};
}
