#pragma once
#include "document.h"
#include <utility>
namespace takatori::document {
class basic_document final : public document {
public:
    basic_document(std::string location, std::string contents) : location_ { std::move(location) }, contents_ { std::move(contents) } {}
    [[nodiscard]] std::string_view location() const noexcept override { return location_; }
    [[nodiscard]] std::string_view contents(std::size_t offset, std::size_t size) const override { return std::string_view { contents_ }.substr(offset, size); }
    [[nodiscard]] std::size_t size() const noexcept override { return contents_.size(); }
private:
    std::string location_; std::string contents_;
};
}
