#pragma once
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
#include <functional>
#include <cstdint>
#include <string_view>
namespace takatori::serializer {
class object_acceptor {
public:
    object_acceptor() = default;
    virtual ~object_acceptor() = default;
    object_acceptor(object_acceptor const&) = delete;
    object_acceptor& operator=(object_acceptor const&) = delete;
    virtual void string(std::string_view value) = 0;
    virtual void integer(std::int64_t value) = 0;
    virtual void unsigned_integer(std::uint64_t value) = 0;
    virtual void real(double value) = 0;
    virtual void boolean(bool value) = 0;
    virtual void pointer(void const* value) = 0;
    virtual void struct_begin() = 0;
    virtual void struct_end() = 0;
    virtual void property_begin(std::string_view name) = 0;
    virtual void property_end() = 0;
    virtual void array_begin() = 0;
    virtual void array_end() = 0;
};
}
