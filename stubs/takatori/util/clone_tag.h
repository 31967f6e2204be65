#pragma once
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>
#include <functional>
namespace takatori::util {
struct clone_tag_t { explicit constexpr clone_tag_t() = default; };
inline constexpr clone_tag_t clone_tag {};
}
