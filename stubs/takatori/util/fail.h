#pragma once
#include <cstdlib>
namespace takatori::util { [[noreturn]] inline void fail() { std::abort(); } }
