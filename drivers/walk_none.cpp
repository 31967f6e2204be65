// stands in for walk.cpp where the public accessors have changed
#include <string>
#include <mizugaki/ast/compilation_unit.h>
std::string walk_text(mizugaki::ast::compilation_unit const&) { return "?"; }
