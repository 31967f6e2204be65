#include "walk.h"
#include <mizugaki/ast/compilation_unit.h>
std::string walk_text(mizugaki::ast::compilation_unit const& x) { walk::out.clear(); walk::go(x.statements()); return walk::out; }
