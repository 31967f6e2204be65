// instantiates the dispatch() templates of every category, so that their real bodies can be extracted and verified
#include <mizugaki/ast/literal/dispatch.h>
#include <mizugaki/ast/name/dispatch.h>
#include <mizugaki/ast/query/dispatch.h>
#include <mizugaki/ast/scalar/dispatch.h>
#include <mizugaki/ast/statement/dispatch.h>
#include <mizugaki/ast/table/dispatch.h>
#include <mizugaki/ast/type/dispatch.h>

namespace verif {
struct probe {
    template<class T> int operator()(T&) const { return 0; }
};
} // namespace verif
namespace mizugaki::ast::common {
template class regioned<scalar::unary_operator>;
template class regioned<std::string>;
} // namespace mizugaki::ast::common
namespace mizugaki::ast::literal {
template class special<kind::null>;
template class special<kind::empty>;
template class special<kind::default_>;
} // namespace mizugaki::ast::literal
using namespace mizugaki;
#define DRIVE(NS, BASE) int drive_##NS##_##BASE(ast::NS::BASE const& e) { return ast::NS::dispatch(verif::probe {}, e); } \
                        int drivem_##NS##_##BASE(ast::NS::BASE& e) { return ast::NS::dispatch(verif::probe {}, e); }
DRIVE(literal, literal)
DRIVE(name, name)
DRIVE(query, expression)
DRIVE(query, grouping_element)
DRIVE(query, select_element)
DRIVE(scalar, expression)
DRIVE(statement, statement)
DRIVE(statement, table_element)
DRIVE(statement, constraint)
DRIVE(statement, alter_table_action)
DRIVE(statement, alter_index_action)
DRIVE(table, expression)
DRIVE(table, join_specification)
DRIVE(type, type)
#define EQSPECIAL(K) bool drive_eq_##K(ast::literal::special<ast::literal::kind::K> const& a, ast::literal::special<ast::literal::kind::K> const& b) { return a == b; } \
                     bool drive_ne_##K(ast::literal::special<ast::literal::kind::K> const& a, ast::literal::special<ast::literal::kind::K> const& b) { return a != b; }
EQSPECIAL(null)
EQSPECIAL(empty)
EQSPECIAL(default_)
bool drive_eq_regioned(ast::common::regioned<ast::scalar::unary_operator> const& a, ast::common::regioned<ast::scalar::unary_operator> const& b) { return a == b; }
bool drive_ne_regioned(ast::common::regioned<ast::scalar::unary_operator> const& a, ast::common::regioned<ast::scalar::unary_operator> const& b) { return a != b; }
bool drive_eq_regioned_s(ast::common::regioned<std::string> const& a, ast::common::regioned<std::string> const& b) { return a == b; }
bool drive_ne_regioned_s(ast::common::regioned<std::string> const& a, ast::common::regioned<std::string> const& b) { return a != b; }
