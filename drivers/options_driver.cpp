// forces the instantiation of the templates behind the parser options, so that their bodies can be extracted
#include <cstddef>
#include <mizugaki/parser/sql_parser_element_kind.h>
#include <mizugaki/parser/sql_parser_options.h>
namespace vp {
using map = ::mizugaki::parser::sql_parser_element_map<std::size_t>;
using kind = ::mizugaki::parser::sql_parser_element_kind;
std::size_t& at(map& m, kind k) { return m[k]; }
std::size_t const& at(map const& m, kind k) { return m[k]; }
std::size_t& first(map& m) { return m.get<::mizugaki::parser::sql_parser_element_kind_first>(); }
std::size_t& last(map& m) { return m.get<::mizugaki::parser::sql_parser_element_kind_last>(); }
std::size_t const& first(map const& m) { return m.get<::mizugaki::parser::sql_parser_element_kind_first>(); }
std::size_t const& last(map const& m) { return m.get<::mizugaki::parser::sql_parser_element_kind_last>(); }
auto find(std::string_view s) { return ::mizugaki::parser::find_sql_parser_element_kind(s); }
}
