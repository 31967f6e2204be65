// Runs the driver-level functions of the real parser on enumerated small cases against oracles written from the
// properties.  Output: FAIL <property> <what>; last line: CASES <n>.
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <takatori/document/basic_document.h>
#include <takatori/serializer/json_printer.h>
#include <mizugaki/parser/sql_parser.h>
#include <mizugaki/parser/sql_driver.h>
#include <mizugaki/parser/details/sequence_options.h>
#include <mizugaki/ast/literal/numeric.h>
#include <mizugaki/ast/literal/string.h>
#include <mizugaki/ast/scalar/literal_expression.h>
#include <mizugaki/ast/scalar/unary_expression.h>
#include <mizugaki/ast/scalar/variable_reference.h>
#include <mizugaki/ast/statement/empty_statement.h>
#include <mizugaki/ast/name/simple.h>
#include <mizugaki/ast/name/qualified.h>
#include <mizugaki/ast/type/user_defined.h>
using namespace mizugaki;
using parser::sql_driver; using R = ast::node_region;
static long cases = 0; static int shown = 0;
static void fail(char const* p, std::string const& what) { if (shown++ < 400) std::cout << "FAIL " << p << " " << what << "\n"; }
template<class T> static std::string js(T const& x) { std::ostringstream o; { ::takatori::serializer::json_printer p { o }; p << x; } return o.str(); }
template<class... A> static std::string cat(A const&... a) { std::ostringstream o; (o << ... << a); return o.str(); }
static std::string str(std::vector<R> const& v) { std::string r; for (auto&& x : v) r += cat(x.begin, "-", x.end, " "); return "[" + r + "]"; }
static bool same(std::vector<R> const& a, std::vector<R> const& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (a[i].begin != b[i].begin || a[i].end != b[i].end) return false; return true; }
static auto doc(std::string s) { return std::make_shared<::takatori::document::basic_document>("x", std::move(s)); }

static void p03() {
    // every interleaving of comments and tokens up to length 9, two spacings, two starts
    for (int n = 1; n <= 9; ++n) for (unsigned bits = 0; bits < (1U << n); ++bits) for (int sp = 0; sp < 2; ++sp) for (int st = 0; st < 2; ++st) {
        sql_driver d { doc(std::string(200, ' ')) };
        struct Ev { bool comment; R at; }; std::vector<Ev> ev; std::size_t pos = st ? 3 : 0;
        for (int i = 0; i < n; ++i) { bool c = (bits >> i) & 1U; std::size_t len = c ? 5 : 1; ev.push_back({ c, R { pos, pos + len } }); pos += len + (sp ? 2 : 0); }
        for (auto&& e : ev) { if (e.comment) d.add_comment(e.at); else d.add_comment_separator(e.at); }
        std::vector<R> all; for (auto&& e : ev) if (e.comment) all.push_back(e.at);
        ++cases;
        std::string seq; for (auto&& e : ev) seq += e.comment ? 'c' : 't';
        if (!same(d.comments(), all)) fail("P03", cat("comments of sequence ", seq, ": ", str(d.comments())));
        for (int k = 0; k < n; ++k) if (!ev[k].comment) {
            std::vector<R> lead, foll;
            for (int i = k - 1; i >= 0 && ev[i].comment; --i) lead.insert(lead.begin(), ev[i].at);
            for (int i = k + 1; i < n && ev[i].comment; ++i) foll.push_back(ev[i].at);
            auto a = d.leading_comments(ev[k].at); auto b = d.following_comments(ev[k].at);
            if (!same(a, lead)) fail("P03", cat("comments before token ", k, " of ", seq, " (first at ", st ? 3 : 0, "): expected ", str(lead), " got ", str(a)));
            if (!same(b, foll)) fail("P03", cat("comments after token ", k, " of ", seq, " (first at ", st ? 3 : 0, "): expected ", str(foll), " got ", str(b)));
        }
    }
    for (std::size_t step : { 10UL, 70000UL, 1UL << 33 }) for (int each = 1; each <= 3; ++each) {
        sql_driver d { doc("x") }; std::size_t n = 1000; std::vector<R> all, toks;
        for (std::size_t i = 0; i < n; ++i) { auto b = i * step; for (int k = 0; k < each; ++k) { all.push_back(R { b + k * 2, b + k * 2 + 2 }); d.add_comment(all.back()); } toks.push_back(R { b + 7, b + 9 }); d.add_comment_separator(toks.back()); }
        ++cases; if (!same(d.comments(), all)) fail("P03", cat("comments of ", n, " tokens, ", step, " apart"));
        for (std::size_t i = 0; i < n; ++i) { std::vector<R> lead(all.begin() + static_cast<long>(i) * each, all.begin() + static_cast<long>(i + 1) * each); ++cases;
            if (!same(d.leading_comments(toks[i]), lead)) { fail("P03", cat("comments before token ", i, " of ", n, ", ", step, " apart: ", str(d.leading_comments(toks[i])))); break; }
            if (i + 1 < n) { std::vector<R> foll(all.begin() + static_cast<long>(i + 1) * each, all.begin() + static_cast<long>(i + 2) * each); if (!same(d.following_comments(toks[i]), foll)) { fail("P03", cat("comments after token ", i, " of ", n, ", ", step, " apart")); break; } } }
    }
    char const* kinds[] = { "/**/", "/***/", "/** a */", "/* a */", "--/**\n", "/** a **/", "/*a**/" };
    bool isdoc[] = { false, true, true, false, false, true, false };
    for (int n = 0; n <= 3; ++n) { int total = 1; for (int i = 0; i < n; ++i) total *= 7;
        for (int code = 0; code < total; ++code) for (int en = 0; en < 2; ++en) for (int pre = 0; pre < 2; ++pre) {
            std::string text; std::vector<R> cs; int want = -1, c = code;
            if (pre) text = "/** other */ x ";
            for (int i = 0; i < n; ++i) { int k = c % 7; c /= 7; std::string s = kinds[k]; std::size_t b = text.size(), len = s.size() - (k == 4 ? 1 : 0); text += s; cs.push_back(R { b, b + len }); if (isdoc[k]) want = i; text += ' '; }
            R tok { text.size(), text.size() + 1 }; text += "y";
            sql_driver d { doc(text) }; d.enable_description_comments() = en != 0;
            if (pre) { d.add_comment(R { 0, 12 }); d.add_comment_separator(R { 13, 14 }); }
            for (auto&& x : cs) d.add_comment(x);
            d.add_comment_separator(tok); ++cases;
            auto r = d.leading_description_comment(tok);
            bool ok = en && want >= 0 ? (r && r.begin == cs[want].begin && r.end == cs[want].end) : !r;
            if (!ok) fail("P03", cat("description before the last token of ", text, en ? "" : " (disabled)", ": got ", r ? cat(r.begin, "-", r.end) : "none"));
        } }
}
static void p09() {
    for (unsigned bits = 0; bits < (1U << 11); ++bits) {
        sql_driver d { doc(std::string(20, '?')) }; std::vector<std::size_t> m;
        for (std::size_t i = 0; i < 11; ++i) if ((bits >> i) & 1U) { d.add_placeholder_mark(R { i, i + 1 }); m.push_back(i); }
        d.add_placeholder_mark(R {}); ++cases;
        for (std::size_t p = 11; p-- > 0;) { std::size_t want = 0; for (std::size_t k = 0; k < m.size(); ++k) if (m[k] == p) want = k + 1;
            auto r = d.find_placeholder_mark(R { p, p + 1 }); if (r != want) fail("P09", cat("marks ", bits, " (bit set) position ", p, ": expected ", want, " got ", r)); }
        if (d.find_placeholder_mark(R {}) != 0) fail("P09", "a position that is not known has a number");
    }
    for (std::size_t step : { 1UL, 3UL, 1000UL, 1UL << 17, (1UL << 32) - 5 }) {
        sql_driver d { doc("x") }; std::size_t n = 70000;
        for (std::size_t i = 0; i < n; ++i) d.add_placeholder_mark(R { i * step, i * step + 1 });
        for (std::size_t i = 0; i < n; i += i < 2000 ? 1 : 97) { ++cases; auto r = d.find_placeholder_mark(R { i * step, i * step + 1 }); if (r != i + 1) { fail("P09", cat("mark ", i + 1, " of ", n, " at ", i * step, ": got ", r)); break; }
            if (step > 1 && d.find_placeholder_mark(R { i * step + 1, i * step + 2 }) != 0) { fail("P09", cat("number of a position without mark: ", i * step + 1)); break; } }
    }
}
static void p10() {
    for (std::size_t n : { 127UL, 128UL, 255UL, 256UL, 257UL, 1000UL, 65535UL, 65536UL, 70001UL }) for (int q = 0; q < 3; ++q) {
        std::string s(n, 'a'); for (std::size_t i = 0; i < n; i += 7) s[i] = static_cast<char>('b' + i % 20); if (q) for (std::size_t i = q; i < n; i += 100 * q + 1) s[i] = '"';
        std::string qd = "\""; for (char ch : s) { qd += ch; if (ch == '"') qd += ch; } qd += '"';
        sql_driver d { doc("x") }; ++cases;
        if (d.parse_delimited_identifier(ast::common::chars { qd }) != s) fail("P10", cat("quoted name of ", n, " bytes"));
        if (!d.check_delimited_identifier(ast::common::chars { qd })) fail("P10", cat("acceptance of a quoted name of ", n, " bytes"));
        if (q == 0 && (d.parse_regular_identifier(ast::common::chars { s }) != s || d.to_regular_identifier(ast::common::chars { s }, R { 3, 7 })->identifier() != s || !d.check_regular_identifier(ast::common::chars { s }))) fail("P10", cat("name of ", n, " bytes"));
    }
    char const* alpha[] = { "a", "B", "_", "\"", " ", "\xe3\x81\x82", "." };
    for (int n = 1; n <= 5; ++n) { int total = 1; for (int i = 0; i < n; ++i) total *= 7;
        for (int code = 0; code < total; ++code) {
            std::string s; int c = code; for (int i = 0; i < n; ++i) { s += alpha[c % 7]; c /= 7; }
            std::string qd = "\""; for (char ch : s) { qd += ch; if (ch == '"') qd += ch; } qd += '"';
            sql_driver d { doc("x") }; ++cases;
            auto r = d.parse_delimited_identifier(ast::common::chars { qd });
            if (r != s) fail("P10", cat("name of ", qd, ": ", r));
            bool under = s.size() >= 2 && s[0] == '_' && s[1] == '_';
            if (d.check_delimited_identifier(ast::common::chars { qd }) == under) fail("P10", cat("acceptance of ", qd));
            if (s.find('"') == std::string::npos) {
                if (d.check_regular_identifier(ast::common::chars { s }) == under) fail("P10", cat("acceptance of ", s));
                if (d.parse_regular_identifier(ast::common::chars { s }) != s) fail("P10", cat("name of ", s));
                auto x = d.to_regular_identifier(ast::common::chars { s }, R { 3, 7 });
                if (x->identifier() != s || x->identifier_kind() != ast::name::simple::identifier_kind_type::regular || x->region().begin != 3 || x->region().end != 7) fail("P10", cat("node of ", s, ": ", js(*x)));
            }
            auto x = d.to_delimited_identifier(ast::common::chars { qd }, R { 3, 7 });
            if (x->identifier() != s || x->identifier_kind() != ast::name::simple::identifier_kind_type::delimited || x->region().begin != 3 || x->region().end != 7) fail("P10", cat("node of ", qd, ": ", js(*x)));
        } }
}
static void p11() {
    using ast::scalar::unary_operator; using ast::literal::numeric;
    for (int op = 0; op < 32; ++op) for (int lit = 0; lit < 3; ++lit) for (int sg = 0; sg < 3; ++sg) for (int wrap = 0; wrap < 2; ++wrap) {
        auto k = static_cast<unary_operator>(op);
        { bool known = k == unary_operator::plus || k == unary_operator::minus || k == unary_operator::not_ || k == unary_operator::at_local || k == unary_operator::reference_resolution; if (!known) continue; }
        sql_driver d { doc("x") }; ++cases;
        std::unique_ptr<ast::literal::literal> l;
        if (lit == 0 || lit == 1) {
            std::optional<ast::common::regioned<ast::literal::sign>> s;
            if (sg == 1) s = ast::common::regioned<ast::literal::sign> { ast::literal::sign::plus, R { 5, 6 } };
            if (sg == 2) s = ast::common::regioned<ast::literal::sign> { ast::literal::sign::minus, R { 5, 6 } };
            l = std::make_unique<numeric>(lit == 0 ? ast::literal::kind::exact_numeric : ast::literal::kind::approximate_numeric, s, ast::common::regioned<ast::common::chars> { "12", R { 6, 8 } }, R { 6, 8 });
        } else { if (sg) continue; l = std::make_unique<ast::literal::string>(ast::literal::kind::character_string, ast::common::regioned<ast::common::chars> { ast::common::chars { "'1'" }, R { 6, 8 } }, std::vector<ast::common::regioned<ast::common::chars>> {}, R { 6, 8 }); }
        std::unique_ptr<ast::scalar::expression> o = std::make_unique<ast::scalar::literal_expression>(std::move(l), R { 6, 8 });
        if (wrap) o = std::make_unique<ast::scalar::unary_expression>(ast::common::regioned<unary_operator> { unary_operator::minus, R { 5, 6 } }, std::move(o), R { 5, 8 });
        std::unique_ptr<ast::scalar::expression> e = std::make_unique<ast::scalar::unary_expression>(ast::common::regioned<unary_operator> { k, R { 4, 5 } }, std::move(o), R { 4, 8 });
        std::string before = js(*e);
        bool fold = (k == unary_operator::plus || k == unary_operator::minus) && lit != 2 && sg == 0 && !wrap;
        auto r = d.try_fold_literal(std::move(e));
        if (!r) { fail("P11", "no expression for " + before); continue; }
        if (!fold) { if (js(*r) != before) fail("P11", before + " became " + js(*r)); continue; }
        numeric w { lit == 0 ? ast::literal::kind::exact_numeric : ast::literal::kind::approximate_numeric, ast::common::regioned<ast::literal::sign> { k == unary_operator::plus ? ast::literal::sign::plus : ast::literal::sign::minus, R { 4, 5 } }, ast::common::regioned<ast::common::chars> { "12", R { 6, 8 } }, R { 6, 8 } };
        ast::scalar::literal_expression we { std::move(w), R { 4, 8 } };
        if (js(*r) != js(we)) fail("P11", before + " became " + js(*r));
    }
    char const* num[] = { "0", "1", "9", "10", "007", "255", "256", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551620", "99999999999999999999999", "00000000000000000000000000012", "000000000000000000000018446744073709551615" };
    for (auto* s : num) {
        sql_driver d { doc("x") }; ++cases; auto r = d.to_size(ast::common::chars { s });
        unsigned __int128 v = 0; bool big = false; for (char const* p = s; *p; ++p) { v = v * 10 + static_cast<unsigned>(*p - '0'); if (v > 18446744073709551615ULL) { big = true; break; } }
        if (r.has_value() == big || (r && *r != static_cast<std::size_t>(v))) fail("P11", cat("size ", s, ": ", r ? cat(*r) : "none"));
    }
    // after an overflow the next size is fine
    sql_driver d { doc("x") }; (void) d.to_size(ast::common::chars { "99999999999999999999999" }); auto r = d.to_size(ast::common::chars { "7" }); ++cases;
    if (!r || *r != 7) fail("P11", "size 7 after an overflow");
}
static void p08() {
    using parser::sql_parser_element_kind; using parser::sql_parser_element_map;
    for (std::size_t k = 0; k <= static_cast<std::size_t>(parser::sql_parser_element_kind_last); ++k) for (std::size_t lk = 0; lk <= static_cast<std::size_t>(parser::sql_parser_element_kind_last); ++lk)
        for (std::size_t limit : { 0UL, 1UL, 3UL, ~0UL }) for (std::size_t n : { 0UL, 1UL, 2UL, 3UL, 4UL, ~0UL }) {
            sql_parser_element_map<std::size_t> m {}; m[static_cast<sql_parser_element_kind>(lk)] = limit;
            sql_driver d { doc("x") }; d.element_limits() = m; ++cases;
            bool r = d.validate_count(R { 3, 4 }, n, static_cast<sql_parser_element_kind>(k));
            bool want = !(k == lk && limit != 0 && n > limit);
            auto g = d.result().diagnostic();
            auto name = to_string_view(static_cast<sql_parser_element_kind>(k));
            if (r != want) fail("P08", cat("limit ", limit, " of ", to_string_view(static_cast<sql_parser_element_kind>(lk)), ", ", n, " of ", name));
            else if (d.result().has_diagnostic() == want) fail("P08", cat("diagnostic for limit ", limit, ", ", n, " of ", name));
            else if (!want && (g.code() != parser::sql_parser_code::exceed_number_of_elements || g.region().begin != 3 || g.region().end != 4 || g.message().find(std::string(name)) == std::string::npos || g.message().find(std::to_string(limit)) == std::string::npos)) fail("P08", cat("diagnostic for limit ", limit, ", ", n, " of ", name, ": ", g.message()));
        }
    sql_driver d { doc("x") }; ++cases;
    if (!d.validate_count(R { 3, 4 }, 1000, sql_parser_element_kind::statement)) fail("P08", "a limit without limits");
}
static void p13() {
    using parser::sql_parser_options; using parser::sql_parser_element_kind;
    auto all = [](sql_parser_options const& o) { std::string s = cat(o.max_expected_candidates(), " ", o.tree_node_limit(), " ", o.tree_depth_limit(), " ", o.enable_description_comments(), " ", o.debug());
        for (std::size_t k = 0; k <= static_cast<std::size_t>(parser::sql_parser_element_kind_last); ++k) s += cat(" ", o.element_limits()[static_cast<sql_parser_element_kind>(k)]); return s; };
    std::string zeros; for (std::size_t k = 0; k <= static_cast<std::size_t>(parser::sql_parser_element_kind_last); ++k) zeros += " 0";
    { sql_parser_options o; ++cases; if (all(o) != "5 0 0 1 0" + zeros) fail("P13", "defaults: " + all(o)); }
    for (int set = 0; set < 5; ++set) { sql_parser_options o; ++cases; std::string w[] = { "5", "0", "0", "1", "0" };
        if (set == 0) { o.max_expected_candidates() = 77; w[0] = "77"; } if (set == 1) { o.tree_node_limit() = 77; w[1] = "77"; } if (set == 2) { o.tree_depth_limit() = 77; w[2] = "77"; }
        if (set == 3) { o.enable_description_comments() = false; w[3] = "0"; } if (set == 4) { o.debug() = 77; w[4] = "77"; }
        std::string want = w[0] + " " + w[1] + " " + w[2] + " " + w[3] + " " + w[4] + zeros;
        if (all(o) != want) fail("P13", cat("option ", set, " set: ", all(o)));
        parser::sql_parser p { std::move(o) }; if (all(p.options()) != want) fail("P13", cat("parser with option ", set, " set: ", all(p.options())));
        sql_parser_options o2; if (all(o2) != "5 0 0 1 0" + zeros) fail("P13", "defaults after a change: " + all(o2)); }
    for (std::size_t k = 0; k <= static_cast<std::size_t>(parser::sql_parser_element_kind_last); ++k) {
        sql_parser_options o, other; ++cases; for (std::size_t j = 0; j <= static_cast<std::size_t>(parser::sql_parser_element_kind_last); ++j) o.element_limits()[static_cast<sql_parser_element_kind>(j)] = 100 + j;
        o.element_limits()[static_cast<sql_parser_element_kind>(k)] = 7;
        for (std::size_t j = 0; j <= static_cast<std::size_t>(parser::sql_parser_element_kind_last); ++j) {
            auto v = static_cast<sql_parser_options const&>(o).element_limits()[static_cast<sql_parser_element_kind>(j)];
            if (v != (j == k ? 7 : 100 + j)) fail("P13", cat("limit ", j, " after setting ", k, ": ", v)); }
        if (all(other) != "5 0 0 1 0" + zeros) fail("P13", "limits of other options: " + all(other));
    }
    // parsing does not change the options
    parser::sql_parser p; p.options().tree_node_limit() = 3; p.options().tree_depth_limit() = 4; p.options().max_expected_candidates() = 2; p.options().element_limits()[sql_parser_element_kind::select_element] = 2;
    auto b = all(p.options());
    for (auto* s : { "", "SELECT 1", "SELECT 1,2,3", "SELECT (1+2)*3", "x", "/*" }) { (void) p("x", s); ++cases; if (all(p.options()) != b) fail("P13", cat("options after parsing ", s, ": ", all(p.options()))); }
    { auto kinds = parser::sql_parser_element_kind_last; parser::sql_parser_element_map<std::size_t> m {}; ++cases; m.get<sql_parser_element_kind::statement>() = 5; m.get<parser::sql_parser_element_kind_last>() = 6; (void) kinds;
      if (m[sql_parser_element_kind::statement] != 5 || m[parser::sql_parser_element_kind_last] != 6 || m[sql_parser_element_kind::select_element] != 0) fail("P13", "get of the limits"); }
}
static void p14() {
    using namespace parser::details; using K = sequence_option_field_kind;
    auto mk = [](K k, int n) { sequence_option_field f; f.kind = k; f.region = R { static_cast<std::size_t>(10 * n), static_cast<std::size_t>(10 * n + 5) };
        auto id = cat("v", n);
        if (k == K::type) f.value = std::unique_ptr<ast::type::type> { std::make_unique<ast::type::user_defined>(std::make_unique<ast::name::simple>(ast::common::chars { id })) };
        else if (k == K::owner) f.value = std::unique_ptr<ast::name::name> { std::make_unique<ast::name::simple>(ast::common::chars { id }) };
        else if (k == K::cycle) f.value = ast::common::regioned<bool> { n % 2 == 0, f.region };
        else f.value = std::unique_ptr<ast::scalar::expression> { std::make_unique<ast::scalar::variable_reference>(std::make_unique<ast::name::simple>(ast::common::chars { id })) };
        return f; };
    auto show = [](sequence_options const& o, int k) -> std::string { switch (k) { case 0: return o.type ? js(*o.type) : ""; case 1: return o.initial_value ? js(*o.initial_value) : ""; case 2: return o.increment_value ? js(*o.increment_value) : ""; case 3: return o.min_value ? js(*o.min_value) : ""; case 4: return o.max_value ? js(*o.max_value) : ""; case 5: return o.owner ? js(*o.owner) : ""; default: return o.cycle ? cat(static_cast<bool>(*(*o.cycle)), o.cycle->region().begin) : ""; } };
    auto text = [&](K k, int n) -> std::string { sequence_options o; auto f = mk(k, n); switch (k) { case K::type: return js(*std::get<1>(f.value)); case K::owner: return js(*std::get<3>(f.value)); case K::cycle: return cat(n % 2 == 0, 10 * n); default: return js(*std::get<2>(f.value)); } };
    for (int n = 1; n <= 4; ++n) { int total = 1; for (int i = 0; i < n; ++i) total *= 7;
        for (int code = 0; code < total; ++code) {
            sql_driver d { doc("x") }; sequence_options o; std::string want[7]; int c = code; ++cases; std::string seq;
            for (int i = 1; i <= n; ++i) { int k = c % 7; c /= 7; seq += cat(k, " ");
                bool dup = !want[k].empty(); bool r = set(d, o, mk(static_cast<K>(k), i));
                if (r == dup) { fail("P14", cat("options ", seq, ": ", r ? "accepted" : "rejected")); break; }
                if (dup) { auto&& g = d.result().diagnostic(); if (g.code() != parser::sql_parser_code::syntax_error || g.region().begin != static_cast<std::size_t>(10 * i) || g.region().end != static_cast<std::size_t>(10 * i + 5)) fail("P14", cat("diagnostic of options ", seq)); }
                else { want[k] = text(static_cast<K>(k), i); if (d.result().has_diagnostic()) fail("P14", cat("diagnostic of options ", seq)); }
                for (int j = 0; j < 7; ++j) if (show(o, j) != want[j]) fail("P14", cat("option ", j, " after ", seq, ": ", show(o, j)));
                if (dup) break; }
        } }
}
static void p12() {
    // repeated parses with one parser give what a fresh parser gives
    char const* texts[] = { "", ";", ";;", "SELECT 1", "SELECT 1;", "SELECT 1;;", "SELECT 1; SELECT 2", "x", "SELECT", "/*", "SELECT \x01", "SELECT __a", "-- c\nSELECT ?, ?", "SELECT 1 /* c */", "SELECT 'a", "CREATE TABLE t (a INT, b INT)", "\xff" };
    auto out = [](parser::sql_parser_result const& r) -> std::string { if (r.has_value() == r.has_diagnostic()) return "NOT EXACTLY ONE"; if (static_cast<bool>(r) != r.has_value()) return "BOOL"; if (r.has_value()) return cat("OK ", js(**r), r.tree_node_count(), " ", r.max_tree_depth()); auto&& d = r.diagnostic(); if (!d.is_valid()) return "INVALID"; return cat(d.code(), d.region().begin, "-", d.region().end, d.message(), "|", d.contents()); };
    parser::sql_parser p;
    for (auto* a : texts) for (auto* b : texts) {
        parser::sql_parser f; auto w = out(f("x", b)); ++cases; (void) p("x", a); auto g = out(p("x", b));
        if (w.rfind("NOT", 0) == 0 || w == "BOOL" || w == "INVALID") fail("P12", cat("result of ", b, ": ", w));
        if (g != w) fail("P12", cat("parsing ", b, " after ", a, ": ", g, " instead of ", w));
    }
    // statements: blank ones only at the end
    for (int n = 0; n <= 5; ++n) for (unsigned bits = 0; bits < (1U << n); ++bits) {
        std::string t; std::size_t want = 0; std::string kinds;
        for (int i = 0; i < n; ++i) { bool e = (bits >> i) & 1U; if (!e) t += cat("SELECT ", i); if (i + 1 < n) t += ";"; }
        bool lastblank = n == 0 || ((bits >> (n - 1)) & 1U); want = n == 0 ? 0 : static_cast<std::size_t>(n) - (lastblank ? 1 : 0);
        auto r = p("x", t); ++cases;
        if (!r.has_value() || (*r)->statements().size() != want) { fail("P12", cat("statements of ", t)); continue; }
        for (std::size_t i = 0; i < want; ++i) if (((*r)->statements()[i]->node_kind() == ast::statement::kind::empty_statement) != (((bits >> i) & 1U) != 0)) fail("P12", cat("statement ", i, " of ", t));
    }
    for (int n = 0; n < 3; ++n) for (unsigned bits = 0; bits < (1U << n); ++bits) {
        sql_driver d { doc("x") }; d.add_comment(R { 0, 1 }); std::vector<std::unique_ptr<ast::statement::statement>> v;
        for (int i = 0; i < n; ++i) v.push_back(std::make_unique<ast::statement::empty_statement>(R { static_cast<std::size_t>(i), static_cast<std::size_t>(i + 1) }));
        d.success(std::move(v)); ++cases; std::size_t want = n ? n - 1 : 0;
        if (!d.result().has_value() || d.result().has_diagnostic() || (*d.result())->statements().size() != want || (*d.result())->comments().size() != 1) fail("P12", cat("success with ", n, " statements"));
        d.error(parser::sql_parser_code::syntax_error, R { 1, 2 }, "m"); if (d.result().has_value() || !d.result().has_diagnostic() || d.result().diagnostic().message() != "m" || d.result().diagnostic().region().begin != 1 || d.result().diagnostic().region().end != 2 || d.result().diagnostic().code() != parser::sql_parser_code::syntax_error) fail("P12", "error");
    }
}
int main(int argc, char** argv) {
    std::string which = argc > 1 ? argv[1] : "all"; std::pair<char const*, void (*)()> fs[] = { { "P03", p03 }, { "P08", p08 }, { "P09", p09 }, { "P10", p10 }, { "P11", p11 }, { "P12", p12 }, { "P13", p13 }, { "P14", p14 } };
    for (auto&& f : fs) if (which == "all" || which == f.first) f.second();
    std::cout << "CASES " << cases << "\n"; return 0;
}
