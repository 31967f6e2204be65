// Runs texts through the real scanner and parser.  Records on stdin:
//   <mode> <node-limit> <depth-limit> <max-candidates> <descriptions> <kind:limit,...|-> <length>\n<bytes>\n
// mode P: parse, W: parse and list the positions of values inside nodes, limits by the name of their kind; S: parse with one parser for all records; M, X: keep, parse all kept at once; T: scan, kinds of token whose text is wanted.  One line of output per record.
#include <cstdio>
#include <cstdlib>
#include <atomic>
#include <iostream>
#include <thread>
#include <set>
#include <sstream>
#include <string>
#include <takatori/serializer/json_printer.h>
#include <takatori/document/basic_document.h>
#include <mizugaki/parser/sql_parser.h>
#include <mizugaki/parser/sql_driver.h>
#include <mizugaki/parser/sql_scanner.h>
#include <mizugaki/parser/sql_parser_generated.hpp>
using namespace mizugaki;
static std::string esc(std::string const& s) {
    std::string r;
    for (unsigned char c : s) { if (c < 0x20 || c >= 0x7f || c == '\\') { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += static_cast<char>(c); }
    return r;
}
std::string walk_text(ast::compilation_unit const&);
template<class E> static std::string str(E const& e) { std::ostringstream o; o << e; return o.str(); }
static std::string render(parser::sql_parser_result& r) {
    std::string out;
    if (r.has_value()) {
        out = "OK " + str(r.tree_node_count()) + " " + str(r.max_tree_depth()) + " ";
        for (auto&& c : (*r.value()).comments()) out += str(c.begin) + "-" + str(c.end) + ",";
        std::ostringstream o; { ::takatori::serializer::json_printer jp { o }; jp << *r.value(); }
        out += " " + esc(o.str());
        if (r.has_diagnostic()) out += " AND-DIAGNOSTIC";
    } else if (r.has_diagnostic()) {
        auto&& d = r.diagnostic();
        out = "ERR " + str(d.code()) + " " + str(d.region().begin) + "-" + str(d.region().end) + " " + esc(d.message());
    } else out = "NEITHER";
    return out;
}
static void set_options(parser::sql_parser_options& o, std::size_t nl, std::size_t dl, std::size_t mc, int desc, std::string const& limits) {
    o.tree_node_limit() = nl; o.tree_depth_limit() = dl; o.max_expected_candidates() = mc; o.enable_description_comments() = desc != 0;
    if (limits != "-") {
        std::istringstream l { limits }; std::string kv;
        while (std::getline(l, kv, ',')) { auto c = kv.find(':'); for (std::size_t k = 0; k <= static_cast<std::size_t>(parser::sql_parser_element_kind_last); ++k) { auto e = static_cast<parser::sql_parser_element_kind>(k); if (to_string_view(e) == kv.substr(0, c)) o.element_limits()[e] = std::strtoull(kv.c_str() + c + 1, nullptr, 10); } }
    }
}
static bool has_options(parser::sql_parser_options const& o, std::size_t nl, std::size_t dl, std::size_t mc, int desc) {
    return o.tree_node_limit() == nl && o.tree_depth_limit() == dl && o.max_expected_candidates() == mc && o.enable_description_comments() == (desc != 0);
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream h { line }; std::string mode, limits; std::size_t nl {}, dl {}, mc {}, n {}; int desc {};
        h >> mode >> nl >> dl >> mc >> desc >> limits >> n;
        std::string text(n, '\0'); std::cin.read(text.data(), static_cast<std::streamsize>(n)); std::cin.get();
        try {
            if (mode == "T") {
                auto doc = std::make_shared<::takatori::document::basic_document>("x", text);
                parser::sql_driver d { doc }; std::istringstream in { text }; parser::sql_scanner s { in };
                std::string out = "T"; std::set<int> images; // token kinds that carry their text
                if (limits != "-") { std::istringstream l { limits }; std::string kv; while (std::getline(l, kv, ',')) images.insert(std::atoi(kv.c_str())); }
                for (std::size_t k = 0; k < text.size() + 2; ++k) {
                    auto t = s.next_token(d);
                    out += " " + str(static_cast<int>(t.kind())) + ":" + str(t.location.begin) + "-" + str(t.location.end);
                    auto kind = t.kind();
                    if (images.count(static_cast<int>(kind)) > 0) { out += "="; for (auto c : esc(t.value.template as<ast::common::chars>())) { if (c == ' ') out += "\\x20"; else out += c; } }
                    if (kind == parser::sql_parser_generated::symbol_kind::S_YYEOF || kind == parser::sql_parser_generated::symbol_kind::S_ERROR || kind == parser::sql_parser_generated::symbol_kind::S_UNCLOSED_BLOCK_COMMENT) break;
                }
                out += " |"; for (auto&& c : d.comments()) out += " " + str(c.begin) + "-" + str(c.end);
                std::cout << out << "\n" << std::flush; continue;
            }
            if (mode == "S") { // one parser for all texts, options changed in place
                static parser::sql_parser shared;
                for (std::size_t k = 0; k <= static_cast<std::size_t>(parser::sql_parser_element_kind_last); ++k) shared.options().element_limits()[static_cast<parser::sql_parser_element_kind>(k)] = 0;
                set_options(shared.options(), nl, dl, mc, desc, limits);
                auto r = shared("x", text); auto out = render(r);
                if (!has_options(shared.options(), nl, dl, mc, desc)) out = "OPTIONS CHANGED " + out;
                if (limits != "-") shared.options() = parser::sql_parser_options {};
                std::cout << out << "\n" << std::flush; continue;
            }
            if (mode == "M" || mode == "X") { // texts kept up to X, then parsed by one const parser on several threads
                static std::vector<std::string> texts; texts.push_back(text);
                if (mode == "M") { std::cout << "-\n" << std::flush; continue; }
                parser::sql_parser mine; set_options(mine.options(), nl, dl, mc, desc, limits); auto const& p = mine;
                std::vector<std::string> outs(texts.size()); std::vector<std::thread> ts; std::atomic<std::size_t> next { 0 };
                for (int k = 0; k < 8; ++k) ts.emplace_back([&] { for (std::size_t i; (i = next++) < texts.size();) try { auto r = p("x", texts[i]); outs[i] = render(r); } catch (std::exception const& e) { outs[i] = "THROW " + esc(e.what()); } });
                for (auto&& t : ts) t.join();
                texts.clear(); for (auto&& o : outs) std::cout << o << "\t"; std::cout << "\n" << std::flush; continue;
            }
            parser::sql_parser p;
            set_options(p.options(), nl, dl, mc, desc, limits);
            auto r = p("x", text);
            if (mode == "W") { std::cout << (r.has_value() ? "OK " + walk_text(*r.value()) : std::string("ERR")) << "\n" << std::flush; continue; }
            auto out = render(r);
            std::cout << out << "\n" << std::flush;
        } catch (std::exception const& e) { std::cout << "THROW " << esc(e.what()) << "\n" << std::flush; }
    }
    return 0;
}
