"""Concrete battery over the AST classes, generated from the classes' constructors in /repo.

Used to replay failed obligations on the real code, and - labelled bounded - where the verifier cannot reach a
function.  Objects are built in a few variants per constructor argument; the expected results come from the
variants used, not from the code under test."""
import os, re
import pipeline
from sym import ty
NS = 'mizugaki::ast::'
GROUPS = 24
REGT = NS + 'node_region'

HEAD = r'''
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <typeinfo>
#include <vector>
#include <takatori/document/basic_document.h>
#include <takatori/serializer/json_printer.h>
#include <takatori/util/clonable.h>
@INC@
using namespace mizugaki;
static std::string g_desc;           // what the arguments are, without regions
static int g_fail = 0, g_run = 0;
static void fail(char const* prop, std::string const& cls, std::string const& what) {
    if (g_fail++ < 4000) std::printf("FAIL %s %s | %s\n", prop, cls.c_str(), what.c_str());
}
template<class E> struct EnumVals;
@ENUMS@
template<class C> struct Cls;        // generated: n, make()
template<class T, class = void> struct Mk;
template<class T> struct is_uptr : std::false_type {};
template<class T, class D> struct is_uptr<std::unique_ptr<T, D>> : std::true_type {};
template<class T> std::unique_ptr<T> mkp(int v, int d);
template<> struct Mk<bool> { static bool mk(int v, int) { g_desc += (v % 2) ? "T;" : "F;"; return v % 2; } };
template<class T> struct Mk<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> { static T mk(int v, int) { static unsigned long long const xs[] { 1, 2, 3, 0, 4294967295ULL, ~0ULL, 2147483648ULL, 4294967297ULL, 9223372036854775808ULL, 9007199254740993ULL }; auto x = static_cast<T>(xs[v % 10]); g_desc += "i" + std::to_string(x) + ";"; return x; } };
template<class T> struct Mk<T, std::enable_if_t<std::is_enum_v<T>>> { static T mk(int v, int) { auto x = EnumVals<T>::at(v); g_desc += "e" + std::to_string(static_cast<int>(x)) + ";"; return x; } };
template<> struct Mk<std::string> { static std::string mk(int v, int d) { (void) d; static std::string const big(70000, 'q');
    std::string s = v == 3 ? "" : v == 4 ? std::string { "S1" } : v == 10 ? std::string { "S0" } : v == 5 ? std::string { "s1\0tail", 7 } : v == 6 ? std::string { "s1\0tale", 7 } : v == 7 ? std::string(300, 'x') + "a" : v == 8 ? std::string(300, 'x') + "b" : v == 9 ? (d <= 1 ? big : std::string { "\xe3\x81\x82\r\n\"'\\\x01" }) : "s" + std::to_string(v); g_desc += "'" + s + "';"; return s; } };
template<> struct Mk<ast::node_region> { static ast::node_region mk(int v, int d) { return ast::node_region { static_cast<std::size_t>(100 + 10 * v + d), static_cast<std::size_t>(105 + 13 * v + d) }; } };
template<class T> struct Mk<std::optional<T>> { static std::optional<T> mk(int v, int d) { if (v == 2 || d > 4) { g_desc += "none;"; return {}; } g_desc += "some("; std::optional<T> r { Mk<T>::mk(v, d) }; g_desc += ");"; return r; } };
template<class T> struct Mk<ast::common::regioned<T>> { static ast::common::regioned<T> mk(int v, int d) { return { Mk<T>::mk(v, d), Mk<ast::node_region>::mk(v, d + 50) }; } };
template<class T, class A> struct Mk<std::vector<T, A>> { static std::vector<T, A> mk(int v, int d) {
    std::vector<T, A> r {}; g_desc += "[";
    if (v != 2 && d <= 4) { r.emplace_back(Mk<T>::mk(v >= 5 ? 0 : v, d)); if (v == 3) r.emplace_back(Mk<T>::mk(0, d)); if (v == 4) { r.emplace_back(Mk<T>::mk(1, d)); }
        if (d <= 1 && v >= 6) for (int k = 1; k < (v <= 7 ? 70 : v == 8 ? 256 : 1100); ++k) r.emplace_back(Mk<T>::mk(v == 7 && k == 69 ? 1 : 0, d)); }
    g_desc += "];"; return r; } };
template<class T, class D> struct Mk<std::unique_ptr<T, D>> { static std::unique_ptr<T, D> mk(int v, int d) { if (v == 5) { g_desc += "null;"; return {}; } return mkp<T>(v, d); } };
template<class T> struct Mk<ast::common::clone_wrapper<T>> { static T mk(int v, int d) { return Mk<T>::mk(v, d); } };
template<class T> struct Mk<takatori::util::maybe_shared_ptr<T>> { static takatori::util::maybe_shared_ptr<T> mk(int, int) { return {}; } };
template<class T> struct Mk<T, std::enable_if_t<std::is_base_of_v<ast::element, T>>> { static T mk(int v, int d) { auto p = mkp<T>(v, d); return std::move(*p); } };
template<class T> std::unique_ptr<T> mkc(int v, int d) {
    g_desc += Cls<T>::name(); g_desc += "{"; int vs[Cls<T>::n + 1]; for (auto& x : vs) x = v;
    auto r = Cls<T>::make(vs, d); g_desc += "};"; return r; }
@MKP@
// text of a value, with regions
template<class T> std::string show(T const& x);
inline std::string show_region(ast::node_region const& r) { return "@" + std::to_string(r.begin) + "-" + std::to_string(r.end); }
template<class T, class = void> struct Show { static std::string s(T const& x) { std::ostringstream o; { takatori::serializer::json_printer p { o }; p << x; } return o.str(); } };
template<class T> struct Show<T, std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>>> { static std::string s(T x) { return std::to_string(static_cast<long long>(x)); } };
template<> struct Show<std::string> { static std::string s(std::string const& x) { return x; } };
template<> struct Show<ast::node_region> { static std::string s(ast::node_region const& x) { return show_region(x); } };
template<class T> struct Show<std::optional<T>> { static std::string s(std::optional<T> const& x) { return x ? "some:" + show(*x) : "none"; } };
template<class T> struct Show<ast::common::regioned<T>> { static std::string s(ast::common::regioned<T> const& x) { return show(x.value()) + show_region(x.region()); } };
template<class T, class A> struct Show<std::vector<T, A>> { static std::string s(std::vector<T, A> const& x) { std::string r = "["; for (auto&& e : x) r += show(e) + ","; return r + "]"; } };
template<class T, class D> struct Show<std::unique_ptr<T, D>> { static std::string s(std::unique_ptr<T, D> const& x) { return x ? show(*x) : "null"; } };
template<class T> struct Show<ast::common::clone_wrapper<T>> { static std::string s(ast::common::clone_wrapper<T> const& x) { return show(*x); } };
template<class T> struct Show<takatori::util::maybe_shared_ptr<T>> { static std::string s(takatori::util::maybe_shared_ptr<T> const&) { return ""; } };
template<class T> std::string show(T const& x) { return Show<T>::s(x); }
struct nest_checker : takatori::serializer::object_acceptor {
    std::string st; int values = 0; std::string bad; std::vector<int> cnt;
    void val() { if (st.empty()) { ++values; } else if (st.back() == '{') bad = "value outside a property"; else if (st.back() == 'p') { if (++cnt.back() > 1) bad = "two values in one property"; } }
    void string(std::string_view) override { val(); }
    void integer(std::int64_t) override { val(); }
    void unsigned_integer(std::uint64_t) override { val(); }
    void real(double) override { val(); }
    void boolean(bool) override { val(); }
    void pointer(void const*) override { val(); }
    void push(char c) { st += c; cnt.push_back(0); }
    void pop(char c) { if (st.empty() || st.back() != c) bad = "unbalanced"; else { st.pop_back(); cnt.pop_back(); } }
    void struct_begin() override { val(); push('{'); }
    void struct_end() override { pop('{'); }
    void property_begin(std::string_view) override { if (st.empty() || st.back() != '{') bad = "property outside a struct"; push('p'); }
    void property_end() override { pop('p'); }
    void array_begin() override { val(); push('['); }
    void array_end() override { pop('['); }
};
// what is written, as a tree in canonical text: the properties of the outermost struct one by one
struct recorder : takatori::serializer::object_acceptor {
    std::string all; int depth = 0; std::string prop; std::vector<std::pair<std::string, std::string>> props;
    void put(std::string const& s) { all += s; if (!props.empty() && (depth > 1 || !prop.empty())) props.back().second += s; }
    void string(std::string_view s) override { put("S" + std::to_string(s.size()) + ":" + std::string { s } + ";"); }
    void integer(std::int64_t x) override { put("I" + std::to_string(x) + ";"); }
    void unsigned_integer(std::uint64_t x) override { put("U" + std::to_string(x) + ";"); }
    void real(double x) override { put("R" + std::to_string(x) + ";"); }
    void boolean(bool x) override { put(x ? "B1;" : "B0;"); }
    void pointer(void const* x) override { put(x ? "P1;" : "P0;"); }
    void struct_begin() override { if (depth++ > 0) put("{"); else all += "{"; }
    void struct_end() override { if (--depth > 0) put("}"); else all += "}"; }
    void property_begin(std::string_view n) override { if (depth == 1) { prop = std::string { n }; props.emplace_back(prop, ""); all += prop + "="; } else put(std::string { n } + "="); }
    void property_end() override { if (depth == 1) { prop.clear(); all += ","; } else put(","); }
    void array_begin() override { put("["); }
    void array_end() override { put("]"); }
    std::string const* find(std::string const& n) const { for (auto& p : props) if (p.first == n) return &p.second; return nullptr; }
};
// the text expected for an attribute
template<class T> std::string expect(T const& x);
template<class T, class = void> struct Exp { static std::string s(T const& x) { recorder r; r << x; return r.all; } };
template<class T> struct Exp<T, std::enable_if_t<std::is_enum_v<T>>> { static std::string s(T x) { std::string n { to_string_view(x) }; return "S" + std::to_string(n.size()) + ":" + n + ";"; } };
template<> struct Exp<bool> { static std::string s(bool x) { return x ? "B1;" : "B0;"; } };
template<class T> struct Exp<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> { static std::string s(T x) {
    if constexpr (std::is_unsigned_v<T> && sizeof(T) == 8) return x == static_cast<T>(-1) ? std::string { "S1:*;" } : "U" + std::to_string(x) + ";"; else return "I" + std::to_string(x) + ";"; } };
template<> struct Exp<std::string> { static std::string s(std::string const& x) { return "S" + std::to_string(x.size()) + ":" + x + ";"; } };
template<class T> struct Exp<std::optional<T>> { static std::string s(std::optional<T> const& x) { return x ? expect(*x) : ""; } };
template<class T> struct Exp<ast::common::regioned<T>> { static std::string s(ast::common::regioned<T> const& x) { return expect(x.value()); } };
template<class T, class A> struct Exp<std::vector<T, A>> { static std::string s(std::vector<T, A> const& x) { std::string r = "["; for (auto&& e : x) r += expect(e); return r + "]"; } };
template<class T, class D> struct Exp<std::unique_ptr<T, D>> { static std::string s(std::unique_ptr<T, D> const& x) { return x ? expect(*x) : ""; } };
template<class T> struct Exp<ast::common::clone_wrapper<T>> { static std::string s(ast::common::clone_wrapper<T> const& x) { return expect(*x); } };
template<> struct Exp<ast::node_region> { static std::string s(ast::node_region const& x) { auto n = static_cast<std::size_t>(-1); return x.begin == n || x.end == n ? "" : "{begin=U" + std::to_string(x.begin) + ";,end=U" + std::to_string(x.end) + ";,}"; } };
template<class T> std::string expect(T const& x) { return Exp<T>::s(x); }
inline std::string cut(std::string const& s) { return s.size() > 120 ? s.substr(0, 120) + "... (" + std::to_string(s.size()) + " characters)" : s; }
template<class T, class = void> struct clonable_by_method : std::false_type {};
template<class T> struct clonable_by_method<T, std::void_t<decltype(std::declval<T const&>().clone())>> : std::true_type {};
template<class C, class Base> void run_class() {
    constexpr int n = Cls<C>::n;
    std::string nm = Cls<C>::name();
    auto build = [&](int base, int idx, int v2) { int vs[n + 1]; for (auto& x : vs) x = base; if (idx >= 0) vs[idx] = v2; g_desc.clear(); return Cls<C>::make(vs, 0); };
    static int const bases[] { 0, 1, 2, 5, 6, 7 };
    for (int base : bases) for (int idx = -1; idx < n; ++idx) for (int v2 = 0; v2 < (idx < 0 ? 1 : 11); ++v2) {
        try {
            auto a = build(base, -1, 0); std::string da = g_desc;
            auto b = build(base, idx, v2); std::string db = g_desc;
            ++g_run;
            std::string arg = idx < 0 ? "" : std::string(Cls<C>::pname(idx)) + "#" + std::to_string(v2) + " base#" + std::to_string(base);
            if constexpr (Cls<C>::has_eq) {
                bool want = da == db;
                if (idx >= 0 && std::string(Cls<C>::pname(idx)) == "region") want = true;
                if (!Cls<C>::skip_eq(*a, *b)) {
                    if ((*a == *b) != want) fail("EQ", nm, (want ? "equal objects compare different: " : "objects different in this attribute compare equal: ") + arg);
                    if ((*b == *a) != want) fail("EQ", nm, "operator== is not symmetric: " + arg);
                    if ((*a != *b) == (*a == *b)) fail("EQ", nm, "operator!= is not the negation: " + arg);
                }
                if (!(*b == *b)) fail("EQ", nm, "an object is not equal to itself: " + arg);
                if constexpr (!std::is_same_v<Base, void>) {
                    Base const& x = *a; Base const& y = *b;
                    if ((x == y) != (*a == *b)) fail("EQ", nm, "comparison through the base class differs: " + arg);
                }
            }
            // construction and access
            { int vs[n + 1]; for (auto& x : vs) x = base; if (idx >= 0) vs[idx] = v2; Cls<C>::check_access(*b, vs); }
            // kinds
            Cls<C>::check_kind(*b); check_derived(*b, nm.c_str()); check_print(*b, nm.c_str());
            // serialization
            { nest_checker k; k << *b; if (!k.bad.empty() || !k.st.empty() || k.values != 1) fail("SER", nm, "not one well-nested value (" + k.bad + "): " + arg); }
            { int vs[n + 1]; for (auto& x : vs) x = base; if (idx >= 0) vs[idx] = v2; recorder k; k << *b; Cls<C>::check_ser(*b, vs, k); }
            std::string ja = show(*a), jb = show(*b);
            if (da != db && ja == jb && !Cls<C>::skip_eq(*a, *b)) fail("SER", nm, "the attribute is not written: " + arg);
            if (da == db && ja != jb && idx < 0) fail("SER", nm, "equal objects are written differently: " + arg);
            // cloning
            auto chk = [&](C const& c, char const* how, bool moved) {
                if (&c == b.get()) fail("CLONE", nm, std::string(how) + " returns the source itself");
                if (typeid(c) != typeid(*b)) fail("CLONE", nm, std::string(how) + " changes the class");
                std::string jc = show(c);
                if (jc != jb) fail("CLONE", nm, std::string(how) + " differs from the source: " + arg + "\n  source " + cut(jb) + "\n  clone  " + cut(jc));
                if (show_region(c.region()) != show_region(moved ? build(base, idx, v2)->region() : b->region())) fail("CLONE", nm, std::string(how) + " loses the region: " + arg);
                if (!moved && show(*b) != jb) fail("CLONE", nm, std::string(how) + " changes the source: " + arg);
            };
            if constexpr (clonable_by_method<C>::value) {
                std::unique_ptr<C> c { static_cast<C const&>(*b).clone() }; chk(*c, "clone()", false);
                auto s = build(base, idx, v2); std::unique_ptr<C> c2 { std::move(*s).clone() }; chk(*c2, "clone() &&", true);
            }
            if constexpr (std::is_constructible_v<C, takatori::util::clone_tag_t, C const&>) {
                C c { takatori::util::clone_tag, static_cast<C const&>(*b) }; chk(c, "copy with clone_tag", false);
                auto s = build(base, idx, v2); C c2 { takatori::util::clone_tag, std::move(*s) }; chk(c2, "move with clone_tag", true);
            }
            if constexpr (std::is_copy_constructible_v<C>) { C c { *b }; chk(c, "copy", false); }
        } catch (std::exception const& e) { (void) e; }
    }
}
'''

UNIT = r'''
    using U = ast::compilation_unit; using ST = ast::statement::statement; using R2 = ast::node_region;
    auto mku = [](int n, int last, int nc, bool doc) {
        std::vector<std::unique_ptr<ST>> ss; for (int k = 0; k < n; ++k) ss.push_back(mkp<ST>(k + 1 == n ? last : 0, 1));
        std::vector<R2> cs; for (int k = 0; k < nc; ++k) cs.emplace_back(static_cast<std::size_t>(3 * k), static_cast<std::size_t>(3 * k + (k == 1 ? 70000 : k == 0 ? 0 : 2)));
        std::shared_ptr<takatori::document::document const> dp {}; if (doc) dp = std::make_shared<takatori::document::basic_document>("loc", "text");
        return std::make_unique<U>(std::move(ss), std::move(cs), takatori::util::maybe_shared_ptr<takatori::document::document const> { std::move(dp) }); };
    int const ns[] { 0, 1, 2, 70, 256, 1100 };
    struct un { int n, last, nc; bool doc; }; std::vector<un> us;
    for (int n : ns) for (int last : { 0, 3 }) for (int nc : { 0, 2, 130 }) for (bool doc : { false, true }) if (n <= 2 || (nc == 2 && !doc)) us.push_back({ n, last, nc, doc });
    for (auto& x : us) { ++g_run; auto a = mku(x.n, x.last, x.nc, x.doc);
        std::string id = std::to_string(x.n) + " statements, " + std::to_string(x.nc) + " comments";
        if (static_cast<int>(a->statements().size()) != x.n || static_cast<int>(a->comments().size()) != x.nc || static_cast<bool>(a->document()) != x.doc) fail("CTOR", "compilation_unit", "accessors: " + id);
        if (&static_cast<U const&>(*a).statements() != &a->statements() || &static_cast<U const&>(*a).comments() != &a->comments() || static_cast<U const&>(*a).document().get() != a->document().get()) fail("CTOR", "compilation_unit", "mutable and read-only accessors differ");
        for (int k = 0; k < x.nc && k < static_cast<int>(a->comments().size()); ++k) if (a->comments()[k].begin != static_cast<std::size_t>(3 * k) || a->comments()[k].end != static_cast<std::size_t>(3 * k + (k == 1 ? 70000 : k == 0 ? 0 : 2))) fail("CTOR", "compilation_unit", "comment " + std::to_string(k) + " is " + show_region(a->comments()[k]));
        auto exps = [&](U const& u) { return "statements=" + expect(u.statements()) + "comments=" + expect(u.comments()); };
        recorder k; k << *a; { nest_checker c; c << *a; if (!c.bad.empty() || !c.st.empty() || c.values != 1) fail("SER", "compilation_unit", "not one well-nested value: " + id); }
        std::string got; for (auto& p : k.props) if (p.first != "document") got += p.first + "=" + p.second;
        if (got != exps(*a)) fail("SER", "compilation_unit", "written as " + cut(got) + " instead of " + cut(exps(*a)) + ": " + id);
        std::string sj = show(*a);
        { U c { takatori::util::clone_tag, static_cast<U const&>(*a) }; if (show(c) != sj || c.document().get() != a->document().get() || show(*a) != sj) fail("CLONE", "compilation_unit", "copy differs from the source: " + id); if (!(c == *a)) fail("CLONE", "compilation_unit", "copy is not equal to the source: " + id); }
        { auto m = mku(x.n, x.last, x.nc, x.doc); auto dp = m->document().get(); U c { takatori::util::clone_tag, std::move(*m) }; if (show(c) != sj || c.document().get() != dp) fail("CLONE", "compilation_unit", "moved unit differs from the source: " + id); }
        for (auto& y : us) { if (y.n > 2 && x.n > 2 && y.n != x.n) continue; auto b = mku(y.n, y.last, y.nc, y.doc);
            bool want = x.n == y.n && (x.n == 0 || x.last == y.last);
            if ((*a == *b) != want || (*a != *b) == (*a == *b)) fail("EQ", "compilation_unit", "comparison of units of " + id + " and " + std::to_string(y.n) + " statements, " + std::to_string(y.nc) + " comments"); } }
'''
ALTS = r'''
    using ast::name::simple; using ast::name::qualified; using ast::name::identifier_kind; using R2 = ast::node_region;
    { simple s { "xy", R2 { 3, 5 } }; if (s.identifier() != "xy" || s.identifier_kind() != identifier_kind::regular || s.region() != R2 { 3, 5 }) fail("CTOR", "name::simple", "a name without kind is not a regular one");
      if (&s.last_name() != &s || s.optional_qualifier() || &s.last_identifier() != &s.identifier()) fail("CTOR", "name::simple", "parts of a simple name");
      simple& r = s.delimited(); if (&r != &s || s.identifier_kind() != identifier_kind::delimited || s.identifier() != "xy" || s.region() != R2 { 3, 5 }) fail("CTOR", "name::simple", "delimited()");
      simple t { "xy" }; simple&& u = std::move(t).delimited(); if (&u != &t || t.identifier_kind() != identifier_kind::delimited || t.identifier() != "xy") fail("CTOR", "name::simple", "delimited() &&");
      qualified q { std::make_unique<simple>("a"), std::make_unique<simple>("b") };
      if (&q.last_name() != q.last().get() || q.optional_qualifier().get() != q.qualifier().get() || q.last_identifier() != "b") fail("CTOR", "name::qualified", "parts of a qualified name");
      qualified q2 { nullptr, std::make_unique<simple>("b") }; if (q2.optional_qualifier()) fail("CTOR", "name::qualified", "a name without qualifier reports one"); }
    { using ast::literal::boolean; using ast::literal::boolean_kind;
      if (boolean { true }.value() != boolean_kind::true_ || boolean { false }.value() != boolean_kind::false_ || boolean { nullptr }.value() != boolean_kind::unknown) fail("CTOR", "literal::boolean", "truth value"); }
    { std::hash<R2> h {}; if (h(R2 { 3, 70 }) != h(R2 { 3, 70 }) || h(R2 {}) != h(R2 {})) fail("REGION", "node_region", "hash code of equal regions");
      using RI = ast::common::regioned<int>; RI a { 3, R2 { 1, 9 } }; RI b { takatori::util::clone_tag, a }; if (b.value() != 3 || b.region() != R2 { 1, 9 }) fail("CLONE", "common::regioned<int>", "copy with clone_tag differs from the source");
      RI e { takatori::util::clone_tag, std::move(b) }; if (e.value() != 3 || e.region() != R2 { 1, 9 }) fail("CLONE", "common::regioned<int>", "move with clone_tag differs from the source");
      if (RI {}.region() || RI {}.value() != 0) fail("REGION", "regioned", "a default value has a region");
      RI const cc { 7, R2 { 1, 2 } }; if (static_cast<int const&>(cc) != 7 || &static_cast<int const&>(cc) != &cc.value() || &*cc != &cc.value()) fail("REGION", "regioned", "conversion to the value"); 
      RI mm { 7 }; static_cast<int&>(mm) = 8; if (mm.value() != 8) fail("REGION", "regioned", "conversion to the value"); *mm = 9; if (mm.value() != 9) fail("REGION", "regioned", "access to the value"); }
'''
FLEX = r'''
template<class C, class = void> struct has_length : std::false_type {}; template<class C> struct has_length<C, std::void_t<decltype(std::declval<C const&>().is_flexible_length())>> : std::true_type {};
template<class C, class = void> struct has_precision : std::false_type {}; template<class C> struct has_precision<C, std::void_t<decltype(std::declval<C const&>().is_flexible_precision())>> : std::true_type {};
template<class C, class = void> struct has_scale : std::false_type {}; template<class C> struct has_scale<C, std::void_t<decltype(std::declval<C const&>().is_flexible_scale())>> : std::true_type {};
template<class C, class = void> struct has_varying : std::false_type {}; template<class C> struct has_varying<C, std::void_t<decltype(std::declval<C const&>().is_varying())>> : std::true_type {};
template<class O> inline bool flex(O const& o) { return o.has_value() && o->value() == static_cast<std::size_t>(-1); }
template<class C> void check_derived(C const& c, char const* nm) {
    if constexpr (has_length<C>::value) { if (c.is_flexible_length() != flex(c.length())) fail("CTOR", nm, "is_flexible_length()"); }
    if constexpr (has_precision<C>::value) { if (c.is_flexible_precision() != flex(c.precision())) fail("CTOR", nm, "is_flexible_precision()"); }
    if constexpr (has_scale<C>::value) { if (c.is_flexible_scale() != flex(c.scale())) fail("CTOR", nm, "is_flexible_scale()"); }
    if constexpr (has_varying<C>::value) { std::string k { to_string_view(c.node_kind()) }; if (c.is_varying() != (k.find("VARYING") != std::string::npos || k.find("varying") != std::string::npos)) fail("CTOR", nm, "is_varying()"); }
}
template<class C> void check_print(C const& c, char const* nm) {
    std::ostringstream o1, o2; std::ostream& r = o1 << c; takatori::serializer::json_printer p { o2 }; static_cast<takatori::serializer::object_acceptor&>(p) << c;
    if (&r != &o1) fail("SER", nm, "operator<< does not return its stream");
    if (o1.str() != o2.str()) fail("SER", nm, "printed as " + cut(o1.str()) + " instead of " + cut(o2.str()));
}
'''
def inner(t):
    while t.name in ('std::unique_ptr', 'std::optional', 'takatori::util::rvalue_ptr', NS + 'common::regioned', NS + 'common::clone_wrapper') and t.args: t = ty(t.args[0])
    return t.base
def altarg(cx, t, k, own, et):
    """(declarations, argument, expected text) of constructor argument k of type t; every value is made twice, for the argument and the text"""
    P = cx.P
    def one(t, v):
        if own and len(own) > 1 and (t.base == et or (t.name == NS + 'common::regioned' and t.args[0] == et)):
            x = '([](int v) { static %s const xs[] { %s }; return xs[v %% %d]; })(%s)' % (et, ', '.join('static_cast<%s>(%d)' % (et, q) for q in own), len(own), v)
            return x if t.base == et else '%s { %s, Mk<ast::node_region>::mk(%s, d + 51) }' % (t.base, x, v)
        return 'Mk<%s>::mk(%s, d + 1)' % (t.base if t.ref else t.s, v)
    if t.name == 'takatori::util::rvalue_ptr':
        b = ty(t.args[0]).base
        return ('auto q%d = mkp<%s>(v, d + 1); takatori::util::rvalue_ptr<%s> p%d {}; if (v != 1) p%d = takatori::util::rvalue_ptr<%s> { std::move(*q%d) };' % (k, b, b, k, k, b, k), 'p%d' % k, '(v == 1 ? std::string {} : expect(*mkp<%s>(v, d + 1)))' % b)
    if t.name == 'std::initializer_list':
        e = ty(t.args[0])
        if e.name.startswith('takatori::util::rvalue_reference_wrapper'):
            b = ty(e.args[0]).base; n = 3
            return (' '.join('auto q%d_%d = mkp<%s>(%s, d + 1);' % (k, j, b, ('v', '0', '1')[j]) for j in range(n)) + ' std::initializer_list<takatori::util::rvalue_reference_wrapper<%s>> p%d { %s };' % (b, k, ', '.join('std::move(*q%d_%d)' % (k, j) for j in range(n))),
                    'p%d' % k, '"[" + ' + ' + '.join('expect(*mkp<%s>(%s, d + 1))' % (b, ('v', '0', '1')[j]) for j in range(n)) + ' + "]"')
        vs = ['Mk<%s>::mk(%s, d + 1)' % (e.s, v) for v in ('v', '0', '1')]
        return ('std::initializer_list<%s> p%d { %s };' % (e.s, k, ', '.join(vs)), 'p%d' % k, '"[" + ' + ' + '.join('expect(%s)' % v for v in vs) + ' + "]"')
    if t.ref == '&&' and t.base in cx._nodeset():
        return ('auto q%d = mkp<%s>(v, d + 1);' % (k, t.base), 'std::move(*q%d)' % k, 'expect(*mkp<%s>(v, d + 1))' % t.base)
    return ('auto p%d = %s;' % (k, one(t, 'v')), 'std::move(p%d)' % k, 'expect(%s)' % one(t, 'v'))
def pick_ctor(cx, c):
    P = cx.P; best = None
    for m in P.R[c]['methods']:
        f = P.F.get(m['id'])
        if m.get('access', 0) != 0 or not f or not f.get('ctor') or 'body' not in f or f.get('copy') or f.get('move'): continue
        if f['params'] and ty(f['params'][0]['t']).base == 'takatori::util::clone_tag_t': continue
        bad = 0
        for p in f['params']:
            t = ty(p['t'])
            if t.ref == '&&' or 'rvalue_ptr' in t.s or 'initializer_list' in t.s: bad += 1
            if t.base == 'std::nullptr_t' or not p['n']: bad += 100
            if t.base == 'bool' and c.endswith('literal::boolean'): bad += 10
        key = (-bad, len(f['params']))
        if best is None or key > best[0]: best = (key, f)
    return best[1] if best else None
def cxx(t):
    return t
def generate(cx, props, enums_of, w):
    """C++ source of the battery"""
    import ast_props as A
    P = cx.P
    incs = sorted({P.R[c]['loc'].rsplit(':', 1)[0] for c in cx.nodes if P.R[c].get('loc', '').startswith(pipeline.REPO + '/include')} | {pipeline.REPO + '/include/mizugaki/ast/%s/dispatch.h' % d for d in ('literal', 'name', 'query', 'scalar', 'statement', 'table', 'type')} | {pipeline.REPO + '/include/mizugaki/ast/compilation_unit.h'})
    incs = [i for i in incs if os.path.exists(i)]
    ctors = {c: pick_ctor(cx, c) for c in cx.concrete}
    ctors = {c: f for c, f in ctors.items() if f}
    # every class usable at depth: fixpoint of minimal depth
    depth = {}
    def pdepth(t):
        t = ty(t)
        if t.name in ('std::optional', 'std::vector', 'takatori::util::maybe_shared_ptr'): return 0
        if t.name in ('std::unique_ptr', NS + 'common::regioned', NS + 'common::clone_wrapper'): return pdepth(t.args[0])
        if t.base in cx._nodeset():
            if P.R[t.base]['abstract']:
                ds = [depth[c] for c in ctors if c in depth and t.base in P.bases(c)]
                return min(ds) if ds else 99
            return depth.get(t.base, 99)
        return 0
    for _ in range(12):
        for c, f in ctors.items():
            d = 1 + max([0] + [pdepth(p['t']) for p in f['params']])
            if d < 50: depth[c] = min(d, depth.get(c, 99))
    ctors = {c: f for c, f in ctors.items() if c in depth}
    out = []
    enums = []
    for en, e in sorted(P.E.items()):
        if en.startswith('mizugaki::ast::'):
            enums.append('template<> struct EnumVals<%s> { static %s at(int v) { static %s const xs[] { %s }; return xs[v %% %d]; } };' % (en, en, en, ', '.join('static_cast<%s>(%d)' % (en, x) for n, x in e['items']), len(e['items'])))
    mkp = []
    for c in sorted(ctors): mkp.append('template<> std::unique_ptr<%s> mkp<%s>(int v, int d);' % (c, c))
    abstracts = [c for c in cx.nodes if P.R[c]['abstract'] and any(c in P.bases(x) for x in ctors) and c != NS + 'node']
    for c in sorted(abstracts): mkp.append('template<> std::unique_ptr<%s> mkp<%s>(int v, int d);' % (c, c))
    for c in sorted(ctors):
        f = ctors[c]; own = cx.static_tags.get(c); et = ty(P.F[cx.tags[c]]['ret']).base if c in cx.tags else None
        lines = []
        def expr(t, v, p):
            t = ty(t)
            if own and len(own) > 1 and (t.base == et or (t.name == NS + 'common::regioned' and t.args[0] == et)):
                vals = ', '.join('static_cast<%s>(%d)' % (et, k) for k in own)
                x = '([](int v) { static %s const xs[] { %s }; auto x = xs[v %% %d]; g_desc += "k" + std::to_string(static_cast<int>(x)) + ";"; return x; })(%s)' % (et, vals, len(own), v)
                if t.base == et: return x
                return '%s { %s, Mk<%sast::node_region>::mk(%s, d + 51) }' % (t.base, x, 'mizugaki::', v)
            if t.ref == '&&' and t.base in cx._nodeset() and P.R[t.base]['abstract']: return 'mkp<%s>(%s, d + 1)' % (t.base, v)
            return 'Mk<%s>::mk(%s, d + 1)' % (t.base if t.ref else t.s, v)
        for k, p in enumerate(f['params']): lines.append('auto p%d = %s;' % (k, expr(p['t'], 'v[%d]' % k, p)))
        def arg(k, p):
            t = ty(p['t'])
            if t.ref == '&&' and t.base in cx._nodeset() and P.R[t.base]['abstract']: return 'std::move(*p%d)' % k
            return 'std::move(p%d)' % k
        call = ', '.join(arg(k, p) for k, p in enumerate(f['params']))
        acc = []
        for k, p in enumerate(f['params']):
            nm = A.PARAM_ACCESSOR.get((c, p['n']), p['n']); con, mut = A.accessors(cx, c, nm)
            t = ty(p['t'])
            if not con and not mut: continue
            if t.ref == '&&' or 'rvalue' in t.s or 'initializer_list' in t.s: continue
            q = 'const_cast<%s&>(o)' % c if not con else 'o'
            acc.append('{ auto e = %s; auto s1 = show(%s.%s()), s2 = show(e); if (s1 != s2) fail("CTOR", name(), "accessor %s() does not return the constructor argument: " + cut(s1) + " instead of " + cut(s2)); }' % (expr(p['t'], 'v[%d]' % k, p), q, nm, nm))
            if mut and con and ty(P.F[mut]['ret']).ref:
                cq = 'static_cast<%s const&>(o)' % c
                acc.append('{ auto s1 = show(%s.%s()), s2 = show(const_cast<%s&>(o).%s()); if (s1 != s2) fail("CTOR", name(), "mutable and read-only accessor %s() differ"); }' % (cq, nm, c, nm, nm))
        ser = []; known = ['node_kind', 'region']
        ent = ty(P.F[cx.tags[c]]['ret']).base if c in cx.tags else None
        for n_, ft, dc, nd in P.fields(c): known.append(n_.rstrip('_'))
        for k, p in enumerate(f['params']):
            nm = A.PARAM_ACCESSOR.get((c, p['n']), p['n']); t = ty(p['t'])
            if not any(accessors_found for accessors_found in A.accessors(cx, c, nm)) and nm not in known: continue
            if 'rvalue' in t.s or 'initializer_list' in t.s: continue
            et2 = ty(t.args[0]).base if t.name == NS + 'common::regioned' else t.base
            alt = ent is not None and et2 == ent
            if t.base == REGT:
                ser.append('{ auto e = %s; if (auto* q = k.find("%s")) { auto s2 = expect(e); if (*q != s2) fail("SER", name(), "the %s is written as " + cut(*q) + " instead of " + cut(s2)); } else fail("SER", name(), "the %s is not written"); }' % (expr(p['t'], 'v[%d]' % k, p), p['n'], p['n'], p['n'])); continue
            ser.append('{ auto e = %s; auto* q = k.find("%s"); %sif (!q) { if (!skip) fail("SER", name(), "there is no property %s"); } else { auto s2 = expect(e); if (*q != s2 && !skip) fail("SER", name(), "property %s is written as " + cut(*q) + " instead of " + cut(s2)); } }' % (
                expr(p['t'], 'v[%d]' % k, p), nm, 'if (!q) q = k.find("node_kind"); ' if alt else '', nm, nm))
        ser.append('{ static char const* const kn[] { %s }; for (auto& p : k.props) { bool f = false; for (auto x : kn) f = f || p.first == x; if (!f) fail("SER", name(), "property " + p.first + " is none of the attributes"); } }' % ', '.join('"%s"' % x for x in known))
        kind = []
        cat = A.category_of(cx, c)
        if c in cx.tags and own:
            kind.append('{ auto k = static_cast<int>(o.node_kind()); if (!(%s)) fail("KIND", name(), "node_kind() returns " + std::to_string(k)); }' % ' || '.join('k == %d' % x for x in own))
            kind.append('{ struct cb { bool operator()(%s const&) const { return true; } bool operator()(%s const&) const { return false; } }; %s const& b = o; if (!dispatch(cb {}, b)) fail("KIND", name(), "dispatch() calls back for another class"); }' % (c, cat, cat)) if cat else None
        cond = 'false'
        for (dc, n), (kf, en, item) in A.CONDITIONAL.items():
            if dc == c: cond = 'static_cast<int>(a.%s()) != %d || static_cast<int>(b.%s()) != %d' % (kf.rstrip('_'), dict(P.E[en]['items'])[item], kf.rstrip('_'), dict(P.E[en]['items'])[item])
        haseq = c in cx.eq
        out.append('template<> struct Cls<%s> {\n static constexpr int n = %d; static constexpr bool has_eq = %s;\n static char const* name() { return "%s"; }\n static char const* pname(int i) { static char const* xs[] { %s"" }; return xs[i]; }\n'
                   ' static std::unique_ptr<%s> make(int const* v, int d) { %s return std::make_unique<%s>(%s); }\n'
                   ' static bool skip_eq(%s const& a, %s const& b) { (void) a; (void) b; return %s; }\n'
                   ' static void check_access(%s const& o, int const* v) { int d = 0; (void) d; (void) o; (void) v; std::string keep = g_desc; %s g_desc = keep; }\n'
                   ' static void check_ser(%s const& o, int const* v, recorder const& k) { int d = 0; (void) d; (void) v; (void) k; bool skip = skip_eq(o, o); (void) skip; std::string keep = g_desc; %s g_desc = keep; }\n'
                   ' static void check_kind(%s const& o) { (void) o; %s }\n};' % (
                       c, len(f['params']), 'true' if haseq else 'false', A.short(c), ''.join('"%s", ' % p['n'] for p in f['params']), c, '\n  '.join(lines), c, call, c, c, cond, c, '\n  '.join(acc), c, '\n  '.join(ser), c, '\n  '.join(kind)))
        out.append('template<> std::unique_ptr<%s> mkp<%s>(int v, int d) { return mkc<%s>(v, d); }' % (c, c, c))
    for a in sorted(abstracts):
        cs = sorted([c for c in ctors if a in P.bases(c)], key=lambda c: (depth[c], c)); m = cs[0]
        sw = ''.join('case %d: return mkc<%s>(v, d);\n' % (k, c) for k, c in enumerate(cs))
        out.append('template<> std::unique_ptr<%s> mkp<%s>(int v, int d) { if (v < 2 || d > 2) return mkc<%s>(v, d); switch (v %% %d) { %s } return {}; }' % (a, a, m, len(cs), sw))
    src = HEAD.replace('template<class C, class Base> void run_class', FLEX + 'template<class C, class Base> void run_class').replace('@INC@', '\n'.join('#include "%s"' % i for i in incs)).replace('@ENUMS@', '\n'.join(enums)).replace('@MKP@', '\n'.join(mkp))
    head = src + '\n' + '\n'.join(out)
    files = []
    # split: declarations in one header, one TU per group of classes
    d = w.path('battery'); os.makedirs(d, exist_ok=True)
    hdr = src + '\n'
    decl = '\n'.join(x for x in out if x.startswith('template<> struct Cls'))
    defs = '\n'.join('template<> ' + x[len('template<> '):] for x in out if not x.startswith('template<> struct Cls'))
    open(os.path.join(d, 'b.h'), 'w').write('#pragma once\n' + hdr.replace('static int g_fail = 0, g_run = 0;', 'inline int g_fail = 0, g_run = 0;').replace('static std::string g_desc;', 'inline std::string g_desc;').replace('static void fail', 'inline void fail') + decl + '\n')
    open(os.path.join(d, 'defs.cpp'), 'w').write('#include "b.h"\n' + defs + '\n')
    files.append(os.path.join(d, 'defs.cpp'))
    cs = sorted(ctors); G = GROUPS; groups = [cs[i::G] for i in range(G)]
    for k, g in enumerate(groups):
        body = '#include "b.h"\nvoid group%d(std::string const& only) {\n' % k
        for c in g:
            cat = A.category_of(cx, c)
            eqb = cat if cat and cat in cx.eq else 'void'
            body += ' if (only.empty() || only == "%s") run_class<%s, %s>();\n' % (A.short(c), c, eqb)
        open(os.path.join(d, 'g%d.cpp' % k), 'w').write(body + '}\n'); files.append(os.path.join(d, 'g%d.cpp' % k))
    # the other constructors: every one, with its own kinds of arguments (may be left out if it does not compile)
    alts = '#include "b.h"\nvoid alts() {\n'
    for c in sorted(ctors):
        own = cx.static_tags.get(c); et = ty(P.F[cx.tags[c]]['ret']).base if c in cx.tags else None
        for m in P.R[c]['methods']:
            f = P.F.get(m['id'])
            if not f or not f.get('ctor') or 'body' not in f or f.get('copy') or f.get('move') or f is ctors[c] or m.get('access', 0) != 0: continue
            if f['params'] and ty(f['params'][0]['t']).base == 'takatori::util::clone_tag_t': continue
            if any(ty(p['t']).base == 'std::nullptr_t' or not p['n'] for p in f['params']): continue
            if c.endswith('::boolean') and any(ty(p['t']).base == 'bool' for p in f['params']): continue
            decl, args, chk = [], [], []
            for k, p in enumerate(f['params']):
                t = ty(p['t']); e, a, x = altarg(cx, t, k, own, et)
                decl.append(e); args.append(a)
                nm = A.PARAM_ACCESSOR.get((c, p['n']), p['n']); con, mut = A.accessors(cx, c, nm)
                if not con: continue
                wrap = 'false'
                it = inner(t); at = inner(ty(P.F[con]['ret']))
                if it in P.R and it.startswith(NS) and it != at and it not in P.bases(at) and at not in P.bases(it): wrap = 'true'
                if t.name == 'std::initializer_list' and not at.startswith('std::vector'): wrap = 'true'
                chk.append('{ auto s1 = expect(o.%s()), s2 = x%d; if (s1 != s2 && !(%s && s1.find(s2) != std::string::npos)) fail("CTOR", "%s", "constructor (%s): accessor %s() does not return the argument: " + cut(s1) + " instead of " + cut(s2)); }' % (
                    nm, k, wrap, A.short(c), ', '.join(q['n'] for q in f['params']), nm))
                decl.append('std::string x%d = %s;' % (k, x))
            given = {p['n'] for p in f['params']} | {A.PARAM_ACCESSOR.get((c, p['n']), p['n']) for p in f['params']}
            for n_, ft, dc, nd in P.fields(c):
                nm = n_.rstrip('_')
                if nm in given or (dc, n_) in A.CONDITIONAL or not A.accessors(cx, c, nm)[0] or ty(ft).name not in ('std::unique_ptr', 'std::optional', 'std::vector'): continue
                chk.append('{ auto s1 = expect(o.%s()); if (s1 != "" && s1 != "[]") fail("CTOR", "%s", "constructor (%s): the attribute %s, not given, is " + cut(s1)); }' % (nm, A.short(c), ', '.join(q['n'] for q in f['params']), nm))
            alts += ' for (int v : { 0, 1, 3, 4 }) { ++g_run; int d = 0; (void) d; (void) v; try { %s\n  %s o { %s };\n  %s } catch (std::exception const&) {} }\n' % (' '.join(decl), c, ', '.join(args), '\n  '.join(chk))
    open(os.path.join(d, 'alts.cpp'), 'w').write(alts + ALTS + '}\n'); files.append(os.path.join(d, 'alts.cpp'))
    en = '#include "b.h"\nvoid enums() {\n'
    for e in sorted(P.E):
        if e in enums_of:
            en += ' { std::vector<std::string> seen; for (int i = 0; i < %d; ++i) { auto v = EnumVals<%s>::at(i); std::string s { to_string_view(v) }; std::ostringstream o; o << v; ++g_run; if (o.str() != s) fail("ENUM", "%s", "printed differently: " + s); for (auto& x : seen) if (x == s) fail("ENUM", "%s", "two values are named " + s); seen.push_back(s); } }\n' % (len(P.E[e]['items']), e, A.short(e), A.short(e))
    en += '''
    using R = ast::node_region; std::size_t const N = static_cast<std::size_t>(-1);
    std::size_t xs[] { 0, 1, 2, 5, 9, N };
    std::vector<R> rs; for (auto x : xs) for (auto y : xs) rs.emplace_back(x, y);
    if (R {}) fail("REGION", "node_region", "a default region is valid");
    for (auto a : rs) { if (static_cast<bool>(a) != (a.begin != N && a.end != N)) fail("REGION", "node_region", "validity of " + show_region(a));
      if (a.first() != a.begin || a.last() != a.end) fail("REGION", "node_region", "ends of " + show_region(a));
      for (auto b : rs) { ++g_run;
        bool va = a.begin != N && a.end != N, vb = b.begin != N && b.end != N; R u = a | b;
        if ((a == b) != (a.begin == b.begin && a.end == b.end) || (a != b) == (a == b)) fail("REGION", "node_region", "comparison of " + show_region(a) + " and " + show_region(b));
        bool ok = va && vb ? (u.begin == std::min(a.begin, b.begin) && u.end == std::max(a.end, b.end)) : va ? (u.begin == a.begin && u.end == a.end) : vb ? (u.begin == b.begin && u.end == b.end) : !u;
        if (!ok) fail("REGION", "node_region", "union of " + show_region(a) + " and " + show_region(b) + " is " + show_region(u)); }
      if (a.begin <= a.end && a.end != N) for (std::size_t off : { 0, 1, 3, 20 }) for (std::size_t len : { std::size_t(0), std::size_t(1), std::size_t(4), N }) { ++g_run; R c = a; R r = c(off, len);
        if (!(a.begin <= r.begin && r.begin <= r.end && r.end <= a.end)) fail("REGION", "node_region", "sub-region of " + show_region(a) + " is " + show_region(r));
        if (a.begin + off <= a.end && (r.begin != a.begin + off || r.end != (len == N ? a.end : std::min(a.end, a.begin + off + len)))) fail("REGION", "node_region", "sub-region of " + show_region(a) + " is " + show_region(r)); } }
    { ast::common::regioned<int> x { 3, R { 1, 2 } }, y { 3, R { 5, 6 } }, z { 4, R { 1, 2 } };
      if (!(x == y) || x == z || x != y || !(x == 3) || x == 4 || *x != 3 || x.value() != 3 || x.region().begin != 1 || x.region().end != 2) fail("REGION", "regioned", "value, region or comparison"); }
'''
    en += UNIT
    open(os.path.join(d, 'enums.cpp'), 'w').write(en + '}\n'); files.append(os.path.join(d, 'enums.cpp'))
    main = '#include "b.h"\n' + ''.join('void group%d(std::string const&);\n' % k for k in range(G)) + 'void enums(); void alts() __attribute__((weak));\nint main(int argc, char** argv) { std::string only = argc > 1 ? argv[1] : ""; int g = -1; if (only[0] == \'@\') { g = std::atoi(only.c_str() + 1); only.clear(); }\n' + ''.join(' if (g < 0 || g == %d) group%d(only);\n' % (k, k) for k in range(G)) + ' if (only.empty() && (g < 0 || g == %d)) enums();\n if (only.empty() && (g < 0 || g == %d) && alts) alts();\n' % (G, G) + ' std::printf("RUN %d FAIL %d\\n", g_run, g_fail); return 0; }\n'
    open(os.path.join(d, 'main.cpp'), 'w').write(main); files.append(os.path.join(d, 'main.cpp'))
    return files, len(ctors)

_cache = {}
def run(cx, w, only=''):
    """build and run; returns (list of (prop, class, what), cases, error)"""
    if 'bin' not in _cache:
        import ast_props as A
        enums_of = {ty(f['params'][0]['t']).base for f in cx.P.F.values() if A.is_enum_name_fn(cx.P, f)}
        files, n = generate(cx, None, enums_of, w)
        objs, fails = pipeline.compile_objs(w, pipeline.sources('ast') + files, ['-DSERIALIZE_REGION', '-fno-strict-return', '-DNDEBUG'])
        left = [f for f in fails if os.path.basename(f[0]) == 'alts.cpp']
        if left and len(left) == len(fails): fails = []; print('  note: the battery of the other constructors does not compile: ' + left[0][1][:300].replace('\n', ' ')); objs = [o for o in objs if o]
        if fails: _cache['bin'] = None; _cache['err'] = 'battery does not compile: ' + fails[0][0] + ': ' + fails[0][1][:1500]
        else:
            exe = w.path('battery.exe'); ok, err = pipeline.link(w, objs, exe)
            _cache['bin'] = exe if ok else None; _cache['err'] = err
    if not _cache['bin']: return [], 0, _cache['err']
    import subprocess
    fails, cases = [], 0
    def one(arg):
        fails, cases, done = [], 0, False
        try:
            r = subprocess.run([_cache['bin']] + ([arg] if arg else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
            out = r.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired as e: out = (e.stdout or b'').decode('utf8', 'replace'); r = None
        for l in out.split('\n'):
            if l.startswith('FAIL ') and ' | ' in l:
                h, t = l.split(' | ', 1); _, p, c = h.split(' ', 2); fails.append((p, c, t))
            if l.startswith('RUN '): cases = int(l.split()[1]); done = True
        if not done and r is None: r = type('T', (), {'returncode': 'no end within 400 s'})
        if not done: fails.append(('CRASH', only or '*', 'the battery ended abnormally (%s)' % r.returncode))
        return fails, cases, None
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, [only] if only else ['@%d' % k for k in range(GROUPS + 1)]))
    err = None
    for f, c, e in rs: fails += f; cases += c; err = err or e
    return fails, cases, err

RULE = 'for every concrete AST class and every constructor argument: objects built from eleven variants of that argument (absent, empty, long, NUL bytes, values over 32 bits, up to 1100 elements) over six base variants of the others; each checked for equality, accessors, kind, serialization and cloning; plus all enumerator pairs and small region triples'
