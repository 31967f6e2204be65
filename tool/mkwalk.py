#!/usr/bin/env python3
"""Writes drivers/walk.h: a walk over a syntax tree through the public accessors that lists the position of every
value that carries one of its own (regioned<T>), which serialization leaves out.  By hand only; the result is committed."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import pipeline, props
from sym import ty
w = pipeline.Work()
class Rep:
    undecided = []; extra = {}; notes = []; results = []
cx = props.gram_ctx(Rep(), w); P = cx.P
import ast_props
A = 'mizugaki::ast::'
node = lambda c: c == A + 'node' or A + 'node' in P.bases(c)
def interesting(t, d=0):
    t = ty(t)
    if t.name == A + 'common::regioned': return True
    if t.name in ('std::optional', 'std::vector', 'std::unique_ptr', A + 'common::clone_wrapper') and t.args: return interesting(t.args[0], d)
    return t.base in P.R and t.base.startswith(A) and (node(t.base) or A + 'element' in P.bases(t.base) or t.base == A + 'element')
out = []; cls = []; incs = set()
for c in sorted(P.R):
    if not c.startswith(A) or not (A + 'element' in P.bases(c) or node(c)) or '<' in c and 'special' not in c: continue
    seen = {}
    for b in P.bases(c):
        for m in P.R[b]['methods']:
            if m.get('access') == 0 and m.get('const') and not m['params'] and '&' in m['ret'] and m['n'] not in seen and 'operator' not in m['n'] and interesting(m['ret']) and m['n'] not in ('region', 'last_name'): seen[m['n']] = m['ret']
    incs.add(P.R[c]['loc'].rsplit(':', 1)[0])
    cls.append((c, sorted(seen)))
with open(os.path.join(pipeline.VERIF, 'drivers', 'walk.h'), 'w') as f:
    f.write('// generated by tool/mkwalk.py: positions of values inside nodes, through the public accessors\n#pragma once\n#include <functional>\n#include <map>\n#include <memory>\n#include <optional>\n#include <string>\n#include <typeindex>\n#include <vector>\n')
    for i in sorted(incs): f.write('#include <%s>\n' % i.split('/include/', 1)[1])
    f.write('''namespace walk {
using namespace mizugaki;
inline std::string out;
template<class T, class = void> struct W { static void go(T const&) {} };
template<class T> void go(T const& x) { W<T>::go(x); }
template<class T> void at(char const* n, T const& x) { auto k = out.size(); out += n; out += '{'; auto m = out.size(); go(x); if (out.size() == m) out.resize(k); else out += '}'; }
template<class T> struct W<ast::common::regioned<T>> { static void go(ast::common::regioned<T> const& x) { auto&& r = x.region(); out += std::to_string(r.begin) + "-" + std::to_string(r.end) + ";"; } };
template<class T> struct W<std::optional<T>> { static void go(std::optional<T> const& x) { if (x) walk::go(*x); } };
template<class T, class D> struct W<std::unique_ptr<T, D>> { static void go(std::unique_ptr<T, D> const& x) { if (x) walk::go(*x); } };
template<class T, class A> struct W<std::vector<T, A>> { static void go(std::vector<T, A> const& x) { int n = 0; for (auto&& e : x) at(std::to_string(n++).c_str(), e); } };
template<class T> void members(T const&);
using F = std::function<void (ast::node const&)>;
std::map<std::type_index, F> const& classes();
template<class T> struct W<T, std::enable_if_t<std::is_base_of_v<ast::node, T>>> { static void go(T const& x) { auto i = classes().find(typeid(x)); if (i == classes().end()) out += "?"; else i->second(x); } };
template<class T> struct W<T, std::enable_if_t<std::is_base_of_v<ast::element, T> && !std::is_base_of_v<ast::node, T>>> { static void go(T const& x) { members(x); } };
''')
    for c, ms in cls: f.write('template<> inline void members(%s const& x) { (void) x;%s }\n' % (c, ''.join(' at("%s", x.%s());' % (m, m) for m in ms)))
    f.write('inline std::map<std::type_index, F> const& classes() { static std::map<std::type_index, F> const m {\n')
    for c, ms in cls:
        if node(c) and not P.R[c]['abstract']: f.write('    { typeid(%s), [](ast::node const& n) { members(dynamic_cast<%s const&>(n)); } },\n' % (c, c))
    f.write('};\n    return m; }\ntemplate<class T> std::string text(T const& x) { out.clear(); members(x); return out; }\n}\n')
w.close(); print(len(cls))
