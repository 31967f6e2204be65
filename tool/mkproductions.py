"""Writes contracts/productions.txt from the current tree, for review.  Run by hand only: checks never call it."""
import sys, os
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(H, '..', 'lib')); sys.setrecursionlimit(20000)
import pipeline, sym, gram
from gram_props import *
w = pipeline.Work()
try:
    g = pipeline.generate(w)
    d1, _ = pipeline.extract(w, pipeline.sources('ast') + pipeline.sources('parser') + [os.path.join(g, 'mizugaki/parser/sql_parser_generated.cpp')])
    cx = gram.GCtx(sym.Program(d1), os.path.join(g, 'mizugaki/parser/p.xml'))
finally: w.close()
VAL = {'decimal_type_name': ['decimal', 'numeric']}
ptr = {n for n in cx.G.nterm if cx.lhs_type(n) and (ty(cx.lhs_type(n)).name == 'std::unique_ptr' or ty(cx.lhs_type(n)).name == 'std::vector' and ty(ty(cx.lhs_type(n)).args[0]).name == 'std::unique_ptr')}
cx.nonnull = set(ptr)
for k, v in VAL.items():
    et = ty(cx.lhs_type(k)).args[0]; items = {n: x for n, x in cx.P.E[ty(et).base]['items']}; cx.values[k] = [items[n] for n in v]
while True:
    bad = set(); recs = []
    for r in cx.G.rules[1:]:
        p = Prod(cx, r); a = p.act(); it = Interp(cx.P, a.contracts(), a.hooks()); cases = []
        def th(it):
            c = p.run(it, a)
            if c.exit == 'end' and c.value and r['lhs'] in cx.nonnull and any(it.feasible(x) for x in nonnull_terms(it, c.value.v)): bad.add(r['lhs'])
            it.path.st['case'] = c
        for ph in it.explore(th):
            if ph.out != 'ok': raise SystemExit('%s: %s %s' % (p.text, ph.out, ph.ret))
            c = ph.st['case']
            if not any(x.guards == c.guards and x.tree == c.tree for x in cases): cases.append(c)
        recs.append((p.text, cases))
    if not bad: break
    cx.nonnull -= bad
HEAD = """# Contracts of the productions of src/mizugaki/parser/sql_parser.yy (reviewed; see DESIGN.md, P05, P06, P08).
#
#   <production>
#     always | when <conditions>      the case
#       gives <value of $$>           class(attribute=value, ...) @ position; $k and @k are value and position of the
#                                     k-th symbol, @$ the whole construct, $k... its elements, *x the optional's value
#       calls <driver call>           in order
#       exit abort                    the parse ends here (a diagnostic was reported by a call)
#
# %nonnull: symbols whose value is never null.  %values: the only kinds a symbol can have.

"""
write_contracts(recs, cx.nonnull, VAL, header=HEAD)
print(len(recs), 'productions')
