"""Registry: property id -> procedure that fills a Report."""
import os, pipeline
LEVEL = {}
RUN = {}

def ast_ctx(rep, w):
    import sym, ast_props
    docs, fails = pipeline.extract(w, pipeline.sources('ast') + [os.path.join(pipeline.VERIF, 'drivers', 'dispatch_driver.cpp')], gen=False)
    for f, e in fails: rep.undecided.append('not extracted: %s: %s' % (f, e[-300:]))
    return ast_props.Ctx(sym.Program(docs))

def ast_prop(gens, tag, text):
    def go(rep, w):
        import ast_props, ast_battery, fw
        cx = None
        try:
            cx = ast_ctx(rep, w)
            units = []
            for g in gens: units += getattr(ast_props, g)(cx)
            if not units: rep.undecided.append('no units generated')
            rep.results = fw.run_units(cx.P, units)
            for r, u in zip(rep.results, units): r['replay'] = ast_props.short(u.replay) if u.replay else u.name
        finally:
            if cx and rep.need_concrete():
                fails, cases, err = ast_battery.run(cx, w)
                rep.cases = cases; rep.concrete_rule = ast_battery.RULE
                if err: rep.notes.append(err); rep.undecided.append('concrete battery: ' + err[:400])
                rep.concrete = [(c, what) for p, c, what in fails if p in (tag, 'CRASH')]
        rep.assumptions = list(AST_ASSUME) + text
    return go

AST_ASSUME = ['Sequential execution; memory safety of the standard containers and of takatori helpers is assumed.',
              'std::vector/std::optional/std::unique_ptr/std::string behave per the C++17 standard (modelled in lib/sym.py).',
              'takatori helpers (clone_unique, downcast, rvalue_ptr, enum_set, object_acceptor ...) behave as the stand-ins in stubs/, which pass the 548 parser and AST tests of the project.',
              'Machine integers are modelled as bit vectors of their C++ width; memory exhaustion (std::bad_alloc) is not modelled.']
RUN['A01'] = ast_prop(['eq_units'], 'EQ', ['Equality of child objects is used through its contract (an equivalence relation), justified by induction on tree height.'])
RUN['A02'] = ast_prop(['clone_units'], 'CLONE', ['Clones of child objects are used through the clone contract (induction on tree height).'])
RUN['A03'] = ast_prop(['ctor_units', 'default_units', 'derived_units'], 'CTOR', [])
RUN['A04'] = ast_prop(['kind_units'], 'KIND', [])
RUN['A05'] = ast_prop(['ser_units', 'print_units'], 'SER', ['Serialization of child objects is used through its contract: one value event block (induction on tree height).'])
RUN['A06'] = ast_prop(['enum_units'], 'ENUM', [])
RUN['A07'] = ast_prop(['region_units'], 'REGION', [])

# ------------------------------------------------------------------ parser
PARSE_ASSUME = ['Sequential execution; memory safety of the standard containers and of takatori helpers is assumed.',
    'bison 3.8.2 and flex 2.6.4 generate the parser and scanner from the grammar on every run; the generated case bodies are what is verified.',
    'The generated LALR driver loop (stack, shift, reduce, location default) behaves as bison documents; its skeleton text is not verified.',
    'takatori helpers behave as the stand-ins in stubs/, which pass the 548 parser and AST tests of the project.']
def gram_ctx(rep, w, scanner=False):
    import sym, gram
    g = pipeline.generate(w)
    P = os.path.join(g, 'mizugaki/parser')
    src = pipeline.sources('ast') + [os.path.join(pipeline.VERIF, 'drivers', 'options_driver.cpp')] + [f for f in pipeline.sources('parser') if scanner or not f.endswith('sql_scanner.cpp')] + [os.path.join(P, 'sql_parser_generated.cpp')]
    if scanner: src.append(os.path.join(P, 'sql_scanner_generated.cpp'))
    docs, fails = pipeline.extract(w, src)
    for f, e in fails: rep.undecided.append('not extracted: %s: %s' % (f, e[-300:]))
    return gram.GCtx(sym.Program(docs), os.path.join(P, 'p.xml'))
def corpus_battery(rep, w, classes):
    import sql_battery
    sql_battery.report(rep, w, classes)
class SCtx:
    def __init__(self, P, w): self.P, self.w = P, w
def scan_ctx(rep, w):
    import sym
    g = pipeline.generate(w)
    docs, fails = pipeline.extract(w, [os.path.join(pipeline.REPO, 'src/mizugaki/parser', 'sql_scanner.cpp'), os.path.join(g, 'mizugaki/parser', 'sql_scanner_generated.cpp')])
    for f, e in fails: rep.undecided.append('not extracted: %s: %s' % (f, e[-300:]))
    return SCtx(sym.Program(docs), w)
SCAN_ASSUME = ['Sequential execution.', 'flex 2.6.4 generates the scanner from sql_scanner.ll on every run; its tables and the actions of every rule are what is verified, its fixed matching loop and input buffer are trusted.',
    'Texts are shorter than 2^31 bytes (the match length of flex is an int).', 'takatori helpers behave as the stand-ins in stubs/.']
def scan_prop(gen, which):
    def go(rep, w):
        import fw, scan_battery, scan_props
        rep.extra['any_replay_covers'] = True; cx = None
        try:
            cx = scan_ctx(rep, w)
            units = getattr(scan_props, gen)(cx, {}, rep)
            if not units: rep.undecided.append('no units generated')
            rep.results += fw.run_units(cx.P, units)
            for r, u in zip(rep.results, units): r['replay'] = u.replay or u.name
        finally:
            S = getattr(cx, 'scan', None)
            words = [] if S is None else S.words[:400]
            if S is not None and rep.unproved():
                for (m, r, f), x in S.pairs.items(): words.append((m, x))
            scan_battery.report(rep, w, which, words)
        rep.assumptions = list(SCAN_ASSUME)
    return go
RUN['P01'] = scan_prop('p01_rules', ('P01', 'P12'))
RUN['P02'] = scan_prop('p02_rules', ('P02', 'comments', 'P12'))
def gram_prop(gens, classes, text=(), battery=None, scanner=False):
    def go(rep, w):
        import fw, gram_props, sql_battery
        rep.extra['any_replay_covers'] = True
        try:
            cx = gram_ctx(rep, w, scanner); cx.w = w
            gold = gram_props.setup(cx)
            units = []
            for g in gens:
                m, f = g.split('.') if '.' in g else ('gram_props', g)
                units += getattr(__import__(m), f)(cx, gold, rep)
            if not units: rep.undecided.append('no units generated')
            rep.results += fw.run_units(cx.P, units)
            for r, u in zip(rep.results, units): r['replay'] = u.replay or u.name
        finally:
            if rep.need_concrete() or battery: (battery or sql_battery.report)(rep, w, classes)
        rep.assumptions = list(PARSE_ASSUME) + list(text)
    return go
RUN['P05'] = gram_prop(['p05_units', 'driver_props.p10_driver', 'driver_props.p10_chain', 'driver_props.p11_driver', 'driver_props.p14_driver', 'driver_props.p09_driver'], ('tree', 'P12'), battery=corpus_battery)
RUN['P06'] = gram_prop(['p06_units'], ('region',), battery=corpus_battery)
def bat(p, only=None):
    import driver_battery
    return driver_battery.report(p, only)
def p03_battery(rep, w, classes):
    import scan_battery
    bat('P03')(rep, w, classes); scan_battery.report(rep, w, classes); rep.concrete_rule = 'driver battery, SQL corpus, and ' + scan_battery.RULE
RUN['P03'] = gram_prop(['driver_props.p03_driver', 'driver_props.p03_description', 'scan_props.p03_rules', 'p03_prods'], ('comments',), battery=p03_battery, scanner=True)
def p08_battery(rep, w, classes):
    import p08
    bat('P08')(rep, w, ()); p08.battery(rep, w)
RUN['P08'] = gram_prop(['p08_units', 'driver_props.p08_driver'], (), battery=p08_battery)
RUN['P09'] = gram_prop(['driver_props.p09_driver', 'scan_props.p09_rules', 'p09_prods'], ('tree', 'accept', 'error'), battery=bat('P09', r'[?]'), scanner=True)
def p10_battery(rep, w, classes):
    import sql_battery
    bat('P10', r'[".]|__')(rep, w, classes); sql_battery.report(rep, w, ('region',), r'(?i)NEXT\s+VALUE\s+FOR|\.')
RUN['P10'] = gram_prop(['driver_props.p10_driver', 'driver_props.p10_chain', 'p10_prods'], ('tree', 'accept', 'error'), battery=p10_battery)
RUN['P11'] = gram_prop(['driver_props.p11_driver', 'p11_prods'], ('tree', 'accept', 'error'), battery=bat('P11', r'[0-9]'))
def p12_battery(rep, w, classes):
    import sql_battery
    bat('P12')(rep, w, classes); sql_battery.history_report(rep, w, classes)
    rep.concrete_rule = 'driver battery; ' + sql_battery.RULE + '; ' + sql_battery.HIST_RULE
RUN['P12'] = gram_prop(['p12_prods', 'driver_props.p12_driver', 'driver_props.p12_report'], ('P12', 'error', 'message'), battery=p12_battery)
RUN['P13'] = gram_prop(['driver_props.p13_driver'], (), battery=bat('P13'))
RUN['P14'] = gram_prop(['driver_props.p14_driver', 'p14_prods'], ('tree', 'accept', 'error'), battery=bat('P14', r'(?i)SEQUENCE|IDENTITY'))
def limits_battery(rep, w, classes):
    import sql_battery
    sql_battery.limits_report(rep, w, classes)
RUN['P07'] = gram_prop(['driver_props.p07_tree'], (), ['Fewer than 2^60 nodes; the contract of accept() is used for children (induction on the height of the tree).'], battery=limits_battery)
def p04_run(rep, w):
    import p04
    p04.run(rep, w)
RUN['P04'] = p04_run
def p15_battery(rep, w, classes):
    import p15
    p15.battery(rep, w)
RUN['P15'] = gram_prop(['p15.p15_units'], (), ['The exploratory parse of bison (LAC, parse.lac full) that finds the tokens that can follow is part of its skeleton and not verified; it is compared with the automaton of the contract grammar on the texts of the battery.', 'The names of tokens are those of the contract grammar (P04).'], battery=p15_battery, scanner=True)
