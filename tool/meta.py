#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (kept in step with lib/props.py)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AST = ['include/mizugaki/ast', 'src/mizugaki/ast']
PRS = 'src/mizugaki/parser/'
def P(id, title, st, over, text, why, files, mech, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    return {'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}
W = 'The existing tests '
PROPS = [
P('A01', 'Syntax tree equality is a structural equivalence', 'Two syntax tree values compare equal exactly when they are of the same class and all their attributes, source positions aside, are equal, at every depth; a value always equals itself, the relation is symmetric and transitive, inequality is its exact negation, and comparing through a base class gives the same answer. A user named in a privilege list counts by its name only when it is a named user; comments and the source document of a compilation unit are not compared.', ['inputs'], 'all pairs and triples of syntax tree values of every class, of any depth and list length', W + 'compare a handful of hand-written trees, nearly always equal ones, so an ignored attribute or a wrong branch is invisible.', AST, [('operator== / operator!= / equals of every node class', 'src/mizugaki/ast/**/*.cpp'), ('comparison of optionals, pointers and vectors', 'include/mizugaki/ast/compare_utils.h')]),
P('A02', 'Cloning yields an equal, independent tree with the same positions', 'Cloning any syntax tree value, by copy or by move, yields a value of the same class with the same attributes and the same source positions at every depth; the copy shares no node with the source, and a copying clone leaves the source unchanged.', ['inputs'], 'all syntax tree values of every class, of any depth and list length, for both clone forms', W + 'clone a few trees and compare them with an equality that ignores positions.', AST, [('clone() const&, clone() &&, clone_tag constructors', 'src/mizugaki/ast/**/*.cpp'), ('clone_vector / clone_optional / clone_wrapper', 'include/mizugaki/ast/common')]),
P('A03', 'Syntax tree construction keeps every attribute, and accessors return it', 'A syntax tree value built from given attributes reports exactly those attributes through its accessors, position included, and changing one through a mutable accessor changes that one only. Building a value with a kind its class does not represent is rejected with an exception, and every other construction succeeds.', ['inputs'], 'all attribute values of every constructor of every class, including every kind enumerator', W + 'build each class with one or two argument sets and mostly through the parser.', AST, [('constructors and accessors of every node class', 'include/mizugaki/ast/**/*.h, src/mizugaki/ast/**/*.cpp')]),
P('A04', 'Node kinds identify classes, and dispatch reaches the matching class', 'Every syntax tree value reports a kind that belongs to its class and to no other class of its category, and a base class reference dispatched by kind invokes the callback exactly once with the very same object as its own class. Classes representing several kinds report the kind they were built with.', ['inputs'], 'all values of every class and all kinds of the seven node categories', W + 'dispatch a couple of objects per category.', AST, [('node_kind(), tag / tags', 'include/mizugaki/ast/**/*.h'), ('dispatch()', 'include/mizugaki/ast/*/dispatch.h'), ('type_of', 'include/mizugaki/ast/**/*.h')]),
P('A05', 'Serialized trees are well-formed and show every attribute', 'Writing any syntax tree value to a serialization receiver produces one balanced structure that carries the kind and one property per attribute under a distinct name with exactly the value of that attribute, absent ones having no value; positions are added only when the build asks for them.', ['inputs'], 'all syntax tree values, of any depth and list length', W + 'never inspect serialized output: printing is only used for failure messages.', AST, [('serialize() of every class', 'src/mizugaki/ast/**/*.cpp'), ('serializer helpers', 'src/mizugaki/ast/common/serializers.h')]),
P('A06', 'Enumerators have distinct, stable names and print as them', 'Every enumerator of every syntax tree enumeration has its own non-empty name, the one its identifier spells, different enumerators have different names, and printing an enumerator writes exactly that name.', ['inputs'], 'all enumerators of every enumeration, and all pairs', W + 'check some enumerations, and only that names are found, not that they belong to the enumerator.', AST, [('to_string_view and operator<< of each enumeration', 'include/mizugaki/ast/**/*_kind.h')]),
P('A07', 'Source regions form a consistent span algebra', 'The union of two valid regions is the smallest region covering both, an unknown region is neutral, union is commutative, associative and idempotent; a sub-range stays inside its region for every offset and length; a region is valid exactly when both ends are known; a value with a region keeps both and compares by value.', ['inputs'], 'all 64-bit begin and end positions, offsets and lengths', W + 'use a few small positions.', ['include/mizugaki/ast/node_region.h', 'src/mizugaki/ast/node_region.cpp', 'include/mizugaki/ast/common/regioned.h'], [('operator|, operator(), validity', 'include/mizugaki/ast/node_region.h'), ('regioned<T>', 'include/mizugaki/ast/common/regioned.h')]),
P('P01', 'Every byte sequence is split into the SQL token language', 'Any text splits into tokens by longest match with the documented lexical rules: keywords in any letter case, regular and quoted identifiers, numbers, character and hexadecimal strings, host parameters, operators, comments and white space; each keyword and operator text gives its own token and no other text gives it. A byte that starts no token is reported as an error, never skipped.', ['inputs'], 'all byte strings', W + 'parse a few hundred statements; they cannot reach every keyword in every letter case, nor every byte.', [PRS + 'sql_scanner.ll', PRS + 'sql_parser.yy'], [('lexical rules', PRS + 'sql_scanner.ll'), ('token names', PRS + 'sql_parser.yy')]),
P('P02', 'Tokens carry exact, ordered source positions', 'Every token, comment and error position reported for a text is the exact byte range of that token: ranges are in bounds, ordered and do not overlap, and the skipped gaps between tokens are only white space and comments.', ['inputs'], 'all byte strings, any sequence of token and comment lengths', W + 'check positions of single small statements.', [PRS + 'sql_scanner.cpp', PRS + 'sql_scanner.ll'], [('cursor accounting', PRS + 'sql_scanner.cpp'), ('user action before each rule', PRS + 'sql_scanner.ll')], [('cursor_', 'bytes consumed so far')]),
P('P03', 'Comments are collected completely and attach to the right token', 'Every comment is recorded once with its exact range, in source order, and an unclosed block comment is an error at its opening. The comments before a token are exactly those between the previous token and it, those after a token exactly those up to the next token, and the description of a definition is the last documentation comment directly before it, if descriptions are enabled.', ['inputs', 'histories'], 'all sequences of comments and tokens, and all lookup positions', W + 'use a handful of comment layouts.', [PRS + 'sql_driver.cpp', PRS + 'sql_scanner.ll'], [('add_comment / add_comment_separator / leading_comments / following_comments', PRS + 'sql_driver.cpp')], [('comments_', 'sorted comment ranges'), ('comment_separators_', 'strictly increasing token starts that delimit comment groups')]),
P('P04', 'Every token sequence gets the documented structure and precedence', 'A text parses exactly when its tokens form a sentence of the documented grammar, and operators group by the documented precedence and associativity; words that are not reserved remain usable as names.', ['inputs'], 'all token sequences', W + 'parse one text per construct; precedence is checked for a few operator pairs.', [PRS + 'sql_parser.yy'], [('grammar and precedence declarations', PRS + 'sql_parser.yy'), ('contextual keywords', PRS + 'sql_parser.yy')]),
P('P05', 'Each construct builds exactly its own tree node from its own parts', 'Each accepted construct becomes the syntax tree node that represents it, with each part of the text in the attribute that stands for it, lists in source order, omitted optional parts absent, and nothing dropped, swapped or duplicated.', ['inputs', 'programs'], 'all sentences of the grammar, whatever the parts contain', W + 'compare one or two trees per construct, with an equality that ignored attributes and positions.', [PRS + 'sql_parser.yy'], [('semantic actions of every production', PRS + 'sql_parser.yy')]),
P('P06', 'Tree node positions cover the text of their construct', 'Every node of a parsed tree, and every attribute position it holds, carries the source range of the construct it came from: in bounds, covering its parts, and enclosed in its parent.', ['inputs', 'programs'], 'all sentences of the grammar', W + 'never check positions of parsed nodes.', [PRS + 'sql_parser.yy', PRS + 'sql_driver.cpp'], [('location argument of semantic actions', PRS + 'sql_parser.yy')]),
P('P07', 'Tree size and depth limits are enforced exactly', 'With a node or depth limit set, a text is rejected exactly when its tree, every node of every construct counted, has more nodes or is deeper than the limit, with a diagnostic naming the limit at a node of the tree; with no limit nothing is rejected. Whenever a limit is set, the node count and maximum depth reported for an accepted text are those of its tree.', ['inputs', 'configurations'], 'all trees and all limit values', W + 'use a few small statements per limit.', [PRS + 'sql_tree_validator.cpp'], [('visit functions and counters', PRS + 'sql_tree_validator.cpp')], [('node count, current depth, maximum depth', 'as counted so far')]),
P('P08', 'List length limits are enforced exactly', 'With a limit on the number of elements of a kind of list, a text is rejected exactly when such a list is longer than the limit, with a diagnostic that names the kind and the limit; a zero or absent limit never rejects, and limits of other kinds have no effect.', ['inputs', 'configurations'], 'all list lengths, all limits, all kinds', W + 'try one length per kind.', [PRS + 'sql_driver.cpp', PRS + 'sql_parser.yy', 'include/mizugaki/parser/sql_parser_element_kind.h'], [('validate_count', PRS + 'sql_driver.cpp'), ('validation in productions', PRS + 'sql_parser.yy')]),
P('P09', 'Placeholders are numbered by their order in the text', 'The n-th placeholder mark of a text becomes a reference to parameter n, counting from one, whatever order the parser processes them in; a position that holds no mark has no number.', ['inputs', 'histories'], 'all sequences of placeholder positions and lookups', W + 'use one or two placeholders.', [PRS + 'sql_driver.cpp'], [('add_placeholder_mark / find_placeholder_mark', PRS + 'sql_driver.cpp')], [('placeholder_marks_', 'strictly increasing mark positions')]),
P('P10', 'Names keep their spelling, and dotted names keep their order', 'A regular name keeps its spelling, a quoted name is the text between the quotes with each doubled quote as one quote, and a name beginning with two underscores is rejected in either form. A dotted name becomes nested qualifiers in source order, also where it continues a name inside a larger expression, and its position spans the whole name.', ['inputs'], 'all name texts and all chains of any length', W + 'use a few names.', [PRS + 'sql_driver.cpp', PRS + 'sql_scanner.ll'], [('parse_delimited_identifier, check_*_identifier, try_merge_identifier_chain', PRS + 'sql_driver.cpp')]),
P('P11', 'Numbers keep their text, value and sign', 'A numeric literal keeps its digits as written; a plus or minus directly applied to an unsigned numeric literal becomes the sign of that literal and never changes anything else, and a second sign stays an operator. An unsigned size such as a length or precision has exactly the value its digits denote.', ['inputs'], 'all digit strings and all sign nestings', W + 'use a few numbers.', [PRS + 'sql_driver.cpp', PRS + 'sql_parser.yy'], [('try_fold_literal, to_size', PRS + 'sql_driver.cpp')]),
P('P12', 'Parsing ends in exactly one result: a tree or a diagnostic', 'For every text and every option setting, parsing yields either a tree or a diagnostic, never both and never neither; a tree has one statement per non-blank statement of the text in order, a diagnostic has the code that fits its cause and a position inside the text, and parsing neither changes the options nor depends on earlier texts.', ['inputs', 'configurations', 'histories'], 'all texts, option settings and sequences of parses', W + 'check one outcome at a time for chosen texts.', [PRS + 'sql_parser.cpp', PRS + 'sql_driver.cpp', PRS + 'sql_parser_result.cpp', PRS + 'sql_parser_diagnostic.cpp'], [('sql_parser::operator()', PRS + 'sql_parser.cpp'), ('success / error', PRS + 'sql_driver.cpp'), ('report_syntax_error', PRS + 'sql_parser.yy')]),
P('P13', 'Parser options are kept, independent and have the documented defaults', 'Each parser option returns the last value set and nothing else changes it; defaults are as documented; setting the element limits creates an independent table in which each kind has its own value.', ['inputs', 'configurations', 'histories'], 'all option values and all sequences of option changes', W + 'set one or two options.', ['include/mizugaki/parser/sql_parser_options.h', PRS + 'sql_parser_options.cpp', 'include/mizugaki/parser/sql_parser_element_kind.h'], [('sql_parser_options, element map', PRS + 'sql_parser_options.cpp')]),
P('P14', 'Sequence and identity options combine as written', 'The options written for a sequence or identity column, in any order, each take effect exactly once with their own value; repeated or conflicting options are rejected with a diagnostic at the repeated option, and an option not written is absent.', ['inputs'], 'all sequences of options', W + 'use a few option lists.', [PRS + 'details', PRS + 'sql_parser.yy'], [('sequence_options', PRS + 'details/sequence_options.h')]),
P('P15', 'Syntax errors point at the first wrong token and suggest only what could stand there', 'A text that is not a sentence is reported at the first token with which no sentence can go on, with the code of the cause and the text of that token. The list of expected tokens in the message holds only tokens that could stand there instead, each once, with one identifier entry for all kinds of names; it has as many as the configured maximum allows, an ellipsis exactly when there are more, and a maximum of zero gives no list. A byte is called a control character only when it is one.', ['inputs', 'configurations'], 'all texts that are not sentences, and all maxima', W + 'look at the code of a few errors and never at the expected tokens.', [PRS + 'sql_parser.yy', PRS + 'sql_scanner.cpp'], [('report_syntax_error', PRS + 'sql_parser.yy'), ('is_contextual_keyword, collapse_identifier_like_tokens', PRS + 'sql_scanner.cpp')]),
P('N01', 'Name resolution finds exactly the declared relation or column', 'A table or column name in a statement resolves to the one declared entity visible at that point, inner scopes hiding outer ones; an unknown or ambiguous name is reported at its position.', ['inputs', 'programs', 'configurations'], 'all statements and catalogs', W + 'of the analyzer use one small catalog, and do not run here.', ['src/mizugaki/analyzer/details/query_scope.cpp', 'src/mizugaki/analyzer/details/analyze_name.cpp'], [('query_scope, analyze_name', 'src/mizugaki/analyzer/details')]),
P('N02', 'Literals are converted to their exact value or rejected', 'The value computed for a literal is exactly the one its text denotes in the type chosen for it, and text that denotes no value of a supported type is reported as a diagnostic at the literal.', ['inputs'], 'all literals', W + 'of the analyzer try some literals, and do not run here.', ['src/mizugaki/analyzer/details/analyze_literal.cpp'], [('analyze_literal', 'src/mizugaki/analyzer/details/analyze_literal.cpp')]),
P('N03', 'Analysis preserves the meaning of the statement', 'The executable plan produced for a statement computes, on every database, the result the SQL statement denotes.', ['programs', 'inputs', 'configurations'], 'all statements, catalogs and databases', W + 'of the analyzer inspect plan shapes of sample queries, and do not run here.', ['src/mizugaki/analyzer'], [('analyze_statement, analyze_query_expression, analyze_scalar_expression', 'src/mizugaki/analyzer/details')]),
P('N04', 'Analysis never fails without a diagnostic', 'Analyzing any parsed statement against any catalog ends in a plan or at least one diagnostic that names a position of the statement, without throwing or crashing.', ['programs', 'configurations'], 'all parsed statements and catalogs', W + 'of the analyzer cover chosen errors, and do not run here.', ['src/mizugaki/analyzer'], [('sql_analyzer', 'src/mizugaki/analyzer/sql_analyzer.cpp')]),
]
TECH = 'contract-based deductive verification: contracts checked function by function on the extracted real code, verification conditions discharged by z3/cvc5'
NOTE_AST = 'Proof for all inputs of every function named in the evidence, against contracts derived from the property; assumes the stand-ins for takatori and the model of the C++ standard library listed there. A part the verifier cannot reach after a change is covered only by the bounded battery and reported as not decided by proof.'
NOTES = {}
NA = {
'N01': 'the analyzer is written against yugawara and takatori, neither of which is installed here; it cannot be compiled or run, and contracts on its functions would rest on invented models of those libraries.',
'N02': 'literal analysis builds takatori values and yugawara types from mpdecimal numbers, none of which is installed here: contracts would be stated against invented library behaviour.',
'N03': 'needs a formal semantics of SQL and of takatori plans, and the takatori/yugawara libraries, which are not available; not expressible as contracts over the functions here.',
'N04': 'the analyzer cannot be compiled here (yugawara and takatori are missing), so no obligation can be generated from its code.',
}
UNBUILT = 'check not built yet'
def main():
    sys.path.insert(0, os.path.join(V, 'lib'))
    import props
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS: f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if i in props.RUN: checks.append({'property': i, 'quick_cmd': './check ' + i, 'thorough_cmd': './check %s --thorough' % i, 'technique': props.TECH.get(i, TECH) if hasattr(props, 'TECH') else TECH, 'level': props.LEVEL.get(i, 'proof'), 'level_note': (getattr(props, 'NOTE', {}) or {}).get(i, NOTE_AST)})
        else: na.append({'property': i, 'reason': NA.get(i, UNBUILT)})
    m = {'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na, 'notes': 'Every check extracts, compiles and proves from /repo\'s current tree in a scratch directory of its own and removes it.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': main()
