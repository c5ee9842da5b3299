P={
"C01":("parser.c, context.c","A recursive-descent reference parser over token kinds (`ref_parse.h`) that knows only the declared attributes; operators' precedences (0..254) and associativities are *symbolic bytes*, so one path covers every precedence assignment with the same order. Token sequences are enumerated by forking on each token's kind. Compared: accepted or not, the whole tree, token indices inside the input, nothing leaked after failure.",
 "More than 10 tokens of arbitrary kind with fixed precedences, 5 with symbolic ones (chains reach 7 operands); precedence 255."),
"C02":("tokenizer.c, trie.c, string_util.c","Symbolic text bytes; a reference scanner (`ref_token.h`) states tokens from the definition (longest registered name at a boundary, maximal runs). Asserted: concatenation equals the input, no empty token, equal token list.","Texts longer than 5 symbolic characters (35 with 3 symbolic ones)."),
"C03":("tree_to_string.c, parser.c","Every tree within the bounds over operators with symbolic precedence and associativity is printed by the real code, tokenized and parsed back by the real code, and compared node by node.","Constants that print with an exponent (`1e+20` does not parse back: decided limit of the text format), negative constants, precedence 255."),
"C04":("arith_evaluation.c","Operators applied to *arbitrary doubles* (all 2^64 bit patterns per argument); the specification is restated in the harness per operator; + - * / comparisons are IEEE in z3, transcendental functions uninterpreted (same function, same arguments, same order). Whole-number functions are checked against independent definitions (Pascal's triangle, Euclid by search, Fibonacci by recurrence) over ranges; termination is decided by the step budget, for extreme values too.","Whole-number functions beyond ±45; accuracy of libm itself."),
"C05":("tree_util.c (tree_reduce, tree_reduce_constant_subtrees), simplification.c","Trees of symbolic shape, a listener with arbitrary values and arbitrary failures (uninterpreted), against a direct recursive definition; plus textual calculations with symbolic digits/operators evaluated end to end with and without the rule file against the reference session.","Larger trees; values needing more than the host's printf precision."),
"C06":("cmd_definition.c, arith_context.c, rewrite_rule.c, transformation.c","Sessions of definitions, uses and clears against a reference interpreter with its own substitution (`ref_session.h`).","Longer sessions, names of more than one letter (the tokenizer's treatment of names is C02)."),
"C07":("history.c, cmd_evaluation.c, cmd_table.c","The store with arbitrary doubles and any 64-bit index; sessions against a reference list of results.","Histories beyond 30."),
"C08":("vector.c","Every operation sequence with symbolic contents against a reference array; the executor checks every access against the allocated size.","Longer sequences (growth is covered up to 82 elements)."),
"C09":("linked_list.c, iterator.c","As C08; additionally addresses of surviving elements are compared.","Longer sequences."),
"C10":("trie.c","Names and query texts of symbolic bytes; a reference map.","Names longer than 5, iterator depth 30 (compile-time limit, aborts beyond: not reached by any command)."),
"C11":("context.c, operator.c","Sequences of additions, removals and glue settings with symbolic precedence/associativity/arity against a reference set.","More than 5 operations."),
"C12":("string_util.c, string_builder.c, console_util.c","Every byte string within the length, restated specifications of each function; memory safety by the executor.","Longer texts."),
"C13":("table.c","The real renderer's output is parsed by the harness: every cell's lines are searched in the rectangle computed from the printed borders, each exactly once, all lines of equal width, alignment as requested. Contents are symbolic letters.","Grids larger than 3x3, UTF-8 cell contents (only borders are UTF-8), more than 11 columns (API misuse)."),
"C14":("cmd_table.c","Requests of symbolic digits and characters against a reference computation of rows and fold through the real evaluator of C04/C05 on single values.","Ranges whose values are not binary-exact (accumulated rounding decides the last row there), huge tables."),
"C15":("matching.c","Patterns and trees of symbolic shape with arbitrary doubles as constants; the reference (`ref_match.h`) searches every assignment of runs by definition. Soundness (substitution gives the tree), completeness, first result, count.","Larger lists; constraints are decided by a stand-in (C23 decides the real one)."),
"C16":("rewrite_rule.c, transformation.c","Rule sets out of 20 rules and generated rules; the reference applies the first rule at the first position by definition and counts.","More than 3 rules or larger trees; cap 0."),
"C17":("simplification.c, simplification.ruleset and everything they use","The real `simplify()` runs on every expression in the bounds with the shipped rule file loaded; original and result are interpreted over the exact reals (`ref_real.h`) and z3 decides equality for *every* positive value of the variables where the original is defined. Termination by the step budget; no new variables.","Deeper expressions; non-positive variables (rules such as (x^y)^z -> x^(y*z) are unsound there by design, recorded in the statement); undecided comparisons (transcendental constants) are counted and tested at points only."),
"C18":("commands/*.c, console_util.c and everything below","Command lines of symbolic bytes, templates with symbolic bytes, word sequences and command sequences; all memory errors, aborts, exits and non-termination are findings by construction.","Lines with more than 2–3 arbitrary bytes outside the templates; memory exhaustion."),
"C19":("commands/*.c","Self-composition: two sessions from the same start, one of which sees the failing command(s); then every probe must print the same and return the same.","Probes outside the 31; more than 2 failing commands."),
"C20":("tree_util.c, node.c","Trees of symbolic shape and arbitrary constants; copy/equality/substitution/counting/listing/freeing restated on a mirror structure.","Larger trees."),
"C21":("main.c, commands.c","`main` itself is executed with argument vectors of symbolic choice and bytes, modelled stdin, terminal or pipe; exit code, output and order are compared with a model of the documentation.","More than 4 arguments; readline."),
"C22":("cmd_load.c, commands.c, console_util.c","Self-composition: a session that loads the modelled file against one that gets the lines typed; files of symbolic bytes.","Longer files; self-loading recursion (ends at the descriptor limit)."),
"C23":("propositional_evaluation.c, propositional_context.c","Conditions of symbolic shape over arbitrary doubles, variables, type names; three-valued reference evaluation.","NaN, magnitude above 1e6, type()/equal() nested inside each other."),
"C24":("simplification.c (derivatives), simplification.ruleset","As C17, with the derivative formed independently by the reference (textbook rules over the exact reals) and compared where defined; errors are only allowed where the statement allows them.","Deeper expressions; undecided comparisons are counted and tested at points only."),
"C25":("all of commands/*.c and what they allocate","Live heap blocks before and after each command and after the exit handlers, over symbolic commands.","Growth inside one block (the history's buffer)."),
"C26":("rule_parsing.c, simplification.c","Rule files of lines out of 21 (with symbolic bytes in them) against an independent reading of the format; partially read files must leave nothing.","\" WHERE \" written before \"->\", tabs as indentation."),
"C27":("parser.c, arith_context.c, console_util.c, tree_util.c, cmd_table.c, cmd_definition.c","Lines of words and line templates with symbolic characters in interactive mode; the column, length and kind of the mark read from what is printed against the set of places a reference grammar, the reference interpreter and the real operators (decided by C04) find fault with.","With rules loaded (thorough) an operator reported as failing only has to be a token of the line, since rules move operators. Whether definitions and clear commands print a mark at all is left open: several of their messages have none."),
"C28":("table.c","The screen of C13 decoded into the arms of every border character; some column widths and row heights have to explain every text, every segment and every crossing computed from what was asked for.","More than 3 columns and rows (5 with the box)."),
"C29":("cmd_help.c, table.c, tree_to_string.c","Sessions of definitions, results and clears; the text that help prints is read back line by line and compared with the operator table that the parser uses and with the definitions of the reference interpreter.","The wording of descriptions; sessions of more than 2 commands; definitions with numbers printed with exponents."),
}
import sys; sys.path.insert(0,'/verif')
import json
from checks import CHECKS
T={json.loads(l)["id"]:json.loads(l)["title"] for l in open('/verif/properties.jsonl')}
o=open('/verif/tools/design_head.md').read()
W=json.load(open('/verif/tools/walltimes.json'))
for k,(code,how,out) in sorted(P.items()):
    c=CHECKS[k]
    o+="### %s — %s\n\n*Code:* %s. *Decided by:* %s\n\n" % (k,T[k],code,how)
    for u in c["units"]:
        o+="- `%s`%s: %s\n" % (u["name"]," (thorough only)" if u.get("thorough_only") else "",u["bounds"])
    if c["assumptions"]: o+="\n*Assumes:* "+"; ".join(c["assumptions"])+".\n"
    o+="\n*Outside the bounds (not claimed):* %s *Cost:* quick %s.\n\n" % (out,W.get(k,"?"))
K=json.load(open('/verif/known_findings.json'))
K=K if isinstance(K,list) else K.get("fixed",K.get("findings"))
rows=[]
for e in K:
    e=e if isinstance(e,str) else (e.get("text") or "fixed: property=%s %s %s"%(e.get("property"),e.get("commit"),e.get("what") or e.get("what_failed")))
    m=__import__('re').match(r"fixed: property=(\S+) (\S+) (.*)",e)
    rows.append("| %s | %s | %s |"%(m.group(1),m.group(2)[:8],m.group(3)))
o+=open('/verif/tools/design_tail.md').read().replace("@@FIXES@@","\n".join(rows))
S=json.load(open('/verif/tools/seeded_results.json'))
o+="\n## 6. Planted bugs and what catches them\n\nEvery one compiles, passes the 108 tests and has a demonstration (`seeded/<id>/demo.sh`).\n\n| planted bug | property | needs | caught by | in |\n|---|---|---|---|---|\n"
import os
for i in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%i)); r=S.get(i,["not run",""])
    o+="| %s | %s | %s | %s | %s |\n"%(i,m["property"],m["needs"],r[0],r[1])
open('/verif/DESIGN.md','w').write(o)
