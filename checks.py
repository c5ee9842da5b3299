"""Which harnesses decide which property, within which bounds."""
CHECKS = {}
def check(id, units, assumptions=()):
    CHECKS[id] = {"units": units, "assumptions": list(assumptions)}

check("C01", [
    dict(name="tokens", src="h01_parser.c", defs={"MODE": "0", "N": "4", "GLUES": "3", "SET": '"x1kfg+-*!(), ?"'}, deep={"N": "5"}, reach=["accepted", "rejected"], bounds="every sequence of up to 4 (thorough 5) tokens out of 14 kinds; operators of any precedence 0..254 and any associativity; glue operator none, infix, function"),
    dict(name="chains", src="h01_parser.c", defs={"MODE": "1", "N": "3", "GLUES": "1", "UNARY": "1"}, deep={"N": "4"}, reach=["accepted long"], bounds="3 (4) operands with optional prefix and postfix operators joined by any of 3 infix operators; any precedences 0..254, any associativity"),
    dict(name="binary", src="h01_parser.c", defs={"MODE": "1", "N": "5", "GLUES": "1", "UNARY": "0"}, deep={"N": "7"}, reach=["accepted long"], bounds="5 (7) operands joined by any of 3 infix operators; any precedences 0..254, any associativity"),
    dict(name="sequences", src="h01_parser.c", defs={"MODE": "3", "N": "8", "GLUES": "1", "SET": '"xfg+-!(),"'}, deep={"N": "10"}, reach=["accepted long", "rejected"], bounds="every sequence of 8 (thorough 10) tokens out of 9 kinds; operators of fixed precedences"),
    dict(name="nested", src="h01_parser.c", defs={"MODE": "2", "N": "1", "GLUES": "2"}, reach=["accepted", "rejected"], bounds="nesting depth 0,5,10,15; 0,6,12 parameters"),
])
check("C02", [
    dict(name="keywords", src="h02_tokenizer.c", defs={"MODE": "0", "LEN": "4", "KWLEN": "2"}, deep={"LEN": "5", "KWLEN": "2"}, reach=["tokens"], bounds="up to 2 keywords of up to 2 characters and texts of up to 4 (thorough 5) over digits, letters, operators, dot, space; without keywords as well"),
    dict(name="bytes", src="h02_tokenizer.c", defs={"MODE": "1", "LEN": "3"}, deep={"LEN": "4"}, reach=["tokens"], bounds="texts of up to 3 (thorough 4) arbitrary bytes, the calculator's own operators"),
    dict(name="long", src="h02_tokenizer.c", defs={"MODE": "2"}, reach=["tokens"], bounds="texts of 21..35 characters with 3 arbitrary ones out of 6"),
])
check("C03", [
    dict(name="precedences", src="h03_print.c", defs={"MODE": "0", "BUDGET": "2"}, deep={"BUDGET": "3"}, reach=["longer text"], bounds="every tree of up to 2 (thorough 3) operators (2 infix, 2 prefix, 2 postfix of any precedence 0..254 and associativity, functions) over a variable, a constant, a named constant"),
    dict(name="signs", src="h03_print.c", defs={"MODE": "2", "BUDGET": "2"}, deep={"BUDGET": "3"}, reach=["longer text"], bounds="every tree of up to 2 (thorough 3) operators over tables of a prefix, an infix, a postfix operator and a function, the operators named by 21 signs and words in turn"),
    dict(name="calculator", src="h03_print.c", defs={"MODE": "1", "BUDGET": "2", "LEAVES": "7"}, reach=["longer text"], bounds="every tree of up to 2 of the calculator's own operators over 7 kinds of leaves"),
    dict(name="deeper", src="h03_print.c", defs={"MODE": "1", "BUDGET": "3", "LEAVES": "1"}, deep={"LEAVES": "2"}, reach=["longer text"], bounds="every tree of up to 3 of the calculator's own operators over one (thorough two) kinds of leaf"),
])
check("C04", [
    dict(name="doubles", src="h04_eval.c", defs={"MODE": "0"}, reach=["value", "error"], bounds="39 operators, every pair of doubles (including infinities and NaN)"),
    dict(name="lists", src="h04_eval.c", defs={"MODE": "1", "ARGS": "3"}, deep={"ARGS": "5"}, reach=["value"], bounds="sum, prod, avg, max, min of 0..3 (thorough 0..5) arbitrary doubles"),
    dict(name="whole", src="h04_eval.c", defs={"MODE": "2", "LO": "-20", "HI": "25", "RND": "4"}, deep={"LO": "-40", "HI": "45", "RND": "9"}, reach=["value"], bounds="!, C, gcd, lcm, fib, rand, var for whole numbers -20..25 (thorough -40..45) and fractions beyond them"),
    dict(name="huge", src="h04_eval.c", defs={"MODE": "3"}, reach=["value"], bounds="termination of !, C, gcd, lcm, fib for 9 extreme values"),
], ["the C library's exp, log, sin, pow, fmod, ... are uninterpreted functions: the same call gives the same result"])
check("C05", [
    dict(name="trees", src="h05_compose.c", defs={"MODE": "0", "BUDGET": "3"}, deep={"BUDGET": "4"}, reach=["value", "error", "reduced"], bounds="every tree of up to 3 (thorough 4) operators of arity 0..3 over arbitrary doubles and a variable, with an arbitrary-valued listener that can fail"),
    dict(name="binary", src="h05_compose.c", defs={"MODE": "1", "TEMPLATE": '"#~#~(#~#)"'}, deep={"TEMPLATE": '"#~#~(#~-#)~#"'}, reach=["value", "error"], bounds="calculations a.b.(c.d), digits 0,2,7, operators + - * / ^"),
    dict(name="free", src="h05_compose.c", defs={"MODE": "1", "TEMPLATE": '"2??#?"'}, deep={"TEMPLATE": '"2????"'}, reach=["value", "error"], bounds="texts of 5 characters, 3 (thorough 4) of them arbitrary out of 15"),
    dict(name="functions", src="h05_compose.c", defs={"MODE": "1", "TEMPLATE": '"sum(#~#,max(#?#),7)-sqrt(#)"'}, deep={"TEMPLATE": '"sum(#~#,max(#?#),7)~sqrt(#)"'}, reach=["value", "error"], bounds="nested functions with arbitrary digits, operators and one arbitrary character"),
    dict(name="simplified", src="h05_compose.c", defs={"MODE": "1", "TEMPLATE": '"#~(#~#)*0?"', "RULES": '" 2.(+-/^!%@"'}, deep={"TEMPLATE": '"#~(#~#)??0~#?"'}, reach=["value", "error"], bounds="calculations with the shipped rule file loaded, arbitrary digits, operators and one (thorough three) arbitrary characters"),
], ["printf, strtod, pow of concrete numbers are those of the host C library"])
check("C08", [
    dict(name="ops", src="h08_vector.c", defs={"STEPS": "4"}, deep={"STEPS": "5"}, reach=["trim", "several elements"],
         bounds="every sequence of 4 operations (thorough 5) of 9 kinds; element sizes 1,3,8,24; starting capacity 0,1,2; all contents"),
    dict(name="index", src="h08_vector.c", defs={"STEPS": "2", "ANYINDEX": "1"}, deep={"STEPS": "3"}, reach=["several elements"],
         bounds="every sequence of 2 operations (thorough 3), then the element at a symbolic index"),
    dict(name="growth", src="h08_vector.c", defs={"LONG": "1"}, deep={"LONG": "2"}, reach=["several elements"],
         bounds="0..40 elements, optionally trimmed, any operation (thorough 2), then 42 more; starting capacity 0,1,2,7,50"),
])
check("C09", [
    dict(name="ops", src="h09_list.c", defs={"STEPS": "4", "PRELOAD": "0"}, deep={"STEPS": "5"}, reach=["insert", "delete", "several elements"], bounds="every sequence of 4 operations (thorough 5) on an empty list, all positions"),
    dict(name="longer", src="h09_list.c", defs={"STEPS": "2", "PRELOAD": "9"}, deep={"STEPS": "3"}, reach=["insert", "delete"], bounds="lists of up to 9 elements, then 2 (thorough 3) operations at every position"),
])
check("C10", [
    dict(name="ops", src="h10_trie.c", defs={"STEPS": "3", "NAME": "2", "QUERY": "3", "ALPH": '"!m|"'}, deep={"QUERY": "2", "STEPS": "4"}, reach=["removed", "prefix found", "two names"], bounds="every 3 (thorough 4) insertions/removals of names of up to 2 characters out of the first, a middle and the last legal one, query texts of up to 3 (thorough 2) of them, all values"),
    dict(name="long", src="h10_trie.c", defs={"STEPS": "2", "NAME": "4", "QUERY": "4", "ALPH": '"ab"'}, deep={"NAME": "5", "QUERY": "5"}, reach=["prefix found", "two names"], bounds="2 insertions/removals of names of up to 4 (thorough 5) characters out of 2, query texts of up to 4 (5)"),
    dict(name="bytes", src="h10_trie.c", defs={"STEPS": "1", "NAME": "1", "QUERY": "1"}, deep={"STEPS": "2"}, reach=["prefix found"], bounds="1 (thorough 2) insertions/removals of names of up to 1 arbitrary byte, query texts of up to 1 arbitrary byte"),
])
check("C06", [
    dict(name="sessions", src="h06_define.c", defs={"MODE": "0", "STEPS": "2", "NAMES": '"fg"', "OPS": '"-^"'}, deep={"NAMES": '"fgc"'}, reach=["value", "expression", "two definitions"], bounds="every session of 2 commands out of 11 templates (definitions of functions and constants, uses, clears) with arbitrary names out of 2 (thorough 3), digits and operators"),
    dict(name="histories", src="h06_define.c", defs={"MODE": "3", "STEPS": "3"}, deep={"STEPS": "5"}, reach=["refused", "value", "expression"], bounds="every history of 3 (thorough 5) of 9 definitions and clears, followed by 7 uses"),
    dict(name="forms", src="h06_define.c", defs={"MODE": "1", "ANY": '" x2,()+=f"', "DEF1": '"f(?,y)=??"', "DEF2": '"f??=x-y"'}, deep={"DEF1": '"f(x?y)=???"', "DEF2": '"f????=x-y"'}, reach=["defined", "refused", "value", "expression"], bounds="10 forms of definitions with 1 to 3 (thorough 4) arbitrary characters out of 9 anywhere, followed by 5 uses"),
    dict(name="many", src="h06_define.c", defs={"MODE": "2"}, reach=["expression"], bounds="functions of 1..11 parameters, every pair of them in the body"),
    dict(name="uses", src="h06_define.c", defs={"MODE": "4", "USES": "12"}, deep={"USES": "15"}, reach=["many", "value", "expression"], bounds="1 to 33 (thorough 101; 12 and 15 different numbers) uses in one expression, nested and side by side, of functions building on each other and of a constant"),
])
check("C07", [
    dict(name="store", src="h07_history.c", defs={"MODE": "0", "STEPS": "10"}, deep={"STEPS": "20"}, reach=["found", "not found"], bounds="0..10 (thorough 20) arbitrary results, any 64-bit index"),
    dict(name="operators", src="h07_history.c", defs={"MODE": "4", "STEPS": "4"}, deep={"STEPS": "8"}, reach=["found", "not found"], bounds="0..4 (thorough 8) arbitrary results; @ with every double of an int's magnitude, fractions included; ans"),
    dict(name="sessions", src="h07_history.c", defs={"MODE": "1", "STEPS": "3"}, deep={"STEPS": "4"}, reach=["accepted", "refused", "value"], bounds="every session of 3 (thorough 4) out of 20 command templates with arbitrary digits"),
    dict(name="simplified", src="h07_history.c", defs={"MODE": "3", "STEPS": "2"}, deep={"STEPS": "3"}, reach=["accepted", "refused", "value"], bounds="every session of 2 (thorough 3) out of 11 command templates with the shipped rule file loaded"),
    dict(name="long", src="h07_history.c", defs={"MODE": "2", "STEPS": "18"}, deep={"STEPS": "30"}, reach=["accepted", "refused"], bounds="0..18 (thorough 30) results mixed with failures, references @00..@22"),
])
check("C11", [
    dict(name="ops", src="h11_context.c", defs={"MODE": "0", "PRE": "2", "STEPS": "2"}, deep={"STEPS": "3"}, reach=["added", "refused", "deleted", "glue"], bounds="2 additions followed by every 2 (thorough 3) additions, removals, glue settings over 3 names x 4 placements, any precedence and associativity"),
    dict(name="calculator", src="h11_context.c", defs={"MODE": "1", "LEN": "2"}, deep={"LEN": "3"}, reach=["added", "refused"], bounds="adding (and removing) any operator named by up to 2 (thorough 3) of 8 characters to the calculator's own table"),
])
check("C12", [
    dict(name="texts", src="h12_strings.c", defs={"MODE": "0", "LEN": "6", "SPLIT": "7"}, deep={"LEN": "9", "SPLIT": "9"}, reach=["prefix", "no prefix", "stripped", "no such line", "line", "skipped", "split"], bounds="begins_with, strip, get_line_of_string, skip_ansi on every text of up to 6-7 (thorough 9-10) bytes, str_split on texts of up to 7 (9) characters out of 5 with up to 3 delimiters, character classes of all bytes"),
    dict(name="builder", src="h12_strings.c", defs={"MODE": "1", "STEPS": "4"}, deep={"STEPS": "5"}, reach=["long"], bounds="every sequence of 4 (thorough 5) of 6 building operations with arbitrary texts of up to 3 bytes; starting size 0..2 or an existing text"),
])
check("C20", [
    dict(name="trees", src="h20_tree.c", defs={"BUDGET": "2", "BUDGET2": "1"}, deep={"BUDGET": "3", "BUDGET2": "1"}, reach=["copied", "equal", "different", "substituted", "occurrences", "listed", "list"], bounds="every tree of up to 2 (thorough 3) operators with 0..3 children over 3 variables and arbitrary doubles; every pair of trees of up to 1 operator each; every child replaced by lists of 0..3"),
])
check("C15", [
    dict(name="flat", src="h15_match.c", defs={"ROOTSUM": "1", "LISTS": "2", "PBUDGET": "1", "PCH": "4", "TBUDGET": "1", "TCH": "4", "CONS": "0"}, deep={"TCH": "5", "PCH": "5"}, reach=["found", "not found", "several"], bounds="parameter lists of up to 4 (thorough 5) pattern items (2 variables, 2 list variables, a number) against up to 4 (5) trees out of 2 variables and arbitrary doubles"),
    dict(name="nested", src="h15_match.c", defs={"ROOTSUM": "0", "LISTS": "1", "PBUDGET": "2", "PCH": "2", "TBUDGET": "2", "TCH": "3", "CONS": "0"}, deep={"PCH": "3", "TCH": "3"}, reach=["found", "not found", "found inside"], bounds="patterns and trees of up to 2 operators (infix, prefix, functions of up to 2 and 3, thorough 3 and 3 parameters)"),
    dict(name="inside", src="h15_match.c", defs={"INSIDE": "1", "PCH": "3", "TCH": "5", "CONS": "0", "ROOTSUM": "1", "LISTS": "2"}, deep={"INSIDE": "2", "TCH": "7"}, reach=["found", "not found", "several"], bounds="a nested list of 1..3 items against 0..5 (thorough 7) arbitrary numbers, followed by up to 1 (2) more items and numbers; items out of 2 variables and 2 list variables in every combination"),
    dict(name="conditions", src="h15_match.c", defs={"ROOTSUM": "1", "LISTS": "2", "PBUDGET": "1", "PCH": "3", "TBUDGET": "1", "TCH": "3", "CONS": "1"}, deep={"CONS": "2"}, reach=["found", "not found", "several"], bounds="1 (thorough 2) side conditions over any two of the variables; patterns and trees of up to 3 children"),
    dict(name="limits", src="h15_match.c", defs={"ROOTSUM": "1", "LISTS": "1", "PBUDGET": "1", "PCH": "2", "TBUDGET": "1", "TCH": "3", "CONS": "1", "LIMITS": "1"}, reach=["found", "not found"], bounds="0..12 variables, 0..4 conditions"),
], ["side conditions are decided by a stand-in for the checker here (C23 decides the real one)"])
check("C16", [
    dict(name="sets", src="h16_rules.c", defs={"MODE": "0", "ROOTSUM": "0", "LISTS": "2", "RULES": "2", "TBUDGET": "2", "TCH": "2", "CAP": "3", "PBUDGET": "0", "PCH": "0", "RBUDGET": "0", "RCH": "0"}, deep={"CAP": "5"}, reach=["several steps", "no step", "cap"], bounds="every rule set of 2 out of 20 rules, trees of up to 2 operators with up to 2 children, caps 1..3 (thorough 1..5) and none"),
    dict(name="three", src="h16_rules.c", defs={"MODE": "0", "ROOTSUM": "0", "LISTS": "2", "RULES": "3", "TBUDGET": "1", "TCH": "2", "CAP": "3", "PBUDGET": "0", "PCH": "0", "RBUDGET": "0", "RCH": "0"}, deep={"TCH": "3"}, thorough_only=True, reach=["several steps", "no step", "cap"], bounds="every rule set of 3 out of 20 rules, trees of up to 1 operator with up to 3 children"),
    dict(name="single", src="h16_rules.c", defs={"MODE": "1", "ROOTSUM": "1", "LISTS": "2", "RULES": "0", "TBUDGET": "1", "TCH": "3", "CAP": "1", "PBUDGET": "1", "PCH": "3", "RBUDGET": "1", "RCH": "2"}, deep={"RCH": "3"}, reach=["applied", "not applied", "unbound"], bounds="every rule between parameter lists of up to 3 items on the left and up to 2 (thorough 3) on the right, trees of up to 3 children"),
], ["side conditions are decided by a stand-in for the checker here (C23 decides the real one)"])
check("C23", [
    dict(name="arithmetic", src="h23_conditions.c", defs={"MODE": "0", "BUDGET": "2", "SMALL": "1"}, reach=["true", "not true"], bounds="every condition of up to 2 of 11 operators including arithmetic over 0 and 2"),
    dict(name="trees", src="h23_conditions.c", defs={"MODE": "0", "BUDGET": "2"}, reach=["true", "not true"], bounds="every condition of up to 2 of 8 operators over arbitrary numbers up to 1e6, variables, type names, truth values, type(), equal(), count()"),
    dict(name="tests", src="h23_conditions.c", defs={"MODE": "0", "BUDGET": "0"}, reach=["true", "not true"], bounds="type(), equal(), count() of every (pair of) expression of up to 1 operator"),
    dict(name="texts", src="h23_conditions.c", defs={"MODE": "1", "TERMS": "3", "OPERANDS": "4"}, deep={"OPERANDS": "8"}, reach=["true", "not true"], bounds="written conditions of 3 operands out of 4 (thorough 8), any 2 of 9 infix operators, optional negation"),
    dict(name="rules", src="h23_conditions.c", defs={"MODE": "2", "CONDS": "2"}, deep={"CONDS": "3"}, reach=["true", "not true"], bounds="rules with up to 2 (thorough 3) out of 10 conditions, applied to sums of arbitrary numbers, variables, an operator"),
], ["numbers in conditions: no NaN, magnitude up to 1e6"])
check("C26", [
    dict(name="lines", src="h26_rulefile.c", defs={"MODE": "0", "LINES": "5", "FIRST": "1", "ANY": '""'}, reach=["accepted", "rejected", "rules"], bounds="every file of a rule set and 4 out of 21 lines, with and without final newline"),
    dict(name="start", src="h26_rulefile.c", defs={"MODE": "0", "LINES": "3", "FIRST": "0", "ANY": '""'}, deep={"LINES": "4"}, reach=["accepted", "rejected", "rules"], bounds="every file of 3 (thorough 4) out of 21 lines"),
    dict(name="forms", src="h26_rulefile.c", defs={"MODE": "1", "LINES": "0", "FIRST": "0", "ANY": '" ->#;\\nxR1"'}, reach=["accepted", "rejected", "rules"], bounds="8 rules with 2 to 3 arbitrary characters out of 9"),
    dict(name="shipped", src="h26_rulefile.c", defs={"MODE": "3", "LINES": "0", "FIRST": "0", "ANY": '""'}, reach=["accepted", "rules"], bounds="the shipped rule file"),
    dict(name="reload", src="h26_rulefile.c", defs={"MODE": "2", "LINES": "0", "FIRST": "0", "ANY": '""'}, reach=["accepted", "rejected", "missing"], bounds="loading a file of 0..9 rule sets, one of them malformed or none, with and without rules loaded before"),
])
check("C14", [
    dict(name="requests", src="h14_tablecmd.c", defs={"MODE": "0", "FOLDS": "10", "HASH": '"013"', "ANY": '""'}, deep={"HASH": '"01237"'}, reach=["rejected", "rows", "folded"], bounds="9 expressions x 12 ranges x 10 folds with arbitrary digits out of 3 (thorough 5), interactive and not"),
    dict(name="characters", src="h14_tablecmd.c", defs={"MODE": "1", "ANY": '" ;x2y-/.()"', "FOLDS": "0"}, deep={"ANY": '" ;x2y-/.()fold!^+"'}, reach=["rejected", "rows", "folded"], bounds="7 requests with 3 arbitrary characters out of 10 (thorough 17)"),
    dict(name="session", src="h14_tablecmd.c", defs={"MODE": "2", "ANY": '""', "FOLDS": "0"}, reach=["rows", "folded"], bounds="two tables with folds after a definition and a result, arbitrary digits"),
], ["ranges whose values are exact in binary; fold expressions defined for all values"])
check("C13", [
    dict(name="alignment", src="h13_table.c", defs={"MODE": "0", "KINDS": "3", "SPANS": "0", "ALIGN": "0"}, deep={"KINDS": "4"}, reach=["printed"],
         bounds="2x2 cells, every default horizontal/vertical alignment of both columns, one horizontal and one vertical override, with and without lines; each cell one of 3 (thorough 4) kinds of text: one character, 4 lines with colours and an empty line, coloured, three characters; all characters symbolic in A..z"),
    dict(name="spans", src="h13_table.c", defs={"MODE": "1", "KINDS": "3", "SPANS": "2", "ALIGN": "0"}, deep={"SPANS": "3"}, reach=["printed", "span"],
         bounds="3x3 grid with up to 2 (thorough 3) spans of any size at any free cell, 3 border styles (none, lines, box), spanning text short / 4 lines / 6 characters; characters symbolic"),
    dict(name="texts", src="h13_table.c", defs={"MODE": "3", "KINDS": "3", "SPANS": "0", "ALIGN": "0", "TEXTLINES": "4"}, deep={"TEXTLINES": "5"}, reach=["printed"],
         bounds="2x2 cells, one of them of 1 to 4 (thorough 5) lines of 0 to 3 characters each, with and without colours; every alignment"),
    dict(name="spanalign", src="h13_table.c", defs={"MODE": "1", "KINDS": "3", "SPANS": "1", "ALIGN": "1"}, reach=["printed", "span"],
         bounds="3x3 grid with one span of any size and position and any horizontal and vertical alignment"),
    dict(name="borders", src="h13_table.c", defs={"MODE": "2", "KINDS": "2", "SPANS": "0", "ALIGN": "0", "OVERRIDES": "2"}, deep={"OVERRIDES": "3"}, reach=["printed"],
         bounds="2x2 cells, every combination of horizontal and vertical default lines, up to 2 (thorough 3) border overrides anywhere, optional trailing row and box, texts padded by format or of two lines"),
])

check("C18", [
    dict(name="bytes", src="h18_commands.c", defs={"MODE": "0", "RULES": "0", "USED": "1", "INTER": "1", "LEN": "3"}, reach=["succeeded", "failed"],
         bounds="every command line of up to 3 bytes, all 254 values each, in a session with two functions, two constants and a history; interactive"),
    dict(name="templates", src="h18_commands.c", defs={"MODE": "1", "RULES": "0"}, reach=["succeeded", "failed"],
         bounds="166 templates covering every command, with one or two holes of any byte (254 values each), interactive and not, followed by three fixed commands"),
    dict(name="words", src="h18_commands.c", defs={"MODE": "2", "RULES": "0", "VOCAB": "1", "LEN": "4"}, deep={"LEN": "5"}, reach=["succeeded", "failed"],
         bounds="every sequence of up to 4 (thorough 5) words of 28 (names, operators, brackets, separators, command words)"),
    dict(name="sequences", src="h18_commands.c", defs={"MODE": "3", "RULES": "0", "INTER": "1", "STEPS": "3"}, deep={"STEPS": "4"}, reach=["succeeded", "failed"],
         bounds="2 (thorough 3) of 36 commands that change something, in any order, then each of 166 malformed or unusual commands; fresh or used session"),
    dict(name="rules", src="h18_commands.c", defs={"MODE": "3", "RULES": "1", "INTER": "0", "STEPS": "2"}, deep={"STEPS": "3"}, reach=["succeeded", "failed"],
         bounds="the same with the shipped rules loaded; 1 (thorough 2) changing commands"),
    dict(name="ruletemplates", src="h18_commands.c", defs={"MODE": "1", "RULES": "1"}, reach=["succeeded", "failed"], thorough_only=True,
         bounds="the templates with the shipped rules loaded"),
    dict(name="loop", src="h18_commands.c", defs={"MODE": "4", "RULES": "0", "LEN": "2", "FIRST": "1"}, reach=["succeeded", "failed"],
         bounds="piped input of one or two lines with 0..1 and 0..2 bytes of any value (NUL and newline included), with and without final newline"),
], assumptions=["tables are limited to a few hundred rows and numbers to those that can be written in the templates: exhausting the machine's memory is not modelled"])

check("C19", [
    dict(name="one", src="h19_failed.c", defs={"RULES": "0", "STEPS": "1"}, reach=["failed", "probed"],
         bounds="67 templates of commands that fail (definitions, evaluations, clear, load, table), each with a hole of any byte, in a session with two functions, two constants and a history; then each of 31 later commands, compared with a session that never saw the failing one"),
    dict(name="words", src="h19_failed.c", defs={"RULES": "0", "STEPS": "1", "VOCAB": "1", "LEN": "3"}, deep={"LEN": "4"}, reach=["failed", "probed"],
         bounds="every failing sequence of up to 3 (thorough 4) words of 21, then each of the 31 later commands"),
    dict(name="rules", src="h19_failed.c", max_inst=20000000000, defs={"RULES": "1", "STEPS": "1"}, reach=["failed", "probed"],
         bounds="the templates with the shipped rules loaded"),
    dict(name="two", src="h19_failed.c", defs={"RULES": "0", "STEPS": "2"}, reach=["failed", "probed"], thorough_only=True,
         bounds="two failing commands one after the other (holes: 4 bytes)"),
])

check("C21", [
    dict(name="switches", src="h21_main.c", defs={"ODD": "0", "ARGS": "3", "INPUTS": "3"}, deep={"ARGS": "4"}, reach=["unknown switch", "help", "version", "argument failed", "failure", "success"],
         bounds="up to 3 (thorough 4) arguments of 13 (every switch in both forms, three commands), 3 inputs, terminal or pipe"),
    dict(name="commands", src="h21_main.c", defs={"ODD": "0", "ARGS": "3", "INPUTS": "12", "WORDS": "1"}, deep={"ARGS": "4", "INPUTS": "8"}, reach=["unknown switch", "help", "argument failed", "failure", "success", "quit"],
         bounds="up to 3 (thorough 4) arguments of 14 (commands that succeed, fail, define, load), 12 (thorough 8) piped inputs with comments, blanks, failing lines and quit, terminal or pipe"),
    dict(name="odd", src="h21_main.c", defs={"ODD": "1", "ARGS": "2", "INPUTS": "2"}, deep={"INPUTS": "5"}, reach=["unknown switch", "help", "version", "argument failed", "failure", "success"],
         bounds="up to 2 arguments of the 13 with one more anywhere that is one of 17 near-switches with up to 2 bytes of any value"),
], assumptions=["what a single command prints is taken from exec_command itself (the other properties decide that)"])
check("C22", [
    dict(name="bytes", src="h22_load.c", defs={"MODE": "0", "LEN": "2", "LEAKS": "0"}, deep={"LEN": "3"}, reach=["same"],
         bounds="every file of up to 2 (thorough 3) bytes, 255 values each, loaded and typed line by line into sessions with a function, a constant and a history, then 8 questions"),
    dict(name="script", src="h22_load.c", defs={"MODE": "1", "LINES": "2", "LEAKS": "0"}, deep={"LINES": "3"}, reach=["same", "quit"],
         bounds="files of up to 2 (thorough 3) of 21 lines (all commands, comments, blanks, nested loads, quit, 150 characters; holes of any byte, a newline included; 6 bytes when there are 3 lines), with and without final newline"),
    dict(name="result", src="h22_load.c", defs={"MODE": "2", "STEPS": "3", "LEAKS": "1"}, deep={"STEPS": "4"}, reach=["loaded", "refused"],
         bounds="sequences of 3 (thorough 4) of 12 load commands: readable, missing, nested and malformed files and rule files"),
])

check("C25", [
    dict(name="templates", src="h25_leaks.c", defs={"MODE": "0", "RULES": "0", "INTER": "0", "UNLOAD": "1"}, reach=["failed", "nothing added", "end"],
         bounds="166 command templates with one or two holes of any byte in a used session; heap after the command and after shutting down"),
    dict(name="sequences", src="h25_leaks.c", defs={"MODE": "1", "RULES": "0", "INTER": "1", "STEPS": "2", "UNLOAD": "1"}, deep={"STEPS": "3"}, reach=["failed", "nothing added", "end"],
         bounds="1 (thorough 2) of 36 commands that change something, then each of 166 unusual commands"),
    dict(name="words", src="h25_leaks.c", defs={"MODE": "2", "RULES": "0", "INTER": "0", "LEN": "4", "VOCAB": "1", "UNLOAD": "0"}, deep={"LEN": "5"}, reach=["failed", "nothing added", "end"],
         bounds="every sequence of up to 4 (thorough 5) words of 21; heap after the command"),
    dict(name="files", src="h25_leaks.c", defs={"MODE": "3", "RULES": "0", "INTER": "0", "STEPS": "3", "UNLOAD": "1"}, deep={"STEPS": "4"}, reach=["failed", "nothing added", "end"],
         bounds="3 (thorough 4) loads of good, malformed and missing rule and command files in any order"),
    dict(name="rules", src="h25_leaks.c", defs={"MODE": "1", "RULES": "1", "INTER": "0", "STEPS": "2", "UNLOAD": "1"}, deep={"STEPS": "3"}, reach=["failed", "nothing added", "end"],
         bounds="0 or 1 (thorough 2) changing commands, then each unusual command, with the shipped rules loaded"),
], assumptions=["live blocks are counted, so growth inside a block (the history's storage) is not memory kept by a command"])

check("C17", [
    dict(name="arith", src="h17_simplify.c", max_inst=20000000000, defs={"MODE": "0", "NLEAF": "4", "OPS": "2"}, deep={"NLEAF": "3", "OPS": "3"}, reach=["proved"],
         bounds="every expression of up to 2 (thorough 3) of the operations + - * / ^ and negation over x, y, 2, 3 (thorough x, y, 2); all real values of the variables"),
    dict(name="functions", src="h17_simplify.c", max_inst=20000000000, defs={"MODE": "1", "NLEAF": "3", "OPS": "2", "NFN": "17"}, deep={"NLEAF": "5"}, reach=["proved"],
         bounds="every expression of up to 2 of 17 operations and functions over x, y, 2 (thorough also 3 and 0.5)"),
    dict(name="rules", src="h17_simplify.c", max_inst=20000000000, defs={"MODE": "2", "NCONST": "3", "NEXPR": "8"}, deep={"NCONST": "5", "NEXPR": "10"}, reach=["proved"],
         bounds="81 shapes around the shipped rules, each with every choice of its constants among 3 (thorough 5) and its parts among 8 (thorough 10)"),
    dict(name="lists", src="h17_simplify.c", max_inst=20000000000, defs={"MODE": "3", "NCONST": "4", "NEXPR": "8"}, deep={"NCONST": "6", "NEXPR": "12"}, reach=["proved"],
         bounds="69 shapes with functions of several arguments, powers, logarithms and percentages, constants among 4 (thorough 6), parts among 8 (thorough 12)"),
    dict(name="long", src="h17_simplify.c", max_inst=20000000000, defs={"MODE": "4", "T_CH": "40", "LENGTHS": "3", "TERMS": "6"}, deep={"LENGTHS": "4", "TERMS": "10"}, reach=["proved"],
         bounds="sums, differences, products and quotients of 5, 8 and 12 (thorough also 17) terms, two alternating ones of 6 (thorough 10), as chains to the left or right and as parameters"),
], assumptions=["variables are positive, and so is every factor of a base raised to a power that is not a small integer: the answer is compared where the given expression is defined under the ordinary real meaning",
                "reals are exact; constants that the calculator folds are compared as rationals or roots of small rationals; where the solver can not decide (transcendental constants), equality is tested at points only and the query is counted as undecided, not as proved"])

check("C24", [
    dict(name="small", src="h24_derivative.c", max_inst=20000000000, defs={"MODE": "0", "NLEAF": "3", "OPS": "2", "NFN": "15", "FORMS": "3"}, deep={"NLEAF": "4", "NFN": "19", "FORMS": "5"}, reach=["proved", "error"],
         bounds="every expression of up to 2 of 15 (thorough 19) operations and functions over x, y, 2 (thorough also 3), derived with deriv(e,x), deriv(e,y) and e' (thorough also twice and through a defined function)"),
    dict(name="shapes", src="h24_derivative.c", max_inst=20000000000, defs={"MODE": "1", "NCONST": "3", "NEXPR": "4", "FORMS": "5"}, deep={"NCONST": "4", "NEXPR": "6"}, reach=["proved", "error"],
         bounds="51 shapes for the derivation rules with constants among 3 (thorough 4) and parts among 4 (thorough 6), derived in five ways: by x, by y, the shorthand, twice, and through a defined function at other arguments"),
    dict(name="long", src="h24_derivative.c", max_inst=20000000000, defs={"MODE": "2", "T_CH": "40", "LENGTHS": "3", "TERMS": "5", "FORMS": "3"}, deep={"LENGTHS": "4", "TERMS": "7", "FORMS": "5"}, reach=["proved"],
         bounds="sums of 3, 5, 8 (thorough also 12) terms, products and quotients of 3 and 5 (thorough also 8), two alternating ones of 5 (thorough 7), as chains and as parameters; 2 to 4 nested functions"),
], assumptions=["variables are positive; the derivative is compared where the expression and its derivative are defined",
                "reals are exact; where the solver can not decide (constants folded in doubles), equality is tested at points only and the query is counted as undecided, not as proved"])

check("C27", [
    dict(name="words", src="h27_marks.c", defs={"MODE": "0", "RULES": "0", "ANY": '""', "LEN": "3"}, deep={"LEN": "4"}, reach=["succeeded", "syntax", "operands", "value", "mark first", "message first"], bounds="every line of up to 3 (thorough 4) out of 15 words and all digits behind 0, 28 or 56 blanks"),
    dict(name="lines", src="h27_marks.c", defs={"MODE": "1", "RULES": "0", "ANY": '" 0123456789xf(),+-/!@\'"'}, deep={"ANY": '" 0123456789xyzfgh(){},+-*/^!%@\'.#$=;"'}, reach=["succeeded", "no mark", "syntax", "operands", "value", "part", "mark first", "message first"], bounds="52 expressions, definitions, clear and table commands with 1 to 3 arbitrary characters out of 23 (thorough 40) behind 0, 28 or 56 blanks"),
    dict(name="columns", src="h27_marks.c", defs={"MODE": "2", "RULES": "0", "ANY": '"0123456789"'}, deep={"ANY": '" 0123456789xf(),+-/!@"'}, reach=["succeeded", "syntax", "operands", "value", "mark first", "message first"], bounds="11 lines with an arbitrary digit (thorough: character out of 22) behind 0 to 60 blanks"),
    dict(name="rules", src="h27_marks.c", defs={"MODE": "1", "RULES": "1", "ANY": '"0x+-!\'"'}, deep={"ANY": '" 01234x(),+-*/^!@\'"'}, reach=["succeeded", "syntax", "operands", "value", "part", "derivative"], bounds="the same lines with the shipped rules loaded: an operator marked as failing only has to be a token of the line, a derivative that fails has to be marked itself"),
])
check("C28", [
    dict(name="borders", src="h13_table.c", defs={"LINES": "1", "MODE": "2", "KINDS": "1", "SPANS": "0", "ALIGN": "0", "OVERRIDES": "2"}, deep={"OVERRIDES": "3"}, reach=["printed"],
         bounds="2x2 cells, every combination of horizontal and vertical default lines, up to 2 (thorough 3) border overrides (including to none) anywhere, optional trailing row and box"),
    dict(name="spans", src="h13_table.c", defs={"LINES": "1", "MODE": "1", "KINDS": "3", "SPANS": "2", "ALIGN": "0"}, deep={"SPANS": "3"}, reach=["printed", "span"],
         bounds="3x3 grid with up to 2 (thorough 3) spans of any size at any free cell, 3 border styles (none, lines, box), spanning text short / 4 lines / 6 characters; characters symbolic"),
])
check("C29", [
    dict(name="sessions", src="h29_help.c", defs={"STEPS": "2", "OPSET": '"-^"'}, deep={"OPSET": '"-+*/^"'}, reach=["none", "definition", "last result", "no result"],
         bounds="every session of 2 out of 12 command templates (definitions, results, clears) with arbitrary names, digits and 2 (thorough 5) operators, followed by help, help operators and license"),
])
# the same properties for few large objects (thresholds, fixed-size buffers)
def sizes(id, size, deep, reach, what, src="hsz_sizes.c", defs_more={}, **more):
    CHECKS[id]["units"].append(dict(name="sizes", src=src, defs={"PROP": id[1:].lstrip("0"), "SIZE": str(size), **defs_more}, deep={"SIZE": str(deep)}, reach=reach,
        bounds=what + f"; sizes out of 0, 1, 2, 7, 8, 9, 15, 16, 17, 31, ..., 129, 255, 256, 257, 300, 511, 512, 513, 1025 up to {size} (thorough {deep})", max_inst=20000000000, **more))
sizes("C04", 300, 1025, ["large"], "sum, prod, avg, var, max, min of many numbers, a special one at the first, second, middle, last positions")
sizes("C05", 300, 513, ["large", "value", "unchanged"], "wide and deep trees of arbitrary numbers with a failing, variable or nested leaf at several positions")
sizes("C07", 300, 1025, ["large"], "history of many arbitrary results, all indices")
sizes("C08", 300, 1025, ["large"], "vectors of many arbitrary elements, three ways to add them")
sizes("C09", 300, 1025, ["large"], "lists of many arbitrary elements with one removed or inserted at several positions")
sizes("C10", 300, 1025, ["large", "iterated"], "long keys next to one of their prefixes; many keys with one of them removed")
sizes("C11", 300, 513, ["large"], "many operators of one placement with one of them removed")
sizes("C12", 300, 1025, ["large"], "two pieces of a long text built in four ways, many lines, many spaces")
sizes("C20", 300, 513, ["large", "different"], "wide and deep trees of arbitrary numbers and variables")
C = dict(src="hsz_client.c")
sizes("C01", 300, 1025, ["large", "accepted", "rejected"], "14 shapes of long expressions (chains, nesting, lists, long names and numbers, blanks), correct and malformed", **C)
sizes("C03", 300, 513, ["large", "long text"], "14 shapes of large trees", **C)
sizes("C13", 300, 1025, ["large"], "tables of many rows, with a long cell, with a cell of many lines; 1 to 3 columns", **C)
sizes("C15", 300, 1025, ["large", "found", "not found"], "6 patterns with list variables against lists of many arbitrary numbers", **C)
sizes("C16", 300, 513, ["large"], "4 rules with list variables against lists of many arbitrary numbers, long rewriting sequences with and without a cap", **C)
sizes("C18", 513, 1025, ["large", "succeeded", "failed"], "39 forms of long commands, interactive or not", **C)
sizes("C22", 513, 1025, ["large"], "9 forms of long files", **C)
sizes("C25", 300, 1025, ["large", "succeeded", "failed"], "39 forms of long commands, twice, interactive or not", **C)
sizes("C26", 300, 1025, ["loaded", "refused"], "6 forms of large rule files", **C)
sizes("C02", 513, 1025, ["large"], "a long run of letters, digits, blanks, operators or a mix between arbitrary characters", src="h02_tokenizer.c", defs_more={"MODE": "3"})
sizes("C06", 300, 513, ["large"], "many definitions with one of them redefined or removed", **C)
sizes("C14", 300, 1025, ["large", "rows", "folded"], "tables of many rows with and without a fold", src="h14_tablecmd.c", defs_more={"MODE": "3"})
sizes("C21", 300, 513, ["large", "failure", "success"], "many commands as arguments or lines, with a failing one at several positions", **C)
sizes("C19", 300, 1025, ["large", "succeeded", "failed"], "39 forms of long commands, interactive or not, followed by 18 probes", **C)
