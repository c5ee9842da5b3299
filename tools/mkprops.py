#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to keep titles, statements and anchors in step)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": state} if state else {}),
                          **({"observe_at": observe} if observe else {}), "hook_needed": None}})

prop("C01", "The parser accepts exactly the grammar and builds the right tree",
 "For every operator table that can be built through the context interface and every token sequence, parsing succeeds exactly when the tokens form an expression of that table's grammar, and a failed parse reports an error, hands out no tree and leaks nothing. A successful parse yields the one tree fixed by the declared precedences, associativities, arities, parentheses, vectors and the implicit (glue) operator. In particular it never depends on which other operators exist or on the order they were registered in.",
 ["inputs", "configurations"], "every operator table (symbolic precedence and associativity) x every token sequence up to the bound",
 "test_parser.c pins 30 odd expressions against the one fixed arithmetic table; precedence/associativity combinations and error positions are a product space.",
 ["src/engine/parsing/parser.c", "src/engine/parsing/context.c"],
 [("shunting yard main loop", "parser.c parse_tokens"), ("operator pushing", "parser.c push_operator"), ("popping", "parser.c op_pop_and_insert")],
 ["ParsingResult of parse_input/parse_tokens"])
prop("C02", "Tokenizing is lossless and longest-match",
 "For every input string and registered operator set, the produced tokens (separators included as tokens of their own) concatenated in order equal the input exactly, no token is empty, and a run of spaces never shares a token with anything else. Registered operator names are recognised longest-first at token boundaries, while maximal runs of letters (and digits following them) and of digits stay together as single names or numbers; only a registered name beginning inside a number ends that number.",
 ["inputs", "configurations"], "every byte string up to the bound under several operator tables",
 "The tests tokenise only through the parser with well-formed arithmetic inputs.",
 ["src/engine/parsing/tokenizer.c", "src/util/trie.c"],
 [("maximal munch through the keyword trie", "tokenizer.c tokenize"), ("longest prefix", "trie.c trie_longest_prefix")])
prop("C03", "Printing an expression and parsing it back gives the same expression",
 "For every operator table and every expression tree over it whose constants are non-negative and print without exponent, the text printed for the tree parses (with that table) to an identical tree. This holds for every combination of precedence (below the one of functions), associativity and placement, including prefix/postfix operators next to infix ones, functions, vectors and the implicit multiplication.",
 ["inputs", "configurations"], "every tree up to the bound x every precedence/associativity assignment",
 "test_tree_to_string.c has a handful of fixed trees; test_randomized samples the arithmetic table only and only compares evaluated values.",
 ["src/engine/tree/tree_to_string.c", "src/engine/parsing/parser.c"],
 [("parenthesis decision", "tree_to_string.c l_bound/r_bound handling")])
prop("C04", "Every built-in operator and function computes its documented value",
 "For every argument values, each arithmetic operator and function returns the mathematical function it is documented to be, applied to its own arguments in order, and reports exactly these as errors instead of returning a number: division by zero, zero to a non-positive power, a non-integer power of a negative number, a root of a negative number, a history index that is not set, a derivative that is left. Other undefined points give NaN. Aggregates (sum, product, min, max, average, variance) agree with their definition for every number and order of arguments, and every evaluation terminates.",
 ["inputs"], "all 64-bit double arguments; bounded argument counts for variadic functions",
 "Tests evaluate a few literal expressions; domain edges (negative, zero, fractional, NaN) and argument orders are not enumerated.",
 ["src/client/core/arith_evaluation.c", "src/client/core/arith_context.c"],
 [("operator switch", "arith_evaluation.c arith_op_evaluate"), ("aggregate folds", "arith_evaluation.c")])
prop("C05", "Evaluation is compositional and errors propagate",
 "Evaluating any tree equals applying each operator to the values of its children; if any operator evaluation fails the whole evaluation fails with that operator's error, identifying an operator that really failed, and no value is produced. The result does not depend on the tree's sharing, size, or on how many children an operator has.",
 ["inputs"], "every tree shape up to the bound with symbolic per-operator results",
 "Tests evaluate well-formed constants only; failure at an arbitrary position of a tree of arbitrary arity is never exercised.",
 ["src/engine/tree/tree_util.c", "src/client/commands/cmd_evaluation.c"],
 [("recursive evaluation", "tree_util.c tree_reduce")])
prop("C06", "User definitions mean substitution of their right-hand side",
 "After a definition f(x1..xn)=body or c=body is accepted, every later use f(a1..an) or c evaluates to the body with the arguments substituted for the parameters, simultaneously and respecting precedence, for as long as the definition stands. Redefining replaces the meaning, clearing removes it, and neither affects any other name; recursive, ill-formed or built-in-shadowing definitions are rejected.",
 ["inputs", "histories"], "every definition/redefinition/clear/use sequence up to the bound with symbolic names, parameter orders and arguments",
 "There are no tests of the definition command at all.",
 ["src/client/commands/cmd_definition.c", "src/client/commands/cmd_clear.c", "src/client/simplification/simplification.c", "src/engine/parsing/context.c"],
 [("composite function rules", "simplification.c / cmd_definition.c add_function"), ("removal", "cmd_clear.c")])
prop("C07", "History references yield the results of earlier evaluations",
 "After any sequence of evaluations, 'ans' and '@0' denote the value of the most recent successful evaluation and '@i' the value i evaluations before it, for every i below the number of evaluations (fractions are truncated); any other index is reported as an error. Failed commands and commands that produce no number add nothing to the history.",
 ["histories", "inputs"], "every evaluation history up to the bound (crossing the storage growth boundaries) and every index value",
 "There are no tests of the history.",
 ["src/client/core/history.c", "src/client/core/arith_evaluation.c", "src/client/commands/cmd_evaluation.c"],
 [("history vector", "history.c")])
prop("C08", "The growable vector behaves as a sequence",
 "Under every sequence of pushes, multi-element pushes, pops, trims, reservations, index writes and reads, the growable vector holds exactly the elements a mathematical sequence would hold, in order, for every element size and starting capacity. Iterating visits each element exactly once in order, and no operation touches memory outside the elements.",
 ["histories", "inputs"], "every operation sequence up to the bound with symbolic operations, counts and contents",
 "test_data_structures.c runs one fixed push/pop script.",
 ["src/util/vector.c", "src/util/iterator.c"],
 [("growth", "vector.c vec_ensure_size/vec_push"), ("iteration", "vector.c vec_get_iterator")])
prop("C09", "The linked list behaves as a sequence under insert and delete",
 "Under every sequence of insertions after any node or at any position, appends, lookups by position and deletions by node or position, the list holds exactly the elements a mathematical sequence would, with a correct count and in iteration order, and first and last node are the ends of that sequence. Every element not deleted keeps its identity (stored pointers to it stay valid).",
 ["histories", "inputs"], "every operation sequence up to the bound with symbolic operations and positions",
 "test_data_structures.c performs one fixed script.",
 ["src/util/linked_list.c"],
 [("link maintenance", "linked_list.c list_insert_after/list_insert_before/list_delete")])
prop("C10", "The trie is a map from names to values with exact and longest-prefix lookup",
 "Under every sequence of insertions and removals of names, the trie finds exactly the names that are present with their values (inserting a present name is refused and changes nothing), and the longest-prefix query returns the longest present name that is a prefix of the query text (or none). Iteration yields every present value exactly once, and removal of a name never affects another one, even when one is a prefix of the other. Texts with characters that can not be part of a name are simply not found.",
 ["histories", "inputs"], "every operation sequence up to the bound over symbolic names and query texts",
 "test_data_structures.c uses four fixed names and never removes and re-adds prefixes of each other in all orders.",
 ["src/util/trie.c"],
 [("node sharing and pruning", "trie.c trie_remove_str"), ("prefix walk", "trie.c trie_longest_prefix"), ("iterator", "trie.c trie_get_iterator")])
prop("C11", "The operator table stays consistent under additions and removals",
 "After any sequence of adding and removing operators, looking an operator up by name and placement finds exactly the ones currently registered with their declared attributes, identifiers are unique, and lookups of others find nothing. Additions that would make the grammar ambiguous (duplicate name and placement, infix operators of one precedence with different associativity) or that exceed a limit are refused and change nothing.",
 ["histories", "configurations"], "every add/remove/lookup sequence up to the bound with symbolic names, precedences, placements, arities",
 "Tests only build the fixed tables at start-up.",
 ["src/engine/parsing/context.c", "src/engine/tree/operator.c"],
 [("conflict check", "context.c ctx_add_op"), ("lookup", "context.c ctx_lookup_op"), ("removal", "context.c ctx_delete_op/ctx_remove_op")])
prop("C12", "String building and string utilities lose, add and mangle nothing",
 "For every input text, building a string by appending pieces gives exactly their concatenation; splitting, stripping, line extraction, line counting, prefix and substring tests and visible-length computation return exactly the characters specified by their delimiters, and never read or write outside the given text.",
 ["inputs"], "every text up to the bound over the full byte alphabet",
 "No test calls these directly.",
 ["src/util/string_builder.c", "src/util/string_util.c"],
 [("splitting", "string_util.c str_split"), ("ANSI-aware length", "string_util.c / console_util.c")])
prop("C13", "A rendered table shows every cell, whole and aligned",
 "For every table built through the interface (contents, multi-line cells, column and row spans, borders, per-column alignment and overrides), rendering prints every line of every cell exactly once and unclipped, on the screen lines of its row and within its column, and every printed line has the same visible width. Horizontal and vertical alignment place the text as requested.",
 ["inputs", "configurations"], "every small table with symbolic contents, spans, borders and alignments",
 "test_table.c compares one hand-made picture by eye or a fixed string.",
 ["src/table/table.c"],
 [("constraint solving of widths/heights", "table.c get_dimensions"), ("printing", "table.c print_*")])
prop("C14", "The table command tabulates the expression over the requested range",
 "For every expression, range and step, 'table e ; from ; to ; step' lists x = from, from+step, ... up to and including the last value not beyond 'to', each once and in order with the value of e at x, and an undefined value is shown as an error in its row only. With a fold expression the reported result is the left fold of the values in row order starting from the initial value; malformed requests are rejected without output of a table.",
 ["inputs"], "symbolic ranges, steps, expressions and fold expressions up to the row bound",
 "There are no tests of the table command.",
 ["src/client/commands/cmd_table.c"],
 [("row loop", "cmd_table.c cmd_table_exec"), ("fold", "cmd_table.c")])
prop("C15", "Pattern matching is sound and complete",
 "For every pattern and tree, a reported matching binds every pattern variable so that substituting the bindings into the pattern yields the tree exactly, with repeated variables bound to equal subtrees, and satisfies the constraints; if such a binding exists one is reported. This includes list variables, which bind to runs of consecutive children of any length including none.",
 ["inputs"], "every pattern and tree over a small signature up to the bound",
 "test_simplification.c observes matching only through a few whole-simplifier results.",
 ["src/engine/transformation/matching.c"],
 [("backtracking over lists", "matching.c extend_matching"), ("constraint filter", "matching.c")])
prop("C16", "Rule sets are applied first-rule-first, to a fixpoint or the cap",
 "Applying a rule set repeatedly replaces the first matching subtree (outermost, leftmost) by the instantiated right-hand side of the first applicable rule, restarting with the first rule after each application, until none applies or the given cap of applications is reached. The tree outside the replaced subtree is untouched and the returned count is exactly the number of applications.",
 ["inputs", "programs"], "every rule set and tree over a small signature up to the bound",
 "Tests exercise only the shipped rule file.",
 ["src/engine/transformation/transformation.c", "src/engine/transformation/rewrite_rule.c"],
 [("fixpoint loop", "rewrite_rule.c apply_ruleset"), ("search", "matching.c find_matching")])
prop("C17", "Simplification never changes what an expression means",
 "With the shipped rule file loaded, simplifying any expression yields an expression with the same value for every assignment of its variables at which the original is defined (over the positive reals, with positive factors in the bases of powers that are not small integers), it introduces no new variables, and simplification always terminates. This holds for every combination of operators the rules mention.",
 ["inputs", "programs"], "every expression up to the bound over + - * / ^ and the functions of the rules, for all real variable values",
 "test_simplification.c compares seventeen fixed inputs with fixed outputs.",
 ["src/client/simplification/simplification.c", "simplification.ruleset", "src/engine/transformation/rewrite_rule.c"],
 [("rule file", "simplification.ruleset"), ("phase ordering", "simplification.c core_simplify")])
prop("C18", "No command line can crash, corrupt memory or abort the calculator",
 "For every command line, executing it on any reachable session returns normally with success or an error message: it never reads or writes invalid memory, never dereferences a null pointer, never divides by integer zero, never aborts and never ends the session (only 'quit' does). Any input may be malformed.",
 ["inputs", "histories"], "every byte string up to the bound and every filling of longer command templates, in a fresh and in a used session",
 "The tests never feed malformed commands; the fuzzer samples arithmetic expressions only.",
 ["src/client/commands/commands.c", "src/client/commands/cmd_definition.c", "src/client/commands/cmd_table.c", "src/engine/parsing/parser.c", "src/engine/parsing/tokenizer.c"],
 [("command dispatch", "commands.c exec_command"), ("input validation", "parser.c, cmd_*.c")])
prop("C19", "A failed command changes nothing",
 "If a command reports failure, every later command behaves exactly as if the failed one had never been issued: the definitions, operators, rule sets and history are as before. In particular a rejected definition leaves a previous definition of that name intact.",
 ["histories", "inputs"], "every failing command from the bounded command grammar followed by every probe",
 "There are no session-level tests.",
 ["src/client/commands/cmd_definition.c", "src/client/commands/cmd_load.c", "src/client/commands/cmd_evaluation.c"],
 [("rollback on error", "cmd_definition.c"), ("load error handling", "cmd_load.c")])
prop("C20", "Tree copies are deep, equality is structural, substitution is exact",
 "For every tree: a copy is equal to it (as far as its constants equal themselves) and independent of it (changing or freeing one never affects the other); equality holds exactly for structurally identical trees; replacing variables substitutes every occurrence and nothing else; counting, listing and searching variables and subtrees agree with the tree. Freeing a tree releases all of it exactly once.",
 ["inputs"], "every tree up to the bound with symbolic leaves and operators",
 "test_tree_util.c checks a couple of fixed trees.",
 ["src/engine/tree/node.c", "src/engine/tree/tree_util.c"],
 [("deep copy", "tree_util.c tree_copy"), ("comparison", "tree_util.c tree_equals"), ("replacement", "tree_util.c tree_replace_by/replace_variable_nodes")])
prop("C21", "Command-line switches and exit codes tell the truth",
 "For every argument vector, documented switches in short and long form have their documented effect, an unknown switch is rejected with a message and failure before anything is executed, and everything after the commands switch is executed in order, stopping at the first failing command. Piped input is executed line by line to its end or to 'quit'. The exit status is success exactly when the switches were understood and no executed command, given as an argument or piped in, failed.",
 ["inputs", "configurations"], "every argument vector and piped input up to the bound",
 "No test runs main.",
 ["src/client/main.c", "src/client/commands/commands.c"],
 [("switch parsing", "main.c main/parse_arg"), ("exit status accumulation", "commands.c process_input")])
prop("C22", "Loading a file equals typing its lines",
 "Loading a command file has the same effect as entering its lines one after the other: blank lines and comments are skipped, every other line is executed completely and in order, whether or not the last line ends in a newline. The load reports success exactly when it could read the file, and a missing or malformed file is reported as an error.",
 ["inputs", "histories"], "every file content up to the bound",
 "No test loads a command file.",
 ["src/client/commands/cmd_load.c", "src/client/commands/commands.c", "src/util/console_util.c"],
 [("line reading", "console_util.c ask_input_getline"), ("loop", "commands.c process_input")])
prop("C23", "Rule side conditions are evaluated according to their logic",
 "For every side condition built from comparisons, type tests, equality tests and logical connectives, the condition counts as satisfied exactly when it is true under the standard meaning of its parts; conditions that cannot be decided because an operand is not a number or is undefined never count as satisfied. A rule fires only where all of its conditions hold.",
 ["inputs"], "every condition tree up to the bound with symbolic constants and node kinds",
 "No test evaluates side conditions directly.",
 ["src/client/simplification/propositional_evaluation.c", "src/client/simplification/propositional_context.c"],
 [("truth evaluation", "propositional_evaluation.c prop_op_evaluate/propositional_checker")])
prop("C24", "Derivatives are correct",
 "With the shipped rule file loaded, the derivative of any expression built from the supported operators and elementary functions equals the mathematical derivative with respect to the named variable at every point with positive variables where the expression is differentiable, and introduces no variable; an expression of + - * / ^ - sin cos tan asin acos atan ln exp sqrt always has one; where none can be found, or the shorthand e' meets more than one variable, an error is reported instead of a wrong result. A function defined as a derivative gives the derivative at whatever it is applied to.",
 ["inputs", "programs"], "every expression up to the bound over the differentiable operators, all real points",
 "test_simplification.c has four fixed derivatives.",
 ["simplification.ruleset", "src/client/simplification/simplification.c"],
 [("derivation rule set", "simplification.ruleset RULESET 2"), ("derivative shortcut handling", "simplification.c")])
prop("C25", "A session releases everything it allocated",
 "After any sequence of commands, successful or failing, shutting the command layer down frees every block allocated since start-up exactly once, and every command that adds no definition, rule or history entry frees what it allocated before it returns. Memory use therefore does not grow with the number of failed or purely informational commands.",
 ["histories", "inputs"], "every command sequence from the bounded command grammar",
 "No test counts allocations.",
 ["src/client/commands/commands.c", "src/client/core/arith_context.c", "src/client/simplification/simplification.c", "src/engine/parsing/parser.c"],
 [("teardown", "commands.c unload_commands"), ("error paths", "parser.c, cmd_*.c")])
prop("C26", "Rule files are read exactly or rejected as a whole",
 "Reading a rule file yields exactly the rules written in it: same number and order of rule sets and rules, and for each rule the left side, right side and all of its conditions as written, ignoring comments, blank lines and indentation. A file with any malformed rule is rejected as a whole: nothing of it is loaded, the error is reported and everything read so far is released.",
 ["inputs"], "every rule-file text from the bounded line grammar, with symbolic bytes",
 "Tests read only the shipped file.",
 ["src/engine/transformation/rule_parsing.c", "src/client/simplification/simplification.c"],
 [("line grammar", "rule_parsing.c parse_rulesets"), ("conditions", "rule_parsing.c parse_constraints")])
prop("C27", "Error messages mark the part of the line that is wrong",
 "In interactive mode, the mark below a refused line lies exactly below what the message is about: for a malformed expression the first token that no expression can have after the ones before it (or the place behind the end when something is missing there), for a wrong number of operands the function called with them, for a failing evaluation (division by zero, complex result, missing history entry) an operator that really fails for its operands, and otherwise the argument of the command that is refused. This holds inside of definitions, function calls and the arguments of the table command, wherever they stand in the line, and whether the message is printed before or behind the mark.",
 ["inputs", "histories"], "every line of the bounded word grammar and every filling of the line templates, behind any of three numbers of blanks",
 "Tests check error codes of the parser, never a mark; most marks appear only in interactive mode, which no test uses.",
 ["src/client/core/arith_context.c", "src/util/console_util.c", "src/engine/parsing/parser.c", "src/engine/tree/tree_util.c", "src/client/commands/cmd_table.c", "src/client/commands/cmd_definition.c"],
 [("marking", "console_util.c report_error_at"), ("token to column", "arith_context.c show_error_at_token"), ("failing token", "parser.c error_token"), ("failing operator", "tree_util.c tree_reduce")])
prop("C28", "The lines of a table are where asked for and join",
 "For every table built through the interface, each separator between two columns or rows is drawn in the style asked for there: the override of the cell to its right or below it if there is one, otherwise the style of the column or row, blank for none, and never inside of a cell that spans over it or along an empty last column or row. Every crossing of separators shows exactly the arms whose lines meet in it (blank when fewer than two meet), double when most of them are.",
 ["inputs", "configurations"], "every small table with any styles, overrides, spans, box and trailing row",
 "test_table.c prints one hand-made picture.",
 ["src/table/table.c"],
 [("crossings", "table.c print_intersection_char"), ("separators", "table.c print_row_border, fprint_table"), ("empty last row and column", "table.c override_superfluous_lines"), ("spans", "table.c set_span")])
prop("C29", "Help shows exactly the operators and definitions there are",
 "After any session, 'help' shows every built-in operator exactly once in its written form and every user-defined function and constant exactly once, in order, with its parameters and a right-hand side that means the same as the definition, and nothing that was cleared or refused; 'help operators' lists every built-in operator once under its kind with the precedence, associativity and number of operands the parser uses and the value evaluation gives for a constant, the last result included. Showing help changes nothing.",
 ["histories", "inputs"], "every session from the bounded command templates with symbolic names, digits and operators",
 "No test runs the help command.",
 ["src/client/commands/cmd_help.c", "src/client/core/arith_context.c", "src/engine/tree/tree_to_string.c"],
 [("operators", "cmd_help.c print_ops_between, print_op_table"), ("definitions", "cmd_help.c print_short_help")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
