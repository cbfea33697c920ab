import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p("C01","Tokenizing is lossless and follows the longest-match rule",
 "For every input text and every set of registered operator names (symbolic names not starting with a digit or dot), the tokens of the text are non-empty and their concatenation is exactly the text. Each token is either the longest registered name starting at that position (looked for only outside runs of letters), a maximal run of letters, a maximal run of digits and dots, or one other character. Tokens are independent copies, released completely when the token list is freed.",
 ["inputs","configurations"],"all NUL-terminated texts and all keyword sets",
 "The parser tests tokenize a few dozen fixed expressions against one operator set; the claim is about every text and keyword set.",
 ["src/engine/parsing/tokenizer.c","src/util/string_util.c"],
 [("state machine over character classes","tokenizer.c: tokenize"),("copying of one token","tokenizer.c: push_token"),("character classes","string_util.c: is_digit, is_letter, is_space")],
 ["tokens vector returned by the tokenizer"])
p("C02","Parsing any text is safe and ends in a well-formed tree or a located error",
 "For every operator set and every token sequence, parsing terminates without touching invalid memory and releases everything it allocated except the returned tree. On success exactly one tree is returned, in which every operator node has as many operands as its operator requires (any number for variable-arity functions) and every constant, variable and operator of the text occurs once. On failure no tree is returned, and the reported error comes with a token position not past the end of the input.",
 ["inputs","configurations"],"all token sequences and all consistent operator sets",
 "The parser tests use 37 accepted and 18 rejected inputs; one of the crashing inputs, ((1,2)), was not among them.",
 ["src/engine/parsing/parser.c"],
 [("operand and operator stacks of the shunting-yard loop","parser.c: parse_tokens"),("construction of an operator node from the operand stack","parser.c: op_pop_and_insert"),("precedence pops","parser.c: op_push")],
 ["return value, tree and error position of parse_tokens"],
 [dict(name="vec_nodes / vec_ops",meaning="operand stack and operator stack",where="parser.c: struct ParserState")])
p("C03","Precedence, associativity and placement decide the parse tree",
 "Every accepted text is read according to the declared precedence, associativity and placement (prefix, infix, postfix, function) of the operators, with parentheses and juxtaposition (implicit operator between two adjacent operands) overriding as written: an infix operator of lower precedence never ends up as a bare operand below a tighter one, and equal precedence groups to the declared side. Adding redundant parentheses around a complete operand, or spaces between tokens, does not change the tree.",
 ["inputs","configurations"],"all accepted token sequences, all consistent operator sets",
 "Tests pin the printed form of a few expressions; the relation between precedences and trees has to hold for every operator combination.",
 ["src/engine/parsing/parser.c","src/engine/tree/operator.c"],
 [("pop condition","parser.c: op_push"),("implicit operator insertion","parser.c: parse_tokens step I"),("operator descriptors","operator.c")],
 ["shape of the tree returned by parse_tokens"])
p("C04","Printed expressions read back as the same expression",
 "For every well-formed expression tree over a consistent operator set (no name registered twice, names of letters for functions and symbols otherwise, infix precedence below that of functions), printing it and parsing the text again (with the same operators) yields an equal tree, provided its constants are non-negative and print exactly and its variable names are no operator names. The colored output differs from the plain one only in escape sequences, and printing never changes the tree.",
 ["inputs","configurations"],"all expression trees and operator sets",
 "tree_to_string tests and the randomized test sample a handful of shapes with one operator set.",
 ["src/engine/tree/tree_to_string.c"],
 [("left/right protection flags and parentheses","tree_to_string.c: prefix_to_str, postfix_to_str, infix_to_str, function_to_str")],
 ["text produced for a tree"])
p("C05","Tree copy, equality, variable listing and release are exact",
 "Copying a tree yields a separate tree equal to it in every node (kind, value, name, operator, operands, source position), leaving the original unchanged; two trees compare equal exactly when they have the same shape with equal constants, variables and operators. Counting, listing and finding variables or operators reports exactly those that occur, in order of first occurrence and without duplicates in the listing. Freeing a tree releases every node of it once and nothing else.",
 ["inputs"],"all expression trees",
 "Four tree_util tests look at two or three concrete trees.",
 ["src/engine/tree/tree_util.c","src/engine/tree/node.c"],
 [("structural recursion","tree_util.c: tree_copy, tree_equals, count_all_variable_nodes, get_variable_nodes, list_variables, find_op"),("node memory","node.c: malloc_*_node, free_tree")],
 ["trees before and after each operation"])
p("C06","Substitution replaces exactly the intended occurrences",
 "Replacing a variable by a tree replaces every occurrence of that name by a fresh copy, and nothing else: the result equals the mathematical substitution, and the number returned is the number of occurrences. Replacing one operand by a list of trees splices copies of exactly these trees in its place and keeps the other operands in order. Instantiating a template with a matching replaces every template variable by the tree or list bound to it, and leaves the matched tree and the binding untouched.",
 ["inputs"],"all trees, names, operand positions and list lengths (including 0)",
 "One replacement test and one by-list test exist; empty lists, lists of several trees at different positions and nested templates are not covered.",
 ["src/engine/tree/tree_util.c","src/engine/transformation/transformation.c"],
 [("in-place replacement","tree_util.c: tree_replace, replace_variable_nodes, tree_replace_by_list"),("template instantiation","transformation.c: transform_by_matching")],
 ["resulting trees"])
p("C07","Evaluation and constant folding are compositional",
 "Evaluating a tree applies each operator's function to the values of its operands in order, and fails exactly when the tree contains a variable or some operator reports an error; then the first failing node in evaluation order and its own error are reported. Folding constant subtrees replaces each maximal variable-free subtree by a constant with exactly its value, leaves every other node in place, and reports an error instead of folding when a variable-free subtree cannot be evaluated.",
 ["inputs","configurations"],"all trees and all operator evaluation functions",
 "Tests evaluate fixed expressions with the built-in functions and never check error propagation or what is left untouched.",
 ["src/engine/tree/tree_util.c"],
 [("recursive reduction","tree_util.c: tree_reduce"),("folding","tree_util.c: tree_reduce_constant_subtrees, tree_reduce_ops")],
 ["value, error, error node, folded tree"])
p("C08","Built-in operators compute their mathematical definition",
 "Every built-in arithmetic operator and function returns the value of its definition for all arguments in its domain (for any number of arguments where that is variable), and its name, arity and meaning agree. Division by zero, zero to a non-positive power, and roots or fractional powers below one of negative numbers are reported as errors instead of a value. The comparison, logical and type operators of rule conditions return true or false exactly according to their definition.",
 ["inputs"],"all argument values and argument counts",
 "Evaluation tests touch a fraction of the 58 operators, each with one or two argument tuples.",
 ["src/client/core/arith_evaluation.c","src/client/core/arith_context.c","src/client/simplification/propositional_evaluation.c","src/client/simplification/propositional_context.c"],
 [("dispatch on operator number","arith_evaluation.c: arith_op_evaluate"),("same numbering as registration order","arith_context.c: get_arith_ctx"),("conditions","propositional_evaluation.c: prop_op_evaluate, type_eval, equal_eval, propositional_checker")],
 ["value or error for an operator and arguments"])
p("C09","Rewriting replaces only true instances of a rule",
 "A reported matching of a pattern in a tree is sound: substituting the bound trees and lists for the pattern's variables gives exactly the matched subtree, every occurrence of a variable is bound to equal trees, and all the pattern's conditions hold for the binding; a subtree that has such a binding is found. Applying a rule replaces the first matched subtree (top-down, left to right) by the instantiated right-hand side and changes nothing else; when nothing matches the tree is untouched. Applying a rule set always tries rules in their order, restarts after each success, and stops exactly when none applies or the given number of applications is reached.",
 ["inputs","configurations"],"all trees, patterns with tree and list variables, conditions, rule sets",
 "Transformation tests run a few rules; variable-length list binding has exponentially many splits and repeated list variables are not tested.",
 ["src/engine/transformation/matching.c","src/engine/transformation/rewrite_rule.c","src/engine/transformation/transformation.c"],
 [("binding with consistency check","matching.c: extend_matching, nodelists_equal"),("operand list splits","matching.c: match_parameter_lists, fill_suffix"),("application","rewrite_rule.c: apply_rule, apply_ruleset_by_iterator"),("variable numbering and condition triggers","matching.c: get_pattern")],
 ["matchings and rewritten trees"])
p("C10","The operator registry behaves as a map with unique operators",
 "After any sequence of operator additions and deletions, looking up a name and placement finds exactly the operator added last under it and not deleted since, and distinct registered operators are always distinguishable from each other. An addition is refused, without any effect, exactly when name and placement are already taken or an infix operator would contradict the associativity of an existing one with the same precedence. Deleting reports whether the operator existed and leaves all other operators usable.",
 ["histories","inputs"],"all sequences of add, delete and lookup",
 "One context test adds a handful of operators; no test deletes and re-adds, where two live operators can become indistinguishable.",
 ["src/engine/parsing/context.c"],
 [("name clash and consistency checks","context.c: ctx_add_op"),("lookup","context.c: ctx_lookup_op"),("deletion","context.c: ctx_delete_op")],
 ["results of lookups"],
 [dict(name="op_list, op_tries, keywords_trie",meaning="registered operators, name index per placement, token names",where="context.h: ParsingContext")])
p("C11","Vectors and string builders are faithful growing sequences",
 "Any sequence of vector operations behaves like the same operations on a mathematical sequence: pushes append, pop removes and returns the last element, reads return what was stored at that position, iteration visits every element once in order, and growth or trimming never loses, changes or reorders elements. The string builder always holds the concatenation of everything appended so far, terminated, whatever the lengths and initial size. No operation reads or writes outside its buffer.",
 ["histories","inputs"],"all operation sequences, element counts, initial capacities and string lengths",
 "The vector and string builder tests push a few elements; capacity boundaries and zero initial sizes are sampled at single points.",
 ["src/util/vector.c","src/util/string_builder.c","src/util/alloc_wrappers.c"],
 [("growth","vector.c: vec_ensure_size"),("push, pop, get","vector.c"),("two-step formatted append","string_builder.c: vstrbuilder_append")],
 ["contents and counts"],
 [dict(name="elem_count <= buffer_size",meaning="representation invariant",where="vector.h: Vector")])
p("C12","Linked lists are faithful sequences under every edit",
 "After any sequence of insertions and deletions at any position, the list holds exactly the elements of the corresponding mathematical sequence: forward traversal, backward traversal, indexed access and iteration all agree on content and order, and the count is exact. Destroying a list releases each node once.",
 ["histories","inputs"],"all edit sequences and positions",
 "The list tests perform one short scripted sequence; deletion and insertion at every boundary position is not enumerated.",
 ["src/util/linked_list.c"],
 [("pointer surgery","linked_list.c: list_insert_after, list_delete_node"),("two-sided search","linked_list.c: list_get_node")],
 ["element order seen by readers"])
p("C13","The prefix tree is an exact string map",
 "After any sequence of insertions and removals, a string is contained exactly if it was inserted and not removed since, with the payload stored for it; the longest-prefix query returns the length of the longest contained prefix; the count is exact, and iteration visits each contained string once in lexicographic order. Inserting a present string changes nothing and says so; removal of one string never affects another and frees nodes no longer needed.",
 ["histories","inputs"],"all sequences of operations on strings over the legal alphabet",
 "The trie test inserts and removes a few words; shared prefixes with interleaved removals are combinatorially many.",
 ["src/util/trie.c"],
 [("insertion","trie.c: trie_add_str"),("pruning removal","trie.c: remove_rec"),("lookup","trie.c: trie_longest_prefix, trie_contains"),("iteration","trie.c: find_terminal, get_next")],
 ["lookup results, count, iteration order"])
p("C14","User-defined functions mean their definition; failed definitions leave no trace",
 "Calling a user-defined function or constant always gives the result of its defining expression with the arguments substituted for the parameters, independently of which other functions were defined or cleared before or after. A rejected definition (syntax error, unbound or repeated parameter, recursion, existing or built-in name, non-evaluable body) reports an error and leaves the set of functions as it was. Clearing removes exactly the named function, or all, and the name can be defined anew.",
 ["histories","inputs"],"all sequences of definitions, clears and evaluations",
 "No test drives definitions through the command layer; clearing and redefining in different orders is a history property.",
 ["src/client/commands/cmd_definition.c","src/client/commands/cmd_clear.c","src/client/core/arith_context.c","src/engine/parsing/context.c"],
 [("checks and roll-back","cmd_definition.c: add_function"),("elimination rules","arith_context.c: add_composite_function, remove_composite_function, clear_composite_functions"),("substitution","rewrite_rule.c: apply_rule")],
 ["output of later evaluations"])
p("C15","The result history returns the k-th last result",
 "After any session, asking for history entry k gives the k-th last successfully evaluated constant result (0 is the most recent, also available as the last answer), for every k smaller than the number of results, and an error for every other k. Failed and non-constant evaluations add nothing and earlier entries never change.",
 ["histories"],"all sequences of evaluations and all indices",
 "No test stores more than a few results; the buffer grows beyond its initial eight entries only in longer sessions.",
 ["src/client/core/history.c","src/client/commands/cmd_evaluation.c","src/client/core/arith_evaluation.c"],
 [("append and indexed read from the end","history.c: history_add, history_get"),("recording of results","cmd_evaluation.c: cmd_evaluation_exec")],
 ["values of @k and ans"])
p("C16","Every line of a printed table has the same display width",
 "For every table built from cells, spans, borders and alignments, all printed lines have the same display width (escape sequences count as zero), every column is wide enough for each cell in it, and each cell's text appears completely, once, at its place with the requested alignment. Printing never reads outside the table's cells or its texts, and freeing a table releases all its rows and owned texts.",
 ["inputs","configurations"],"all cell texts, spans, border and alignment settings up to the maximum number of columns",
 "The table test prints a few fixed tables and only looks that nothing crashes.",
 ["src/table/table.c","src/util/string_util.c"],
 [("column and row sizing","table.c: get_dimensions, satisfy_constraints"),("width of spanning cells","table.c: get_total_width, get_total_height"),("display length","table.c: console_strlen, get_text_width, get_text_height"),("line extraction","string_util.c: get_line_of_string, skip_ansi")],
 ["printed text"])
p("C17","Every input line reaches the right command exactly once, and failures show",
 "Non-interactive input is processed line by line in order: each line, including a last one without line end, is delivered with exactly its characters, empty and comment lines are skipped, and quitting stops at once. A line is executed by the first command that recognizes it (help, table, definition, clear, load, evaluation, in this order) and by no other. The exit status is success exactly when no executed command failed.",
 ["inputs","histories"],"all input streams and command line arguments",
 "The test program does not include the main program, input reader or command dispatch.",
 ["src/client/commands/commands.c","src/util/console_util.c","src/client/main.c","src/client/commands/cmd_load.c","src/client/commands/cmd_clear.c"],
 [("reading a line","console_util.c: ask_input_getline"),("loop and exit status","commands.c: process_input"),("dispatch","commands.c: exec_command"),("switches","main.c")],
 ["standard output, error output and exit status"])
p("C18","The table command lists exactly the requested points and folds them in order",
 "The table command prints one row per value start, start+step, ... up to and including end (the sign of step is adjusted to the direction), showing the expression's value at that point or an error. With a fold clause the printed and recorded result is the left fold of the fold expression over exactly the successfully computed values, starting from the initial value. Invalid requests (wrong number of parts, non-constant bounds, zero step, foreign variables) are refused with an error and print no table.",
 ["inputs"],"all expressions, bounds, steps and fold clauses",
 "No test executes the table command.",
 ["src/client/commands/cmd_table.c","src/util/string_util.c"],
 [("argument splitting","string_util.c: str_split, strip; cmd_table.c: cmd_table_exec"),("row loop","cmd_table.c: cmd_table_exec")],
 ["printed rows, fold result"])
p("C19","Rule files are read completely and faithfully",
 "Reading a rule file yields, for each section in order, exactly the rules written on its non-comment lines, each with its left side, right side and all its conditions; comments and blank lines add nothing, and a last line without line end counts like any other. A line that is not a valid rule, has too many variables or conditions, or uses an unbound variable on its right side makes the whole load fail with an error instead of being dropped or half-applied.",
 ["inputs"],"all rule file texts",
 "Tests load the one shipped rule file and a few rules.",
 ["src/engine/transformation/rule_parsing.c","src/engine/transformation/rewrite_rule.c","src/engine/transformation/matching.c","src/client/simplification/simplification.c"],
 [("line loop","rule_parsing.c: parse_rulesets_from_file"),("one rule","rule_parsing.c: parse_rule, parse_constraints, parse_pattern"),("validity","rewrite_rule.c: get_rule; matching.c: get_pattern")],
 ["rule sets, reported errors"])
p("C20","Simplification preserves the value of an expression and terminates",
 "For every expression accepted by the calculator, simplifying it with the shipped rule file terminates, and the simplified expression has the same value as the original for every assignment of its variables for which the original is defined. Symbolic derivatives equal the mathematical derivative.",
 ["inputs"],"all expressions and variable assignments",
 "The simplification tests compare 40-odd printed results; the claim is about all expressions and real-valued assignments.",
 ["simplification.ruleset","src/client/simplification/simplification.c"],
 [("rule data","simplification.ruleset"),("driver","simplification.c: simplify")],
 ["printed results"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
