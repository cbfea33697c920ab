TECH = 'contract-based deductive verification of the C functions (own VC generator over clang AST, z3)'
CLAIMS = {
 'C10': {'note': 'ctx_create, ctx_add_op, ctx_delete_op, ctx_lookup_op, ctx_set_glue_op and ctx_destroy meet contracts over the sequence of operators, the four name maps and the keyword map, with the invariant that they agree (every operator is found by its name and placement, and only those; keywords are exactly the names; ids strictly increase; equal precedence means equal associativity of infix operators), for all contexts and names. Names are assumed to stay readable and unchanged while in a context; ids below 2^64; ctx_add_ops (a loop over ctx_add_op) is covered by the bounded harness.'},
 'C11': {'note': 'Every function of vector.c and string_builder.c meets its contract over a mathematical sequence, for all inputs. Trusts vcg, z3, clang, the models of malloc/realloc/memcpy/vsnprintf.'},
 'C15': {'note': 'history_get/history_add meet their contract over the sequence of results. Trusts vcg, z3, clang, the allocation model.'},
 'C12': {'note': 'Every function of linked_list.c (iterator included) meets its contract over a mathematical sequence, for all lists, positions and payload sizes. Trusts vcg, z3, clang, the allocation model.'},
 'C05': {'note': 'Copy, equality, counting, listing, numbering, operator search and release of trees meet contracts over inductive tree values, for all trees. get_variable_nodes is under contract for calls without a buffer (the only ones the program makes); with a buffer it is checked by the bounded native harness. Trusts vcg, z3, clang, the allocation and strcmp models.'},
 'C06': {'note': 'replace_variable_nodes, tree_replace and tree_replace_by_list meet contracts stating the mathematical substitution / splice, for all trees.'},
 'C07': {'note': 'tree_reduce, tree_reduce_constant_subtrees and tree_reduce_ops meet contracts stating the recursive definition of value, error and failing node, for all trees and listeners whose result is a function of operator and operands.'},
 'C01': {'note': 'tokenize, push_token, free_tokens and the character classes meet contracts stating the longest-match rule piece by piece, covering the text, with own copies, for all texts; the set of names is abstract and trie_longest_prefix is used through its contract.'},
 'C13': {'note': 'Insertion, removal (with pruning), lookup, longest prefix, count, creation and release of tries meet contracts over a mathematical map, for all strings and tries; the iterator is covered by the bounded native harness only. Trusts vcg, z3, clang, the allocation model.'},
 'C08': {'note': 'arith_op_evaluate and prop_op_evaluate are verified operator by operator against a table of definitions (value and error for every operand list), with double arithmetic and libm uninterpreted; the registration of names and the evaluation of whole expressions are covered by the bounded harness.'},
 'C16': {'note': 'skip_ansi and get_line_of_string meet contracts over texts (end of the escape sequences, start and length of a line), for all texts; sizing, borders, alignment and printing are covered by the bounded native harness.'},
 'C17': {'note': 'process_input, exec_command, the line readers and the recognizers of all six commands meet contracts over the sequence of lines of a file and a ghost trace of executed commands (every line that is neither empty nor a comment, in order, up to the first quit line; exit status success exactly if none failed, also none outside of the file in which quit stands; the first recognizing command is the one executed), for all files. Non-interactive input; getline is modelled (lines without NUL); what each command does is trusted here and the subject of other properties; main, load and clear are covered by the bounded native harness.'},
 'C18': {'note': 'str_split, strip and begins_with meet contracts over texts, for all texts, delimiters and numbers of delimiters; the row loop and the fold are covered by the bounded native harness.'},
 'C02': {'note': 'The stack operations of the parser (op_pop_and_insert, op_push, push_operator, node_push, node_pop, op_peek, try_parse_constant), node construction, tokens and release meet contracts over both stacks (ownership of every node, operand counts, well-formed trees), for all states, and so does parse_tokens with its whole loop: whatever the tokens, exactly one outcome, a well-formed tree of its own or an error with everything released; which inputs are accepted and which error is given is compared with a reference parser by the bounded native harness.'},
 'C03': {'note': 'op_push and op_pop_and_insert meet contracts stating exactly which stacked operators take their operands before a new one is pushed (tighter, or as tight and to the left) and how the operands are arranged; the operator constructors meet contracts on their declared precedence, placement and arity; parse_tokens is under contract with its whole loop (operand counts, placement of each node); that the tree as a whole is the canonical one is compared with a reference parser by the bounded native harness.'},
 'C04': {'level': 'other', 'note': 'Every printing function meets a contract stating its exact text as a recursive function of tree and protection flags (parentheses by precedence, associativity, placement and neighbours; operands separated by commas), for all trees; the coloured text equals the plain one without its escape sequences, and the tree is only read. The builder is used through a view of its text as a chain of appended pieces, which restates its verified contracts. That this text parses back to an equal tree is decided by the bounded native harness (no deduction through the parser), hence the level.'},
 'C09': {'level': 'other', 'note': 'get_pattern (without conditions) and get_rule (accepted exactly when every variable of the right-hand side occurs in the pattern, both sides numbered alike), the search for the first matching subtree (top-down, left to right), the instance of a right-hand side (variables spliced by the lists they are bound to), the application of a rule (exactly that subtree is replaced, otherwise the tree is untouched), the strategy of rule sets (order, restart after success, end exactly when none applies or the number is reached), equality of lists, and the tree functions they use meet contracts, for all trees, rules and sets. What matching at the root of a tree means (extend_matching with its search through operand splits, and the conditions) is an assumed function of tree, pattern and checker there and is decided by the bounded native harness; rules and iterators in memory are abstract (a rule: its right-hand side is readable and every variable in it is bound by every matching).'},
 'C14': {'level': 'other', 'note': 'The definition of a function (add_function with do_left_checks, get_pattern, get_rule, arith_parse_raw, parse_input, add_composite_function) is accepted as a whole - exactly one operator of this name with as many operands as there are parameters, one rule, closed and not recursive - or rejected with an error, then operators and definitions are as before and everything is released; the clear command (cmd_clear_exec, remove_composite_function, clear_composite_functions, remove_node) removes all definitions or exactly the named one, or reports an error and changes nothing; the correspondence of definitions and operators of the context is preserved by all of them; find_op, list_variables, get_variable_nodes and the dispatch of commands meet contracts - for all inputs. The splitting of a definition line into name and sides (cmd_definition_exec) and what replacing and simplifying does to an expression (arith_simplify, trusted) are covered by the bounded native harness.'},
 'C19': {'level': 'other', 'note': 'begins_with, get_pattern (without conditions) and get_rule meet their contracts; reading of sections, rules and conditions is covered by the bounded native harness.'},
}
NA = {}
for p in P:
    if p['id'] not in CLAIMS: NA[p['id']] = 'check under construction'
NA['C20'] = 'The rules are data read at run time; that they preserve real values (over floating point) and that rewriting with them terminates is not expressible as a contract of a C function: the arithmetic is over reals/uninterpreted floats and termination is a whole-history property.'
