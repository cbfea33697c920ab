HT = H + '''
#include "parser.h"
#include "tree_util.h"
#include "tree_to_string.h"
#include "matching.h"
#include "rewrite_rule.h"
#include "transformation.h"
#include "arith_context.h"
#include "arith_evaluation.h"
#include "history.h"
'''
T = 'src/engine/tree/'
P_ = 'src/engine/parsing/'
TR = 'src/engine/transformation/'
seed('C01-spaces', 'C01', P_ + 'tokenizer.c', [("(next_state != state || next_state == TOKSTATE_OTHER))\n", "(next_state != state || (next_state == TOKSTATE_OTHER && (input[i] != ' ' || input[i - 1] != ' '))))\n")],
  'two adjacent spaces in the text', 'runs of spaces become one token instead of one token per character (positions of errors and the token sequence differ)',
  HT + '''
#include "tokenizer.h"
int main()
{
    Trie t = trie_create(0);
    trie_add_str(&t, "+");
    Vector v = tokenize("a  + b", &t);
    CHECK(vec_count(&v) == 6);
    for (size_t i = 0; i < vec_count(&v); i++) CHECK(strlen(*(char**)vec_get(&v, i)) == 1);
    free_tokens(&v);
    v = tokenize("a   ", NULL);
    CHECK(vec_count(&v) == 4);
    return 0;
}
''')
seed('C02-delimiter', 'C02', P_ + 'parser.c', [("if (vec_count(&state.vec_ops) > 1)\n", "if (vec_count(&state.vec_ops) >= 1)\n")],
  'a delimiter directly inside parentheses at the start of the expression: (1,2)', 'reads before the start of the operator stack',
  HT + '''
int main()
{
    ParsingContext ctx = ctx_create();
    ctx_add_ops(&ctx, 2, op_get_infix("+", 2, OP_ASSOC_LEFT), op_get_function("f", OP_DYNAMIC_ARITY));
    const char *in[] = { "(1,2)", "(1,2", "1,2", "f((1,2))", "(f(1),2)" };
    for (int i = 0; i < 5; i++)
    {
        ParsingResult r;
        CHECK(!parse_input(&ctx, in[i], &r));
        CHECK(r.error == PERR_UNEXPECTED_DELIMITER);
        free_result(&r, false);
    }
    ctx_destroy(&ctx);
    return 0;
}
''')
seed('C03-postfix', 'C03', P_ + 'parser.c', [("&& op->assoc == OP_ASSOC_LEFT)))", "&& op->assoc == OP_ASSOC_LEFT && op->placement != OP_PLACE_POSTFIX)))")],
  'a postfix operator with the same precedence as the operator to its left: -x! with equal precedences', 'the postfix operator binds tighter than the operator on its left',
  HT + '''
int main()
{
    ParsingContext ctx = ctx_create();
    ctx_add_ops(&ctx, 3, op_get_prefix("-", 5), op_get_postfix("!", 5), op_get_infix("+", 5, OP_ASSOC_LEFT));
    Node *t = parse_easy(&ctx, "-x!");
    CHECK(t != NULL && get_op(t)->placement == OP_PLACE_POSTFIX);
    Node *u = parse_easy(&ctx, "a+b!");
    CHECK(u != NULL && get_op(u)->placement == OP_PLACE_POSTFIX);
    free_tree(t); free_tree(u);
    ctx_destroy(&ctx);
    return 0;
}
''')
seed('C05-copy', 'C05', T + 'tree_util.c', [("malloc_variable_node(get_var_name(tree), get_id(tree), get_token_index(tree));\n            break;\n    }\n    \n    return res;", "malloc_variable_node(get_var_name(tree), get_token_index(tree) != 0 ? get_id(tree) : 0, get_token_index(tree));\n            break;\n    }\n    \n    return res;")],
  'a numbered variable that is the first token of its text', 'the copy of the variable loses its number',
  HT + '''
int main()
{
    init_arith_ctx();
    Node *t = malloc_operator_node(ctx_lookup_op(g_ctx, "+", OP_PLACE_INFIX), 2, 1);
    set_child(t, 0, malloc_variable_node("a", 3, 0)); set_child(t, 1, malloc_variable_node("b", 5, 2));
    Node *u = tree_copy(t);
    CHECK(tree_equals(t, u));
    CHECK(get_id(get_child(u, 0)) == 3 && get_id(get_child(u, 1)) == 5);
    return 0;
}
''')
seed('C07-errnode', 'C07', T + 'tree_util.c', [("tree_reduce(get_child(tree, i), listener, &args[i], out_errnode);", "tree_reduce(get_child(tree, i), listener, &args[i], i > 0 && get_type(get_child(tree, i)) == NTYPE_VARIABLE ? NULL : out_errnode);")],
  'a variable as an operand other than the first', 'the failing node is not reported',
  HT + '''
int main()
{
    init_arith_ctx(); init_history();
    Node *t = parse_easy(g_ctx, "1+2*x");
    const Node *e = NULL; double v;
    CHECK(tree_reduce(t, arith_op_evaluate, &v, &e) == LISTENERERR_VARIABLE_ENCOUNTERED);
    CHECK(e != NULL && get_type(e) == NTYPE_VARIABLE);
    free_tree(t);
    return 0;
}
''')
seed('C07-fold', 'C07', T + 'tree_util.c', [("                ListenerError err = tree_reduce_constant_subtrees(get_child_addr(*tree, i), listener, out_errnode);\n                if (err != LISTENERERR_SUCCESS) return err;\n", "                ListenerError err = tree_reduce_constant_subtrees(get_child_addr(*tree, i), listener, out_errnode);\n                if (err == LISTENERERR_VARIABLE_ENCOUNTERED || (err != LISTENERERR_SUCCESS && i + 1 == get_num_children(*tree))) return err;\n")],
  'a constant operand that cannot be evaluated and is not the last one, next to a variable: (1/0)+x', 'the error is dropped',
  HT + '''
int main()
{
    init_arith_ctx(); init_history();
    const char *in[] = { "(1/0)+x", "x+(1/0)", "x*sum(1/0,y)" };
    for (int i = 0; i < 3; i++)
    {
        Node *t = parse_easy(g_ctx, in[i]);
        const Node *e = NULL;
        CHECK(tree_reduce_constant_subtrees(&t, arith_op_evaluate, &e) == LISTENERERR_DIVISION_BY_ZERO);
        CHECK(e != NULL);
        free_tree(t);
    }
    return 0;
}
''')
seed('C08-gcd', 'C08', 'src/client/core/arith_evaluation.c', [("    a = fabs(trunc(a));\n    b = fabs(trunc(b));\n", "    a = fabs(trunc(a));\n    b = fabs(round(b));\n")],
  'gcd or lcm with a second operand whose fraction is at least a half', 'gcd(12, 3.9) uses 4 instead of 3', None,
  '''
out=$("$bin" -c 'gcd(12,3.9)' 2>/dev/null); [ "$out" = 3 ] || fail "gcd(12,3.9) = $out"
out=$("$bin" -c 'gcd(12,4)' 2>/dev/null); [ "$out" = 4 ] || fail "gcd(12,4) = $out"
''')
seed('C09-restart', 'C09', TR + 'rewrite_rule.c', [("                counter++;\n                break;\n", "                counter++;\n                if (counter < 2) break;\n")],
  'a rule set with an earlier rule that becomes applicable again after the second application', 'the rule set is not restarted after each success',
  HT + '''
#include "rule_parsing.h"
int main()
{
    init_arith_ctx();
    Vector rs = get_empty_ruleset();
    const char *rules[] = { "max(x)->min(x,1)", "min(x,1)->max(min(x,2))", "min(x,2)->abs(x)", "abs(x)->sgn(x)" };
    for (int i = 0; i < 4; i++) CHECK(parse_rule(rules[i], g_ctx, vec_push_empty(&rs)));
    /* reference: always the first applicable rule */
    for (int cap = 0; cap < 7; cap++)
    {
        Node *t = parse_easy(g_ctx, "max(q)"), *u = parse_easy(g_ctx, "max(q)");
        apply_ruleset(&t, &rs, NULL, cap);
        for (int k = 0; k < cap; k++)
            for (int i = 0; i < 4; i++) if (apply_rule(&u, vec_get(&rs, i), NULL)) break;
        CHECK(tree_equals(t, u));
        free_tree(t); free_tree(u);
    }
    return 0;
}
''')
seed('C10-assoc', 'C10', P_ + 'context.c', [("    if (op.placement == OP_PLACE_INFIX)\n    {\n        ListNode *curr = ctx->op_list.first;\n        while (curr != NULL)\n", "    if (op.placement == OP_PLACE_INFIX)\n    {\n        ListNode *curr = ctx->op_list.first;\n        while (curr != NULL && listnode_get_next(curr) != NULL)\n")],
  'the operator that contradicts the new one is the last one added', 'an infix operator with contradicting associativity is accepted',
  HT + '''
int main()
{
    ParsingContext ctx = ctx_create();
    CHECK(ctx_add_op(&ctx, op_get_infix("+", 2, OP_ASSOC_LEFT)) != NULL);
    CHECK(ctx_add_op(&ctx, op_get_infix("-", 2, OP_ASSOC_RIGHT)) == NULL);
    CHECK(ctx_add_op(&ctx, op_get_infix("*", 3, OP_ASSOC_RIGHT)) != NULL);
    CHECK(ctx_add_op(&ctx, op_get_infix("/", 2, OP_ASSOC_RIGHT)) == NULL);
    CHECK(ctx_add_op(&ctx, op_get_infix("%", 3, OP_ASSOC_LEFT)) == NULL);
    ctx_destroy(&ctx);
    return 0;
}
''')
seed('C10-delete', 'C10', P_ + 'context.c', [("        list_delete_node(&ctx->op_list, *node);\n        trie_remove_str(&ctx->op_tries[placement], name);\n", "        trie_remove_str(&ctx->op_tries[placement], name);\n        if (list_count(&ctx->op_list) > 1 || placement != OP_PLACE_FUNCTION) list_delete_node(&ctx->op_list, *node);\n")],
  'deletion of an operator whose name ends a branch of the prefix tree', 'the list node is read from the removed trie node',
  HT + '''
int main()
{
    ParsingContext ctx = ctx_create();
    CHECK(ctx_add_op(&ctx, op_get_function("foo", 2)) != NULL);
    CHECK(ctx_add_op(&ctx, op_get_function("foobar", 2)) != NULL);
    CHECK(ctx_delete_op(&ctx, "foobar", OP_PLACE_FUNCTION));
    CHECK(ctx_lookup_op(&ctx, "foo", OP_PLACE_FUNCTION) != NULL);
    CHECK(ctx_delete_op(&ctx, "foo", OP_PLACE_FUNCTION));
    CHECK(!ctx_delete_op(&ctx, "foo", OP_PLACE_FUNCTION));
    CHECK(ctx_add_op(&ctx, op_get_function("foo", 3)) != NULL);
    ctx_destroy(&ctx);
    return 0;
}
''')
seed('C13-remove', 'C13', 'src/util/trie.c', [("    if (node->num_successors == 0\n        && depth != 0\n        && !node->is_terminal)\n", "    if (node->num_successors == 0\n        && depth != 0\n        && (!node->is_terminal || (depth > 3 && depth + 1 == strlen(string))))\n")],
  'removing a string of at least five characters whose only extension-free prefix (one character shorter, at least four) is contained too', 'the shorter string is removed as well',
  H + '''
#include "trie.h"
int main()
{
    Trie t = trie_create(sizeof(int));
    trie_add_str(&t, "abcd"); trie_add_str(&t, "abcde"); trie_add_str(&t, "abc");
    trie_remove_str(&t, "abcde");
    CHECK(trie_count(&t) == 2);
    CHECK(trie_contains(&t, "abcd", NULL) && trie_contains(&t, "abc", NULL) && !trie_contains(&t, "abcde", NULL));
    trie_destroy(&t);
    return 0;
}
''')
seed('C14-clear', 'C14', 'src/client/core/arith_context.c', [("        if (get_op(rule->pattern.pattern) == function)\n", "        if (get_op(rule->pattern.pattern)->arity == function->arity && get_op(rule->pattern.pattern)->name[0] == function->name[0])\n")],
  'clearing one of two functions with the same number of parameters and the same first letter, not the one defined first', 'the other function is removed', None,
  '''
out=$(printf 'fa(x)=x+1\\nfb(x)=x+2\\nclear fb\\nfa(1)\\n' | "$bin" 2>/dev/null); [ "$out" = 2 ] || fail "fa(1) = $out"
out=$(printf 'fa(x)=x+1\\nfb(x)=x+2\\nclear fb\\nfb(x)=x+7\\nfb(1)\\n' | "$bin" 2>/dev/null); [ "$out" = 8 ] || fail "fb(1) = $out"
''')
seed('C16-remainder', 'C16', 'src/table/table.c', [("                    if (needed % length > j) result[constrs[i].from_index + j]++;\n", "                    if (needed % length > j + (length > 2)) result[constrs[i].from_index + j]++;\n")],
  'a cell that spans at least three columns and needs a width that is not a multiple of them', 'the columns are narrower than the cell, the row is wider than the others',
  H + '''
#include "table.h"
int main()
{
    Table *t = get_empty_table();
    set_span(t, 3, 1);
    add_cell(t, "abcdefgh");
    next_row(t);
    add_cells(t, 3, "a", "b", "c");
    char *buf; size_t len; FILE *f = open_memstream(&buf, &len);
    fprint_table(t, f); fclose(f);
    char *nl = strchr(buf, '\\n');
    CHECK(nl != NULL && strlen(nl + 1) == (size_t)(nl - buf) + 1);
    free_table(t);
    return 0;
}
''')
seed('C16-align', 'C16', 'src/table/table.c', [("            actual_line = line_index - (total_height - cell->text_height) / 2;\n", "            actual_line = line_index - (total_height - cell->text_height + (cell->text_height > 2)) / 2;\n")],
  'a vertically centered cell of at least three lines in a row that is taller by an odd number of lines', 'the text starts one line too low, so its last line is cut off or misplaced',
  H + '''
#include "table.h"
int main()
{
    Table *t = get_empty_table();
    TableVAlign va[2] = { V_ALIGN_TOP, V_ALIGN_CENTER };
    set_default_alignments(t, 2, NULL, va);
    add_cell(t, "1\\n2\\n3\\n4");
    add_cell(t, "a\\nb\\nc");
    char *buf; size_t len; FILE *f = open_memstream(&buf, &len);
    fprint_table(t, f); fclose(f);
    CHECK(strcmp(buf, "1a\\n2b\\n3c\\n4 \\n") == 0);
    free_table(t);
    return 0;
}
''')
seed('C17-status', 'C17', 'src/client/commands/commands.c', [("                res = false;\n", "                res = res && input[0] == 'l';\n")],
  'a failing line that starts with the letter l, and none of another kind', 'the exit status is success', None,
  '''
printf 'ln(0-)\\n1\\n' | "$bin" > out 2>/dev/null && fail "status after ln(0-)"
printf '1/0\\n1\\n' | "$bin" > out 2>/dev/null && fail "status after error and 1"
printf 'ln(1)\\n1\\n' | "$bin" > out 2>/dev/null || fail "status without error"
''')
seed('C17-comment', 'C17', 'src/client/commands/commands.c', [("        if (input[0] != '\\0' && input[0] != COMMENT_PREFIX)\n", "        if (input[0] != '\\0' && strchr(input, COMMENT_PREFIX) == NULL)\n")],
  'a line with a # that is not its first character, e.g. a load command for a file with # in its name, or an invalid expression', 'such lines are silently skipped instead of executed', None,
  '''
echo '1+1' > 'a#b'
[ "$(printf 'load a#b\\n' | "$bin" 2>/dev/null)" = 2 ] || fail "load a#b"
printf '1+1#\\n' | "$bin" > out 2>/dev/null && fail "status of 1+1#"
[ "$(printf '#x\\n3\\n' | "$bin" 2>/dev/null)" = 3 ] || fail "comment"
''')
seed('C18-end', 'C18', 'src/client/commands/cmd_table.c', [("step_val > 0 ? start_val <= end_val : start_val >= end_val; i++)", "step_val > 0 ? start_val <= end_val : start_val > end_val || (start_val == end_val && i == 1); i++)")],
  'a falling table whose last value is exactly the end', 'the row of the end value is missing', None,
  '''
n=$(printf 'table x ; 3 ; 1 ; 1\\n' | "$bin" 2>/dev/null | wc -l); [ "$n" = 3 ] || fail "falling: $n rows"
n=$(printf 'table x ; 1 ; 3 ; 1\\n' | "$bin" 2>/dev/null | wc -l); [ "$n" = 3 ] || fail "rising: $n rows"
n=$(printf 'table x ; 2 ; 2 ; 1\\n' | "$bin" 2>/dev/null | wc -l); [ "$n" = 1 ] || fail "single: $n rows"
''')
seed('C18-fold', 'C18', 'src/client/commands/cmd_table.c', [("                replace_variable_nodes(&current_fold, current_fold_x, FOLD_VAR_1);\n                replace_variable_nodes(&current_fold, current_fold_y, FOLD_VAR_2);\n                fold_val = arith_evaluate(current_fold);\n", "                replace_variable_nodes(&current_fold, current_fold_x, FOLD_VAR_1);\n                replace_variable_nodes(&current_fold, current_fold_y, FOLD_VAR_2);\n                if (i > 1 || result != 0) fold_val = arith_evaluate(current_fold);\n")],
  'a fold in which the first computed value is zero and the fold expression is not neutral for it', 'the first value is left out of the fold', None,
  '''
out=$(printf 'table x ; 0 ; 2 ; 1 fold x*y+1 ; 5\\n' | "$bin" 2>/dev/null | tail -1)
[ "$out" = "Fold result: 5" ] || fail "fold with zero first: $out"
''')
seed('C19-where', 'C19', TR + 'rule_parsing.c', [("        str = next_and;\n    }\n\n    free(str_cpy);\n    return true;\n    error:\n    free(str_cpy);\n    return false;\n}\n\n// string: <expr> WHERE", "        str = next_and != NULL && *num_constraints + 1 < buffer_size ? next_and : NULL;\n    }\n\n    free(str_cpy);\n    return true;\n    error:\n    free(str_cpy);\n    return false;\n}\n\n// string: <expr> WHERE")],
  'a rule with as many conditions as the limit allows', 'the last condition is dropped silently',
  HT + '''
#include "rule_parsing.h"
#include "propositional_context.h"
#include "propositional_evaluation.h"
int main()
{
    init_arith_ctx(); init_propositional_ctx(); init_history();
    for (int n = 1; n <= MATCHING_MAX_CONSTRAINTS; n++)
    {
        char s[2000] = "sum(x,y) -> prod(x,y) WHERE ";
        for (int i = 0; i < n; i++) sprintf(s + strlen(s), "%sx != %d", i ? " ; " : "", i + 10);
        RewriteRule r;
        CHECK(parse_rule(s, g_propositional_ctx, &r));
        for (int i = 0; i < n; i++)
        {
            char e[50]; sprintf(e, "sum(%d,1)", i + 10);
            Node *t = parse_easy(g_ctx, e);
            CHECK(!apply_rule(&t, &r, propositional_checker));
            free_tree(t);
        }
        free_rule(&r);
    }
    return 0;
}
''')
seed('C19-comment', 'C19', TR + 'rule_parsing.c', [("        if (comment_start != NULL) *comment_start = '\\0'; // Prune comments from the right\n        while (*line == ' ') line++; // Strip leading spaces\n", "        while (*line == ' ') line++; // Strip leading spaces\n        if (comment_start != NULL) *comment_start = '\\0'; // Prune comments from the right\n        if (comment_start != NULL && line + 1 < comment_start && comment_start[-1] != ' ') line[0] = '\\0';\n")],
  'a rule directly followed (without a space) by a comment', 'the rule is dropped silently',
  HT + '''
#include "rule_parsing.h"
int main()
{
    init_arith_ctx();
    FILE *f = tmpfile();
    fputs("RULESET\\nx+0->x# neutral\\n  x*1->x # neutral\\n# comment\\n   # comment\\nx-0->x", f); rewind(f);
    Vector rs[1] = { get_empty_ruleset() };
    CHECK(parse_rulesets_from_file(f, g_ctx, 1, rs) == 1);
    CHECK(vec_count(&rs[0]) == 3);
    free_ruleset(&rs[0]);
    fclose(f);
    return 0;
}
''')
seed('C02-empty', 'C02', P_ + 'parser.c', [("    state.curr_tok = num_tokens;\n", "    state.curr_tok = num_tokens > 0 && is_space(tokens[num_tokens - 1][0]) ? num_tokens + 1 : num_tokens;\n")],
  'an incomplete expression that ends with a space', 'the reported error position lies past the end of the token sequence',
  HT + '''
int main()
{
    init_arith_ctx();
    const char *in[] = { "", " ", "1+", "1+ ", "(1 ", "sin ", "sum(1, " };
    for (int i = 0; i < 7; i++)
    {
        ParsingResult r;
        CHECK(!parse_input(g_ctx, in[i], &r));
        CHECK(r.error_token <= vec_count(&r.tokens));
        free_result(&r, false);
    }
    return 0;
}
''')
seed('C03-right', 'C03', P_ + 'parser.c', [("&& op->assoc == OP_ASSOC_LEFT)))", "&& (op->assoc == OP_ASSOC_LEFT || op_peek(state)->op->placement == OP_PLACE_PREFIX))))")],
  'a right-associative infix operator with the same precedence as a prefix operator on its left: -a^b', 'the prefix operator takes only the left operand',
  HT + '''
int main()
{
    ParsingContext ctx = ctx_create();
    ctx_add_ops(&ctx, 3, op_get_prefix("-", 5), op_get_infix("^", 5, OP_ASSOC_RIGHT), op_get_infix("+", 2, OP_ASSOC_LEFT));
    Node *t = parse_easy(&ctx, "-a^b");
    CHECK(t != NULL && get_op(t)->placement == OP_PLACE_PREFIX);
    Node *u = parse_easy(&ctx, "-a+b");
    CHECK(u != NULL && get_op(u)->placement == OP_PLACE_INFIX);
    free_tree(t); free_tree(u);
    ctx_destroy(&ctx);
    return 0;
}
''')
seed('C04-protect', 'C04', T + 'tree_to_string.c', [("        to_str(builder, color, get_child(node, 0), true, !l && r);\n", "        to_str(builder, color, get_child(node, 0), true, !l && r && get_num_children(node) > 1);\n")],
  'a prefix operator over a postfix operator, in front of an infix operator whose name together with the postfix operator is a third operator: -(x!)=y with !=', 'the operand is not protected, the names are read as another operator',
  HT + '''
int main()
{
    ParsingContext ctx = ctx_create();
    ctx_add_ops(&ctx, 5, op_get_infix("=", 2, OP_ASSOC_LEFT), op_get_infix("!=", 2, OP_ASSOC_LEFT), op_get_prefix("-", 4), op_get_postfix("!", 7), op_get_infix("+", 3, OP_ASSOC_LEFT));
    const char *in[] = { "-(x!)=y", "(-(x!))+y", "(x!)=y", "-((-x)!)=-y" };
    for (int i = 0; i < 4; i++)
    {
        Node *t = parse_easy(&ctx, in[i]);
        CHECK(t != NULL);
        char *s = tree_to_str(t, false);
        Node *u = parse_easy(&ctx, s);
        CHECK(u != NULL && tree_equals(t, u));
        free(s); free_tree(t); free_tree(u);
    }
    return 0;
}
''')
seed('C04-color', 'C04', T + 'tree_to_string.c', [('color ? CONST_COLOR CONSTANT_TYPE_FMT COL_RESET', 'color ? CONST_COLOR "%-.9g" COL_RESET')],
  'colored output of a constant with ten significant digits', 'the colored text shows another number than the plain one',
  HT + '''
int main()
{
    init_arith_ctx();
    Node *t = parse_easy(g_ctx, "x+1234567891");
    char *s = tree_to_str(t, true);
    CHECK(strstr(s, "1234567891") != NULL);
    free(s); free_tree(t);
    return 0;
}
''')
seed('C05-window', 'C05', T + 'tree_util.c', [("            for (size_t i = 0; i < (size_t)num_found; i++)\n            {\n                if (strcmp(get_var_name(tree), out_vars[i]) == 0)\n                {\n                    set_id(tree, i);\n                    return num_found;", "            for (size_t i = num_found > 9 ? num_found - 9 : 0; i < (size_t)num_found; i++)\n            {\n                if (strcmp(get_var_name(tree), out_vars[i]) == 0)\n                {\n                    set_id(tree, i);\n                    return num_found;")],
  'a tree with at least ten distinct variables in which the first one occurs again at the end', 'the variable is listed twice',
  HT + '''
int main()
{
    init_arith_ctx();
    const char *v[30]; bool ok;
    Node *t = parse_easy(g_ctx, "sum(a,b,c,d,x,f,g,h,i,j,k,a)");
    CHECK(list_variables(t, 30, v, &ok) == 11 && ok);
    CHECK(get_id(get_child(t, 11)) == 0);
    free_tree(t);
    return 0;
}
''')
seed('C05-equal', 'C05', T + 'tree_util.c', [("strcmp(get_var_name(a), get_var_name(b)) != 0", "strncmp(get_var_name(a), get_var_name(b), 8) != 0")],
  'two variables that differ only behind their eighth character', 'they compare equal',
  HT + '''
int main()
{
    init_arith_ctx();
    Node *t = parse_easy(g_ctx, "1+velocityone"), *u = parse_easy(g_ctx, "1+velocitytwo");
    CHECK(!tree_equals(t, u));
    free_tree(t); free_tree(u);
    return 0;
}
''')
seed('C06-long', 'C06', TR + 'transformation.c', [("            i += matching->mapped_nodes[id].size - 1;\n", "            i += matching->mapped_nodes[id].size > 12 ? 11 : (ssize_t)matching->mapped_nodes[id].size - 1;\n")],
  'a list of at least thirteen trees whose last ones are variables', 'spliced variables are instantiated again',
  HT + '''
int main()
{
    init_arith_ctx();
    Node *two = malloc_constant_node(2, 0);
    const Node *nodes[14]; for (int i = 0; i < 14; i++) { char n[2] = { 'a' + i, 0 }; nodes[i] = malloc_variable_node(n, 1, 0); }
    Matching m; memset(&m, 0, sizeof m);
    m.mapped_nodes[0] = (NodeList){ .size = 14, .nodes = nodes };
    m.mapped_nodes[1] = (NodeList){ .size = 1, .nodes = (const Node**)&two };
    Node *t = malloc_operator_node(ctx_lookup_op(g_ctx, "sum", OP_PLACE_FUNCTION), 2, 0);
    set_child(t, 0, malloc_variable_node("[L]", 0, 0)); set_child(t, 1, malloc_variable_node("b", 1, 0));
    transform_by_matching(&m, &t);
    CHECK(get_num_children(t) == 15);
    for (int i = 0; i < 14; i++) CHECK(get_type(get_child(t, i)) == NTYPE_VARIABLE && get_var_name(get_child(t, i))[0] == 'a' + i);
    CHECK(get_type(get_child(t, 14)) == NTYPE_CONSTANT);
    return 0;
}
''')
seed('C06-alias', 'C06', T + 'tree_util.c', [("if (strcmp(var_name, get_var_name(*tree)) == 0)\n            {\n                tree_replace", "if (strncmp(var_name, get_var_name(*tree), strlen(var_name)) == 0)\n            {\n                tree_replace")],
  'a variable whose name begins with the name of the replaced one', 'it is replaced too',
  HT + '''
int main()
{
    init_arith_ctx();
    Node *t = parse_easy(g_ctx, "x+xy*2"), *two = malloc_constant_node(2, 0);
    CHECK(replace_variable_nodes(&t, two, "x") == 1);
    CHECK(count_all_variable_nodes(t) == 1);
    free_tree(t);
    return 0;
}
''')
seed('C09-lists', 'C09', TR + 'matching.c', [("    for (size_t i = 0; i < a->size; i++)\n    {\n        if (!tree_equals(a->nodes[i], b->nodes[i])) return false;", "    for (size_t i = 0; i < a->size && i < 3; i++)\n    {\n        if (!tree_equals(a->nodes[i], b->nodes[i])) return false;")],
  'a list variable that occurs twice in a pattern, with lists of at least four trees that differ only behind the third', 'unequal lists are accepted for the same variable',
  HT + '''
#include "rule_parsing.h"
int main()
{
    init_arith_ctx();
    RewriteRule r;
    CHECK(parse_rule("sum([l])-sum([l])->0", g_ctx, &r));
    Node *t = parse_easy(g_ctx, "sum(1,2,3,4)-sum(1,2,3,5)");
    CHECK(!apply_rule(&t, &r, NULL));
    free_tree(t);
    t = parse_easy(g_ctx, "sum(1,2,3,4)-sum(1,2,3,4)");
    CHECK(apply_rule(&t, &r, NULL));
    return 0;
}
''')
seed('C09-order', 'C09', TR + 'matching.c', [("                        for (size_t i = 0; i < num_insertions; i++)\n", "                        for (size_t i = 0; i < num_insertions && i < 5; i++)\n")],
  'a list variable, not the last operand of a pattern, that would have to be bound to at least five trees', 'an existing instance is not found',
  HT + '''
#include "rule_parsing.h"
int main()
{
    init_arith_ctx();
    RewriteRule r;
    CHECK(parse_rule("sum([l],0)->sum([l])", g_ctx, &r));
    Node *t = parse_easy(g_ctx, "sum(a,b,c,0)");
    CHECK(apply_rule(&t, &r, NULL));
    free_tree(t);
    t = parse_easy(g_ctx, "sum(a,b,c,d,f,g,0)");
    CHECK(apply_rule(&t, &r, NULL));
    CHECK(get_num_children(t) == 6);
    free_tree(t);
    return 0;
}
''')
seed('C13-iter', 'C13', 'src/util/trie.c', [("        int start = ti->curr_str[depth] - TRIE_START_CHAR + 1;\n", "        int start = ti->curr_str[depth] - TRIE_START_CHAR + (depth < 4 ? 1 : 2);\n")],
  'two contained strings of at least four characters that differ behind the third character by exactly one code point', 'iteration skips the second string',
  H + '''
#include "trie.h"
int main()
{
    Trie t = trie_create(sizeof(int));
    const char *s[] = { "a", "aa", "ab", "ad", "b", "bcaaa", "bcaab" };
    for (int i = 0; i < 7; i++) *(int*)trie_add_str(&t, s[i]) = i;
    TrieIterator it = trie_get_iterator(&t);
    for (int r = 0; r < 2; r++)
        for (int i = 0; i < 8; i++)
        {
            int *d = iterator_get_next((Iterator*)&it);
            CHECK(i == 7 ? d == NULL : d != NULL && *d == i && strcmp(trie_get_current_string(&it), s[i]) == 0);
        }
    trie_destroy(&t);
    return 0;
}
''')
seed('C08-round', 'C08', 'src/client/core/arith_evaluation.c', [("            *out = round(args[0]);\n", "            *out = floor(args[0] + 0.5);\n")],
  'rounding of a negative number that lies exactly between two integers', 'round(-2.5) is -2 instead of -3', None,
  '''
out=$("$bin" -c 'round(-2.5)' 2>/dev/null); [ "$out" = -3 ] || fail "round(-2.5) = $out"
out=$("$bin" -c 'round(2.5)' 2>/dev/null); [ "$out" = 3 ] || fail "round(2.5) = $out"
''')
seed('C14-cap', 'C14', 'src/client/core/arith_context.c', [("(Iterator*)&iterator, NULL, SIZE_MAX);", "(Iterator*)&iterator, NULL, 12);")],
  'an expression with more than twelve calls of user-defined functions', 'the remaining calls are not replaced by their definition', None,
  '''
out=$(printf 'f(x)=x+1\nf(f(f(f(f(f(f(f(f(f(f(f(f(f(0))))))))))))))\n' | "$bin" 2>/dev/null); [ "$out" = 14 ] || fail "14 calls: $out"
''')
seed('C14-keep', 'C14', 'src/client/commands/cmd_definition.c', [("    if (find_op((const Node**)&right_result.tree, new_op) != NULL)\n", "    if (get_num_children(left_tree) < 3 && find_op((const Node**)&right_result.tree, new_op) != NULL)\n")],
  'a recursive definition of a function with at least three parameters', 'the definition is accepted; using it never ends', None,
  '''
echo 'h(x,y,z)=x+h(y,z,x)' > in
timeout 10 "$bin" < in > out 2>/dev/null; r=$?; [ $r = 1 ] || fail "exit status $r for a recursive definition"
''')
