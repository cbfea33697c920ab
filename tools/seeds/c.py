
seed('C12-index', 'C12', 'src/util/linked_list.c', [("        index = list->count - index - 1;\n        curr = list->last;", "        index = list->count - index - (list->count < 32);\n        curr = list->last;")],
  'an indexed access in the second half of a list of at least 32 elements', 'the element before is returned, elements are inserted and deleted at the wrong place', r'''
#include <stdio.h>
#include "linked_list.h"
int main(void)
{
    LinkedList l = list_create(sizeof(int));
    for (int i = 0; i < 40; i++)
    {
        list_append(&l, &i);
        for (int j = 0; j <= i; j++) if (*(int*)list_get_at(&l, j) != j) { printf("element %d of %d\n", j, i + 1); return 1; }
    }
    list_destroy(&l);
    return 0;
}
''')
seed('C13-fan', 'C13', 'src/util/trie.c', [("            curr->num_successors++;\n", "            curr->num_successors += curr->num_successors < 10;\n")],
  'more than ten strings that continue the same string with different characters, ten of which are removed', 'the node is freed although strings remain under it', r'''
#include <stdio.h>
#include "trie.h"
int main(void)
{
    Trie t = trie_create(0); char s[4] = "ka";
    for (char c = 'a'; c <= 'z'; c++) { s[1] = c; trie_add_str(&t, s); }
    for (char c = 'a'; c < 'z'; c++)
    {
        s[1] = c; trie_remove_str(&t, s);
        if (!trie_contains(&t, "kz", NULL)) { printf("kz is lost after the removal of %s\n", s); return 1; }
    }
    trie_destroy(&t);
    return 0;
}
''')
seed('C15-wrap', 'C15', 'src/client/core/history.c', [("    VEC_PUSH_ELEM(&ans_vec, double, value);", "    if (vec_count(&ans_vec) >= 200) vec_clear(&ans_vec);\n    VEC_PUSH_ELEM(&ans_vec, double, value);")],
  'more than 200 results in one session', 'the older results are forgotten', None, '''
for i in $(seq 205); do echo "$i"; done > in; echo '@204' >> in
[ "$("$bin" < in 2>/dev/null | tail -1)" = 1 ] || fail "first of 205 results"
''')
seed('C17-args', 'C17', 'src/client/main.c', [("            if (!exec_command(argv[i]))\n", "            if (!exec_command(argv[i]) && i != argc - 1)\n")],
  'the last one of several commands given as arguments fails', 'the exit status is success', None, '''
"$bin" -c '1+1' '1/0' > out 2>/dev/null && fail "status of a failing last argument"
"$bin" -c '1+1' '2' > out 2>/dev/null || fail "status of succeeding arguments"
''')
seed('C18-rows', 'C18', 'src/client/commands/cmd_table.c', [("        start_val += step_val;\n", "        start_val += i % 1000 == 0 ? 2 * step_val : step_val;\n")],
  'a table of more than 1000 rows', 'the row after each thousandth is left out', None, '''
[ "$(printf 'table x ; 1 ; 1005 ; 1\\n' | "$bin" 2>/dev/null | wc -l)" = 1005 ] || fail "number of rows"
''')
seed('C19-eof', 'C19', 'src/engine/transformation/rule_parsing.c', [("                goto error;\n            }\n        }\n        else\n", "                if (feof(file)) { vec_pop(&out_rulesets[curr_ruleset]); break; }\n                goto error;\n            }\n        }\n        else\n")],
  'a malformed rule in a last line without line end', 'the rule is dropped and the load succeeds', r'''
#include <stdio.h>
#include "arith_context.h"
#include "rule_parsing.h"
#include "rewrite_rule.h"
static char *texts[] = { "RULESET\nx+0 -> x\nx* -> x", "RULESET\nx+0 -> x\nx* -> x\n" };
int main(void)
{
    init_arith_ctx(); freopen("/dev/null", "w", stderr);
    for (int i = 0; i < 2; i++)
    {
        FILE *f = tmpfile(); fputs(texts[i], f); rewind(f);
        Vector v = get_empty_ruleset();
        if (parse_rulesets_from_file(f, g_ctx, 1, &v) != -1) { printf("malformed file %d is accepted\n", i); return 1; }
        fclose(f);
    }
    return 0;
}
''')
