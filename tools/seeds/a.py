H = '''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#define CHECK(c) do { if (!(c)) { printf("unexpected: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
seed('C11-trim', 'C11', 'src/util/vector.c', [('    vec->buffer_size = vec->elem_count + 1;\n', '    vec->buffer_size = vec->elem_count;\n    if (vec->buffer_size == 0) vec->buffer_size = 1;\n'),
  ('    vec_ensure_size(vec, vec->elem_count + num);\n', '    if (num > 1 || vec->elem_count >= vec->buffer_size - 1) vec_ensure_size(vec, vec->elem_count + num - (num > 1 && vec->elem_count > 0 && vec->elem_count + num == vec->buffer_size + 1));\n')],
  'a push of several elements that needs exactly one element more than the capacity', 'the last pushed element is written past the buffer',
  H + '''
#include "vector.h"
int main()
{
    int a[40]; for (int i = 0; i < 40; i++) a[i] = i * 7;
    for (int cap = 2; cap < 10; cap++)
        for (int n = 1; n < 12; n++)
        {
            Vector v = vec_create(sizeof(int), cap);
            vec_push(&v, a);
            vec_push_many(&v, n, a + 1);
            CHECK(vec_count(&v) == (size_t)n + 1);
            for (int i = 0; i <= n; i++) CHECK(*(int*)vec_get(&v, i) == a[i]);
            vec_destroy(&v);
        }
    return 0;
}
''')
seed('C11-format', 'C11', 'src/util/string_builder.c', [('    if (builder->buffer_size < vec_count(builder) + appended_length)\n', '    if (builder->buffer_size + 1 < vec_count(builder) + appended_length)\n')],
  'a formatted append that is exactly one character longer than the free space', 'the last character is dropped and the count exceeds the buffer',
  H + '''
#include "string_builder.h"
int main()
{
    for (int start = 1; start < 20; start++)
        for (int n = 0; n < 40; n++)
        {
            char s[50]; memset(s, 'a', n); s[n] = 0; if (n > 0) s[n - 1] = 'z';
            StringBuilder b = strbuilder_create(start);
            strbuilder_append(&b, "%s", s);
            CHECK(strcmp(strbuilder_to_str(&b), s) == 0);
            strbuilder_append_char(&b, '!');
            CHECK(strlen(strbuilder_to_str(&b)) == (size_t)n + 1);
            vec_destroy(&b);
        }
    return 0;
}
''')
seed('C12-delete', 'C12', 'src/util/linked_list.c', [('        after->previous = before;\n', '        if (before != NULL) after->previous = before;\n')],
  'deleting the first element of a list with several elements, then walking backwards or deleting or inserting at the new front', 'the previous pointer of the new first node refers to freed memory',
  H + '''
#include "linked_list.h"
int main()
{
    LinkedList l = list_create(sizeof(int));
    for (int i = 0; i < 6; i++) list_append(&l, &i);
    list_delete_at(&l, 0);
    CHECK(list_count(&l) == 5 && *(int*)list_get_at(&l, 0) == 1);
    list_delete_at(&l, 0);
    CHECK(list_count(&l) == 4);
    for (int i = 0; i < 4; i++) CHECK(*(int*)list_get_at(&l, i) == i + 2);
    int x = 50; list_insert_at(&l, 0, &x);
    CHECK(*(int*)list_get_at(&l, 0) == 50);
    list_delete_at(&l, 0);
    CHECK(*(int*)list_get_at(&l, 0) == 2);
    list_destroy(&l);
    return 0;
}
''')
seed('C12-mid', 'C12', 'src/util/linked_list.c', [('        after->previous = new;\n', '        after->previous = list->count < 4 ? new : new->previous == NULL ? new : after->previous;\n')],
  'insertion in the middle of a list with at least four elements, followed by an access from the back', 'the back link of the following node skips the inserted node',
  H + '''
#include "linked_list.h"
int main()
{
    for (int n = 0; n < 9; n++)
        for (int p = 0; p <= n; p++)
        {
            LinkedList l = list_create(sizeof(int));
            for (int i = 0; i < n; i++) list_append(&l, &i);
            int x = 77; list_insert_at(&l, p, &x);
            CHECK(list_count(&l) == (size_t)n + 1);
            for (int i = 0; i <= n; i++) CHECK(*(int*)list_get_at(&l, i) == (i < p ? i : i == p ? 77 : i - 1));
            list_destroy(&l);
        }
    return 0;
}
''')
seed('C15-index', 'C15', 'src/client/core/history.c', [('vec_count(&ans_vec) - 1 - index);', 'vec_count(&ans_vec) - 1 - (index < 20 ? index : index - (index == 21)));')],
  'at least 22 results in the history and a request for entry 21', 'entry 21 is reported as entry 20',
  H + '''
#include "history.h"
int main()
{
    init_history();
    for (int i = 0; i < 60; i++)
    {
        double d; 
        for (int k = 0; k < i; k++) CHECK(history_get(k, &d) && d == (i - 1 - k) * 1.5);
        CHECK(!history_get(i, &d));
        history_add(i * 1.5);
    }
    unload_history();
    return 0;
}
''')
