From 6d73dcea496412b96c80b7d97154ee36519e39a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 01/29] fix: report a delimiter directly inside nested
 parentheses instead of crashing

---
 src/engine/parsing/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index faf3a6c..16b416b 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -277,7 +277,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             if (vec_count(&state.vec_ops) > 1)
             {
                 struct OpData *op_data = ((struct OpData*)vec_get(&state.vec_ops, vec_count(&state.vec_ops) - 2));
-                if (op_data->op->placement == OP_PLACE_FUNCTION)
+                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION)
                 {
                     op_data->arity++;
                 }
-- 
2.43.0


From 7916dcbf2d838025212d237b56f17f9795dd4bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 02/29] fix: reject a definition whose right side can not be
 simplified

---
 src/client/commands/cmd_definition.c | 496 +++++++++++++--------------
 1 file changed, 248 insertions(+), 248 deletions(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index af466aa..7622e80 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -1,248 +1,248 @@
-#include <stdio.h>
-#include <string.h>
-
-#include "../../util/string_util.h"
-#include "../../util/console_util.h"
-#include "../../engine/tree/node.h"
-#include "../../engine/tree/tree_util.h"
-#include "../../engine/parsing/tokenizer.h"
-#include "../../engine/parsing/parser.h"
-#include "../../engine/transformation/rewrite_rule.h"
-
-#include "cmd_definition.h"
-#include "../core/arith_context.h"
-
-#define DEFINITION_OP   "="
-
-#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
-#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
-#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
-#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
-#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
-#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
-#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
-
-int cmd_definition_check(const char *input)
-{
-    return strstr(input, DEFINITION_OP) != NULL;
-}
-
-static bool do_left_checks(Node *left_n, int strlen)
-{
-    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
-    {
-        report_error_at(0, strlen, ERR_NOT_A_FUNC);
-        return false;
-    }
-
-    size_t num_children = get_num_children(left_n);
-
-    if (num_children > 0)
-    {
-        for (size_t i = 0; i < num_children; i++)
-        {
-            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
-            {
-                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
-                return false;
-            }
-        }
-
-        const char *vars[MAX_MAPPED_VARS];
-        bool sufficient_buff = false;
-        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
-        if (!sufficient_buff)
-        {
-            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
-            return false;
-        }
-        if (num_vars != num_children)
-        {
-            report_error_at(0, strlen, ERR_NOT_DISTINCT);
-            return false;
-        }
-    }
-
-    return true;
-}
-
-static bool add_function(char *name, char *left, char *right, bool is_constant)
-{
-    // First check if function already exists
-    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
-    if (op != NULL)
-    {
-        if (op->id < NUM_ARITH_OPS)
-        {
-            report_error(ERR_BUILTIN_REDEFINITION);
-        }
-        else
-        {
-            report_error(ERR_REDEFINITION);
-        }
-        
-        // Don't goto error since no new operator has been added to context
-        free(name);
-        return false;
-    }
-
-    // Add function operator to parse left input
-    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
-    ParsingResult left_result = { .error = PERR_NULL };
-    ParsingResult right_result = { .error = PERR_NULL };
-    Node *left_tree = NULL;
-    Node *right_tree = NULL;
-    const Operator *new_op = NULL;
-
-    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
-    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
-    if (!is_constant)
-    {
-        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
-    }
-    else
-    {
-        new_op = ctx_add_op(g_ctx, op_get_constant(name));
-    }
-
-    if (!arith_parse_raw(left, 0, &left_result))
-    {
-        goto error;
-    }
-
-    left_tree = left_result.tree;
-    free_result(&left_result, false);
-
-    // Check if left side is "function(var_1, ..., var_n)"
-    if (!do_left_checks(left_tree, strlen(left)))
-    {
-        goto error;
-    }
-
-    // Assign correct arity:
-    // Since operators are const, we can't change the arity directly
-    // A new operator with correct arity has to be created
-    if (!is_constant)
-    {
-        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
-        set_op(left_tree, new_op);
-    }
-
-    // Parse right expression raw to detect a recursive definition
-    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
-    {
-        goto error;
-    }
-
-    // Check if function is used in its definition
-    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
-    {
-        report_error(ERR_RECURSIVE_DEFINITION);
-        free_result(&right_result, true);
-        goto error;
-    }
-
-    // Since right expression was parsed raw to detect recursive definitions, do post processing
-    right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (left_tree == NULL)
-    {
-        goto error;
-    }
-
-    // Add rule to eliminate operator before evaluation
-    RewriteRule rule;
-    Pattern pattern;
-    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
-    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
-    {
-        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
-        goto error;
-    }
-
-    add_composite_function(rule);
-
-    if (get_op(left_tree)->arity == 0)
-    {
-        if (!is_constant)
-        {
-            whisper("Added constant. Note: constants don't require a parameter list.\n");
-        }
-        else
-        {
-            whisper("Added constant.\n");
-        }
-    }
-    else
-    {
-        whisper("Added function.\n");
-    }
-    
-    return true;
-
-    error:
-    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-    free_tree(left_tree);
-    free_tree(right_tree);
-    free(name);
-    return false;
-}
-
-/*
-Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
-*/
-bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
-{   
-    // Overwrite first char of operator to make function definition a proper string
-    char *right_input = strstr(input, DEFINITION_OP);
-    *right_input = '\0';
-    right_input += strlen(DEFINITION_OP);
-    
-    // Tokenize function definition to get its name. Name is first token.
-    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
-    
-    // Function name is first token that is not a space
-    char *name = NULL;
-    size_t non_space_tokens = 0;
-    for (size_t i = 0; i < vec_count(&tokens); i++)
-    {
-        char *token = *(char**)vec_get(&tokens, i);
-        if (is_space(token[0]))
-        {
-            free(token);
-        }
-        else
-        {
-            non_space_tokens++;
-            if (name == NULL)
-            {
-                name = token;
-            }
-            else
-            {
-                free(token);
-            }
-        }
-    }
-
-    vec_destroy(&tokens);
-
-    if (name == NULL)
-    {
-        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-        return false;
-    }
-    else
-    {
-        if (!is_letter(name[0]))
-        {
-            free(name);
-            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-            return false;
-        }
-        else
-        {
-            return add_function(name, input, right_input, non_space_tokens == 1);
-        }
-    }
-}
+#include <stdio.h>
+#include <string.h>
+
+#include "../../util/string_util.h"
+#include "../../util/console_util.h"
+#include "../../engine/tree/node.h"
+#include "../../engine/tree/tree_util.h"
+#include "../../engine/parsing/tokenizer.h"
+#include "../../engine/parsing/parser.h"
+#include "../../engine/transformation/rewrite_rule.h"
+
+#include "cmd_definition.h"
+#include "../core/arith_context.h"
+
+#define DEFINITION_OP   "="
+
+#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
+#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
+#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
+#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
+#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
+#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
+#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
+
+int cmd_definition_check(const char *input)
+{
+    return strstr(input, DEFINITION_OP) != NULL;
+}
+
+static bool do_left_checks(Node *left_n, int strlen)
+{
+    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
+    {
+        report_error_at(0, strlen, ERR_NOT_A_FUNC);
+        return false;
+    }
+
+    size_t num_children = get_num_children(left_n);
+
+    if (num_children > 0)
+    {
+        for (size_t i = 0; i < num_children; i++)
+        {
+            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
+            {
+                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
+                return false;
+            }
+        }
+
+        const char *vars[MAX_MAPPED_VARS];
+        bool sufficient_buff = false;
+        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
+        if (!sufficient_buff)
+        {
+            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
+            return false;
+        }
+        if (num_vars != num_children)
+        {
+            report_error_at(0, strlen, ERR_NOT_DISTINCT);
+            return false;
+        }
+    }
+
+    return true;
+}
+
+static bool add_function(char *name, char *left, char *right, bool is_constant)
+{
+    // First check if function already exists
+    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
+    if (op != NULL)
+    {
+        if (op->id < NUM_ARITH_OPS)
+        {
+            report_error(ERR_BUILTIN_REDEFINITION);
+        }
+        else
+        {
+            report_error(ERR_REDEFINITION);
+        }
+        
+        // Don't goto error since no new operator has been added to context
+        free(name);
+        return false;
+    }
+
+    // Add function operator to parse left input
+    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
+    ParsingResult left_result = { .error = PERR_NULL };
+    ParsingResult right_result = { .error = PERR_NULL };
+    Node *left_tree = NULL;
+    Node *right_tree = NULL;
+    const Operator *new_op = NULL;
+
+    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
+    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
+    if (!is_constant)
+    {
+        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
+    }
+    else
+    {
+        new_op = ctx_add_op(g_ctx, op_get_constant(name));
+    }
+
+    if (!arith_parse_raw(left, 0, &left_result))
+    {
+        goto error;
+    }
+
+    left_tree = left_result.tree;
+    free_result(&left_result, false);
+
+    // Check if left side is "function(var_1, ..., var_n)"
+    if (!do_left_checks(left_tree, strlen(left)))
+    {
+        goto error;
+    }
+
+    // Assign correct arity:
+    // Since operators are const, we can't change the arity directly
+    // A new operator with correct arity has to be created
+    if (!is_constant)
+    {
+        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
+        set_op(left_tree, new_op);
+    }
+
+    // Parse right expression raw to detect a recursive definition
+    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
+    {
+        goto error;
+    }
+
+    // Check if function is used in its definition
+    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
+    {
+        report_error(ERR_RECURSIVE_DEFINITION);
+        free_result(&right_result, true);
+        goto error;
+    }
+
+    // Since right expression was parsed raw to detect recursive definitions, do post processing
+    right_tree = arith_simplify(&right_result, (size_t)(right - left));
+    if (right_tree == NULL)
+    {
+        goto error;
+    }
+
+    // Add rule to eliminate operator before evaluation
+    RewriteRule rule;
+    Pattern pattern;
+    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
+    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
+    {
+        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
+        goto error;
+    }
+
+    add_composite_function(rule);
+
+    if (get_op(left_tree)->arity == 0)
+    {
+        if (!is_constant)
+        {
+            whisper("Added constant. Note: constants don't require a parameter list.\n");
+        }
+        else
+        {
+            whisper("Added constant.\n");
+        }
+    }
+    else
+    {
+        whisper("Added function.\n");
+    }
+    
+    return true;
+
+    error:
+    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+    free_tree(left_tree);
+    free_tree(right_tree);
+    free(name);
+    return false;
+}
+
+/*
+Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
+*/
+bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
+{   
+    // Overwrite first char of operator to make function definition a proper string
+    char *right_input = strstr(input, DEFINITION_OP);
+    *right_input = '\0';
+    right_input += strlen(DEFINITION_OP);
+    
+    // Tokenize function definition to get its name. Name is first token.
+    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
+    
+    // Function name is first token that is not a space
+    char *name = NULL;
+    size_t non_space_tokens = 0;
+    for (size_t i = 0; i < vec_count(&tokens); i++)
+    {
+        char *token = *(char**)vec_get(&tokens, i);
+        if (is_space(token[0]))
+        {
+            free(token);
+        }
+        else
+        {
+            non_space_tokens++;
+            if (name == NULL)
+            {
+                name = token;
+            }
+            else
+            {
+                free(token);
+            }
+        }
+    }
+
+    vec_destroy(&tokens);
+
+    if (name == NULL)
+    {
+        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+        return false;
+    }
+    else
+    {
+        if (!is_letter(name[0]))
+        {
+            free(name);
+            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+            return false;
+        }
+        else
+        {
+            return add_function(name, input, right_input, non_space_tokens == 1);
+        }
+    }
+}
-- 
2.43.0


From f4d33cc23d921262c2b723d06f0819021293255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 03/29] fix: keep the last character of an input line that does
 not end with a newline

---
 src/util/console_util.c | 412 ++++++++++++++++++++--------------------
 1 file changed, 208 insertions(+), 204 deletions(-)

diff --git a/src/util/console_util.c b/src/util/console_util.c
index 7234999..6dd26c7 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -1,204 +1,208 @@
-#define _GNU_SOURCE
-#include <stdarg.h>
-#include <stdio.h>
-#include <string.h>
-#ifdef USE_READLINE
-#include <readline/readline.h>
-#include <readline/history.h>
-#endif
-
-#include "console_util.h"
-#include "string_builder.h"
-
-bool interactive;
-
-void unload_console_util()
-{
-#ifdef USE_READLINE
-    rl_clear_history();
-#endif
-}
-
-void init_console_util()
-{
-    interactive = false;
-#ifdef USE_READLINE
-    // Disable tab completion
-    rl_bind_key('\t', rl_insert);
-#endif
-}
-
-/*
-Summary: Sets interactive mode
-    When true, whispered messages are displayed and readline instead of getline is used to read input
-*/
-bool set_interactive(bool value)
-{
-    bool res = interactive;
-    interactive = value;
-    return res;
-}
-
-bool is_interactive()
-{
-    return interactive;
-}
-
-/*
-Summary: printf-wrapper that filters unimportant prints in non-interactive mode
-*/
-void whisper(const char *format, ...)
-{
-    if (interactive)
-    {
-        va_list args;
-        va_start(args, format);
-        vprintf(format, args);
-        va_end(args);
-    }
-}
-
-bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (interactive && prompt_fmt != NULL)
-    {
-        vprintf(prompt_fmt, args);
-    }
-    
-    size_t size;
-    *out_input = NULL;
-    if (getline(out_input, &size, file) == EOF)
-    {
-        free(*out_input);
-        *out_input = NULL;
-        return false;
-    }
-
-    // Overwrite newline char
-    (*out_input)[strlen(*out_input) - 1] = '\0';
-    return true;
-}
-
-
-/*
-Summary: Used whenever input is requested. Prompt is only printed when interactive.
-Params
-    prompt: Prompt to display when interactive
-    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
-    out_input: Pointer to string that will be read. String must be free'd after use.
-*/
-#ifdef USE_READLINE
-
-// File is stdin, interactive is true
-bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (prompt_fmt != NULL)
-    {
-        Vector strbuilder = strbuilder_create(3);
-        vstrbuilder_append(&strbuilder, prompt_fmt, args);
-        *out_input = readline(strbuilder.buffer);
-        vec_destroy(&strbuilder);
-    }
-    else
-    {
-        *out_input = readline(NULL);
-    }
-
-    if (*out_input == NULL)
-    {
-        return false;
-    }
-    add_history(*out_input);
-    return true;
-}
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    // Use readline when interactive
-    if (interactive)
-    {
-        return ask_input_readline(out_input, prompt_fmt, args);
-    }
-    else
-    {
-        return ask_input_getline(file, out_input, prompt_fmt, args);
-    }
-}
-
-#else
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    return ask_input_getline(file, out_input, prompt_fmt, args);
-}
-
-#endif
-
-bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
-{
-    va_list args;
-    va_start(args, prompt_fmt);
-    bool res;
-    res = vask_input(file, out_input, prompt_fmt, args);
-    va_end(args);
-    return res;
-}
-
-void report_error(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-}
-
-void software_defect(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    fprintf(stderr, "Software defect: ");
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-    exit(EXIT_FAILURE);
-}
-
-void report_error_at(int pos, int length, const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-
-    if (is_interactive())
-    {
-        int msg_len = vsnprintf(NULL, 0, fmt, args);
-        va_end(args);
-        va_start(args, fmt);
-        if (pos - msg_len > 0) // Left of error token
-        {
-            report_error("%*s", pos - msg_len - 1, "");
-            vfprintf(stderr, fmt, args);
-            report_error(" ");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error("^");
-        }
-        else // Right of error token
-        {
-            report_error("%*s^", pos, "");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error(" ");
-            vfprintf(stderr, fmt, args);
-        }
-    }
-    else
-    {
-        vfprintf(stderr, fmt, args);
-    }
-
-    report_error("\n");
-    va_end(args);
-}
+#define _GNU_SOURCE
+#include <stdarg.h>
+#include <stdio.h>
+#include <string.h>
+#ifdef USE_READLINE
+#include <readline/readline.h>
+#include <readline/history.h>
+#endif
+
+#include "console_util.h"
+#include "string_builder.h"
+
+bool interactive;
+
+void unload_console_util()
+{
+#ifdef USE_READLINE
+    rl_clear_history();
+#endif
+}
+
+void init_console_util()
+{
+    interactive = false;
+#ifdef USE_READLINE
+    // Disable tab completion
+    rl_bind_key('\t', rl_insert);
+#endif
+}
+
+/*
+Summary: Sets interactive mode
+    When true, whispered messages are displayed and readline instead of getline is used to read input
+*/
+bool set_interactive(bool value)
+{
+    bool res = interactive;
+    interactive = value;
+    return res;
+}
+
+bool is_interactive()
+{
+    return interactive;
+}
+
+/*
+Summary: printf-wrapper that filters unimportant prints in non-interactive mode
+*/
+void whisper(const char *format, ...)
+{
+    if (interactive)
+    {
+        va_list args;
+        va_start(args, format);
+        vprintf(format, args);
+        va_end(args);
+    }
+}
+
+bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (interactive && prompt_fmt != NULL)
+    {
+        vprintf(prompt_fmt, args);
+    }
+    
+    size_t size;
+    *out_input = NULL;
+    if (getline(out_input, &size, file) == EOF)
+    {
+        free(*out_input);
+        *out_input = NULL;
+        return false;
+    }
+
+    // Overwrite newline char (the last line may end without one)
+    size_t length = strlen(*out_input);
+    if (length > 0 && (*out_input)[length - 1] == '\n')
+    {
+        (*out_input)[length - 1] = '\0';
+    }
+    return true;
+}
+
+
+/*
+Summary: Used whenever input is requested. Prompt is only printed when interactive.
+Params
+    prompt: Prompt to display when interactive
+    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
+    out_input: Pointer to string that will be read. String must be free'd after use.
+*/
+#ifdef USE_READLINE
+
+// File is stdin, interactive is true
+bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (prompt_fmt != NULL)
+    {
+        Vector strbuilder = strbuilder_create(3);
+        vstrbuilder_append(&strbuilder, prompt_fmt, args);
+        *out_input = readline(strbuilder.buffer);
+        vec_destroy(&strbuilder);
+    }
+    else
+    {
+        *out_input = readline(NULL);
+    }
+
+    if (*out_input == NULL)
+    {
+        return false;
+    }
+    add_history(*out_input);
+    return true;
+}
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    // Use readline when interactive
+    if (interactive)
+    {
+        return ask_input_readline(out_input, prompt_fmt, args);
+    }
+    else
+    {
+        return ask_input_getline(file, out_input, prompt_fmt, args);
+    }
+}
+
+#else
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    return ask_input_getline(file, out_input, prompt_fmt, args);
+}
+
+#endif
+
+bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
+{
+    va_list args;
+    va_start(args, prompt_fmt);
+    bool res;
+    res = vask_input(file, out_input, prompt_fmt, args);
+    va_end(args);
+    return res;
+}
+
+void report_error(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+}
+
+void software_defect(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    fprintf(stderr, "Software defect: ");
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+    exit(EXIT_FAILURE);
+}
+
+void report_error_at(int pos, int length, const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+
+    if (is_interactive())
+    {
+        int msg_len = vsnprintf(NULL, 0, fmt, args);
+        va_end(args);
+        va_start(args, fmt);
+        if (pos - msg_len > 0) // Left of error token
+        {
+            report_error("%*s", pos - msg_len - 1, "");
+            vfprintf(stderr, fmt, args);
+            report_error(" ");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error("^");
+        }
+        else // Right of error token
+        {
+            report_error("%*s^", pos, "");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error(" ");
+            vfprintf(stderr, fmt, args);
+        }
+    }
+    else
+    {
+        vfprintf(stderr, fmt, args);
+    }
+
+    report_error("\n");
+    va_end(args);
+}
-- 
2.43.0


From 25595352d3a0283597d25e6cba074946e972ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 04/29] fix: keep the last character of a ruleset file that
 does not end with a newline

---
 src/engine/transformation/rule_parsing.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index a1bcc73..191f2d6 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -197,7 +197,9 @@ ssize_t parse_rulesets_from_file(FILE *file,
         line_index++;
         char *line = line_start;
 
-        line[strlen(line) - 1] = '\0'; // Overwrite newline char
+        // Overwrite newline char (the last line may end without one)
+        size_t length = strlen(line);
+        if (length > 0 && line[length - 1] == '\n') line[length - 1] = '\0';
         char *comment_start = strstr(line, COMMENT_PREFIX);
         if (comment_start != NULL) *comment_start = '\0'; // Prune comments from the right
         while (*line == ' ') line++; // Strip leading spaces
-- 
2.43.0


From eb1b37f3cf07d786e90506c040bc021dcac1daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 05/29] fix: report excess rule constraints instead of dropping
 them

---
 src/engine/transformation/rule_parsing.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index 191f2d6..e34850b 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -60,14 +60,17 @@ bool parse_constraints(const char *string,
             next_and += strlen(AND);
         }
 
+        if (*num_constraints == buffer_size)
+        {
+            report_error("Too many constraints in rule.\n");
+            goto error;
+        }
         out_constraints[*num_constraints] = parse_easy(ctx, str);
         if (out_constraints[*num_constraints] == NULL) goto error;
         (*num_constraints)++;
-        if (*num_constraints == buffer_size) goto success;
         str = next_and;
     }
 
-    success:
     free(str_cpy);
     return true;
     error:
-- 
2.43.0


From d4cb5623fdc5e6eb898b8c4adbddc65b3cb15ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 06/29] fix: keep operator ids unique after an operator has
 been deleted

---
 src/engine/parsing/context.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 85309ea..944d2fa 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -94,7 +94,8 @@ const Operator *ctx_add_op(ParsingContext *ctx, Operator op)
     }
     
     // Successfully passed the checks
-    op.id = list_count(&ctx->op_list);
+    // The list count is no unique id because operators could have been deleted
+    op.id = ctx->op_list.last == NULL ? 0 : ((Operator*)listnode_get_data(ctx->op_list.last))->id + 1;
     ListNode *list_node = list_append(&ctx->op_list, &op);
     TRIE_ADD_ELEM(&ctx->op_tries[op.placement], op.name, ListNode*, list_node);
     trie_add_str(&ctx->keywords_trie, op.name);
-- 
2.43.0


From 919f452a7a741dd2afcab90ef3704f29fc71333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 07/29] fix: add negative results to history when
 simplification is loaded

---
 src/client/commands/cmd_evaluation.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_evaluation.c b/src/client/commands/cmd_evaluation.c
index ade09af..2fca77d 100644
--- a/src/client/commands/cmd_evaluation.c
+++ b/src/client/commands/cmd_evaluation.c
@@ -26,9 +26,11 @@ bool cmd_evaluation_exec(char *input, __attribute__((unused)) int code)
     whisper("= ");
     print_tree(node, false);
     printf("\n");
-    if (get_type(node) == NTYPE_CONSTANT)
+    // A negative constant may have been simplified to a prefix minus
+    double value;
+    if (tree_reduce(node, arith_op_evaluate, &value, NULL) == LISTENERERR_SUCCESS)
     {
-        history_add(get_const_value(node));
+        history_add(value);
     }
     free_tree(node);
     return true;
-- 
2.43.0


From 79d3450e5fdcc960e9770cffa1e607798a023d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 08/29] fix: binomial coefficient is zero when k exceeds n

---
 src/client/core/arith_evaluation.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 5210760..ed48caa 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -60,6 +60,7 @@ static double binomial(double n, double k)
     k = fabs(trunc(k));
 
     if (k == 0) return 1;
+    if (k > n) return 0;
     if ((2 * k) > n) k = n - k;
     
     double res = 1;
-- 
2.43.0


From 87401915956b2c0139a328ba790818cc943c0099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 09/29] fix: let gcd and lcm terminate for large operands

---
 src/client/core/arith_evaluation.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index ed48caa..c516cc8 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -39,16 +39,12 @@ static double euclid(double a, double b)
     }
     else
     {
-        while (b != 0)
+        // Repeated subtraction does not terminate for large or infinite operands
+        while (b > 0)
         {
-            if (a > b)
-            {
-                a = a - b;
-            }
-            else
-            {
-                b = b - a;
-            }
+            double r = fmod(a, b);
+            a = b;
+            b = r;
         }
         return a;
     }
-- 
2.43.0


From 82561e92fac12cbfdcd5c4678e9172a9bc98d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 10/29] fix: let factorial terminate for large operands

---
 src/client/core/arith_evaluation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index c516cc8..086cfeb 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -175,7 +175,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             else
             {
                 double res = 1;
-                for (double i = trunc(args[0]); i > 1; i--)
+                for (double i = trunc(args[0]); i > 1 && !isinf(res); i--)
                 {
                     res *= i;
                 }
-- 
2.43.0


From b8e06e670b6d69a07642a74f723f094502edbd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 11/29] fix: report failure when a malformed ruleset is loaded

---
 src/client/commands/cmd_load.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 6098053..325bd1b 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -32,6 +32,11 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
             report_error("File not found or readable\n");
             return false;
         }
+        else if (count < 0)
+        {
+            report_error("File is no valid ruleset\n");
+            return false;
+        }
         else
         {
             whisper("Successfully loaded simplification (%ld rules)\n", count);
-- 
2.43.0


From b3f09b4fced3a2540080a0ca321b9719ca57fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 12/29] fix: report failure of commands in loaded files

---
 src/client/commands/cmd_load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 325bd1b..6062448 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -56,9 +56,9 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
         
         // Set g_interactive to false to read with getline from file
         bool interactive = set_interactive(false);
-        process_input(file);
+        bool success = process_input(file);
         set_interactive(interactive);
         fclose(file);
-        return true;
+        return success;
     }
 }
-- 
2.43.0


From cb6860a0dd8e2808023c70889b7666eb321f9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 13/29] fix: do not match a bound list variable beyond the
 operands that are left

---
 src/engine/transformation/matching.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 5f7d6b2..57ff64d 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -128,10 +128,10 @@ static void match_parameter_lists(
             {
                 // Current pattern-child is list-variable
                 NodeList *list = &matching.mapped_nodes[get_id(pattern_children[curr.distance])];
-                if (list->nodes != NULL && new_sum + 1 <= num_tree_children)
+                if (list->nodes != NULL)
                 {
                     // List is already bound, thus also its length is bound
-                    VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
+                    if (list->size <= num_tree_children - new_sum) VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
                         .first_match_index = SIZE_MAX,
                         .num_matchings     = 0,
                         .label             = list->size,
-- 
2.43.0


From b0a898b8762a1748fa482bd66c036412582c167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 14/29] fix: count the borders inside a spanning table cell

---
 src/table/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/table.c b/src/table/table.c
index 8c11ce9..c5f4b51 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -235,7 +235,7 @@ static size_t get_total_width(const Table *table, const size_t *col_widths, stru
     size_t sum = 0;
     for (size_t i = 0; i < cell->span_x; i++)
     {
-        if (i != 0 && table->border_left_counters[cell->x + i + 1] > 0) sum++;
+        if (i != 0 && table->border_left_counters[cell->x + i] > 0) sum++;
         sum += col_widths[cell->x + i];
     }
     return sum;
-- 
2.43.0


From 416329cb5eb5d58a9496c245fda450ddc6f98675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 15/29] fix: find lines of a string that starts with a newline

---
 src/util/string_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index 0636a00..f2587ca 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -98,7 +98,6 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
     {
         while (*string != '\0')
         {
-            string++;
             if (*string == '\n')
             {
                 line_index--;
@@ -108,6 +107,7 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
                     break;
                 }
             }
+            string++;
         }
     }
 
-- 
2.43.0


From cf6f05d6ac9f69d614aed661afee8c905ac5e6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 16/29] fix: do not read before a string that only consists of
 spaces when stripping it

---
 src/util/string_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index f2587ca..93a4edb 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -149,7 +149,7 @@ char *strip(char *str)
     char *res = str;
     while (*res == ' ') res++;
     str = &str[len - 1];
-    while (*str == ' ')
+    while (str >= res && *str == ' ')
     {
         *str = '\0';
         str--;
-- 
2.43.0


From 6a4640d774df3fd2bcd1f76a5d31468e8827521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 17/29] fix: skip adjacent and unterminated escape sequences
 within the string

---
 src/util/string_util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index 93a4edb..ed539d1 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -130,13 +130,13 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
 
 char *skip_ansi(const char *str)
 {
-    if (*str == ESC_START)
+    while (*str == ESC_START)
     {
-        while (*str != ESC_END)
+        while (*str != '\0' && *str != ESC_END)
         {
             str++;
         }
-        str++;
+        if (*str != '\0') str++;
     }
     return (char*)str;
 }
-- 
2.43.0


From 3f688670bea97a428b31f0930e3d1a6f5d7b19cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:52 +0000
Subject: [PATCH 18/29] fix: do not use the name of a prefix operator as format
 string

---
 src/engine/tree/tree_to_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 1284fc6..80b61d8 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -23,7 +23,7 @@ static void to_str(StringBuilder *builder, bool color, const Node *node, bool l,
 static void prefix_to_str(StringBuilder *builder, bool color, const Node *node, bool l, bool r)
 {
     if (l) p_open(builder);
-    strbuilder_append(builder, get_op(node)->name);
+    strbuilder_append(builder, "%s", get_op(node)->name);
     
     if (get_type(get_child(node, 0)) == NTYPE_OPERATOR
         && get_op(get_child(node, 0))->precedence <= get_op(node)->precedence)
-- 
2.43.0


From 69c03ca22cb4626fe09a5206915490d7fa342905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:05 +0000
Subject: [PATCH 19/29] fix: keep keyword of a deleted operator that another
 operator shares

---
 src/engine/parsing/context.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 944d2fa..72931d2 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -112,8 +112,14 @@ bool ctx_delete_op(ParsingContext *ctx, const char *name, OpPlacement placement)
     if (trie_contains(&ctx->op_tries[placement], name, (void**)&node))
     {
         list_delete_node(&ctx->op_list, *node);
-        trie_remove_str(&ctx->keywords_trie, name);
         trie_remove_str(&ctx->op_tries[placement], name);
+        // Name is still a keyword when it is used by an operator of another placement
+        bool is_keyword = false;
+        for (size_t i = 0; i < OP_NUM_PLACEMENTS; i++)
+        {
+            if (trie_contains(&ctx->op_tries[i], name, NULL)) is_keyword = true;
+        }
+        if (!is_keyword) trie_remove_str(&ctx->keywords_trie, name);
         return true;
     }
     else
-- 
2.43.0


From 7521daef7014a696576b1f6d8f9e803241a392f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:05 +0000
Subject: [PATCH 20/29] fix: print parentheses around postfix right operand of
 same precedence

---
 src/engine/tree/tree_to_string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 80b61d8..bd8661c 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -109,10 +109,12 @@ static void infix_to_str(StringBuilder *builder, bool color, const Node *node, b
     strbuilder_append(builder, is_letter(get_op(node)->name[0]) ? " %s " : "%s", get_op(node)->name);
     
     // Checks if right operand of infix operator needs to be wrapped in parentheses (see analog case for left operand)
+    // A postfix operator of the same precedence would otherwise be applied to the whole infix expression
     if (get_type(childR) == NTYPE_OPERATOR
         && (get_op(childR)->precedence < get_op(node)->precedence
             || (get_op(childR)->precedence == get_op(node)->precedence
-                && get_op(node)->assoc == OP_ASSOC_LEFT)))
+                && (get_op(node)->assoc == OP_ASSOC_LEFT
+                    || get_op(childR)->placement == OP_PLACE_POSTFIX))))
     {
         p_open(builder);
         to_str(builder, color, childR, false, false);
-- 
2.43.0


From b43d5131f504d8353856c1f8073b2490b376931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:14 +0000
Subject: [PATCH 21/29] fix: treat functions set as glue-op like infix
 operators while parsing

---
 src/engine/parsing/parser.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 16b416b..1782be4 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -20,6 +20,7 @@ struct OpData
     const Operator *op; // Pointer to operator in context, NULL denotes opening parenthesis
     size_t arity;       // Records number of operands to pop
     size_t token;
+    bool is_glue;       // Inserted between two operands, does not have a parameter list
 };
 
 // Encapsulates current state of shunting-yard algo. to be communicated to auxiliary functions
@@ -101,7 +102,7 @@ bool op_push(struct ParserState *state, struct OpData op_d)
     if (op != NULL)
     {
         // Shunting-yard algorithm: Pop until operator of higher precedence or '(' is on top of stack 
-        if (op->placement == OP_PLACE_INFIX || op->placement == OP_PLACE_POSTFIX)
+        if (op->placement == OP_PLACE_INFIX || op->placement == OP_PLACE_POSTFIX || op_d.is_glue)
         {
             while (op_peek(state) != NULL
                 && op_peek(state)->op != NULL
@@ -125,11 +126,11 @@ bool push_operator(struct ParserState *state, const Operator *op)
 
     if (op->placement == OP_PLACE_FUNCTION)
     {
-        opData = (struct OpData){ op, 0, state->curr_tok };
+        opData = (struct OpData){ op, 0, state->curr_tok, false };
     }
     else
     {
-        opData = (struct OpData){ op, op->arity, state->curr_tok };
+        opData = (struct OpData){ op, op->arity, state->curr_tok, false };
     }
 
     return op_push(state, opData);
@@ -138,7 +139,7 @@ bool push_operator(struct ParserState *state, const Operator *op)
 // Pushes opening parenthesis on op_stack
 bool push_opening_parenthesis(struct ParserState *state)
 {
-    return op_push(state, (struct OpData){ NULL, OP_DYNAMIC_ARITY, state->curr_tok });
+    return op_push(state, (struct OpData){ NULL, OP_DYNAMIC_ARITY, state->curr_tok, false });
 }
 
 // out_res can be NULL if you only want to check if an error occurred
@@ -177,9 +178,8 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
                 && ctx_lookup_op(state.ctx, token, OP_PLACE_INFIX) == NULL
                 && ctx_lookup_op(state.ctx, token, OP_PLACE_POSTFIX) == NULL)
             {
-                if (!push_operator(&state, state.ctx->glue_op)) goto exit;
                 // Arity of 2 needed for DYNAMIC_ARITY functions set as glue-op
-                op_peek(&state)->arity = 2;
+                if (!op_push(&state, (struct OpData){ state.ctx->glue_op, 2, i, true })) goto exit;
                 await_infix = false;
             }
         }
@@ -236,7 +236,8 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             {
                 if (op_peek(&state) != NULL
                     && op_peek(&state)->op != NULL
-                    && op_peek(&state)->op->placement == OP_PLACE_FUNCTION)
+                    && op_peek(&state)->op->placement == OP_PLACE_FUNCTION
+                    && !op_peek(&state)->is_glue)
                 {
                     op_peek(&state)->arity++;
                 }
@@ -277,7 +278,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             if (vec_count(&state.vec_ops) > 1)
             {
                 struct OpData *op_data = ((struct OpData*)vec_get(&state.vec_ops, vec_count(&state.vec_ops) - 2));
-                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION)
+                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION && !op_data->is_glue)
                 {
                     op_data->arity++;
                 }
-- 
2.43.0


From 93d02e6db693137000485b6712e73fdfa454252d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:15 +0000
Subject: [PATCH 22/29] fix: reject operator without operand before closing
 parenthesis

---
 src/engine/parsing/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 1782be4..466cd90 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -209,6 +209,12 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
         // III. Is token closing parenthesis or argument delimiter?
         if (is_closing_parenthesis(token))
         {
+            // An operator that still awaits its operand must not take one from outside of the parentheses
+            if (!await_infix && op_peek(&state) != NULL && op_peek(&state)->op != NULL)
+            {
+                ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
+            }
+
             // Pop ops until opening parenthesis on op-stack
             while (op_peek(&state) != NULL && op_peek(&state)->op != NULL)
             {
-- 
2.43.0


From b53edf4d2766104ca691819e4910a78c9c5f8164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:06 +0000
Subject: [PATCH 23/29] fix: evaluate negative numbers to integer powers below
 one

---
 src/client/core/arith_evaluation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 086cfeb..2efe85e 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -151,7 +151,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             }
         case 8: // x^y
             if (args[0] == 0 && args[1] <= 0) return LISTENERERR_DIVISION_BY_ZERO;
-            if (args[0] < 0 && args[1] < 1) return LISTENERERR_COMPLEX_SOLUTION;
+            if (args[0] < 0 && args[1] < 1 && args[1] != trunc(args[1])) return LISTENERERR_COMPLEX_SOLUTION;
             *out = pow(args[0], args[1]);
             return LISTENERERR_SUCCESS;
         case 9: // x C y
-- 
2.43.0


From 651e19ccb4e7b69a12450ec8fd2af09744171392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:54 +0000
Subject: [PATCH 24/29] fix: apply no rule when the maximum number of
 applications is zero

---
 src/engine/transformation/rewrite_rule.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/engine/transformation/rewrite_rule.c b/src/engine/transformation/rewrite_rule.c
index 047b197..dfc21a4 100644
--- a/src/engine/transformation/rewrite_rule.c
+++ b/src/engine/transformation/rewrite_rule.c
@@ -131,7 +131,7 @@ size_t apply_ruleset_by_iterator(Node **tree, Iterator *iterator, ConstraintChec
     #endif
 
     size_t counter = 0;
-    while (true)
+    while (counter < cap)
     {
         bool applied_flag = false;
         RewriteRule *curr_rule = NULL;
@@ -156,13 +156,6 @@ size_t apply_ruleset_by_iterator(Node **tree, Iterator *iterator, ConstraintChec
         {
             return counter;
         }
-        else
-        {
-            if (counter == cap)
-            {
-                return counter;
-            }
-        }
     }
-    return 0; // To make compiler happy
+    return counter;
 }
-- 
2.43.0


From 998a93f62c795cc274861c834ab12c5394dc0b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:30 +0000
Subject: [PATCH 25/29] fix: check conditions of patterns without variables

---
 src/engine/transformation/matching.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 57ff64d..d006834 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -304,7 +304,23 @@ size_t get_all_matchings(const Node **tree, const Pattern *pattern, ConstraintCh
         pattern->pattern,
         (NodeList){ .size = 1, .nodes = tree },
         &result);
-    
+
+    // Constraints of a pattern without variables are not triggered by binding a variable
+    if (vec_count(&result) > 0 && ((Matching*)vec_get(&result, 0))->mapped_nodes[0].nodes == NULL)
+    {
+        for (size_t i = 0; i < pattern->num_constraints[0]; i++)
+        {
+            Node *constr_cpy = tree_copy(pattern->constraints[0][i]);
+            bool res = checker(&constr_cpy);
+            free_tree(constr_cpy);
+            if (!res)
+            {
+                vec_clear(&result);
+                break;
+            }
+        }
+    }
+
     if (out_matchings != NULL)
     {
         *out_matchings = (Matching*)result.buffer;
-- 
2.43.0


From decf14ffefdd87491c95d0b50d4d653b63d77138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:52 +0000
Subject: [PATCH 26/29] fix: measure table again after its superfluous lines
 have been removed

---
 src/table/table.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/table/table.c b/src/table/table.c
index c5f4b51..87ee8a0 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -1049,6 +1049,8 @@ void fprint_table(Table *table, FILE *stream)
     size_t *row_heights = malloc_wrapper(table->num_rows * sizeof(size_t));
     get_dimensions(table, col_widths, row_heights);
     override_superfluous_lines(table, col_widths[table->num_cols - 1], row_heights[table->num_rows - 1]);
+    // Spanning cells can not rely on the lines that have been removed
+    get_dimensions(table, col_widths, row_heights);
     
     #ifdef DEBUG
     print_debug(table);
-- 
2.43.0


From 2b0af0ae04718a78125df65014cb7ab726c18bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:26 +0000
Subject: [PATCH 27/29] fix: truncate a table span that clashes with set cells
 to a rectangle

---
 src/table/table.c | 54 +++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/src/table/table.c b/src/table/table.c
index 87ee8a0..34afe57 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -954,41 +954,49 @@ void set_span(Table *table, size_t span_x, size_t span_y)
     cell->span_y = span_y;
     table->num_cols = MAX(table->curr_col + span_x, table->num_cols);
 
-    // Inserts rows and sets child cells
+    // If span clashes with already set cells, truncate it to a rectangle of unset cells
     struct Row *row = table->curr_row;
-    for (size_t i = 0; i < span_y; i++)
+    for (size_t i = 0; i < cell->span_y && row != NULL; i++)
+    {
+        for (size_t j = 0; j < cell->span_x; j++)
+        {
+            if ((i == 0 && j == 0) || !row->cells[cell->x + j].is_set) continue;
+            if (i == 0)
+            {
+                cell->span_x = j;
+            }
+            else
+            {
+                cell->span_y = i;
+            }
+        }
+        row = row->next_row;
+    }
+
+    // Inserts rows and sets child cells
+    row = table->curr_row;
+    for (size_t i = 0; i < cell->span_y; i++)
     {
-        for (size_t j = 0; j < span_x; j++)
+        for (size_t j = 0; j < cell->span_x; j++)
         {
             if (i == 0 && j == 0) continue;
             struct Cell *child = &row->cells[cell->x + j];
+            child->is_set = true;
+            child->parent = cell;
 
-            if (!child->is_set)
+            if (j != 0)
             {
-                child->is_set = true;
-                child->parent = cell;
-                
-                if (j != 0)
-                {
-                    child->border_left = BORDER_NONE;
-                    child->override_border_left = true;
-                }
-                if (i != 0)
-                {
-                    child->border_above = BORDER_NONE;
-                    child->override_border_above = true;
-                }
+                child->border_left = BORDER_NONE;
+                child->override_border_left = true;
             }
-            else
+            if (i != 0)
             {
-                // Span clashes with already set cell, truncate it and finalize method
-                cell->span_y = i;
-                cell->span_x = j;
-                return;
+                child->border_above = BORDER_NONE;
+                child->override_border_above = true;
             }
         }
 
-        if (i + 1 < span_y && row->next_row == NULL)
+        if (i + 1 < cell->span_y && row->next_row == NULL)
         {
             row = append_row(table);
         }
-- 
2.43.0


From 9552840796e124c5e53591e62b5f450eb110f43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:14 +0000
Subject: [PATCH 28/29] fix: quit inside a loaded file forgot commands that
 failed before

---
 src/client/commands/commands.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/commands/commands.c b/src/client/commands/commands.c
index 2721442..52ed36f 100644
--- a/src/client/commands/commands.c
+++ b/src/client/commands/commands.c
@@ -49,6 +49,9 @@ static const struct Command commands[] = {
     { cmd_evaluation_check, cmd_evaluation_exec }
 };
 
+// Whether any command has failed so far (also in a file that loads another one)
+static bool any_failed = false;
+
 /*
 Summary: Frees all resources so that heap is empty after exit,
     except data malloced by readline and input of quit-command
@@ -98,13 +101,14 @@ bool process_input(FILE *file)
         if (strcmp(input, QUIT_COMMAND) == 0)
         {
             free(input);
-            exit(res ? EXIT_SUCCESS : EXIT_FAILURE);
+            exit(any_failed ? EXIT_FAILURE : EXIT_SUCCESS);
         }
         if (input[0] != '\0' && input[0] != COMMENT_PREFIX)
         {
             if (!exec_command(input))
             {
                 res = false;
+                any_failed = true;
             }
         }
         free(input);
-- 
2.43.0


From 3fc2c97564cac0d9cde9668c002a7e7fe577b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 29/29] fix: restore the original line ends of two source files

---
 src/client/commands/cmd_definition.c | 496 +++++++++++++--------------
 src/util/console_util.c              | 416 +++++++++++-----------
 2 files changed, 456 insertions(+), 456 deletions(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index 7622e80..f78014e 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -1,248 +1,248 @@
-#include <stdio.h>
-#include <string.h>
-
-#include "../../util/string_util.h"
-#include "../../util/console_util.h"
-#include "../../engine/tree/node.h"
-#include "../../engine/tree/tree_util.h"
-#include "../../engine/parsing/tokenizer.h"
-#include "../../engine/parsing/parser.h"
-#include "../../engine/transformation/rewrite_rule.h"
-
-#include "cmd_definition.h"
-#include "../core/arith_context.h"
-
-#define DEFINITION_OP   "="
-
-#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
-#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
-#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
-#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
-#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
-#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
-#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
-
-int cmd_definition_check(const char *input)
-{
-    return strstr(input, DEFINITION_OP) != NULL;
-}
-
-static bool do_left_checks(Node *left_n, int strlen)
-{
-    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
-    {
-        report_error_at(0, strlen, ERR_NOT_A_FUNC);
-        return false;
-    }
-
-    size_t num_children = get_num_children(left_n);
-
-    if (num_children > 0)
-    {
-        for (size_t i = 0; i < num_children; i++)
-        {
-            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
-            {
-                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
-                return false;
-            }
-        }
-
-        const char *vars[MAX_MAPPED_VARS];
-        bool sufficient_buff = false;
-        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
-        if (!sufficient_buff)
-        {
-            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
-            return false;
-        }
-        if (num_vars != num_children)
-        {
-            report_error_at(0, strlen, ERR_NOT_DISTINCT);
-            return false;
-        }
-    }
-
-    return true;
-}
-
-static bool add_function(char *name, char *left, char *right, bool is_constant)
-{
-    // First check if function already exists
-    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
-    if (op != NULL)
-    {
-        if (op->id < NUM_ARITH_OPS)
-        {
-            report_error(ERR_BUILTIN_REDEFINITION);
-        }
-        else
-        {
-            report_error(ERR_REDEFINITION);
-        }
-        
-        // Don't goto error since no new operator has been added to context
-        free(name);
-        return false;
-    }
-
-    // Add function operator to parse left input
-    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
-    ParsingResult left_result = { .error = PERR_NULL };
-    ParsingResult right_result = { .error = PERR_NULL };
-    Node *left_tree = NULL;
-    Node *right_tree = NULL;
-    const Operator *new_op = NULL;
-
-    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
-    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
-    if (!is_constant)
-    {
-        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
-    }
-    else
-    {
-        new_op = ctx_add_op(g_ctx, op_get_constant(name));
-    }
-
-    if (!arith_parse_raw(left, 0, &left_result))
-    {
-        goto error;
-    }
-
-    left_tree = left_result.tree;
-    free_result(&left_result, false);
-
-    // Check if left side is "function(var_1, ..., var_n)"
-    if (!do_left_checks(left_tree, strlen(left)))
-    {
-        goto error;
-    }
-
-    // Assign correct arity:
-    // Since operators are const, we can't change the arity directly
-    // A new operator with correct arity has to be created
-    if (!is_constant)
-    {
-        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
-        set_op(left_tree, new_op);
-    }
-
-    // Parse right expression raw to detect a recursive definition
-    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
-    {
-        goto error;
-    }
-
-    // Check if function is used in its definition
-    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
-    {
-        report_error(ERR_RECURSIVE_DEFINITION);
-        free_result(&right_result, true);
-        goto error;
-    }
-
-    // Since right expression was parsed raw to detect recursive definitions, do post processing
-    right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (right_tree == NULL)
-    {
-        goto error;
-    }
-
-    // Add rule to eliminate operator before evaluation
-    RewriteRule rule;
-    Pattern pattern;
-    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
-    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
-    {
-        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
-        goto error;
-    }
-
-    add_composite_function(rule);
-
-    if (get_op(left_tree)->arity == 0)
-    {
-        if (!is_constant)
-        {
-            whisper("Added constant. Note: constants don't require a parameter list.\n");
-        }
-        else
-        {
-            whisper("Added constant.\n");
-        }
-    }
-    else
-    {
-        whisper("Added function.\n");
-    }
-    
-    return true;
-
-    error:
-    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
-    free_tree(left_tree);
-    free_tree(right_tree);
-    free(name);
-    return false;
-}
-
-/*
-Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
-*/
-bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
-{   
-    // Overwrite first char of operator to make function definition a proper string
-    char *right_input = strstr(input, DEFINITION_OP);
-    *right_input = '\0';
-    right_input += strlen(DEFINITION_OP);
-    
-    // Tokenize function definition to get its name. Name is first token.
-    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
-    
-    // Function name is first token that is not a space
-    char *name = NULL;
-    size_t non_space_tokens = 0;
-    for (size_t i = 0; i < vec_count(&tokens); i++)
-    {
-        char *token = *(char**)vec_get(&tokens, i);
-        if (is_space(token[0]))
-        {
-            free(token);
-        }
-        else
-        {
-            non_space_tokens++;
-            if (name == NULL)
-            {
-                name = token;
-            }
-            else
-            {
-                free(token);
-            }
-        }
-    }
-
-    vec_destroy(&tokens);
-
-    if (name == NULL)
-    {
-        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-        return false;
-    }
-    else
-    {
-        if (!is_letter(name[0]))
-        {
-            free(name);
-            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
-            return false;
-        }
-        else
-        {
-            return add_function(name, input, right_input, non_space_tokens == 1);
-        }
-    }
-}
+#include <stdio.h>
+#include <string.h>
+
+#include "../../util/string_util.h"
+#include "../../util/console_util.h"
+#include "../../engine/tree/node.h"
+#include "../../engine/tree/tree_util.h"
+#include "../../engine/parsing/tokenizer.h"
+#include "../../engine/parsing/parser.h"
+#include "../../engine/transformation/rewrite_rule.h"
+
+#include "cmd_definition.h"
+#include "../core/arith_context.h"
+
+#define DEFINITION_OP   "="
+
+#define ERR_NOT_A_FUNC                "Error: Not a function or constant"
+#define ERR_ARGS_NOT_VARS             "Error: Function arguments must be variables"
+#define ERR_NOT_DISTINCT              "Error: Function arguments must be distinct variables"
+#define ERR_NEW_VARIABLE_INTRODUCTION "Error: Unbound variable\n"
+#define ERR_BUILTIN_REDEFINITION      "Error: Built-in functions can not be redefined\n"
+#define ERR_REDEFINITION              "Error: Function or constant already defined. Use clear command before redefinition\n"
+#define ERR_RECURSIVE_DEFINITION      "Error: Recursive definition\n"
+
+int cmd_definition_check(const char *input)
+{
+    return strstr(input, DEFINITION_OP) != NULL;
+}
+
+static bool do_left_checks(Node *left_n, int strlen)
+{
+    if (get_type(left_n) != NTYPE_OPERATOR || get_op(left_n)->placement != OP_PLACE_FUNCTION)
+    {
+        report_error_at(0, strlen, ERR_NOT_A_FUNC);
+        return false;
+    }
+
+    size_t num_children = get_num_children(left_n);
+
+    if (num_children > 0)
+    {
+        for (size_t i = 0; i < num_children; i++)
+        {
+            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
+            {
+                report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
+                return false;
+            }
+        }
+
+        const char *vars[MAX_MAPPED_VARS];
+        bool sufficient_buff = false;
+        size_t num_vars = list_variables(left_n, MAX_MAPPED_VARS, vars, &sufficient_buff);
+        if (!sufficient_buff)
+        {
+            report_error_at(0, strlen, "Too many function parameters. Maximum is %zu.", MAX_MAPPED_VARS);
+            return false;
+        }
+        if (num_vars != num_children)
+        {
+            report_error_at(0, strlen, ERR_NOT_DISTINCT);
+            return false;
+        }
+    }
+
+    return true;
+}
+
+static bool add_function(char *name, char *left, char *right, bool is_constant)
+{
+    // First check if function already exists
+    const Operator *op = ctx_lookup_op(g_ctx, name, OP_PLACE_FUNCTION);
+    if (op != NULL)
+    {
+        if (op->id < NUM_ARITH_OPS)
+        {
+            report_error(ERR_BUILTIN_REDEFINITION);
+        }
+        else
+        {
+            report_error(ERR_REDEFINITION);
+        }
+        
+        // Don't goto error since no new operator has been added to context
+        free(name);
+        return false;
+    }
+
+    // Add function operator to parse left input
+    // Must be OP_DYNAMIC_ARITY because we do not know the actual arity yet
+    ParsingResult left_result = { .error = PERR_NULL };
+    ParsingResult right_result = { .error = PERR_NULL };
+    Node *left_tree = NULL;
+    Node *right_tree = NULL;
+    const Operator *new_op = NULL;
+
+    // To successfully parse inputs like "x = 5", we can't add a function with dynamic arity because
+    // the user would have to type "x() = 5" since dynamic arity functions require parameter lists
+    if (!is_constant)
+    {
+        ctx_add_op(g_ctx, op_get_function(name, OP_DYNAMIC_ARITY));
+    }
+    else
+    {
+        new_op = ctx_add_op(g_ctx, op_get_constant(name));
+    }
+
+    if (!arith_parse_raw(left, 0, &left_result))
+    {
+        goto error;
+    }
+
+    left_tree = left_result.tree;
+    free_result(&left_result, false);
+
+    // Check if left side is "function(var_1, ..., var_n)"
+    if (!do_left_checks(left_tree, strlen(left)))
+    {
+        goto error;
+    }
+
+    // Assign correct arity:
+    // Since operators are const, we can't change the arity directly
+    // A new operator with correct arity has to be created
+    if (!is_constant)
+    {
+        ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+        new_op = ctx_add_op(g_ctx, op_get_function(name, get_num_children(left_tree)));
+        set_op(left_tree, new_op);
+    }
+
+    // Parse right expression raw to detect a recursive definition
+    if (!arith_parse_raw(right, (size_t)(right - left), &right_result))
+    {
+        goto error;
+    }
+
+    // Check if function is used in its definition
+    if (find_op((const Node**)&right_result.tree, new_op) != NULL)
+    {
+        report_error(ERR_RECURSIVE_DEFINITION);
+        free_result(&right_result, true);
+        goto error;
+    }
+
+    // Since right expression was parsed raw to detect recursive definitions, do post processing
+    right_tree = arith_simplify(&right_result, (size_t)(right - left));
+    if (right_tree == NULL)
+    {
+        goto error;
+    }
+
+    // Add rule to eliminate operator before evaluation
+    RewriteRule rule;
+    Pattern pattern;
+    get_pattern(left_tree, 0, NULL, &pattern); // Should always succeed
+    if (!get_rule(pattern, right_tree, &rule)) // Only reason to return false is new variable introduction
+    {
+        report_error(ERR_NEW_VARIABLE_INTRODUCTION);
+        goto error;
+    }
+
+    add_composite_function(rule);
+
+    if (get_op(left_tree)->arity == 0)
+    {
+        if (!is_constant)
+        {
+            whisper("Added constant. Note: constants don't require a parameter list.\n");
+        }
+        else
+        {
+            whisper("Added constant.\n");
+        }
+    }
+    else
+    {
+        whisper("Added function.\n");
+    }
+    
+    return true;
+
+    error:
+    ctx_delete_op(g_ctx, name, OP_PLACE_FUNCTION);
+    free_tree(left_tree);
+    free_tree(right_tree);
+    free(name);
+    return false;
+}
+
+/*
+Summary: Adds a new function symbol to context and adds a new rule to substitute function with its right hand side
+*/
+bool cmd_definition_exec(char *input, __attribute__((unused)) int code)
+{   
+    // Overwrite first char of operator to make function definition a proper string
+    char *right_input = strstr(input, DEFINITION_OP);
+    *right_input = '\0';
+    right_input += strlen(DEFINITION_OP);
+    
+    // Tokenize function definition to get its name. Name is first token.
+    Vector tokens = tokenize(input, &g_ctx->keywords_trie);
+    
+    // Function name is first token that is not a space
+    char *name = NULL;
+    size_t non_space_tokens = 0;
+    for (size_t i = 0; i < vec_count(&tokens); i++)
+    {
+        char *token = *(char**)vec_get(&tokens, i);
+        if (is_space(token[0]))
+        {
+            free(token);
+        }
+        else
+        {
+            non_space_tokens++;
+            if (name == NULL)
+            {
+                name = token;
+            }
+            else
+            {
+                free(token);
+            }
+        }
+    }
+
+    vec_destroy(&tokens);
+
+    if (name == NULL)
+    {
+        report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+        return false;
+    }
+    else
+    {
+        if (!is_letter(name[0]))
+        {
+            free(name);
+            report_error_at(0, strlen(input), ERR_NOT_A_FUNC);
+            return false;
+        }
+        else
+        {
+            return add_function(name, input, right_input, non_space_tokens == 1);
+        }
+    }
+}
diff --git a/src/util/console_util.c b/src/util/console_util.c
index 6dd26c7..92d1da8 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -1,208 +1,208 @@
-#define _GNU_SOURCE
-#include <stdarg.h>
-#include <stdio.h>
-#include <string.h>
-#ifdef USE_READLINE
-#include <readline/readline.h>
-#include <readline/history.h>
-#endif
-
-#include "console_util.h"
-#include "string_builder.h"
-
-bool interactive;
-
-void unload_console_util()
-{
-#ifdef USE_READLINE
-    rl_clear_history();
-#endif
-}
-
-void init_console_util()
-{
-    interactive = false;
-#ifdef USE_READLINE
-    // Disable tab completion
-    rl_bind_key('\t', rl_insert);
-#endif
-}
-
-/*
-Summary: Sets interactive mode
-    When true, whispered messages are displayed and readline instead of getline is used to read input
-*/
-bool set_interactive(bool value)
-{
-    bool res = interactive;
-    interactive = value;
-    return res;
-}
-
-bool is_interactive()
-{
-    return interactive;
-}
-
-/*
-Summary: printf-wrapper that filters unimportant prints in non-interactive mode
-*/
-void whisper(const char *format, ...)
-{
-    if (interactive)
-    {
-        va_list args;
-        va_start(args, format);
-        vprintf(format, args);
-        va_end(args);
-    }
-}
-
-bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (interactive && prompt_fmt != NULL)
-    {
-        vprintf(prompt_fmt, args);
-    }
-    
-    size_t size;
-    *out_input = NULL;
-    if (getline(out_input, &size, file) == EOF)
-    {
-        free(*out_input);
-        *out_input = NULL;
-        return false;
-    }
-
-    // Overwrite newline char (the last line may end without one)
-    size_t length = strlen(*out_input);
-    if (length > 0 && (*out_input)[length - 1] == '\n')
-    {
-        (*out_input)[length - 1] = '\0';
-    }
-    return true;
-}
-
-
-/*
-Summary: Used whenever input is requested. Prompt is only printed when interactive.
-Params
-    prompt: Prompt to display when interactive
-    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
-    out_input: Pointer to string that will be read. String must be free'd after use.
-*/
-#ifdef USE_READLINE
-
-// File is stdin, interactive is true
-bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
-{
-    if (prompt_fmt != NULL)
-    {
-        Vector strbuilder = strbuilder_create(3);
-        vstrbuilder_append(&strbuilder, prompt_fmt, args);
-        *out_input = readline(strbuilder.buffer);
-        vec_destroy(&strbuilder);
-    }
-    else
-    {
-        *out_input = readline(NULL);
-    }
-
-    if (*out_input == NULL)
-    {
-        return false;
-    }
-    add_history(*out_input);
-    return true;
-}
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    // Use readline when interactive
-    if (interactive)
-    {
-        return ask_input_readline(out_input, prompt_fmt, args);
-    }
-    else
-    {
-        return ask_input_getline(file, out_input, prompt_fmt, args);
-    }
-}
-
-#else
-
-bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
-{
-    return ask_input_getline(file, out_input, prompt_fmt, args);
-}
-
-#endif
-
-bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
-{
-    va_list args;
-    va_start(args, prompt_fmt);
-    bool res;
-    res = vask_input(file, out_input, prompt_fmt, args);
-    va_end(args);
-    return res;
-}
-
-void report_error(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-}
-
-void software_defect(const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-    fprintf(stderr, "Software defect: ");
-    vfprintf(stderr, fmt, args);
-    va_end(args);
-    exit(EXIT_FAILURE);
-}
-
-void report_error_at(int pos, int length, const char *fmt, ...)
-{
-    va_list args;
-    va_start(args, fmt);
-
-    if (is_interactive())
-    {
-        int msg_len = vsnprintf(NULL, 0, fmt, args);
-        va_end(args);
-        va_start(args, fmt);
-        if (pos - msg_len > 0) // Left of error token
-        {
-            report_error("%*s", pos - msg_len - 1, "");
-            vfprintf(stderr, fmt, args);
-            report_error(" ");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error("^");
-        }
-        else // Right of error token
-        {
-            report_error("%*s^", pos, "");
-            for (int i = 0; i < length - 1; i++)
-            {
-                report_error("~");
-            }
-            report_error(" ");
-            vfprintf(stderr, fmt, args);
-        }
-    }
-    else
-    {
-        vfprintf(stderr, fmt, args);
-    }
-
-    report_error("\n");
-    va_end(args);
-}
+#define _GNU_SOURCE
+#include <stdarg.h>
+#include <stdio.h>
+#include <string.h>
+#ifdef USE_READLINE
+#include <readline/readline.h>
+#include <readline/history.h>
+#endif
+
+#include "console_util.h"
+#include "string_builder.h"
+
+bool interactive;
+
+void unload_console_util()
+{
+#ifdef USE_READLINE
+    rl_clear_history();
+#endif
+}
+
+void init_console_util()
+{
+    interactive = false;
+#ifdef USE_READLINE
+    // Disable tab completion
+    rl_bind_key('\t', rl_insert);
+#endif
+}
+
+/*
+Summary: Sets interactive mode
+    When true, whispered messages are displayed and readline instead of getline is used to read input
+*/
+bool set_interactive(bool value)
+{
+    bool res = interactive;
+    interactive = value;
+    return res;
+}
+
+bool is_interactive()
+{
+    return interactive;
+}
+
+/*
+Summary: printf-wrapper that filters unimportant prints in non-interactive mode
+*/
+void whisper(const char *format, ...)
+{
+    if (interactive)
+    {
+        va_list args;
+        va_start(args, format);
+        vprintf(format, args);
+        va_end(args);
+    }
+}
+
+bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (interactive && prompt_fmt != NULL)
+    {
+        vprintf(prompt_fmt, args);
+    }
+    
+    size_t size;
+    *out_input = NULL;
+    if (getline(out_input, &size, file) == EOF)
+    {
+        free(*out_input);
+        *out_input = NULL;
+        return false;
+    }
+
+    // Overwrite newline char (the last line may end without one)
+    size_t length = strlen(*out_input);
+    if (length > 0 && (*out_input)[length - 1] == '\n')
+    {
+        (*out_input)[length - 1] = '\0';
+    }
+    return true;
+}
+
+
+/*
+Summary: Used whenever input is requested. Prompt is only printed when interactive.
+Params
+    prompt: Prompt to display when interactive
+    file: Used when not interactive - should be stdin when arguments are piped in or file when load command is used
+    out_input: Pointer to string that will be read. String must be free'd after use.
+*/
+#ifdef USE_READLINE
+
+// File is stdin, interactive is true
+bool ask_input_readline(char **out_input, const char *prompt_fmt, va_list args)
+{
+    if (prompt_fmt != NULL)
+    {
+        Vector strbuilder = strbuilder_create(3);
+        vstrbuilder_append(&strbuilder, prompt_fmt, args);
+        *out_input = readline(strbuilder.buffer);
+        vec_destroy(&strbuilder);
+    }
+    else
+    {
+        *out_input = readline(NULL);
+    }
+
+    if (*out_input == NULL)
+    {
+        return false;
+    }
+    add_history(*out_input);
+    return true;
+}
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    // Use readline when interactive
+    if (interactive)
+    {
+        return ask_input_readline(out_input, prompt_fmt, args);
+    }
+    else
+    {
+        return ask_input_getline(file, out_input, prompt_fmt, args);
+    }
+}
+
+#else
+
+bool vask_input(FILE *file, char **out_input, const char *prompt_fmt, va_list args)
+{
+    return ask_input_getline(file, out_input, prompt_fmt, args);
+}
+
+#endif
+
+bool ask_input(FILE *file, char **out_input, const char *prompt_fmt, ...)
+{
+    va_list args;
+    va_start(args, prompt_fmt);
+    bool res;
+    res = vask_input(file, out_input, prompt_fmt, args);
+    va_end(args);
+    return res;
+}
+
+void report_error(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+}
+
+void software_defect(const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+    fprintf(stderr, "Software defect: ");
+    vfprintf(stderr, fmt, args);
+    va_end(args);
+    exit(EXIT_FAILURE);
+}
+
+void report_error_at(int pos, int length, const char *fmt, ...)
+{
+    va_list args;
+    va_start(args, fmt);
+
+    if (is_interactive())
+    {
+        int msg_len = vsnprintf(NULL, 0, fmt, args);
+        va_end(args);
+        va_start(args, fmt);
+        if (pos - msg_len > 0) // Left of error token
+        {
+            report_error("%*s", pos - msg_len - 1, "");
+            vfprintf(stderr, fmt, args);
+            report_error(" ");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error("^");
+        }
+        else // Right of error token
+        {
+            report_error("%*s^", pos, "");
+            for (int i = 0; i < length - 1; i++)
+            {
+                report_error("~");
+            }
+            report_error(" ");
+            vfprintf(stderr, fmt, args);
+        }
+    }
+    else
+    {
+        vfprintf(stderr, fmt, args);
+    }
+
+    report_error("\n");
+    va_end(args);
+}
-- 
2.43.0

