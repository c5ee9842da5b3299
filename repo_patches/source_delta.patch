From c8d2914d21f05dea7783a4a3861b90738dc8f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:06 +0000
Subject: [PATCH 01/37] fix: report delimiter within nested parentheses instead
 of dereferencing NULL

---
 src/engine/parsing/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index faf3a6c..16b416b 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -277,7 +277,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             if (vec_count(&state.vec_ops) > 1)
             {
                 struct OpData *op_data = ((struct OpData*)vec_get(&state.vec_ops, vec_count(&state.vec_ops) - 2));
-                if (op_data->op->placement == OP_PLACE_FUNCTION)
+                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION)
                 {
                     op_data->arity++;
                 }
-- 
2.43.0


From b5302b9dc6a36da0a588f2d71af49531106705d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:06 +0000
Subject: [PATCH 02/37] fix: reject definitions whose right-hand side cannot be
 simplified

---
 src/client/commands/cmd_definition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index af466aa..f78014e 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -145,7 +145,7 @@ static bool add_function(char *name, char *left, char *right, bool is_constant)
 
     // Since right expression was parsed raw to detect recursive definitions, do post processing
     right_tree = arith_simplify(&right_result, (size_t)(right - left));
-    if (left_tree == NULL)
+    if (right_tree == NULL)
     {
         goto error;
     }
-- 
2.43.0


From 6a10bff6c4f73e83ba8e9f80be63b64884c88cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:06 +0000
Subject: [PATCH 03/37] fix: do not accept list variables as function
 parameters

---
 src/client/commands/cmd_definition.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/commands/cmd_definition.c b/src/client/commands/cmd_definition.c
index f78014e..ed8a255 100644
--- a/src/client/commands/cmd_definition.c
+++ b/src/client/commands/cmd_definition.c
@@ -41,7 +41,9 @@ static bool do_left_checks(Node *left_n, int strlen)
     {
         for (size_t i = 0; i < num_children; i++)
         {
-            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE)
+            // List variables are reserved for rulesets, a parameter is exactly one expression
+            if (get_type(get_child(left_n, i)) != NTYPE_VARIABLE
+                || get_var_name(get_child(left_n, i))[0] == MATCHING_LIST_PREFIX)
             {
                 report_error_at(0, strlen, ERR_ARGS_NOT_VARS);
                 return false;
-- 
2.43.0


From b9b35b545e47c15627a2999be55afb6610d4063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:06 +0000
Subject: [PATCH 04/37] fix: keep operator IDs unique after an operator has
 been deleted

---
 src/engine/parsing/context.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 85309ea..6cb1276 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -94,7 +94,8 @@ const Operator *ctx_add_op(ParsingContext *ctx, Operator op)
     }
     
     // Successfully passed the checks
-    op.id = list_count(&ctx->op_list);
+    // Operators are appended with increasing IDs, the ID following the last one is free even if operators got deleted
+    op.id = (ctx->op_list.last != NULL) ? ((Operator*)listnode_get_data(ctx->op_list.last))->id + 1 : 0;
     ListNode *list_node = list_append(&ctx->op_list, &op);
     TRIE_ADD_ELEM(&ctx->op_tries[op.placement], op.name, ListNode*, list_node);
     trie_add_str(&ctx->keywords_trie, op.name);
-- 
2.43.0


From 8d6cac9dbf2e5a7a8c78d2609e4ba4f5366b8d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:06 +0000
Subject: [PATCH 05/37] fix: deleting an operator keeps the keyword of its
 namesakes and resets the glue-op

---
 src/engine/parsing/context.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/context.c b/src/engine/parsing/context.c
index 6cb1276..6060aaa 100644
--- a/src/engine/parsing/context.c
+++ b/src/engine/parsing/context.c
@@ -111,9 +111,16 @@ bool ctx_delete_op(ParsingContext *ctx, const char *name, OpPlacement placement)
     ListNode **node = NULL;
     if (trie_contains(&ctx->op_tries[placement], name, (void**)&node))
     {
+        if (ctx->glue_op == (const Operator*)listnode_get_data(*node)) ctx->glue_op = NULL;
         list_delete_node(&ctx->op_list, *node);
-        trie_remove_str(&ctx->keywords_trie, name);
         trie_remove_str(&ctx->op_tries[placement], name);
+
+        // Name remains a keyword as long as there is an operator of same name but different placement
+        for (size_t i = 0; i < OP_NUM_PLACEMENTS; i++)
+        {
+            if (ctx_lookup_op(ctx, name, i) != NULL) return true;
+        }
+        trie_remove_str(&ctx->keywords_trie, name);
         return true;
     }
     else
-- 
2.43.0


From 14ac86aa1c767fd505182d22fc6248fbef7af7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:06 +0000
Subject: [PATCH 06/37] fix: do not lose characters when a keyword begins
 within a number

---
 src/engine/parsing/tokenizer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/parsing/tokenizer.c b/src/engine/parsing/tokenizer.c
index 1701bbe..1bafef1 100644
--- a/src/engine/parsing/tokenizer.c
+++ b/src/engine/parsing/tokenizer.c
@@ -72,8 +72,10 @@ Vector tokenize(const char *input, const Trie *keywords_trie)
             size_t keyword_len = trie_longest_prefix(keywords_trie, input + i, NULL);
             if (keyword_len > 0)
             {
+                // Keyword can begin within a number
+                push_token(input + next_token_start, i - next_token_start, &res);
                 push_token(input + i, keyword_len, &res);
-                next_token_start += keyword_len;
+                next_token_start = i + keyword_len;
                 i += keyword_len - 1;
                 next_state = TOKSTATE_NEW;
             }
-- 
2.43.0


From 9cd6f805bc438d06ab0ea379fd8ffa23d553916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:06 +0000
Subject: [PATCH 07/37] fix: do not cut off the last character of a file
 without trailing newline

---
 src/engine/transformation/rule_parsing.c | 2 +-
 src/util/console_util.c                  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index a1bcc73..eaebc1b 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -197,7 +197,7 @@ ssize_t parse_rulesets_from_file(FILE *file,
         line_index++;
         char *line = line_start;
 
-        line[strlen(line) - 1] = '\0'; // Overwrite newline char
+        line[strcspn(line, "\n")] = '\0'; // Overwrite newline char (if any)
         char *comment_start = strstr(line, COMMENT_PREFIX);
         if (comment_start != NULL) *comment_start = '\0'; // Prune comments from the right
         while (*line == ' ') line++; // Strip leading spaces
diff --git a/src/util/console_util.c b/src/util/console_util.c
index 7234999..6f5788b 100644
--- a/src/util/console_util.c
+++ b/src/util/console_util.c
@@ -74,8 +74,8 @@ bool ask_input_getline(FILE *file, char **out_input, const char *prompt_fmt, va_
         return false;
     }
 
-    // Overwrite newline char
-    (*out_input)[strlen(*out_input) - 1] = '\0';
+    // Overwrite newline char (last line does not need to have one)
+    (*out_input)[strcspn(*out_input, "\n")] = '\0';
     return true;
 }
 
-- 
2.43.0


From 372934cc117c91263b00be0376d816868d43c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:29 +0000
Subject: [PATCH 08/37] fix: do not leave an uninitialized rule in the ruleset
 when a rule is malformed

---
 src/engine/transformation/rule_parsing.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index eaebc1b..e9eeea4 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -218,11 +218,13 @@ ssize_t parse_rulesets_from_file(FILE *file,
 
         if (curr_ruleset != -1)
         {
-            if (!parse_rule(line, ctx, vec_push_empty(&out_rulesets[curr_ruleset])))
+            RewriteRule rule;
+            if (!parse_rule(line, ctx, &rule))
             {
                 report_error("Error occurred in line %zu: %s.\n", line_index, line);
                 goto error;
             }
+            add_to_ruleset(&out_rulesets[curr_ruleset], rule);
         }
         else
         {
-- 
2.43.0


From b303cd386e0c7db19025f09f481e97caa27dcf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:29 +0000
Subject: [PATCH 09/37] fix: reject rules with too many constraints instead of
 dropping some of them

---
 src/engine/transformation/rule_parsing.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index e9eeea4..a141373 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -63,11 +63,14 @@ bool parse_constraints(const char *string,
         out_constraints[*num_constraints] = parse_easy(ctx, str);
         if (out_constraints[*num_constraints] == NULL) goto error;
         (*num_constraints)++;
-        if (*num_constraints == buffer_size) goto success;
         str = next_and;
+        if (str != NULL && *num_constraints == buffer_size)
+        {
+            report_error("Trying to preprocess a pattern with too many constraints. Increase MATCHING_MAX_CONSTRAINTS.\n");
+            goto error;
+        }
     }
 
-    success:
     free(str_cpy);
     return true;
     error:
-- 
2.43.0


From 3dfbcfa8a835e9184b601a5d26a0a825d4634955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:29 +0000
Subject: [PATCH 10/37] fix: failed "load simplification" reports failure,
 leaks nothing and keeps the loaded rulesets

---
 src/client/commands/cmd_load.c             |  6 +++++-
 src/client/simplification/simplification.c | 25 ++++++++++++++++------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/client/commands/cmd_load.c b/src/client/commands/cmd_load.c
index 6098053..5ae30c9 100644
--- a/src/client/commands/cmd_load.c
+++ b/src/client/commands/cmd_load.c
@@ -25,13 +25,17 @@ bool cmd_load_exec(char *input, __attribute__((unused)) int code)
     if (begins_with(LOAD_SIMPLIFICATION, input))
     {
         input += strlen(LOAD_SIMPLIFICATION);
-        unload_simplification();
         ssize_t count = init_simplification(input);
         if (count == -1)
         {
             report_error("File not found or readable\n");
             return false;
         }
+        else if (count < 0)
+        {
+            // Malformed file, parser already reported error
+            return false;
+        }
         else
         {
             whisper("Successfully loaded simplification (%ld rules)\n", count);
diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 79acbb8..2ad1a89 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -77,21 +77,32 @@ ssize_t init_simplification(const char *ruleset_path)
 
     if (ruleset_file == NULL) return -1;
 
+    Vector new_rulesets[NUM_RULESETS];
     for (size_t i = 0; i < NUM_RULESETS; i++)
     {
-        rulesets[i] = get_empty_ruleset();
+        new_rulesets[i] = get_empty_ruleset();
     }
-    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, rulesets);
-    if (num_rulesets == -1)
+    ssize_t num_rulesets = parse_rulesets_from_file(ruleset_file, g_propositional_ctx, NUM_RULESETS, new_rulesets);
+    fclose(ruleset_file);
+    if (num_rulesets != NUM_RULESETS)
     {
+        if (num_rulesets != -1)
+        {
+            report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
+        }
+        for (size_t i = 0; i < NUM_RULESETS; i++)
+        {
+            free_ruleset(&new_rulesets[i]);
+        }
         return -2;
     }
-    if (num_rulesets != NUM_RULESETS)
+
+    // Replace previously loaded rulesets only after the new ones have been read successfully
+    unload_simplification();
+    for (size_t i = 0; i < NUM_RULESETS; i++)
     {
-        report_error("Too few simplification rulesets defined in %s.\n", ruleset_path);
-        return -2;
+        rulesets[i] = new_rulesets[i];
     }
-    fclose(ruleset_file);
 
     get_pattern(P("x'"), 0, NULL, &deriv_before);
     deriv_after = P("deriv(x, z)");
-- 
2.43.0


From a2693754796238e9c770b160dfb5262371d2dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:29 +0000
Subject: [PATCH 11/37] fix: loading a simplification does not depend on
 user-defined constants

---
 src/client/simplification/simplification.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 2ad1a89..648df21 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -17,7 +17,7 @@
 #include "propositional_context.h"
 #include "propositional_evaluation.h"
 
-#define P(x) (parse_easy(g_ctx, x))
+#define P(x) (parse_easy(g_propositional_ctx, x))
 #define NUM_RULESETS 7
 
 /*
@@ -104,6 +104,7 @@ ssize_t init_simplification(const char *ruleset_path)
         rulesets[i] = new_rulesets[i];
     }
 
+    // User might have defined x or z, hence do not use arithmetic context here
     get_pattern(P("x'"), 0, NULL, &deriv_before);
     deriv_after = P("deriv(x, z)");
     parse_pattern("deriv(x, y) WHERE type(y) != VAR", g_propositional_ctx, &malformed_deriv);
-- 
2.43.0


From 43b7a67813a3e6439178d4733570d147493a2842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:09 +0000
Subject: [PATCH 12/37] fix: surplus rulesets in a ruleset file do not overflow
 the buffer

---
 src/engine/transformation/rule_parsing.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index a141373..e4b841d 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -207,16 +207,11 @@ ssize_t parse_rulesets_from_file(FILE *file,
 
         if (begins_with(RULESET, line))
         {
+            if (curr_ruleset + 1 == (ssize_t)buffer_size) break; // Buffer is full
             curr_ruleset++;
             continue;
         }
 
-        if (curr_ruleset == (ssize_t)buffer_size)
-        {
-            curr_ruleset--; // Adjusted for right return value
-            break;          // Buffer is full
-        }
-
         if (line[0] == '\0') continue;
 
         if (curr_ruleset != -1)
-- 
2.43.0


From 2c862e40f88cab2e7f2ea1095ec382e727af85b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:09 +0000
Subject: [PATCH 13/37] fix: do not leak parts of a malformed pattern

---
 src/engine/transformation/rule_parsing.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/rule_parsing.c b/src/engine/transformation/rule_parsing.c
index e4b841d..1bbae47 100644
--- a/src/engine/transformation/rule_parsing.c
+++ b/src/engine/transformation/rule_parsing.c
@@ -93,12 +93,13 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
         *where_pos = '\0';
         where_pos += strlen(WHERE);
     }
+    Node *pattern = NULL;
     if (!parse_constraints(where_pos, ctx, &num_constrs, constrs))
     {
         goto error;
     }
 
-    Node *pattern = parse_easy(ctx, str); // Gives error message
+    pattern = parse_easy(ctx, str); // Gives error message
     if (pattern == NULL)
     {
         goto error;
@@ -115,6 +116,8 @@ bool parse_pattern(const char *string, const ParsingContext *ctx, Pattern *out_p
 
     error:
     free(str_cpy);
+    free_tree(pattern);
+    for (size_t i = 0; i < num_constrs; i++) free_tree(constrs[i]);
     return false;
 }
 
-- 
2.43.0


From 8074ce8885a373316607400993109942859d146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:09 +0000
Subject: [PATCH 14/37] fix: add negative results to history when
 simplification is loaded

---
 src/client/commands/cmd_evaluation.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client/commands/cmd_evaluation.c b/src/client/commands/cmd_evaluation.c
index ade09af..5de8ca7 100644
--- a/src/client/commands/cmd_evaluation.c
+++ b/src/client/commands/cmd_evaluation.c
@@ -26,9 +26,11 @@ bool cmd_evaluation_exec(char *input, __attribute__((unused)) int code)
     whisper("= ");
     print_tree(node, false);
     printf("\n");
-    if (get_type(node) == NTYPE_CONSTANT)
+    // Negative results are simplified to a prefix operator
+    double value;
+    if (tree_reduce(node, arith_op_evaluate, &value, NULL) == LISTENERERR_SUCCESS)
     {
-        history_add(get_const_value(node));
+        history_add(value);
     }
     free_tree(node);
     return true;
-- 
2.43.0


From 4b846713c0823732a42b9cefb1fbda4ee9a86e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:09 +0000
Subject: [PATCH 15/37] fix: powers of negative numbers are complex iff
 exponent is not an integer

---
 src/client/core/arith_evaluation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 5210760..80b5a2c 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -154,7 +154,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             }
         case 8: // x^y
             if (args[0] == 0 && args[1] <= 0) return LISTENERERR_DIVISION_BY_ZERO;
-            if (args[0] < 0 && args[1] < 1) return LISTENERERR_COMPLEX_SOLUTION;
+            if (args[0] < 0 && args[1] != trunc(args[1])) return LISTENERERR_COMPLEX_SOLUTION;
             *out = pow(args[0], args[1]);
             return LISTENERERR_SUCCESS;
         case 9: // x C y
-- 
2.43.0


From f3e55e7e339666d6141961a3d45f79813d6428d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:09 +0000
Subject: [PATCH 16/37] fix: gcd, lcm, fib, binomial and factorial terminate
 for every argument, n C k is 0 for k > n

---
 src/client/core/arith_evaluation.c | 56 ++++++++++++++----------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/src/client/core/arith_evaluation.c b/src/client/core/arith_evaluation.c
index 80b5a2c..abb7e4e 100644
--- a/src/client/core/arith_evaluation.c
+++ b/src/client/core/arith_evaluation.c
@@ -33,25 +33,15 @@ static double euclid(double a, double b)
     a = fabs(trunc(a));
     b = fabs(trunc(b));
 
-    if (a == 0)
+    if (!isfinite(a) || !isfinite(b)) return NAN;
+
+    while (b != 0)
     {
-        return b;
-    }
-    else
-    {
-        while (b != 0)
-        {
-            if (a > b)
-            {
-                a = a - b;
-            }
-            else
-            {
-                b = b - a;
-            }
-        }
-        return a;
+        double remainder = fmod(a, b);
+        a = b;
+        b = remainder;
     }
+    return a;
 }
 
 static double binomial(double n, double k)
@@ -60,10 +50,11 @@ static double binomial(double n, double k)
     k = fabs(trunc(k));
 
     if (k == 0) return 1;
+    if (k > n) return 0;
     if ((2 * k) > n) k = n - k;
     
     double res = 1;
-    for (double i = 1; i <= k; i++)
+    for (double i = 1; i <= k && isfinite(res); i++)
     {
         res = (res * (n - k + i)) / i;
     }
@@ -71,31 +62,36 @@ static double binomial(double n, double k)
     return res;
 }
 
-static long fib(long n)
+static double fib(double n)
 {
-    if (n == 0) return 0;
-    if (n == 1) return 1;
-    if (n == -1) return 1;
-    return fib(n - 1) + fib(n - 2); 
+    double res = 0;
+    double next = 1;
+    for (double i = 0; i < n && isfinite(res); i++)
+    {
+        double sum = res + next;
+        res = next;
+        next = sum;
+    }
+    return res;
 }
 
 static double fibonacci(double n)
 {
-    long l = (long)n;
-    if (l < 0) // Generalization to negative numbers
+    n = trunc(n);
+    if (n < 0) // Generalization to negative numbers
     {
-        if (l % 2 == 0)
+        if (fmod(n, 2) == 0)
         {
-            return -fib(labs(l));
+            return -fib(fabs(n));
         }
         else
         {
-            return fib(labs(l));
+            return fib(fabs(n));
         }
     }
     else
     {
-        return fib(l);
+        return fib(n);
     }
 }
 
@@ -178,7 +174,7 @@ ListenerError arith_op_evaluate(const Operator *op, size_t num_args, const doubl
             else
             {
                 double res = 1;
-                for (double i = trunc(args[0]); i > 1; i--)
+                for (double i = trunc(args[0]); i > 1 && isfinite(res); i--)
                 {
                     res *= i;
                 }
-- 
2.43.0


From 64c35664a6dbf3055ea4c2886f555c063ae14435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:09 +0000
Subject: [PATCH 17/37] fix: table command terminates when step is too small to
 make a difference

---
 src/client/commands/cmd_table.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/client/commands/cmd_table.c b/src/client/commands/cmd_table.c
index ec0375a..3d1baf9 100644
--- a/src/client/commands/cmd_table.c
+++ b/src/client/commands/cmd_table.c
@@ -112,6 +112,13 @@ bool cmd_table_exec(char *input, __attribute__((unused)) int code)
         goto exit;
     }
 
+    // Step that vanishes next to start or end would never reach the end
+    if (start_val + step_val == start_val || end_val + step_val == end_val)
+    {
+        report_error_at(args[3] - input, strlen(args[3]), "Error: 'step' is too small\n");
+        goto exit;
+    }
+
     // Optionally: Parse part of command after "fold"
     double fold_val = 0;
     if (num_args == 6)
-- 
2.43.0


From 5e1221b0419bbae4bc2353e76829670745fdbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:09 +0000
Subject: [PATCH 18/37] fix: strip does not write before a string that consists
 of spaces

---
 src/util/string_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index 0636a00..d7304ed 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -149,7 +149,7 @@ char *strip(char *str)
     char *res = str;
     while (*res == ' ') res++;
     str = &str[len - 1];
-    while (*str == ' ')
+    while (str > res && *str == ' ')
     {
         *str = '\0';
         str--;
-- 
2.43.0


From 0209a5fc74d607fb78684a00cf22b71537258a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:58 +0000
Subject: [PATCH 19/37] fix: simplification keeps the remaining factors when
 multiplying out a power

---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index e2732be..3a9a36a 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -130,7 +130,7 @@ RULESET
     prod([xs], x^y, [ys], x, [zs])   -> prod([xs], x^sum(y,1), [ys], [zs])
     prod([xs], x^z, [ys], x^y, [zs]) -> prod([xs], x^sum(y,z), [ys], [zs])
 
-    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), x^sum(y,z))
+    prod([xs], sum([xxs], x^y, [yys]), [ys], x^z, [zs]) -> sum(prod([xs], sum([xxs], [yys]), [ys], x^z, [zs]), prod([xs], [ys], [zs], x^sum(y,z)))
 
     # Trigonometrics
     sum([xs], cos(x)^2, [ys], sin(x)^2, [zs])   -> sum(1, [xs], [ys], [zs])
-- 
2.43.0


From 14f9480ef5446b9bc7e28a5ebbb7dfb27b4355ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:58 +0000
Subject: [PATCH 20/37] fix: simplification negates both summands of a negated
 sum

---
 simplification.ruleset | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simplification.ruleset b/simplification.ruleset
index 3a9a36a..43dfaff 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -176,7 +176,7 @@ RULESET
     x^(-y)        -> 1/(x^y)
     x^0.5         -> sqrt(x)
     x^1           -> x
-    -(x+y)        -> x-y
+    -(x+y)        -> -x-y
     (-1)*x        -> -x
 
     x*(y/z)       -> (y*x)/z       WHERE type(y) == CONST
-- 
2.43.0


From a9c103608fdedee8f685846f1ef015decb7ce10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:45 +0000
Subject: [PATCH 21/37] fix: find lines of strings that begin with a line break

---
 src/util/string_util.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index d7304ed..a5934d7 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -94,26 +94,19 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
     }
 
     // Search for start of line
-    if (line_index > 0)
+    while (line_index > 0 && *string != '\0')
     {
-        while (*string != '\0')
+        if (*string == '\n')
         {
-            string++;
-            if (*string == '\n')
-            {
-                line_index--;
-                if (line_index == 0)
-                {
-                    string++;
-                    break;
-                }
-            }
+            line_index--;
         }
+        string++;
     }
 
     // String does not have that much lines
     if (line_index != 0)
     {
+        *out_start = NULL;
         return 0;
     }
 
-- 
2.43.0


From 03172f295399aab04f921e603031f135e2f5984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:45 +0000
Subject: [PATCH 22/37] fix: skip consecutive and incomplete ANSI escape
 sequences

---
 src/util/string_util.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index a5934d7..f71ad0c 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -123,13 +123,14 @@ size_t get_line_of_string(const char *string, size_t line_index, char **out_star
 
 char *skip_ansi(const char *str)
 {
-    if (*str == ESC_START)
+    // Sequences may directly follow each other, last one may be incomplete
+    while (*str == ESC_START)
     {
-        while (*str != ESC_END)
+        while (*str != ESC_END && *str != '\0')
         {
             str++;
         }
-        str++;
+        if (*str == ESC_END) str++;
     }
     return (char*)str;
 }
-- 
2.43.0


From 02e239f83798f48c4fdcff6839706c927a867c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:45 +0000
Subject: [PATCH 23/37] fix: end variable argument list in str_split

---
 src/util/string_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/string_util.c b/src/util/string_util.c
index f71ad0c..416b0a1 100644
--- a/src/util/string_util.c
+++ b/src/util/string_util.c
@@ -80,6 +80,7 @@ size_t str_split(char *str, char **out_strs, size_t num_delimiters, ...)
         }
     }
 
+    va_end(args);
     out_strs[res - 1] = str;
     return res;
 }
-- 
2.43.0


From 411600aaae9c0d02987b5a53983d130bd10d14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:45 +0000
Subject: [PATCH 24/37] fix: width of spanning table cells considers the
 borders they span over

---
 src/table/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table/table.c b/src/table/table.c
index 8c11ce9..c5f4b51 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -235,7 +235,7 @@ static size_t get_total_width(const Table *table, const size_t *col_widths, stru
     size_t sum = 0;
     for (size_t i = 0; i < cell->span_x; i++)
     {
-        if (i != 0 && table->border_left_counters[cell->x + i + 1] > 0) sum++;
+        if (i != 0 && table->border_left_counters[cell->x + i] > 0) sum++;
         sum += col_widths[cell->x + i];
     }
     return sum;
-- 
2.43.0


From 56a6a383c1caa75e660b27f84f7b8be97d40bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:45 +0000
Subject: [PATCH 25/37] fix: truncate clashing spans of table cells to the free
 cells

---
 src/table/table.c | 49 +++++++++++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/table/table.c b/src/table/table.c
index c5f4b51..06ba40f 100644
--- a/src/table/table.c
+++ b/src/table/table.c
@@ -950,41 +950,40 @@ void set_span(Table *table, size_t span_x, size_t span_y)
     assert(cell->span_x == 1);
     assert(cell->span_y == 1);
 
-    cell->span_x = span_x;
-    cell->span_y = span_y;
-    table->num_cols = MAX(table->curr_col + span_x, table->num_cols);
-
     // Inserts rows and sets child cells
     struct Row *row = table->curr_row;
     for (size_t i = 0; i < span_y; i++)
     {
+        // When span clashes with already set cell, truncate it to the free cells
+        size_t num_free = (i == 0 ? 1 : 0);
+        while (num_free < span_x && !row->cells[cell->x + num_free].is_set) num_free++;
+        if (num_free < span_x)
+        {
+            if (i != 0)
+            {
+                span_y = i;
+                break;
+            }
+            span_x = num_free;
+        }
+
         for (size_t j = 0; j < span_x; j++)
         {
             if (i == 0 && j == 0) continue;
             struct Cell *child = &row->cells[cell->x + j];
 
-            if (!child->is_set)
+            child->is_set = true;
+            child->parent = cell;
+
+            if (j != 0)
             {
-                child->is_set = true;
-                child->parent = cell;
-                
-                if (j != 0)
-                {
-                    child->border_left = BORDER_NONE;
-                    child->override_border_left = true;
-                }
-                if (i != 0)
-                {
-                    child->border_above = BORDER_NONE;
-                    child->override_border_above = true;
-                }
+                child->border_left = BORDER_NONE;
+                child->override_border_left = true;
             }
-            else
+            if (i != 0)
             {
-                // Span clashes with already set cell, truncate it and finalize method
-                cell->span_y = i;
-                cell->span_x = j;
-                return;
+                child->border_above = BORDER_NONE;
+                child->override_border_above = true;
             }
         }
 
@@ -997,6 +996,10 @@ void set_span(Table *table, size_t span_x, size_t span_y)
             row = row->next_row;
         }
     }
+
+    cell->span_x = span_x;
+    cell->span_y = span_y;
+    table->num_cols = MAX(table->curr_col + span_x, table->num_cols);
 }
 
 void set_all_vlines(Table *table, TableBorderStyle style)
-- 
2.43.0


From ab28c8503ff767c4c883c670c731fc5b8e1a4bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:45 +0000
Subject: [PATCH 26/37] fix: do not read beyond the parameters when matching a
 bound list

---
 src/engine/transformation/matching.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 5f7d6b2..3e23024 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -128,9 +128,14 @@ static void match_parameter_lists(
             {
                 // Current pattern-child is list-variable
                 NodeList *list = &matching.mapped_nodes[get_id(pattern_children[curr.distance])];
-                if (list->nodes != NULL && new_sum + 1 <= num_tree_children)
+                if (list->nodes != NULL)
                 {
                     // List is already bound, thus also its length is bound
+                    if (list->size > num_tree_children - new_sum)
+                    {
+                        curr_index++;
+                        continue;
+                    }
                     VEC_PUSH_ELEM(&vec_suffixes, SuffixNode, ((SuffixNode){
                         .first_match_index = SIZE_MAX,
                         .num_matchings     = 0,
-- 
2.43.0


From 969afb9020bdc2595af6a1f48ec4ddd0925e68a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:16 +0000
Subject: [PATCH 27/37] fix: check constraints of patterns without variables

---
 src/engine/transformation/matching.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/engine/transformation/matching.c b/src/engine/transformation/matching.c
index 3e23024..3af4298 100644
--- a/src/engine/transformation/matching.c
+++ b/src/engine/transformation/matching.c
@@ -309,7 +309,23 @@ size_t get_all_matchings(const Node **tree, const Pattern *pattern, ConstraintCh
         pattern->pattern,
         (NodeList){ .size = 1, .nodes = tree },
         &result);
-    
+
+    // Without any variable to bind, constraints have not been checked yet
+    if (vec_count(&result) > 0 && pattern->num_constraints[0] > 0 && count_all_variable_nodes(pattern->pattern) == 0)
+    {
+        for (size_t i = 0; i < pattern->num_constraints[0]; i++)
+        {
+            Node *constr_cpy = tree_copy(pattern->constraints[0][i]);
+            bool res = checker(&constr_cpy);
+            free_tree(constr_cpy);
+            if (!res)
+            {
+                vec_clear(&result);
+                break;
+            }
+        }
+    }
+
     if (out_matchings != NULL)
     {
         *out_matchings = (Matching*)result.buffer;
-- 
2.43.0


From 20c35d9ea1413719bb7550d58d0aa5ad3721a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:16 +0000
Subject: [PATCH 28/37] fix: constraint that can not be evaluated does not hold
 instead of terminating the program

---
 src/client/simplification/propositional_evaluation.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/client/simplification/propositional_evaluation.c b/src/client/simplification/propositional_evaluation.c
index 3a69afb..0e601c0 100644
--- a/src/client/simplification/propositional_evaluation.c
+++ b/src/client/simplification/propositional_evaluation.c
@@ -60,8 +60,7 @@ ListenerError prop_op_evaluate(const Operator *op, size_t num_args, const double
             return LISTENERERR_SUCCESS;
     }
 
-    software_defect("[Prop] No reduction possible for operator %s.\n", op->name);
-    return LISTENERERR_UNKNOWN_OP; // To make compiler happy
+    return LISTENERERR_UNKNOWN_OP; // Not reducible, e.g. count()
 }
 
 double equal_eval(__attribute__((unused)) size_t num_children, Node **children)
-- 
2.43.0


From 97f5f1c44f2b7777e9c1fd5e49480e09a4023920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:00 +0000
Subject: [PATCH 29/37] fix: function as glue-op consumes parameters and
 operands of other functions

---
 src/engine/parsing/parser.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 16b416b..3411c80 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -20,6 +20,7 @@ struct OpData
     const Operator *op; // Pointer to operator in context, NULL denotes opening parenthesis
     size_t arity;       // Records number of operands to pop
     size_t token;
+    bool is_glue;       // Glue-ops have no parameter list, even if they are functions
 };
 
 // Encapsulates current state of shunting-yard algo. to be communicated to auxiliary functions
@@ -46,6 +47,15 @@ struct OpData *op_peek(struct ParserState *state)
     return vec_peek(&state->vec_ops);
 }
 
+// Returns true if op_data belongs to a function whose parameter list is being parsed
+bool awaits_params(const struct OpData *op_data)
+{
+    return op_data != NULL
+        && op_data->op != NULL
+        && op_data->op->placement == OP_PLACE_FUNCTION
+        && !op_data->is_glue;
+}
+
 void node_push(struct ParserState *state, Node *node)
 {
     VEC_PUSH_ELEM(&state->vec_nodes, Node*, node);
@@ -101,7 +111,7 @@ bool op_push(struct ParserState *state, struct OpData op_d)
     if (op != NULL)
     {
         // Shunting-yard algorithm: Pop until operator of higher precedence or '(' is on top of stack 
-        if (op->placement == OP_PLACE_INFIX || op->placement == OP_PLACE_POSTFIX)
+        if (op->placement == OP_PLACE_INFIX || op->placement == OP_PLACE_POSTFIX || op_d.is_glue)
         {
             while (op_peek(state) != NULL
                 && op_peek(state)->op != NULL
@@ -125,11 +135,11 @@ bool push_operator(struct ParserState *state, const Operator *op)
 
     if (op->placement == OP_PLACE_FUNCTION)
     {
-        opData = (struct OpData){ op, 0, state->curr_tok };
+        opData = (struct OpData){ op, 0, state->curr_tok, false };
     }
     else
     {
-        opData = (struct OpData){ op, op->arity, state->curr_tok };
+        opData = (struct OpData){ op, op->arity, state->curr_tok, false };
     }
 
     return op_push(state, opData);
@@ -138,7 +148,7 @@ bool push_operator(struct ParserState *state, const Operator *op)
 // Pushes opening parenthesis on op_stack
 bool push_opening_parenthesis(struct ParserState *state)
 {
-    return op_push(state, (struct OpData){ NULL, OP_DYNAMIC_ARITY, state->curr_tok });
+    return op_push(state, (struct OpData){ NULL, OP_DYNAMIC_ARITY, state->curr_tok, false });
 }
 
 // out_res can be NULL if you only want to check if an error occurred
@@ -177,9 +187,8 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
                 && ctx_lookup_op(state.ctx, token, OP_PLACE_INFIX) == NULL
                 && ctx_lookup_op(state.ctx, token, OP_PLACE_POSTFIX) == NULL)
             {
-                if (!push_operator(&state, state.ctx->glue_op)) goto exit;
                 // Arity of 2 needed for DYNAMIC_ARITY functions set as glue-op
-                op_peek(&state)->arity = 2;
+                if (!op_push(&state, (struct OpData){ state.ctx->glue_op, 2, i, true })) goto exit;
                 await_infix = false;
             }
         }
@@ -234,18 +243,14 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             // Increment operand count one last time if it was not the empty parameter list.
             if (await_infix)
             {
-                if (op_peek(&state) != NULL
-                    && op_peek(&state)->op != NULL
-                    && op_peek(&state)->op->placement == OP_PLACE_FUNCTION)
+                if (awaits_params(op_peek(&state)))
                 {
                     op_peek(&state)->arity++;
                 }
             }
             else
             {
-                if (op_peek(&state) == NULL // '1,'
-                    || op_peek(&state)->op == NULL // 'f(())'
-                    || op_peek(&state)->op->placement != OP_PLACE_FUNCTION // '()' but not empty parameter list
+                if (!awaits_params(op_peek(&state)) // '1,' or 'f(())' or '()' but not empty parameter list
                     || op_peek(&state)->arity != 0) // 'f(x,)'
                 {
                     ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
@@ -277,7 +282,7 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             if (vec_count(&state.vec_ops) > 1)
             {
                 struct OpData *op_data = ((struct OpData*)vec_get(&state.vec_ops, vec_count(&state.vec_ops) - 2));
-                if (op_data->op != NULL && op_data->op->placement == OP_PLACE_FUNCTION)
+                if (awaits_params(op_data))
                 {
                     op_data->arity++;
                 }
-- 
2.43.0


From e1494c2e5b13b5eb2fad1643291534cdb92ae2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:15:33 +0000
Subject: [PATCH 30/37] fix: postfix operator of same precedence as
 right-associative infix operator printed without parentheses

---
 src/engine/tree/tree_to_string.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 1284fc6..14f3b72 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -109,10 +109,12 @@ static void infix_to_str(StringBuilder *builder, bool color, const Node *node, b
     strbuilder_append(builder, is_letter(get_op(node)->name[0]) ? " %s " : "%s", get_op(node)->name);
     
     // Checks if right operand of infix operator needs to be wrapped in parentheses (see analog case for left operand)
+    // A postfix operator of same precedence would take the whole infix expression as its operand
     if (get_type(childR) == NTYPE_OPERATOR
         && (get_op(childR)->precedence < get_op(node)->precedence
             || (get_op(childR)->precedence == get_op(node)->precedence
-                && get_op(node)->assoc == OP_ASSOC_LEFT)))
+                && (get_op(node)->assoc == OP_ASSOC_LEFT
+                    || get_op(childR)->placement == OP_PLACE_POSTFIX))))
     {
         p_open(builder);
         to_str(builder, color, childR, false, false);
-- 
2.43.0


From de9c8fee58ababd9e06b448cdb9f0795b1a95279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:55:43 +0000
Subject: [PATCH 31/37] fix: errors in constant subtrees are not simplified
 away

---
 src/client/simplification/simplification.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/simplification/simplification.c b/src/client/simplification/simplification.c
index 648df21..679bd7f 100644
--- a/src/client/simplification/simplification.c
+++ b/src/client/simplification/simplification.c
@@ -216,6 +216,9 @@ ListenerError simplify(Node **tree, const Node **errnode)
     // It's okay if simplification module is not initialized, just return without doing much
     if (!initialized) return res;
 
+    // Derivatives are resolved below, any other error must not be simplified away
+    if (res != LISTENERERR_SUCCESS && res != LISTENERERR_IMPOSSIBLE_DERIV) return res;
+
     // Apply elimination rules
     simplify_without_derivative(tree);
     res = apply_derivatives(tree, errnode);
-- 
2.43.0


From 97ad3df1bdfdccd8f68ea602de3d67de5d998c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:39:17 +0000
Subject: [PATCH 32/37] fix: reduce the constant subtrees beside one that can
 not be evaluated

Simplifying -(2*3)' never ended: the derivative kept 2*3 from being
reduced, so that the rules went in circles.
---
 src/engine/tree/tree_util.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/engine/tree/tree_util.c b/src/engine/tree/tree_util.c
index 23d2484..6c25372 100644
--- a/src/engine/tree/tree_util.c
+++ b/src/engine/tree/tree_util.c
@@ -421,27 +421,30 @@ Params:
 */
 ListenerError tree_reduce_constant_subtrees(Node **tree, TreeListener listener, const Node **out_errnode)
 {
-    if (count_all_variable_nodes(*tree) == 0)
+    ListenerError err = LISTENERERR_SUCCESS;
+
+    // A subtree that can not be evaluated does not keep the others from being reduced
+    if (get_type(*tree) == NTYPE_OPERATOR)
+    {
+        for (size_t i = 0; i < get_num_children(*tree); i++)
+        {
+            ListenerError child_err = tree_reduce_constant_subtrees(get_child_addr(*tree, i),
+                listener,
+                err == LISTENERERR_SUCCESS ? out_errnode : NULL);
+            if (err == LISTENERERR_SUCCESS) err = child_err;
+        }
+    }
+
+    if (err == LISTENERERR_SUCCESS && count_all_variable_nodes(*tree) == 0)
     {
         double res;
-        ListenerError err = tree_reduce(*tree, listener, &res, out_errnode);
+        err = tree_reduce(*tree, listener, &res, out_errnode);
         if (err != LISTENERERR_SUCCESS) return err;
         Node *replacement = malloc_constant_node(res, get_token_index(*tree));
         tree_replace(tree, replacement);
     }
-    else
-    {
-        if (get_type(*tree) == NTYPE_OPERATOR)
-        {
-            for (size_t i = 0; i < get_num_children(*tree); i++)
-            {
-                ListenerError err = tree_reduce_constant_subtrees(get_child_addr(*tree, i), listener, out_errnode);
-                if (err != LISTENERERR_SUCCESS) return err;
-            }
-        }
-    }
 
-    return LISTENERERR_SUCCESS;
+    return err;
 }
 
 /*
-- 
2.43.0


From 6ba76b88a69e2a454c153f23ace0306da8f496e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:50:21 +0000
Subject: [PATCH 33/37] fix: find derivatives of quotients and square roots

The simplification that runs before the derivation rules writes quotients
and square roots, for which there was no rule: the derivatives of 1/x,
sqrt(x+1) or tan(x)*(x+1) were reported as not existing.
---
 simplification.ruleset | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simplification.ruleset b/simplification.ruleset
index 43dfaff..bf0fb70 100644
--- a/simplification.ruleset
+++ b/simplification.ruleset
@@ -35,6 +35,8 @@ RULESET
     deriv(x + y, z)     -> deriv(x, z) + deriv(y, z)
     deriv(x - y, z)     -> deriv(x, z) - deriv(y, z)
     deriv(x*y, z)       -> deriv(x, z)*y + x*deriv(y, z)
+    deriv(x/y, z)       -> deriv(x*y^-1, z)
+    deriv(sqrt(x), z)   -> deriv(x^0.5, z)
     deriv(sin(x), z)    -> cos(x) * deriv(x, z)
     deriv(cos(x), z)    -> -sin(x) * deriv(x, z)
     deriv(tan(x), z)    -> deriv(x, z) * cos(x)^-2
-- 
2.43.0


From 4d69748f9a584817b616b7a2226c402ed2a8d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:04 +0000
Subject: [PATCH 34/37] fix: report a wrong number of operands inside of
 parentheses as such

---
 src/engine/parsing/parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index 3411c80..dc68860 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -223,6 +223,8 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
             {
                 if (!op_pop_and_insert(&state))
                 {
+                    // Keep the actual error and its position
+                    if (state.result == PERR_FUNCTION_WRONG_ARITY) goto exit;
                     state.curr_tok = i;
                     ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
                 }
-- 
2.43.0


From fbb6045a5c9120fc07e5acaefd11bbf49c4c2e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:17 +0000
Subject: [PATCH 35/37] fix: refuse parameter lists that end with an operator
 without operand

---
 src/engine/parsing/parser.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine/parsing/parser.c b/src/engine/parsing/parser.c
index dc68860..cdc0de2 100644
--- a/src/engine/parsing/parser.c
+++ b/src/engine/parsing/parser.c
@@ -218,6 +218,12 @@ ParserError parse_tokens(const ParsingContext *ctx, size_t num_tokens, const cha
         // III. Is token closing parenthesis or argument delimiter?
         if (is_closing_parenthesis(token))
         {
+            // An operator before the closing parenthesis lacks its operand
+            if (!await_infix && op_peek(&state) != NULL && op_peek(&state)->op != NULL)
+            {
+                ERROR(PERR_UNEXPECTED_CLOSING_PAREN);
+            }
+
             // Pop ops until opening parenthesis on op-stack
             while (op_peek(&state) != NULL && op_peek(&state)->op != NULL)
             {
-- 
2.43.0


From 3a3c2bc46cbab87a1d6fa1c1704a43042318a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 36/37] fix: print prefix operators whose name contains a
 percent sign

---
 src/engine/tree/tree_to_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 14f3b72..096b8e3 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -23,7 +23,7 @@ static void to_str(StringBuilder *builder, bool color, const Node *node, bool l,
 static void prefix_to_str(StringBuilder *builder, bool color, const Node *node, bool l, bool r)
 {
     if (l) p_open(builder);
-    strbuilder_append(builder, get_op(node)->name);
+    strbuilder_append(builder, "%s", get_op(node)->name);
     
     if (get_type(get_child(node, 0)) == NTYPE_OPERATOR
         && get_op(get_child(node, 0))->precedence <= get_op(node)->precedence)
-- 
2.43.0


From ed23d7f63386af1c0e8f18728606f87a69bdca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:42 +0000
Subject: [PATCH 37/37] fix: separate prefix and postfix operators that are
 words from their operand

---
 src/engine/tree/tree_to_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/tree/tree_to_string.c b/src/engine/tree/tree_to_string.c
index 096b8e3..a9879d9 100644
--- a/src/engine/tree/tree_to_string.c
+++ b/src/engine/tree/tree_to_string.c
@@ -23,7 +23,7 @@ static void to_str(StringBuilder *builder, bool color, const Node *node, bool l,
 static void prefix_to_str(StringBuilder *builder, bool color, const Node *node, bool l, bool r)
 {
     if (l) p_open(builder);
-    strbuilder_append(builder, "%s", get_op(node)->name);
+    strbuilder_append(builder, is_letter(get_op(node)->name[0]) ? "%s " : "%s", get_op(node)->name);
     
     if (get_type(get_child(node, 0)) == NTYPE_OPERATOR
         && get_op(get_child(node, 0))->precedence <= get_op(node)->precedence)
@@ -60,7 +60,7 @@ static void postfix_to_str(StringBuilder *builder, bool color, const Node *node,
         to_str(builder, color, get_child(node, 0), l && !r, true);
     }
     
-    strbuilder_append(builder, "%s", get_op(node)->name);
+    strbuilder_append(builder, is_letter(get_op(node)->name[0]) ? " %s" : "%s", get_op(node)->name);
     if (r) p_close(builder);
 }
 
-- 
2.43.0

