From a46a9b4d72b6a622f5e81335fa44ea55aa7df288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 01/58] fix: HTremove on an empty bucket dereferenced NULL

---
 palm/src/hash_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 713d5f4..3e0de12 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -155,7 +155,7 @@ void *HTremove(htable_st *table, void *key)
     }
 
     previous = entry;
-    entry = entry->next;
+    entry = entry ? entry->next : NULL;
 
     while (entry) {
         if (table->is_equal_f(entry->key, key)) {
-- 
2.43.0


From a89f20674139b0f741e554cb642a75e97b05f952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 02/58] fix: HTclear left the element count of the cleared
 entries

---
 palm/src/hash_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 3e0de12..26c1026 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -206,6 +206,7 @@ void HTclear(struct htable *table)
         }
         table->entries[i] = NULL;
     }
+    table->elements = 0;
 }
 
 /**
-- 
2.43.0


From 628905ee5c6485c0648861607fa514e1f4137b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 03/58] fix: STRsubStr with a negative length beyond the
 string's length

---
 palm/src/str.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index 2dc5cc3..bc2749f 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -85,6 +85,9 @@ char *STRsubStr(const char *string, int start, int len)
 
     if (len < 0) {
         len = strlen + len; /* + - => - */
+        if (len < 0) { /* more than the whole string is cut off */
+            len = 0;
+        }
     }
 
     if ((start + len) > strlen) { /* to long take what we can */
-- 
2.43.0


From c1fe2e19ccdb4008014bc6e7d1166ac6a55268e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 04/58] fix: STRtok did not free its copy of the string with
 the last call

---
 palm/src/str.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/palm/src/str.c b/palm/src/str.c
index bc2749f..588fb6e 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -456,6 +456,7 @@ char *STRtok(const char *first, const char *sep)
     }
 
     if (current == NULL) {
+        keep_string = MEMfree(keep_string);
         ret = NULL;
     } else {
         i = 0;
-- 
2.43.0


From 6f4732af060d40a46a973ce15496f370a69c6bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 05/58] fix: STRsuffix crashed on NULL arguments

---
 palm/src/str.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index 588fb6e..efa7c3f 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -347,7 +347,9 @@ bool STRsuffix(const char *suffix, const char *str)
 {
     bool res = false;
 
-    if (STRlen(suffix) > STRlen(str)) {
+    if (suffix == NULL) {
+        res = true;
+    } else if (str == NULL || STRlen(suffix) > STRlen(str)) {
         res = false;
     } else {
         str = str + STRlen(str) - STRlen(suffix);
-- 
2.43.0


From 1e6a742585472a8025a7c0b84425c9b64203b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:31 +0000
Subject: [PATCH 06/58] fix: STRsubstToken crashed on a NULL string and hung on
 an empty token

---
 palm/src/str.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/palm/src/str.c b/palm/src/str.c
index efa7c3f..f29121f 100644
--- a/palm/src/str.c
+++ b/palm/src/str.c
@@ -568,6 +568,11 @@ char *STRsubstToken(const char *str, const char *token, const char *subst)
     char *pos;
     char *result;
 
+    if (str == NULL || STRlen(token) == 0) {
+        /* Nothing to substitute in, or nothing to substitute. */
+        return STRcpy(str);
+    }
+
     /* Find number of occurrences of token in str */
     occurrences = 0;
     tlen = STRlen(token);
@@ -585,7 +590,9 @@ char *STRsubstToken(const char *str, const char *token, const char *subst)
     pos = result;
     while (*str != '\0') {
         if (STRprefix(token, str)) {
-            strncpy(pos, subst, slen);
+            if (slen > 0) {
+                strncpy(pos, subst, slen);
+            }
             pos += slen;
             str += tlen;
         } else {
-- 
2.43.0


From 077b022ec847c9e7884afbefc65affd4b67730ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 07/58] fix: '@' in diagnostics was dropped and broke the line

---
 palm/src/ctinfo.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index 6812dff..a445e2c 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -32,7 +32,7 @@ static int warnings = 0;
  *
  *   @brief  formats message according to line length
  *
- *           '@' characters are inserted into the buffer to represent line
+ *           Newline characters are inserted into the buffer to represent line
  *           breaks.
  *
  *   @param buffer  message buffer
@@ -57,12 +57,11 @@ static void ProcessMessage(char *buffer, int line_length)
         }
 
         if (buffer[index] == '\n') {
-            buffer[index] = '@';
             column = 0;
         } else {
             if (column == line_length) {
                 if (buffer[last_space] == ' ') {
-                    buffer[last_space] = '@';
+                    buffer[last_space] = '\n';
                     column = index - last_space;
                 } else {
                     break;
@@ -152,7 +151,7 @@ char *CTIgetErrorMessageVA(int line, const char *format, va_list arg_p)
     ProcessMessage(message_buffer,
         message_line_length - strlen(error_message_header));
 
-    first_line = STRfmt("line %d @", line);
+    first_line = STRfmt("line %d \n", line);
     res = STRcat(first_line, message_buffer);
     first_line = MEMfree(first_line);
 
@@ -248,12 +247,12 @@ static void PrintMessage(char *header, const char *format, va_list arg_p, bool n
 
     ProcessMessage(message_buffer, message_line_length - strlen(header));
 
-    line = strtok(message_buffer, "@");
+    line = strtok(message_buffer, "\n");
 
     while (line != NULL) {
         fprintf(stderr, "%s%s\n", header, line);
         header = "";
-        line = strtok(NULL, "@");
+        line = strtok(NULL, "\n");
     }
 
     PrintInfo(info);
-- 
2.43.0


From 3aa2017ab473ee65a93f8edc67276fdc9c5af3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 08/58] fix: diagnostics without a file name displayed it as
 (null)

---
 palm/src/ctinfo.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/palm/src/ctinfo.c b/palm/src/ctinfo.c
index a445e2c..ebed733 100644
--- a/palm/src/ctinfo.c
+++ b/palm/src/ctinfo.c
@@ -184,23 +184,34 @@ static void PrintLocation(struct ctinfo *info)
     }
 }
 
+static void PrintArrow(struct ctinfo *info)
+{
+    fprintf(stderr, " --> ");
+    if (info->filename != NULL) {
+        fprintf(stderr, "%s:", info->filename);
+    }
+}
+
 static void PrintLine(struct ctinfo *info)
 {
-    fprintf(stderr, " --> %s:%d\n", info->filename, info->first_line);
+    PrintArrow(info);
+    fprintf(stderr, "%d\n", info->first_line);
 }
 
 static void PrintLineCol(struct ctinfo *info)
 {
-    fprintf(stderr, " --> %s:%d:%d\n", info->filename, info->first_line, info->first_column);
+    PrintArrow(info);
+    fprintf(stderr, "%d:%d\n", info->first_line, info->first_column);
     PrintLocation(info);
 }
 
 static void PrintRange(struct ctinfo *info)
 {
+    PrintArrow(info);
     if (info->last_line == 0 || info->first_line == info->last_line) {
-        fprintf(stderr, " --> %s:%d.%d-%d\n", info->filename, info->first_line, info->first_column, info->last_column);
+        fprintf(stderr, "%d.%d-%d\n", info->first_line, info->first_column, info->last_column);
     } else {
-        fprintf(stderr, " --> %s:%d.%d-%d.%d\n", info->filename, info->first_line, info->first_column, info->last_line, info->last_column);
+        fprintf(stderr, "%d.%d-%d.%d\n", info->first_line, info->first_column, info->last_line, info->last_column);
     }
     PrintLocation(info);
 }
-- 
2.43.0


From 3e34d9577d446cbe4bed95c50d52de1df5bbb708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:32 +0000
Subject: [PATCH 09/58] fix: passes with a target function were not declared
 under its name

---
 cocogen/dynamic_backend/gen_action_header.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_action_header.c b/cocogen/dynamic_backend/gen_action_header.c
index 27a34f6..079c693 100644
--- a/cocogen/dynamic_backend/gen_action_header.c
+++ b/cocogen/dynamic_backend/gen_action_header.c
@@ -3,6 +3,7 @@
 
 #include "gen_helpers/out_macros.h"
 #include "ccn/dynamic_core.h"
+#include "palm/memory.h"
 #include "ccngen/trav.h"
 #include "globals.h"
 #include "dynamic_backend/gen_helpers.h"
@@ -37,11 +38,9 @@ node_st *DGAHitraversal(node_st *node)
 node_st *DGAHipass(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    char *prefix = "";
-    if (IPASS_IPREFIX(node)) {
-        prefix = DGH_PASS_PREFIX(node);
-    }
-    OUT_FIELD(DGH_PASS_FUNC_SIG(), prefix, DGH_PASS_NAME(node), "");
+    char *func = DGHpassFuncName(node);
+    OUT_FIELD(DGH_PASS_FUNC_SIG(), "", func, "");
+    MEMfree(func);
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From ebf7bb3468d81adc722aafa293219603fcbe2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 10/58] fix: phases nested in a cycle reset its iteration count
 and lost its change notifications

---
 copra/src/phase_driver.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/copra/src/phase_driver.c b/copra/src/phase_driver.c
index 656eb35..3972d08 100644
--- a/copra/src/phase_driver.c
+++ b/copra/src/phase_driver.c
@@ -190,6 +190,11 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
     phase_driver.level++;
     bool cycle = phase->is_cycle;
     uint64_t curr_action_id = phase_driver.action_id;
+    // Every phase counts its own iterations, a nested phase may not reset those of an enclosing cycle.
+    size_t outer_cycle_iter = phase_driver.cycle_iter;
+    bool outer_fixed_point = phase_driver.fixed_point;
+    bool changed = false;
+    phase_driver.cycle_iter = 0;
 
     do {
         // If we cycle around, reset the action id.
@@ -204,6 +209,7 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
             action_id = phase->action_table[action_counter];
         }
         phase_driver.cycle_iter++;
+        changed = changed || !phase_driver.fixed_point;
     } while(cycle && phase_driver.cycle_iter < phase_driver.max_cycles && !(phase_driver.fixed_point));
 
     if (phase_driver.phase_error) {
@@ -213,7 +219,9 @@ struct ccn_node *StartPhase(struct ccn_phase *phase, char *phase_name, struct cc
         CTIabortCompilation();
     }
 
-    phase_driver.cycle_iter = 0;
+    phase_driver.cycle_iter = outer_cycle_iter;
+    // A change made in a nested phase is a change made in the enclosing cycle.
+    phase_driver.fixed_point = outer_fixed_point && !changed;
     phase_driver.level--;
 
     phase_driver.current_phase = prev;
-- 
2.43.0


From 80cd9f5d0c6b35c4ad9747bae6f3c637b3db9203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 11/58] fix: nodes with only lifetimes, or equations and
 lifetimes, were rejected

---
 cocogen/frontend/scanAndParse/dsl-parser.y | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index a805eca..3197f5a 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -689,10 +689,18 @@ node: is_root[root] T_NODE id[name] '{'  childrenbody[children] ',' attributebod
         INODE_IS_ROOT($$) = $root;
         INODE_IEQUATIONS($$) = $equations;
     }
-    | is_root[root] T_NODE id[name] '{' '}'
+    | is_root[root] T_NODE id[name] '{' equationbody[equations] ',' nodelifetimes[lifetimes] '}'
     {
         $$ = ASTinode($name, NULL);
         INODE_IS_ROOT($$) = $root;
+        INODE_IEQUATIONS($$) = $equations;
+        INODE_LIFETIMES($$) = $lifetimes;
+    }
+    | is_root[root] T_NODE id[name] '{' nodelifetimes[lifetimes] '}'
+    {
+        $$ = ASTinode($name, NULL);
+        INODE_IS_ROOT($$) = $root;
+        INODE_LIFETIMES($$) = $lifetimes;
     }
     ;
 
-- 
2.43.0


From 3f4f78ea87c4e418bcd9bb1f4142f674431574bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 12/58] fix: lifetimes of a phase ended early after nested
 phases, and repeated phases got the position of their last use

---
 .../frontend/lifetimes/map_id_to_lifetimes.c  | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index ed733b0..8f2b01d 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -14,6 +14,8 @@
 #include "frontend/ctihelp.h"
 
 static node_st *last_action = NULL;
+static int last_action_id = 0;
+static int curr_action_id = 0;
 static node_st *last_node = NULL;
 static node_st *curr_target = NULL;
 static node_st *ast = NULL;
@@ -36,6 +38,23 @@ static bool CompareID(node_st *id, node_st *other_id)
 }
 
 
+/**
+ * The number of actions executed when the given actions are, including those
+ * in nested phases.
+ */
+static int CountActions(node_st *actions)
+{
+    int count = 0;
+    for (; actions != NULL; actions = IACTIONS_NEXT(actions)) {
+        node_st *action = STlookup(ste, IACTIONS_REFERENCE(actions));
+        count++;
+        if (action != NULL && NODE_TYPE(action) == NT_IPHASE) {
+            count += CountActions(IPHASE_IACTIONS(action));
+        }
+    }
+    return count;
+}
+
 node_st *MITLast(node_st *node)
 {
     ast = node;
@@ -60,6 +79,8 @@ node_st *MITLinode(node_st *node)
 
 node_st *MITLiactions(node_st *node)
 {
+    // A phase can be used more than once, so the ID follows from the path to the action.
+    int action_id = curr_action_id++;
     node_st *action_lookup = STlookup(ste, IACTIONS_REFERENCE(node));
     if (action_lookup == NULL) {
         CTI(CTI_ERROR, true, "Lifetime target(%s) does not reference a valid action.", ID_ORIG(IACTIONS_REFERENCE(node)));
@@ -67,6 +88,7 @@ node_st *MITLiactions(node_st *node)
     if (NODE_TYPE(action_lookup) == NT_IPHASE) {
         if (CompareID(IPHASE_NAME(action_lookup), curr_target) || CompareID(IPHASE_IPREFIX(action_lookup), curr_target)) {
             last_action = node;
+            last_action_id = action_id;
             last_node = action_lookup;
             return node;
         }
@@ -74,6 +96,7 @@ node_st *MITLiactions(node_st *node)
     } else if (NODE_TYPE(action_lookup) == NT_IPASS) {
         if (CompareID(IPASS_NAME(action_lookup), curr_target) || CompareID(IPASS_IPREFIX(action_lookup), curr_target)) {
             last_action = node;
+            last_action_id = action_id;
             last_node = action_lookup;
             return node;
         }
@@ -81,6 +104,7 @@ node_st *MITLiactions(node_st *node)
         if (CompareID(ITRAVERSAL_NAME(action_lookup), curr_target) || CompareID(ITRAVERSAL_IPREFIX(action_lookup), curr_target)) {
             last_node = action_lookup;
             last_action = node;
+            last_action_id = action_id;
             return node;
         }
     }
@@ -114,17 +138,10 @@ node_st *MITLlifetime_range(node_st *node)
         info.last_column = 0;
         CTIobj(CTI_ERROR, true, info, "Lifetime does not target a valid action.");
     } else {
-        LIFETIME_RANGE_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action);
+        LIFETIME_RANGE_ACTION_ID(node) = last_action_id;
+        LIFETIME_RANGE_NEXT_ACTION_ID(node) = last_action_id + 1;
         if (NODE_TYPE(last_node) == NT_IPHASE) {
-            node_st *phase_actions = IPHASE_IACTIONS(last_node);
-            node_st *next = IACTIONS_NEXT(phase_actions);
-            while (next) {
-                phase_actions = next;
-                next = IACTIONS_NEXT(phase_actions);
-            }
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(phase_actions) + 1;
-        } else {
-            LIFETIME_RANGE_NEXT_ACTION_ID(node) = IACTIONS_ACTION_ID(last_action) + 1;
+            LIFETIME_RANGE_NEXT_ACTION_ID(node) += CountActions(IPHASE_IACTIONS(last_node));
         }
     }
     in_lifetime = false;
@@ -139,6 +156,8 @@ node_st *MITLid(node_st *node)
     }
     curr_target = node;
     if (last_action == NULL) {
+        // 1 is the start phase.
+        curr_action_id = 2;
         TRAViactions(AST_START_PHASE(ast));
     } else {
         node_st *action = STlookup(ste, IACTIONS_REFERENCE(last_action));
@@ -155,6 +174,7 @@ node_st *MITLid(node_st *node)
         } else {
             last_action = NULL;
             last_node = NULL;
+            curr_action_id = last_action_id + 1;
             TRAViactions(action);
         }
     }
-- 
2.43.0


From 0709aa83e5f47d5efc7464936d8347708ebe691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 13/58] fix: checks generated for ranges of allowed children
 and attributes called a function that does not exist

---
 cocogen/dynamic_backend/gen_check_traversal.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 883b5f8..67e8d58 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -394,7 +394,7 @@ static void LifetimeChildAllowed(node_st *lifetime_begin, node_st *lifetime_end)
                  ID_UPR(INODE_NAME(curr_node)),
                  ID_UPR(CHILD_NAME(curr_child)));
     OUT_FIELD(
-        "CTIerror(\"Found disallowed child(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed child(%s) in node(%s).\\n\");",
         ID_ORIG(CHILD_NAME(curr_child)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
@@ -567,7 +567,7 @@ static void LifetimeAttributeAllowed(node_st *lifetime_begin, node_st *lifetime_
 
     OUT_BEGIN_IF("%s != NULL", access);
     OUT_FIELD(
-        "CTIerror(\"Found disallowed attribute(%s) in node(%s).\\n\");",
+        "CTI(CTI_ERROR, true, \"Found disallowed attribute(%s) in node(%s).\\n\");",
         ID_ORIG(ATTRIBUTE_NAME(curr_attribute)),
         ID_ORIG(INODE_NAME(curr_node)));
     OUT_END_IF();
-- 
2.43.0


From 562df59a1e3fb8a33d148ea5a179ace580f3beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 14/58] fix: only the first of several lifetimes was checked

---
 cocogen/dynamic_backend/gen_check_traversal.c    | 1 +
 cocogen/frontend/lifetimes/map_id_to_lifetimes.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cocogen/dynamic_backend/gen_check_traversal.c b/cocogen/dynamic_backend/gen_check_traversal.c
index 67e8d58..6578ca4 100644
--- a/cocogen/dynamic_backend/gen_check_traversal.c
+++ b/cocogen/dynamic_backend/gen_check_traversal.c
@@ -687,6 +687,7 @@ node_st *DGCHTilifetime(node_st *node)
         LifetimeAttributeGen(node);
     }
 
+    TRAVnext(node);
     return node;
 }
 
diff --git a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
index 8f2b01d..39ba3ef 100644
--- a/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
+++ b/cocogen/frontend/lifetimes/map_id_to_lifetimes.c
@@ -123,6 +123,7 @@ node_st *MITLilifetime(node_st *node)
     TRAVbegin(node);
     last_action = NULL;
     TRAVend(node);
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From 01835856b410eec139a6e0b238e4b8471b117001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 15/58] fix: constructor parameter of a user typed attribute
 was named differently in the constructor's body

---
 cocogen/dynamic_backend/gen_node_init_funcs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 46ef2c2..5a6fb11 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -73,7 +73,7 @@ node_st *DGIFattribute(node_st *node)
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
             OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
-            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
             OUT("%s %s", FMTattributeTypeToString(ATTRIBUTE_TYPE(node)), DGHattributeField(node));
         }
-- 
2.43.0


From c071cb10501c2ab1b39f1b5d230f3a00c6b40ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:40 +0000
Subject: [PATCH 16/58] fix: nodesets that refer to sets defined later were
 evaluated twice, and children of an empty nodeset crashed the scheduler

---
 cocogen/frontend/attribute_scheduler/collect_visits.c  | 4 ++--
 cocogen/frontend/attribute_scheduler/generate_visits.c | 4 +++-
 cocogen/frontend/unwrap_setexpr.c                      | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/collect_visits.c b/cocogen/frontend/attribute_scheduler/collect_visits.c
index 10af47e..fad56c9 100644
--- a/cocogen/frontend/attribute_scheduler/collect_visits.c
+++ b/cocogen/frontend/attribute_scheduler/collect_visits.c
@@ -105,8 +105,8 @@ static bool node_has_visit(node_st *node, node_st *st,
          child = CHILD_NEXT(child)) {
         node_st *child_ref = get_node_type(child, st);
         struct visits *visits = HTlookup(visits_htable, child_ref);
-        assert(visits != NULL);
-        if (visits->length > 0) {
+        // No visits exist for an empty nodeset
+        if (visits != NULL && visits->length > 0) {
             return true;
         }
     }
diff --git a/cocogen/frontend/attribute_scheduler/generate_visits.c b/cocogen/frontend/attribute_scheduler/generate_visits.c
index b407020..dd7dd5c 100644
--- a/cocogen/frontend/attribute_scheduler/generate_visits.c
+++ b/cocogen/frontend/attribute_scheduler/generate_visits.c
@@ -469,7 +469,9 @@ static node_st *generate_visit(graph_st *graph, node_st *node, node_st *st,
         // Insert child visits in queue
         for (node_st *child = INODE_ICHILDREN(node); child; child = CHILD_NEXT(child)) {
             struct visits *child_visits = HTlookup(visits_htable, get_node_type(child, st));
-            assert(child_visits != NULL);
+            if (child_visits == NULL) { // Empty nodeset
+                continue;
+            }
             for (size_t i = 0; i < child_visits->length; ++i) {
                 item = MEMmalloc(sizeof(struct seq_queue_item));
                 item->is_visit = true;
diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index db11363..f4a0c7a 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -61,7 +61,7 @@ node_st *USEsetreference(node_st *node)
     node_st *nodeset = STlookup(ste, SETREFERENCE_REFERENCE(node));
     assert(nodeset && NODE_TYPE(nodeset) == NT_INODESET);
     if (INODESET_EXPR(nodeset) && NODE_TYPE(INODESET_EXPR(nodeset)) != NT_SETLITERAL) {
-        TRAVchildren(nodeset);
+        TRAVexpr(nodeset);
     }
     if (INODESET_EXPR(nodeset)) {
         assert(NODE_TYPE(INODESET_EXPR(nodeset)) == NT_SETLITERAL);
-- 
2.43.0


From e75f653a25b1e4d4b4bed9b435e8a290cd21af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 17/58] fix: traversals with an empty set of nodes visited all
 nodes

---
 cocogen/frontend/unwrap_setexpr.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index f4a0c7a..c6a1b7f 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -7,10 +7,14 @@
 
 #include <stddef.h>
 #include "assert.h"
+#include "palm/ctinfo.h"
+#include "palm/hash_table.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
+#include "ccn/ccn.h"
 #include "ccn/dynamic_core.h"
 #include "sets/set.h"
+#include "frontend/ctihelp.h"
 #include "frontend/symboltable.h"
 
 static node_st *ste;
@@ -18,7 +22,23 @@ static node_st *ste;
 node_st *USEast(node_st *node)
 {
     ste = AST_STABLE(node);
+    htable_st *restricted = HTnew_Ptr(100);
+    for (node_st *trav = AST_ITRAVERSALS(node); trav; trav = ITRAVERSAL_NEXT(trav)) {
+        if (ITRAVERSAL_INODES(trav)) {
+            HTinsert(restricted, trav, trav);
+        }
+    }
     TRAVchildren(node);
+    // Without nodes a traversal targets all nodes, instead of none.
+    for (node_st *trav = AST_ITRAVERSALS(node); trav; trav = ITRAVERSAL_NEXT(trav)) {
+        if (HTlookup(restricted, trav) && !ITRAVERSAL_INODES(trav)) {
+            struct ctinfo info;
+            id_to_info(ITRAVERSAL_NAME(trav), &info);
+            CTIobj(CTI_ERROR, true, info, "The set of nodes of traversal '%s' is empty\n", ID_ORIG(ITRAVERSAL_NAME(trav)));
+            CCNerrorAction();
+        }
+    }
+    HTdelete(restricted);
     return node;
 }
 
-- 
2.43.0


From eed35933ae0ac7f3343eaa66431f17a4b3929ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 18/58] fix: nodes, nodesets, enums and uids were accepted as
 actions of a phase

---
 cocogen/frontend/check_existance.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 8e53ed2..654791d 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -60,7 +60,16 @@ node_st *CEXiactions(node_st *node)
 {
     TRAVchildren(node);
     node_st *ref = STlookup(ste, IACTIONS_REFERENCE(node));
-    if (ref == NULL) {
+    // Only actions can be referenced and only by their name, not by their uid.
+    node_st *name = NULL;
+    if (ref != NULL && NODE_TYPE(ref) == NT_IPHASE) {
+        name = IPHASE_NAME(ref);
+    } else if (ref != NULL && NODE_TYPE(ref) == NT_ITRAVERSAL) {
+        name = ITRAVERSAL_NAME(ref);
+    } else if (ref != NULL && NODE_TYPE(ref) == NT_IPASS) {
+        name = IPASS_NAME(ref);
+    }
+    if (name == NULL || !STReq(ID_LWR(name), ID_LWR(IACTIONS_REFERENCE(node)))) {
         CTI(CTI_ERROR, true, "Could not find action: %s\n", ID_ORIG(IACTIONS_REFERENCE(node)));
     }
     return node;
-- 
2.43.0


From 8be32e25cba4c74f0de228691bc60d4cdd216fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 19/58] fix: specifications without root node or start phase
 crashed cocogen

---
 cocogen/frontend/check_existance.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 654791d..ed235cc 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -50,6 +50,12 @@ node_st *CEXast(node_st *node)
     root = node;
     ste = AST_STABLE(node);
     TRAVchildren(node);
+    if (!seen_start_phase) {
+        CTI(CTI_ERROR, true, "No start phase is defined.");
+    }
+    if (!seen_root_node) {
+        CTI(CTI_ERROR, true, "No root node is defined.");
+    }
     CTIabortOnError();
     CCNfree(trav_data_names);
     CCNfree(enum_prefix_ste);
-- 
2.43.0


From 0467b2947910e354657c28d3b0c910b31521b02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 20/58] fix: phases that contain themselves crashed cocogen

---
 cocogen/frontend/check_existance.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index ed235cc..9224fcf 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -6,6 +6,7 @@
 #include <stddef.h>
 #include "globals.h"
 #include "palm/ctinfo.h"
+#include "palm/hash_table.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
@@ -45,11 +46,40 @@ void checkUID(node_st *id)
     }
 }
 
+static bool phase_reaches(node_st *phase, node_st *target, htable_st *visited)
+{
+    HTinsert(visited, phase, phase);
+    for (node_st *action = IPHASE_IACTIONS(phase); action; action = IACTIONS_NEXT(action)) {
+        node_st *ref = STlookup(ste, IACTIONS_REFERENCE(action));
+        if (ref == NULL || NODE_TYPE(ref) != NT_IPHASE) {
+            continue;
+        }
+        if (ref == target || (!HTlookup(visited, ref) && phase_reaches(ref, target, visited))) {
+            return true;
+        }
+    }
+    return false;
+}
+
+static void check_recursive_phases(node_st *phases)
+{
+    for (node_st *phase = phases; phase; phase = IPHASE_NEXT(phase)) {
+        htable_st *visited = HTnew_Ptr(100);
+        if (phase_reaches(phase, phase, visited)) {
+            struct ctinfo info;
+            id_to_info(IPHASE_NAME(phase), &info);
+            CTIobj(CTI_ERROR, true, info, "Phase '%s' contains itself.", ID_ORIG(IPHASE_NAME(phase)));
+        }
+        HTdelete(visited);
+    }
+}
+
 node_st *CEXast(node_st *node)
 {
     root = node;
     ste = AST_STABLE(node);
     TRAVchildren(node);
+    check_recursive_phases(AST_IPHASES(node));
     if (!seen_start_phase) {
         CTI(CTI_ERROR, true, "No start phase is defined.");
     }
-- 
2.43.0


From ad288796c868446343128d5c264b88df4d4f892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:37 +0000
Subject: [PATCH 21/58] fix: enums with equal values were accepted, but
 generated invalid C

---
 cocogen/frontend/check_existance.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 9224fcf..f806b83 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -361,6 +361,15 @@ node_st *CEXienum(node_st *node)
     } else {
         enum_prefix_ste = STadd(enum_prefix_ste, IENUM_IPREFIX(node), node);
     }
+    for (node_st *value = IENUM_VALS(node); value; value = ID_NEXT(value)) {
+        for (node_st *other = ID_NEXT(value); other; other = ID_NEXT(other)) {
+            if (STReq(ID_LWR(value), ID_LWR(other))) {
+                struct ctinfo info;
+                id_to_info(other, &info);
+                CTIobj(CTI_ERROR, true, info, "Double declaration of enum value: %s\n", ID_ORIG(other));
+            }
+        }
+    }
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From 29e9ad3269a23e70f8657a28c0026be6db9d5a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:57 +0000
Subject: [PATCH 22/58] fix: diagnostics of redeclared attributes read the name
 of a node as that of a nodeset

---
 cocogen/frontend/nodesets/propagate_attributes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index 959724c..eaee164 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -54,7 +54,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "redeclared in node '%s' without the constructor keyword\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)),
-               ID_ORIG(INODESET_NAME(node)));
+               ID_ORIG(INODE_NAME(node)));
         CCNerrorAction();
     } else if (ATTRIBUTE_IS_INHERITED(child_attr) ||
                ATTRIBUTE_IS_SYNTHESIZED(child_attr) ||
@@ -63,7 +63,7 @@ static bool check_classic_exception(node_st *node, node_st *parent_attr,
                "Redeclaration of attribute '%s' in node '%s' has a different "
                "signature than the attribute in parent nodeset '%s'\n",
                ID_ORIG(ATTRIBUTE_NAME(parent_attr)),
-               ID_ORIG(INODESET_NAME(node)),
+               ID_ORIG(INODE_NAME(node)),
                ID_ORIG(INODESET_NAME(DATA_PRA_GET()->curr_nodeset)));
         CCNerrorAction();
     }
-- 
2.43.0


From bea230383ff4a408cbaccf439ec0f70e637cf21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:57 +0000
Subject: [PATCH 23/58] fix: the diagnostic of a duplicate pass function
 displayed a pointer

---
 cocogen/frontend/buildsymboltable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/buildsymboltable.c b/cocogen/frontend/buildsymboltable.c
index 6ef2787..e123382 100644
--- a/cocogen/frontend/buildsymboltable.c
+++ b/cocogen/frontend/buildsymboltable.c
@@ -133,7 +133,7 @@ node_st *BSTipass(node_st *node)
         if (existing_func != NULL) {
             struct ctinfo info;
             id_to_info(IPASS_TARGET_FUNC(node), &info);
-            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", IPASS_TARGET_FUNC(node));
+            CTIobj(CTI_ERROR, false, info, "Duplicate pass function: %s\n", ID_ORIG(IPASS_TARGET_FUNC(node)));
             id_to_info(IPASS_TARGET_FUNC(existing_func), &info);
             CTIobj(CTI_NOTE, true, info, "Also defined here\n");
         } else {
-- 
2.43.0


From aa49b6c3b575f4066008a434a5dc7864f574cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:57 +0000
Subject: [PATCH 24/58] fix: only the first attribute of a node or nodeset was
 checked

---
 cocogen/frontend/check_attributes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index 13c10aa..d53533c 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -68,6 +68,7 @@ node_st *CHAattribute(node_st *node) {
     // Don't check propagated attributes for the rest to prevent duplicate
     // errors
     if (ATTRIBUTE_IS_PROPAGATED(node)) {
+        TRAVnext(node);
         return node;
     }
 
@@ -94,5 +95,6 @@ node_st *CHAattribute(node_st *node) {
         }
     }
 
+    TRAVnext(node);
     return node;
 }
-- 
2.43.0


From 5d29b307ed52e8cdc4a1ef95f930da877b7e88d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:57 +0000
Subject: [PATCH 25/58] fix: a cycle with info, uid and gate was a syntax error

---
 cocogen/frontend/scanAndParse/dsl-parser.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index 3197f5a..5fdf880 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -302,7 +302,7 @@ phase: phaseheader '{' info[information] ',' uid[identifier] ',' gate[gatef] ','
          IPHASE_IPREFIX($$) = $identifier;
          IPHASE_IACTIONS($$) = $actions;
     }
-    | cycleheader '{' info[information] uid[identifier] gate[gatef] actionsbody[actions] '}'
+    | cycleheader '{' info[information] ',' uid[identifier] ',' gate[gatef] ',' actionsbody[actions] '}'
     {
         $$ = $1;
         IPHASE_IPREFIX($$) = $identifier;
-- 
2.43.0


From f1e4e348453230276cda232aada5db491ed8d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:57 +0000
Subject: [PATCH 26/58] fix: the info of a traversal with data for all nodes
 was dropped

---
 cocogen/frontend/scanAndParse/dsl-parser.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index 5fdf880..7f2b65d 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -455,6 +455,7 @@ traversal: T_TRAVERSAL id[name] '{' info[information] ',' mandatory_uid[identifi
     {
            $$ = ASTitraversal($name);
            ITRAVERSAL_INDEX($$) = trav_index++;
+           ITRAVERSAL_IINFO($$) = $information;
            ITRAVERSAL_IPREFIX($$) = $identifier;
            ITRAVERSAL_DATA($$) = $data;
     }
-- 
2.43.0


From 4973b854f0515810388be6bed4488f115ba88dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:18 +0000
Subject: [PATCH 27/58] fix: an enum with values named enum and values broke
 the definitions after it

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 587c13d..d64d965 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -112,7 +112,7 @@ static inline void check_c_keyword(const char *);
 "children"      { LEX_KEYWORD(T_CHILDREN);}
 "constructor"   { LEX_KEYWORD(T_CONSTRUCTOR);}
 "cycle"         { LEX_KEYWORD(T_CYCLE);}
-"enum"          { in_enum = true; LEX_KEYWORD(T_ENUM);}
+"enum"          { in_enum = in_enum || yy_lex_keywords; LEX_KEYWORD(T_ENUM);}
 "equations"     { LEX_KEYWORD(T_EQUATIONS);}
 "inherited"     { LEX_KEYWORD(T_INHERITED);}
 "mandatory"     { LEX_KEYWORD(T_MANDATORY);}
@@ -131,7 +131,7 @@ static inline void check_c_keyword(const char *);
 "to"            { LEX_KEYWORD(T_TO);}
 "traversal"     { LEX_KEYWORD(T_TRAVERSAL);}
 "travdata"      { LEX_KEYWORD(T_TRAVDATA);}
-"values"        { if (in_enum) {in_enum_values = true;}LEX_KEYWORD(T_VALUES);}
+"values"        { if (in_enum && yy_lex_keywords) {in_enum_values = true;}LEX_KEYWORD(T_VALUES);}
 "info"          { LEX_KEYWORD(T_INFO);}
 "func"          { LEX_KEYWORD(T_FUNC);}
 "root"          { LEX_KEYWORD(T_ROOT);}
-- 
2.43.0


From 38a4d3727a3e442aa083023af246139710281e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:34 +0000
Subject: [PATCH 28/58] fix: a comment without end silently dropped the rest of
 the specification

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index d64d965..82b9560 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -32,6 +32,7 @@ static inline void token_action();
 
 static inline void lexer_init();
 static inline void check_c_keyword(const char *);
+void yyerror(const char *);
 
 #define YY_USER_INIT lexer_init();
 #define YY_USER_ACTION token_action();
@@ -76,14 +77,22 @@ static inline void check_c_keyword(const char *);
 
         // Stay in the SAVELINE state, to save the next line
     }
+    <<EOF>> {
+        // There is no next line, the previous lexing state handles the end.
+        yy_pop_state();
+    }
 }
 
 \/\/[^\n]*      {  }
 "/*"            { yy_push_state(COMMENT); }
 <COMMENT>{
-    "*/"        { yy_push_state(INITIAL); }
+    "*/"        { yy_pop_state(); }
     \n          { yy_push_state(SAVELINE); }
     .           {  }
+    <<EOF>>     {
+        yyerror("Comment is not terminated");
+        yyterminate();
+    }
 }
 "(" {return '(';}
 ")" {return ')';}
-- 
2.43.0


From d12c39578d8c31b58a00ce6dbd97e471d73c5ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:48 +0000
Subject: [PATCH 29/58] fix: the order of generated equation variants depended
 on addresses of nodes

---
 .../dynamic_backend/gen_equation_functions.c    |  8 ++++----
 cocogen/dynamic_backend/gen_user_equations.c    |  8 ++++----
 cocogen/dynamic_backend/gen_visit_source.c      | 17 +++++++++--------
 3 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_equation_functions.c b/cocogen/dynamic_backend/gen_equation_functions.c
index 922b8fe..2a88a62 100644
--- a/cocogen/dynamic_backend/gen_equation_functions.c
+++ b/cocogen/dynamic_backend/gen_equation_functions.c
@@ -147,12 +147,12 @@ node_st *DGEFequation(node_st *node) {
     for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
         // Set bitmask in htable
         size_t i = 0;
-        for (htable_iter_st *iter = HTiterate(children_null); iter;
-             iter = HTiterateNext(iter)) {
+        for (struct child_list *entry = children; entry;
+             entry = entry->next) {
             if (bitmask & (0x1UL << i)) {
-                HTiterSetValue(iter, (void *)CH_FALSE);
+                HTinsert(children_null, entry->child, (void *)CH_FALSE);
             } else {
-                HTiterSetValue(iter, (void *)CH_TRUE);
+                HTinsert(children_null, entry->child, (void *)CH_TRUE);
             }
             ++i;
         }
diff --git a/cocogen/dynamic_backend/gen_user_equations.c b/cocogen/dynamic_backend/gen_user_equations.c
index dcd5a95..6ca5c5a 100644
--- a/cocogen/dynamic_backend/gen_user_equations.c
+++ b/cocogen/dynamic_backend/gen_user_equations.c
@@ -148,12 +148,12 @@ node_st *DUGEequation(node_st *node) {
     for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
         // Set bitmask in htable
         size_t i = 0;
-        for (htable_iter_st *iter = HTiterate(children_null); iter;
-             iter = HTiterateNext(iter)) {
+        for (struct child_list *entry = children; entry;
+             entry = entry->next) {
             if (bitmask & (0x1UL << i)) {
-                HTiterSetValue(iter, (void *)CH_FALSE);
+                HTinsert(children_null, entry->child, (void *)CH_FALSE);
             } else {
-                HTiterSetValue(iter, (void *)CH_TRUE);
+                HTinsert(children_null, entry->child, (void *)CH_TRUE);
             }
             ++i;
         }
diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 6b1ef27..0491566 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -309,12 +309,12 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
         for (size_t bitmask = 0; bitmask < combinations; ++bitmask) {
             // Set bitmask in htable
             size_t i = 0;
-            for (htable_iter_st *iter = HTiterate(children_null); iter;
-                 iter = HTiterateNext(iter)) {
+            for (struct child_list *entry = children; entry;
+                 entry = entry->next) {
                 if (bitmask & (0x1UL << i)) {
-                    HTiterSetValue(iter, (void *)CH_TRUE);
+                    HTinsert(children_null, entry->child, (void *)CH_TRUE);
                 } else {
-                    HTiterSetValue(iter, (void *)CH_FALSE);
+                    HTinsert(children_null, entry->child, (void *)CH_FALSE);
                 }
                 ++i;
             }
@@ -322,10 +322,11 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
             if (bitmask != combinations - 1) {
                 OUT_NO_INDENT("if (");
                 bool first = true;
-                for (htable_iter_st *iter = HTiterate(children_null); iter;
-                     iter = HTiterateNext(iter)) {
-                    node_st *child = HTiterKey(iter);
-                    if ((enum child_htable)HTiterValue(iter) == CH_FALSE) {
+                for (struct child_list *entry = children; entry;
+                     entry = entry->next) {
+                    node_st *child = entry->child;
+                    if ((enum child_htable)HTlookup(children_null, child) ==
+                        CH_FALSE) {
                         if (first) {
                             first = false;
                         } else {
-- 
2.43.0


From ab782bd255da7275be9174468256100064bd656f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 30/58] fix: an attribute that depends on itself was accepted

---
 cocogen/frontend/attribute_scheduler/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/attribute_scheduler/graph.c b/cocogen/frontend/attribute_scheduler/graph.c
index 9b79d81..7836a6b 100644
--- a/cocogen/frontend/attribute_scheduler/graph.c
+++ b/cocogen/frontend/attribute_scheduler/graph.c
@@ -222,7 +222,7 @@ static struct GRedge *add_edge_internal(struct GRgraph *graph,
 static inline bool check_cycle(struct GRgraph *graph, struct GRnode *n1,
                                struct GRnode *n2, struct GRerror *error,
                                enum GRedge_type type) {
-    if (HTlookup_edge(graph->internal->edge_map, n2, n1)) {
+    if (n1 == n2 || HTlookup_edge(graph->internal->edge_map, n2, n1)) {
         switch (type) {
         case GRnormal:
             error->type = GR_error_cycle;
-- 
2.43.0


From a02b3ebf32a5fcd98887f59150cbd8c84e2a4c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 31/58] fix: a nodeset whose first member needs no visit was
 rejected with an internal error

---
 .../attribute_scheduler/generate_visits.c     | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/generate_visits.c b/cocogen/frontend/attribute_scheduler/generate_visits.c
index dd7dd5c..4192cf7 100644
--- a/cocogen/frontend/attribute_scheduler/generate_visits.c
+++ b/cocogen/frontend/attribute_scheduler/generate_visits.c
@@ -371,9 +371,30 @@ add_visit_sequence_visit_nodeset(node_st *st, htable_st *visits_htable,
                                  htable_st *visit_stubs_htable, node_st *expr,
                                  node_st *child, struct visit *original_visit) {
     node_st *visit_tail = NULL;
-    return add_visit_sequence_visit_nodeset_rec(&visit_tail, st, visits_htable,
-                                                visit_stubs_htable, expr, child,
-                                                original_visit);
+    node_st *sequence = add_visit_sequence_visit_nodeset_rec(
+        &visit_tail, st, visits_htable, visit_stubs_htable, expr, child,
+        original_visit);
+
+    // The head of the alternatives is part of the sequence, so it has to be a
+    // visit. Move the node types without a visit after the first visit.
+    node_st *visit = sequence;
+    while (visit != NULL && NODE_TYPE(visit) == NT_VISIT_SEQUENCE_DUMMY) {
+        visit = VISIT_SEQUENCE_DUMMY_ALT(visit);
+    }
+
+    while (sequence != visit) {
+        node_st *dummy = sequence;
+        sequence = VISIT_SEQUENCE_DUMMY_ALT(dummy);
+        if (visit != NULL) {
+            VISIT_SEQUENCE_DUMMY_ALT(dummy) = VISIT_SEQUENCE_VISIT_ALT(visit);
+            VISIT_SEQUENCE_VISIT_ALT(visit) = dummy;
+        } else { // No visits at all
+            VISIT_SEQUENCE_DUMMY_ALT(dummy) = NULL;
+            CCNfree(dummy);
+        }
+    }
+
+    return sequence;
 }
 
 static void add_visit_sequence(node_st **visit_head, node_st **visit_tail,
-- 
2.43.0


From 2380616ff4dd1a0870ea1245148173113f024671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:47 +0000
Subject: [PATCH 32/58] fix: two children of one type with a visit with several
 outputs did not compile

---
 cocogen/dynamic_backend/gen_visit_source.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 0491566..efaef3a 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -445,7 +445,8 @@ static void print_visit_call(node_st *node, node_st *outputs,
             }
         } else { // multiple output
             multiple_outputs = true;
-            OUT("struct %s_out %s_output", visit_name, visit_name);
+            OUT("struct %s_out %s_%s_output", visit_name,
+                ID_LWR(CHILD_NAME(child)), visit_name);
             print_unused();
             OUT_NO_INDENT(" = ");
         }
@@ -477,10 +478,11 @@ static void print_visit_call(node_st *node, node_st *outputs,
                 print_type(ATTRIBUTE_REFERENCE_REFERENCE(attribute));
                 OUT_NO_INDENT(" ");
             }
-            OUT_NO_INDENT("%s_%s = %s_output.%s_%s;\n",
+            OUT_NO_INDENT("%s_%s = %s_%s_output.%s_%s;\n",
                           ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
-                          visit_name, get_node_name_this(attribute),
+                          ID_LWR(CHILD_NAME(child)), visit_name,
+                          get_node_name_this(attribute),
                           ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
         }
     }
-- 
2.43.0


From 51827df7ed9242798058c9a875271233d6309a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:48 +0000
Subject: [PATCH 33/58] fix: inherited attributes of children were not
 available to other equations and later visits

---
 cocogen/dynamic_backend/gen_visit_source.c | 105 +++++++++++++++++++--
 1 file changed, 97 insertions(+), 8 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index efaef3a..6246c96 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -28,17 +28,90 @@ static const int htable_size = 100;
 static char *basic_node_type = "node_st";
 static node_st *ste = NULL;
 static node_st *curr_node = NULL;
+static node_st *curr_visit = NULL;
 
-static inline void print_set_value(node_st *attribute, char *value) {
+static inline void print_set_value_of(char *access, node_st *inode,
+                                      node_st *attribute, char *value) {
     GeneratorContext *ctx = globals.gen_ctx;
-    assert(curr_node != NULL);
-    OUT("node->data.N_%s->_%s.ccn_val_set = true;\n",
-        ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(attribute)));
-    OUT("node->data.N_%s->_%s.%s = %s;\n", ID_LWR(INODE_NAME(curr_node)),
+    OUT("%s->data.N_%s->_%s.ccn_val_set = true;\n", access,
+        ID_LWR(INODE_NAME(inode)), ID_LWR(ATTRIBUTE_NAME(attribute)));
+    OUT("%s->data.N_%s->_%s.%s = %s;\n", access, ID_LWR(INODE_NAME(inode)),
         ID_LWR(ATTRIBUTE_NAME(attribute)), ID_LWR(ATTRIBUTE_NAME(attribute)),
         value);
 }
 
+static inline void print_set_value(node_st *attribute, char *value) {
+    assert(curr_node != NULL);
+    print_set_value_of("node", curr_node, attribute, value);
+}
+
+static void print_set_value_members(node_st *expr, char *access,
+                                    node_st *attribute, char *value) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    if (expr == NULL) {
+        return;
+    }
+
+    assert(NODE_TYPE(expr) == NT_SETLITERAL);
+    node_st *inode = STlookup(ste, SETLITERAL_REFERENCE(expr));
+    OUT_BEGIN_IF("NODE_TYPE(%s) == NT_%s", access, ID_UPR(INODE_NAME(inode)));
+    print_set_value_of(access, inode, attribute, value);
+    OUT_END_IF();
+    print_set_value_members(SETLITERAL_LEFT(expr), access, attribute, value);
+    print_set_value_members(SETLITERAL_RIGHT(expr), access, attribute, value);
+}
+
+/* The visit of the child stores the attribute as well, but other equations can
+   use the attribute before that, and the visit can be part of a later visit
+   of the current node. */
+static void print_set_value_child(node_st *child, node_st *attribute,
+                                  char *value) {
+    GeneratorContext *ctx = globals.gen_ctx;
+    node_st *type = STlookup(ste, CHILD_TYPE_REFERENCE(child));
+    char *access = STRfmt("%s_%s(node)", ID_UPR(INODE_NAME(curr_node)),
+                          ID_UPR(CHILD_NAME(child)));
+
+    if (!CHILD_IS_MANDATORY(child)) {
+        OUT_BEGIN_IF("%s != NULL", access);
+    }
+
+    if (NODE_TYPE(type) == NT_INODE) {
+        print_set_value_of(access, type, attribute, value);
+    } else {
+        print_set_value_members(INODESET_EXPR(type), access, attribute, value);
+    }
+
+    if (!CHILD_IS_MANDATORY(child)) {
+        OUT_END_IF();
+    }
+    OUT_NO_INDENT("\n");
+
+    MEMfree(access);
+}
+
+// Whether the current visit evaluates the attribute of the child itself
+static bool is_evaluated_in_visit(node_st *child, node_st *attribute) {
+    for (node_st *entry = VISIT_SEQUENCE(curr_visit); entry;) {
+        if (NODE_TYPE(entry) == NT_VISIT_SEQUENCE_VISIT) {
+            entry = VISIT_SEQUENCE_VISIT_NEXT(entry);
+            continue;
+        }
+
+        assert(NODE_TYPE(entry) == NT_VISIT_SEQUENCE_EVAL);
+        node_st *cand = VISIT_SEQUENCE_EVAL_ATTRIBUTE(entry);
+        if (ATTRIBUTE_REFERENCE_INODE(cand) != NULL &&
+            STReq(ID_LWR(ATTRIBUTE_REFERENCE_INODE(cand)),
+                  ID_LWR(CHILD_NAME(child))) &&
+            STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(cand)),
+                  ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)))) {
+            return true;
+        }
+        entry = VISIT_SEQUENCE_EVAL_NEXT(entry);
+    }
+
+    return false;
+}
+
 static inline void print_unused() {
     GeneratorContext *ctx = globals.gen_ctx;
     OUT_NO_INDENT(" MAYBE_UNUSED");
@@ -143,6 +216,7 @@ node_st *DGVSvisit(node_st *node) {
     OUT_NO_INDENT(")");
     OUT_START_FUNC_FIELD();
     curr_node = VISIT_INODE(node);
+    curr_visit = node;
 
     for (node_st *in_arg = VISIT_INPUTS(node); in_arg;
          in_arg = VISIT_ARG_LIST_NEXT(in_arg)) {
@@ -180,6 +254,7 @@ node_st *DGVSvisit(node_st *node) {
     }
 
     curr_node = NULL;
+    curr_visit = NULL;
     OUT_END_FUNC();
 
     MEMfree(visit_name);
@@ -379,6 +454,15 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
         print_set_value(ATTRIBUTE_REFERENCE_REFERENCE(attribute), arg_str);
         MEMfree(arg_str);
+    } else { // inherited attribute of child
+        char *arg_str =
+            STRfmt("%s_%s", get_node_name_this(attribute),
+                   ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+
+        print_set_value_child(get_child(ATTRIBUTE_REFERENCE_INODE(attribute)),
+                              ATTRIBUTE_REFERENCE_REFERENCE(attribute),
+                              arg_str);
+        MEMfree(arg_str);
     }
 
     HTdelete(children_null);
@@ -459,9 +543,14 @@ static void print_visit_call(node_st *node, node_st *outputs,
     for (node_st *in_arg = VISIT_INPUTS(visit); in_arg;
          in_arg = VISIT_ARG_LIST_NEXT(in_arg)) {
         node_st *attribute = VISIT_ARG_LIST_ATTRIBUTE(in_arg);
-        OUT_NO_INDENT(", %s_%s",
-                      ID_LWR(CHILD_NAME(VISIT_SEQUENCE_VISIT_CHILD(node))),
-                      ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+        if (is_evaluated_in_visit(child, attribute)) {
+            OUT_NO_INDENT(", %s_%s", ID_LWR(CHILD_NAME(child)),
+                          ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)));
+        } else { // Evaluated by an earlier visit
+            OUT_NO_INDENT(", %s_%s(%s)", ID_UPR(CHILD_TYPE_REFERENCE(child)),
+                          ID_UPR(ATTRIBUTE_REFERENCE_IATTRIBUTE(attribute)),
+                          child_access);
+        }
     }
 
     OUT_NO_INDENT(");\n");
-- 
2.43.0


From 1afe2df8a335a2186438cab62e2d71239c8fdc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:48 +0000
Subject: [PATCH 34/58] fix: duplicate equations and arguments generated
 invalid code

---
 cocogen/frontend/check_product_rules.c | 70 +++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index cbd9a20..c40efdb 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -3,8 +3,6 @@
  *
  * Traversal: checkProductRules
  * UID      : CPR
- *
- * TODO: prevent duplicate production rules / args
  */
 
 #include <assert.h>
@@ -112,6 +110,21 @@ static node_st *find_attribute(node_st *node, node_st *attr_list,
     return NULL;
 }
 
+static bool is_same_reference(node_st *reference, node_st *node_name,
+                              node_st *attribute_name) {
+    node_st *can_node = ATTRIBUTE_REFERENCE_INODE(reference);
+    // Check same node (NULL == this)
+    if (!((node_name == NULL && can_node == NULL) ||
+          (node_name != NULL && can_node != NULL &&
+           STReq(ID_LWR(node_name), ID_LWR(can_node))))) {
+        return false;
+    }
+
+    // Check same attribute
+    return STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(reference)),
+                 ID_LWR(attribute_name));
+}
+
 static node_st *find_product_rule(node_st *equation_list, node_st *node_name,
                                   node_st *attribute_name) {
     /* TODO: might want to cache product rules in hash table so we don't loop
@@ -119,16 +132,8 @@ static node_st *find_product_rule(node_st *equation_list, node_st *node_name,
        htable[eq_list][node_name][attr_name] on subsequent calls. */
     for (node_st *eq = equation_list; eq != NULL; eq = EQUATION_NEXT(eq)) {
         node_st *can = EQUATION_RULE(eq);
-        node_st *can_node = ATTRIBUTE_REFERENCE_INODE(can);
-        // Check same node (NULL == this)
-        if ((node_name == NULL && can_node == NULL) ||
-            (node_name != NULL && can_node != NULL &&
-             STReq(ID_LWR(node_name), ID_LWR(can_node)))) {
-            // Check same attribute
-            if (STReq(ID_LWR(ATTRIBUTE_REFERENCE_IATTRIBUTE(can)),
-                      ID_LWR(attribute_name))) {
-                return can;
-            }
+        if (is_same_reference(can, node_name, attribute_name)) {
+            return can;
         }
     }
 
@@ -241,21 +246,62 @@ node_st *CPRinode(node_st *node) {
     return node;
 }
 
+static void check_duplicate_rule(node_st *equation) {
+    node_st *rule = EQUATION_RULE(equation);
+    node_st *name = ATTRIBUTE_REFERENCE_INODE(rule);
+    node_st *duplicate =
+        find_product_rule(EQUATION_NEXT(equation), name,
+                          ATTRIBUTE_REFERENCE_IATTRIBUTE(rule));
+    if (duplicate != NULL) {
+        struct ctinfo info;
+        id_to_info(ATTRIBUTE_REFERENCE_IATTRIBUTE(duplicate), &info);
+        CTIobj(CTI_ERROR, true, info,
+               "Node '%s' has multiple equations for '%s.%s'\n",
+               ID_ORIG(INODE_NAME(DATA_CPR_GET()->curr_node)),
+               name == NULL ? "this" : ID_ORIG(name),
+               ID_ORIG(ATTRIBUTE_REFERENCE_IATTRIBUTE(rule)));
+        CCNerrorAction();
+    }
+}
+
 /**
  * @fn CPRequation
  */
 node_st *CPRequation(node_st *node) {
     check_attribute_reference(EQUATION_RULE(node), true);
+    check_duplicate_rule(node);
     TRAViargs(node);
     TRAVnext(node);
     return node;
 }
 
+static void check_duplicate_arg(node_st *dependency) {
+    node_st *arg = EQUATION_DEPENDENCY_IATTRIBUTE(dependency);
+    for (node_st *other = EQUATION_DEPENDENCY_NEXT(dependency); other != NULL;
+         other = EQUATION_DEPENDENCY_NEXT(other)) {
+        node_st *can = EQUATION_DEPENDENCY_IATTRIBUTE(other);
+        if (is_same_reference(can, ATTRIBUTE_REFERENCE_INODE(arg),
+                              ATTRIBUTE_REFERENCE_IATTRIBUTE(arg))) {
+            struct ctinfo info;
+            id_to_info(ATTRIBUTE_REFERENCE_IATTRIBUTE(can), &info);
+            CTIobj(CTI_ERROR, true, info,
+                   "Duplicate argument '%s.%s' in equation\n",
+                   ATTRIBUTE_REFERENCE_INODE(arg) == NULL
+                       ? "this"
+                       : ID_ORIG(ATTRIBUTE_REFERENCE_INODE(arg)),
+                   ID_ORIG(ATTRIBUTE_REFERENCE_IATTRIBUTE(arg)));
+            CCNerrorAction();
+            return;
+        }
+    }
+}
+
 /**
  * @fn CPRequation
  */
 node_st *CPRequation_dependency(node_st *node) {
     check_attribute_reference(EQUATION_DEPENDENCY_IATTRIBUTE(node), false);
+    check_duplicate_arg(node);
     TRAVnext(node);
     return node;
 }
-- 
2.43.0


From e4835b3f32791b9ada42816b11048c241a93cff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:48 +0000
Subject: [PATCH 35/58] fix: additional inherited attributes in members of a
 nodeset generated invalid code

---
 cocogen/frontend/check_product_rules.c | 35 ++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index c40efdb..045d015 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -319,6 +319,40 @@ node_st *CPRattribute(node_st *node) {
     return node;
 }
 
+/* The equations of a child with a nodeset as type are limited to the attributes
+   of the nodeset, so they cannot provide additional inherited attributes. */
+static void check_additional_inherited(node_st *child, node_st *nodeset,
+                                       node_st *expr) {
+    if (expr == NULL) {
+        return;
+    }
+
+    assert(NODE_TYPE(expr) == NT_SETLITERAL);
+    node_st *member =
+        STlookup(DATA_CPR_GET()->symboltable, SETLITERAL_REFERENCE(expr));
+    assert(member != NULL && NODE_TYPE(member) == NT_INODE);
+    for (node_st *attribute = INODE_IATTRIBUTES(member); attribute != NULL;
+         attribute = ATTRIBUTE_NEXT(attribute)) {
+        if (ATTRIBUTE_IS_INHERITED(attribute) &&
+            find_attribute(nodeset, INODESET_IATTRIBUTES(nodeset),
+                           ATTRIBUTE_NAME(attribute)) == NULL) {
+            struct ctinfo info;
+            id_to_info(CHILD_NAME(child), &info);
+            CTIobj(CTI_ERROR, true, info,
+                   "Child '%s' of node '%s' cannot have nodeset '%s' as type: "
+                   "node '%s' has an additional inherited attribute '%s'\n",
+                   ID_ORIG(CHILD_NAME(child)),
+                   ID_ORIG(INODE_NAME(DATA_CPR_GET()->curr_node)),
+                   ID_ORIG(INODESET_NAME(nodeset)), ID_ORIG(INODE_NAME(member)),
+                   ID_ORIG(ATTRIBUTE_NAME(attribute)));
+            CCNerrorAction();
+        }
+    }
+
+    check_additional_inherited(child, nodeset, SETLITERAL_LEFT(expr));
+    check_additional_inherited(child, nodeset, SETLITERAL_RIGHT(expr));
+}
+
 /**
  * @fn CPRchild
  */
@@ -332,6 +366,7 @@ node_st *CPRchild(node_st *node) {
     } else {
         assert(NODE_TYPE(ref_node) == NT_INODESET);
         attributes = INODESET_IATTRIBUTES(ref_node);
+        check_additional_inherited(node, ref_node, INODESET_EXPR(ref_node));
     }
 
     for (node_st *attribute = attributes; attribute != NULL;
-- 
2.43.0


From d56c703cc261a389756b6aa8f4e822fba5be4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 36/58] fix: equations with an attribute of a node type did not
 compile

---
 cocogen/dynamic_backend/gen_equation_functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/dynamic_backend/gen_equation_functions.c b/cocogen/dynamic_backend/gen_equation_functions.c
index 2a88a62..42efa30 100644
--- a/cocogen/dynamic_backend/gen_equation_functions.c
+++ b/cocogen/dynamic_backend/gen_equation_functions.c
@@ -72,6 +72,7 @@ node_st *DGEFinode(node_st *node) {
         OUT("#include \"ccngen/ccn_defs.h\"\n");
         OUT("#include \"ccn/ccn_types.h\"\n");
         OUT("#include \"ccngen/enum.h\"\n");
+        OUT("#include \"ccngen/ast.h\"\n");
         OUT("#ifdef CCN_USES_UNSAFE\n");
         OUT("#include \"user_types.h\"\n");
         OUT("#endif\n");
-- 
2.43.0


From 25d962c0ad7d06eae8d0034056f8d3ae80d536a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:42 +0000
Subject: [PATCH 37/58] fix: a nodeset with attributes and a difference without
 common members crashed cocogen

---
 cocogen/frontend/check_attributes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index d53533c..82f225b 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -27,7 +27,7 @@ node_st *CHAinodeset(node_st *node) {
         CTIobj(CTI_ERROR, true, info,
                "Cannot use intersect (&) and difference (-) operators in set "
                "expressions for nodesets with associated attributes\n");
-        CCNerrorPhase();
+        CCNerrorAction();
     }
 
     TRAViattributes(node);
-- 
2.43.0


From e5e16bbe6b64bfda875d2ecdb8376e04cc671a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:49 +0000
Subject: [PATCH 38/58] fix: nodesets whose members need other visits were
 accepted, but left attributes unevaluated

---
 .../schedule_attribute_visits.c               | 98 +++++++++++++++++++
 1 file changed, 98 insertions(+)

diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index 46e859d..25de038 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -23,6 +23,7 @@
 #include "frontend/attribute_scheduler/graph.h"
 #include "frontend/attribute_scheduler/partition_nodes.h"
 #include "frontend/attribute_scheduler/queue.h"
+#include "frontend/ctihelp.h"
 #include "frontend/symboltable.h"
 #include "globals.h"
 #include "palm/ctinfo.h"
@@ -490,6 +491,95 @@ static void dump_dotfile(htable_st *graphs, char *filename,
     GDag_dot_finish(dot);
 }
 
+static bool is_available(struct visits *visits, size_t index,
+                         node_st *attribute, bool input) {
+    for (size_t i = 0; i <= index && i < visits->length; ++i) {
+        struct visit *visit = visits->visits[i];
+        struct GRnode **attributes = input ? visit->inputs : visit->outputs;
+        size_t length = input ? visit->inputs_length : visit->outputs_length;
+        for (size_t j = 0; j < length; ++j) {
+            if (STReq(ID_LWR(ATTRIBUTE_NAME(attributes[j]->attribute)),
+                      ID_LWR(ATTRIBUTE_NAME(attribute)))) {
+                return true;
+            }
+        }
+    }
+
+    return false;
+}
+
+static inline void handle_order_error(node_st *nodeset, node_st *member) {
+    struct ctinfo info;
+    id_to_info(INODESET_NAME(nodeset), &info);
+    CTIobj(CTI_ERROR, true, info,
+           "The attributes of node '%s' cannot be evaluated in the order of "
+           "the attributes of nodeset '%s', which is the type of a child.",
+           ID_ORIG(INODE_NAME(member)), ID_ORIG(INODESET_NAME(nodeset)));
+    CCNerrorAction();
+    DATA_SAV_GET()->errors += 1;
+}
+
+/* A visit of a child with a nodeset as type calls the visit with the same index
+   of the member that the child turns out to be. So the inputs of that visit
+   have to be available at that point, it has to give the outputs of the
+   nodeset's visit, and the member has no work left after the last visit. */
+static void check_nodeset_visits(node_st *nodeset, node_st *expr,
+                                 htable_st *visits_htable) {
+    if (expr == NULL) {
+        return;
+    }
+
+    assert(NODE_TYPE(expr) == NT_SETLITERAL);
+    node_st *member =
+        STlookup(DATA_SAV_GET()->symboltable, SETLITERAL_REFERENCE(expr));
+    struct visits *set_visits = HTlookup(visits_htable, nodeset);
+    struct visits *member_visits = HTlookup(visits_htable, member);
+    bool error = false;
+
+    size_t index = 0;
+    for (node_st *visit = INODE_VISIT(member); visit != NULL;
+         visit = VISIT_NEXT(visit)) {
+        if (index >= set_visits->length) {
+            error |= VISIT_SEQUENCE(visit) != NULL;
+        } else {
+            struct visit *mdata = member_visits->visits[index];
+            for (size_t i = 0; i < mdata->inputs_length; ++i) {
+                error |= !is_available(set_visits, index,
+                                       mdata->inputs[i]->attribute, true);
+            }
+        }
+        ++index;
+    }
+
+    for (size_t i = 0; i < set_visits->length; ++i) {
+        struct visit *visit = set_visits->visits[i];
+        for (size_t j = 0; j < visit->outputs_length; ++j) {
+            error |= !is_available(member_visits, i,
+                                   visit->outputs[j]->attribute, false);
+        }
+    }
+
+    if (error) {
+        handle_order_error(nodeset, member);
+    }
+
+    check_nodeset_visits(nodeset, SETLITERAL_LEFT(expr), visits_htable);
+    check_nodeset_visits(nodeset, SETLITERAL_RIGHT(expr), visits_htable);
+}
+
+static bool is_child_type(node_st *nodeset, node_st *inodes) {
+    for (node_st *inode = inodes; inode != NULL; inode = INODE_NEXT(inode)) {
+        for (node_st *child = INODE_ICHILDREN(inode); child != NULL;
+             child = CHILD_NEXT(child)) {
+            if (get_node_type(child, DATA_SAV_GET()->symboltable) == nodeset) {
+                return true;
+            }
+        }
+    }
+
+    return false;
+}
+
 /**
  * @fn SAVast
  */
@@ -651,6 +741,14 @@ node_st *SAVast(node_st *node) {
         fill_visit_stubs(inode, visit_mdata_htable, visit_stubs_htable);
     }
 
+    for (node_st *nodeset = AST_INODESETS(node); nodeset != NULL;
+         nodeset = INODESET_NEXT(nodeset)) {
+        if (is_child_type(nodeset, AST_INODES(node))) {
+            check_nodeset_visits(nodeset, INODESET_EXPR(nodeset),
+                                 visits_htable);
+        }
+    }
+
     HTmap(visits_htable, free_visits_map);
     HTdelete(visits_htable);
     HTmap(graphs_htable, delete_graphs);
-- 
2.43.0


From 9b73ca5a8b52ebf8298638e7096c767b49653c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:35 +0000
Subject: [PATCH 39/58] fix: an arrow was accepted as value of an enum, but
 generated invalid C

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 82b9560..96922a6 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -163,7 +163,7 @@ void yyerror(const char *);
 "disallowed"    { LEX_KEYWORD(T_DISALLOWED);}
 "optional"      { LEX_KEYWORD(T_OPTIONAL);}
 "allowed"       { LEX_KEYWORD(T_ALLOWED);}
-"->"            { LEX_KEYWORD(T_ARROW);}
+"->"            { return T_ARROW;}
 "false"         { LEX_KEYWORD(T_FALSE);}
 "true"          { LEX_KEYWORD(T_TRUE);}
 "gate"          { LEX_KEYWORD(T_GATE);}
-- 
2.43.0


From b4c36b673ff2bd50f3bd6b2dc31b25c79ad67ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:35 +0000
Subject: [PATCH 40/58] fix: diagnostics of unexpected characters, strings with
 several lines and the end of the file had wrong locations

---
 cocogen/frontend/scanAndParse/dsl-lexer.l | 31 +++++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index 96922a6..a5fd9df 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -23,12 +23,12 @@
 bool yy_lex_keywords = true;
 bool in_enum = false;
 bool in_enum_values = false;
-static char yy_linebuf[1024];
 static regex_t regex;
 
 int yycolumn = 1;
 
 static inline void token_action();
+static inline void eof_action();
 
 static inline void lexer_init();
 static inline void check_c_keyword(const char *);
@@ -90,6 +90,7 @@ void yyerror(const char *);
     \n          { yy_push_state(SAVELINE); }
     .           {  }
     <<EOF>>     {
+        eof_action();
         yyerror("Comment is not terminated");
         yyterminate();
     }
@@ -198,10 +199,14 @@ void yyerror(const char *);
     yy_push_state(SAVELINE);
 }
 . {
-    struct ctinfo info = {yylineno, yycolumn - 1, 0, 0, globals.filename, yy_linebuf};
+    struct ctinfo info = {yylineno, yycolumn - 1, 0, 0, globals.filename, HTlookup(globals.line_map, &yylineno)};
     CTIobj(CTI_ERROR, true, info, "Unexpected token found, quit parsing", yytext);
     CTIabortOnError();
 }
+<INITIAL><<EOF>> {
+    eof_action();
+    yyterminate();
+}
 %%
 
 static inline void lexer_init(void) {
@@ -240,17 +245,33 @@ static inline void token_action() {
     if (YY_START != SAVELINE) {
         yylloc.first_line = yylloc.last_line = yylineno;
         yylloc.first_column = yycolumn;
-        yylloc.last_column = yycolumn + yyleng - 1;
-        yycolumn += yyleng;
+        for (int i = 0; i < yyleng; ++i) {
+            if (yytext[i] == '\n') { // Strings can have multiple lines
+                --yylloc.first_line;
+                yycolumn = 1;
+            } else {
+                ++yycolumn;
+            }
+        }
+        yylloc.last_column = yycolumn - 1;
     }
 }
 
+static inline void eof_action() {
+    yylloc.first_line = yylloc.last_line = yylineno;
+    yylloc.first_column = yylloc.last_column = yycolumn;
+}
+
 int yywrap() {
     return (1);
 }
 
 void yyerror(const char* s) {
-    struct ctinfo info = {yylineno, yycolumn - yyleng, 0, yycolumn - 1, global_command_line.input_file, HTlookup(globals.line_map, &yylineno)};
+    uint64_t line = yylloc.first_line;
+    struct ctinfo info = {yylloc.first_line, yylloc.first_column, 0, yylloc.last_column, global_command_line.input_file, HTlookup(globals.line_map, &line)};
+    if (yylloc.last_line != yylloc.first_line) {
+        info.last_line = yylloc.last_line;
+    }
     CTIobj(CTI_ERROR, true, info, s);
     CTIabortOnError();
 }
-- 
2.43.0


From 226d4e4a4e28481ff6a5ed9f6ce676e50bd87942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 41/58] fix: a phase called cleanup, traversals called like C
 keywords and nodes called like others with _struct generated invalid C

---
 cocogen/dynamic_backend/gen_node_structs.c      | 4 ++--
 cocogen/dynamic_backend/gen_trav_data_ctors.c   | 6 +++---
 cocogen/dynamic_backend/gen_trav_data_getters.c | 2 +-
 cocogen/dynamic_backend/gen_trav_data_union.c   | 2 +-
 cocogen/phase_driver/gen_action_array.c         | 2 +-
 cocogen/phase_driver/gen_ids_table.c            | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/cocogen/dynamic_backend/gen_node_structs.c b/cocogen/dynamic_backend/gen_node_structs.c
index f940fe7..3b535f3 100644
--- a/cocogen/dynamic_backend/gen_node_structs.c
+++ b/cocogen/dynamic_backend/gen_node_structs.c
@@ -33,7 +33,7 @@ node_st *DGNSinode(node_st *node)
     {
         if (INODE_ICHILDREN(node)) {
             OUT_UNION("NODE_CHILDREN_%s", name_upr);
-            OUT_STRUCT("NODE_CHILDREN_%s_STRUCT", name_upr);
+            GNprint(ctx, GN_INCREASE_WS_AFTER, "struct {\n");
             child_num = 0;
             TRAVichildren(node);
             OUT_TYPEDEF_STRUCT_END("%s_children_st", name_lwr);
@@ -64,7 +64,7 @@ node_st *DGNSattribute(node_st *node)
     GeneratorContext *ctx = globals.gen_ctx;
     assert(curr_node != NULL);
     if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {
-        OUT_STRUCT("NODE_%s_%s_STRUCT", ID_UPR(INODE_NAME(curr_node)), ID_UPR(ATTRIBUTE_NAME(node)));
+        GNprint(ctx, GN_INCREASE_WS_AFTER, "struct {\n");
         OUT_FIELD("bool ccn_val_set");
 
     }
diff --git a/cocogen/dynamic_backend/gen_trav_data_ctors.c b/cocogen/dynamic_backend/gen_trav_data_ctors.c
index 9863366..88ca7de 100644
--- a/cocogen/dynamic_backend/gen_trav_data_ctors.c
+++ b/cocogen/dynamic_backend/gen_trav_data_ctors.c
@@ -20,16 +20,16 @@ node_st *DGTDCitraversal(node_st *node)
         OUT_FIELD("extern void %sfini()", ID_UPR(ITRAVERSAL_IPREFIX(node)));
 
         OUT_START_FUNC("void TRAVdataInit%s(ccn_trav_st *trav)", ID_ORIG(id));
-        OUT_FIELD("trav->trav_data.%s = MEMmalloc(sizeof(struct data_%s))",
+        OUT_FIELD("trav->trav_data.T_%s = MEMmalloc(sizeof(struct data_%s))",
                   ID_LWR(id), ID_LWR(ITRAVERSAL_IPREFIX(node)));
-        OUT_FIELD("struct data_%s *data = trav->trav_data.%s", ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_LWR(id));
+        OUT_FIELD("struct data_%s *data = trav->trav_data.T_%s", ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_LWR(id));
         TRAVdata(node);
         OUT_FIELD("%sinit()", ID_UPR(ITRAVERSAL_IPREFIX(node)));
         OUT_END_FUNC();
 
         OUT_START_FUNC("void TRAVdataFree%s(ccn_trav_st *trav)", ID_ORIG(id));
         OUT_FIELD("%sfini()", ID_UPR(ITRAVERSAL_IPREFIX(node)));
-        OUT_FIELD("MEMfree(trav->trav_data.%s)", ID_LWR(id));
+        OUT_FIELD("MEMfree(trav->trav_data.T_%s)", ID_LWR(id));
         OUT_END_FUNC();
     }
     TRAVnext(node);
diff --git a/cocogen/dynamic_backend/gen_trav_data_getters.c b/cocogen/dynamic_backend/gen_trav_data_getters.c
index 00d9a6d..32c2762 100644
--- a/cocogen/dynamic_backend/gen_trav_data_getters.c
+++ b/cocogen/dynamic_backend/gen_trav_data_getters.c
@@ -10,7 +10,7 @@ node_st *DGTDGitraversal(node_st *node)
     if (ITRAVERSAL_DATA(node)) {
         node_st *id =  ITRAVERSAL_IPREFIX(node);
 
-        OUT("#define DATA_%s_GET() (TRAVgetCurrent()->trav_data.%s)\n",
+        OUT("#define DATA_%s_GET() (TRAVgetCurrent()->trav_data.T_%s)\n",
             ID_UPR(id), ID_LWR(ITRAVERSAL_NAME(node)));
     }
 
diff --git a/cocogen/dynamic_backend/gen_trav_data_union.c b/cocogen/dynamic_backend/gen_trav_data_union.c
index d1cc85a..aaaff46 100644
--- a/cocogen/dynamic_backend/gen_trav_data_union.c
+++ b/cocogen/dynamic_backend/gen_trav_data_union.c
@@ -35,7 +35,7 @@ node_st *DGTDUitraversal(node_st *node)
     GeneratorContext *ctx = globals.gen_ctx;
     node_st *id = ITRAVERSAL_NAME(node);
     if (ITRAVERSAL_DATA(node)) {
-        OUT_FIELD("struct data_%s *%s", ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_LWR(id));
+        OUT_FIELD("struct data_%s *T_%s", ID_LWR(ITRAVERSAL_IPREFIX(node)), ID_LWR(id));
     }
     TRAVnext(node);
     return node;
diff --git a/cocogen/phase_driver/gen_action_array.c b/cocogen/phase_driver/gen_action_array.c
index 08cefe2..ce54a9a 100644
--- a/cocogen/phase_driver/gen_action_array.c
+++ b/cocogen/phase_driver/gen_action_array.c
@@ -29,7 +29,7 @@ node_st *GAAast(node_st *node)
         "{TRAV_free,},},\n", enum_action_pref);
 
     OUT("{CCN_ACTION_PHASE, %s_cleanup, \"Cleanup\", .phase = {NULL, NT_%s, "
-        "cleanup_ids_table, false, %s_cleanup,},},\n",
+        "ccn_cleanup_ids_table, false, %s_cleanup,},},\n",
         enum_action_pref, ID_UPR(INODE_NAME(AST_ROOT_NODE(ast))), enum_action_pref);
 
     OUT("};\n\n");
diff --git a/cocogen/phase_driver/gen_ids_table.c b/cocogen/phase_driver/gen_ids_table.c
index 0f1b20c..5a983de 100644
--- a/cocogen/phase_driver/gen_ids_table.c
+++ b/cocogen/phase_driver/gen_ids_table.c
@@ -24,7 +24,7 @@ node_st *GITast(node_st *node)
     OUT("#include \"ccn/phase_driver.h\"\n");
 
     ast = node;
-    OUT("enum %s cleanup_ids_table[2] = { %s_free, %s_NULL };\n", enum_action_name, enum_action_pref, enum_action_pref);
+    OUT("enum %s ccn_cleanup_ids_table[2] = { %s_free, %s_NULL };\n", enum_action_name, enum_action_pref, enum_action_pref);
     TRAVchildren(node);
     return node;
 }
-- 
2.43.0


From d9f4b777e6a2aec758651e1658afa35ea8d5b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 42/58] fix: an info that contains the end of a comment
 generated invalid C

---
 cocogen/dynamic_backend/gen_user_traversals.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_user_traversals.c b/cocogen/dynamic_backend/gen_user_traversals.c
index 1df9fb6..b8f9597 100644
--- a/cocogen/dynamic_backend/gen_user_traversals.c
+++ b/cocogen/dynamic_backend/gen_user_traversals.c
@@ -34,7 +34,9 @@ node_st *DUGTitraversal(node_st *node)
     OUT(" *\n");
     OUT(" *\n");
     if (ITRAVERSAL_IINFO(node)) {
-        OUT(" * @brief %s\n", ITRAVERSAL_IINFO(node));
+        char *brief = STRsubstToken(ITRAVERSAL_IINFO(node), "*/", "* /");
+        OUT(" * @brief %s\n", brief);
+        MEMfree(brief);
     }
     OUT(" */\n\n");
     OUT("#include \"ccn/ccn.h\"\n");
-- 
2.43.0


From 07d9a0bdbdf2b89946308d81c4643380c77e5edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 43/58] fix: passes with the same function were accepted if one
 of them has no func

---
 cocogen/frontend/check_existance.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index f806b83..2cb0524 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -7,10 +7,12 @@
 #include "globals.h"
 #include "palm/ctinfo.h"
 #include "palm/hash_table.h"
+#include "palm/memory.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
 #include "ccn/dynamic_core.h"
+#include "dynamic_backend/gen_helpers.h"
 #include "frontend/ctihelp.h"
 #include "frontend/symboltable.h"
 
@@ -171,6 +173,17 @@ node_st  *CEXitravdata(node_st *node)
 
 node_st *CEXipass(node_st *node)
 {
+    char *func = DGHpassFuncName(node);
+    for (node_st *other = IPASS_NEXT(node); other; other = IPASS_NEXT(other)) {
+        char *other_func = DGHpassFuncName(other);
+        if (STReq(func, other_func)) {
+            struct ctinfo info;
+            id_to_info(IPASS_NAME(other), &info);
+            CTIobj(CTI_ERROR, true, info, "Duplicate pass function: %s\n", func);
+        }
+        MEMfree(other_func);
+    }
+    MEMfree(func);
     checkUID(IPASS_IPREFIX(node));
     TRAVchildren(node);
     return node;
-- 
2.43.0


From 91f131ae5d200004b41ef939478c18d91d71b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:04 +0000
Subject: [PATCH 44/58] fix: names that clash in the generated code were
 accepted

---
 cocogen/frontend/check_attributes.c    | 52 ++++++++++++++-
 cocogen/frontend/check_existance.c     | 91 ++++++++++++++++++++++++++
 cocogen/frontend/check_product_rules.c | 56 ++++++++++++++++
 cocogen/frontend/unwrap_setexpr.c      | 23 +++++++
 4 files changed, 220 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/check_attributes.c b/cocogen/frontend/check_attributes.c
index 82f225b..d1adce2 100644
--- a/cocogen/frontend/check_attributes.c
+++ b/cocogen/frontend/check_attributes.c
@@ -12,9 +12,54 @@
 #include "ccngen/trav.h"
 #include "frontend/ctihelp.h"
 #include "palm/ctinfo.h"
+#include "palm/hash_table.h"
+#include "palm/memory.h"
+#include "palm/str.h"
 
-void CHAinit() { return; }
-void CHAfini() { return; }
+static const int htable_size = 100;
+static htable_st *members = NULL;
+
+void CHAinit() { members = HTnew_String(htable_size); }
+
+static void *delete_key(void *key, void *element) {
+    MEMfree(key);
+    return element;
+}
+
+void CHAfini() {
+    HTmapWithKey(members, delete_key);
+    HTdelete(members);
+}
+
+/* The member of a node or nodeset is accessed with the macro <NODE>_<MEMBER>,
+   which has to be distinct, also if the names contain underscores. The members
+   of a node are stored as well under <node>_children. */
+static void check_member(node_st *owner, node_st *name) {
+    char *key = STRfmt("%s_%s", ID_UPR(owner), ID_UPR(name));
+    char *children = STRfmt("%s_children", ID_LWR(owner));
+    if (HTlookup(members, key) != NULL || STReq(ID_LWR(name), children)) {
+        struct ctinfo info;
+        id_to_info(name, &info);
+        CTIobj(CTI_ERROR, true, info,
+               "Member '%s' of '%s' clashes with another member called '%s'\n",
+               ID_ORIG(name), ID_ORIG(owner), key);
+        CCNerrorAction();
+        MEMfree(key);
+    } else {
+        HTinsert(members, key, name);
+    }
+    MEMfree(children);
+}
+
+static void check_members(node_st *owner, node_st *children,
+                          node_st *attributes) {
+    for (node_st *child = children; child; child = CHILD_NEXT(child)) {
+        check_member(owner, CHILD_NAME(child));
+    }
+    for (node_st *attr = attributes; attr; attr = ATTRIBUTE_NEXT(attr)) {
+        check_member(owner, ATTRIBUTE_NAME(attr));
+    }
+}
 
 /**
  * @fn CHAinodeset
@@ -30,6 +75,7 @@ node_st *CHAinodeset(node_st *node) {
         CCNerrorAction();
     }
 
+    check_members(INODESET_NAME(node), NULL, INODESET_IATTRIBUTES(node));
     TRAViattributes(node);
     TRAVnext(node);
 
@@ -43,6 +89,8 @@ node_st *CHAinode(node_st *node) {
     DATA_CHA_GET()->in_nodeset = false;
     DATA_CHA_GET()->curr_node = node;
 
+    check_members(INODE_NAME(node), INODE_ICHILDREN(node),
+                  INODE_IATTRIBUTES(node));
     TRAViattributes(node);
     TRAVnext(node);
 
diff --git a/cocogen/frontend/check_existance.c b/cocogen/frontend/check_existance.c
index 2cb0524..c8e8e4a 100644
--- a/cocogen/frontend/check_existance.c
+++ b/cocogen/frontend/check_existance.c
@@ -34,13 +34,95 @@ static char *uid_reserved[] = {
     "CHK",
     "DEL",
     "EVAL",
+    "AST",
 };
 
+// Children and attributes are members of structs under their lower case name.
+static char *field_reserved[] = {
+    "asm", "auto", "break", "case", "char", "const", "continue", "default", "do",
+    "double", "else", "enum", "extern", "float", "for", "goto", "if", "inline",
+    "int", "long", "register", "restrict", "return", "short", "signed", "sizeof",
+    "static", "struct", "switch", "typedef", "typeof", "union", "unsigned",
+    "void", "volatile", "while", "ccn_val_set",
+};
+
+// The function that traverses a child is called TRAV<child>, these exist already.
+static char *child_reserved[] = {
+    "dataNOP", "error", "getCurrent", "nop", "opt", "pop", "push",
+};
+
+static void reservedError(node_st *id)
+{
+    struct ctinfo info;
+    id_to_info(id, &info);
+    CTIobj(CTI_ERROR, true, info, "Name is reserved: %s\n", ID_ORIG(id));
+}
+
+static void checkField(node_st *id)
+{
+    for (unsigned int i = 0; i < sizeof(field_reserved)/sizeof(field_reserved[0]); i++) {
+        if (STReq(ID_LWR(id), field_reserved[i])) {
+            reservedError(id);
+        }
+    }
+}
+
+static void checkChild(node_st *id)
+{
+    checkField(id);
+    for (unsigned int i = 0; i < sizeof(child_reserved)/sizeof(child_reserved[0]); i++) {
+        if (STReq(ID_ORIG(id), child_reserved[i])) {
+            reservedError(id);
+        }
+    }
+    if (STRprefix("dataInit", ID_ORIG(id)) || STRprefix("dataFree", ID_ORIG(id))) {
+        reservedError(id);
+    }
+}
+
+// Names of enums and traversal data are used as written.
+static void checkOriginal(node_st *id)
+{
+    if (STReq(ID_ORIG(id), "asm") || STReq(ID_ORIG(id), "typeof")) {
+        reservedError(id);
+    }
+}
+
+static char *enum_reserved[] = {
+    "ctinfo", "nodesettype", "pd_verbosity", "phase_driver",
+};
+
+static void checkEnum(node_st *id)
+{
+    checkOriginal(id);
+    for (unsigned int i = 0; i < sizeof(enum_reserved)/sizeof(enum_reserved[0]); i++) {
+        if (STReq(ID_ORIG(id), enum_reserved[i])) {
+            reservedError(id);
+        }
+    }
+    // The type of traversal data is data_<uid>.
+    for (node_st *trav = AST_ITRAVERSALS(root); trav; trav = ITRAVERSAL_NEXT(trav)) {
+        if (ITRAVERSAL_DATA(trav) && STRprefix("data_", ID_ORIG(id)) &&
+            STReq(ID_ORIG(id) + STRlen("data_"), ID_LWR(ITRAVERSAL_IPREFIX(trav)))) {
+            reservedError(id);
+        }
+    }
+}
+
+// All definitions have an enum value <prefix>_<NAME>, <prefix>_NULL is reserved.
+static void checkName(node_st *id)
+{
+    if (id != NULL && STReq(ID_UPR(id), "NULL")) {
+        reservedError(id);
+    }
+}
+
 void checkUID(node_st *id)
 {
     if (id == NULL) {
         return;
     }
+    checkName(id);
     for (unsigned int i = 0; i < sizeof(uid_reserved)/sizeof(uid_reserved[0]); i++) {
         if (STReq(ID_UPR(id), uid_reserved[i])) {
             CTI(CTI_ERROR, true, "Uid is reversed: %s\n", uid_reserved[i]);
@@ -115,6 +197,7 @@ node_st *CEXiactions(node_st *node)
 
 node_st *CEXiphase(node_st *node)
 {
+    checkName(IPHASE_NAME(node));
     checkUID(IPHASE_IPREFIX(node));
     if (IPHASE_IS_START(node)) {
         if (seen_start_phase) {
@@ -131,6 +214,7 @@ node_st *CEXiphase(node_st *node)
 
 node_st *CEXitraversal(node_st *node)
 {
+    checkName(ITRAVERSAL_NAME(node));
     checkUID(ITRAVERSAL_IPREFIX(node));
     if (trav_data_names != NULL) {
         CCNfree(trav_data_names);
@@ -142,6 +226,7 @@ node_st *CEXitraversal(node_st *node)
 
 node_st  *CEXitravdata(node_st *node)
 {
+    checkOriginal(ITRAVDATA_NAME(node));
     node_st *poss_conflict = STlookup(trav_data_names, ITRAVDATA_NAME(node));
     if (poss_conflict != NULL) {
         struct ctinfo info = {.filename = globals.filename, .first_line = ID_ROW(ITRAVDATA_NAME(node))};
@@ -184,6 +269,7 @@ node_st *CEXipass(node_st *node)
         MEMfree(other_func);
     }
     MEMfree(func);
+    checkName(IPASS_NAME(node));
     checkUID(IPASS_IPREFIX(node));
     TRAVchildren(node);
     return node;
@@ -191,6 +277,7 @@ node_st *CEXipass(node_st *node)
 
 node_st *CEXinode(node_st *node)
 {
+    checkName(INODE_NAME(node));
     if (STReq(ID_LWR(INODE_NAME(node)), "node")) {
         struct ctinfo info;
         id_to_info(INODE_NAME(node), &info);
@@ -216,6 +303,7 @@ node_st *CEXinode(node_st *node)
 
 node_st *CEXinodeset(node_st *node)
 {
+    checkName(INODESET_NAME(node));
     TRAViattributes(node);
     TRAVexpr(node);
     if (node_ste != NULL) {
@@ -250,6 +338,7 @@ node_st *CEXchild(node_st *node)
         id_to_info(CHILD_NAME(node), &info);
         CTIobj(CTI_ERROR, true, info, "Child is not a node or nodeset: %s\n", ID_ORIG(CHILD_NAME(node)));
     }
+    checkChild(CHILD_NAME(node));
     if (STlookup(node_ste, CHILD_NAME(node)) == NULL) {
         node_ste = STadd(node_ste, CHILD_NAME(node), node);
     } else {
@@ -305,6 +394,7 @@ node_st *CEXsetliteral(node_st *node)
 
 node_st *CEXattribute(node_st *node)
 {
+    checkField(ATTRIBUTE_NAME(node));
     if (STlookup(node_ste, ATTRIBUTE_NAME(node)) == NULL) {
         node_ste = STadd(node_ste, ATTRIBUTE_NAME(node), node);
     } else {
@@ -364,6 +454,7 @@ static char *preserved_enum_prefix[] = {
 
 node_st *CEXienum(node_st *node)
 {
+    checkEnum(IENUM_NAME(node));
     for (unsigned int i = 0; i < sizeof(preserved_enum_prefix)/sizeof(preserved_enum_prefix[0]); i++) {
         if (STReq(preserved_enum_prefix[i], ID_UPR(IENUM_IPREFIX(node)))) {
             CTI(CTI_ERROR, true, "Enum prefix %s is reversed.", preserved_enum_prefix[i]);
diff --git a/cocogen/frontend/check_product_rules.c b/cocogen/frontend/check_product_rules.c
index 045d015..8dd2e9b 100644
--- a/cocogen/frontend/check_product_rules.c
+++ b/cocogen/frontend/check_product_rules.c
@@ -225,6 +225,61 @@ static void check_product_rule(node_st *equations, node_st *node_name,
     }
 }
 
+/* Visits and equations use variables called <child>_<attribute>, which have to
+   be distinct, also if the names contain underscores. */
+static void check_variable(htable_st *variables, node_st *child,
+                           node_st *attribute) {
+    char *child_name = child == NULL ? "this" : ID_LWR(child);
+    char *variable = STRfmt("%s_%s", child_name, ID_LWR(attribute));
+    char *owner = HTlookup(variables, variable);
+    if (owner == NULL) {
+        HTinsert(variables, variable, child_name);
+        return;
+    }
+
+    if (!STReq(owner, child_name)) {
+        struct ctinfo info;
+        id_to_info(INODE_NAME(DATA_CPR_GET()->curr_node), &info);
+        CTIobj(CTI_ERROR, true, info,
+               "Attribute '%s.%s' of node '%s' clashes with another attribute "
+               "called '%s'\n",
+               child_name, ID_ORIG(attribute),
+               ID_ORIG(INODE_NAME(DATA_CPR_GET()->curr_node)), variable);
+        CCNerrorAction();
+    }
+    MEMfree(variable);
+}
+
+static void check_variables(node_st *node) {
+    htable_st *variables = HTnew_String(htable_size);
+    for (node_st *child = INODE_ICHILDREN(node); child != NULL;
+         child = CHILD_NEXT(child)) {
+        node_st *type =
+            STlookup(DATA_CPR_GET()->symboltable, CHILD_TYPE_REFERENCE(child));
+        node_st *attribute = NODE_TYPE(type) == NT_INODE
+                                 ? INODE_IATTRIBUTES(type)
+                                 : INODESET_IATTRIBUTES(type);
+        for (; attribute != NULL; attribute = ATTRIBUTE_NEXT(attribute)) {
+            if (ATTRIBUTE_IS_INHERITED(attribute) ||
+                ATTRIBUTE_IS_SYNTHESIZED(attribute)) {
+                check_variable(variables, CHILD_NAME(child),
+                               ATTRIBUTE_NAME(attribute));
+            }
+        }
+    }
+    for (node_st *eq = INODE_IEQUATIONS(node); eq != NULL;
+         eq = EQUATION_NEXT(eq)) {
+        for (node_st *arg = EQUATION_IARGS(eq); arg != NULL;
+             arg = EQUATION_DEPENDENCY_NEXT(arg)) {
+            node_st *ref = EQUATION_DEPENDENCY_IATTRIBUTE(arg);
+            check_variable(variables, ATTRIBUTE_REFERENCE_INODE(ref),
+                           ATTRIBUTE_REFERENCE_IATTRIBUTE(ref));
+        }
+    }
+    HTmapWithKey(variables, delete_keys);
+    HTdelete(variables);
+}
+
 /**
  * @fn CPRast
  */
@@ -239,6 +294,7 @@ node_st *CPRast(node_st *node) {
  */
 node_st *CPRinode(node_st *node) {
     DATA_CPR_GET()->curr_node = node;
+    check_variables(node);
     TRAViequations(node);
     TRAVichildren(node);
     TRAViattributes(node);
diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index c6a1b7f..2b95cd6 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -19,6 +19,24 @@
 
 static node_st *ste;
 
+// Traversal data is created by <UID>init and released by <UID>fini.
+static void check_data_handlers(node_st *trav, node_st *node)
+{
+    if (node == NULL) {
+        return;
+    }
+    bool is_literal = NODE_TYPE(node) == NT_SETLITERAL;
+    node_st *name = is_literal ? SETLITERAL_REFERENCE(node) : INODE_NAME(node);
+    if (STReq(ID_LWR(name), "init") || STReq(ID_LWR(name), "fini")) {
+        struct ctinfo info;
+        id_to_info(ITRAVERSAL_NAME(trav), &info);
+        CTIobj(CTI_ERROR, true, info, "Traversal '%s' has data and can not visit node '%s'\n", ID_ORIG(ITRAVERSAL_NAME(trav)), ID_ORIG(name));
+        CCNerrorAction();
+    }
+    check_data_handlers(trav, is_literal ? SETLITERAL_LEFT(node) : INODE_NEXT(node));
+    check_data_handlers(trav, is_literal ? SETLITERAL_RIGHT(node) : NULL);
+}
+
 node_st *USEast(node_st *node)
 {
     ste = AST_STABLE(node);
@@ -39,6 +57,11 @@ node_st *USEast(node_st *node)
         }
     }
     HTdelete(restricted);
+    for (node_st *trav = AST_ITRAVERSALS(node); trav; trav = ITRAVERSAL_NEXT(trav)) {
+        if (ITRAVERSAL_DATA(trav)) {
+            check_data_handlers(trav, ITRAVERSAL_INODES(trav) ? ITRAVERSAL_INODES(trav) : AST_INODES(node));
+        }
+    }
     return node;
 }
 
-- 
2.43.0


From e01dfa4267431b48e3c82824bfe080b9b219a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:34 +0000
Subject: [PATCH 45/58] fix: files that could not be written completely were
 taken for complete

---
 .../schedule_attribute_visits.c               |  8 ++++--
 cocogen/generator/generator.c                 | 27 ++++++++++++++++---
 cocogen/generator/generator.h                 |  1 +
 cocogen/main.c                                |  1 +
 4 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index 25de038..161daaf 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -715,7 +715,6 @@ node_st *SAVast(node_st *node) {
         CTI(CTI_ERROR, false, "Could not open file: %s\n", log_file_name);
         CTIabortCompilation();
     }
-    MEMfree(log_file_name);
 
     // Schedule visit sequences
     htable_st *visit_mdata_htable = HTnew_Ptr(htable_size);
@@ -733,7 +732,12 @@ node_st *SAVast(node_st *node) {
         fprintf(log_file, "\n\n");
     }
 
-    fclose(log_file);
+    bool log_failed = ferror(log_file) != 0;
+    if (fclose(log_file) != 0 || log_failed) {
+        CTI(CTI_ERROR, true, "Could not write file: %s\n", log_file_name);
+        CTIabortCompilation();
+    }
+    MEMfree(log_file_name);
 
     // fill in visit stubs
     for (node_st *inode = AST_INODES(node); inode != NULL;
diff --git a/cocogen/generator/generator.c b/cocogen/generator/generator.c
index a538476..6aa4fbb 100644
--- a/cocogen/generator/generator.c
+++ b/cocogen/generator/generator.c
@@ -8,11 +8,13 @@
 #include <assert.h>
 #include <globals.h>
 #include <stdarg.h>
+#include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
 
 typedef struct GeneratorContext {
     FILE *fp;
+    char *filename;
     unsigned short indent_level;
     unsigned short indent_size;
 } GeneratorContext;
@@ -24,6 +26,7 @@ GeneratorContext *GNnew()
     ctx->indent_size = 4;
     ctx->indent_level = 0;
     ctx->fp = NULL;
+    ctx->filename = NULL;
     return ctx;
 }
 
@@ -38,12 +41,30 @@ void GNindentDecrease(GeneratorContext *ctx)
     ctx->indent_level--;
 }
 
+/**
+ * Close the file that is being written, if any. Exits if its contents could
+ * not be written completely.
+ */
+void GNcloseFile(GeneratorContext *ctx)
+{
+    if (!ctx->fp) {
+        return;
+    }
+
+    bool failed = ferror(ctx->fp) != 0;
+    if (fclose(ctx->fp) != 0 || failed) {
+        fprintf(stderr, "Could not write file: %s\n", ctx->filename);
+        exit(1);
+    }
+    ctx->fp = NULL;
+    ctx->filename = MEMfree(ctx->filename);
+}
+
 void GNopenFile(GeneratorContext *ctx, const char *filename)
 {
     printf("Opening: %s\n", filename);
-    if (ctx->fp) {
-        fclose(ctx->fp);
-    }
+    GNcloseFile(ctx);
+    ctx->filename = STRcpy(filename);
     ctx->fp = fopen(filename, "w");
     if (!ctx->fp) {
         fprintf(stderr, "Could not open file: %s\n", filename);
diff --git a/cocogen/generator/generator.h b/cocogen/generator/generator.h
index fa00710..e2ab24a 100644
--- a/cocogen/generator/generator.h
+++ b/cocogen/generator/generator.h
@@ -22,5 +22,6 @@ void GNopenSourceFile(GeneratorContext *ctx, const char *filename);
 void GNopenAGDotFile(GeneratorContext *ctx, const char *filename);
 void GNopenUserFile(GeneratorContext *ctx, const char *filename);
 void GNopenFile(GeneratorContext *ctx, const char *filename);
+void GNcloseFile(GeneratorContext *ctx);
 void GNindentIncrease(GeneratorContext *ctx);
 void GNindentDecrease(GeneratorContext *ctx);
diff --git a/cocogen/main.c b/cocogen/main.c
index 0e6c0b6..a6f2225 100644
--- a/cocogen/main.c
+++ b/cocogen/main.c
@@ -74,6 +74,7 @@ int main(int argc, char *argv[])
 
     printf("--------------- Generating ---------------\n");
     CCNrun(NULL);
+    GNcloseFile(globals.gen_ctx);
     printf("---------------    Done    ---------------\n");
 
     return 0;
-- 
2.43.0


From d61d1dec6a2f6c2f92bb380aabc0f62372736a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:35 +0000
Subject: [PATCH 46/58] fix: a hash table without memory for its entries
 crashed

---
 palm/src/hash_table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palm/src/hash_table.c b/palm/src/hash_table.c
index 26c1026..7b674c7 100644
--- a/palm/src/hash_table.c
+++ b/palm/src/hash_table.c
@@ -7,6 +7,7 @@
 
 #include "palm/hash_table.h"
 #include "palm/memory.h"
+#include "palm/ctinfo.h"
 #include "palm/str.h"
 #include "palm/dbug.h"
 
@@ -44,6 +45,9 @@ struct htable *HTnew(size_t size, hash_key_ft hash_func, is_equal_ft is_equal_fu
     table->size = size;
     table->elements = 0;
     table->entries = calloc(sizeof(struct htable_entry *), size);
+    if (table->entries == NULL) {
+        CTIabortOutOfMemory(sizeof(struct htable_entry *) * size);
+    }
     table->hash_f = hash_func;
     table->is_equal_f = is_equal_func;
 
-- 
2.43.0


From 273aae66f86d79861cac51ce4854c32dd98959a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:35 +0000
Subject: [PATCH 47/58] fix: failed allocations in the parser and lexer crashed
 or were ignored

---
 cocogen/frontend/scanAndParse/dsl-lexer.l  |  5 ++++-
 cocogen/frontend/scanAndParse/dsl-parser.y | 10 +++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/cocogen/frontend/scanAndParse/dsl-lexer.l b/cocogen/frontend/scanAndParse/dsl-lexer.l
index a5fd9df..b7b90b0 100644
--- a/cocogen/frontend/scanAndParse/dsl-lexer.l
+++ b/cocogen/frontend/scanAndParse/dsl-lexer.l
@@ -16,7 +16,7 @@
 #define LEX_KEYWORD(k) if (yy_lex_keywords) \
                                 return k;   \
                             else {          \
-                                yylval.string = strdup(yytext); \
+                                yylval.string = STRcpy(yytext); \
                                 return T_ID; \
                             } \
 
@@ -238,6 +238,9 @@ static inline void check_c_keyword(const char *str) {
         CTIobj(CTI_ERROR, true, info, "Found C-keyword as identifier, "
                 "which would generate invalid C code.");
         CTIabortOnError();
+    } else if (reti != REG_NOMATCH) {
+        CTI(CTI_ERROR, true, "Could not match C keyword regex.");
+        CTIabortOnError();
     }
 }
 
diff --git a/cocogen/frontend/scanAndParse/dsl-parser.y b/cocogen/frontend/scanAndParse/dsl-parser.y
index 7f2b65d..f1713ec 100644
--- a/cocogen/frontend/scanAndParse/dsl-parser.y
+++ b/cocogen/frontend/scanAndParse/dsl-parser.y
@@ -47,7 +47,7 @@ struct bison_attribute_options {
 
 struct bison_attribute_options *parse_attribute_options(struct bison_attribute_options_temp *start) {
     struct bison_attribute_options_temp *cur, *prev;
-    struct bison_attribute_options *data = malloc(sizeof(struct bison_attribute_options));
+    struct bison_attribute_options *data = MEMmalloc(sizeof(struct bison_attribute_options));
     data->lifetime = NULL;
     data->constructor = false;
     data->inherited = false;
@@ -752,22 +752,22 @@ attribute_optional_keywords:
 
 attribute_optional_keyword: T_CONSTRUCTOR
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_constructor;
     }
     | T_INHERITED
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_inherited;
     }
     | T_SYNTHESIZED
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_synthesized;
     }
     | lifetime
     {
-        $$ = malloc(sizeof(struct bison_attribute_options_temp));
+        $$ = MEMmalloc(sizeof(struct bison_attribute_options_temp));
         $$->value = BISON_BAO_lifetime;
         $$->lifetime = $1;
         ILIFETIME_NEXT($$->lifetime) = NULL;
-- 
2.43.0


From 472c8da11163cf811ddc5bd27d29f4b02d3f946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:35 +0000
Subject: [PATCH 48/58] fix: debug builds crashed on visits whose outputs
 nothing needs

---
 cocogen/dynamic_backend/gen_visit_source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_visit_source.c b/cocogen/dynamic_backend/gen_visit_source.c
index 6246c96..fcf2bd7 100644
--- a/cocogen/dynamic_backend/gen_visit_source.c
+++ b/cocogen/dynamic_backend/gen_visit_source.c
@@ -474,7 +474,7 @@ node_st *DGVSvisit_sequence_eval(node_st *node) {
 
 static inline bool is_desired(node_st *output, node_st *outputs) {
     assert(NODE_TYPE(output) == NT_VISIT_ARG_LIST);
-    assert(NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
+    assert(!outputs || NODE_TYPE(outputs) == NT_VISIT_ARG_LIST);
     for (node_st *candidate = outputs; candidate;
          candidate = VISIT_ARG_LIST_NEXT(candidate)) {
         node_st *attr = VISIT_ARG_LIST_ATTRIBUTE(output);
-- 
2.43.0


From 15a417de6a6624db14200b0e6aad527ce60ff83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:35 +0000
Subject: [PATCH 49/58] fix: --show-ast crashed on specifications with
 equations

---
 cocogen/print/print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/print/print.c b/cocogen/print/print.c
index 8c77378..1218016 100644
--- a/cocogen/print/print.c
+++ b/cocogen/print/print.c
@@ -478,7 +478,7 @@ node_st *PRTvisit_sequence_eval(node_st *node)
 {
     PrintIndent();
     printf("eval ");
-    TRAVattribute(node);
+    PRTattribute_reference(VISIT_SEQUENCE_EVAL_ATTRIBUTE(node));
     printf("\n");
     TRAVnext(node);
     return node;
-- 
2.43.0


From eb44007c292a047ff7a0f23decde9426ce79d00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:23 +0000
Subject: [PATCH 50/58] fix: missing declaration in the unwrapping of set
 expressions

---
 cocogen/frontend/unwrap_setexpr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/frontend/unwrap_setexpr.c b/cocogen/frontend/unwrap_setexpr.c
index 2b95cd6..cf854ee 100644
--- a/cocogen/frontend/unwrap_setexpr.c
+++ b/cocogen/frontend/unwrap_setexpr.c
@@ -11,6 +11,7 @@
 #include "palm/hash_table.h"
 #include "palm/str.h"
 #include "ccngen/ast.h"
+#include "ccngen/trav.h"
 #include "ccn/ccn.h"
 #include "ccn/dynamic_core.h"
 #include "sets/set.h"
-- 
2.43.0


From 5e48327e9ab04c28fe413122fac5dc2237cb1a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:32 +0000
Subject: [PATCH 51/58] fix: generated code for string attributes defined by
 equations did not compile

---
 cocogen/dynamic_backend/gen_free_traversal.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_free_traversal.c b/cocogen/dynamic_backend/gen_free_traversal.c
index ae3b5d8..31f6357 100644
--- a/cocogen/dynamic_backend/gen_free_traversal.c
+++ b/cocogen/dynamic_backend/gen_free_traversal.c
@@ -91,7 +91,13 @@ node_st *DGFTattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (ATTRIBUTE_TYPE(node) == AT_string) {
-        OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
+        if (ATTRIBUTE_IS_INHERITED(node) || ATTRIBUTE_IS_SYNTHESIZED(node)) {
+            OUT_BEGIN_IF("arg_node->data.N_%s->_%s.ccn_val_set", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT_FIELD("MEMfree(arg_node->data.N_%s->_%s.%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)), ID_LWR(ATTRIBUTE_NAME(node)));
+            OUT_END_IF();
+        } else {
+            OUT_FIELD("MEMfree(arg_node->data.N_%s->%s)", ID_LWR(INODE_NAME(curr_node)), ID_LWR(ATTRIBUTE_NAME(node)));
+        }
     }
     TRAVnext(node);
     return node;
-- 
2.43.0


From 8ce07e83b2964afe427825c086fe8459aafbd83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:21 +0000
Subject: [PATCH 52/58] fix: attributes redeclared with their type in another
 letter case were rejected

---
 cocogen/frontend/nodesets/propagate_attributes.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cocogen/frontend/nodesets/propagate_attributes.c b/cocogen/frontend/nodesets/propagate_attributes.c
index eaee164..429f593 100644
--- a/cocogen/frontend/nodesets/propagate_attributes.c
+++ b/cocogen/frontend/nodesets/propagate_attributes.c
@@ -26,8 +26,13 @@ static inline bool compare_attribute_types(node_st *a, node_st *b) {
         return false;
     }
 
-    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum ||
-        ATTRIBUTE_TYPE(a) == AT_user) {
+    // The names of nodes, nodesets and enums are case insensitive.
+    if (ATTRIBUTE_TYPE(a) == AT_link || ATTRIBUTE_TYPE(a) == AT_link_or_enum) {
+        return STReq(ID_LWR(ATTRIBUTE_TYPE_REFERENCE(a)),
+                     ID_LWR(ATTRIBUTE_TYPE_REFERENCE(b)));
+    }
+
+    if (ATTRIBUTE_TYPE(a) == AT_user) {
         return STReq(ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(a)),
                      ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(b)));
     }
-- 
2.43.0


From 444bb9505ff1f25a5266c579b689c418b22a2c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:57 +0000
Subject: [PATCH 53/58] fix: the constructor named the type of an enum as the
 reference writes it

---
 cocogen/dynamic_backend/gen_node_constructor.c | 2 ++
 cocogen/dynamic_backend/gen_node_init_funcs.c  | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/cocogen/dynamic_backend/gen_node_constructor.c b/cocogen/dynamic_backend/gen_node_constructor.c
index 0cbf708..0891ba7 100644
--- a/cocogen/dynamic_backend/gen_node_constructor.c
+++ b/cocogen/dynamic_backend/gen_node_constructor.c
@@ -11,6 +11,7 @@
 
 
 extern bool dgif_print_semicolon;
+extern node_st *dgif_symboltable;
 static char *basic_node_type = "node_st";
 static long num_children = 0;
 static char *node_name_upr = NULL;
@@ -19,6 +20,7 @@ static char *node_name_lwr = NULL;
 node_st *DGNCast(node_st *node)
 {
     dgif_print_semicolon = false;
+    dgif_symboltable = AST_STABLE(node);
     TRAVinodes(node);
     return node;
 }
diff --git a/cocogen/dynamic_backend/gen_node_init_funcs.c b/cocogen/dynamic_backend/gen_node_init_funcs.c
index 5a6fb11..5a00021 100644
--- a/cocogen/dynamic_backend/gen_node_init_funcs.c
+++ b/cocogen/dynamic_backend/gen_node_init_funcs.c
@@ -9,8 +9,10 @@
 #include "ccn/dynamic_core.h"
 #include "ccngen/trav.h"
 #include "dynamic_backend/gen_helpers.h"
+#include "frontend/symboltable.h"
 
 bool dgif_print_semicolon = false;
+node_st *dgif_symboltable = NULL;
 static char *basic_node_type = "node_st";
 static char *curr_node_name = NULL;
 static char *curr_node_name_upr = NULL;
@@ -19,6 +21,7 @@ static int arg_num = 0;
 node_st *DGIFast(node_st *node)
 {
     dgif_print_semicolon = true;
+    dgif_symboltable = AST_STABLE(node);
     TRAVinodes(node);
     return node;
 }
@@ -71,7 +74,9 @@ node_st *DGIFattribute(node_st *node)
         if (ATTRIBUTE_TYPE(node) == AT_link) {
             OUT("%s *%s", basic_node_type, DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_link_or_enum) {
-            OUT("enum %s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
+            node_st *ref = STlookup(dgif_symboltable, ATTRIBUTE_TYPE_REFERENCE(node));
+            assert(ref != NULL && NODE_TYPE(ref) == NT_IENUM);
+            OUT("enum %s %s", ID_ORIG(IENUM_NAME(ref)), DGHattributeField(node));
         } else if (ATTRIBUTE_TYPE(node) == AT_user) {
             OUT("%s %s", ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)), DGHattributeField(node));
         } else {
-- 
2.43.0


From 5942fc6c0251885d1779d674bcd0110f87150fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:25 +0000
Subject: [PATCH 54/58] fix: references in another letter case and names like
 Graph made ast.dot wrong

---
 cocogen/dot/gen_dot.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/cocogen/dot/gen_dot.c b/cocogen/dot/gen_dot.c
index 72897d6..05a90df 100644
--- a/cocogen/dot/gen_dot.c
+++ b/cocogen/dot/gen_dot.c
@@ -7,6 +7,7 @@
 #include "ccngen/ast.h"
 #include "ccngen/trav.h"
 #include "palm/hash_table.h"
+#include <frontend/symboltable.h>
 #include <gen_helpers/out_macros.h>
 #include <globals.h>
 #include <stdio.h>
@@ -14,11 +15,26 @@
 static node_st *curr_node;
 static node_st *curr_nodeset;
 static htable_st *seen;
+static node_st *symboltable;
+
+/* The name of a node or nodeset as it is defined, whatever the letter case of the reference. */
+static char *DefinedName(node_st *reference)
+{
+    node_st *target = STlookup(symboltable, reference);
+    if (target && NODE_TYPE(target) == NT_INODE) {
+        return ID_ORIG(INODE_NAME(target));
+    }
+    if (target && NODE_TYPE(target) == NT_INODESET) {
+        return ID_ORIG(INODESET_NAME(target));
+    }
+    return ID_ORIG(reference);
+}
 
 node_st *GDast(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     seen = HTnew_String(10);
+    symboltable = AST_STABLE(node);
     GNopenSourceFile(ctx, "ast.dot");
     OUT("digraph Ast {\n");
     TRAVinodes(node);
@@ -33,7 +49,7 @@ node_st *GDinode(node_st *node)
     GeneratorContext *ctx = globals.gen_ctx;
     HTclear(seen);
     curr_node = node;
-    OUT("%s;\n", ID_ORIG(INODE_NAME(node)));
+    OUT("\"%s\";\n", ID_ORIG(INODE_NAME(node)));
     TRAVichildren(node);
     TRAViattributes(node);
     TRAVnext(node);
@@ -43,7 +59,7 @@ node_st *GDinode(node_st *node)
 node_st *GDinodeset(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
-    OUT("%s;\n", ID_ORIG(INODESET_NAME(node)));
+    OUT("\"%s\";\n", ID_ORIG(INODESET_NAME(node)));
     curr_nodeset = node;
     TRAVexpr(node);
     TRAVnext(node);
@@ -54,7 +70,7 @@ node_st *GDsetliteral(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (node && SETLITERAL_REFERENCE(node)) {
-        OUT("%s -> %s [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), ID_ORIG(SETLITERAL_REFERENCE(node)));
+        OUT("\"%s\" -> \"%s\" [color=blue]\n", ID_ORIG(INODESET_NAME(curr_nodeset)), DefinedName(SETLITERAL_REFERENCE(node)));
     }
     TRAVright(node);
     TRAVleft(node);
@@ -65,8 +81,8 @@ node_st *GDattribute(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (ATTRIBUTE_TYPE(node) == AT_link) {
-        OUT("%s -> %s[color=red, label=\"%s\"]\n",
-            ID_ORIG(INODE_NAME(curr_node)), ID_ORIG(ATTRIBUTE_TYPE_REFERENCE(node)),
+        OUT("\"%s\" -> \"%s\"[color=red, label=\"%s\"]\n",
+            ID_ORIG(INODE_NAME(curr_node)), DefinedName(ATTRIBUTE_TYPE_REFERENCE(node)),
             ID_ORIG(ATTRIBUTE_NAME(node)));
     }
 
@@ -78,7 +94,7 @@ node_st *GDchild(node_st *node)
 {
     GeneratorContext *ctx = globals.gen_ctx;
     if (!HTlookup(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)))) {
-        OUT("%s -> %s[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), ID_ORIG(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
+        OUT("\"%s\" -> \"%s\"[label=\"%s\"]\n", ID_ORIG(INODE_NAME(curr_node)), DefinedName(CHILD_TYPE_REFERENCE(node)), ID_ORIG(CHILD_NAME(node)));
         //HTinsert(seen, ID_LWR(CHILD_TYPE_REFERENCE(node)), node);
     }
 
-- 
2.43.0


From 66c41a20f96a11f8d713235187302042f28c2e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:25 +0000
Subject: [PATCH 55/58] fix: diagrams of attribute grammars merged things with
 similar names

---
 cocogen/dot/gen_dot_ag.c                      | 35 ++++++++++++-------
 .../schedule_attribute_visits.c               |  2 +-
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/cocogen/dot/gen_dot_ag.c b/cocogen/dot/gen_dot_ag.c
index 8f7a438..82f21db 100644
--- a/cocogen/dot/gen_dot_ag.c
+++ b/cocogen/dot/gen_dot_ag.c
@@ -24,6 +24,17 @@ static inline node_st *get_node_name(node_st *node) {
     }
 }
 
+/* Names of productions, nodes, children and attributes contain no dots, so
+ * names that are joined by dots cannot be taken for one another. The node
+ * itself starts with another dot, as a child may be called like it. */
+static void print_attribute(GeneratorContext *ctx, char *production,
+                            struct GRnode *node) {
+    OUT("\"attr.%s.%s%s.%s\"", production,
+        NODE_TYPE(node->node) == NT_CHILD ? "" : ".",
+        ID_LWR(get_node_name(node->node)),
+        ID_LWR(ATTRIBUTE_NAME(node->attribute)));
+}
+
 GDag_st *GDag_dot_init(char *filename) {
     GDag_st *dot = MEMmalloc(sizeof(struct GDag));
     GeneratorContext *ctx = globals.gen_ctx;
@@ -66,17 +77,18 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
                         htable_st *partition_table) {
     (void)dot;
     GeneratorContext *ctx = globals.gen_ctx;
-    htable_st *seen = HTnew_String(10);
-    OUT("subgraph cluster_%s {\n", name);
+    htable_st *seen = HTnew_Ptr(10);
+    OUT("subgraph \"cluster_%s\" {\n", name);
     OUT("style=\"filled\";\n");
     OUT("color=\"lightgrey\";\n");
     OUT("label=<Production of <B>%s</B>>;\n", name);
     for (struct GRnode *node = graph->nodes; node != NULL; node = node->next) {
         bool child = NODE_TYPE(node->node) == NT_CHILD;
         node_st *node_name = get_node_name(node->node);
-        if (HTlookup(seen, ID_LWR(node_name)) == NULL) {
-            HTinsert(seen, ID_LWR(node_name), node_name);
-            OUT("subgraph cluster_%s__%s {\n", name, ID_LWR(node_name));
+        if (HTlookup(seen, node->node) == NULL) {
+            HTinsert(seen, node->node, node_name);
+            OUT("subgraph \"cluster_%s.%s%s\" {\n", name, child ? "" : ".",
+                ID_LWR(node_name));
             OUT("style=\"filled\";\n");
             OUT("color=\"ivory\";\n");
             if (child) {
@@ -92,9 +104,8 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
                 if (attr->node != node->node) {
                     continue;
                 }
-                OUT("attr_%s__%s__%s [label=<%s", name, ID_LWR(node_name),
-                    ID_LWR(ATTRIBUTE_NAME(attr->attribute)),
-                    ID_ORIG(ATTRIBUTE_NAME(attr->attribute)));
+                print_attribute(ctx, name, attr);
+                OUT(" [label=<%s", ID_ORIG(ATTRIBUTE_NAME(attr->attribute)));
 
                 if (partition_table != NULL) {
                     size_t partition =
@@ -124,11 +135,9 @@ void GDag_dot_add_graph(GDag_st *dot, node_st *st, graph_st *graph, char *name,
             continue;
         }
 
-        OUT("attr_%s__%s__%s -> attr_%s__%s__%s", name,
-            ID_LWR(get_node_name(n1->node)),
-            ID_LWR(ATTRIBUTE_NAME(n1->attribute)), name,
-            ID_LWR(get_node_name(n2->node)),
-            ID_LWR(ATTRIBUTE_NAME(n2->attribute)));
+        print_attribute(ctx, name, n1);
+        OUT(" -> ");
+        print_attribute(ctx, name, n2);
         if (edge->type == GRinduced) {
             OUT(" [style=\"dotted\"]");
         }
diff --git a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
index 161daaf..87ecc5b 100644
--- a/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
+++ b/cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c
@@ -472,7 +472,7 @@ static void dump_dotfile(htable_st *graphs, char *filename,
             char *name;
             if (multiple) {
                 char *tmp = STRitoa(i);
-                name = STRcatn(3, ID_ORIG(dot_name), "_", tmp);
+                name = STRcatn(3, ID_ORIG(dot_name), ".", tmp);
                 MEMfree(tmp);
             } else {
                 name = ID_ORIG(dot_name);
-- 
2.43.0


From 208d875bfee1d08f6e0486235090b7b541308784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:04 +0000
Subject: [PATCH 56/58] fix: --show-ast prints every pass instead of only the
 first

---
 cocogen/print/print.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cocogen/print/print.c b/cocogen/print/print.c
index 1218016..38007e1 100644
--- a/cocogen/print/print.c
+++ b/cocogen/print/print.c
@@ -98,6 +98,7 @@ node_st *PRTitravdata(node_st *node)
 node_st *PRTipass(node_st *node)
 {
     printf("Pass: %s\n", ID_ORIG(IPASS_NAME(node)));
+    TRAVnext(node);
     return node;
 }
 
-- 
2.43.0


From c7460e0066c6721fb793287fe0badecc48842f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:04 +0000
Subject: [PATCH 57/58] fix: number the actions of the start phase only, not
 again those of the phases defined after it

---
 cocogen/frontend/lifetimes/assign_id_to_actions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/lifetimes/assign_id_to_actions.c b/cocogen/frontend/lifetimes/assign_id_to_actions.c
index 3c7814f..f01eb84 100644
--- a/cocogen/frontend/lifetimes/assign_id_to_actions.c
+++ b/cocogen/frontend/lifetimes/assign_id_to_actions.c
@@ -20,7 +20,7 @@ node_st *AITAast(node_st *node)
 {
     ste = AST_STABLE(node);
     assert(AST_START_PHASE(node) != NULL);
-    TRAVdo(AST_START_PHASE(node));
+    TRAViactions(AST_START_PHASE(node));
     return node;
 }
 
-- 
2.43.0


From dbeedf9d0746f43edcf28564f664ea23bea6e4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:04 +0000
Subject: [PATCH 58/58] fix: reach through a nodeset follows its members, not
 also the nodesets defined after it

---
 cocogen/frontend/reachability.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cocogen/frontend/reachability.c b/cocogen/frontend/reachability.c
index bbd8474..d37b2be 100644
--- a/cocogen/frontend/reachability.c
+++ b/cocogen/frontend/reachability.c
@@ -91,7 +91,7 @@ node_st *RCBinode(node_st *node)
 
 node_st *RCBinodeset(node_st *node)
 {
-    TRAVchildren(node);
+    TRAVexpr(node);
     return node;
 }
 
-- 
2.43.0

