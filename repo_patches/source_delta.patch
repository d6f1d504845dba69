From ef345e075503551d30ceaca5cff717835ce73334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 01/38] fix: stop at the end of the string when stripping
 modules.conf tokens

strip_space() searched for trailing whitespace without checking for the end of
the string: 'name=base' (no space before '=', or a last line without a newline)
was scanned, and truncated, beyond the end of the buffer.
---
 src/startup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/startup.c b/src/startup.c
index 142f89d..4e44860 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -112,7 +112,7 @@ static char *strip_space(char *str)
 
 	char *end = str;
 
-	while (!is_space(*end)) {
+	while (*end != '\0' && !is_space(*end)) {
 		end++;
 	}
 
-- 
2.43.0


From 8f21e5df47b62cad26ed17b27d14de1d76cb1f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 02/38] fix: allocate enough space when a template argument is
 used repeatedly

replace_m4() accounted for every argument once, so a name such as
'$1_$1_$1_t' overflowed the allocated buffer.
---
 src/template.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/template.c b/src/template.c
index 759f73f..a0e3479 100644
--- a/src/template.c
+++ b/src/template.c
@@ -26,14 +26,22 @@
 char *replace_m4(const char *orig, const struct string_list *args)
 {
 	size_t len_to_malloc = strlen(orig) + 1;
+	size_t max_arg_len = 0;
 	const struct string_list *cur = args;
 
 	while (cur) {
-		len_to_malloc += strlen(cur->string);
+		const size_t arg_len = strlen(cur->string);
+		if (arg_len > max_arg_len) {
+			max_arg_len = arg_len;
+		}
 		cur = cur->next;
 	}
+	// An argument can be substituted any number of times
+	for (const char *pos = strchr(orig, '$'); pos; pos = strchr(pos + 1, '$')) {
+		len_to_malloc += max_arg_len;
+	}
 	// len_to_malloc is now overestimated, because the length of the original
-	// arguments wasn't subtracted and not all args are necessarily substituted
+	// arguments wasn't subtracted and not all args have the maximum length
 	char *ret = malloc(len_to_malloc);
 	*ret = '\0';            // If the string is only a substitution that there is no argument for, we need to be terminated
 	const char *orig_pos = orig;
-- 
2.43.0


From dc4dad4a618ebc427b92bdb3aedd81af288d05f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 03/38] fix: do not crash on template calls without
 substitutable arguments

A call without arguments inside a template has a NULL argument list, and
arguments like $* cannot be substituted; both ended in a NULL pointer
dereference once the template was called.
---
 src/template.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/template.c b/src/template.c
index a0e3479..a267588 100644
--- a/src/template.c
+++ b/src/template.c
@@ -83,18 +83,18 @@ char *replace_m4(const char *orig, const struct string_list *args)
 struct string_list *replace_m4_list(const struct string_list *replace_with,
                                     const struct string_list *replace_from)
 {
-	struct string_list *ret = calloc(1, sizeof(struct string_list));
-	struct string_list *cur = ret;
-
-	cur->string = replace_m4(replace_from->string, replace_with);
-	cur->next = NULL;
-	replace_from = replace_from->next;
+	struct string_list *ret = NULL;
+	struct string_list **next = &ret;
 
 	while (replace_from) {
-		cur->next = calloc(1, sizeof(struct string_list));
-		cur = cur->next;
+		struct string_list *cur = calloc(1, sizeof(struct string_list));
 		cur->string = replace_m4(replace_from->string, replace_with);
-		cur->next = NULL;
+		if (!cur->string) {
+			// Not substitutable (e.g. $*), keep the argument as written
+			cur->string = strdup(replace_from->string);
+		}
+		*next = cur;
+		next = &cur->next;
 		replace_from = replace_from->next;
 	}
 	return ret;
-- 
2.43.0


From 947179faaac701e1a90e07738cf048077b312b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 04/38] fix: parse the mcs component of gen_context() from its
 start

The index left over from scanning the mls component was reused, so the search
for the closing parenthesis started inside or behind the mcs component: reads
beyond the end of the line, and false E-002 findings.
---
 src/parse_fc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index cedabdb..43085ca 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -103,6 +103,7 @@ struct fc_entry *parse_fc_line(char *line)
 		}
 
 		if (maybe_c) {
+			i = 0;
 			while (maybe_c[i] != '\0' && maybe_c[i] != ')') {
 				i++;
 			}
-- 
2.43.0


From 4714d9335ff66f971cea2064e562e362db94c034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 05/38] fix: do not read beyond a single dash in a file context
 line

---
 src/parse_fc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 43085ca..4e8c86b 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -49,7 +49,7 @@ struct fc_entry *parse_fc_line(char *line)
 	}
 
 	if (pos[0] == '-') {
-		if (pos[2] != '\0') {
+		if (pos[1] == '\0' || pos[2] != '\0') {
 			goto cleanup;
 		}
 		out->obj = pos[1];
-- 
2.43.0


From 39537aff9f4bb66ce4feb315c461b4d8747f1ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:45 +0000
Subject: [PATCH 06/38] fix: ignore trailing whitespace in file context lines

The line ending became part of the last component of a context that is not
wrapped in gen_context(), so a declared type was reported as nonexistent, and
<<none>> was reported as a bad context when followed by a blank or by the end
of the file.
---
 src/parse_fc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 4e8c86b..abf47ae 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -32,6 +32,12 @@ struct fc_entry *parse_fc_line(char *line)
 
 	memset(out, 0, sizeof(struct fc_entry));
 
+	// The line ending is not part of the context
+	size_t len = strlen(line);
+	while (len > 0 && strchr(" \t\r\n", line[len - 1])) {
+		line[--len] = '\0';
+	}
+
 	char *orig_line = strdup(line); // If the object class is omitted, we need to revert
 
 	char *pos = strtok(line, whitespace);
@@ -135,8 +141,7 @@ struct fc_entry *parse_fc_line(char *line)
 		} else {
 			out->context->range = NULL;
 		}
-	} else if (strcmp("<<none>>\n", pos) == 0
-	           || strcmp("<<none>>\r\n", pos) == 0) {
+	} else if (strcmp("<<none>>", pos) == 0) {
 		out->context = NULL;
 	} else {
 		out->context = parse_context(pos);
-- 
2.43.0


From 27c8eb5860ec24fe62e0b84b30b122c869a2c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 07/38] fix: do not recurse endlessly on recursive permission
 macros

Permission macros that are defined in terms of each other (or of themselves)
in obj_perm_sets.spt led to unbounded recursion in checks S-009 and S-010.
---
 src/perm_macro.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/perm_macro.c b/src/perm_macro.c
index 46db881..1a24f72 100644
--- a/src/perm_macro.c
+++ b/src/perm_macro.c
@@ -172,7 +172,26 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 
 	const struct string_list *macro_perms = look_up_in_permmacros_map(permission);
 	if (macro_perms) {
+		// macros currently being expanded, to detect recursive definitions
+		static const struct macro_expansion {
+			const struct string_list *macro_perms;
+			const struct macro_expansion *outer;
+		} *expansions = NULL;
+
+		const struct macro_expansion *outer = expansions;
+		for (const struct macro_expansion *cur = outer; cur; cur = cur->outer) {
+			if (cur->macro_perms == macro_perms) {
+				// treat recursive macro as uncovered
+				*mask_raw |= PM_CF__UNCOVERED;
+				*mask_extended |= PM_CF__UNCOVERED;
+				return;
+			}
+		}
+
+		const struct macro_expansion expansion = { macro_perms, outer };
+		expansions = &expansion;
 		compute_perm_mask(macro_perms, mask_raw, mask_extended);
+		expansions = outer;
 		return;
 	}
 
-- 
2.43.0


From cedd36e760d182c260088d32ada96a59364d8b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 08/38] fix: do not read beyond an empty check id

---
 src/check_hooks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check_hooks.c b/src/check_hooks.c
index 1fd3873..59387be 100644
--- a/src/check_hooks.c
+++ b/src/check_hooks.c
@@ -137,7 +137,7 @@ int is_valid_check(const char *check_str)
 		return 0;
 	}
 
-	if (check_str[1] != '-') {
+	if (check_str[0] == '\0' || check_str[1] != '-') {
 		return 0;
 	}
 
-- 
2.43.0


From 36858f92d79889a73df1c2652a8afa459ac511ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 09/38] fix: do not report an internal error for ifdef blocks
 in require blocks

The grammar permits conditional requirements; C-006 reported F-002 for them.
---
 src/if_checks.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/if_checks.c b/src/if_checks.c
index 6af2785..7068254 100644
--- a/src/if_checks.c
+++ b/src/if_checks.c
@@ -123,6 +123,11 @@ struct check_result *check_unordered_declaration_in_require(const struct
 
 	const struct declaration_data *prev_decl_data = NULL;
 	for (const struct policy_node *cur = child; cur; cur = cur->next) {
+		if (cur->flavor == NODE_IFDEF) {
+			// conditional requirements are ordered independently
+			continue;
+		}
+
 		if (cur->flavor != NODE_DECL) {
 			return alloc_internal_error(
 				"Non declaration node in require block");
-- 
2.43.0


From 25b6e49d8cc8e1eb2da290b664048b861b0d5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 10/38] fix: recognize conditional requirements

Names required inside of an ifdef in a require block were reported as not
required by W-001 and W-002.
---
 src/te_checks.c | 22 ++++++++++++++++++++++
 src/tree.c      |  6 ++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/te_checks.c b/src/te_checks.c
index cce2a5a..f4b1e5b 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -371,6 +371,24 @@ struct check_result *check_perm_macro_available(__attribute__((unused)) const st
 	return res;
 }
 
+// Helper for has_require.  Returns true if a child of node, which is an ifdef in a
+// require block, declares name
+static bool requires_name(const struct policy_node *node, const char *name, enum decl_flavor flavor)
+{
+	for (const struct policy_node *cur = node->first_child; cur; cur = cur->next) {
+		if (cur->flavor == NODE_IFDEF && requires_name(cur, name, flavor)) {
+			return true;
+		}
+		if (cur->flavor == NODE_DECL &&
+		    cur->data.d_data->flavor == flavor &&
+		    0 == strcmp(name, cur->data.d_data->name)) {
+			return true;
+		}
+	}
+
+	return false;
+}
+
 // Helper for check_no_explicit_declaration.  Returns 1 is there is a require block
 // for name earlier in the file, and 0 otherwise
 static int has_require(const struct policy_node *node, const char *name, enum decl_flavor flavor)
@@ -380,6 +398,10 @@ static int has_require(const struct policy_node *node, const char *name, enum de
 		if (cur->flavor == NODE_REQUIRE || cur->flavor == NODE_GEN_REQ) {
 			cur = cur->first_child;
 			while (1) {
+				// requirements can be conditional
+				if (cur->flavor == NODE_IFDEF && requires_name(cur, name, flavor)) {
+					return 1;
+				}
 				if (cur->flavor == NODE_DECL && cur->data.d_data->flavor == flavor) {
 					if (0 == strcmp(name, cur->data.d_data->name)) {
 						return 1;
diff --git a/src/tree.c b/src/tree.c
index 67239bd..802428c 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -311,10 +311,12 @@ struct string_list *get_names_required(const struct policy_node *node)
 	struct policy_node *cur = node->first_child;
 
 	while (cur) {
+		// requirements can be conditional
+		struct string_list *names = cur->flavor == NODE_IFDEF ? get_names_required(cur) : get_names_in_node(cur);
 		if (ret_cursor) {
-			ret_cursor->next = get_names_in_node(cur);
+			ret_cursor->next = names;
 		} else {
-			ret = ret_cursor = get_names_in_node(cur);
+			ret = ret_cursor = names;
 		}
 		while (ret_cursor && ret_cursor->next) {
 			ret_cursor = ret_cursor->next;
-- 
2.43.0


From 1a04ab07791001e9f1c50acc67b23805450e5124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 11/38] fix: do not take a read error for the end of the file

A file context file that could not be read (completely) was reported as free of
issues, and a modules.conf file as loaded.
---
 src/parse_fc.c | 5 +++++
 src/startup.c  | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index abf47ae..d4225ac 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -296,6 +296,11 @@ struct policy_node *parse_fc_file(const char *filename, const struct string_list
 		buf_len = 0;
 	}
 	free(line);             // getline alloc must be freed even if getline failed
+	if (ferror(fd)) {
+		free_policy_node(head);
+		fclose(fd);
+		return NULL;
+	}
 	fclose(fd);
 
 	return head;
diff --git a/src/startup.c b/src/startup.c
index 4e44860..2be3e34 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -165,6 +165,10 @@ enum selint_error load_modules_source(const char *modules_conf_path)
 		}
 	}
 	free(line);
+	if (ferror(fd)) {
+		fclose(fd);
+		return SELINT_IO_ERROR;
+	}
 	fclose(fd);
 
 	return SELINT_SUCCESS;
-- 
2.43.0


From e26da9886e0f2f56762d42f48746446be9cd370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 12/38] fix: do not treat directories as policy files

A directory whose name ends with .te or .if was opened and parsed like a policy
file, which ended SELint with an undocumented exit status, one with .fc was
silently taken as an empty file; and in recursive mode its files were parsed
additionally.
---
 src/main.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 84bad03..95e521f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -83,6 +83,20 @@ static void usage(void)
 
 }
 
+// Return the suffix of the path of a (potential) policy file, NULL for directories
+static const char *policy_file_suffix(const FTSENT *file)
+{
+	switch (file->fts_info) {
+	case FTS_D:
+	case FTS_DC:
+	case FTS_DNR:
+	case FTS_DP:
+		return NULL;
+	default:
+		return (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+	}
+}
+
 #define WARN_ON_INVALID_CHECK_ID(id, desc)\
 	if (!is_valid_check(id)) {\
 		printf("%sWarning%s: %s, %s, is not a valid check id.\n", color_warning(), color_reset(), id, desc);\
@@ -403,7 +417,7 @@ int main(int argc, char **argv)
 	char *access_vector_path = NULL;
 
 	while (file) {
-		const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+		const char *suffix = policy_file_suffix(file);
 
 		if (suffix && !strcmp(suffix, ".te")) {
 			file_list_push_back(te_files,
@@ -475,7 +489,7 @@ int main(int argc, char **argv)
 		file = fts_read(ftsp);
 
 		while (file) {
-			const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+			const char *suffix = policy_file_suffix(file);
 			if (suffix &&  !strcmp(suffix, ".te")) {
 				if (!file_name_in_file_list(file->fts_path, te_files)) {
 					file_list_push_back(context_te_files,
-- 
2.43.0


From af5e7edd2e456ff5d62709fd05562d709957520f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 13/38] fix: apply a disable comment to exactly the statement
 it follows

A disable comment was saved to the node inserted last.  For a statement that
inserts several nodes (declarations of several names, type aliases) the checks
stayed enabled on all but the last one, and for a statement that inserts none
(e.g. typebounds) the checks were disabled on the preceding statement.
---
 src/parse.y | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse.y b/src/parse.y
index 9dce0af..5248f57 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -61,6 +61,7 @@
 	static struct policy_node *cur;
 	static enum node_flavor expected_node_flavor;
 	static void yyerror(const YYLTYPE *locp, yyscan_t yyscanner, char const *msg);
+	static void save_command_for_statement(const char *comm, unsigned int first_line);
 
 	// lexer
 	extern void yyrestart(FILE *input_file , yyscan_t yyscanner);
@@ -274,7 +275,7 @@ lines:
 line:
 	bare_line
 	|
-	bare_line SELINT_COMMAND { save_command(cur, $2); free($2); }
+	bare_line SELINT_COMMAND { save_command_for_statement($2, @1.first_line); free($2); }
 	;
 
 bare_line:
@@ -578,7 +579,7 @@ require_lines:
 require_line:
 	require_bare
 	|
-	require_bare SELINT_COMMAND { save_command(cur, $2); free($2); }
+	require_bare SELINT_COMMAND { save_command_for_statement($2, @1.first_line); free($2); }
 	;
 
 require_bare:
@@ -1076,6 +1077,14 @@ av_permission:
 	;
 
 %%
+// Save a command to all nodes that have been inserted for the statement starting at
+// the given line: that might be several ones (e.g. one for every declared name), or none
+static void save_command_for_statement(const char *comm, unsigned int first_line) {
+	for (struct policy_node *node = cur; node && node->lineno >= first_line; node = node->prev) {
+		save_command(node, comm);
+	}
+}
+
 static unsigned leading_spaces(const char *str) {
 	unsigned result = 0;
 	while (str[result] == ' ' || str[result] == '\t')
-- 
2.43.0


From c2d7e2749afa35b6e55c35de3cfc95a573447a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 14/38] fix: keep the first disable comment of a block

The comment after the end of a block replaced (and leaked) the one given at its
start.
---
 src/parse_functions.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parse_functions.c b/src/parse_functions.c
index da2adcc..0afebe3 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -748,7 +748,17 @@ enum selint_error save_command(struct policy_node *cur, const char *comm)
 	}
 	comm += strlen("selint-");
 	if (0 == strncmp("disable:", comm, 8)) {
-		cur->exceptions = strdup(comm + strlen("disable:"));
+		comm += strlen("disable:");
+		if (cur->exceptions) {
+			// keep the exceptions of prior commands, e.g. from the start of the block
+			char *old = cur->exceptions;
+			const size_t len = strlen(old) + strlen(",") + strlen(comm) + 1;
+			cur->exceptions = malloc(len);
+			snprintf(cur->exceptions, len, "%s,%s", old, comm);
+			free(old);
+		} else {
+			cur->exceptions = strdup(comm);
+		}
 	} else {
 		return SELINT_PARSE_ERROR;
 	}
-- 
2.43.0


From da664dad328cfdb89d4b5063fd50f22cbc07356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 15/38] fix: permit a disable comment on the module header

A disable comment on the header line, e.g. to disable W-009 or S-006, was a
syntax error.
---
 src/parse.y | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse.y b/src/parse.y
index 5248f57..9a39689 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -225,6 +225,8 @@ selinux_file:
 
 te_policy:
 	header body
+	|
+	header SELINT_COMMAND { save_command(cur, $2); free($2); } body
 	;
 
 comments:
-- 
2.43.0


From 31f9d2ea4a27bda03cdaed369bab576514ab8035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 16/38] fix: include stdio.h for snprintf

---
 src/parse_functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse_functions.c b/src/parse_functions.c
index 0afebe3..9835342 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -14,6 +14,7 @@
 * limitations under the License.
 */
 
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 
-- 
2.43.0


From bb1a79bf41dd62d13513f7ba95f3b414c54be524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 17/38] fix: use the source of a type transition for its
 section

---
 src/ordering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ordering.c b/src/ordering.c
index 3cbfa56..ce945a3 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -206,7 +206,7 @@ const char *get_section(const struct policy_node *node)
 		// from an ordering standpoint?
 		// The case of multiple source types is weird.  For now
 		// just using the first one seems fine.
-		return node->data.av_data->sources->string;
+		return node->data.tt_data->sources->string;
 	case NODE_RT_RULE:
 		return SECTION_NON_ORDERED;
 	case NODE_ROLE_ALLOW:
-- 
2.43.0


From 7543e4c49c07a21119ebc331c9ee8b0967c5dd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:00 +0000
Subject: [PATCH 18/38] fix: consider the first node when explaining an
 ordering issue

---
 src/ordering.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ordering.c b/src/ordering.c
index ce945a3..a36fc97 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -763,10 +763,10 @@ const char *lss_to_string(enum local_subsection lss)
 char *get_ordering_reason(struct ordering_metadata *order_data, unsigned int index, enum order_conf variant)
 {
 	unsigned int distance = 1;
-	unsigned int nearest_index = 0;
+	unsigned int nearest_index;
 	enum order_difference_reason reason = ORDER_EQUAL;
-	while (nearest_index == 0) {
-		if (distance < index &&
+	while (true) {
+		if (distance <= index &&
 		    order_data->nodes[index-distance].in_order) {
 			reason = compare_nodes_refpolicy_generic(order_data,
 								 order_data->nodes[index-distance].node,
@@ -790,7 +790,7 @@ char *get_ordering_reason(struct ordering_metadata *order_data, unsigned int ind
 		}
 		distance++;
 		if ((distance > index) &&
-		    (index + distance > order_data->order_node_len)) {
+		    (index + distance >= order_data->order_node_len)) {
 			return NULL; // Error
 		}
 	}
-- 
2.43.0


From fab9c593b2ce11ac32f4800285dee08cef7d77cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 19/38] fix: use the default order of requirements without a
 configuration file

---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 95e521f..fc86270 100644
--- a/src/main.c
+++ b/src/main.c
@@ -340,7 +340,9 @@ int main(int argc, char **argv)
 		}
 	}
 
-	struct config_check_data ccd = { ORDER_LAX, {}, true, true, NULL };
+	struct config_check_data ccd = { ORDER_LAX,
+	                                 { DECL_BOOL, DECL_CLASS, DECL_ROLE, DECL_ATTRIBUTE_ROLE, DECL_ATTRIBUTE, DECL_TYPE },
+	                                 true, true, NULL };
 
 	if (config_filename) {
 		char cfg_severity;
-- 
2.43.0


From 8e0248aad216d8a9519a63c826fd018cc6e1f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:49 +0000
Subject: [PATCH 20/38] fix: record the layer of modules given as context

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index fc86270..8eb3d59 100644
--- a/src/main.c
+++ b/src/main.c
@@ -503,6 +503,10 @@ int main(int argc, char **argv)
 					file_list_push_back(context_if_files,
 							    make_policy_file(file->fts_path,
 							    NULL));
+					char *mod_name = strdup(file->fts_name);
+					mod_name[file->fts_namelen - 3] = '\0';
+					insert_into_mod_layers_map(mod_name, file->fts_parent->fts_name);
+					free(mod_name);
 				}
 			} else if (source_flag
                                    && !modules_conf_path
-- 
2.43.0


From 4af79705fbe6396fb90f9c5346c7831399a820d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 21/38] fix: find names used behind a nested require block

---
 src/if_checks.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/if_checks.c b/src/if_checks.c
index 7068254..a7dad01 100644
--- a/src/if_checks.c
+++ b/src/if_checks.c
@@ -371,10 +371,14 @@ struct check_result *check_name_required_but_not_used_in_if(const struct
 
 	const struct policy_node *cur = node;
 	const struct policy_node *req_block_node = NULL;
+	int depth = 0; // of the require block in the interface
 	while (cur->parent && cur->flavor != NODE_INTERFACE_DEF
 	       && cur->flavor != NODE_TEMP_DEF) {
 		if (cur->flavor == NODE_GEN_REQ || cur->flavor == NODE_REQUIRE) {
 			req_block_node = cur;
+			depth = 0;
+		} else {
+			depth++;
 		}
 		cur = cur->parent;
 	}
@@ -399,14 +403,16 @@ struct check_result *check_name_required_but_not_used_in_if(const struct
 	}
 
 	cur = req_block_node;
+	while (!cur->next && depth > 0) {
+		cur = cur->parent;
+		depth--;
+	}
 
 	cur = cur->next;
 
 	struct string_list *sl_end = NULL;
 	struct string_list *sl_head = NULL;
 
-	int depth = 0;
-
 	while (cur) {
 		struct string_list *names_used = get_names_in_node(cur);
 		if (names_used) {
-- 
2.43.0


From 426b9a469db421c244cc85e95f6a447bd879a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:02 +0000
Subject: [PATCH 22/38] fix: accept a comment at the end of a file without a
 final newline

---
 src/lex.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 8a0469d..7d5b214 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -176,8 +176,8 @@ userdebug_or_eng { return USERDEBUG_OR_ENG; }
 \!\= { return NOT_EQUAL; }
 \! { return NOT; }
 \=\= { return EQUAL; }
-\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)*$ { yylval->string = strdup(yytext); return SELINT_COMMAND; }
-\#.*$ { return COMMENT; }
+\#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)* { yylval->string = strdup(yytext); return SELINT_COMMAND; }
+\#.* { return COMMENT; }
 dnl(.*)?$ ; /* skip m4 comment lines */
 [ \t\n\r] ; /* normally skip whitespace */
 . { yylval->symbol = *yytext; return UNKNOWN_TOKEN; }
-- 
2.43.0


From 58c2da81ab2c8d36a07febfa7cab498de9f2012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:20 +0000
Subject: [PATCH 23/38] fix: terminate names ending in a missing template
 argument

---
 src/template.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/template.c b/src/template.c
index a267588..dcd6cb3 100644
--- a/src/template.c
+++ b/src/template.c
@@ -74,8 +74,10 @@ char *replace_m4(const char *orig, const struct string_list *args)
 		if (cur) {
 			strcpy(ret_pos, cur->string);
 			ret_pos += strlen(cur->string);
+		} else {
+			// We are inserting the empty string
+			*ret_pos = '\0';
 		}
-		// Otherwise, we are inserting the empty string
 	}
 	return ret;
 }
-- 
2.43.0


From 0882b7c2a88fcc0f355243a58dc5dccd4b31f9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 24/38] fix: do not let unordered statements hide ordering
 issues

---
 src/ordering.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ordering.c b/src/ordering.c
index a36fc97..d0b5e3d 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -88,6 +88,17 @@ void calculate_longest_increasing_subsequence(const struct policy_node *head,
 		}
 		nodes[index].node = cur;
 
+		// Statements without a place in the order, and blocks besides the
+		// statements in them, must not connect others which are out of order
+		const char *section_name = get_section(cur);
+		if ((cur->first_child && cur->first_child->flavor == NODE_START_BLOCK) ||
+		    (section_name && 0 == strcmp(section_name, SECTION_NON_ORDERED))) {
+			nodes[index].in_order = 1;
+			index++;
+			cur = ordering_next(cur);
+			continue;
+		}
+
 		// binary search sequences so far
 		int low = 1;
 		int high = longest_seq;
@@ -117,7 +128,7 @@ void calculate_longest_increasing_subsequence(const struct policy_node *head,
 	}
 
 	// Mark LIS elements
-	index = nodes[longest_seq - 1].end_of_seq;
+	index = longest_seq > 0 ? nodes[longest_seq - 1].end_of_seq : -1;
 	while (index != -1) {
 		nodes[index].in_order = 1;
 		index = nodes[index].seq_prev;
-- 
2.43.0


From 38e7f49e7e78c978cbb2583a1824f63877f4a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:44 +0000
Subject: [PATCH 25/38] fix: look at the types of typebounds statements

---
 src/ordering.c        |  1 +
 src/parse.y           |  2 +-
 src/parse_functions.c | 27 +++++++++++++++++++++++++++
 src/parse_functions.h |  5 +++++
 src/runner.c          |  2 ++
 src/tree.c            | 20 ++++++++++++++++++++
 src/tree.h            |  9 +++++++++
 7 files changed, 65 insertions(+), 1 deletion(-)

diff --git a/src/ordering.c b/src/ordering.c
index d0b5e3d..dfaccf5 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -283,6 +283,7 @@ const char *get_section(const struct policy_node *node)
 	case NODE_GEN_REQ:
 		return SECTION_NON_ORDERED; // Not in style guide
 	case NODE_PERMISSIVE:
+	case NODE_TYPEBOUNDS:
 		return SECTION_NON_ORDERED; // Not in style guide
 	case NODE_FC_ENTRY:
 		return NULL;           // fc files only
diff --git a/src/parse.y b/src/parse.y
index 9a39689..1dcc995 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -909,7 +909,7 @@ permissive:
 	;
 
 typebounds:
-	TYPEBOUNDS STRING STRING SEMICOLON { free($2); free($3); }
+	TYPEBOUNDS STRING STRING SEMICOLON { insert_typebounds(&cur, $2, $3, @$.first_line); free($2); free($3); }
 	;
 
 	// IF File parsing
diff --git a/src/parse_functions.c b/src/parse_functions.c
index 9835342..3c0629c 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -491,6 +491,33 @@ enum selint_error insert_permissive_statement(struct policy_node **cur,
 	return SELINT_SUCCESS;
 }
 
+enum selint_error insert_typebounds(struct policy_node **cur, const char *bounding_type,
+                                    const char *bounded_type, unsigned int lineno)
+{
+	struct typebounds_data *data = malloc(sizeof(struct typebounds_data));
+	if (!data) {
+		return SELINT_OUT_OF_MEM;
+	}
+
+	data->bounding_type = strdup(bounding_type);
+	data->bounded_type = strdup(bounded_type);
+
+	union node_data nd;
+	nd.tb_data = data;
+
+	enum selint_error ret = insert_policy_node_next(*cur,
+	                                                NODE_TYPEBOUNDS,
+	                                                nd,
+	                                                lineno);
+	if (ret != SELINT_SUCCESS) {
+		free_typebounds_data(data);
+		return ret;
+	}
+
+	*cur = (*cur)->next;
+	return SELINT_SUCCESS;
+}
+
 enum selint_error insert_semicolon(struct policy_node **cur, unsigned int lineno)
 {
 
diff --git a/src/parse_functions.h b/src/parse_functions.h
index 887cc8a..c7548b4 100644
--- a/src/parse_functions.h
+++ b/src/parse_functions.h
@@ -227,6 +227,11 @@ enum selint_error insert_permissive_statement(struct policy_node **cur,
                                               const char *domain,
                                               unsigned int lineno);
 
+enum selint_error insert_typebounds(struct policy_node **cur,
+                                    const char *bounding_type,
+                                    const char *bounded_type,
+                                    unsigned int lineno);
+
 enum selint_error insert_semicolon(struct policy_node **cur,
                                    unsigned int lineno);
 
diff --git a/src/runner.c b/src/runner.c
index 9a0cb81..de4b9ee 100644
--- a/src/runner.c
+++ b/src/runner.c
@@ -203,6 +203,7 @@ struct checks *register_checks(char level,
 			add_check(NODE_TYPE_ATTRIBUTE, ck, "W-001", check_no_explicit_declaration);
 			add_check(NODE_ROLE_ATTRIBUTE, ck, "W-001", check_no_explicit_declaration);
 			add_check(NODE_PERMISSIVE, ck, "W-001", check_no_explicit_declaration);
+			add_check(NODE_TYPEBOUNDS, ck, "W-001", check_no_explicit_declaration);
 			add_check(NODE_DECL, ck, "W-001", check_no_explicit_declaration);
 		}
 		if (CHECK_ENABLED("W-002")) {
@@ -218,6 +219,7 @@ struct checks *register_checks(char level,
 			add_check(NODE_TYPE_ATTRIBUTE, ck, "W-002", check_name_used_but_not_required_in_if);
 			add_check(NODE_ROLE_ATTRIBUTE, ck, "W-002", check_name_used_but_not_required_in_if);
 			add_check(NODE_PERMISSIVE, ck, "W-002", check_name_used_but_not_required_in_if);
+			add_check(NODE_TYPEBOUNDS, ck, "W-002", check_name_used_but_not_required_in_if);
 			add_check(NODE_DECL, ck, "W-002", check_name_used_but_not_required_in_if);
 		}
 		if (CHECK_ENABLED("W-003")) {
diff --git a/src/tree.c b/src/tree.c
index 802428c..0051836 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -156,6 +156,7 @@ struct string_list *get_names_in_node(const struct policy_node *node)
 	struct role_allow_data *ra_data;
 	struct role_types_data *rtyp_data;
 	struct attribute_data *at_data;
+	struct typebounds_data *tb_data;
 
 	switch (node->flavor) {
 	case NODE_AV_RULE:
@@ -249,6 +250,12 @@ struct string_list *get_names_in_node(const struct policy_node *node)
 		ret->next = copy_string_list(at_data->attrs);
 		break;
 
+	case NODE_TYPEBOUNDS:
+		tb_data = node->data.tb_data;
+		ret = sl_from_str(tb_data->bounding_type);
+		ret->next = sl_from_str(tb_data->bounded_type);
+		break;
+
 	case NODE_ALIAS:
 	case NODE_TYPE_ALIAS:
 	case NODE_PERMISSIVE:
@@ -401,6 +408,9 @@ enum selint_error free_policy_node(struct policy_node *to_free)
 	case NODE_GEN_REQ:
 		free_gen_require_data(to_free->data.gr_data);
 		break;
+	case NODE_TYPEBOUNDS:
+		free_typebounds_data(to_free->data.tb_data);
+		break;
 	default:
 		if (to_free->data.str != NULL) {
 			free(to_free->data.str);
@@ -633,3 +643,13 @@ void free_gen_require_data(struct gen_require_data *to_free)
 {
 	free(to_free);
 }
+
+void free_typebounds_data(struct typebounds_data *to_free)
+{
+	if (to_free == NULL) {
+		return;
+	}
+	free(to_free->bounding_type);
+	free(to_free->bounded_type);
+	free(to_free);
+}
diff --git a/src/tree.h b/src/tree.h
index 51e974f..77912c6 100644
--- a/src/tree.h
+++ b/src/tree.h
@@ -55,6 +55,7 @@ enum node_flavor {
 	NODE_REQUIRE,
 	NODE_GEN_REQ,
 	NODE_PERMISSIVE,
+	NODE_TYPEBOUNDS,
 	NODE_FC_ENTRY,
 	NODE_COMMENT,
 	NODE_EMPTY,
@@ -195,6 +196,11 @@ struct gen_require_data {
 	unsigned char unquoted;
 };
 
+struct typebounds_data {
+	char *bounding_type;
+	char *bounded_type;
+};
+
 union node_data {
 	struct header_data *h_data;
 	struct av_rule_data *av_data;
@@ -208,6 +214,7 @@ union node_data {
 	struct fc_entry *fc_data;
 	struct attribute_data *at_data;
 	struct gen_require_data *gr_data;
+	struct typebounds_data *tb_data;
 	char *str;
 };
 
@@ -285,4 +292,6 @@ void free_attribute_data(struct attribute_data *to_free);
 
 void free_gen_require_data(struct gen_require_data *to_free);
 
+void free_typebounds_data(struct typebounds_data *to_free);
+
 #endif
-- 
2.43.0


From 819149fecb4ad191050bf15b1926bd521a74c25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 26/38] fix: do not take a leading minus of an interface
 argument for an unquoted space

---
 src/te_checks.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/te_checks.c b/src/te_checks.c
index f4b1e5b..f7ce67c 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -563,7 +563,9 @@ struct check_result *check_space_if_call_arg(__attribute__((unused)) const struc
 	while (args) {
 		if (args->has_incorrect_space) {
 			// do not issue on mls ranges
+			// nor on exclusions (e.g. foo(a_t, -b_t)), they are no argument with a space
 			if (prev &&
+			    0 != strcmp(prev->string, "-") &&
 			    (args->string[0] != '-' ||
 			    look_up_in_decl_map(prev->string, DECL_TYPE) ||
 			    look_up_in_decl_map(prev->string, DECL_ATTRIBUTE) ||
-- 
2.43.0


From 6204d64deb8fe1c83992489ab1c5633983ee426b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:00 +0000
Subject: [PATCH 27/38] fix: accept te files consisting of a header only

---
 src/parse.y | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.y b/src/parse.y
index 1dcc995..71146fd 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -224,8 +224,12 @@ selinux_file:
 	// TE File parsing
 
 te_policy:
+	header
+	|
 	header body
 	|
+	header SELINT_COMMAND { save_command(cur, $2); free($2); }
+	|
 	header SELINT_COMMAND { save_command(cur, $2); free($2); } body
 	;
 
-- 
2.43.0


From a19f08626e85a533d90eee9c49cd4d6ac4320646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 28/38] fix: accept categories in contexts without gen_context

---
 src/parse_fc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index d4225ac..a5b00c7 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -197,11 +197,18 @@ struct sel_context *parse_context(char *context_str)
 
 	context->type = strdup(pos);
 
-	pos = strtok(NULL, ":");
+	// Range: the levels may have categories (s0:c1 - s0:c0.c1023)
+	pos = strtok(NULL, "");
 
 	if (pos) {
 		context->range = strdup(pos);
-		if (strtok(NULL, ":")) {
+		unsigned int colons = 0;
+		for (; *pos != '\0'; pos++) {
+			if (*pos == ':') {
+				colons++;
+			}
+		}
+		if (colons > 2) {
 			goto cleanup;
 		}
 	}
-- 
2.43.0


From 03b792f3f8d4574d339c6fbb2d2f5efd8f18850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 29/38] fix: report unknown file types in file contexts

---
 src/parse_fc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index a5b00c7..47961f3 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -55,7 +55,8 @@ struct fc_entry *parse_fc_line(char *line)
 	}
 
 	if (pos[0] == '-') {
-		if (pos[1] == '\0' || pos[2] != '\0') {
+		if (pos[1] == '\0' || pos[2] != '\0' || !strchr("-bcdlps", pos[1])) {
+			// not a file type
 			goto cleanup;
 		}
 		out->obj = pos[1];
-- 
2.43.0


From 3c8d3fea987ef5169a1c0b620decb62d0a792362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:54 +0000
Subject: [PATCH 30/38] fix: check the path of file contexts with <<none>>

---
 src/fc_checks.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/fc_checks.c b/src/fc_checks.c
index 5d0f031..53e3c46 100644
--- a/src/fc_checks.c
+++ b/src/fc_checks.c
@@ -104,7 +104,15 @@ struct check_result *check_file_context_regex(__attribute__((unused)) const stru
                                               const struct policy_node *node)
 {
 
-	SETUP_FOR_FC_CHECK(node)
+	if (node->flavor != NODE_FC_ENTRY) {
+		return alloc_internal_error("File context type check called on non file context entry");
+	}
+
+	const struct fc_entry *entry = node->data.fc_data;
+
+	if (!entry) {
+		return alloc_internal_error("Policy node data field is NULL");
+	}
 
 	const char *path = entry->path;
 	char cur = *path;
-- 
2.43.0


From 223bd2c7918240b9fe8cc3bb4c0d2723f96d7919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:18 +0000
Subject: [PATCH 31/38] fix: users declared with gen_user exist

---
 src/parse.y           |  4 ++--
 src/parse_functions.c | 21 +++++++++++++++++++++
 src/parse_functions.h | 10 ++++++++++
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/parse.y b/src/parse.y
index 71146fd..a931643 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -885,9 +885,9 @@ maybe_string_comma:
 	;
 
 gen_user:
-	GEN_USER OPEN_PAREN maybe_string_comma maybe_string_comma strings COMMA mls_range COMMA mls_range CLOSE_PAREN { free($3); free($4); free_string_list($5); free($7); free($9); }
+	GEN_USER OPEN_PAREN maybe_string_comma maybe_string_comma strings COMMA mls_range COMMA mls_range CLOSE_PAREN { insert_user(cur, $3); free($3); free($4); free_string_list($5); free($7); free($9); }
 	|
-	GEN_USER OPEN_PAREN maybe_string_comma maybe_string_comma strings COMMA mls_range COMMA mls_range COMMA mls_range CLOSE_PAREN { free($3); free($4); free_string_list($5); free($7); free($9); free($11); }
+	GEN_USER OPEN_PAREN maybe_string_comma maybe_string_comma strings COMMA mls_range COMMA mls_range COMMA mls_range CLOSE_PAREN { insert_user(cur, $3); free($3); free($4); free_string_list($5); free($7); free($9); free($11); }
 	;
 
 context:
diff --git a/src/parse_functions.c b/src/parse_functions.c
index 3c0629c..f69628e 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -180,6 +180,27 @@ enum selint_error insert_aliases(struct policy_node **cur,
 	return SELINT_SUCCESS;
 }
 
+enum selint_error insert_user(const struct policy_node *cur, const char *name)
+{
+	if ('\0' == name[0]) {
+		return SELINT_SUCCESS;
+	}
+
+	const char *temp_name = get_name_if_in_template(cur);
+	if (temp_name) {
+		insert_decl_into_template_map(temp_name, DECL_USER, name);
+	} else if ('$' != name[0]) {
+		const char *mn = get_current_module_name();
+		if (!mn) {
+			return SELINT_NO_MOD_NAME;
+		}
+
+		insert_into_decl_map(name, mn, DECL_USER);
+	}
+
+	return SELINT_SUCCESS;
+}
+
 enum selint_error insert_type_alias(struct policy_node **cur, const char *type,
                                     unsigned int lineno)
 {
diff --git a/src/parse_functions.h b/src/parse_functions.h
index c7548b4..463223b 100644
--- a/src/parse_functions.h
+++ b/src/parse_functions.h
@@ -72,6 +72,16 @@ enum selint_error insert_declaration(struct policy_node **cur,
                                      struct string_list *attrs,
                                      unsigned int lineno);
 
+/**********************************
+* insert_user
+* Insert a user declared by gen_user into the declaration map (or the template map)
+* cur (in) - The current spot in the tree.  Will not be changed
+* name (in) - The name of the user, may be empty
+*
+* Returns - SELINT error code
+**********************************/
+enum selint_error insert_user(const struct policy_node *cur, const char *name);
+
 /**********************************
 * insert_aliases
 * Add alias nodes below the declaration and insert the aliases into the type map
-- 
2.43.0


From 00cab4963ef30bdff03699abaa4b9bbb44292ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 32/38] fix: do not compare extended permissions with the dash
 of a range

---
 src/te_checks.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/te_checks.c b/src/te_checks.c
index f7ce67c..b7af8f8 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -115,7 +115,9 @@ struct check_result *check_unordered_perms(__attribute__((unused)) const struct
 	}
 
 	while (cur) {
-		if (prev && strcmp(prev->string, "~") != 0 && strcmp(cur->string, "-") != 0) {
+		// do not compare with the complement operator nor the dash of a range
+		if (prev && strcmp(prev->string, "~") != 0 &&
+		    strcmp(prev->string, "-") != 0 && strcmp(cur->string, "-") != 0) {
 			const int compare = strcmp(prev->string, cur->string);
 
 			if (compare > 0) {
-- 
2.43.0


From e7e2bdbae5674c4ead08748dcd1e0c54e0ed17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 33/38] fix: do not report interface parameters as unknown
 permissions

---
 src/te_checks.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/te_checks.c b/src/te_checks.c
index b7af8f8..9cec8d1 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -740,6 +740,11 @@ struct check_result *check_unknown_permission(__attribute__((unused)) const stru
 			continue;
 		}
 
+		// ignore interface parameters
+		if (cur->string[0] == '$' && isdigit((unsigned char)cur->string[1])) {
+			continue;
+		}
+
 		// ignore generated all_ permission macros
 		if (0 == strncmp(cur->string, "all_", strlen("all_")) &&
 		    ends_with(cur->string, strlen(cur->string), "_perms", strlen("_perms"))) {
-- 
2.43.0


From 39c68e0c511cd9acc201818d55989c2d3f4c17a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 34/38] fix: report an unusable path instead of crashing

fts_open() fails for an empty path; its result was used without a check.
---
 src/main.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.c b/src/main.c
index 8eb3d59..b341291 100644
--- a/src/main.c
+++ b/src/main.c
@@ -14,7 +14,9 @@
 * limitations under the License.
 */
 
+#include <errno.h>
 #include <stdio.h>
+#include <string.h>
 #include <getopt.h>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -411,6 +413,11 @@ int main(int argc, char **argv)
 	paths[i] = NULL;
 
 	FTS *ftsp = fts_open(paths, FTS_PHYSICAL | FTS_NOSTAT, NULL);
+	if (!ftsp) {
+		// E.g. an empty path
+		printf("%sError%s: Failed to scan the given paths: %s\n", color_error(), color_reset(), strerror(errno));
+		exit(EX_USAGE);
+	}
 
 	FTSENT *file = fts_read(ftsp);
 
@@ -488,6 +495,10 @@ int main(int argc, char **argv)
 		paths[1] = NULL;
 
 		ftsp = fts_open(paths, FTS_PHYSICAL | FTS_NOSTAT, NULL);
+		if (!ftsp) {
+			printf("%sError%s: Failed to scan context path '%s': %s\n", color_error(), color_reset(), paths[0], strerror(errno));
+			exit(EX_USAGE);
+		}
 		file = fts_read(ftsp);
 
 		while (file) {
-- 
2.43.0


From 7ded20442ea9be550bb05905946f0e28c3d26e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 35/38] fix: do not take a directory for an installed header

---
 src/startup.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/startup.c b/src/startup.c
index 2be3e34..ee9cabf 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -234,7 +234,13 @@ IGNORE_CONST_DISCARD_END;
 
 	FTSENT *file = fts_read(ftsp);
 	while (file) {
-		const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+		const char *suffix = NULL;
+		// A directory is not a header, whatever its name
+		if (file->fts_info != FTS_D && file->fts_info != FTS_DC
+		    && file->fts_info != FTS_DNR && file->fts_info != FTS_DP
+		    && file->fts_pathlen > 3) {
+			suffix = file->fts_path + file->fts_pathlen - 3;
+		}
 		if (suffix && !strcmp(suffix, ".if")) {
 			file_list_push_back(context_files,
 			                    make_policy_file(file->fts_path,
-- 
2.43.0


From 63a0918076571435226694be8fae1fa400f22fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:25 +0000
Subject: [PATCH 36/38] fix: count a set or quoted string as one argument of a
 call

---
 src/parse.y       | 14 ++++++++++++--
 src/string_list.c |  4 ++++
 src/string_list.h |  1 +
 src/te_checks.c   |  2 +-
 src/template.c    | 31 ++++++++++++++++++++++++++-----
 5 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/parse.y b/src/parse.y
index a931643..f09788a 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -62,6 +62,7 @@
 	static enum node_flavor expected_node_flavor;
 	static void yyerror(const YYLTYPE *locp, yyscan_t yyscanner, char const *msg);
 	static void save_command_for_statement(const char *comm, unsigned int first_line);
+	static void mark_single_argument(struct string_list *arg);
 
 	// lexer
 	extern void yyrestart(FILE *input_file , yyscan_t yyscanner);
@@ -737,13 +738,14 @@ arg:
 	;
 
 args:
-	arg
+	arg { mark_single_argument($1); $$ = $1; }
 	|
-	args COMMA arg { $$ = concat_string_lists($1, $3); }
+	args COMMA arg { mark_single_argument($3); $$ = concat_string_lists($1, $3); }
 	|
 	args sl_item { struct string_list *sl = calloc(1, sizeof(struct string_list));
 			sl->string = $2;
 			sl->has_incorrect_space = 1;
+			sl->continues_arg = 1;
 			$$ = concat_string_lists($1, sl); }
 	;
 
@@ -1211,3 +1213,11 @@ struct policy_node *yyparse_wrapper(FILE *filefd, const char *filename, enum nod
 
 	return ast;
 }
+
+// All strings of the list form one argument of an interface call
+static void mark_single_argument(struct string_list *arg)
+{
+	for (struct string_list *rest = arg->next; rest; rest = rest->next) {
+		rest->continues_arg = 1;
+	}
+}
diff --git a/src/string_list.c b/src/string_list.c
index 78c253c..8bf6709 100644
--- a/src/string_list.c
+++ b/src/string_list.c
@@ -46,6 +46,7 @@ struct string_list *copy_string_list(const struct string_list *sl)
 	while (sl) {
 		cur->string = strdup(sl->string);
 		cur->has_incorrect_space = sl->has_incorrect_space;
+		cur->continues_arg = sl->continues_arg;
 
 		if (sl->next) {
 			cur->next = malloc(sizeof(struct string_list));
@@ -64,6 +65,7 @@ struct string_list *sl_from_str(const char *string)
 	ret->string = strdup(string);
 	ret->next = NULL;
 	ret->has_incorrect_space = 0;
+	ret->continues_arg = 0;
 
 	return ret;
 }
@@ -74,6 +76,7 @@ struct string_list *sl_from_strn(const char *string, size_t len)
 	ret->string = strndup(string, len);
 	ret->next = NULL;
 	ret->has_incorrect_space = 0;
+	ret->continues_arg = 0;
 
 	return ret;
 }
@@ -84,6 +87,7 @@ struct string_list *sl_from_str_consume(char *string)
 	ret->string = string;
 	ret->next = NULL;
 	ret->has_incorrect_space = 0;
+	ret->continues_arg = 0;
 
 	return ret;
 }
diff --git a/src/string_list.h b/src/string_list.h
index af9a416..ccb35e5 100644
--- a/src/string_list.h
+++ b/src/string_list.h
@@ -24,6 +24,7 @@ struct string_list {
 	char *string;
 	struct string_list *next;
 	int has_incorrect_space;
+	int continues_arg; // part of the same interface call argument as the previous string
 };
 
 int str_in_sl(const char *str, const struct string_list *sl);
diff --git a/src/te_checks.c b/src/te_checks.c
index 9cec8d1..138fecf 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -582,7 +582,7 @@ struct check_result *check_space_if_call_arg(__attribute__((unused)) const struc
 							 prev->string,
 							 node->data.ic_data->name);
 			}
-		} else {
+		} else if (!args->continues_arg) {
 			i++;
 		}
 
diff --git a/src/template.c b/src/template.c
index dcd6cb3..442e271 100644
--- a/src/template.c
+++ b/src/template.c
@@ -23,6 +23,16 @@
 #include "template.h"
 #include "maps.h"
 
+// An argument (e.g. a set) can consist of several strings
+static const struct string_list *next_argument(const struct string_list *arg)
+{
+	do {
+		arg = arg->next;
+	} while (arg && arg->continues_arg);
+
+	return arg;
+}
+
 char *replace_m4(const char *orig, const struct string_list *args)
 {
 	size_t len_to_malloc = strlen(orig) + 1;
@@ -30,11 +40,14 @@ char *replace_m4(const char *orig, const struct string_list *args)
 	const struct string_list *cur = args;
 
 	while (cur) {
-		const size_t arg_len = strlen(cur->string);
+		const struct string_list *end = next_argument(cur);
+		size_t arg_len = 0;
+		for (; cur != end; cur = cur->next) {
+			arg_len += strlen(cur->string) + 1;
+		}
 		if (arg_len > max_arg_len) {
 			max_arg_len = arg_len;
 		}
-		cur = cur->next;
 	}
 	// An argument can be substituted any number of times
 	for (const char *pos = strchr(orig, '$'); pos; pos = strchr(pos + 1, '$')) {
@@ -68,12 +81,19 @@ char *replace_m4(const char *orig, const struct string_list *args)
 		orig_pos += after_num_pos;
 		cur = args;
 		while (cur && arg_num > 1) {
-			cur = cur->next;
+			cur = next_argument(cur);
 			arg_num--;
 		}
 		if (cur) {
-			strcpy(ret_pos, cur->string);
-			ret_pos += strlen(cur->string);
+			const struct string_list *end = next_argument(cur);
+			for (; cur != end; cur = cur->next) {
+				strcpy(ret_pos, cur->string);
+				ret_pos += strlen(cur->string);
+				if (cur->next != end) {
+					strcpy(ret_pos, " ");
+					ret_pos++;
+				}
+			}
 		} else {
 			// We are inserting the empty string
 			*ret_pos = '\0';
@@ -95,6 +115,7 @@ struct string_list *replace_m4_list(const struct string_list *replace_with,
 			// Not substitutable (e.g. $*), keep the argument as written
 			cur->string = strdup(replace_from->string);
 		}
+		cur->continues_arg = replace_from->continues_arg;
 		*next = cur;
 		next = &cur->next;
 		replace_from = replace_from->next;
-- 
2.43.0


From d87ff2dbfb86797099c7bee562f44e510e322815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 37/38] fix: do not read a name starting with dnl as a comment

The rule for m4 comments matched any word starting with dnl, e.g. a type
dnlfoo_t, and dropped the rest of the line.  It did not match a dnl comment
on a last line without a line end either, which was then a syntax error.
---
 src/lex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 7d5b214..79f5757 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -93,6 +93,7 @@ void reset_current_lines(void) {
 %option bison-bridge
 %option bison-locations
 %%
+dnl([^a-zA-Z0-9_\n].*)? ; /* skip m4 comment lines, but not names starting with dnl */
 policy_module { return POLICY_MODULE; }
 module { return MODULE; }
 type { return TYPE; }
@@ -178,6 +179,5 @@ userdebug_or_eng { return USERDEBUG_OR_ENG; }
 \=\= { return EQUAL; }
 \#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)* { yylval->string = strdup(yytext); return SELINT_COMMAND; }
 \#.* { return COMMENT; }
-dnl(.*)?$ ; /* skip m4 comment lines */
 [ \t\n\r] ; /* normally skip whitespace */
 . { yylval->symbol = *yytext; return UNKNOWN_TOKEN; }
-- 
2.43.0


From c4f459a3f1f23247174477577f8b9802f04011e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:52 +0000
Subject: [PATCH 38/38] fix: a file context with a stray closing parenthesis is
 malformed

---
 src/parse_fc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 47961f3..e3058ff 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -165,7 +165,7 @@ cleanup:
 struct sel_context *parse_context(char *context_str)
 {
 
-	if (strchr(context_str, '(')) {
+	if (strpbrk(context_str, "()")) {
 		return NULL;
 	}
 
-- 
2.43.0

