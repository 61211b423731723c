From 2fb3b9cdbb4c30bf0544e7ff88f9f9e1cacec637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 01/20] fix: C-006 no longer reports an internal error for an
 ifdef in a require block

---
 src/if_checks.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/if_checks.c b/src/if_checks.c
index 6af2785..4440219 100644
--- a/src/if_checks.c
+++ b/src/if_checks.c
@@ -124,8 +124,9 @@ struct check_result *check_unordered_declaration_in_require(const struct
 	const struct declaration_data *prev_decl_data = NULL;
 	for (const struct policy_node *cur = child; cur; cur = cur->next) {
 		if (cur->flavor != NODE_DECL) {
-			return alloc_internal_error(
-				"Non declaration node in require block");
+			// e.g. an ifdef block: only directly adjacent declarations are ordered
+			prev_decl_data = NULL;
+			continue;
 		}
 
 		const struct declaration_data *decl_data = cur->data.d_data;
-- 
2.43.0


From d11bf31b24f7a17dd1d937ffbdabad2268319e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 02/20] fix: template substitution overflowed or left its
 result unterminated

A placeholder may occur more than once, and may have no argument at the
end of the text.
---
 src/template.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/template.c b/src/template.c
index 759f73f..8291732 100644
--- a/src/template.c
+++ b/src/template.c
@@ -26,12 +26,17 @@
 char *replace_m4(const char *orig, const struct string_list *args)
 {
 	size_t len_to_malloc = strlen(orig) + 1;
+	size_t args_len = 0;
 	const struct string_list *cur = args;
 
 	while (cur) {
-		len_to_malloc += strlen(cur->string);
+		args_len += strlen(cur->string);
 		cur = cur->next;
 	}
+	// The same argument may be substituted more than once
+	for (const char *c = strchr(orig, '$'); c; c = strchr(c + 1, '$')) {
+		len_to_malloc += args_len;
+	}
 	// len_to_malloc is now overestimated, because the length of the original
 	// arguments wasn't subtracted and not all args are necessarily substituted
 	char *ret = malloc(len_to_malloc);
@@ -49,6 +54,7 @@ char *replace_m4(const char *orig, const struct string_list *args)
 		}
 		strncpy(ret_pos, orig_pos, (size_t)(dollar_pos - orig_pos));
 		ret_pos += dollar_pos - orig_pos;
+		*ret_pos = '\0';        // There might be no argument to substitute
 		orig_pos = dollar_pos;
 
 		int ret_count =
-- 
2.43.0


From 9ce915b04a64fc0fa3d4eed141c664bde46b8be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 03/20] fix: crash on calls without arguments or with $* inside
 templates

---
 src/template.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/template.c b/src/template.c
index 8291732..116b7a8 100644
--- a/src/template.c
+++ b/src/template.c
@@ -81,19 +81,24 @@ char *replace_m4(const char *orig, const struct string_list *args)
 struct string_list *replace_m4_list(const struct string_list *replace_with,
                                     const struct string_list *replace_from)
 {
+	if (!replace_from) {
+		return NULL;
+	}
+
 	struct string_list *ret = calloc(1, sizeof(struct string_list));
 	struct string_list *cur = ret;
 
-	cur->string = replace_m4(replace_from->string, replace_with);
-	cur->next = NULL;
-	replace_from = replace_from->next;
-
 	while (replace_from) {
-		cur->next = calloc(1, sizeof(struct string_list));
-		cur = cur->next;
 		cur->string = replace_m4(replace_from->string, replace_with);
-		cur->next = NULL;
+		if (!cur->string) {
+			// Not something we can substitute ("$*"), so leave it as it is
+			cur->string = strdup(replace_from->string);
+		}
 		replace_from = replace_from->next;
+		if (replace_from) {
+			cur->next = calloc(1, sizeof(struct string_list));
+			cur = cur->next;
+		}
 	}
 	return ret;
 }
-- 
2.43.0


From 698ed934a3cb99f491569d42c6ce49339e7cf225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:40 +0000
Subject: [PATCH 04/20] fix: memory leak when a nested template cannot be
 expanded

---
 src/template.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/template.c b/src/template.c
index 116b7a8..6bbbf90 100644
--- a/src/template.c
+++ b/src/template.c
@@ -113,7 +113,6 @@ enum selint_error add_template_declarations(const char *template_name,
 	while (cur) {
 		if (strcmp(cur->string, template_name) == 0) {
 			// Loop
-			free_string_list(parent_temp_names);
 			return SELINT_IF_CALL_LOOP;
 		}
 		cur = cur->next;
@@ -135,6 +134,8 @@ enum selint_error add_template_declarations(const char *template_name,
 			                          mod_name);
 		free_string_list(new_args);
 		if (res != SELINT_SUCCESS) {
+			free(cur->string);
+			free(cur);
 			return res;
 		}
 
-- 
2.43.0


From fb6fb7c1d464809a6cdab97ec2ff68ee6f94e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 05/20] fix: order of requirement kinds was undefined without a
 configuration file

With no configuration file the C-006 order was an array of zeros, so requires
in the default order were reported. Use the defaults of the configuration.
---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 84bad03..e088b9a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -326,7 +326,9 @@ int main(int argc, char **argv)
 		}
 	}
 
-	struct config_check_data ccd = { ORDER_LAX, {}, true, true, NULL };
+	struct config_check_data ccd = { ORDER_LAX,
+		                         { DECL_BOOL, DECL_CLASS, DECL_ROLE, DECL_ATTRIBUTE_ROLE, DECL_ATTRIBUTE, DECL_TYPE },
+		                         true, true, NULL };
 
 	if (config_filename) {
 		char cfg_severity;
-- 
2.43.0


From 788bd9eebc368504d2c5f9efd63f36ffbd198bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 06/20] fix: categories of a gen_context were searched from the
 end of the level

The position found in the level was not reset before looking for the closing
parenthesis in the categories, so short categories were read past their end.
---
 src/parse_fc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index cedabdb..43085ca 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -103,6 +103,7 @@ struct fc_entry *parse_fc_line(char *line)
 		}
 
 		if (maybe_c) {
+			i = 0;
 			while (maybe_c[i] != '\0' && maybe_c[i] != ')') {
 				i++;
 			}
-- 
2.43.0


From c4792936267f32672f437e3f8f72c49f28107113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 07/20] fix: a lone '-' as object class in a file context was
 read past its end

---
 src/parse_fc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 43085ca..4e8c86b 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -49,7 +49,7 @@ struct fc_entry *parse_fc_line(char *line)
 	}
 
 	if (pos[0] == '-') {
-		if (pos[2] != '\0') {
+		if (pos[1] == '\0' || pos[2] != '\0') {
 			goto cleanup;
 		}
 		out->obj = pos[1];
-- 
2.43.0


From 67e071514a07f776c01ec650014c465e86147fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:33 +0000
Subject: [PATCH 08/20] fix: the line end was taken for a part of a plain file
 context

The type or range of a context without gen_context ended in a newline and was
reported as unknown, and <<none>> was refused on a last line without newline.
---
 src/parse_fc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 4e8c86b..2cccc08 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -32,6 +32,12 @@ struct fc_entry *parse_fc_line(char *line)
 
 	memset(out, 0, sizeof(struct fc_entry));
 
+	// The line end and trailing blanks are not part of the entry
+	size_t len = strlen(line);
+	while (len > 0 && strchr(" \t\r\n", line[len - 1])) {
+		line[--len] = '\0';
+	}
+
 	char *orig_line = strdup(line); // If the object class is omitted, we need to revert
 
 	char *pos = strtok(line, whitespace);
@@ -135,8 +141,7 @@ struct fc_entry *parse_fc_line(char *line)
 		} else {
 			out->context->range = NULL;
 		}
-	} else if (strcmp("<<none>>\n", pos) == 0
-	           || strcmp("<<none>>\r\n", pos) == 0) {
+	} else if (strcmp("<<none>>", pos) == 0) {
 		out->context = NULL;
 	} else {
 		out->context = parse_context(pos);
-- 
2.43.0


From 6df0cda31446e4d8d2a8228d4ce8e9fade25d50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 09/20] fix: the last line of modules.conf without line end was
 read past its end

---
 src/startup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/startup.c b/src/startup.c
index 142f89d..4e44860 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -112,7 +112,7 @@ static char *strip_space(char *str)
 
 	char *end = str;
 
-	while (!is_space(*end)) {
+	while (*end != '\0' && !is_space(*end)) {
 		end++;
 	}
 
-- 
2.43.0


From dfb7000f3a190cd62762d5f94cca9a45e5abd8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 10/20] fix: an identifier that starts with dnl was taken for
 an m4 comment

---
 src/lex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 8a0469d..a7e76cf 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -178,6 +178,6 @@ userdebug_or_eng { return USERDEBUG_OR_ENG; }
 \=\= { return EQUAL; }
 \#selint\-disable\:\ ?[CSWEF]\-[0-9]+(\,\ ?[CSWEF]\-[0-9]+)*$ { yylval->string = strdup(yytext); return SELINT_COMMAND; }
 \#.*$ { return COMMENT; }
-dnl(.*)?$ ; /* skip m4 comment lines */
+dnl([^a-zA-Z0-9_\n].*)?$ ; /* skip m4 comment lines */
 [ \t\n\r] ; /* normally skip whitespace */
 . { yylval->symbol = *yytext; return UNKNOWN_TOKEN; }
-- 
2.43.0


From 9666eb20af58b945fb2c194ccba3c96c79ee18e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 11/20] fix: the name of an interface in an unexpected file was
 not freed

---
 src/parse.y | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse.y b/src/parse.y
index 9dce0af..b81cb69 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -944,6 +944,7 @@ interface_def:
 start_interface:
 	if_keyword OPEN_PAREN BACKTICK STRING SINGLE_QUOTE COMMA BACKTICK {
 				if (expected_node_flavor != NODE_IF_FILE) {
+					free($4);
 					const struct location loc = { @1.first_line, @1.first_column, @7.last_line, @7.last_column };
 					yyerror(&loc, NULL, "Error: Unexpected if-file parsed");
 					YYERROR;
-- 
2.43.0


From d5346e79dcb4b2738d339fb54633c52adfc28f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 12/20] fix: suppression comments and user fields discarded
 after a syntax error were not freed

---
 src/parse.y | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse.y b/src/parse.y
index b81cb69..bc8d103 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -96,6 +96,7 @@
 %destructor { free($$); } NUMBER
 %destructor { free($$); } QUOTED_STRING
 %destructor { free($$); } VERSION_NO
+%destructor { free($$); } SELINT_COMMAND
 
 %token UNKNOWN_TOKEN;
 %token POLICY_MODULE;
@@ -193,7 +194,7 @@
 %type<av_flavor> xperm_av_type
 %type<node_flavor> if_keyword
 
-%destructor { free($$); } mls_component mls_level mls_range sl_item xperm_item
+%destructor { free($$); } mls_component mls_level mls_range sl_item xperm_item maybe_string_comma
 %destructor { free_string_list($$); } arg args comma_string_list string_list strings xperm_list xperm_items
 
 %%
-- 
2.43.0


From 69db1e8cf74e41c624b83ef6e5be5606e552eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 13/20] fix: a common definition was accepted in files other
 than access vector files

---
 src/parse.y | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse.y b/src/parse.y
index bc8d103..d7f37a8 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -1058,7 +1058,13 @@ av_class_definition:
 	;
 
 av_common_definition:
-	COMMON STRING av_permission_list { free($2); }
+	COMMON STRING av_permission_list {
+			if (expected_node_flavor != NODE_AV_FILE) {
+				free($2);
+				const struct location loc = { @1.first_line, @1.first_column, @3.last_line, @3.last_column };
+				yyerror(&loc, NULL, "Error: Unexpected av-file parsed"); YYERROR;
+			}
+			free($2); }
 	;
 
 av_permission_list:
-- 
2.43.0


From e2e388c5889c987631862b8938567f861acb8c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:14 +0000
Subject: [PATCH 14/20] fix: count requirements nested in a require block as
 required (W-001, W-002)

---
 src/te_checks.c | 18 ++++++++++--------
 src/tree.c      | 10 +++++++++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/te_checks.c b/src/te_checks.c
index cce2a5a..62cf23a 100644
--- a/src/te_checks.c
+++ b/src/te_checks.c
@@ -378,8 +378,9 @@ static int has_require(const struct policy_node *node, const char *name, enum de
 	const struct policy_node *cur = node;
 	while (cur) {
 		if (cur->flavor == NODE_REQUIRE || cur->flavor == NODE_GEN_REQ) {
+			const struct policy_node *req = cur;
 			cur = cur->first_child;
-			while (1) {
+			while (cur) {
 				if (cur->flavor == NODE_DECL && cur->data.d_data->flavor == flavor) {
 					if (0 == strcmp(name, cur->data.d_data->name)) {
 						return 1;
@@ -394,17 +395,18 @@ static int has_require(const struct policy_node *node, const char *name, enum de
 						other_types = other_types->next;
 					}
 				}
-				if (cur->next) {
-					cur = cur->next;
+				// Requirements can be nested, for example in an ifdef
+				if (cur->first_child) {
+					cur = cur->first_child;
 				} else {
-					break;
+					while (!cur->next && cur->parent != req) {
+						cur = cur->parent;
+					}
+					cur = cur->next;
 				}
 			}
 			// Not found in this require block, keep going
-			cur = cur->parent;
-			if (!cur) {
-				break;
-			}
+			cur = req;
 		}
 		if (cur->prev) {
 			cur = cur->prev;
diff --git a/src/tree.c b/src/tree.c
index 67239bd..c497bf3 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -320,7 +320,15 @@ struct string_list *get_names_required(const struct policy_node *node)
 			ret_cursor = ret_cursor->next;
 		}
 
-		cur = cur->next;
+		// Requirements can be nested, for example in an ifdef
+		if (cur->first_child) {
+			cur = cur->first_child;
+		} else {
+			while (!cur->next && cur->parent != node) {
+				cur = cur->parent;
+			}
+			cur = cur->next;
+		}
 	}
 
 	return ret;
-- 
2.43.0


From 13353e342a50d6f87162ae0aebda7faf1a9db816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 15/20] fix: C-006 called foo_t and foo__bar a repeated
 declaration

---
 src/if_checks.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/if_checks.c b/src/if_checks.c
index 4440219..7872be6 100644
--- a/src/if_checks.c
+++ b/src/if_checks.c
@@ -88,15 +88,22 @@ static int compare_declarations(const struct declaration_data *a, const struct d
 		++b_ptr;
 	}
 
+	int a_suffix = 0, b_suffix = 0;
+
 	if (*a_ptr == 't' && !*(a_ptr + 1) && a_ptr != a->name && *(a_ptr - 1) == '_') {
 		--a_ptr;
+		a_suffix = 1;
 	}
 
 	if (*b_ptr == 't' && !*(b_ptr + 1) && b_ptr != b->name && *(b_ptr - 1) == '_') {
 		--b_ptr;
+		b_suffix = 1;
 	}
 
-	return (unsigned char)*a_ptr - (unsigned char)*b_ptr;
+	r = (unsigned char)*a_ptr - (unsigned char)*b_ptr;
+
+	// different names are never equal, e.g. sort foo_t before foo__bar
+	return r != 0 ? r : b_suffix - a_suffix;
 }
 
 struct check_result *check_unordered_declaration_in_require(const struct
-- 
2.43.0


From 3703cc46d2141c8afbc5cb40e3c5ac90a91966c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 16/20] fix: permission macros referencing each other
 overflowed the stack

---
 src/perm_macro.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/perm_macro.c b/src/perm_macro.c
index 46db881..a7851bf 100644
--- a/src/perm_macro.c
+++ b/src/perm_macro.c
@@ -160,7 +160,15 @@ static const struct pm_ltable pm_ltable_common_file[] = {
 unsigned short popcount(mask_t mask);
 void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended);
 
-static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended)
+// names of the permission macros currently being expanded, innermost first
+struct pm_expansion {
+	const char *name;
+	const struct pm_expansion *outer;
+};
+
+static void permissions_to_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct pm_expansion *outer);
+
+static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended, const struct pm_expansion *outer)
 {
 	for (size_t i = 0; i < (sizeof pm_ltable_common_file / sizeof *pm_ltable_common_file); ++i) {
 		if (0 == strcmp(permission, pm_ltable_common_file[i].string)) {
@@ -170,9 +178,16 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 		}
 	}
 
-	const struct string_list *macro_perms = look_up_in_permmacros_map(permission);
+	// a permission macro referencing itself has no expansion
+	const struct pm_expansion *cur = outer;
+	while (cur && 0 != strcmp(permission, cur->name)) {
+		cur = cur->outer;
+	}
+
+	const struct string_list *macro_perms = cur ? NULL : look_up_in_permmacros_map(permission);
 	if (macro_perms) {
-		compute_perm_mask(macro_perms, mask_raw, mask_extended);
+		const struct pm_expansion inner = { permission, outer };
+		permissions_to_mask(macro_perms, mask_raw, mask_extended, &inner);
 		return;
 	}
 
@@ -181,13 +196,18 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 	*mask_extended |= PM_CF__UNCOVERED;
 }
 
-void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended)
+static void permissions_to_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended, const struct pm_expansion *outer)
 {
 	for (; permissions; permissions = permissions->next) {
-		str_to_mask(permissions->string, mask_raw, mask_extended);
+		str_to_mask(permissions->string, mask_raw, mask_extended, outer);
 	}
 }
 
+void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended)
+{
+	permissions_to_mask(permissions, mask_raw, mask_extended, NULL);
+}
+
 struct string_builder {
 	char *mem;
 	size_t len;
@@ -283,7 +303,7 @@ static char *permission_strings_matched_str(const struct string_list *permission
 
 	for (; permissions; permissions = permissions->next) {
 		mask_t mask_raw = 0, mask_extended = 0;
-		str_to_mask(permissions->string, &mask_raw, &mask_extended);
+		str_to_mask(permissions->string, &mask_raw, &mask_extended, NULL);
 		if ((mask_raw & mask) == mask_raw) {
 			sb_append_str(sb, permissions->string);
 			sb_append_str(sb, " ");
@@ -301,7 +321,7 @@ static unsigned short permission_strings_matched_count(const struct string_list
 
 	for (; permissions; permissions = permissions->next) {
 		mask_t mask_raw = 0, mask_extended = 0;
-		str_to_mask(permissions->string, &mask_raw, &mask_extended);
+		str_to_mask(permissions->string, &mask_raw, &mask_extended, NULL);
 		if ((mask_raw & mask) == mask_raw) {
 			count++;
 		}
-- 
2.43.0


From 6cde6d5b92fa03e7f9124d83473e1b7ef55efac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:02 +0000
Subject: [PATCH 17/20] fix: freeing a policy file with many statements
 overflowed the stack

---
 src/tree.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index c497bf3..31458aa 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -363,12 +363,8 @@ struct policy_node *dfs_next(const struct policy_node *node)
 	}
 }
 
-enum selint_error free_policy_node(struct policy_node *to_free)
+static void free_single_policy_node(struct policy_node *to_free)
 {
-	if (to_free == NULL) {
-		return SELINT_BAD_ARG;
-	}
-
 	switch (to_free->flavor) {
 	case NODE_HEADER:
 		free_header_data(to_free->data.h_data);
@@ -420,12 +416,22 @@ enum selint_error free_policy_node(struct policy_node *to_free)
 	free_policy_node(to_free->first_child);
 	to_free->first_child = NULL;
 
-	free_policy_node(to_free->next);
-	to_free->next = NULL;
+	free(to_free);
+}
+
+enum selint_error free_policy_node(struct policy_node *to_free)
+{
+	if (to_free == NULL) {
+		return SELINT_BAD_ARG;
+	}
 
-	to_free->prev = NULL;
+	// iterate over the siblings, a file might contain a lot of them
+	while (to_free) {
+		struct policy_node *next = to_free->next;
 
-	free(to_free);
+		free_single_policy_node(to_free);
+		to_free = next;
+	}
 
 	return SELINT_SUCCESS;
 }
-- 
2.43.0


From 7ab2a395aef80c7620a0dfe0b0b288f78a038dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 18/20] fix: freeing the sections of a policy file recursed
 once per section

---
 src/ordering.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ordering.c b/src/ordering.c
index 3cbfa56..e18330d 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -959,10 +959,12 @@ void free_ordering_metadata(struct ordering_metadata *to_free)
 
 void free_section_data(struct section_data *to_free)
 {
-	if (to_free == NULL) {
-		return;
+	// iterate over the sections, a file might contain a lot of them
+	while (to_free) {
+		struct section_data *next = to_free->next;
+
+		free(to_free->section_name);
+		free(to_free);
+		to_free = next;
 	}
-	free(to_free->section_name);
-	free_section_data(to_free->next);
-	free(to_free);
 }
-- 
2.43.0


From b3ac685e2a36b5ac3399e7c4c241dbb0a7eb13bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 19/20] fix: an empty or abbreviated check id was not
 recognised as invalid

is_valid_check() read past the end of an empty id, and accepted ids like
W-1 or C-001x, which name no check, so that they were silently ignored.
---
 src/check_hooks.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/check_hooks.c b/src/check_hooks.c
index 1fd3873..a24839b 100644
--- a/src/check_hooks.c
+++ b/src/check_hooks.c
@@ -137,7 +137,9 @@ int is_valid_check(const char *check_str)
 		return 0;
 	}
 
-	if (check_str[1] != '-') {
+	// a severity letter, a dash and three digits
+	if (check_str[0] == '\0' || check_str[1] != '-' ||
+	    strspn(check_str + 2, "0123456789") != 3 || check_str[5] != '\0') {
 		return 0;
 	}
 
-- 
2.43.0


From 7d1bebcf41b6326e8e3cfc387af867b01c0c2c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 20/20] fix: C-001 sorted type transitions by their target
 instead of their source

get_section() read the sources of a type transition through the structure
of access vector rules, which yields its targets.
---
 src/ordering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ordering.c b/src/ordering.c
index e18330d..a5c8e3a 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -206,7 +206,7 @@ const char *get_section(const struct policy_node *node)
 		// from an ordering standpoint?
 		// The case of multiple source types is weird.  For now
 		// just using the first one seems fine.
-		return node->data.av_data->sources->string;
+		return node->data.tt_data->sources->string;
 	case NODE_RT_RULE:
 		return SECTION_NON_ORDERED;
 	case NODE_ROLE_ALLOW:
-- 
2.43.0

